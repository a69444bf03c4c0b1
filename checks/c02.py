"""C02: history independence of the other stateful models.

UpsampledSpectra, AlignmentAmplitudes/SatelliteAlignment, NonLinearBias,
HaloModelIngredients and CosmologyBase used on their own.
"""

import os

import numpy as np

from vlib import boot, explore, fakeemu, histories as hi, observe as ob, space as sp

MODES = ['mm', 'gg', 'gm', 'gi', 'mi', 'ii']
COMP = ['1h', '2h', 'tot']


# ------------------------------------------------------------------ UpsampledSpectra
class UpsampledSpace(hi.Space):
    def look(self, obj, leaf=ob.fleaf, names=None, reverse=False):
        modes = [m for m in MODES if names is None or m in names]
        comps = COMP
        if reverse:
            modes, comps = modes[::-1], comps[::-1]
        out = {}
        try:
            obj.results(modes, comps)
        except Exception as e:
            return {'results': ('raises', type(e).__name__)}
        for m in modes:
            for k, v in ob.expand(m, getattr(obj, f'power_spectrum_{m}'), leaf):
                out[k] = v
        if names is None:
            for q in ('frac_1', 'frac_2'):
                for k, v in ob.observe_one(obj, q, leaf):
                    out[k] = v
        return out


def small(**kw):
    d = sp.spectra_base(**kw)
    for n in ('hod_settings_mm', 'obs_settings'):
        d.pop(n)
    return d


def upsampled_spaces():
    from onepower import Spectra, UpsampledSpectra

    def build(cfg):
        return UpsampledSpectra(**{k.lstrip('_'): v for k, v in cfg.items()})

    z, k = np.array([0.05, 0.2, 0.5]), np.logspace(-2.7, 1.0, 7)
    fz, f = np.array([0.0, 0.3, 0.8]), np.array([0.8, 0.6, 0.1])
    ops = [
        ('z', np.array([0.1, 0.3, 0.4])),
        ('z', np.array([0.15, 0.25])),
        ('k', np.logspace(-2.0, 0.5, 7)),
        ('fraction', f * 0.5),
        ('fraction', None),
        ('fraction_z', np.array([0.0, 0.5, 0.6])),
        ('extrapolate_option', 0.0),
        ('_model_1_params', {'h0': 0.68}),
        ('_model_1_params', {'hod_settings': sp.settings(1)}),
        ('_model_2_params', None),
        ('_model_2_params', {'align_params': {'gamma_2h_amplitude': 1.0}}),
        ('_model_2_params', {'hod_settings': sp.settings(2)}),
        ('model', Spectra(**small(omega_c=0.22))),
        ('model', None),
    ]
    base = dict(
        z=z, k=k, fraction_z=fz, fraction=f, extrapolate_option='extrapolate', model=None,
        _model_1_params=small(), _model_2_params={'hod_settings': sp.settings(1)},
    )  # fmt: skip
    b2 = dict(base, model=Spectra(**small()), _model_2_params=None, fraction=None, fraction_z=None)
    for name, b in (('upsampled', base), ('upsampled-model', b2)):
        o = list(ops)
        if b['fraction'] is None:
            o = [x for x in o if x[0] not in ('fraction', 'fraction_z')] + [('_model_2_params', {'h0': 0.66})]
        o = [x for x in o if not sp.same(b[x[0]], x[1])]
        yield UpsampledSpace(name, build, b, o)


# ------------------------------------------------------------------------- alignment
def catalogue(seed):
    from astropy.table import Table

    path = os.path.join(boot.SCRATCH, f'lum{seed}.fits')
    if not os.path.exists(path):
        i = np.arange(400)
        zz = 0.05 + 0.6 * ((i * 0.618034) % 1.0)
        lum = 9.5 + 0.3 * seed + 1.5 * ((i * 0.7548777) % 1.0) + 0.4 * zz
        Table({'z': zz, 'loglum': lum}).write(path, format='fits', overwrite=True)
    return path


class AlignSpace(hi.Space):
    K = np.logspace(-2, 1, 5)

    def look(self, obj, leaf=ob.fleaf, names=None, reverse=False):
        out = super().look(obj, leaf, names, reverse)
        if names is None and hasattr(obj, 'upsampled_wkm'):
            try:
                out['upsampled_wkm()'] = leaf(obj.upsampled_wkm(self.K, obj.mass))
            except Exception as e:
                out['upsampled_wkm()'] = ('raises', type(e).__name__)
        return out


def align_inputs(seed=0, nz=3, nm=12):
    m = np.logspace(11.0, 15.0 + 0.1 * seed, nm)
    z = np.linspace(0.1, 0.5, nz) + 0.01 * seed
    c = (7.0 + seed) * (m / 1e13)[None, :] ** -0.1 / (1 + z)[:, None]
    rvir = (0.2 + 0.01 * seed) * (m / 1e12) ** (1 / 3.0)
    return dict(z_vec=z, mass_in=m, c_in=c, r_s_in=rvir[None, :] / c, rvir_in=rvir)


def align_spaces(thorough):
    from onepower.ia import AlignmentAmplitudes, SatelliteAlignment

    a, b = align_inputs(0), align_inputs(1)
    base = dict(
        a, central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass', gamma_2h_amplitude=5.0,
        beta_cen=0.4, beta_two=None, gamma_1h_amplitude=0.002, gamma_1h_slope=-1.5, beta_sat=0.3, mpivot_cen=13.2,
        mpivot_sat=13.4, lpivot_cen=10.2, lpivot_sat=10.0, z_loglum_file_centrals=catalogue(0),
        z_loglum_file_satellites=catalogue(1), n_hankel=20, nmass=5, nk=6, ell_max=6, truncate=False, method='fftlog',
    )  # fmt: skip
    ops = [
        ('z_vec', b['z_vec']), ('mass_in', b['mass_in']), ('c_in', b['c_in']), ('r_s_in', b['r_s_in']),
        ('rvir_in', b['rvir_in']), ('rvir_in', np.repeat(b['rvir_in'][None, :], 3, 0) * np.array([[1.0], [1.1], [1.2]])),
        ('central_ia_depends_on', 'constant'), ('central_ia_depends_on', 'luminosity'), ('central_ia_depends_on', 'halo_mass'),
        ('satellite_ia_depends_on', 'constant'), ('satellite_ia_depends_on', 'luminosity'), ('satellite_ia_depends_on', 'halo_mass'),
        ('gamma_2h_amplitude', 4.0), ('beta_cen', 0.7), ('beta_two', 1.3), ('beta_two', None), ('gamma_1h_amplitude', 0.01),
        ('gamma_1h_slope', -2.0), ('gamma_1h_slope', -2), ('gamma_1h_slope', 0), ('beta_sat', 0.9), ('mpivot_cen', 12.0), ('mpivot_sat', 12.5), ('mpivot_cen', None), ('mpivot_sat', None),
        ('lpivot_cen', 9.9), ('lpivot_sat', 9.8), ('lpivot_cen', None), ('z_loglum_file_centrals', catalogue(2)), ('z_loglum_file_satellites', catalogue(3)),
        ('z_loglum_file_centrals', None), ('n_hankel', 25), ('nmass', 4), ('nmass', 12), ('nk', 7), ('ell_max', 4), ('ell_max', 8),
        ('truncate', True), ('method', 'hankel'), ('method', 'fftlog'),
    ]  # fmt: skip

    def build(cfg):
        return SatelliteAlignment(**cfg)

    for name, kw in (
        ('sat-fftlog', {}),
        ('sat-hankel', dict(method='hankel', n_hankel=12, nk=4, ell_max=4)),
        ('sat-lum', dict(central_ia_depends_on='luminosity', satellite_ia_depends_on='luminosity', beta_two=0.8)),
    ):
        bb = dict(base, **kw)
        yield AlignSpace(name, build, bb, [o for o in ops if not sp.same(bb[o[0]], o[1])])
    keys = [k for k in base if k not in ('mass_in', 'c_in', 'r_s_in', 'rvir_in', 'n_hankel', 'nmass', 'nk', 'ell_max', 'truncate', 'method')]
    bb = {k: base[k] for k in keys}
    bb['central_ia_depends_on'] = 'luminosity'
    yield AlignSpace('amplitudes', lambda c: AlignmentAmplitudes(**c), bb, [o for o in ops if o[0] in keys and not sp.same(bb[o[0]], o[1])])


# ---------------------------------------------------------------------- nonlinear bias
class BiasSpace(hi.Space):
    def look(self, obj, leaf=ob.fleaf, names=None, reverse=False):
        out = super().look(obj, leaf, names, reverse)
        if names is None:
            try:
                out['rvir()'] = leaf(obj.rvir(np.array([1e12, 1e14])))
            except Exception as e:
                out['rvir()'] = ('raises', type(e).__name__)
        return out


def bias_spaces():
    try:
        from onepower.bnl import NonLinearBias
    except ImportError:
        return
    base = dict(mass=np.logspace(11.5, 15, 6), z_vec=np.array([0.1, 0.4]), k_vec=np.logspace(-2, 1, 7), h0=0.68, sigma_8=0.8,
                A_s=None, omega_b=0.048, omega_c=0.25, omega_lambda=0.7, n_s=0.96, w0=-1.0, z_dep=False)  # fmt: skip
    ops = [
        ('mass', np.logspace(12, 14.5, 5)), ('z_vec', np.array([0.0, 0.7, 1.0])), ('k_vec', np.logspace(-1.5, 1.4, 6)),
        ('h0', 0.7), ('sigma_8', 0.75), ('sigma_8', None), ('A_s', 2.3e-9), ('A_s', None), ('omega_b', 0.046), ('omega_c', 0.26),
        ('omega_lambda', 0.65), ('n_s', 0.98), ('n_s', 1.2), ('w0', -0.9), ('z_dep', True), ('z_dep', False),
    ]  # fmt: skip
    for name, kw in (('bias', {}), ('bias-z', dict(z_dep=True)), ('bias-As', dict(A_s=2.0e-9))):
        b = dict(base, **kw)
        yield BiasSpace(name, lambda c: NonLinearBias(**c), b, [o for o in ops if not sp.same(b[o[0]], o[1])])


# ------------------------------------------------------------------------- ingredients
def ingredient_spaces():
    from onepower import HaloModelIngredients
    from onepower.hmi import CosmologyBase
    import inspect

    for name, cls, kw in (
        ('cosmology', CosmologyBase, {}),
        ('ingredients', HaloModelIngredients, {}),
        ('ingredients-mead', HaloModelIngredients, dict(hmcode_ingredients='mead2020_feedback')),
    ):
        sig = {}
        for c in ((CosmologyBase,) if cls is CosmologyBase else (CosmologyBase, HaloModelIngredients)):
            for n, p in inspect.signature(c.__init__).parameters.items():
                if p.default is not p.empty:
                    sig[n] = p.default
        b = dict(sig, **{k: v for k, v in sp.GRID.items() if k in sig}, **kw)
        ops = [(n, v) for n, vs in sp.ALPHABET.items() for v in vs if n in b and not sp.same(b[n], v)]
        yield hi.Space(name, lambda c, cls=cls: cls(**c), b, ops)


def compensating(s):
    """Joint updates that leave the obvious summaries as they are."""
    b = s.base
    if s.name.startswith('bias'):
        yield dict(omega_b=b['omega_b'] - 0.002, omega_c=b['omega_c'] + 0.002)
        yield dict(h0=b['h0'] * 1.02, omega_b=b['omega_b'] / 1.02**2, omega_c=b['omega_c'] / 1.02**2)
        yield dict(A_s=2.1e-9, sigma_8=None)
    elif s.name.startswith(('sat', 'amp')):
        yield dict(beta_cen=b['beta_sat'], beta_sat=b['beta_cen'])
        yield dict(z_loglum_file_centrals=b['z_loglum_file_satellites'], z_loglum_file_satellites=b['z_loglum_file_centrals'])
        yield dict(lpivot_cen=b['lpivot_sat'], lpivot_sat=b['lpivot_cen'])
        yield dict(central_ia_depends_on='luminosity', satellite_ia_depends_on='constant')
        yield dict(central_ia_depends_on='constant', satellite_ia_depends_on='luminosity')
        if 'c_in' in b:
            yield dict(c_in=b['c_in'] * 1.3, r_s_in=b['r_s_in'] / 1.3)
            yield dict(ell_max=b['ell_max'] + 1)
            yield {n: v for n, v in align_inputs(1).items()}
    elif s.name.startswith('upsampled'):
        if b['fraction'] is not None:
            yield dict(fraction=b['fraction'][::-1].copy())
            yield dict(fraction=b['fraction'][::-1].copy(), fraction_z=b['fraction_z'] * 0.9)
        yield dict(z=b['z'] * 0.9, k=b['k'] * 1.1)
    elif 'omega_c' in b:
        yield dict(omega_c=0.26, omega_b=0.04)
        yield dict(w0=-0.9, wa=-0.1)
        yield dict(h0=0.7 * 1.1, omega_c=0.25 / 1.21, omega_b=0.05 / 1.21)
        if 'Mmin' in b:
            yield dict(Mmin=11.25, Mmax=15.75)
            yield dict(norm_cen=1.1, norm_sat=0.9)
            yield dict(lnk_min=b['lnk_min'] - 0.5, lnk_max=b['lnk_max'] - 0.5)


def run(r):
    fakeemu.install()
    thorough = r.tier == 'thorough'
    spaces = list(bias_spaces()) + list(align_spaces(thorough)) + list(upsampled_spaces()) + list(ingredient_spaces())
    viol = []
    for s in spaces:
        allops = range(len(s.ops))
        deep = thorough or s.name.startswith(('bias', 'upsampled', 'amplitudes', 'sat-lum', 'cosmology'))
        firsts = list(allops)
        if not deep:
            sel = ('method', 'central_ia_depends_on', 'satellite_ia_depends_on', 'ell_max', 'nmass', 'hmcode_ingredients', 'mdef_model')
            firsts = [i for i in allops if s.ops[i][0] in sel]
        paths = [()] + [(i,) for i in allops] + [(i, j) for i in firsts for j in allops if s.ops[i][0] != s.ops[j][0]]
        s.compute_oracles(paths)
        for k in s.oracle:
            r.state((s.name, k))
        jobs = [('chain', i) for i in firsts] + [('single', i) for i in allops if i not in set(firsts)]
        if isinstance(s, UpsampledSpace):
            jobs += [('reads', m) for m in MODES]
        elif not s.name.startswith('ingr') or thorough:
            obj = s.build(__import__('copy').deepcopy(s.base))
            jobs += [('reads', q) for q in ob.public_quantities(obj)]
        jobs += [('joint', i) for i in firsts[:: 1 if thorough else 4]]

        def work(job):
            kind, x = job
            if kind == 'chain':
                return hi.explore_from(s, x, allops)
            if kind == 'single':
                return hi.explore_from(s, x, [])
            if kind == 'reads':
                return hi.explore_reads(s, x, allops)
            return hi.explore_lazy(s, x, allops, kind)

        for job, (out, n) in zip(jobs, explore.pmap(work, jobs)):
            r.step(n['steps'])
            r.trace(n['traces'])
            for hist, what in out:
                viol.append((len(hist), s.name, hist, what))
        t = type(s)(s.name + '-subtle', s.build, s.base, hi.inconspicuous({k: v for k, v in s.base.items() if not k.startswith('_model')}) + [(hi.JOINT, d) for d in compensating(s)])
        allops = list(range(len(t.ops)))
        t.compute_oracles([()] + [(i,) for i in allops])
        for k in t.oracle:
            r.state((t.name, k))
        for out, n in explore.pmap(lambda i: hi.explore_from(t, i, []), allops):
            r.step(n['steps'])
            r.trace(n['traces'])
            for hist, what in out:
                viol.append((len(hist), t.name, hist, what))
        r.sample({'space': s.name, 'history': [hi.label(s.ops[i]) for i in (0, len(s.ops) - 1)]}, limit=12)
        r.say(f'{s.name}: {len(s.ops)} updates, {len(s.oracle)} configurations')
    for _, name, hist, what in sorted(viol, key=lambda v: (v[0], v[1], v[2])):
        r.violation(f'{name}|' + '|'.join(hist), what, [name] + hist)
    r.assumptions += ['Dark Emulator replaced by a deterministic stand-in', 'UpsampledSpectra: a model object given to it is not updated behind its back']
    return r.finish()
