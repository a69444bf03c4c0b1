"""C09: the galaxy populations (halo occupation models) are the published ones, in every bin."""

import math
import os

import numpy as np

from vlib import awkward, boot, explore, lattice, refhod, space as sp, special

KEYS = (
    'number_density_cen', 'number_density_sat', 'number_density', 'f_c', 'f_s', 'avg_halo_mass_cen', 'avg_halo_mass_sat',
    'avg_halo_mass', 'galaxy_linear_bias_cen', 'galaxy_linear_bias_sat', 'galaxy_linear_bias', 'hod_cen', 'hod_sat', 'hod',
    'stellar_fraction_cen', 'stellar_fraction_sat', 'stellar_fraction',
)  # fmt: skip
MODELS = ('Cacciato', 'Simple', 'Zehavi', 'Zheng', 'Zhai')


def obs_file(seed, nz):
    path = os.path.join(boot.SCRATCH, f'obs{seed}_{nz}.txt')
    if not os.path.exists(path):
        z = np.linspace(0.02, 0.6 + 0.05 * seed, nz)
        lo = 10 ** (8.5 + 0.5 * z + 0.1 * seed)
        np.savetxt(path, np.column_stack([z, lo, lo * 12, z * 0 - 1]))
    return path


def populations():
    """Parameter sets per model: (number of bins the values are for, parameters)."""
    out = {m: [(None, {})] for m in MODELS}
    out['Cacciato'] += [
        (None, dict(log10_obs_norm_c=10.2, log10_m_ch=11.6, g1=2.5, g2=0.4)),
        (None, dict(sigma_log10_O_c=0.3, norm_s=0.8, pivot=12.5, alpha_s=-0.8, beta_s=1.2)),
        (None, dict(b0=-0.8, b1=1.1, b2=-0.4)),
    ]
    out['Simple'] += [(None, dict(log10_Mmin=11.5, log10_Msat=12.6, alpha=1.3)), (2, dict(log10_Mmin=[11.5, 12.2], log10_Msat=[12.6, 13.1], alpha=[1.3, 0.7]))]
    out['Zehavi'] += [(None, dict(log10_Mmin=11.5, log10_Msat=12.6, alpha=1.3)), (2, dict(log10_Mmin=[11.5, 12.2], log10_Msat=[12.6, 13.1], alpha=[1.3, 0.7]))]
    out['Zheng'] += [
        (None, dict(sigma=0.0)), (None, dict(log10_Mmin=12.5, log10_M0=11.3, log10_M1=13.3, sigma=0.5, alpha=1.4)),
        (2, dict(log10_Mmin=[12.0, 12.6], log10_M0=[12.2, 11.9], log10_M1=[13.0, 13.4], sigma=[0.2, 0.0], alpha=[1.0, 0.8])),
        (3, dict(log10_Mmin=[11.6, 12.2, 13.0], log10_M0=[12.0, 12.3, 13.1], log10_M1=[13.0, 13.4, 14.0], sigma=[0.0, 0.3, 0.6], alpha=[1.0, 0.8, 1.1])),
    ]  # fmt: skip
    out['Zhai'] += [
        (None, dict(sigma=0.0, log10_Mmin=12.9)), (None, dict(log10_Mmin=12.5, log10_Msat=13.9, log10_Mcut=12.9, sigma=0.4, alpha=0.9)),
        (2, dict(log10_Mmin=[13.0, 12.6], log10_Msat=[14.5, 13.9], log10_Mcut=[12.3, 12.0], sigma=[0.8, 0.0], alpha=[0.5, 0.8])),
    ]  # fmt: skip
    return out


def settings_list():
    s = sp.settings
    uneven = dict(s(0, 2), zmin=np.array([0.0, 0.25]), zmax=np.array([0.3, 0.7]), obs_max=np.array([9.0, 11.4]))
    return [
        ('one', s()), ('unit', dict(s(1), observable_h_unit='1/h')), ('narrow', dict(s(), zmin=np.array([0.2]), zmax=np.array([0.3]), nz=3)),
        ('odd', dict(s(2), nz=5, nobs=15)), ('two', s(0, 2)), ('uneven', uneven), ('three', dict(s(0, 3), nz=2, nobs=11, observable_h_unit='1/h')),
        ('defaults', {}), ('partial', {'obs_min': np.array([9.0]), 'nobs': 21}), ('lists', {'obs_min': [9.0], 'obs_max': [10.5], 'zmin': [0.0], 'zmax': [0.5]}),
        ('file', {'observables_file': obs_file(0, 4), 'nobs': 13}), ('file2', dict(s(1), observables_file=obs_file(1, 3))),
    ]  # fmt: skip


def special_populations():
    """Every parameter of every model at its special values, one at a time."""
    out = {
        'Cacciato': dict(log10_obs_norm_c=[10, 8.0, 9.9501, 12.0], log10_m_ch=[11, 9.0, 14.0], g1=[0.245, 1, 0, 8.0], g2=[0, 3.18, -0.3, 1], sigma_log10_O_c=[0.01, 1, 0.1571],
                         norm_s=[1, 0.05, 3.0], pivot=[13, 10.0, 16.0], alpha_s=[-1, 0, 1.5, -2.5], beta_s=[1, 2.0, 0.3, 5], b0=[0, 1.2], b1=[0, -1.0, 3.0], b2=[0, 0.3, -1.0]),
        'Simple': dict(log10_Mmin=[12, 10.0, 13.0, 14.9, 12.0001], log10_Msat=[13, 12.0, 10.0, 16.0], alpha=[0, 0.0, 1, 2.5, -0.5]),
        'Zehavi': dict(log10_Mmin=[12, 10.0, 13.0, 14.9, 12.0001], log10_Msat=[13, 12.0, 10.0, 16.0], alpha=[0, 0.0, 1, 2.5, -0.5]),
        'Zheng': dict(log10_Mmin=[12, 10.0, 13.0, 14.9], log10_M0=[12, 10.0, 13.0, 14.9, 9], log10_M1=[13, 12.0, 16.0], sigma=[0, 0.0, 1e-3, 0.01, 1, 3.0], alpha=[0, 1, 2.5, 0.3]),
        'Zhai': dict(log10_Mmin=[12, 10.0, 14.87, 14.9], log10_Msat=[13.68, 12, 16.0], log10_Mcut=[13.68, 9, 14.87, 16.0], sigma=[0, 0.0, 1e-3, 0.01, 1, 3.0], alpha=[0, 1, 2.5, -0.3]),
    }  # fmt: skip
    return [(m, {k: v}) for m in out for k, vs in out[m].items() for v in vs]


def per_bin(name, n):
    """Different values of every parameter in each of n bins."""
    d = {k: [float(v) + (0.07 if k in ('sigma', 'alpha') else 0.25) * ((3 * b + 1) % n) for b in range(n)] for k, v in refhod.PARAMS[name].items()}
    return [d, dict(d, **{k: v[::-1] for k, v in d.items() if k == 'log10_Mmin'}), {k: [x[0]] * (n - 1) + [x[-1]] for k, x in d.items()}]


def odd_files():
    """Tables of observable limits: orders, single rows, limits that do not move."""
    z = np.array([0.02, 0.2, 0.35, 0.6])
    lo = 10 ** (8.5 + 0.8 * z)
    tabs = {'as given': (z, lo, lo * 12), 'descending': (z[::-1], lo[::-1], lo[::-1] * 12), 'shuffled': (z[[2, 0, 3, 1]], lo[[2, 0, 3, 1]], lo[[2, 0, 3, 1]] * 7),
            'constant': (z, lo * 0 + 1e9, lo * 0 + 1e10), 'same top': (z, lo, lo * 0 + 2e11), 'same bottom': (z, lo * 0 + 1e9, lo * 20), 'two': (z[:2], lo[:2], lo[:2] * 5),
            'falling': (z, lo[::-1], lo[::-1] * 9), 'uneven': (np.array([0.0, 0.01, 0.5, 0.55, 0.9]), np.array([1e9, 3e9, 2e9, 2e9, 5e8]), np.array([2e9, 1e11, 3e10, 1e10, 1e10]))}  # fmt: skip
    out = {}
    for n, t in tabs.items():
        path = os.path.join(boot.SCRATCH, f'odd_{n}.txt')
        np.savetxt(path, np.column_stack([*t, t[0] * 0 + 7]))
        out[n] = path
    return out


def halos(extra=()):
    out = []
    for nm, z in ((18, np.array([0.1, 0.45])), (15, np.array([0.0, 0.2, 0.5, 0.9])), (31, np.array([0.4, 0.1, 0.25])), *extra):
        m = np.logspace(10.5, 15.2, nm)
        n = 1e-2 * (m / 1e12)[None, :] ** -0.9 * np.exp(-(m / 3e14)[None, :]) * (1 + 0.3 * z)[:, None] ** -1
        b = 0.7 + (m / 3e13)[None, :] ** 0.5 * (1 + z)[:, None]
        out.append((m, n, b, z))
    return out


def run(r):
    from astropy.cosmology import FlatLambdaCDM

    from onepower import hod

    thorough = r.tier == 'thorough'
    pops, hs = populations(), halos()
    cases = []
    A = [(None, None), (0.3, -0.2), (-0.6, None), (0.0, 0.4), (None, 0.0), (1.0, 1.0), (-1.0, -0.9)]
    for name in MODELS:
        for nb, p in pops[name]:
            for label, st in settings_list():
                bins = 1 if st.get('observables_file') else len(st.get('obs_min', [0]))
                if name != 'Cacciato' and (nb or 1) != bins:
                    continue
                for a in A:
                    for g in range(len(hs)):
                        cases.append((name, p, label, st, a, g))

    # special values: parameters, bin layouts, tables, redshift grids
    n0 = len(hs)
    zg = special.zs()
    hs += halos([(18, z) for n, z in zg.items() if not n.startswith('repeated')])[n0:]  # interpolated in redshift: they have to differ
    for name, p in special_populations():
        for label, st in (('one', sp.settings()), ('two z', dict(sp.settings(1), zmin=np.array([0.05]), zmax=np.array([0.5]), nz=7, nobs=25))):
            for g in (0, 2):
                cases.append((name, p, label, st, (None, None), g))
                cases.append((name, p, label, st, (0.3, -0.2), g))
    for label, st in special.layouts().items():
        n = len(st['obs_min'])
        for g in range(n0):
            cases += [('Cacciato', p, label, st, a, g) for p in ({}, dict(b0=-0.8, sigma_log10_O_c=0.3)) for a in ((None, None), (0.3, -0.2))]
            for name in MODELS[1:]:
                cases += [(name, p, label, st, (None, None), g) for p in per_bin(name, n) + ([{}] if n == 1 else [])]
    for label, path in odd_files().items():
        for name in MODELS:
            for g in range(n0):
                cases += [(name, {}, 'file ' + label, {'observables_file': path, 'nobs': nobs}, a, g) for nobs in (13, 30) for a in ((None, None), (-0.4, 0.6))]
    for g in range(n0, len(hs)):
        for name in MODELS:
            cases += [(name, {}, label, st, (None, None), g) for label, st in (('one', sp.settings()), ('file', {'observables_file': obs_file(0, 4), 'nobs': 13}))]
    for a in ((0, 0), (1, -1), (0.5, 0.5), (0.3, 2.0), (-0.2, 0.3)):
        for name in MODELS:
            cases.append((name, {}, 'one', sp.settings(), a, 0))

    def one(case):
        name, p, label, st, a, g = case
        m, n, b, z = hs[g]
        par = dict(p)
        if a[0] is not None:
            par['A_cen'] = a[0]
        if a[1] is not None:
            par['A_sat'] = a[1]
        h = 0.67 + 0.02 * g
        want = refhod.HOD(name, par, st, m, n, b, z, h)
        got = getattr(hod, name)(
            cosmo=FlatLambdaCDM(H0=100 * h, Om0=0.3), mass=m.copy(), dndlnm=n.copy(), halo_bias=b.copy(), z_vec=z.copy(), hod_settings=dict(st), **par
        )
        bad = []
        for k in KEYS:
            try:
                d = lattice.close(getattr(got, k), getattr(want, k))
            except Exception as e:
                d = f'raises {type(e).__name__}: {e}'
            if d:
                bad.append(f'{k}: {d}')
        if name == 'Cacciato':
            for k in ('obs_func_cen', 'obs_func_sat'):
                d = lattice.close(getattr(got, k), getattr(want, k))
                if d:
                    bad.append(f'{k}: {d}')
            d = lattice.close(got.obs_func, want.obs_func_cen + want.obs_func_sat)
            if d:
                bad.append(f'obs_func: {d}')
        # what every population satisfies, whatever the model
        zz = np.asarray(got.z)
        for bi in range(zz.shape[0]):
            inside = (z >= zz[bi].min()) & (z <= zz[bi].max())
            s = (got.f_c + got.f_s)[bi][inside]
            if not np.allclose(s, 1.0, rtol=1e-9):
                bad.append('central and satellite fractions do not sum to one')
        nc = got.hod_cen[:, (z >= zz.min()) & (z <= zz.max())]
        if name != 'Cacciato' and nc.size and (nc.min() < -1e-12 or nc.max() > 1 + 1e-12):
            bad.append('central occupation outside [0, 1]')
        return bad

    res = explore.pmap(one, cases, chunk=16, progress='populations')
    for c, bad in zip(cases, res):
        key = (c[0], repr(sorted(c[1].items())), c[2], c[4], c[5])
        r.state(key)
        r.step()
        r.trace()
        for d in bad:
            r.violation('|'.join(map(str, key)) + '|' + d.split(':')[0], f'{c[0]}: {d}', list(map(str, key)))
        r.sample(list(map(str, key)))
    r.say(f'{len(cases)} populations')

    # the populations a Spectra model actually uses: which settings go where
    def visit(model, cfg, mem):
        m, n, b, z = model.mass, model.dndlnm, model.halo_bias, cfg['z_vec']

        def ref(which):
            return refhod.HOD(cfg['hod_model'], cfg['hod_params'], cfg[which] or {}, m, n, b, z, cfg.get('h0', 0.7))

        main = ref('hod_settings')
        for k in KEYS:
            d = lattice.close(getattr(model.hod, k), getattr(main, k))
            if d:
                yield f'hod.{k}: {d}'
        d = lattice.close(model.fstar, main.stellar_fraction)
        if d:
            yield f'fstar: {d}'
        d = lattice.close(model.mass_avg, main.avg_halo_mass_cen / main.number_density)
        if d:
            yield f'mass_avg: {d}'
        fit = cfg['hmcode_ingredients'] == 'fit' and cfg['hod_model'] == 'Cacciato'
        want = ref('hod_settings_mm').stellar_fraction if fit else np.zeros((1, z.size, m.size))
        d = lattice.close(model.fstar_mm, want)
        if d:
            yield f'fstar_mm: {d}'
        if cfg['hod_model'] == 'Cacciato' and cfg['compute_observable']:
            o = ref('obs_settings')
            for k, f in (('obs_func_cen', o.obs_func_cen), ('obs_func_sat', o.obs_func_sat), ('obs_func', o.obs_func_cen + o.obs_func_sat)):
                d = lattice.close(getattr(model, k), math.log(10) * o.obs * f)
                if d:
                    yield f'{k}: {d}'
            for k, f in (('obs_func_obs', o.obs), ('obs_func_z', o.z)):
                d = lattice.close(getattr(model, k), f)
                if d:
                    yield f'{k}: {d}'
        else:
            for k in ('obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_obs', 'obs_func_z'):
                if getattr(model, k) is not None:
                    yield f'{k}: not None although no observable is computed'

    from .c07 import hods
    from .spectra_ref import build

    base = sp.spectra_base()
    slow = [('_hod', hods(True)), ('hmcode_ingredients', [None, 'mead2020', 'fit', 'mead2020_feedback']), ('h0', [0.7, 0.64])]
    fast = [
        ('compute_observable', [False, True]),
        ('hod_settings_mm', [sp.settings(1), dict(sp.settings(0, 2), observable_h_unit='1/h')]),
        ('obs_settings', [sp.settings(2), dict(sp.settings(1, 2), nobs=7)]),
        ('z_vec', [sp.Z, np.array([0.05, 0.2, 0.3])]),
    ]
    lattice.decide(r, 'spectra', build, base, slow, fast, visit)
    r.assumptions += ['list-valued HOD parameters have one value per bin']
    return r.finish()
