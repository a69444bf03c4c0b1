"""C11: UpsampledSpectra returns the weighted sum of its populations on the requested grid."""

import copy
import itertools

import numpy as np

from vlib import awkward, explore, fakeemu, lattice, space as sp
from vlib.refhod import lin

MODES = ['mm', 'gg', 'gm', 'gi', 'mi', 'ii']
COMP = ['1h', '2h', 'tot']


def small(**kw):
    d = sp.spectra_base(**kw)
    for n in ('hod_settings_mm', 'obs_settings'):
        d.pop(n)
    return d


def upsample(p, z_in, k_in, z, k, outside):
    """Linear in z, then linear in log k, extrapolated (or filled, in z)."""
    fill = None if outside == 'extrapolate' else outside
    out = []
    for b in range(p.shape[0]):
        a = lin(z_in, p[b], z, fill)
        out.append(lin(np.log10(k_in), a.T, np.log10(k)).T)
    return np.array(out)


def combine(mode, f, p1, p2):
    """Two populations with number fractions f and 1-f; matter is common to both."""
    f = f[:, None]
    if mode == 'mm':
        return p1
    if mode in ('gm', 'mi'):
        return f * p1 + (1 - f) * p2
    return f**2 * p1 + (1 - f) ** 2 * p2


BASES = [
    small(z_vec=np.array([0.1, 0.3, 0.5])),
    small(z_vec=np.array([0.1, 0.45]), hod_settings=sp.settings(0, 2), nonlinear_mode='fortuna', matter_power_nl=sp.pnl(1)),
    small(z_vec=np.array([0.05, 0.2, 0.6]), nonlinear_mode='hmcode', hmcode_ingredients='mead2020_feedback'),
]
SECOND = [
    None,
    {'hod_settings': sp.settings(1)},
    {'align_params': {'gamma_2h_amplitude': 1.0, 'beta_cen': 0.9}, 'hod_params': {'A_sat': 0.4}},
    {'h0': 0.66, 'norm_cen': 1.2, 'k_vec': np.logspace(-2.2, 1.0, 8)},
    {'z_vec': np.array([0.0, 0.25, 0.4, 0.7]), 'matter_power_nl': None, 'hod_model': 'Zheng', 'hod_params': {}},
    {},
]
GRIDS = [
    (np.array([0.05, 0.2, 0.5]), np.logspace(-2.7, 1.0, 7)),
    (np.array([0.3]), np.logspace(-3.5, 2.0, 5)),
    (np.array([0.0, 0.12, 0.4, 0.8]), np.logspace(-2.0, 0.5, 9)),
]
FRACTIONS = [
    (None, None),
    (np.array([0.0, 0.3, 0.8]), np.array([0.8, 0.6, 0.1])),
    (np.array([0.2, 0.4]), np.array([0.0, 1.0])),
    (np.array([0.1, 0.5]), np.array([1.0, 1.0])),
]


def run(r):
    from onepower import Spectra, UpsampledSpectra

    fakeemu.install()
    thorough = r.tier == 'thorough'

    def merged(b, s):
        c = copy.deepcopy(BASES[b])
        for n, v in (SECOND[s] or {}).items():
            c = sp.apply_update(c, n, copy.deepcopy(v))
        if SECOND[s] and 'z_vec' in SECOND[s]:
            c['matter_power_nl'] = None
        return c

    jobs = [(b, s, given) for b in range(len(BASES)) for s in range(len(SECOND)) for given in (False, True)]
    jobs = [j for j in jobs if not (j[0] == 1 and j[1] in (1, 3, 4))]  # bins or tables that do not fit

    def work(job):
        b, s, given = job
        one = Spectra(**copy.deepcopy(BASES[b]))
        two = Spectra(**merged(b, s)) if SECOND[s] is not None else None
        bad, seen = [], []
        pk = {}
        for m in MODES:
            for c in COMP:
                for i, x in enumerate((one, two)):
                    if x is not None:
                        pk[m, c, i] = np.asarray(getattr(getattr(x, f'power_spectrum_{m}'), f'pk_{c}'))
        requests = [(MODES, COMP), (MODES[::-1], COMP[::-1]), (['gi'], ['tot']), (['ii', 'gm'], ['2h']), (['mm'], ['1h', 'tot'])]
        if thorough:
            requests += [(list(p), COMP) for p in itertools.permutations(MODES, 2)]
        live = None
        todo = list(itertools.product(GRIDS, FRACTIONS, ('extrapolate', 0.0, 3.5), requests))
        # grids made of the models' own values and others, in every awkward arrangement
        own = [x for x in (one, two) if x is not None]
        zs = [z for x in own for z in awkward.grids(x.z_vec).values()] + list(awkward.grids(np.array([0.15, 0.33, 0.41])).values())
        ks = [k for x in own for k in awkward.grids(x.k_vec, True).values()] + [np.append(one.k_vec[::3], 0.777)]
        n = max(len(zs), len(ks))
        todo += [((zs[i % len(zs)], ks[i % len(ks)]), FRACTIONS[j], o, (MODES, COMP)) for i in range(n) for j, o in ((1, 'extrapolate'), (0, 0.0))]
        todo += [((zs[i], one.k_vec), FRACTIONS[1], 'extrapolate', (MODES, COMP)) for i in range(len(zs))]
        todo += [((one.z_vec, ks[i]), FRACTIONS[1], 'extrapolate', (MODES, COMP)) for i in range(len(ks))]
        # fractions given in any order, and by their ends only
        for fz, f in ((np.array([0.8, 0.3, 0.0]), np.array([0.1, 0.6, 0.8])), (np.array([0.3, 0.0, 0.8]), np.array([0.6, 0.8, 0.1])),
                      (one.z_vec, np.linspace(0.9, 0.2, one.z_vec.size)), (one.z_vec[::-1], np.linspace(0.9, 0.2, one.z_vec.size)),
                      (np.array([0.2, 0.2001]), np.array([0.3, 0.4])), (np.array([0.05, 0.2, 0.5]), np.array([0.3, 0.0, 1.0]))):  # fmt: skip
            todo += [((z, k), (fz, f), 'extrapolate', (MODES, COMP)) for z, k in GRIDS + [(one.z_vec, one.k_vec), (one.z_vec[::-1], one.k_vec)]]
        for (z, k), (fz, f), outside, (modes, comps) in todo:
            kw = dict(z=z, k=k, fraction_z=fz, fraction=f, extrapolate_option=outside)
            given_kw = dict(model=Spectra(**copy.deepcopy(BASES[b]))) if given else dict(model_1_params=copy.deepcopy(BASES[b]))
            if live is None:
                live = UpsampledSpectra(model_2_params=copy.deepcopy(SECOND[s]), **copy.deepcopy(kw), **given_kw)
            else:
                live.update(**copy.deepcopy(kw))
            name = f'base{b} second{s} given={given} z={z.tolist()} nk={k.size}#{k.sum():.7g},{k[0]:.4g} fz={None if fz is None else fz.tolist()} f={None if f is None else f.tolist()} outside={outside} {modes} {comps}'
            seen.append(name)
            try:
                live.results(list(modes), list(comps))
            except Exception as e:
                bad.append((name, f'raises {type(e).__name__}: {e}'))
                live = None
                continue
            frac = np.ones(z.size) if f is None else lin(fz, f, z)
            for m in modes:
                res = getattr(live, f'power_spectrum_{m}')
                for c in COMP:
                    got = getattr(res, f'pk_{c}')
                    if c not in comps:
                        if got is not None:
                            bad.append((name, f'{m}.pk_{c}: present although not requested'))
                        continue
                    p1 = upsample(pk[m, c, 0], one.z_vec, one.k_vec, z, k, outside)
                    p2 = upsample(pk[m, c, 1], two.z_vec, two.k_vec, z, k, outside) if two is not None else np.zeros_like(p1)
                    d = lattice.close(got, combine(m, frac, p1, p2), rtol=1e-7, atol=1e-9)
                    if d:
                        bad.append((name, f'{m}.pk_{c}: {d}'))
            d = lattice.close(live.frac_1, frac) or lattice.close(live.frac_2, 1 - frac)
            if d:
                bad.append((name, f'fractions: {d}'))
        return bad, seen

    for job, (bad, seen) in zip(jobs, explore.pmap(work, jobs, progress='requests')):
        for s in seen:
            r.state(s)
            r.step()
            r.trace()
        r.sample(seen[0])
        for name, what in bad:
            r.violation(name + '|' + what.split(':')[0], what, [name])
    r.assumptions += ['the spectra being combined are those of Spectra (C06-C08 decide those)']
    return r.finish()
