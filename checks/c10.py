"""C10: the halo model ingredients are those of the requested cosmology and models, at every redshift."""

import numpy as np

from vlib import lattice, refing, space as sp, special


def build(cfg):
    from onepower import HaloModelIngredients

    return HaloModelIngredients(**cfg)


COSMO = [
    {},
    dict(m_nu=0.0, w0=-0.8, wa=-0.3, h0=0.66),
    dict(m_nu=0.5, omega_c=0.4, omega_b=0.03, n_s=1.0, sigma_8=0.7, log10T_AGN=8.3),
    dict(omega_c=0.15, w0=-1.2, wa=0.4, tcmb=2.9, Neff=3.5, log10T_AGN=7.4),
]
HALOS = [
    {},
    dict(hmf_model='SMT', bias_model='SMT01', halo_concentration_model_sat='Bullock01', eta_cen=0.2),
    dict(halo_profile_model_dm='Hernquist', halo_concentration_model_dm='Bullock01', norm_cen=1.3, eta_sat=-0.2),
    dict(halo_profile_model_sat='Hernquist', norm_sat=0.6, delta_c=1.5),
    dict(norm_cen='z', eta_sat='z', halo_concentration_model_dm='Bullock01', halo_concentration_model_sat='Bullock01'),
    dict(norm_sat='z', eta_cen='z', hmf_model='PS', bias_model='Mo96'),
]
GRIDS = [
    {},
    dict(z_vec=np.array([0.0, 0.5, 1.5]), k_vec=np.logspace(-1.5, 1.0, 6), Mmin=12.0, dlog10m=0.37),
    dict(z_vec=np.array([0.8]), growth_model='Carroll1992', transfer_model='BBKS', transfer_params={'a': 2.4}),
    dict(z_vec=np.array([1.2, 0.3]), lnk_min=np.log(4e-4), lnk_max=np.log(100.0), dlnk=0.2, Mmax=14.8, growth_params={'dlna': 0.02}),
]

RECIPES = [(None, 'SOMean'), (None, 'SOVirial'), (None, 'SOCritical'), ('mead2020', 'SOMean'), ('mead2020_feedback', 'SOMean'), ('fit', 'SOVirial')]


def run(r):
    thorough = r.tier == 'thorough'

    def mk(cfg):
        return build(expand(cfg))

    def expand(cfg):
        c = dict(cfg)
        z = c.get('z_vec')
        for n, v in list(c.items()):
            if isinstance(v, str) and v == 'z':
                c[n] = (1.1 if n.startswith('norm') else 0.1) + 0.2 * np.arange(z.size)
        return c

    def visit(model, cfg, mem):
        cfg = expand(cfg)
        if cfg.get('overdensity') == 350.0 and cfg.get('mdef_model') == 'SOVirial':
            return
        want = refing.Ingredients(cfg).quantities()
        for q, w in want.items():
            d = lattice.close(getattr(model, q), w, rtol=1e-6)
            if d:
                yield f'{q}: {d}'

    slow = [
        ('hmcode_ingredients', [None, 'mead2020', 'mead2020_feedback', 'fit']),
        ('mdef_model', ['SOMean', 'SOVirial', 'SOCritical']),
        ('_cosmo', COSMO),
        ('_halos', HALOS),
        ('_grid', GRIDS),
        ('overdensity', [200.0, 350.0] if thorough else [240.0]),
    ]
    base = dict(sp.GRID)

    def ok(p):
        if thorough:
            return True
        # halos and mass definition are fixed by the Mead recipes: one of each is enough there
        return not (str(p['hmcode_ingredients']).startswith('mead') and p['mdef_model'] == 'SOCritical')

    lattice.decide(r, 'ingredients', mk, base, slow, [], visit, ok)

    # special values, from every recipe and mass definition
    vals = [{n: v} if not n.startswith('_') else v for n, vs in special.ingredients().items() for v in vs]
    vals += [dict(z_vec=z) for z in special.zs().values()] + [dict(k_vec=k) for k in special.ks().values()]
    slow = [('_recipe', [dict(hmcode_ingredients=h, mdef_model=m) for h, m in RECIPES]), ('_special', vals)]
    lattice.decide(r, 'special values', mk, base, slow, [], visit, lambda p: sum(p['_special'].get(n, 0.25 if n == 'omega_c' else 0.05) for n in ('omega_c', 'omega_b')) < 1)

    # what is not given takes its documented default
    every = dict(
        z_vec=np.linspace(0.0, 3.0, 15), k_vec=np.logspace(-4, 4, 100), lnk_min=np.log(1e-4), lnk_max=np.log(1e4), dlnk=np.log(1e8) / 100,
        Mmin=9.0, Mmax=16.0, dlog10m=0.05,
    )  # fmt: skip
    grid = dict(sp.GRID)
    without = [[n] for n in ('z_vec', 'k_vec', 'lnk_min', 'lnk_max', 'dlnk', 'Mmin', 'Mmax', 'dlog10m', 'growth_model')]
    given = [{n: v for n, v in grid.items() if n not in w} for w in without]
    # the Boltzmann code behind the default transfer function is slow: one redshift
    one = dict({n: v for n, v in grid.items() if n != 'transfer_model'}, z_vec=np.array([0.4]))
    # (which has no dark energy that crosses w = -1)
    flat = [{}, dict(m_nu=0.0, w0=-0.8, h0=0.66), COSMO[2], dict(omega_c=0.15, w0=-0.9, wa=0.2, tcmb=2.9, Neff=3.5)]
    given += [dict(one, **c) for c in flat] + [{n: v for n, v in one.items() if n != 'growth_model'}, dict(z_vec=np.array([0.4])), {**{n: v for n, v in grid.items() if n != 'growth_model'}, 'z_vec': np.array([0.5, 0.0, 0.2])}]

    def visit_d(model, cfg, mem):
        yield from visit(model, {**every, **cfg}, mem)

    lattice.decide(r, 'defaults', mk, {}, [('hmcode_ingredients', [None, 'mead2020']), ('_given', given)], [], visit_d)

    # the cosmological background and the Mead fitting functions
    def visit_c(model, cfg, mem):
        ref = refing.Cosmology(cfg)
        for q, w in ref.mead().items():
            d = lattice.close(getattr(model, q), w, rtol=1e-6)
            if d:
                yield f'{q}: {d}'
        cm, rc = model.cosmo_model, ref.cosmo
        z = np.array([0.0, 0.3, 2.0])
        for q, g, w in (
            ('Om', cm.Om(z), rc.Om(z)), ('Onu', cm.Onu(z), rc.Onu(z)), ('E', cm.efunc(z), rc.efunc(z)), ('Ob0', cm.Ob0, rc.Ob0),
            ('H0', cm.H0.value, rc.H0.value), ('w', cm.w(z), rc.w(z)), ('omega_m', model.omega_m, rc.Om0),
            ('scale_factor', model.scale_factor, ref.a), ('Tcmb0', cm.Tcmb0.value, rc.Tcmb0.value),
        ):  # fmt: skip
            d = lattice.close(g, w, rtol=1e-6)
            if d:
                yield f'cosmology {q}: {d}'

    from onepower.hmi import CosmologyBase

    fast = [
        ('omega_c', [0.25, 0.12, 0.45]), ('omega_b', [0.05, 0.03]), ('w0', [-1.0, -0.7]), ('wa', [0.0, 0.3, -0.4]), ('m_nu', [0.06, 0.0, 0.6]),
        ('h0', [0.7, 0.62]), ('z_vec', [sp.Z, np.array([0.0, 1.0, 3.0])]), ('tcmb', [2.7255, 3.1] if thorough else [2.7255]),
    ]  # fmt: skip
    lattice.decide(r, 'background', lambda c: CosmologyBase(**c), dict(z_vec=sp.Z), fast[:4], fast[4:], visit_c)
    r.assumptions += ['hmf, halomod, astropy and scipy are trusted', 'agreement to 1e-6']
    return r.finish()
