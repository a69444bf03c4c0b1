"""C07: galaxy-galaxy and galaxy-matter spectra are those of the halo model equations."""

import numpy as np

from vlib import fakeemu, lattice, space as sp, special

from .c06 import INGR, MODES
from .spectra_ref import build, compare, valid


def hods(full):
    """Bundles of galaxy population settings."""
    two = sp.settings(0, 2)
    three = sp.settings(0, 3)
    narrow = dict(sp.settings(0), zmin=np.array([0.2]), zmax=np.array([0.4]))
    out = [
        dict(hod_model='Cacciato', hod_settings=sp.settings()),
        dict(hod_model='Cacciato', hod_settings=two, hod_params={'A_cen': 0.3, 'A_sat': -0.2}),
        dict(hod_model='Zheng', hod_settings=sp.settings(), hod_params={'sigma': 0.0, 'A_cen': -0.5}),
        dict(hod_model='Zheng', hod_settings=two, hod_params={
            'log10_Mmin': [12.0, 12.6], 'log10_M0': [12.1, 12.4], 'log10_M1': [13.0, 13.4], 'sigma': [0.2, 0.0], 'alpha': [1.0, 0.8]}),
        dict(hod_model='Zhai', hod_settings=sp.settings()),
        dict(hod_model='Simple', hod_settings=sp.settings(), hod_params={'log10_Mmin': 11.7, 'alpha': 1.2, 'A_sat': 0.5}),
        dict(hod_model='Zehavi', hod_settings=sp.settings(), hod_params={'log10_Mmin': 12.4}),
        dict(hod_model='Cacciato', hod_settings=narrow, hod_params={'beta_s': 1.5, 'alpha_s': -0.9}),
        dict(hod_model='Cacciato', hod_settings=dict(three, observable_h_unit='1/h', nobs=11, nz=3)),
        dict(hod_model='Cacciato', hod_settings={}),
    ]  # fmt: skip
    for o in out:
        o.setdefault('hod_params', {})
    return out if full else out[:4]


def scenarios():
    return [
        {},
        dict(z_vec=np.array([0.05, 0.3, 0.55]), m_nu=0.0, log10T_AGN=8.2, omega_b=0.06, mb=10**13.2, Mmin=10.5, norm_sat=0.7, eta_sat=0.2),
        dict(z_vec=np.array([0.3, 0.9]), dlog10m=0.28, mdef_model='SOVirial', h0=0.66, sigma_8=0.9, halo_profile_model_sat='Hernquist'),
    ]  # fmt: skip


POISSON = [
    dict(poisson_model='constant', poisson_params={'poisson': 1.1}),
    dict(poisson_model='power_law', poisson_params={'poisson': 0.9, 'pivot': 13.0, 'slope': 0.2}),
]


def run(r):
    fakeemu.install()
    thorough = r.tier == 'thorough'
    total = 0
    for n, sc in enumerate(scenarios()):
        base = sp.spectra_base(**sc)
        z, k = base['z_vec'], base['k_vec']
        nm = np.arange(base['Mmin'], base['Mmax'], base['dlog10m']).size
        beta = sp.beta_nl(1, z.size, k, nm)
        full = n == 0 or thorough
        hh = hods(full)
        if thorough:
            both = [{**h, **p} for h in hh for p in POISSON]
        else:  # every population and every Poisson model, not every pair
            both = [{**h, **POISSON[(x + n) % 2]} for x, h in enumerate(hh)]
        slow = [('nonlinear_mode', MODES), ('hmcode_ingredients', INGR), ('_galaxies', both)]
        fast = [
            ('matter_power_lin', [None, sp.plin(1, z, k)]),
            ('response', [False, True]),
            ('dewiggle', [False, True] if thorough else [False]),
            ('pointmass', [False, True]),
            ('two_halo_ktrunc', [2.0, None]),
            ('one_halo_ktrunc', [0.1, None, 0.5] if full else [0.1, None]),
        ]
        base['beta_nl'] = beta
        base['matter_power_nl'] = sp.pnl(1, z, k)
        total += lattice.decide(r, f'scenario{n}', build, base, slow, fast, compare(['gg', 'gm']), lambda p: valid(dict(p, beta_nl=None)))
    total += special.decide(r, ['gg', 'gm'], special.galaxies())
    r.note(lattice_points=total, axes='mode x ingredients x galaxy population x poisson x linear input x response x pointmass x truncations x scenario')
    r.assumptions += ['ingredients taken from the public attributes of the model (C10 decides those); galaxy population from the reference of C09',
                      'agreement to 1e-7']  # fmt: skip
    return r.finish()
