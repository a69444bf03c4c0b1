"""C06: the matter power spectrum is the one the halo model equations define."""

import numpy as np

from vlib import fakeemu, lattice, space as sp, special

from .spectra_ref import build, compare, valid

MODES = [None, 'bnl', 'hmcode', 'fortuna']
INGR = [None, 'mead2020', 'mead2020_feedback', 'fit']


def scenarios():
    z3 = np.array([0.0, 0.3, 1.1])
    return [
        {},
        dict(z_vec=np.array([0.25]), m_nu=0.0, dlog10m=0.28, matter_power_lin=None),
        dict(z_vec=z3, log10T_AGN=8.2, omega_c=0.21, omega_b=0.06, w0=-0.85, wa=0.2, mb=10**13.2, Mmin=12.0),
        dict(hod_settings_mm=sp.settings(0, 2), m_nu=0.4, log10T_AGN=7.3, h0=0.66, n_s=0.98, sigma_8=0.9),
        dict(hod_model='Zheng', Mmax=14.5, mdef_model='SOVirial', omega_c=0.35, eta_cen=0.3, norm_cen=1.4),
        dict(z_vec=np.array([0.0]), k_vec=np.logspace(-3.5, 2.0, 13), log10T_AGN=7.8, m_nu=0.06, mdef_model='SOCritical'),
        dict(z_vec=np.array([0.5, 2.0, 4.0, 6.0]), k_vec=np.logspace(-2, 0.3, 24), log10T_AGN=8.6, hmf_model='SMT',
             bias_model='SMT01', omega_b=0.02, mb=10**15.0),
        dict(hod_settings_mm=dict(sp.settings(0, 3), observable_h_unit='1/h'), hod_params={'A_cen': 0.5, 'A_sat': -0.4},
             Mmin=9.0, dlog10m=0.5, tcmb=3.0, Neff=3.9, omega_c=0.5, sigma_8=1.1, z_vec=np.array([0.1, 0.2, 0.35])),
        dict(hod_settings_mm={}, hod_settings={}, mb=10.0**13.87, z_vec=np.array([0.05, 0.15])),
        dict(hod_model='Simple', halo_profile_model_dm='Hernquist', overdensity=500.0, delta_c=1.5, w0=-1.2, Mmin=13.0),
    ]


def run(r):
    fakeemu.install()
    thorough = r.tier == 'thorough'
    total = 0
    for n, sc in enumerate(scenarios()):
        base = sp.spectra_base(**sc)
        z, k = base['z_vec'], base['k_vec']
        nm = None
        slow = [('nonlinear_mode', MODES), ('hmcode_ingredients', INGR), ('matter_power_lin', [None, sp.plin(1, z, k)])]
        fast = [
            ('response', [False, True]),
            ('matter_power_nl', [None, sp.pnl(1, z, k)]),
            ('dewiggle', [False, True]),
            ('two_halo_ktrunc', [2.0, None]),
            ('one_halo_ktrunc', [0.1, None, 0.5]),
        ]
        if True:
            nm = np.arange(base['Mmin'], base['Mmax'], base['dlog10m']).size
            slow.append(('beta_nl', [None, sp.beta_nl(1, 1, k, nm), sp.beta_nl(2, z.size, k, nm)]))
        else:
            base['beta_nl'] = None

        def ok(p):
            # several bins of stellar fractions cannot rescale a single non-linear spectrum
            return valid(p)

        total += lattice.decide(r, f'scenario{n}', build, base, slow, fast, compare(['mm', 'lin']), ok)
    total += special.decide(r, ['mm', 'lin'], special.matter())
    r.note(lattice_points=total, axes='mode x ingredients x linear input x non-linear input x response x dewiggle x truncations x beta_nl x scenario')
    r.assumptions += ['halo model ingredients taken from the public attributes of the model (C10 decides those)',
                      'Dark Emulator replaced by a deterministic stand-in', 'reference agreement to 1e-7']  # fmt: skip
    return r.finish()
