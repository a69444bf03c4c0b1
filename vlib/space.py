"""The bounded configuration space that the explorations enumerate.

Everything is kept tiny (2-3 redshifts, ~10 wavenumbers, ~20 halo masses, the
Eisenstein-Hu transfer function) so that one complete evaluation of every
spectrum costs ~0.1 s and whole spaces can be enumerated.
"""

import copy

import numpy as np

Z = np.array([0.1, 0.45])
K = np.logspace(-2.5, 1.2, 10)
NZ, NK = Z.size, K.size


def plin(seed=0, z=Z, k=K):
    """A smooth, positive 'linear' spectrum table, different for each seed."""
    zz, kk = np.meshgrid(z, k, indexing='ij')
    return (
        2.0e4
        * (1.0 + 0.13 * seed)
        * (kk / 0.02)
        / (1.0 + (kk / 0.02) ** 2.6)
        / (1.0 + zz) ** (1.5 + 0.1 * seed)
        * (1.0 + 0.04 * np.sin(8.0 * np.log(kk) + seed))
    )


def pnl(seed=0, z=Z, k=K):
    zz, kk = np.meshgrid(z, k, indexing='ij')
    return plin(seed, z, k) * (1.0 + 0.8 * (kk / 0.5) ** 1.3 / (1.0 + zz + 0.2 * seed))


def nmass(Mmin=11.0, Mmax=15.5, dlog10m=0.25):
    return np.arange(Mmin, Mmax, dlog10m).size


def beta_nl(seed=0, nz=1, k=K, nm=None):
    nm = nmass() if nm is None else nm
    zz = np.arange(nz)[:, None, None, None]
    kk = k[None, :, None, None]
    i = np.arange(nm)[None, None, :, None] / nm
    j = np.arange(nm)[None, None, None, :] / nm
    return (
        0.3
        * (1 + 0.2 * seed + 0.1 * zz)
        * np.exp(-((np.log(kk / (0.4 + 0.1 * seed))) ** 2))
        * (1.0 + 0.5 * (i + j) - 0.7 * i * j)
    )


def settings(seed=0, nbins=1):
    lo = np.array([8.6 + 0.2 * seed + 0.6 * b for b in range(nbins)])
    return {
        'observables_file': None,
        'obs_min': lo,
        'obs_max': lo + 1.1,
        'zmin': np.full(nbins, 0.0),
        'zmax': np.full(nbins, 0.6),
        'nz': 4,
        'nobs': 12,
        'observable_h_unit': '1/h^2',
    }


GRID = dict(
    z_vec=Z,
    k_vec=K,
    lnk_min=np.log(1e-3),
    lnk_max=np.log(60.0),
    dlnk=0.25,
    Mmin=11.0,
    Mmax=15.5,
    dlog10m=0.25,
    transfer_model='EH',
    growth_model='GrowthFactor',
)

ALIGN = dict(gamma_2h_amplitude=5.0, beta_cen=0.4, gamma_1h_amplitude=0.002, gamma_1h_slope=-1.5,
             beta_sat=0.3, mpivot_cen=13.2, mpivot_sat=13.6, nmass=5, ell_max=6)  # fmt: skip


def spectra_base(**kw):
    """A complete Spectra configuration in which every kind of spectrum works."""
    d = dict(GRID)
    d.update(
        hod_settings=settings(),
        hod_settings_mm=settings(1),
        obs_settings=settings(2),
        align_params=dict(ALIGN),
        poisson_params={'poisson': 1.1},
        mb=10**13.7,
    )
    d.update(kw)
    return copy.deepcopy(d)


BASES = {
    'plain': {},
    'bnl': dict(nonlinear_mode='bnl', beta_nl=beta_nl(), hmcode_ingredients='fit', compute_observable=True),
    'hmcode': dict(nonlinear_mode='hmcode', hmcode_ingredients='mead2020_feedback'),
    'fortuna': dict(nonlinear_mode='fortuna', matter_power_lin=plin(), matter_power_nl=pnl(), t_eff=0.3, pointmass=True),
    'response': dict(response=True, matter_power_nl=pnl(), dewiggle=True),
}

# One entry per settable parameter: alternative values to move it to.
ALPHABET = {
    # cosmology
    'z_vec': [np.array([0.2, 0.4])],
    'h0': [0.68],
    'omega_c': [0.22],
    'omega_b': [0.044],
    'w0': [-0.9],
    'wa': [0.1],
    'n_s': [0.97],
    'tcmb': [2.9],
    'Neff': [3.4],
    'm_nu': [0.3],
    'sigma_8': [0.75],
    'log10T_AGN': [8.0],
    # ingredients
    'k_vec': [np.logspace(-2.3, 1.0, NK)],
    'lnk_min': [np.log(5e-4)],
    'lnk_max': [np.log(90.0)],
    'dlnk': [0.2],
    'Mmin': [10.5],
    'Mmax': [15.0],
    'dlog10m': [0.3],
    'mdef_model': ['SOVirial', 'SOCritical'],
    'hmf_model': ['SMT'],
    'bias_model': ['SMT01'],
    'halo_profile_model_dm': ['Hernquist'],
    'halo_concentration_model_dm': ['Bullock01'],
    'halo_profile_model_sat': ['Hernquist'],
    'halo_concentration_model_sat': ['Bullock01'],
    'transfer_model': ['BBKS'],
    'transfer_params': [{'a': 2.5}],
    'growth_model': ['Carroll1992'],
    'growth_params': [{'dlna': 0.02}],
    'norm_cen': [1.2],
    'norm_sat': [0.8],
    'eta_cen': [0.1],
    'eta_sat': [-0.1],
    'overdensity': [300.0],
    'delta_c': [1.6],
    'hmcode_ingredients': [None, 'mead2020', 'mead2020_feedback', 'fit'],
    # spectra
    'nonlinear_mode': [None, 'fortuna', 'bnl', 'hmcode'],
    'dewiggle': [True, False],
    'response': [True, False],
    'pointmass': [True, False],
    'compute_observable': [True, False],
    'matter_power_lin': [None, plin(1), plin(2)],
    'matter_power_nl': [None, pnl(1), pnl(2)],
    'mb': [10**14.2],
    'beta_nl': [None, beta_nl(1)],
    'one_halo_ktrunc': [None, 0.2],
    'two_halo_ktrunc': [None, 1.0],
    'poisson_model': ['power_law', 'constant'],
    'poisson_params': [{'poisson': 0.7}, {'pivot': 13.0, 'slope': 0.2}],
    'hod_model': ['Zheng', 'Zhai', 'Simple', 'Zehavi', 'Cacciato'],
    'hod_params': [{'A_cen': 0.2, 'A_sat': -0.1}],
    'hod_settings': [settings(1), settings(0, 2)],
    'hod_settings_mm': [settings(0)],
    'obs_settings': [settings(1)],
    't_eff': [0.5],
    'one_halo_ktrunc_ia': [None, 3.0],
    'two_halo_ktrunc_ia': [None, 5.0],
    'align_params': [{'gamma_2h_amplitude': 4.0}, {'beta_sat': 0.6, 'gamma_1h_slope': -2.0}],
}


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (
            isinstance(a, np.ndarray)
            and isinstance(b, np.ndarray)
            and a.shape == b.shape
            and bool(np.all(a == b))
        )
    return type(a) is type(b) and a == b


def apply_update(config, name, val):
    """The specified effect of update(name=val) on a configuration.

    Dictionaries of options are merged key by key; everything else is replaced.
    """
    c = dict(config)
    if isinstance(val, dict) and val and isinstance(c.get(name), dict):
        m = dict(c[name])
        m.update(val)
        c[name] = m
    else:
        c[name] = val
    return c
