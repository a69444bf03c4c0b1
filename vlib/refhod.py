"""Reference halo occupation models: the published formulae, one bin and redshift at a time.

Shares no code with onepower.  Settings are what a user passes (or the documented
defaults), so the reference also specifies how incomplete settings are completed.
"""

import math

import numpy as np
from scipy.integrate import simpson
from scipy.special import erf

SETTINGS = {
    'observables_file': None, 'obs_min': [8.0], 'obs_max': [12.0], 'zmin': [0.0], 'zmax': [0.2],
    'nz': 15, 'nobs': 300, 'observable_h_unit': '1/h^2',
}  # fmt: skip
PARAMS = {
    'Cacciato': dict(log10_obs_norm_c=9.95, log10_m_ch=11.24, g1=3.18, g2=0.245, sigma_log10_O_c=0.157, norm_s=0.562,
                     pivot=12.0, alpha_s=-1.18, beta_s=2, b0=-1.17, b1=1.53, b2=-0.217),
    'Simple': dict(log10_Mmin=12.0, log10_Msat=13.0, alpha=1.0),
    'Zehavi': dict(log10_Mmin=12.0, log10_Msat=13.0, alpha=1.0),
    'Zheng': dict(log10_Mmin=12.0, log10_M0=12.0, log10_M1=13.0, sigma=0.15, alpha=1.0),
    'Zhai': dict(log10_Mmin=13.68, log10_Msat=14.87, log10_Mcut=12.32, sigma=0.82, alpha=0.41),
}  # fmt: skip


def lin(x, y, xq, fill=None):
    """Piecewise linear interpolation along axis 0; linear extrapolation or a fill value outside."""
    x, y, xq = np.asarray(x, float), np.asarray(y, float), np.atleast_1d(np.asarray(xq, float))
    o = np.argsort(x, kind='mergesort')
    x, y = x[o], y[o]
    out = np.empty((xq.size,) + y.shape[1:])
    if x.size == 1:  # no evolution
        out[:] = y[0]
        return out
    for a, q in enumerate(xq):
        i = int(np.clip(np.searchsorted(x, q, side='left'), 1, x.size - 1))
        t = (q - x[i - 1]) / (x[i] - x[i - 1])
        out[a] = y[i - 1] + t * (y[i] - y[i - 1])
        if fill is not None and (q < x[0] or q > x[-1]):
            out[a] = fill
    return out


def step(x):
    return np.where(x >= 0, 1.0, 0.0)


def _phi_cen(obs, m, p):
    """Conditional observable function of centrals, per unit observable."""
    mch, norm = 10.0 ** p['log10_m_ch'], 10.0 ** p['log10_obs_norm_c']
    mean = norm * (m / mch) ** p['g1'] / (1 + m / mch) ** (p['g1'] - p['g2'])
    s = p['sigma_log10_O_c']
    return np.exp(-np.log10(obs / mean) ** 2 / (2 * s**2)) / (math.sqrt(2 * math.pi) * math.log(10) * s * obs)


def _phi_sat(obs, m, p):
    mch, norm = 10.0 ** p['log10_m_ch'], 10.0 ** p['log10_obs_norm_c']
    mean = norm * (m / mch) ** p['g1'] / (1 + m / mch) ** (p['g1'] - p['g2'])
    star = p['norm_s'] * mean
    lm = math.log10(m) - p['pivot']
    phi = 10.0 ** (p['b0'] + p['b1'] * lm + p['b2'] * lm**2)
    return phi / star * (obs / star) ** p['alpha_s'] * np.exp(-((obs / star) ** p['beta_s']))


def occupation(name, p, mass, obs):
    """<N_cen|M>, <N_sat|M> on the mass grid, for one bin (p: scalars) and redshift."""
    if name == 'Cacciato':
        nc = np.array([simpson(_phi_cen(obs, m, p), x=obs) for m in mass])
        ns = np.array([simpson(_phi_sat(obs, m, p), x=obs) for m in mass])
    else:
        mmin = 10.0 ** p['log10_Mmin']
        if name in ('Simple', 'Zehavi') or p['sigma'] == 0.0:
            nc = step(mass - mmin)
        else:
            nc = 0.5 * (1 + erf(np.log10(mass / mmin) / p['sigma']))
        if name == 'Simple':
            ns = None
        elif name == 'Zehavi':
            ns = (mass / 10.0 ** p['log10_Msat']) ** p['alpha']
        elif name == 'Zheng':
            m0 = 10.0 ** p['log10_M0']
            ns = np.where(mass >= m0, np.abs((mass - m0) / 10.0 ** p['log10_M1']) ** p['alpha'], 0.0)
        elif name == 'Zhai':
            ns = (mass / 10.0 ** p['log10_Msat']) ** p['alpha'] * np.exp(-(10.0 ** p['log10_Mcut']) / mass)
    if p['A_cen'] is not None:  # assembly bias: never takes more than is there
        nc = nc + p['A_cen'] * np.minimum(nc, 1 - nc)
    if name == 'Simple':  # no satellites without a central
        ns = nc * (mass / 10.0 ** p['log10_Msat']) ** p['alpha']
    if p['A_sat'] is not None:
        ns = ns * (1 + p['A_sat'])
    return nc, ns


class HOD:
    """All the quantities of one halo occupation model, as nested loops."""

    def __init__(self, name, params, settings, mass, dndlnm, bias, z_vec, h):
        st = dict(SETTINGS, **(settings or {}))
        pp = dict(PARAMS[name], A_cen=None, A_sat=None)
        pp.update(params or {})
        z_vec = np.asarray(z_vec, float)
        if st['observables_file'] is not None:
            zf, lo, hi = np.loadtxt(st['observables_file'], usecols=(0, 1, 2), unpack=True)
            grids = [(zf, [np.logspace(math.log10(a), math.log10(b), st['nobs']) for a, b in zip(lo, hi)])]
        else:
            grids = []
            for b in range(len(st['obs_min'])):
                zz = np.linspace(st['zmin'][b], st['zmax'][b], st['nz'])
                grids.append((zz, [np.logspace(st['obs_min'][b], st['obs_max'][b], st['nobs'])] * len(zz)))
        self.nbins = len(grids)
        keys = ('number_density_cen', 'number_density_sat', 'number_density', 'f_c', 'f_s', 'avg_halo_mass_cen',
                'avg_halo_mass_sat', 'avg_halo_mass', 'galaxy_linear_bias_cen', 'galaxy_linear_bias_sat',
                'galaxy_linear_bias', 'hod_cen', 'hod_sat', 'hod', 'stellar_fraction_cen', 'stellar_fraction_sat',
                'stellar_fraction')  # fmt: skip
        out = {k: [] for k in keys}
        self.z = np.array([g[0] for g in grids])
        self.obs_func_cen, self.obs_func_sat, self.obs = [], [], []
        for b, (zz, obs) in enumerate(grids):
            p = {}
            for k, v in pp.items():
                if name != 'Cacciato' and hasattr(v, '__len__'):
                    v = v[b] if len(v) > 1 else v[0]
                p[k] = v
            n_z, b_z = lin(z_vec, dndlnm, zz), lin(z_vec, bias, zz)
            rows = {k: [] for k in keys}
            phis = [[], []]
            cache = {}
            for a in range(len(zz)):
                kk = id(obs[a])
                if kk not in cache:
                    cache[kk] = occupation(name, p, mass, obs[a])
                    if name == 'Cacciato':
                        pc = np.array([_phi_cen(obs[a], m, p) for m in mass])
                        ps = np.array([_phi_sat(obs[a], m, p) for m in mass])
                        u = h if st['observable_h_unit'] == '1/h^2' else 1.0
                        fc = np.array([simpson(pc[i] * obs[a], x=obs[a]) for i in range(mass.size)]) / mass * u
                        fs = np.array([simpson(ps[i] * obs[a], x=obs[a]) for i in range(mass.size)]) / mass * u
                    else:
                        pc = ps = None
                        fc = fs = np.zeros_like(mass)
                    cache[kk] += (fc, fs, pc, ps)
                nc, ns, fc, fs, pc, ps = cache[kk]

                def integ(f):
                    return simpson(f, x=mass)

                w = n_z[a] / mass
                rc, rs = integ(nc * w), integ(ns * w)
                rt = integ((nc + ns) * w)
                rows['number_density_cen'].append(rc)
                rows['number_density_sat'].append(rs)
                rows['number_density'].append(rt)
                rows['f_c'].append(rc / rt)
                rows['f_s'].append(rs / rt)
                rows['avg_halo_mass_cen'].append(integ(nc * n_z[a]))
                rows['avg_halo_mass_sat'].append(integ(ns * n_z[a]))
                rows['avg_halo_mass'].append(integ((nc + ns) * n_z[a]))
                rows['galaxy_linear_bias_cen'].append(integ(nc * b_z[a] * w) / rt)
                rows['galaxy_linear_bias_sat'].append(integ(ns * b_z[a] * w) / rt)
                rows['galaxy_linear_bias'].append(integ((nc + ns) * b_z[a] * w) / rt)
                rows['hod_cen'].append(nc)
                rows['hod_sat'].append(ns)
                rows['hod'].append(nc + ns)
                rows['stellar_fraction_cen'].append(fc)
                rows['stellar_fraction_sat'].append(fs)
                rows['stellar_fraction'].append(fc + fs)
                if pc is not None:
                    phis[0].append(simpson(pc * w[:, None], x=mass, axis=0))
                    phis[1].append(simpson(ps * w[:, None], x=mass, axis=0))
            for k in keys:
                zero = k in ('f_c', 'f_s') or k.startswith('avg_halo')
                out[k].append(lin(zz, np.array(rows[k]), z_vec, fill=0.0 if zero else None))
            self.obs_func_cen.append(phis[0])
            self.obs_func_sat.append(phis[1])
            self.obs.append(obs)
        for k in keys:
            setattr(self, k, np.array(out[k]))
        self.obs_func_cen = np.array(self.obs_func_cen)
        self.obs_func_sat = np.array(self.obs_func_sat)
        self.obs = np.array(self.obs)
        self.keys = keys
