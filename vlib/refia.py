"""Reference intrinsic alignment ingredients, one halo at a time."""

import math

import numpy as np
from scipy.fft import fht, fhtoffset
from scipy.integrate import simpson
from scipy.interpolate import RegularGridInterpolator
from scipy.special import binom, gamma

from .refhod import lin

DEFAULTS = dict(
    central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass', gamma_2h_amplitude=5.33, beta_cen=0.44, beta_two=None,
    gamma_1h_amplitude=0.0015, gamma_1h_slope=-2.0, beta_sat=0.44, mpivot_cen=13.5, mpivot_sat=13.5, lpivot_cen=None, lpivot_sat=None,
    z_loglum_file_centrals=None, z_loglum_file_satellites=None, n_hankel=350, nmass=5, nk=10, ell_max=6, truncate=False, method='fftlog',
)  # fmt: skip


class Invalid(Exception):
    pass


def catalogue_pdfs(path, z):
    """Luminosity distribution of the catalogue in redshift slices centred on z (10000 linear bins)."""
    from astropy.table import Table

    t = Table.read(path)
    zz, ll = np.array(t['z']), np.array(t['loglum'])
    dz = 0.5 * (z[1] - z[0])
    edges = list(z - dz) + [z[-1] + dz]
    out = []
    for i in range(z.size):
        s = 10.0 ** ll[(zz >= edges[i]) & (zz < edges[i + 1])]
        if s.size == 0:
            out.append(None)
            continue
        n, e = np.histogram(s, bins=10000, density=True)
        out.append((e[:-1] + 0.5 * (e[-1] - e[0]) / 10000, n))
    return out


def amplitudes(cfg):
    """(central, satellite) alignment amplitude at each redshift; Invalid if not defined."""
    c = dict(DEFAULTS, **cfg)
    z = np.asarray(c['z_vec'], float)
    res = []
    for who in ('cen', 'sat'):
        dep = c['central_ia_depends_on' if who == 'cen' else 'satellite_ia_depends_on']
        amp = c['gamma_2h_amplitude' if who == 'cen' else 'gamma_1h_amplitude']
        beta, two = c[f'beta_{who}'], c['beta_two'] if who == 'cen' else None
        if dep == 'constant':
            res.append(amp * np.ones_like(z))
        elif dep == 'halo_mass':
            if c[f'mpivot_{who}'] is None or two is not None:
                res.append(Invalid)
            else:
                res.append(amp * np.ones_like(z))
        else:
            path = c['z_loglum_file_centrals' if who == 'cen' else 'z_loglum_file_satellites']
            if c[f'lpivot_{who}'] is None or path is None:
                res.append(Invalid)
                continue
            l0 = 10.0 ** c[f'lpivot_{who}']
            out = []
            for s in catalogue_pdfs(path, z):
                if s is None:  # no galaxies: no alignment (undefined for a falling power law)
                    out.append(math.nan if min(beta, beta if two is None else two) < 0 else 0.0)
                    continue
                x, p = s
                f = (x / l0) ** beta
                if two is not None:
                    f = np.where(x > l0, f, (x / l0) ** two)
                out.append(amp * simpson(p * f, x=x))
            res.append(np.array(out))
    return res


TABLE = {  # the two cases tabulated with the equations
    0: {2: 2.77582637, 4: -0.19276603, 6: 0.04743899, 8: -0.01779024, 10: 0.00832446},
    -2: {2: 4.71238898, 4: -2.61799389, 6: 2.06167032, 8: -1.76714666, 10: 1.57488973},
}


def angular(ell, b):
    if b in (0, -2):
        return TABLE[int(b)].get(ell, 0.0)
    # k along x (theta_k = pi/2): only the terms with j = m survive
    g = {2: math.pi / 2, 4: math.pi / 2, 6: 15 * math.pi / 32, 8: 7 * math.pi / 16, 10: 105 * math.pi / 256}
    s = 0.0
    for m in range(2, ell + 1, 2):
        a = m + b
        ix = 2 * gamma(a / 2 + 1) * math.sqrt(math.pi) / (2 * gamma(a / 2 + 1.5))
        s += binom(ell, m) * binom(0.5 * (ell + m - 1), ell) * g[m] * ix
    return 2.0**ell * s


def shear_nfw(r, rs, rvir, a, b, truncate):
    g = a * (np.maximum(r, 0.06) / rvir) ** b
    g = np.minimum(g, 0.3)
    d = 1 / ((r / rs) * (1 + r / rs) ** 2)
    if truncate:
        d = np.where(r >= rvir, 0.0, d)
    return g * d


def thin(q, n_in, nmass):
    """About nmass of the halo masses, always with the first and the last."""
    if n_in == nmass:
        return q
    f = n_in // nmass
    idx = list(range(0, n_in, f))
    if idx[-1] != n_in - 1:
        idx.append(n_in - 1)
    return q[..., idx]


def transform(cfg):
    """(w(z, m, k), masses, k): the Fourier transform of the projected satellite shear."""
    c = dict(DEFAULTS, **cfg)
    z, mass = np.asarray(c['z_vec'], float), np.asarray(c['mass_in'])
    cc, rs = np.asarray(c['c_in']), np.asarray(c['r_s_in'])
    rvir = np.broadcast_to(c['rvir_in'], rs.shape)
    amp = amplitudes(c)[1]
    if amp is Invalid:
        raise Invalid
    hk = c['method'] == 'hankel'
    nk = c['nk'] if hk else 100
    k = np.logspace(-3, 3, nk)
    if hk:
        if mass.size < c['nmass']:
            raise Invalid
        cc, rs, rvir, mass = (thin(q, mass.size, c['nmass']) for q in (cc, rs, rvir, mass))
    out = np.zeros((z.size, mass.size, nk))
    b = c['gamma_1h_slope']
    ells = range(0, c['ell_max'] + 1, 2)
    r = np.logspace(-8, 8, 512)
    dlnr = math.log(r[1] / r[0])
    for j in range(z.size):
        for i in range(mass.size):
            norm = 4 * math.pi * rs[j, i] ** 3 * (math.log(1 + cc[j, i]) - cc[j, i] / (1 + cc[j, i]))
            tot = np.zeros(nk, complex)
            for n, ell in enumerate(ells):
                if hk:
                    from hankel import HankelTransform

                    h = HankelTransform(ell + 0.5, c['n_hankel'], math.pi / c['n_hankel'])
                    f = lambda x: shear_nfw(x, rs[j, i], rvir[j, i], amp[j], b, c['truncate']) * np.sqrt(x * math.pi / 2)  # noqa: E731
                    u = h.transform(f, k)[0] / (np.sqrt(k) * norm)
                else:
                    bias = -0.5 * (n + 2)
                    off = fhtoffset(dlnr, mu=ell + 0.5, initial=-2 * math.log(10), bias=bias)
                    kk = math.exp(off) / r[::-1]
                    f = shear_nfw(r, rs[j, i], rvir[j, i], amp[j], b, c['truncate']) * r**1.5 * math.sqrt(math.pi / 2)
                    ft = fht(f, dlnr, mu=ell + 0.5, offset=off, bias=bias) / (kk**1.5 * norm)
                    u = lin(kk, ft, k)
                tot += 1j**ell * (2 * ell + 1) * angular(ell, b) * u
            out[j, i] = np.abs(tot)
    return out, mass, k


def resample(cfg, w, mass, k, k_out, m_out):
    c = dict(DEFAULTS, **cfg)
    if c['method'] == 'fftlog':
        return np.array([[lin(k, row, k_out) for row in wz] for wz in w])
    out = []
    for wz in w:
        f = RegularGridInterpolator((np.log10(mass), np.log10(k)), np.log10(wz / k**2), bounds_error=False, fill_value=None)
        mm, kk = np.meshgrid(np.log10(m_out), np.log10(k_out), indexing='ij')
        out.append(10.0 ** f((mm, kk)) * k_out**2)
    return np.array(out)
