"""Reference halo model spectra, written from the equations, one (bin, z, k) at a time.

Takes the options from the configuration (what the user asked for) and the halo model
ingredients (mass function, bias, profiles ...) from the public attributes of the model.
"""

import math

import numpy as np
from scipy.integrate import simpson
from scipy.ndimage import gaussian_filter1d

from .refhod import HOD, lin

DEFAULTS = dict(
    nonlinear_mode=None, dewiggle=False, response=False, pointmass=False, compute_observable=False, matter_power_lin=None,
    matter_power_nl=None, mb=10.0**13.87, beta_nl=None, one_halo_ktrunc=0.1, two_halo_ktrunc=2.0, poisson_model='constant',
    poisson_params=None, hod_model='Cacciato', hod_params=None, hod_settings=None, hod_settings_mm=None, obs_settings=None,
    t_eff=0.0, one_halo_ktrunc_ia=4.0, two_halo_ktrunc_ia=6.0, align_params=None, hmcode_ingredients=None,
    omega_c=0.25, omega_b=0.05, n_s=0.9, h0=0.7, log10T_AGN=7.8, sigma_8=0.8, w0=-1.0,
)  # fmt: skip
ALIGN = dict(
    central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass', gamma_2h_amplitude=5.33, beta_cen=0.44,
    beta_sat=0.44, mpivot_cen=13.5, mpivot_sat=13.5,
)  # fmt: skip


def trap(y, x):
    return float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)))


class Ref:
    def __init__(self, m, cfg, hod_cache=None):
        self.m = m
        self.cfg = dict(DEFAULTS, **cfg)
        self.k, self.z = np.asarray(cfg['k_vec'], float), np.asarray(cfg['z_vec'], float)
        self.mass = np.asarray(m.mass)
        self.n, self.b = np.asarray(m.dndlnm), np.asarray(m.halo_bias)
        self.rho = np.asarray(m.mean_density0)
        self.u = np.asarray(m.u_dm)
        self.om = self.cfg['omega_c'] + self.cfg['omega_b']
        self._memo = {}
        self.hod_cache = {} if hod_cache is None else hod_cache

    def memo(self, key, f):
        if key not in self._memo:
            self._memo[key] = f()
        return self._memo[key]

    # ---------------------------------------------------------------- inputs
    def hod(self, which='hod_settings'):
        c = self.cfg
        st = c[which] or {}
        key = repr((c['hod_model'], sorted((c['hod_params'] or {}).items()), sorted(st.items()))) + repr(
            (self.n.sum(), self.b.sum(), c['h0'], self.z.tolist(), self.n.shape)
        )
        if key not in self.hod_cache:
            self.hod_cache[key] = HOD(
                c['hod_model'], c['hod_params'], st, self.mass, self.n, self.b, self.z, c['h0']
            )
        return self.hod_cache[key]

    @property
    def plin(self):
        return self.memo('plin', self._plin)

    def _plin(self):
        c = self.cfg
        p = c['matter_power_lin']
        if p is None:
            p = lin(self.m.kh, np.asarray(self.m.power).T, self.k).T
        p = np.array(p, float)
        if c['nonlinear_mode'] == 'hmcode' or c['dewiggle']:
            p = self.dewiggle(p)
        return p

    def dewiggle(self, p):
        from hmf.density_field.transfer_models import EH_NoBAO

        k = self.k
        dlnk = math.log(k[1] / k[0])
        now = k ** self.cfg['n_s'] * np.exp(EH_NoBAO(self.m.cosmo_model).lnt(np.log(k))) ** 2
        out = np.empty_like(p)
        for j in range(p.shape[0]):
            sv2 = simpson(p[j] * k, dx=dlnk) / (2 * math.pi**2) / 3.0
            smooth = gaussian_filter1d(p[j] / now, 0.25 / dlnk) * now
            out[j] = p[j] - (1 - np.exp(-(k**2) * sv2)) * (p[j] - smooth)
        return out

    @property
    def pnl(self):
        return self.memo('pnl', self._pnl)

    def _pnl(self):
        p = self.cfg['matter_power_nl']
        if p is None:
            p = lin(self.m.kh, np.asarray(self.m.nonlinear_power).T, self.k).T
        return np.array(p, float)

    @property
    def peff(self):
        t = self.cfg['t_eff']
        return (1 - t) * self.pnl + t * self.plin

    # ----------------------------------------------------------- truncations
    def t1(self, x):
        c = self.cfg['one_halo_ktrunc']
        return 1.0 if c is None else (x / c) ** 4 / (1 + (x / c) ** 4)

    def t2(self, x):
        y = (x / 0.05699) ** 2.853
        return 1.0 if self.cfg['two_halo_ktrunc'] is None else 1 - 0.05 * y / (1 + y)

    def t1ia(self, x):
        c = self.cfg['one_halo_ktrunc_ia']
        return 1.0 if c is None else 1 - math.exp(-((x / c) ** 2))

    def t2ia(self, x):
        c = self.cfg['two_halo_ktrunc_ia']
        return 1.0 if c is None else math.exp(-((x / c) ** 2))

    # -------------------------------------------------------------- profiles
    def baryons(self, mass, pivot, fstar):
        x = (mass / pivot) ** 2
        return (self.cfg['omega_b'] / self.om - fstar) * x / (1 + x)

    def matter(self, j, i, fstar=None):
        """Matter profile of halos at redshift j, wavenumber i (with feedback if so configured)."""
        c = self.cfg
        w = self.mass / self.rho[j]
        u = self.u[j, i]
        ing = c['hmcode_ingredients']
        if ing == 'mead2020_feedback':
            th = c['log10T_AGN'] - 7.8
            fs = (2.01 - 0.3 * th) * 0.01 * 10 ** (self.z[j] * (0.409 + 0.0224 * th))
            mb = 10 ** (13.87 + 1.81 * th) * 10 ** (self.z[j] * (0.195 * th - 0.108))
            return (c['omega_c'] / self.om + self.baryons(self.mass, mb, fs)) * w * u + fs * w
        if fstar is not None:
            return (c['omega_c'] / self.om + self.baryons(self.mass, c['mb'], fstar)) * w * u + fstar * w
        return w * u

    def matter_mm(self, j, i, nb):
        if self.cfg['hmcode_ingredients'] == 'fit':
            return self.matter(j, i, self.hod('hod_settings_mm').stellar_fraction[nb, j] if self._mm_fit() else np.zeros_like(self.mass))
        return self.matter(j, i)

    def _mm_fit(self):
        return self.cfg['hmcode_ingredients'] == 'fit' and self.cfg['hod_model'] == 'Cacciato'

    def matter_cross(self, j, i, nb):
        """Matter profile used with the galaxies of bin nb."""
        ing = self.cfg['hmcode_ingredients']
        if ing == 'fit' or (self.cfg['pointmass'] and ing not in ('mead2020', 'mead2020_feedback')):
            return self.matter(j, i, self.hod().stellar_fraction[nb, j])
        return self.matter(j, i)

    def cen(self, j, i, nb):
        h = self.hod()
        return h.f_c[nb, j] * h.hod_cen[nb, j] / h.number_density_cen[nb, j]

    def sat(self, j, i, nb):
        h = self.hod()
        return h.f_s[nb, j] * h.hod_sat[nb, j] / h.number_density_sat[nb, j] * np.asarray(self.m.u_sat)[j, i]

    def c1(self, j):
        return 5e-14 * np.asarray(self.m.alignment_gi)[j]

    def mavg(self, j, nb):
        h = self.hod()
        return h.avg_halo_mass_cen[nb, j] / h.number_density[nb, j]

    def _scale(self, j, nb, beta, piv):
        a = dict(ALIGN, **(self.cfg['align_params'] or {}))
        if a[beta] is None or a[piv] is None:
            return 1.0
        return (self.mavg(j, nb) / 10.0 ** a[piv]) ** a[beta]

    def cen_ia(self, j, i, nb):
        d = np.asarray(self.m.growth_factor)[j]
        return self.hod().f_c[nb, j] * self.c1(j) / d * self.mass * self._scale(j, nb, 'beta_cen', 'mpivot_cen')

    def sat_ia(self, j, i, nb):
        h = self.hod()
        w = self.memo('wkm', lambda: np.asarray(self.m.alignment_class.upsampled_wkm(self.k, self.mass)))
        return (
            h.f_s[nb, j] * h.hod_sat[nb, j] * w[j, :, i] / h.number_density_sat[nb, j]
            * self._scale(j, nb, 'beta_sat', 'mpivot_sat')
        )  # fmt: skip

    # ------------------------------------------------------------- integrals
    def one_halo(self, a, b, j):
        return simpson(a * b * self.n[j] / self.mass, x=self.mass)

    def bias_int(self, a, j):
        return simpson(a * self.b[j] * self.n[j] / self.mass, x=self.mass)

    def missing(self, j):
        return self.memo(('A', j), lambda: 1 - simpson(self.b[j] * self.n[j] / self.rho[j], x=self.mass))

    def Im(self, j, i):
        return self.memo(
            ('Im', j, i), lambda: self.bias_int(self.mass / self.rho[j] * self.u[j, i], j) + self.missing(j)
        )

    def with_missing(self, prof, j):
        """Bias integral with all the mass below the grid put in the lightest halos."""
        return self.bias_int(prof, j) + self.missing(j) * prof[0] * self.rho[j] / self.mass[0]

    def beta(self):
        def f():
            if self.cfg['beta_nl'] is not None:
                return np.asarray(self.cfg['beta_nl'], float)
            from onepower.bnl import NonLinearBias

            c = self.cfg
            return np.asarray(
                NonLinearBias(
                    mass=self.mass, z_vec=self.z, k_vec=self.k, h0=c['h0'], sigma_8=c['sigma_8'], omega_b=c['omega_b'],
                    omega_c=c['omega_c'], omega_lambda=1 - self.om, n_s=c['n_s'], w0=c['w0'],
                ).bnl
            )  # fmt: skip

        return self.memo('beta', f)

    def I_NL(self, a, b, j, i):
        bt = self.beta()
        bt = bt[j if bt.shape[0] > 1 else 0, i]
        w = self.b[j] * self.n[j] / self.mass
        A, r, m = self.missing(j), self.rho[j] / self.mass[0], self.mass
        inner = np.array([trap(bt[x] * w * b, m) for x in range(m.size)])
        i22 = trap(inner * w * a, m)
        i11 = bt[0, 0] * A * A * a[0] * b[0] * r * r
        i12 = A * a[0] * trap(bt[0] * w * b, m) * r
        i21 = A * b[0] * trap(bt[:, 0] * w * a, m) * r
        return i11 + i12 + i21 + i22

    # --------------------------------------------------------------- spectra
    def _grid(self, nb, f):
        out = np.empty((4, nb, self.z.size, self.k.size))
        out[3] = np.nan
        for b in range(nb):
            for j in range(self.z.size):
                for i in range(self.k.size):
                    r = f(j, i, b)
                    out[: len(r), b, j, i] = r
        return out

    def hm_mm(self):
        return self.memo('hm', self._hm_mm)

    def _hm_mm(self):
        mode = self.cfg['nonlinear_mode']
        nb = self.hod('hod_settings_mm').nbins if self._mm_fit() else 1
        s8, ne = np.asarray(self.m.sigma8_z), np.asarray(self.m.neff)

        def f(j, i, b):
            x, p = self.k[i], self.plin[j, i]
            w = self.matter_mm(j, i, b)
            p1 = self.one_halo(w, w, j)
            if mode == 'hmcode':
                y = (x / (0.05618 * s8[j] ** -1.013)) ** 4
                p1 *= y / (1 + y)
                y = (x / (0.05699 * s8[j] ** -1.089)) ** 2.853
                p2 = p * (1 - 0.2696 * s8[j] ** 0.9403 * y / (1 + y))
                d, al = x**3 / (2 * math.pi**2), 1.875 * 1.603 ** ne[j]
                return p1, p2, ((d * p1) ** al + (d * p2) ** al) ** (1 / al) / d
            p1 *= self.t1(x)
            p2 = p * self.Im(j, i) ** 2
            if mode == 'bnl':
                w2 = self.mass / self.rho[j] * self.u[j, i]
                p2 += p * self.I_NL(w2, w2, j, i)
            else:
                p2 *= self.t2(x)
            return p1, p2, p1 + p2

        return self._grid(nb, f)

    def mm(self):
        if self.cfg['response']:
            out = np.zeros((4, 1) + self.pnl.shape)
            out[2] = self.pnl
            return out
        return self.hm_mm()

    def respond(self, out):
        if self.cfg['response']:
            out = np.array(np.broadcast_arrays(out, out * (self.pnl / self.hm_mm()[2])[None])[1])
        return out

    def gg(self):
        h, pf = self.hod(), self.poisson()

        def f(j, i, b):
            c, s, x, p = self.cen(j, i, b), self.sat(j, i, b), self.k[i], self.plin[j, i]
            p1 = (2 * self.one_halo(c, s, j) + self.one_halo(s * pf, s, j)) * self.t1(x)
            bg = self.bias_int(c, j) + self.bias_int(s, j)
            p2 = p * bg**2
            if self.cfg['nonlinear_mode'] == 'bnl':
                p2 += p * self.I_NL(c + s, c + s, j, i)
            else:
                p2 *= self.t2(x)
            return p1, p2, p1 + p2, bg

        return self._with_bias(self._grid(h.nbins, f))

    def _with_bias(self, out):
        r = self.respond(out[:3])
        b = np.broadcast_to(out[3], r.shape[1:])
        return np.concatenate([r, b[None]])

    def poisson(self):
        c = self.cfg
        p = dict(poisson=1.0, **{}) | (c['poisson_params'] or {})
        if c['poisson_model'] == 'constant':
            return p['poisson'] * np.ones_like(self.mass)
        return p['poisson'] * (self.mass / 10.0 ** p['pivot']) ** p['slope']

    def gm(self):
        def f(j, i, b):
            c, s, x, p = self.cen(j, i, b), self.sat(j, i, b), self.k[i], self.plin[j, i]
            p1 = self.one_halo(c + s, self.matter_cross(j, i, b), j) * self.t1(x)
            bg = self.bias_int(c, j) + self.bias_int(s, j)
            p2 = p * bg * self.Im(j, i)
            if self.cfg['nonlinear_mode'] == 'bnl':
                p2 += p * self.I_NL(c + s, self.mass / self.rho[j] * self.u[j, i], j, i)
            else:
                p2 *= self.t2(x)
            return p1, p2, p1 + p2, math.sqrt(bg * self.Im(j, i)) if bg * self.Im(j, i) >= 0 else math.nan

        return self._with_bias(self._grid(self.hod().nbins, f))

    def mi(self):
        mode, d = self.cfg['nonlinear_mode'], np.asarray(self.m.growth_factor)

        def f(j, i, b):
            c, s, x, p = self.cen_ia(j, i, b), self.sat_ia(j, i, b), self.k[i], self.plin[j, i]
            p1 = -self.one_halo(self.matter_cross(j, i, b), s, j) * self.t1ia(x)
            if mode == 'fortuna':
                p2 = -self.hod().f_c[b, j] * self.peff[j, i] * self.c1(j) * self.rho[j] / d[j] * self.t2ia(x)
            else:
                p2 = -p * (self.with_missing(c, j) + self.with_missing(s, j)) * self.Im(j, i)
                if mode == 'bnl':
                    p2 -= p * self.I_NL(c + s, self.mass / self.rho[j] * self.u[j, i], j, i)
                else:
                    p2 *= self.t2ia(x)
            return p1, p2, p1 + p2

        return self.respond(self._grid(self.hod().nbins, f)[:3])

    def ii(self):
        mode, d = self.cfg['nonlinear_mode'], np.asarray(self.m.growth_factor)

        def f(j, i, b):
            c, s, x, p = self.cen_ia(j, i, b), self.sat_ia(j, i, b), self.k[i], self.plin[j, i]
            p1 = self.one_halo(s, s, j) * self.t1ia(x)
            if mode == 'fortuna':
                p2 = (self.hod().f_c[b, j] * self.c1(j) * self.rho[j] / d[j]) ** 2 * self.peff[j, i] * self.t2ia(x)
            else:
                C, S = self.with_missing(c, j), self.with_missing(s, j)
                p2 = p * (C * C + S * S + C * S)
                if mode == 'bnl':
                    p2 += p * (self.I_NL(c, c, j, i) + self.I_NL(s, s, j, i) + self.I_NL(c, s, j, i))
                else:
                    p2 *= self.t2ia(x)
            return p1, p2, p1 + p2

        return self.respond(self._grid(self.hod().nbins, f)[:3])

    def gi(self):
        mode, d = self.cfg['nonlinear_mode'], np.asarray(self.m.growth_factor)

        def f(j, i, b):
            g, c, s = self.cen(j, i, b), self.cen_ia(j, i, b), self.sat_ia(j, i, b)
            x, p = self.k[i], self.plin[j, i]
            p1 = self.one_halo(g, s, j) * self.t1ia(x)
            G = self.bias_int(g, j)
            if mode == 'fortuna':
                p2 = self.peff[j, i] * G * self.c1(j) * self.rho[j] / d[j] * self.t2ia(x)
            else:
                p2 = p * G * (self.with_missing(c, j) + self.with_missing(s, j))
                if mode == 'bnl':
                    p2 += p * (self.I_NL(c, g, j, i) + self.I_NL(s, g, j, i))
                else:
                    p2 *= self.t2ia(x)
            return p1, p2, p1 + p2

        return self.respond(self._grid(self.hod().nbins, f)[:3])

    def lin(self):
        out = np.full((4, 1) + self.plin.shape, np.nan)
        out[2] = self.plin
        return out
