"""Reference halo model ingredients: a halomod model built directly for every redshift."""

import math

import numpy as np
from astropy import units as u
from astropy.cosmology import Flatw0waCDM, Planck15
from hmf.halos.mass_definitions import SphericalOverdensity
from scipy.integrate import quad, solve_ivp
from scipy.interpolate import interp1d

DEFAULTS = dict(
    h0=0.7, omega_c=0.25, omega_b=0.05, w0=-1.0, wa=0.0, n_s=0.9, tcmb=2.7255, Neff=3.044, m_nu=0.06, sigma_8=0.8, log10T_AGN=7.8,
    mdef_model='SOMean', hmf_model='Tinker10', bias_model='Tinker10', halo_profile_model_dm='NFW',
    halo_concentration_model_dm='Duffy08', halo_profile_model_sat='NFW', halo_concentration_model_sat='Duffy08',
    transfer_model='CAMB', transfer_params={}, growth_model='CambGrowth', growth_params={}, norm_cen=1.0, norm_sat=1.0,
    eta_cen=0.0, eta_sat=0.0, overdensity=200.0, delta_c=1.686, hmcode_ingredients=None,
)  # fmt: skip


class SORefMead(SphericalOverdensity):
    """A given overdensity with respect to the mean, known to the concentration code as virial."""

    _defaults = {'overdensity': 200}

    def halo_density(self, z=0, cosmo=Planck15):
        return self.params['overdensity'] * self.mean_density(z, cosmo)

    @property
    def colossus_name(self):
        return '200c'

    def __str__(self):
        return 'SOVirial'


class Cosmology:
    def __init__(self, cfg):
        c = self.c = dict(DEFAULTS, **cfg)
        self.z = np.asarray(cfg['z_vec'], float)
        self.a = 1 / (1 + self.z)
        self.cosmo = Flatw0waCDM(
            H0=c['h0'] * 100, Ob0=c['omega_b'], Om0=c['omega_c'] + c['omega_b'], Neff=c['Neff'],
            m_nu=[0, 0, c['m_nu']] * u.eV, Tcmb0=c['tcmb'], w0=c['w0'], wa=c['wa'],
        )  # fmt: skip

    def growth(self):
        """Linear growth normalised to the scale factor deep in matter domination (Mead et al.)."""
        co = self.cosmo
        om = co.Om0 + co.Onu0
        ode = 1 - om

        def X(a):
            return co.de_density_scale(1 / a - 1)

        def H2(a):
            return om * a**-3 + ode * X(a) + co.Ok0 * a**-2

        def AH(a):
            return -0.5 * (om * a**-3 + (1 + 3 * co.w(1 / a - 1)) * ode * X(a))

        a0 = 1e-4
        f = 1 - om * a0**-3 / H2(a0)
        grid = np.linspace(a0, 1, 129)
        sol = solve_ivp(
            lambda a, y: (y[1], -(2 + AH(a) / H2(a)) * y[1] / a + 1.5 * om * a**-3 / H2(a) * y[0] / a**2),
            (a0, 1.0),
            (a0 ** (1 - 0.6 * f), (1 - 0.6 * f) * a0 ** (-0.6 * f)),
            t_eval=grid,
        )
        return interp1d(grid, sol.y[0], kind='cubic')

    def mead(self):
        co, a = self.cosmo, self.a
        gf = self.growth()
        g = gf(a)
        G = np.array([quad(lambda x: gf(x) / x, 1e-4, ai)[0] + gf(1e-4) for ai in a])
        L = np.log10(co.Om(self.z) + co.Onu(self.z))
        fnu = co.Onu0 / (co.Om0 + co.Onu0)
        x, y = 1 - g / a, 1 - G / a

        def F(p):
            return p[0] + p[1] * x + p[2] * x**2 + p[3] * y

        dc = 1 + F([-0.0069, -0.0208, 0.0312, 0.0021]) * L + F([0.0001, -0.0647, -0.0417, 0.0646])
        dv = 1 + F([-0.79, -10.17, 2.51, 6.51]) * L + F([-1.89, 0.38, 18.8, -15.87]) * L**2
        return dict(
            get_mead_growth=g,
            get_mead_accumulated_growth=G,
            dc_Mead=dc * 3 / 20 * (12 * math.pi) ** (2 / 3) * (1 - 0.041 * fnu),
            Dv_Mead=dv * 18 * math.pi**2 * (1 + 0.763 * fnu),
        )


class Ingredients(Cosmology):
    def models(self):
        import halomod.concentration as cc
        from halomod.concentration import interp_concentration, make_colossus_cm
        from halomod.halo_model import DMHaloModel

        c, z = self.c, self.z
        hm = c['hmcode_ingredients'] in ('mead2020', 'mead2020_feedback')
        mead = self.mead() if hm else None
        out = []
        for which in ('dm', 'sat'):
            ms = []
            norm = np.broadcast_to(c['norm_cen' if which == 'dm' else 'norm_sat'], z.shape)
            eta = np.broadcast_to(c['eta_cen' if which == 'dm' else 'eta_sat'], z.shape)
            for j, zj in enumerate(z):
                if hm:
                    mdef, mpar = SORefMead, {'overdensity': mead['Dv_Mead'][j]}
                    dc, hmf, bias, conc = mead['dc_Mead'][j], 'ST', 'ST99', 'Bullock01'
                else:
                    mdef, hmf, bias = c['mdef_model'], c['hmf_model'], c['bias_model']
                    virial = mdef == 'SOVirial'
                    mpar = {} if virial else {'overdensity': c['overdensity']}
                    dc = c['delta_c']
                    if virial:
                        dc = 3 / 20 * (12 * math.pi) ** (2 / 3) * (1 + 0.0123 * math.log10(self.cosmo.Om(zj)))
                    conc = c[f'halo_concentration_model_{which}']
                cpar = {'norm': norm[j]}
                if hm:
                    cpar['K'] = self.K()[j]

                def make(eta_j):
                    return DMHaloModel(
                        z=zj, lnk_min=c['lnk_min'], lnk_max=c['lnk_max'], dlnk=c['dlnk'], Mmin=c['Mmin'], Mmax=c['Mmax'],
                        dlog10m=c['dlog10m'], hmf_model=hmf, mdef_model=mdef, mdef_params=mpar, disable_mass_conversion=hm,
                        bias_model=bias, halo_profile_model=c[f'halo_profile_model_{which}'],
                        halo_profile_params={'cosmo': self.cosmo, 'eta_bloat': eta_j},
                        halo_concentration_model=interp_concentration(getattr(cc, conc) if hasattr(cc, conc) else make_colossus_cm(conc)), halo_concentration_params=cpar,
                        cosmo_model=self.cosmo, sigma_8=c['sigma_8'], n=c['n_s'], transfer_model=c['transfer_model'],
                        transfer_params=dict(c['transfer_params']), growth_model=c['growth_model'],
                        growth_params=dict(c['growth_params']), delta_c=dc,
                    )  # fmt: skip

                e = eta[j]
                if hm:
                    e = 0.1281 * make(0.0).sigma8_z ** -0.3644
                ms.append(make(e))
            out.append(ms)
        return out

    def K(self):
        c, z = self.c, self.z
        if c['hmcode_ingredients'] == 'mead2020':
            return 5.196 * np.ones_like(z)
        if c['hmcode_ingredients'] == 'mead2020_feedback':
            th = c['log10T_AGN'] - 7.8
            return 5.196 / 4 * (3.44 - 0.496 * th) * 10 ** (z * (-0.0671 - 0.0371 * th))
        return np.zeros_like(z)

    def quantities(self):
        cen, sat = self.models()
        k = np.asarray(self.c['k_vec'], float)

        def arr(f, ms=cen):
            return np.array([f(x) for x in ms])

        out = dict(
            mass=cen[0].m, kh=cen[0].k, power=arr(lambda x: x.power), nonlinear_power=arr(lambda x: x.nonlinear_power),
            halo_overdensity_mean=arr(lambda x: x.halo_overdensity_mean), nu=arr(lambda x: np.sqrt(x.nu)),
            dndlnm=arr(lambda x: x.dndlnm), mean_density0=arr(lambda x: x.mean_density0), mean_density_z=arr(lambda x: x.mean_density),
            rho_halo=arr(lambda x: x.halo_overdensity_mean * x.mean_density0), halo_bias=arr(lambda x: x.halo_bias),
            neff=arr(lambda x: x.n_eff_at_collapse), sigma8_z=arr(lambda x: x.sigma8_z[0]), K=self.K(),
            growth_factor=np.array([cen[0].growth.growth_factor(zj) for zj in self.z]),
            fnu=np.full(self.z.shape, self.cosmo.Onu0 / self.cosmo.Om0), scale_factor=self.a, omega_m=self.c['omega_c'] + self.c['omega_b'],
        )  # fmt: skip
        for s, ms, us in (('cen', cen, 'u_dm'), ('sat', sat, 'u_sat')):
            uk = arr(lambda x: x.halo_profile.u(k, x.m), ms)
            out[f'conc_{s}'] = arr(lambda x: x.cmz_relation, ms)
            out[f'nfw_{s}'] = uk
            out[us] = uk / uk[:, :1, :]
            out[f'rvir_{s}'] = arr(lambda x: x.halo_profile.halo_mass_to_radius(x.m), ms)
            out[f'r_s_{s}'] = arr(lambda x: x.halo_profile._rs_from_m(x.m), ms)
        return out
