"""Special values: from each of a few base regimes, every parameter in turn is moved to each of
its special values (zeros, signs, integers, values equal or nearly equal to another one, ends of
ranges, awkward grids and bin layouts)."""

import numpy as np

from . import awkward, space as sp


def bins(obs, zr=None, **kw):
    """Galaxy bins with the given (low, high) edges and redshift ranges."""
    zr = zr or [(0.0, 0.6)] * len(obs)
    return dict(sp.settings(), obs_min=np.array([a for a, _ in obs]), obs_max=np.array([b for _, b in obs]),
                zmin=np.array([a for a, _ in zr]), zmax=np.array([b for _, b in zr]), **kw)  # fmt: skip


def layouts():
    """Bin layouts on which mixing up bins, edges or redshift ranges shows."""
    return {
        'contiguous': bins([(8.6, 9.2), (9.2, 9.8), (9.8, 10.4), (10.4, 11.0)]),
        'descending': bins([(10.2, 11.0), (9.4, 10.2), (8.6, 9.4)]),
        'identical': bins([(9.0, 10.0)] * 3),
        'identical twice': bins([(9.0, 10.0), (10.0, 11.0), (9.0, 10.0)]),
        'same low edge': bins([(9.0, 9.5), (9.0, 10.5)]),
        'same high edge': bins([(9.0, 10.5), (9.8, 10.5)]),
        'nested': bins([(8.8, 11.0), (9.4, 9.9)]),
        'nearly equal': bins([(9.0, 10.0), (9.0005, 10.0)]),
        'narrow': bins([(9.0, 9.01)]),
        'wide': bins([(7.0, 12.4)]),
        'bright': bins([(11.2, 11.6)]),
        'same start': bins([(9.0, 10.0), (9.5, 10.5)], [(0.0, 0.5), (0.0, 0.6)]),
        'same end': bins([(9.0, 10.0), (9.5, 10.5)], [(0.0, 0.6), (0.1, 0.6)]),
        'same edges, other z': bins([(9.0, 10.0), (9.0, 10.0)], [(0.0, 0.6), (0.05, 0.5)]),
        'contiguous in z': bins([(9.0, 10.0), (9.0, 10.0), (9.0, 10.0)], [(0.0, 0.2), (0.2, 0.4), (0.4, 0.6)]),
        'descending in z': bins([(9.0, 10.0), (8.8, 9.9)], [(0.3, 0.6), (0.0, 0.3)]),
        'five': bins([(8.6 + 0.4 * i, 9.3 + 0.35 * i) for i in range(5)], [(0.02 * i, 0.5 + 0.03 * i) for i in range(5)]),
        'fine': bins([(8.9, 10.2), (9.6, 10.9)], nz=9, nobs=40),
        'coarse': bins([(8.9, 10.2), (9.6, 10.9)], nz=2, nobs=3),
        'unit': bins([(8.9, 10.2), (9.6, 10.9)], observable_h_unit='1/h'),
    }  # fmt: skip


def zs():
    g = awkward.grids(np.array([0.05, 0.2, 0.45]))
    g.update({'with zero': np.array([0.0, 0.1]), 'zero in the middle': np.array([0.3, 0.0, 0.1]), 'five': np.array([0.02, 0.1, 0.2, 0.4, 0.55]),
              'beyond the bins': np.array([0.3, 0.59, 0.61, 1.2]), 'those of the bins': np.linspace(0.0, 0.6, 4), 'ends of the bins': np.array([0.0, 0.1, 0.3, 0.6]),
              'as many as wavenumbers': np.linspace(0.02, 0.55, 10)})  # fmt: skip
    return g


def ks():
    g = awkward.grids(np.logspace(-2.5, 1.2, 9), log=True)
    del g['first only'], g['last only']  # the profiles are normalised at the first wavenumber: one alone means nothing
    g['uneven'] = np.array([0.004, 0.005, 0.1, 0.11, 3.0, 20.0])
    g['as many as masses'] = np.logspace(-2.4, 1.1, sp.nmass())
    g['as many as redshifts'] = np.array([0.02, 0.7])
    g['very low'] = np.logspace(-5, -3, 4)
    g['very high'] = np.logspace(1.0, 1.7, 4)
    return g


def regimes():
    out = dict(sp.BASES)
    out['fit'] = dict(hmcode_ingredients='fit', hod_settings_mm=sp.settings(0, 2), hod_settings=sp.settings(0, 2), pointmass=True)
    out['feedback bnl'] = dict(nonlinear_mode='bnl', hmcode_ingredients='mead2020_feedback')
    return out


def config(regime, z=sp.Z, k=sp.K, **over):
    """The configuration of a regime on other grids (tables follow the grids)."""
    c = sp.spectra_base(**regimes()[regime])
    c.update(over)
    c['z_vec'], c['k_vec'] = z, k
    nm = np.arange(c['Mmin'], c['Mmax'], c['dlog10m']).size
    if isinstance(c.get('beta_nl'), np.ndarray) and 'beta_nl' not in over:
        c['beta_nl'] = sp.beta_nl(1, z.size, k, nm)
    if c.get('matter_power_lin') is not None and 'matter_power_lin' not in over:
        c['matter_power_lin'] = sp.plin(0, z, k)
    if c.get('matter_power_nl') is not None and 'matter_power_nl' not in over:
        c['matter_power_nl'] = sp.pnl(0, z, k)
    return c


def ingredients():
    """Parameter -> special values, for the halo model ingredients."""
    out = {n: v for n, v in matter().items() if n in ('omega_c', 'omega_b', 'h0', 'n_s', 'm_nu', 'w0', 'wa', 'sigma_8', 'tcmb', 'Neff', 'log10T_AGN', 'Mmin', 'Mmax',
                                                      'dlog10m', 'overdensity', 'delta_c', 'norm_cen', 'eta_cen', 'mdef_model')}  # fmt: skip
    out.update({
        'norm_sat': out['norm_cen'], 'eta_sat': out['eta_cen'], 'lnk_min': [np.log(1e-4), -6], 'lnk_max': [np.log(30.0), 5], 'dlnk': [0.1, 0.05, 0.5],
        '_same': [dict(norm_cen=1.3, norm_sat=1.3, eta_cen=0.2, eta_sat=0.2), dict(norm_cen=1.3, norm_sat=0.7), dict(eta_cen=0.2, eta_sat=-0.2),
                  dict(norm_cen=np.array([1.0, 1.2]), norm_sat=np.array([1.2, 1.0]), eta_cen=np.array([0.1, 0.2]), eta_sat=np.array([0.2, 0.1])),
                  dict(omega_c=0.25, omega_b=0.25), dict(w0=-0.9, wa=-0.9), dict(overdensity=100.0, delta_c=1.0)],
        '_models': [dict(hmf_model='Tinker08'), dict(hmf_model='Jenkins'), dict(hmf_model='Warren'), dict(bias_model='Seljak04'), dict(bias_model='Jing98'), dict(bias_model='Tinker10PBSplit'),
                    dict(halo_concentration_model_dm='diemer19'), dict(halo_concentration_model_sat='prada12', norm_sat=1.2), dict(halo_concentration_model_dm='Maccio07'), dict(halo_concentration_model_sat='Ludlow16'), dict(halo_profile_model_dm='CoredNFW'), dict(halo_profile_model_sat='CoredNFW'),
                    dict(halo_concentration_model_dm='Bullock01'), dict(halo_concentration_model_sat='Bullock01'), dict(halo_profile_model_dm='Hernquist'), dict(halo_profile_model_sat='Hernquist'),
                    dict(transfer_model='EH_NoBAO'), dict(transfer_model='BondEfs'), dict(transfer_model='BBKS'), dict(growth_model='ODEGrowthFactor'), dict(growth_model='Carroll1992')],
    })  # fmt: skip
    return out


def matter():
    """Parameter -> special values, for everything the matter spectra depend on."""
    z, k = sp.Z, sp.K
    spike = sp.plin(1)
    spike[1, 4] *= 50
    asym = sp.beta_nl(1, 2)
    asym = asym * (1 + 0.4 * np.arange(asym.shape[2])[None, None, :, None] / asym.shape[2])
    return {
        'omega_c': [0.05, 0.94], 'omega_b': [0.25, 0.001, 0.0499, 0.3], 'h0': [1.0, 0.5, 0.7001], 'n_s': [1.0, 0.5, 1],
        'm_nu': [0.0, 0.0599, 0.9], 'w0': [-1, -0.4], 'wa': [-0.9, 0.8], 'sigma_8': [1.0, 1, 0.4], 'tcmb': [2.0], 'Neff': [0.0, 3.0],
        'log10T_AGN': [7.8, 8, 7.0, 9.0, 7.7999], 'mb': [1.0, 1e11, 10**13.7 * 1.001, 1e16, 10**13],
        'Mmin': [10.999, 13.5, 9], 'Mmax': [16.5, 13.0, 15], 'dlog10m': [0.1, 0.45, 0.251],
        'overdensity': [100, 1600.0], 'delta_c': [1.0, 2.5], 'norm_cen': [0.5, 2, np.array([1.0, 1.5]), np.array([1.5, 1.0])],
        'eta_cen': [0, 0.0, -0.6, np.array([0.0, 0.3]), np.array([0.3, 0.3])], 'mdef_model': ['SOMean', 'SOCritical'],
        'one_halo_ktrunc': [1, 1e-3, 500.0, 0.1000001, k[4]], 'two_halo_ktrunc': [0.0, 0, 1, 1e3, 1e-3, k[4]],
        'matter_power_lin': [sp.plin(0), sp.plin(0) * 1.0001, sp.plin(0)[::-1].copy(), spike, np.repeat(sp.plin(0)[:1], 2, axis=0), sp.plin(3) * 1e-3, None],
        'matter_power_nl': [sp.plin(0), sp.pnl(0) * 1.0001, sp.pnl(0)[::-1].copy(), spike, np.repeat(sp.pnl(0)[:1], 2, axis=0), sp.pnl(3) * 1e-3, None],
        'beta_nl': [asym, np.zeros((1, k.size, sp.nmass(), sp.nmass())), -sp.beta_nl(0), sp.beta_nl(0, 2)[::-1].copy(), None],
        'hod_settings_mm': list(layouts().values()), 'hod_params': [{'A_cen': 0, 'A_sat': 0}, {'A_cen': 1.0}, {'A_sat': -1}],
        'response': [True], 'dewiggle': [True],
        '_heavy': [dict(hmf_model='PS', bias_model='SMT01', sigma_8=s8, Mmin=6.0, Mmax=17.0) for s8 in (1.9, 2.4)],  # missing mass negative at one, both redshifts
    }  # fmt: skip


def galaxies():
    out = matter()
    for n in ('hod_settings_mm', 'tcmb', 'Neff', 'overdensity', 'wa', 'w0', 'delta_c'):
        del out[n]
    out.update({
        'norm_sat': [0.5, 2, np.array([1.0, 1.5])], 'eta_sat': [0, -0.6, np.array([0.0, 0.3])], 'hod_settings': list(layouts().values()),
        '_poisson': [dict(poisson_params={'poisson': 0.0}), dict(poisson_params={'poisson': 1}), dict(poisson_params={'poisson': 2.5}),
                     dict(poisson_model='power_law', poisson_params={'poisson': 1.0, 'pivot': 12.0, 'slope': 0.0}),
                     dict(poisson_model='power_law', poisson_params={'poisson': 2, 'pivot': 14, 'slope': -1}),
                     dict(poisson_model='power_law', poisson_params={'poisson': 0.5, 'pivot': 11.0, 'slope': 0.5})],
        'pointmass': [True, False],
        '_hod': [dict(hod_model=m, hod_settings=sp.settings(), hod_params={}) for m in ('Zheng', 'Zhai', 'Simple', 'Zehavi')]
        + [dict(hod_model='Cacciato', hod_params=p) for p in (
            dict(beta_s=2), dict(beta_s=0.5), dict(alpha_s=0), dict(alpha_s=-2), dict(sigma_log10_O_c=1.0), dict(sigma_log10_O_c=0.02), dict(g1=0.5, g2=0.5), dict(norm_s=1.0),
            dict(b0=0.0, b1=0.0, b2=0.0), dict(pivot=11.0), dict(log10_m_ch=13.0), dict(log10_obs_norm_c=9.0))],
    })  # fmt: skip
    return out


def shapes():
    out = {n: v for n, v in galaxies().items() if n not in ('_poisson', 'norm_cen', 'eta_cen', 'one_halo_ktrunc', 'two_halo_ktrunc', 'mb', 'm_nu', 'tcmb')}
    k = sp.K
    out.update({
        't_eff': [1, 1.0, 0.5, -0.2, 1.7], 'one_halo_ktrunc_ia': [1, 1e-3, 500.0, 4.000001, 6.0, k[6]],
        'two_halo_ktrunc_ia': [1, 1e-3, 500.0, 6.000001, 4.0, k[6]],
        'align_params': [dict(sp.ALIGN, **a) for a in (
            dict(gamma_2h_amplitude=0.0), dict(gamma_2h_amplitude=1), dict(beta_cen=0), dict(beta_cen=0.3), dict(beta_sat=0.4), dict(beta_sat=0), dict(beta_cen=-2.0),
            dict(mpivot_cen=13.6), dict(mpivot_sat=13.2), dict(mpivot_cen=10), dict(mpivot_sat=16.0), dict(gamma_1h_amplitude=0.0), dict(gamma_1h_amplitude=1),
            dict(gamma_1h_slope=-2.0), dict(gamma_1h_slope=0.0), dict(gamma_1h_slope=-2.99), dict(gamma_1h_slope=1), dict(ell_max=2), dict(ell_max=9), dict(truncate=True),
            dict(mpivot_cen=None, central_ia_depends_on='constant'), dict(beta_sat=None), dict(mpivot_sat=None, satellite_ia_depends_on='constant'), dict(beta_cen=None),
            dict(central_ia_depends_on='constant'), dict(satellite_ia_depends_on='constant'))],
    })  # fmt: skip
    return out


def decide(r, which, table, only=None, zgrids=None, kgrids=None):
    """Every regime x every parameter x every special value, on a fresh model each."""
    from checks.spectra_ref import build, compare, valid

    from . import explore, lattice

    cases = []
    for reg in regimes():
        if only and reg not in only:
            continue
        for n, vals in table.items():
            for v, val in enumerate(vals):
                over = dict(val) if n.startswith('_') else {n: val}
                cases.append((reg, n, v, over, sp.Z, sp.K))
        for g, z in (zs() if zgrids is None else zgrids).items():
            cases.append((reg, 'z_vec', g, {}, z, sp.K))
        for g, k in (ks() if kgrids is None else kgrids).items():
            cases.append((reg, 'k_vec', g, {}, sp.Z, k))
    keep = []
    for reg, n, v, over, z, k in cases:
        cfg = config(reg, z, k, **over)
        dk = np.diff(np.log(k))
        wig = cfg.get('dewiggle') or cfg.get('nonlinear_mode') == 'hmcode'
        if wig and (k.size < 3 or not np.allclose(dk, dk[0], rtol=1e-9) or dk[0] <= 0):
            continue  # undefined: the de-wiggling filter needs an even ascending grid in ln k
        if not valid(cfg):
            continue
        if cfg.get('omega_c', 0.25) + cfg.get('omega_b', 0.05) >= 1:
            continue
        keep.append((reg, n, v, cfg))
    visit = compare(which)

    def one(case):
        reg, n, v, cfg = case
        import copy

        try:
            model = build(copy.deepcopy(cfg))
        except Exception as e:
            return [f'rejected: {type(e).__name__}: {e}']
        try:
            with np.errstate(all='ignore'):
                return list(visit(model, cfg, {}))
        except Exception as e:
            return [f'raises: {type(e).__name__}: {e}']

    for (reg, n, v, cfg), bad in zip(keep, explore.pmap(one, keep, chunk=4, progress='special values')):
        key = (reg, n, str(v))
        r.state(('special',) + key)
        r.step()
        r.trace()
        for d in bad:
            r.violation('special|' + '|'.join(key) + '|' + d.split(':')[0], f'{reg}, {n} #{v}: {d}', ['special', *key, lattice.show({n: cfg.get(n)})])
    r.say(f'special values: {len(keep)} configurations')
    r.note(special_values=len(keep))
    return len(keep)
