"""C16: every execution of the CosmoSIS module writes what the library gives for that point, whatever ran before."""

import itertools
import os

import numpy as np

from vlib import boot, explore, fakeblock, fakeemu, lattice, space as sp
from vlib.refhod import lin as lin1

from .c11 import upsample

PATH = os.path.join(boot.REPO, 'cosmosis_modules', 'onepower_interface.py')
SPECTRA = ['mm', 'gg', 'gm', 'gI', 'mI', 'II']
SECTION = {'mm': 'matter_power_nl', 'gg': 'galaxy_power', 'gm': 'matter_galaxy_power', 'II': 'intrinsic_power', 'gI': 'galaxy_intrinsic_power', 'mI': 'matter_intrinsic_power'}
KIND = {'mm': 'mm', 'gg': 'gg', 'gm': 'gm', 'gI': 'gi', 'mI': 'mi', 'II': 'ii'}


# -------------------------------------------------------------------------- data blocks
def block(i, nbins=1):
    """The i-th point of a chain: cosmology, tables and nuisance parameters all differ."""
    z = np.linspace(0.0, 1.2, 4 + i)
    k = np.logspace(-3.0, 1.3, 14 + i)
    zn, kn = np.linspace(0.0, 1.5, 5 + i), np.logspace(-3.1, 1.2, 11 + i)
    kt = np.logspace(-5, 3, 60)
    d = {}
    oc, ob = 0.25 - 0.02 * i, 0.046 + 0.002 * i
    c = 'cosmological_parameters'
    for n, v in dict(omega_c=oc, omega_b=ob, omega_m=oc + ob + 0.001, h0=0.7 - 0.01 * i, n_s=0.96 + 0.01 * i, sigma_8=0.8 - 0.03 * i,
                     A_s=2.1e-9 * (1 + 0.1 * i), mnu=0.06 + 0.05 * i, w=-1.0 + 0.05 * i, wa=0.05 * i).items():  # fmt: skip
        d[c, n] = v
    if i == 1:
        d[c, 'TCMB'] = 2.8
        d['profile_parameters', 'norm_cen'] = 1.2
        d['profile_parameters', 'norm_sat'] = 0.9
        d['profile_parameters', 'eta_cen'] = 0.1
        d['profile_parameters', 'eta_sat'] = 0.2
        d['halo_model_parameters', 'm_b'] = 13.3
        d['pk_parameters', 'linear_fraction_fortuna'] = 0.4
    d['halo_model_parameters', 'logT_AGN'] = 7.8 + 0.2 * i
    d['matter_power_transfer_func', 'k_h'] = kt
    d['matter_power_transfer_func', 't_k'] = 1.0 / (1.0 + (kt / (0.02 + 0.002 * i)) ** 1.8)
    d['growth_parameters', 'z'] = np.linspace(0, 6, 40)
    d['growth_parameters', 'd_z'] = 1.0 / (1.0 + np.linspace(0, 6, 40)) ** (0.9 + 0.02 * i)
    for s, zz, kk, f in (('matter_power_lin', z, k, sp.plin), ('matter_power_nl', zn, kn, sp.pnl)):
        d[s, 'z'], d[s, 'k_h'], d[s, 'p_k'] = zz, kk, f(i, zz, kk)
    for n, v in dict(poisson=1.0 + 0.1 * i, pivot=13.0 + 0.1 * i, slope=0.1 * i).items():
        d['pk_parameters', n] = v
    for n, v in dict(log10_obs_norm_c=9.95 + 0.05 * i, log10_m_ch=11.2, g1=3.2, g2=0.24, sigma_log10_O_c=0.2, norm_s=0.56, pivot=12.0,
                     alpha_s=-0.85, beta_s=2.0, b0=0.18 + 0.1 * i, b1=0.8, b2=0.0).items():  # fmt: skip
        d['hod_parameters', n] = v
    if i == 2:
        d['hod_parameters', 'A_cen'] = 0.2
        d['hod_parameters', 'A_sat'] = -0.1
    for n, v in dict(log10_Mmin=12.1, sigma=0.3, log10_M0=11.8, log10_M1=13.2, alpha=1.05, log10_Msat=13.4, log10_Mcut=12.2).items():
        d['hod_parameters', n] = v + 0.03 * i
        for b in range(3):
            d['hod_parameters', f'{n}_{b + 1}'] = v + 0.03 * i + 0.05 * b
    for suffix in ('', '_red', '_blue'):
        o = {'': 0.0, '_red': 0.3, '_blue': 0.7}[suffix] + 0.1 * i
        for n, v in dict(beta=0.4 + o, beta_sat=0.3 + o, M_pivot=13.2 + o, gamma_1h_radial_slope=-2.0 + 0.1 * o, gamma_1h_amplitude=0.001 + o / 100,
                         gamma_2h_amplitude=5.0 - o).items():  # fmt: skip
            d['intrinsic_alignment_parameters' + suffix, n] = v
    return d


def options(spectra, nbins=1, nia=None, **kw):
    nia = nbins if nia is None else nia
    o = dict(
        log_mass_min=11.0, log_mass_max=15.5, nmass=15, zmin_hmf=0.0, zmax_hmf=1.1, nz_hmf=3, nk=9, poisson_type='constant',
        hod_model='Cacciato', observable_h_unit='1/h^2', update_bnl=1,
        hod_section_name='hod_out', hod_section_name_ia='hod_ia_out', hod_section_name_ia_1='hod_ia1', hod_section_name_ia_2='hod_ia2',
    )  # fmt: skip
    for n in SPECTRA:
        o[f'p_{n}'] = n in spectra
    for suffix, n, off in (('hod', nbins, 0.0), ('ia', nia, 0.15), ('ia_1', nia, 0.2), ('ia_2', nia, 0.3), ('smf', 1, 0.4)):
        lo = np.array([8.7 + off + 0.6 * b for b in range(n)])
        j = np.arange(n)
        vals = dict(log10_obs_min=lo[::-1], log10_obs_max=lo[::-1] + 1.2 - 0.1 * j, zmin=0.04 * (n - 1 - j), zmax=0.8 + off - 0.2 * np.abs(j - 1.2))
        for q, v in vals.items():
            o[f'{q}_{suffix}'] = v if n > 1 else float(v[0])
        o[f'nz_{suffix}'], o[f'nobs_{suffix}'] = 4, 11
    o.update(kw)
    return {k: v for k, v in o.items() if v is not ...}


# ---------------------------------------------------------------------------- reference
def hod_settings(o, suffix):
    s = {'nobs': o[f'nobs_{suffix}'], 'observable_h_unit': o['observable_h_unit'].lower(), 'observables_file': o.get(f'observables_file_{suffix}')}
    if s['observables_file'] is None:
        for a, b in (('obs_min', 'log10_obs_min'), ('obs_max', 'log10_obs_max'), ('zmin', 'zmin'), ('zmax', 'zmax')):
            s[a] = np.atleast_1d(np.asarray(o[f'{b}_{suffix}'], float))
        s['nz'] = o[f'nz_{suffix}']
    return s


def trunc(o, n, default):
    v = o.get(n, default)
    return None if v == 'None' else v


def on_grid(d, s, z, k):
    """A tabulated spectrum on (z, k): linear in z, then power laws between wavenumbers."""
    p = lin1(d[s, 'z'], d[s, 'p_k'], z)
    return np.exp(lin1(np.log(d[s, 'k_h']), np.log(p).T, np.log(k)).T)


def reference(o, d, beta_from=None):
    """What the module must write for options o and data block d."""
    from onepower import Spectra

    want = {n: o[f'p_{n}'] for n in SPECTRA}
    galaxy = want['gg'] or want['gm']
    align = want['gI'] or want['mI'] or want['II']
    c = 'cosmological_parameters'
    z = np.linspace(o['zmin_hmf'], o['zmax_hmf'], o['nz_hmf'])
    kin, zin = d['matter_power_lin', 'k_h'], d['matter_power_lin', 'z']
    k = np.logspace(np.log10(kin[0]), np.log10(kin[-1]), o['nk'])
    dm = (o['log_mass_max'] - o['log_mass_min']) / o['nmass']
    mode, ingr = trunc(o, 'nonlinear_mode', None), trunc(o, 'hmcode_ingredients', None)
    response = o.get('response', False)
    pv = o.get('profile_value_name', 'profile_parameters')
    kw = dict(
        z_vec=z, k_vec=k, matter_power_lin=on_grid(d, 'matter_power_lin', z, k), hmcode_ingredients=ingr, nonlinear_mode=mode,
        dewiggle=o.get('dewiggle', False), lnk_min=np.log(1e-8), lnk_max=np.log(1e8), dlnk=0.05, Mmin=o['log_mass_min'], Mmax=o['log_mass_max'],
        dlog10m=dm, mdef_model=o.get('mdef_model', 'SOMean'), hmf_model=o.get('hmf_model', 'Tinker10'), bias_model=o.get('bias_model', 'Tinker10'),
        halo_profile_model_dm=o.get('profile_cen', 'NFW'), halo_profile_model_sat=o.get('profile_sat', 'NFW'),
        halo_concentration_model_dm=o.get('cm_model_cen', 'Duffy08'), halo_concentration_model_sat=o.get('cm_model_sat', 'Duffy08'),
        overdensity=o.get('overdensity', 200.0), delta_c=o.get('delta_c', 1.686),
        transfer_model='FromArray', transfer_params={'k': d['matter_power_transfer_func', 'k_h'], 'T': d['matter_power_transfer_func', 't_k']},
        growth_model='FromArray', growth_params={'z': d['growth_parameters', 'z'], 'd': d['growth_parameters', 'd_z']},
        norm_cen=d.get((pv, 'norm_cen'), 1.0), norm_sat=d.get((pv, 'norm_sat'), 1.0), eta_cen=d.get((pv, 'eta_cen'), 0.0), eta_sat=d.get((pv, 'eta_sat'), 0.0),
        one_halo_ktrunc=trunc(o, 'one_halo_ktrunc', 0.1), two_halo_ktrunc=trunc(o, 'two_halo_ktrunc', 2.0),
        omega_c=d[c, 'omega_c'], omega_b=d[c, 'omega_b'], h0=d[c, 'h0'], n_s=d[c, 'n_s'], sigma_8=d[c, 'sigma_8'], m_nu=d[c, 'mnu'], w0=d[c, 'w'],
        wa=d[c, 'wa'], tcmb=d.get((c, 'TCMB'), 2.7255), log10T_AGN=d['halo_model_parameters', 'logT_AGN'],
        mb=10.0 ** d.get(('halo_model_parameters', 'm_b'), 13.87),
    )  # fmt: skip
    if mode == 'bnl':
        from onepower.bnl import NonLinearBias

        e = beta_from or d
        ke = np.logspace(np.log10(e['matter_power_lin', 'k_h'][0]), np.log10(e['matter_power_lin', 'k_h'][-1]), o['nk'])
        kw['beta_nl'] = NonLinearBias(
            mass=10 ** np.arange(o['log_mass_min'], o['log_mass_max'], dm), z_vec=z, k_vec=ke, h0=e[c, 'h0'], A_s=e[c, 'A_s'], omega_b=e[c, 'omega_b'],
            omega_c=e[c, 'omega_c'], omega_lambda=1 - e[c, 'omega_m'], n_s=e[c, 'n_s'], w0=e[c, 'w'], z_dep=False,
        ).bnl  # fmt: skip
    if response or mode == 'fortuna':
        kw.update(matter_power_nl=on_grid(d, 'matter_power_nl', z, k), response=response)
    hs, hm = o.get('values_name', 'hod_parameters').lower(), o['hod_model']
    if galaxy or align:
        pois = {'constant': ['poisson'], 'power_law': ['poisson', 'pivot', 'slope']}[o['poisson_type']]
        nb = len(np.atleast_1d(o['log10_obs_min_hod'])) if galaxy and not o.get('observables_file_hod') else 1
        hp = {n: d.get((hs, n)) for n in ('A_cen', 'A_sat')}
        names = {
            'Zheng': ['log10_Mmin', 'sigma', 'log10_M0', 'log10_M1', 'alpha'],
            'Zhai': ['log10_Mmin', 'sigma', 'log10_Msat', 'log10_Mcut', 'alpha'],
            'Cacciato': ['log10_obs_norm_c', 'log10_m_ch', 'g1', 'g2', 'sigma_log10_O_c', 'norm_s', 'pivot', 'alpha_s', 'beta_s', 'b0', 'b1', 'b2'],
        }[hm]
        for n in names:
            if hm == 'Cacciato':
                hp[n] = d[hs, n]
            else:
                hp[n] = [d[hs, n + (f'_{b + 1}' if nb > 1 else '')] for b in range(nb)]
        mm = {}
        if galaxy:
            h = hod_settings(o, 'hod')
            mm = dict(h, nobs=100)
            if h['observables_file'] is None:
                for q, f in (('obs_min', min), ('zmin', min), ('obs_max', max), ('zmax', max)):
                    mm[q] = np.array([f(h[q])])
                mm['nz'] = 15
        kw.update(
            poisson_model=o['poisson_type'], poisson_params={n: d['pk_parameters', n] for n in pois}, pointmass=o.get('point_mass', False), hod_model=hm,
            hod_params=hp, hod_settings=hod_settings(o, 'hod') if galaxy else {}, hod_settings_mm=mm,
            obs_settings=hod_settings(o, 'smf') if o.get('save_observable') else {}, compute_observable=o.get('save_observable', False),
        )  # fmt: skip
    if align:
        split = o.get('split_ia', False)
        pop = o.get('output_suffix_ia_1' if split else 'output_suffix_ia', '').lower()
        sec = 'intrinsic_alignment_parameters' + (f'_{pop}' if pop else '')
        ap = dict(gamma_1h_slope=d[sec, 'gamma_1h_radial_slope'], gamma_1h_amplitude=d[sec, 'gamma_1h_amplitude'], gamma_2h_amplitude=d[sec, 'gamma_2h_amplitude'],
                  nmass=5, n_hankel=350, nk=10, ell_max=6)  # fmt: skip
        for which, opt, beta in (('cen', 'central_IA_depends_on', 'beta'), ('sat', 'satellite_IA_depends_on', 'beta_sat')):
            dep = o.get(opt, 'halo_mass')
            ap[{'cen': 'central_ia_depends_on', 'sat': 'satellite_ia_depends_on'}[which]] = dep
            ap[f'beta_{which}'] = d[sec, beta] if dep == 'halo_mass' else None
            ap[f'mpivot_{which}'] = d[sec, 'M_pivot'] if dep == 'halo_mass' else None
        kw.update(align_params=ap, one_halo_ktrunc_ia=trunc(o, 'one_halo_ktrunc_ia', 4.0), two_halo_ktrunc_ia=trunc(o, 'two_halo_ktrunc_ia', 6.0),
                  t_eff=d.get(('pk_parameters', 'linear_fraction_fortuna'), 0.0))  # fmt: skip

    m = Spectra(**kw)
    out = {}

    def grid(s, x, xv, y, yv, n, v):
        out[s, x], out[s, y], out[s, n] = xv, yv, v

    grid('concentration_m', 'z', z, 'm_h', m.mass, 'c', m.conc_cen)
    grid('concentration_sat', 'z', z, 'm_h', m.mass, 'c', m.conc_sat)
    grid('nfw_scale_radius_m', 'z', z, 'm_h', m.mass, 'rs', m.r_s_cen)
    grid('nfw_scale_radius_sat', 'z', z, 'm_h', m.mass, 'rs', m.r_s_sat)
    out.update({('virial_radius', 'm_h'): m.mass, ('virial_radius', 'rvir_m'): m.rvir_cen[0], ('virial_radius', 'rvir_sat'): m.rvir_sat[0]})
    out.update({('fourier_nfw_profile', 'z'): z, ('fourier_nfw_profile', 'm_h'): m.mass, ('fourier_nfw_profile', 'k_h'): k,
                ('fourier_nfw_profile', 'ukm'): m.u_dm, ('fourier_nfw_profile', 'uksat'): m.u_sat})  # fmt: skip
    out.update({('density', 'mean_density0'): m.mean_density0, ('density', 'rho_crit'): m.mean_density0 / d[c, 'omega_m'], ('density', 'z'): z,
                ('density', 'mean_density_z'): m.mean_density_z, ('density', 'rho_halo'): m.rho_halo, (c, 'fnu'): m.fnu})  # fmt: skip
    grid('hmf', 'z', z, 'm_h', m.mass, 'dndlnmh', m.dndlnm)
    out.update({('hmf', 'nu'): m.nu, ('hmf', 'neff'): m.neff, ('hmf', 'sigma8_z'): m.sigma8_z})
    grid('halobias', 'z', z, 'm_h', m.mass, 'b_hb', m.halo_bias)

    def populations(model, section):
        h = model.hod
        nb = h.hod_cen.shape[0]
        out[section, 'nbins'] = nb
        for b in range(nb):
            s = f'_{b + 1}' if nb > 1 else ''
            for n, v in (('N_cen', h.hod_cen), ('N_sat', h.hod_sat), ('N_tot', h.hod), ('f_star', model.fstar)):
                grid(section, 'z' + s, z, 'mass' + s, model.mass, n + s, v[b])
            for n, v in (('number_density_cen', h.number_density_cen), ('number_density_sat', h.number_density_sat), ('number_density_tot', h.number_density),
                         ('central_fraction', h.f_c), ('satellite_fraction', h.f_s), ('average_halo_mass', model.mass_avg)):  # fmt: skip
                out[section, n + s] = v[b]
        return nb

    nb = None
    if not (want['mm'] and not galaxy):
        nb = populations(m, o['hod_section_name'])
        if o.get('save_observable') and hm == 'Cacciato' and (galaxy or align):
            s = o.get('observable_section_name', 'stellar_mass_function').lower()
            st = hod_settings(o, 'smf')
            for b in range(m.obs_func.shape[0]):
                for n, v in (('obs_func', m.obs_func), ('obs_func_c', m.obs_func_cen), ('obs_func_s', m.obs_func_sat)):
                    if st['nz'] == 1 and m.obs_func.shape[0] == 1:
                        out[s, f'{n}_{b + 1}'] = np.squeeze(v)
                        out[s, f'obs_val_{b + 1}'] = np.squeeze(m.obs_func_obs)
                    else:
                        grid(s, f'z_bin_{b + 1}', m.obs_func_z[b], f'obs_val_{b + 1}', m.obs_func_obs[b, 0], f'{n}_{b + 1}', v[b])

    def spectra(model, n, nb):
        p = getattr(model, f'power_spectrum_{KIND[n]}')
        for b in range(1 if n == 'mm' else nb):
            s = SECTION[n] + (f'_{b + 1}' if nb != 1 and n != 'mm' else '')
            for name, q in (('p_k_1h', p.pk_1h), ('p_k_2h', p.pk_2h), ('p_k', p.pk_tot)):
                grid(s, 'z', zin, 'k_h', kin, name, upsample(np.asarray(q)[b : b + 1], z, k, zin, kin, 'extrapolate')[0])
            if n in ('gg', 'gm'):
                t, name = ('galaxy_linear_bias', 'bg_linear') if n == 'gg' else ('galaxy_matter_linear_bias', 'bgm_linear')
                grid(t + (f'_{b + 1}' if nb != 1 else ''), 'z', z, 'k_h', k, name, np.asarray(p.galaxy_linear_bias)[b])

    if want['mm'] and not response:
        spectra(m, 'mm', 1)
    for n in ('gg', 'gm'):
        if want[n]:
            spectra(m, n, nb)
    if align:
        st = hod_settings(o, 'ia_1' if o.get('split_ia') else 'ia')
        m = Spectra(**dict(kw, hod_settings=st))
        nb = populations(m, o['hod_section_name_ia_1' if o.get('split_ia') else 'hod_section_name_ia'])
        for n in ('II', 'gI', 'mI'):
            if want[n]:
                spectra(m, n, nb)
    return {fakeblock.Block.k(*q): v for q, v in out.items()}


# --------------------------------------------------------------------------- exploration
def execute(mod, config, d):
    b = fakeblock.Block(d)
    code = mod.execute(b, config)
    return {k: v for k, v in b.v.items()}, code


def differences(got, want, d, requested, rtol=1e-7):
    bad = []
    for q, v in want.items():
        if q not in got:
            bad.append(f'{q[0]}/{q[1]} is not written')
            continue
        e = lattice.close(np.asarray(got[q], float), np.asarray(v, float), rtol=rtol, atol=1e-9)
        if e:
            bad.append(f'{q[0]}/{q[1]} {e}')
    given = {fakeblock.Block.k(*q) for q in d}
    for n, s in SECTION.items():
        if not requested[n]:
            extra = [q for q in got if (q[0] == s or q[0].startswith(s + '_')) and q not in given]
            if extra:
                bad.append(f'{s} is written although not requested')
    for q, v in d.items():
        key = fakeblock.Block.k(*q)
        if key not in want and not np.array_equal(np.asarray(got[key]), np.asarray(v)):
            bad.append(f'{q} given to the module is altered')
    return bad


def same(a, b):
    bad = [q for q in set(a) ^ set(b)]
    for q in a:
        if q in b and q not in bad:
            x, y = a[q], b[q]
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    bad.append(q)
            elif lattice.close(np.asarray(x, float), np.asarray(y, float), rtol=1e-9, atol=1e-12):
                bad.append(q)
    return sorted(bad)


def configurations(thorough):
    full = SPECTRA
    ia = dict(output_suffix_ia='red')
    file_ = os.path.join(boot.SCRATCH, 'c16obs.txt')
    if not os.path.exists(file_):
        zz = np.linspace(0.02, 0.7, 4)
        np.savetxt(file_, np.column_stack([zz, 10 ** (8.7 + zz), 10 ** (10.4 + zz), zz * 0 - 1]))
    out = {
        'plain': options(full),
        'bins': options(full, 2, save_observable=True, **ia),
        'more-ia-bins': options(full, 1, 3, central_IA_depends_on='constant'),
        'fewer-ia-bins': options(full, 3, 1, satellite_IA_depends_on='constant', output_suffix_ia='Blue'),
        'constant-ia': options(full, central_IA_depends_on='constant', satellite_IA_depends_on='constant', one_halo_ktrunc_ia='None', two_halo_ktrunc_ia=2.5),
        'hmcode': options(full, hmcode_ingredients='mead2020_feedback', nonlinear_mode='hmcode', one_halo_ktrunc='None', two_halo_ktrunc='None'),
        'mead': options(full, 2, hmcode_ingredients='mead2020', nonlinear_mode='None', dewiggle=True, poisson_type='power_law'),
        'fit': options(full, hmcode_ingredients='fit', point_mass=True, one_halo_ktrunc=0.3, two_halo_ktrunc_ia='None'),
        'fit-bins': options(full, 3, 2, hmcode_ingredients='fit'),
        'fortuna': options(full, nonlinear_mode='fortuna', mdef_model='SOVirial', save_observable=True, observable_section_name='LF', nz_smf=1),
        'response': options(full, response=True, hod_section_name='H1'),
        'bnl': options(full, nonlinear_mode='bnl'),
        'bnl2': options(['mm', 'gg'], nonlinear_mode='bnl', update_bnl=2),
        'zheng': options(full, 2, hod_model='Zheng', hmf_model='SMT', bias_model='SMT01', overdensity=300.0, delta_c=1.6),
        'zhai': options(full, hod_model='Zhai', profile_cen='Hernquist', cm_model_sat='Bullock01', observable_h_unit='1/h'),
        'split': options(full, 2, split_ia=True, output_suffix_ia_1='red', output_suffix_ia_2='blue', profile_sat='Hernquist', cm_model_cen='Bullock01'),
        'hodfile': options(full, observables_file_hod=file_, observables_file_ia=file_, save_observable=True, profile_value_name='other_profile'),
        'iafile': options(full, observables_file_ia=file_),
        'matter': options(['mm'], poisson_type=...),
        'align': options(['mI', 'II']),
    }
    if thorough:
        for a, b, c in itertools.product([None, 'mead2020', 'fit'], [None, 'fortuna', 'bnl'], [1, 2]):
            out[f'x-{a}-{b}-{c}'] = options(full, c, 3 - c, hmcode_ingredients=a or 'None', nonlinear_mode=b or 'None', dewiggle=a is None, point_mass=b is None)
    return out


def neighbours(d):
    """Points that differ from d in one entry only (and inconspicuously so)."""
    for q, v in d.items():
        if isinstance(v, np.ndarray):
            if q[1] in ('z', 'k_h'):
                lo, hi = (v[0], v[-1])
                if q[1] == 'z':
                    w = np.linspace(lo, hi, v.size) ** 1.15 * hi / hi**1.15  # the same ends
                    yield q, 'same ends', {q: w}
                    yield q, 'scaled', {q: v * 1.1}
                else:
                    yield q, 'other start', {q: np.logspace(np.log10(lo * 1.3), np.log10(hi), v.size)}
                    yield q, 'other end', {q: np.logspace(np.log10(lo), np.log10(hi * 0.8), v.size)}
            else:
                yield q, 'scaled', {q: v * 1.01}
                yield q, 'tilted', {q: v * np.linspace(1.0, 1.03, v.shape[-1])}
        else:
            yield q, 'slightly larger', {q: v * 1.0007 if v else 0.0007}
            yield q, 'smaller', {q: v - 0.03 * abs(v) if v else -0.02}
    for q, v in ((('cosmological_parameters', 'TCMB'), 2.6), (('profile_parameters', 'norm_cen'), 1.1), (('profile_parameters', 'norm_sat'), 0.9),
                 (('profile_parameters', 'eta_cen'), 0.15), (('profile_parameters', 'eta_sat'), -0.1), (('halo_model_parameters', 'm_b'), 13.2),
                 (('pk_parameters', 'linear_fraction_fortuna'), 0.6), (('hod_parameters', 'A_cen'), 0.3), (('hod_parameters', 'A_sat'), 0.25)):  # fmt: skip
        if q in d:
            yield q, 'dropped', {q: None}
        yield q, 'given', {q: v}
    c = 'cosmological_parameters'
    yield 'matter', 'traded', {(c, 'omega_c'): d[c, 'omega_c'] - 0.01, (c, 'omega_b'): d[c, 'omega_b'] + 0.01}
    yield 'dark energy', 'traded', {(c, 'w'): -0.9, (c, 'wa'): -0.1}


ALTERNATIVES = dict(
    log_mass_min=[11.3], log_mass_max=[15.0], nmass=[12, 16], zmin_hmf=[0.07], zmax_hmf=[0.8], nz_hmf=[4], nk=[7, 10], poisson_type=['power_law'],
    hod_model=['Zheng', 'Zhai'], observable_h_unit=['1/h'], mdef_model=['SOVirial'], overdensity=[250.0], delta_c=[1.65], hmf_model=['SMT', 'ST'], bias_model=['SMT01', 'ST99'],
    profile_cen=['Hernquist'], profile_sat=['Hernquist'], cm_model_cen=['Bullock01'], cm_model_sat=['Bullock01'], point_mass=[True], dewiggle=[True],
    one_halo_ktrunc=['None', 0.2], two_halo_ktrunc=['None', 1.0], one_halo_ktrunc_ia=['None', 3.0], two_halo_ktrunc_ia=['None', 5.0], response=[True],
    hmcode_ingredients=['mead2020', 'mead2020_feedback', 'fit'], nonlinear_mode=['fortuna', 'bnl'], save_observable=[True], nz_smf=[1, 3], nobs_smf=[7], nobs_hod=[8], nobs_ia=[9],
    nz_hod=[3], nz_ia=[5], hod_section_name=['elsewhere'], hod_section_name_ia=['elsewhere_ia'], central_IA_depends_on=['constant'], satellite_IA_depends_on=['constant'],
    output_suffix_ia=['red', 'blue'], log10_obs_min_hod=[8.9], log10_obs_max_hod=[9.6], zmin_hod=[0.1], zmax_hod=[0.5], log10_obs_min_ia=[9.0], log10_obs_max_ia=[9.7],
    zmin_ia=[0.15], zmax_ia=[0.6], log10_obs_min_smf=[9.2], log10_obs_max_smf=[10.9], zmin_smf=[0.05], zmax_smf=[0.55],
)  # fmt: skip


def single_changes(r, mod, blocks, confs, thorough):
    """One entry of the point, or one option, differs from what was executed just before."""

    def point_job(job):
        name, which, how, change = job
        o = confs[name]
        d = {q: v for q, v in {**blocks[0], **change}.items() if v is not None}
        req = {x: o[f'p_{x}'] for x in SPECTRA}
        want = explore.branch(lambda: reference(o, d))
        config = mod.setup(fakeblock.options(**o))
        first, _ = execute(mod, config, blocks[0])
        got, code = execute(mod, config, d)
        bad = differences(got, want, d, req)
        again, _ = execute(mod, config, blocks[0])
        return bad + [f'{q[0]}/{q[1]} of the first point changes when it is repeated after the other' for q in same(first, again)[:3]]

    def option_job(job):
        name, which, how, o = job
        req = {x: o[f'p_{x}'] for x in SPECTRA}
        want = explore.branch(lambda: reference(o, blocks[1]))
        base = mod.setup(fakeblock.options(**confs['plain']))
        first, _ = execute(mod, base, blocks[0])
        got, code = execute(mod, mod.setup(fakeblock.options(**o)), blocks[1])
        bad = differences(got, want, blocks[1], req)
        again, _ = execute(mod, base, blocks[0])
        return bad + [f'{q[0]}/{q[1]} of the first configuration changes' for q in same(first, again)[:3]]

    names = list(confs) if thorough else ['plain', 'mead', 'fortuna', 'zheng', 'response', 'bnl']
    jobs = [(n, *v) for n in names if n != 'bnl2' for v in neighbours(blocks[0])]
    relevant = {'mead': ('cosmological_parameters', 'halo_model_parameters', 'matter_power_lin', 'pk_parameters', 'matter', 'dark energy'),
                'fortuna': ('matter_power_nl', 'pk_parameters', 'matter_power_lin'), 'zheng': ('hod_parameters',), 'response': ('matter_power_nl', 'matter_power_lin'),
                'bnl': ('cosmological_parameters', 'matter_power_lin', 'matter')}  # fmt: skip
    if not thorough:
        jobs = [j for j in jobs if j[0] == 'plain' or (j[1] if isinstance(j[1], str) else j[1][0]) in relevant[j[0]]]
    for j, bad in zip(jobs, explore.pmap(lambda j: point_job(j), jobs, chunk=2, progress='neighbouring points')):
        r.state((j[0], str(j[1]), j[2]))
        r.step(3)
        r.trace()
        for w in bad:
            r.violation(f'{j[0]}|{j[1]}|{j[2]}|{w.split(" ")[0]}', f'{j[1]} {j[2]}: {w}', [j[0], 'point 0', f'point 0 with {j[1]} {j[2]}'])
    n = len(jobs)
    full = confs['plain']
    jobs = [('plain', k, v, {**full, k: v}) for k, vs in ALTERNATIVES.items() for v in vs]
    jobs = [(a, k, v, dict(o, save_observable=True) if k.endswith('_smf') else dict(o, nz_hmf=3) if k == 'x' else o) for a, k, v, o in jobs]
    jobs += [(n, 'configuration', n, o) for n, o in confs.items() if n not in ('plain', 'bnl2')]
    for j, bad in zip(jobs, explore.pmap(lambda j: option_job(j), jobs, chunk=2, progress='neighbouring options')):
        r.state(('option', j[1], str(j[2])))
        r.step(3)
        r.trace()
        for w in bad:
            r.violation(f'option|{j[1]}={j[2]}|{w.split(" ")[0]}', f'{j[1]}={j[2]}: {w}', ['plain, point 0', f'{j[1]}={j[2]}, point 1', 'plain, point 0'])
    r.say(f'{n} neighbouring points, {len(jobs)} neighbouring configurations')


def run(r):
    fakeemu.install()
    thorough = r.tier == 'thorough'
    mod = fakeblock.load(PATH, 'onepower_interface')
    blocks = [block(i) for i in range(3)]
    broken = {k: v for k, v in blocks[1].items() if k not in (('pk_parameters', 'poisson'), ('halo_model_parameters', 'logT_AGN'))}
    confs = configurations(thorough)
    jobs = list(confs.items())
    # every subset of the six spectra, once
    jobs += [(f'subset-{"".join(s) or "none"}', options(s, 2, 1)) for n in range(len(SPECTRA)) for s in itertools.combinations(SPECTRA, n)]

    def work(job):
        name, o = job
        out, n, traces, states = [], 0, 0, []
        req = {x: o[f'p_{x}'] for x in SPECTRA}
        subset = name.startswith('subset')
        fresh = {}
        every = o.get('update_bnl', 1) if o.get('nonlinear_mode') == 'bnl' else 1

        def solo(i):
            config = mod.setup(fakeblock.options(**o))
            got, code = execute(mod, config, blocks[i])
            bad = differences(got, reference(o, blocks[i]), blocks[i], req)
            if code != 0:
                bad.append(f'execute returns {code}')
            return got, bad

        for i in [1] if subset else range(len(blocks)):
            try:
                fresh[i], bad = explore.branch(solo, i)
            except explore.ChildError as e:
                fresh[i], bad = None, ['raises ' + str(e).strip().splitlines()[-1]]
            n += 1
            traces += 1
            states.append((name, i))
            out += [([name, f'point {i}'], w) for w in bad]
        if subset or any(v is None for v in fresh.values()):
            return out, n, traces, states

        expected = {}

        def expect(seq):
            """The state that may survive: the bias table of the last refresh (update_bnl)."""
            i, src = seq[-1], seq[(len(seq) - 1) // every * every]
            if src == i or every == 1:
                return fresh[i]
            if (i, src) not in expected:
                expected[i, src] = explore.branch(lambda: reference(o, blocks[i], blocks[src]))
            return expected[i, src]

        depth = 4 if thorough else 3
        config = mod.setup(fakeblock.options(**o))

        def dfs(seq):
            """All sequences of points (and failing points) up to the depth, on one configured module."""
            res, cnt, tr, st = [], 0, 0, []
            if len(seq) == depth:
                return res, cnt, 1, st
            for i in [*range(len(blocks)), 'x']:
                if i == 'x' and (every != 1 or len(seq) != 1):
                    continue
                if i != 'x' and every != 1:
                    expect([s for s in seq + [i]])

                def go():
                    if i == 'x':
                        try:
                            execute(mod, config, broken)
                        except Exception:
                            return dfs(seq + ['x'])
                        return [([name] + [f'point {s}' for s in seq] + ['incomplete point'], 'an incomplete point is accepted')], 1, 0, []
                    try:
                        got, code = execute(mod, config, blocks[i])
                    except Exception as e:
                        return [([name] + [f'point {s}' for s in seq + [i]], f'raises {type(e).__name__}: {e}')], 1, 0, []
                    want = expect(seq + [i])
                    if every == 1 or want is fresh.get(i):
                        bad = same(got, want)
                        bad = [f'{q[0]}/{q[1]} depends on the points before' for q in bad[:6]]
                    else:
                        bad = differences(got, want, blocks[i], req)
                    a, b, c, d = dfs(seq + [i])
                    return [([name] + [f'point {s}' for s in seq + [i]], w) for w in bad] + a, b + 1, c, d + [(name, tuple(seq + [i]))]

                a, b, c, d = explore.branch(go)
                res += a
                cnt += b
                tr += c
                st += d
            return res, cnt, tr, st

        a, b, c, d = dfs([])
        return out + a, n + b, traces + c, states + d

    jobs.sort(key=lambda j: (j[0].startswith('subset'), j[0] not in ('plain', 'bnl2', 'bins', 'fewer-ia-bins')))
    for (name, o), (out, n, traces, states) in zip(jobs, explore.pmap(work, jobs, progress='configurations')):
        for s in states:
            r.state(s)
        r.step(n)
        r.trace(traces)
        for hist, what in out:
            r.violation('|'.join(map(str, hist)) + '|' + what.split(' ')[0], what, hist)
    single_changes(r, mod, blocks, confs, thorough)
    r.sample({'configuration': 'bnl2 (bias table refreshed at every second point)', 'points': [0, 1, 2]})
    r.sample({'configuration': 'fewer-ia-bins', 'points': [2, 'incomplete', 0]})
    r.assumptions += ['the data block is a stand-in with the semantics of CosmoSIS (case-insensitive names, overwriting puts)',
                      'split alignment samples: only the first population enters, as in the code under test (its fraction is fixed to one)']  # fmt: skip
    return r.finish()
