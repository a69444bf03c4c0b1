"""C13: what is returned for one bin, redshift and wavenumber does not depend on what else is asked for."""

import itertools

import numpy as np

from vlib import explore, fakeemu, lattice, space as sp

SPEC = ['mm', 'gg', 'gm', 'mi', 'ii', 'gi']
COMP = ['pk_1h', 'pk_2h', 'pk_tot']
Z4 = np.array([0.05, 0.3, 0.7, 1.6])
ZSETS = {'apart': Z4, 'close': np.array([0.3, 0.300001, 0.3002, 0.304]), 'edges': np.array([0.0, 0.01, 3.0, 6.0])}


def regimes(z, k, nbins=1):
    """One configuration per regime, as a function of the grids and the bins."""
    nz = z.size
    nm = sp.nmass()
    return {
        'plain': {},
        'plin': dict(matter_power_lin=sp.plin(0, z, k), one_halo_ktrunc=None, two_halo_ktrunc=0.4),
        'bnl': dict(nonlinear_mode='bnl', beta_nl=sp.beta_nl(0, 1, k, nm)),
        'mead': dict(nonlinear_mode='hmcode', hmcode_ingredients='mead2020_feedback'),
        'fit': dict(hmcode_ingredients='fit', pointmass=True),
        'fortuna': dict(nonlinear_mode='fortuna', matter_power_lin=sp.plin(0, z, k), matter_power_nl=sp.pnl(0, z, k), t_eff=0.3),
        'response': dict(response=True, matter_power_nl=sp.pnl(0, z, k)),
        'heavy': dict(hmf_model='PS', bias_model='SMT01', sigma_8=2.2, Mmin=6.0, Mmax=17.0),  # more mass than there is, at some redshifts
        'models': dict(mdef_model='SOVirial', halo_concentration_model_dm='Bullock01', hmf_model='SMT', bias_model='SMT01',
                       norm_cen=1.0 + 0.1 * z, eta_sat=0.1 * z),
    }  # fmt: skip


def spectra(m, which=SPEC):
    out = {}
    for s in which:
        p = getattr(m, f'power_spectrum_{s}')
        for c in COMP:
            out[s, c] = np.asarray(getattr(p, c))
    out['lin', 'pk_tot'] = np.asarray(m.power_spectrum_lin.pk_tot)
    return out


# ---------------------------------------------------------------------------------- bins
A = np.array
LAYOUTS = {  # three bins each, alike in one respect or another
    'uneven': dict(zmin=A([0.0, 0.05, 0.1]), zmax=A([0.6, 0.5, 0.7]), width=A([0.9, 1.3, 0.5])),
    'same start in z': dict(zmin=A([0.1, 0.1, 0.1]), zmax=A([0.5, 0.9, 0.45])),
    'same end in z': dict(zmin=A([0.0, 0.1, 0.05]), zmax=A([0.5, 0.5, 0.5])),
    'same centre in z': dict(zmin=A([0.05, 0.1, 0.0]), zmax=A([0.55, 0.5, 0.6])),
    'same width in z': dict(zmin=A([0.0, 0.1, 0.05]), zmax=A([0.5, 0.6, 0.55])),
    'same start': dict(obs_min=A([9.0, 9.0, 9.0]), width=A([0.5, 1.0, 0.7])),
    'same end': dict(obs_min=A([9.0, 9.3, 8.5]), width=A([1.0, 0.7, 1.5])),
    'same centre': dict(obs_min=A([9.0, 9.3, 8.5]), width=A([1.0, 0.4, 2.0])),
    'touching': dict(obs_min=A([9.0, 9.5, 10.1]), width=A([0.5, 0.6, 0.4])),
    'alike': dict(obs_min=A([9.0, 9.001, 9.0]), width=A([1.0, 1.0, 1.001]), zmin=A([0.0, 0.001, 0.0]), zmax=A([0.6, 0.6, 0.601])),
    'equal': dict(obs_min=A([9.0, 9.0, 9.4]), width=A([1.0, 1.0, 1.0]), zmin=A([0.0, 0.0, 0.0]), zmax=A([0.6, 0.6, 0.6])),
    'descending': dict(obs_min=A([10.2, 9.6, 9.0]), width=A([0.6, 0.6, 0.6]), zmin=A([0.3, 0.1, 0.0]), zmax=A([0.9, 0.7, 0.5])),
    'one redshift': dict(zmin=A([0.2, 0.1, 0.3]), zmax=A([0.6, 0.5, 0.4]), at=A([0.3])),
}


def bins_cfg(regime, order, model, layout='uneven'):
    s = sp.settings(0, 3)
    lay = LAYOUTS[layout]
    for n in ('zmin', 'zmax', 'obs_min'):
        if n in lay:
            s[n] = lay[n]
    s['obs_max'] = s['obs_min'] + lay.get('width', A([0.9, 1.3, 0.5]))
    pick = {k: (v[list(order)] if isinstance(v, np.ndarray) else v) for k, v in s.items()}
    z = lay.get('at', np.array([0.15, 0.4]))
    cfg = sp.spectra_base(z_vec=z, hod_settings=pick, **regimes(z, sp.K)[regime])
    if regime == 'response':
        cfg['hod_settings_mm'] = pick
    if model == 'Zheng':
        par = {'log10_Mmin': [12.0, 12.6, 11.7], 'log10_M0': [12.1, 12.4, 11.9], 'log10_M1': [13.0, 13.4, 12.8], 'sigma': [0.2, 0.0, 0.4], 'alpha': [1.0, 0.8, 1.3]}
        if layout in ('alike', 'equal', 'same start'):  # parameters alike, too
            par = {'log10_Mmin': [12.0, 12.0, 12.0], 'log10_M0': [12.1, 12.1, 11.9], 'log10_M1': [13.0, 13.001, 13.0], 'sigma': [0.2, 0.2, 0.2], 'alpha': [1.0, 0.8, 1.0]}
        cfg.update(hod_model='Zheng', hod_params={k: [v[i] for i in order] for k, v in par.items()})
    return cfg


def bins_obs(case):
    from onepower import Spectra

    regime, order, model, layout = case
    m = Spectra(**bins_cfg(regime, order, model, layout))
    out = spectra(m)
    h = m.hod
    for q in ('number_density', 'f_c', 'f_s', 'avg_halo_mass', 'galaxy_linear_bias', 'hod_cen', 'hod_sat', 'stellar_fraction'):
        out['hod', q] = np.asarray(getattr(h, q))
    out['fstar', ''] = np.asarray(m.fstar)
    return out


# ----------------------------------------------------------------------------- redshifts
Q_Z = ['mass', 'dndlnm', 'halo_bias', 'nu', 'u_dm', 'u_sat', 'conc_cen', 'conc_sat', 'rvir_cen', 'r_s_cen', 'growth_factor', 'sigma8_z', 'neff',
       'halo_overdensity_mean', 'mean_density_z', 'rho_halo', 'power', 'fnu', 'nonlinear_power', 'A_term', 'Im_term', 'matter_profile']  # fmt: skip


def z_obs(case):
    from onepower import Spectra

    regime, idx, which = case
    z = ZSETS[which][list(idx)]
    cfg = sp.spectra_base(z_vec=z, **regimes(z, sp.K)[regime])
    m = Spectra(**cfg)
    out = spectra(m, ['mm'])
    for q in Q_Z:
        v = getattr(m, q)
        if v is not None:
            out['q', q] = np.asarray(v, float)
    return out


# --------------------------------------------------------------------------- wavenumbers
K7 = np.logspace(-2.5, 1.1, 7)
KSETS = {'apart': K7, 'close': np.array([0.003, 0.003001, 0.2, 0.20001, 0.201, 9.99, 10.0]), 'wide': np.array([1e-3, 0.01, 0.1, 1.0, 10.0, 50.0, 55.0])}


def k_obs(case):
    from onepower import Spectra

    regime, idx, which = case
    k = KSETS[which][list(idx)]
    z = np.array([0.1, 0.5])
    cfg = sp.spectra_base(z_vec=z, k_vec=k, **regimes(z, k)[regime])
    return spectra(Spectra(**cfg))


def axis_of(got, want, n_got, n_want, ndim):
    """Axes on which a quantity has the length of the varied grid in both observations."""
    return [a for a in range(min(got.ndim, want.ndim)) if got.shape[a] == n_got and want.shape[a] == n_want]


def run(r):
    fakeemu.install()
    thorough = r.tier == 'thorough'
    regs = list(regimes(Z4, sp.K))

    # bins: every ordered selection of the three bins
    orders = [p for n in (1, 2, 3) for p in itertools.permutations(range(3), n)]
    cases = [(g, o, m, y) for y in LAYOUTS for g in regs for m in ('Cacciato', 'Zheng') for o in orders
             if not (g == 'fit' and m == 'Zheng') and (thorough or y == 'uneven' or g in ('plain', 'response'))]  # fmt: skip
    obs = dict(zip(cases, explore.pmap(bins_obs, cases, chunk=2, progress='bins')))
    for (g, o, m, y), got in obs.items():
        full = obs[g, (0, 1, 2), m, y]
        r.state(('bins', g, o, m, y))
        r.step()
        r.trace()
        for q, v in got.items():
            want = full[q]
            if want.shape[0] == 3 and v.shape[0] == len(o):
                want = want[list(o)]
            d = lattice.close(v, want, rtol=1e-8)
            if d:
                r.violation(f'bins|{g}|{o}|{m}|{y}|{q}', f'{q} of bins {o} ({y}) in {g}/{m} {d}', [g, list(o), m, y, str(q)])
    r.sample({'bins': [1, 0], 'regime': 'bnl', 'population': 'Zheng'})
    r.say(f'{len(cases)} selections of bins')

    # redshifts: every non-empty ordered selection; the specification is the redshift asked for alone
    perm = [s for n in range(1, 5) for s in itertools.permutations(range(4), n)]
    comb = [s for n in range(1, 5) for s in itertools.combinations(range(4), n)] + [(3, 2, 1, 0), (2, 0), (1, 1, 3), (0, 3, 3)]
    zregs = [g for g in regs if g not in ('fit',)]
    cases = [(g, i, w) for w in ZSETS for g in zregs for i in (perm if thorough or (w == 'apart' and g in ('plain', 'mead')) else comb)]
    obs = dict(zip(cases, explore.pmap(z_obs, cases, chunk=2, progress='redshifts')))
    for (g, i, w), got in obs.items():
        r.state(('z', g, i, w))
        r.step()
        r.trace()
        at = ZSETS[w][list(i)].tolist()
        single = [obs[g, (x,), w] for x in i]
        for q, v in got.items():
            if any(q not in x for x in single):
                r.violation(f'z|{g}|{i}|{w}|{q}', f'{q} at redshifts {at} but not at each alone', [g, at, str(q)])
                continue
            want = [x[q] for x in single]
            if any(x.ndim != v.ndim for x in want):
                r.violation(f'z|{g}|{i}|{w}|{q}', f'{q}: shape {v.shape} for redshifts {at}', [g, at, str(q)])
                continue
            # the redshift axis is the first one of that length, if there is one
            ax = [a for a in range(v.ndim) if v.shape[a] == len(i) and want[0].shape[a] == 1]
            want = np.concatenate(want, axis=ax[0]) if ax else want[0]
            d = lattice.close(v, want, rtol=1e-7)
            if d:
                r.violation(f'z|{g}|{i}|{w}|{q}', f'{q} at redshifts {at} in {g} {d}', [g, at, str(q)])
    r.sample({'redshifts': [0.3, 1.6], 'regime': 'mead'})
    r.say(f'{len(cases)} selections of redshifts')

    # wavenumbers: every subset containing the first (to which profiles are normalised)
    idx = [(0,) + s for n in range(1, 7) for s in itertools.combinations(range(1, 7), n)]
    few = [(0,) + s for n in (1, 2, 5, 6) for s in itertools.combinations(range(1, 7), n)]
    kregs = [g for g in regs if g not in ('mead',)]  # dewiggling needs log-spaced wavenumbers
    cases = [(g, i, w) for w in KSETS for g in kregs for i in (idx if thorough or w == 'apart' else few if g in ('plain', 'fortuna', 'bnl') else few[-7:])]
    obs = dict(zip(cases, explore.pmap(k_obs, cases, chunk=2, progress='wavenumbers')))
    for (g, i, w), got in obs.items():
        full = obs[g, tuple(range(7)), w]
        r.state(('k', g, i, w))
        r.step()
        r.trace()
        for q, v in got.items():
            want = full[q]
            if v.shape[-1] == len(i):
                want = want[..., list(i)]
            d = lattice.close(v, want, rtol=1e-8)
            if d:
                r.violation(f'k|{g}|{i}|{w}|{q}', f'{q} at wavenumbers {KSETS[w][list(i)].tolist()} in {g} {d}', [g, list(i), w, str(q)])
    r.sample({'wavenumbers': [0, 2, 5], 'regime': 'fortuna'})
    r.say(f'{len(cases)} selections of wavenumbers')
    return r.finish()
