"""C17: alignment amplitudes and the satellite alignment transform are the defined ones."""

import os

import numpy as np

from vlib import boot, lattice, refia, special

from .c02 import align_inputs


def catalogue(seed, zmax=0.65):
    from astropy.table import Table

    path = os.path.join(boot.SCRATCH, f'c17lum{seed}.fits')
    if not os.path.exists(path):
        i = np.arange(300)
        zz = 0.02 + zmax * ((i * 0.618034) % 1.0)
        Table({'z': zz, 'loglum': 9.5 + 0.3 * seed + 1.5 * ((i * 0.7548777) % 1.0) + 0.4 * zz}).write(path, format='fits', overwrite=True)
    return path


def odd_catalogues():
    """Small catalogues: galaxies on slice edges, a single one, equal luminosities, empty slices, any order."""
    from astropy.table import Table

    i = np.arange(60)
    zz, ll = 0.02 + 0.6 * ((i * 0.618034) % 1.0), 9.5 + 1.5 * ((i * 0.7548777) % 1.0)
    tabs = {
        'sorted': (np.sort(zz), ll), 'descending': (np.sort(zz)[::-1], np.sort(ll)), 'edges': (np.round(np.tile([0.0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6], 9), 12), 9.5 + 0.03 * np.arange(63)),
        'single': (np.array([0.31]), np.array([10.1])), 'equal': (zz, zz * 0 + 10.0), 'pivot': (zz, np.where(i % 2, 10.2, 10.7)), 'bright': (zz, ll + 3), 'faint': (zz, ll - 3),
        'empty middle': (np.where((zz > 0.2) & (zz < 0.4), 0.1, zz), ll), 'far': (zz + 5, ll), 'twins': (np.repeat(zz, 2), np.repeat(ll, 2)),
    }  # fmt: skip
    out = {}
    for n, (a, b) in tabs.items():
        path = os.path.join(boot.SCRATCH, f'c17odd_{n}.fits')
        Table({'z': a, 'loglum': b}).write(path, format='fits', overwrite=True)
        out[n] = path
    return out


def run(r):
    from onepower.ia import AlignmentAmplitudes, SatelliteAlignment

    thorough = r.tier == 'thorough'

    # ---- amplitudes: every combination, including those that must be refused
    def visit_a(model, cfg, mem):
        want = refia.amplitudes(cfg)
        for q, w in zip(('alignment_gi', 'gamma_1h_amp'), want):
            try:
                got = getattr(model, q)
            except ValueError as e:
                if w is not refia.Invalid:
                    yield f'{q}: refused: {e}'
                continue
            if w is refia.Invalid:
                yield f'{q}: answered although its inputs are missing or unsupported'
                continue
            got = np.asarray(got)
            if got.shape == w.shape:
                got, w = got[np.isfinite(w)], w[np.isfinite(w)]
            d = lattice.close(got, w)
            if d:
                yield f'{q}: {d}'
        for q in ('mpivot_cen', 'mpivot_sat', 'lpivot_cen', 'lpivot_sat'):
            v = getattr(model, q)
            if (v is None) != (cfg[q] is None) or (v is not None and abs(v / 10.0 ** cfg[q] - 1) > 1e-9):
                yield f'{q}: {v} for log10 {cfg[q]}'

    dep = ['constant', 'luminosity', 'halo_mass']
    base = dict(z_vec=np.array([0.1, 0.3, 0.5]), gamma_1h_slope=-2.0, mpivot_cen=13.1, mpivot_sat=13.4)
    slow = [
        ('central_ia_depends_on', dep), ('satellite_ia_depends_on', dep),
        ('z_vec', [np.array([0.1, 0.3, 0.5]), np.array([0.2, 0.6, 1.0]), np.array([0.05, 0.1])]),
        ('z_loglum_file_centrals', [catalogue(0), None]), ('z_loglum_file_satellites', [catalogue(1, 0.3), None]),
    ]  # fmt: skip
    fast = [
        ('beta_two', [None, 0.9, -0.5]), ('lpivot_cen', [10.2, None, 11.5]), ('mpivot_cen', [13.2, None]), ('gamma_2h_amplitude', [5.0, -1.5]),
        ('beta_cen', [0.4, 1.3]), ('lpivot_sat', [10.0, None]), ('beta_sat', [0.3, 0.0]), ('gamma_1h_amplitude', [0.002] if not thorough else [0.002, 0.05]),
    ]  # fmt: skip

    def relevant(p):
        # an option that the selected dependence does not look at stays at its first value
        lc, ls = p['central_ia_depends_on'] == 'luminosity', p['satellite_ia_depends_on'] == 'luminosity'
        if not lc and not thorough and (p['lpivot_cen'] == 11.5 or p['z_loglum_file_centrals'] is None or p['beta_cen'] == 1.3):
            return False
        if not ls and not thorough and (p['lpivot_sat'] is None or p['z_loglum_file_satellites'] is None or p['beta_sat'] == 0.0):
            return False
        return True

    lattice.decide(r, 'amplitudes', lambda c: AlignmentAmplitudes(**c), base, slow, fast, visit_a, relevant)

    # ---- special values of the amplitudes
    odd = odd_catalogues()
    lum = dict(central_ia_depends_on='luminosity', satellite_ia_depends_on='luminosity', lpivot_cen=10.2, lpivot_sat=10.2, z_vec=np.array([0.1, 0.3, 0.5]), gamma_1h_slope=-2.0, mpivot_cen=13.1, mpivot_sat=13.4)
    slow = [('z_loglum_file_centrals', list(odd.values())), ('z_loglum_file_satellites', [odd['sorted'], odd['edges'], odd['single']])]
    fast = [('beta_two', [None, 0.4, 0.0, -1, 2]), ('beta_cen', [0.4, 0, -1, 2.0]), ('beta_sat', [0.4, 0, -1.5]), ('lpivot_cen', [10.2, 10, 0.0, 20.0])]
    lattice.decide(r, 'odd catalogues', lambda c: AlignmentAmplitudes(**c), lum, slow, fast, visit_a)
    zg = [z for n, z in special.zs().items() if z.size > 1]
    slow = [('z_vec', zg), ('z_loglum_file_centrals', [odd['sorted'], odd['edges']])]
    fast = [('central_ia_depends_on', ['luminosity', 'constant']), ('satellite_ia_depends_on', ['luminosity', 'halo_mass']), ('beta_two', [None, 0.9])]
    lattice.decide(r, 'redshifts', lambda c: AlignmentAmplitudes(**c), dict(lum, z_loglum_file_satellites=odd['descending']), slow, fast, visit_a)

    # ---- the transform
    def visit_w(model, cfg, mem):
        try:
            w, m, k = refia.transform(cfg)
        except refia.Invalid:
            try:
                model.wkm_f_ell
            except ValueError:
                return
            yield 'transform: answered although it is not defined'
            return
        d = lattice.close(model.wkm_f_ell, w, rtol=1e-6, atol=1e-9)
        if d:
            yield f'wkm_f_ell: {d}'
        for q, x in (('mass', m), ('k_vec', k)):
            d = lattice.close(getattr(model, q), x)
            if d:
                yield f'{q}: {d}'
        got = model.wkm
        for a, b, q in zip(got, (w, cfg['z_vec'], m, k), ('w', 'z', 'mass', 'k')):
            d = lattice.close(a, b, rtol=1e-6, atol=1e-9)
            if d:
                yield f'wkm.{q}: {d}'
        k_out = np.logspace(-2.4, 1.3, 6)
        for m_out in (np.asarray(cfg['mass_in']),) + ((np.logspace(11.3, 14.6, 4),) if cfg['method'] == 'hankel' else ()):
            with np.errstate(all='ignore'):
                d = lattice.close(model.upsampled_wkm(k_out, m_out), refia.resample(cfg, w, m, k, k_out, m_out), rtol=1e-6, atol=1e-9)
            if d:
                yield f'upsampled_wkm: {d}'

    halos = []
    for s, nz, nm in ((0, 3, 12), (1, 2, 9), (2, 1, 11)):
        a = align_inputs(s, nz, nm)
        halos.append(a)
        halos.append(dict(a, rvir_in=np.array(np.broadcast_to(a['rvir_in'], a['c_in'].shape)) * (1 + 0.3 * a['z_vec'])[:, None]))
    base = dict(gamma_1h_amplitude=0.002, beta_sat=0.3)
    slow = [('_halos', halos), ('truncate', [False, True]), ('gamma_1h_slope', [-1.5, -2, -2.0, 0, -0.7, 1.0, -2.6])]
    fast = [('ell_max', [6, 2, 4, 7, 10, 0]), ('satellite_ia_depends_on', ['halo_mass', 'constant']), ('gamma_1h_amplitude', [0.002, 0.3, -0.01]),
            ('mpivot_sat', [13.5, None])]  # fmt: skip
    lattice.decide(r, 'fftlog', lambda c: SatelliteAlignment(**c), dict(base, method='fftlog'), slow, fast, visit_w)
    # special values: slopes next to the tabulated ones, halos alike, many or few, any order
    def halo(z, m, conc, rv):
        cc = np.broadcast_to(conc, (z.size, m.size)) * 1.0
        return dict(z_vec=z, mass_in=m, c_in=cc, r_s_in=np.broadcast_to(rv, cc.shape) / cc, rvir_in=rv)

    m4, m12 = np.logspace(11, 15, 4), np.logspace(11, 15, 12)
    rv = lambda m: 0.2 * (m / 1e12) ** (1 / 3.0)  # noqa: E731
    odd = [
        halo(np.array([0.1]), m4, 5.0, rv(m4)), halo(np.array([0.3, 0.1]), m4[::-1].copy(), 5.0, rv(m4[::-1])), halo(np.array([0.1, 0.1, 0.4]), m4, 1.0, rv(m4)),
        halo(np.array([0.1, 0.2, 0.3, 0.4]), m4, np.array([[3.0], [3.0], [8.0], [1e-2]]), rv(m4) * 0 + 0.05), halo(np.array([0.0, 2.0]), m4, np.array([[40.0], [0.5]]), np.array([[0.06], [3.0]]) * rv(m4)),
        halo(np.array([0.2, 0.5]), m12[[0, 0, 1, 5]], 6.0, rv(m12[[0, 0, 1, 5]])),
    ]  # fmt: skip
    slow = [('_halos', odd), ('truncate', [False, True])]
    fast = [('gamma_1h_slope', [-1.5, -2, -1.9999, -2.0001, -2.7, 1e-6, -1e-6, 0.0, 0.5, 2, -1, 1]), ('ell_max', [6, 1, 3, 5, 8, 9, 11]), ('gamma_1h_amplitude', [0.002, 0, 1, -1])]
    lattice.decide(r, 'fftlog, special values', lambda c: SatelliteAlignment(**c), dict(base, method='fftlog'), slow, fast, visit_w)
    slow = [('_halos', odd[:1] + odd[2:5]), ('truncate', [False, True])]
    fast = [('gamma_1h_slope', [-1.5, -2, -1.9999, 1e-6, 1]), ('ell_max', [4, 2]), ('nmass', [4, 3, 2, 5]), ('nk', [6])]
    lattice.decide(r, 'hankel, special values', lambda c: SatelliteAlignment(**c), dict(base, method='hankel', n_hankel=12), slow, fast, visit_w)
    slow = [('_halos', halos if thorough else halos[:3]), ('truncate', [False, True]), ('gamma_1h_slope', [-1.5, -2, 0])]
    fast = [('nmass', [5, 4, 12, 11, 3, 2, 13]), ('nk', [6, 4]), ('ell_max', [4, 2] if not thorough else [4, 2, 6, 5]), ('n_hankel', [12, 15])]
    lattice.decide(r, 'hankel', lambda c: SatelliteAlignment(**c), dict(base, method='hankel'), slow, fast, visit_w)
    r.assumptions += ['scipy fht and the hankel package are trusted', 'the angular part for slopes 0 and -2 is the tabulated one']
    return r.finish()
