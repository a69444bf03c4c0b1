"""C12: the non-linear halo bias table is the one derived from the halo emulator."""

import itertools
import math

import numpy as np
from scipy.interpolate import interp1d

from vlib import awkward, explore, fakeemu, lattice

RANGE = [(0.0211375, 0.0233625), (0.10782, 0.13178), (0.54752, 0.82128), (2.4752, 3.7128), (0.916275, 1.012725), (-1.2, -0.8)]


def emulator(c):
    """The emulator set to the cosmology c (clipped to where it is calibrated)."""

    def put(emu, lnA):
        v = [c['omega_b'] * c['h0'] ** 2, c['omega_c'] * c['h0'] ** 2, c['omega_lambda'] - 0.00064, lnA, c['n_s'], c['w0']]
        emu.set_cosmology(np.array([[min(max(x, a), b) for x, (a, b) in zip(v, RANGE)]]))

    emu = fakeemu.FakeEmulator()
    if c['A_s'] is not None:
        lnA = math.log(c['A_s'] * 1e10)
    else:
        put(emu, math.log(21.0))
        lnA = math.log(21.0 * (c['sigma_8'] / emu.get_sigma8()) ** 2)
    put(emu, lnA)
    return emu


def table(c):
    emu = emulator(c)
    om = emu.cosmo.get_Omega0()
    rho = 277536627000.0 * om
    mmin = rho * 1000.0**3 * 200 / 2048.0**3
    rmin = (3 * (1000.0**3 * 200 / 2048.0**3) / (4 * math.pi)) ** (1 / 3)
    kmax = 2 * math.pi / rmin
    lm = np.linspace(math.log10(mmin), 14.0, 5)
    M = 10**lm
    k = np.logspace(-3, math.log10(200), 1000)
    lk = np.log10(k)
    nodes_k = lk
    trunc = 1 / (1 + np.exp(-10 * (lk - math.log10(0.05)))) / (1 + np.exp(10 * (lk - math.log10(3 * kmax))))
    out = []
    for z in c['z_vec'] if c['z_dep'] else [0.01]:
        pl, pl0 = emu.get_pklin_from_z(k, z), emu.get_pklin_from_z(np.array([0.05]), z)[0]
        b = [math.sqrt(emu.get_phh_mass(np.array([0.05]), m, m, z)[0] / pl0) for m in M]
        beta = np.empty((5, 5, k.size))
        for i in range(5):
            for j in range(i, 5):
                p = emu.get_phh_mass(k, M[i], M[j], z)
                p = p - p[(k > 100) & (k < 200)].mean()  # shot noise
                y = np.abs(p / (b[i] * b[j] * pl))
                up = np.diff(y) > 0
                dn = np.diff(y) < 0
                top = np.flatnonzero(up[:-1] & dn[1:]) + 1  # upper envelope removes the wiggles
                env = interp1d(k[top], y[top], kind='quadratic', bounds_error=False, fill_value='extrapolate')
                beta[i, j] = beta[j, i] = (env(k) - env(0.05)) * trunc
        # nearest tabulated mass and wavenumber
        mi = [nearest(lm, math.log10(m)) for m in c['mass']]
        ki = [nearest(nodes_k, math.log10(x)) for x in c['k_vec']]
        out.append(np.array([[[beta[a, d, e] for d in mi] for a in mi] for e in ki]))
    return np.array(out)


def nearest(grid, x):
    return int(np.argmin(np.abs(grid - x)))


BASE = dict(mass=np.logspace(11.5, 15, 6), z_vec=np.array([0.1, 0.4]), k_vec=np.logspace(-2, 1.13, 7), h0=0.68, sigma_8=0.8,
            A_s=None, omega_b=0.048, omega_c=0.25, omega_lambda=0.7, n_s=0.96, w0=-1.0, z_dep=False)  # fmt: skip


def run(r):
    try:
        from onepower.bnl import NonLinearBias
    except ImportError:
        raise RuntimeError('the non-linear bias class is gone') from None
    fakeemu.install()
    thorough = r.tier == 'thorough'
    amp = [dict(sigma_8=0.8, A_s=None), dict(sigma_8=0.6, A_s=None), dict(sigma_8=1.2, A_s=None), dict(sigma_8=0.8, A_s=2.3e-9), dict(sigma_8=None, A_s=1.0e-9), dict(sigma_8=None, A_s=9e-9)]  # fmt: skip
    dens = [dict(omega_b=0.048, omega_c=0.25), dict(omega_b=0.02, omega_c=0.25), dict(omega_b=0.06, omega_c=0.32), dict(omega_b=0.047, omega_c=0.1)]
    grids = [
        {}, dict(mass=np.logspace(12.2, 14.4, 5), k_vec=np.array([0.001, 0.04, 0.3, 4.1])), dict(mass=np.array([1e10, 3e13, 1e16]), z_vec=np.array([0.0, 0.5, 1.1])),
    ]  # fmt: skip
    axes = [amp, dens, grids, [dict(z_dep=False), dict(z_dep=True)], [dict(omega_lambda=x) for x in (0.7, 0.4, 0.9)],
            [dict(n_s=x) for x in (0.96, 0.8, 1.1)], [dict(w0=x) for x in (-1.0, -0.7, -1.4)], [dict(h0=x) for x in ((0.68, 0.74) if thorough else (0.68,))]]  # fmt: skip
    cases = list(itertools.product(*axes))
    cfgs = []
    for parts in cases:
        c = dict(BASE)
        for p in parts:
            c.update(p)
        cfgs.append(c)
    # awkward arrangements of each grid (and of all at once)
    zs, ms, ks = awkward.grids([0.1, 0.4, 0.41, 0.9]), awkward.grids([4e11, 2.9e12, 3.1e13, 2e14], True), awkward.grids([0.002, 0.0497, 0.05, 0.6, 7.0], True)
    odd = [dict(z_vec=v) for v in zs.values()] + [dict(mass=v) for v in ms.values()] + [dict(k_vec=v) for v in ks.values()]
    odd += [dict(z_vec=zs[a], mass=ms[a], k_vec=ks[a]) for a in zs] + [dict(z_vec=np.array(z)) for z in ([0.301, 0.304], [0.304, 0.301], [0.0, 0.01, 0.02], [1.5, 0.2])]
    odd += [dict(k_vec=np.array(v)) for v in ([1e-4, 9e-4, 1e-3], [150.0, 199.0, 200.0, 201.0, 500.0], [0.05])]
    odd += [dict(mass=np.array(v)) for v in ([1e9, 1e11, 3e11], [9.9e13, 1e14, 1.01e14, 5e15], [1e13])]
    cfgs += [dict(BASE, **o, z_dep=d, **a) for o in odd for d in (False, True) for a in ({}, dict(h0=0.72, w0=-0.9, omega_c=0.23, A_s=2.0e-9))]

    def one(c):
        got = NonLinearBias(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in c.items()})
        t = np.asarray(got.bnl)
        bad = []
        d = lattice.close(t, table(c), rtol=1e-6, atol=1e-9)
        if d:
            bad.append(f'table: {d}')
        if t.ndim == 4 and not np.allclose(t, t.transpose(0, 1, 3, 2), rtol=1e-12, atol=0):
            bad.append('table is not symmetric in the two halo masses')
        rv = (3 * c['mass'] / (4 * math.pi * 200 * 277536627000.0 * emulator(c).cosmo.get_Omega0())) ** (1 / 3)
        d = lattice.close(got.rvir(c['mass']), rv)
        if d:
            bad.append(f'rvir: {d}')
        return bad

    for c, bad in zip(cfgs, explore.pmap(one, cfgs, chunk=8, progress='tables')):
        key = lattice.show(c)
        r.state(repr(sorted(key.items())))
        r.step()
        r.trace()
        r.sample(key)
        for b in bad:
            r.violation(repr(sorted(key.items())) + b.split(':')[0], b, [key])

    # neither an amplitude nor sigma_8
    try:
        NonLinearBias(**dict(BASE, sigma_8=None)).bnl
        r.violation('noamp', 'a table without any amplitude', ['sigma_8=None, A_s=None'])
    except ValueError:
        pass
    r.step()
    r.trace()
    r.say(f'{len(cfgs)} tables')
    r.assumptions += ['the Dark Emulator is replaced by a deterministic stand-in with the same call surface and calibration range']
    return r.finish()
