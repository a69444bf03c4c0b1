"""C18: projected correlations, their cosmology correction and the angle units are the defined ones."""

import itertools
import os

import numpy as np
from scipy.special import loggamma

from vlib import boot, explore, fakeblock, lattice

FOLDER = os.path.join(boot.REPO, 'cosmosis_modules')
ORDER = {'wp': 0, 'ds': 2}
INPUT = {'wp': 'galaxy_power', 'ds': 'matter_galaxy_power'}


def load(*path):
    return fakeblock.load(os.path.join(FOLDER, *path), 'verif_' + path[-1][:-3])


def outputs(b, before):
    """What an execution put into the block: new or changed values."""
    out = {}
    for k, x in b.v.items():
        if k not in before.v or not np.array_equal(np.asarray(before.v[k]), np.asarray(x)):
            out[k] = x
    return out


def compare(got, want, rtol=1e-7, atol=1e-9):
    for k in sorted(set(got) | set(want)):
        if k not in got:
            return f'{"/".join(k)} is not written'
        if k not in want:
            return f'{"/".join(k)} is written though not asked for'
        g, w = got[k], want[k]
        if isinstance(w, str):
            if g != w:
                return f'{"/".join(k)} is {g!r} instead of {w!r}'
            continue
        d = lattice.close(g, w, rtol=rtol, atol=atol)
        if d:
            return f'{"/".join(k)} {d}'
    return None


# ----------------------------------------------------------------------- from P(k) to r
def spectrum(kind, k, z, i):
    """P(k, z), different in every section."""
    k, z = k[None, :], z[:, None]
    a = (1.0 + 0.3 * i) / (1.0 + z)
    if kind == 'positive':
        return a * 50.0 * k / (1.0 + (k / 0.1) ** 2.3)
    if kind == 'negative':
        return -a * 20.0 * k**0.7 / (1.0 + (k / 0.2) ** 2.1)
    if kind == 'mixed':
        return a * 30.0 * (k - 0.3 - z) / (1.0 + k**3.1)
    if kind == 'zeros':
        return a * 30.0 * np.where(k > 0.2, k, 0.0) / (1.0 + k**3.1)
    if kind == 'one sign per redshift':
        return np.where(np.arange(z.size)[:, None] % 2, -1.0, 1.0) * a * 50.0 * k / (1.0 + (k / 0.1) ** 2.3)
    p = a * 50.0 * k / (1.0 + (k / 0.1) ** 2.3)
    n = k.size
    if kind == 'negative inside':
        p[:, n // 3 : n // 2] *= -0.7
    elif kind == 'positive inside':
        p[:, n // 3 : n // 2] *= -0.7
        p = -p
    elif kind == 'one negative':
        p[-1, n // 2] *= -1
    elif kind == 'one zero':
        p[0, n // 2] = 0.0
    elif kind == 'one zero, negative':
        p[0, n // 2] = 0.0
        p = -p
    elif kind == 'first negative':
        p[:, 0] *= -1
    elif kind == 'last negative':
        p[:, -1] *= -1
    elif kind == 'last zero':
        p[:, -1] = 0.0
    elif kind == 'all zero':
        p[:] = 0.0
    elif kind == 'tiny':
        p *= 1e-20
    elif kind == 'steep':
        p = a * 1e3 * k**-3.5
    elif kind == 'rising':
        p = a * 10.0 * k**0.5
    elif kind == 'some redshifts negative inside':
        p[1::2, 2:-2] *= -0.4
    else:
        raise KeyError(kind)
    return p


KINDS = ['negative inside', 'positive inside', 'one negative', 'one zero', 'one zero, negative', 'first negative', 'last negative', 'last zero', 'all zero', 'tiny',
         'steep', 'rising', 'some redshifts negative inside']  # fmt: skip
KERNELS = ['same grid', 'narrow', 'far', 'at the end', 'zeros', 'negative', 'two points', 'uneven', 'one grid point']


def kernel_block(b, sample, how, z):
    """Another redshift distribution for every bin of a block."""
    zo = {'same grid': z, 'two points': z[[0, -1]], 'uneven': np.array([0.0, 0.01, 0.2, 0.21, 0.9])}.get(how, np.linspace(0.0, 1.4, 15))
    mid, wid = {'narrow': (0.4, 0.03), 'far': (3.0, 0.2), 'at the end': (z[-1], 0.1)}.get(how, (0.4, 0.2))
    b[sample, 'z'] = zo
    for n in range(9):
        f = np.exp(-(((zo - mid - 0.02 * n) / wid) ** 2))
        if how == 'zeros':
            f = 0.0 * f
        if how == 'negative':
            f = f - 0.3
        if how == 'one grid point':
            f = np.where(np.arange(zo.size) == 4, 1.0, 0.0)
        if (sample, f'bin_{n + 1}') in b:
            b[sample, f'bin_{n + 1}'] = f


def special_block(how, sections, sample, nbin):
    b = real_block(0, how if how in KINDS else 'positive', sections, sample, nbin)
    if how in KERNELS:
        kernel_block(b, sample, how, b[sections[0], 'z'])
    if how.startswith('redshifts'):
        for s in sections:
            z = {'redshifts uneven': np.array([0.01, 0.05, 0.3, 0.31, 0.7]), 'redshifts from zero': np.linspace(0.0, 1.0, 6), 'redshifts two': np.array([0.1, 0.6]),
                 'redshifts three': np.array([0.1, 0.2, 0.6]), 'redshifts many': np.linspace(0.01, 1.2, 21)}[how]  # fmt: skip
            b[s, 'z'], b[s, 'p_k'] = z, spectrum('positive', b[s, 'k_h'], z, 1)
    if how.startswith('wavenumbers'):
        for s in sections:
            k = {'wavenumbers uneven': np.array([0.001, 0.002, 0.1, 0.11, 4.0]), 'wavenumbers two': np.array([0.01, 1.0]), 'wavenumbers wide': np.logspace(-6, 5, 40),
                 'wavenumbers narrow': np.linspace(0.4, 0.5, 9)}[how]  # fmt: skip
            b[s, 'k_h'], b[s, 'p_k'] = k, spectrum('positive', k, b[s, 'z'], 1)
    if how == 'density one':
        b['density', 'mean_density0'] = np.array([7e10])
    if how == 'density changing':
        b['density', 'mean_density0'] = np.array([7e10, 7e10 * (1 + 1e-16)])
    return b


SPECIAL = KINDS + KERNELS + ['redshifts uneven', 'redshifts from zero', 'redshifts two', 'redshifts three', 'redshifts many', 'wavenumbers uneven', 'wavenumbers two',
                             'wavenumbers wide', 'wavenumbers narrow', 'density one', 'density changing']  # fmt: skip


def decide_special(r):
    """Each unusual input alone, and after an ordinary one, for both kinds and both modules."""
    for name, want, ogata in (('pk_to_real', want_real, False), ('pk_to_real_ogata', want_ogata, True)):

        def work(case):
            t, how, suff = case
            mod = load('pk_to_real', name + '.py')
            o = dict(corr_type=t, sample='nz_lens', n_transform=12 if ogata else 64, k_min_extrapolate=1e-2 if ogata else 1e-3, k_max_extrapolate=1e3)
            if suff:
                o['suffixes'] = suff
            config = mod.setup(fakeblock.options(**{k: np.array(v) if isinstance(v, list) else v for k, v in o.items()}))
            sections = [INPUT[t]] if not suff else [f'{INPUT[t]}_{x}' for x in suff]
            blocks = [special_block(how, sections, 'nz_lens', 2), real_block(0, 'positive', sections, 'nz_lens', 2)]
            wants = [want(b, o) for b in blocks]
            for seq in ((0,), (1, 0, 1)) if not ogata else ((0,),):
                for i in seq:
                    b = blocks[i].copy()
                    mod.execute(b, config)
                    d = compare(outputs(b, blocks[i]), wants[i], 1e-6, 1e-8)
                    if d:
                        return f'after {seq}: {d}'
            return None

        cases = [(t, how, suff) for t in ('wp', 'ds') for how in SPECIAL for suff in (None, ['a', 'b'])]
        if ogata:
            cases = [c for c in cases if c[2] is None]
        for c, bad in zip(cases, explore.pmap(work, cases, chunk=2, progress=f'{name}: special inputs')):
            r.state((name, 'special', str(c)))
            r.step(4)
            r.trace(2)
            if bad:
                r.violation(f'{name}|special|{c}', f'{name}: {c[1]}: {bad}', [name, str(c)])
        r.say(f'{name}: {len(cases)} special inputs')




def line(x, y, at):
    """Piecewise linear, continued by the end segments."""
    at = np.asarray(at, float)
    j = np.clip(np.searchsorted(x, at) - 1, 0, len(x) - 2)
    return y[j] + (y[j + 1] - y[j]) * (at - x[j]) / (x[j + 1] - x[j])


def simpson_rule(y, x):
    """Composite Simpson with scipy's handling of an even number of points."""
    from scipy.integrate import simpson

    return simpson(y, x=x)


def kernel(b, sample, i, z):
    zo, n = b[sample, 'z'], b[sample, f'bin_{i + 1}']
    return np.array([line(zo, n, t) if zo[0] <= t <= zo[-1] else 0.0 for t in z])


def fftlog_grid(n, lo, hi, mu):
    k = 10 ** np.linspace(np.log10(lo), np.log10(hi), n)
    dln = np.log(hi / lo) / (n - 1)
    # the low-ringing product of the central r and k that is nearest to one
    y = np.pi / dln
    arg = (y * np.log(2.0) + 2 * loggamma((mu + 1 + 1j * y) / 2).imag) / np.pi
    off = (arg - round(arg)) * dln
    r = np.exp(off) / k[::-1]  # r_j k_{n-1-j} = exp(offset)
    # Fourier coefficients of the kernel: (2 / kr)^(i y) Gamma((mu + 1 + i y) / 2) / Gamma((mu + 1 - i y) / 2)
    y = 2 * np.pi * np.arange(n // 2 + 1) / (n * dln)
    u = np.exp(1j * (y * (np.log(2.0) - off) + 2 * loggamma((mu + 1 + 1j * y) / 2).imag))
    if n % 2 == 0:
        u[-1] = u[-1].real
    return k, u, r


def hankel(a, u):
    """r -> int a(k) J_mu(k r) r dk on the grid above."""
    return np.fft.irfft(np.fft.rfft(a) * u, a.size)[::-1]


def want_real(b, o):
    mu = ORDER[o['corr_type']]
    lo, hi = o.get('k_min_extrapolate', 1e-4), o.get('k_max_extrapolate', 5e6)
    rmin, rmax = o.get('rp_min', 0.1), o.get('rp_max', 1000.0)
    kk, u, r = fftlog_grid(o.get('n_transform', 8192), lo, hi, mu)
    use = (r > rmin) & (r < rmax)

    def transform(k, p):
        lk, l2 = np.log(k), np.log(kk)
        if (p > 0).all():
            q = np.exp(line(lk, np.log(p), l2))
        elif (p < 0).all():
            q = -np.exp(line(lk, np.log(-p), l2))
        else:
            q = line(lk, p, l2)
        return (hankel(kk * q, u) / (2 * np.pi) / r)[use]

    return project(b, o, r[use], transform)


def want_ogata(b, o):
    from hankel import HankelTransform

    mu = ORDER[o['corr_type']]
    n, lo, hi = o.get('n_transform', 250), o.get('k_min_extrapolate', 1e-4), o.get('k_max_extrapolate', 5e6)
    dln = np.log(hi / lo) / (n - 1)
    # the separations: logarithmic, one per wavenumber
    r = np.exp((np.arange(n) - 0.5 * (n + 1)) * dln) / np.sqrt(lo * hi)
    r = r[(r > o.get('rp_min', 0.1)) & (r < o.get('rp_max', 1000.0))]
    h = HankelTransform(mu, 20, np.pi / 20)

    def transform(k, p):
        return np.array([h.transform(lambda x: line(k, p, x / t) * x, ret_err=False) / (2 * np.pi * t**2) for t in r])

    out = project(b, dict(o, plain=True), r, transform)
    return out


def project(b, o, r, transform):
    t, sample = o['corr_type'], o['sample']
    sec_in = o.get('input_section_name') or INPUT[t]
    sec_out = o.get('output_section_name') or t
    suff = o.get('suffixes')
    if suff is not None:
        suff = list(np.atleast_1d(suff))
    nb = b[sample, 'nbin'] if suff is None else len(suff)
    out = {}
    for i in range(nb):
        s = sec_in if suff is None else f'{sec_in}_{suff[i]}'
        k, z, p = b[s, 'k_h'], b[s, 'z'], b[s, 'p_k']
        n = kernel(b, sample, i, z)
        rows = np.array([transform(k, p[j]) for j in range(len(z))])
        if t == 'ds' and not o.get('plain'):
            rho = float(np.unique(b['density', 'mean_density0'])[0])
            rows = rows * rho / 1e12
        out[sec_out, f'bin_{i + 1}'] = np.array([simpson_rule(n * rows[:, c], z) for c in range(rows.shape[1])])
    out[sec_out, 'nbin'], out[sec_out, 'sample'], out[sec_out, 'rp'] = nb, sample, r
    out[sec_out, 'sep_name'], out[sec_out, 'save_name'] = 'rp', '' if o.get('plain') else t
    return {fakeblock.Block.k(*k): v for k, v in out.items()}


def real_block(i, kind, sections, sample, nbin):
    d = {}
    for n, s in enumerate(sections):
        z, k = np.linspace(0.05, 0.8 + 0.2 * i, 4 + (i + n) % 3), np.logspace(-3 + 0.2 * n, 1.0 + 0.1 * i, 12 + i + n)
        d[s, 'z'], d[s, 'k_h'], d[s, 'p_k'] = z, k, spectrum(kind, k, z, n + i)
    zo = np.linspace(0.0 if i != 1 else 0.2, 0.7 if i != 2 else 1.5, 9 + i)
    d[sample, 'z'], d[sample, 'nbin'] = zo, nbin
    for n in range(max(nbin, len(sections))):
        d[sample, f'bin_{n + 1}'] = np.exp(-(((zo - 0.3 - 0.1 * n - 0.05 * i) / 0.2) ** 2))
    d['density', 'mean_density0'] = np.full(3, 8e10 * (1 + 0.1 * i))
    return fakeblock.Block(d)


def option_sets(ogata, thorough):
    """All combinations of the options of the module."""
    for t in ('wp', 'ds'):
        for suff, nbin in ((None, 1), (None, 3), ('a_1', 1), (['red_1', 'red_2', 'blue_1'], 2)):
            for si, so in ((None, None), ('some_power', 'out'), ('', '')) if not ogata or thorough else ((None, None), ('some_power', '')):
                for n, lo, hi in ((64, 1e-3, 1e3), (95, 1e-4, 1e4), (None, None, 2e5)) if not ogata else ((12, 1e-2, 1e3), (15, 1e-3, None)):
                    for rmin, rmax in ((None, None), (0.5, 30.0)):
                        o = dict(corr_type=t, sample='nz_lens', suffixes=suff, input_section_name=si, output_section_name=so, n_transform=n,
                                 k_min_extrapolate=lo, k_max_extrapolate=hi, rp_min=rmin, rp_max=rmax)  # fmt: skip
                        yield {k: v for k, v in o.items() if v is not None}, nbin


def decide_real(r, thorough):
    for name, want, ogata in (('pk_to_real', want_real, False), ('pk_to_real_ogata', want_ogata, True)):
        kinds = ['positive', 'negative', 'mixed', 'zeros', 'one sign per redshift']

        def work(case):
            o, nbin = case
            mod = load('pk_to_real', name + '.py')
            config = mod.setup(fakeblock.options(**{k: np.array(v) if isinstance(v, list) else v for k, v in o.items()}))
            suff = o.get('suffixes')
            sec = o.get('input_section_name') or INPUT[o['corr_type']]
            sections = [sec] if suff is None else [f'{sec}_{x}' for x in np.atleast_1d(suff)]
            small = 'n_transform' in o
            use = kinds if small and not ogata or thorough else kinds[::2] if small else kinds[:1]
            blocks, wants, bad, n = {}, {}, [], 0
            letters = [(i, kd) for i, kd in enumerate((use * 3)[: max(3, len(use))])]
            for i, kd in letters:
                blocks[i] = real_block(i % 3, kd, sections, o['sample'], nbin)
                wants[i] = want(blocks[i], o)
            seqs = [[i for i, _ in letters], [i for i, _ in letters[::-1]]]
            if small and not ogata:
                seqs += [list(s) for s in itertools.product(range(3), repeat=3)]
            for seq in seqs:  # on the one configured module, block after block
                for pos, i in enumerate(seq):
                    b = blocks[i].copy()
                    n += 1
                    if mod.execute(b, config) != 0:
                        bad.append((seq[: pos + 1], 'execute does not report success'))
                    d = compare(outputs(b, blocks[i]), wants[i], 1e-6, 1e-8)
                    if d:
                        bad.append((seq[: pos + 1], d))
                        break
            return bad, n, len(seqs)

        cases = list(option_sets(ogata, thorough))
        for (o, nbin), (bad, n, ns) in zip(cases, explore.pmap(work, cases, progress=name)):
            r.state((name, repr(sorted(o.items())), nbin))
            r.step(n)
            r.trace(ns)
            for seq, d in bad[:3]:
                r.violation(f'{name}|{sorted(o.items())}|{seq}|{d.split()[0]}', f'{name}: {d}', [name, {k: str(v) for k, v in o.items()}, seq])
        r.sample({'module': name, 'options': {k: str(v) for k, v in cases[-1][0].items()}})
        r.say(f'{name}: {len(cases)} configurations')
        # a kind of correlation that does not exist
        for bad in ('xi', '', 'WP', 'wp '):
            def refuse(_):
                try:
                    load('pk_to_real', name + '.py').setup(fakeblock.options(corr_type=bad, sample='nz_lens'))
                except ValueError:
                    return True
                return False
            r.step()
            r.trace()
            if not explore.pmap(refuse, [0])[0]:
                r.violation(f'{name}|corr_type={bad}', f'{name}: accepts corr_type={bad!r}', [name, bad])


def analytic(_):
    """Gaussian spectra have closed transforms: anchors the reference above, and the module."""
    mod = load('pk_to_real', 'pk_to_real.py')
    bad = []
    for t in ('wp', 'ds'):
        k = np.logspace(-4.5, 1.35, 4000)
        z = np.linspace(0.1, 0.5, 5)
        p = np.exp(-(k**2) / 2) * k ** ORDER[t]
        b = fakeblock.Block({('s', 'k_h'): k, ('s', 'z'): z, ('s', 'p_k'): np.array([p] * 5), ('n', 'z'): z, ('n', 'bin_1'): np.full(5, 2.5), ('n', 'nbin'): 1,
                             ('density', 'mean_density0'): np.array([1e12])})  # fmt: skip
        for n in (1024, 777):
            c = mod.setup(fakeblock.options(corr_type=t, sample='n', input_section_name='s', n_transform=n, k_min_extrapolate=1e-4, k_max_extrapolate=1e3,
                                            rp_min=0.3, rp_max=2.5))  # fmt: skip
            x = b.copy()
            mod.execute(x, c)
            r = x[t, 'rp']
            want = r ** ORDER[t] * np.exp(-(r**2) / 2) / (2 * np.pi)
            err = np.max(np.abs(x[t, 'bin_1'] / want - 1))
            if r.size < 50 or not err < 1e-3:
                bad.append((t, n, f'{err:.3g} from the closed form at {r.size} separations'))
    return bad


# -------------------------------------------------------------------- cosmology correction
def run_point(i):
    c = 'cosmological_parameters'
    d = dict(hubble=70.0 - 3 * i, omega_b=0.046, omega_m=0.3 - 0.03 * i, mnu=0.06 * i, w=-1.0 + 0.1 * i, wa=0.1 * i)
    if i == 1:
        d['TCMB'] = 2.5
    return {(c, n): v for n, v in d.items()}


def decide_correction(r, thorough):
    import astropy.cosmology as ac

    KW = [(None, None), ("{'H0':65.0, 'Om0':0.25, 'Ode0':0.6}", 'LambdaCDM'), ("{'H0':73.0, 'Om0':0.35}", 'FlatLambdaCDM'),
          ("{'H0':69.0, 'Om0':0.28, 'w0':-0.8, 'wa':0.2}", 'Flatw0waCDM')]  # fmt: skip
    ZS = [0.2, [0.35], [0.1, 0.4, 0.25], [0.3, 0.3]]
    cases = [(t, kw, z) for t in ('wp', 'ds') for kw in KW for z in ZS]

    def expect(b0, i, t, kw, z):
        data = getattr(ac, kw[1] or 'LambdaCDM')(**eval(kw[0] or "{'H0':70.0, 'Om0':0.3, 'Ode0':0.7}"))
        q = {n: b0['cosmological_parameters', n] for n in ('hubble', 'omega_b', 'omega_m', 'mnu', 'w', 'wa')}
        tcmb = b0['cosmological_parameters', 'TCMB'] if ('cosmological_parameters', 'TCMB') in b0 else 2.7255
        run = ac.Flatw0waCDM(H0=q['hubble'], Om0=q['omega_m'], Ob0=q['omega_b'], m_nu=np.array([0, 0, q['mnu']]) * __import__('astropy').units.eV,
                             Tcmb0=tcmb, w0=q['w'], wa=q['wa'])  # fmt: skip
        hh = (run.H0 / data.H0).value
        funcs, ratios = [], []
        for n, zi in enumerate(np.atleast_1d(z)):
            f = b0['obs', f'bin_{n + 1}']
            if t == 'wp':
                c = (data.H(zi) / run.H(zi)).value
            else:
                # the critical surface density (lens at zi, source at 0.6), in comoving h units

                def crit(m):
                    return (m.angular_diameter_distance(0.6) / (m.angular_diameter_distance(zi) * m.angular_diameter_distance_z1z2(zi, 0.6))).value / m.h

                c = crit(data) / crit(run)
            funcs.append(f * c)
            ratios.append((run.comoving_distance(zi) / data.comoving_distance(zi)).value * hh)
        return funcs, ratios

    def work(case):
        t, kw, z = case
        mod = load('pk_to_real', 'correct_cosmo_real.py')
        o = dict(section_name='obs', z=np.array(z) if isinstance(z, list) else z)
        if kw[0]:
            o.update(cosmo_kwargs=kw[0], astropy_cosmology_class=kw[1])
        config = mod.setup(fakeblock.options(**o))
        nb = np.size(z)
        out, n = [], 0
        for seq in itertools.product(range(3), repeat=2):
            for i in seq:
                d = dict(run_point(i))
                d['obs', 'nbin'], d['obs', 'save_name'], d['obs', 'rp'] = nb, t, np.logspace(-1, 1.5, 6 + i)
                for n_ in range(nb):
                    d['obs', f'bin_{n_ + 1}'] = (3.0 + n_) / np.logspace(-1, 1.5, 6 + i) ** (0.8 + 0.1 * i)
                b0 = fakeblock.Block(d)
                b = b0.copy()
                n += 1
                if mod.execute(b, config) != 0:
                    out.append((seq, 'execute does not report success', ''))
                funcs, ratios = expect(b0, i, t, kw, z)
                for n_, f in enumerate(funcs):
                    x = lattice.close(b['obs', f'bin_{n_ + 1}'], f)
                    if x:
                        out.append((seq, f'bin_{n_ + 1} {x}', ''))
                rp, rp0 = b['obs', 'rp'], b0['obs', 'rp']
                if nb == 1 or len(set(np.atleast_1d(z))) == 1:
                    x = lattice.close(rp, rp0 * ratios[0])
                    if x:
                        again = nb > 1 and not lattice.close(rp, rp0 * np.prod(ratios))
                        out.append((seq, f'rp {x}', 'once per bin' if again else ''))
                elif not any(not lattice.close(rp, rp0 * f) for f in ratios + [np.prod(ratios)]):
                    out.append((seq, f'rp is scaled by {rp[0] / rp0[0]}, for no bin the ratio of distances', ''))
                other = outputs(b, b0)
                for k in other:
                    if k not in {('obs', 'rp')} | {('obs', f'bin_{n_ + 1}') for n_ in range(nb)}:
                        out.append((seq, f'{k} is changed', ''))
        refused = []
        for name, zz, tt in (('number of redshifts', [0.1] * (nb + 1), t), ('kind', z, 'xi'), ('kind', z, '')):
            c = mod.setup(fakeblock.options(**dict(o, z=np.array(zz) if isinstance(zz, list) else zz)))
            b0 = fakeblock.Block({**run_point(0), ('obs', 'nbin'): nb, ('obs', 'save_name'): tt, ('obs', 'rp'): np.ones(4),
                                  **{('obs', f'bin_{n_ + 1}'): np.ones(4) for n_ in range(nb + 1)}})  # fmt: skip
            n += 1
            try:
                mod.execute(b0, c)
                refused.append(name)
            except ValueError:
                pass
        return out, refused, n

    for (t, kw, z), (out, refused, n) in zip(cases, explore.pmap(work, cases)):
        r.state(('correction', t, str(kw), str(z)))
        r.step(n)
        r.trace(9)
        for seq, d, key in out:
            if key:
                r.violation('correct_cosmo_real|several bins at one redshift|rp scaled once per bin', f'correct_cosmo_real: {d}', [t, str(kw), str(z), list(seq)])
            else:
                r.violation(f'correction|{t}|{kw}|{z}|{seq}|{d.split()[0]}', f'correct_cosmo_real: {d}', [t, str(kw), str(z), list(seq)])
        for name in refused:
            r.violation(f'correction|{t}|{kw}|{z}|{name}', f'correct_cosmo_real: answers although the {name} is wrong', [t, str(kw), str(z)])
    r.say(f'correct_cosmo_real: {len(cases)} configurations')


# -------------------------------------------------------------------------------- angles
def decide_theta(r):
    RAD = {'rad': 1.0, 'deg': np.pi / 180, 'arcmin': np.pi / 10800, 'arcsec': np.pi / 648000}
    names = list(RAD) + ['radian', 'radians']
    outs = list(RAD)

    def work(case):
        first, path = case
        mod = load('convert_theta', 'convert_theta.py')
        configs = {u: mod.setup(fakeblock.options(output_units=u, section_name='xi')) for u in outs}
        th = np.array([0.3, 1.7, 250.0])
        b = fakeblock.Block({('xi', 'theta'): th, ('xi', 'xi_1_1'): th, ('other', 'theta'): th})
        b.put_metadata('xi', 'theta', 'unit', first)
        rad = th * RAD.get(first, 1.0)
        for u in path:
            if mod.execute(b, configs[u]) != 0:
                return 'execute does not report success'
            d = lattice.close(b['xi', 'theta'], rad / RAD[u])
            if d:
                return f'{u}: {d}'
            if b.get_metadata('xi', 'theta', 'unit') != u:
                return f'labelled {b.get_metadata("xi", "theta", "unit")} instead of {u}'
            if not np.array_equal(b['other', 'theta'], th) or not np.array_equal(b['xi', 'xi_1_1'], th):
                return 'something else is changed'
        return None

    cases = [(f, p) for f in names for n in (1, 2, 3) for p in itertools.product(outs, repeat=n)]
    for (f, p), bad in zip(cases, explore.pmap(work, cases, chunk=20)):
        r.state(('theta', f, p))
        r.step(len(p))
        r.trace()
        if bad:
            r.violation(f'theta|{f}|{p}', f'convert_theta: from {f} to {" to ".join(p)}: {bad}', [f, list(p)])
    for bad in ('radian', 'degrees', '', 'hourangle', 'Deg', 'm'):

        def refuse(_):
            try:
                load('convert_theta', 'convert_theta.py').setup(fakeblock.options(output_units=bad, section_name='xi'))
            except ValueError:
                return True
            return False

        r.step()
        r.trace()
        if not explore.pmap(refuse, [0])[0]:
            r.violation(f'theta|{bad}', f'convert_theta: accepts the unit {bad!r}', [bad])
    r.say(f'convert_theta: {len(cases)} conversions')


def run(r):
    thorough = r.tier == 'thorough'
    for t, n, what in explore.pmap(analytic, [0])[0]:
        r.violation(f'analytic|{t}|{n}', f'pk_to_real: {t} with {n} points: {what}', [t, n])
    r.step(4)
    decide_theta(r)
    decide_correction(r, thorough)
    decide_real(r, thorough)
    decide_special(r)
    r.assumptions += ['the hankel package and the astropy cosmologies are trusted', 'the data block is a stand-in',
                      'correct_cosmo_real with bins at different redshifts: the one common separation grid may be scaled for any of them']  # fmt: skip
    return r.finish()
