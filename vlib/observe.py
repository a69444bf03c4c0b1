"""Turn everything a user can read off a model object into comparable data."""

import functools

import numpy as np

RTOL = 1e-8


def _w(n, seed):
    # deterministic positive weights without touching numpy's global RNG
    i = np.arange(1, n + 1, dtype=float)
    return 1.0 + 0.5 * np.sin(i * (12.9898 + seed) + 78.233 * seed)


def features(a):
    """Compact fingerprint of an array: shape plus projections."""
    a = np.asarray(a)
    if a.dtype.kind in 'OSU':
        return ('repr', [str(x) if isinstance(x, str) else type(x).__name__ for x in a.ravel()])
    if a.dtype.kind == 'c':
        a = np.stack([a.real, a.imag])
    x = a.astype(float).ravel()
    fin = np.isfinite(x)
    nbad = int((~fin).sum())
    badpos = float((np.flatnonzero(~fin) + 1).sum())
    x = np.where(fin, x, 0.0)
    w1, w2 = _w(x.size, 1), _w(x.size, 2)
    ax = np.abs(x)
    nz = ax > 1e-280
    lg = np.log(np.where(nz, ax, 1.0))
    return (
        'arr',
        a.shape,
        nbad,
        badpos,
        float((w1 * x).sum()),
        float((w1 * ax).sum()),
        float((w2 * lg).sum()),
        float((w2 * np.abs(lg)).sum()),
        int(nz.sum()),
    )


def feat_equal(f, g, rtol=RTOL):
    if f[0] != g[0]:
        return False
    if f[0] != 'arr':
        return f == g
    if f[1] != g[1] or f[2] != g[2] or f[3] != g[3]:
        return False
    s = max(f[5], g[5])
    if abs(f[4] - g[4]) > rtol * s or abs(f[5] - g[5]) > rtol * s:
        return False
    if f[8] == g[8]:
        n = 1.0
        for d in f[1]:
            n *= d
        t = 100 * rtol * (n + max(f[7], g[7]))
        if abs(f[6] - g[6]) > t:
            return False
    return True


def values_equal(a, b, rtol=RTOL):
    """Elementwise comparison of two observed values (full arrays)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in 'OSU' or b.dtype.kind in 'OSU':
        return repr(a) == repr(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    x, y = a[fa], b[fb]
    if x.size == 0:
        return True
    scale = np.max(np.abs(y))
    return bool(np.all(np.abs(x - y) <= rtol * np.abs(y) + 1e-14 * scale))


def param_names(obj):
    return set(obj.parameter_values)


SKIP = {'parameter_values', 'quantities_available'}


@functools.lru_cache(maxsize=None)
def _props(cls):
    out = []
    for name in dir(cls):
        if name.startswith('_') or name in SKIP:
            continue
        at = getattr(cls, name, None)
        if isinstance(at, (property, functools.cached_property)):
            out.append(name)
    return out


def public_quantities(obj):
    """Names of all public derived quantities (not parameters)."""
    pars = param_names(obj) if hasattr(obj, 'parameter_values') else set()
    return [n for n in _props(type(obj)) if n not in pars]


HOD_Q = [
    'number_density', 'number_density_cen', 'number_density_sat', 'f_c', 'f_s',
    'avg_halo_mass', 'avg_halo_mass_cen', 'avg_halo_mass_sat',
    'galaxy_linear_bias', 'galaxy_linear_bias_cen', 'galaxy_linear_bias_sat',
    'hod', 'hod_cen', 'hod_sat', 'stellar_fraction', 'z',
]  # fmt: skip
IA_Q = ['alignment_gi', 'gamma_1h_amp', 'wkm_f_ell', 'beta_cen', 'beta_sat', 'mpivot_cen',
        'mpivot_sat', 'mass', 'c', 'r_s', 'rvir', 'ell_values', 'k_vec']  # fmt: skip
PK_Q = ['pk_1h', 'pk_2h', 'pk_tot', 'galaxy_linear_bias']


def expand(name, v, leaf, depth=0):
    """Yield (qualified name, leaf(value)) for whatever kind of object v is."""
    if v is None:
        yield name, ('none',)
        return
    if isinstance(v, (bool, str)):
        yield name, ('val', v)
        return
    if isinstance(v, np.ndarray) and v.dtype.kind == 'O':
        v = list(v.ravel())
    if isinstance(v, (int, float, np.ndarray, np.generic, complex)):
        yield name, leaf(v)
        return
    if isinstance(v, type):
        yield name, ('val', v.__name__)
        return
    if isinstance(v, (list, tuple)):
        if len(v) and all(isinstance(x, (int, float, np.ndarray, np.generic)) for x in v):
            for i, x in enumerate(v):
                yield f'{name}[{i}]', leaf(x)
            return
        for i, x in enumerate(v):
            if depth < 2:
                yield from expand(f'{name}[{i}]', x, leaf, depth + 1)
        return
    if isinstance(v, dict):
        for k in sorted(v, key=str):
            if depth < 2:
                yield from expand(f'{name}[{k}]', v[k], leaf, depth + 1)
        return
    tn = [c.__name__ for c in type(v).__mro__]
    if 'PowerSpectrumResult' in tn:
        for q in PK_Q:
            x = getattr(v, q, None)
            yield f'{name}.{q}', ('none',) if x is None else leaf(x)
        return
    if 'FLRW' in tn:
        yield name, leaf(np.array([v.Om0, v.Ob0, v.h, v.Onu0, v.Ode0, v.w0, v.wa, v.Tcmb0.value, v.Neff]))
        return
    if 'HaloOccupationDistribution' in tn:
        for q in HOD_Q:
            yield from observe_one(v, q, leaf, f'{name}.{q}')
        return
    if 'AlignmentAmplitudes' in tn:
        for q in IA_Q:
            yield from observe_one(v, q, leaf, f'{name}.{q}')
        return
    if 'interp1d' in tn:
        x = np.asarray(v.x, float)
        p = np.linspace(x[0], x[-1], 7)
        yield name, leaf(np.asarray(v(p)))
        return
    if 'Spectra' in tn:
        if depth < 2:
            for q in ('power_spectrum_mm', 'power_spectrum_gg', 'power_spectrum_gm', 'z_vec', 'k_vec'):
                yield from observe_one(v, q, leaf, f'{name}.{q}')
        return
    if callable(v):
        try:
            y = v(np.log(np.array([0.01, 0.1, 1.0, 5.0])))
            yield name, leaf(np.asarray(y, float))
            return
        except Exception:
            pass
    yield name, ('opaque', type(v).__name__)


def observe_one(obj, q, leaf, label=None):
    label = label or q
    try:
        v = getattr(obj, q)
    except Exception as e:  # the observation is "raises"
        yield label, ('raises', type(e).__name__)
        return
    yield from expand(label, v, leaf)


def fleaf(v):
    return features(v)


def vleaf(v):
    return ('v', np.array(v))


def observe(obj, names, leaf=fleaf):
    out = {}
    for q in names:
        for k, v in observe_one(obj, q, leaf):
            out[k] = v
    return out


def leaf_equal(a, b, rtol=RTOL):
    if a[0] == 'raises' or b[0] == 'raises':
        return a[0] == b[0]
    if a[0] == 'v' or b[0] == 'v':
        return a[0] == b[0] and values_equal(a[1], b[1], rtol)
    if a[0] in ('arr', 'repr') or b[0] in ('arr', 'repr'):
        return feat_equal(a, b, rtol)
    return a == b


def diff(got, want, rtol=RTOL):
    """Names whose observed values differ."""
    bad = []
    for k in want:
        if k not in got:
            bad.append(k)
        elif not leaf_equal(got[k], want[k], rtol):
            bad.append(k)
    for k in got:
        if k not in want:
            bad.append(k)
    return bad
