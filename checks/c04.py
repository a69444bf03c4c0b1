"""C04: models are isolated from each other, from their clones and from the caller's containers."""

import copy

import numpy as np

from vlib import explore, fakeemu, histories as hi, observe as ob, space as sp

from . import c02

READ = ['power_spectrum_mm', 'power_spectrum_gg', 'power_spectrum_gm', 'power_spectrum_mi', 'power_spectrum_ii', 'power_spectrum_gi',
        'obs_func', 'fstar', 'fstar_mm', 'mass', 'dndlnm', 'halo_bias', 'u_dm', 'u_sat', 'nu', 'conc_cen', 'omega_m', 'peff', 'wkm_sat',
        'poisson_func', 'nonlinear_power', 'halo_profile_params']  # fmt: skip


def see(obj):
    if hasattr(obj, 'results'):
        obj.results(c02.MODES, c02.COMP)
        out = {}
        for m in c02.MODES:
            out.update(ob.expand(m, getattr(obj, f'power_spectrum_{m}'), ob.fleaf))
        return out
    return ob.observe(obj, READ if hasattr(obj, 'power_spectrum_mm') else ob.public_quantities(obj))


CHUNKS = [['conc_cen', 'conc_sat', 'mass', 'nu', 'omega_m', 'rho_m', 'wkm_sat', 'nonlinear_power', 'peff'],
          ['r_s_cen', 'r_s_sat', 'u_dm', 'dndlnm', 'obs_func', 'poisson_func', 'power_spectrum_mm', 'power_spectrum_mi'],
          ['u_sat', 'halo_bias', 'fstar', 'fstar_mm', 'power_spectrum_gg', 'power_spectrum_gm', 'power_spectrum_gi', 'power_spectrum_ii']]  # fmt: skip


def see_part(obj, k):
    """One third of what can be read."""
    if hasattr(obj, 'results'):
        m = c02.MODES[k::3]
        obj.results(m, c02.COMP)
        out = {}
        for n in m:
            out.update(ob.expand(n, getattr(obj, f'power_spectrum_{n}'), ob.fleaf))
        return out
    every = ob.public_quantities(obj)
    return ob.observe(obj, [q for q in CHUNKS[k] if q in every] if 'u_sat' in every else every[k::3])


# ------------------------------------------------------------------- two models at once
def programs(thorough):
    """(name, class, construction, update): each is run as build - read - update - read."""
    from onepower import HaloModelIngredients, Spectra
    from onepower.hmi import CosmologyBase
    from onepower.ia import SatelliteAlignment

    b = sp.spectra_base
    out = [
        ('defaults', Spectra, dict(sp.GRID), dict(hod_params={'A_cen': 0.3}, align_params={'gamma_2h_amplitude': 2.0}, hod_settings=sp.settings(1))),
        ('defaults2', Spectra, dict(sp.GRID, omega_c=0.2), dict(poisson_params={'poisson': 0.6}, obs_settings=sp.settings(1), compute_observable=True, halo_profile_model_dm='Hernquist')),
        ('plain', Spectra, b(), dict(h0=0.66, align_params={'beta_sat': 0.9})),
        ('bnl', Spectra, b(**sp.BASES['bnl']), dict(beta_nl=sp.beta_nl(1), hod_settings=sp.settings(0, 2))),
        ('hmcode', Spectra, b(**sp.BASES['hmcode']), dict(log10T_AGN=8.1, m_nu=0.2)),
        ('fortuna', Spectra, b(**sp.BASES['fortuna']), dict(matter_power_lin=sp.plin(1), z_vec=sp.Z * 1.1)),
        ('response', Spectra, b(**sp.BASES['response']), dict(matter_power_nl=sp.pnl(2), norm_cen=1.3)),
        ('zheng', Spectra, b(hod_model='Zheng', mdef_model='SOVirial', k_vec=sp.K * 1.1), dict(hod_params={'alpha': 1.3, 'log10_Mmin': 12.2}, hmf_model='SMT')),
        ('cosmo', CosmologyBase, dict(z_vec=sp.Z), dict(omega_c=0.2, m_nu=0.3)),
        ('ingr', HaloModelIngredients, dict(sp.GRID, halo_profile_model_sat='Hernquist'), dict(sigma_8=0.7, overdensity=350.0)),
        ('colossus', HaloModelIngredients, dict(sp.GRID, halo_concentration_model_dm='diemer19', halo_concentration_model_sat='prada12'), dict(sigma_8=0.7, omega_c=0.35)),
        ('align', SatelliteAlignment, dict(c02.align_inputs(1), nmass=4, ell_max=4), dict(gamma_1h_slope=-2.0, beta_sat=0.4, mpivot_sat=13.0)),
    ]  # fmt: skip
    for s in c02.bias_spaces():
        if s.name == 'bias-z':
            out.append(('bias', s.build, s.base, dict(h0=0.72, sigma_8=0.7)))
    for s in c02.upsampled_spaces():
        if s.name == 'upsampled':
            out.append(('upsampled', s.build, s.base, dict(fraction=s.base['fraction'] * 0.3, _model_1_params={'h0': 0.66})))
    return out


def construct(cls, cfg):
    cfg = copy.deepcopy(cfg)
    return cls(**cfg) if isinstance(cls, type) else cls(cfg)


STEPS = 4  # build, read, update, read


def do(prog, obj, k):
    """Step k of a program; returns (object, observation or None)."""
    name, cls, cfg, upd = prog
    if k == 0:
        return construct(cls, cfg), None
    if upd is None:
        return obj, see_part(obj, k - 1)
    if k == 2:
        obj.update(**copy.deepcopy(upd))
        return obj, None
    return obj, see(obj)


def solo(prog):
    obj, out = None, []
    for k in range(STEPS):
        obj, o = do(prog, obj, k)
        out.append(o)
    return out


def split_pairs(progs):
    """A model and one with other values, both read piece by piece: build - read - read - read."""
    out = []
    for name, cls, cfg, upd in progs:
        other = cfg
        for n, v in upd.items():
            other = sp.apply_update(other, n, v)
        out.append(((name, cls, cfg, None), (name + ', changed', cls, other, None)))
    return out


def interleave(pa, pb, wa, wb):
    """All interleavings of the two programs in one process (depth-first, forked)."""
    count = dict(states=set(), steps=0, traces=0)
    bad = []

    def dfs(objs, pos, sched):
        for w in (0, 1):
            if pos[w] == STEPS:
                continue

            def go():
                bad.clear()
                count.update(states=set(), steps=0, traces=0)
                p, want = ((pa, wa), (pb, wb))[w]
                k = pos[w]
                s2 = sched + f'{"AB"[w]}{k}'
                o2 = list(objs)
                try:
                    o2[w], got = do(p, objs[w], k)
                    d = ob.diff(got, want[k]) if got is not None else []
                except Exception as e:
                    d = [f'raises {type(e).__name__}: {e}']
                count['steps'] += 1
                n2 = list(pos)
                n2[w] += 1
                count['states'].add(tuple(n2))
                if d:
                    bad.append((s2, f'{p[0]}: {", ".join(d[:5])} differs from the model on its own'))
                elif n2 == [STEPS, STEPS]:
                    count['traces'] += 1
                else:
                    dfs(o2, n2, s2)
                return list(bad), dict(count)

            b, c = explore.branch(go)
            bad.extend(b)
            count['states'] |= c['states']
            count['steps'] += c['steps']
            count['traces'] += c['traces']

    dfs([None, None], [0, 0], '')
    return bad, count


# -------------------------------------------------------------------------------- clones
def clone_histories(case):
    """build, read all or nothing, clone (with changes), then every order of update/read on both."""
    name, cls, cfg, upd, kw, first, oracle = case
    steps, bad = 0, []
    orig = construct(cls, cfg)
    if first:
        see(orig)
    try:
        twin = orig.clone(**copy.deepcopy(kw))
    except Exception as e:
        return 1, [('clone', f'cloning raises {type(e).__name__}: {e}')]
    # U original updated, V clone updated, R original read, S clone read
    for sched in ('UR S', 'US R', 'VS R', 'VR S', 'SR', 'RS', 'UVRS', 'VURS', 'RUVSR', 'SVUSR', 'VRUSR', 'USVRS'):

        def go():
            out, so, sc, n = [], 'o', 'c', 0
            for c in sched.replace(' ', ''):
                n += 1
                if c == 'U':
                    orig.update(**copy.deepcopy(upd))
                    so = 'ou'
                elif c == 'V':
                    twin.update(**copy.deepcopy(upd))
                    sc = 'cu'
                elif c == 'R':
                    d = ob.diff(see(orig), oracle[so])
                    if d:
                        out.append((sched, f'{name}: original: {", ".join(d[:5])}'))
                else:
                    d = ob.diff(see(twin), oracle[sc])
                    if d:
                        out.append((sched, f'{name}: clone: {", ".join(d[:5])}'))
            return n, out

        try:
            n, out = explore.branch(go)
        except explore.ChildError as e:
            n, out = 1, [(sched, f'{name}: raises {str(e).strip().splitlines()[-1]}')]
        steps += n
        bad += out
    return steps, bad


# ---------------------------------------------------------------------------- containers
def mutate(v):
    """Change a container in place, everywhere in it."""
    if isinstance(v, np.ndarray):
        if v.dtype.kind in 'fc':
            v *= 1.07
        return
    if isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (list, dict, np.ndarray)):
                mutate(x)
            elif isinstance(x, float):
                v[i] = x * 1.07
        return
    if isinstance(v, dict):
        for k, x in list(v.items()):
            if isinstance(x, (list, dict, np.ndarray)):
                mutate(x)
            elif isinstance(x, float):
                v[k] = x * 1.07


def holders(thorough):
    """(name, class, configuration, parameter, initial value, other update)."""
    from onepower import Spectra
    from onepower.ia import AlignmentAmplitudes, SatelliteAlignment

    b = sp.spectra_base
    other = dict(sigma_8=0.78)
    out = []
    full = dict(
        hod_params={'A_cen': 0.2, 'A_sat': -0.1}, norm_cen=np.array([1.1, 1.2]), eta_cen=np.array([0.1, 0.2]), norm_sat=np.array([0.9, 1.2]),
        eta_sat=np.array([0.2, 0.1]), matter_power_lin=sp.plin(), matter_power_nl=sp.pnl(), beta_nl=sp.beta_nl(), nonlinear_mode='bnl',
        compute_observable=True, hmcode_ingredients='fit', growth_params={'dlna': 0.02}, t_eff=np.array([0.1, 0.2]),
    )  # fmt: skip
    for p in ('z_vec', 'k_vec', 'hod_params', 'hod_settings', 'hod_settings_mm', 'obs_settings', 'align_params', 'poisson_params', 'norm_cen',
              'eta_cen', 'norm_sat', 'eta_sat', 'matter_power_lin', 'beta_nl', 'growth_params'):  # fmt: skip
        out.append((f'bnl-{p}', Spectra, b(**full), p, other))
    for p in ('matter_power_nl', 'hod_settings', 'z_vec'):
        out.append((f'response-{p}', Spectra, b(**{**full, 'response': True, 'nonlinear_mode': None, 'hmcode_ingredients': None}), p, other))
    for p in ('matter_power_lin', 'matter_power_nl', 't_eff'):
        out.append((f'fortuna-{p}', Spectra, b(**{**full, 'nonlinear_mode': 'fortuna'}), p, other))
    zh = {'log10_Mmin': [12.0, 12.6], 'log10_M0': [12.1, 12.4], 'log10_M1': [13.0, 13.4], 'sigma': [0.2, 0.3], 'alpha': [1.0, 0.8]}
    out.append(('zheng-hod_params', Spectra, b(hod_model='Zheng', hod_settings=sp.settings(0, 2), hod_params=zh), 'hod_params', other))
    al = dict(c02.align_inputs(0), nmass=4, ell_max=4, beta_sat=0.3, mpivot_sat=13.4, beta_cen=0.4, mpivot_cen=13.2)
    for p in ('z_vec', 'mass_in', 'c_in', 'r_s_in', 'rvir_in'):
        out.append((f'align-{p}', SatelliteAlignment, al, p, dict(gamma_1h_slope=-1.7)))
    for s in c02.bias_spaces():
        if s.name == 'bias-z':
            for p in ('mass', 'z_vec', 'k_vec'):
                out.append((f'bias-{p}', s.build, s.base, p, dict(h0=0.69)))
    for s in c02.upsampled_spaces():
        if s.name == 'upsampled':
            for p in ('z', 'k', 'fraction', 'fraction_z', '_model_1_params', '_model_2_params'):
                out.append((f'upsampled-{p}', s.build, s.base, p, dict(extrapolate_option=0.0)))
    return out


def container_histories(case):
    name, cls, cfg, par, other, oracle = case
    steps, bad = 0, []
    real = par
    for how in ('constructed', 'updated'):
        for before in (True, False):
            for then in ('read', 'other', 'again'):

                def go():
                    c = copy.deepcopy(cfg)
                    if isinstance(cls, type):
                        mk = lambda c: cls(**c)
                    else:
                        mk = cls
                    if how == 'constructed':
                        held = c[par]
                        obj = mk(c)
                    else:
                        obj = mk(copy.deepcopy(cfg))
                        held = copy.deepcopy(cfg[par])
                        see(obj)
                        obj.update(**{real: held})
                    if before:
                        see(obj)
                    mutate(held)
                    if then == 'other':
                        obj.update(**copy.deepcopy(other))
                    if then == 'again':
                        obj.update(**{real: held})
                    return ob.diff(see(obj), oracle[then])

                steps += 3
                try:
                    d = explore.branch(go)
                except explore.ChildError as e:
                    if oracle[then] == 'raises':
                        continue
                    d = ['raises ' + str(e).strip().splitlines()[-1]]
                if d:
                    h = f'{how}, {"read, " if before else ""}container changed in place, {then}'
                    bad.append((h, f'{name}: {", ".join(d[:5])}'))
    return steps, bad


def neighbour_spaces(thorough):
    """Base configurations, each with all single changes, inconspicuous changes and compensating joint changes."""
    from . import c01, c02

    for name in sp.BASES:
        s = c01.space(name)
        if thorough or name in ('plain', 'hmcode'):
            s.ops = s.ops + c01.subtle(name, s).ops
        yield s
    for s in list(c02.bias_spaces()) + list(c02.align_spaces(thorough)) + list(c02.upsampled_spaces()) + list(c02.ingredient_spaces()):
        if not s.name.startswith('ingr') or thorough:  # Spectra models are such
            s.ops = s.ops + hi.inconspicuous({k: v for k, v in s.base.items() if not k.startswith('_model')}) + [(hi.JOINT, d) for d in c02.compensating(s)]
            yield s


def neighbours(s, i, base):
    """The base model and its i-th variation in one process, either one first."""
    h = hi.label(s.ops[i])

    def variant_first():
        w = s.fresh((i,))
        return w, s.fresh(())

    want, b2 = explore.branch(variant_first)
    if isinstance(want, tuple):
        return 1, []
    bad = []
    d = ob.diff(b2, base)
    if d:
        bad.append((f'{h}, then the base model', f'{s.name}: a model with {h} changes {", ".join(d[:5])} of a model built later'))
    obj = s.build(copy.deepcopy(s.base))
    s.look(obj, leaf=lambda v: ('x',))
    d = ob.diff(s.fresh((i,)), want)
    if d:
        bad.append((f'base model, then {h}', f'{s.name}: an earlier model changes {", ".join(d[:5])} of a model with {h}'))
    d = ob.diff(s.look(obj), base)
    if d:
        bad.append((f'base model, {h}, base model again', f'{s.name}: a model with {h} changes {", ".join(d[:5])} of one built before'))
    return 3, bad


def run(r):
    fakeemu.install()
    thorough = r.tier == 'thorough'
    # 1. two models in one process
    progs = programs(thorough)
    splits = split_pairs(progs)
    every = progs + [p for ab in splits for p in ab]
    alone = explore.pmap(solo, every)
    pairs = [(i, j) for i in range(len(progs)) for j in range(i, len(progs))]
    if not thorough:
        slow = [i for i, p in enumerate(progs) if p[0] == 'colossus']
        pairs = [(i, j) for i, j in pairs if (i == j or progs[i][0] == 'defaults' or (j - i) == 1) and i not in slow and j not in slow]
    pairs += [(len(progs) + 2 * i, len(progs) + 2 * i + 1) for i in range(len(splits))]
    pairs.sort(key=lambda p: ({'colossus': 0, 'cosmo': 2, 'align': 3}.get(every[p[0]][0], 1)))

    def pair(ij):
        i, j = ij
        return interleave(every[i], every[j], alone[i], alone[j])

    for (i, j), (bad, c) in zip(pairs, explore.pmap(pair, pairs, progress='interleavings')):
        a, b = every[i], every[j]
        kind = 'pair' if a[3] is not None else 'split'
        for s in c['states']:
            r.state((kind, a[0], b[0], s))
        r.step(c['steps'])
        r.trace(c['traces'])
        for sched, what in bad:
            r.violation(f'{kind}|{a[0]}|{b[0]}|{sched}', what, [a[0], b[0], sched])
    r.sample({'programs': [progs[0][0], progs[2][0]], 'schedule': 'A0B0A1B1A2B2A3B3'})
    r.say(f'{len(pairs)} pairs of models (of them {len(splits)} read piece by piece), {r.traces} interleavings')

    # 2. clones
    cases = []
    for name, cls, cfg, upd in progs:
        if name == 'upsampled' or (name == 'colossus' and not thorough):
            continue
        kws = [{}]
        if name not in ('align', 'bias'):
            kws.append(dict(omega_b=0.041))
        for kw in kws:
            cases.append((name, cls, cfg, upd, kw))

    def spec(c):
        name, cls, cfg, upd, kw = c
        out = {}
        for tag, changes in (('o', []), ('ou', [upd]), ('c', [kw]), ('cu', [kw, upd])):
            cc = cfg
            for ch in changes:
                for k, v in ch.items():
                    cc = sp.apply_update(cc, k, v)
            out[tag] = see(construct(cls, cc))
        return out

    oracles = explore.pmap(spec, cases)
    jobs = [c + (f, o) for c, o in zip(cases, oracles) for f in (True, False)]
    for job, (steps, bad) in zip(jobs, explore.pmap(clone_histories, jobs, progress='clones')):
        r.state(('clone', job[0], bool(job[4]), job[5]))
        r.step(steps)
        r.trace(12)
        for sched, what in bad:
            r.violation(f'clone|{job[0]}|{sorted(job[4])}|{job[5]}|{sched}', what, [job[0], 'read first' if job[5] else 'unread', sched])
    r.say(f'{len(jobs)} clones')

    # 3. the caller's containers
    cases = holders(thorough)

    def spec3(c):
        name, cls, cfg, par, other = c
        out = {}
        for then in ('read', 'other', 'again'):
            cc = copy.deepcopy(cfg)
            if then == 'other':
                cc.update(other)
            if then == 'again':
                v = cc[par]
                mutate(v)
                if isinstance(v, dict):
                    cc = sp.apply_update(copy.deepcopy(cfg), par, v)
            try:
                out[then] = see(construct(cls, cc))
            except Exception:
                out[then] = 'raises'
        return out

    jobs = [c + (o,) for c, o in zip(cases, explore.pmap(spec3, cases))]
    for job, (steps, bad) in zip(jobs, explore.pmap(container_histories, jobs, progress='containers')):
        if job[5]['read'] == job[5]['again'] and not job[0].startswith('upsampled'):
            r.note(**{f'insensitive_{job[0]}': True})
        for k in range(12):
            r.state(('container', job[0], k))
        r.step(steps)
        r.trace(12)
        for h, what in bad:
            r.violation(f'container|{job[0]}|{h}', f'{what} differs after: {h}', [job[0], h])
    r.say(f'{len(jobs)} containers')

    # 4. models that differ in little: nothing computed for one may serve the other
    for s in neighbour_spaces(thorough):
        base = explore.pmap(lambda _: s.fresh(()), [0])[0]
        jobs = list(range(len(s.ops)))
        for i, (n, bad) in zip(jobs, explore.pmap(lambda i: neighbours(s, i, base), jobs, chunk=2, progress=f'neighbours of {s.name}')):
            r.state(('neighbours', s.name, i))
            r.step(n)
            r.trace(2)
            for h, what in bad:
                r.violation(f'neighbours|{s.name}|{h}', what, [s.name, h])
        r.say(f'{s.name}: {len(jobs)} neighbours')
    r.assumptions += ['arrays returned by a model are not written to by the caller']
    return r.finish()
