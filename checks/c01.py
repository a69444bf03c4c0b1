"""C01: whatever was updated and read before, a Spectra model answers like a fresh one."""

import numpy as np

from vlib import explore, fakeemu, histories as hi, observe as ob, space as sp

# parameters that select which other parameters matter
SWITCHES = [
    'nonlinear_mode', 'hmcode_ingredients', 'response', 'dewiggle', 'pointmass', 'compute_observable',
    'matter_power_lin', 'matter_power_nl', 'beta_nl', 'hod_model', 'poisson_model', 'mdef_model',
    'transfer_model', 'one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia',
]  # fmt: skip
# per further base: the updates that leave and (by undoing) re-enter its regime
LEAVE = {
    'bnl': ['nonlinear_mode', 'beta_nl', 'compute_observable', 'hmcode_ingredients'],
    'hmcode': ['nonlinear_mode', 'hmcode_ingredients'],
    'fortuna': ['nonlinear_mode', 'pointmass', 'matter_power_lin'],
    'response': ['response', 'matter_power_nl', 'dewiggle'],
}
TOP = ['power_spectrum_mm', 'power_spectrum_gg', 'power_spectrum_gm', 'power_spectrum_mi', 'power_spectrum_ii',
       'power_spectrum_gi', 'power_spectrum_lin', 'obs_func', 'mass', 'hod', 'fstar_mm', 'wkm_sat']  # fmt: skip


def build(cfg):
    from onepower import Spectra

    return Spectra(**cfg)


# joint updates that leave the obvious summaries (total matter, grid sizes, ...) as they are
COMPENSATING = [
    dict(omega_c=0.26, omega_b=0.04), dict(Mmin=11.25, Mmax=15.75), dict(lnk_min=np.log(1e-3) - 0.5, lnk_max=np.log(60.0) - 0.5),
    dict(norm_cen=1.1, norm_sat=0.9), dict(eta_cen=0.1, eta_sat=-0.1), dict(halo_profile_model_dm='Hernquist', halo_profile_model_sat='Hernquist'),
    dict(h0=0.7 * 1.1, omega_c=0.25 / 1.21, omega_b=0.05 / 1.21), dict(w0=-0.9, wa=-0.1), dict(sigma_8=0.8 * 1.02, h0=0.7 / 1.02),
    dict(z_vec=np.array([0.1, 0.5])), dict(z_vec=np.array([0.2, 0.45])), dict(k_vec=np.logspace(-2.5, 1.0, sp.NK)), dict(k_vec=np.logspace(-2.0, 1.2, sp.NK)),
    dict(z_vec=np.array([0.1, 0.5]), k_vec=np.logspace(-2.4, 1.3, sp.NK)), dict(Mmin=11.25, Mmax=15.75, k_vec=np.logspace(-2.4, 1.3, sp.NK)),
    dict(matter_power_lin=sp.pnl(), matter_power_nl=sp.plin()), dict(one_halo_ktrunc=0.3, two_halo_ktrunc=3.0, one_halo_ktrunc_ia=6.0, two_halo_ktrunc_ia=4.0),
    dict(nonlinear_mode='hmcode', hmcode_ingredients='mead2020'), dict(nonlinear_mode=None, hmcode_ingredients=None), dict(nonlinear_mode='fortuna', hmcode_ingredients='fit'),
    dict(hod_model='Zheng', hod_settings=sp.settings(1)), dict(hod_settings=sp.settings(1), hod_settings_mm=sp.settings(0)),
    dict(hod_model='Zhai', hod_params={'A_cen': 0.2}), dict(mdef_model='SOVirial', overdensity=300.0), dict(response=True, dewiggle=True), dict(response=False, nonlinear_mode=None),
]  # fmt: skip


def space(name):
    base = sp.spectra_base(**sp.BASES[name])
    import inspect

    from onepower import Spectra
    from onepower.hmi import CosmologyBase, HaloModelIngredients

    # spell out the defaults, so that every parameter can be undone
    for cls in (CosmologyBase, HaloModelIngredients, Spectra):
        for n, p in inspect.signature(cls.__init__).parameters.items():
            if p.default is not p.empty and n not in base and n in sp.ALPHABET:
                base[n] = p.default
    ops = [(n, v) for n, vs in sp.ALPHABET.items() for v in vs if not sp.same(base.get(n, '?'), v)]
    return hi.Space(name, build, base, ops)


def subtle(name, s):
    from onepower import hod

    b = dict(s.base, hod_params={**hod.Cacciato._defaults, **s.base['hod_params']} if s.base.get('hod_params') else dict(hod.Cacciato._defaults))
    ops = hi.inconspicuous(b) + [(hi.JOINT, {n: v for n, v in d.items() if not sp.same(s.base.get(n, '?'), v)}) for d in COMPENSATING]
    ops = [o for o in ops if o[0] != hi.JOINT or o[1]]
    return hi.Space(name + '-subtle', build, s.base, ops)


def run(r):
    fakeemu.install()
    thorough = r.tier == 'thorough'
    viol = []
    outcomes = set()
    for name in sp.BASES:
        s = space(name)
        allops = range(len(s.ops))
        if thorough:
            firsts = list(allops)
        else:
            # one way of moving each switch (all of them for the two mode selectors)
            firsts, seen = [], set()
            for i in allops:
                n, v = s.ops[i]
                if n not in (SWITCHES if name == 'plain' else LEAVE[name]):
                    continue
                if n in seen and not (
                    name in ('plain', 'hmcode') and n in ('nonlinear_mode', 'hmcode_ingredients', 'mdef_model')
                ):
                    continue
                seen.add(n)
                firsts.append(i)
        paths = [()] + [(i,) for i in allops]
        paths += [(i, j) for i in firsts for j in allops if s.ops[i][0] != s.ops[j][0]]
        s.compute_oracles(paths, progress=f'{name}: fresh models')
        for k, v in s.oracle.items():
            r.state((name, k))
            outcomes.add(hash(repr(sorted(v.items(), key=str)) if isinstance(v, dict) else v))
        r.say(f'{name}: {len(s.ops)} updates, {len(s.oracle)} configurations')

        jobs = [('chain', i) for i in firsts]
        jobs += [('single', i) for i in allops if i not in set(firsts)]
        jobs += [('reads', q) for q in ((TOP if name == 'plain' else TOP[:6]) if not thorough else ob.public_quantities(build(s.base)))]
        jobs += [('reversed', i) for i in firsts[:: 1 if thorough else 6]]
        if thorough or name == 'plain':
            jobs += [('joint', i) for i in (firsts if thorough else firsts[::5])]
        if thorough:
            jobs += [('unread', i) for i in firsts]
        jobs.sort(key=lambda j: j[0] in ('single',))

        def work(job):
            kind, x = job
            if kind == 'chain':
                return hi.explore_from(s, x, allops)
            if kind == 'single':
                return hi.explore_from(s, x, [])
            if kind == 'reversed':
                return hi.explore_from(s, x, [j for j in allops if j > x] if thorough else [], reverse=True)
            if kind == 'reads':
                return hi.explore_reads(s, x, allops)
            return hi.explore_lazy(s, x, allops, kind)

        for job, (out, n) in zip(jobs, explore.pmap(work, jobs, progress=f'{name}: histories')):
            r.step(n['steps'])
            r.trace(n['traces'])
            for hist, what in out:
                viol.append((len(hist), name, hist, what))
        r.sample({'base': name, 'history': [hi.label(s.ops[i]) for i in (firsts + [0])[:2]]})
        t = subtle(name, s)
        allops = range(len(t.ops))
        t.compute_oracles([()] + [(i,) for i in allops], progress=f'{name}: fresh models')
        moved = sum(bool(ob.diff(t.oracle[(i,)], t.oracle[()])) if isinstance(t.oracle[(i,)], dict) else 0 for i in allops)
        r.say(f'{name}: {len(t.ops)} inconspicuous updates, {moved} with an effect')
        for k in t.oracle:
            r.state((t.name, k))
        for i, (out, n) in zip(allops, explore.pmap(lambda i: hi.explore_from(t, i, []), list(allops), progress=f'{name}: inconspicuous')):
            r.step(n['steps'])
            r.trace(n['traces'])
            for hist, what in out:
                viol.append((len(hist), t.name, hist, what))
        r.say(f'{name}: done')
    for _, name, hist, what in sorted(viol, key=lambda v: (v[0], v[1], v[2])):
        r.violation(f'{name}|' + '|'.join(hist), what, [name] + hist)
    r.note(distinct_outcomes=len(outcomes), bases=list(sp.BASES), depth='2 updates + undo, everything read in between')
    r.assumptions += ['Dark Emulator replaced by a deterministic stand-in', 'tiny grids (2 redshifts, 10 wavenumbers, 18 masses), Eisenstein-Hu transfer function']
    return r.finish()
