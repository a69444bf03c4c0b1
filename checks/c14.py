"""C14: what is not allowed is rejected however it is reached, and leaves nothing behind."""

import copy
import itertools

import numpy as np

from vlib import explore, fakeemu, observe as ob, space as sp

from . import c02, c04

MODES = [None, 'bnl', 'hmcode', 'fortuna', 'nonsense', '']
INGR = [None, 'mead2020', 'mead2020_feedback', 'fit', 'nonsense', 'mead2016']


def allowed(mode, ingr):
    return (
        mode in (None, 'bnl', 'hmcode', 'fortuna')
        and ingr in (None, 'mead2020', 'mead2020_feedback', 'fit')
        and not (mode == 'hmcode' and ingr in (None, 'fit'))
    )


def base(**kw):
    return sp.spectra_base(beta_nl=sp.beta_nl(), **kw)


TOP = ['power_spectrum_mm']


def tell(e):
    return type(e).__name__


# -------------------------------------------------- 1. the two selectors as an automaton
def selector_histories(start, oracle, thorough):
    """Every sequence of two selector updates from `start`, then back to an allowed pair."""
    from onepower import Spectra

    bad, steps, states = [], 0, set()
    targets = {start, (None, None), ('hmcode', 'mead2020')} & set(oracle)
    try:
        obj = Spectra(**base(nonlinear_mode=start[0], hmcode_ingredients=start[1]))
        ok = True
    except ValueError:
        ok = False
    except Exception as e:
        return [((start,), f'construction raises {tell(e)} instead of ValueError')], 1, {start}
    if ok != allowed(*start):
        return [((start,), f'construction {"accepts" if ok else "rejects"} {start}')], 1, {start}
    states.add(start)
    if not ok:
        return bad, 1, states
    ob.observe(obj, TOP)
    moves = [dict(nonlinear_mode=m) for m in MODES] + [dict(hmcode_ingredients=i) for i in INGR]
    moves += [dict(nonlinear_mode=m, hmcode_ingredients=i) for m in MODES for i in INGR]

    def move(now, kw):
        """Returns (state after, problem)."""
        want = (kw.get('nonlinear_mode', now[0]), kw.get('hmcode_ingredients', now[1]))
        try:
            obj.update(**kw)
            done = True
        except ValueError:
            done = False
        except Exception as e:
            return None, f'update({kw}) from {now} raises {tell(e)} instead of ValueError'
        if done != allowed(*want):
            return None, f'update({kw}) from {now} is {"accepted" if done else "rejected"}'
        return (want if done else None), None

    for kw in moves:

        def go():
            out, n, seen = [], 1, set()
            now, why = move(start, kw)
            if why:
                return [((start, str(kw)), why)], n, seen
            if now is not None:
                seen.add(now)
                d = ob.diff(ob.observe(obj, TOP), oracle[now])
                if d:
                    out.append(((start, str(kw)), f'{d} differs from a fresh model'))
            # from there (also after a rejection): to every allowed pair
            for to in (oracle if thorough else targets):

                def back():
                    try:
                        obj.update(nonlinear_mode=to[0], hmcode_ingredients=to[1])
                    except Exception as e:
                        return f'update to the allowed {to} raises {tell(e)}: {e}'
                    d = ob.diff(ob.observe(obj, TOP), oracle[to])
                    return f'{d} differs from a fresh model' if d else None

                n += 1
                if kw.get('nonlinear_mode', 'x') in ('nonsense', '') or kw.get('hmcode_ingredients') in ('nonsense', 'mead2016') or now is None or to == start:
                    w = explore.branch(back)
                    if w:
                        out.append(((start, str(kw), to), w))
            return out, n, seen

        b, n, s = explore.branch(go)
        bad += b
        steps += n
        states |= s
    return bad, steps, states


# ----------------------------------------------------------------- 2. individual demands
def demands():
    """(name, class or builder, base configuration, forbidden change, readings, any exception type?)

    The change must be refused: by construction/update, or by every one of the readings.
    """
    from onepower import HaloModelIngredients, Spectra, UpsampledSpectra
    from onepower.ia import AlignmentAmplitudes, SatelliteAlignment

    S = 'power_spectrum_'
    gal, ia = [S + 'gg', S + 'gm'], [S + 'mi', S + 'ii']
    allp = [S + x for x in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')]
    uneven = sp.K.copy()
    uneven[4] *= 1.25
    lin = np.linspace(0.01, 10, sp.NK)
    out = []

    def add(cls, cfg, change, reads):
        out.append((f'{getattr(cls, "__name__", "?")}:{"+".join(change)}#{len(out)}', cls, cfg, change, reads))

    b = sp.spectra_base
    for k in (uneven, lin):
        add(Spectra, b(dewiggle=True), dict(k_vec=k), allp + [S + 'lin'])
        add(Spectra, b(k_vec=k), dict(dewiggle=True), [S + 'mm', S + 'lin'])
        add(Spectra, b(k_vec=k), dict(nonlinear_mode='hmcode', hmcode_ingredients='mead2020'), [S + 'mm', S + 'lin'])
    for shape in ((sp.NZ, sp.NK - 1), (sp.NZ + 1, sp.NK), (sp.NK, sp.NZ)):
        t = np.ones(shape)
        add(Spectra, b(), dict(matter_power_lin=t), allp + [S + 'lin'])
        add(Spectra, b(response=True, matter_power_nl=sp.pnl()), dict(matter_power_nl=t), [S + 'mm', S + 'gg', S + 'gm', S + 'mi'])
        add(Spectra, b(nonlinear_mode='fortuna', matter_power_nl=sp.pnl()), dict(matter_power_nl=t), [S + 'mi', S + 'ii', 'peff'])
    add(Spectra, b(matter_power_lin=sp.plin()), dict(z_vec=np.array([0.1, 0.2, 0.3])), [S + 'mm', S + 'lin'])
    add(Spectra, b(matter_power_lin=sp.plin()), dict(k_vec=sp.K[:-1]), [S + 'mm', S + 'lin'])
    for m in ('Nonsense', 'cacciato', ''):
        add(Spectra, b(), dict(hod_model=m), gal)
        add(Spectra, b(), dict(poisson_model=m), gal)
    add(Spectra, b(), dict(hod_params={'no_such_parameter': 1.0}), gal + ia)
    add(Spectra, b(hod_model='Zheng', hod_params={'sigma': 0.3}), dict(hod_model='Cacciato'), gal)
    add(Spectra, b(), dict(hod_params={'log10_Mmin': 12.0}), gal)
    add(Spectra, b(poisson_params={}), dict(poisson_model='power_law'), [S + 'gg'])
    add(Spectra, b(poisson_model='power_law', poisson_params={'pivot': 13.0, 'slope': 0.1}), dict(poisson_params={'pivot': None}), [S + 'gg'])
    add(Spectra, b(), dict(poisson_params={'slope': 0.2}), [S + 'gg'])
    for name in ('hod_params', 'poisson_params', 'align_params', 'transfer_params', 'growth_params'):
        add(Spectra, b(), {name: [1.0]}, allp)
    al = dict(sp.ALIGN)
    add(Spectra, b(), dict(align_params={'central_ia_depends_on': 'colour'}), ia)
    add(Spectra, b(), dict(align_params={'satellite_ia_depends_on': 'mass'}), ia)
    add(Spectra, b(), dict(align_params={'central_ia_depends_on': 'luminosity'}), ia)
    add(Spectra, b(), dict(align_params={'satellite_ia_depends_on': 'luminosity', 'lpivot_sat': 10.0}), ia)
    add(Spectra, b(), dict(align_params={'central_ia_depends_on': 'halo_mass', 'mpivot_cen': None}), ia)
    add(Spectra, b(), dict(align_params={'satellite_ia_depends_on': 'halo_mass', 'mpivot_sat': None}), ia)
    add(Spectra, b(), dict(align_params={'central_ia_depends_on': 'halo_mass', 'beta_two': 1.0}), ia)
    add(Spectra, b(), dict(align_params={'ell_max': 12}), ia)
    add(Spectra, b(), dict(align_params={'no_such_parameter': 3}), ia)
    for m in ('hmf_model', 'bias_model', 'mdef_model', 'halo_profile_model_dm', 'halo_profile_model_sat', 'halo_concentration_model_dm',
              'halo_concentration_model_sat', 'transfer_model', 'growth_model'):  # fmt: skip
        rd = {'sat': ['u_sat'], 'dm': ['u_dm']}.get(m.split('_')[-1], ['mass', 'dndlnm', 'halo_bias'] if m != 'bias_model' else ['halo_bias'])
        if m in ('mdef_model', 'growth_model', 'transfer_model', 'hmf_model'):
            rd = ['dndlnm', 'halo_bias']
        add(HaloModelIngredients, dict(sp.GRID), {m: 'NoSuchModel'}, rd)
        add(Spectra, b(), {m: 'NoSuchModel'}, [S + 'gg'] if 'sat' in m else [S + 'mm', S + 'gm'])
    add(HaloModelIngredients, dict(sp.GRID), dict(hmcode_ingredients='mead2016'), ['dndlnm'])
    add(HaloModelIngredients, dict(sp.GRID), dict(growth_params={'no_such_parameter': 1.0}), ['dndlnm'])
    for cls, cfg in ((HaloModelIngredients, dict(sp.GRID)), (Spectra, b())):
        add(cls, cfg, dict(no_such_parameter=1.0), [])
    a = dict(c02.align_inputs(0), nmass=4, ell_max=4, beta_sat=0.3, mpivot_sat=13.4, beta_cen=0.4, mpivot_cen=13.2)
    lum = dict(z_loglum_file_centrals=c02.catalogue(0), z_loglum_file_satellites=c02.catalogue(1), lpivot_cen=10.0, lpivot_sat=10.1)
    hm = dict(central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass')
    lm = dict(central_ia_depends_on='luminosity', satellite_ia_depends_on='luminosity')
    for cls, drop in ((SatelliteAlignment, ()), (AlignmentAmplitudes, ('mass_in', 'c_in', 'r_s_in', 'rvir_in', 'nmass', 'ell_max'))):
        aa = {k: v for k, v in a.items() if k not in drop}
        for v in ('colour', '', None, 'Luminosity'):
            add(cls, dict(aa, **hm), dict(central_ia_depends_on=v), ['alignment_gi'])
            add(cls, dict(aa, **hm), dict(satellite_ia_depends_on=v), ['gamma_1h_amp'])
        add(cls, dict(aa, **hm), dict(mpivot_cen=None), ['alignment_gi'])
        add(cls, dict(aa, **hm), dict(mpivot_sat=None), ['gamma_1h_amp'])
        add(cls, dict(aa, **hm), dict(beta_two=1.0), ['alignment_gi'])
        add(cls, dict(aa, **lm, **lum), dict(lpivot_cen=None), ['alignment_gi'])
        add(cls, dict(aa, **lm, **lum), dict(lpivot_sat=None), ['gamma_1h_amp'])
        add(cls, dict(aa, **lm, **lum), dict(z_loglum_file_centrals=None), ['alignment_gi'])
        add(cls, dict(aa, **lm, **lum), dict(z_loglum_file_satellites=None), ['gamma_1h_amp'])
    for v in (12, 14, 100):
        add(SatelliteAlignment, dict(a), dict(ell_max=v), ['wkm_f_ell'])
    for v in ('quad', 'FFTLog', None):
        add(SatelliteAlignment, dict(a), dict(method=v), ['wkm_f_ell'])
    for v in (13, 40):
        add(SatelliteAlignment, dict(a, method='hankel', n_hankel=8, nk=4), dict(nmass=v), ['mass', 'c', 'r_s', 'rvir'])
    for s in c02.bias_spaces():
        if s.name == 'bias':
            from onepower.bnl import NonLinearBias

            add(NonLinearBias, dict(s.base), dict(sigma_8=None), ['bnl'])
    add(UpsampledSpectra, dict(z=sp.Z, k=sp.K, model_1_params=c02.small()), dict(fraction=np.array([0.2, 0.4, 0.6]), fraction_z=np.array([0.0, 1.0])), [])
    return out


def reading(obj, q):
    try:
        if hasattr(obj, 'results'):
            obj.results(['gg'], ['tot'])
        else:
            v = getattr(obj, q)
            del v
    except Exception:
        return None
    return f'{q} answers'


def demand(case):
    """The same forbidden change by construction, by update after reading, by update before reading, by clone."""
    name, cls, cfg, change, reads, want = case
    bad, n = [], 0
    if hasattr(cls, 'results'):
        reads = ['results']

    def full():
        c = copy.deepcopy(cfg)
        for k, v in change.items():
            c = sp.apply_update(c, k, copy.deepcopy(v)) if k in c else dict(c, **{k: copy.deepcopy(v)})
        return c

    def judge(how, obj):
        for q in reads:
            w = reading(obj, q)
            if w:
                bad.append((how, w + ' although the request is not allowed'))
        # the second time as well
        for q in reads[:1]:
            w = reading(obj, q)
            if w:
                bad.append((how + ', read twice', w + ' although the request is not allowed'))

    try:
        obj = cls(**full())
        if not reads:
            bad.append(('construction', 'accepted'))
        judge('construction', obj)
    except Exception:
        pass
    n += 1
    for how in ('update, everything read before', 'update, nothing read before', 'clone'):
        obj = cls(**copy.deepcopy(cfg))
        if how.endswith('read before') and how.startswith('update, everything'):
            c04.see(obj)
        rejected = False
        try:
            if how == 'clone':
                twin = obj.clone(**copy.deepcopy(change))
                if not reads:
                    bad.append((how, 'accepted'))
                judge(how, twin)
            else:
                obj.update(**copy.deepcopy(change))
                if not reads:
                    bad.append((how, 'accepted'))
                judge(how, obj)
        except Exception:
            rejected = True
        n += 1
        # put it right again: nothing may be left behind
        if how != 'clone':
            try:
                for k in change:
                    if k not in cfg:
                        continue
                    v = copy.deepcopy(cfg[k])
                    if isinstance(v, dict):
                        obj.update(**{k: {}})
                        if v:
                            obj.update(**{k: v})
                    else:
                        obj.update(**{k: v})
            except Exception as e:
                bad.append((how, f'allowed parameters are refused afterwards: {tell(e)}: {e}'))
                continue
            n += 1
            if all(k in cfg for k in change) and not rejected or all(k in cfg and not isinstance(cfg[k], dict) for k in change):
                d = ob.diff(c04.see(obj), want)
                if d:
                    bad.append((how + ', put right', f'{", ".join(d[:5])} differs from a fresh model'))
    return bad, n


def defaults_of(cls):
    import inspect

    d = {}
    for c in reversed(cls.__mro__):
        if '__init__' in vars(c) and c is not object:
            for n, p in inspect.signature(c.__init__).parameters.items():
                if p.default is not p.empty:
                    d[n] = p.default
    return d


def run(r):
    fakeemu.install()
    pairs = list(itertools.product(MODES, INGR))
    good = [p for p in pairs if allowed(*p)]

    def fresh(p):
        from onepower import Spectra

        return ob.observe(Spectra(**base(nonlinear_mode=p[0], hmcode_ingredients=p[1])), TOP)

    oracle = dict(zip(good, explore.pmap(fresh, good)))
    for p, (bad, steps, states) in zip(pairs, explore.pmap(lambda p: selector_histories(p, oracle, r.tier == 'thorough'), pairs, progress='selectors')):
        for s in states:
            r.state(('selectors', p, s))
        r.step(steps)
        r.trace(steps)
        for h, what in bad:
            r.violation('selectors|' + '|'.join(map(str, h)), what, [str(x) for x in h])
    r.sample({'history': ['construct (None, None)', "update(nonlinear_mode='hmcode') refused", "update(both) to ('hmcode', 'mead2020')"]})
    r.say(f'{len(pairs)} starting pairs')

    cases = []
    for name, cls, cfg, change, reads in demands():
        d = defaults_of(cls)
        cfg = dict(cfg)
        for k in change:
            if k not in cfg and k in d:
                cfg[k] = {} if d[k] is None and k.endswith('_params') else d[k]
        cases.append((name, cls, cfg, change, reads))
    want = explore.pmap(lambda c: c04.see(c[1](**copy.deepcopy(c[2]))), cases, progress='fresh')
    jobs = [c + (w,) for c, w in zip(cases, want)]
    for c, (bad, n) in zip(cases, explore.pmap(demand, jobs, progress='demands')):
        r.state(('demand', c[0]))
        r.step(n)
        r.trace(n)
        for how, what in bad:
            r.violation(f'{c[0]}|{how}', f'{c[0]}: {how}: {what}', [c[0], str(c[3])[:200], how])
        r.sample({'demand': c[0], 'change': str(c[3])[:100]}, limit=5)
    r.say(f'{len(cases)} forbidden requests')
    return r.finish()
