"""C05: a computation that is interrupted anywhere leaves the model as if it had never been started."""

import copy
import sys

from vlib import explore, fakeemu, observe as ob, space as sp

from . import c02, c04


class Fault(Exception):
    pass


class Stop(BaseException):
    pass


def inside(code):
    return '/onepower/' in code.co_filename and '/verif' not in code.co_filename


class Injector:
    """Counts the points at which /repo's code can be interrupted; raises at one of them.

    A point is the entry of a function (every time, or the first `entries` times) or a source line (its first execution).
    """

    def __init__(self, at=None, exc=None, lines=True, entries=None):
        self.at, self.exc, self.lines, self.entries = at, exc, lines, entries
        self.calls = {}
        self.n, self.seen, self.where = 0, set(), None

    def point(self, frame):
        self.n += 1
        if self.n == self.at:
            self.where = f'{frame.f_code.co_name}:{frame.f_lineno - frame.f_code.co_firstlineno}'
            sys.settrace(None)
            raise self.exc('injected')

    def call(self, frame, event, arg):
        if event != 'call' or not inside(frame.f_code):
            return None
        n = self.calls[frame.f_code] = self.calls.get(frame.f_code, 0) + 1
        if self.entries is None or n <= self.entries:
            self.point(frame)
        return self.line if self.lines else None

    def line(self, frame, event, arg):
        if event == 'line':
            key = (frame.f_code, frame.f_lineno)
            if key not in self.seen:
                self.seen.add(key)
                self.point(frame)
        return self.line

    def run(self, fn):
        sys.settrace(self.call)
        try:
            return fn()
        finally:
            sys.settrace(None)


class Subject:
    def __init__(self, name, build, base, reads, update, lines=True):
        self.name, self.build, self.base, self.reads, self.update, self.lines = name, build, base, reads, update, lines

    def make(self, changes=()):
        c = copy.deepcopy(self.base)
        for ch in changes:
            for k, v in ch.items():
                c = sp.apply_update(c, k, v)
        return self.build(copy.deepcopy(c))

    def read(self, obj, q):
        if q == 'update':
            obj.update(**copy.deepcopy(self.update))
        elif q == 'results':
            obj.results(c02.MODES, c02.COMP)
        elif q == 'all':
            c04.see(obj)
        else:
            getattr(obj, q)

    def start(self, q):
        """The live object just before the interrupted operation, and that operation."""
        obj = self.make()
        if q.startswith('recompute'):
            c04.see(obj)
            obj.update(**copy.deepcopy(self.update))
            return obj, 'all' if q == 'recompute' else q.split(':')[1]
        if q == 'update':
            c04.see(obj)
        return obj, q

    def after(self, q):
        """Parameter changes in force when the interrupted operation has been repeated."""
        return [self.update] if q.startswith(('recompute', 'update')) else []


def subjects(thorough):
    from onepower import HaloModelIngredients, Spectra
    from onepower.ia import SatelliteAlignment

    def build(cfg):
        return Spectra(**cfg)

    reads = ['power_spectrum_mm', 'power_spectrum_gg', 'power_spectrum_ii', 'recompute']
    upd = {
        'plain': dict(omega_c=0.22, align_params={'beta_sat': 0.9}),
        'bnl': dict(beta_nl=sp.beta_nl(1), hod_params={'A_cen': 0.2}),
        'hmcode': dict(hmcode_ingredients='mead2020', m_nu=0.2),
        'fortuna': dict(t_eff=0.5, matter_power_lin=sp.plin(1)),
        'response': dict(matter_power_nl=sp.pnl(2), response=False),
    }
    for name, kw in sp.BASES.items():
        yield Subject(f'spectra-{name}', build, sp.spectra_base(**kw), reads if name == 'plain' or thorough else ['power_spectrum_mm', 'recompute'], upd[name],
                      lines=thorough or name == 'plain')
    yield Subject('bins', build, sp.spectra_base(hod_settings=sp.settings(0, 2), compute_observable=True), ['obs_func', 'power_spectrum_gi', 'power_spectrum_gm'], dict(hod_settings=sp.settings(1, 3)), lines=thorough)
    yield Subject('ingredients', lambda c: HaloModelIngredients(**c), dict(sp.GRID, hmcode_ingredients='mead2020_feedback'), ['all', 'update'], dict(hmcode_ingredients='mead2020'))
    a = dict(c02.align_inputs(0), nmass=4, ell_max=4, beta_sat=0.3, mpivot_sat=13.4, beta_cen=0.4, mpivot_cen=13.2,
             central_ia_depends_on='luminosity', satellite_ia_depends_on='luminosity', lpivot_cen=10.2, lpivot_sat=10.0, beta_two=0.8,
             z_loglum_file_centrals=c02.catalogue(0), z_loglum_file_satellites=c02.catalogue(1))  # fmt: skip
    yield Subject('alignment', lambda c: SatelliteAlignment(**c), a, ['all', 'recompute'], dict(z_loglum_file_centrals=c02.catalogue(2), gamma_1h_slope=-1.7))
    for s in c02.bias_spaces():
        if s.name == 'bias-z':
            yield Subject('bias', s.build, s.base, ['all', 'recompute'], dict(h0=0.7, z_dep=False))
    for s in c02.upsampled_spaces():
        if s.name == 'upsampled':
            yield Subject('upsampled', s.build, s.base, ['results', 'recompute'], dict(fraction=s.base['fraction'] * 0.3, k=s.base['k'] * 1.2), lines=thorough)


def run(r):
    fakeemu.install()
    r.level = 'fault_enumeration'
    thorough = r.tier == 'thorough'
    entries = None if thorough else 1
    total = 0
    for subj in subjects(thorough):
        want = {}
        for q in subj.reads:
            key = bool(subj.after(q))
            if key not in want:
                want[key] = explore.pmap(lambda k: c04.see(subj.make([subj.update] if k else [])), [key])[0]
        # what follows an interruption: repeat and read all, or change something else first
        for q in subj.reads:

            def count(_):
                obj, op = subj.start(q)
                inj = Injector(lines=subj.lines, entries=entries)
                inj.run(lambda: subj.read(obj, op))
                return inj.n

            n = explore.pmap(count, [0])[0]
            points = list(range(1, n + 1))
            # consecutive points share the prefix: walk each block in one process, forking at every point
            size = max(1, len(points) // (explore.NPROC * 3))
            blocks = [points[i : i + size] for i in range(0, len(points), size)]

            def block(pts):
                out, ran, where = [], 0, set()
                obj, op = subj.start(q)
                for at in pts:
                    for exc in (Fault, Stop) if thorough or at % 2 else (Stop, Fault):

                        def go():
                            inj = Injector(at, exc, subj.lines, entries)
                            try:
                                inj.run(lambda: subj.read(obj, op))
                                return (None, inj.where)
                            except (Fault, Stop):
                                pass
                            if exc is Stop and op == 'all':
                                subj.read(obj, op)
                            d = ob.diff(c04.see(obj), want[bool(subj.after(q))]) if op != 'update' else None
                            if op == 'update':
                                subj.read(obj, op)
                                d = ob.diff(c04.see(obj), want[True])
                            elif not d and (thorough or (q != 'recompute' and at % 3 == 0)):
                                # the bookkeeping must be intact as well: later changes are noticed
                                obj.update(**copy.deepcopy(subj.update))
                                d = ob.diff(c04.see(obj), spec_upd)
                            return (d, inj.where)

                        try:
                            d, w = explore.branch(go)
                        except explore.ChildError as e:
                            d, w = ['raises ' + str(e).strip().splitlines()[-1]], None
                        ran += 1
                        where.add(w)
                        if d:
                            out.append((at, exc.__name__, w, d[:4]))
                        if not thorough:
                            break
                return out, ran, where

            spec_upd = want.get(True)
            if spec_upd is None:
                spec_upd = want[True] = explore.pmap(lambda _: c04.see(subj.make([subj.update])), [0])[0]
            for out, ran, where in explore.pmap(block, blocks, progress=f'{subj.name}:{q}'):
                r.step(ran)
                r.trace(ran)
                total += ran
                for w in where:
                    r.state((subj.name, q, w))
                for at, e, w, d in out:
                    r.violation(f'{subj.name}|{q}|{e}|{w}', f'{subj.name}: after {e} at {w} while reading {q}: {", ".join(d)}', [subj.name, q, e, w, at])
            r.sample({'object': subj.name, 'operation': q, 'points': n}, limit=30)
            r.say(f'{subj.name}: {q}: {n} points')
    r.note(rule='one execution per interruption point: every entry of a function (quick tier: the first) and the first execution of every source line of the package, '
                'during the given operation; distinct = different function and line', injected=total)
    r.assumptions += ['one interruption per history; the interrupted operation is repeated or the parameters changed afterwards']
    return r.finish()
