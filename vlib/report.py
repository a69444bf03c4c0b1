"""Bookkeeping shared by all checks: evidence, violations, known findings, exit code."""

import json
import os
import sys
import time

from . import boot

KNOWN = os.path.join(boot.VERIF, 'known_findings.jsonl')


def jsonable(x, depth=0):
    import numpy as np

    if isinstance(x, (str, bool, int, float)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        if x.size <= 24:
            return x.tolist()
        return {'array': list(x.shape), 'first': x.ravel()[:6].tolist()}
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)


ENOUGH = 100  # violations after which the remaining stages of a check add nothing


class Enough(Exception):
    pass


class Run:
    def __init__(self, pid, tier, level='model_checking'):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if not line or line.startswith(('#', '"fixed', 'fixed:')):
                    continue
                e = json.loads(line)
                if e.get('property') == pid and e.get('kind') == 'known':
                    self.known[e['key']] = e

    # ------------------------------------------------------------ counting
    def state(self, key):
        self.states.add(key)

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(x))

    def note(self, **kw):
        self.extra.update(kw)

    def say(self, *a):
        print(f'[{self.pid} {time.time() - self.t0:6.1f}s]', *a, flush=True)

    # ---------------------------------------------------------- violations
    def violation(self, key, what, history, detail=None):
        """`key` identifies the specific failing input / history."""
        if key in self.known:
            self.known_hits.setdefault(key, what)
            return
        self.violations.append(
            {'property': self.pid, 'key': key, 'what': what, 'history': jsonable(history), 'detail': jsonable(detail)}
        )
        if len(self.violations) >= ENOUGH:
            raise Enough

    def finish(self, complete=True):
        ev = os.path.join(boot.VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        cov = {
            'states': len(self.states),
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'samples': self.samples or ['none'],
            'exhaustive': bool(complete),
        }
        if self.level in ('fault_enumeration', 'exploration'):
            cov.update(
                evaluations=self.transitions,
                distinct_nontrivial=len(self.states),
            )
        cov.update(jsonable(self.extra))
        doc = {
            'property': self.pid,
            'tier': self.tier,
            'seed': self.seed,
            'level': self.level,
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        path = os.path.join(ev, f'{self.pid}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(doc, f, indent=1)
        os.replace(path + '.tmp', path)
        self.say(
            f'states={len(self.states)} transitions={self.transitions} '
            f'traces={self.traces} violations={len(self.violations)}'
        )
        for key, e in self.known.items():
            if key in self.known_hits:
                print(f'KNOWN-FINDING: property={self.pid} {e["what"]}', flush=True)
        if not self.violations:
            return 0
        rp = os.path.join(ev, f'{self.pid}.replay.json')
        with open(rp, 'w') as f:
            json.dump({'property': self.pid, 'violations': self.violations[:50]}, f, indent=1)
        for v in self.violations[:8]:
            print(f'  violated: {v["what"]}  history={json.dumps(v["history"])[:400]}', flush=True)
        if len(self.violations) > 8:
            print(f'  ... and {len(self.violations) - 8} more', flush=True)
        print(f'VIOLATION property={self.pid} replay={rp}', flush=True)
        return 1


def fail_without_evidence(pid, tier, text):
    """The tree cannot even be exercised (import or construction fails)."""
    r = Run(pid, tier)
    r.state('unusable')
    r.step()
    r.trace()
    r.sample(text[-400:])
    r.violation('unusable', 'the code under test cannot be exercised: ' + text.strip().splitlines()[-1], [text[-2000:]])
    return r.finish(False)


def main_exit(code):
    sys.stdout.flush()
    sys.stderr.flush()
    boot.cleanup()
    os._exit(code)
