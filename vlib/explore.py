"""Fork-based exploration of the real implementation.

* `pmap(fn, items)`   every item is evaluated in its own process, forked from the
  pristine parent (onepower imported, nothing ever constructed), so no result can
  be influenced by another one through module-level state.
* `branch(fn)`        inside such a process: snapshot the current program state by
  forking, run `fn` in the copy, return its (pickled) result.  This is what makes
  the depth-first exploration of histories cheap: a common prefix is executed once
  and every continuation starts from the very same live object state.
"""

import multiprocessing as mp
import os
import pickle
import struct
import sys
import time
import traceback

NPROC = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 1))


class ChildError(RuntimeError):
    pass


def _read_exact(fd, n):
    out = b''
    while len(out) < n:
        c = os.read(fd, min(1 << 20, n - len(out)))
        if not c:
            raise EOFError
        out += c
    return out


def branch(fn, *args):
    """Run fn(*args) in a forked copy of this process and return its result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = (True, fn(*args))
            except BaseException:
                res = (False, traceback.format_exc())
            data = pickle.dumps(res, protocol=pickle.HIGHEST_PROTOCOL)
            data = struct.pack('<Q', len(data)) + data
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        try:
            (n,) = struct.unpack('<Q', _read_exact(r, 8))
            data = _read_exact(r, n)
        except EOFError:
            _, st = os.waitpid(pid, 0)
            pid = None
            raise ChildError(f'child died without an answer (status {st})') from None
    finally:
        os.close(r)
        if pid is not None:
            os.waitpid(pid, 0)
    ok, val = pickle.loads(data)
    if not ok:
        raise ChildError(val)
    return val


def _worker(fn, items, counter, conn, chunk):
    try:
        while True:
            with counter.get_lock():
                i0 = counter.value
                counter.value += chunk
            if i0 >= len(items):
                break
            for i in range(i0, min(i0 + chunk, len(items))):
                try:
                    res = ('ok', branch(fn, items[i]))
                except BaseException:
                    res = ('err', traceback.format_exc())
                conn.send((i, res))
        conn.send(None)
    finally:
        conn.close()


def pmap(fn, items, chunk=1, progress=None):
    """Evaluate fn on every item, each in a fresh fork; results in item order."""
    items = list(items)
    out = [None] * len(items)
    if not items:
        return out
    n = min(NPROC, len(items))
    ctx = mp.get_context('fork')
    counter = ctx.Value('q', 0)
    conns, procs = [], []
    for _ in range(n):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(fn, items, counter, b, chunk), daemon=False)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    live = set(conns)
    done = 0
    last = time.time()
    errs = []
    while live:
        for c in mp.connection.wait(list(live)):
            try:
                m = c.recv()
            except EOFError:
                live.discard(c)
                continue
            if m is None:
                live.discard(c)
                continue
            i, (st, val) = m
            done += 1
            if st == 'err':
                errs.append((i, val))
            else:
                out[i] = val
            if progress and time.time() - last > 20:
                last = time.time()
                print(f'  .. {progress}: {done}/{len(items)}', flush=True)
    for p in procs:
        p.join()
    if errs:
        raise ChildError(f'{len(errs)} tasks failed; first: item {errs[0][0]}: {errs[0][1]}')
    if done != len(items):
        raise ChildError(f'only {done} of {len(items)} tasks answered')
    return out
