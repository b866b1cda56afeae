"""One lane of a check: executes simulated runs one after the other in one process.

  python -m fogsim.lane explore PROP SEED LANE NLANES TOTAL PROGRESS_FILE     -> JSON result on stdout
  python -m fogsim.lane shrink FILE OUT                                       -> minimised replay file
  python -m fogsim.lane replay FILE                                           -> JSON outcome on stdout
"""
import gc
import hashlib
import importlib
import json
import os
import pickle
import signal
import struct
import sys
import time
import warnings

import faulthandler

from fogsim.choices import Choices, derive_seed

RUN_WALL_LIMIT = 60

_real_perf = time.perf_counter


def load(prop):
    from fogsim import world
    world.install()
    warnings.simplefilter('ignore')
    mod = importlib.import_module('fogsim.props.' + prop.lower())
    if hasattr(mod, 'setup'):
        mod.setup()
    gc.collect()
    gc.freeze()              # what was imported is not examined again
    return mod


class WallLimit(BaseException):
    pass


def _alarm(signum, frame):
    raise WallLimit()


def execute(mod, choices):
    """One run -> dict(cls=None|str, message, info, world stats)."""
    from fogsim import world as W
    from fogsim.util import where
    w = W.World(choices)
    res = {'cls': None, 'message': None, 'info': None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_WALL_LIMIT)
    try:
        with w:
            try:
                res['info'] = mod.run(choices, w)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except W.Violation as v:
        res['cls'], res['message'] = v.cls, v.message
    except WallLimit:
        res['cls'], res['message'] = 'no-progress', 'the run made no progress for %d s of real time' % RUN_WALL_LIMIT
    except W.SimStop as e:
        res['cls'], res['message'] = 'no-progress', '%s: %s at %s' % (type(e).__name__, e, where(e))
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        res['cls'] = 'harness'
        res['message'] = tb[-3000:]
    res['world'] = w
    return res


def digest(res, choices):
    w = res['world']
    h = hashlib.sha256()
    h.update(repr((res['cls'], res['message'], choices.log, w.trace, w.now, w.draws, w.calls, sorted(w.faults.items()))).encode())
    return h.hexdigest()[:16]


def explore(prop, seed, lane, nlanes, total, progress):
    t0 = _real_perf()
    mod = load(prop)
    fd = os.open(progress, os.O_RDWR | os.O_CREAT)
    stats = dict(runs=0, sim_time=0.0, faults={}, probes={}, draws=0, calls=0, nontrivial=[], samples=[], digests=[],
                 interleavings=[], recheck_ok=0, recheck_bad=0, choices=0, pools=0)
    nontrivial, inter = set(), set()
    violation = None
    want_digests = os.environ.get('FOGSIM_DIGESTS')
    gc.disable()
    Choices.dump = os.open(progress + '.choices%d' % lane, os.O_RDWR | os.O_CREAT)
    for idx in range(lane, total, nlanes):
        os.pwrite(fd, struct.pack('>qd', idx, _real_perf()), 16 * lane)
        os.pwrite(Choices.dump, b'\0\0\0\0', 0)
        ch = Choices(derive_seed(seed, prop, idx))
        res = execute(mod, ch)
        w = res['world']
        stats['runs'] += 1
        stats['sim_time'] += w.now
        stats['draws'] += w.draws
        stats['calls'] += w.calls
        stats['pools'] += len(w.pools)
        stats['choices'] += len(ch.log)
        for k, v in w.faults.items():
            stats['faults'][k] = stats['faults'].get(k, 0) + v
        for k, v in w.probes.items():
            stats['probes'][k] = stats['probes'].get(k, 0) + v
        if w.sched:
            inter.add(hashlib.md5(repr(w.sched).encode()).digest()[:8])
        if want_digests:
            stats['digests'].append((idx, digest(res, ch)))
        info = res['info'] or {}
        if info.get('nontrivial'):
            nontrivial.add(hashlib.md5(repr(info.get('sig', ch.log)).encode()).digest()[:8])
            if len(stats['samples']) < 2 and info.get('sample'):
                stats['samples'].append({'run': idx, 'case': info['sample'], 'events': [list(map(str, e)) for e in w.trace[:12]]})
        if res['cls'] is not None:
            violation = dict(idx=idx, cls=res['cls'], message=res['message'], choices=ch.log,
                             trace=[list(map(str, e)) for e in w.trace[-200:]])
            break
        if stats['runs'] <= 5 and not want_digests:
            # determinism self-check: replaying the recorded choices gives the same execution
            ch2 = Choices(replay=list(ch.log))
            res2 = execute(mod, ch2)
            if digest(res2, ch2) == digest(res, ch):
                stats['recheck_ok'] += 1
            else:
                stats['recheck_bad'] += 1
        if stats['runs'] % 50 == 0:
            gc.collect()
    os.pwrite(fd, struct.pack('>qd', 1 << 60, _real_perf()), 16 * lane)
    stats['nontrivial'] = [x.hex() for x in nontrivial]
    stats['interleavings'] = [x.hex() for x in inter]
    stats['violation'] = violation
    stats['wall'] = _real_perf() - t0
    if hasattr(mod, 'teardown'):
        mod.teardown()
    sys.stdout.write(json.dumps(stats))
    sys.stdout.flush()


def attempt(mod, log, timeout=90, prefix=None):
    """Execute a choice list in a forked child -> (cls, message, log, trace) ; cls 'crash-N' if the child died."""
    r, wr = os.pipe()
    sys.stdout.flush()
    Choices.dump = os.memfd_create('choices')
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            if hasattr(mod, 'after_fork'):
                mod.after_fork()
            if prefix:
                for p in prefix:
                    execute(mod, Choices(p))
            ch = Choices(replay=log) if not isinstance(log, int) else Choices(log)
            res = execute(mod, ch)
            data = pickle.dumps((res['cls'], res['message'], ch.log, [list(map(str, e)) for e in res['world'].trace[-300:]], len(res['world'].pools)))
            with os.fdopen(wr, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    buf = b''
    import select
    end = _real_perf() + timeout
    timed_out = False
    while True:
        left = end - _real_perf()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            timed_out = True
            os.kill(pid, 9)
            break
        x = os.read(r, 1 << 16)
        if not x:
            break
        buf += x
    os.close(r)
    _, status = os.waitpid(pid, 0)
    note = Choices.saved(Choices.dump)[1]
    os.close(Choices.dump)
    Choices.dump = None
    if timed_out:
        return ('no-progress', 'the run did not end within %d s of real time' % timeout, log if not isinstance(log, int) else None, [])
    if os.WIFSIGNALED(status):
        n = os.WTERMSIG(status)
        return ('crash-%d' % n, 'the process was killed by signal %d (%s)%s' % (n, signal.Signals(n).name, ' while executing ' + note if note else ''),
                log if not isinstance(log, int) else None, [])
    if not buf:
        return ('crash-exit', 'the process exited without a result', log if not isinstance(log, int) else None, [])
    return pickle.loads(buf)


def shrink(path, out):
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec['property'])
    cls = rec['class']
    tries = [0]
    start = _real_perf()
    LIMIT_T, LIMIT_N = 60, 1500
    best = list(rec['choices'])
    first = attempt(mod, best)
    if first[0] != cls:
        rec['reproduced'] = False
        with open(out, 'w') as f:
            json.dump(rec, f)
        return
    last = first

    def ok(cand):
        nonlocal best, last
        if tries[0] >= LIMIT_N or _real_perf() - start > LIMIT_T:
            return False
        tries[0] += 1
        r = attempt(mod, cand, timeout=20)
        if r[0] == cls:
            # keep what was actually consumed
            best = list(r[2])[:len(cand)] if r[2] is not None and len(r[2]) <= len(cand) else list(cand)
            last = r
            return True
        return False

    improved = True
    while improved and _real_perf() - start < LIMIT_T and tries[0] < LIMIT_N:
        improved = False
        # cut the tail
        k = len(best) // 2
        while k >= 1:
            if ok(best[:len(best) - k]):
                improved = True
                k = min(k, len(best) // 2)
            else:
                k //= 2
        # delete chunks
        size = max(1, len(best) // 4)
        while size >= 1:
            i = 0
            while i + size <= len(best):
                if ok(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
            size //= 2
        # zero chunks, then lower single values
        size = max(1, len(best) // 4)
        while size >= 1:
            i = 0
            while i < len(best):
                seg = best[i:i + size]
                if any(seg) and ok(best[:i] + [0] * len(seg) + best[i + size:]):
                    improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            lo = 0
            v = best[i]
            while v - lo > 1 and i < len(best):
                mid = (lo + v) // 2
                if ok(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    v = best[i]
                else:
                    lo = mid
    while best and best[-1] == 0:
        best.pop()
    final = attempt(mod, best)
    if final[0] != cls:
        best = list(last[2])
        final = last
    rec.update(choices=best, message=final[1], trace=final[3], reproduced=True, shrink_attempts=tries[0],
               original_choices=len(rec['choices']))
    with open(out, 'w') as f:
        json.dump(rec, f, indent=1)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec['property'])
    if rec.get('kind') == 'lane':
        # state carried over from earlier runs matters: re-execute the recorded runs of the lane
        seeds = [derive_seed(rec['seed'], rec['property'], i) for i in rec['runs']]
        r = attempt(mod, seeds[-1], timeout=600, prefix=seeds[:-1])
    else:
        r = attempt(mod, rec['choices'])
    sys.stdout.write(json.dumps({'cls': r[0], 'message': r[1], 'trace': r[3], 'pools': r[4] if len(r) > 4 else 0}))


if __name__ == '__main__':
    faulthandler.enable()
    cmd = sys.argv[1]
    if cmd == 'explore':
        prop, seed, lane, nlanes, total, progress = sys.argv[2:8]
        explore(prop, int(seed), int(lane), int(nlanes), int(total), progress)
    elif cmd == 'shrink':
        shrink(sys.argv[2], sys.argv[3])
    elif cmd == 'replay':
        replay(sys.argv[2])
