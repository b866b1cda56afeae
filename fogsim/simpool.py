"""A simulated multiprocessing.Pool.

Same interface and the same observable semantics as CPython's pool (tasks pickled when fed, results pickled
by the worker, exceptions re-raised in the parent, the input iterable consumed ahead of time by a feeder,
imap ordered / imap_unordered in completion order), but every scheduling decision - when the feeder runs,
which idle worker takes the next task, which busy worker finishes next, when the parent wakes up - is taken
by the run's choices, and faults are injected at those points.

Workers execute the real worker function either in this process (arguments and results still take the
pickle round trip) or in really forked processes that are driven synchronously, one at a time, so that state
isolation between parent and workers is the real one while who runs when stays the simulator's decision.
"""
import concurrent.futures as _futures
import concurrent.futures.process as _fp
import concurrent.futures.thread as _ft
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import struct
import sys
from collections import deque
from concurrent.futures.process import BrokenProcessPool
from multiprocessing.pool import ExceptionWithTraceback, MaybeEncodingError
from multiprocessing.reduction import ForkingPickler

from fogsim import world as _w
from fogsim.world import SimHang, SimStop

RealPool = multiprocessing.pool.Pool
_real_pool_fn = multiprocessing.Pool
_real_as_completed, _real_wait = _futures.as_completed, _futures.wait

RUN, CLOSE, TERMINATE = 'RUN', 'CLOSE', 'TERMINATE'


def _dumps(o):
    return bytes(ForkingPickler.dumps(o))


def mapstar(args):
    return list(map(*args))


def starmapstar(args):
    return [args[0](*a) for a in args[1]]


def _reraise(ex):
    raise ex


FORCE_FORK = bool(os.environ.get('FOGSIM_FORK'))


def _execute_thread(call):
    """What a thread of a ThreadPool does with one task."""
    func, args, kwargs = call
    try:
        return True, func(*args, **kwargs)
    except Exception as e:
        return False, e


def _execute(blob):
    """What a pool worker does with one task; returns the pickled (success, value)."""
    try:
        func, args, kwargs = pickle.loads(blob)
    except Exception:
        return None               # kills the real worker, its task is lost
    try:
        r = (True, func(*args, **kwargs))
    except Exception as e:
        if func is not _reraise:
            e = ExceptionWithTraceback(e, e.__traceback__)
        r = (False, e)
    try:
        return _dumps(r)
    except Exception as e:
        return _dumps((False, MaybeEncodingError(e, r[1])))


class _Forked(object):
    """A really forked worker, driven synchronously over a pipe."""

    def __init__(self, initializer, initargs):
        a, b = os.pipe()
        c, d = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(b)
                os.close(c)
                w = _w.world()
                if w is not None:
                    w.pools = []
                if initializer is not None:
                    initializer(*initargs)
                while True:
                    head = self._read(a, 4)
                    if not head:
                        break
                    blob = self._read(a, struct.unpack('>I', head)[0])
                    w = _w.world()
                    before = (w.fired, w.calls, w.draws, w.jumps, dict(w.faults)) if w else None
                    try:
                        out = _execute(blob)
                        kind = b'R' if out is not None else b'L'
                        out = out or b''
                    except SimStop as e:
                        out = pickle.dumps((type(e).__name__, str(e)))
                        kind = b'S'
                    delta = b''
                    if w:
                        delta = pickle.dumps((w.fired - before[0], w.calls - before[1], w.draws - before[2],
                                              w.jumps - before[3],
                                              {k: v - before[4].get(k, 0) for k, v in w.faults.items()}))
                    os.write(d, kind + struct.pack('>II', len(out), len(delta)))
                    self._write(d, out + delta)
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(a)
        os.close(d)
        self.pid, self.inp, self.out = pid, b, c

    @staticmethod
    def _read(fd, n):
        buf = b''
        while len(buf) < n:
            x = os.read(fd, n - len(buf))
            if not x:
                return b''
            buf += x
        return buf

    @staticmethod
    def _write(fd, data):
        while data:
            k = os.write(fd, data)
            data = data[k:]

    def run(self, blob):
        self._write(self.inp, struct.pack('>I', len(blob)) + blob)
        head = self._read(self.out, 9)
        if not head:
            raise SimHang('a worker process died: its task is lost')
        kind = head[:1]
        n, m = struct.unpack('>II', head[1:])
        out = self._read(self.out, n)
        delta = self._read(self.out, m) if m else b''
        w = _w.world()
        if delta and w is not None:
            f, c, d, j, fk = pickle.loads(delta)
            w.fired += f
            w.calls += c
            w.draws += d
            w.jumps += j
            for k, v in fk.items():
                if v:
                    w.faults[k] = w.faults.get(k, 0) + v
        if kind == b'L':
            return None
        if kind == b'S':
            name, msg = pickle.loads(out)
            raise getattr(_w, name)(msg)
        return out

    def kill(self):
        if self.pid:
            for fd in (self.inp, self.out):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.kill(self.pid, 9)
            except OSError:
                pass
            try:
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            self.pid = None


class PoolPlan(object):
    """How the run wants pools to behave (drawn by the scenario, consulted by SimPool)."""

    def __init__(self):
        self.policy = 'random'       # random | fifo | lifo | starve | eager | lazy
        self.fail_create = False     # the pool cannot be started
        self.kill_task = None        # n-th started task is lost with its worker
        self.interrupt_at = None     # KeyboardInterrupt at the n-th event while the parent waits
        self.fork = False            # really forked workers
        self.slow = 0                # seconds some tasks take


def draw_plan(ch, faults=()):
    p = PoolPlan()
    p.policy = ch.pick(['fifo', 'random', 'lifo', 'starve', 'eager', 'lazy', 'random'])
    p.fork = ch.chance(1, 6)
    if ch.chance(1, 4):
        p.slow = ch.pick([5, 90, 4000, 200000])
    if 'create' in faults:
        p.fail_create = ch.chance(1, 6)
    if 'kill' in faults and ch.chance(1, 4):
        p.kill_task = ch.below(6)
    if 'interrupt' in faults and ch.chance(1, 4):
        p.interrupt_at = ch.below(14)
    return p


class _Task(object):
    __slots__ = ('job', 'index', 'blob')

    def __init__(self, job, index, blob):
        self.job = job
        self.index = index
        self.blob = blob


class _Worker(object):
    def __init__(self, n):
        self.n = n
        self.task = None
        self.proc = None
        self.stalled = False
        self.slept = False
        self.done = 0


class _Job(object):
    """One imap/map/apply call: a source of tasks and a place for results."""

    def __init__(self, pool, func, source, star=None):
        self.pool = pool
        self.func = func
        self.source = source
        self.exhausted = False
        self.fed = 0

    def next_blob(self):
        raise NotImplementedError


class SimPool(object):
    threads = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        w = _w.world()
        if w is None:
            raise RuntimeError('SimPool outside a simulated run')
        if processes is None:
            processes = 4
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        self._world = w
        self.plan = getattr(w, 'pool_plan', None) or PoolPlan()
        self.requested = processes
        self._state = RUN
        self._reaped = False
        if self.plan.fail_create:
            w.fault('pool_start_failure')
            w.log('pool', 'start-failed')
            raise BlockingIOError(11, 'Resource temporarily unavailable (injected)')
        self._init = (initializer, initargs)
        self._fork = not self.threads and (self.plan.fork or FORCE_FORK or initializer is not None)
        self._workers = [_Worker(i) for i in range(processes)]
        if self._fork:
            for k in self._workers:
                k.proc = _Forked(*self._init)
        elif initializer is not None:
            for k in self._workers:
                initializer(*initargs)
        if self.plan.policy == 'starve' and processes > 1:
            self._workers[w.ch.below(processes)].stalled = True
            w.fault('worker_stall')
        self._queue = deque()
        self._jobs = []
        self._started = 0
        self._deaf = False
        self._events = 0
        self._waits = 0
        self._idle = 0
        w.pools.append(self)
        self.number = len(w.pools)
        w.log('pool', self.number, 'start', processes, self.plan.policy, 'fork' if self._fork else 'inproc')

    def _lost(self):
        """A worker or result is lost: a multiprocessing pool does not notice."""

    def _pack(self, call):
        return call if self.threads else _dumps(call)

    # -- scheduling ---------------------------------------------------------------------------------

    def _enabled(self):
        ev = []
        if self._state == TERMINATE:
            return ev
        for j in self._jobs:
            if not j.exhausted:
                ev.append(('feed', j))
                break          # the real task handler feeds jobs one after the other
        if self._queue:
            for k in self._workers:
                if k.task is None and not k.stalled:
                    ev.append(('take', k))
        for k in self._workers:
            if k.task is not None and not k.stalled:
                ev.append(('done', k))
        return ev

    def _step(self):
        """Run one event; False when nothing is enabled."""
        ev = self._enabled()
        if not ev:
            st = [k for k in self._workers if k.stalled]
            if st and self._state != TERMINATE:
                # a stalled worker is slow, not dead: it resumes once nothing else can run
                for k in st:
                    k.stalled = False
                ev = self._enabled()
            if not ev:
                return False
        w = self._world
        ch = w.ch
        policy = self.plan.policy
        pool = ev
        if policy == 'eager':
            pool = [e for e in ev if e[0] == 'feed'] or ev
        elif policy == 'lazy':
            pool = [e for e in ev if e[0] != 'feed'] or ev
        if policy == 'fifo':
            order = {'done': 0, 'take': 1, 'feed': 2}
            e = min(pool, key=lambda e: (order[e[0]], e[1].task.index if e[0] == 'done' else 0))
        elif policy == 'lifo':
            order = {'feed': 0, 'take': 1, 'done': 2}
            e = min(pool, key=lambda e: (order[e[0]], -e[1].task.index if e[0] == 'done' else 0))
        else:
            e = pool[ch.below(len(pool))]
        self._events += 1
        w.advance(0.001 * (1 + self._events % 7))
        kind, who = e
        if kind == 'feed':
            w.sched.append(0)
            who.feed()
        elif kind == 'take':
            t = self._queue.popleft()
            w.sched.append(100 + who.n)
            w.log('pool', self.number, 'worker', who.n, 'takes', t.index)
            n = self._started
            self._started += 1
            if self.plan.kill_task is not None and n == self.plan.kill_task:
                w.fault('worker_killed')
                w.log('pool', self.number, 'worker', who.n, 'killed with task', t.index)
                if who.proc is not None:
                    who.proc.kill()
                    who.proc = _Forked(*self._init)
                self._lost()
                return True
            who.task = t
        else:
            if self.plan.slow and not who.slept and ch.chance(1, 3):
                who.slept = True
                w.log('pool', self.number, 'worker', who.n, 'needs', self.plan.slow, 'more seconds')
                w.fault('slow_worker')
                w.advance(self.plan.slow)
                return True
            who.slept = False
            t, who.task = who.task, None
            w.sched.append(200 + who.n)
            who.done += 1
            if self.threads:
                ok, value = _execute_thread(t.blob)
                w.log('pool', self.number, 'thread', who.n, 'finishes', t.index, 'ok' if ok else type(value).__name__)
                t.job.result(t.index, ok, value)
                return True
            blob = who.proc.run(t.blob) if who.proc is not None else _execute(t.blob)
            if blob is None:
                w.log('pool', self.number, 'worker', who.n, 'dies of', t.index)
                w.fault('task_cannot_be_unpickled')
                self._lost()
                return True
            if self._deaf:
                return True
            try:
                ok, value = pickle.loads(blob)
            except Exception as e:
                # kills the thread of the real pool that receives results: nothing ever arrives any more
                self._deaf = True
                w.log('pool', self.number, 'cannot read the result of', t.index, type(e).__name__)
                w.fault('result_cannot_be_unpickled')
                self._lost()
                return True
            w.log('pool', self.number, 'worker', who.n, 'finishes', t.index, 'ok' if ok else type(value).__name__)
            t.job.result(t.index, ok, value)
        return True

    def _wait(self, ready, deadline=None):
        """The parent blocks until ready() holds."""
        w = self._world
        if self.plan.policy not in ('fifo',):
            # background progress before the parent looks
            n = w.ch.below(4)
            for _ in range(n):
                if not self._step():
                    break
        while True:
            self._waits += 1
            if self.plan.interrupt_at is not None and self._waits > self.plan.interrupt_at:
                self.plan.interrupt_at = None
                w.fault('interrupt')
                w.log('pool', self.number, 'interrupt')
                raise KeyboardInterrupt
            if ready():
                return True
            if deadline is not None and w.now >= deadline:
                return False
            if not self._step():
                if deadline is not None:
                    w.now = max(w.now, deadline)
                    self._idle += 1
                    if self._idle > 300:
                        raise SimHang('polling a pool with nothing left to run')
                    return False
                raise SimHang('waiting on a pool with nothing left to run')
            self._idle = 0

    # -- lifecycle ----------------------------------------------------------------------------------

    def _check_running(self):
        if self._state != RUN:
            raise ValueError('Pool not running')

    def __enter__(self):
        self._check_running()
        return self

    def __exit__(self, *exc):
        self.terminate()

    def close(self):
        if self._state == RUN:
            self._state = CLOSE
            self._world.log('pool', self.number, 'close')

    def terminate(self):
        if self._state != TERMINATE:
            self._world.log('pool', self.number, 'terminate')
        self._state = TERMINATE
        self._queue.clear()
        for k in self._workers:
            k.task = None
        self._reap()

    def join(self):
        if self._state == RUN:
            raise ValueError('Pool is still running')
        while self._state == CLOSE and self._step():
            pass
        self._reap()

    def _drained(self):
        return not self._queue and all(k.task is None for k in self._workers) and all(j.exhausted for j in self._jobs)

    def is_shut_down(self):
        """True if the workers are gone or will go away by themselves (closed and nothing left to do)."""
        if self._state == TERMINATE:
            return True
        if self._state == CLOSE:
            while self._step():
                pass
            return self._drained()
        return False

    def _reap(self):
        for k in self._workers if not self._reaped else ():
            if k.proc is not None:
                k.proc.kill()
        self._reaped = True

    def __del__(self):
        try:
            self._reap()
        except Exception:
            pass

    # -- API ----------------------------------------------------------------------------------------

    def imap(self, func, iterable, chunksize=1):
        self._check_running()
        if chunksize < 1:
            raise ValueError('Chunksize must be 1+, not {0:n}'.format(chunksize))
        it = _IMap(self, func, iterable, chunksize, ordered=True)
        self._jobs.append(it)
        return it if chunksize == 1 else (x for chunk in it for x in chunk)

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check_running()
        if chunksize < 1:
            raise ValueError('Chunksize must be 1+, not {0!r}'.format(chunksize))
        it = _IMap(self, func, iterable, chunksize, ordered=False)
        self._jobs.append(it)
        return it if chunksize == 1 else (x for chunk in it for x in chunk)

    def _map_async(self, func, iterable, mapper, chunksize, callback, error_callback):
        self._check_running()
        if not hasattr(iterable, '__len__'):
            iterable = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(iterable), len(self._workers) * 4)
            if extra:
                chunksize += 1
        if len(iterable) == 0:
            chunksize = 0
        j = _Map(self, func, iterable, mapper, chunksize, callback, error_callback)
        self._jobs.append(j)
        return j

    def map(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, mapstar, chunksize, None, None).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, starmapstar, chunksize, None, None).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, mapstar, chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, starmapstar, chunksize, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check_running()
        j = _Apply(self, func, args, kwds, callback, error_callback)
        self._jobs.append(j)
        return j


class _IMap(object):
    def __init__(self, pool, func, iterable, chunksize, ordered):
        self.pool, self.func, self.chunksize, self.ordered = pool, func, chunksize, ordered
        self.source = iter(iterable)
        self.exhausted = False
        self.fed = 0
        self.results = deque()
        self.held = {}
        self.delivered = 0
        self.arrived = 0

    def feed(self):
        pool = self.pool
        w = pool._world
        index = self.fed
        try:
            if self.chunksize == 1:
                try:
                    args = (self.func, (next(self.source),), {})
                except StopIteration:
                    self.exhausted = True
                    return
            else:
                chunk = []
                for _ in range(self.chunksize):
                    try:
                        chunk.append(next(self.source))
                    except StopIteration:
                        break
                if not chunk:
                    self.exhausted = True
                    return
                args = (mapstar, ((self.func, chunk),), {})
        except Exception as e:
            # as Pool._guarded_task_generation: the error becomes the (last) result
            self.exhausted = True
            self.fed += 1
            w.log('pool', pool.number, 'feeder fails', type(e).__name__)
            try:
                blob = pool._pack((_reraise, (e,), {}))
            except Exception as e2:
                self.result(index, False, e2)
            else:
                pool._queue.append(_Task(self, index, blob))
            return
        self.fed += 1
        try:
            blob = pool._pack(args)
        except Exception as e:
            w.log('pool', pool.number, 'cannot send task', index)
            self.result(index, False, e)
            return
        w.log('pool', pool.number, 'feed', index)
        pool._queue.append(_Task(self, index, blob))

    def result(self, index, ok, value):
        self.arrived += 1
        if self.ordered:
            self.held[index] = (ok, value)
            while self.delivered_next() in self.held:
                self.results.append(self.held.pop(self.delivered_next()))
                self._next = self._next + 1
        else:
            self.results.append((ok, value))

    _next = 0

    def delivered_next(self):
        return self._next

    def __iter__(self):
        return self

    def next(self, timeout=None):
        def ready():
            return bool(self.results) or (self.exhausted and self.delivered == self.fed)
        pool = self.pool
        deadline = None if timeout is None else pool._world.now + timeout
        if not pool._wait(ready, deadline):
            raise multiprocessing.TimeoutError
        if not self.results:
            raise StopIteration
        ok, value = self.results.popleft()
        self.delivered += 1
        pool._world.sched.append(1)
        if ok:
            return value
        raise value

    __next__ = next


class _Async(object):
    def __init__(self, pool, callback, error_callback):
        self.pool = pool
        self._cb, self._ecb = callback, error_callback
        self.exhausted = False
        self.fed = 0
        self._done = False
        self._ok = None
        self._value = None

    def _set(self, ok, value):
        if self._done:
            return
        self._done, self._ok, self._value = True, ok, value
        if ok and self._cb:
            self._cb(value)
        if not ok and self._ecb:
            self._ecb(value)

    def ready(self):
        if not self._done:
            self.pool._step()
        return self._done

    def successful(self):
        if not self._done:
            raise ValueError('{0!r} not ready'.format(self))
        return self._ok

    def wait(self, timeout=None):
        self.pool._wait(lambda: self._done, None if timeout is None else self.pool._world.now + timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._done:
            raise multiprocessing.TimeoutError
        if self._ok:
            return self._value
        raise self._value


class _Apply(_Async):
    def __init__(self, pool, func, args, kwds, cb, ecb):
        _Async.__init__(self, pool, cb, ecb)
        self.call = (func, tuple(args), dict(kwds))

    def feed(self):
        self.exhausted = True
        self.fed = 1
        try:
            blob = self.pool._pack(self.call)
        except Exception as e:
            self._set(False, e)
            return
        self.pool._queue.append(_Task(self, 0, blob))

    def result(self, index, ok, value):
        self._set(ok, value)


class _Map(_Async):
    def __init__(self, pool, func, iterable, mapper, chunksize, cb, ecb):
        _Async.__init__(self, pool, cb, ecb)
        items = list(iterable)
        self.chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)] if chunksize else []
        self.func, self.mapper = func, mapper
        self.values = [None] * len(self.chunks)
        self.left = len(self.chunks)
        self.failure = None
        if not self.chunks:
            self.exhausted = True
            self._set(True, [])

    def feed(self):
        i = self.fed
        self.fed += 1
        if self.fed == len(self.chunks):
            self.exhausted = True
        try:
            blob = self.pool._pack((self.mapper, ((self.func, self.chunks[i]),), {}))
        except Exception as e:
            self.result(i, False, e)
            return
        self.pool._queue.append(_Task(self, i, blob))

    def result(self, index, ok, value):
        self.left -= 1
        if ok:
            self.values[index] = value
        elif self.failure is None:
            self.failure = value
        if self.left == 0:
            if self.failure is not None:
                self._set(False, self.failure)
            else:
                self._set(True, [x for c in self.values for x in c])


class SimThreadPool(SimPool):
    """multiprocessing.pool.ThreadPool: same scheduling, but arguments, results and state are shared, nothing is pickled."""
    threads = True


# -- concurrent.futures ---------------------------------------------------------------------------------

class SimFuture(_futures.Future):
    def __init__(self, pool=None):
        _futures.Future.__init__(self)
        self._pool = pool

    def _sim_wait(self, timeout):
        w = self._pool._world
        if not self._pool._wait(self.done, None if timeout is None else w.now + timeout):
            raise _futures.TimeoutError()

    def result(self, timeout=None):
        try:
            self._sim_wait(timeout)
            return _futures.Future.result(self, 0)
        finally:
            self = None

    def exception(self, timeout=None):
        self._sim_wait(timeout)
        return _futures.Future.exception(self, 0)


class _Submit(object):
    def __init__(self, pool, call, number):
        self.pool, self.call, self.number = pool, call, number
        self.exhausted = False
        self.future = SimFuture(pool)

    def feed(self):
        self.exhausted = True
        if not self.future.set_running_or_notify_cancel():
            return
        try:
            blob = self.pool._pack(self.call)
        except Exception as e:
            self.future.set_exception(e)
            return
        self.pool._queue.append(_Task(self, self.number, blob))

    def result(self, index, ok, value):
        if self.future.done():
            return
        if ok:
            self.future.set_result(value)
        else:
            self.future.set_exception(value)


class SimExecutor(SimPool):
    """concurrent.futures.ProcessPoolExecutor on the same scheduler."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), max_tasks_per_child=None, thread_name_prefix=''):
        if max_workers is not None and max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        SimPool.__init__(self, max_workers, initializer, initargs)
        self._broken = False
        self._submitted = 0

    def _lost(self):
        self._broken = True
        self._state = TERMINATE
        self._queue.clear()
        for j in self._jobs:
            if not j.future.done():
                j.future.set_exception(BrokenProcessPool('A process in the process pool was terminated abruptly while the future was running or pending.'))

    def submit(self, fn, /, *args, **kwargs):
        if self._broken:
            raise BrokenProcessPool('A child process terminated abruptly, the process pool is not usable anymore')
        if self._state != RUN:
            raise RuntimeError('cannot schedule new futures after shutdown')
        j = _Submit(self, (fn, args, kwargs), self._submitted)
        self._submitted += 1
        self._jobs.append(j)
        return j.future

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError('chunksize must be >= 1.')
        calls = list(zip(*iterables))
        if chunksize == 1 or self.threads:
            fs = [self.submit(fn, *a) for a in calls]
            unchunk = lambda v: (v,)
        else:
            fs = [self.submit(_call_chunk, fn, calls[i:i + chunksize]) for i in range(0, len(calls), chunksize)]
            unchunk = iter

        def results():
            try:
                fs.reverse()
                while fs:
                    for x in unchunk(fs.pop().result(timeout)):
                        yield x
            finally:
                for f in fs:
                    f.cancel()
        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for j in self._jobs:
                if j.future.cancel():
                    j.exhausted = True
        self.close()
        if wait:
            while self._state == CLOSE and self._step():
                pass
            self._reap()

    def __exit__(self, *exc):
        self.shutdown(wait=True)
        return False


class SimThreadExecutor(SimExecutor):
    threads = True


def _call_chunk(fn, chunk):
    return [fn(*a) for a in chunk]


def _as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    if not any(isinstance(f, SimFuture) for f in fs):
        yield from _real_as_completed(fs, timeout)
        return
    while fs:
        pool = fs[0]._pool
        pool._wait(lambda: any(f.done() for f in fs))
        ready = [f for f in fs if f.done()]
        f = ready[pool._world.ch.below(len(ready))]
        fs.remove(f)
        yield f


def _wait_futures(fs, timeout=None, return_when=_futures.ALL_COMPLETED):
    fs = set(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        return _real_wait(fs, timeout, return_when)

    def ready():
        done = [f for f in fs if f.done()]
        if return_when == _futures.FIRST_COMPLETED:
            return bool(done)
        if return_when == _futures.FIRST_EXCEPTION and any(not f.cancelled() and _futures.Future.exception(f, 0) for f in done):
            return True
        return len(done) == len(fs)
    pool = next(f for f in fs if isinstance(f, SimFuture))._pool
    pool._wait(ready, None if timeout is None else pool._world.now + timeout)
    done = {f for f in fs if f.done()}
    return _futures._base.DoneAndNotDoneFutures(done, fs - done)


def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    if _w.world() is None:
        return _real_pool_fn(processes, initializer, initargs, maxtasksperchild)
    return SimPool(processes, initializer, initargs, maxtasksperchild)


def _ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    if _w.world() is None:
        return RealPool(processes, initializer, initargs, maxtasksperchild, context=self.get_context())
    return SimPool(processes, initializer, initargs, maxtasksperchild)


def install():
    multiprocessing.Pool = Pool
    multiprocessing.context.BaseContext.Pool = _ctx_pool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    for m, name, cls in ((_fp, 'ProcessPoolExecutor', SimExecutor), (_ft, 'ThreadPoolExecutor', SimThreadExecutor)):
        setattr(m, name, cls)
        setattr(_futures, name, cls)
    for m in (_futures, _futures._base):
        m.as_completed, m.wait = _as_completed, _wait_futures
