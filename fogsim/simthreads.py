"""Deterministic threads: real threads of which exactly one runs at a time; the scheduler may move the baton
before any bytecode instruction of fog's (and phylactery's) code.

Instruction events come from sys.monitoring on the code objects of the packages watched.  Locks created by
watched code are simulation-aware, so that a thread that would block gives the baton away instead.
"""
import _thread
import gc
import os
import sys
import threading
import types

from fogsim import world as W

_TOOL = 3
_alloc = _thread.allocate_lock
_ident = _thread.get_ident


class Deadlock(W.SimHang):
    pass


class Sched(object):
    """One group of simulated threads."""

    def __init__(self, w, ch, mean_gap, budget=12000000):
        self.w, self.ch, self.mean = w, ch, mean_gap
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.gap = 0
        self.steps = 0
        self.switches = 0
        self.budget = budget
        self.main = _alloc()
        self.dead = None

    def spawn(self, fn):
        t = Task(self, len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def draw_gap(self):
        self.gap = 1 + self.ch.below(self.mean * 2)

    def run(self):
        """Run every task to its end; -> None.  Results are in task.value / task.error."""
        old = self.w.threads
        self.w.threads = self
        try:
            self.main.acquire()
            for t in self.tasks:
                t.start()
            self.draw_gap()
            first = self.ch.pick(self.tasks)
            self.current = first
            first.gate.release()
            self.main.acquire()           # released by the last task
        finally:
            self.w.threads = old
        if self.dead is not None:
            raise self.dead

    def event(self):
        """An instruction of the current task is about to run."""
        me = self.by_ident.get(_ident())
        if me is None:
            return
        if me.kill:
            raise me.kill
        self.steps += 1
        if self.steps > self.budget:
            self.fail(W.SimLivelock('more than %d instructions in threads' % self.budget))
            raise me.kill
        self.gap -= 1
        if self.gap > 0:
            return
        self.draw_gap()
        others = [t for t in self.tasks if not t.done and t is not me and not t.blocked()]
        if others:
            self.switch(me, self.ch.pick(others))

    def switch(self, me, to):
        self.switches += 1
        self.w.sched.append((self.steps, to.n))
        self.w.log('switch', 'after', self.steps, 'instructions', 'to thread', to.n)
        self.current = to
        to.gate.release()
        me.gate.acquire()
        if me.kill:
            raise me.kill

    def block(self, me, lock):
        """me cannot proceed until lock is free."""
        me.waiting = lock
        while lock.owner is not None:
            others = [t for t in self.tasks if not t.done and t is not me and not t.blocked()]
            if not others:
                self.fail(Deadlock('threads wait for each other'))
                raise me.kill
            self.switch(me, self.ch.pick(others))
        me.waiting = None

    def fail(self, exc):
        self.dead = exc
        for t in self.tasks:
            t.kill = type(exc)(*exc.args)

    def finished(self, me):
        me.done = True
        rest = [t for t in self.tasks if not t.done]
        if not rest:
            self.main.release()
            return
        ready = [t for t in rest if not t.blocked()] or rest
        to = self.ch.pick(ready) if self.dead is None else ready[0]
        self.w.sched.append((self.steps, to.n))
        self.current = to
        to.gate.release()


class Task(object):
    def __init__(self, sched, n, fn):
        self.sched, self.n, self.fn = sched, n, fn
        self.gate = _alloc()
        self.gate.acquire()
        self.done = False
        self.kill = None
        self.waiting = None
        self.value = self.error = None

    def blocked(self):
        return self.waiting is not None and self.waiting.owner is not None and not self.kill

    def start(self):
        _thread.start_new_thread(self._main, ())

    def _main(self):
        s = self.sched
        s.by_ident[_ident()] = self
        self.gate.acquire()
        try:
            if self.kill is None:
                self.value = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            s.by_ident.pop(_ident(), None)
            s.finished(self)


# -- locks ------------------------------------------------------------------------------------------------

class SimLock(object):
    """Stands for threading.Lock / RLock in watched code."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        self.real = _alloc()

    def _task(self):
        w = W.world()
        s = w.threads if w is not None else None
        return (s, s.by_ident.get(_ident())) if s is not None else (None, None)

    def acquire(self, blocking=True, timeout=-1):
        s, me = self._task()
        who = me if me is not None else _ident()
        if self.owner is not None:
            if self.reentrant and self.owner == who:
                self.count += 1
                return True
            if not blocking:
                return False
            if me is None:
                raise Deadlock('a lock is never released')
            s.block(me, self)
        self.owner = who
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def _caller_is_watched(depth=2):
    f = sys._getframe(depth).f_code.co_filename
    return f.startswith(os.path.join(W.REPO, 'fog')) or os.sep + 'phylactery' + os.sep in f


def install():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def Lock():
        return SimLock() if _caller_is_watched() else real_lock()

    def RLock():
        return SimRLock() if _caller_is_watched() else real_rlock()
    threading.Lock, threading.RLock = Lock, RLock


# -- instruction events -----------------------------------------------------------------------------------

def _on_instruction(code, offset):
    w = W._CURRENT
    if w is not None and w.threads is not None:
        w.threads.event()


def watch():
    """Instruction events in every function of fog and phylactery; -> number of code objects."""
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, 'fogsim-threads')
    mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_instruction)
    prefix = os.path.join(W.REPO, 'fog') + os.sep
    seen = set()

    def add(co):
        if co in seen:
            return
        seen.add(co)
        mon.set_local_events(_TOOL, co, mon.events.INSTRUCTION)
        for c in co.co_consts:
            if isinstance(c, types.CodeType):
                add(c)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            f = o.__code__.co_filename
            if f.startswith(prefix) or os.sep + 'phylactery' + os.sep in f:
                add(o.__code__)
    return len(seen)
