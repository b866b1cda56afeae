"""The simulated world and the seams behind which every source of nondeterminism is put.

Seams are installed once per process, *before* fog is imported (`install()`), and delegate to the world of
the run in progress (`world()`); outside a run they behave like the real thing.
"""
import builtins
import datetime as _datetime
import os
import random as _random
import sys
import threading
import time as _time
import timeit as _timeit
import types

from fogsim.choices import _REAL_RANDOM

REPO = os.environ.get('FOGSIM_REPO', '/repo')


class Violation(Exception):
    """A property does not hold on this run.  cls identifies the kind of violation (used by shrinking)."""

    def __init__(self, cls, message):
        Exception.__init__(self, cls, message)
        self.cls = cls
        self.message = message


class SimStop(BaseException):
    """Base of what the simulator throws through code under test; never caught by 'except Exception'."""


class SimHang(SimStop):
    """Nothing is runnable any more: the real program would wait forever."""


class SimLivelock(SimStop):
    """The step budget of the run is exhausted: the real program would loop forever (or nearly so)."""


class InjectedError(Exception):
    """Raised by an injected fault (importable, hence picklable)."""


class InjectedValueError(ValueError):
    pass


class InjectedLookup(KeyError):
    pass


class InjectedOSError(OSError):
    pass


CALL_BUDGET = 300000
_CURRENT = None


def world():
    return _CURRENT


class World(object):
    def __init__(self, choices):
        self.ch = choices
        self.trace = []            # event log of the run (never consulted by decisions)
        self.now = 0.0             # simulated seconds
        self.pools = []
        self.faults = {}           # kind -> times it actually fired
        self.probes = {}           # rare condition -> times reached
        self.draws = 0
        self.draw_budget = 400000
        self.jumps = 0
        self.jump_budget = 1500000
        self.calls = 0             # callback evaluations
        self.call_budget = CALL_BUDGET
        self.entropy = 0           # OS-entropy requests
        self.rand_script = None    # list of floats in [0,1) consumed first by unseeded generators
        self.rand_seed = 1
        self.rand_instances = 0
        self.reseeds = []          # (which, args) calls re-seeding a process-wide generator
        self.wall_offset = 1.7e9
        self.work_cost = 0.0       # simulated seconds per unidecode() call
        self.work_done = 0.0
        self.on_work = None
        self.io_cost = 0.0         # simulated seconds per read or write of a simulated descriptor
        self.ids = {}
        self.fs = None
        self.threads = None        # thread scheduler, when a run has one
        self.sched = []            # scheduling decisions, for the interleaving measure
        self.fired = 0             # callback faults that fired
        self.fork_workers = False
        self.on_call = None        # hook: something else happens while a callback of the parent runs

    def log(self, *event):
        if len(self.trace) < 4000:
            self.trace.append(event)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def advance(self, dt):
        self.now += dt

    # context manager: make this world the current one
    def __enter__(self):
        global _CURRENT
        assert _CURRENT is None
        _CURRENT = self
        _random.seed(12345)
        if 'numpy' in sys.modules:
            _NP['seed'](12345)
        self.reseeds = []
        return self

    def __exit__(self, *a):
        global _CURRENT
        _CURRENT = None
        for p in self.pools:
            p._reap()
        return False


# ------------------------------------------------------------------------------------------- randomness

class SimRandom(_REAL_RANDOM):
    """Stands for random.Random.  Seeded instances are the real Mersenne Twister; unseeded ones draw from
    the run (first from an adversarial script, then from a PRNG the run seeded)."""

    def __new__(cls, *a, **k):
        return _REAL_RANDOM.__new__(cls)

    def __init__(self, x=None):
        self._script = None
        _REAL_RANDOM.__init__(self, x)

    def seed(self, a=None, version=2):
        w = _CURRENT
        self._script = None
        if a is None and w is not None:
            w.entropy += 1
            w.rand_instances += 1
            self._script = list(w.rand_script or ())[::-1]
            return _REAL_RANDOM.seed(self, '%d/%d' % (w.rand_seed, w.rand_instances))
        return _REAL_RANDOM.seed(self, a, version)

    def _tick(self):
        w = _CURRENT
        if w is not None:
            w.draws += 1
            if w.draws > w.draw_budget:
                raise SimLivelock('more than %d random draws' % w.draw_budget)

    def random(self):
        self._tick()
        if self._script:
            return self._script.pop()
        return _REAL_RANDOM.random(self)

    def getrandbits(self, k):
        self._tick()
        if self._script:
            x = self._script.pop()
            return min(int(x * (1 << k)), (1 << k) - 1)
        return _REAL_RANDOM.getrandbits(self, k)


_NP = {}


def _install_random():
    _random.Random = SimRandom
    real_seed = _random.seed
    real_setstate = _random.setstate

    def seed(a=None, version=2):
        w = _CURRENT
        if w is not None:
            w.reseeds.append(('random.seed', a))
            if a is None:
                w.entropy += 1
                a = '%d/ambient' % w.rand_seed
        return real_seed(a, version)

    def setstate(state):
        w = _CURRENT
        if w is not None:
            w.reseeds.append(('random.setstate', None))
        return real_setstate(state)

    _random.seed = seed
    _random.setstate = setstate
    _NP['py_setstate'] = real_setstate
    _NP['py_seed'] = real_seed

    real_urandom = os.urandom

    def urandom(n):
        w = _CURRENT
        if w is None:
            return real_urandom(n)
        w.entropy += 1
        return _REAL_RANDOM('%d/urandom/%d' % (w.rand_seed, w.entropy)).randbytes(n)

    os.urandom = urandom
    _random._urandom = urandom

    import numpy as np
    _NP['seed'] = np.random.seed
    _NP['set_state'] = np.random.set_state
    _NP['RandomState'] = np.random.RandomState
    _NP['default_rng'] = np.random.default_rng

    def np_seed(seed=None):
        w = _CURRENT
        if w is not None:
            w.reseeds.append(('numpy.random.seed', seed))
            if seed is None:
                w.entropy += 1
                seed = w.rand_seed % (1 << 32)
        return _NP['seed'](seed)

    def np_set_state(state):
        w = _CURRENT
        if w is not None:
            w.reseeds.append(('numpy.random.set_state', None))
        return _NP['set_state'](state)

    def _np_entropy(seed):
        w = _CURRENT
        if seed is None and w is not None:
            w.entropy += 1
            w.rand_instances += 1
            return (w.rand_seed * 1000003 + w.rand_instances) % (1 << 32)
        return seed

    class SimRandomState(np.random.RandomState):
        def __init__(self, seed=None):
            np.random.RandomState.__init__(self, _np_entropy(seed))

    def default_rng(seed=None):
        return _NP['default_rng'](_np_entropy(seed))

    SimRandomState.__name__ = 'RandomState'
    np.random.seed = np_seed
    np.random.set_state = np_set_state
    _real_rs = np.random.RandomState

    class _RS(_real_rs):
        def __init__(self, seed=None):
            _real_rs.__init__(self, _np_entropy(seed))
    _RS.__name__ = 'RandomState'
    np.random.RandomState = _RS
    np.random.default_rng = default_rng


# ------------------------------------------------------------------------------------------------ clock

def _install_clock():
    real = {n: getattr(_time, n) for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'sleep',
                                           'time_ns', 'monotonic_ns', 'perf_counter_ns')}
    _NP['real_time'] = real

    def mk(name, wall, ns):
        r = real[name]

        def f():
            w = _CURRENT
            if w is None:
                return r()
            v = w.now + (w.wall_offset if wall else 0.0)
            return int(v * 1e9) if ns else v
        f.__name__ = name
        return f

    for n in real:
        if n == 'sleep':
            continue
        setattr(_time, n, mk(n, n.startswith('time'), n.endswith('_ns')))

    def sleep(s):
        w = _CURRENT
        if w is None:
            return real['sleep'](s)
        w.advance(s)
    _time.sleep = sleep

    def secs(name, pos):
        r = getattr(_time, name)

        def f(*a):
            w = _CURRENT
            if w is not None and len(a) <= pos:
                if name == 'strftime':
                    a = a + (_time.gmtime(w.now + w.wall_offset),)
                elif name == 'asctime':
                    a = (_time.gmtime(w.now + w.wall_offset),)
                else:
                    a = (w.now + w.wall_offset,)
            return r(*a)
        f.__name__ = name
        setattr(_time, name, f)
    for n, pos in (('gmtime', 0), ('localtime', 0), ('ctime', 0), ('asctime', 0), ('strftime', 1)):
        secs(n, pos)
    real_date = _datetime.date

    class SimDate(real_date):
        @classmethod
        def today(cls):
            w = _CURRENT
            if w is None:
                return real_date.today()
            return real_date.fromtimestamp(w.now + w.wall_offset)
    SimDate.__name__ = SimDate.__qualname__ = 'date'
    _datetime.date = SimDate
    _timeit.default_timer = _time.perf_counter

    real_dt = _datetime.datetime

    class SimDatetime(real_dt):
        @classmethod
        def now(cls, tz=None):
            w = _CURRENT
            if w is None:
                return real_dt.now(tz)
            return real_dt.fromtimestamp(w.now + w.wall_offset, tz if tz is not None else _datetime.timezone.utc
                                         ).replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()
    SimDatetime.__name__ = 'datetime'
    SimDatetime.__qualname__ = 'datetime'
    _datetime.datetime = SimDatetime

    import unidecode as _u
    real_unidecode = _u.unidecode

    def unidecode(string, *a, **k):
        w = _CURRENT
        if w is not None:
            if w.work_cost:
                w.work_done += w.work_cost
                w.advance(w.work_cost)
            if w.on_work is not None:
                w.on_work()
        return real_unidecode(string, *a, **k)
    _u.unidecode = unidecode


# ---------------------------------------------------------------------------------------- step budget

_TOOL = 4


def _on_jump(code, a, b):
    w = _CURRENT
    if w is not None:
        w.jumps += 1
        if w.jumps > w.jump_budget:
            w.jump_budget = 1 << 60      # fire once; let unwinding code run
            raise SimLivelock('more than %d loop iterations' % (w.jumps - 1))


def _watch_code(co, seen):
    if co in seen:
        return
    seen.add(co)
    mon = sys.monitoring
    mon.set_local_events(_TOOL, co, mon.events.JUMP)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            _watch_code(c, seen)


def watch_modules(prefixes):
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, 'fogsim')
        mon.register_callback(_TOOL, mon.events.JUMP, _on_jump)
    seen = set()
    for name, m in sorted(sys.modules.items()):
        if m is None or not any(name == p or name.startswith(p + '.') for p in prefixes):
            continue
        stack = list(vars(m).values())
        done = set()
        while stack:
            o = stack.pop()
            if id(o) in done:
                continue
            done.add(id(o))
            if isinstance(o, types.FunctionType):
                if o.__module__ == name:
                    _watch_code(o.__code__, seen)
            elif isinstance(o, type) and o.__module__ == name:
                for v in vars(o).values():
                    if isinstance(v, (staticmethod, classmethod)):
                        v = v.__func__
                    if isinstance(v, property):
                        stack.extend(x for x in (v.fget, v.fset) if x)
                    stack.append(v)
    return len(seen)


# ------------------------------------------------------------------------------------------------- id()

def sim_id(o):
    w = _CURRENT
    if w is None:
        return builtins.id(o)
    e = w.ids.get(builtins.id(o))
    if e is None:
        v = _REAL_RANDOM('%d/id/%d' % (w.rand_seed, len(w.ids))).getrandbits(46) << 4
        e = w.ids[builtins.id(o)] = (v, o)
    return e[0]


_INSTALLED = False


def install():
    """Install every seam, then import fog from the tree under test."""
    global _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    assert not any(m == 'fog' or m.startswith('fog.') for m in sys.modules), 'fog imported before the seams'
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    _install_random()
    _install_clock()
    from fogsim import simpool, simfs, simthreads
    simpool.install()
    simfs.install()
    simthreads.install()
    import importlib
    for m in ('fog.clustering', 'fog.join', 'fog.graph', 'fog.evaluation', 'fog.key', 'fog.lsh', 'fog.metrics',
              'fog.phonetics', 'fog.tokenizers', 'fog.utils', 'fog.cli.__main__'):
        importlib.import_module(m)
    import fog
    assert os.path.realpath(os.path.dirname(fog.__file__)) == os.path.realpath(os.path.join(REPO, 'fog')), fog.__file__
    for name, m in list(sys.modules.items()):
        if name.startswith('fog.') and m is not None:
            m.__dict__['id'] = sim_id
    watch_modules(['fog', 'phylactery'])
