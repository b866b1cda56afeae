"""Workload building blocks: data, callbacks with injectable faults, streams."""
import functools
import hashlib
from collections import UserList, deque

import Levenshtein

from fogsim import world as _w
from fogsim.world import InjectedError, InjectedValueError, SimLivelock

INF = float('inf')
CALL_BUDGET = _w.CALL_BUDGET


# -------------------------------------------------------------------------------------------- faults

class Unpicklable(Exception):
    def __init__(self, *a):
        Exception.__init__(self, *a)
        self.cargo = lambda: None


class Unloadable(Exception):
    """Can be pickled but not unpickled, as many exceptions whose constructor takes several arguments."""

    def __init__(self, message, *, code):
        Exception.__init__(self, message)
        self.code = code


EXCEPTIONS = {
    'error': InjectedError, 'value': InjectedValueError, 'key': KeyError, 'index': IndexError,
    'type': TypeError, 'attr': AttributeError, 'os': OSError, 'memory': MemoryError, 'runtime': RuntimeError,
    'zero': ZeroDivisionError, 'stop': StopIteration, 'unpicklable': Unpicklable, 'eof': EOFError,
    'unloadable': functools.partial(Unloadable, code=3),
    'assert': AssertionError, 'notimpl': NotImplementedError, 'lookup': LookupError, 'timeout': TimeoutError,
}
# not errors; injected where no worker process would die of them
BASES = {'kbd': KeyboardInterrupt, 'exit': SystemExit, 'genexit': GeneratorExit}
MARK = 'injected-fault-marker'


def carries_marker(exc):
    """Whether an exception that reached the caller carries the injected one."""
    seen = set()
    stack = [exc]
    while stack:
        e = stack.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if MARK in str(e) or MARK in repr(e) or MARK in str(getattr(e, 'tb', '')):
            return True
        stack.extend([e.__cause__, e.__context__])
    return False


class Fault(object):
    """Raise exception `exc` from a callback: on a given pair/item (keyed by content, hence independent of the
    schedule) or at the n-th call."""

    def __init__(self, exc, match=None, nth=None):
        self.exc, self.match, self.nth = exc, match, nth
        self.count = 0

    def check(self, args):
        if self.nth is not None:
            self.count += 1
            hit = self.count == self.nth + 1
        else:
            hit = tuple(sorted(repr(a) for a in args)) == self.match
        if hit:
            w = _w.world()
            w.fired += 1
            w.fault('callback_raises_' + self.exc)
            raise (EXCEPTIONS.get(self.exc) or BASES[self.exc])(MARK)


class PickleFault(object):
    """A callback that works but cannot be sent to another process."""

    def __init__(self, exc):
        self.exc = exc

    def check(self, args):
        pass

    def __reduce__(self):
        w = _w.world()
        w.fired += 1
        w.fault('callback_cannot_be_pickled')
        raise (EXCEPTIONS.get(self.exc) or BASES[self.exc])(MARK)


# ------------------------------------------------------------------------------------------ callbacks

def _d_int(a, b):
    return abs(a - b)


def _d_rec(a, b):
    return abs(a[0] - b[0])


def _d_vec(a, b):
    return sum(abs(x - y) for x, y in zip(a, b))


def _d_flt(a, b):
    return abs(a - b)          # multiples of 1/4: exact


def _d_rel(a, b):
    a, b = tuple(a), tuple(b)
    x, y = (a, b) if a[0] <= b[0] else (b, a)
    if x[0] == y[0]:
        return 0
    return hashlib.md5(('%r|%r' % (x, y)).encode()).digest()[0] % 5


def jaccard(a, b):
    A, B = set(a), set(b)
    u = len(A | B)
    return len(A & B) / u if u else 0.0


DISTANCES = {'int': _d_int, 'rec': _d_rec, 'vec': _d_vec, 'str': Levenshtein.distance, 'rel': _d_rel, 'flt': _d_flt}


class Callback(object):
    """Base of every user callback handed to fog.  Picklable; looks the world up at call time."""

    fault = None

    def with_fault(self, fault):
        c = self.__class__.__new__(self.__class__)
        c.__dict__.update(self.__dict__)
        c.fault = fault
        return c

    def __call__(self, *args):
        w = _w.world()
        if w is not None:
            w.calls += 1
            if w.calls > w.call_budget:
                raise SimLivelock('more than %d callback evaluations' % w.call_budget)
            if self.fault is not None:
                self.fault.check(args)
            if w.on_call is not None:
                w.on_call()
        return self.compute(*args)


class Metric(Callback):
    def __init__(self, domain, form, r, exact=False):
        self.domain, self.form, self.r, self.exact = domain, form, r, exact

    def __repr__(self):
        return '%s/%s/r=%s%s' % (self.domain, self.form, self.r, '!' if self.exact else '')

    def compute(self, a, b):
        d = DISTANCES[self.domain](a, b)
        f = self.form
        if f == 'distance':
            return d
        if f == 'similarity':
            return 1.0 / (1.0 + d)
        if f == 'bool_sim':
            return d <= self.r
        return d > self.r          # bool_dist

    def kwargs(self):
        k = {'similarity' if self.form in ('similarity', 'bool_sim') else 'distance': self}
        if self.form == 'distance':
            k['radius'] = self.r
        elif self.form == 'similarity':
            k['radius'] = 1.0 / ((1.0 if self.exact else 1.125) + self.r)
        return k


class Key(Callback):
    """Key / block / tokenizer functions, by name."""

    def __init__(self, kind, arg=None):
        self.kind, self.arg = kind, arg

    def __repr__(self):
        return '%s(%s)' % (self.kind, self.arg)

    def compute(self, x):
        k, a = self.kind, self.arg
        if k == 'first':            # record -> payload
            return x[0]
        if k == 'mod':
            return _num(x) % a
        if k == 'mod_none':         # falsy / None keys now and then
            v = _num(x) % a
            return [None, '', 0][v % 3] if v < a // 3 else 'k%d' % v
        if k == 'mods':             # several blocks, possibly repeated
            v = _num(x)
            return [v % a, (v // a) % a + a, v % a]
        if k == 'mods_gen':
            v = _num(x)
            return (y for y in (v % a, 100 + v % 3, v % a))
        if k == 'mods_str':
            v = _num(x)
            return ['b%d' % (v % a), 'c%d' % (v // 3 % a), 'd%d' % (v // 5 % 3), 'b%d' % (v % a)]
        if k == 'mods_set':
            v = _num(x)
            return {'b%d' % (v % a), 'c%d' % (v // 3 % a)}
        if k == 'mods_none':
            v = _num(x)
            return None if v % 5 == 0 else [v % a or '', 'z%d' % (v // 2 % a)]
        if k == 'chars':
            return list(x)
        if k == 'charset':
            return set(x)
        if k == 'chartuple':
            return tuple(x)
        if k == 'bigrams':
            return [x[i:i + 2] for i in range(max(1, len(x) - 1))] if x else []
        if k == 'rev':
            return x[::-1]
        if k == 'len':
            return len(x)
        if k == 'ident':
            return x
        if k == 'neg':
            return -_num(x)
        raise AssertionError(k)


def _num(x):
    if isinstance(x, (int, float)):
        return abs(int(4 * x) if isinstance(x, float) else x)
    if isinstance(x, str):
        return int.from_bytes(hashlib.md5(x.encode()).digest()[:3], 'big')
    return sum((i * 7 + 3) * abs(_num(v)) for i, v in enumerate(x))


# --------------------------------------------------------------------------------------------- data

def gen_strings(ch, n, alphabet=None, maxlen=6, minlen=0):
    alphabet = alphabet or ch.pick(['ab', 'abc', 'abcd', 'aé\U0001F600b'])
    out = []
    seen = set()
    tries = 0
    while len(out) < n and tries < 8 * n + 20:
        tries += 1
        if out and ch.chance(1, 2):
            # mutate an existing one: near-duplicates
            s = list(ch.pick(out))
            op = ch.below(3)
            p = ch.below(len(s) + 1)
            if op == 0:
                s.insert(p, ch.pick(alphabet))
            elif s:
                p = min(p, len(s) - 1)
                if op == 1:
                    s[p] = ch.pick(alphabet)
                else:
                    del s[p]
            s = ''.join(s)[:maxlen + 2]
        else:
            s = ''.join(ch.pick(alphabet) for _ in range(ch.between(minlen, maxlen)))
        if len(s) < minlen or s in seen:
            continue
        seen.add(s)
        out.append(s)
    return out


def gen_items(ch, domain, n):
    if domain == 'int':
        span = max(1, ch.pick([n, 2 * n, 4 * n, 12 * n]))
        pool = sorted({ch.below(span) for _ in range(n)})
        return ch.shuffle(pool)
    if domain == 'flt':
        span = max(1, ch.pick([4 * n, 8 * n, 16 * n]))
        return ch.shuffle(sorted({(ch.below(span) - n) / 4.0 for _ in range(n)}))
    if domain == 'rec':
        span = max(1, ch.pick([1, 2, 3, n, 3 * n]))
        return [(ch.below(span), i) for i in range(n)]
    if domain == 'vec':
        k = ch.between(1, 3)
        s = sorted({tuple(ch.below(5) for _ in range(k)) for _ in range(n)})
        return ch.shuffle(s)
    if domain == 'str':
        return gen_strings(ch, n)
    if domain == 'rel':
        salt = ch.below(1 << 16)
        return [(i, salt) for i in range(n)]
    raise AssertionError(domain)


def gen_radius(ch, domain):
    if domain == 'rel':
        return ch.pick([0, 0, 1, 2])
    if domain == 'flt':
        return ch.pick([0.25, 0.5, 1.0, 1.75, 2.5, 0.0])
    if domain == 'str':
        return ch.pick([1, 0, 2, 3])
    if domain == 'int' or domain == 'rec':
        return ch.pick([1, 2, 0, 3, 5])
    return ch.pick([1, 2, 0, 3])


def large():
    w = _w.world()
    if w is not None and w.call_budget == CALL_BUDGET:
        w.call_budget *= 20
        w.jump_budget *= 20


def size(ch, top=24):
    """Mostly small, sometimes 0, 1 or 2, sometimes larger."""
    k = ch.below(12)
    if k == 0:
        if top >= 20 and ch.chance(1, 15):
            large()
            return ch.pick([64, 65, 101, 128, 150])
        return ch.below(3)
    if k <= 6:
        return ch.between(2, max(2, top // 2))
    return ch.between(3, top)


def chunk(ch, n, sizes):
    return ch.pick(sizes if n <= 60 else [13, 20, 50, 99, 100])


def bounds(ch):
    k = ch.below(5)
    if k <= 2:
        return 2, INF
    if ch.chance(1, 8):
        return ch.pick([(1, INF), (1, 1), (1, 2), (1, 4), (3, 2), (0, 3), (2, 1)])
    lo = ch.between(2, 4)
    if k == 3:
        return lo, INF
    return lo, lo + ch.below(5)


# ------------------------------------------------------------------------------------------- streams

class Stream(object):
    """A one-shot input delivering items lazily; may fail at a chosen point; records its consumption."""

    def __init__(self, items, fail_at=None, exc='error'):
        self.items = list(items)
        self.pos = 0
        self.ended = 0
        self.fail_at, self.exc = fail_at, exc

    def __iter__(self):
        return self

    def __next__(self):
        w = _w.world()
        if w is not None:
            w.advance(0.01)
        if self.fail_at is not None and self.pos == self.fail_at:
            self.fail_at = None
            if w is not None:
                w.fired += 1
                w.fault('input_raises_' + self.exc)
            raise EXCEPTIONS[self.exc](MARK)
        if self.pos >= len(self.items):
            self.ended += 1
            if w is not None and self.ended > 1000:
                raise SimLivelock('input asked for items %d times after its end' % self.ended)
            raise StopIteration
        x = self.items[self.pos]
        self.pos += 1
        return x


class Iterable(object):
    """Can be iterated again, has no length and no items."""

    def __init__(self, items):
        self._items = list(items)

    def __iter__(self):
        return iter(list(self._items))


class SubList(list):
    pass


def gen_fn(items):
    for x in items:
        yield x


DELIVERIES = ['dict', 'sublist', 'userlist', 'iterable', 'stream', 'generator', 'tuple', 'iter', 'deque', 'dictkeys', 'map', 'list']


def deliver(kind, items):
    if kind == 'list':
        return list(items)
    if kind == 'stream':
        return Stream(items)
    if kind == 'generator':
        return gen_fn(items)
    if kind == 'tuple':
        return tuple(items)
    if kind == 'iter':
        return iter(list(items))
    if kind == 'deque':
        return deque(items)
    if kind == 'map':
        return map(lambda x: x, items)
    if kind == 'iterable':
        return Iterable(items)
    if kind == 'sublist':
        return SubList(items)
    if kind == 'userlist':
        return UserList(items)
    if kind == 'dictkeys' or kind == 'dict':
        if any(isinstance(x, list) for x in items):
            return tuple(items)
        d = dict.fromkeys(items)
        return tuple(items) if len(d) != len(items) else d if kind == 'dict' else d.keys()
    raise AssertionError(kind)


def gen_seed(ch, numbers=False):
    """A seed, as a caller may give one (numpy only takes small positive numbers)."""
    k = ch.below(12)
    if k == 1 and not numbers:
        return ch.pick(['fog', 'a seed', '', 'é', b'fog'])
    if k == 2:
        return 0
    if k == 3 and not numbers:
        return ch.pick([1 << 70, -7, 2.5])
    return ch.below(1 << 16)
