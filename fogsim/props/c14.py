"""Native edit distances are exact and leak-free under allocation failure."""
import ctypes
import os
import sys

from fogsim.world import Violation

LIB = F = None
NAMES = ['levenshtein_distance', 'limited_levenshtein_distance', 'levenshtein_distance_lte1', 'damerau_levenshtein_distance_lte1']


def setup():
    global LIB, F, testcapi
    root = os.path.join(os.environ['FOGSIM_SCRATCH'], 'native')
    LIB = ctypes.CDLL(os.path.join(root, 'libsimalloc.so'), ctypes.RTLD_GLOBAL)
    LIB.sim_begin.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_size_t, ctypes.c_int, ctypes.c_int]
    LIB.sim_count.restype = ctypes.c_long
    sys.path.insert(0, root)
    for k in [k for k in sys.modules if k == 'cfog' or k.startswith('cfog.')]:
        del sys.modules[k]
    import cfog.metrics as m
    assert m.__file__.startswith(root), m.__file__
    F = {n: getattr(m, n) for n in NAMES}
    import _testcapi as testcapi


def trim(a, b):
    n = min(len(a), len(b))
    i = 0
    while i < n and a[i] == b[i]:
        i += 1
    k = 0
    while k < n - i and a[len(a) - 1 - k] == b[len(b) - 1 - k]:
        k += 1
    return a[i:len(a) - k], b[i:len(b) - k]


def lev(a, b):
    if len(a) + len(b) > 2000:
        a, b = trim(a, b)          # equal ends change nothing
        if len(a) > len(b):
            a, b = b, a
        if not a:
            return len(b)
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(min(prev[j] + 1, cur[-1] + 1, prev[j - 1] + (x != y)))
        prev = cur
    return prev[-1]


def damerau_lte1(a, b):
    if lev(a, b) <= 1:
        return True
    if len(a) != len(b):
        return False
    d = [i for i in range(len(a)) if a[i] != b[i]]
    return len(d) == 2 and d[1] == d[0] + 1 and a[d[0]] == b[d[1]] and a[d[1]] == b[d[0]]


ALPHABETS = ['ab', 'abc', 'abcdefgh', 'a\xe9\xff', 'aé中\U0001F600', '\U0001F600\uF600b', '\x00a\x01', '\U00010061a\U00020061', '\ud800a\udfff', 'Ā\x00ab']


def gen_string(ch, alphabet, n):
    return ''.join(ch.pick(alphabet) for _ in range(n))


def gen_length(ch):
    k = ch.below(10)
    if k <= 5:
        return ch.below(9)
    if k <= 8:
        return ch.below(40)
    if ch.chance(1, 40):
        return ch.pick([511, 512, 513, 600, 1023, 1024, 1025])
    return ch.pick([63, 64, 65, 127, 128, 129, 31, 32, 33, 255, 256, 257, 100]) if ch.chance(3, 4) else ch.between(1, 300)


def gen_huge(ch, alphabet):
    """Lengths and distances which do not fit in 16 bits; one of both strings, or their difference, stays small."""
    n = ch.pick([65535, 65536, 65537, 65540, 70000, 1 << 17])
    unit = gen_string(ch, alphabet, ch.between(1, 7))
    a = (unit * (n // len(unit) + 1))[:n]
    k = ch.below(3)
    if k == 0:
        return a, gen_string(ch, alphabet + 'q', ch.between(0, 4))
    p = ch.pick([0, n - 1, n // 2, 65535, 65534]) % n
    c = ch.pick(alphabet + 'q')
    if k == 1:
        return a, a[:p] + c + a[p + ch.below(2):]
    return a, a[:p] + c + ch.pick(alphabet) + a[p + ch.between(0, 3):]


def gen_pair(ch):
    alphabet = ch.pick(ALPHABETS)
    if ch.chance(1, 250):
        a, b = gen_huge(ch, alphabet)
        return (b, a) if ch.chance(1, 2) else (a, b)
    a = gen_string(ch, alphabet, gen_length(ch))
    k = ch.below(5)
    if k == 0:
        b = gen_string(ch, alphabet, gen_length(ch))
    else:
        b = list(a)
        for _ in range(ch.pick([1, 0, 2, 3, 5, 8])):
            p = ch.below(len(b) + 1)
            op = ch.below(4)
            if op == 0:
                b.insert(p, ch.pick(alphabet))
            elif op == 1 and b:
                b[min(p, len(b) - 1)] = ch.pick(alphabet)
            elif op == 2 and b:
                del b[min(p, len(b) - 1)]
            elif len(b) > 1:
                p = min(p, len(b) - 2)
                b[p], b[p + 1] = b[p + 1], b[p]
        b = ''.join(b)
        if ch.chance(1, 3):
            x, y = gen_string(ch, alphabet, ch.below(5)), gen_string(ch, alphabet, ch.below(5))
            a, b = x + a + y, x + b + y
    if ch.chance(1, 2):
        a, b = b, a
    return a, b


def gen_call(ch):
    name = ch.pick(NAMES)
    a, b = gen_pair(ch)
    if name == NAMES[1]:
        cap = ch.pick([1, 2, 0, 3, 4, 6, len(a), len(b), max(len(a), len(b)) + 1, abs(len(a) - len(b)), 1000, (1 << 31) - 1, (1 << 32) - 2])
        return name, (cap, a, b)
    return name, (a, b)


def expected(name, args):
    a, b = args[-2:]
    if name == NAMES[0]:
        return lev(a, b)
    if name == NAMES[1]:
        return min(lev(a, b), args[0] + 1)
    if name == NAMES[2]:
        return lev(a, b) <= 1
    return damerau_lte1(a, b)


def run(ch, w):
    calls = [gen_call(ch) for _ in range(ch.between(1, 4))]
    plans = []
    for _ in calls:
        at, ever, lim, py = -1, 0, 0, 0
        k = ch.below(6)
        if k in (1, 2):
            at = ch.below(4)
        elif k == 3:
            at, ever = ch.below(3), 1
        elif k == 4:
            lim = ch.pick([8, 16, 64, 100, 256, 1])
        elif k == 5:
            py = ch.between(1, 12)
        plans.append((at, ever, lim, ch.below(2), ch.pick([0xA5, 0, 0xFF, 1]), py))
    order = [i for i in range(len(calls)) for _ in range(ch.between(1, 2))]
    ch.commit(' then '.join('%s%r (fail #%d%s, limit %d, python allocation %d)' % (*calls[i], plans[i][0], ' and later' if plans[i][1] else '', plans[i][2], plans[i][5]) for i in order))
    nontrivial = False
    for i in order:
        name, args = calls[i]
        at, ever, lim, place, fill, py = plans[i]
        want = expected(name, args)
        what = '%s%r' % (name, args) if len(args[-1]) + len(args[-2]) < 2000 else '%s on strings of %d and %d characters: %s' % (
            name, len(args[-2]), len(args[-1]), repr(args)[:300])
        alive = None
        for attempt in range(3):
            got = err = None
            refs = [sys.getrefcount(x) for x in args]
            f = F[name]
            LIB.sim_begin(at, ever, lim, place, fill)
            before = LIB.sim_count(4)
            try:
                if py:
                    testcapi.set_nomemory(py, py + 1)
                got = f(*args)
            except MemoryError as e:
                err = 'MemoryError'
            except Exception as e:
                err = '%s: %s' % (type(e).__name__, e)
            finally:
                if py:
                    testcapi.remove_mem_hooks()
                LIB.sim_end()
            e = None
            n, failed, bad, left, pyleft = [LIB.sim_count(k) for k in range(5)]
            desc = '%s (allocation plan: fail #%d%s, limit %d, python allocation %d)' % (what, at, ' and later' if ever else '', lim, py)
            w.log('call', what[:200], 'requests', n, 'failed', failed, '->', got if err is None else err)
            if failed:
                w.fault('allocation_fails')
                nontrivial = True
            if py:
                w.fault('python_allocation_fails')
            if n:
                nontrivial = True
                w.probe('allocating_call')
            if err == 'MemoryError':
                w.probe('MemoryError_raised')
                if not failed and not py:
                    raise Violation('memoryerror', '%s raises MemoryError although no allocation failed' % desc)
            elif err is not None:
                raise Violation('error', '%s raises %s' % (desc, err))
            elif got != want or isinstance(got, bool) != isinstance(want, bool):
                raise Violation('wrong', '%s returns %r, expected %r' % (desc, got, want))
            if bad:
                raise Violation('heap', '%s: %d invalid frees or damaged blocks' % (desc, bad))
            if left:
                raise Violation('leak', '%s ends (%s) with %d blocks (%d bytes) still allocated' % (desc, err or got, left, LIB.sim_count(6)))
            now = [sys.getrefcount(x) for x in args]
            if now != refs and not (len({id(x) for x in args}) < len(args)):
                raise Violation('refs', '%s changes the reference counts of its arguments from %r to %r' % (desc, refs, now))
            if pyleft > before:
                if alive is not None and attempt == 2:
                    raise Violation('leak', '%s: every call keeps %d more blocks allocated' % (desc, pyleft - before))
                alive = pyleft
            else:
                break
    return {'nontrivial': nontrivial, 'sig': (repr(calls), repr(plans)), 'sample': repr(list(zip(calls, plans)))[:600]}
