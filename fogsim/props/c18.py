"""NN-Descent converges: on well-separated data it finds nearly every similar pair, whatever the draws.

The mean recall over several simulated executions (seeded, or with simulated entropy) is compared with a floor far
below what the algorithm reaches on these families; with k >= n - 1 the result must be exact for every draw,
adversarial ones included."""
from fogsim import world as W
from fogsim.props.c03 import draw_script
from fogsim.util import call
from fogsim.world import Violation


def line(a, b):
    return abs(a - b)


def chebyshev(a, b):
    return max(abs(a[0] - b[0]), abs(a[1] - b[1]))


def hamming(a, b):
    return sum(x != y for x, y in zip(a, b))


def dataset(rng, mode, n):
    """(items, distance, radius) of a family where the descent has a gradient to follow."""
    if mode == 'groups':
        size = rng.choice([2, 3, 4])
        data, d, r = [c * 1000 + i for c in range(n // size) for i in range(size)], line, 1
    elif mode == 'scattered':
        xs = sorted(rng.sample(range(40 * n), n // 2))
        data, d, r = sorted({x * 10 + i for x in xs for i in (0, 1)}), line, 3
    elif mode == 'lattice':
        data, d, r = [float(i) for i in range(n)], line, 1
    elif mode == 'plane':
        data = sorted({(x + i, y) for x, y in [(rng.randrange(1000), rng.randrange(1000)) for _ in range(n // 2)] for i in (0, 1)})
        d, r = chebyshev, 1
    else:
        data, d, r = [chr(0x4e00 + i) for i in range(n)], (lambda a, b: abs(ord(a) - ord(b)) / 4.0), 0.25
    rng.shuffle(data)
    return data, d, r


def truth(data, d, r):
    return [(i, j) for i in range(len(data)) for j in range(i) if d(data[i], data[j]) <= r]


def components(pairs, n):
    p = list(range(n))

    def find(x):
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x
    for i, j in pairs:
        p[find(i)] = find(j)
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return {frozenset(v) for v in g.values() if len(v) > 1}


def execute(ch, w, full, data, d, r, form, what, **kw):
    from fog.clustering import nn_descent, nn_descent_full
    fn = nn_descent_full if full else nn_descent
    if form == 'distance':
        kw.update(distance=d, radius=r)
    else:
        kw.update(similarity=lambda a, b: 1.0 / (1.0 + d(a, b)), radius=1.0 / (1.0 + r) - 1e-9)
    got = call(lambda: [list(c) for c in fn(list(data), **kw)], what)
    where = {x: i for i, x in enumerate(data)}
    out = set()
    for c in got:
        s = frozenset(where.get(x) for x in c)
        if None in s:
            raise Violation('unsound', '%s: %r holds an item which is not in the data' % (what, c))
        out.add(s)
    return out


def exact(ch, w):
    """Every item is every other item's neighbour: nothing is left to chance."""
    full = ch.chance(1, 2)
    n = ch.between(2, 12)
    k = n - 1 + ch.pick([0, 0, 1, 5])
    rng = W._REAL_RANDOM(ch.below(1 << 30))
    mode = ch.pick(['groups', 'scattered', 'lattice', 'plane', 'text'])
    data, d, r = dataset(rng, mode, max(n, 4))
    data = data[:n]
    k = max(k, len(data) - 1)
    r = r * ch.pick([1, 1, 2, 3])
    form = ch.pick(['distance', 'similarity'])
    draw_script(ch, w)
    seed = ch.below(1 << 20) if ch.chance(1, 3) else None
    what = '%s(k=%d, %s, radius %r, seed=%r, draws %r) on %r' % ('nn_descent_full' if full else 'nn_descent', k, form, r, seed, w.rand_script, data)
    want = components(truth(data, d, r), len(data))
    got = execute(ch, w, full, data, d, r, form, what, k=k, seed=seed)
    if got != want:
        raise Violation('not-exact', '%s: clusters %r instead of %r although every item knows every other' % (
            what, sorted(map(sorted, got))[:6], sorted(map(sorted, want))[:6]))
    w.probe('exact')
    return {'nontrivial': bool(want), 'sig': what, 'sample': what}


def recall(ch, w):
    full = ch.chance(1, 2)
    mode = ch.pick(['groups', 'scattered', 'lattice', 'plane', 'text'])
    n = ch.pick([24, 32, 48, 64, 80])
    k = ch.pick([None, 5, 6, 8] if full else [None, 3, 4, 5, 7])
    kw = {}
    if k is None:
        n = max(n, 32)
    else:
        kw['k'] = k
    if full and ch.chance(1, 3):
        kw['rho'] = ch.pick([0.75, 1.0])
    if full and ch.chance(1, 4):
        kw['delta'] = ch.pick([0.0001, 0.005])
    rng = W._REAL_RANDOM(ch.below(1 << 30))
    seeded = ch.chance(1, 2)
    form = ch.pick(['distance', 'similarity'])
    w.rand_script = []
    w.rand_seed = ch.below(1 << 20)
    base = ch.below(1 << 20)
    M = ch.pick([6, 8])
    what = '%s(%s, %s) on %d data sets of %d items (%s), %s' % (
        'nn_descent_full' if full else 'nn_descent', kw, form, M, n, mode, 'seeded %d..' % base if seeded else 'unseeded')
    total = 0.0
    for m in range(M):
        data, d, r = dataset(rng, mode, n)
        pairs = truth(data, d, r)
        got = execute(ch, w, full, data, d, r, form, what, seed=base + m if seeded else None, **kw)
        want = components(pairs, len(data))
        home = {i: s for s in want for i in s}
        comp = {}
        for s in got:
            for i in s:
                comp[i] = s
            if len({home.get(i, i) for i in s}) > 1:
                raise Violation('unsound', '%s: %r were gathered although they are not similar' % (what, [data[i] for i in sorted(s)]))
        total += sum(1 for i, j in pairs if i in comp and comp.get(j) is comp[i]) / float(len(pairs))
    mean = total / M
    if full:
        floor = 0.96 if (k or 0) >= 6 else 0.93
    else:
        floor = 0.94 if k == 3 else 0.97
    if mean < floor:
        raise Violation('recall', '%s: %.3f of the similar pairs on average were found, at least %.2f expected' % (what, mean, floor))
    w.probe('recall_full' if full else 'recall')
    if mean < 1:
        w.probe('missed_some')
    w.probe('mode_' + mode)
    return {'nontrivial': True, 'sig': what, 'sample': what, 'mean': mean}


def run(ch, w):
    w.draw_budget *= 100
    w.jump_budget *= 40
    return exact(ch, w) if ch.chance(2, 3) else recall(ch, w)
