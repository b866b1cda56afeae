"""Signatures estimate the Jaccard similarity for every draw of hash functions.

Exact laws are checked under adversarial draws (a signature is a position-wise minimum over the token set); the
statistical laws over many simulated generators, with a Hoeffding bound that a correct generator exceeds with
probability < 1e-13 per run, plus the known bias of linear universal hashing."""
import math

from fogsim import world as W
from fogsim.props.c03 import draw_script
from fogsim.util import call
from fogsim.work import gen_seed, gen_strings
from fogsim.world import Violation

LOG = math.log(2 / 1e-13)
BIAS = {'MinHash': 0.03, 'MinHash-numpy': 0.03, 'SuperMinHash': 0.04, 'LSBMinHash': 0.08}
KINDS = ['MinHash', 'MinHash-numpy', 'LSBMinHash', 'SuperMinHash']


def build(kind, h, seed):
    from fog.lsh import minhash as M
    if kind == 'MinHash':
        return M.MinHash(h, seed=seed)
    if kind == 'MinHash-numpy':
        return M.MinHash(h, seed=seed, use_numpy=True)
    if kind == 'LSBMinHash':
        return M.LSBMinHash(precision=h, seed=seed)
    return M.SuperMinHash(h)


def similarity(kind, a, b):
    from fog.lsh import minhash as M
    return (M.lsb_minhash_similarity if kind == 'LSBMinHash' else M.minhash_similarity)(a, b)


def ints(s):
    return [x if type(x) in (int, float) else int(x) for x in s]


def laws(ch, w):
    """Exact laws, under adversarial draws when unseeded."""
    kind = ch.pick(KINDS)
    h = ch.pick([1, 2, 3]) if kind == 'LSBMinHash' else ch.pick([1, 2, 3, 5, 8, 17, 64, 130, 300])
    seed = gen_seed(ch, kind == 'MinHash-numpy') if ch.chance(1, 2) else None
    if seed is None:
        draw_script(ch, w)
        W._NP['seed'](ch.below(1 << 30))
    text = ch.chance(1, 3)
    if text:
        al = ch.pick(['abcdefgh', 'aб中\U0001f600\U0010ffff', '\x00\x01a'])
        A, B = (''.join(ch.pick(al) for _ in range(ch.between(1, 9))) for _ in range(2))
        union = A + B
    else:
        pool = ['t%d' % ch.below(1 << 16) for _ in range(ch.between(2, 14))] + ch.pick([[], [''], ['é', '\U0001f600'], ['x' * 400]])
        A, B = ([ch.pick(pool) for _ in range(ch.between(1, 12))] for _ in range(2))
        union = A + B
    what = '%s(%d, seed=%r, draws %r) on %r and %r' % (kind, h, seed, w.rand_script, A, B)
    m = call(lambda: build(kind, h, seed), what)
    sign = lambda d: ints(call(lambda: m.create_signature(d), what))
    a, b, u = sign(A), sign(B), sign(union)
    if not len(a) == len(b) == len(u) == h:
        raise Violation('bad-signature', '%s: %d, %d and %d integers instead of %d' % (what, len(a), len(b), len(u), h))
    top = {'LSBMinHash': 1 << 64, 'SuperMinHash': math.inf}.get(kind, 1 << 32)
    if any(not 0 <= x < top for x in a + b + u):
        raise Violation('bad-signature', '%s: integers out of range: %r %r %r' % (what, a, b, u))
    if kind == 'LSBMinHash':
        bad = [i for i in range(h) if (u[i] ^ a[i]) & (u[i] ^ b[i])]
        eq = sum(64 - bin(x ^ y).count('1') for x, y in zip(a, b)) / (64.0 * h)
        want = 2 * eq - 1
    else:
        bad = [i for i in range(h) if u[i] != min(a[i], b[i])]
        want = sum(x == y for x, y in zip(a, b)) / float(h)
    if bad:
        raise Violation('not-a-minimum', '%s: the signature of the union is not the minimum of the signatures at positions %r: %r %r %r' % (what, bad[:5], a[:8], b[:8], u[:8]))
    if text:
        other = ''.join(reversed(A)) + A[:1]
    else:
        other = ch.pick([lambda x: tuple(reversed(x)), set, frozenset, lambda x: list(x) + x[:1], lambda x: iter(list(x)), lambda x: dict.fromkeys(x)])(A)
    if sign(other) != a:
        raise Violation('token-set', '%s: %r and %r have the same tokens and different signatures' % (what, A, other))
    for x, y in ((a, b), (b, a)):
        got = call(lambda: similarity(kind, x, y), what)
        if abs(got - want) > 1e-9:
            raise Violation('estimate', '%s: similarity of %r and %r is %r instead of %r' % (what, x[:6], y[:6], got, want))
    if set(A) == set(B) and a != b:
        raise Violation('token-set', '%s: same tokens, different signatures' % what)
    if call(lambda: similarity(kind, a, a), what) != 1.0:
        raise Violation('estimate', '%s: a signature is not at similarity 1 of itself' % what)
    if not w.rand_script and kind != 'SuperMinHash':
        # distinct hash functions: no two positions behave alike on single-token documents
        k = 60 if kind == 'LSBMinHash' else 3
        rng = W._REAL_RANDOM(ch.below(1 << 20))
        rows = [sign(['v%x' % rng.getrandbits(48)]) for _ in range(k)]
        if kind == 'LSBMinHash':
            cols = [tuple(r[i // 64] >> (i % 64) & 1 for r in rows) for i in range(64 * h)]
        else:
            cols = list(zip(*rows))
        if len(set(cols)) != len(cols):
            raise Violation('repeated-function', '%s: two positions of the signature use the same hash function' % what)
    w.probe('laws_' + kind)
    return {'nontrivial': True, 'sig': what, 'sample': what}


def collisions(ch, w):
    """Tokens are told apart: 3000 single-token documents, at most a couple of signatures in common."""
    kind = ch.pick(['MinHash', 'MinHash', 'MinHash-numpy', 'SuperMinHash'])
    h = ch.pick([2, 3])
    seed = ch.below(1 << 20) if ch.chance(1, 2) else None
    w.rand_script = []
    w.rand_seed = ch.below(1 << 20)
    rng = W._REAL_RANDOM(ch.below(1 << 30))
    shape = ch.pick(['t%x', '%d', 'token %d of a document', '\u4e2d%x\U0001f600', '%x' + ' padding' * 12, 'padding ' * 12 + '%x'])
    n = 3000
    first = rng.getrandbits(30)
    toks = [shape % (first + i if seed else rng.getrandbits(48)) for i in range(n)]
    what = '%s(%d, seed=%r) on %d single tokens like %r' % (kind, h, seed, n, toks[0])
    m = call(lambda: build(kind, h, seed), what)
    got = {tuple(ints(call(lambda: m.create_signature([t]), what))) for t in set(toks)}
    if len(set(toks)) - len(got) > 2:
        raise Violation('confused-tokens', '%s: only %d distinct signatures for %d distinct tokens' % (what, len(got), len(set(toks))))
    w.probe('collisions')
    return {'nontrivial': True, 'sig': what, 'sample': what}


def documents(rng, union, common, shape='t%x'):
    if shape == 'text':
        start = rng.choice([97, 48, 0, 0, 0x430, 0x4e00, 0x1f600])
        codes = rng.sample(range(40), union)
        if not start and codes and 0 not in codes:
            codes[rng.randrange(union)] = 0   # a NUL character is a character
        toks = [chr(start + i) for i in codes]
    else:
        toks = [shape % rng.getrandbits(48) for _ in range(union)]
    cut = common + rng.randint(0, union - common)
    if cut == 0 and union:
        cut = 1 if union > 1 else 0
    if common == 0 and cut == union and union > 1:
        cut -= 1
    a, b = toks[:cut], toks[:common] + toks[cut:]
    rng.shuffle(a)
    rng.shuffle(b)
    if shape == 'text':
        return ''.join(a), ''.join(b)
    return a, b


def estimate(ch, w):
    """The mean estimate over many generators and documents of a given similarity."""
    kind = ch.pick(KINDS)
    h = 1 if kind == 'LSBMinHash' else ch.pick([1, 2, 4, 8, 16, 32])
    union = ch.pick([2, 3, 4, 6, 8, 11, 12]) if ch.chance(19, 20) else ch.pick([40, 150])
    common = ch.between(0, union)
    truth = common / float(union)
    rng = W._REAL_RANDOM(ch.below(1 << 30))
    seeded = ch.chance(1, 2)
    w.rand_script = []
    w.rand_seed = ch.below(1 << 20)
    positions = min(ch.pick([2000, 4000]), 30000 // union)
    n = max(60, positions // (h * (64 if kind == 'LSBMinHash' else 1)))
    shape = ch.pick(['t%x', 't%x', 't' + 'long prefix ' * 20 + '%x', 't%x' + ' suffix' * 30, 'té\u4e2d%x\U0001f600'])
    slack = BIAS[kind]
    if kind in ('MinHash', 'MinHash-numpy') and union <= 12 and ch.chance(1, 5):
        shape = 'text'
        slack = 0.12       # small consecutive integers are hard on linear hashing
    base = ch.below(1 << 20)
    what = '%s(%d) on %d pairs of documents with %d common tokens (like %.30r) of %d, %s generators' % (kind, h, n, common, shape, union, 'seeded %d..' % base if seeded else 'unseeded')
    total = 0.0
    per = [0] * h
    for i in range(n):
        a, b = documents(rng, union, common, shape)
        m = call(lambda: build(kind, h, base + i if seeded else None), what)
        sa, sb = ints(call(lambda: m.create_signature(a), what)), ints(call(lambda: m.create_signature(b), what))
        total += call(lambda: similarity(kind, sa, sb), what)
        if kind != 'LSBMinHash':
            for k in range(h):
                per[k] += sa[k] == sb[k]
    mean = total / n
    width = 2.0 if kind == 'LSBMinHash' else 1.0
    tol = width * math.sqrt(LOG / (2.0 * n * h * (64 if kind == 'LSBMinHash' else 1))) + slack
    if abs(mean - truth) > tol:
        raise Violation('biased', '%s: mean estimate %.4f instead of %.4f (tolerance %.4f)' % (what, mean, truth, tol))
    if kind != 'LSBMinHash':
        tol = math.sqrt((LOG + math.log(h)) / (2.0 * n)) + slack + 0.02
        for k in range(h):
            if abs(per[k] / float(n) - truth) > tol:
                raise Violation('biased-position', '%s: position %d agrees with frequency %.4f instead of %.4f (tolerance %.4f)' % (what, k, per[k] / float(n), truth, tol))
    w.probe('estimate_' + kind)
    return {'nontrivial': 0 < common < union, 'sig': what, 'sample': what}


def recall(ch, w):
    """MinHash clustering finds a pair at least as often as the banding promises."""
    from fog.clustering import minhash
    numpy = ch.chance(1, 3)
    h = ch.pick([4, 6, 8, 12, 16])
    union = ch.between(2, 12)
    common = ch.between((union + 1) // 2, union)
    truth = common / float(union)
    radius = ch.pick([truth, truth - 0.01, truth * 0.8])
    bands = ch.pick([None, None, 1, 2, 4, h])
    if bands is None:
        b = 1
        while b < h and (1.0 / b) ** (1 / (h / float(b))) > radius:
            b += 1
    else:
        b = bands
    p = 1 - (1 - truth ** (h // b)) ** b
    rng = W._REAL_RANDOM(ch.below(1 << 30))
    seeded = ch.chance(1, 2)
    w.rand_script = []
    w.rand_seed = ch.below(1 << 20)
    n = ch.pick([150, 300])
    noise = ch.below(3)
    base = ch.below(1 << 20)
    what = 'minhash(h=%d, bands=%r, radius=%r, use_numpy=%r), %d data sets with a pair sharing %d tokens of %d and %d other documents, %s' % (
        h, bands, radius, numpy, n, common, union, noise, 'seeded %d..' % base if seeded else 'unseeded')
    found = 0
    for i in range(n):
        x, y = documents(rng, union, common)
        docs = [tuple(x), tuple(y)] + [tuple('u%x' % rng.getrandbits(40) for _ in range(4)) for _ in range(noise)]
        if docs[0] == docs[1]:
            docs[1] = tuple(reversed(docs[0]))
            if docs[0] == docs[1]:
                docs[1] = docs[0] * 2
        rng.shuffle(docs)
        index = {d: set(d) for d in docs}
        kw = {'key': index.__getitem__} if i % 2 else {'key': lambda d: list(d)}
        for c in call(lambda: list(minhash(list(docs), h=h, radius=radius, bands=bands, use_numpy=numpy, seed=base + i if seeded else None, **kw)), what):
            if sum(1 for d in c if d[0][0] == 't') >= 2:
                found += 1
    tol = math.sqrt(LOG / (2.0 * n)) + 0.04
    if found / float(n) < p - tol:
        raise Violation('recall', '%s: found with frequency %.3f, expected at least %.3f (tolerance %.3f)' % (what, found / float(n), p, tol))
    w.probe('recall')
    return {'nontrivial': found > 0, 'sig': what, 'sample': what}


def run(ch, w):
    w.draw_budget *= 100
    w.jump_budget *= 40
    k = ch.below(10)
    if k < 7 and ch.chance(1, 40):
        return collisions(ch, w)
    if k < 7:
        return laws(ch, w)
    return (estimate if k < 9 else recall)(ch, w)
