"""Every clustering and join routine of fog behind one interface (Case), with its reference model."""
import functools
import os

from fogsim import ref as R
from fogsim.work import (DISTANCES, INF, Key, Metric, bounds, chunk, gen_items, gen_radius, gen_seed, gen_strings, jaccard, large, size)

CC, FZ = 'connected_components', 'fuzzy_clusters'
MODES = [CC, FZ]


class Case(object):
    kind = 'clusters'
    parallel = False         # accepts processes=
    seeded = False           # accepts seed=
    second = None            # second input (joins)
    exact = True             # ref is the full definition (not only soundness)
    omit = ()                # arguments having their documented default and not passed

    def __init__(self, name, fn, items, args, kwargs, ref, **extra):
        self.name, self.fn, self.items, self.args, self.kwargs, self.ref = name, fn, items, args, kwargs, ref
        self.__dict__.update(extra)

    def callbacks(self):
        out = {}
        for k, v in self.kwargs.items():
            if isinstance(v, (Metric, Key)):
                out[k] = v
            elif isinstance(v, (list, tuple)) and any(isinstance(x, Key) for x in v):
                for i, x in enumerate(v):
                    if isinstance(x, Key):
                        out['%s[%d]' % (k, i)] = x
        return out

    def start(self, data=None, second=None, faults=None, **over):
        kw = {k: v for k, v in self.kwargs.items() if k not in self.omit}
        for k, f in (faults or {}).items():
            if '[' in k:
                base, i = k[:-1].split('[')
                seq = list(kw[base])
                seq[int(i)] = seq[int(i)].with_fault(f)
                kw[base] = seq
            else:
                kw[k] = kw[k].with_fault(f)
        kw.update(over)
        data = list(self.items) if data is None else data
        if self.second is not None:
            return self.fn(data, list(self.second) if second is None else second, **kw)
        return self.fn(data, **kw)

    def canon(self, result):
        if self.kind == 'pairs':
            return self.ref.canon(result)
        return R.canon(result)

    def describe(self):
        d = {k: (v if not isinstance(v, (Metric, Key)) else
                 ('%s/%s/r=%s' % (v.domain, v.form, v.r) if isinstance(v, Metric) else '%s(%s)' % (v.kind, v.arg)))
             for k, v in self.kwargs.items() if k not in self.omit}
        s = '%s(%r, %s)' % (self.name, self.items, ', '.join('%s=%r' % kv for kv in sorted(d.items())))
        if self.second is not None:
            s += ' second=%r' % (self.second,)
        return s[:900]


def _graph_ref(items, adj, mode, lo, hi):
    return R.RefComponents(items, adj, lo, hi) if mode == CC else R.RefCover(items, adj, lo, hi)


def _metric(ch, domains=('int', 'str', 'rec', 'vec', 'rel', 'flt'), forms=('distance', 'similarity', 'bool_sim', 'bool_dist'),
            exact=True):
    domain = ch.pick(list(domains))
    form = ch.pick(list(forms))
    return Metric(domain, form, gen_radius(ch, domain), exact and ch.chance(1, 2))


def _variety(ch, items):
    """Items that cannot be hashed, or several equal items, for the routines which only compare them."""
    if items and isinstance(items[0], tuple):
        return [list(x) for x in items] if ch.chance(1, 4) else items
    if items and len(items) < 30 and ch.chance(1, 8):
        items = items + [ch.pick(items) for _ in range(ch.between(1, 3))]
        return ch.shuffle(items)
    return items


def _sim(m, items):
    d = DISTANCES[m.domain]
    return lambda i, j: d(items[i], items[j]) <= m.r


# ---------------------------------------------------------------------------------------------- routines

def pairwise(ch, top=24, mode=None, dups=False):
    from fog import clustering as C
    mode = mode or ch.pick([FZ, CC])
    lo, hi = bounds(ch)
    use_key = ch.chance(1, 4)
    if use_key:
        m = _metric(ch, domains=('int', 'str'))
        base = gen_items(ch, m.domain, size(ch, top))
        if base and ch.chance(1, 2):
            base = base + [ch.pick(base) for _ in range(ch.below(4))]
        items = [(v, 'u%d' % i) for i, v in enumerate(base)]
        sim = _sim(m, base)
        kw = dict(m.kwargs(), key=Key('first'))
    else:
        m = _metric(ch)
        items = _variety(ch, gen_items(ch, m.domain, size(ch, top)))
        sim = _sim(m, items)
        kw = m.kwargs()
    adj = R.graph_from(len(items), sim)
    kw.update(min_size=lo, max_size=hi)
    kw['chunk_size'] = chunk(ch, len(items), [1, 2, 3, 4, 5, 7, 10, 100, max(1, len(items)), max(1, len(items) - 1), len(items) + 1])
    if ch.chance(1, 2):
        fn = C.pairwise
        kw['mode'] = mode
    else:
        fn = C.pairwise_fuzzy_clusters if mode == FZ else C.pairwise_connected_components
    return Case('pairwise/' + mode, fn, items, (), kw, _graph_ref(items, adj, mode, lo, hi), parallel=True, mode=mode,
                metric=m, adj=adj)


def pairwise_leader(ch, top=24):
    from fog import clustering as C
    lo, hi = bounds(ch)
    m = _metric(ch)
    items = _variety(ch, gen_items(ch, m.domain, size(ch, top)))
    adj = R.graph_from(len(items), _sim(m, items))
    kw = dict(m.kwargs(), min_size=lo, max_size=hi)
    ref = R.RefSets(items, [c for c in R.leader(adj, len(items), hi) if len(c) > 1], lo, hi, partition=True)
    ref.singles = False
    if ch.chance(1, 2):
        return Case('pairwise/leader', C.pairwise, items, (), dict(kw, mode='leader'), ref, metric=m, adj=adj, mode='leader')
    return Case('pairwise/leader', C.pairwise_leader, items, (), kw, ref, metric=m, adj=adj, mode='leader')


def blocking(ch, top=24):
    from fog import clustering as C
    mode = ch.pick(MODES)
    lo, hi = bounds(ch)
    m = _metric(ch)
    items = gen_items(ch, m.domain, size(ch, top))
    many = ch.chance(1, 2)
    k = Key(ch.pick(['mods', 'mods_gen', 'mods_set', 'mods_str']) if many else 'mod', ch.between(1, 5))
    sim = _sim(m, items)
    bl = [set(k.compute(x)) if many else {k.compute(x)} for x in items]
    adj = R.graph_from(len(items), lambda i, j: bool(bl[i] & bl[j]) and sim(i, j))
    kw = dict(m.kwargs(), min_size=lo, max_size=hi, mode=mode)
    kw['blocks' if many else 'block'] = k
    return Case('blocking/' + mode, C.blocking, items, (), kw, _graph_ref(items, adj, mode, lo, hi), parallel=True,
                mode=mode, metric=m, adj=adj)


def quickjoin(ch, top=28, huge=False):
    from fog import clustering as C
    mode = ch.pick(MODES)
    lo, hi = bounds(ch)
    # float rounding may break the triangle inequality at the very radius: no exact radius
    m = _metric(ch, domains=('int', 'rec', 'str', 'vec', 'flt'), forms=('distance', 'similarity'), exact=False)
    if huge:                    # more than the default block size
        large()
        m = Metric('int', 'distance', ch.pick([1, 2]))
        items = gen_items(ch, 'int', ch.between(540, 700))
    else:
        items = gen_items(ch, m.domain, size(ch, top))
    adj = R.graph_from(len(items), _sim(m, items))
    kw = dict(m.kwargs(), min_size=lo, max_size=hi, mode=mode)
    kw['block_size'] = ch.pick([500, 1, 2, 3, 4, 6, 10] if len(items) <= 60 else [500, 10, 25, 64])
    if ch.chance(1, 3):
        kw['beta'] = ch.pick([1.0, 0.5, 1.5, 0.25, 2.0, 0.0])
    kw['vp_tree'] = ch.chance(1, 3)
    kw['seed'] = gen_seed(ch)
    if huge:
        kw.update(block_size=500)
        kw.pop('beta', None)
    return Case('quickjoin/' + mode, C.quickjoin, items, (), kw, _graph_ref(items, adj, mode, lo, hi), parallel=True,
                seeded=True, mode=mode, metric=m, adj=adj)


def key_collision(ch, top=24):
    from fog import clustering as C
    lo, hi = bounds(ch)
    domain = ch.pick(['int', 'str', 'rec'])
    items = gen_items(ch, domain, size(ch, top))
    form = ch.below(3)
    if form != 1:
        items = _variety(ch, items)
    kw = dict(min_size=lo, max_size=hi)
    mod = ch.between(1, 9)
    if form == 0:
        k = kw['key'] = Key(ch.pick(['mod_none', 'mod']), mod)
        keys = [[k.compute(x)] for x in items]
    else:
        k = kw['keys'] = Key(ch.pick(['mods', 'mods_gen', 'mods_set', 'mods_none', 'mods_str']), mod)
        keys = [list(k.compute(x) or ()) for x in items]
        if form == 2:
            kw['merge'] = False
    buckets = {}
    for i, ks in enumerate(keys):
        for key in dict.fromkeys(ks):
            if key:
                buckets.setdefault(key, []).append(i)
    if form == 1:
        pairs = [(b[0], y) for b in buckets.values() for y in b[1:]]
        ref = R.RefComponents(items, R.graph_from_pairs(len(items), pairs), lo, hi)
        mode = CC
    else:
        ref = R.RefSets(items, list(buckets.values()), lo, hi, partition=form == 0)
        mode = 'buckets'
    return Case('key_collision', C.key_collision, items, (), kw, ref, mode=mode)


def _sorted_window(items, key, window):
    S = sorted(range(len(items)), key=lambda i: key.compute(items[i]) if key is not None else items[i])
    out = []
    for a in range(len(S)):
        for b in range(a + 1, min(len(S), a + window)):
            out.append((S[a], S[b]))
    return out


def _sn_common(ch, top):
    mode = ch.pick(MODES)
    lo, hi = bounds(ch)
    m = _metric(ch, domains=('int', 'str', 'rec', 'vec', 'flt'))
    items = gen_items(ch, m.domain, size(ch, top))
    multi = ch.chance(1, 2)
    key_kinds = ['neg', 'mod', None, 'rev' if m.domain in ('str', 'vec', 'rec') else 'neg']
    mk = lambda: (lambda k: None if k is None else Key(k, 7))(ch.pick(key_kinds))
    kw = dict(m.kwargs(), min_size=lo, max_size=hi, mode=mode)
    if multi:
        keys = [mk() for _ in range(ch.between(1, 3))]
        kw['keys'] = keys
    else:
        k = mk()
        keys = [k]
        if k is not None:
            kw['key'] = k
    return mode, lo, hi, m, items, keys, kw


def sorted_neighborhood(ch, top=24):
    from fog import clustering as C
    mode, lo, hi, m, items, keys, kw = _sn_common(ch, top)
    window = kw['window'] = ch.pick([10, 2, 3, 1, 5, 40])
    sim = _sim(m, items)
    pairs = {p for k in keys for p in _sorted_window(items, k, window) if sim(*p)}
    adj = R.graph_from_pairs(len(items), pairs)
    return Case('sorted_neighborhood/' + mode, C.sorted_neighborhood, items, (), kw, _graph_ref(items, adj, mode, lo, hi),
                mode=mode, metric=m, adj=adj)


def adaptive_sorted_neighborhood(ch, top=24):
    from fog import clustering as C
    mode, lo, hi, m, items, keys, kw = _sn_common(ch, top)
    window = kw['window'] = ch.pick([10, 2, 3, 5, 40])
    adj = R.graph_from(len(items), _sim(m, items))
    exact = window > len(items)
    ref = _graph_ref(items, adj, mode, lo, hi) if exact else R.RefSound(items, adj, mode, lo, hi)
    return Case('adaptive_sorted_neighborhood/' + mode, C.adaptive_sorted_neighborhood, items, (), kw, ref, mode=mode,
                metric=m, adj=adj, exact=exact)


def intersection_index(ch, top=20):
    from fog import clustering as C
    mode = ch.pick(MODES)
    lo, hi = bounds(ch)
    items = gen_strings(ch, size(ch, top), maxlen=7)
    kw = dict(min_size=lo, max_size=hi, mode=mode)
    toks = items
    kk = ch.pick([None, 'bigrams', 'chars', 'charset', 'chartuple'])
    if kk:
        kw['key'] = Key(kk)
        toks = [kw['key'].compute(x) for x in items]
    sets = [set(t) for t in toks]
    metric = ch.pick(['jaccard', 'overlap'])
    if metric != 'jaccard' or ch.chance(1, 2):
        kw['metric'] = metric
    radius = kw['radius'] = ch.pick([0.813, 0.513, 0.313, 0.613, 0.113, 0.9913, 0.8, 0.5])

    def sim(i, j):
        n = len(sets[i] & sets[j])
        if not n:
            return False
        return n / (len(sets[i] | sets[j]) if metric == 'jaccard' else min(len(sets[i]), len(sets[j]))) >= radius
    adj = R.graph_from(len(items), sim)
    return Case('intersection_index/' + mode, C.intersection_index, items, (), kw, _graph_ref(items, adj, mode, lo, hi),
                mode=mode, adj=adj)


def passjoin(ch, top=24):
    from fog import clustering as C
    mode = ch.pick(MODES)
    lo, hi = bounds(ch)
    maxlen = ch.pick([6, 3, 9, 6, 3, 9, 14, 24])
    items = gen_strings(ch, size(ch, top), maxlen=maxlen, minlen=ch.pick([0, maxlen // 2]) if maxlen > 9 else 0)
    k = ch.pick([1, 2, 3, 0, 1, 2, 3, 4 if maxlen < 9 else 5])
    m = Metric('str', 'distance', k)
    adj = R.graph_from(len(items), _sim(m, items))
    kw = dict(k=k, distance=m, min_size=lo, max_size=hi, mode=mode)
    if ch.chance(1, 3):
        kw['sort'] = False
    return Case('passjoin/' + mode, C.passjoin, items, (), kw, _graph_ref(items, adj, mode, lo, hi), mode=mode,
                metric=m, adj=adj)


def vp_tree(ch, top=24):
    from fog import clustering as C
    lo, hi = bounds(ch)
    m = _metric(ch, domains=('int', 'rec', 'str', 'vec', 'flt'), forms=('distance',))
    items = gen_items(ch, m.domain, size(ch, top))
    adj = R.graph_from(len(items), _sim(m, items))
    kw = dict(m.kwargs(), min_size=lo, max_size=hi)
    ref = R.RefSets(items, R.balls(adj, len(items), lo, hi), lo, hi)
    return Case('vp_tree', C.vp_tree, items, (), kw, ref, mode='balls', metric=m, adj=adj)


def nn_descent(ch, top=16, full=None):
    from fog import clustering as C
    full = ch.chance(1, 2) if full is None else full
    mode = ch.pick(MODES)
    lo, hi = bounds(ch)
    m = _metric(ch, domains=('int', 'rec', 'str', 'vec', 'flt'), forms=('distance', 'similarity'))
    items = gen_items(ch, m.domain, size(ch, top))
    items = _variety(ch, items)
    n = len(items)
    adj = R.graph_from(n, _sim(m, items))
    kw = dict(m.kwargs(), min_size=lo, max_size=hi, mode=mode, seed=gen_seed(ch))
    k = ch.pick([None, 'n-1', 1, 2, 3, 'n', 'n+2'])
    if k is not None:
        if isinstance(k, str):
            k = max(1, eval(k, {'n': n}))
        kw['k'] = k
    if full:
        if ch.chance(1, 3):
            kw['rho'] = ch.pick([0.5, 1.0, 0.2])
        if ch.chance(1, 4):
            kw['delta'] = ch.pick([0.001, 0.1])
    exact = k is not None and k >= n - 1
    ref = _graph_ref(items, adj, mode, lo, hi) if exact else R.RefSound(items, adj, mode, lo, hi)
    return Case('nn_descent_full/' + mode if full else 'nn_descent/' + mode, C.nn_descent_full if full else C.nn_descent,
                items, (), kw, ref, mode=mode, metric=m, adj=adj, seeded=True, exact=exact)


class RefMinhash(R.RefSound):
    def __init__(self, items, sets, radius):
        adj = R.graph_from(len(items), lambda i, j: jaccard(sets[i], sets[j]) >= radius)
        R.RefSound.__init__(self, items, adj, CC)
        self.sets = [frozenset(s) for s in sets]

    def exact(self, clusters):
        m = R.RefSound.exact(self, clusters)
        if m:
            return m
        of = {}
        for n, c in enumerate(self.idx(clusters)):
            for i in c:
                of[i] = n
        by = {}
        for i, s in enumerate(self.sets):
            if s:
                by.setdefault(s, []).append(i)
        for s, ids in by.items():
            if len(ids) > 1 and len({of.get(i, -1 - i) for i in ids}) > 1:
                return 'items %r with identical tokens are not clustered together' % [self.items[i] for i in ids]


def minhash(ch, top=14):
    from fog import clustering as C
    items = gen_strings(ch, size(ch, top), maxlen=6)
    kw = dict(seed=gen_seed(ch))
    kk = ch.pick([None, 'bigrams', 'chars', 'charset'])
    toks = items
    if kk:
        kw['key'] = Key(kk)
        toks = [kw['key'].compute(x) for x in items]
    kw['h'] = ch.pick([16, 8, 4, 32, 2, 1, 5, 16, 8, 4, 256 if top > 8 else 16])
    kw['radius'] = ch.pick([0.813, 0.513, 0.313, 0.99, 0.0213, 0.8, 0.5])
    if ch.chance(1, 3):
        kw['bands'] = ch.between(1, kw['h'])
    if ch.chance(1, 4):
        kw['use_numpy'] = True
        kw['seed'] = gen_seed(ch, True)
    return Case('minhash', C.minhash, items, (), kw, RefMinhash(items, [set(t) for t in toks], kw['radius']), mode=CC,
                seeded=True, exact=False)


PP_METRICS = {
    'jaccard': lambda a, b, o: o / (a + b - o),
    'dice': lambda a, b, o: 2 * o / (a + b),
    'binary_cosine': lambda a, b, o: o / (a * b) ** 0.5,
}


def gen_documents(ch, n):
    """Strings of 3 to 40 distinct characters, most of them variations of a few."""
    al = [chr(97 + i) for i in range(ch.pick([12, 26, 50]))]
    bases = []
    out = []
    for _ in range(n):
        if not bases or ch.chance(1, 5):
            m = ch.between(3, min(len(al), 40))
            k = ch.below(len(al))
            d = [al[(k + i) % len(al)] for i in range(m)] if ch.chance(1, 3) else [c for c in al if ch.below(len(al)) < m]
            bases.append(d)
        else:
            d = list(ch.pick(bases))
            for _ in range(ch.below(5)):
                if ch.chance(1, 2) and d:
                    del d[ch.below(len(d))]
                else:
                    d.insert(ch.below(len(d) + 1), ch.pick(al))
        s = ''.join(d)
        if s not in out:
            out.append(s)
    return out


def ppjoin(ch, top=20):
    from fog import clustering as C
    fn = ch.pick([C.ppjoin, C.all_pairs, C.ppjoin_plus])
    strings = gen_documents(ch, size(ch, top)) if ch.chance(1, 2) else gen_strings(ch, size(ch, top), maxlen=7)
    kw = {}
    kk = ch.pick(['chars', 'bigrams', 'charset', None])
    items = strings
    if kk:
        kw['tokenizer'] = Key(kk)
        sets = [set(kw['tokenizer'].compute(x)) for x in items]
    else:
        items = [ch.pick([tuple, list])(s) for s in strings] if ch.chance(1, 2) else strings
        sets = [set(s) for s in items]
    if ch.chance(2, 3):
        kw['metric'] = ch.pick(['jaccard', 'dice', 'binary_cosine'])
    f = PP_METRICS[kw.get('metric', 'jaccard')]
    if ch.chance(1, 2):
        kw['token_ordering'] = ch.pick(['freq', 'crc32', None])
    t = kw['threshold'] = ch.pick([0.8137, 0.5137, 0.3137, 0.6137, 0.9137, 0.2137, 0.5, 0.8, 0.75, 1.0, 0.6, 0.25, 2.0 / 3])
    exp = []
    for i in range(len(items)):
        for j in range(i + 1, len(items)):
            o = len(sets[i] & sets[j])
            if o and f(len(sets[i]), len(sets[j]), o) >= t - 1e-9:
                exp.append((items[i], items[j]))
    return Case(fn.__name__, fn, items, (), kw, R.RefPairs(exp, ordered=False), kind='pairs', mode='pairs')


def hashjoin(ch, top=14):
    from fog import join as J
    domain = ch.pick(['int', 'str'])
    a = gen_items(ch, domain, size(ch, top))
    b = gen_items(ch, domain, size(ch, top))
    many = ch.chance(1, 2)
    k = Key(ch.pick(['mods', 'mods_gen', 'mods_set', 'mods_str']) if many else 'mod', ch.between(1, 5))
    ks = (lambda x: set(k.compute(x))) if many else (lambda x: {k.compute(x)})
    exp = [(x, y) for x in a for y in b if ks(x) & ks(y)]
    return Case('hashjoin', J.hashjoin, a, (), {'keys' if many else 'key': k}, R.RefPairs(exp, ordered=True), kind='pairs',
                second=b, mode='pairs')


DEFAULTS = {'min_size': 2, 'max_size': INF, 'mode': CC, 'sort': True, 'block_size': 500, 'window': 10, 'chunk_size': 100, 'vp_tree': False,
            'metric': 'jaccard', 'rho': 0.5, 'delta': 0.001, 'merge': True, 'token_ordering': 'freq', 'beta': 1.0, 'radius': 0.8, 'h': 256}


def _omitting(fn):
    @functools.wraps(fn)
    def wrapped(ch, **kw):
        case = fn(ch, **kw)
        if ch.chance(1, 3):
            case.omit = tuple(k for k in sorted(case.kwargs) if k in DEFAULTS and case.kwargs[k] == DEFAULTS[k]
                              and (k != 'radius' or fn.__name__ in ('intersection_index', 'minhash')))
        return case
    return wrapped


for _f in (pairwise, pairwise_leader, blocking, quickjoin, key_collision, sorted_neighborhood, adaptive_sorted_neighborhood, intersection_index,
           passjoin, vp_tree, nn_descent, minhash, ppjoin, hashjoin):
    globals()[_f.__name__] = _omitting(_f)

ALL = {
    'pairwise': pairwise, 'pairwise_leader': pairwise_leader, 'blocking': blocking, 'quickjoin': quickjoin,
    'key_collision': key_collision, 'sorted_neighborhood': sorted_neighborhood,
    'adaptive_sorted_neighborhood': adaptive_sorted_neighborhood, 'intersection_index': intersection_index,
    'passjoin': passjoin, 'vp_tree': vp_tree, 'nn_descent': nn_descent, 'minhash': minhash, 'ppjoin': ppjoin,
    'hashjoin': hashjoin,
}
NAMES = list(ALL)
PARALLEL = ['pairwise', 'blocking', 'quickjoin']


# narrows the search to some routines; for tools/mutate.py only, never set by a registered check
ONLY = [n for n in os.environ.get('FOGSIM_ROUTINES', '').split(',') if n]


def gen_case(ch, names=None, **kw):
    if ONLY:
        names = [n for n in names or NAMES if n in ONLY] or names
    return ALL[ch.pick(names or NAMES)](ch, **kw)


def consume(it, limit=None):
    out = []
    for x in it:
        out.append(x)
        if limit is not None and len(out) >= limit:
            break
    return out
