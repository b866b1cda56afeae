"""Reference models: trivial executable definitions of what each routine must deliver."""
from collections import Counter

from fogsim.work import INF


def canon(clusters):
    """Order-insensitive form of a list of clusters (members may repeat if the code is wrong)."""
    return sorted(tuple(sorted(map(repr, c))) for c in clusters)


def canon_pairs(pairs):
    return sorted((repr(a), repr(b)) for a, b in pairs)


def canon_upairs(pairs):
    return sorted(tuple(sorted((repr(a), repr(b)))) for a, b in pairs)


def graph_from(n, similar):
    adj = [set() for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if similar(i, j):
                adj[i].add(j)
                adj[j].add(i)
    return adj


def graph_from_pairs(n, pairs):
    adj = [set() for _ in range(n)]
    for i, j in pairs:
        if i != j:
            adj[i].add(j)
            adj[j].add(i)
    return adj


def components(adj):
    seen = set()
    out = []
    for i in range(len(adj)):
        if i in seen:
            continue
        comp = []
        stack = [i]
        seen.add(i)
        while stack:
            x = stack.pop()
            comp.append(x)
            for y in adj[x]:
                if y not in seen:
                    seen.add(y)
                    stack.append(y)
        out.append(sorted(comp))
    return out


def leader(adj, n, hi=INF):
    """Members of a cluster over hi are free to join a later one."""
    visited = set()
    out = []
    for i in range(n):
        if i in visited:
            continue
        c = [i] + [j for j in range(i + 1, n) if j not in visited and j in adj[i]]
        if len(c) > hi:
            continue
        visited.update(c[1:])
        out.append(c)
    return out


def balls(adj, n, lo, hi):
    visited = set()
    out = []
    for i in range(n):
        if i in visited:
            continue
        c = [i] + sorted(adj[i])
        if len(c) < lo or len(c) > hi:
            continue
        visited.update(c)
        out.append(c)
    return out


class Ref(object):
    """expected: what a complete fault-free result must be.  check() returns None or what is wrong."""

    def __init__(self, items, lo=2, hi=INF):
        self.items, self.lo, self.hi = items, lo, hi
        self.pos = {}
        for i, x in enumerate(items):
            self.pos.setdefault(repr(x), []).append(i)
        self.unique = all(len(v) == 1 for v in self.pos.values())

    partition = False

    def wellformed(self, clusters):
        """C16: members from the input, no repeats, size bounds, disjoint when partitioning."""
        have = Counter({k: len(v) for k, v in self.pos.items()})
        used = Counter()
        for c in clusters:
            if not isinstance(c, (list, tuple)):
                return 'cluster is a %s' % type(c).__name__
            cnt = Counter(map(repr, c))
            for k, v in cnt.items():
                if k not in have:
                    return 'cluster %r has member %s which is not an input item' % (c, k)
                if v > have[k]:
                    return 'cluster %r repeats member %s' % (c, k)
            if len(c) < self.lo:
                return 'cluster %r is smaller than min_size=%r' % (c, self.lo)
            if len(c) > self.hi:
                return 'cluster %r is larger than max_size=%r' % (c, self.hi)
            used.update(cnt)
        if self.partition:
            for k, v in used.items():
                if v > have[k]:
                    return 'item %s is in several clusters of a partition' % k
        return None

    def idx(self, clusters):
        """Clusters as frozensets of indices (only meaningful when items are unique)."""
        return [frozenset(self.pos[repr(x)][0] for x in c) for c in clusters]

    def show(self, c):
        return [self.items[i] for i in sorted(c)]

    def check(self, clusters):
        m = self.wellformed(clusters)
        if m:
            return m
        return self.exact(clusters)

    def sub(self, clusters):
        """Whether every one of these (possibly partial) clusters belongs to a complete result."""
        return self.wellformed(clusters)

    def exact(self, clusters):
        return None


def _diff(ref, got, exp):
    g, e = Counter(got), Counter(exp)
    miss = list((e - g).elements())
    extra = list((g - e).elements())
    if not miss and not extra:
        return None
    return 'missing clusters %r, unexpected clusters %r' % ([ref.show(c) for c in miss[:3]], [ref.show(c) for c in extra[:3]])


class RefSets(Ref):
    """The exact clusters are known (lists of indices, with multiplicity)."""

    def __init__(self, items, expected, lo=2, hi=INF, partition=False):
        Ref.__init__(self, items, lo, hi)
        self.partition = partition
        self.expected = [list(c) for c in expected if lo <= len(c) <= hi]

    singles = True           # clusters of one item are specified as well

    def seen(self, clusters):
        return clusters if self.singles else [c for c in clusters if len(c) > 1]

    def exact(self, clusters):
        clusters = self.seen(clusters)
        exp = canon([[self.items[i] for i in c] for c in self.expected])
        got = canon(clusters)
        if exp == got:
            return None
        g, e = Counter(got), Counter(exp)
        return 'missing clusters %r, unexpected clusters %r' % (list((e - g).elements())[:3], list((g - e).elements())[:3])

    def sub(self, clusters):
        m = self.wellformed(clusters)
        if m:
            return m
        extra = Counter(canon(self.seen(clusters))) - Counter(canon([[self.items[i] for i in c] for c in self.expected]))
        if extra:
            return 'delivered clusters %r that are not in the fault-free result' % list(extra)[:3]


class RefComponents(RefSets):
    singles = False          # whether an isolated item is a component of its own (min_size=1) is left open

    def __init__(self, items, adj, lo=2, hi=INF):
        RefSets.__init__(self, items, [c for c in components(adj) if len(c) > 1], lo, hi, partition=True)
        self.adj = adj


class RefCover(Ref):
    """Fuzzy clusters: closed neighbourhoods of pairwise non-adjacent seeds covering every clusterable item.
    (Which maximal independent set is chosen is the routine's business.)  Items must be unique."""

    def __init__(self, items, adj, lo=2, hi=INF):
        Ref.__init__(self, items, lo, hi)
        self.adj = adj
        self.eligible = {i for i in range(len(items)) if adj[i] and lo <= len(adj[i]) + 1 <= hi}
        self.closed = {}
        for i in self.eligible:
            self.closed.setdefault(frozenset(adj[i] | {i}), set()).add(i)

    def exact(self, clusters):
        if not self.unique:
            return None
        seeds = []
        for c in self.idx(clusters):
            if len(c) == 1 and not self.adj[min(c)]:
                continue         # an isolated item (min_size=1): left open
            cand = self.closed.get(c)
            if not cand:
                return 'cluster %r is not the neighbourhood of any clusterable item' % self.show(c)
            seeds.append(c)
        if len(set(seeds)) != len(seeds):
            return 'the same cluster is delivered twice: %r' % [self.show(c) for c in seeds]
        chosen = [min(self.closed[c]) for c in seeds]
        covered = set()
        for k, i in enumerate(chosen):
            for j in chosen[k + 1:]:
                if j in self.adj[i]:
                    return 'clusters around %r and %r overlap on their seeds' % (self.items[i], self.items[j])
            covered |= self.adj[i] | {i}
        left = self.eligible - covered
        if left:
            return 'clusterable items %r are in no cluster' % [self.items[i] for i in sorted(left)[:5]]

    def sub(self, clusters):
        m = self.wellformed(clusters)
        if m or not self.unique:
            return m
        for c in self.idx(clusters):
            if c not in self.closed and (len(c) > 1 or self.adj[min(c)]):
                return 'delivered cluster %r is not the neighbourhood of any clusterable item' % self.show(c)


class RefSound(Ref):
    """Approximate routines: every cluster must be justified by true links."""

    def __init__(self, items, adj, mode, lo=2, hi=INF):
        Ref.__init__(self, items, lo, hi)
        self.adj, self.mode = adj, mode
        self.partition = mode == 'connected_components'

    def exact(self, clusters):
        if not self.unique:
            return None
        for c in self.idx(clusters):
            if self.mode == 'connected_components':
                start = next(iter(c))
                seen = {start}
                stack = [start]
                while stack:
                    for y in self.adj[stack.pop()]:
                        if y in c and y not in seen:
                            seen.add(y)
                            stack.append(y)
                if seen != set(c):
                    return 'members of cluster %r are not linked by similar pairs' % self.show(c)
            else:
                if not any(c <= (self.adj[i] | {i}) for i in c):
                    return 'no member of cluster %r is similar to all the others' % self.show(c)

    def sub(self, clusters):
        return self.check(clusters)


class RefPairs(object):
    """Joins delivering pairs of items."""

    def __init__(self, expected, ordered):
        self.ordered = ordered
        self.expected = expected

    def canon(self, pairs):
        return canon_pairs(pairs) if self.ordered else canon_upairs(pairs)

    def wellformed(self, pairs):
        for p in pairs:
            if not isinstance(p, (tuple, list)) or len(p) != 2:
                return 'not a pair: %r' % (p,)

    def check(self, pairs):
        m = self.wellformed(pairs)
        if m:
            return m
        g, e = Counter(self.canon(pairs)), Counter(self.canon(self.expected))
        if g != e:
            return 'missing pairs %r, unexpected pairs %r' % (list((e - g).elements())[:3], list((g - e).elements())[:3])

    def sub(self, pairs):
        m = self.wellformed(pairs)
        if m:
            return m
        extra = Counter(self.canon(pairs)) - Counter(self.canon(self.expected))
        if extra:
            return 'delivered pairs %r that are not in the fault-free result' % list(extra)[:3]
