"""Every delivered cluster is well-formed and within the requested bounds."""
from fogsim import routines, work
from fogsim.props.c03 import draw_script
from fogsim.simpool import draw_plan
from fogsim.util import must
from fogsim.world import Violation

NAMES = [n for n in routines.NAMES if n not in ('ppjoin', 'hashjoin')]


def run(ch, w):
    case = routines.gen_case(ch, NAMES)
    over = {}
    draw_script(ch, w)
    if case.seeded and ch.chance(1, 2):
        over['seed'] = None
    if case.parallel and ch.chance(1, 3):
        over['processes'] = ch.pick([2, 3, 4])
        w.pool_plan = draw_plan(ch)
        if 'chunk_size' in case.kwargs:
            over['chunk_size'] = work.chunk(ch, len(case.items), [1, 2, 3, 5])
    what = '%s %r' % (case.describe(), over)
    got = must(lambda: case.start(**over), what)
    bad = case.ref.wellformed(got)
    if bad:
        raise Violation('malformed-cluster', '%s: %s' % (what, bad))
    bounded = 'min_size' in case.kwargs and (case.kwargs['min_size'], case.kwargs['max_size']) != (2, float('inf'))
    if bounded and case.mode in ('connected_components', 'fuzzy_clusters', 'buckets') and not over:
        # an item is never dropped merely to satisfy the bounds: each bounded cluster is an unbounded one
        free = must(lambda: case.start(min_size=2, max_size=float('inf')), what + ' without bounds')
        if case.mode != 'fuzzy_clusters':
            lo, hi = case.kwargs['min_size'], case.kwargs['max_size']
            exp = sorted(c for c in case.canon(free) if lo <= len(c) <= hi)
            if exp != [c for c in case.canon(got) if len(c) > 1]:
                raise Violation('bounds-alter-clusters', '%s: with bounds %r, without %r' % (what, case.canon(got), case.canon(free)))
        w.probe('bounded')
    if case.exact:
        bad = case.ref.check(got)
        if bad:
            raise Violation('wrong-result', '%s: %s' % (what, bad))
    w.probe('mode_' + case.mode)
    return {'nontrivial': bool(got), 'sig': (case.describe(), tuple(w.sched)), 'sample': what}
