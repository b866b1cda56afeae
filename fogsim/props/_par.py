"""Shared by C01, C02, C03: a parallel execution under a drawn schedule equals the sequential one."""
from fogsim import work
from fogsim.simpool import draw_plan
from fogsim.util import must
from fogsim.world import Violation


def par_vs_seq(ch, w, case, sequential):
    """Run the case on several workers under 1-3 schedules, compare with the sequential result."""
    seq = case.canon(sequential)
    n_tasks = 0
    for k in range(ch.between(1, 3)):
        w.pool_plan = draw_plan(ch)
        procs = ch.pick([2, 3, 4, 8, 5])
        over = {}
        if 'chunk_size' in case.kwargs and k:
            over['chunk_size'] = work.chunk(ch, len(case.items), [1, 2, 3, 4, 6, 100])
        delivery = ch.pick(['list', 'list', 'stream', 'generator', 'tuple'])
        w.log('parallel', procs, delivery, w.pool_plan.policy, over)
        what = '%s with processes=%d %r under schedule %s' % (case.describe(), procs, over, w.pool_plan.policy)
        before = len(w.pools)
        data = work.deliver(delivery, case.items)
        par = must(lambda: case.start(data=data, processes=procs, **over), what)
        for p in w.pools[before:]:
            n_tasks = max(n_tasks, p._started)
        if len(w.pools) == before:
            w.probe('no_pool_started')
        got = case.canon(par)
        if got != seq:
            raise Violation('parallel-differs', '%s:\n  parallel   %r\n  sequential %r' % (what, got, seq))
        w.pool_plan = None
    return n_tasks
