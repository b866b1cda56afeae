"""Worker pools never outlive the clustering iterator."""
import gc
import multiprocessing
import threading

from fogsim import routines, work
from fogsim.simpool import draw_plan
from fogsim.util import where
from fogsim.work import EXCEPTIONS, Fault, PickleFault, Stream
from fogsim.world import SimHang, SimStop, Violation

CLASSES = [k for k in EXCEPTIONS if k != 'stop']
PICKLING = ['type', 'attr', 'runtime', 'memory', 'error', 'kbd']


def run(ch, w):
    case = routines.gen_case(ch, routines.PARALLEL)
    procs = ch.weighted([(1, 2), (1, 3), (1, 4), (1, 7), (1, 1)])
    w.pool_plan = plan = draw_plan(ch, faults=('create', 'kill', 'interrupt'))
    over = {'processes': procs}
    if procs == 1 and ch.chance(1, 2):
        over = {}                       # one process is the documented default
    if 'chunk_size' in case.kwargs:
        over['chunk_size'] = work.chunk(ch, len(case.items), [1, 2, 3, 5, 100])
    data, faults = list(case.items), {}
    broken = ch.below(5)
    desc = 'no callback fault'
    if broken == 1:
        k = ch.pick(sorted(case.callbacks()))
        exc = ch.pick(list(EXCEPTIONS))
        faults[k] = Fault(exc, nth=ch.below(20))
        desc = '%s raises %s at call %d' % (k, exc, faults[k].nth)
    elif broken == 2:
        exc = ch.pick(CLASSES)
        data = Stream(case.items, fail_at=ch.below(len(case.items) + 1), exc=exc)
        desc = 'input raises %s after %d' % (exc, data.fail_at)
    elif broken == 3:
        k = ch.pick(sorted(case.callbacks()))
        exc = ch.pick(PICKLING)
        faults[k] = PickleFault(exc)
        desc = '%s cannot be pickled (%s)' % (k, exc)
    how = ch.pick(['exhaust', 'close', 'drop', 'throw', 'leave'])
    after = ch.below(4)
    what = '%s processes=%d; %s; consumer: %s after %d clusters; plan %s kill=%s interrupt=%s create-fails=%s' % (
        case.describe(), procs, desc, how, after, plan.policy, plan.kill_task, plan.interrupt_at, plan.fail_create)
    w.log('consumer', how, after)
    err = None
    ended = False
    it = None
    try:
        it = case.start(data=data, faults=faults, **over)
        if how == 'exhaust':
            for _ in it:
                pass
            ended = True
        else:
            for _ in range(after):
                try:
                    next(it)
                except StopIteration:
                    ended = True
                    break
            if not ended:
                if how == 'close':
                    it.close()
                elif how == 'throw':
                    try:
                        it.throw(KeyboardInterrupt())
                    except (KeyboardInterrupt, StopIteration):
                        pass
    except Violation:
        raise
    except BaseException as e:
        err = e
        if isinstance(e, SimStop) and not (isinstance(e, SimHang) and w.faults.get('worker_killed')):
            raise Violation('no-progress', '%s: %s %s' % (what, type(e).__name__, e))
    running = sum(not p.is_shut_down() for p in w.pools)
    if how == 'leave' and it is not None and not ended and err is None:
        # still alive and suspended: at most its own pool may be running
        if running > 1:
            raise Violation('pool-leak', '%s: %d pools run for one suspended iterator' % (what, running))
        if running:
            w.probe('suspended_with_running_pool')
        it.close()
    origin = where(err) if err is not None else None
    err_text = repr(err)
    kind = type(err).__name__ if err is not None else None
    if err is not None:
        err.__traceback__ = None
        err = None
    it = None
    gc.collect()
    for p in w.pools:
        if not p.is_shut_down():
            raise Violation('pool-leak', '%s: the iterator is over (%s) but pool %d is still running' % (what, kind or how, p.number))
        if p.requested > procs:
            raise Violation('too-many-workers', '%s: a pool of %d workers was started' % (what, p.requested))
    stray = [p.name for p in multiprocessing.active_children()] + [t.name for t in threading.enumerate() if t is not threading.main_thread()]
    if stray:
        raise Violation('pool-leak', '%s: the iterator is over (%s) but %r are still running' % (what, kind or how, stray))
    if procs == 1 and w.pools:
        raise Violation('needless-pool', '%s: a pool was started for one process' % what)
    if len(w.pools) > 1:
        raise Violation('too-many-workers', '%s: %d pools were started by one call' % (what, len(w.pools)))
    if w.faults.get('pool_start_failure'):
        if kind is None and (ended or after):
            raise Violation('start-failure-swallowed', '%s: starting the pool failed but the call ended normally' % what)
        if kind is not None and not ('injected' in err_text):
            raise Violation('start-failure-replaced', '%s: starting the pool failed and the caller got %s (%s)' % (what, err_text, origin))
    if w.pools:
        w.probe('pool_ran_consumer_' + how)
        if kind:
            w.probe('pool_ran_then_' + ('interrupt' if kind == 'KeyboardInterrupt' else 'error'))
    return {'nontrivial': bool(w.pools or w.faults), 'sig': (what, tuple(w.sched)), 'sample': what}
