"""Failures surface and never corrupt results."""
from collections import Counter

from fogsim import routines, work
from fogsim.simpool import draw_plan
from fogsim.util import collect, must
from fogsim.work import BASES, EXCEPTIONS, Fault, PickleFault, Stream, carries_marker
from fogsim.world import SimHang, SimStop, Violation

CLASSES = [k for k in EXCEPTIONS if k != 'stop']


class Recorder(object):
    """Stands for a fault in the fault-free run: notes with which arguments a callback is evaluated."""

    def __init__(self):
        self.calls = []

    def check(self, args):
        self.calls.append(tuple(sorted(repr(a) for a in args)))

    def __reduce__(self):
        return (Recorder, ())


def surfaced_otherwise(exc, error, parallel):
    """The interpreter itself replaces some exceptions."""
    if exc == 'stop' and isinstance(error, RuntimeError):
        return True               # PEP 479; the cause is lost when the feeder pickles it
    return exc == 'unpicklable' and parallel and type(error).__name__ == 'MaybeEncodingError'


def run(ch, w):
    case = routines.gen_case(ch, ch.weighted([(2, routines.NAMES), (1, routines.PARALLEL)]))
    parallel = case.parallel and ch.chance(2, 3)
    recs = {k: Recorder() for k in case.callbacks()}
    base = must(lambda: case.start(faults=recs), case.describe())
    expected = Counter(case.canon(base))

    targets = ['input'] * 2 + [k for k, r in recs.items() if r.calls] * 4
    if case.second is not None:
        targets += ['second'] * 2
    if parallel:
        targets += ['worker', 'pickle']
    target = ch.pick(targets)
    over = {}
    procs = 1
    if parallel:
        procs = over['processes'] = ch.pick([2, 3, 4])
        w.pool_plan = draw_plan(ch)
        if 'chunk_size' in case.kwargs:
            over['chunk_size'] = work.chunk(ch, len(case.items), [1, 2, 3, 5, 100])
    data, second, faults = list(case.items), None, {}
    mine = data
    if target == 'worker':
        w.pool_plan.kill_task = ch.below(5)
        desc = 'worker killed with its task number %d' % w.pool_plan.kill_task
    elif target == 'pickle':
        k = ch.pick(sorted(case.callbacks()))
        f = faults[k] = PickleFault(ch.pick(['type', 'attr', 'runtime', 'memory', 'error', 'kbd']))
        desc = '%s cannot be pickled (%s)' % (k, f.exc)
    elif target in ('input', 'second'):
        src = case.items if target == 'input' else case.second
        exc = ch.pick(CLASSES)
        s = Stream(src, fail_at=ch.below(len(src) + 1), exc=exc)
        desc = '%s raises %s after %d items' % (target, exc, s.fail_at)
        if target == 'input':
            data = s
        else:
            second = s
    else:
        exc = ch.pick(list(EXCEPTIONS) + ([] if parallel else list(BASES)))
        calls = recs[target].calls
        n = ch.below(len(calls))
        if procs == 1 and ch.chance(1, 2):
            f = Fault(exc, nth=n)
            desc = '%s raises %s at call %d' % (target, exc, n)
        else:
            f = Fault(exc, match=calls[n])
            desc = '%s raises %s on %r' % (target, exc, calls[n])
        faults[target] = f
    w.log('fault', desc, 'processes', procs)
    what = '%s processes=%d; %s' % (case.describe(), procs, desc)
    before = w.fired
    o = collect(lambda: case.start(data=data, second=second, faults=faults, **over))
    fired = w.fired - before
    killed = w.faults.get('worker_killed', 0)

    if mine != case.items:
        raise Violation('input-modified', '%s: the input list was modified' % what)
    extra = Counter(case.canon(o.items)) - expected
    if extra:
        raise Violation('wrong-partial-result', '%s: delivered %r which is not in the fault-free result' % (what, list(extra)[:3]))
    if isinstance(o.error, SimHang) and killed:
        w.probe('blocked_on_killed_worker')        # a lost task may block the caller, never truncate its result
    elif isinstance(o.error, SimStop):
        raise Violation('no-progress', '%s: %s %s' % (what, type(o.error).__name__, o.error))
    elif o.error is None:
        if fired and target != 'pickle':           # (doing without sending the callback is fine)
            raise Violation('failure-swallowed', '%s: the iterator ended normally with %r' % (what, o.items))
        if Counter(case.canon(o.items)) != expected:
            raise Violation('truncated-result', '%s: the iterator ended normally with %r instead of %r' % (
                what, o.items, base))
    elif not killed and not carries_marker(o.error) and not (faults and fired and surfaced_otherwise(f.exc, o.error, parallel)):
        raise Violation('failure-replaced', '%s: the caller got %s: %s%s' % (
            what, type(o.error).__name__, o.error, '' if fired else ' although no fault fired'))

    # a later call is unaffected
    w.pool_plan = None
    again = must(lambda: case.start(**over), what + ' -- retry without the fault')
    if Counter(case.canon(again)) != expected:
        raise Violation('retry-differs', '%s: a retry without the fault gives %r instead of %r' % (what, again, base))
    if o.items and o.error is not None:
        w.probe('failure_after_partial_output')
    if fired and parallel:
        w.probe('failure_in_parallel_run')
    w.probe('target_' + target.split('[')[0])
    return {'nontrivial': bool(fired or killed), 'sig': (case.describe(), desc, tuple(w.sched)), 'sample': what}
