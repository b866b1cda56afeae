"""Shared tokenizers, keyers, hashers and routines are safe across threads."""
from fogsim import api, simthreads
from fogsim.util import call
from fogsim.world import SimStop, Violation


def setup():
    assert simthreads.watch() > 50


def run(ch, w):
    fam = api.gen_family(ch)
    n = ch.between(2, 3)
    calls = [[fam.gen_args(ch) for _ in range(ch.between(1, 2))] for _ in range(n)]
    if ch.chance(1, 4):                       # threads at work on the same values
        calls[1] = list(calls[0])
    other = None
    if ch.chance(1, 4):                       # one of the threads uses something else of fog
        other = api.gen_family(ch)
        calls[-1] = [other.gen_args(ch)]
    fams = [fam] * n
    if other is not None:
        fams[-1] = other
    what = '%s by %d threads with %r%s' % (fam.name, n, calls, ' while another runs ' + other.name if other else '')
    def by_itself():
        return [[call(lambda: f.apply(f.build(), a), what) for a in args] for f, args in zip(fams, calls)]
    cold = ch.chance(1, 2)                    # nothing was computed before the threads start
    alone = None if cold else by_itself()
    shared = {id(f): f.build() for f in dict.fromkeys(fams)}
    s = simthreads.Sched(w, ch, ch.pick([3, 10, 40, 150]))

    def body(f, args):
        def go():
            return [f.apply(shared[id(f)], a) for a in args]
        return go
    tasks = [s.spawn(body(f, args)) for f, args in zip(fams, calls)]
    try:
        s.run()
    except simthreads.Deadlock as e:
        raise Violation('deadlock', '%s: %s' % (what, e))
    except SimStop as e:
        raise Violation('no-progress', '%s: %s' % (what, e))
    if cold:
        alone = by_itself()
    for t, f, args, want in zip(tasks, fams, calls, alone):
        if t.error is not None:
            raise Violation('thread-error', '%s: thread %d raised %s: %s' % (what, t.n, type(t.error).__name__, str(t.error)[:200]))
        if t.value != want:
            k = [i for i in range(len(want)) if t.value[i] != want[i]][0]
            raise Violation('interference', '%s: thread %d got %r for %r, alone it gets %r' % (what, t.n, t.value[k], args[k], want[k]))
    for f, args, want in zip(fams, calls, alone):
        for a, x in zip(args, want):
            got = call(lambda: f.apply(shared[id(f)], a), what)
            if got != x:
                raise Violation('lasting-damage', '%s: afterwards %r gives %r instead of %r' % (what, a, got, x))
    w.fault_count = s.switches
    w.faults['preemption'] = w.faults.get('preemption', 0) + s.switches
    w.probe(fam.name.split('(')[0].split(' ')[0].split('/')[0])
    return {'nontrivial': s.switches >= 2, 'sig': (what, tuple(w.sched)), 'sample': what[:600]}
