"""Results do not depend on how the input is delivered."""
from fogsim import routines
from fogsim.simpool import draw_plan
from fogsim.util import must
from fogsim.work import DELIVERIES, Stream, deliver
from fogsim.world import Violation


def run(ch, w):
    case = routines.gen_case(ch)
    if ch.chance(1, 6):
        # tiny inputs on purpose
        for _ in range(6):
            if len(case.items) <= 2:
                break
            case = routines.gen_case(ch, top=2)
    own = list(case.items)
    own2 = list(case.second) if case.second is not None else None
    base = must(lambda: case.start(data=own, second=own2), case.describe())
    if own != case.items or own2 != case.second:
        raise Violation('input-modified', '%s: the input list was modified' % case.describe())
    bad = case.ref.check(base)
    if bad:
        raise Violation('wrong-result', '%s: %s' % (case.describe(), bad))
    expected = case.canon(base)
    kinds = []
    for _ in range(ch.between(1, 3)):
        kind = ch.pick(DELIVERIES)
        kind2 = ch.pick(DELIVERIES) if case.second is not None else None
        over = {}
        if case.parallel and ch.chance(1, 4):
            over['processes'] = 2
            w.pool_plan = draw_plan(ch)
        kinds.append((kind, kind2))
        d = deliver(kind, case.items)
        d2 = deliver(kind2, case.second) if kind2 else None
        what = '%s delivered as %s%s %s' % (case.describe(), kind, '/' + kind2 if kind2 else '', over or '')
        w.log('delivery', kind, kind2)
        got = must(lambda: case.start(data=d, second=d2, **over), what)
        if case.canon(got) != expected:
            raise Violation('delivery-differs', '%s:\n  got      %r\n  as list  %r' % (what, case.canon(got), expected))
        for x, src in ((d, case.items), (d2, case.second)):
            if isinstance(x, Stream) and x.pos != len(x.items):
                raise Violation('not-consumed', '%s: %d of %d items consumed' % (what, x.pos, len(x.items)))
            if x is not None and not isinstance(x, Stream) and not hasattr(x, '__next__') and list(x) != list(src):
                raise Violation('input-modified', '%s: the container was modified' % what)
        w.pool_plan = None
    if len(own) > 2 and ch.chance(1, 3):
        # the caller modifies its own list in place and asks again with the same list and callbacks
        spare = own.pop(ch.below(len(own)))
        after = list(own)
        how = ch.pick(['replace', 'replace', 'reverse', 'delete', 'append'])
        if how == 'replace':
            after[ch.below(len(after))] = spare
        elif how == 'reverse':
            after.reverse()
        elif how == 'delete':
            del after[ch.below(len(after))]
        else:
            after.append(spare)
        what = '%s: a list modified in place (%s) between two calls' % (case.describe(), how)
        over = {}
        if case.parallel and ch.chance(1, 4):
            over['processes'] = 2
            w.pool_plan = draw_plan(ch)
        want = case.canon(must(lambda: case.start(data=list(after), second=own2), what))
        must(lambda: case.start(data=own, second=own2, **over), what)
        own[:] = after
        got = case.canon(must(lambda: case.start(data=own, second=own2, **over), what))
        if got != want:
            raise Violation('stale-result', '%s: got %r instead of %r' % (what, got, want))
        w.pool_plan = None
        w.probe('reused_list')
    if len(case.items) == 0:
        w.probe('empty_input')
    if len(case.items) == 1:
        w.probe('single_item')
    w.probe('routine_' + case.name.split('/')[0])
    return {'nontrivial': bool(base) or len(case.items) < 2, 'sig': (case.describe(), tuple(kinds)), 'sample': case.describe()}
