"""Result iterators are independent however their consumption is interleaved."""
from collections import Counter

from fogsim import routines
from fogsim.simpool import draw_plan
from fogsim.util import must, unexpected
from fogsim.work import INF
from fogsim.world import Violation


class Live(object):
    def __init__(self, n, case, over, data, second, expected):
        self.n, self.case, self.over, self.data, self.second, self.expected = n, case, over, data, second, expected
        self.it = None
        self.got = []
        self.state = 'new'
        self.running = False

    def what(self):
        return '%s %r' % (self.case.describe(), self.over)

    def start(self):
        self.it = self.case.start(data=self.data, second=self.second, **self.over)
        self.got = []
        self.state = 'live'

    def step(self):
        self.running = True
        try:
            try:
                x = next(self.it)
            finally:
                self.running = False
            self.got.append(x)
        except StopIteration:
            self.state = 'done'
            self.verify(True)
        except Violation:
            raise
        except BaseException as e:
            unexpected(e, self.what())
        else:
            self.verify(False)

    def verify(self, complete):
        if self.expected is None:                   # computed afterwards
            return
        have = Counter(self.case.canon(self.got))
        if have - self.expected:
            raise Violation('interference', '%s delivers %r when interleaved, which it does not when alone' % (
                self.what(), list((have - self.expected))[:3]))
        if complete and have != self.expected:
            raise Violation('interference', '%s ends without %r when interleaved' % (self.what(), list((self.expected - have))[:3]))


def variant(ch, o):
    kw = o.case.kwargs
    over = dict(o.over)
    if kw.get('radius') is not None and ch.chance(2, 3):
        r = kw['radius']
        over['radius'] = ch.pick([r / 2, r * 2, r + 1] if 'distance' in kw else [r / 2, min(1.0, r * 1.3), min(1.0, r * 1.1)])
    if isinstance(kw.get('k'), int) and o.case.name.startswith('passjoin'):
        over['k'] = kw['k'] + 1
    if 'min_size' in kw and ch.chance(1, 3):
        over['min_size'], over['max_size'] = ch.pick([(2, 3), (3, INF), (2, INF), (2, 2)])
    if 'mode' in kw and not o.case.name.endswith('leader') and ch.chance(1, 3):
        over['mode'] = ch.pick(routines.MODES)
    if isinstance(kw.get('window'), int) and ch.chance(1, 2):
        over['window'] = kw['window'] + 1
    return over if over != o.over else None


def by_itself(case, over):
    return Counter(case.canon(must(lambda: case.start(**over), case.describe())))


def run(ch, w):
    cold = ch.chance(1, 3)                          # what each delivers alone is computed afterwards
    n = ch.between(2, 4)
    lives = []
    for i in range(n):
        if lives and ch.chance(1, 2):
            o = ch.pick(lives)                      # same call again, sharing data and callbacks
            lives.append(Live(i, o.case, o.over, o.data, o.second, o.expected))
            w.probe('same_call_twice')
            continue
        if lives and ch.chance(1, 3):
            o = ch.pick(lives)                      # same data and callbacks, other parameters
            over = variant(ch, o)
            if over:
                lives.append(Live(i, o.case, over, o.data, o.second, None if cold else by_itself(o.case, over)))
                w.probe('same_callbacks_other_parameters')
                continue
        case = routines.gen_case(ch, top=14)
        over = {}
        if case.parallel and ch.chance(1, 3):
            over['processes'] = 2
            w.pool_plan = draw_plan(ch)
        second = list(case.second) if case.second is not None else None
        lives.append(Live(i, case, over, list(case.items), second, None if cold else by_itself(case, over)))
    for l in lives:
        l.start()
    steps = switches = 0
    last = None
    restarts = 0
    # the callbacks of a running iterator are points where another one may advance too
    inner = [ch.pick([0, 0, 4, 12]), ch.pick([2, 9, 30])]

    def on_call():
        if inner[0] <= 0 or any(l.running and l.over.get('processes') for l in lives) or sum(l.running for l in lives) > 2:
            return
        if ch.below(inner[1]):
            return
        idle = [l for l in lives if l.state == 'live' and not l.running]
        if not idle:
            return
        inner[0] -= 1
        l = ch.pick(idle)
        w.sched.append((l.n, 'within'))
        w.log('iterator', l.n, 'next, within a callback of another')
        w.fault('advanced_within_callback_of_another')
        l.step()
    w.on_call = on_call
    while True:
        active = [l for l in lives if l.state == 'live']
        if not active or steps > 200:
            break
        l = ch.pick(active)
        steps += 1
        if last is not None and last is not l:
            switches += 1
        last = l
        act = ch.weighted([(10, 'next'), (1, 'close'), (1, 'restart')])
        w.sched.append((l.n, act))
        w.log('iterator', l.n, act)
        if act == 'next':
            l.step()
        elif act == 'close':
            l.it.close()
            l.state = 'closed'
            w.fault('iterator_closed')
        else:
            if restarts < 6:
                restarts += 1
                w.fault('iterator_abandoned_and_restarted')
                l.start()
    w.on_call = None
    if cold:
        for l in lives:
            l.expected = by_itself(l.case, l.over)
            l.verify(l.state == 'done')
    for l in lives:
        if l.data != l.case.items or l.second != l.case.second:
            raise Violation('input-modified', '%s: the shared input was modified' % l.what())
    what = ' || '.join(l.what()[:200] for l in lives)
    return {'nontrivial': switches >= 2 and sum(map(len, (l.got for l in lives))) >= 2, 'sig': (what, tuple(w.sched)), 'sample': what}
