from fogsim import routines
from fogsim.props._par import par_vs_seq
from fogsim.util import must
from fogsim.world import Violation


def draw_script(ch, w):
    """Adversarial outcomes for unseeded generators: extremes, repeats, then a fair PRNG."""
    kind = ch.below(4)
    n = ch.below(40)
    if kind == 0:
        w.rand_script = []
    elif kind == 1:
        w.rand_script = [ch.pick([0.0, 0.999999, 0.5]) for _ in range(n)]
    elif kind == 2:
        x = ch.below(100) / 100.0
        w.rand_script = [x] * min(n, 12)
    else:
        w.rand_script = [ch.below(1000) / 1000.0 for _ in range(n)]
    w.rand_seed = ch.below(1 << 20)
    if w.rand_script:
        w.fault('adversarial_draws')


def run(ch, w):
    case = routines.quickjoin(ch, top=ch.pick([12, 28, 48]), huge=ch.chance(1, 4000))
    draw_script(ch, w)
    n = len(case.items)
    small = n > case.kwargs['block_size']
    # unseeded: pivots are the adversary's
    o1 = must(lambda: case.start(seed=None, processes=1), case.describe() + ' seed=None')
    bad = case.ref.check(o1)
    if bad:
        raise Violation('wrong-clusters', '%s with adversarial pivots: %s' % (case.describe(), bad))
    d1 = w.draws
    seq = must(lambda: case.start(processes=1), case.describe())
    bad = case.ref.check(seq)
    if bad:
        raise Violation('wrong-clusters', '%s: %s' % (case.describe(), bad))
    tasks = par_vs_seq(ch, w, case, seq)
    if small:
        w.probe('partitioned')
    if d1 > 6:
        w.probe('deep_partition')
    return {'nontrivial': bool(seq) and small, 'sig': (case.describe(), tuple(w.sched), w.draws), 'sample': case.describe()}
