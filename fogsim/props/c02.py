from fogsim import routines
from fogsim.props._par import par_vs_seq
from fogsim.util import must
from fogsim.world import Violation


def run(ch, w):
    case = routines.blocking(ch, top=ch.pick([12, 24, 40]))
    seq = must(lambda: case.start(processes=1), case.describe())
    bad = case.ref.check(seq)
    if bad:
        raise Violation('wrong-clusters', '%s with processes=1: %s' % (case.describe(), bad))
    tasks = par_vs_seq(ch, w, case, seq)
    if 'blocks' in case.kwargs and seq:
        w.probe('several_blocks_per_item')
    return {'nontrivial': bool(seq) and tasks >= 2, 'sig': (case.describe(), tuple(w.sched)), 'sample': case.describe()}
