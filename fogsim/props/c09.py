"""Results survive a process restart and hash randomisation.

The run draws a computation and evaluates it here (in a process with a long history) and in processes that have
just started under other string-hash seeds, where the calls are made in another order."""
import os

from fogsim import api
from fogsim.choices import derive_seed
from fogsim.util import call
from fogsim.world import Violation

PROC = []


def preload():
    from fog import clustering, join, key, tokenizers, phonetics, lsh, metrics, graph, evaluation  # noqa: F401


def after_fork():
    from fogsim.evaluator import Evaluator
    mine = int(os.environ.get('PYTHONHASHSEED', '0'))
    PROC[:] = [Evaluator('C09', derive_seed(mine, 'evaluator', i) % 4294967295 + 1) for i in range(2)]


def setup():
    preload()
    after_fork()


def teardown():
    for e in PROC:
        e.end()
    PROC[:] = []


def evaluate(ch, order):
    fam = api.gen_family(ch)
    args = [fam.gen_args(ch) for _ in range(ch.between(1, 3))]
    obj = call(fam.build, fam.name)
    ix = list(range(len(args)))
    if order:
        ix.reverse()
    out = [None] * len(args)
    for i in ix:
        out[i] = call(lambda: fam.apply(obj, args[i]), '%s with %r' % (fam.name, args[i]))
    return fam.name, args, out


def run(ch, w):
    name, args, mine = evaluate(ch, 0)
    log = list(ch.log)
    procs = [PROC[ch.below(2)]] if ch.chance(2, 3) else list(PROC)
    for e in procs:
        r = e.ask(log, 1)
        if r is None:
            raise RuntimeError('evaluator lost')
        w.log('restart', 'hash seed', e.hashseed)
        w.fault('restart_other_hash_seed')
        if r[0] != 'ok':
            raise Violation('restart-' + r[1], '%s with %r works here but in a new process: %r' % (name, args, r))
        other = r[1]
        assert other[0] == name and other[1] == args, (name, args, other)
        for a, x, y in zip(args, mine, other[2]):
            if x != y:
                raise Violation('restart', '%s with %r gives %r here but %r in a process with hash seed %d' % (name, a, x, y, e.hashseed))
    fam = name.split('(')[0].split(' ')[0].split('/')[0]
    w.probe(fam)
    return {'nontrivial': bool(repr(mine).strip('[]() ,\'')), 'sig': (name, repr(args)), 'sample': '%s with %r' % (name[:400], args)}
