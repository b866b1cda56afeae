"""Seeded results are isolated from ambient randomness and clocks."""
import importlib
import random
import sys

import numpy as np

from fogsim import api, routines, world as W
from fogsim.simpool import draw_plan
from fogsim.util import call, must
from fogsim.work import gen_strings
from fogsim.world import Violation

TEXT = 'the quick brown fox jumps over the lazy dog while many other animals watch'


class Ambient(object):
    """Wraps a callback: draws from the process-wide generators at every call, as user code may."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        random.random()
        np.random.random()
        return self.f(*a)


def disturb(ch, w):
    """Another ambient state: generators, clock, OS entropy."""
    W._NP['py_seed'](ch.below(1 << 30))
    W._NP['seed'](ch.below(1 << 30))
    for _ in range(ch.below(5)):
        random.random()
        np.random.random()
    w.now += ch.below(100000)
    w.wall_offset += ch.pick([0, 3600, -86400, 1e8])
    w.rand_seed = ch.below(1 << 30)
    w.rand_script = [ch.below(100) / 100.0 for _ in range(ch.below(4))]
    w.fault('ambient_state_and_clock_jump')


def np_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


def seeds(ch, numpy):
    pool = [0, 1, 2, 42, 123456789, (1 << 32) - 1]
    if not numpy:
        pool += ['a seed', -7, 1 << 70, 2.5]
    return ch.pick(pool)


def make_clusterer(ch):
    case = routines.gen_case(ch, ['quickjoin', 'nn_descent', 'minhash'])
    seed = seeds(ch, bool(case.kwargs.get('use_numpy')))
    procs = {'processes': ch.pick([2, 3])} if case.parallel and ch.chance(1, 3) else {}

    def go(noisy, **over):
        kw = dict(procs)
        if noisy and not procs:
            for k in case.callbacks():
                kw[k] = Ambient(case.kwargs[k])
        kw.update(over)
        out = []
        it = case.start(**kw)
        for c in it:
            if noisy:
                random.random()
            out.append(c)
        return case.canon(out)
    return case.describe() + ' %r' % procs, seed, lambda noisy: go(noisy, seed=seed), lambda: go(False, seed=None), None


def make_signer(ch):
    from fog.lsh import minhash as M
    kind = ch.pick(['MinHash', 'MinHash-numpy', 'LSBMinHash'])
    numpy = kind == 'MinHash-numpy'
    seed = seeds(ch, numpy)
    docs = gen_strings(ch, ch.between(1, 4), maxlen=8) + [TEXT]
    if ch.chance(1, 2):
        docs = [d.split() if ' ' in d else list(d) for d in docs]
    size = ch.pick([1, 2]) if kind == 'LSBMinHash' else ch.pick([16, 32, 64])

    def build(seed):
        if kind == 'LSBMinHash':
            return M.LSBMinHash(precision=size, seed=seed)
        return M.MinHash(size, seed=seed, use_numpy=numpy) if numpy else M.MinHash(size, seed=seed)

    def sign(seed, noisy):
        m = build(seed)
        out = []
        for d in docs:
            if noisy:
                random.random()
                np.random.random()
            out.append([int(x) for x in m.create_signature(d)])
        return out
    return '%s(%d) on %r' % (kind, size, docs), seed, lambda noisy: sign(seed, noisy), lambda: sign(None, False), kind


def new_process(w, entropy, kind, size):
    """What an unseeded generator signs in a process that has just imported fog, under the given OS entropy."""
    saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split('.')[0] == 'fog'}
    try:
        w.rand_seed, w.rand_instances, w.entropy, w.rand_script = entropy, 0, 0, None
        W._NP['py_seed'](entropy)
        W._NP['seed'](entropy)
        M = importlib.import_module('fog.lsh.minhash')
        if kind == 'LSBMinHash':
            m = M.LSBMinHash(precision=size)
        else:
            m = M.MinHash(16 * size, use_numpy=True) if kind == 'MinHash-numpy' else M.MinHash(16 * size)
        return [int(x) for x in m.create_signature(TEXT.split())]
    finally:
        for k in [k for k in sys.modules if k.split('.')[0] == 'fog']:
            del sys.modules[k]
        sys.modules.update(saved)


def restarts(ch, w):
    """Unseeded generators of processes started under different entropy differ."""
    kind, size = ch.pick(['MinHash', 'MinHash-numpy', 'LSBMinHash']), ch.between(1, 2)
    what = 'the first unseeded %s of a process' % kind
    x = ch.below(1 << 30)
    a = call(lambda: new_process(w, x, kind, size), what)
    b = call(lambda: new_process(w, x + 1 + ch.below(1000), kind, size), what)
    w.fault('restart_with_other_entropy')
    if a == b:
        raise Violation('not-random', '%s draws the same hash functions whatever the entropy: %r' % (what, a))
    if w.reseeds:
        raise Violation('global-reseed', '%s: re-seeds a process-wide generator: %r' % (what, w.reseeds))
    w.probe('restarts')
    return {'nontrivial': True, 'sig': (what, size, x), 'sample': what}


def anything(ch, w):
    """No fog routine ever re-seeds the process-wide generators."""
    if ch.chance(1, 2):
        case = routines.gen_case(ch)
        what = case.describe()
        over = {'seed': None} if case.seeded else {}
        if case.parallel and ch.chance(1, 3):
            over['processes'] = 2
        go = lambda: case.canon(list(case.start(**over)))
    else:
        fam = api.gen_family(ch)
        args = fam.gen_args(ch)
        what = '%s with %r' % (fam.name, args)
        go = lambda: fam.apply(fam.build(), args)
    w.pool_plan = draw_plan(ch)
    disturb(ch, w)
    call(go, what)
    if w.reseeds:
        raise Violation('global-reseed', '%s: re-seeds a process-wide generator: %r' % (what, w.reseeds))
    w.probe('anything')
    return {'nontrivial': True, 'sig': what, 'sample': what}


def run(ch, w):
    if ch.chance(1, 100):
        return restarts(ch, w)
    if ch.chance(1, 8):
        return anything(ch, w)
    what, seed, seeded, unseeded, kind = (make_clusterer if ch.chance(1, 2) else make_signer)(ch)
    what += ' seed=%r' % (seed,)
    w.pool_plan = draw_plan(ch)
    first = call(lambda: seeded(False), what)
    n = ch.between(1, 3)
    for k in range(n):
        disturb(ch, w)
        noisy = ch.chance(1, 2)
        w.log('ambient', k, 'noisy' if noisy else 'quiet')
        before = (random.getstate(), np_state())
        got = call(lambda: seeded(noisy), what)
        if got != first:
            raise Violation('ambient-influence', '%s: first %r, under another ambient state %r' % (what, first, got))
        if not noisy and (random.getstate(), np_state()) != before:
            raise Violation('ambient-disturbed', '%s: a seeded call changed the process-wide generators' % what)
    # unseeded
    w.rand_script = None
    a = call(unseeded, what + ' unseeded')
    if kind is not None:
        b = call(unseeded, what + ' unseeded')
        if a == b:
            raise Violation('not-random', '%s: two unseeded generators give the same signatures' % what)
        w.rand_seed += 1
        w.rand_instances = 0
        c = call(unseeded, what + ' unseeded')
        if a == c:
            raise Violation('not-random', '%s: unseeded generators ignore OS entropy' % what)
    if w.reseeds:
        raise Violation('global-reseed', '%s: re-seeds a process-wide generator: %r' % (what, w.reseeds))
    w.probe('signer' if kind else 'clusterer')
    if seed == 0:
        w.probe('seed_zero')
    return {'nontrivial': bool(first), 'sig': what + repr(ch.log[-20:]), 'sample': what}
