"""Randomised clusterers are sound and terminate for every random outcome."""
from fogsim import routines, world as W
from fogsim.props.c03 import draw_script
from fogsim.util import call, must
from fogsim.work import gen_strings
from fogsim.world import Violation


def signer(ch, w):
    from fog.lsh import minhash as M
    kind = ch.pick(['MinHash', 'LSBMinHash', 'SuperMinHash', 'MinHash-numpy'])
    h = ch.pick([1, 2, 3, 8, 17, 64])
    p = ch.pick([1, 2])
    docs = gen_strings(ch, ch.between(2, 5), maxlen=8)
    if ch.chance(1, 2):
        docs = [[d[:3], d[2:], 'x'] for d in docs]
    what = '%s on %r' % (kind, docs)

    def build():
        if kind == 'MinHash':
            return M.MinHash(h)
        if kind == 'MinHash-numpy':
            return M.MinHash(h, use_numpy=True)
        if kind == 'LSBMinHash':
            return M.LSBMinHash(precision=p)
        return M.SuperMinHash(h)
    m = call(build, what)
    n = p if kind == 'LSBMinHash' else h
    for d in docs:
        s = call(lambda: m.create_signature(d), what)
        if len(s) != n:
            raise Violation('bad-signature', '%s: %d integers instead of %d' % (what, len(s), n))
        twin = d[::-1] if isinstance(d, str) else list(reversed(d)) + d[:1]
        t = call(lambda: m.create_signature(twin), what)
        if list(s) != list(t):
            raise Violation('bad-signature', '%s: %r and %r have the same tokens but signatures %r and %r' % (what, d, twin, list(s), list(t)))
    w.probe('signer_' + kind)
    return {'nontrivial': True, 'sig': what + repr(w.rand_script), 'sample': what}


def run(ch, w):
    which = ch.weighted([(3, 'nn_descent'), (2, 'minhash'), (2, 'vp_tree'), (1, 'signer')])
    draw_script(ch, w)
    W._NP['py_seed'](ch.below(1 << 30))
    W._NP['seed'](ch.below(1 << 30))
    if which == 'signer':
        return signer(ch, w)
    case = routines.gen_case(ch, [which])
    over = {'seed': None} if case.seeded and ch.chance(3, 4) else {}
    what = '%s %r draws %r' % (case.describe(), over, w.rand_script)
    got = must(lambda: case.start(**over), what)
    bad = case.ref.check(got)
    if bad:
        raise Violation('unsound' if not case.exact else 'not-exact', '%s: %s' % (what, bad))
    w.probe(case.name.split('/')[0])
    if len(case.items) < 2:
        w.probe('tiny')
    if case.exact:
        w.probe('exact_case')
    return {'nontrivial': bool(got), 'sig': what, 'sample': what}
