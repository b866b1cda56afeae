import traceback

from fogsim.world import SimHang, SimLivelock, SimStop, Violation


class Outcome(object):
    __slots__ = ('items', 'error')

    def __init__(self, items, error):
        self.items, self.error = items, error


def collect(make, limit=None):
    """Consume an iterator built by make(); never raises except for Violation."""
    out = []
    try:
        for x in make():
            out.append(x)
            if limit is not None and len(out) >= limit:
                break
    except Violation:
        raise
    except BaseException as e:
        return Outcome(out, e)
    return Outcome(out, None)


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if '/fog/' in fr.filename or '/cfog/' in fr.filename:
            return '%s:%s' % (fr.filename.rsplit('/', 2)[-1], fr.name)
    return tb[-1].filename.rsplit('/', 1)[-1] if tb else '?'


def unexpected(o, what):
    """Turn an error of a fault-free execution into a Violation."""
    e = o.error if isinstance(o, Outcome) else o
    if isinstance(e, SimLivelock):
        raise Violation('no-progress', '%s: does not terminate (%s)' % (what, e))
    if isinstance(e, SimHang):
        raise Violation('hang', '%s: waits forever (%s)' % (what, e))
    if isinstance(e, SimStop):
        raise Violation('sim-' + type(e).__name__, '%s: %s' % (what, e))
    raise Violation('unexpected-' + type(e).__name__, '%s: raised %s: %s at %s' % (what, type(e).__name__, str(e)[:200], where(e)))


def must(make, what):
    o = collect(make)
    if o.error is not None:
        unexpected(o, what)
    return o.items


def call(fn, what):
    """Call a plain function of fog that must not fail."""
    try:
        return fn()
    except Violation:
        raise
    except BaseException as e:
        unexpected(Outcome([], e), what)
