"""What the command-line checks share: devices and deliveries."""
from fogsim.simfs import run_process
from fogsim.world import SimStop, Violation

IN, OUT = '/sim/in.csv', '/sim/out'


class Devices(object):
    """How bytes move: transfer sizes, buffer sizes."""

    def __init__(self, ch, plain=False, bulk=False):
        self.kw = {}
        self.desc = 'plain'
        if plain:
            return
        if bulk:
            top = ch.pick([8192, 1000, 4097])
            self.kw['sizes'] = lambda: ch.between(top // 2, top)
            self.kw['bufsize'] = ch.pick([8192, 500, 4096])
            self.kw['chunk'] = ch.pick([8192, 1000])
            self.desc = 'bulk bufsize=%d chunk=%d' % (self.kw['bufsize'], self.kw['chunk'])
            return
        k = ch.weighted([(1, 0), (1, 1), (3, 2)])
        if k == 1:
            self.kw['sizes'] = lambda: 1
        elif k == 2:
            top = ch.pick([2, 5, 40])
            self.kw['sizes'] = lambda: ch.between(1, top)
        self.kw['bufsize'] = ch.pick([8192, 1, 2, 7, 64])
        self.kw['chunk'] = ch.pick([8192, 1, 3, 8, 64])
        self.desc = 'sizes=%d bufsize=%d chunk=%d' % (k, self.kw['bufsize'], self.kw['chunk'])


def invoke(ch, w, head, opts, tail, data, use_file, use_out, dev, faults=None, what=''):
    """Run one simulated fog process.  -> (Result, output bytes)"""
    argv = [head] + opts + (['-o', OUT] if use_out else []) + tail + ([IN] if use_file else [])
    files = {IN: data} if use_file else {}
    module = ch.chance(1, 4)
    w.log('started', 'python -m fog.cli' if module else 'fog')
    try:
        r, fs = run_process(w, argv, files=files, stdin=b'' if use_file else data, faults=faults or {}, module=module, **dev.kw)
    except SimStop as e:
        raise Violation('no-progress', '%s: %s %r does not end (%s)' % (what, 'python -m fog.cli' if module else 'fog', argv, e))
    out = bytes(fs.files.get(OUT, b'')) if use_out else r.out
    w.calls += 1
    return r, out


def err_text(r):
    if r.error is not None:
        return '%s: %s' % (type(r.error).__name__, r.error)
    return r.err.decode('utf-8', 'replace')[-200:]
