"""The CLI reports success only if the whole output reached the system."""
from fogsim.climodel import Command, Table
from fogsim.props._cli import OUT, Devices, err_text, invoke
from fogsim.simfs import Fault
from fogsim.world import Violation


def run(ch, w):
    t = Table(ch, maxrows=10)
    data = t.encode()
    if ch.chance(1, 2):
        cmd = Command(ch, t)
        if cmd.error:
            cmd.opts, cmd.pos = ([], []) if cmd.kind == 'split' else ([], ['upper'])
        head, opts, tail = cmd.kind, cmd.opts, [cmd.column] + cmd.pos
    else:
        head, opts, tail = 'cluster', ch.pick([[], ['-t', 'html'], ['--type', 'toml']]), [t.column]
    what = 'fog %s %r %r on %r' % (head, opts, tail, data.decode()[:1500])
    use_file, use_out = ch.chance(1, 2), ch.chance(1, 2)
    r0, out0 = invoke(ch, w, head, opts, tail, data, use_file, use_out, Devices(ch, True), None, what)
    if r0.status != 0:
        raise Violation('unexpected-exit', '%s: exit status %d (%s)' % (what, r0.status, err_text(r0)))

    fired = 0
    for k in range(ch.between(1, 2)):
        w.now = 0.0
        dev = Devices(ch, bulk=t.bulk)
        where = ch.weighted([(3, 'byte'), (3, 'last'), (2, 'close'), (1, 'open')] if use_out else [(3, 'byte'), (3, 'last')])
        kind = ch.pick(['enospc', 'eio', 'epipe', 'enospc', 'eio', 'epipe', 'eagain', 'edquot', 'efbig', 'estale', 'etimedout', 'econnreset', 'eperm', 'einval'])
        if where == 'byte':
            at = ch.between(0, len(out0))
        elif where == 'last':
            at = max(0, len(out0) - 1 - ch.below(40))
        else:
            at = where
            kind = 'eio' if kind == 'eagain' else kind
            kind = 'eacces' if at == 'open' else kind
        fault = Fault(kind, at, sticky=not ch.chance(1, 3))
        r, out = invoke(ch, w, head, opts, tail, data, use_file, use_out, dev, {OUT if use_out else 'stdout': fault}, what)
        how = '%s to %s: %s%s at %s of %d bytes (%s)' % (what, 'a file' if use_out else 'standard output', kind, '' if fault.sticky else ' once',
                                                       at, len(out0), dev.desc)
        # NOTE: a buffer may absorb the data a non-blocking descriptor refuses for now, and deliver it later
        if r.status == 0 and fault.fired and kind != 'eagain':
            raise Violation('failure-hidden', '%s: exit status 0; the system accepted %d bytes' % (how, len(out)))
        if r.status == 0 and out != out0:
            raise Violation('output-lost', '%s: exit status 0 but the system accepted %r' % (how, out[-200:]))
        if not fault.fired and r.status != 0:
            raise Violation('unexpected-exit', '%s: no fault, but exit status %d (%s)' % (how, r.status, err_text(r)))
        fired += fault.fired
        if fault.fired:
            w.probe('%s_%s_%s' % (head, 'file' if use_out else 'stdout', where))
    if t.bulk:
        w.probe('bulk')
    return {'nontrivial': bool(fired), 'sig': (what, ch.log[-30:]), 'sample': what}
