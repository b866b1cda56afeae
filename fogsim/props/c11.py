"""CLI split and transform conserve rows under any stream behaviour."""
import csv
import io

from fogsim.climodel import Command, Table, parse
from fogsim.props._cli import IN, Devices, err_text, invoke
from fogsim.simfs import Fault
from fogsim.world import Violation


def is_prefix(out, rows):
    """Complete rows of out are rows, in order; the last one may be cut."""
    text = out.decode('utf-8', 'ignore')
    got = list(csv.reader(io.StringIO(text, newline='')))
    if len(got) > len(rows):
        return False
    if got[:-1] != rows[:max(len(got) - 1, 0)]:
        return False
    if not got or got[-1] == rows[len(got) - 1]:
        return True
    last, want = got[-1], rows[len(got) - 1]
    return len(last) <= len(want) and last[:-1] == want[:len(last) - 1]


def run(ch, w):
    t = Table(ch)
    cmd = Command(ch, t)
    data = t.encode()
    what = 'fog %s %r %r on %r' % (cmd.kind, cmd.opts, [cmd.column] + cmd.pos, data.decode()[:1500])
    go = lambda use_file, use_out, dev, data=data, faults=None: invoke(
        ch, w, cmd.kind, cmd.opts, [cmd.column] + cmd.pos, data, use_file, use_out, dev, faults, what)

    # undisturbed
    use_file, use_out = ch.chance(1, 2), ch.chance(1, 2)
    r, out0 = go(use_file, use_out, Devices(ch, True))
    if cmd.error:
        w.fault('cell_operation_fails')
        if r.status == 0:
            raise Violation('error-hidden', '%s: a cell operation fails but the exit status is 0' % what)
        if not is_prefix(out0, cmd.rows):
            raise Violation('not-a-prefix', '%s: wrote %r, which is no prefix of %r' % (what, out0, cmd.rows))
    else:
        if r.status != 0:
            raise Violation('unexpected-exit', '%s: exit status %d (%s)' % (what, r.status, err_text(r)))
        try:
            got = parse(out0)
        except (csv.Error, UnicodeDecodeError) as e:
            raise Violation('bad-csv', '%s: the output is no CSV (%s): %r' % (what, e, out0))
        if got != cmd.rows:
            raise Violation('wrong-rows', '%s: wrote %r instead of %r' % (what, got, cmd.rows))

    # other deliveries
    for k in range(ch.between(1, 2)):
        f2, o2 = ch.chance(1, 2), ch.chance(1, 2)
        dev = Devices(ch, bulk=t.bulk)
        w.log('delivery', 'file' if f2 else 'stdin', 'file' if o2 else 'stdout', dev.desc)
        r2, out = go(f2, o2, dev)
        if out != out0 or (r2.status == 0) != (r.status == 0):
            raise Violation('delivery-matters', '%s: input from %s, output to %s, %s: exit %d and %r instead of exit %d and %r' % (
                what, 'file' if f2 else 'stdin', 'file' if o2 else 'stdout', dev.desc, r2.status, out, r.status, out0))

    # one failure
    f2, o2 = ch.chance(1, 2), ch.chance(1, 2)
    dev = Devices(ch, bulk=t.bulk)
    kind = ch.pick(['eio', 'interrupt', 'undecodable', 'truncated-char', 'open', 'no-column', 'empty'])
    faults, bad, fault = {}, data, None
    if kind in ('eio', 'interrupt'):
        no = ch.pick(['eio', 'eio', 'estale', 'etimedout', 'econnreset', 'eisdir', 'eperm', 'einval']) if kind == 'eio' else kind
        fault = Fault(no, ch.between(0, len(data)), sticky=not ch.chance(1, 3))
        faults[IN if f2 else 'stdin'] = fault
    elif kind == 'undecodable':
        at = ch.between(0, len(data))
        bad = data[:at] + b'\xff' + data[at:]
    elif kind == 'truncated-char':
        bad = data + ch.pick([b'\xc3', b'\xe2\x80', b'\xf0\x9f\x98'])
    elif kind == 'open':
        f2 = True
        fault = Fault(ch.pick(['eacces', 'enoent', 'emfile', 'eisdir']), 'open')
        faults[IN] = fault
    elif kind == 'no-column':
        cmd_column = 'no such column'
    elif kind == 'empty':
        bad = b''
    if kind in ('undecodable', 'truncated-char', 'no-column', 'empty'):
        w.fault(kind)
        w.log('fault', kind)
    if kind == 'no-column':
        r3, out = invoke(ch, w, cmd.kind, cmd.opts, ['no such column'] + cmd.pos, data, f2, o2, dev, None, what)
    else:
        r3, out = go(f2, o2, dev, bad, faults)
    how = '%s: %s%s, input from %s' % (what, kind, ' at %s' % fault.at if fault else '', 'file' if f2 else 'stdin')
    fired = fault.fired if fault is not None else True
    if not fired:
        if (r3.status == 0) != (r.status == 0) or out != out0:
            raise Violation('delivery-matters', '%s: exit %d and %r instead of %r' % (how, r3.status, out, out0))
    else:
        if r3.status == 0:
            raise Violation('error-hidden', '%s: exit status is 0' % how)
        if kind in ('no-column', 'empty', 'open'):
            if out:
                raise Violation('not-a-prefix', '%s: yet %r is written' % (how, out))
        elif out0[:len(out)] != out:
            raise Violation('not-a-prefix', '%s: wrote %r, which is no prefix of %r' % (how, out, out0))
    if len(t.rows) and out and fired and out != out0:
        w.probe('cut_midway')
    w.probe(cmd.kind)
    if t.bulk:
        w.probe('bulk')
    return {'nontrivial': bool(t.rows), 'sig': (what, dev.desc, kind, f2, o2, ch.log[-30:]), 'sample': what}
