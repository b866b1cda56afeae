"""The CLI cluster report conserves counts and parses back."""
import datetime
import re
import tomllib
from collections import Counter
from html.parser import HTMLParser

from fogsim.climodel import Table, fingerprint, gen_cell
from fogsim.props._cli import Devices, err_text, invoke
from fogsim.world import Violation

_EPOCH = datetime.datetime(1970, 1, 1)


class Page(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.cells, self.items, self.paras = [], [], []
        self.stack = []
        self.bad = []

    def handle_starttag(self, tag, attrs):
        if tag not in ('html', 'head', 'title', 'style', 'body', 'h1', 'h2', 'div', 'table', 'tr', 'td', 'b', 'p', 'ul', 'li', 'meta', 'thead', 'tbody', 'th', 'span', 'strong', 'br'):
            self.bad.append(tag)
        self.stack.append(tag)
        if tag == 'td':
            self.cells.append('')
        elif tag == 'p':
            self.paras.append(['', []])
        elif tag == 'li':
            if not self.paras:
                self.bad.append('li')
                self.paras.append(['', []])
            self.paras[-1][1].append('')

    def handle_endtag(self, tag):
        if tag in self.stack:
            while self.stack.pop() != tag:
                pass

    def handle_comment(self, data):
        self.bad.append('comment')

    def handle_data(self, data):
        if 'li' in self.stack:
            self.paras[-1][1][-1] += data
        elif 'td' in self.stack:
            self.cells[-1] += data
        elif 'p' in self.stack and self.paras:
            self.paras[-1][0] += data


def number(s):
    return int(s.strip().replace(',', ''))


def read_html(out, what):
    try:
        p = Page()
        p.feed(out.decode('utf-8'))
        p.close()
        if p.bad:
            raise ValueError('unexpected markup %r' % p.bad)
        cells = {}
        for k, v in zip(p.cells[::2], p.cells[1::2]):
            cells[k.strip()] = v.strip()
        took = cells['Took']
        m = re.fullmatch(r'(?:(\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)', took)
        if not m:
            raise ValueError('duration %r' % took)
        rep = {
            'date': datetime.date.fromisoformat(cells['Date']),
            'algorithm': cells['Algorithm used'],
            'lines': number(cells['Lines']),
            'distinct': number(cells['Distinct values']),
            'clusters_count': number(cells['Found clusters']),
            'took': int(m[1] or 0) * 86400 + int(m[2]) * 3600 + int(m[3]) * 60 + float(m[4]),
            'clusters': [],
        }
        for i, (text, items) in enumerate(p.paras):
            nums = re.findall(r'\d[\d,]*', text)
            if len(nums) != 3 or number(nums[0]) != i + 1:
                raise ValueError('cluster heading %r' % text)
            rep['clusters'].append({'nb_values': number(nums[1]), 'nb_rows': number(nums[2]), 'values': items, 'counts': None})
        return rep
    except (ValueError, KeyError, AssertionError) as e:
        raise Violation('unreadable-report', '%s: the HTML report does not read back (%s): %r' % (what, e, out[-1500:]))


def unlay(clusters, want, what):
    """Strips the layout (the same white space around every value) of the list items of an HTML report."""
    raw = [v for c in clusters for v in c['values']]
    if not raw:
        return
    want = sorted(want)
    lead = len(raw[0]) - len(raw[0].lstrip())
    trail = len(raw[0]) - len(raw[0].rstrip())
    for i in range(lead + 1):
        for j in range(trail + 1):
            a, b = raw[0][:i], raw[0][len(raw[0]) - j:] if j else ''
            if all(len(v) >= i + j and v.startswith(a) and v.endswith(b) for v in raw) and sorted(v[i:len(v) - j] for v in raw) == want:
                for c in clusters:
                    c['values'] = [v[i:len(v) - j] for v in c['values']]
                return
    raise Violation('wrong-clusters', '%s: the HTML report lists %r instead of %r' % (what, raw[:30], want[:30]))


def read_toml(out, what):
    try:
        d = tomllib.loads(out.decode('utf-8'))
        rep = {
            'date': d['info']['date'],
            'algorithm': d['info']['algorithm'],
            'lines': d['stats']['lines'],
            'distinct': d['stats']['nb_distinct_values'],
            'clusters_count': d['stats']['nb_clusters'],
            'took': float(d['stats']['took']),
            'clusters': [],
        }
        for i, c in enumerate(d.get('cluster', [])):
            if c['id'] != i:
                raise ValueError('cluster id %r' % c['id'])
            rep['clusters'].append({'nb_values': c['nb_values'], 'nb_rows': c['nb_rows'], 'values': [v[0][0] for v in c['values']],
                                    'counts': [v[1][0] for v in c['values']], 'harmonized': c['harmonized']})
        return rep
    except (ValueError, KeyError, IndexError, TypeError) as e:
        raise Violation('unreadable-report', '%s: the TOML report does not read back (%s): %r' % (what, e, out[-1500:]))


def run(ch, w):
    t = Table(ch, maxrows=14)
    if ch.chance(2, 3):
        # more collisions: variants of few values
        base = [gen_cell(ch, True) for _ in range(ch.between(1, 3))]
        for r in t.rows:
            v = ch.pick(base)
            r[t.position] = ch.pick([v, v.upper(), v + ' ', v + '.', ' '.join(reversed(v.split())), '"' + v, v + '\\', v + '<'])
    if t.bulk and ch.chance(1, 2):
        # clusters of many values
        m = ch.between(1, 4)
        for i, r in enumerate(t.rows):
            n, mark = i // m, ''
            while n:
                n, d = divmod(n, 4)
                mark += '.!?-'[d]
            r[t.position] = 'value %d%s' % (i % m, mark)
    data = t.encode()
    kind = ch.pick(['toml', 'html'])
    opts = [] if kind == 'toml' and ch.chance(1, 2) else ['-t', kind]
    what = 'fog cluster %r %r on %r' % (opts, t.column, data.decode()[:1500])

    rows = Counter(r[t.position] for r in t.rows)
    groups = {}
    for v in rows:
        k = fingerprint(v)
        if k:
            groups.setdefault(k, []).append(v)
    groups = [g for g in groups.values() if len(g) > 1]

    reports = []
    for k in range(2):
        use_file, use_out = ch.chance(1, 2), ch.chance(1, 2)
        dev = Devices(ch, plain=(k == 0), bulk=t.bulk)
        w.work_cost = ch.pick([0.0, 0.25, 3.0, 0.001])
        w.io_cost = ch.pick([0.0, 7.0, 0.5])
        w.work_done = 0.0
        walls = []
        wall = lambda: w.now + w.wall_offset
        jumps = [ch.below(20) for _ in range(ch.below(3))]
        n = [0]

        def on_work():
            n[0] += 1
            if n[0] in jumps:
                walls.append(wall())
                w.wall_offset += ch.pick([3600.0, -3600.0, 86400.0 * 40, -86400.0 * 3, 0.5])
                walls.append(wall())
                w.fault('wall_clock_jump')
        w.on_work = on_work
        walls.append(wall())
        r, out = invoke(ch, w, 'cluster', opts, [t.column], data, use_file, use_out, dev, None, what)
        walls.append(wall())
        w.on_work = None
        if w.work_cost == 0.0:
            w.fault('stalled_clock')
        if r.status != 0:
            raise Violation('unexpected-exit', '%s: exit status %d (%s)' % (what, r.status, err_text(r)))
        rep = (read_html if kind == 'html' else read_toml)(out, what)
        if kind == 'html':
            unlay(rep['clusters'], [v for g in groups for v in g], what)
        if rep['lines'] != len(t.rows) or rep['distinct'] != len(rows) or rep['clusters_count'] != len(groups):
            raise Violation('wrong-statistics', '%s: reports %d lines, %d distinct values, %d clusters instead of %d, %d, %d' % (
                what, rep['lines'], rep['distinct'], rep['clusters_count'], len(t.rows), len(rows), len(groups)))
        key = lambda c: (sorted(c[0]), c[1], c[2])
        got = sorted(((c['values'], c['nb_values'], c['nb_rows']) for c in rep['clusters']), key=key)
        got = [(sorted(a), b, c) for a, b, c in got]
        want = sorted((list(g), len(g), sum(rows[v] for v in g)) for g in groups)
        want = sorted((sorted(a), b, c) for a, b, c in want)
        if sorted(got) != want:
            raise Violation('wrong-clusters', '%s: reports clusters (values, size, rows) %r instead of %r' % (what, sorted(got), want))
        for c in rep['clusters']:
            if c['counts'] is not None:
                if dict(zip(c['values'], c['counts'])) != {v: rows[v] for v in c['values']}:
                    raise Violation('wrong-counts', '%s: %r' % (what, c))
                if c['harmonized'] != c['values'][0]:
                    raise Violation('wrong-order', '%s: harmonized value is not the first one: %r' % (what, c))
            ns = [rows[v] for v in c['values']]
            if ns != sorted(ns, reverse=True):
                raise Violation('wrong-order', '%s: values are not by decreasing row count: %r' % (what, c))
        if abs(rep['took'] - w.work_done) > 1e-5:
            raise Violation('wrong-duration', '%s: clustering took %r simulated seconds, the report says %r' % (what, w.work_done, rep['took']))
        lo, hi = min(walls), max(walls)
        d = rep['date']
        if kind == 'html':
            ok = (_EPOCH + datetime.timedelta(seconds=lo)).date() <= d <= (_EPOCH + datetime.timedelta(seconds=hi)).date()
        else:
            d = d.replace(tzinfo=None) if isinstance(d, datetime.datetime) else datetime.datetime(d.year, d.month, d.day)
            ok = _EPOCH + datetime.timedelta(seconds=int(lo) - 1) <= d <= _EPOCH + datetime.timedelta(seconds=hi + 1)
        if not ok:
            raise Violation('wrong-date', '%s: the report is dated %s, outside of the run' % (what, d))
        del rep['date'], rep['took']
        reports.append(rep)
        w.wall_offset += ch.pick([0.0, 1e7, 12345.0])
    if reports[0] != reports[1]:
        raise Violation('clock-matters', '%s: the report changes with the clock or delivery: %r then %r' % (what, reports[0], reports[1]))
    w.probe(kind)
    if groups:
        w.probe('has_clusters')
    if t.bulk:
        w.probe('bulk')
    return {'nontrivial': bool(groups), 'sig': what, 'sample': what}
