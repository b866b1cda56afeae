"""Generated CSV workloads for the command line and the small reference model of its commands."""
import csv
import io
import itertools
import re

from unidecode import unidecode

WORDS = ['', 'a', 'b', 'Alpha', 'alpha', 'BETA', 'beta beta', 'gamma, ray', 'éclair', 'Éclair', 'eclair', 'x|y', 'x|y|z', '|', 'a||b',
         '|a', 'b|', ' pad ', 'aabbcc', 'New York', 'york new', 'New  york', 'a;b', 'a;b;c', '12', '007', 'ÆSIR', '名前', 'ß', 'a--b', '!?']
NASTY = ['say "hi"', '"', '""', 'line\nbreak', 'back\\slash', '\\', '\\"', 'tab\there', 'nel\x85x', 'ls\u2028x', "quote's", '<b>x</b>', '&amp;', '<', 'a&b',
         'cr\r\nlf', 'cr\rx', '\x01ctl', 'ctl\x1f', 'del\x7f', 'a\x08', 'ff\x0c', '\U0001f600', '\u200b', 'x' * 70, ',', '#', '%s', '{}', '\\n', '\\u0041', '</li>', '<!--', '&lt;']
NAMES = ['name', 'value', 'tags', 'id', 'the col', 'é', 'x,y', 'q"t', 'name']


def gen_char(ch):
    lo, hi = ch.pick([(0, 0x7f), (0x80, 0x2ff), (0x300, 0x2fff), (0x3000, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)])
    return chr(ch.between(lo, hi))


def gen_cell(ch, nasty):
    k = ch.weighted([(12, 'word'), (4, 'nasty'), (4, 'join'), (2, 'rand'), (1, 'uni')]) if nasty else ch.weighted([(6, 'word'), (2, 'join'), (1, 'rand')])
    if k == 'word':
        return ch.pick(WORDS)
    if k == 'nasty':
        return ch.pick(NASTY)
    if k == 'join':
        sep = ch.pick(['|', ' ', ';', '-'])
        return sep.join(ch.pick(WORDS + (NASTY if nasty else [])) for _ in range(ch.between(2, 3)))
    if k == 'uni':
        return ''.join(gen_char(ch) for _ in range(ch.between(1, 4)))
    return ''.join(ch.pick('aAbBcé| ') for _ in range(ch.between(1, 5)))


class Table(object):
    def __init__(self, ch, nasty=True, maxrows=8, pool=None):
        self.width = ch.between(1, 4)
        names = list(NAMES)
        ch.shuffle(names)
        self.headers = names[:self.width]
        self.rows = []
        cells = [gen_cell(ch, nasty) for _ in range(ch.between(1, 5))] if ch.chance(1, 2) else None
        for _ in range(ch.below(maxrows + 1)):
            self.rows.append([ch.pick(cells) if cells and ch.chance(3, 4) else gen_cell(ch, nasty) for _ in range(self.width)])
        self.bulk = bool(self.rows) and ch.chance(1, 50)
        if self.bulk:
            self.rows = [list(r) for _ in range(ch.pick([40, 150, 700, 40, 150, 2500]) // len(self.rows) + 1) for r in self.rows]
            how = ch.below(3)
            for i, r in enumerate(self.rows):
                if how == 1:
                    r[0] += str(i)
                elif how == 2:
                    r[-1] = '%s %d%s' % (r[-1], i // 3, '.' * (i % 3))
        self.huge = bool(self.rows) and not self.bulk and ch.chance(1, 400)
        if self.huge:
            # longer than the default limit of the csv module
            r = ch.pick(self.rows)
            k = ch.below(self.width)
            r[k] = r[k] + ch.pick('qz') * ch.pick([131072, 140000]) + r[k]
            self.bulk = True
        self.column = ch.pick(self.headers)
        self.position = self.headers.index(self.column)
        self.eol = ch.pick(['\r\n', '\n'])
        self.quoting = ch.pick([csv.QUOTE_MINIMAL, csv.QUOTE_ALL])
        self.final_eol = not ch.chance(1, 4)

    def encode(self):
        s = io.StringIO(newline='')
        wr = csv.writer(s, lineterminator=self.eol, quoting=self.quoting)
        wr.writerow(self.headers)
        for r in self.rows:
            wr.writerow(r)
        t = s.getvalue()
        if not self.final_eol:
            t = t[:-len(self.eol)]
        return t.encode('utf-8')


csv.field_size_limit(1 << 30)        # of this harness only: simulated processes start with the default one


def parse(data):
    return list(csv.reader(io.StringIO(data.decode('utf-8'), newline=''), strict=True))


def fingerprint(s):
    s = unidecode(s.lower())
    s = re.sub(r'[^a-z0-9\s]', '', s).strip()
    return ' '.join(sorted(set(re.split(r'\s+', s))))


def squeeze(s):
    return ''.join(c * len(list(g)) if c == '\n' else c for c, g in itertools.groupby(s))


OPS = {'fingerprint': fingerprint, 'len': len, 'lower': str.lower, 'squeeze': squeeze, 'strip': str.strip, 'unidecode': unidecode, 'upper': str.upper}

EVALS = [('value.upper()', str.upper), ('value + "!"', lambda v: v + '!'), ('unidecode(value)', unidecode), ('len(value)', len),
         ('value[0]', lambda v: v[0]), ('int(value)', int), ('value.split("|")[1]', lambda v: v.split('|')[1]), ('1 / (len(value) - 3)', lambda v: 1 / (len(v) - 3)),
         ('"x,y" if value else "\\n"', lambda v: 'x,y' if v else '\n')]


class Command(object):
    """argv (without file / output) and the rows it must write; error=True when a cell operation fails."""

    def __init__(self, ch, table, kinds=('split', 'transform')):
        self.kind = ch.pick(list(kinds))
        t = table
        p = t.position
        rows, self.error = [list(t.headers)], False
        opts, pos = [], []
        if self.kind == 'split':
            sep = ch.pick(['|', ';', '||', ' ', 'a'])
            if sep != '|' or ch.chance(1, 4):
                opts += [ch.pick(['-s', '--separator']), sep]
            target = ch.weighted([(2, None), (2, 'new'), (1, t.column), (1, '')])
            if target is not None:
                opts += ['--target-column=' + target]
                rows[0].append(target)
            if ch.chance(1, 3):
                opts += ['-r', 'renamed']
                rows[0][p] = 'renamed'
            for r in t.rows:
                for v in r[p].split(sep):
                    rows.append(r + [v] if target is not None else r[:p] + [v] + r[p + 1:])
        else:
            if ch.chance(1, 4):
                expr, f = ch.pick(EVALS)
                opts += ['--eval']
                pos = [expr]
                fs = [f]
            else:
                names = [ch.pick(sorted(OPS)) for _ in range(ch.between(1, 3))]
                pos = [','.join(names)]
                fs = [OPS[n] for n in names]
            target = ch.weighted([(1, None), (1, 'new'), (1, '')])
            after = ch.chance(1, 2)
            if target is not None:
                opts += ['--target-column=' + target]
                rows[0].insert(p + 1 if after else t.width, target)
            if after:
                opts += ['-a']
            for r in t.rows:
                v = r[p]
                try:
                    for f in fs:
                        v = f(v)
                except Exception:
                    self.error = True
                    break
                v = str(v)
                if target is None:
                    rows.append(r[:p] + [v] + r[p + 1:])
                elif after:
                    rows.append(r[:p + 1] + [v] + r[p + 1:])
                else:
                    rows.append(r + [v])
        self.rows = rows
        self.opts, self.pos = opts, pos
        self.column = t.column

    def argv(self, ch, infile, outfile):
        a = [self.kind] + self.opts
        if outfile:
            a += ['-o', outfile]
        a += [self.column] + self.pos
        if infile:
            a.append(infile)
        return a
