"""Mutation testing of the checks themselves (never registered as a check).

  python3 tools/mutate.py OUT.jsonl WORKERS RUNS FILE[:lo-hi] PROP,PROP[@ROUTINE,ROUTINE] ...

Makes single-node mutations of FILE (relative to /repo), keeps those that pass the stable tests, and records which
of the given checks catch them, in scratch copies under /tmp/mutate.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from multiprocessing.pool import ThreadPool

PY = '/opt/venv/bin/python'
ROOT = '/tmp/mutate'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'],
       ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.BitOr: '&', ast.BitAnd: '|', ast.Mod: '*'}


def mutations(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l) + 1)

    def span(n):
        a = offs[n.lineno - 1] + len(lines[n.lineno - 1].encode()[:n.col_offset].decode())
        b = offs[n.end_lineno - 1] + len(lines[n.end_lineno - 1].encode()[:n.end_col_offset].decode())
        return a, b

    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def add(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, n.lineno, what))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '%s %s %s' % (text(n.left), o, text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, '%s %s %s' % (text(n.left), BIN[type(n.op)], text(n.right)), 'binop')
        elif isinstance(n, ast.BoolOp):
            o = ' and ' if isinstance(n.op, ast.Or) else ' or '
            add(n, '(' + o.join(text(v) for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                add(n, '(' + (' or ' if isinstance(n.op, ast.Or) else ' and ').join(text(v) for k, v in enumerate(n.values) if k != i) + ')', 'dropcond')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand), 'not')
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if n.value is True or n.value is False:
                add(n, str(not n.value), 'bool')
            elif isinstance(n.value, (int, float)):
                add(n, repr(n.value + 1), 'const')
                add(n, repr(n.value - 1), 'const')
            elif isinstance(n.value, str) and n.value and not text(n).startswith(('f', '"""')) :
                pass
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, 'not (%s)' % text(n.test), 'negate')
            if isinstance(n, ast.If):
                add(n.test, '(%s) and False' % text(n.test), 'never')
        elif isinstance(n, ast.IfExp):
            add(n, '(%s)' % text(n.body), 'ifexp')
            add(n, '(%s)' % text(n.orelse), 'ifexp')
        elif isinstance(n, ast.Continue):
            add(n, 'break', 'brk')
        elif isinstance(n, ast.Break):
            add(n, 'continue', 'cont')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and id(n) not in docs:
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, 'return None', 'retnone')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    kept = [text(a) for a in n.args] + [('%s=%s' % (q.arg, text(q.value)) if q.arg else '**' + text(q.value)) for q in n.keywords if q is not k]
                    add(n, '%s(%s)' % (text(n.func), ', '.join(kept)), 'dropkw ' + k.arg)
            if len(n.args) == 2 and not n.keywords:
                add(n, '%s(%s, %s)' % (text(n.func), text(n.args[1]), text(n.args[0])), 'swapargs')
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'sorted', 'set', 'min', 'max', 'tuple', 'reversed', 'abs', 'int', 'float', 'ceil') and len(n.args) == 1:
                add(n, text(n.args[0]), 'unwrap')
            if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'):
                add(n.func, 'max' if n.func.id == 'min' else 'min', 'minmax')
        elif isinstance(n, ast.With) and 'Pool' in text(n.items[0].context_expr):
            pass
        elif isinstance(n, ast.Yield) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            add(n.value, '(%s, %s)' % (text(n.value.elts[1]), text(n.value.elts[0])), 'swap')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, text(n.value), 'unslice')
    return sorted(set(out))


def main():
    outp, workers, runs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    jobs = []
    for spec, props in zip(sys.argv[4::2], sys.argv[5::2]):
        path, _, rng = spec.partition(':')
        src = open('/repo/' + path).read()
        lo, hi = (map(int, rng.split('-')) if rng else (1, 10 ** 9))
        for m in mutations(src):
            if lo <= m[3] <= hi:
                try:
                    ast.parse(src[:m[0]] + m[2] + src[m[1]:])
                except SyntaxError:
                    continue
                jobs.append((path, m, props))
    limit = int(os.environ.get('MUT_LIMIT', '0'))
    if limit:
        random.Random(int(os.environ.get('MUT_SEED', '1'))).shuffle(jobs)
        jobs = jobs[:limit]
    print(len(jobs), 'mutants')
    os.makedirs(ROOT, exist_ok=True)
    free = []
    for i in range(workers):
        d = os.path.join(ROOT, 'w%d' % i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(VERIF, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence'))
        free.append(d)
    out = open(outp, 'a')

    def one(job):
        path, m, spec = job
        names, _, only = spec.partition('@')
        props = names.split(',')
        d = free.pop()
        try:
            src = open('/repo/' + path).read()
            with open(os.path.join(d, 'repo', path), 'w') as f:
                f.write(src[:m[0]] + m[2] + src[m[1]:])
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            try:
                p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'] + ['--ignore=test/clustering/%s_test.py' % t for t in (
                    'minhash', 'nn_descent', 'ppjoin', 'quickjoin')] + ['test'], cwd=d + '/repo', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                tests = p.returncode == 0
            except subprocess.TimeoutExpired:
                tests = False
            res = dict(file=path, line=m[3], what=m[4], old=src[m[0]:m[1]][:200], new=m[2][:200], tests=tests, caught=[], info='')
            if tests:
                env.update(FOGSIM_REPO=d + '/repo', FOGSIM_JOBS='1', FOGSIM_RUNS=str(runs), FOGSIM_NOCONFIRM='1', VERIF_SEED='3', FOGSIM_ROUTINES=only)
                for q in props:
                    try:
                        p = subprocess.run(['./check.sh', q], cwd=d + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                        if p.returncode == 1 and 'VIOLATION' in p.stdout:
                            res['caught'].append(q)
                            res['info'] = p.stdout.split('\n')[1][:300]
                            break
                        if p.returncode:
                            res['info'] = 'rc %d %s' % (p.returncode, p.stdout[-300:])
                    except subprocess.TimeoutExpired:
                        res['info'] = 'timeout'
            out.write(json.dumps(res) + '\n')
            out.flush()
            return res
        finally:
            with open(os.path.join(d, 'repo', path), 'w') as f:
                f.write(open('/repo/' + path).read())
            free.append(d)
    n = caught = alive = 0
    for r in ThreadPool(workers).imap_unordered(one, jobs):
        if r['tests']:
            n += 1
            if r['caught']:
                caught += 1
            else:
                print('MISSED %s:%d %s: %s -> %s   %s' % (r['file'], r['line'], r['what'], r['old'].replace('\n', ' '), r['new'], r['info'][:100]))
                sys.stdout.flush()
    print('%d mutants, %d pass the tests, %d caught' % (len(jobs), n, caught))
    shutil.rmtree(ROOT, ignore_errors=True)


if __name__ == '__main__':
    main()
