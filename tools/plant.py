"""plant.py SPEC.py : records planted bugs (ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO) after confirming, in a scratch clone of
/repo, that the change builds, passes the stable tests, and that the demo passes without it and fails with it; then reports
which check catches it (FOGSIM_REPO points the checks at the clone: a convenience of this tool only)."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = '/tmp/plant/repo'
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd=C, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clone():
    shutil.rmtree('/tmp/plant', ignore_errors=True)
    os.makedirs('/tmp/plant')
    subprocess.check_call(['git', 'clone', '-q', '/repo', C])
    build()


def build():
    r = sh('find cfog -name "*.so" -delete; %s -m cython cfog/metrics/levenshtein.pyx && %s setup.py -q build_ext --inplace && rm -rf build' % (PY, PY))
    return r.returncode == 0 and any(f.endswith('.so') for f in os.listdir(C + '/cfog/metrics'))


def tests():
    r = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 %s -m pytest -q -p no:cacheprovider --timeout=300 --ignore=test/clustering/minhash_test.py '
           '--ignore=test/clustering/nn_descent_test.py --ignore=test/clustering/ppjoin_test.py --ignore=test/clustering/quickjoin_test.py test' % PY)
    return r.returncode == 0, r.stdout[-600:]


def demo(d):
    try:
        return subprocess.run(['bash', d + '/demo.sh'], cwd=C, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        class R:
            returncode, stdout = 124, 'timeout'
        return R


def main(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    clone()
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        sh('git checkout -q -- .')
        d = os.path.join(V, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        native = any(e[0].endswith('.pyx') for e in b['edits'])
        if native:
            build()
        r0 = demo(d)
        for f, old, new, *every in b['edits']:
            s = open(os.path.join(C, f)).read()
            assert s.count(old) == 1 or every, (b['id'], f, s.count(old), old)
            open(os.path.join(C, f), 'w').write(s.replace(old, new))
        ok = build() if native else True
        t, tail = tests()
        r1 = demo(d)
        patch = subprocess.run(['git', 'diff'], cwd=C, stdout=subprocess.PIPE, text=True).stdout
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'))
        good = r0.returncode == 0 and ok and t and r1.returncode != 0
        print('%s: demo clean %d, build %s, tests %s, demo patched %d -> %s' % (b['id'], r0.returncode, ok, t, r1.returncode, 'COUNTS' if good else 'REJECTED'))
        if not good:
            print(r0.stdout[-400:] if r0.returncode else '', tail if not t else '', r1.stdout[-400:])
            shutil.rmtree(d)
            continue
        caught = []
        for p in [b['property']] + b.get('also', []):
            env = dict(os.environ, FOGSIM_REPO=C, VERIF_SEED='1', FOGSIM_NOCONFIRM='1')
            r = subprocess.run(['./check.sh', p], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = r.returncode == 1 and 'VIOLATION' in r.stdout
            print('    check %s: %s' % (p, 'CAUGHT ' + r.stdout.split('\n')[1][:200] if hit else 'missed (rc %d) %s' % (r.returncode, r.stdout[-200:] if r.returncode else '')))
        sys.stdout.flush()
        sh('git checkout -q -- .')
        if native:
            build()
    shutil.rmtree('/tmp/plant', ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2:])
