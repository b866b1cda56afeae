"""Runs each planted bug's own check on a scratch clone with the bug applied and writes the table OUT (JSON lines)."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import plant
plant.C = '/tmp/allseeds/repo'
shutil.rmtree('/tmp/allseeds', ignore_errors=True)
os.makedirs('/tmp/allseeds')
subprocess.check_call(['git', 'clone', '-q', '/repo', plant.C])
plant.build()
out = open(sys.argv[1], 'a')
only = sys.argv[2:]
for i in sorted(os.listdir(V + '/seeded')):
    if only and i not in only:
        continue
    d = V + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    plant.sh('git checkout -q -- .')
    r = plant.sh('git apply %s/patch.diff' % d)
    if r.returncode:
        print(i, 'DOES NOT APPLY', r.stdout)
        continue
    native = '.pyx' in open(d + '/patch.diff').read()
    if native:
        plant.build()
    p = meta['property']
    r = subprocess.run(['./check.sh', p], cwd=V, env=dict(os.environ, FOGSIM_REPO=plant.C, VERIF_SEED='1', FOGSIM_NOCONFIRM='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hit = r.returncode == 1 and ('VIOLATION property=%s' % p) in r.stdout
    klass = r.stdout.split('(class ')[1].split(')')[0] if '(class ' in r.stdout else ''
    print(i, p, 'CAUGHT' if hit else 'missed rc %d' % r.returncode, klass)
    out.write(json.dumps({'id': i, 'property': p, 'caught': hit, 'class': klass}) + '\n')
    out.flush()
    sys.stdout.flush()
    if native:
        plant.sh('git checkout -q -- .')
        plant.build()
shutil.rmtree('/tmp/allseeds', ignore_errors=True)
