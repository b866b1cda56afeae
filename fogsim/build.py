"""Builds fog's native code from /repo's working tree, in scratch, behind the simulated allocator."""
import os
import shutil
import subprocess
import sysconfig

from fogsim.world import REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
WRAP = ['malloc', 'calloc', 'realloc', 'free'] + [p + f for p in ('PyMem_', 'PyMem_Raw') for f in ('Malloc', 'Calloc', 'Realloc', 'Free')]


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError('building the native code failed: %s\n%s' % (' '.join(cmd), p.stdout[-3000:]))


def native(scratch):
    root = os.path.join(scratch, 'native')
    shutil.copytree(os.path.join(REPO, 'cfog'), os.path.join(root, 'cfog'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '*.pyc', '__pycache__'))
    lib = os.path.join(root, 'libsimalloc.so')
    inc = '-I' + sysconfig.get_paths()['include']
    run(['gcc', '-O2', '-fPIC', '-shared', '-o', lib, os.path.join(VERIF, 'native', 'simalloc.c')], root)
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    for d, _, fs in os.walk(os.path.join(root, 'cfog')):
        for f in fs:
            if f.endswith('.pyx'):
                src = os.path.join(d, f)
                run([PY, '-m', 'cython', os.path.relpath(src, root)], root)
                run(['gcc', '-O2', '-fno-strict-overflow', '-fPIC', '-shared', inc, src[:-4] + '.c', '-o', src[:-4] + suffix, lib]
                    + ['-Wl,--wrap=' + x for x in WRAP], root)
