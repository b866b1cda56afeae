"""python -m fogsim.replay FILE"""
import importlib
import json
import os
import shutil
import sys
import tempfile

from fogsim.runner import run_replay


def main(path):
    rec = json.load(open(path))
    if rec.get('fork'):
        os.environ['FOGSIM_FORK'] = '1'
    scratch = tempfile.mkdtemp(prefix='fogsim-replay-')
    try:
        meta = importlib.import_module('fogsim.props.meta').META[rec['property']]
        if meta.get('build'):
            getattr(importlib.import_module('fogsim.build'), meta['build'])(scratch)
        r = run_replay(path, rec['hashseed'], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for e in r['trace'][-60:]:
        print('   ', ' '.join(e))
    print('recorded: %s' % rec['class'])
    print('replayed: %s' % r['cls'])
    print(r['message'])
    if r['cls'] == rec['class']:
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
