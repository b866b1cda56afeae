"""determinism.py RUNS PROP... : every run of a check gives the same choices, events and outcome, whatever the number of
lanes explored at once and the load of the machine (never registered as a check)."""
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
with tempfile.TemporaryDirectory() as d:
    for prop in sys.argv[2:]:
        out = []
        for jobs in ('8', '3'):
            f = os.path.join(d, prop + jobs)
            subprocess.run(['./check.sh', prop], cwd=V, stdout=subprocess.DEVNULL, check=True,
                           env=dict(os.environ, FOGSIM_RUNS=sys.argv[1], FOGSIM_JOBS=jobs, FOGSIM_DIGESTS=f))
            out.append(open(f).read().splitlines())
        n = sum(a != b for a, b in zip(*out)) + abs(len(out[0]) - len(out[1]))
        print('%s: %d runs, %d different' % (prop, len(out[0]), n))
        bad += n
sys.exit(1 if bad else 0)
