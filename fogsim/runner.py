"""python -m fogsim.runner PROP : the check of one property.  Exit 0 / 1 (+ VIOLATION line) / 2 (harness error)."""
import glob
import importlib
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time

from fogsim.choices import Choices, derive_seed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NLANES = 8
STALL = 180


def hashseed(seed, prop, lane):
    return derive_seed(seed, prop, 'hashseed', lane) % 4294967295 + 1 if lane else 0


def lane_env(hs, scratch):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = str(hs)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')     # never trust bytecode left by others
    e['PYTHONPATH'] = VERIF
    e['FOGSIM_SCRATCH'] = scratch
    e.pop('PYTHONSTARTUP', None)
    return e


def spawn(args, hs, scratch, **kw):
    return subprocess.Popen([PY, '-X', 'utf8', '-m', 'fogsim.lane'] + [str(a) for a in args], cwd=VERIF, env=lane_env(hs, scratch), **kw)


def known_findings(prop):
    """Unrepaired defects listed in known_findings.txt: 'known: property=<id> match=<class>:<text> <what>'."""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % prop):
                out.append(line.split(' ', 2)[2].strip())
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    meta = importlib.import_module('fogsim.props.meta').META[prop]
    total = meta['quick' if tier == 'quick' else 'thorough']
    if os.environ.get('FOGSIM_RUNS'):
        total = int(os.environ['FOGSIM_RUNS'])
    scratch = tempfile.mkdtemp(prefix='fogsim-%s-' % prop)
    try:
        return check(prop, tier, seed, total, meta, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, total, meta, scratch, t0):
    print('fogsim: property=%s tier=%s VERIF_SEED=%d runs=%d' % (prop, tier, seed, total))
    sys.stdout.flush()
    if meta.get('build'):
        m = importlib.import_module('fogsim.build')
        try:
            getattr(m, meta['build'])(scratch)
        except RuntimeError as e:
            print('HARNESS-ERROR %s' % e)
            return 2
    out = explore_all(prop, seed, total, scratch)
    if isinstance(out, int):
        return out
    done, harness, real = out
    if real and any(d['pools'] for d in done.values()) and not os.environ.get('FOGSIM_NOCONFIRM') and \
            not forked_agrees(prop, seed, real[0], scratch):
        # The failure needs workers that share this process's memory, which real workers never do: decide with
        # workers that are all really forked.
        print('fogsim: run %d failed (%s) only with workers simulated in-process; exploring again with forked workers only' % (
            real[0][0], real[0][2]['cls']))
        sys.stdout.flush()
        os.environ['FOGSIM_FORK'] = '1'
        total = max(1, total // 2)
        out = explore_all(prop, seed, total, scratch)
        if isinstance(out, int):
            return out
        done, harness, real = out
    violations = 0
    line = None
    if real and os.environ.get('FOGSIM_NOCONFIRM'):        # used by tools/mutate.py only
        print('%s %s' % (real[0][2]['cls'], real[0][2]['message'][:600]))
        line, violations = 'VIOLATION property=%s replay=unconfirmed' % prop, 1
    elif real:
        line = confirm(prop, seed, real[0], scratch)
        if line is None:
            print('HARNESS-ERROR run %d of lane %d failed (%s: %s) but neither it nor its lane replays' % (
                real[0][0], real[0][1], real[0][2]['cls'], real[0][2]['message']))
        else:
            violations = 1
    evidence(prop, tier, seed, total, meta, done, t0, violations)
    for what in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if line:
        print(line)
        return 1
    if real:
        return 2
    if harness:
        print('HARNESS-ERROR in run %d:\n%s' % (harness[0][0], harness[0][2]['message']))
        return 2
    print('fogsim: %s held on %d simulated runs (%.1f s)' % (prop, sum(d['runs'] for d in done.values()), time.time() - t0))
    return 0


def explore_all(prop, seed, total, scratch):
    """Executes all the runs in lanes -> (lane results, harness errors, violations), lowest run first."""
    progress = os.path.join(scratch, 'progress')
    with open(progress, 'wb') as f:
        f.write(struct.pack('>qd', -1, 0.0) * NLANES)
    jobs = int(os.environ.get('FOGSIM_JOBS', '8'))
    lanes = {}
    pending = list(range(NLANES))
    done = {}
    seen = {}
    crashed = {}
    best = None
    while pending or lanes:
        while pending and len(lanes) < jobs:
            k = pending.pop(0)
            outf = open(os.path.join(scratch, 'lane%d.out' % k), 'wb')
            errf = open(os.path.join(scratch, 'lane%d.err' % k), 'wb')
            lanes[k] = spawn(['explore', prop, seed, k, NLANES, total, progress], hashseed(seed, prop, k), scratch, stdout=outf, stderr=errf)
            seen[k] = (None, time.time())
        time.sleep(0.02)
        with open(progress, 'rb') as f:
            buf = f.read()
        for k in list(lanes):
            idx = struct.unpack('>qd', buf[16 * k:16 * k + 16])[0]
            if idx != seen[k][0]:
                seen[k] = (idx, time.time())
            p = lanes[k]
            if p.poll() is not None:
                del lanes[k]
                try:
                    done[k] = json.load(open(os.path.join(scratch, 'lane%d.out' % k)))
                    v = done[k]['violation']
                    if v and (best is None or v['idx'] < best):
                        best = v['idx']
                except ValueError:
                    crashed[k] = (idx, p.returncode, open(os.path.join(scratch, 'lane%d.err' % k), errors='replace').read()[-3000:])
                    if idx >= 0 and (best is None or idx < best):
                        best = idx
            elif time.time() - seen[k][1] > STALL:
                p.kill()
                p.wait()
                del lanes[k]
                crashed[k] = (idx, 'stalled', '')
                if best is None or idx < best:
                    best = idx
            elif best is not None and idx > best and idx < 1 << 59:
                # already past the lowest failing run: nothing this lane can still report matters
                p.kill()
                p.wait()
                del lanes[k]

    # -- what failed first? --------------------------------------------------------------------------
    cands = []
    for k, d in done.items():
        if d['violation']:
            cands.append((d['violation']['idx'], k, d['violation']))
    for k, (idx, rc, err) in crashed.items():
        if idx < 0:
            print('HARNESS-ERROR lane %d failed before its first run (%s)\n%s' % (k, rc, err))
            return 2
        saved = None
        if isinstance(rc, int) and rc < 0:
            fd = os.open(progress + '.choices%d' % k, os.O_RDONLY)
            saved = Choices.saved(fd)[0]
            os.close(fd)
        cands.append((idx, k, dict(idx=idx, cls='crash-%d' % -rc if saved is not None else 'crash', message='lane ended with %s\n%s' % (rc, err),
                                   choices=saved, trace=[])))
    cands.sort(key=lambda c: c[0])
    harness = [c for c in cands if c[2]['cls'] == 'harness']
    real = [c for c in cands if c[2]['cls'] != 'harness']
    return done, harness, real


def forked_agrees(prop, seed, cand, scratch):
    """Whether the failure also arises when every worker of a pool is a really forked process."""
    idx, lane, v = cand
    if v['choices'] is None:
        return True
    hs = hashseed(seed, prop, lane)
    rec = dict(property=prop, kind='choices', seed=seed, choices=v['choices'])
    path = os.path.join(scratch, 'fork.json')
    json.dump(rec, open(path, 'w'))
    plain = run_replay(path, hs, scratch)
    if plain['cls'] == v['cls'] and not plain.get('pools'):
        return True
    if plain['cls'] != v['cls']:
        # depends on the lane's history
        rec.update(kind='lane', runs=list(range(lane, idx + 1, NLANES))[-30:])
        json.dump(rec, open(path, 'w'))
    os.environ['FOGSIM_FORK'] = '1'
    try:
        r = run_replay(path, hs, scratch)
    finally:
        del os.environ['FOGSIM_FORK']
    return bool(r['cls']) and r['cls'] != 'harness'


def run_replay(path, hs, scratch, timeout=700):
    p = spawn(['replay', path], hs, scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {'cls': 'no-progress', 'message': 'replay did not end', 'trace': []}
    try:
        return json.loads(out)
    except ValueError:
        return {'cls': 'crash', 'message': err.decode(errors='replace')[-2000:], 'trace': []}


def confirm(prop, seed, cand, scratch):
    """Reproduce in a fresh process, minimise, write the replay file, verify it; -> the VIOLATION line."""
    idx, lane, v = cand
    hs = hashseed(seed, prop, lane)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    final = os.path.join(VERIF, 'replays', '%s-seed%d-run%d.json' % (prop, seed, idx))
    rec = dict(property=prop, kind='choices', seed=seed, run=idx, lane=lane, hashseed=hs, choices=v['choices'],
               message=v['message'], trace=v['trace'])
    rec['class'] = v['cls']
    if os.environ.get('FOGSIM_FORK'):
        rec['fork'] = True
    if v['choices'] is None:
        # the process died: obtain the choices by regenerating them in a child (they depend on the code only)
        rec.update(kind='lane', runs=[idx])
        path = os.path.join(scratch, 'cand.json')
        json.dump(rec, open(path, 'w'))
        r = run_replay(path, hs, scratch)
        if r['cls']:
            rec['class'], rec['message'], rec['trace'] = r['cls'], r['message'], r['trace']
            json.dump(rec, open(final, 'w'), indent=1)
            return report(prop, rec, final)
    else:
        path = os.path.join(scratch, 'cand.json')
        out = os.path.join(scratch, 'min.json')
        json.dump(rec, open(path, 'w'))
        p = spawn(['shrink', path, out], hs, scratch, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        try:
            p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        for src in (out, path):
            if not os.path.exists(src):
                continue
            r = run_replay(src, hs, scratch)
            m = json.load(open(src))
            if r['cls'] == rec['class']:
                m['message'], m['trace'] = r['message'], r['trace']
                json.dump(m, open(final, 'w'), indent=1)
                return report(prop, m, final)
    # not reproducible alone: replay the lane's history up to this run, then try shorter suffixes of it
    runs = list(range(lane, idx + 1, NLANES))
    good = None
    for n in sorted({2, 3, 5, 10, 30, 100, len(runs)}):
        if n > len(runs) or n < 1:
            continue
        sub = runs[-n:]
        rec2 = dict(rec, kind='lane', runs=sub)
        path = os.path.join(scratch, 'lane.json')
        json.dump(rec2, open(path, 'w'))
        r = run_replay(path, hs, scratch)
        if r['cls'] and r['cls'] != 'harness' and (r['cls'] == rec['class'] or v['choices'] is None):
            rec2['class'], rec2['message'], rec2['trace'] = r['cls'], r['message'], r['trace']
            good = rec2
            break
    if good is None:
        return None
    good['choices'] = None
    json.dump(good, open(final, 'w'), indent=1)
    return report(prop, good, final)


def report(prop, rec, path):
    print('--- violation of %s (class %s), run %d, PYTHONHASHSEED=%d' % (prop, rec['class'], rec['run'], rec['hashseed']))
    print(rec['message'])
    if rec.get('choices') is not None:
        print('minimised to %d choices' % len(rec['choices']))
    for e in rec['trace'][-40:]:
        print('   ', ' '.join(e))
    print('replay with: %s/replay.sh %s' % (VERIF, path))
    return 'VIOLATION property=%s replay=%s' % (prop, path)


def evidence(prop, tier, seed, total, meta, done, t0, violations):
    def add(key):
        out = {}
        for d in done.values():
            for k, v in d[key].items():
                out[k] = out.get(k, 0) + v
        return dict(sorted(out.items()))
    runs = sum(d['runs'] for d in done.values())
    wall = time.time() - t0
    if os.environ.get('FOGSIM_DIGESTS'):
        with open(os.environ['FOGSIM_DIGESTS'], 'w') as f:
            for i, h in sorted(tuple(x) for d in done.values() for x in d['digests']):
                f.write('%d %s\n' % (i, h))
    nt = set()
    inter = set()
    samples = []
    for k in sorted(done):
        nt.update(done[k]['nontrivial'])
        inter.update(done[k]['interleavings'])
        samples.extend(done[k]['samples'][:1])
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(nt),
        'rule': meta['rule'],
        'samples': samples[:6] or [{'case': 'no non-trivial run'}],
        'runs_per_hour': int(runs / max(wall, 0.001) * 3600),
        'seeds': 'run i of VERIF_SEED s uses sha256(s, property, i); every run is a distinct seed',
        'simulated_seconds': round(sum(d['sim_time'] for d in done.values()), 3),
        'faults_injected': add('faults'),
        'rare_conditions_reached': add('probes'),
        'distinct_interleavings': len(inter),
        'interleaving_measure': meta.get('measure', 'distinct sequences of scheduler decisions (feed / worker takes / worker finishes / parent wakes, or thread switches)'),
        'callback_evaluations': sum(d['calls'] for d in done.values()),
        'random_draws': sum(d['draws'] for d in done.values()),
        'choices_drawn': sum(d['choices'] for d in done.values()),
        'determinism_recheck': {'identical': sum(d['recheck_ok'] for d in done.values()), 'different': sum(d['recheck_bad'] for d in done.values())},
        'real_components': meta['real'],
        'stub_components': meta['stub'],
        'lanes': NLANES,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'], 'coverage': cov,
          'assumptions': meta['assumptions'], 'wall_s': round(wall, 3), 'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
