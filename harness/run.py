#!/usr/bin/env python3
"""Runs one property check:  run.py <ID> [--tier quick|thorough] [--replay FILE] [--seed N] [--workers N]

The parent imports neither TensorFlow nor the code under test.  It starts worker
processes (harness/worker.py), each of which drives the property's Hypothesis
strategy with its own seed derived from VERIF_SEED, merges what they report,
writes evidence/<ID>.json and prints the verdict.

exit 0  held on everything explored      exit 1  VIOLATION line(s) printed
exit 2  the check itself failed (no verdict)
"""
import argparse
import json
import os
import signal
import subprocess
import sys
import tempfile
import shutil
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TENSORD_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
PLUGIN = '/opt/vp/plugin'


def child_env(scratch):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TF_CPP_MIN_LOG_LEVEL='3',
               CUDA_VISIBLE_DEVICES='', PYTHONWARNINGS='ignore', HYPOTHESIS_NO_PLUGINS='1',
               PYTHONPATH=':'.join([PLUGIN, REPO, VERIF]), TF_NUM_INTRAOP_THREADS='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TENSORD_REPO=REPO,
               TMPDIR=scratch, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, '.hyp'))
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--self-test', action='store_true', help='check that the workers can start')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--workers', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int, default=None, help='override the number of cases')
    a = ap.parse_args()
    if a.self_test:
        code = 'from harness import worker; worker.import_hypothesis(); import harness.models; print("harness ready")'
        scratch = tempfile.mkdtemp(prefix='tensord-setup-')
        try:
            env = child_env(scratch)
            env['TENSORD_SCRATCH'] = scratch
            return subprocess.call([PYTHON, '-c', code], env=env, cwd=scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if not a.prop:
        ap.error('which property?')
    if a.seed is None:
        try:
            a.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        except ValueError:
            a.seed = 1
    workers = a.workers or 8  # constant, so that a run is a function of the code and the seed
    scratch = tempfile.mkdtemp(prefix='tensord-%s-' % a.prop)
    try:
        return run(a, workers, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def start(a, shard, workers, scratch, replay=None):
    wdir = os.path.join(scratch, 'w%d%s' % (shard, 'r' if replay else ''))
    os.makedirs(wdir, exist_ok=True)
    out = os.path.join(wdir, 'result.json')
    cmd = [PYTHON, '-m', 'harness.worker', a.prop, '--tier', a.tier, '--seed', str(a.seed), '--shard', str(shard),
           '--shards', str(workers), '--out', out]
    if replay:
        cmd += ['--replay', replay]
    if a.cases is not None:
        cmd += ['--cases', str(a.cases)]
    log = open(os.path.join(wdir, 'log'), 'wb')
    env = child_env(wdir)
    env['TENSORD_SCRATCH'] = wdir
    p = subprocess.Popen(cmd, cwd=wdir, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    log.close()
    return dict(p=p, out=out, dir=wdir, shard=shard)


def stop(w):
    try:
        os.killpg(w['p'].pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    w['p'].wait()


def wait(ws, limit, early=False):
    """early: once a worker has reported a shrunk violation, the others get 5 s more (violations only)"""
    end = time.time() + limit
    pending = list(ws)
    why = 'timeout'
    while pending and time.time() < end:
        for w in list(pending):
            if w['p'].poll() is not None:
                pending.remove(w)
                if early and why == 'timeout' and (load(w['out']) or {}).get('failure'):
                    why, end = 'cancelled', min(end, time.time() + 5)
        time.sleep(0.1)
    for w in pending:
        w[why] = True
        stop(w)


def tail(w, n=25):
    try:
        with open(os.path.join(w['dir'], 'log'), 'rb') as f:
            return b'\n'.join(f.read().splitlines()[-n:]).decode('utf8', 'replace')
    except OSError:
        return ''


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def save_replay(prop, tag, case, message):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, tag))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, case=case, message=message), f, indent=1, sort_keys=True)
    return path


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    d = load(path) or {'findings': []}
    return [k for k in d['findings'] if k['property'] == prop and k.get('status') == 'open']


def run(a, workers, scratch):
    t0 = time.time()
    if a.replay:
        w = start(a, 0, 1, scratch, os.path.abspath(a.replay))
        wait([w], 600)
        r = load(w['out'])
        print(tail(w, 40))
        if r is None:
            rc = w['p'].returncode
            if rc is not None and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
                print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
                return 1
            return 2
        if r['failure']:
            print(r['failure']['message'])
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
            return 1
        if r['error']:
            print(r['error'])
            return 2
        print('replayed: the property holds on this case')
        return 0

    ws = [start(a, i, workers, scratch) for i in range(workers)]
    wait(ws, 780 if a.tier == 'quick' else 6 * 3600, early=True)

    failures, errors, results = [], [], []
    for w in ws:
        r = load(w['out'])
        if r is None and w.get('cancelled'):
            continue
        if r is None:
            rc = w['p'].returncode
            cur = load(os.path.join(w['dir'], 'current.json'))
            if w.get('timeout'):
                errors.append('worker %d hit the hard time limit; last case: %s' % (w['shard'], json.dumps(cur)))
            elif rc is not None and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS) and cur:
                # the process died inside a case: believe it only if the case kills a fresh process too
                path = save_replay(a.prop, 'crash-s%d-w%d' % (a.seed, w['shard']), cur, 'process died: %d' % rc)
                w2 = start(a, w['shard'], 1, scratch, path)
                wait([w2], 300)
                r2 = load(w2['out'])
                if r2 is None and w2['p'].returncode == rc:
                    failures.append((cur, 'the process is killed by signal %d' % -rc, path))
                elif r2 is not None and r2['failure']:
                    failures.append((cur, r2['failure']['message'], path))
                else:
                    errors.append('worker %d died with %s, not reproduced\n%s' % (w['shard'], rc, tail(w)))
            else:
                errors.append('worker %d exited with %s\n%s' % (w['shard'], rc, tail(w)))
            continue
        results.append(r)
        if r['failure']:
            failures.append((r['failure']['case'], r['failure']['message'], None))
        if r['error']:
            errors.append('worker %d: %s' % (w['shard'], r['error']))

    known = known_findings(a.prop)
    hits = {}
    for r in results:
        for k, n in r.get('known', {}).items():
            hits[k] = hits.get(k, 0) + n
    labels, keys, nontrivial = {}, set(), set()
    evaluations = 0
    samples = []
    for r in results:
        evaluations += r['evaluations']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        keys.update(r['keys'])
        nontrivial.update(r['nontrivial'])
        samples += r['samples']
    rule = results[0]['rule'] if results else ''
    assumptions = results[0]['assumptions'] if results else []
    budget_stops = sum(1 for r in results if r['budget_stop'])

    failures.sort(key=lambda f: len(json.dumps(f[0])))
    evidence = dict(
        property=a.prop, tier=a.tier, seed=a.seed, level='exploration',
        coverage=dict(evaluations=evaluations, distinct=len(keys), distinct_nontrivial=len(nontrivial), rule=rule,
                      samples=sorted(samples, key=lambda s: len(json.dumps(s)))[-6:],
                      labels=dict(sorted(labels.items())), workers=workers,
                      workers_stopped_by_time_budget=budget_stops, exhaustive=False,
                      excluded_as_known_finding=hits),
        assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=1 if failures else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    print('%s tier=%s seed=%d: %d cases, %d distinct, %d distinct non-trivial, %.1f s%s' % (
        a.prop, a.tier, a.seed, evaluations, len(keys), len(nontrivial), time.time() - t0,
        ', %d workers stopped by the time budget' % budget_stops if budget_stops else ''))
    for k in sorted(labels):
        print('   %-44s %d' % (k, labels[k]))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    if failures:
        case, message, path = failures[0]
        path = path or save_replay(a.prop, 's%d' % a.seed, case, message)
        print(message)
        print('smallest failing case: %s' % json.dumps(case)[:2000])
        print('replay with: python3 %s %s --replay %s' % (os.path.join(VERIF, 'harness', 'run.py'), a.prop, path))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if errors or not results:
        for e in errors:
            print('CHECK ERROR: ' + e)
        return 2
    if not nontrivial:
        print('CHECK ERROR: no non-trivial case was generated')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
