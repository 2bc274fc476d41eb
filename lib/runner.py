"""Runs the jobs of one property's check in forked workers, aggregates what
the monitors saw, writes the evidence file and decides the exit code.

Exit codes: 0 held, 1 violated (VIOLATION line), 3 inconclusive, 2 error of
the check itself."""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HOME = os.environ['VERIF_HOME']
sys.path.insert(0, HOME)
sys.path.insert(0, '/repo')
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402
from lib.mon import Monitor, CodeRaised, jsonable  # noqa: E402


def from_repo(tb):
    return any(f.filename.startswith('/repo/') for f in traceback.extract_tb(tb))


def derive(*parts):
    import hashlib
    return int(hashlib.sha1(repr(parts).encode()).hexdigest()[:8], 16)


def run_job(mod, job, seed, tier):
    m = Monitor(job['name'])
    s = derive(seed, job['name'])
    random.seed(s)
    np.random.seed(s % 2**32)
    rng = np.random.default_rng(s)
    t = time.time()
    err = None
    try:
        job['fn'](m, rng, **job.get('args', {}))
    except CodeRaised:
        pass
    except Exception as e:
        tb = sys.exc_info()[2]
        if from_repo(tb) or getattr(e, 'repo', False) is True:
            last = ([f for f in traceback.extract_tb(tb) if f.filename.startswith('/repo/')] or traceback.extract_tb(tb))[-1]
            m.violate('exception:' + job['name'].split('#')[0],
                      '%s: %s (in %s)' % (type(e).__name__, str(e)[:300], last.name),
                      traceback=traceback.format_exc()[-2500:])
        else:
            err = traceback.format_exc()
    r = m.result()
    r.update(name=job['name'], wall=time.time() - t, error=err, rseed=s)
    return r


def load_known(pid):
    known = []
    path = os.path.join(HOME, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                head, text = line[len('known:'):].split('::', 1)
                d = dict(x.split('=', 1) for x in head.split())
                if d['property'] == pid:
                    known.append((d['sig'], text.strip()))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--procs', type=int, default=int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float, default=0)
    a = ap.parse_args()
    pid = a.pid
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = a.seed
    if a.replay:
        rep = json.load(open(a.replay))
        a.only, seed, tier = rep['job'], rep['seed'], rep['tier']
        a.serial = True
    t0 = time.time()
    deadline = t0 + (a.budget or (780 if tier == 'quick' else 830))
    import flavio  # noqa: F401
    if not flavio.__file__.startswith('/repo/'):
        print('flavio imported from', flavio.__file__)
        sys.exit(2)
    mod = importlib.import_module('checks.' + pid.lower())
    jobs = mod.jobs(tier, seed)
    names = [j['name'] for j in jobs]
    assert len(set(names)) == len(names), 'duplicate job names'
    if a.only:
        jobs = [j for j in jobs if j['name'] == a.only or (a.only.endswith('*') and j['name'].startswith(a.only[:-1]))]
    if hasattr(mod, 'prefork'):
        mod.prefork(tier)
    results = []
    if a.serial:
        for j in jobs:
            results.append(run_job(mod, j, seed, tier))
    else:
        results = run_parallel(mod, jobs, seed, tier, a.procs, deadline)
    finish(pid, mod, tier, seed, jobs, results, t0, a)


def run_parallel(mod, jobs, seed, tier, procs, deadline):
    """One forked process per job (isolation: a job never sees the global
    state another job left behind), at most `procs` at a time."""
    import select
    pending = list(jobs)[::-1]
    running = {}
    results = []
    while pending or running:
        while pending and len(running) < procs:
            j = pending.pop()
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rfd)
                    os.setpgid(0, 0)
                    r = run_job(mod, j, seed, tier)
                    data = json.dumps(r).encode()
                    with os.fdopen(wfd, 'wb') as f:
                        f.write(data)
                except BaseException:
                    traceback.print_exc()
                    code = 7
                finally:
                    os._exit(code)
            os.close(wfd)
            running[rfd] = [pid, j, bytearray(), time.time()]
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rl:
            d = os.read(fd, 1 << 20)
            if d:
                running[fd][2] += d
                continue
            pid, j, buf, t = running.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                results.append(json.loads(bytes(buf).decode()))
            except ValueError:
                results.append({'name': j['name'], 'error': 'worker died', 'events': {}, 'distinct': [],
                                'violations': [], 'nviol': 0, 'samples': [], 'worst': {}, 'wall': time.time() - t})
        if time.time() > deadline:
            for fd, (pid, j, buf, t) in running.items():
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                results.append({'name': j['name'], 'timeout': True, 'error': None, 'events': {}, 'distinct': [],
                                'violations': [], 'nviol': 0, 'samples': [], 'worst': {}, 'wall': time.time() - t})
            for j in pending:
                results.append({'name': j['name'], 'timeout': True, 'error': None, 'events': {}, 'distinct': [],
                                'violations': [], 'nviol': 0, 'samples': [], 'worst': {}, 'wall': 0})
            break
    return results


def finish(pid, mod, tier, seed, jobs, results, t0, a):
    events = {}
    distinct = set()
    samples = []
    viols = []
    worst = {}
    nviol = 0
    for r in sorted(results, key=lambda r: r['name']):
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        distinct.update(r['distinct'])
        viols += r['violations']
        nviol += r['nviol']
        for k, v in r.get('worst', {}).items():
            worst[k] = max(worst.get(k, 0), v)
    import random as _r
    allsamples = [dict(job=r['name'], observed=s) for r in sorted(results, key=lambda r: r['name']) for s in r['samples'][:2]]
    _r.Random(seed).shuffle(allsamples)
    samples = allsamples[:12]
    known = load_known(pid)
    import fnmatch
    hit = {}
    real = []
    for v in viols:
        for sig, text in known:
            if v['sig'] == sig:
                hit.setdefault((sig, text), v)
                break
        else:
            real.append(v)
    errors = [r for r in results if r.get('error')]
    timeouts = [r['name'] for r in results if r.get('timeout')]
    for (sig, text), v in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, text, sig))
    notseen = [s for s, t in known if s not in {k[0] for k in hit}]
    if notseen and not a.only:
        print('note: listed findings not reproduced on this tree: %s' % ', '.join(notseen))
    rdir = os.path.join(HOME, 'evidence', 'replay')
    lines = []
    seen_sig = {}
    for v in real:
        if v['sig'] in seen_sig:
            continue
        seen_sig[v['sig']] = 1
        os.makedirs(rdir, exist_ok=True)
        safe = ''.join(c if c.isalnum() or c in '-_.' else '_' for c in v['sig'])[:80]
        path = os.path.join(rdir, '%s-%s-%d.json' % (pid, safe, seed))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'job': v['job'], 'violation': v,
                       'how': 'python3 run.py %s --replay %s' % (pid, path)}, f, indent=1)
        lines.append((v, path))
    evaluations = sum(events.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': mod.RULE,
            'samples': samples,
            'events': events,
            'jobs': len(jobs),
            'jobs_timed_out': timeouts,
            'tightest_margin': {k: round(v, 4) for k, v in sorted(worst.items(), key=lambda t: -t[1])[:15]},
            'known_findings_observed': [k[0] for k in hit],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(real),
    }
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
        with open(os.path.join(HOME, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if a.verbose:
        for r in sorted(results, key=lambda r: -r['wall'])[:12]:
            print('   %7.1fs %s %s' % (r['wall'], r['name'], r['events']))
        print(json.dumps(ev['coverage']['tightest_margin'], indent=1))
    print('%s %s seed=%d: %d judged executions, %d distinct, %d jobs, %.1fs' %
          (pid, tier, seed, evaluations, len(distinct), len(jobs), time.time() - t0))
    for r in errors[:5]:
        print('ERROR in job %s:\n%s' % (r['name'], r['error']), file=sys.stderr)
    for v, path in lines[:40]:
        print('  %s: %s' % (v['sig'], v['msg'][:300]))
        if a.verbose:
            print('     ', json.dumps(v['witness'])[:1500])
    if lines:
        for v, path in lines[:15]:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    if errors:
        sys.exit(2)
    if not a.only:
        for k, n in getattr(mod, 'MIN', {}).items():
            if events.get(k, 0) < n:
                print('INCONCLUSIVE: only %d events of kind %s observed (need %d)' % (events.get(k, 0), k, n))
                sys.exit(3)
    if len(timeouts) > 0.3 * max(1, len(jobs)):
        print('INCONCLUSIVE: %d of %d jobs not finished' % (len(timeouts), len(jobs)))
        sys.exit(3)
    sys.exit(0)


if __name__ == '__main__':
    main()
