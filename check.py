#!/usr/bin/env python3
"""Runs one check:  check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay WORKLOAD:INDEX]

Builds the property's driver from /repo's current sources with ASan+UBSan, runs its workloads, routes every
violation through known_findings.txt, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not decide."""
from concurrent.futures import ThreadPoolExecutor
import argparse, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LEARNTA_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import CHECKS

CXXFLAGS = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-DBOOST_LOG_DYN_LINK=1', '-w',
            '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'examples'),
            '-I/usr/include/eigen3']
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
LIBS = ['-lboost_log', '-lboost_system', '-lboost_thread', '-lpthread']


def die(msg):
    print('ERROR ' + msg, flush=True)
    raise SystemExit(2)


def build(pid, srcs, flags, name='driver', libs=()):
    """compiles the library sources and the driver in parallel; the objects are always made anew"""
    d = os.path.join(VERIF, 'build', pid, name + '.d')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = os.path.join(VERIF, 'build', pid, name)
    lib = sorted(os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cc'))
    procs = []
    for f in lib + srcs:
        o = os.path.join(d, os.path.basename(f) + ('.lib' if f in lib else '.drv') + '.o')
        log = open(o + '.log', 'w')
        procs.append((f, o, log, subprocess.Popen(['g++'] + CXXFLAGS + flags + ['-c', f, '-o', o], stdout=log, stderr=log)))
    for f, o, log, p in procs:
        p.wait(); log.close()
        if p.returncode:
            sys.stdout.write(open(o + '.log').read()[:4000])
            die('cannot compile ' + f)
    r = subprocess.run(['g++'] + flags + [o for _, o, _, _ in procs] + ['-o', out] + LIBS + list(libs), capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[:4000]); die('cannot link')
    shutil.rmtree(d, ignore_errors=True)
    return out


def known_findings(pid):
    """lines `finding: property=<id> key=<key> match=<text> :: description`; `fixed:` lines suppress nothing"""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) match=(.*?) :: (.*)$', line.rstrip('\n'))
            if m and m.group(1) == pid:
                res.append(dict(key=m.group(2), match=m.group(3), desc=m.group(4)))
    return res


def env_for_run():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:abort_on_error=1'
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay'); ap.add_argument('--scale', default='100'); ap.add_argument('--no-build', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try: seed = int(a.seed)
    except ValueError: seed = 1
    pid = a.prop
    if pid not in CHECKS: die('unknown property ' + pid)
    C = CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'build', pid), exist_ok=True)
    ev_path = os.path.join(VERIF, 'evidence', pid + '.json')
    if os.path.exists(ev_path): os.unlink(ev_path)
    exes = [os.path.join(VERIF, 'build', pid, part.get('name', 'driver%d' % i)) for i, part in enumerate(C['parts'])]

    def make(i):
        part = C['parts'][i]
        return build(pid, [os.path.join(VERIF, 'harness', s) for s in part['src']], part.get('san', SAN) + part.get('flags', []),
                     os.path.basename(exes[i]), part.get('libs', ()))
    if not (a.no_build and all(os.path.exists(e) for e in exes)):
        with ThreadPoolExecutor() as pool: exes = list(pool.map(make, range(len(exes))))
    runs = list(zip(C['parts'], exes))
    t_build = time.time() - t0
    if a.replay:
        rc = 0
        for part, exe in runs:
            r = subprocess.run(part.get('wrap', []) + [exe, '--seed', str(seed), '--tier', tier, '--only', a.replay], env=env_for_run(), cwd=os.path.join(VERIF, 'build', pid))
            rc = max(rc, 1 if r.returncode not in (0, 2) else 0)
        sys.exit(rc)
    total = dict(evaluations=0, planned=0, distinct=0, crashes=0, events={}, cases={}, inconclusive={}, samples=[], violations=[], max_case_ms={})
    for part, exe in runs:
        out = exe + '.json'
        if os.path.exists(out): os.unlink(out)
        cmd = [exe, '--out', out, '--seed', str(seed), '--tier', tier, '--scale', a.scale]
        cmd = part.get('wrap', []) + cmd
        r = subprocess.run(cmd, env=env_for_run(), cwd=os.path.join(VERIF, 'build', pid), capture_output=True, text=True, errors='replace')
        if r.returncode or not os.path.exists(out):
            print(r.stdout[-2000:], r.stderr[-2000:])
            die('the driver failed with status %d' % r.returncode)
        d = json.load(open(out))
        for k in ('evaluations', 'planned', 'distinct', 'crashes'): total[k] += d[k]
        for k in ('events', 'cases', 'inconclusive'):
            for n, v in d[k].items(): total[k][n] = total[k].get(n, 0) + v
        total['max_case_ms'].update(d['max_case_ms'])
        total['samples'] += d['samples']; total['violations'] += d['violations']
    # verdict
    known = known_findings(pid); hit = set(); fresh = []
    for v in total['violations']:
        k = next((i for i, f in enumerate(known) if f['key'] == v['key'] and f['match'] in v['msg']), None)
        if k is None: fresh.append(v)
        else: hit.add(k)
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['desc']))
    n_inc = sum(total['inconclusive'].values())
    evidence = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2), violations=len(fresh),
                    assumptions=C.get('assumptions', []),
                    coverage=dict(evaluations=total['evaluations'], distinct_nontrivial=total['distinct'], rule=C['rule'],
                                  samples=total['samples'][:12], monitor_events=total['events'], cases_by_workload=total['cases'],
                                  planned_cases=total['planned'], inconclusive=total['inconclusive'], slowest_cases_ms=total['max_case_ms'],
                                  known_findings_observed=len(hit), build_s=round(t_build, 2), sanitizers=', '.join(sorted({x for p in C['parts'] for x in p.get('san', SAN) if 'fsanitize=' in x or x.startswith('-D')})) + ', assertions of the library'))
    json.dump(evidence, open(ev_path, 'w'), indent=1)
    print('%s: %d cases (%d distinct non-trivial), %d inconclusive, events %s, %.1f s (build %.1f s)' %
          (pid, total['evaluations'], total['distinct'], n_inc, json.dumps(total['events']), time.time() - t0, t_build))
    if total['inconclusive']: print('inconclusive: ' + json.dumps(total['inconclusive']))
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for n, v in enumerate(fresh):
            if v['key'] in seen: continue
            seen.add(v['key'])
            path = os.path.join(VERIF, 'replays', '%s-%d.txt' % (pid, n))
            with open(path, 'w') as f:
                f.write('property %s, key %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s --replay %s:%s\n\n%s\n' %
                        (pid, v['key'], seed, tier, VERIF, pid, v['workload'], v['idx'], v['msg']))
            print('  %s (%s:%s)\n    %s' % (v['key'], v['workload'], v['idx'], v['msg'][:700].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    if total['evaluations'] == 0 or total['distinct'] < 2: die('nothing was observed')
    for e in C.get('required_events', []):
        if total['events'].get(e, 0) == 0: die('the monitor never observed: ' + e)
    if n_inc * 2 > total['planned']: die('most cases were inconclusive')
    sys.exit(0)


if __name__ == '__main__':
    main()
