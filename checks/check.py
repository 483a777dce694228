#!/usr/bin/env python3
"""check.py ID: builds rexpat from /repo's working tree, runs the workloads of one property under their
monitors, writes evidence/ID.json.  Exit 0: held; 1 + VIOLATION line: broken; 2: no answer."""
import json, os, subprocess, sys, time, hashlib, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'checks'))
from props import PROPS
os.environ['RUST_BACKTRACE'] = '0'
os.environ.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=99')
os.environ.setdefault('TSAN_OPTIONS', 'exitcode=98:halt_on_error=1:suppressions=' + os.path.join(HERE, 'checks', 'tsan.supp'))

def die(msg):
    print('ERROR: ' + msg); sys.stdout.flush(); sys.exit(2)

def build(variants):
    """rexpat and the harness, every variant in parallel"""
    procs = []
    for v in variants:
        lib = v
        cmd = f'tools/build_rexpat.sh {lib}'
        if not v.startswith('xmlwf'):
            cmd += f' && flock build/lock-h-{v} make -s -C harness V={v} -j4'
        procs.append((v, subprocess.Popen(['bash', '-c', cmd], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for v, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            die(f'building variant {v} failed:\n{out[-3000:]}')

def hx(v):
    return os.path.join(HERE, 'build', f'h-{v}', 'hx')

def known():
    fs = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        l = l.strip()
        if l.startswith('finding:'):
            d = dict(w.split('=', 1) for w in l.split()[1:] if '=' in w and w.split('=', 1)[0] in ('property', 'case', 'variant', 'oracle'))
            d['text'] = l.split(' -- ', 1)[1] if ' -- ' in l else l
            fs.append(d)
    return fs

def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    parts = [p for p in P['parts'] if tier == 'thorough' or not p.get('thorough')]
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    build(sorted({p.get('v', 'plain') for p in parts if not p.get('nobuild')} | set(P.get('variants', []))))
    tb = time.time() - t0
    budget = P.get('secs', 36) if tier == 'quick' else P.get('tsecs', 540)
    wsum = sum(p.get('w', 1) for p in parts)
    rdir = os.path.join(HERE, 'replays', pid)
    os.makedirs(rdir, exist_ok=True)
    results, viols, inconclusive = [], [], 0
    for p in parts:
        secs = max(1.0, budget * p.get('w', 1) / wsum)
        v = p.get('v', 'plain')
        js = os.path.join(HERE, 'build', f'res-{pid}-{v}-{p["sub"]}.json')
        if os.path.exists(js): os.remove(js)
        if p.get('script'):
            cmd = [sys.executable, os.path.join(HERE, 'checks', p['script']), '--json', js, '--seed', str(seed), '--secs', '%.1f' % secs, '--replays', rdir, '--tier', tier, '--sub', p['sub'], '--variant', v]
        else:
            cmd = [hx(v), 'run', '--sub', p['sub'], '--seed', str(seed), '--n', str(p.get('n', 1000000000)), '--secs', '%.1f' % secs, '--jobs', str(p.get('jobs', 8)), '--maxviol', '2', '--shrink', '8', '--cpu', str(p.get('cpu', 20)), '--replays', rdir, '--json', js, '--tier', tier]
        env = dict(os.environ)
        try:
            r = subprocess.run(cmd, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=secs + 400, env=env)
        except subprocess.TimeoutExpired:
            die(f'{p["sub"]} did not finish')
        if not os.path.exists(js):
            die(f'{p["sub"]} gave no result:\n{r.stdout[-2000:]}')
        d = json.load(open(js)); d['variant'] = v
        results.append(d); inconclusive += d.get('inconclusive', 0)
        for x in d['violations']:
            viols.append((p['sub'], v, x))
        if viols and tier == 'quick': break
    # listed findings: replay each of them
    kf = []
    for f in known():
        if f.get('property') != pid or 'case' not in f: continue
        r = subprocess.run([hx(f.get('variant', 'plain')), 'replay', os.path.join(HERE, f['case'])], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode == 1:
            print(f'KNOWN-FINDING: property={pid} {f["text"]}'); kf.append(f['text'])
    ev = sum(d['evaluations'] for d in results)
    dn = sum(d['distinct'] for d in results)
    # nothing observed is no answer
    if not viols and (ev == 0 or dn == 0):
        die('nothing was observed')
    events = {}
    for d in results:
        for k, n in d.get('events', {}).items(): events[k] = events.get(k, 0) + n
    errs = {}
    for d in results:
        for k, n in d.get('errors', {}).items(): errs[k] = errs.get(k, 0) + n
    samples = []
    for d in results:
        samples += [{'workload': d['sub'], 'case': s} for s in d.get('samples', [])[:2]]
    cov = {'evaluations': ev, 'distinct_nontrivial': dn, 'rule': P['rule'], 'samples': samples,
           'parser_runs': sum(d.get('runs', 0) for d in results), 'accepted': sum(d.get('accepted', 0) for d in results), 'rejected': sum(d.get('rejected', 0) for d in results),
           'outside_the_domain': sum(d.get('skipped', 0) for d in results), 'suspensions': sum(d.get('suspensions', 0) for d in results), 'comparisons_beyond_one_per_case': sum(d.get('steps', 0) for d in results),
           'callbacks_observed_by_kind': events, 'final_error_codes': errs,
           'workloads': [{k: d.get(k) for k in ('sub', 'variant', 'cases', 'evaluations', 'nontrivial', 'distinct', 'skipped', 'total', 'wall', 'inconclusive', 'extra')} for d in results]}
    if results and all(d.get('total') and d['cases'] >= d['total'] for d in results): cov['exhaustive'] = True
    out = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'), 'coverage': cov,
           'assumptions': P.get('assumptions', []) + ([f'{inconclusive} cases exceeded their time limit in the pool and held when run alone'] if inconclusive else []),
           'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    if kf: out['coverage']['known_findings'] = kf
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(out, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f'{pid}: {ev} evaluations, {dn} distinct non-trivial, build {tb:.0f} s, total {time.time()-t0:.0f} s')
    for sub, v, x in viols:
        print(f'-- {sub} ({v}) {x["kind"]}\n{x["detail"]}')
        print(f'VIOLATION property={pid} replay={os.path.relpath(x["replay"], HERE)}')
    sys.stdout.flush()
    sys.exit(1 if viols else 0)
main()
