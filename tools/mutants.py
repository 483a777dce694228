#!/usr/bin/env python3
"""mutants.py N SEED WORKERS OUT [FILE...]: mutation campaign.  Makes N random one-line changes to copies of /repo, builds
each and runs every workload for a moment; the survivors (changes no workload noticed) are written to OUT.  A tool for
finding blind spots of the checks; it is not itself a check."""
import resource, os, random, re, subprocess, sys, threading, queue, json, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, SEED, W, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
FILES = sys.argv[5:] or ['src/lib/xmlparse.rs', 'src/lib/xmltok.rs', 'src/lib/xmltok_impl.rs', 'src/lib/xmlrole.rs', 'src/string_pool.rs']
SUBS = os.environ.get('MSUBS', 'diff-gen mem dtd ents names attrs pos enc handlers suspend api diff-soup content setunset actions pos-some handlers-meta handlers-late reset reset-clear chunk splits susp-meta abort enc-meta default tiles linecol ent-inline ent-value ns-model wf-mut scale-elem scale-ns scale-attr scale-dtd scale-ent scale-def scale-mem scale-pos oom oom-scale bound free cycles inter family enum-tok4 enum-bytes ctrl pos-tok pos-bytes char char-seq char-sup noparser unkenc roundtrip attr-model dtd-model defcur deep oom-mem').split()
V = os.environ.get('MV', 'plain')
SECS = float(os.environ.get('MSECS', '1.5'))
rnd = random.Random(SEED)
BASE = f'/tmp/mut/base.{os.getpid()}'; os.makedirs('/tmp/mut', exist_ok=True); subprocess.run(f'mkdir -p {BASE} && git -C {os.environ.get("MREPO", "/repo")} archive HEAD | tar -x -C {BASE}', shell=True, check=True)
RANGE = [tuple(map(int, x.split('-'))) for x in os.environ.get('MRANGE', '').split(',') if x]   # only these lines, e.g. 1100-1160,2000-2050
KIND = os.environ.get('MKIND', '')   # 'deleted': only deletions
def ops(line):
    s = line.strip()
    out = []
    if not s or s.startswith(('//', '/*', '*', '#', 'use ', 'pub use', 'static', 'const', 'pub const', 'pub static', 'macro', 'assert', 'debug_assert', 'impl', 'unsafe impl', 'type', 'extern')) or 'fn ' in s or 'cfg!' in s or 'assert' in s: return out
    for a, b in ((' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '), ('true', 'false'), ('false', 'true'), (' + ', ' - '), (' - ', ' + '), (' += ', ' -= '), (' -= ', ' += ')):
        for m in re.finditer(re.escape(a), line): out.append(line[:m.start()] + b + line[m.end():])
    for m in re.finditer(r'(?<![\w.\[x])([0-9]{1,4})(?=[^\w.]|(?:isize|usize|i32|u8|i64)\b)', line):
        v = int(m.group(1)); out.append(line[:m.start()] + str(v + 1) + line[m.end():])
        if v: out.append(line[:m.start()] + str(v - 1) + line[m.end():])
    if s.endswith(';') and not s.startswith(('let', 'return', 'break', 'continue', 'mod', 'pub', '}', ')')) and line.count('(') == line.count(')') and line.count('{') == line.count('}'): out.append('/* deleted */\n'); out.append('/* deleted */\n')
    m = re.match(r'^(\s*(?:\} else )?if )(?!let )(.*)( \{\s*)$', line)
    if m: out.append(f'{m.group(1)}false && ({m.group(2)}){m.group(3)}'); out.append(f'{m.group(1)}true || ({m.group(2)}){m.group(3)}'); out.append(f'{m.group(1)}!({m.group(2)}){m.group(3)}')
    if s in ('break;', 'continue;'): out.append('/* deleted */\n')
    return out
cands = []
for f in FILES:
    incomment = False
    for i, l in enumerate(open(BASE + '/' + f, encoding='utf-8')):
        if '/*' in l: incomment = True
        if not incomment:
            for k, o in enumerate(sorted(set(ops(l))) if RANGE else ops(l)): 
                if RANGE and not any(a <= i + 1 <= b for a, b in RANGE) or KIND and KIND not in o: continue
                cands.append((f, i, l, o))
        if '*/' in l: incomment = False
print(len(cands), 'candidate changes'); rnd.shuffle(cands); cands = cands[:N]
q = queue.Queue(); [q.put(c) for c in enumerate(cands)]
lock = threading.Lock(); tot = dict(killed=0, nobuild=0, survived=0); by = {}
def work(w):
    B = f'/tmp/mut/{os.getpid()}.{w}'; os.makedirs(B)
    subprocess.run(f'cp -a {BASE} {B}/repo && mkdir -p {B}/v/build && cp -a {HERE}/harness {HERE}/tools {HERE}/checks {B}/v/ && cp -a {HERE}/build/ref {HERE}/build/h-{V} {HERE}/build/shadow-{V} {B}/v/build/', shell=True, check=True)
    env = dict(os.environ, REXPAT_REPO=B + '/repo', RUST_BACKTRACE='0', ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1')
    while True:
        try: n, (f, i, old, new) = q.get_nowait()
        except queue.Empty: break
        p = f'{B}/repo/{f}'; L = open(BASE + '/' + f, encoding='utf-8').read().split('\n'); save = '\n'.join(L); L[i] = new.rstrip('\n'); open(p, 'w', encoding='utf-8').write('\n'.join(L))
        r = subprocess.run(f'tools/build_rexpat.sh {V} && make -s -C harness V={V} -j2', shell=True, cwd=B + '/v', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        what = 'survived'
        if r.returncode: what = 'nobuild'
        else:
            for s in SUBS:
                try:
                    r = subprocess.run([f'build/h-{V}/hx', 'run', '--sub', s, '--n', '100000000', '--secs', str(SECS), '--seed', str(SEED + n), '--jobs', '2', '--maxviol', '1', '--shrink', '0', '--cpu', '10', '--replays', B + '/rep'], cwd=B + '/v', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)) if V == 'plain' else None)
                    bad = r.returncode != 0 or b'FAIL' in r.stdout
                except subprocess.TimeoutExpired: bad = True
                if bad: what = 'killed'; by_s = s; break
        open(p, 'w', encoding='utf-8').write(save)
        with lock:
            tot[what] += 1
            if what == 'killed': by[by_s] = by.get(by_s, 0) + 1
            if what == 'survived': open(OUT, 'a').write(f'{f}:{i+1}\n- {old.rstrip()}\n+ {new.rstrip()}\n'); 
            print(n, what, tot, by if n % 20 == 0 else '', flush=True)
    shutil.rmtree(B)
T = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in T]; [t.join() for t in T]
shutil.rmtree(BASE)
open(OUT, 'a').write(f'# {tot} {by}\n')
