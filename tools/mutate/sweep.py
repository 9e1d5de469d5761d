#!/usr/bin/env python3
"""sweep.py OUT.jsonl N SEED [FILE-REGEXP]: samples N mutants, keeps those that build and pass the stable tests, and runs the checks that
might see them until one does. With SITES=DIR (as written by VSIM_SITES=DIR vsim check), only lines that a property's check reaches are mutated,
and only the properties that reach them are tried. For work on the simulator only; everything happens in copies under /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
LANES = int(os.environ.get('LANES', '3')); SECS = os.environ.get('SECS', '12')
PATHS = [  # first match counts
 ('bandersnatch/exponentiation.go|callcounters_(in)?active|internal/utils/|internal/stack|errorconsts|methodcalls|makevisible|checkpanic|assert.go|slicealias', []),
 ('precomputation_meta', ['P01','P02','P18']), ('failingIO', ['P17']), ('internal/callcounters', ['P16']),
 ('errorsWithData', ['P04','P05','P19','P06','P08']), ('errorTransform', ['P08','P19','P10','P06','P12']),
 ('fieldElements/.*serialize|fieldElements/errors', ['P06','P07','P19','P15','P08']),
 ('fieldElements', ['P15','P06','P18','P03','P08']), ('exponents', ['P15']),
 ('curvePoints/serializer_curve_field|impl_serialize', ['P08','P11','P15','P09','P12']),
 ('curvePoints/error_handler|naive', ['P03','P15','P18']), ('sampling', ['P18','P03','P15']),
 ('curvePoints', ['P15','P03','P18','P08']),
 ('common/', ['P06','P07','P14','P08','P09','P10','P12']),
 ('pointserializer/(basic|values)', ['P08','P11','P10','P12','P14','P09','P13']),
 ('pointserializer', ['P08','P12','P19','P10','P14','P09','P11','P13']),
]
def props(f):
    for r, p in PATHS:
        if re.search(r, f): return p
    return []
SITES = os.environ.get('SITES')
reach, every = {}, {}
if SITES:
    for fn in os.listdir(SITES):
        for l in open(os.path.join(SITES, fn)):
            if ':' not in l: continue
            f, no = l.strip().rsplit(':', 1)
            if fn == 'all': every.setdefault(f, set()).add(int(no))
            else: reach.setdefault((f, int(no)), set()).add(fn)
    every = {f: sorted(v) for f, v in every.items()}
def props_at(f, line):
    if not SITES: return props(f)
    s = [n for n in every.get(f, []) if n <= line]
    r = reach.get((f, s[-1]), set()) if s else set()
    first = [p for p in props(f) if p in r]
    return first + sorted(r - set(first), reverse=True)
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOCACHE='/tmp/mut/gocache')
M = 'github.com/GottfriedHerold/Bandersnatch'
os.makedirs('/tmp/mut', exist_ok=True)
files = [l for l in subprocess.run("cd /repo && git ls-files '*.go' | grep -v _test", shell=True, capture_output=True, text=True).stdout.split()]
files = [f for f in files if rx.search(f) and props(f)]
allm = subprocess.run(['/tmp/mutate', 'list'] + files, cwd='/repo', capture_output=True, text=True).stdout.split()
rnd = random.Random(seed)
byf = {}
n_all = len(allm)
allm = [m for m in allm if props_at(m.split(':')[0], int(m.split(':')[1]))]
print(n_all, 'mutants,', len(allm), 'on lines that are reached')
for m in allm: byf.setdefault(m.split(':')[0], []).append(m)
# even out: weight of a file ~ sqrt(number of its mutants)
done = set()
if os.path.exists(out):
    for l in open(out): done.add(json.loads(l)['mutant'])
cand = []
w = {f: len(v) ** 0.5 for f, v in byf.items()}
tot = sum(w.values())
for f, v in byf.items():
    k = max(1, round(n * w[f] / tot))
    rnd.shuffle(v)
    cand += v[:k]
rnd.shuffle(cand)
q = queue.Queue()
for c in cand:
    if c not in done: q.put(c)
lock = threading.Lock()
def run(cmd, t, **kw):
    try:
        p = subprocess.run(cmd, timeout=t, capture_output=True, text=True, **kw)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout'
def lane(i):
    repo, home = f'/tmp/mut/w{i}/repo', f'/tmp/mut/home{i}'
    os.makedirs(f'/tmp/mut/w{i}', exist_ok=True)
    if os.path.exists(repo): shutil.rmtree(repo)
    shutil.copytree('/repo', repo, symlinks=True)
    if os.path.exists(home): shutil.rmtree(home)
    shutil.copytree('/verif', home, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays'))
    os.makedirs(home + '/replays', exist_ok=True)
    e = dict(env, VSIM_REPO=repo, VSIM_HOME=home, VSIM_SECS=SECS, VSIM_WORKERS='3', VSIM_SHRINK='0', VERIF_SEED='1', VERIF_TIER='quick')
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f, line, kind, idx = m.split(':')
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo)
        rc, what = run(['/tmp/mutate', 'apply', f, idx], 30, cwd=repo)
        r = {'mutant': m, 'what': what.strip()}
        rc, o = run(['go', 'build', './bandersnatch/errorsWithData', './bandersnatch/fieldElements', './bandersnatch/curvePoints', './bandersnatch/pointserializer', './bandersnatch/common', './bandersnatch/exponents', './internal/...'], 120, cwd=repo, env=env)
        if rc != 0: r['r'] = 'nobuild'
        else:
            rc, o = run("go test -json -vet=off -count=1 -timeout 60s $(go list -e ./... | grep -Ev '^%s/(bandersnatch|bandersnatch/(bandersnatchErrors|curvePoints|fieldElements|pointserializer)|internal/errorTransform)$')" % M, 100, shell=True, cwd=repo, env=env)
            base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
            bad = 'timeout' in o[:20] and rc == 124
            for l in o.splitlines():
                try: ev = json.loads(l)
                except Exception: continue
                if ev.get('Action') == 'fail': bad = True
            if bad: r['r'] = 'tests'
            else:
                r['r'] = 'SURVIVED'; r['props'] = props_at(f, int(line)); r['odd'] = []
                for p in props_at(f, int(line))[:7]:
                    rc, o = run(['/tmp/vsim-mut', 'check', p, 'quick'], 400, cwd=home, env=e)
                    if rc == 1 and f'VIOLATION property={p}' in o:
                        r['r'] = 'caught'; r['by'] = p; r['msg'] = '\n'.join(o.splitlines()[1:3])[:300]
                        break
                    if rc != 0: r['odd'].append([p, rc, o[-500:]])
        with lock:
            with open(out, 'a') as fh: fh.write(json.dumps(r) + '\n')
ts = [threading.Thread(target=lane, args=(i,)) for i in range(LANES)]
[t.start() for t in ts]; [t.join() for t in ts]
