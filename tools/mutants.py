#!/usr/bin/env python3
"""For development: applies small mutations (harness/cmd/mutate) to the code one
by one and runs the checks, with few cases, against each.

  mutants.py OUT FRACTION SLOTS FILE...   (FILE relative to /repo)

Appends "FILE N LINE verdict what" lines to OUT; knows what OUT already holds.
COVER names a coverage profile: lines it shows as never executed are left out.
"""
import os, sys, subprocess, random, re, queue, threading, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, frac, slots, files = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
ORDER = {
 'ibdata': 'C02 C11 C07 C01 C08 C12 C14 C10 C13 C06 C05 C15 C25 C26 C16',
 'redo': 'C16 C17 C18 C20 C21 C22 C19 C13 C15 C25 C11',
 'utils': 'C23 C03 C04 C05 C09 C08 C17 C02 C16 C20 C21 C14 C11 C06 C22 C24 C15 C10 C12',
 'logs': 'C24 C15 C25 C26', 'cmd': 'C25 C13 C26 C15'}
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off', VERIF_SHRINK='1ms', GOMAXPROCS='3')
covered = None
if os.environ.get('COVER'):
    covered = {}
    for l in open(os.environ['COVER']):
        m = re.match(r'.*?db-recovery/(.*):(\d+)\.\d+,(\d+)\.\d+ \d+ (\d+)', l)
        if m and int(m[4]):
            covered.setdefault(m[1], set()).update(range(int(m[2]), int(m[3]) + 1))
done = set()
if os.path.exists(out):
    for l in open(out):
        p = l.split('\t'); done.add((p[0], p[1]))
jobs = []
for f in files:
    for l in subprocess.run(['/tmp/mutate', f'/repo/{f}'], capture_output=True, text=True).stdout.splitlines():
        n, line, what = l.split('\t', 2)
        if re.search(r'\berr\b|panic|ErrMsg', what): continue
        if covered is not None and f in covered and int(line) not in covered[f]: continue
        r = random.Random(f + n).random()
        if r < frac and (f, n) not in done: jobs.append((r, f, n, line, what))
jobs.sort()
print(len(jobs), 'mutants', flush=True)
q = queue.Queue()
for j in jobs: q.put(j)
lock = threading.Lock()
def run(slot):
    W = f'/tmp/mut{slot}'
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + '/repo'); os.makedirs(W + '/verif')
    subprocess.run(f'git -C /repo archive HEAD | tar -x -C {W}/repo', shell=True, check=True)
    s = open(V + '/harness/go.mod').read().replace('=> /repo', f'=> {W}/repo')
    open(W + '/go.mod', 'w').write(s)
    shutil.copy(V + '/harness/go.sum', W + '/go.sum')
    shutil.copy(V + '/KNOWN_FINDINGS.txt', W + '/verif/')
    while True:
        try: _, f, n, line, what = q.get_nowait()
        except queue.Empty: break
        verdict = 'SURVIVED'
        subprocess.run(['/tmp/mutate', f'/repo/{f}', n, f'{W}/repo/{f}'], check=True)
        b = subprocess.run(f'cd {W}/repo && go build -o {W}/cli ./cmd/db-recovery && cd {V}/harness && go build -modfile={W}/go.mod -o {W}/check ./cmd/check', shell=True, env=env, capture_output=True, text=True)
        if b.returncode: verdict = 'nobuild'
        else:
            key = 'cmd' if f.startswith('cmd') else f.split('/')[1]
            for c in ORDER[key].split():
                try:
                    r = subprocess.run([W + '/check', '-verif', W + '/verif', '-prop', c, '-checks', os.environ.get('CHECKS', '900'), '-seed', '1', '-workers', '2', '-cli', W + '/cli'], env=env, capture_output=True, timeout=400)
                    if r.returncode == 1: verdict = c; break
                    if r.returncode: verdict = f'{c}(exit {r.returncode})'; break
                except subprocess.TimeoutExpired:
                    verdict = c + '(timeout)'; break
        subprocess.run(['cp', f'/repo/{f}', f'{W}/repo/{f}'])
        with lock:
            with open(out, 'a') as o: o.write(f'{f}\t{n}\t{line}\t{verdict}\t{what}\n')
    shutil.rmtree(W, ignore_errors=True)
ts = [threading.Thread(target=run, args=(i,)) for i in range(slots)]
[t.start() for t in ts]; [t.join() for t in ts]
