#!/usr/bin/env python3
"""Makes the planted changes of /verif/seeded from tools/plant/bugs.py.

plant.py [ID...]   writes seeded/ID/{patch.diff,demo.sh,meta.json,...} and
confirms: the patch applies, touches original lines, builds, the stable tests
pass, the demonstration succeeds without the patch and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = '/verif'
sys.path.insert(0, V + '/tools/plant')
from bugs import BUGS
BASE = '7ffc77b'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GO111MODULE='on', GOWORK='off', GOFLAGS='-mod=mod -buildvcs=false')

def sh(cmd, cwd=None, check=True, **k):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
    if check and p.returncode:
        raise SystemExit(f'{cmd}: exit {p.returncode}\n{p.stdout[-2000:]}')
    return p

def stable(repo):
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    bad = []
    for w in want:
        pkg, t = w.rsplit('/', 1)
        p = sh(['go', 'test', '-vet=off', '-count=1', '-run', f'^{t}$', './' + pkg.split('db-recovery/')[1]], cwd=repo, check=False)
        if p.returncode:
            bad.append(t)
    return bad

def main():
    ids = sys.argv[1:] or list(BUGS)
    sh(['go', 'build', '-o', '/tmp/mkdemo', './cmd/mkdemo'], cwd=V + '/harness')
    for bid in ids:
        b = BUGS[bid]
        w = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
        repo, clean = w + '/repo', w + '/clean'
        os.mkdir(repo)
        sh(f'git -C /repo archive HEAD | tar -x -C {repo}')
        sh('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', cwd=repo)
        shutil.copytree(repo, clean)
        note = []
        for f, old, new in b['edits']:
            p = f'{repo}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f'{bid}: {f}: {s.count(old)} occurrences of {old!r}')
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=repo).stdout
        # lines removed have to be original ones
        orig = 0
        for f in set(e[0] for e in b['edits']):
            blame = sh(['git', '-C', '/repo', 'blame', '-s', BASE + '..HEAD', '--', f]).stdout.splitlines()
            isorig = [l.startswith('^') for l in blame]
            fd = sh(['git', 'diff', '-U0', '--', f], cwd=repo).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for k in range(a, a + n):
                    if isorig[k - 1]: orig += 1
                    else: note.append(f'{f}:{k} is not original')
        if not orig: note.append('NO ORIGINAL LINE')
        sh('go build ./...', cwd=repo)
        bad = stable(repo)
        if bad: note.append(f'stable tests fail: {bad}')
        d = f'{V}/seeded/{bid}'
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        fx = w + '/fx'
        os.mkdir(fx)
        if b.get('scn'):
            sh(['/tmp/mkdemo', b['scn'], fx])
            for f in sorted(os.listdir(fx)):
                if f != 'cmds':
                    sh(f'gzip -9 -n -c {fx}/{f} > {d}/{f}.gz')
        if 'sh' in b:
            open(d + '/script.sh', 'w').write(b['sh'])
            shutil.copy(fx + '/cmds', d + '/cmds')
            shutil.copy(V + '/tools/plant/demo_sh.sh', d + '/demo.sh')
        elif 'go' in b:
            open(d + '/main.go.txt', 'w').write(b['go'])
            shutil.copy(V + '/tools/plant/demo_go.sh', d + '/demo.sh')
        else:
            shutil.copy(fx + '/cmds', d + '/cmds')
            shutil.copy(V + '/tools/plant/demo_cli.sh', d + '/demo.sh')
            sh(['go', 'build', '-o', w + '/cli', './cmd/db-recovery'], cwd=clean)
            os.mkdir(w + '/log')
            for i, l in enumerate(open(fx + '/cmds').read().splitlines(), 1):
                p = subprocess.run([w + '/cli', '--LogPath', w + '/log'] + l.split(), cwd=fx, stdout=open(f'{d}/expect.{i}', 'wb'), stderr=subprocess.DEVNULL, env=dict(ENV, TZ='UTC'))
        os.chmod(d + '/demo.sh', 0o755)
        # the demonstration is copied elsewhere, without patch and meta
        e = w + '/elsewhere'
        shutil.copytree(d, e, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        p0 = sh(['bash', e + '/demo.sh'], cwd=clean, check=False)
        p1 = sh(['bash', e + '/demo.sh'], cwd=repo, check=False)
        if p0.returncode: note.append(f'demo fails on the clean tree: {p0.stdout[-300:]}')
        if not p1.returncode: note.append('demo passes with the patch')
        if p1.returncode == 2: note.append('demo does not build')
        print(bid, b['prop'], 'ok' if not note else 'PROBLEM ' + '; '.join(note), '|', p1.stdout.strip()[:int(os.environ.get("CH", "160"))].replace('\n', ' / '))
        shutil.rmtree(w)
main()
