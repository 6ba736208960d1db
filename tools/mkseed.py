#!/usr/bin/env python3
"""mkseed.py SPEC.py...: turn planted-bug specs into /verif/seeded/<id>/.

A spec defines seed(id, prop, needs, breaks, edits, demo[, imports]) calls;
edits is a list of (file, old, new[, count]); demo is the body of TestDemo.
Each seed is confirmed in a scratch copy: the demo passes without the change,
fails with it, and the stable tests still pass with it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'f741294'
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'],
           GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod', GOSUMDB='off')
STABLE = None

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def stable(repo, tmp):
    out = os.path.join(tmp, 'gt')
    os.makedirs(out, exist_ok=True)
    shutil.copy(os.path.join(repo, 'go.mod'), out + '/go.mod')
    shutil.copy(V + '/harness/go.sum', out + '/go.sum')
    r = sh(['go', 'test', '-vet=off', '-count=1', '-v', '-modfile', out + '/go.mod', './...'], repo)
    return set(re.findall(r'^--- PASS: (\S+)', r.stdout, re.M)), r.stdout

def seed(id, prop, needs, breaks, edits, demo, imports=(), extra='', env='', flags=''):
    global STABLE
    want = sys.argv[2:] if len(sys.argv) > 2 else None
    if want and id not in want:
        return
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    shutil.copy(V + '/tools/seed-demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    if env or flags:
        q = open(d + '/demo.sh').read().replace('\ngo test ', '\n' + (env + ' ' if env else '') + 'go test ' + (flags + ' ' if flags else ''))
        open(d + '/demo.sh', 'w').write(q)
    shutil.copy(V + '/harness/go.sum', d + '/go.sum')
    imps = ''.join(f'\t{i.rpartition(" ")[0]} "{i.rpartition(" ")[2]}"\n' for i in dict.fromkeys(['testing'] + list(imports)))
    with open(d + '/demo_test.go', 'w') as f:
        f.write(f'package owcrypt\n\nimport (\n{imps})\n\n{extra}\nfunc TestDemo(t *testing.T) {{\n{demo}}}\n')
    sh(['gofmt', '-w', d + '/demo_test.go'], '/')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    t = tempfile.mkdtemp(prefix='mkseed-', dir='/tmp'); repo = t + '/repo'
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        if STABLE is None:
            STABLE, _ = stable(repo, t)
        r = sh(['bash', d + '/demo.sh'], repo)
        if r.returncode != 0 or 'no tests to run' in r.stdout:
            print(id, 'BAD: demo fails on the clean tree\n', r.stdout[-1500:]); return
        for e in edits:
            p = os.path.join(repo, e[0]); s = open(p).read()
            n = e[3] if len(e) > 3 else 1
            if s.count(e[1]) != n:
                print(id, 'BAD: edit matches', s.count(e[1]), 'times:', e[1]); return
            open(p, 'w').write(s.replace(e[1], e[2]))
        diff = sh(['git', 'diff'], repo).stdout
        if not diff:
            print(id, 'BAD: empty diff'); return
        open(d + '/patch.diff', 'w').write(diff)
        # every removed line must be a line of the original repository
        for fn in set(e[0] for e in edits):
            orig = set(sh(['git', 'show', f'{BASE}:{fn}'], repo).stdout.splitlines())
            for l in re.findall(r'^-(?!--)(.*)$', sh(['git', 'diff', '--', fn], repo).stdout, re.M):
                if l not in orig: print(id, 'WARN: not an original line:', l)
        s2, out = stable(repo, t)
        if STABLE - s2:
            print(id, 'BAD: stable tests fail', STABLE - s2, out[-800:]); return
        r = sh(['bash', d + '/demo.sh'], repo)
        if r.returncode == 0:
            print(id, 'BAD: demo passes with the change'); return
        if 'build failed' in r.stdout or 'setup failed' in r.stdout:
            print(id, 'BAD: does not build\n', r.stdout[-1500:]); return
        print(id, 'ok', [l for l in r.stdout.splitlines() if 'demo_test.go' in l or 'panic' in l or 'RACE' in l][:1])
    finally:
        shutil.rmtree(t)

exec(open(sys.argv[1]).read())
