#!/usr/bin/env python3
"""mutrun.py SEED COUNT OUT [FILE-REGEX]: sample single-edit mutants of the
library (functions drawn uniformly, then an edit in the function), keep those
that compile and pass the stable tests, and run the checks that cover the
file until one reports a violation. Survivors are listed in OUT for review:
each is either equivalent, outside the properties, or a gap."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
sys.argv += [''] * (5 - len(sys.argv))
seed, count, outp, rx = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'],
           GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod', GOSUMDB='off')
MAP = [
 (r'^hashset', 'H01 R01 R02 V01'), (r'^utils', 'H04 E01 A01 S04 S05 S01 K01 G03 V01 R01'),
 (r'^(blake|sha3|sm3)', 'H01 H02 H03 H04 E01 R03 R02'),
 (r'^ecdsa', 'S03 S04 S08 S05 S01 K02 V01 S02 R04 R01 R03 R02'),
 (r'^secp256k1', 'G01 S03 S05 G03 G02 K01 S04 V01 R01 R02'), (r'^secp256r1', 'G01 S03 S05 G03 G02 K01 S04 V01 R01 R02'),
 (r'^sm2_std', 'G01 S03 E01 E02 A01 A02 S05 G03 K01 K02 S08 S04 V01 S01 R01 R02 R03'),
 (r'^eccset', 'K01 K02 S03 S06 S07 S05 E01 E02 A01 A02 G01 G02 G03 G04 B01 B02 M01 V01 S02 S01 R04 R01 R02'),
 (r'^eddsa/edwards', 'G05 S06 S07 G01 G04 S08 K01'), (r'^eddsa', 'A03 S06 S07 G04 G01 G02 K01 G05 S08 S01 V01 R01 R02 R03'),
 (r'^bls12_381/bls', 'B03 B01 B02 V01 R02'), (r'^bls12_381', 'B03 B01 B02 V01 G02 K02 R01 R02 R03'),
 (r'^pasta', 'M01 M02 M03 G01 G02 G03 K01 K02 V01 R01 R02'), (r'.', 'H01 K01 S01 R01 R03'),
]
S = tempfile.mkdtemp(prefix='mutrun-', dir='/tmp')
R, H = S + '/repo', S + '/v/harness'
def sh(cmd, cwd, t=600):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace')
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, 'timeout')
os.makedirs(S + '/v'); os.makedirs(R)
subprocess.run(f'git -C /repo archive HEAD | tar x -C {R}', shell=True, check=True)
shutil.copytree(V + '/harness', H)
p = H + '/go.mod'; s = open(p).read().replace('=> /repo', '=> ' + R); open(p, 'w').write(s)
shutil.copy(R + '/go.mod', S + '/go.mod'); shutil.copy(V + '/harness/go.sum', S + '/go.sum')
STABLE = set(x.rsplit('/', 1)[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'])
def stable():
    r = sh(['go', 'test', '-vet=off', '-count=1', '-v', '-timeout', '120s', '-modfile', S + '/go.mod', './...'], R, 300)
    return not (STABLE - set(re.findall(r'^--- PASS: (\S+)', r.stdout, re.M)))
assert stable()
files = []
for l in sh(['go', 'list', '-modfile', S + '/go.mod', '-f', '{{.Dir}}|{{join .GoFiles ","}}', './...'], R).stdout.splitlines():
    if '|' in l:
        d, g = l.split('|'); files += [os.path.relpath(d + '/' + x, R) for x in g.split(',') if x]
mt = S + '/mutate'
sh(['go', 'build', '-o', mt, '.'], V + '/tools/mutate')
assert os.path.exists(mt)
fn = {}
for l in sh([mt] + files, R).stdout.splitlines():
    m = json.loads(l)
    if re.search(rx, m['File']) and not re.match(r'profile|sha3/keccakf_amd64', m['File']): fn.setdefault((m['File'], m['Func']), []).append(m)
rnd = random.Random(seed)
keys = sorted(fn); out = open(outp, 'a'); done = set(); stats = {}
n = 0
try:
  while n < count:
    k = keys[rnd.randrange(len(keys))]; m = fn[k][rnd.randrange(len(fn[k]))]
    key = (m['File'], m['Off'], m['New'])
    if key in done: continue
    done.add(key)
    f = os.path.join(R, m['File']); b = open(f, 'rb').read()
    open(f, 'wb').write(b[:m['Off']] + m['New'].encode() + b[m['End']:])
    t0 = time.time(); res = ''
    try:
        if sh(['go', 'build', '-modfile', S + '/go.mod', './...'], R).returncode: res = 'nobuild'
        elif not stable(): res = 'tests'
        else:
            n += 1
            r = sh(['go', 'build', '-o', S + '/h', '.'], H)
            if r.returncode: res = 'harness does not build ' + r.stdout[-300:]
            else:
                checks = next(c for x, c in MAP if re.search(x, m['File'])).split()
                for c in checks:
                    q = subprocess.Popen([S + '/h', 'check', c], env=dict(ENV, VERIF_DIR=S + '/v', VERIF_STOP='1', VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors='replace')
                    try: o, _ = q.communicate(timeout=850)
                    except subprocess.TimeoutExpired:
                        os.killpg(q.pid, 9); o = 'timeout'; q.communicate()
                    if 'VIOLATION' in o:
                        res = 'killed ' + c + ' ' + o[o.index('VIOLATION'):][:160].replace('\n', ' '); break
                    if q.returncode != 0: res = f'odd {c} rc={q.returncode} ' + o[-300:].replace('\n', ' '); break
                if not res: res = 'SURVIVED ' + ' '.join(checks)
    finally:
        open(f, 'wb').write(b)
    w = res.split()[0]; stats[w] = stats.get(w, 0) + 1
    if w not in ('nobuild', 'tests'):
        out.write(f"{m['File']}:{m['Line']} {m['Func']} [{m['Kind']}] {m['Old'][:80]!r} -> {m['New'][:90]!r}: {res} ({time.time()-t0:.0f}s)\n"); out.flush()
  out.write(json.dumps(stats) + '\n')
finally:
    shutil.rmtree(S)
