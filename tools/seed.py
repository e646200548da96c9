#!/usr/bin/env python3
"""seed.py NAME...: builds and confirms planted bugs from tools/seeds/NAME.py.

Each definition holds prop, needs, what, edits [(file, old, new)], demo (Go
source of func demo) and optionally kind: "" | "race" | "fos" | "cli" | "load".
A confirmed bug is written to seeded/NAME.  Nothing here runs in a check."""
import concurrent.futures as cf
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ)
for l in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; export GOMAXPROCS=8; env'], capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition('=')
    if k in ('PATH', 'HOME') or k.startswith('GO'): ENV[k] = v

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

HEAD = '''#!/bin/bash
# Run with the working directory at the repository; exits 0 when it behaves.
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
r=""
'''
FOS = '''for f in "$PWD"/pkg/col/*.go; do
  case "$f" in *_test.go) continue;; esac
  if grep -q '^[[:space:]]*"os"$' "$f"; then
    sed 's|^\\([[:space:]]*\\)"os"$|\\1os "vibe-lsm/zzfos"|' "$f" > "$t/$(basename "$f")"
    r="$r,\\"$f\\":\\"$t/$(basename "$f")\\""
  fi
done
r=",\\"$PWD/zzfos/fos.go\\":\\"$d/fos.go\\"$r"
'''
def demosh(kind):
    s = HEAD
    if kind == 'fos': s += FOS
    s += '''cat > "$t/o.json" <<EOF
{"Replace":{"$PWD/zzdemo/main.go":"$d/main.go","$PWD/zzdemo/lib.go":"$d/lib.go"$r}}
EOF
'''
    race = '-race ' if kind == 'race' else ''
    s += f'go build {race}-overlay "$t/o.json" -o "$t/demo" ./zzdemo || exit 3\n'
    if kind == 'cli': s += 'go build -o "$t/vibecol" ./cmd/vibecol || exit 3\nexport VIBECOL="$t/vibecol"\n'
    if kind == 'load': s += 'go build -o "$t/loadtest" ./cmd/loadtest || exit 3\nexport LOADTEST="$t/loadtest"\n'
    if kind == 'race': s += 'export GORACE="halt_on_error=1 exitcode=66"\n'
    s += 'timeout 120 "$t/demo"\n'
    return s

def one(name):
    g = {}
    exec(open(f'{V}/tools/seeds/{name}.py').read(), g)
    out = f'{V}/seeded/{name}'
    x = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        r = f'{x}/repo'; clean = f'{x}/clean'
        for p in (r, clean): subprocess.run(['cp', '-a', '/repo', p], check=True)
        d = f'{x}/d'; os.mkdir(d)
        kind = g.get('kind', '')
        open(f'{d}/demo.sh', 'w').write(demosh(kind)); os.chmod(f'{d}/demo.sh', 0o755)
        body = g['demo'].lstrip('\n')
        if not body.startswith('package'): body = 'package main\n\n' + body
        open(f'{d}/main.go', 'w').write(body)
        sh(['gofmt', '-w', f'{d}/main.go'], x)
        shutil.copy(f'{V}/tools/seedlib/lib.go', d)
        if kind == 'fos': shutil.copy(f'{V}/tools/seedlib/fos.go', d)
        for f, a, b in g['edits']:
            s = open(f'{r}/{f}').read()
            if s.count(a) != 1: return f'{name}: edit of {f} matches {s.count(a)} times: {a[:60]!r}'
            open(f'{r}/{f}', 'w').write(s.replace(a, b))
        diff = sh(['git', 'diff'], r).stdout
        base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], r).stdout.strip()
        mine = orig = 0; cur = None; ln = 0
        for l in sh(['git', 'diff', '-U0'], r).stdout.splitlines():
            if l.startswith('--- a/'): cur = l[6:]
            elif l.startswith('@@'): ln = int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-') and not l.startswith('---'):
                who = sh(['git', 'blame', '-l', '-L', f'{ln},{ln}', 'HEAD', '--', cur], r).stdout.lstrip('^')
                if base[:30] in who: orig += 1
                else: mine += 1
                ln += 1
        b = sh(['go', 'build', './...'], r)
        if b.returncode: return f'{name}: does not build: {b.stderr[:400]}'
        c = sh(['bash', f'{d}/demo.sh'], clean, timeout=300)
        if c.returncode: return f'{name}: demo fails ({c.returncode}) on the clean tree: {c.stdout[-500:]} {c.stderr[-800:]}'
        c = sh(['bash', f'{d}/demo.sh'], r, timeout=300)
        if not c.returncode: return f'{name}: demo passes with the change'
        if c.returncode == 3: return f'{name}: demo does not build: {c.stdout} {c.stderr[-500:]}'
        why = (c.stdout + c.stderr)[:160].replace('\n', ' ')
        log = f'{x}/log'
        with open(log, 'w') as h:
            subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '10m', './...'], cwd=r, env=ENV, stdout=h, stderr=subprocess.DEVNULL)
        sh(['python3', '/opt/vp/results.py', f'{x}/o.json', f'gojson:{log}'], x)
        o = json.load(open(f'{x}/o.json')); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [t for t in st if t not in o['passed']]
        if miss: return f'{name}: existing tests fail: {miss[:4]}'
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(f'{out}/patch.diff', 'w').write(diff)
        json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['what']}, open(f'{out}/meta.json', 'w'), indent=1)
        return f'{name}: OK (orig {orig}, mine {mine}) {why}'
    except Exception as e:
        return f'{name}: {e!r}'
    finally:
        shutil.rmtree(x, ignore_errors=True)

if __name__ == '__main__':
    names = sys.argv[1:]
    if not names:
        names = sorted(os.path.basename(f)[:-3] for f in glob.glob(f'{V}/tools/seeds/*.py'))
        names = [n for n in names if not os.path.exists(f'{V}/seeded/{n}/patch.diff')]
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, names): print(r, flush=True)
