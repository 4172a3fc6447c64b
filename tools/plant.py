#!/usr/bin/env python3
"""Plants a bug: plant.py make FILE   creates seeded/<id>/ from a description (python file with BUGS)
                 plant.py test ID...  builds, runs the stable tests, the demo and the check with the patch applied."""
import sys, os, json, subprocess, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DSP_REPO', '/repo')
DEMO_SH = '''#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
num-complex = "0.4"
arrayvec = "0.7"
[profile.dev]
debug = 0
overflow-checks = true
EOF
cd "$d" || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTFLAGS="%s" cargo +%s build --offline -q 2>"$d/log" || { cat "$d/log"; exit 2; }
timeout 120 "$d/target/debug/demo"
'''
VEC = 'basic_dsp_vector = { path = "$repo/vector", default-features = false, features = ["std"] }'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns['BUGS']:
        d = os.path.join(ROOT, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        assert sh('git -C %s status --short' % REPO).stdout.strip() == ''
        try:
            for f, old, new in b['edits']:
                p = os.path.join(REPO, f)
                s = open(p).read()
                n = b.get('nth', {}).get(old, 0)
                parts = s.split(old)
                if len(parts) < 2 or (len(parts) > 2 and old not in b.get('nth', {})):
                    raise SystemExit('%s: %d matches of %r' % (b['id'], len(parts) - 1, old))
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
                line = len(old.join(parts[:n + 1]).split('\n'))
                bl = sh('git -C %s blame -s -L %d,%d %s' % (REPO, line, line + old.rstrip('\n').count('\n'), f)).stdout
                mine = [l for l in bl.split('\n') if l and not l.startswith('^')]
                if mine:
                    print('NOTE', b['id'], 'touches own lines:', mine)
                open(p, 'w').write(s)
            diff = subprocess.run('git -C %s diff' % REPO, shell=True, stdout=subprocess.PIPE, universal_newlines=True).stdout
        finally:
            sh('git -C %s checkout -- .' % REPO)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        dep = b.get('dep', VEC)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % (dep, b.get('flags', ''), b.get('tc', 'stable')))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.rs'), 'w').write(b['demo'])
        shutil.copy(os.path.join(ROOT, 'harness', b.get('lock', 'vecdrv'), 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('made', b['id'])

def test(i, what):
    d = os.path.join(ROOT, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    assert sh('git -C %s status --short' % REPO).stdout.strip() == ''
    res = [i, prop]
    if 'd' in what:
        res.append('clean demo %d' % sh('bash %s/demo.sh' % d, cwd=REPO).returncode)
    r = sh('git -C %s apply %s/patch.diff' % (REPO, d))
    try:
        if r.returncode:
            res.append('does not apply')
        else:
            if 't' in what:
                res.append(sh('python3 %s/tools/regress.py' % ROOT).stdout.strip().split('\n')[-1])
            if 'd' in what:
                r = sh('bash %s/demo.sh' % d, cwd=REPO)
                res.append('demo %d %s' % (r.returncode, ' '.join(r.stdout.split())[:150]))
            if 'c' in what:
                for p in prop.split(','):
                    r = sh('python3 %s/tools/check.py %s quick' % (ROOT, p), env=dict(os.environ, VERIF_SEED='1'))
                    res.append('check %s: %d %s' % (p, r.returncode, r.stdout.strip()[:160].replace('\n', ' ') if r.returncode != 1 else 'caught'))
    finally:
        sh('git -C %s checkout -- .' % REPO)
    print(' | '.join(res), flush=True)

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        for i in sys.argv[3:] or sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
            test(i, sys.argv[2])
