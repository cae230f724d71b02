"""plant.py SPEC.py: make a planted bug from SPEC (id, property, edits [(file, old, new)], needs, breaks, demo) in a scratch copy and confirm it."""
import json, os, subprocess, sys, tempfile, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right; runs in the repository
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rstar = { path = "$repo/rstar"%s }
%s
[workspace]
EOF
cd "$d"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cargo build --offline -q
timeout 120 ./target/debug/demo
'''
for b in spec['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    out = '/verif/seeded/' + b['id']
    w = tempfile.mkdtemp(prefix='plant-')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        r = w + '/repo'
        os.makedirs(out, exist_ok=True)
        open(out + '/main.rs', 'w').write(b['demo'])
        feat = b.get('features', '')
        open(out + '/demo.sh', 'w').write(DEMO % ((', features = [%s]' % feat) if feat else '', b.get('deps', '')))
        os.chmod(out + '/demo.sh', 0o755)
        c = subprocess.run([out + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok0 = c.returncode == 0
        if not ok0:
            print(c.stdout[-1500:])
        for f, old, new in b['edits']:
            p = r + '/rstar/src/' + f
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE, text=True).stdout
        open(out + '/patch.diff', 'w').write(d)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        c = subprocess.run([out + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok1 = c.returncode != 0
        t = subprocess.run(['cargo', 'test', '--offline', '-q', '--lib', '--manifest-path', r + '/rstar/Cargo.toml', '--target-dir', '/tmp/plant-target'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, RUSTFLAGS='-Awarnings'))
        ok2 = t.returncode == 0
        print(b['id'], 'clean demo ok' if ok0 else 'CLEAN DEMO FAILS', 'demo fails with bug' if ok1 else 'DEMO PASSES WITH BUG', 'tests pass' if ok2 else 'TESTS FAIL')
        if not ok1 or not ok2:
            print(c.stdout[-300:], t.stdout[-800:])
        elif ok1:
            print('   ', c.stdout.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(w)
