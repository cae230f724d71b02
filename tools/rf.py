"""rf.py SPEC.py [ids]: run checks against edits that keep the behaviour, each in a scratch copy (development tool).

SPEC defines EDITS = [dict(id, edits=[(file, old, new)], props=[...])].  With --test the repository's tests run too."""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, '/verif/engine')
sys.setrecursionlimit(20000)
spec = {}
exec(open(sys.argv[1]).read(), spec)
TEST = '--test' in sys.argv
want = [a for a in sys.argv[2:] if not a.startswith('-')]
os.environ['PYTHONHASHSEED'] = '0'


def one(b):
    w = tempfile.mkdtemp(prefix='rf-')
    try:
        os.makedirs(w + '/repo')
        subprocess.run('git -C /repo archive HEAD | tar x -C %s/repo; cp /repo/Cargo.lock %s/repo/ 2>/dev/null' % (w, w), shell=True)
        shutil.copytree('/verif/probe', w + '/probe', ignore=shutil.ignore_patterns('target'))
        for f, a, c in b['edits']:
            p = w + '/repo/rstar/src/' + f
            s = open(p).read()
            if s.count(a) < 1:
                return print(b['id'], 'EDIT DOES NOT MATCH', repr(a[:60]))
            open(p, 'w').write(s.replace(a, c, 1))
        p = w + '/probe/Cargo.toml'
        s = open(p).read().replace('/repo/rstar', w + '/repo/rstar')
        open(p, 'w').write(s)
        if TEST:
            r = subprocess.run('cargo test --offline -q --lib 2>&1 | tail -3', shell=True, cwd=w + '/repo/rstar', env=dict(os.environ, CARGO_TARGET_DIR='/tmp/rf-target'), capture_output=True, text=True)
            if 'test result: ok' not in r.stdout:
                print(b['id'], 'TESTS', r.stdout[-1500:])
        env = dict(os.environ, CARGO_NET_OFFLINE='true', MIRDUMP_OUT=w + '/out', RUSTC_WRAPPER='/verif/driver/target/release/mirdump',
                   RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings')
        env['LD_LIBRARY_PATH'] = subprocess.run('rustc +nightly --print sysroot', shell=True, capture_output=True, text=True).stdout.strip() + '/lib'
        os.makedirs(w + '/out')
        r = subprocess.run('cargo +nightly check --offline -q --target-dir %s/out/target' % w, shell=True, cwd=w + '/probe', env=env, capture_output=True, text=True)
        if not os.path.exists(w + '/out/probe.json'):
            return print(b['id'], 'BUILD', r.stderr[-3000:])
        if '--keep' in sys.argv:
            shutil.rmtree('/tmp/mdx', ignore_errors=True)
            shutil.copytree(w + '/out', '/tmp/mdx', ignore=shutil.ignore_patterns('target'))
        for prop in b['props']:
            r = subprocess.run([sys.executable, '-c', '''
import sys, json
sys.path.insert(0, '/verif/engine'); sys.setrecursionlimit(20000)
import check
check.dump = lambda: (json.load(open(%r)), json.load(open(%r)), '')
check.write_evidence = lambda *a: None
sys.argv = ['check', %r]
check.main()
''' % (w + '/out/probe.json', w + '/out/rstar.json', prop)], capture_output=True, text=True)
            o = (r.stdout + r.stderr).strip().split('\n')
            bad = 'holds' not in o[-1]
            print('%-28s %s %s' % (b['id'], prop, 'ALARM ' + ' / '.join(x[:int(os.environ.get('RFW', 300))] for x in o[:4]) if bad else 'quiet ' + o[-1][-28:]))
            sys.stdout.flush()
    finally:
        shutil.rmtree(w)


for b in spec['EDITS']:
    if not want or b['id'] in want:
        one(b)
