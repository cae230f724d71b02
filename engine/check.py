"""Decide one property of rstar from the MIR of /repo's current tree.

usage: check.py <property> [--floors]     (--floors records the instance counts instead of comparing)
"""
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from absint import Prog                     # noqa: E402
import driver                               # noqa: E402
import trees                                # noqa: E402
from props import PROPS                     # noqa: E402

FLOORS = os.path.join(HERE, 'floors.json')
KNOWN = os.path.join(TOP, 'known_findings.json')
_prog = None


def dump():
    out = tempfile.mkdtemp(prefix='verif-mir-')
    try:
        r = subprocess.run([os.path.join(TOP, 'dump.sh'), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, None, r.stdout
        with open(os.path.join(out, 'probe.json')) as f:
            probe = json.load(f)
        with open(os.path.join(out, 'rstar.json')) as f:
            api = json.load(f)
        return probe, api, ''
    finally:
        shutil.rmtree(out)


def analyse(job):
    """One root: (root, statistics, issues)."""
    kind, root, budget, prop = job
    t = time.time()
    try:
        D = trees.make(_prog, root, budget, prop) if kind == 'tree' else driver.make(_prog, kind, budget)
        D.deadline = _deadline
        D.run(root)
        fns = sorted(set(_prog.fns[k]['path'] for k in D.eng.visited if k in _prog.fns and _prog.fns[k]['crate'] == 'rstar'))
        claims = dict(D.spec.claims)
        return root, dict(states=D.n, exits=D.exits, claims=claims, fns=fns, calls=D.eng.callsites, s=round(time.time() - t, 2)), list(D.eng.issues)
    except Exception as e:                                   # fail closed: a crash of the analysis decides nothing
        import traceback
        return root, dict(states=0, exits=0, claims={}, fns=[], calls=0, s=0), [('undecided', 'analysis of %s' % root, 'the analysis failed: %s %s' % (e, traceback.format_exc()[-600:]))]


def everyone(jobs, hard):
    """A process per root, eight at a time; one that dies or is still busy at the hard limit decides nothing."""
    ctx = multiprocessing.get_context('fork')
    todo, busy, res = list(jobs)[::-1], {}, {}

    def work(job, w):
        resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
        w.send(analyse(job))
        w.close()

    def lost(job, why):
        res[job[1]] = (job[1], dict(states=0, exits=0, claims={}, fns=[], calls=0, s=0), [('undecided', 'analysis of %s' % job[1], 'the analysis ' + why)])
    while todo or busy:
        while todo and len(busy) < 8:
            job = todo.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(job, w), daemon=True)
            p.start()
            w.close()
            busy[r] = (p, job)
        for r in multiprocessing.connection.wait(list(busy), max(0, hard - time.time())):
            p, job = busy.pop(r)
            try:
                res[job[1]] = r.recv()
            except EOFError:
                lost(job, 'ended without an answer')
            r.close()
            p.join(5)
        if time.time() >= hard:
            for p, job in busy.values():
                p.kill()
                lost(job, 'does not end in time')
            for job in todo:
                lost(job, 'does not end in time')
            break
    return [res[j[1]] for j in jobs]


def tagged(site, prop):
    t = trees.tags(site, prop)
    return [prop] if t is None else t


def constructors(api, problems):
    """Every function that creates a tree out of something else must be one of those that are analysed."""
    import apicheck
    A = apicheck.Api(api)
    called = set(_prog.fns[k]['path'] for k in _prog.fns if _prog.fns[k]['crate'] == 'rstar')
    n = 0
    for fn in api['fns']:
        if not fn['reach'] or fn['derived'] or (fn['trait'] or '').endswith(('::Deserialize', '::Clone')):
            continue
        hit = []
        apicheck.walk(fn['out'], lambda x, r: hit.append(1) if not r and x['k'] == 'adt' and x['path'] == A.tree else None)
        if not hit or any(A.treeish(t) for t in fn['in']):
            continue
        n += 1
        if fn['path'] not in called:
            problems.append(('undecided', fn['path'], 'the constructor %s (%s) is not known to the analysis' % (fn['path'], fn['at'])))
    if n < 4:
        problems.append(('floor', 'constructors', 'only %d constructors were found' % n))


def main():
    global _prog, _deadline
    prop = sys.argv[1]
    record = '--floors' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    _deadline = t0 + 400
    kind, prefix, what = PROPS[prop]
    problems = []
    stats = {}
    probe, api, log = dump()
    floors = json.load(open(FLOORS)) if os.path.exists(FLOORS) else {}
    if probe is None:
        problems.append(('build', 'build', 'the program cannot be compiled against the analysed API:\n' + log[-3000:]))
    elif kind == 'api':
        import apicheck
        problems, stats = apicheck.run(prop, probe, api)
    else:
        _prog = Prog(probe)
        roots = sorted(r for r in _prog.roots if r.startswith(prefix))
        if kind == 'tree':
            roots = [r for r in roots if trees.concerns(r, prop)]
        budget = 400000 if tier == 'quick' else 4000000
        jobs = [(kind, r, budget, prop) for r in roots]
        if kind == 'params':
            constructors(api, problems)
        res = everyone(jobs, t0 + 460)
        for root, s, iss in res:
            if kind == 'tree':
                s['claims'] = {k: n for k, n in s['claims'].items() if prop in tagged(k, prop)}
                iss = [x for x in iss if x[0] != 'claim' or prop in tagged(x[1], prop)]
            stats[root] = s
            for c, k, text in iss:
                problems.append((c, '%s: %s' % (root, k), text))
    # instance counts: a rule that matches nothing passes for ever
    if kind != 'api':
        counts = {r: dict(claims=0 if prop == 'C34' else len(s['claims']), exits=min(s['exits'], 1)) for r, s in stats.items()}
    else:
        counts = {r: dict(n=n // 2 if record else n) for r, n in stats.items()}      # half of them: code may shrink
    if record:
        floors = json.load(open(FLOORS)) if os.path.exists(FLOORS) else {}
        floors[prop] = counts
        with open(FLOORS, 'w') as f:
            json.dump(floors, f, indent=1, sort_keys=True)
            f.write('\n')
    elif not problems:
        fl = floors.get(prop, {})
        if not fl:
            problems.append(('floor', 'floor', 'no instance counts recorded for %s' % prop))
        for r, c in fl.items():
            for k, n in c.items():
                if counts.get(r, {}).get(k, 0) < n:
                    problems.append(('floor', 'floor %s' % r, '%s: only %s of %d instances (%s) were analysed' % (r, counts.get(r, {}).get(k, 0), n, k)))
    known = []
    if os.path.exists(KNOWN):
        known = [k for k in json.load(open(KNOWN)).get('findings', []) if k['property'] == prop]
    left = []
    for c, k, text in problems:
        hit = [f for f in known if f['key'] == k]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what']))
        else:
            left.append((c, k, text))
    replay = os.path.join(TOP, 'build', 'replay', prop + '.txt')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    with open(replay, 'w') as f:
        f.write('property %s: %s\n%d violation(s)\n' % (prop, what, len(left)))
        for c, k, text in left:
            f.write('\n[%s] %s\n%s\n' % (c, k, text))
    write_evidence(prop, tier, seed, what, kind, stats, left, time.time() - t0)
    if left:
        for c, k, text in left[:6]:
            print('%s: [%s] %s: %s' % (prop, c, k, text[:700]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    print('%s: holds (%s; %d instances; %.1f s)' % (prop, what, len(stats), time.time() - t0))
    return 0


def write_evidence(prop, tier, seed, what, kind, stats, left, wall):
    cov = {}
    if kind != 'api':
        fns = sorted(set(f for s in stats.values() for f in s['fns']))
        cov['explanation'] = ('Abstract interpretation of the MIR of /repo\'s current tree, instantiated with uninterpreted user types. '
                              'Decided: %s. No code of rstar was run.' % what)
        cov['roots'] = len(stats)
        cov['obligation_sites'] = sum(len(s['claims']) for s in stats.values())
        cov['obligations'] = sum(sum(s['claims'].values()) for s in stats.values())
        cov['discharged'] = max(0, cov['obligations'] - len(left))
        cov['abstract_states'] = sum(s['states'] for s in stats.values())
        cov['path_exits'] = sum(s['exits'] for s in stats.values())
        cov['call_sites_interpreted'] = sum(s['calls'] for s in stats.values())
        cov['functions_of_rstar'] = fns
        cov['samples'] = [dict(root=r, states=s['states'], obligations=s['claims'], seconds=s['s']) for r, s in sorted(stats.items())][:12]
    else:
        cov['explanation'] = 'Facts of the type-checked crate at /repo (HIR, types and trait solver), plus witnesses that must or must not type-check. Decided: %s.' % what
        cov['instances'] = stats
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(wall, 2), violations=len(left),
              assumptions=['user types are deterministic and without interior mutability (see DESIGN.md)', 'models of std listed in engine/models.py'])
    d = os.path.join(TOP, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        d = os.path.join(TOP, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, sys.argv[1] + '.txt'), 'w') as f:
            f.write(traceback.format_exc())
        print('VIOLATION property=%s replay=%s' % (sys.argv[1], os.path.join(d, sys.argv[1] + '.txt')))
        rc = 1
    sys.exit(rc)
