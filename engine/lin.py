"""Linear integer terms, entailment of linear facts, and affine-space joins (Karr's analysis)."""
from fractions import Fraction

# Lin = (const, frozenset({(atom, coeff)}))


def lc(c):
    return (c, frozenset())


def la(atom):
    return (0, frozenset(((atom, 1),)))


def _mk(c, d):
    return (c, frozenset((a, k) for a, k in d.items() if k))


def ladd(x, y, s=1):
    if not y[1]:
        return (x[0] + s * y[0], x[1])
    if not x[1] and s == 1:
        return (x[0] + y[0], y[1])
    d = dict(x[1])
    for a, k in y[1]:
        d[a] = d.get(a, 0) + s * k
    return _mk(x[0] + s * y[0], d)


def lsub(x, y):
    return ladd(x, y, -1)


def lscale(x, s):
    return (x[0] * s, frozenset((a, k * s) for a, k in x[1])) if s else lc(0)


def lneg(x):
    return lscale(x, -1)


def isconst(x):
    return not x[1]


def nonneg_atom(a):
    return a[0] != 'z'


def infeasible(ges, depth=0):
    """Is the conjunction of (L >= 0 for L in ges), with unsigned atoms >= 0, unsatisfiable (rationally)?"""
    cons = {}
    for c, f in ges:
        cons[f] = min(cons.get(f, c), c)
    work = set()
    for f, c in cons.items():
        if not f:
            if c < 0:
                return True
            continue
        if c >= 0 and all(k > 0 and nonneg_atom(a) for a, k in f):
            continue
        work.add((c, f))
    # add non-negativity for atoms that occur with a negative coefficient somewhere
    atoms = set(a for c, f in work for a, k in f)
    for a in atoms:
        if nonneg_atom(a):
            work.add((0, frozenset(((a, 1),))))
    steps = 0
    while True:
        cnt = {}
        for c, f in work:
            for a, k in f:
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + 1, n) if k > 0 else (p, n + 1)
        if not cnt:
            return False
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], str(x)))
        pos, neg, rest = [], [], set()
        for c, f in work:
            k = 0
            for b, kk in f:
                if b == a:
                    k = kk
                    break
            if k > 0:
                pos.append((k, (c, f)))
            elif k < 0:
                neg.append((-k, (c, f)))
            else:
                rest.add((c, f))
        for kp, p in pos:
            for kn, n in neg:
                r = ladd(lscale(p, kn), lscale(n, kp))
                if not r[1]:
                    if r[0] < 0:
                        return True
                    continue
                # normalise by gcd (integer tightening)
                from math import gcd
                g = 0
                for _, k in r[1]:
                    g = gcd(g, abs(int(k)))
                if g > 1:
                    r = (r[0] // g, frozenset((b, k // g) for b, k in r[1]))
                rest.add(r)
        work = rest
        steps += 1
        if len(work) > 600 or steps > 60:
            return False


def relevant(facts, goal):
    atoms = set(a for a, _ in goal[1])
    pool = list(facts)
    out = []
    while True:
        nxt = []
        grew = False
        for f in pool:
            fa = [a for a, _ in f[1]]
            if any(a in atoms for a in fa):
                out.append(f)
                for a in fa:
                    if a not in atoms:
                        atoms.add(a)
                        grew = True
            else:
                nxt.append(f)
        pool = nxt
        if not grew:
            return out


def _load():
    """The native version of infeasible, built on first use (None: the one above is used)."""
    import ctypes
    import hashlib
    import os
    import subprocess
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(here, 'lp.c')
    try:
        with open(src, 'rb') as f:
            h = hashlib.sha256(f.read()).hexdigest()[:16]
        out = os.path.join(os.path.dirname(here), 'build', 'lp-%s.so' % h)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = '%s.%d' % (out, os.getpid())
            subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp, src], check=True, capture_output=True)
            os.replace(tmp, out)
        lib = ctypes.CDLL(out)
        lib.lp_new.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_char_p]
        lib.lp_new.restype = ctypes.c_void_p
        lib.lp_free.argtypes = [ctypes.c_void_p]
        lib.lp_free.restype = None
        lib.lp_state.argtypes = [ctypes.c_void_p]
        lib.lp_query.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        return lib
    except (OSError, subprocess.SubprocessError, AttributeError):
        return None


_lib = _load()
_prep = {}
BIGC = 1 << 50


class _Prep:
    """Facts as a solved tableau."""
    __slots__ = ('idx', 'h')

    def __init__(self, facts):
        self.h = None
        idx = {}
        for c, f in facts:
            if type(c) is not int or abs(c) > BIGC:
                raise OverflowError
            for a, _ in f:
                if a not in idx:
                    idx[a] = len(idx)
        self.idx = idx
        m = len(idx)
        flat = array('q', bytes(8 * (m + 1) * len(facts)))
        o = 0
        for c, f in facts:
            for a, k in f:
                flat[o + idx[a]] = k
            flat[o + m] = c
            o += m + 1
        self.h = _lib.lp_new(flat.buffer_info()[0], len(facts), m, bytes([1 if nonneg_atom(a) else 0 for a in idx]))

    def __del__(self):
        if self.h is not None and _lib is not None:
            _lib.lp_free(self.h)


from array import array     # noqa: E402


def _prepared(facts):
    p = _prep.get(facts)
    if p is None:
        if len(_prep) > 4000:
            _prep.clear()
        p = _prep[facts] = _Prep(facts)
    return p


def _ask(facts, goal):
    """facts and goal >= 0 together unsatisfiable?"""
    if _lib is not None and type(facts) is frozenset:
        try:
            p = _prepared(facts)
            if abs(goal[0]) > BIGC:
                raise OverflowError
            idx = p.idx
            g = [0] * (len(idx) + 1)
            for a, k in goal[1]:
                i = idx.get(a)
                if i is not None:
                    g[i] = k
                elif k > 0 or not nonneg_atom(a):
                    # something unknown can be as large as needed
                    return _lib.lp_state(p.h) == 1
            g[-1] = goal[0]
            g = array('q', g)
            return bool(_lib.lp_query(p.h, g.buffer_info()[0]))
        except (OverflowError, TypeError):
            pass
    return infeasible(relevant(facts, goal) + [goal])


def entails(facts, goal):
    """facts |= goal >= 0 ?"""
    if not goal[1]:
        return goal[0] >= 0
    if goal[0] >= 0 and all(k > 0 and nonneg_atom(a) for a, k in goal[1]):
        return True
    if goal in facts:
        return True
    return _ask(facts, (-goal[0] - 1, frozenset((a, -k) for a, k in goal[1])))


def contradictory(facts, new):
    """Does adding new >= 0 make the facts unsatisfiable?"""
    if not new[1]:
        return new[0] < 0
    return _ask(facts, new)


def inconsistent(facts):
    """Are the facts unsatisfiable together?"""
    facts = frozenset(facts)
    if _lib is not None:
        try:
            return _lib.lp_state(_prepared(facts).h) == 1
        except (OverflowError, TypeError):
            pass
    return infeasible(list(facts))


# ---------------------------------------------------------------- affine spaces
# A space over n slots: (point, basis) with rational vectors; basis kept in reduced echelon form.

def echelon(vecs):
    rows = []
    for v in vecs:
        v = list(v)
        for p, r in rows:
            if v[p]:
                k = v[p]
                v = [x - k * y for x, y in zip(v, r)]
        p = next((i for i, x in enumerate(v) if x), None)
        if p is None:
            continue
        k = v[p]
        v = [Fraction(x) / k for x in v]
        rows = [(q, [x - r[p] * y for x, y in zip(r, v)] if r[p] else r) for q, r in rows]
        rows.append((p, v))
        rows.sort(key=lambda t: t[0])
    return rows


def space_of(slots):
    atoms = sorted({a for s in slots for a, _ in s[1]}, key=str)
    idx = {a: i for i, a in enumerate(atoms)}
    cols = [[Fraction(0)] * len(slots) for _ in atoms]
    for j, s in enumerate(slots):
        for a, k in s[1]:
            cols[idx[a]][j] = Fraction(k)
    point = [Fraction(s[0]) for s in slots]
    return point, echelon(cols)


def reduce_point(point, rows):
    v = list(point)
    for p, r in rows:
        if v[p]:
            k = v[p]
            v = [x - k * y for x, y in zip(v, r)]
    return v


def join_space(s1, s2):
    p1, r1 = s1
    p2, r2 = s2
    rows = echelon([r for _, r in r1] + [r for _, r in r2] + [[a - b for a, b in zip(p2, p1)]])
    return reduce_point(p1, rows), rows


def contains_space(s1, s2):
    """s2 subset of s1?"""
    p1, r1 = s1
    p2, r2 = s2
    for _, r in r2:
        if any(reduce_point(r, r1)):
            return False
    return not any(reduce_point([a - b for a, b in zip(p2, p1)], r1))


def parametrize(space, mk):
    """Slots as Lins over fresh atoms, one per basis vector (the pivot slot's own value)."""
    point, rows = space
    atoms = [mk(p) for p, _ in rows]
    out = []
    for j in range(len(point)):
        c = point[j]
        d = {}
        for (p, r), a in zip(rows, atoms):
            if r[j]:
                d[a] = r[j]
        # point is reduced: pivot coordinates are 0, so slot_p = atom
        out.append((_int(c), frozenset((a, _int(k)) for a, k in d.items())))
    return out


def _int(x):
    return int(x) if x.denominator == 1 else x
