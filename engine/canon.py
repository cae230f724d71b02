"""Canonical form of states at loop heads and function boundaries: the widening of the analysis.

Sequences are folded (adjacent elements become one summary element by anti-unification), complete
subtrees become lazy nodes again, atoms that occur in exactly the same places are merged, and everything is
renumbered, so that the states of one program point fall into finitely many classes (the key) that
differ only in the values of their integers (the slots).
"""
from absint import *

PARAMS_FIRST = ('p',)


# ------------------------------------------------------------------ ownership
def owned(st, v):
    """The objects a value owns."""
    out = set()

    def rec(v):
        k = v[0]
        if k == 'obj':
            out.update(v[1])
        elif k == 'node':
            out.update(v[2])
        elif k == 'agg':
            for x in v[3]:
                rec(x)
        elif k == 'seq':
            for s in v[1]:
                if s[0] == '1':
                    rec(s[2])
                else:
                    held = set()
                    held_by(s[4], held)
                    for u, c in s[3]:
                        if u in held:
                            out.update(c)
        elif k == 'iter' and v[1] == 'own':
            rec(v[2])
        elif k == 'box':
            if v[1] in st.store:
                rec(st.store[v[1]])

    def held_by(v, held):
        """Placeholders in owning positions of a template."""
        k = v[0]
        if k in ('obj', 'node'):
            s = v[1] if k == 'obj' else v[2]
            held.update(x[1] for x in s if isinstance(x, tuple) and x[0] == '$')
            out.update(x for x in s if isinstance(x, int))
        elif k == 'agg':
            for x in v[3]:
                held_by(x, held)
        elif k == 'seq':
            for s in v[1]:
                if s[0] == '1':
                    held_by(s[2], held)
                else:
                    inner = set()
                    held_by(s[4], inner)
                    for u, c in s[3]:
                        if u in inner:
                            held.update(x[1] for x in c if isinstance(x, tuple) and x[0] == '$')
                            out.update(x for x in c if isinstance(x, int))
        elif k == 'iter' and v[1] == 'own':
            held_by(v[2], held)
    rec(v)
    return frozenset(x for x in st.norm(frozenset(out)) if isinstance(x, int))


# ------------------------------------------------------------------ templates
def term_sets(t, path, f):
    """f(path, set) for every content set inside an opaque term."""
    if isinstance(t, frozenset):
        if any(isinstance(x, int) or (isinstance(x, tuple) and x and x[0] in ('$', '>')) for x in t):
            f(path, t)
        else:
            for i, x in enumerate(sorted(t, key=str)):
                term_sets(x, path + (('u', i),), f)
    elif isinstance(t, tuple):
        for i, x in enumerate(t):
            term_sets(x, path + (i,), f)


def positions(v, path, f):
    """f(path, kind, set) for every content set of a value, outside nested templates."""
    k = v[0]
    if k in ('env', 'obj'):
        f(path, k, v[1])
    elif k == 'node':
        f(path, k, v[2])
    elif k == 'agg':
        for i, x in enumerate(v[3]):
            positions(x, path + (i,), f)
    elif k == 'sref':
        positions(v[1], path + ('*',), f)
    elif k == 'iter':
        positions(v[2], path + ('it',), f)
    elif k == 'seq':
        for i, s in enumerate(v[1]):
            if s[0] == '1':
                positions(s[2], path + (('e', i),), f)
            else:
                cl = classes(s[4])
                for u, c in s[3]:
                    f(path + (('c', i, cl.get(u, frozenset())),), 'many', c)
                free_positions(s[4], path + (('m', i),), f)
    elif k == 'o' or (k == 'b' and not isinstance(v[1], bool)):
        term_sets(v[1], path, lambda p, s: f(p, 'term', s))


def free_positions(v, path, f):
    """Explicit atoms inside a template."""
    positions(v, path, lambda p, k, s: f(p, 'free', s))


def classes(tmpl):
    """placeholder -> the set of positions it occurs in"""
    out = {}

    def f(path, kind, s):
        for x in s:
            if isinstance(x, tuple) and x[0] == '$':
                out.setdefault(x[1], set()).add(path)
    positions(tmpl, (), f)
    return {u: frozenset(p) for u, p in out.items()}


def map_sets(v, fn, path=()):
    """Rebuild v with fn(path, kind, set) applied to every content set (nested contents included, nested templates not)."""
    k = v[0]
    if k in ('env', 'obj'):
        return (k, fn(path, k, v[1]))
    if k == 'node':
        return ('node', v[1], fn(path, k, v[2]), v[3])
    if k == 'agg':
        return ('agg', v[1], v[2], tuple([map_sets(x, fn, path + (i,)) for i, x in enumerate(v[3])]))
    if k == 'sref':
        return ('sref', map_sets(v[1], fn, path + ('*',))) + v[2:]
    if k == 'iter':
        return ('iter', v[1], map_sets(v[2], fn, path + ('it',)))
    if k == 'seq':
        out = []
        for i, s in enumerate(v[1]):
            if s[0] == '1':
                out.append(('1', s[1], map_sets(s[2], fn, path + (('e', i),))))
            else:
                cl = classes(s[4])
                cs = tuple([(u, fn(path + (('c', i, cl.get(u, frozenset())),), 'many', c)) for u, c in s[3]])
                t = map_sets(s[4], lambda p, kk, ss: fn(p, 'free', ss), path + (('m', i),))
                out.append(('*', s[1], s[2], cs, t))
        return ('seq', tuple(out))
    if k == 'o' or (k == 'b' and not isinstance(v[1], bool)):
        return (k, map_term(v[1], fn, path))
    return v


def map_all(v, fs):
    """Rebuild v with fs applied to every content set, nested templates included."""
    return vmap(v, fs, lambda L: L, lambda t: map_term(t, lambda p, k, x: fs(x), ()))


def map_term(t, fn, path):
    if isinstance(t, frozenset):
        if any(isinstance(x, int) or (isinstance(x, tuple) and x and x[0] in ('$', '>')) for x in t):
            return fn(path, 'term', t)
        return frozenset([map_term(x, fn, path + (('u', i),)) for i, x in enumerate(sorted(t, key=str))])
    if isinstance(t, tuple):
        return tuple([map_term(x, fn, path + (i,)) for i, x in enumerate(t)])
    return t


def pad(eng, st, v):
    """Nested sequences get one summary (perhaps of nothing) for each kind of element that is kept apart."""
    lanes = eng.spec.lanes if eng.spec else None
    if not lanes:
        return v

    def rec(v):
        k = v[0]
        if k == 'agg':
            return ('agg', v[1], v[2], tuple([rec(x) for x in v[3]]))
        if k != 'seq' or not v[1] or any(s[0] == '1' or s[4][0] not in ('node', 'obj') for s in v[1]):
            return v
        tags = [apart(eng, st, s) for s in v[1]]
        if any(t not in lanes for t in tags) or len(set(tags)) != len(tags) or sorted(tags, key=lanes.index) != tags:
            return v
        out = []
        for t in lanes:
            if t in tags:
                out.append(v[1][tags.index(t)])
            else:
                s = v[1][0]
                new = {u: fresh() for u, _ in s[3]}
                tm = map_all(s[4], lambda x: frozenset(('$', new[z[1]]) if isinstance(z, tuple) and z[0] == '$' and z[1] in new else z for z in x if not isinstance(z, int)))
                out.append(('*', fresh(), lc(0), tuple([(new[u], frozenset()) for u, _ in s[3]]), tm))
        return ('seq', tuple(out))
    return rec(v)


def generalise(eng, st, seg, later):
    """An element as a summary of length one."""
    if seg[0] == '*':
        return seg
    v = nostair(pad(eng, st, seg[2]))
    pos = {}
    envs = []

    def f(path, kind, s):
        if kind == 'env':
            envs.append(path)
        for x in s:
            if isinstance(x, int):
                pos.setdefault(x, set()).add((path, kind))
    positions(v, (), f)
    cls = {}
    explicit = set()
    for x, ps in pos.items():
        if x in later and all(k in ('env', 'term') for _, k in ps):
            explicit.add(x)
            continue
        cls.setdefault(frozenset(p for p, _ in ps), set()).add(x)
    for p in envs:
        cls.setdefault(frozenset([p]), set())
    uid = {c: fresh() for c in sorted(cls, key=str)}

    def g(path, kind, s):
        out = set(x for x in s if not isinstance(x, int) or x in explicit)
        for c, u in uid.items():
            if path in c:
                out.add(('$', u))
        return frozenset(out)
    t = map_sets(v, g)
    conts = tuple([(uid[c], frozenset(cls[c])) for c in sorted(cls, key=str)])
    t = mark_counts(st, t, conts)
    return ('*', seg[1], lc(1), conts, t)


def nostair(v, inside=False):
    """Stairs belong to the outermost summary only."""
    k = v[0]
    if k == 'agg':
        return ('agg', v[1], v[2], tuple([nostair(x, inside) for x in v[3]]))
    if k == 'node' and inside and v[3] and v[3][0] == 'stair':
        return ('node', v[1], v[2], ('var', fresh(), 0))
    if k == 'ti' and inside and v[1] == 'stair':
        return ('ti', 'var', fresh(), 0)
    if k == 'sref':
        return ('sref', nostair(v[1], inside)) + v[2:]
    if k == 'iter':
        return ('iter', v[1], nostair(v[2], inside))
    if k == 'seq':
        out = []
        for s in v[1]:
            if s[0] == '1':
                out.append(('1', s[1], nostair(s[2], inside)))
            else:
                n = ('var', fresh(), 0) if s[2][0] == 'stair' else s[2]
                out.append(('*', s[1], n, s[3], nostair(s[4], True)))
        return ('seq', tuple(out))
    return v


def mark_counts(st, t, conts):
    """Integers of the element that count one of its contents which is only covered, not held."""
    cl = classes(t)
    kinds = {}

    def f(path, kind, s):
        kinds[path] = kind
    positions(t, (), f)
    import models
    cand = [(('cnt', u), st.count(c)) for u, c in conts if cl.get(u) and all(kinds.get(p) == 'env' for p in cl[u])]
    cand += [(('len', p, i), n) for p, i, n in models.nested_lengths(t) if n[0] not in ('var', 'cnt', 'stair')]
    if not cand:
        return t

    def rec(v):
        if v[0] == 'i':
            ms = frozenset(m for m, n in cand if st.eq(v[1], n))
            return ('ti', 'is', ms) if ms else v
        if v[0] == 'agg':
            return ('agg', v[1], v[2], tuple([rec(x) for x in v[3]]))
        return v
    return rec(t)


class NoUnify(Exception):
    pass


def unify(eng, st, a, b):
    """Two adjacent summaries as one, or None."""
    try:
        return _unify(eng, st, a, b)
    except NoUnify:
        return None


def _unify(eng, st, a, b):
    na, nb = st.nl(a[2]), st.nl(b[2])
    one_a, one_b = na == lc(1), nb == lc(1)
    ca, cb = classes(a[4]), classes(b[4])
    conta, contb = dict(a[3]), dict(b[3])
    cls = sorted(set(ca.get(u, frozenset()) for u in conta) | set(cb.get(u, frozenset()) for u in contb), key=str)
    uid = {c: fresh() for c in cls}
    conts = []
    amap, bmap = {}, {}
    for c in cls:
        s = set()
        for u, x in conta.items():
            if ca.get(u, frozenset()) == c:
                s |= x
                amap[u] = uid[c]
        for u, x in contb.items():
            if cb.get(u, frozenset()) == c:
                s |= x
                bmap[u] = uid[c]
        conts.append((uid[c], frozenset(s)))
    atoms_b = frozenset(x for _, c in contb.items() for x in c)
    nid = fresh()
    where = {}
    for c in cls:
        for p in c:
            where.setdefault(p, set()).add(('$', uid[c]))

    def sets(path, kind, x, y):
        ex = frozenset(z for z in x if isinstance(z, int))
        ey = frozenset(z for z in y if isinstance(z, int))
        # envelope marks such as the query box are kept when equal
        qx = frozenset(z for z in x if isinstance(z, tuple) and z[0] not in ('$', '>'))
        qy = frozenset(z for z in y if isinstance(z, tuple) and z[0] not in ('$', '>'))
        if qx != qy:
            raise NoUnify()
        gx = any(isinstance(z, tuple) and z[0] == '>' and z[1] == a[1] for z in x)
        gy = any(isinstance(z, tuple) and z[0] == '>' and z[1] == b[1] for z in y)
        base = frozenset(where.get(path, ())) | qx
        if ex == st.norm(atoms_b | ey) and ex != ey and (gx or one_a) and (gy or one_b):
            return base | ey | {('>', nid)}
        if ex and ex == ey and not atoms_b and (gx or one_a) and (gy or one_b):
            return base | ey | {('>', nid)}
        if ex == ey and not gx and not gy:
            return base | ey
        if ex == ey and not (ex & atoms_b) and not atoms_b and (gx or one_a) and (gy or one_b):
            return base | ey | {('>', nid)}
        raise NoUnify()
    import models
    lens = tuple({(p, i): n for p, i, n in models.nested_lengths(s[4])} for s in (a, b))
    t = merge(eng, st, a[4], b[4], (), sets, amap, bmap, conta, contb, na, nb, lens)
    return ('*', nid, st.nl(ladd(na, nb)), tuple(conts), t)


def merge(eng, st, x, y, path, sets, amap, bmap, conta, contb, na, nb, lens=({}, {})):
    """The template of both."""
    def go(x, y, path):
        return merge(eng, st, x, y, path, sets, amap, bmap, conta, contb, na, nb, lens)
    kx, ky = x[0], y[0]
    if kx in ('i', 'ti') and ky in ('i', 'ti'):
        return merge_int(st, x, y, amap, bmap, conta, contb, nb, *lens)
    if kx != ky:
        if kx == 'b' or ky == 'b':
            raise NoUnify()
        raise NoUnify()
    if kx in ('env', 'obj'):
        return (kx, sets(path, kx, x[1], y[1]))
    if kx == 'node':
        if x[1] != y[1]:
            raise NoUnify()
        h = merge_height(eng, st, x[3], y[3], nb)
        return ('node', x[1], sets(path, kx, x[2], y[2]), h)
    if kx == 'agg':
        if x[2] != y[2] or len(x[3]) != len(y[3]) or (x[1] is not None and y[1] is not None and x[1] != y[1]):
            raise NoUnify()
        return ('agg', x[1] if x[1] is not None else y[1], x[2], tuple([go(p, q, path + (i,)) for i, (p, q) in enumerate(zip(x[3], y[3]))]))
    if kx == 'sref':
        if x[2:] != y[2:]:
            raise NoUnify()
        return ('sref', go(x[1], y[1], path + ('*',))) + x[2:]
    if kx == 'iter':
        if x[1] != y[1]:
            raise NoUnify()
        return ('iter', x[1], go(x[2], y[2], path + ('it',)))
    if kx == 'seq':
        return merge_seq(eng, st, x, y, path, sets, na, nb)
    if kx in ('o', 'b'):
        if isinstance(x[1], bool) or isinstance(y[1], bool):
            if x == y:
                return x
            return ('b', ('each', fresh()))
        try:
            return (kx, merge_term(x[1], y[1], path, sets))
        except NoUnify:
            return (kx, ('each', fresh()))
    if x == y:
        return x
    raise NoUnify()


def merge_term(x, y, path, sets):
    if isinstance(x, frozenset) and isinstance(y, frozenset):
        ax = any(isinstance(z, int) or (isinstance(z, tuple) and z and z[0] in ('$', '>')) for z in x)
        ay = any(isinstance(z, int) or (isinstance(z, tuple) and z and z[0] in ('$', '>')) for z in y)
        if ax or ay:
            return sets(path, 'term', x, y)
        if x == y:
            return x
        raise NoUnify()
    if isinstance(x, tuple) and isinstance(y, tuple):
        if x and x[0] == 'each' and y and y[0] == 'each':
            return x
        if len(x) != len(y):
            raise NoUnify()
        return tuple([merge_term(p, q, path + (i,), sets) for i, (p, q) in enumerate(zip(x, y))])
    if x == y:
        return x
    raise NoUnify()


def merge_int(st, x, y, amap, bmap, conta, contb, nb, lensa, lensb):
    if x[0] == 'i' and y[0] == 'i' and st.eq(x[1], y[1]):
        return x

    def markers(v, m, conts, lens, both):
        if v[0] == 'i':
            out = set(('cnt', m[u]) for u in m if u in conts and st.eq(v[1], st.count(conts[u])))
            for k in both:
                n = lens.get(k, lc(0))
                if n[0] not in ('var', 'cnt', 'stair') and st.eq(v[1], n):
                    out.add(('len',) + k)
            return out
        if v[1] == 'is':
            return set(('cnt', m.get(x[1])) if x[0] == 'cnt' else x for x in v[2])
        return set()
    if (x[0] == 'ti' and x[1] == 'is') or (y[0] == 'ti' and y[1] == 'is'):
        both = set(lensa) | set(lensb)
        ms = markers(x, amap, conta, lensa, both) & markers(y, bmap, contb, lensb, both)
        if ms:
            return ('ti', 'is', frozenset(ms))
    lb = min(lower(st, x), lower(st, y))
    return ('ti', 'var', fresh(), lb)


def lower(st, v):
    if v[0] == 'i':
        return 1 if st.ge(ladd(v[1], lc(-1))) else 0
    if v[1] == 'var':
        return v[3]
    return 0


def least(st, h):
    """0 or 1: what no height is less than"""
    if h[0] == 'var':
        return h[2]
    if h[0] == 'cnt':
        return 0
    if h[0] == 'stair':
        h = h[1]
    return 1 if st.ge(ladd(h, lc(-1))) else 0


def merge_height(eng, st, x, y, nb):
    low = min(least(st, x), least(st, y)) if eng.spec and eng.spec.low_heights else 0
    sx, sy = x[0] == 'stair', y[0] == 'stair'
    if x[0] in ('var', 'cnt') or y[0] in ('var', 'cnt'):
        return ('var', fresh(), low)
    if not sx and not sy:
        if st.eq(x, y):
            return x
        if nb == lc(1) and st.eq(x, ladd(y, lc(1))):
            return ('stair', y)
        return ('var', fresh(), low)
    bx = x[1] if sx else x
    by = y[1] if sy else y
    if not sy and nb != lc(1):
        return ('var', fresh(), low)
    if st.eq(bx, ladd(by, nb)):
        return ('stair', by)
    return ('var', fresh(), low)


def merge_seq(eng, st, x, y, path, sets, na, nb):
    """Sequences nested in templates: at most one summary each."""
    xs, ys = x[1], y[1]
    if any(s[0] == '1' for s in xs + ys) or (xs and ys and len(xs) != len(ys)):
        raise NoUnify()
    if len(xs) > 1 or len(ys) > 1:
        for l in (xs, ys):
            if len(l) > 1 and (not eng.spec.lanes or len(l) != len(eng.spec.lanes)):
                raise NoUnify()
    return ('seq', tuple([merge_nested(eng, st, xs[i] if xs else None, ys[i] if ys else None, i, path, sets, na, nb) for i in range(max(len(xs), len(ys)))]))


def merge_nested(eng, st, a, b, i, p, sets, na, nb):
    def conts(s):
        cl = classes(s[4])
        return {cl.get(u, frozenset()): (u, c) for u, c in s[3]}
    if a is None or b is None:
        s = a or b
        cc = conts(s)
        out = []
        for c, (u, st_) in sorted(cc.items(), key=str):
            e = frozenset()
            l, r = (st_, e) if a else (e, st_)
            out.append((u, sets(p + (('c', i, c),), 'many', l, r)))
        return ('*', s[1], ('var', fresh(), 0), tuple(out), one_sided(s[4], bool(a), na, nb))
    ca, cb = conts(a), conts(b)
    cls = sorted(set(ca) | set(cb), key=str)
    uid = {c: fresh() for c in cls}
    out = []
    where = {}
    am, bm = {}, {}
    for c in cls:
        l = ca[c][1] if c in ca else frozenset()
        r = cb[c][1] if c in cb else frozenset()
        if c in ca:
            am[ca[c][0]] = uid[c]
        if c in cb:
            bm[cb[c][0]] = uid[c]
        out.append((uid[c], sets(p + (('c', i, c),), 'many', l, r)))
        for q in c:
            where.setdefault(q, set()).add(('$', uid[c]))

    def inner(q, kind, l, r):
        for z in tuple(l) + tuple(r):
            if isinstance(z, int) or (isinstance(z, tuple) and z[0] == '>'):
                raise NoUnify()
        ql = frozenset(z for z in l if isinstance(z, tuple) and z[0] != '$')
        if ql != frozenset(z for z in r if isinstance(z, tuple) and z[0] != '$'):
            raise NoUnify()
        return frozenset(where.get(q, ())) | ql
    one = ('none',)
    ta, tb = a[4], b[4]
    # nothing there: it may have any height
    if a[2] == lc(0) and b[2] != lc(0):
        t = one_sided(tb, False, na, nb) if same_form(ta, tb) else merge(eng, st, ta, tb, (), inner, am, bm, {}, {}, one, nb)
        t = map_all(t, lambda x: frozenset(('$', bm.get(z[1], z[1])) if isinstance(z, tuple) and z[0] == '$' else z for z in x))
    elif b[2] == lc(0) and a[2] != lc(0):
        t = one_sided(ta, True, na, nb) if same_form(ta, tb) else merge(eng, st, ta, tb, (), inner, am, bm, {}, {}, one, nb)
        t = map_all(t, lambda x: frozenset(('$', am.get(z[1], z[1])) if isinstance(z, tuple) and z[0] == '$' else z for z in x))
    else:
        t = merge(eng, st, ta, tb, (), inner, am, bm, {}, {}, one, nb)
    na, nb = a[2], b[2]
    if na[0] not in ('var', 'cnt', 'stair') and nb[0] not in ('var', 'cnt', 'stair') and st.eq(na, nb):
        n = na
    else:
        lb = min(len_lower(st, na), len_lower(st, nb))
        n = ('var', fresh(), lb)
    return ('*', fresh(), n, tuple(out), t)


def same_form(x, y):
    return x[0] == y[0] == 'node' and x[1] == y[1] and len(x[2]) == len(y[2]) or x[0] == y[0] == 'obj'


def one_sided(t, left, na, nb):
    """The other side has no such element: a height of this side may be that of a stair."""
    def rec(v):
        if v[0] == 'agg':
            return ('agg', v[1], v[2], tuple([rec(x) for x in v[3]]))
        if v[0] == 'node' and v[3]:
            h = v[3]
            if h[0] in ('var', 'cnt'):
                return v
            if h[0] == 'stair':
                return ('node', v[1], v[2], ('stair', lsub(h[1], nb))) if left else v
            if (na if left else nb) == lc(1):
                return ('node', v[1], v[2], ('stair', lsub(h, nb) if left else h))
        return v
    return rec(t)


def len_lower(st, n):
    if n[0] == 'var':
        return n[2]
    if n[0] in ('cnt', 'stair'):
        return 0
    return 1 if st.ge(ladd(n, lc(-1))) else 0


def seg_atoms(s, env=False):
    out = set()
    if s[0] == '*':
        for _, c in s[3]:
            out |= c
    else:
        def f(path, kind, x):
            if env or kind != 'env':
                out.update(z for z in x if isinstance(z, int))
        positions(s[2], (), f)
    return out


def fold(eng, st, segs, held=frozenset(), tag=None, ren=None):
    """Fold adjacent elements.  held: ids that must stay elements; tag(id): only equal tags are folded together."""
    segs = [s for s in segs if s[0] == '1' or not known_zero(st, s)]
    out = []
    later = set()
    laters = []
    for s in reversed(segs):
        laters.append(frozenset(later))
        later |= set(x for x in seg_atoms(s, True) if isinstance(x, int))
    laters.reverse()
    for s, lt in zip(segs, laters):
        if s[1] in held:
            out.append(s)
            continue
        g = generalise(eng, st, s, lt)
        if out and out[-1][0] == '*' and out[-1][1] not in held and (tag is None or tag(out[-1][1]) == tag(s[1])) and apart(eng, st, out[-1]) == apart(eng, st, g):
            m = unify(eng, st, out[-1], g)
            if m is not None:
                if ren is not None:
                    ren[out[-1][1]] = m[1]
                    ren[g[1]] = m[1]
                    if tag is not None:
                        tag.alias(m[1], s[1])
                out[-1] = m
                continue
        out.append(g)
    last = len(out) - 1
    for i, s in enumerate(out):
        if s[0] == '*' and s[4][0] not in ('node', 'obj') and s[2][0] not in ('var', 'cnt', 'stair') and st.nl(s[2]) == lc(1):
            if i == last or s[4][0] != 'agg':
                out[i] = lone(st, s)
            else:
                # below the top there is always a summary, if only of one
                out[i] = s[:4] + (stairs(s[4]),)
    return out


def stairs(v):
    k = v[0]
    if k == 'agg':
        return ('agg', v[1], v[2], tuple([stairs(x) for x in v[3]]))
    if k == 'seq':
        return ('seq', tuple([s[:4] + (stairs(s[4]),) if s[0] == '*' else s for s in v[1]]))
    if k == 'node' and v[3] and v[3][0] not in ('var', 'cnt', 'stair'):
        return ('node', v[1], v[2], ('stair', v[3]))
    return v


def apart(eng, st, s):
    if not eng.spec:
        return None
    r = eng.spec.apart_value(eng, st, s[4] if s[0] == '*' else s[2])
    if r is not None:
        return r
    whole = (s[4] if s[0] == '*' else s[2])[0] != 'agg'
    return eng.spec.apart(eng, st, frozenset(x for x in seg_atoms(s) if isinstance(x, int)), whole)


def lone(st, s):
    """A summary of exactly one element is that element."""
    import models
    return ('1', s[1], models.element(st, s, [(u, st.norm(c)) for u, c in s[3]], lc(0), frozenset()))


def known_zero(st, s):
    n = s[2]
    if n[0] in ('var', 'cnt', 'stair'):
        return False
    n = st.nl(n)
    if n == lc(0) or (n[1] and st.ge(lneg(n))):
        for _, c in s[3]:
            st.vanish(frozenset(x for x in c if isinstance(x, int)))
        return True
    return False


def settle(st, v):
    """Summaries that are known to stand for nothing own nothing."""
    if v[0] == 'agg':
        for x in v[3]:
            settle(st, x)
    elif v[0] == 'iter':
        settle(st, v[2])
    elif v[0] == 'seq':
        for s in v[1]:
            if s[0] == '1':
                settle(st, s[2])
            else:
                known_zero(st, s)


def collapse(eng, st, segs):
    """The sequence in an unknown order."""
    out = fold(eng, st, [tidy_seg(eng, st, s) for s in segs])
    if len(out) > 1:
        raise Undecided('reordering a sequence of different elements')
    for s in out:
        def bad(t):
            return any(isinstance(x, tuple) and x[0] == '>' for x in t)
        hit = []
        positions(s[4], (), lambda p, k, x: hit.append(1) if bad(x) else None)
        if hit:
            raise Undecided('reordering a sequence whose elements depend on their order')
    return out


def tidy_seg(eng, st, s):
    if s[0] == '1':
        return ('1', s[1], tidy(eng, st, s[2]))
    return s


# ------------------------------------------------------------------ closing subtrees
def tidy(eng, st, v, prot=(), tags=(), path=(), ren=None, bare=False):
    """Fold sequences and close subtrees.  prot: paths (relative to v) of live mutable references;
    tags: (path of a sequence, ids) of live mutable iterators."""
    k = v[0]

    def sub(e, x):
        pr = [p[1:] for p in prot if p and p[0] == e]
        tg = [(p[1:], i) for p, i in tags if p and p[0] == e]
        return tidy(eng, st, x, pr, tg, path + (e,), ren, k == 'seq' or (bare and v[1] not in eng.p.enum_ty and k == 'agg'))
    if bare and k == 'node' and v[1] in eng.p.parent_ty:
        # parents held by themselves in a collection are taken apart and put together again: always show their parts
        v = eng.expand(st, v)
        k = v[0]
    if k == 'agg':
        v = ('agg', v[1], v[2], tuple([sub(('f', i), x) for i, x in enumerate(v[3])]))
        if bare and v[1] in eng.p.parent_ty:
            return pad(eng, st, v)
        if not any(p for p in prot) and not tags:
            return close(eng, st, v)
        return v
    if k == 'sref':
        return ('sref', sub('*', v[1])) + v[2:]
    if k == 'iter':
        return ('iter', v[1], tidy(eng, st, v[2]))
    if k == 'seq':
        segs = []
        for s in v[1]:
            if s[0] == '1':
                segs.append(('1', s[1], sub(('s', s[1]), s[2])))
            else:
                segs.append(('*', s[1], s[2], s[3], s[4]))
        held = frozenset(p[0][1] for p in prot if p and p[0][0] == 's')
        tg = _Tag([(n, frozenset(i)) for n, (p, i) in enumerate(tags) if p == ()])
        return ('seq', tuple(fold(eng, st, segs, held, tg, ren if ren is not None else {})))
    return v


class _Tag:
    def __init__(self, its):
        self.its = [(n, set(i)) for n, i in its]

    def __call__(self, id):
        return frozenset(n for n, i in self.its if id in i)

    def alias(self, new, old):
        for _, i in self.its:
            if old in i:
                i.add(new)


def close(eng, st, v):
    """A complete subtree becomes a lazy node."""
    p = eng.p
    ty = v[1]
    if ty in p.enum_ty:
        leaf, par, pty, oty = p.enum_ty[ty]
        if v[2] == leaf and v[3][0][0] == 'obj':
            return ('node', ty, v[3][0][1], lc(0))
        if v[2] == par and v[3][0][0] == 'node':
            return ('node', ty, v[3][0][2], v[3][0][3])
        return v
    if ty in p.parent_ty:
        r = closed(eng, st, v)
        return r[0] if r[0] is not None else v
    return v


def closed(eng, st, v):
    """(lazy node, None) or (None, why not)"""
    p = eng.p
    ty = v[1]
    en = p.parent_ty[ty]
    kids = env = None
    for (fname, ft), x in zip(p.types[ty]['variants'][0]['fields'], v[3]):
        if x[0] == 'seq' and p.is_vec(ft) and p.types[ft]['args'][0] == en:
            kids = x
        elif x[0] == 'env':
            env = st.norm(x[1])
        elif x[0] == 'agg' and not x[3]:
            pass
        else:
            return None, 'field %s is not known' % fname
    if kids is None or env is None:
        return None, 'children or envelope are not known'
    if not kids[1]:
        return None, 'the node has no children'
    all_ = set()
    hs = []
    n = lc(0)
    for s in kids[1]:
        if s[0] == '1':
            if s[2][0] != 'node':
                return None, 'a child is not complete: %s' % describe(eng, st, s[2])
            all_ |= s[2][2]
            hs.append(s[2][3])
            n = ladd(n, lc(1))
        else:
            if s[4][0] != 'node':
                return None, 'a child is not complete: %s' % describe(eng, st, s[4])
            if s[2][0] in ('var', 'cnt', 'stair'):
                return None, 'the number of children is not known'
            for _, c in s[3]:
                all_ |= c
            hs.append(s[4][3])
            n = ladd(n, s[2])
    all_ = st.norm(frozenset(all_))
    if any(h[0] in ('var', 'cnt', 'stair') for h in hs) or any(not st.eq(h, hs[0]) for h in hs[1:]):
        return None, 'the children have different heights'
    if env != all_:
        if env > all_:
            extra = env - all_
            if all(st.ge(lneg(st.count(frozenset([x])))) if isinstance(x, int) else False for x in extra):
                env = all_
            else:
                return None, 'the envelope covers more than the children'
        elif env < all_:
            return None, 'the envelope does not cover all children'
        else:
            return None, 'the envelope is not that of the children'
    if not st.ge(ladd(st.nl(n), lc(-1))):
        return None, 'the node may have no children'
    cap = getattr(eng.spec, 'cap', None)
    if cap is not None and not st.ge(lsub(la(cap), st.nl(n))):
        return None, 'the node may have more children than the maximum'
    over = getattr(eng.spec, 'over', None)
    if over is not None and st.ge(ladd(lsub(st.nl(n), la(over)), lc(-1))):
        return None, 'the node is about to be split'
    return ('node', ty, all_, st.nl(ladd(hs[0], lc(1)))), None


def models_length(st, v):
    import models
    return models.length(st, v)


def why_open(eng, st, v):
    """Why a (folded) parent is not a complete subtree, looking for the innermost reason."""
    return closed(eng, st, v)[1] or '?'


def describe(eng, st, v):
    if v[0] == 'agg' and v[1] in eng.p.enum_ty and v[3] and v[3][0][0] == 'agg' and v[3][0][1] in eng.p.parent_ty:
        return closed(eng, st, v[3][0])[1] or '?'
    return v[0]


# ------------------------------------------------------------------ the canonical form
def live_locals(p, st, mutable=False):
    """Per frame: the locals that are still needed (and the first argument, if it is looked at in the end)."""
    out = []
    n = len(st.frames)
    for d, f in enumerate(st.frames):
        live = p.liveness(f.fn)
        bl = p.fns[f.fn]['blocks']
        if d == n - 1:
            if f.phase:
                t = bl[f.bb]['t']
                s = set(live[t['t']])
                s.add(t['p'][0])
            else:
                s = set(live[f.bb])
        else:
            c = st.frames[d + 1]
            if c.mark == 'stay':
                t = bl[f.bb]['t']
                s = set()
                for q in p.succs(t):
                    s |= live[q]
                if t['k'] == 'drop':
                    s.add(t['p'][0])
            else:
                s = set(live[c.target]) if c.target is not None else set()
                if c.dst is not None:
                    al, pa = c.dst
                    if al == ('L', d, al[2] if len(al) > 2 else -1) and pa == ():
                        s.discard(al[2])
        if mutable and d == 0:
            s = s | {1}
        out.append(s)
    return out


def refs_of(v, f):
    """f(kind, alloc, path, ids) for every reference held by v."""
    k = v[0]
    if k == 'mref':
        f('ref', v[1], v[2], None)
    elif k == 'miter' or k == 'mslice':
        f('iter', v[1], v[2], v[3])
    elif k == 'agg':
        for x in v[3]:
            refs_of(x, f)
    elif k == 'sref':
        refs_of(v[1], f)
    elif k == 'iter':
        refs_of(v[2], f)
    elif k == 'seq':
        for s in v[1]:
            refs_of(s[2] if s[0] == '1' else s[4], f)
    elif k == 'box':
        f('ref', v[1], (), None)


def freeze(eng, st, v, inseq=False):
    """References held in sequences: their targets are fixed while they are held."""
    k = v[0]
    if k == 'mref' and inseq:
        t = eng.get(st, v[1], v[2])
        return ('sref', freeze(eng, st, t, True), 'frozen')
    if k == 'miter' and inseq:
        t = eng.get(st, v[1], v[2])
        return ('iter', 'frozen', ('seq', tuple(s for s in t[1] if s[1] in v[3])))
    if k == 'agg':
        fs = tuple([freeze(eng, st, x, inseq) for x in v[3]])
        return ('agg', v[1], v[2], fs)
    if k == 'sref':
        return ('sref', freeze(eng, st, v[1], inseq)) + v[2:]
    if k == 'iter':
        return ('iter', v[1], freeze(eng, st, v[2], True))
    if k == 'seq':
        if all(s[0] == '*' or s[2][0] in ('node', 'obj', 'i') for s in v[1]):
            return v
        return ('seq', tuple([('1', s[1], freeze(eng, st, s[2], True)) if s[0] == '1' else s for s in v[1]]))
    return v


def stable_term(eng, t):
    """Terms that need no generalisation: built from constants and the user's arguments."""
    if isinstance(t, (str, bool)):
        return True
    if isinstance(t, int):
        return False
    if isinstance(t, tuple):
        if t and t[0] == 'q':
            return True
        if t and t[0] in ('each', 'any', 'choice', 'pt', 'ub'):
            return False
        if t and t[0] == 'int':
            return not t[1][1]
        if t and t[0] in ('const', 'sym', 'str'):
            return True
        return all(stable_term(eng, x) for x in t) and depth(t) < 6
    if isinstance(t, frozenset):
        return all(stable_term(eng, x) for x in t)
    return False


def depth(t):
    if isinstance(t, (tuple, frozenset)):
        return 1 + max([depth(x) for x in t], default=0)
    return 0


def holds_object(v):
    return v[0] in ('node', 'obj') or (v[0] == 'sref' and holds_object(v[1])) or (v[0] == 'agg' and any(holds_object(x) for x in v[3]))


def forget_terms(eng, st, v, beside=False):
    """Opaque values that the specification does not follow become unknown."""
    k = v[0]
    if k == 'o':
        r = eng.spec.other_term(eng, st, v[1], beside) if eng.spec else None
        if r is not None:
            return ('o', r)
        if stable_term(eng, v[1]) or (eng.spec and eng.spec.keep_term(eng, st, v[1])):
            return v
        if v[1] and isinstance(v[1], tuple) and v[1][0] == 'each':
            return v
        return ('o', ('any', fresh()))
    if k == 'b' and not isinstance(v[1], bool):
        if stable_term(eng, v[1]):
            return v
        if v[1][0] == 'each':
            return v
        return ('b', ('any', fresh()))
    if k == 'agg':
        beside = any(x[0] == 'sref' and holds_object(x[1]) for x in v[3])
        return ('agg', v[1], v[2], tuple([forget_terms(eng, st, x, beside) for x in v[3]]))
    if k == 'sref':
        return ('sref', forget_terms(eng, st, v[1])) + v[2:]
    if k == 'iter':
        return ('iter', v[1], forget_terms(eng, st, v[2]))
    if k == 'seq':
        return ('seq', tuple([('1', s[1], forget_terms(eng, st, s[2])) if s[0] == '1' else s for s in v[1]]))
    return v


class Shape:
    """What the states of one skeleton have in common: marker kinds and atom classes."""

    def __init__(self):
        self.marks = None
        self.sigs = {}

    def absorb(self, marks, sigs):
        """-> did it change?"""
        ch = False
        if self.marks is None:
            self.marks = list(marks)
            ch = True
        else:
            for i, (a, b) in enumerate(zip(self.marks, marks)):
                if a[0] == 'var' and b[0] == 'var' or a == b:
                    if b[1] < a[1]:
                        self.marks[i] = ('var', b[1])
                        ch = True
                elif a[0] == b[0] == 'is' and a[2] & b[2]:
                    if a[2] - b[2]:
                        self.marks[i] = ('is', 0, a[2] & b[2])
                        ch = True
                elif a[0] == 'var' or a[0] == b[0] == 'L':
                    if b[1] < a[1]:
                        self.marks[i] = (a[0], b[1])
                        ch = True
                else:
                    self.marks[i] = ('var', min(a[1], b[1]))
                    ch = True
        for s in sigs:
            if s not in self.sigs:
                self.sigs[s] = True
                ch = True
        return ch


class Canon:
    """The canonical form of a state: a skeleton, a state whose integers are slots, and the values of the slots."""

    def __init__(self, eng, st, roots=None):
        self.eng = eng
        self.st = st
        self.p = eng.p
        self.roots = roots
        st.clean_facts()
        self.zeros()
        self.collect()
        self.shape()
        self.survey()

    # -- the skeleton
    def survey(self):
        st, eng = self.st, self.eng
        self.sigs = self.signatures()
        self.marks = []
        segn, uidn, alln = {}, {}, {}
        self.uidn = uidn
        nuid = [0]
        for a in self.order:
            if a[0] == 'H':
                alln[a] = len(alln)

        def num(d, x):
            if x not in d:
                nuid[0] += 1
                d[x] = nuid[0]
            return d[x]

        def sset(s):
            out = set()
            for x in s:
                if isinstance(x, int):
                    continue
                if x[0] == '$':
                    out.add(('$', num(uidn, x[1])))
                elif x[0] == '>':
                    out.add(('>', num(segn, x[1])))
                else:
                    out.add(x)
            return frozenset(out)

        def term(t):
            if isinstance(t, frozenset):
                if any(isinstance(x, int) for x in t) or any(isinstance(x, tuple) and x and x[0] in ('$', '>') for x in t):
                    return sset(t)
                return frozenset(term(x) for x in t)
            if isinstance(t, tuple):
                if t and t[0] in ('any', 'each', 'choice', 'pt', 'ub') and len(t) == 2:
                    return (t[0], num(uidn, ('any', t[1])))
                return tuple(term(x) for x in t)
            return t

        def pth(p):
            return tuple([('s', num(segn, e[1])) if isinstance(e, tuple) and e[0] == 's' else e for e in p])

        def hint(h, intmpl):
            if h is None:
                return None
            if intmpl:
                self.marks.append(self.mark(h, uidn))
                return 'm'
            return 'L'

        def val(v, tm):
            k = v[0]
            if k == 'i':
                if tm:
                    self.marks.append(self.mark(v[1], uidn))
                    return 'm'
                # a value that stands for 'none of them' is never joined with an ordinary one
                return 'i' if v[1][1] or abs(v[1][0]) < BIG else v
            if k == 'ti':
                self.marks.append(self.mark(v[1:], uidn))
                return 'm'
            if k == 'o' or k == 'b':
                return v if isinstance(v[1], bool) else (k, term(v[1]))
            if k in ('env', 'obj'):
                return (k, sset(v[1]))
            if k == 'agg':
                return ('agg', v[1], v[2], tuple([val(x, tm) for x in v[3]]))
            if k == 'node':
                return ('node', v[1], sset(v[2]), hint(v[3], tm))
            if k == 'seq':
                out = []
                for s in v[1]:
                    if s[0] == '1':
                        out.append(('1', num(segn, s[1]), val(s[2], tm), None if tm else apart(eng, st, s)))
                    else:
                        n = hint(s[2], tm)
                        outer = [sset(c) for u, c in s[3]]
                        for u, c in s[3]:
                            nuid[0] += 1
                            uidn[u] = nuid[0]
                        out.append(('*', num(segn, s[1]), n, tuple([(uidn[u], c) for (u, _), c in zip(s[3], outer)]), val(s[4], True), None if tm else apart(eng, st, s)))
                return ('seq', tuple(out))
            if k == 'sref':
                return ('sref', val(v[1], tm)) + v[2:]
            if k == 'mref':
                return ('mref', alln.get(v[1], v[1]), pth(v[2]))
            if k in ('miter', 'mslice'):
                return (k, alln.get(v[1], v[1]), pth(v[2]), tuple(num(segn, i) for i in v[3]))
            if k == 'iter':
                return ('iter', v[1], val(v[2], tm))
            if k == 'box':
                return ('box', alln.get(v[1], v[1]))
            return v
        store = tuple((alln.get(a, a), val(st.store[a], False)) for a in self.order)
        frames = tuple((f.fn, f.bb, None if f.dst is None else (alln.get(f.dst[0], f.dst[0]), pth(f.dst[1])), f.target, f.phase, f.mark) for f in st.frames)
        split = eng.spec.split_ghosts if eng.spec else ()
        gs = tuple(g for g in split if st.gh.get(g))
        self.skel = (frames, store, gs, len(st.meta.get('entry', ())), tuple(sorted(st.gnum())), st.meta.get('tag'))
        single = tuple(sorted(s for s in self.sigs if any(g[0] == '!' for g in s[1])))
        if single:
            self.skel += (single,)      # where the objects are that are followed one by one

    def mark(self, h, uidn):
        if h[0] == 'var':
            return ('var', h[2])
        if h[0] == 'cnt':
            return ('cnt', 0, uidn.get(h[1]))
        if h[0] == 'is':
            return ('is', 0, frozenset(('cnt', uidn.get(m[1])) if m[0] == 'cnt' else m for m in h[1]))
        if h[0] == 'stair':
            return ('stair', 0)
        return ('L', 1 if self.st.ge(ladd(h, lc(-1))) else 0)

    def signatures(self):
        st, eng = self.st, self.eng
        sig = {}
        for i, a in enumerate(self.order):
            def at(path, kind, s):
                for x in s:
                    if isinstance(x, int):
                        sig.setdefault(x, []).append((i, path))
            positions(st.store[a], (), at)
        ghosts = sorted(st.gh)
        for g in ghosts:
            st.gh[g] = st.norm(st.gh[g])
            for x in st.gh[g]:
                sig.setdefault(x, [])
        extra = eng.spec.atom_sig(eng, st, sig) if eng.spec else {}
        out = {}
        for x, ps in sig.items():
            out.setdefault((tuple(ps), tuple(g for g in ghosts if x in st.gh[g]), extra.get(x)), []).append(x)
        return out

    def conform(self, shape):
        """Take the shape of all states with this skeleton."""
        st = self.st
        it = iter(zip(self.marks, shape.marks))

        def weak(h):
            m, w = next(it)
            if w[0] == 'is' and m[0] == 'is':
                return ('is', frozenset(z for z in h[1] if (('cnt', self.uidn.get(z[1])) if z[0] == 'cnt' else z) in w[2]))
            if w[0] == 'var' and not (m[0] == 'var' and m[1] == w[1]):
                return ('var', fresh(), w[1])
            return h

        def val(v, tm):
            k = v[0]
            if k == 'i':
                if tm:
                    r = weak(v[1])
                    return ('ti',) + r if r[0] in ('var', 'is') else v
                return v
            if k == 'ti':
                r = weak(v[1:])
                return ('ti',) + r
            if k == 'agg':
                return ('agg', v[1], v[2], tuple([val(x, tm) for x in v[3]]))
            if k == 'node':
                return ('node', v[1], v[2], weak(v[3]) if tm and v[3] is not None else v[3])
            if k == 'seq':
                out = []
                for s in v[1]:
                    if s[0] == '1':
                        out.append(('1', s[1], val(s[2], tm)))
                    else:
                        n = weak(s[2]) if tm else s[2]
                        out.append(('*', s[1], n, s[3], val(s[4], True)))
                return ('seq', tuple(out))
            if k == 'sref':
                return ('sref', val(v[1], tm)) + v[2:]
            if k == 'iter':
                return ('iter', v[1], val(v[2], tm))
            return v
        if list(self.marks) != list(shape.marks):
            for a in self.order:
                st.store[a] = val(st.store[a], False)
        missing = [s for s in shape.sigs if s not in self.sigs]
        if missing:
            add = {}
            for s in missing:
                x = fresh()
                st.cnt[x] = lc(0)
                for p in s[0]:
                    add.setdefault(p, set()).add(x)
                for g in s[1]:
                    st.gh[g] = st.gh.get(g, frozenset()) | {x}
            for i, a in enumerate(self.order):
                def fn(path, kind, s):
                    e = add.get((i, path))
                    return s | e if e else s
                st.store[a] = map_sets(st.store[a], fn)
            self.sigs = self.signatures()
            if set(self.sigs) != set(shape.sigs):
                raise Undecided('states that cannot be joined')
        self.number()

    def zeros(self):
        """Contents that must be empty do not exist."""
        st = self.st
        seen = set()
        for g in st.gh.values():
            seen |= st.norm(g)
        for x in sorted(x for x in seen if isinstance(x, int)):
            c = st.count(frozenset([x]))
            if st.ge(lneg(c)):
                st.vanish(frozenset([x]))
        for g in list(st.gh):
            st.gh[g] = st.norm(st.gh[g])

    # -- which values matter
    def collect(self):
        st, eng = self.st, self.eng
        order = []
        seen = set()
        if self.roots is not None:
            order = list(self.roots)
        else:
            for d, s in enumerate(live_locals(self.p, st, getattr(self.eng.spec, 'mutable', False))):
                for l in sorted(s):
                    a = ('L', d, l)
                    if a in st.store and st.store[a] != UNDEF:
                        order.append(a)
            for f in st.frames:
                if f.dst is not None and (f.dst[1] != () or f.dst[0][0] == 'H'):
                    if f.dst[0] in st.store:
                        order.append(f.dst[0])
        order += list(st.meta.get('keep', ()))
        seen = set()
        i = 0
        full = []
        work = list(order)
        while i < len(work):
            a = work[i]
            i += 1
            if a in seen:
                continue
            seen.add(a)
            if a not in st.store:
                continue
            v = self.clean(st.store[a])
            st.store[a] = v
            full.append(a)
            refs_of(v, lambda k, al, pa, ids: work.append(al))
        self.order = full
        for a in list(st.store):
            if a not in seen:
                del st.store[a]

    def clean(self, v):
        return Canon.clean_value(self.eng, self.st, v)

    @staticmethod
    def clean_value(eng, st, v):

        def fs(s):
            return st.norm(s)

        def fo(t):
            return st.nterm(t)
        v = vmap(v, fs, st.nl, fo)
        v = freeze(eng, st, v)
        return forget_terms(eng, st, v)

    def unshare(self, prot, tags):
        """No two elements have the same name."""
        seen = set()
        st = self.st

        def rec(v, pr, tg):
            k = v[0]
            if k == 'agg':
                return ('agg', v[1], v[2], tuple([rec(x, [p[1:] for p in pr if p and p[0] == ('f', i)], [(p[1:], j) for p, j in tg if p and p[0] == ('f', i)]) for i, x in enumerate(v[3])]))
            if k == 'sref':
                return ('sref', rec(v[1], (), ())) + v[2:]
            if k == 'iter':
                return ('iter', v[1], rec(v[2], (), ()))
            if k != 'seq':
                return v
            out = []
            keep = set(p[0][1] for p in pr if p and isinstance(p[0], tuple) and p[0][0] == 's')
            for p, j in tg:
                if p == ():
                    keep |= set(j)
                elif isinstance(p[0], tuple) and p[0][0] == 's':
                    keep.add(p[0][1])
            for s in v[1]:
                i = s[1]
                if i in seen and i not in keep:
                    i = fresh()
                seen.add(i)
                if s[0] == '1':
                    out.append(('1', i, rec(s[2], [p[1:] for p in pr if p and p[0] == ('s', s[1])], [(p[1:], j) for p, j in tg if p and p[0] == ('s', s[1])])))
                else:
                    t = rec(s[4], (), ())
                    if i != s[1]:
                        def fs(x):
                            return frozenset(('>', i) if z == ('>', s[1]) else z for z in x)
                        t = map_all(t, fs)
                    out.append(('*', i, s[2], s[3], t))
            return ('seq', tuple(out))
        for a in self.order:
            st.store[a] = rec(st.store[a], prot.get(a, []), tags.get(a, []))

    # -- fold and close
    def shape(self):
        st, eng = self.st, self.eng
        prot, tags = {}, {}

        def note(k, al, pa, ids):
            if k == 'ref':
                prot.setdefault(al, []).append(pa)
            else:
                tags.setdefault(al, []).append((pa, ids))
        for a in self.order:
            refs_of(st.store[a], note)
        for f in st.frames:
            if f.dst is not None and f.dst[1] != ():
                prot.setdefault(f.dst[0], []).append(f.dst[1])
        ren = {}
        self.unshare(prot, tags)
        for a in self.order:
            v = tidy(eng, st, st.store[a], prot.get(a, []), tags.get(a, []), (), ren)
            st.store[a] = v

        # identities of folded segments, in iterators
        def final(i):
            while i in ren:
                i = ren[i]
            return i

        def fix(v):
            k = v[0]
            if k in ('miter', 'mslice'):
                t = eng.get(st, v[1], v[2])
                have = set(s[1] for s in t[1])
                ids = []
                for i in v[3]:
                    i = final(i)
                    if i in have and i not in ids:
                        ids.append(i)
                return (k, v[1], v[2], tuple(ids))
            if k == 'agg':
                return ('agg', v[1], v[2], tuple([fix(x) for x in v[3]]))
            if k == 'sref':
                return ('sref', fix(v[1])) + v[2:]
            return v
        for a in self.order:
            st.store[a] = fix(vmap(st.store[a], st.norm, st.nl, st.nterm))

    # -- numbering
    def number(self):
        st, eng = self.st, self.eng
        cls = self.sigs
        order = sorted(cls, key=str)
        ghosts = sorted(st.gh)
        self.members = {}
        rep = {}
        num = {}
        for i, c in enumerate(order):
            n = i + 1
            self.members[n] = frozenset(cls[c])
            for x in cls[c]:
                num[x] = n
        self.num = num
        natoms = len(order)
        if natoms >= 500:
            raise Undecided('too many kinds of objects')
        ctr = [500]

        def new():
            ctr[0] += 1
            return ctr[0]
        segn, uidn, alln, anyn = {}, {}, {}, {}
        for a in self.order:
            if a[0] == 'H':
                alln[a] = ('H', new())

        def seg(i):
            if i not in segn:
                segn[i] = new()
            return segn[i]

        def uid(i):
            if i not in uidn:
                uidn[i] = new()
            return uidn[i]

        def anyid(i):
            if i not in anyn:
                anyn[i] = new()
            return anyn[i]
        slots = []

        def slot(L):
            slots.append(L)
            return la(('s', len(slots) - 1))

        def cset(s):
            out = set()
            for x in s:
                if isinstance(x, int):
                    out.add(num[x])
                elif x[0] == '$':
                    out.add(('$', uid(x[1])))
                elif x[0] == '>':
                    out.add(('>', seg(x[1])))
                else:
                    out.add(x)
            return frozenset(out)

        def hint(h):
            if h is None:
                return None
            if h[0] == 'stair':
                return ('stair', slot(h[1]))
            if h[0] == 'var':
                return ('var', uid(h[1]), h[2])
            if h[0] == 'cnt':
                return ('cnt', uid(h[1]))
            if h[0] == 'is':
                return ('is', frozenset(('cnt', uid(m[1])) if m[0] == 'cnt' else m for m in h[1]))
            return slot(h)

        def term(t):
            if isinstance(t, frozenset):
                if any(isinstance(x, int) for x in t) or any(isinstance(x, tuple) and x and x[0] in ('$', '>') for x in t):
                    return cset(t)
                return frozenset(term(x) for x in t)
            if isinstance(t, tuple):
                if t and t[0] in ('any', 'each', 'choice', 'pt', 'ub') and len(t) == 2:
                    return (t[0], anyid(t[1]))
                if t and t[0] == 'int':
                    return t
                return tuple(term(x) for x in t)
            return t

        def pth(p):
            return tuple([('s', seg(e[1])) if isinstance(e, tuple) and e[0] == 's' else e for e in p])

        def alloc(a):
            return alln.get(a, a)

        def val(v):
            k = v[0]
            if k == 'i':
                return ('i', slot(v[1]))
            if k == 'o' or k == 'b':
                return v if isinstance(v[1], bool) else (k, term(v[1]))
            if k in ('env', 'obj'):
                return (k, cset(v[1]))
            if k == 'agg':
                return ('agg', v[1], v[2], tuple([val(x) for x in v[3]]))
            if k == 'node':
                return ('node', v[1], cset(v[2]), hint(v[3]))
            if k == 'ti':
                return ('ti',) + hint(v[1:])
            if k == 'seq':
                out = []
                for s in v[1]:
                    if s[0] == '1':
                        out.append(('1', seg(s[1]), val(s[2])))
                    else:
                        out.append(('*', seg(s[1]), hint(s[2]), tuple([(uid(u), cset(c)) for u, c in s[3]]), val(s[4])))
                return ('seq', tuple(out))
            if k == 'sref':
                return ('sref', val(v[1])) + v[2:]
            if k == 'mref':
                return ('mref', alloc(v[1]), pth(v[2]))
            if k in ('miter', 'mslice'):
                return (k, alloc(v[1]), pth(v[2]), tuple(seg(i) for i in v[3]))
            if k == 'iter':
                return ('iter', v[1], val(v[2]))
            if k == 'box':
                return ('box', alloc(v[1]))
            return v
        t = State()
        # parameters of the analysis come first, so that they stay what they are
        self.nparams = 0
        pars = sorted(set(x for L in self.all_lins() for x, _ in L[1] if x[0] == 'p'), key=str)
        self.pars = eng.spec.params(eng) if eng.spec else []
        for q in self.pars:
            slot(la(q))
        self.nparams = len(slots)
        t.meta['entry'] = tuple(slot(st.nl(L)) for L in st.meta.get('entry', ()))
        self.nentry = len(slots) - self.nparams
        for a in self.order:
            t.store[alloc(a)] = val(st.store[a])
        cntslot = {}
        for i in range(1, natoms + 1):
            t.cnt[i] = slot(st.count(self.members[i]))
        for g in ghosts:
            s = frozenset(num[x] for x in st.gh[g])
            if s:
                t.gh[g] = s
        bf = {}
        for k, v in st.bf.items():
            r = self.fact(k, num, anyn)
            if r is not None and (eng.spec is None or eng.spec.keep_fact(eng, st, k)):
                bf[term(r)] = v
        for k, v in st.gnum().items():
            t.meta[k] = slot(v)
        t.bf = bf
        t.frames = [Frame(f.fn, f.bb, None if f.dst is None else (alloc(f.dst[0]), pth(f.dst[1])), f.target, f.phase, f.mark) for f in st.frames]
        if 'tag' in st.meta:
            t.meta['tag'] = st.meta['tag']
        if 'keep' in st.meta:
            t.meta['keep'] = tuple(alloc(a) for a in st.meta['keep'])
        t.ctr = ctr[0]
        self.tmpl = t
        self.slots = [st.nl(L) for L in slots]
        self.nents = natoms

    def all_lins(self):
        return ()

    def fact(self, k, num, anyn):
        """A fact survives if it speaks about whole classes and live symbols only."""
        def rec(t):
            if isinstance(t, frozenset):
                ats = [x for x in t if isinstance(x, int)]
                if ats:
                    for x in ats:
                        if x not in num:
                            return None
                        if not self.members[num[x]] <= t:
                            return None
                    return t
                out = []
                for x in t:
                    r = rec(x)
                    if r is None:
                        return None
                    out.append(r)
                return frozenset(out)
            if isinstance(t, tuple):
                if t and t[0] in ('any', 'each', 'choice', 'pt', 'ub') and len(t) == 2:
                    return t if t[1] in anyn else None
                out = []
                for x in t:
                    if isinstance(x, (tuple, frozenset)):
                        r = rec(x)
                        if r is None:
                            return None
                        out.append(r)
                    else:
                        out.append(x)
                return tuple(out)
            return t
        return rec(k)


def structural(st, v, out):
    """Facts about sizes that hold in every value: (L >= 0)."""
    k = v[0]
    if k == 'agg':
        for x in v[3]:
            structural(st, x, out)
    elif k == 'node':
        if all(isinstance(x, int) for x in v[2]):
            out.append(ladd(st.count(v[2]), lc(-1)))
        if v[3] and v[3][0] not in ('var', 'cnt', 'stair'):
            out.append(v[3])
    elif k == 'sref':
        structural(st, v[1], out)
    elif k == 'iter':
        structural(st, v[2], out)
    elif k == 'seq':
        import models
        for s in v[1]:
            if s[0] == '1':
                structural(st, s[2], out)
            elif s[2][0] not in ('var', 'cnt', 'stair'):
                out.append(s[2])
                objs, nodes = models.tmpl_positions(s[4])
                for u, c in s[3]:
                    if (u in objs or u in nodes) and all(isinstance(x, int) for x in c):
                        n = lsub(st.count(c), s[2])
                        ph = [x for x in set_of(s[4], u)]
                        if len(ph) == 1:
                            out.append(n)
                            if u in objs:
                                out.append(lneg(n))


def set_of(tmpl, u):
    """The sets in holding position that contain placeholder u: usable only if it is alone there."""
    out = []

    def f(path, kind, s):
        if kind in ('obj', 'node') and ('$', u) in s and len([x for x in s if isinstance(x, tuple) and x[0] == '$']) == 1:
            out.append(s)
    positions(tmpl, (), f)
    return out
