"""Library functions and the opaque user operations, over the abstract domain."""
import re
import arith
from absint import *

PUSHED = object()


# ------------------------------------------------------------------ sequences
def length(st, v):
    if v[0] == 'agg':
        return lc(len(v[3]))
    if v[0] != 'seq':
        raise Undecided('length of %s' % v[0])
    n = lc(0)
    for s in v[1]:
        n = ladd(n, lc(1) if s[0] == '1' else s[2])
    return st.nl(n)


def tsub(v, cm, im, explicit=None):
    """Instantiate a template: cm maps placeholder -> set of atoms, im maps int markers -> Lin."""
    def fs(s):
        out = set()
        hit = False
        for x in s:
            if isinstance(x, tuple) and x in cm:
                out |= cm[x]
                hit = True
            else:
                out.add(x)
        return frozenset(out) if hit else s

    def fi(L):
        return L

    def rec(v):
        k = v[0]
        if k in ('env', 'obj'):
            return (k, fs(v[1]))
        if k == 'agg':
            return ('agg', v[1], v[2], tuple([rec(x) for x in v[3]]))
        if k == 'node':
            return ('node', v[1], fs(v[2]), ih(v[3]))
        if k == 'seq':
            return ('seq', tuple([rseg(s) for s in v[1]]))
        if k == 'sref':
            return ('sref', rec(v[1])) + v[2:]
        if k == 'iter':
            return ('iter', v[1], rec(v[2]))
        if k == 'ti':
            r = im(v[1:])
            return ('i', r) if r is not None else v
        if k == 'o':
            return ('o', rterm(v[1]))
        if k == 'b' and not isinstance(v[1], bool):
            return ('b', rterm(v[1]))
        return v

    def ih(h):
        if h is None or h[0] not in ('var', 'cnt', 'stair'):
            return h
        r = im(h)
        return r if r is not None else h

    def rterm(t):
        if isinstance(t, frozenset):
            return fs(t)
        if isinstance(t, tuple):
            return tuple([rterm(x) for x in t])
        return t

    def rseg(s):
        if s[0] == '1':
            return ('1', s[1], rec(s[2]))
        n = s[2]
        if n[0] in ('var', 'cnt', 'stair'):
            r = im(n)
            n = r if r is not None else n
        return ('*', s[1], n, tuple([(u, fs(c)) for u, c in s[3]]), rec(s[4]))
    return rec(v)


def tmpl_positions(tmpl):
    """uids in object position, uids in node position"""
    objs, nodes = set(), set()

    def rec(v):
        k = v[0]
        if k == 'obj':
            if len(v[1]) == 1:
                objs.update(x[1] for x in v[1] if isinstance(x, tuple) and x[0] == '$')
        elif k == 'node':
            nodes.update(x[1] for x in v[2] if isinstance(x, tuple) and x[0] == '$')
        elif k == 'agg':
            for x in v[3]:
                rec(x)
        elif k in ('sref',):
            rec(v[1])
    rec(tmpl)
    return objs, nodes


def single(st, a, b):
    """Objects that are followed one by one: which part are they in?"""
    if any(g[0] == '!' and a in A for g, A in st.gh.items()):
        st.vanish([b if st.decide_ge(ladd(st.cnt[a], lc(-1))) else a])


def split_contents(st, seg, k):
    """Split the contents of a summary segment in a first part of k elements and a rest."""
    _, sid, n, contents, tmpl = seg
    objs, nodes = tmpl_positions(tmpl)
    left, right = [], []
    rest_n = st.nl(lsub(n, k))
    for u, A in contents:
        A = st.norm(A)
        l, r = set(), set()
        atoms = sorted(x for x in A if isinstance(x, int))
        if u in objs and len(atoms) == 1:
            a, b = st.split_atom(atoms[0], k)
            l.add(a)
            r.add(b)
        else:
            for x in atoms:
                a, b = st.split_atom(x, None)
                l.add(a)
                r.add(b)
                single(st, a, b)
            if u in objs:
                if atoms:
                    st.assume_eq(lsub(st.count(l), k))
            if u in nodes:
                st.assume_ge(lsub(st.count(l), k))
        if u in nodes or u in objs:
            st.assume_ge(lsub(st.count(r), rest_n))
        left.append((u, frozenset(l)))
        right.append((u, frozenset(r)))
    return left, right


def stair_map(off):
    def im(h):
        if h[0] == 'stair':
            return ('stair', ladd(h[1], off))
        return None
    return im


def shift_stair(tmpl, off):
    def rec(v):
        k = v[0]
        if k == 'agg':
            return ('agg', v[1], v[2], tuple([rec(x) for x in v[3]]))
        if k == 'node':
            h = v[3]
            return ('node', v[1], v[2], ('stair', ladd(h[1], off)) if h and h[0] == 'stair' else h)
        if k == 'seq':
            return ('seq', tuple([s if s[0] == '1' else ('*', s[1], sh(s[2]), s[3], rec(s[4])) for s in v[1]]))
        if k == 'sref':
            return ('sref', rec(v[1])) + v[2:]
        if k == 'ti' and v[1] == 'stair':
            return ('ti', 'stair', ladd(v[2], off))
        return v

    def sh(n):
        return ('stair', ladd(n[1], off)) if n[0] == 'stair' else n
    return rec(tmpl)


def element(st, seg, parts, stair_off, later):
    """Instantiate one element of a summary with the given contents."""
    cm = {('$', u): c for u, c in parts}
    cm[('>', seg[1])] = later
    vs = {}
    pc = dict(parts)

    def im(h):
        if h[0] == 'var':
            if h[1] not in vs:
                n = la(('n', fresh()))
                vs[h[1]] = n
                if h[2]:
                    st.assume_ge(ladd(n, lc(-h[2])))
            return vs[h[1]]
        if h[0] == 'cnt':
            return st.count(pc.get(h[1], frozenset()))
        if h[0] == 'is':
            ns = [st.count(pc.get(m[1], frozenset())) if m[0] == 'cnt' else lens.get(m[1:], lc(0)) for m in sorted(h[1], key=str)]
            for n in ns[1:]:
                st.assume_eq(lsub(ns[0], n))
            return st.nl(ns[0])
        if h[0] == 'stair':
            return st.nl(ladd(h[1], stair_off))
        return None
    lens = {}
    for s in nested(seg[4]):
        if s[2][0] == 'var' and s[4][0] in ('node', 'obj'):
            # subtrees are not empty
            if not any(cm.get(x, (x,)) for _, c in s[3] for x in c):
                vs[s[2][1]] = lc(0)
    for path, i, n in nested_lengths(seg[4]):
        lens[(path, i)] = im(n) if n[0] in ('var', 'cnt', 'stair') else n
    return tsub(seg[4], cm, im)


def nested(v):
    if v[0] == 'agg':
        for x in v[3]:
            yield from nested(x)
    elif v[0] == 'seq':
        for s in v[1]:
            if s[0] == '*':
                yield s


def nested_lengths(v, path=()):
    """The lengths of the summaries in the sequences of an element."""
    if v[0] == 'agg':
        for i, x in enumerate(v[3]):
            yield from nested_lengths(x, path + (i,))
    elif v[0] == 'seq':
        for i, s in enumerate(v[1]):
            yield path, i, (lc(1) if s[0] == '1' else s[2])
        for i in range(len(v[1]), 2):
            yield path, i, lc(0)


def all_atoms(parts):
    s = set()
    for _, c in parts:
        s |= c
    return frozenset(s)


def add_explicit(tmpl, segid, atoms):
    if not atoms:
        return tmpl
    return tsub(tmpl, {('>', segid): frozenset([('>', segid)]) | atoms}, lambda h: None)


def split_many(st, seg, k):
    """Many(n) -> Many(k), Many(n-k)"""
    l, r = split_contents(st, seg, k)
    rn = st.nl(lsub(seg[2], k))
    rid = fresh()
    left = ('*', seg[1], k, tuple(l), shift_stair(add_explicit(seg[4], seg[1], all_atoms(r)), rn))
    right = retag(('*', seg[1], rn, tuple(r), seg[4]), rid)
    return left, right


def retag(seg, nid):
    """Give a summary a new identity (placeholders renamed)."""
    ren = {}
    for u, _ in seg[3]:
        ren[u] = fresh()
    cm = {('$', u): frozenset([('$', w)]) for u, w in ren.items()}
    cm[('>', seg[1])] = frozenset([('>', nid)])

    def im(h):
        if h[0] == 'cnt':
            return None
        return None
    t = tsub(seg[4], cm, im)
    t = ren_cnt(t, ren)
    return ('*', nid, seg[2], tuple((ren[u], c) for u, c in seg[3]), t)


def ren_cnt(v, ren):
    k = v[0]
    if k == 'agg':
        return ('agg', v[1], v[2], tuple([ren_cnt(x, ren) for x in v[3]]))
    if k == 'ti' and v[1] == 'cnt' and v[2] in ren:
        return ('ti', 'cnt', ren[v[2]])
    if k == 'ti' and v[1] == 'is':
        return ('ti', 'is', frozenset(('cnt', ren.get(m[1], m[1])) if m[0] == 'cnt' else m for m in v[2]))
    if k == 'sref':
        return ('sref', ren_cnt(v[1], ren)) + v[2:]
    if k == 'node' and v[3] and v[3][0] == 'cnt' and v[3][1] in ren:
        return ('node', v[1], v[2], ('cnt', ren[v[3][1]]))
    if k == 'seq':
        out = []
        for s in v[1]:
            if s[0] == '1':
                out.append(('1', s[1], ren_cnt(s[2], ren)))
            else:
                n = s[2]
                if n[0] == 'cnt' and n[1] in ren:
                    n = ('cnt', ren[n[1]])
                out.append(('*', s[1], n, s[3], ren_cnt(s[4], ren)))
        return ('seq', tuple(out))
    return v


def take_first(st, seg):
    """Many(n>=1) -> element, remaining segments"""
    n1 = st.nl(ladd(seg[2], lc(-1)))
    if n1 == lc(0):
        parts = [(u, st.norm(c)) for u, c in seg[3]]
        return element(st, seg, parts, lc(0), frozenset()), []
    l, r = split_contents(st, seg, lc(1))
    v = element(st, seg, l, n1, all_atoms(r))
    return v, [('*', seg[1], n1, tuple(r), seg[4])]


def take_last(st, seg):
    n1 = st.nl(ladd(seg[2], lc(-1)))
    if n1 == lc(0):
        parts = [(u, st.norm(c)) for u, c in seg[3]]
        return element(st, seg, parts, lc(0), frozenset()), []
    r, l = split_contents(st, seg, n1)
    v = element(st, seg, l, lc(0), frozenset())
    t = shift_stair(add_explicit(seg[4], seg[1], all_atoms(l)), lc(1))
    return v, [('*', seg[1], n1, tuple(r), t)]


def is_empty_seg(st, s):
    """Decide whether a summary segment has no elements (forks)."""
    if s[0] == '1':
        return False
    if st.decide_ge(ladd(s[2], lc(-1))):
        return False
    st.assume_eq(s[2])
    for _, c in s[3]:
        st.vanish(c)
    return True


def first_split(st, segs):
    """-> (element segment, rest) or None when the sequence is empty"""
    segs = list(segs)
    while segs:
        s = segs[0]
        if s[0] == '1':
            return s, segs[1:]
        if is_empty_seg(st, s):
            segs.pop(0)
            continue
        v, rest = take_first(st, s)
        return One(v), rest + segs[1:]
    return None


def last_split(st, segs):
    segs = list(segs)
    while segs:
        s = segs[-1]
        if s[0] == '1':
            return segs[:-1], s
        if is_empty_seg(st, s):
            segs.pop()
            continue
        v, rest = take_last(st, s)
        return segs[:-1] + rest, One(v)
    return None


def cut(st, segs, L):
    """Split a sequence in front of position L."""
    left = []
    segs = list(segs)
    off = lc(0)
    while segs:
        s = segs[0]
        d = st.nl(lsub(L, off))
        if d == lc(0) or st.ge(lneg(d)):
            break
        if s[0] == '1':
            if not st.decide_ge(ladd(d, lc(-1))):
                break
            left.append(s)
            off = ladd(off, lc(1))
            segs.pop(0)
            continue
        n = s[2]
        if st.decide_ge(lsub(d, n)):
            left.append(s)
            off = ladd(off, n)
            segs.pop(0)
            continue
        if not st.decide_ge(ladd(d, lc(-1))):
            break
        l, r = split_many(st, s, d)
        left.append(l)
        segs[0] = r
        break
    else:
        d = st.nl(lsub(L, off))
        if d != lc(0) and not st.ge(lneg(d)):
            if st.decide_ge(ladd(d, lc(-1))):
                raise Diverge('range out of bounds')
    return left, segs


def at(st, segs, L):
    """-> (left, One, right) for position L; diverges when it is out of bounds."""
    left, right = cut(st, segs, L)
    r = first_split(st, right)
    if r is None:
        raise Diverge('index out of bounds')
    return left, r[0], r[1]


def target(eng, st, ref):
    """The sequence (or other value) behind a reference."""
    if ref[0] == 'mref':
        return eng.get(st, ref[1], ref[2])
    if ref[0] == 'sref':
        return ref[1]
    raise Undecided('expected a reference, got %s' % ref[0])


def setseq(eng, st, ref, segs):
    if eng.spec:
        segs = [('1', s[1], eng.spec.keep(eng, st, s[2])) if s[0] == '1' else s for s in segs]
    if ref[0] == 'mref':
        eng.put(st, ref[1], ref[2], ('seq', tuple(segs)))
    elif ref[0] == 'sref':
        raise Undecided('mutation through a frozen reference')


def seqof(eng, st, ref):
    v = target(eng, st, ref)
    while v[0] in ('mref', 'sref'):
        v = target(eng, st, v)
    if v[0] == 'agg':
        return [One(x) for x in v[3]]
    if v[0] != 'seq':
        raise Undecided('expected a sequence, got %s' % v[0])
    return list(v[1])


def index_place(eng, st, alloc, path, L):
    v = eng.get(st, alloc, path)
    if v[0] == 'agg':
        L = st.nl(L)
        for i in range(len(v[3])):
            if st.decide_eq(L, lc(i)):
                return alloc, path + (('f', i),)
        raise Diverge('index out of bounds')
    l, o, r = at(st, v[1], L)
    eng.put(st, alloc, path, ('seq', tuple(list(l) + [o] + list(r))), True)
    return alloc, path + (('s', o[1]),)


# ------------------------------------------------------------------ options and friends
def variant(eng, ty, name):
    t = eng.p.types[ty]
    for i, v in enumerate(t['variants']):
        if v['name'] == name:
            return i
    raise Undecided('no variant %s in %s' % (name, t['s']))


def some(eng, ty, v):
    return ('agg', ty, variant(eng, ty, 'Some'), (v,))


def none(eng, ty):
    return ('agg', ty, variant(eng, ty, 'None'), ())


# ------------------------------------------------------------------ facts
def eqterm(x, y):
    return ('eq', frozenset([x, y]))


def order_edges(eng, st, extra):
    """(a, b, strict) with a <= b (or a < b)."""
    edges = []
    terms = set(extra)
    for t, v in st.bf.items():
        if t[0] == 'lt':
            terms.add(t[1])
            terms.add(t[2])
            if v:
                edges.append((t[1], t[2], True))
            else:
                edges.append((t[2], t[1], False))
        elif t[0] == 'eq' and v:
            x = list(t[1])
            if len(x) == 2:
                edges.append((x[0], x[1], False))
                edges.append((x[1], x[0], False))
                terms.update(x)
    tl = list(terms)
    for x in tl:
        if x == 'MAX':
            for y in tl:
                edges.append((y, x, False))
        if x == 'MIN':
            for y in tl:
                edges.append((x, y, False))
        if isinstance(x, tuple) and x[0] == 'envd':
            for y in tl:
                if isinstance(y, tuple) and y[0] in ('nd', 'envd') and y[2] == x[2] and y != x and y[1] <= x[1]:
                    edges.append((x, y, False))
    if eng.spec:
        edges += eng.spec.order(eng, st, tl)
    return edges


def reach(edges, a, b):
    """None, 'le' or 'lt': what the facts say about a versus b."""
    if a == b:
        return 'le'
    best = {a: False}
    work = [a]
    while work:
        x = work.pop()
        for p, q, s in edges:
            if p == x:
                n = best[x] or s
                if q not in best or (n and not best[q]):
                    best[q] = n
                    work.append(q)
    if b in best:
        return 'lt' if best[b] else 'le'
    return None


def known(eng, st, t):
    if t in st.bf:
        return st.bf[t]
    if arith.is_scalar_fact(t) and getattr(eng.spec, 'arith', False):
        if t[0] == 'lt':
            return arith.known_lt(st.bf, t[1], t[2], eng.spec.extra(eng, st, t))
        x = list(t[1])
        return True if len(x) == 1 else arith.known_eq(st.bf, x[0], x[1], eng.spec.extra(eng, st, t))
    if t[0] == 'lt':
        if t[1] == t[2]:
            return False
        e = order_edges(eng, st, [t[1], t[2]])
        if reach(e, t[1], t[2]) == 'lt':
            return True
        if reach(e, t[2], t[1]):
            return False
    if t[0] == 'eq':
        x = list(t[1])
        if len(x) == 1:
            return True
        e = order_edges(eng, st, x)
        if reach(e, x[0], x[1]) == 'lt' or reach(e, x[1], x[0]) == 'lt':
            return False
        if reach(e, x[0], x[1]) and reach(e, x[1], x[0]):
            return True
    if t[0] == 'isect' and frozenset() in t[1]:
        return None
    if eng.spec:
        return eng.spec.known(eng, st, t)
    return None


def on_learn(eng, st, t, val):
    if t[0] == 'eq' and val:
        pass


# ------------------------------------------------------------------ lookup
TABLE = {}
PREFIX = []
_LT = [(re.compile(r"&'\w+ "), '&'), (re.compile(r"::<'\w+>"), ''), (re.compile(r"<'\w+>"), ''), (re.compile(r"'\w+, "), '')]


def strip(p):
    """Path without lifetimes."""
    if "'" in p:
        for r, w in _LT:
            p = r.sub(w, p)
    return p


def model(*names):
    def deco(f):
        for n in names:
            TABLE[strip(n)] = f
        return f
    return deco


def find(eng, c):
    if c.get('model'):
        return None
    rp = c.get('rpath') or c['path']
    tp = c.get('tpath') or rp
    cr = c.get('crate')
    if cr == 'probe' and rp.find('probe::opq::') >= 0:
        return opq
    if cr in ('rstar',):
        f = eng.p.fns.get(c['key'])
        if f is None:
            return ctor
        return None
    if cr == 'probe':
        if 'PushPop' in rp:
            return pushpop
        if 'vec_into_array' in rp:
            return vec_into_array
        if rp.startswith('probe::models::heap_'):
            return HEAP[rp.split('::')[-1]]
        return None
    if '::PartialOrd::__chaining_' in rp and c['key'].startswith('<probe::opq::S as '):
        return chaining
    key = strip(rp)
    m = TABLE.get(key)
    if m:
        return m
    m = TABLE.get(strip(tp))
    if m:
        return m
    last = rp.split('::')[-1]
    for pref, f in PREFIX:
        if key.startswith(pref):
            return f
    if c['key'] not in eng.p.fns:
        return ctor
    return None


def ctor(eng, st, c, args, t):
    """Tuple struct / variant constructors used as functions."""
    name = c['path'].split('::')[-1]
    ty = t['dty']
    tt = eng.p.types[ty]
    if tt['k'] == 'adt' and tt.get('variants'):
        for i, v in enumerate(tt['variants']):
            if v['name'] == name and len(v['fields']) == len(args):
                return ('agg', ty, i, tuple(args))
        if not tt.get('enum') and len(tt['variants'][0]['fields']) == len(args):
            return ('agg', ty, 0, tuple(args))
    raise Undecided('no model for %s' % c.get('rpath', c['key']))


# ------------------------------------------------------------------ opaque user operations
def rd(eng, st, v):
    while v[0] in ('sref', 'mref'):
        v = target(eng, st, v)
    if v[0] == 'node':
        return v
    return v


def envset(v):
    if v[0] != 'env':
        raise Undecided('expected an envelope, got %s' % v[0])
    return v[1]


def digest(v):
    if v[0] == 'env':
        return v[1]
    if v[0] == 'o':
        return v[1]
    if v[0] == 'obj':
        return ('obj', v[1])
    if v[0] == 'i':
        return ('int', v[1])
    if v[0] == 'agg':
        return ('agg', v[1], v[2]) + tuple(digest(x) for x in v[3])
    return ('?', fresh())


def blunt(eng, st, ty, m, a, t):
    """Properties that hold whatever is measured: every scalar is unknown, every comparison has any outcome."""
    if ty == 'Obj':
        if m in ('distance_2', 'distance_2_if_less_or_equal', 'contains_point', 'eq', 'ne'):
            raise Undecided('object operation %s' % m)
        return None
    if m in ('merge', 'merged', 'new_empty', 'sort_envelopes', 'partition_envelopes', 'event', 'generate', 'DIMENSIONS') or (ty == 'Env' and m in ('clone', 'from_point')):
        return None
    dt = eng.p.types[t['dty']]
    if dt['k'] == 'bool' or dt['s'] == 'bool':
        return ('b', pick(st, 2) == 0)
    if m == 'partial_cmp':
        oty = dt['args'][0]
        return some(eng, t['dty'], ('agg', oty, variant(eng, oty, ('Less', 'Equal', 'Greater')[pick(st, 3)]), ()))
    if m.startswith('__chaining_'):
        i = pick(st, 3)
        if i == 0:
            return ('agg', t['dty'], variant(eng, t['dty'], 'Continue'), (UNIT,))
        return ('agg', t['dty'], variant(eng, t['dty'], 'Break'), (('b', i == 1),))
    if dt['s'] in ('probe::opq::S', 'probe::opq::Pt'):
        return ('o', 'ANY')
    return None


def chaining(eng, st, c, args, t):
    return opq(eng, st, dict(c, rpath=c['key']), args, t)


def pick(st, n):
    return st.choose([lambda s: None] * n)


def opq(eng, st, c, args, t):
    rp = c['rpath']
    m = rp.split('::')[-1]
    a = [rd(eng, st, x) for x in args]
    if rp.startswith('probe::opq::'):
        if m == 'choice':
            return ('b', ('choice', fresh()))
        return event(eng, st, m, args, a, t)
    ty = re.match(r'<probe::opq::(\w+)', rp).group(1)
    if ty == 'Cop':
        if m == 'clone':
            eng.spec.event(eng, st, 'cloned', args, a, t)
            return a[0]             # the copy stands for the object
        ty = 'Obj'
    if eng.spec is not None and getattr(eng.spec, 'blunt', False):
        r = blunt(eng, st, ty, m, a, t)
        if r is not None:
            return r
    if ty == 'Env':
        if m == 'new_empty':
            return ('env', frozenset())
        if m == 'clone':
            return a[0]
        E = [st.norm(envset(x)) if x[0] == 'env' else None for x in a]
        if m == 'merge':
            r = args[0]
            if r[0] != 'mref':
                raise Undecided('merge into a frozen envelope')
            eng.put(st, r[1], r[2], ('env', E[0] | E[1]))
            return UNIT
        if m == 'merged':
            return ('env', E[0] | E[1])
        if m == 'intersects':
            r = eng.spec.isect(eng, st, E[0], E[1]) if eng.spec else None
            return ('b', ('isect', frozenset([E[0], E[1]])) if r is None else r)
        if m == 'contains_envelope':
            return ('b', ('cenv', E[0], E[1]))
        if m == 'contains_point':
            return ('b', ('cpt', E[0], digest(a[1])))
        if m == 'distance_2':
            return ('o', ('envd', E[0], digest(a[1])))
        if m == 'min_max_dist_2':
            return ('o', ('mm', E[0], digest(a[1])))
        if m in ('sort_envelopes', 'partition_envelopes'):
            permute(eng, st, args[1])
            return UNIT
        if m in ('eq', 'ne'):
            r = ('eq', frozenset([('E', E[0]), ('E', E[1])]))
            return ('b', r if m == 'eq' else ('not', r))
        return ('o', (m,) + tuple(digest(x) for x in a))
    if ty in ('Obj', 'Def'):
        A = a[0][1] if a[0][0] == 'obj' else None
        if A is None:
            raise Undecided('object expected')
        A = st.norm(A)
        if m == 'envelope':
            return ('env', A)
        if m == 'distance_2':
            return ('o', ('nd', A, digest(a[1])))
        if m == 'contains_point':
            return ('b', ('ocpt', A, digest(a[1])))
        if m == 'distance_2_if_less_or_equal':
            d = ('nd', A, digest(a[1]))
            if eng.truth(st, ('b', ('lt', a[2][1], d))):
                return none(eng, t['dty'])
            return some(eng, t['dty'], ('o', d))
        if m in ('eq', 'ne'):
            r = ('oeq', frozenset([A, st.norm(a[1][1])]))
            return ('b', r if m == 'eq' else ('not', r))
        raise Undecided('object operation %s' % m)
    if ty == 'S':
        x = [y[1] for y in a if y[0] == 'o']
        if m == 'clone':
            return a[0]
        if m == 'lt':
            return ('b', ('lt', x[0], x[1]))
        if m == 'gt':
            return ('b', ('lt', x[1], x[0]))
        if m == 'le':
            return ('b', ('not', ('lt', x[1], x[0])))
        if m == 'ge':
            return ('b', ('not', ('lt', x[0], x[1])))
        if m == 'eq':
            return ('b', eqterm(x[0], x[1]))
        if m == 'ne':
            return ('b', ('not', eqterm(x[0], x[1])))
        if m == 'partial_cmp':
            oty = eng.p.types[t['dty']]['args'][0]
            if eng.truth(st, ('b', ('lt', x[0], x[1]))):
                n = 'Less'
            elif eng.truth(st, ('b', ('lt', x[1], x[0]))):
                n = 'Greater'
            else:
                n = 'Equal'
            return some(eng, t['dty'], ('agg', oty, variant(eng, oty, n), ()))
        if m.startswith('__chaining_'):
            # the comparison of tuples, element by element
            n = 'Less' if eng.truth(st, ('b', ('lt', x[0], x[1]))) else 'Greater' if eng.truth(st, ('b', ('lt', x[1], x[0]))) else 'Equal'
            if n == 'Equal':
                return ('agg', t['dty'], variant(eng, t['dty'], 'Continue'), (UNIT,))
            yes = {'lt': ('Less',), 'le': ('Less',), 'gt': ('Greater',), 'ge': ('Greater',), 'less': ('Less',), 'less_or_equal': ('Less',), 'greater': ('Greater',), 'greater_or_equal': ('Greater',)}.get(m[11:])
            if yes is None:
                raise Undecided('comparison %s' % m)
            return ('agg', t['dty'], variant(eng, t['dty'], 'Break'), (('b', n in yes),))
        if m == 'max_value':
            return ('o', 'MAX')
        if m == 'min_value':
            return ('o', 'MIN')
        if m == 'zero':
            return ('o', 'ZERO')
        if m == 'one':
            return ('o', 'ONE')
        if m == 'is_zero':
            return ('b', eqterm(x[0], 'ZERO'))
        if m == 'is_one':
            return ('b', eqterm(x[0], 'ONE'))
        if m == 'abs' and getattr(eng.spec, 'arith', False):
            return ('o', ('neg', x[0])) if eng.truth(st, ('b', ('lt', x[0], 'ZERO'))) else a[0]
        if m.startswith('is_'):
            return ('b', (m, x[0]))
        return ('o', (m,) + tuple(x))
    if ty == 'Pt':
        if m == 'clone':
            return a[0]
        if m == 'eq':
            return ('b', eqterm(digest(a[0]), digest(a[1])))
        if m == 'generate':
            return ('o', ('pt', fresh()))
        if m == 'nth':
            return ('o', ('nth', digest(a[0]), digest(a[1])))
        raise Undecided('point operation %s' % m)
    if ty == 'Sel':
        s = digest(a[0])
        if m == 'should_unpack_parent':
            return ('b', ('selp', s, st.norm(envset(a[1]))))
        if m == 'should_unpack_leaf':
            if a[1][0] != 'obj':
                raise Undecided('object expected')
            return ('b', ('sell', s, st.norm(a[1][1])))
    raise Undecided('opaque operation %s' % rp)


def event(eng, st, name, args, a, t):
    if eng.spec is None:
        raise Undecided('event %s' % name)
    return eng.spec.event(eng, st, name, args, a, t)


def permute(eng, st, ref):
    """The callee may reorder the sequence in any way."""
    import canon
    segs = seqof(eng, st, ref)
    segs = canon.collapse(eng, st, segs)
    setseq(eng, st, ref, segs)


def pushpop(eng, st, c, args, t):
    m = c['rpath'].split('::')[-1]
    if m == 'fresh':
        return seq()
    return vec_push(eng, st, c, args, t)


def vec_into_array(eng, st, c, args, t):
    if any(s[0] != '1' for s in args[0][1]):
        raise Undecided('array of unknown length')
    return ('agg', t['dty'], 0, tuple(s[2] for s in args[0][1]))


# ------------------------------------------------------------------ Vec, SmallVec, slices
@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'smallvec::SmallVec::<A>::new', 'smallvec::SmallVec::<A>::with_capacity',
       '<alloc::vec::Vec<T> as core::default::Default>::default', '<smallvec::SmallVec<A> as core::default::Default>::default')
def vec_new(eng, st, c, args, t):
    return seq()


@model('alloc::vec::Vec::<T, A>::push', 'smallvec::SmallVec::<A>::push')
def vec_push(eng, st, c, args, t):
    segs = seqof(eng, st, args[0])
    setseq(eng, st, args[0], segs + [One(args[1])])
    return UNIT


@model('alloc::vec::Vec::<T, A>::pop', 'smallvec::SmallVec::<A>::pop')
def vec_pop(eng, st, c, args, t):
    segs = seqof(eng, st, args[0])
    r = last_split(st, segs)
    if r is None:
        setseq(eng, st, args[0], [])
        return none(eng, t['dty'])
    setseq(eng, st, args[0], r[0])
    return some(eng, t['dty'], r[1][2])


@model('core::mem::size_of', 'core::mem::align_of')
def size_of(eng, st, c, args, t):
    """Sizes of user types are unknown."""
    ty = eng.p.types[c['args'][0]]
    known_size = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8, 'i32': 4, 'i64': 8, 'isize': 8, 'f32': 4, 'f64': 8}.get(ty['s'])
    if known_size is not None:
        return I(known_size)
    return ('i', la(('n', fresh())))


# ------------------------------------------------------------------ priority queues: the order of their elements says nothing
@model('alloc::collections::binary_heap::BinaryHeap::<T>::new', 'alloc::collections::binary_heap::BinaryHeap::<T>::with_capacity',
       'heapless::binary_heap::BinaryHeap::<T, K, N>::new', '<alloc::collections::binary_heap::BinaryHeap<T> as core::default::Default>::default',
       '<heapless::binary_heap::BinaryHeap<T, K, N> as core::default::Default>::default', 'heapless::vec::Vec::<T, N>::new')
def heap_new(eng, st, c, args, t):
    return seq()


@model('alloc::collections::binary_heap::BinaryHeap::<T, A>::len', 'heapless::binary_heap::BinaryHeap::<T, K, N>::len', 'heapless::vec::Vec::<T, N>::len')
def heap_len(eng, st, c, args, t):
    return vec_len(eng, st, c, args, t)


@model('alloc::collections::binary_heap::BinaryHeap::<T, A>::is_empty', 'heapless::binary_heap::BinaryHeap::<T, K, N>::is_empty', 'heapless::vec::Vec::<T, N>::is_empty')
def heap_is_empty(eng, st, c, args, t):
    return vec_is_empty(eng, st, c, args, t)


def room(eng, c):
    m = re.search(r'heapless::[a-z_]+::\w+(::)?<.*, (\d+)(_usize)?>', c['key'])
    if not m:
        raise Undecided('the capacity of %s' % c['key'])
    return int(m.group(2))


@model('heapless::binary_heap::BinaryHeap::<T, K, N>::capacity', 'heapless::vec::Vec::<T, N>::capacity')
def heap_cap(eng, st, c, args, t):
    return I(room(eng, c))


def heap_add(eng, st, ref, x):
    """Elements that are kept apart stand in a fixed order, so that they can be summarised."""
    import canon
    segs = seqof(eng, st, ref)
    o = One(x)
    rank = lambda s: str(canon.apart(eng, st, s))
    r = rank(o)
    i = len(segs)
    while i > 0 and rank(segs[i - 1]) > r:
        i -= 1
    setseq(eng, st, ref, segs[:i] + [o] + segs[i:])


@model('alloc::collections::binary_heap::BinaryHeap::<T, A>::push')
def heap_push(eng, st, c, args, t):
    heap_add(eng, st, args[0], args[1])
    return UNIT


@model('heapless::binary_heap::BinaryHeap::<T, K, N>::push', 'heapless::vec::Vec::<T, N>::push')
def bounded_push(eng, st, c, args, t):
    n = length(st, ('seq', tuple(seqof(eng, st, args[0]))))
    if st.decide_ge(ladd(n, lc(-room(eng, c)))):
        return ('agg', t['dty'], variant(eng, t['dty'], 'Err'), (args[1],))
    heap_add(eng, st, args[0], args[1])
    return ('agg', t['dty'], variant(eng, t['dty'], 'Ok'), (UNIT,))


@model('heapless::binary_heap::BinaryHeap::<T, K, N>::into_vec', 'alloc::collections::binary_heap::BinaryHeap::<T, A>::into_vec',
       '<alloc::collections::binary_heap::BinaryHeap<T, A> as core::convert::From<alloc::vec::Vec<T, A>>>::from')
def heap_into_vec(eng, st, c, args, t):
    return args[0]


@model('alloc::collections::binary_heap::BinaryHeap::<T, A>::clear', 'heapless::binary_heap::BinaryHeap::<T, K, N>::clear')
def heap_clear(eng, st, c, args, t):
    return vec_clear(eng, st, c, args, t)


@model('alloc::collections::binary_heap::BinaryHeap::<T, A>::reserve')
def heap_reserve(eng, st, c, args, t):
    return UNIT


def heap_take(eng, st, c, args, t):
    """Any element may be the one that comes out; what follows from its being the first is for the specification to say."""
    segs = seqof(eng, st, args[0])
    one = lambda i: lambda s: None if segs[i][0] == '1' else s.assume_ge(ladd(segs[i][2], lc(-1)))

    def nothing(s):
        for x in segs:
            if x[0] == '1':
                raise Infeasible()
            s.assume_eq(x[2])
    i = st.choose([one(i) for i in range(len(segs))] + [nothing])
    if i == len(segs):
        for x in segs:
            for _, cc in x[3]:
                st.vanish(cc)
        setseq(eng, st, args[0], [])
        return none(eng, t['dty'])
    s = segs[i]
    if s[0] == '1':
        x, rest = s[2], []
    else:
        x, rest = take_first(st, s)
    rest = segs[:i] + rest + segs[i + 1:]
    setseq(eng, st, args[0], rest)
    if eng.spec is not None:
        eng.spec.on_pop(eng, st, x, rest)
    return some(eng, t['dty'], x)


def heap_like(eng, st, c, args, t):
    """An arbitrary element of the same kind."""
    def rec(v):
        k = v[0]
        if k == 'agg':
            return ('agg', v[1], v[2], tuple(rec(x) for x in v[3]))
        if k == 'sref':
            return ('sref', rec(v[1])) + v[2:]
        if k == 'o':
            return ('o', ('each', fresh()))
        if k == 'b':
            return ('b', ('each', fresh()))
        if k == 'i':
            return ('i', la(('n', fresh())))
        if k == 'node':
            return ('node', v[1], frozenset([fresh()]), la(('n', fresh())))
        return v
    return rec(rd(eng, st, args[0]))


def scalars(v):
    if v[0] == 'o':
        return [v[1]]
    if v[0] == 'agg':
        return [y for x in v[3] for y in scalars(x)]
    return []


def heap_order(eng, st, c, args, t):
    r, a, b = args
    x, y = scalars(a), scalars(b)
    name = eng.p.types[r[1]]['variants'][r[2]]['name']
    kind = eng.p.types[c['args'][1]]['s'].split('::')[-1]
    if eng.spec is not None:
        eng.spec.on_order(eng, st, name, kind, x[0] if len(x) == 1 else None, y[0] if len(y) == 1 else None)
    if name != 'Greater':
        raise Infeasible()
    for k in [k for k in st.bf if any(m in str(k) for m in [str(z) for z in x + y])]:
        del st.bf[k]
    return UNIT


HEAP = {'heap_take': heap_take, 'heap_like': heap_like, 'heap_order': heap_order}


@model('alloc::vec::Vec::<T, A>::len', 'smallvec::SmallVec::<A>::len', 'core::slice::<impl [T]>::len')
def vec_len(eng, st, c, args, t):
    return ('i', length(st, ('seq', tuple(seqof(eng, st, args[0])))))


@model('alloc::vec::Vec::<T, A>::is_empty', 'smallvec::SmallVec::<A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def vec_is_empty(eng, st, c, args, t):
    n = length(st, ('seq', tuple(seqof(eng, st, args[0]))))
    return B(not st.decide_ge(ladd(n, lc(-1))))


@model('alloc::vec::Vec::<T, A>::capacity', 'smallvec::SmallVec::<A>::capacity')
def vec_cap(eng, st, c, args, t):
    n = la(('n', fresh()))
    st.assume_ge(lsub(n, length(st, ('seq', tuple(seqof(eng, st, args[0]))))))
    return ('i', n)


@model('alloc::vec::Vec::<T, A>::shrink_to_fit', 'alloc::vec::Vec::<T, A>::shrink_to', 'alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact',
       'smallvec::SmallVec::<A>::reserve', 'smallvec::SmallVec::<A>::shrink_to_fit')
def vec_nop(eng, st, c, args, t):
    return UNIT


@model('alloc::vec::Vec::<T, A>::clear', 'smallvec::SmallVec::<A>::clear')
def vec_clear(eng, st, c, args, t):
    eng.discard(st, ('seq', tuple(seqof(eng, st, args[0]))))
    setseq(eng, st, args[0], [])
    return UNIT


@model('alloc::vec::Vec::<T, A>::truncate', 'smallvec::SmallVec::<A>::truncate')
def vec_truncate(eng, st, c, args, t):
    segs = seqof(eng, st, args[0])
    n = length(st, ('seq', tuple(segs)))
    if st.decide_ge(lsub(args[1][1], n)):
        return UNIT
    l, r = cut(st, segs, args[1][1])
    eng.discard(st, ('seq', tuple(r)))
    setseq(eng, st, args[0], l)
    return UNIT


@model('alloc::vec::Vec::<T, A>::split_off')
def vec_split_off(eng, st, c, args, t):
    l, r = cut(st, seqof(eng, st, args[0]), args[1][1])
    setseq(eng, st, args[0], l)
    return ('seq', tuple(r))


@model('alloc::vec::Vec::<T, A>::append', 'smallvec::SmallVec::<A>::append')
def vec_append(eng, st, c, args, t):
    a = seqof(eng, st, args[0])
    b = seqof(eng, st, args[1])
    setseq(eng, st, args[1], [])
    setseq(eng, st, args[0], a + b)
    return UNIT


@model('alloc::vec::Vec::<T, A>::swap_remove', 'smallvec::SmallVec::<A>::swap_remove')
def vec_swap_remove(eng, st, c, args, t):
    l, o, r = at(st, seqof(eng, st, args[0]), args[1][1])
    q = last_split(st, r)
    if q is None:
        setseq(eng, st, args[0], l)
    else:
        setseq(eng, st, args[0], list(l) + [q[1]] + list(q[0]))
    return o[2]


@model('alloc::vec::Vec::<T, A>::remove', 'smallvec::SmallVec::<A>::remove')
def vec_remove(eng, st, c, args, t):
    l, o, r = at(st, seqof(eng, st, args[0]), args[1][1])
    setseq(eng, st, args[0], list(l) + list(r))
    return o[2]


@model('alloc::vec::Vec::<T, A>::insert', 'smallvec::SmallVec::<A>::insert')
def vec_insert(eng, st, c, args, t):
    l, r = cut(st, seqof(eng, st, args[0]), args[1][1])
    setseq(eng, st, args[0], list(l) + [One(args[2])] + list(r))
    return UNIT


def range_of(eng, st, v, n):
    """Bounds of a range value over a sequence of length n."""
    if v[0] != 'agg':
        raise Undecided('range')
    name = eng.p.types[v[1]].get('path', '').split('::')[-1] if v[1] is not None else ''
    f = v[3]
    if name == 'RangeFrom':
        return f[0][1], n
    if name == 'RangeTo':
        return lc(0), f[0][1]
    if name == 'Range':
        return f[0][1], f[1][1]
    if name == 'RangeFull':
        return lc(0), n
    if name == 'RangeInclusive':
        return f[0][1], ladd(f[1][1], lc(1))
    if name == 'RangeToInclusive':
        return lc(0), ladd(f[0][1], lc(1))
    raise Undecided('range type %s' % name)


def cut3(eng, st, segs, rv):
    n = length(st, ('seq', tuple(segs)))
    a, b = range_of(eng, st, rv, n)
    l, r = cut(st, segs, a)
    if not st.decide_ge(lsub(b, a)):
        raise Diverge('range out of order')
    m, r2 = cut(st, r, st.nl(lsub(b, a)))
    return l, m, r2


@model('alloc::vec::Vec::<T, A>::drain', 'smallvec::SmallVec::<A>::drain')
def vec_drain(eng, st, c, args, t):
    l, m, r = cut3(eng, st, seqof(eng, st, args[0]), args[1])
    setseq(eng, st, args[0], list(l) + list(r))
    return ('iter', 'own', ('seq', tuple(m)))


@model('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
       '<smallvec::SmallVec<A> as core::ops::deref::Deref>::deref', '<smallvec::SmallVec<A> as core::ops::deref::DerefMut>::deref_mut',
       'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
       'smallvec::SmallVec::<A>::as_slice', 'smallvec::SmallVec::<A>::as_mut_slice',
       '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref', '<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow')
def same_ref(eng, st, c, args, t):
    return args[0]


def echo(st, old, new):
    """Part of a sequence seen through a shared reference was split up: split it wherever it is stored as well.

    Objects are stored once: an equal sequence with the same contents is the same sequence."""
    def sig(segs):
        return [(s[0], s[1], s[2] if s[0] == '1' else (st.nl(s[2]), [(u, st.norm(c)) for u, c in s[3]], s[4])) for s in segs]
    ids = [s[1] for s in old]
    want = sig(old)
    if not any(c for s in old if s[0] == '*' for _, c in s[3]):
        return

    def rec(v):
        k = v[0]
        if k == 'agg':
            fs = tuple([rec(y) for y in v[3]])
            return v if all(a is b for a, b in zip(fs, v[3])) else ('agg', v[1], v[2], fs)
        if k == 'sref':
            t = rec(v[1])
            return v if t is v[1] else ('sref', t) + v[2:]
        if k == 'seq':
            if [s[1] for s in v[1]] == ids and sig(v[1]) == want:
                return ('seq', tuple(new))
            out = []
            ch = False
            for s in v[1]:
                t = rec(s[2]) if s[0] == '1' else None
                if s[0] == '1' and t is not s[2]:
                    out.append(('1', s[1], t))
                    ch = True
                else:
                    out.append(s)
            return ('seq', tuple(out)) if ch else v
        return v
    for a, v in list(st.store.items()):
        w = rec(v)
        if w is not v:
            st.store[a] = w


def elem_ref(eng, st, ref, l, o, r, mut):
    """Reference to element o of the sequence behind ref, which now reads l + [o] + r."""
    if ref[0] == 'mref':
        setseq(eng, st, ref, list(l) + [o] + list(r))
        if mut:
            return ('mref', ref[1], ref[2] + (('s', o[1]),))
        return ('sref', o[2])
    if ref[0] == 'sref' and ref[1][0] == 'seq':
        echo(st, ref[1][1], list(l) + [o] + list(r))
    return ('sref', o[2]) + ref[2:]


def ty_mut(eng, ty):
    return bool(eng.p.types[ty].get('mut'))


@model('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut',
       '<smallvec::SmallVec<A> as core::ops::index::Index<I>>::index', '<smallvec::SmallVec<A> as core::ops::index::IndexMut<I>>::index_mut',
       'core::slice::index::<impl core::ops::index::Index<I> for [T]>::index', 'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut')
def vec_index(eng, st, c, args, t):
    mut = c['rpath'].endswith('_mut')
    ref = args[0]
    segs = seqof(eng, st, ref)
    if args[1][0] == 'i':
        l, o, r = at(st, segs, args[1][1])
        return elem_ref(eng, st, ref, l, o, r, mut)
    l, m, r = cut3(eng, st, segs, args[1])
    if mut:
        if ref[0] != 'mref':
            raise Undecided('subslice of frozen sequence')
        setseq(eng, st, ref, list(l) + list(m) + list(r))
        return ('mslice', ref[1], ref[2], tuple(s[1] for s in m))
    return ('sref', ('seq', tuple(m)))


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def slice_end(eng, st, c, args, t):
    m = c['rpath'].split('::')[-1]
    ref = args[0]
    segs = seqof(eng, st, ref)
    if m.startswith('first'):
        q = first_split(st, segs)
        l, o, r = ([], q[0], q[1]) if q else (None, None, None)
    else:
        q = last_split(st, segs)
        l, o, r = (q[0], q[1], []) if q else (None, None, None)
    if q is None:
        return none(eng, t['dty'])
    return some(eng, t['dty'], elem_ref(eng, st, ref, l, o, r, m.endswith('mut')))


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def slice_get(eng, st, c, args, t):
    ref = args[0]
    segs = seqof(eng, st, ref)
    if args[1][0] != 'i':
        raise Undecided('get with a range')
    n = length(st, ('seq', tuple(segs)))
    if not st.decide_ge(ladd(lsub(n, args[1][1]), lc(-1))):
        return none(eng, t['dty'])
    l, o, r = at(st, segs, args[1][1])
    return some(eng, t['dty'], elem_ref(eng, st, ref, l, o, r, c['rpath'].endswith('mut')))


@model('core::slice::<impl [T]>::split_at')
def slice_split_at(eng, st, c, args, t):
    l, r = cut(st, seqof(eng, st, args[0]), args[1][1])
    return ('agg', t['dty'], 0, (('sref', ('seq', tuple(l))), ('sref', ('seq', tuple(r)))))


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def slice_split_first(eng, st, c, args, t):
    segs = seqof(eng, st, args[0])
    q = first_split(st, segs) if c['rpath'].endswith('first') else last_split(st, segs)
    if q is None:
        return none(eng, t['dty'])
    o, r = q if c['rpath'].endswith('first') else (q[1], q[0])
    tt = eng.p.types[t['dty']]['args'][0]
    return some(eng, t['dty'], ('agg', tt, 0, (('sref', o[2]), ('sref', ('seq', tuple(r))))))


@model('core::slice::<impl [T]>::swap')
def slice_swap(eng, st, c, args, t):
    ref = args[0]
    segs = seqof(eng, st, ref)
    i, j = st.nl(args[1][1]), st.nl(args[2][1])
    if st.decide_eq(i, j):
        return UNIT
    if not st.decide_ge(lsub(j, i)):
        i, j = j, i
    l, o, r = at(st, segs, i)
    l2, o2, r2 = at(st, r, st.nl(ladd(lsub(j, i), lc(-1))))
    setseq(eng, st, ref, list(l) + [('1', fresh(), o2[2])] + list(l2) + [('1', fresh(), o[2])] + list(r2))
    return UNIT


@model('core::slice::<impl [T]>::sort_unstable_by', 'core::slice::<impl [T]>::reverse', 'core::slice::<impl [T]>::sort_unstable_by_key',
       'alloc::slice::<impl [T]>::sort_by', 'alloc::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right',
       'core::slice::<impl [T]>::select_nth_unstable_by', 'alloc::slice::<impl [T]>::sort_by_cached_key')
def slice_permute(eng, st, c, args, t):
    permute(eng, st, args[0])
    if 'select_nth' in c['rpath']:
        raise Undecided('select_nth')
    return UNIT


@model('core::array::<impl core::clone::Clone for [T; N]>::clone')
def array_clone(eng, st, c, args, t):
    tt = eng.p.types[eng.p.types[t['dty']]['elem']]
    v = rd(eng, st, args[0])
    if tt.get('copy') or all(x[0] in ('o', 'i', 'b', 'env') for x in v[3]):
        return v
    raise Undecided('clone of an array of %s' % tt['s'])


@model('core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq', 'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::ne')
def array_eq(eng, st, c, args, t):
    a, b = [rd(eng, st, x) for x in args]
    r = True
    for x, y in zip(a[3], b[3]):
        if x[0] == 'i' and y[0] == 'i':
            e = st.decide_eq(x[1], y[1])
        elif x[0] == 'o' and y[0] == 'o':
            e = eng.truth(st, ('b', eqterm(x[1], y[1])))
        else:
            raise Undecided('comparison of arrays of %s' % x[0])
        if not e:
            r = False
            break
    return B(r == c['rpath'].endswith('::eq'))


@model('core::slice::<impl [T]>::iter', 'core::array::<impl core::iter::traits::collect::IntoIterator for &[T; N]>::into_iter',
       '<&alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
       'core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &[T]>::into_iter',
       '<&smallvec::SmallVec<A> as core::iter::traits::collect::IntoIterator>::into_iter')
def iter_ref(eng, st, c, args, t):
    return ('iter', 'ref', ('seq', tuple(seqof(eng, st, args[0]))))


@model('core::slice::<impl [T]>::iter_mut', 'core::array::<impl core::iter::traits::collect::IntoIterator for &mut [T; N]>::into_iter',
       "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       '<&mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
       'core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &mut [T]>::into_iter')
def iter_mut(eng, st, c, args, t):
    ref = args[0]
    segs = seqof(eng, st, ref)
    if ref[0] == 'sref':
        return ('iter', 'frozen', ('seq', tuple(segs)))
    return ('miter', ref[1], ref[2], tuple(s[1] for s in segs))


@model('core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter',
       '<heapless::vec::Vec<T, N> as core::iter::traits::collect::IntoIterator>::into_iter', '<alloc::collections::binary_heap::BinaryHeap<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
       '<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter', '<smallvec::SmallVec<A> as core::iter::traits::collect::IntoIterator>::into_iter')
def iter_own(eng, st, c, args, t):
    v = args[0]
    if v[0] == 'agg':
        v = seq([One(x) for x in v[3]])
    if v[0] != 'seq':
        raise Undecided('into_iter of %s' % v[0])
    return ('iter', 'own', v)


def wrap_item(kind, v):
    if kind == 'own':
        return v
    if kind == 'frozen':
        return ('sref', v, 'frozen')
    return ('sref', v)


NEXTS = ['<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next',
         '<core::array::iter::IntoIter<T, N> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back',
         "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next",
         '<core::slice::iter::Iter<T> as core::iter::traits::iterator::Iterator>::next',
         '<core::slice::iter::Iter<T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back',
         '<core::slice::iter::IterMut<T> as core::iter::traits::iterator::Iterator>::next',
         '<core::slice::iter::IterMut<T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back',
         '<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next',
         '<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back',
         '<alloc::vec::drain::Drain<T, A> as core::iter::traits::iterator::Iterator>::next',
         '<alloc::vec::drain::Drain<T, A> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back',
         '<smallvec::IntoIter<A> as core::iter::traits::iterator::Iterator>::next',
         '<smallvec::Drain<T> as core::iter::traits::iterator::Iterator>::next', '<heapless::vec::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next',
         '<alloc::collections::binary_heap::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next']


@model(*NEXTS)
def iter_next(eng, st, c, args, t):
    back = c['rpath'].endswith('next_back')
    ref = args[0]
    it = target(eng, st, ref)
    while it[0] in ('mref', 'sref'):
        ref = it
        it = target(eng, st, it)
    if it[0] == 'iter':
        segs = it[2][1]
        q = last_split(st, segs) if back else first_split(st, segs)
        if q is None:
            eng.put(st, ref[1], ref[2], ('iter', it[1], seq()))
            return none(eng, t['dty'])
        rest, o = q if back else (q[1], q[0])
        eng.put(st, ref[1], ref[2], ('iter', it[1], ('seq', tuple(rest))))
        return some(eng, t['dty'], wrap_item(it[1], o[2]))
    if it[0] == 'miter':
        _, al, pa, ids = it
        v = eng.get(st, al, pa)
        if v[0] != 'seq':
            raise Undecided('iter_mut target')
        segs = list(v[1])
        ids = list(ids)
        while ids:
            i = ids[-1] if back else ids[0]
            pos = next((n for n, s in enumerate(segs) if s[1] == i), None)
            if pos is None:
                raise Undecided('stale iterator')
            s = segs[pos]
            if s[0] == '1':
                ids.pop(-1 if back else 0)
                o = s
                break
            if is_empty_seg(st, s):
                segs.pop(pos)
                ids.pop(-1 if back else 0)
                continue
            if back:
                val, rest = take_last(st, s)
                o = One(val)
                segs[pos:pos + 1] = rest + [o]
            else:
                val, rest = take_first(st, s)
                o = One(val)
                segs[pos:pos + 1] = [o] + rest
            if not rest:
                ids.pop(-1 if back else 0)
            break
        else:
            eng.put(st, al, pa, ('seq', tuple(segs)))
            eng.put(st, ref[1], ref[2], ('miter', al, pa, ()))
            return none(eng, t['dty'])
        eng.put(st, al, pa, ('seq', tuple(segs)))
        eng.put(st, ref[1], ref[2], ('miter', al, pa, tuple(ids)))
        return some(eng, t['dty'], ('mref', al, pa + (('s', o[1]),)))
    raise Undecided('next of %s' % it[0])


def iter_remaining(eng, st, it):
    while it[0] in ('mref', 'sref'):
        it = target(eng, st, it)
    if it[0] == 'iter':
        return length(st, it[2])
    if it[0] == 'miter':
        v = eng.get(st, it[1], it[2])
        return length(st, ('seq', tuple(s for s in v[1] if s[1] in it[3])))
    raise Undecided('length of iterator %s' % it[0])


@model('core::iter::traits::exact_size::ExactSizeIterator::len', '<core::slice::iter::Iter<T> as core::iter::traits::exact_size::ExactSizeIterator>::len',
       '<core::slice::iter::IterMut<T> as core::iter::traits::exact_size::ExactSizeIterator>::len',
       '<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::exact_size::ExactSizeIterator>::len',
       'core::slice::iter::Iter::<T>::len')
def iter_len(eng, st, c, args, t):
    it = args[0]
    while it[0] in ('mref', 'sref'):
        it = target(eng, st, it)
    while it[0] == 'agg':
        # adapters such as Map or Enumerate keep the length of their source
        src = [x for x in it[3] if x[0] in ('iter', 'miter', 'agg')]
        if not src:
            raise Undecided('length of adapter')
        it = src[0]
    return ('i', iter_remaining(eng, st, it))


@model('<core::slice::iter::Iter<T> as core::iter::traits::iterator::Iterator>::size_hint', '<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::size_hint')
def iter_size_hint(eng, st, c, args, t):
    n = ('i', iter_remaining(eng, st, args[0]))
    tt = eng.p.types[t['dty']]
    return ('agg', t['dty'], 0, (n, some(eng, tt['elems'][1], n)))


@model('core::slice::iter::Iter::<T>::as_slice', 'alloc::vec::into_iter::IntoIter::<T, A>::as_slice')
def iter_as_slice(eng, st, c, args, t):
    it = rd(eng, st, args[0])
    return ('sref', it[2])


@model('alloc::boxed::Box::<T>::new_uninit')
def box_new(eng, st, c, args, t):
    al = ('H', fresh())
    st.store[al] = UNDEF
    return ('box', al)


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(eng, st, c, args, t):
    b = args[0]
    if b[0] != 'box':
        raise Undecided('vec! of %s' % b[0])
    v = st.store.pop(b[1])
    # strip the MaybeUninit / ManuallyDrop wrappers that were filled in field by field
    while v[0] == 'agg' and v[1] is None:
        v = [x for x in v[3] if x != UNDEF][0]
    if v[0] != 'agg':
        raise Undecided('vec! contents')
    return seq([One(x) for x in v[3]])


@model('alloc::rcs::arc::Arc::<T>::new', 'alloc::rcs::rc::Rc::<T>::new')
def arc_new(eng, st, c, args, t):
    return ('sref', args[0])


@model('<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref', '<alloc::rcs::rc::Rc<T, A> as core::ops::deref::Deref>::deref',
       '<alloc::rcs::arc::Arc<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::rcs::rc::Rc<T, A> as core::convert::AsRef<T>>::as_ref')
def arc_deref(eng, st, c, args, t):
    return target(eng, st, args[0])


@model('num_traits::identities::zero', 'num_traits::identities::one')
def num_zero(eng, st, c, args, t):
    z = c['rpath'].endswith('zero')
    if eng.p.types[t['dty']]['k'] == 'int':
        return I(0 if z else 1)
    return ('o', 'ZERO' if z else 'ONE')


@model('core::mem::replace')
def mem_replace(eng, st, c, args, t):
    r = args[0]
    if r[0] != 'mref':
        raise Undecided('replace through frozen reference')
    old = eng.get(st, r[1], r[2])
    eng.put(st, r[1], r[2], args[1])
    return old


@model('core::mem::swap')
def mem_swap(eng, st, c, args, t):
    a, b = args
    x = eng.get(st, a[1], a[2])
    y = eng.get(st, b[1], b[2])
    eng.put(st, a[1], a[2], y)
    eng.put(st, b[1], b[2], x)
    return UNIT


@model('core::mem::take')
def mem_take(eng, st, c, args, t):
    r = args[0]
    old = eng.get(st, r[1], r[2])
    eng.put(st, r[1], r[2], default(eng, t['dty']))
    return old


def default(eng, ty):
    tt = eng.p.types[ty]
    if eng.p.is_vec(ty):
        return seq()
    if tt['k'] == 'int':
        return I(0)
    if tt['k'] == 'bool':
        return B(False)
    if tt.get('path') == 'core::option::Option':
        return none(eng, ty)
    if tt.get('path') == 'core::marker::PhantomData':
        return ('agg', ty, 0, ())
    raise Undecided('default of %s' % tt['s'])


@model('core::mem::forget')
def mem_forget(eng, st, c, args, t):
    import canon
    A = canon.owned(st, args[0])
    st.gh['forgotten'] = st.gh.get('forgotten', frozenset()) | frozenset(x for x in st.norm(A) if isinstance(x, int))
    return UNIT


@model('core::mem::drop')
def mem_drop(eng, st, c, args, t):
    v = args[0]
    ds = eng.drops_of(v)
    if not ds:
        eng.discard(st, v)
        return UNIT
    raise Undecided('drop of a value with a destructor')


@model('<core::marker::PhantomData<T> as core::default::Default>::default')
def phantom(eng, st, c, args, t):
    return ('agg', t['dty'], 0, ())


@model('core::cmp::impls::<impl core::cmp::Ord for usize>::max', 'core::cmp::impls::<impl core::cmp::Ord for usize>::min', 'core::cmp::Ord::max', 'core::cmp::Ord::min')
def ord_max(eng, st, c, args, t):
    a, b = args
    if a[0] != 'i':
        raise Undecided('max of %s' % a[0])
    mx = c['rpath'].endswith('max')
    ge = st.decide_ge(lsub(a[1], b[1]))
    return a if ge == mx else b


@model('core::num::<impl usize>::div_ceil')
def div_ceil(eng, st, c, args, t):
    a, b = st.nl(args[0][1]), st.nl(args[1][1])
    if isconst(a) and isconst(b) and b[0]:
        return I(-(-a[0] // b[0]))
    n = la(('n', fresh()))
    if not st.decide_ge(ladd(b, lc(-1))):
        raise Diverge('div0')
    # 0 <= n <= a, and n >= 1 when a >= 1, and n < a when b >= 2 and a >= 2
    st.assume_ge(lsub(a, n))
    if st.ge(ladd(a, lc(-1))):
        st.assume_ge(ladd(n, lc(-1)))
    else:
        st.assume_ge(lsub(lscale(n, BIG // 8), a))
    if st.ge(ladd(b, lc(-2))) and st.ge(ladd(a, lc(-2))):
        st.assume_ge(ladd(lsub(a, n), lc(-1)))
    if isconst(b):
        st.assume_ge(lsub(lscale(n, b[0]), a))
        st.assume_ge(ladd(lsub(a, lscale(n, b[0])), lc(b[0] - 1)))
    return ('i', n)


@model('core::num::<impl usize>::saturating_sub')
def saturating_sub(eng, st, c, args, t):
    d = lsub(args[0][1], args[1][1])
    return ('i', st.nl(d)) if st.decide_ge(d) else I(0)


@model('core::num::<impl usize>::checked_sub')
def checked_sub(eng, st, c, args, t):
    d = lsub(args[0][1], args[1][1])
    return some(eng, t['dty'], ('i', st.nl(d))) if st.decide_ge(d) else none(eng, t['dty'])


@model('core::num::<impl usize>::saturating_add', 'core::num::<impl usize>::wrapping_add')
def sat_add(eng, st, c, args, t):
    return ('i', st.nl(ladd(args[0][1], args[1][1])))


@model('core::num::<impl usize>::wrapping_sub')
def wrap_sub(eng, st, c, args, t):
    d = st.nl(lsub(args[0][1], args[1][1]))
    if st.decide_ge(d):
        return ('i', d)
    raise Undecided('wrapping subtraction')


@model('core::num::<impl usize>::checked_add')
def checked_add(eng, st, c, args, t):
    return some(eng, t['dty'], ('i', st.nl(ladd(args[0][1], args[1][1]))))


@model('core::num::<impl usize>::pow', 'core::num::<impl usize>::abs_diff', 'core::num::<impl usize>::saturating_mul', 'core::num::<impl usize>::wrapping_mul',
       'core::num::<impl usize>::next_multiple_of', 'smallvec::SmallVec::<A>::inline_size')
def int_any(eng, st, c, args, t):
    return ('i', la(('n', fresh())))


@model('core::clone::impls::<impl core::clone::Clone for usize>::clone', 'core::clone::impls::<impl core::clone::Clone for bool>::clone')
def clone_copy(eng, st, c, args, t):
    return rd(eng, st, args[0])


@model('core::panicking::panic', 'core::panicking::panic_fmt', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
       'core::panicking::panic_explicit', 'core::panicking::unreachable_default_msg', 'core::panicking::unreachable_display', 'core::panicking::assert_failed', 'core::panicking::panic_nounwind',
       'core::panicking::panic_display', 'core::panicking::panic_const::panic_const_div_by_zero', 'core::panicking::panic_str_2015')
def panic(eng, st, c, args, t):
    msg = c['rpath']
    for a in args:
        v = a
        while v[0] == 'sref':
            v = v[1]
        if v[0] == 'o' and isinstance(v[1], tuple):
            msg = str(v[1])
    eng.panic(st, msg)


@model('core::ptr::eq', 'core::ptr::addr_eq', 'core::ptr::const_ptr::<impl *const T>::eq')
def ptr_eq(eng, st, c, args, t):
    a = [rd(eng, st, x) for x in args]
    if a[0][0] == 'obj' and a[1][0] == 'obj':
        A, C = st.norm(a[0][1]), st.norm(a[1][1])
        if getattr(eng.spec, 'identities', False) and st.eq(st.count(A), lc(1)) and st.eq(st.count(C), lc(1)):
            # every object is somewhere else
            if A == C:
                return B(True)
            both = A & C
            if both and st.decide_ge(ladd(st.count(both), lc(-1))):
                st.vanish((A | C) - both)
                return B(True)
            st.vanish(both)
            eng.spec.on_other(eng, st, A, C)
            return B(False)
        return ('b', ('addr', frozenset([st.norm(a[0][1]), st.norm(a[1][1])])))
    raise Undecided('address comparison')


def opaque_value(eng, st, c, args, t):
    ty = eng.p.types[t['dty']]
    if ty['k'] == 'int':
        return ('i', la(('n' if not ty.get('signed') else 'z', fresh())))
    if ty['k'] == 'bool':
        return ('b', ('any', fresh()))
    if ty['k'] == 'tuple' and not ty.get('elems'):
        return UNIT
    return ('o', (c['rpath'].split('::')[-1], fresh()))


PREFIX += [('core::fmt::', opaque_value), ('<f32 as ', opaque_value), ('<f64 as ', opaque_value), ('num_traits::float', opaque_value),
           ('libm::', opaque_value), ('core::f32::', opaque_value), ('core::f64::', opaque_value), ('std::f32::', opaque_value), ('std::f64::', opaque_value),
           ("<core::fmt::", opaque_value), ('core::intrinsics::cold_path', opaque_value)]
