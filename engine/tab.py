"""Recursive functions: every call is answered from a table of the effects the function can have on such an entry."""
from absint import *
import canon


class Restart(Exception):
    """A function turned out to be recursive."""


class Context:
    """One activation to be explored: the root, or a recursive function on one shape of its arguments."""

    def __init__(self, name):
        self.name = name
        self.cells = {}
        self.exits = {}
        self.work = []
        self.queue = []
        self.deps = {}
        self.entry = None
        self.root = False


def targets(v, out):
    """Places that v refers to."""
    k = v[0]
    if k == 'mref':
        out.append((v[1], v[2]))
    elif k in ('miter', 'mslice'):
        out.append((v[1], v[2]))
    elif k == 'box':
        out.append((v[1], ()))
    elif k == 'agg':
        for x in v[3]:
            targets(x, out)
    elif k == 'sref':
        targets(v[1], out)
    elif k == 'iter':
        targets(v[2], out)
    elif k == 'seq':
        for s in v[1]:
            targets(s[2] if s[0] == '1' else s[4], out)


def relocate(v, f):
    """v with every place (alloc, path) replaced by f(alloc, path)."""
    k = v[0]
    if k == 'mref':
        al, pa = f(v[1], v[2])
        return ('mref', al, pa) + v[3:]
    if k in ('miter', 'mslice'):
        al, pa = f(v[1], v[2])
        return (k, al, pa) + v[3:]
    if k == 'box':
        al, pa = f(v[1], ())
        if pa != ():
            raise Undecided('box inside a place')
        return ('box', al)
    if k == 'agg':
        return ('agg', v[1], v[2], tuple([relocate(x, f) for x in v[3]]))
    if k == 'sref':
        return ('sref', relocate(v[1], f)) + v[2:]
    if k == 'iter':
        return ('iter', v[1], relocate(v[2], f))
    if k == 'seq':
        return ('seq', tuple([('1', s[1], relocate(s[2], f)) if s[0] == '1' else s for s in v[1]]))
    return v


def localise(eng, st, args):
    """-> (places, values): the arguments with everything they refer to moved into allocations of their own."""
    places = []
    work = list(args)
    while work:
        v = work.pop()
        out = []
        targets(v, out)
        for al, pa in out:
            if al[0] == 'L' and al not in st.store:
                continue
            if any(al == b and pa[:len(q)] == q for b, q in places):
                continue
            places = [(b, q) for b, q in places if not (b == al and q[:len(pa)] == pa)]
            places.append((al, pa))
            try:
                work.append(eng.get(st, al, pa))
            except Undecided:
                raise Undecided('argument that cannot be followed')
    places.sort(key=str)
    names = [('H', fresh()) for _ in places]

    def f(al, pa):
        for (b, q), n in zip(places, names):
            if al == b and pa[:len(q)] == q:
                return n, pa[len(q):]
        raise Undecided('place outside of the arguments')
    return places, names, [relocate(v, f) for v in args], [relocate(eng.get(st, al, pa), f) for al, pa in places]


class Import:
    """Rename everything in a template into fresh names of the current state; contents by amap."""

    def __init__(self, amap):
        self.amap = amap
        self.ids = {}
        self.lins = {}

    def id(self, i):
        if i not in self.ids:
            self.ids[i] = fresh()
        return self.ids[i]

    def lin(self, L):
        d = []
        for a, k in L[1]:
            if a[0] in ('n', 'z') and len(a) == 2 and isinstance(a[1], int):
                if a not in self.lins:
                    self.lins[a] = (a[0], fresh())
                a = self.lins[a]
            d.append((a, k))
        return (L[0], frozenset(d))

    def cset(self, s):
        out = set()
        for x in s:
            if isinstance(x, int):
                out |= self.amap[x]
            elif x[0] in ('$', '>'):
                out.add((x[0], self.id(x[1])))
            else:
                out.add(x)
        return frozenset(out)

    def hint(self, h):
        if h is None:
            return None
        if h[0] == 'stair':
            return ('stair', self.lin(h[1]))
        if h[0] == 'var':
            return ('var', self.id(h[1]), h[2])
        if h[0] == 'cnt':
            return ('cnt', self.id(h[1]))
        if h[0] == 'is':
            return ('is', frozenset(('cnt', self.id(m[1])) if m[0] == 'cnt' else m for m in h[1]))
        return self.lin(h)

    def term(self, t):
        if isinstance(t, frozenset):
            if any(isinstance(x, int) for x in t) or any(isinstance(x, tuple) and x and x[0] in ('$', '>') for x in t):
                return self.cset(t)
            return frozenset(self.term(x) for x in t)
        if isinstance(t, tuple):
            if t and t[0] in ('any', 'each', 'choice', 'pt', 'ub') and len(t) == 2:
                return (t[0], self.id(t[1]))
            if t and t[0] == 'int':
                return ('int', self.lin(t[1]))
            return tuple(self.term(x) for x in t)
        return t

    def alloc(self, a):
        return ('H', self.id(a[1])) if a[0] == 'H' else a

    def path(self, p):
        return tuple([('s', self.id(e[1])) if isinstance(e, tuple) and e[0] == 's' else e for e in p])

    def val(self, v):
        k = v[0]
        if k == 'i':
            return ('i', self.lin(v[1]))
        if k in ('o', 'b'):
            return v if isinstance(v[1], bool) else (k, self.term(v[1]))
        if k in ('env', 'obj'):
            return (k, self.cset(v[1]))
        if k == 'agg':
            return ('agg', v[1], v[2], tuple([self.val(x) for x in v[3]]))
        if k == 'node':
            return ('node', v[1], self.cset(v[2]), self.hint(v[3]))
        if k == 'ti':
            return ('ti',) + self.hint(v[1:])
        if k == 'seq':
            out = []
            for s in v[1]:
                if s[0] == '1':
                    out.append(('1', self.id(s[1]), self.val(s[2])))
                else:
                    out.append(('*', self.id(s[1]), self.hint(s[2]), tuple([(self.id(u), self.cset(c)) for u, c in s[3]]), self.val(s[4])))
            return ('seq', tuple(out))
        if k == 'sref':
            return ('sref', self.val(v[1])) + v[2:]
        if k == 'mref':
            return ('mref', self.alloc(v[1]), self.path(v[2])) + v[3:]
        if k in ('miter', 'mslice'):
            return (k, self.alloc(v[1]), self.path(v[2]), tuple(self.id(i) for i in v[3])) + v[4:]
        if k == 'iter':
            return ('iter', v[1], self.val(v[2]))
        if k == 'box':
            return ('box', self.alloc(v[1]))
        return v


def entry_state(eng, st, tab):
    """-> (state at the entry of the called function, places, names)."""
    places, names, args, vals = localise(eng, st, tab.args)
    c = st.clone()
    c.log = ()
    c.pos = 0
    c.store = {}
    for i, a in enumerate(args):
        c.store[('L', 0, i + 1)] = a
    for n, v in zip(names, vals):
        c.store[n] = v
    c.frames = [Frame(tab.key, 0, None, None)]
    c.meta = {k: v for k, v in st.meta.items() if k in st.gnum() or k == 'tag'}
    c.meta['keep'] = tuple(names)
    # what the callee can see
    seen = set()

    def at(path, kind, s):
        for x in s:
            if isinstance(x, int):
                seen.add(x)
    for a in list(c.store):
        v = vmap(c.store[a], c.norm, c.nl, c.nterm)
        c.store[a] = v
        canon.positions(v, (), at)
    for g in list(c.gh):
        s = c.norm(c.gh[g])
        if g.startswith('@'):
            del c.gh[g]
            continue
        s = frozenset(x for x in s if not isinstance(x, int) or x in seen)
        if s:
            c.gh[g] = s
        else:
            del c.gh[g]
    return c, places, names


def apply(eng, s, c, slots, places, tab, ex, X):
    """The state after the call: s at the call (with the entry c in canonical form), X an instance of an exit.
    -> state, or None if this exit is impossible here."""
    k = c.st.clone()
    k.store = dict(s.store)
    k.frames = [f.copy() for f in s.frames]
    k.gh = {g: k.norm(x) for g, x in s.gh.items()}
    k.bf = dict(s.bf)
    k.dirty = True
    k.meta = dict(s.meta)
    k.meta.pop('dep', None)
    k.log = ()
    k.pos = 0
    CUR[0] = max(CUR[0], c.st.ctr, s.ctr)
    I = Import({})
    try:
        # integers
        for f in X.ints:
            k.ints = k.ints | {I.lin(f)}
        for a, L in X.sub.items():
            k.assume_eq(lsub(I.lin(la(a)), I.lin(L)))
        for L, M in zip(X.meta['entry'], slots):
            k.assume_eq(lsub(I.lin(L), M))
        # contents
        old = frozenset().union(*[m for m in c.members.values()]) if c.members else frozenset()
        split = {}
        for n, ms in c.members.items():
            ys = sorted(x for x in X.gh.get('@%d' % n, frozenset()) if isinstance(x, int))
            ms = sorted(ms)
            for y in ys:
                if y in I.amap:
                    raise Undecided('an object with two origins')
                I.amap[y] = frozenset()
            if len(ys) == 1:
                I.amap[ys[0]] = frozenset(ms)
                k.assume_eq(lsub(sum_cnt(k, ms), I.lin(X.cnt[ys[0]])))
                continue
            for m in ms:
                ks = []
                for y in ys:
                    a = fresh()
                    k.cnt[a] = I.lin(X.cnt[y]) if len(ms) == 1 else la(('n', fresh()))
                    I.amap[y] = I.amap[y] | {a}
                    ks.append(a)
                split[m] = ks
            if len(ms) > 1:
                for y in ys:
                    k.assume_eq(lsub(sum_cnt(k, I.amap[y]), I.lin(X.cnt[y])))
        for m, ks in split.items():
            t = k.cnt[m]
            k.replace_atom(m, ks)
            k.assume_eq(lsub(t, sum_cnt(k, ks)))
        for y in X.cnt:
            if y not in I.amap:
                a = fresh()
                k.cnt[a] = I.lin(X.cnt[y])
                I.amap[y] = frozenset([a])
        # ghosts
        new = k.norm(old)
        for g in set(k.gh) | set(X.gh):
            if g.startswith('@'):
                continue
            k.gh[g] = (k.norm(k.gh.get(g, frozenset())) - new) | I.cset(X.gh.get(g, frozenset()))
        for m, v in X.meta.items():
            if isinstance(m, str) and m.startswith('#'):
                k.meta[m] = I.lin(v)
        k.meta.pop('tag', None)
        if 'tag' in X.meta:
            k.meta['tag'] = X.meta['tag']
        for t, v in X.bf.items():
            k.bf[k.nterm(I.term(t))] = v
    except Infeasible:
        return None
    keep = [I.alloc(a) for a in X.meta['keep']]

    def f(al, pa):
        if al in keep:
            b, q = places[keep.index(al)]
            return b, q + pa
        return al, pa
    vals = {}
    for a, v in X.store.items():
        vals[I.alloc(a)] = relocate(I.val(v), f)
    ret = vals.pop(('L', 0, 0), UNIT)
    for a, v in vals.items():
        if a in keep:
            b, q = places[keep.index(a)]
            if q == ():
                k.store[b] = v
            else:
                eng.put(k, b, q, v)
        elif a[0] == 'H':
            k.store[a] = v
    if tab.dst is not None:
        al, pa = tab.dst
        if pa == ():
            k.store[al] = ret
        else:
            eng.put(k, al, pa, ret)
    if tab.mark != 'stay':
        fr = k.frames[-1]
        if tab.target is None:
            return None
        fr.bb = tab.target
        fr.phase = 0
    k.clean_facts()
    k.ctr = CUR[0]
    return k


def sum_cnt(st, xs):
    r = lc(0)
    for x in xs:
        r = ladd(r, st.cnt[x])
    return r
