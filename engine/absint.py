"""Abstract interpretation of rstar's MIR.

The interpreter walks the substituted MIR of the compiled crate (dumped by driver/) over an abstract
domain in which a subtree is a *content*: a set of atoms, each an arbitrary multiset of stored objects.
Nothing of rstar is executed: objects, envelopes, points, scalars and user functions are uninterpreted,
loops are closed by widening (adjacent elements of a sequence are folded into one summary element, integer
values are joined as affine spaces), and recursive functions by tabulated summaries.
"""
import itertools
import re
from lin import *

CUR = [0]


def fresh():
    CUR[0] += 1
    return CUR[0]


class Fork(Exception):
    """The block needs a decision the state does not determine: n ways to go."""

    def __init__(self, n):
        self.n = n


class Infeasible(Exception):
    pass


class Undecided(Exception):
    pass


class Diverge(Exception):
    """The path ends here (panic, abort, unreachable)."""

    def __init__(self, kind):
        self.kind = kind


UNDEF = ('undef',)
UNIT = ('agg', None, 0, ())
BIG = 1 << 60


def I(n):
    return ('i', lc(n))


def B(x):
    return ('b', x)


def agg(ty, variant, *fields):
    return ('agg', ty, variant, tuple(fields))


def One(v, id=None):
    return ('1', id or fresh(), v)


def Many(n, contents, tmpl, id=None):
    return ('*', id or fresh(), n, tuple(contents), tmpl)


def seq(segs=()):
    return ('seq', tuple(segs))


# ------------------------------------------------------------------ generic value traversal
def vmap(v, fs, fi, fo):
    """Rebuild value v: fs on every content/env set, fi on every Lin, fo on every opaque term."""
    k = v[0]
    if k == 'i':
        return ('i', fi(v[1]))
    if k == 'o':
        return ('o', fo(v[1]))
    if k == 'b':
        return v if isinstance(v[1], bool) else ('b', fo(v[1]))
    if k == 'env' or k == 'obj':
        return (k, fs(v[1]))
    if k == 'agg':
        return ('agg', v[1], v[2], tuple([vmap(x, fs, fi, fo) for x in v[3]]))
    if k == 'node':
        return ('node', v[1], fs(v[2]), imap(v[3], fi))
    if k == 'seq':
        return ('seq', tuple([segmap(s, fs, fi, fo) for s in v[1]]))
    if k == 'sref':
        return ('sref', vmap(v[1], fs, fi, fo)) + v[2:]
    if k == 'iter':
        return ('iter', v[1], vmap(v[2], fs, fi, fo))
    if k == 'ti':
        return ('ti',) + imap(v[1:], fi)
    return v


def imap(h, fi):
    """h: a Lin, or an int marker ('var',uid,lb) ('cnt',uid) ('stair',Lin) ('is',{('cnt',uid) ('len',path,i)})."""
    if h is None:
        return None
    if h[0] == 'stair':
        return ('stair', fi(h[1]))
    if h[0] in ('var', 'cnt', 'is'):
        return h
    return fi(h)


def segmap(s, fs, fi, fo):
    if s[0] == '1':
        return ('1', s[1], vmap(s[2], fs, fi, fo))
    return ('*', s[1], imap(s[2], fi), tuple([(u, fs(c)) for u, c in s[3]]), vmap(s[4], fs, fi, fo))


def ident(x):
    return x


class Frame:
    __slots__ = ('fn', 'bb', 'dst', 'target', 'phase', 'mark')

    def __init__(self, fn, bb, dst, target, phase=0, mark=None):
        self.fn, self.bb, self.dst, self.target, self.phase, self.mark = fn, bb, dst, target, phase, mark

    def copy(self):
        return Frame(self.fn, self.bb, self.dst, self.target, self.phase, self.mark)


class State:
    __slots__ = ('store', 'frames', 'kids', 'cnt', 'gh', 'ints', 'sub', 'bf', 'dirty', 'trace', 'summ', 'sites', 'pre', 'meta', 'ctr', 'log', 'pos')

    def __init__(self):
        self.store = {}
        self.frames = []
        self.kids = {}
        self.cnt = {}
        self.gh = {}
        self.ints = frozenset()
        self.sub = {}
        self.bf = {}
        self.dirty = False
        self.trace = ()
        self.summ = None
        self.sites = ()
        self.pre = ()
        self.meta = {}
        self.ctr = 0
        self.log = ()
        self.pos = 0

    def choose(self, branches):
        """Take a decision (an index) and assume its condition."""
        if self.pos >= len(self.log):
            raise Fork(len(branches))
        i = self.log[self.pos]
        self.pos += 1
        branches[i](self)
        return i

    def clone(self):
        n = State()
        n.store = dict(self.store)
        n.frames = [f.copy() for f in self.frames]
        n.kids = dict(self.kids)
        n.cnt = dict(self.cnt)
        n.gh = dict(self.gh)
        n.ints = self.ints
        n.sub = dict(self.sub)
        n.bf = dict(self.bf)
        n.dirty = self.dirty
        n.trace = self.trace
        n.summ = self.summ
        n.sites = self.sites
        n.pre = self.pre
        n.meta = dict(self.meta)
        n.ctr = self.ctr
        n.log = self.log
        n.pos = self.pos
        return n

    # ---- contents
    def atom(self, count=None):
        a = fresh()
        self.cnt[a] = count if count is not None else la(('n', fresh()))
        return a

    def gnum(self):
        """Integers the specification follows."""
        return {k: v for k, v in self.meta.items() if isinstance(k, str) and k.startswith('#')}

    def norm(self, s):
        kids = self.kids
        if not any(x in kids for x in s if isinstance(x, int)):
            return s
        out = set()
        work = list(s)
        while work:
            x = work.pop()
            k = kids.get(x) if isinstance(x, int) else None
            if k is None:
                out.add(x)
            else:
                work.extend(k)
        return frozenset(out)

    def replace_atom(self, x, ks):
        self.kids[x] = tuple(ks)
        for g, s in self.gh.items():
            if x in s:
                self.gh[g] = (s - {x}) | frozenset(ks)
        self.dirty = True

    def split_atom(self, x, c1):
        """x := x1 + x2, with c1 = #x1 (a Lin) or None for unknown."""
        if c1 is None:
            c1 = la(('n', fresh()))
        a, b = fresh(), fresh()
        c = self.cnt[x]
        self.cnt[a] = c1
        self.cnt[b] = lsub(c, c1)
        self.replace_atom(x, (a, b))
        return a, b

    def vanish(self, s):
        """The contents s are known to be empty."""
        for x in self.norm(s):
            if isinstance(x, int):
                c = self.cnt[x]
                self.replace_atom(x, ())
                self.assume_eq(c)

    def count(self, s):
        r = lc(0)
        for x in self.norm(s):
            r = ladd(r, self.cnt[x])
        return self.nl(r)

    # ---- integers
    def nl(self, L):
        sub = self.sub
        if not sub or not L[1]:
            return L
        while True:
            for a, k in L[1]:
                if a in sub:
                    L = ladd((L[0], L[1] - {(a, k)}), lscale(sub[a], k))
                    break
            else:
                return L

    def facts(self):
        return self.ints

    def _bounds(self, L):
        # every symbolic quantity is far below usize::MAX
        if abs(L[0]) >= BIG:
            return [(BIG // 4, frozenset(((a, -1),))) for a, _ in L[1]]
        return []

    def ge(self, L):
        L = self.nl(L)
        if not L[1]:
            return L[0] >= 0
        b = self._bounds(L)
        return entails(list(self.ints) + b if b else self.ints, L)

    def eq(self, a, b):
        d = self.nl(lsub(a, b))
        if not d[1]:
            return d[0] == 0
        return self.ge(d) and self.ge(lneg(d))

    def assume_ge(self, L):
        L = self.nl(L)
        if not L[1]:
            if L[0] < 0:
                raise Infeasible()
            return
        b = self._bounds(L)
        fs = list(self.ints) + b if b else self.ints
        if entails(fs, L):
            return
        if contradictory(fs, L):
            raise Infeasible()
        self.ints = self.ints | {L}
        # an equality in disguise?
        if lneg(L) in self.ints or (len(L[1]) <= 3 and entails(fs, lneg(L))):
            self.assume_eq(L)

    def assume_eq(self, L):
        L = self.nl(L)
        if not L[1]:
            if L[0] != 0:
                raise Infeasible()
            return
        cand = [(a, k) for a, k in L[1] if k in (1, -1) and a[0] != 'p']
        if not cand:
            self.ints = self.ints | {L, lneg(L)}
            return
        a, k = max(cand, key=lambda t: (t[0][0] in ('n', 'z'), str(t[0])))
        r = lscale((L[0], L[1] - {(a, k)}), -k)
        self.sub[a] = r
        new = set()
        if a[0] != 'z':
            new.add(r)
        for f in self.ints:
            new.add(self.nl(f))
        out = set()
        for f in new:
            if not f[1]:
                if f[0] < 0:
                    raise Infeasible()
                continue
            if f[0] >= 0 and all(c > 0 and nonneg_atom(x) for x, c in f[1]):
                continue
            out.add(f)
        self.ints = frozenset(out)
        if out and inconsistent(out):
            raise Infeasible()

    def decide_ge(self, L):
        L = self.nl(L)
        if self.ge(L):
            return True
        n = (-L[0] - 1, frozenset((a, -k) for a, k in L[1]))
        if self.ge(n):
            return False
        return self.choose([lambda s: s.assume_ge(L), lambda s: s.assume_ge(n)]) == 0

    def decide_eq(self, a, b):
        d = self.nl(lsub(a, b))
        if not d[1]:
            return d[0] == 0
        if not self.ge(d):
            n = lneg(d)
            if not self.ge(n):
                if self.ge(ladd(d, lc(-1))) or self.ge(ladd(n, lc(-1))):
                    return False
                return self.choose([lambda s: s.assume_eq(d), lambda s: s.assume_ge(ladd(d, lc(-1))), lambda s: s.assume_ge(ladd(n, lc(-1)))]) == 0
            if self.ge(ladd(n, lc(-1))):
                return False
            return self.choose([lambda s: s.assume_eq(d), lambda s: s.assume_ge(ladd(n, lc(-1)))]) == 0
        if self.ge(ladd(d, lc(-1))):
            return False
        if self.ge(lneg(d)):
            return True
        return self.choose([lambda s: s.assume_eq(d), lambda s: s.assume_ge(ladd(d, lc(-1)))]) == 0

    # ---- predicates
    def nterm(self, t):
        if isinstance(t, tuple):
            return tuple([self.nterm(x) for x in t])
        if isinstance(t, frozenset):
            return self.norm(t)
        return t

    def clean_facts(self):
        if self.dirty:
            self.bf = {self.nterm(k): v for k, v in self.bf.items()}
            self.dirty = False


# ------------------------------------------------------------------ the program
class Prog:
    def __init__(self, d):
        self.d = d
        self.types = d['types']
        self.fns = d['fns']
        self.roots = d['roots']
        self.iter_next = d.get('iter_next', {})
        self._heads = {}
        self._live = {}
        self.parent_ty = {}
        self.enum_ty = {}
        self.objtys = set()
        for i, t in enumerate(self.types):
            if t and t.get('k') == 'adt' and t.get('path') in ('probe::opq::Obj', 'probe::opq::Def', 'probe::opq::Cop'):
                self.objtys.add(i)
        self.find_nodes()
        self.scc()

    def t(self, i):
        return self.types[i]

    def tpath(self, i):
        return self.types[i].get('path', '')

    def is_vec(self, i):
        return self.types[i].get('path') in ('alloc::vec::Vec', 'smallvec::SmallVec')

    def find_nodes(self):
        """A tree type: an enum with an object in one variant and a struct in another whose vector holds the enum."""
        for i, t in enumerate(self.types):
            if t.get('k') != 'adt' or not t.get('enum') or t.get('crate') != 'rstar':
                continue
            leaf = par = None
            if len(t['variants']) != 2:
                continue
            for vi, v in enumerate(t['variants']):
                if len(v['fields']) != 1:
                    continue
                ft = v['fields'][0][1]
                if ft in self.objtys:
                    leaf = vi
                else:
                    ftt = self.types[ft]
                    if ftt.get('k') == 'adt' and not ftt.get('enum') and ftt.get('variants'):
                        for _, x in ftt['variants'][0]['fields']:
                            if self.is_vec(x) and self.types[x]['args'][0] == i:
                                par = (vi, ft)
            if leaf is not None and par is not None:
                self.enum_ty[i] = (leaf, par[0], par[1], t['variants'][leaf]['fields'][0][1])
                self.parent_ty[par[1]] = i

    # ---- control flow
    def succs(self, t):
        k = t['k']
        if k in ('goto',):
            return [t['t']]
        if k == 'switch':
            return [b for _, b in t['c']] + [t['o']]
        if k in ('drop', 'assert'):
            return [t['t']]
        if k == 'call':
            return [t['t']] if t['t'] is not None else []
        return []

    def heads(self, key):
        """Targets of back edges."""
        if key in self._heads:
            return self._heads[key]
        bl = self.fns[key]['blocks']
        color = {}
        heads = set()
        stack = [(0, iter(self.succs(bl[0]['t'])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    heads.add(s)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succs(bl[s]['t']))))
                    break
            else:
                color[n] = 2
                stack.pop()
        self._heads[key] = heads
        return heads

    def liveness(self, key):
        if key in self._live:
            return self._live[key]
        f = self.fns[key]
        bl = f['blocks']
        use = [set() for _ in bl]
        de = [set() for _ in bl]

        def rd(b, p):
            if p[0] not in de[b]:
                use[b].add(p[0])
            for x in p[1]:
                if isinstance(x, list) and x[0] == 'i' and x[1] not in de[b]:
                    use[b].add(x[1])

        def op(b, o):
            if o['k'] != 'const':
                rd(b, o['p'])

        def wr(b, p):
            if p[1]:
                rd(b, p)
            else:
                de[b].add(p[0])

        def rv(b, r):
            for x in r[1:]:
                if isinstance(x, dict) and 'k' in x:
                    op(b, x)
                elif isinstance(x, list) and r[0] == 'agg':
                    for y in x:
                        if isinstance(y, dict):
                            op(b, y)
            if r[0] in ('ref', 'addr', 'discr', 'reborrow'):
                rd(b, r[1])
        for i, b in enumerate(bl):
            for s in b['s']:
                if s[0] == '=':
                    rv(i, s[2])
                    wr(i, s[1])
                elif s[0] in ('dead', 'live'):
                    de[i].add(s[1])
                elif s[0] == 'setd':
                    rd(i, s[1])
                elif s[0] == 'assume':
                    op(i, s[1])
            t = b['t']
            if t['k'] == 'switch':
                op(i, t['d'])
            elif t['k'] == 'assert':
                op(i, t['c'])
            elif t['k'] == 'drop':
                rd(i, t['p'])
            elif t['k'] == 'call':
                if 'fop' in t:
                    op(i, t['fop'])
                for a in t['a']:
                    op(i, a)
                wr(i, t['dst'])
            elif t['k'] == 'return':
                if 0 not in de[i]:
                    use[i].add(0)
        inn = [set() for _ in bl]
        ch = True
        while ch:
            ch = False
            for i in range(len(bl) - 1, -1, -1):
                o = set()
                for s in self.succs(bl[i]['t']):
                    o |= inn[s]
                n = use[i] | (o - de[i])
                if n != inn[i]:
                    inn[i] = n
                    ch = True
        self._live[key] = inn
        return inn

    def callees(self, key):
        out = set()

        def ops(o):
            if isinstance(o, dict) and o.get('k') == 'const' and 'fn' in o:
                out.add(o['fn']['key'])
        for b in self.fns[key]['blocks']:
            for s in b['s']:
                if s[0] == '=':
                    r = s[2]
                    for x in r[1:]:
                        if isinstance(x, list):
                            for y in x:
                                ops(y)
                        else:
                            ops(x)
            t = b['t']
            if t['k'] == 'call':
                if 'f' in t and 'key' in t['f']:
                    out.add(t['f']['key'])
                for a in t['a']:
                    ops(a)
        return out

    def scc(self):
        g = {k: [c for c in self.callees(k) if c in self.fns] for k in self.fns}
        idx, low, on, st = {}, {}, set(), []
        self.selfrec = set()
        self.rec = set()
        c = itertools.count()
        for r in g:
            if r in idx:
                continue
            work = [(r, iter(g[r]))]
            idx[r] = low[r] = next(c)
            st.append(r)
            on.add(r)
            while work:
                n, it = work[-1]
                for m in it:
                    if m not in idx:
                        idx[m] = low[m] = next(c)
                        st.append(m)
                        on.add(m)
                        work.append((m, iter(g[m])))
                        break
                    elif m in on:
                        low[n] = min(low[n], idx[m])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[n])
                    if low[n] == idx[n]:
                        comp = []
                        while True:
                            m = st.pop()
                            on.discard(m)
                            comp.append(m)
                            if m == n:
                                break
                        if len(comp) > 1 or n in g[n]:
                            self.rec.update(comp)
        for k in g:
            if k in g[k]:
                self.selfrec.add(k)
