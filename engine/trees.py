"""What the properties of whole trees mean: specifications over the events of a root."""
import re
from absint import *
import canon
import models
from driver import Spec
from fix import Fix

PAR = '<probe::opq::Par as rstar::params::RTreeParams>::'
MIN, MAX, RE = [('p', PAR + x) for x in ('MIN_SIZE', 'MAX_SIZE', 'REINSERTION_COUNT')]
DIM = ('p', '<probe::opq::Pt as rstar::point::Point>::DIMENSIONS')


PIECES = 4


def valid_params(st):
    """What every constructor has checked (C17)."""
    st.assume_ge(ladd(la(MIN), lc(-1)))
    st.assume_ge(ladd(la(MAX), lc(-4)))
    st.assume_ge(ladd(lsub(la(MAX), lscale(la(MIN), 2)), lc(1)))
    st.assume_ge(ladd(lsub(lsub(la(MAX), la(MIN)), la(RE)), lc(-1)))
    st.assume_ge(ladd(la(DIM), lc(-2)))


class TreeSpec(Spec):
    void = False            # only trees without objects
    split_ghosts = tuple('pend%d' % i for i in range(PIECES)) + ('bad', 'selY')
    """Arbitrary well-formed trees as inputs."""

    def __init__(self):
        self.claims = {}
        self.modes = []
        self.ntrees = 0

    def params(self, eng):
        return [MIN, MAX, RE, DIM]

    def claim(self, eng, st, ok, site, text, cat='claim'):
        self.claims[site] = self.claims.get(site, 0) + 1
        if not ok:
            eng.issue(cat, site, text, st)

    def on_panic(self, eng, st, msg):
        self.claim(eng, st, False, 'panic in %s' % eng.wherefn(st), 'panics (%s) in %s' % (msg, eng.where(st)), 'panic')

    def tree_of(self, eng, st):
        """The tree argument after the operation."""
        for a in sorted(st.store, key=str):
            v = st.store[a]
            if v[0] == 'agg' and v[1] is not None and eng.p.types[v[1]].get('path') == 'rstar::rtree::RTree':
                return a, v
        raise Undecided('no tree')

    def soft(self, eng, st, ok, site, text):
        self.claims[site] = self.claims.get(site, 0) + 1
        if not ok:
            eng.issue('claim', site, text, st)

    def wellformed(self, eng, st, v):
        """-> content of the tree; reports what is wrong with its shape."""
        v = canon.Canon.clean_value(eng, st, v)
        v = canon.tidy(eng, st, v)
        root = size = None
        for (fname, ft), x in zip(eng.p.types[v[1]]['variants'][0]['fields'], v[3]):
            if ft in eng.p.parent_ty:
                root = x
            elif x[0] == 'i':
                size = x[1]
        A = None
        if root[0] in ('node', 'agg'):
            for site in ('C04 envelopes', 'C22 heights') + (('C23 capacity',) if self.cap is not None else ()):
                self.soft(eng, st, True, site, '')
        if root[0] == 'node':
            A = st.norm(root[2])
        elif root[0] == 'agg':
            kids = [x for x in root[3] if x[0] == 'seq']
            env = [x for x in root[3] if x[0] == 'env']
            empty = len(kids) == 1 and st.ge(lneg(canon.models_length(st, kids[0])))
            if empty:
                A = frozenset()
                self.soft(eng, st, not self.nonzero(st, env[0][1]), 'C04 empty root', 'the envelope of the empty root is not empty')
            else:
                A = canon.owned(st, root)
                why = canon.why_open(eng, st, root)
                self.soft(eng, st, False, 'C22 heights' if 'height' in why else 'C23 capacity' if 'maximum' in why else 'C04 envelopes', 'after %s: %s' % (self.kind, why))
        A = frozenset(x for x in st.norm(A) if isinstance(x, int))
        self.soft(eng, st, st.eq(size, st.count(A)), 'C03 size', 'after %s the size is not the number of objects' % self.kind)
        return A

    cap = None
    kind = 'a query'
    mutable = False         # does the operation get the tree in order to change its objects?

    def unchanged(self, eng, st):
        """C35: the tree is what it was."""
        if not self.mutable:
            return
        for s in Changed.cases(self, eng, st):
            a, v = self.tree_of(eng, s)
            A = self.wellformed(eng, s, v)
            self.soft(eng, s, not self.nonzero(s, self.g(s, 'init') - A), 'C35 kept', 'an object is no longer in the tree')
            self.soft(eng, s, not self.nonzero(s, A - self.g(s, 'init')), 'C35 only', 'the tree holds more than before')

    def guard(self, eng, st, ok, what, text):
        self.claim(eng, st, ok, 'C34 %s in %s' % (what, eng.wherefn(st)), '%s at %s' % (text, eng.where(st)))

    def make_tree(self, eng, st, ty, name):
        """An arbitrary tree: with objects, or empty."""
        i = self.ntrees
        self.ntrees += 1
        if i >= len(self.modes):
            self.modes.append('full')
        mode = self.modes[i]
        fs = []
        cnt = None
        for fname, ft in eng.p.types[ty]['variants'][0]['fields']:
            if ft in eng.p.parent_ty:
                if mode == 'full':
                    root = eng.make(st, ft, name)
                    self.trees.append(root[2])
                    cnt = st.count(root[2])
                else:
                    root = self.empty_root(eng, st, ft)
                    self.trees.append(frozenset())
                    cnt = lc(0)
                fs.append(root)
            else:
                fs.append(None)
        n = 0
        for k, (fname, ft) in enumerate(eng.p.types[ty]['variants'][0]['fields']):
            if fs[k] is None:
                if eng.p.types[ft]['k'] == 'int':
                    fs[k] = ('i', cnt)
                    n += 1
                else:
                    fs[k] = eng.make(st, ft, name + '.' + fname)
        if n != 1:
            raise Undecided('the tree does not have one size')
        return ('agg', ty, 0, tuple(fs))

    def empty_root(self, eng, st, ty):
        fs = []
        for fname, ft in eng.p.types[ty]['variants'][0]['fields']:
            if eng.p.is_vec(ft):
                fs.append(seq())
            elif eng.p.types[ft].get('path') == 'probe::opq::Env':
                fs.append(('env', frozenset()))
            else:
                fs.append(eng.make(st, ft, fname))
        return ('agg', ty, 0, tuple(fs))

    def begin(self, eng, st):
        pass

    def variants(self, modes):
        return (None,)

    def objs(self, st, v):
        while v[0] in ('sref',):
            v = v[1]
        if v[0] != 'obj':
            raise Undecided('object expected')
        return st.norm(v[1])

    def g(self, st, name):
        return st.norm(st.gh.get(name, frozenset()))

    def nonzero(self, st, A):
        A = frozenset(x for x in st.norm(A) if isinstance(x, int))
        return bool(A) and not st.ge(lneg(st.count(A)))


class TreeDriver(Fix):
    def starts(self, root):
        import itertools
        sp = self.spec
        sp.modes = []
        sp.ntrees = 0
        sp.trees = []
        self.start(root)
        n = sp.ntrees
        out = []
        for modes in itertools.product(('full', 'empty'), repeat=n):
            if sp.void and n and 'empty' not in modes:
                continue
            for sp.variant in sp.variants(modes):
                sp.modes = list(modes)
                sp.ntrees = 0
                sp.trees = []
                st = self.start(root)
                CUR[0] = st.ctr
                valid_params(st)
                sp.begin(self.eng, st)
                st.ctr = CUR[0]
                out.append(st)
        return out


class Located(TreeSpec):
    """C06: every selected object is yielded once, and no other."""

    def __init__(self, selection):
        TreeSpec.__init__(self)
        self.selection = selection

    def begin(self, eng, st):
        st.gh['init'] = frozenset().union(*self.trees)

    def on_expand(self, eng, st, A):
        """The inside of a node is looked at: its envelope must be accepted before anything below is given away."""
        if not self.selection:
            return
        st.clean_facts()
        R = self.g(st, 'rej')
        A = st.norm(A) - R
        if not A:
            return
        for t, val in st.bf.items():
            if t[0] == 'selp' and val and st.norm(t[2]) - R == A:
                return
        nested = False
        free = None
        for i in range(PIECES):
            P = self.g(st, 'pend%d' % i) - R
            if P == A:
                return
            if P & A:
                nested = True
            if not P and free is None:
                free = i
        if nested or free is None:
            st.gh['bad'] = self.g(st, 'bad') | A
        else:
            st.gh['pend%d' % free] = A

    lanes = [True, False]

    def apart(self, eng, st, A, whole):
        """Nodes whose envelope has not been asked about stay recognisable, and so does what has been passed by."""
        if whole:
            return bool(A & self.g(st, 'rej'))
        return frozenset(i for i in range(PIECES) if A & self.g(st, 'pend%d' % i))

    def on_fact(self, eng, st, t, val):
        if t[0] == 'selp':
            A = st.norm(t[2])
            for i in range(PIECES):
                P = self.g(st, 'pend%d' % i)
                if not P:
                    continue
                if not val:
                    st.gh['pend%d' % i] = P - A
                elif not self.nonzero(st, (P ^ A) - self.g(st, 'rej')):
                    st.gh['pend%d' % i] = frozenset()
            if not val:
                st.gh['rej'] = self.g(st, 'rej') | A
        elif t[0] == 'sell':
            g = 'selY' if val else 'rej'
            st.gh[g] = self.g(st, g) | t[2]

    def unaccepted(self, st, A):
        for i in range(PIECES):
            if A & self.g(st, 'pend%d' % i):
                return True
        return bool(A & (self.g(st, 'bad') | self.g(st, 'rej')))

    def keep_fact(self, eng, st, k):
        return k[0] in ('selp', 'sell')

    def at_cut(self, eng, st):
        """Only facts about parts of the tree that are still to be visited matter."""
        st.clean_facts()
        for g in list(st.gh):
            st.gh[g] = st.norm(st.gh[g])
        if 'selY' in st.gh:
            st.gh['selY'] -= st.gh.get('got', frozenset())
        got = st.gh.get('got', frozenset())
        for g in list(st.gh):
            if g == 'rej' or g == 'bad' or g.startswith('pend'):
                st.gh[g] -= got
        for g in list(st.gh):
            if g == 'bad' or g.startswith('pend'):
                st.gh[g] -= st.gh.get('rej', frozenset())

    def event(self, eng, st, name, args, a, t):
        if name == 'yielded':
            A = self.objs(st, a[0])
            where = eng.wherefn(st)
            self.claim(eng, st, not (A & st.norm(st.gh.get('got', frozenset()))), 'C06 once', 'an object may be yielded twice')
            if self.selection:
                st.clean_facts()
                self.claim(eng, st, A <= st.norm(st.gh.get('selY', frozenset())), 'C06 accepted', 'an object is yielded that the function has not accepted')
                self.claim(eng, st, not self.unaccepted(st, A),
                           'C06 envelopes accepted', 'an object is yielded below an envelope that the function has not accepted')
            self.claim(eng, st, A <= st.norm(st.gh['init']), 'C06 stored', 'an object is yielded that is not stored')
            st.gh['got'] = st.gh.get('got', frozenset()) | A
            return UNIT
        raise Undecided('event %s' % name)

    def exit(self, eng, st):
        rest = st.norm(st.gh.get('init', frozenset())) - st.norm(st.gh.get('got', frozenset()))
        if self.selection:
            rest -= st.norm(st.gh.get('rej', frozenset()))
        self.claim(eng, st, not self.nonzero(st, rest), 'C06 complete', 'an object that must be yielded is not')
        self.unchanged(eng, st)



class Query(TreeSpec):
    """C07, C13: a query finds the objects that satisfy its documented condition, decided by sound tests on envelopes."""

    def __init__(self, cond, single=False, prop='C07'):
        TreeSpec.__init__(self)
        self.cond = cond
        self.single = single
        self.prop = prop

    def begin(self, eng, st):
        st.gh['init'] = frozenset().union(*self.trees)
        self.q = {}
        for a, v in sorted(st.store.items(), key=str):
            if a[0] != 'L':
                continue
            while v[0] == 'sref':
                v = v[1]
            if v[0] == 'env':
                self.q['env'] = v[1]
            elif v[0] == 'obj':
                st.gh['X'] = st.norm(v[1])
            elif v[0] == 'o':
                n = self.p_name(eng, st, a)
                self.q[n] = v[1]

    def p_name(self, eng, st, a):
        ty = eng.p.types[eng.p.fns[st.frames[0].fn]['locals'][a[2]]]
        path = ty.get('path', '')
        return 'point' if path.endswith('::Pt') else 'scalar' if path.endswith('::S') else 'other'

    def judge(self, eng, st, t, val):
        """-> (objects, selected?) for a fact that decides about objects, or None."""
        q = self.q

        def one(A):
            return st.eq(st.count(A), lc(1))
        if self.cond in ('inside', 'touching'):
            Q = st.norm(q['env'])
            if t[0] == 'isect' and Q in t[1]:
                r = [x for x in t[1] if x != Q]
                if not r:
                    return None
                A = r[0]
                if not val:
                    return A, False
                if self.cond == 'touching' and one(A):
                    return A, True
            if t[0] == 'cenv' and t[1] == Q:
                if val:
                    return t[2], True
                if self.cond == 'inside' and one(t[2]):
                    return t[2], False
        elif self.cond == 'point':
            if t[0] == 'ocpt' and t[2] == q['point']:
                return t[1], val
            if t[0] == 'cpt' and t[2] == q['point'] and not val:
                return t[1], False
        elif self.cond == 'near':
            if t[0] == 'lt' and t[1] == q['scalar'] and isinstance(t[2], tuple) and t[2][0] in ('nd', 'envd') and t[2][2] == q['point']:
                if val:
                    return t[2][1], False
                if t[2][0] == 'nd':
                    return t[2][1], True
            if t[0] == 'lt' and t[2] == q['scalar'] and isinstance(t[1], tuple) and t[1][0] == 'nd' and t[1][2] == q['point'] and val:
                return t[1][1], True
        elif self.cond == 'equal':
            X = self.g(st, 'X')
            if t[0] == 'oeq' and X in t[1]:
                r = [x for x in t[1] if x != X]
                if r:
                    return r[0], val
            # equal objects have the same envelope (documented); it intersects and contains itself
            if t[0] == 'cenv' and t[2] == X and not val:
                return t[1], False
            if t[0] == 'cenv' and t[1] == X and not val and one(t[2]):
                return t[2], False
            if t[0] == 'isect' and X in t[1] and not val:
                r = [x for x in t[1] if x != X]
                if r:
                    return r[0], False
        elif self.cond == 'all':
            return None
        return None

    def on_fact(self, eng, st, t, val):
        r = self.judge(eng, st, t, val)
        if r is None:
            return
        g = 'selY' if r[1] else 'rej'
        st.gh[g] = self.g(st, g) | st.norm(r[0])

    def keep_fact(self, eng, st, k):
        return False

    def at_cut(self, eng, st):
        st.clean_facts()
        for g in list(st.gh):
            st.gh[g] = st.norm(st.gh[g])
        if 'selY' in st.gh:
            st.gh['selY'] -= st.gh.get('got', frozenset())

    def event(self, eng, st, name, args, a, t):
        if name == 'yielded':
            A = self.objs(st, a[0])
            p = self.prop
            self.claim(eng, st, not (A & self.g(st, 'got')), p + ' once', 'an object may be yielded twice')
            if self.cond != 'all':
                self.claim(eng, st, A <= self.g(st, 'selY') - self.g(st, 'rej'), p + ' condition', 'an object is yielded that is not known to satisfy the documented condition')
            self.claim(eng, st, A <= self.g(st, 'init'), p + ' stored', 'an object is yielded that is not stored')
            st.gh['got'] = self.g(st, 'got') | A
            if self.single:
                st.gh['one'] = A
            return UNIT
        if name == 'visit':
            A = self.objs(st, a[0])
            p = self.prop
            self.claim(eng, st, st.meta.get('tag') is None, 'C29 stop', 'the visitor is called again after it has stopped the query')
            self.claim(eng, st, not (A & self.g(st, 'got')), p + ' once', 'the visitor may be called twice for an object')
            self.claim(eng, st, A <= self.g(st, 'selY') - self.g(st, 'rej'), p + ' condition', 'an object is visited that is not known to satisfy the documented condition')
            self.claim(eng, st, A <= self.g(st, 'init'), p + ' stored', 'an object is visited that is not stored')
            st.gh['got'] = self.g(st, 'got') | A
            ty = eng.p.types[t['dty']]
            brk = st.choose([lambda s: None, lambda s: None]) == 1
            if brk:
                st.meta['tag'] = 'stop'
            want = 'Break' if brk else 'Continue'
            for i, var in enumerate(ty['variants']):
                if var['name'] == want:
                    return ('agg', t['dty'], i, tuple(('o', 'brk') if brk else UNIT for _ in var['fields']))
            raise Undecided('the answer of the visitor')
        if name == 'report':
            v = a[0]
            var = eng.p.types[v[1]]['variants'][v[2]]['name']
            stop = st.meta.get('tag') is not None
            self.claim(eng, st, (var == 'Break') == stop, 'C29 result', 'the query does not end the way the visitor has decided')
            if var == 'Break':
                self.claim(eng, st, v[3] == (('o', 'brk'),), 'C29 value', 'the value of the break is not handed on')
            if stop:
                st.gh['one'] = self.g(st, 'got')
            return UNIT
        if name == 'answer':
            # a yes or no question: is there an object that satisfies the condition?
            v = eng.truth(st, a[0])
            if v:
                self.claim(eng, st, self.nonzero(st, self.g(st, 'selY') & self.g(st, 'init')) and any(
                    st.ge(ladd(st.count(frozenset([x])), lc(-1))) for x in self.g(st, 'selY') & self.g(st, 'init')),
                    self.prop + ' yes', 'the answer is yes although no object satisfies the condition')
                st.gh['one'] = self.g(st, 'selY')
            return UNIT
        raise Undecided('event %s' % name)

    def exit(self, eng, st):
        rest = self.g(st, 'init') - self.g(st, 'got') - self.g(st, 'rej')
        ok = bool(st.gh.get('one')) or not self.nonzero(st, rest)
        self.claim(eng, st, ok, self.prop + ' complete', 'an object that satisfies the condition is missed: its subtree is skipped without a test that excludes it')
        self.unchanged(eng, st)


class Changed(TreeSpec):
    """Operations that change a tree: what is in it afterwards, and is it well-formed?"""

    cap = None          # what no node may exceed, where it is known not to do so at the start

    def __init__(self, kind, whole=True, single=False, query=None, leaked=False):
        TreeSpec.__init__(self)
        self.whole = whole
        self.kind = kind
        self.single = single
        self.leaked = leaked
        self.query = query
        self.selection = not query
        self.prop = 'C33' if query and query.cond == 'equal' else 'C02+C13' if query else 'C02'

    def begin(self, eng, st):
        st.gh['init'] = frozenset().union(*self.trees)
        if self.query:
            self.query.trees = self.trees
            self.query.begin(eng, st)

    on_expand = Located.on_expand
    apart = Located.apart
    lanes = Located.lanes
    unaccepted = Located.unaccepted
    at_cut = Located.at_cut

    def on_fact(self, eng, st, t, val):
        if self.query:
            Query.on_fact(self.query, eng, st, t, val)
        else:
            Located.on_fact(self, eng, st, t, val)

    def keep_fact(self, eng, st, k):
        return False if self.query else Located.keep_fact(self, eng, st, k)

    def event(self, eng, st, name, args, a, t):
        if name == 'taken':
            A = self.objs(st, a[0])
            self.take(eng, st, A)
            return UNIT
        raise Undecided('event %s' % name)

    def take(self, eng, st, A):
        p = self.prop
        self.claim(eng, st, not (A & self.g(st, 'got')), p + ' once', 'an object may be handed out twice')
        if not self.query:
            self.claim(eng, st, A <= self.g(st, 'selY'), p + ' accepted', 'an object is removed that the function has not accepted')
            self.claim(eng, st, not self.unaccepted(st, A),
                       p + ' envelopes accepted', 'an object is removed below an envelope that the function has not accepted')
        elif self.query.cond != 'all':
            self.claim(eng, st, A <= self.g(st, 'selY') - self.g(st, 'rej'), p + ' condition', 'an object is removed that is not known to satisfy the documented condition')
        if self.single:
            self.claim(eng, st, not self.g(st, 'got'), p + ' one', 'more than one object is removed')
        self.claim(eng, st, A <= self.g(st, 'init'), p + ' stored', 'an object is handed out that was not stored')
        st.gh['got'] = self.g(st, 'got') | A

    def on_drop(self, eng, st, A):
        pass

    def cases(self, eng, st):
        """With and without children below the root."""
        a, v = self.tree_of(eng, st)
        n = None
        for x in v[3]:
            if x[0] == 'agg' and x[1] in eng.p.parent_ty:
                for y in x[3]:
                    if y[0] == 'seq':
                        n = st.nl(canon.models_length(st, y))
        if n is None or st.ge(ladd(n, lc(-1))) or st.ge(lneg(n)):
            return [st]
        out = []
        for some in (True, False):
            s = st.clone()
            try:
                if some:
                    s.assume_ge(ladd(n, lc(-1)))
                else:
                    s.assume_eq(n)
                    canon.settle(s, self.tree_of(eng, s)[1])
                out.append(s)
            except Infeasible:
                pass
        return out

    def exit(self, eng, st):
        for s in self.cases(eng, st):
            self.exit_case(eng, s)

    def exit_case(self, eng, st):
        a, v = self.tree_of(eng, st)
        A = self.wellformed(eng, st, v)
        if self.leaked:
            return
        p = self.prop
        want = self.g(st, 'init') - self.g(st, 'got')
        self.soft(eng, st, not self.nonzero(st, want - A), p + ' kept', 'an object that was not handed out is no longer in the tree')
        self.soft(eng, st, not self.nonzero(st, A - want), p + ' left', 'an object that was handed out is still in the tree')
        if self.whole and not (self.single and self.g(st, 'got')):
            rest = want - self.g(st, 'rej')
            self.soft(eng, st, not self.nonzero(st, rest), p + ' complete', 'an object that must be removed is not')


class Inserted(Changed):
    """C01, C03, C04, C22, C23: the object is added, everything else stays, and the tree stays well-formed."""
    blunt = True
    summaries = True

    def __init__(self, cap=None):
        Changed.__init__(self, 'inserting', query=Query('all'))
        self.cap = cap
        self.prop = 'C01'
        self.over = MAX if cap is None else None        # nodes that are too big stay open: they are about to be split

    def begin(self, eng, st):
        old = frozenset().union(*self.trees)
        new = frozenset()
        for a, v in sorted(st.store.items(), key=str):
            if a[0] == 'L' and v[0] == 'obj':
                new |= v[1]
        if not new:
            raise Undecided('nothing to insert')
        st.gh['init'] = old | new

    lanes = None

    def apart(self, eng, st, A, whole):
        return None

    def on_expand(self, eng, st, A):
        pass

    def on_fact(self, eng, st, t, val):
        pass

    def exit_case(self, eng, st):
        a, v = self.tree_of(eng, st)
        A = self.wellformed(eng, st, v)
        want = self.g(st, 'init')
        self.soft(eng, st, not self.nonzero(st, want - A), 'C01 kept', 'an object is no longer in the tree')
        self.soft(eng, st, not self.nonzero(st, A - want), 'C01 only', 'the tree holds more than the objects it held and the new one')


class Near(TreeSpec):
    """C10, C11: nearest neighbours.

    best, far: the object that came out of a priority queue last, and objects that are not closer than it;
    near: objects to which no other is closer; rej: objects that are known not to be among the nearest."""
    split_ghosts = ()
    low_heights = True
    cond = None

    def __init__(self, mode):
        TreeSpec.__init__(self)
        self.mode = mode
        self.prop = 'C10' if mode == 'iter' else 'C11'

    def begin(self, eng, st):
        st.gh['init'] = frozenset().union(*self.trees)
        self.q = None
        for a, v in sorted(st.store.items(), key=str):
            while v[0] == 'sref':
                v = v[1]
            if a[0] == 'L' and v[0] == 'o':
                self.q = v[1]

    # ---- scalars
    def dist(self, t, kinds):
        """The content that a distance to the query point belongs to."""
        if isinstance(t, tuple) and len(t) == 3 and t[0] in kinds and t[2] == self.q:
            return t[1]
        return None

    def bound(self, eng, st, t):
        """Not less than the distance of the nearest object?"""
        if t == 'MAX' or t == 'DMIN' or (isinstance(t, tuple) and t[0] == 'ub'):
            return True
        A = self.dist(t, ('nd', 'mm'))
        return A is not None and self.nonzero(st, A) and st.norm(A) <= self.g(st, 'init')

    def keep_term(self, eng, st, t):
        return t == 'DMIN' or (isinstance(t, tuple) and t[0] == 'ub') or self.dist(t, ('nd', 'envd', 'mm')) is not None

    def other_term(self, eng, st, t, beside):
        if beside:
            return None
        A = self.dist(t, ('nd',))
        if A is not None and st.norm(A) <= self.g(st, 'near'):
            return 'DMIN'
        if t != 'DMIN' and not (isinstance(t, tuple) and t[0] == 'ub') and self.mode != 'iter' and self.bound(eng, st, t):
            return ('ub', fresh())
        return None

    # ---- the priority queue
    def parts(self, v):
        """nodes and scalars of an element"""
        ns, ks = [], []

        def rec(v):
            if v[0] == 'sref':
                rec(v[1])
            elif v[0] == 'agg':
                for x in v[3]:
                    rec(x)
            elif v[0] in ('node', 'obj'):
                ns.append(v)
            elif v[0] == 'o':
                ks.append(v[1])
        rec(v)
        return ns, ks

    def leaf(self, st, v):
        """Is this node a single object?  None: unknown"""
        if v[0] == 'obj':
            return True
        h = v[3]
        if h is None or h[0] in ('cnt', 'stair', 'is'):
            return None
        if h[0] == 'var':
            return False if h[2] >= 1 else None
        if st.ge(ladd(h, lc(-1))):
            return False
        return True if st.ge(lneg(h)) else None

    def apart_value(self, eng, st, v):
        if v[0] != 'agg':
            return None
        ns, ks = self.parts(v)
        if len(ns) != 1 or not ks:
            return None
        return {True: 'leaf', False: 'node', None: 'some'}[self.leaf(st, ns[0])]

    def key(self, st, v):
        """-> (node, its content, key, is the key a lower bound of the distance of everything below?)"""
        ns, ks = self.parts(v)
        if len(ns) != 1 or len(ks) != 1:
            return None
        A = ns[0][2] if ns[0][0] == 'node' else ns[0][1]
        K = self.dist(ks[0], ('nd', 'envd'))
        return ns[0], A, ks[0], K is not None and K == A and (ks[0][0] == 'envd' or self.leaf(st, ns[0]) is True)

    def on_pop(self, eng, st, v, rest):
        k = self.key(st, v)
        st.gh['best'] = st.gh['far'] = frozenset()
        if k is None or not k[3] or k[2][0] != 'nd':
            return
        far = frozenset()
        for s in rest:
            r = self.key(st, s[4] if s[0] == '*' else s[2])
            if r is None or not r[3]:
                continue
            if s[0] == '1':
                far |= st.norm(r[1])
            else:
                for u, c in s[3]:
                    if r[1] == frozenset([('$', u)]):
                        far |= st.norm(c)
        self.first(st, st.norm(k[1]), far)

    def first(self, st, A, far):
        """Nothing in far is closer than A."""
        st.gh['best'], st.gh['far'] = A, far
        rest = self.g(st, 'init') - A - self.g(st, 'rej') - far
        if not self.nonzero(st, rest):
            st.gh['near'] = self.g(st, 'near') | A

    def on_order(self, eng, st, name, kind, x, y):
        """The element that comes out first has the least key."""
        if kind == 'Min':
            x, y = y, x
        st.clean_facts()

        def le(a, b):
            return a is not None and b is not None and (models.known(eng, st, ('lt', b, a)) is False or models.known(eng, st, ('lt', a, b)) is True or models.known(eng, st, eqt(a, b)) is True)
        ok = {'Less': le(y, x), 'Greater': le(x, y), 'Equal': le(x, y) and le(y, x)}[name]
        self.claim(eng, st, ok, 'C10+C11+C21 queue order', 'the priority queue does not hand out the least distance first')

    # ---- comparisons
    def on_fact(self, eng, st, t, val):
        if t[0] == 'lt' and val:
            x, y = t[1], t[2]
            A = self.dist(y, ('nd', 'envd'))
            if A is not None and self.mode != 'iter' and self.bound(eng, st, x):
                self.reject(st, st.norm(A), y[0] == 'nd')
        if self.mode == 'all' and (t[0] == 'eq' or t[0] == 'lt'):
            x, y = tuple(t[1]) if t[0] == 'eq' and len(t[1]) == 2 else t[1:3] if t[0] == 'lt' else (None, None)
            A, B = self.dist(x, ('nd',)), self.dist(y, ('nd',))
            A = st.norm(A) if A is not None else None
            B = st.norm(B) if B is not None else None
            near = self.g(st, 'near')
            isn = lambda x, A: x == 'DMIN' or (A is not None and A <= near)
            if t[0] == 'eq':
                if isn(y, B) and A is not None and not isn(x, A):
                    x, A, y, B = y, B, x, A
                if isn(x, A) and B is not None and not isn(y, B):
                    if val:
                        st.gh['near'] = near | B
                    else:
                        self.reject(st, B, True)
            elif not val and isn(x, A) and B is not None:
                st.gh['near'] = near | B         # not farther than the nearest

    def reject(self, st, A, single):
        st.gh['rej'] = self.g(st, 'rej') | A
        if single and A == self.g(st, 'best'):
            st.gh['rej'] = self.g(st, 'rej') | self.g(st, 'far')

    def at_cut(self, eng, st):
        st.clean_facts()
        for g in list(st.gh):
            st.gh[g] = st.norm(st.gh[g])
        best = st.gh.get('best', frozenset())
        got = st.gh.get('got', frozenset())
        if best <= got | st.gh.get('near', frozenset()):
            st.gh['best'] = st.gh['far'] = frozenset()
        if self.mode == 'one' and st.gh.get('near'):
            st.gh['rej'] = st.gh['best'] = st.gh['far'] = frozenset()
        for g in ('near', 'rej'):
            if g in st.gh:
                st.gh[g] -= got

    def event(self, eng, st, name, args, a, t):
        if name in ('yielded', 'yielded_at'):
            A = self.objs(st, a[0])
            self.yields(eng, st, A)
            if name == 'yielded_at':
                d = a[1][1] if a[1][0] == 'o' else None
                D = self.dist(d, ('nd',))
                ok = (D is not None and st.norm(D) == A) or (d == 'DMIN' and A <= self.g(st, 'near'))
                self.claim(eng, st, ok, self.prop + ' distance', 'the distance that is handed out is not that of the object')
            st.gh['got'] = self.g(st, 'got') | A
            return UNIT
        raise Undecided('event %s' % name)

    def yields(self, eng, st, A):
        p = self.prop
        self.claim(eng, st, not (A & self.g(st, 'got')), p + ' once', 'an object may be handed out twice')
        self.claim(eng, st, A <= self.g(st, 'init'), p + ' stored', 'an object is handed out that is not stored')
        if self.mode == 'iter':
            later = self.g(st, 'init') - self.g(st, 'got') - A
            self.claim(eng, st, A == self.g(st, 'best') and not self.nonzero(st, later - self.g(st, 'far')), p + ' order',
                       'an object is handed out although another one that comes later may be closer')
        else:
            self.claim(eng, st, A <= self.g(st, 'near'), p + ' nearest', 'an object is handed out although another one may be closer')
        if self.mode == 'one':
            self.claim(eng, st, not self.g(st, 'got'), p + ' one', 'more than one object is handed out')

    def exit(self, eng, st):
        rest = self.g(st, 'init') - self.g(st, 'got')
        if self.mode == 'one':
            rest = frozenset() if self.g(st, 'got') else rest
        elif self.mode == 'all':
            rest -= self.g(st, 'rej')
        self.claim(eng, st, not self.nonzero(st, rest), self.prop + ' complete', 'an object that must be handed out is not')


class Popped(Changed):
    """C21: the nearest neighbour is removed."""
    identities = True

    def __init__(self):
        Changed.__init__(self, 'popping the nearest neighbour', whole=False, single=True, query=Near('one'))
        self.prop = 'C21'
        self.query.claim = self.claim

    def begin(self, eng, st):
        self.query.trees = self.trees
        self.query.begin(eng, st)

    def on_fact(self, eng, st, t, val):
        self.query.on_fact(eng, st, t, val)
        if t[0] == 'isect' and not val and len(t[1]) == 2:
            x, y = t[1]
            for a, b in ((x, y), (y, x)):
                if st.eq(st.count(b), lc(1)):
                    st.vanish(a & b)
                    st.gh['seen'] = self.g(st, 'seen') | (st.norm(a) - self.g(st, 'near'))
        if t[0] == 'cenv' and not val and st.eq(st.count(t[2]), lc(1)):
            st.vanish(t[1] & t[2])          # an envelope contains those of the objects below
            st.gh['seen'] = self.g(st, 'seen') | st.norm(t[1])

    def on_other(self, eng, st, A, B):
        """Two objects that are not the same one."""
        near = self.g(st, 'near')
        st.gh['seen'] = self.g(st, 'seen') | (st.norm(A | B) - near)

    def known(self, eng, st, t):
        if t[0] == 'cenv' and t[2] and st.norm(t[2]) <= st.norm(t[1]):
            return True
        if t[0] == 'isect' and len(t[1]) == 2 and self.nonzero(st, frozenset.intersection(*[st.norm(x) for x in t[1]])):
            return True
        return None

    lanes = [True, False]

    def apart(self, eng, st, A, whole):
        return bool(A & self.g(st, 'seen')) if whole else None

    def on_expand(self, eng, st, A):
        pass

    low_heights = True

    def apart_value(self, eng, st, v):
        return self.query.apart_value(eng, st, v)

    def keep_term(self, eng, st, t):
        return self.query.keep_term(eng, st, t)

    def other_term(self, eng, st, t, beside):
        return self.query.other_term(eng, st, t, beside)

    def on_pop(self, eng, st, v, rest):
        return self.query.on_pop(eng, st, v, rest)

    def on_order(self, *a):
        return self.query.on_order(*a)

    def at_cut(self, eng, st):
        return self.query.at_cut(eng, st)

    def take(self, eng, st, A):
        self.query.prop = 'C21'
        self.query.yields(eng, st, A)
        st.gh['got'] = self.g(st, 'got') | A

    def exit_case(self, eng, st):
        Changed.exit_case(self, eng, st)
        if not self.g(st, 'got'):
            self.soft(eng, st, not self.nonzero(st, self.g(st, 'init')), 'C21 complete', 'nothing is removed although the tree is not empty')


class Pairs(TreeSpec):
    """C12, and C24: the pairs of objects of two trees whose envelopes intersect.

    One arbitrary pair of an object a of the first and an object b of the second tree is followed.  A pair of nodes in a
    sequence is kept as a token: live if it covers (a, b), of which there is at most one, or dead.
    When a dead pair is looked at again, its nodes may hold a or b, but not both (anon1, anon2; old1, old2: such nodes of earlier pairs).
    apart: the envelopes of a and b do not intersect; ll: the live pair consists of a and b themselves; hit: (a, b) has been handed out."""
    split_ghosts = ('!a', '!b', '!live', 'apart', 'hit', 'll', 'anon1', 'anon2', 'old1', 'old2')
    pty = None

    def variants(self, modes):
        return ('touch', 'apart') if all(m == 'full' for m in modes) else (None,)

    def begin(self, eng, st):
        for i, A in enumerate(self.trees):
            st.gh['t%d' % (i + 1)] = A
        if self.variant is None:
            return
        for A, g in zip(self.trees, ('!a', '!b')):
            a, _ = st.split_atom(min(A), lc(1))
            st.gh[g] = frozenset([a])
        if self.variant == 'apart':
            st.gh['apart'] = st.gh['!a']

    def isect(self, eng, st, E, F):
        a, b = self.g(st, '!a'), self.g(st, '!b')
        for X, Y in ((E, F), (F, E)):
            if X & a and Y & b:
                if not self.g(st, 'apart'):
                    return True
                if not self.nonzero(st, X - a) and not self.nonzero(st, Y - b):
                    return False
        return None

    # ---- tokens
    def side(self, eng, v):
        """-> (type, content, is it an object?) of a reference to a node"""
        if v[0] != 'sref':
            return None
        while v[0] == 'sref':
            v = v[1]
        if v[0] not in ('node', 'agg') or v[1] not in eng.p.enum_ty:
            return None
        return v[1], frozenset(x for x in atoms_of(v) if isinstance(x, int)), v

    def leaf(self, eng, st, v):
        if v[0] == 'agg':
            return v[2] == eng.p.enum_ty[v[1]][0]
        h = v[3]
        if h is None or isinstance(h[0], str):
            return None
        return not st.decide_ge(ladd(h, lc(-1)))

    def judge(self, st, A, B):
        """Does the pair cover (a, b)?  None: cannot tell"""
        A, B = st.norm(A), st.norm(B)
        if not A <= self.g(st, 't1') or not B <= self.g(st, 't2'):
            return None
        if A & self.g(st, '!a') and B & self.g(st, '!b'):
            return True
        for X, a, i in ((A, '!a', '1'), (B, '!b', '2')):
            if not X & self.g(st, a) and not X & (self.g(st, 'anon' + i) | self.g(st, 'old' + i)):
                return False
        if A <= self.g(st, 'anon1') and B <= self.g(st, 'anon2'):
            return False
        return None

    def keep(self, eng, st, v):
        """What becomes of an element of a sequence."""
        if v[0] != 'agg' or len(v[3]) != 2:
            return v
        x, y = self.side(eng, v[3][0]), self.side(eng, v[3][1])
        if x is None or y is None:
            return v
        if self.pty not in (None, (v[1], x[0], y[0])):
            raise Undecided('pairs of different types')
        self.pty = (v[1], x[0], y[0])
        j = self.judge(st, x[1], y[1])
        z = st.atom(lc(1))
        if j is None:
            raise Undecided('a pair of nodes that does not come from one pair')
        if j:
            if self.g(st, '!live') or self.g(st, 'hit'):
                self.claim(eng, st, False, 'C12 once', 'a pair of objects may be handed out twice: the nodes above them are paired again')
            st.gh['!live'] = frozenset([z])
            p, q = self.leaf(eng, st, x[2]), self.leaf(eng, st, y[2])
            if p and q:
                st.gh['ll'] = frozenset([z])
            elif p is not False and q is not False:
                raise Undecided('a pair of nodes of unknown height')
        return ('obj', frozenset([z]))

    def load(self, eng, st, v):
        """A token is looked into."""
        if self.pty is None:
            raise Undecided('field of an object')
        ty, en1, en2 = self.pty
        out = []
        live = st.norm(v[1]) & self.g(st, '!live')
        if live:
            ll = self.g(st, 'll')
            hs = []
            for en, a, t in ((en1, '!a', 't1'), (en2, '!b', 't2')):
                if ll:
                    out.append(('node', en, self.g(st, a), lc(0)))
                    continue
                x, h = st.atom(), la(('n', fresh()))
                st.gh[t] = self.g(st, t) | {x}
                hs.append(h)
                out.append(('node', en, self.g(st, a) | {x}, h))
            if hs:
                st.choose([lambda s: s.assume_ge(ladd(hs[0], lc(-1))),
                           lambda s: (s.assume_eq(hs[0]), s.assume_ge(ladd(hs[1], lc(-1))))])
            st.gh['!live'] = st.gh['ll'] = frozenset()
        else:
            for en, i in ((en1, '1'), (en2, '2')):
                n = eng.make(st, en, 'pair')
                out.append(n)
                st.gh['old' + i] = self.g(st, 'old' + i) | self.g(st, 'anon' + i)
                st.gh['anon' + i] = n[2]
                st.gh['t' + i] = self.g(st, 't' + i) | n[2]
        return ('agg', ty, 0, tuple(('sref', n) for n in out))

    def at_cut(self, eng, st):
        st.clean_facts()
        here = set()
        for v in st.store.values():
            here |= st.norm(atoms_of(v))
        for g in list(st.gh):
            st.gh[g] = st.norm(st.gh[g])
            if g in ('t1', 't2', 'anon1', 'anon2', 'old1', 'old2'):
                st.gh[g] &= here | st.gh.get('!a', frozenset()) | st.gh.get('!b', frozenset())

    def event(self, eng, st, name, args, a, t):
        if name == 'pair':
            if not self.g(st, '!a'):
                self.claim(eng, st, False, 'C12+C24 pairs', 'a pair is found although one tree is empty')
                return UNIT
            j = self.judge(st, self.objs(st, a[0]), self.objs(st, a[1]))
            self.claim(eng, st, j is not None, 'C12 pairs', 'a pair is handed out that does not come from a pair of nodes')
            if j:
                self.claim(eng, st, not self.g(st, 'apart'), 'C12 intersecting', 'a pair of objects is handed out whose envelopes do not intersect')
                self.claim(eng, st, not (self.g(st, 'hit') or self.g(st, '!live')), 'C12 once', 'a pair of objects may be handed out twice')
                st.gh['hit'] = self.g(st, '!a')
            return UNIT
        raise Undecided('event %s' % name)

    def exit(self, eng, st):
        if not self.g(st, '!a'):
            self.claim(eng, st, True, 'C12+C24 ends', '')
        elif not self.g(st, 'apart'):
            self.claim(eng, st, bool(self.g(st, 'hit')), 'C12 complete', 'a pair of objects whose envelopes intersect is not handed out')


def atoms_of(v):
    s = set()

    def fs(x):
        s.update(x)
        return x
    vmap(v, fs, ident, ident)
    return frozenset(s)


def eqt(x, y):
    return ('eq', frozenset([x, y]))


class Sized(TreeSpec):
    """C03: what size() reports."""

    def begin(self, eng, st):
        st.gh['init'] = frozenset().union(*self.trees)

    def event(self, eng, st, name, args, a, t):
        if name == 'counted':
            A = self.g(st, 'init')
            self.claim(eng, st, st.eq(a[0][1], st.count(A)), 'C03 reported', 'the reported size is not the number of stored objects')
            return UNIT
        raise Undecided('event %s' % name)

    def exit(self, eng, st):
        pass


class Built(Changed):
    """C03, C04, C22: a new tree."""

    def __init__(self):
        Changed.__init__(self, 'creating', whole=False, query=Query('all'))
        self.prop = 'C05'

    def begin(self, eng, st):
        st.gh['init'] = frozenset()


class Copied(Changed):
    """C36: a clone of a tree."""

    def __init__(self):
        Changed.__init__(self, 'cloning', whole=False, query=Query('all'))
        self.prop = 'C36'

    def event(self, eng, st, name, args, a, t):
        if name != 'cloned':
            raise Undecided('event %s' % name)
        A = self.objs(st, a[0])
        self.claim(eng, st, not (A & self.g(st, 'got')), 'C36 once', 'an object may be cloned twice')
        st.gh['got'] = self.g(st, 'got') | A

    def exit_case(self, eng, st):
        a, v = self.tree_of(eng, st)
        A = self.wellformed(eng, st, v)
        want = self.g(st, 'init')
        self.soft(eng, st, not self.nonzero(st, want - A), 'C36 kept', 'an object is missing in the clone')
        self.soft(eng, st, not self.nonzero(st, A - want), 'C36 only', 'the clone holds something that the tree does not')


class Bulk(Changed):
    """C05, C03, C04, C22: a tree made from any number of objects."""
    blunt = True
    summaries = True
    lanes = None

    def __init__(self):
        Changed.__init__(self, 'bulk loading', whole=False, query=Query('all'))
        self.prop = 'C05'

    def begin(self, eng, st):
        st.gh['init'] = frozenset().union(*(c for a, v in st.store.items() if v[0] == 'seq' for s in v[1] for _, c in s[3]))

    apart = Inserted.apart
    on_expand = Inserted.on_expand
    on_fact = Inserted.on_fact


class Consumed(Changed):
    """C32: a tree turned into an iterator hands out every object."""

    def __init__(self):
        Changed.__init__(self, 'consuming', query=Query('all'))
        self.prop = 'C32'

    def exit(self, eng, st):
        rest = self.g(st, 'init') - self.g(st, 'got')
        self.claim(eng, st, not self.nonzero(st, rest), 'C32 complete', 'an object is not handed out')


QUERIES = {
    'in_env': ('inside', False), 'isect_env': ('touching', False), 'at_point': ('point', True), 'all_at_point': ('point', False),
    'near': ('near', False), 'contains': ('equal', True),
}


def tags(site, prop=None):
    """The properties a claim belongs to."""
    if prop == 'C24':
        return [prop]
    if site.startswith('panic in '):
        return [prop]
    if prop in ('C35', 'C36'):
        return [prop] if site.startswith(('C03', 'C04', 'C22', prop)) else []
    t = site.split(' ')[0]
    return t.split('+') if re.match(r'C\d\d', t) else None


def concerns(root, prop):
    if root.endswith('q_contains'):
        return prop in ('C33', 'C02', 'C24')
    if prop == 'C35':
        return root.endswith('mut')
    if prop == 'C29':
        return root.endswith(('__int', '__intmut')) and '_at_point' not in root.replace('all_at_point', '')
    return True


def make(prog, root, budget, prop=None):
    D = make_driver(prog, root, budget, prop)
    if prop == 'C24':
        D.spec.void = True
    if prop == 'C35':
        D.spec.mutable = True
    return D


def make_driver(prog, root, budget, prop):
    cap = MAX if prop == 'C23' else None
    if root.startswith('root_sel'):
        return TreeDriver(prog, Located(True), budget)
    if root.startswith('root_all'):
        return TreeDriver(prog, Query('all', False, 'C06'), budget)
    if root.startswith('root_q_'):
        n = root[7:]
        forms = n.split('__')
        cond, single = QUERIES[forms[0]]
        prop = 'C33' if cond == 'equal' else 'C07+C13+C29' if n.endswith(('__int', '__intmut')) and not single else 'C07+C13'
        return TreeDriver(prog, Query(cond, single, prop), budget)
    m = re.match(r'root_(drain|rm)_(.*)$', root)
    if m:
        kind, what = ('draining', False) if m.group(1) == 'drain' else ('removing', True), m.group(2)
        query = None
        if what == 'all':
            query = Query('all')
        elif what.startswith('q_'):
            query = Query(*QUERIES[what[2:]])
        return TreeDriver(prog, Changed(kind[0], what not in ('sel_some', 'leak'), kind[1], query, what == 'leak'), budget)
    if root.startswith('root_nn_'):
        return TreeDriver(prog, Near(root[8:].split('__')[0]), budget)
    if root == 'root_pop_nn':
        return TreeDriver(prog, Popped(), budget)
    if root == 'root_insert':
        return TreeDriver(prog, Inserted(cap), budget)
    if root == 'root_size':
        return TreeDriver(prog, Sized(), budget)
    if root == 'root_bulk':
        return TreeDriver(prog, Bulk(), budget)
    if root == 'root_pairs':
        return TreeDriver(prog, Pairs(), budget)
    if root in ('root_new', 'root_default', 'root_void_bulk'):
        return TreeDriver(prog, Built(), budget)
    if root == 'root_dup':
        return TreeDriver(prog, Copied(), budget)
    if root == 'root_into_iter':
        return TreeDriver(prog, Consumed(), budget)
    raise Undecided('no analysis for %s' % root)
