"""Exploration: the worklist over abstract states."""
import sys
from absint import *
import arith
import engine as E
import models


# what a program that gets there panics with
FATAL = ('range out of bounds', 'index out of bounds', 'range out of order', 'div0', 'underflow', 'diverging call')


class Spec:
    """What the events of a root mean; subclasses decide the properties."""

    def on_expand(self, eng, st, A):
        pass

    def make_tree(self, eng, st, ty, name):
        raise Undecided('cannot make a tree')

    def at_cut(self, eng, st):
        pass

    def keep_term(self, eng, st, t):
        return False

    def atom_sig(self, eng, st, sig):
        return {}

    def params(self, eng):
        return []

    def keep_fact(self, eng, st, k):
        return False

    split_ghosts = ()

    lanes = None

    def apart(self, eng, st, A, whole):
        """Neighbouring elements with different values here are not summarised together."""
        return None

    low_heights = False

    def apart_value(self, eng, st, v):
        return None

    def other_term(self, eng, st, t, beside):
        """What an opaque value becomes at a cut; beside: it stands next to a reference to a node or an object."""
        return None

    def on_pop(self, eng, st, v, rest):
        """An element comes out of a priority queue."""
        pass

    def on_order(self, eng, st, name, kind, x, y):
        """A priority queue of that kind puts elements with the keys x and y into that order."""
        raise Undecided('priority queue')

    def isect(self, eng, st, E, F):
        """Do envelopes of these contents intersect?"""
        return None

    def keep(self, eng, st, v):
        """What is stored of an element that is put into a sequence."""
        return v

    load = None

    def on_fact(self, eng, st, t, val):
        pass

    def on_drop(self, eng, st, A):
        pass

    def on_panic(self, eng, st, msg):
        pass

    def order(self, eng, st, terms):
        return []

    def known(self, eng, st, t):
        return None

    def exit(self, eng, st):
        pass

    def event(self, eng, st, name, args, a, t):
        raise Undecided('event %s' % name)


class Claims(Spec):
    """Roots that state what must hold by check / same / same_env / same_obj."""

    def __init__(self):
        self.claims = {}
        self.arith = True
        self.nopanic = True

    def on_panic(self, eng, st, msg):
        if self.nopanic:
            eng.issue('panic', 'panic in %s' % eng.wherefn(st), 'panics (%s) in %s' % (msg, eng.where(st)), st)

    def site(self, eng, st):
        for f in reversed(st.frames):
            fn = eng.p.fns[f.fn]
            if fn['crate'] == 'probe':
                return '%s#%d' % ('::'.join(fn['path'].split('::')[-2:]), f.bb)
        return '?'

    def claim(self, eng, st, ok, what):
        s = self.site(eng, st)
        self.claims[s] = self.claims.get(s, 0) + 1
        if not ok:
            eng.issue('claim', s, '%s does not follow at %s' % (what, s), st)
            raise Diverge('claim')

    def event(self, eng, st, name, args, a, t):
        if name == 'check':
            self.claim(eng, st, eng.truth(st, a[0]), 'the stated condition')
            return UNIT
        if name == 'given':
            if not eng.truth(st, a[0]):
                raise Infeasible()
            return UNIT
        if name == 'same':
            x, y = a[0][1], a[1][1]
            ok = arith.known_eq(st.bf, x, y, self.extra(eng, st, x, y))
            if not ok:
                self.claim(eng, st, False, 'equality of %s and %s' % (show(x), show(y)))
            self.claim(eng, st, True, '')
            return UNIT
        if name == 'same_env':
            self.claim(eng, st, a[0][0] == 'env' and a[1][0] == 'env' and st.norm(a[0][1]) == st.norm(a[1][1]), 'equality of the envelopes')
            return UNIT
        if name == 'same_obj':
            self.claim(eng, st, a[0][0] == 'obj' and a[1][0] == 'obj' and st.norm(a[0][1]) == st.norm(a[1][1]), 'identity of the objects')
            return UNIT
        if name == 'given_same':
            x, y = st.norm(a[0][1]), st.norm(a[1][1])
            for z in y:
                st.replace_atom(z, tuple(x))
            return UNIT
        if name == 'coord':
            return ('o', ('coord', a[0][1]))
        raise Undecided('event %s' % name)

    def extra(self, eng, st, *ts):
        """The documented contract: an envelope is never farther away than the object in it."""
        seen = {}

        def rec(t):
            if isinstance(t, tuple) and t and t[0] in ('nd', 'envd') and len(t) == 3:
                seen.setdefault((t[1], t[2]), set()).add(t[0])
            elif isinstance(t, (tuple, frozenset)):
                for x in t:
                    rec(x)
        for t in st.bf:
            rec(t)
        for t in ts:
            rec(t)
        out = []
        for (A, q), ks in seen.items():
            if len(ks) == 2:
                out.append((arith.padd(arith.poly(('nd', A, q)), arith.poly(('envd', A, q)), -1), False))
        return out


def show(t):
    if isinstance(t, tuple):
        if t and t[0] == 'q':
            return str(t[1])
        return '%s(%s)' % (t[0], ', '.join(show(x) for x in t[1:])) if t else '()'
    return str(t)


class Driver:
    def __init__(self, prog, spec, max_states=40000):
        self.p = prog
        self.spec = spec
        self.eng = E.Engine(prog, spec)
        self.eng.driver = self
        self.max_states = max_states
        self.n = 0
        self.exits = 0

    def tabulated(self, st, key):
        return False

    def arguments(self, st, key):
        fn = self.p.fns[key]
        for i in range(fn['args']):
            nm = fn['names'].get(str(i + 1), 'arg%d' % i) if isinstance(fn.get('names'), dict) else 'arg%d' % i
            st.store[('L', 0, i + 1)] = self.eng.make(st, fn['locals'][i + 1], nm)

    def start(self, root):
        key = self.p.roots[root]
        st = State()
        CUR[0] = 0
        st.frames = [Frame(key, 0, None, None)]
        self.arguments(st, key)
        st.ctr = CUR[0]
        return st

    def run(self, root):
        work = [self.start(root)]
        eng = self.eng
        while work:
            base = work.pop()
            self.n += 1
            if self.n > self.max_states:
                eng.issue('undecided', 'budget', 'analysis budget exceeded', base)
                return
            for nx in self.step(base):
                if not nx.frames:
                    self.exits += 1
                    self.spec.exit(eng, nx)
                else:
                    work.append(nx)

    def step(self, base):
        eng = self.eng
        cur = base.clone()
        CUR[0] = cur.ctr
        cur.pos = 0
        try:
            eng.block(cur)
        except E.Tabulate as t:
            cur.log = ()
            cur.pos = 0
            cur.ctr = CUR[0]
            t.state = cur
            raise
        except Fork as f:
            out = []
            for i in reversed(range(f.n)):
                c = base.clone()
                c.log = base.log + (i,)
                out.append(c)
            return out
        except Infeasible:
            return []
        except Diverge as d:
            if d.kind in FATAL and eng.spec is not None:
                eng.spec.on_panic(eng, cur, d.kind)
            return []
        except Undecided as u:
            eng.issue('undecided', '%s in %s' % (u, eng.wherefn(cur)), 'cannot decide: %s at %s' % (u, eng.where(cur)), cur)
            return []
        cur.log = ()
        cur.ctr = CUR[0]
        return [cur]


class Params(Spec):
    """C17: no path creates a tree unless its parameters are valid, and none rejects valid ones."""

    def __init__(self, prog, generic):
        self.claims = {}
        self.nopanic = True
        pre = '<probe::opq::Par as rstar::params::RTreeParams>::' if generic else '<rstar::params::DefaultParams as rstar::params::RTreeParams>::'
        if generic:
            mn, mx, ri = la(('p', pre + 'MIN_SIZE')), la(('p', pre + 'MAX_SIZE')), la(('p', pre + 'REINSERTION_COUNT'))
        else:
            mn = mx = ri = None
        dim = la(('p', '<probe::opq::Pt as rstar::point::Point>::DIMENSIONS'))
        self.valid = [('the points have at least two dimensions', ladd(dim, lc(-2)))]
        if generic:
            self.valid += [
                ('the minimum is not zero', ladd(mn, lc(-1))),
                ('the minimum is at most half the maximum (rounded up)', ladd(lsub(mx, lscale(mn, 2)), lc(1))),
                ('the maximum is at least four', ladd(mx, lc(-4))),
                ('the reinsertion count is below maximum - minimum', ladd(lsub(lsub(mx, mn), ri), lc(-1)))]

    def done(self, eng, st):
        return all(st.ge(L) for _, L in self.valid)

    def claim(self, eng, st, what):
        self.claims[what] = self.claims.get(what, 0) + 1

    def exit(self, eng, st):
        for what, L in self.valid:
            self.claim(eng, st, what)
            if not st.ge(L):
                eng.issue('claim', what, 'a tree is created without having checked that %s' % what, st)

    def on_panic(self, eng, st, msg):
        self.claim(eng, st, 'a rejection is justified')
        if not infeasible(list(st.ints) + [st.nl(L) for _, L in self.valid]):
            eng.issue('claim', 'rejection in %s' % eng.wherefn(st), 'valid parameters are rejected (%s) in %s' % (msg, eng.where(st)), st)


class ParamsDriver(Driver):
    def run(self, root):
        self.spec = self.eng.spec = Params(self.p, not root.endswith(('_new', '_bulk_load')))
        Driver.run(self, root)

    def step(self, base):
        out = Driver.step(self, base)
        keep = []
        for s in out:
            if s.frames and self.spec.done(self.eng, s):
                self.exits += 1
                self.spec.exit(self.eng, s)          # from here on it does not matter
            else:
                keep.append(s)
        return keep


def make(prog, kind, budget):
    if kind == 'claims':
        return Driver(prog, Claims(), budget)
    if kind == 'params':
        return ParamsDriver(prog, None, min(budget, 3000))
    raise Undecided('no analysis %s' % kind)
