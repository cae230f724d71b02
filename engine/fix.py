"""Fixpoints: states are cut at loop heads, brought into canonical form and joined there."""
import time
from absint import *
import canon
import engine
import tab
from lin import *
from driver import Driver, Spec


class Cell:
    """What is known at one program point for one canonical shape."""
    __slots__ = ('shape', 'tmpl', 'space', 'facts', 'bf', 'npar', 'pars', 'queued', 'ctx', 'ver')

    def __init__(self):
        self.shape = canon.Shape()
        self.tmpl = None
        self.queued = False
        self.ver = 0


def subst(L, vals):
    """A Lin over slots, with the slots replaced."""
    r = lc(L[0])
    for a, k in L[1]:
        r = ladd(r, lscale(vals[a[1]], k))
    return r


def to_slots(L, slots):
    """Express L (over atoms) by slots, or None."""
    rows = []
    for j, s in enumerate(slots):
        if not s[1]:
            continue
        d = dict(s[1])
        e = {('s', j): Fraction(1)}
        c = Fraction(s[0])
        d = {a: Fraction(k) for a, k in d.items()}
        for pa, pd, pc, pe in rows:
            if pa in d:
                k = d[pa]
                for a, x in pd.items():
                    d[a] = d.get(a, 0) - k * x
                d = {a: x for a, x in d.items() if x}
                c -= k * pc
                for a, x in pe.items():
                    e[a] = e.get(a, 0) - k * x
        if not d:
            continue
        pa = min(d, key=str)
        k = d[pa]
        rows.append((pa, {a: x / k for a, x in d.items()}, c / k, {a: x / k for a, x in e.items()}))
    return rows


def reduce_to(L, rows):
    d = {a: Fraction(k) for a, k in L[1]}
    c = Fraction(L[0])
    out = {}
    for pa, pd, pc, pe in rows:
        if pa in d:
            k = d[pa]
            for a, x in pd.items():
                d[a] = d.get(a, 0) - k * x
            d = {a: x for a, x in d.items() if x}
            c -= k * pc
            for a, x in pe.items():
                out[a] = out.get(a, 0) + k * x
    if d:
        return None
    return integral((c, {a: k for a, k in out.items() if k}))


def integral(x):
    """Scale an inequality to integer coefficients."""
    c, d = x
    m = 1
    for k in list(d.values()) + [c]:
        q = Fraction(k).denominator
        m = m * q // gcd(m, q)
    return (int(c * m), frozenset((a, int(k * m)) for a, k in d.items()))


from fractions import Fraction     # noqa: E402
from math import gcd               # noqa: E402


AFTER = 15          # seconds to go on for after the first problem


class Fix(Driver):
    def __init__(self, prog, spec, max_states=40000):
        Driver.__init__(self, prog, spec, max_states)
        self.cells = {}
        self.joins = 0
        self.debug = False

    def cut(self, st):
        if not st.frames:
            return False
        f = st.frames[-1]
        return f.phase == 0 and f.bb in self.p.heads(f.fn)

    wall = 240          # seconds
    deadline = None     # of the whole check

    def run(self, root):
        self.root = root
        self.t0 = time.time()
        self.found = None
        self.recursive = set()
        while True:
            try:
                return self.solve()
            except tab.Restart:
                if len(self.recursive) > 40:
                    raise

    def tabulated(self, st, key):
        if key in self.recursive:
            return True
        if getattr(self.spec, 'summaries', False) and (len(st.frames) > 1 or st.frames[0].fn != self.p.roots[self.root]) and self.p.fns[key]['crate'] == 'rstar' and not self.p.fns[key].get('closure') and self.p.heads(key):
            return True
        if any(f.fn == key for f in st.frames):
            self.recursive.add(key)
            raise tab.Restart()
        return False

    def solve(self):
        self.eng.reset()
        self.spec.claims.clear()
        self.n = self.exits = self.joins = 0
        top = tab.Context(self.root)
        top.root = True
        self.cells = top.cells
        self.contexts = [top]
        self.ndep = 0
        self.entries = {}
        for st in self.starts(self.root):
            top.work.append(st)
        while True:
            # the most recent activation first
            ctx = None
            for c in reversed(self.contexts):
                if c.work or c.queue:
                    ctx = c
                    break
            if ctx is None:
                return
            if not self.advance(ctx):
                return

    def advance(self, ctx):
        eng = self.eng
        if not ctx.work:
            c = ctx.queue.pop(0)
            c.queued = False
            try:
                st = self.instantiate(c)
            except Infeasible:      # only states that cannot occur
                c.ver += 1
                return True
            c.ver += 1
            st.meta['src'] = (c, c.ver)
            if c is ctx.entry:
                for g in range(1, self.natoms(c) + 1):
                    st.gh['@%d' % g] = frozenset([g])
            ctx.work.append(st)
        base = ctx.work.pop()
        if self.stale(base):
            return True
        self.n += 1
        if self.n > self.max_states:
            eng.issue('undecided', 'budget', 'analysis budget exceeded in %s' % eng.wherefn(base), base)
            return False
        if self.n % 16 == 0:
            now = time.time()
            if now > self.t0 + self.wall or self.deadline and now > self.deadline:
                eng.issue('undecided', 'budget', 'time exceeded in %s' % eng.wherefn(base), base)
                return False
            if eng.issues:
                # whatever has been found stays true: there is no need to see all of it
                self.found = self.found or now
                if now > self.found + AFTER:
                    return False
        for nx in self.step_in(ctx, base):
            if not nx.frames:
                if ctx.root:
                    self.finish(nx)
                else:
                    self.leave(ctx, nx)
            elif not nx.log and self.cut(nx):
                for c in self.arrive(nx, ctx.cells):
                    c.queued = True
                    ctx.queue.append(c)
            else:
                ctx.work.append(nx)
        return True

    @staticmethod
    def stale(st):
        """What the state came from has been replaced by something more general, which is explored on its own."""
        src = st.meta.get('src')
        return src is not None and src[0].ver != src[1]

    @staticmethod
    def natoms(cell):
        return len(cell.tmpl.cnt)

    def step_in(self, ctx, base):
        try:
            return self.step(base)
        except engine.Tabulate as t:
            try:
                return self.call(ctx, base, t.state, t)
            except Infeasible:
                return []
            except Fork:
                self.eng.issue('undecided', 'call in %s' % self.eng.wherefn(base), 'a decision inside a call', base)
                return []
            except Undecided as u:
                self.eng.issue('undecided', '%s in %s' % (u, self.eng.wherefn(base)), 'cannot decide: %s at the call in %s' % (u, self.eng.where(base)), base)
                return []

    def call(self, ctx, base, s, t):
        """A call of a tabulated function: join the entry, and continue with every exit known so far."""
        eng = self.eng
        CUR[0] = max(CUR[0], s.ctr)
        s.ctr = CUR[0]
        e, places, names = tab.entry_state(eng, s, t)
        e.ctr = CUR[0]
        self.spec.at_cut(eng, e)
        c = canon.Canon(eng, e)
        cell = self.entries.get(c.skel)
        if cell is None:
            if len(self.entries) > 400:
                raise Undecided('too many shapes')
            cell = Cell()
            self.entries[c.skel] = cell
            cell.ctx = tab.Context(t.key)
            cell.ctx.entry = cell
            self.contexts.append(cell.ctx)
            if self.debug:
                print('entry', len(self.entries), eng.p.fns[t.key]['path'])
        sub = cell.ctx
        again = None
        if cell.shape.absorb(c.marks, c.sigs) and cell.tmpl is not None:
            # what was known has to take the new shape first
            old = self.instantiate(cell)
            CUR[0] = max(CUR[0], old.ctr)
            oc = canon.Canon(eng, old)
            cell.tmpl = None
            if oc.skel == c.skel:
                cell.shape.absorb(oc.marks, oc.sigs)
                oc.conform(cell.shape)
                self.join(oc, cell)
            # otherwise it has a shape of its own, and is found again by the callers
            again = True
        CUR[0] = e.ctr = max(CUR[0], e.ctr)
        c.conform(cell.shape)
        if self.join(c, cell) or again:
            if again:
                # the numbering of the contents has changed: nothing known about it can be kept
                for x in sub.cells.values():
                    x.ver += 1
                sub.cells.clear()
                sub.exits.clear()
                sub.work.clear()
                for x in sub.queue:
                    x.queued = False
                sub.queue.clear()
                self.rerun(sub)
            if not cell.queued and cell not in sub.queue:
                cell.queued = True
                sub.queue.append(cell)
        if 'dep' not in base.meta:
            self.ndep += 1
            base.meta['dep'] = self.ndep
        sub.deps.setdefault(base.meta['dep'], (ctx, base))
        out = []
        slots = c.slots
        top = max(CUR[0], e.ctr)
        for skel, ex in list(sub.exits.items()):
            if ex.tmpl is None:
                continue
            try:
                X = self.instantiate(ex)
            except Infeasible:
                continue
            CUR[0] = max(top, X.ctr)
            k = tab.apply(eng, s, c, slots, places, t, ex, X)
            if k is not None:
                out.append(k)
        return out

    def hold(self, st, v):
        """References to objects inside of trees: the objects are fixed while they are held (writing through them is undecided)."""
        k = v[0]
        if k == 'mref':
            t = self.eng.get(st, v[1], v[2])
            if t[0] == 'obj' and any(isinstance(e, tuple) and e[0] == 's' for e in v[2]):
                return ('sref', t, 'frozen')
            return v
        if k == 'agg':
            return ('agg', v[1], v[2], tuple([self.hold(st, x) for x in v[3]]))
        return v

    def leave(self, ctx, st):
        CUR[0] = st.ctr
        st.store[('L', 0, 0)] = self.hold(st, st.meta.pop('ret', UNIT))
        changed = self.arrive(st, ctx.exits, True)
        if changed:
            self.rerun(ctx)

    def rerun(self, ctx):
        """Continue everything that waits for results of a context."""
        for k, (dc, db) in list(ctx.deps.items()):
            if self.stale(db):
                del ctx.deps[k]
            else:
                dc.work.append(db.clone())

    def starts(self, root):
        return [self.start(root)]

    def finish(self, st):
        CUR[0] = st.ctr
        st.pos = 0
        st.log = ()
        try:
            self.spec.exit(self.eng, st)
        except Infeasible:
            return
        except Diverge:
            pass
        except Fork:
            self.eng.issue('undecided', 'exit', 'an undecided case at the end of %s' % self.root, st)
        except Undecided as u:
            self.eng.issue('undecided', 'exit %s' % u, 'cannot decide at the end of %s: %s' % (self.root, u), st)
        self.exits += 1

    def arrive(self, st, cells, leaving=False):
        """Join a state into its cell; returns the cells that changed."""
        out = []
        work = [st]
        while work:
            s = work.pop()
            CUR[0] = s.ctr
            s.log = ()
            s.pos = 0
            try:
                self.spec.at_cut(self.eng, s)
                c = canon.Canon(self.eng, s, ([('L', 0, 0)] + list(s.meta['keep'])) if leaving else None)
                cell = cells.get(c.skel)
                if cell is None:
                    if len(cells) > 3000:
                        raise Undecided('too many shapes')
                    cell = Cell()
                    cells[c.skel] = cell
                    if self.debug:
                        print('cell', len(cells), self.eng.where(st), [f.bb for f in st.frames])
                if cell.shape.absorb(c.marks, c.sigs):
                    if cell.tmpl is not None:
                        try:
                            work.append(self.instantiate(cell))
                        except Infeasible:
                            pass
                        CUR[0] = s.ctr
                    cell.tmpl = None
                c.conform(cell.shape)
                if self.join(c, cell) and not cell.queued and cell not in out:
                    out.append(cell)
            except Fork:
                raise Undecided('a decision inside the canonical form')
            except Infeasible:
                continue
            except Undecided as u:
                self.eng.issue('undecided', '%s in %s' % (u, self.eng.wherefn(s)), 'cannot decide: %s at %s' % (u, self.eng.where(s)), s)
        return out

    def join(self, c, cell):
        """-> did the cell change?"""
        st = c.st
        if cell.tmpl is None:
            cell.tmpl = c.tmpl
            cell.npar = c.nparams
            cell.pars = c.pars
            cell.space = space_of(c.slots)
            cell.facts = self.candidates(st, c.slots)
            cell.bf = dict(c.tmpl.bf)
            return True
        self.joins += 1
        changed = False
        new = space_of(c.slots)
        if not contains_space(cell.space, new):
            cell.space = join_space(cell.space, new)
            changed = True
        keep = []
        for f in cell.facts:
            if st.ge(subst(f, c.slots)):
                keep.append(f)
            else:
                changed = True
        cell.facts = keep
        bf = {k: v for k, v in cell.bf.items() if c.tmpl.bf.get(k) == v}
        if len(bf) != len(cell.bf):
            changed = True
        cell.bf = bf
        return changed

    def candidates(self, st, slots):
        out = []
        seen = set()

        def add(f):
            if f is not None and f[1] and f not in seen:
                seen.add(f)
                out.append(f)
        n = len(slots)
        for i in range(n):
            s = slots[i]
            if st.ge(ladd(s, lc(-1))):
                add((-1, frozenset([(('s', i), 1)])))
            if st.ge(s):
                add((0, frozenset([(('s', i), 1)])))
            if isconst(s):
                # widening keeps small constants as bounds
                if s[0] >= 2:
                    add((-s[0], frozenset([(('s', i), 1)])))
                add((s[0], frozenset([(('s', i), -1)])))
        for i in range(n):
            for j in range(n):
                if i != j and (slots[i][1] or slots[j][1]):
                    d = st.nl(lsub(slots[i], slots[j]))
                    if isconst(d):
                        if d[0] >= 0:
                            for k in {0, min(1, d[0]), d[0]}:
                                add((-k, frozenset([(('s', i), 1), (('s', j), -1)])))
                        continue
                    if st.ge(ladd(d, lc(-1))):
                        add((-1, frozenset([(('s', i), 1), (('s', j), -1)])))
                        add((0, frozenset([(('s', i), 1), (('s', j), -1)])))
                    elif st.ge(d):
                        add((0, frozenset([(('s', i), 1), (('s', j), -1)])))
        for i in range(n):
            for j in range(i + 1, n):
                if not isconst(slots[i]) and not isconst(slots[j]) and not st.ge(ladd(slots[i], lc(-1))) and not st.ge(ladd(slots[j], lc(-1))) \
                        and st.ge(ladd(ladd(slots[i], slots[j]), lc(-1))):
                    add((-1, frozenset([(('s', i), 1), (('s', j), 1)])))
        rows = to_slots(None, slots)
        for f in sorted(st.ints, key=str):
            r = reduce_to(f, rows)
            add(r)
            if r is not None and r[0] >= 8 and all(k == -1 for _, k in r[1]):
                # what is put somewhere may be taken from what has been bounded
                for i in range(n):
                    if isconst(slots[i]) and (('s', i), -1) not in r[1]:
                        add((r[0] + slots[i][0], r[1] | frozenset([(('s', i), -1)])))
        return out

    def instantiate(self, cell):
        """A state that stands for everything that has arrived at the cell."""
        t = cell.tmpl
        CUR[0] = t.ctr
        st = State()
        nonneg = set()
        for f in cell.facts:
            if len(f[1]) == 1:
                (a, k), = f[1]
                if k > 0 and f[0] <= 0:
                    nonneg.add(a[1])

        def mk(p):
            if p < cell.npar:
                return cell.pars[p]
            return (('n' if p in nonneg else 'z'), fresh())
        vals = parametrize(cell.space, mk)
        eqs = []
        for j, v in enumerate(vals):
            m = 1
            for k in [x for _, x in v[1]] + [v[0]]:
                q = Fraction(k).denominator
                m = m * q // gcd(m, q)
            if m != 1:
                a = la((('n' if j in nonneg else 'z'), fresh()))
                eqs.append(lsub(lscale(a, m), (int(v[0] * m), frozenset((x, int(k * m)) for x, k in v[1]))))
                vals[j] = a
            else:
                vals[j] = (int(v[0]), frozenset((x, int(k)) for x, k in v[1]))

        def fi(L):
            return subst(L, vals)
        for a, v in t.store.items():
            st.store[a] = vmap(v, ident, fi, ident)
        st.frames = [f.copy() for f in t.frames]
        st.gh = dict(t.gh)
        st.bf = dict(cell.bf)
        for a, L in t.cnt.items():
            st.cnt[a] = fi(L)
        for k, v in t.meta.items():
            if k == 'entry':
                v = tuple(fi(L) for L in v)
                if hasattr(cell, 'ctx'):
                    v = tuple(vals)
            elif isinstance(k, str) and k.startswith('#'):
                v = fi(v)
            st.meta[k] = v
        for e in eqs:
            st.assume_eq(e)
        for f in cell.facts:
            st.assume_ge(fi(f))
        for v in list(st.store.values()):
            out = []
            canon.structural(st, v, out)
            for L in out:
                st.assume_ge(L)
        st.ctr = CUR[0]
        return st
