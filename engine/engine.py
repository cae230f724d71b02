"""The abstract machine: places, statements, calls, drops, lazy refinement of subtrees."""
from absint import *
import canon
import models

FLOATOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem'}


class Engine:
    def __init__(self, prog, spec=None):
        self.p = prog
        self.spec = spec
        self.issues = []          # (category, key, text)
        self.seen_issue = set()
        self.visited = set()
        self.callsites = 0
        self.states = 0
        self.steps = 0
        self.paths = 0
        self.max_states = 30000
        self.exits = []
        self.debug = False

    def reset(self):
        self.issues.clear()
        self.seen_issue.clear()
        self.callsites = 0

    # ------------------------------------------------------------ reporting
    def issue(self, cat, key, text, st=None):
        k = (cat, key)
        if k in self.seen_issue:
            return
        self.seen_issue.add(k)
        tr = ''
        if st is not None:
            tr = ' | path: ' + ' > '.join('%s:%s' % (self.p.fns[f.fn]['name'].split('::')[-1][:40] if f.fn in self.p.fns else f.fn, f.bb) for f in st.frames)
        self.issues.append((cat, key, text + tr))

    def where(self, st):
        if not st.frames:
            return 'end'
        # innermost frame of rstar
        for f in reversed(st.frames):
            fn = self.p.fns[f.fn]
            if fn['crate'] == 'rstar':
                sp = self.span(fn, f.bb)
                return '%s (%s)' % (fn['path'], sp)
        f = st.frames[-1]
        return self.p.fns[f.fn]['path']

    def wherefn(self, st):
        for f in reversed(st.frames):
            fn = self.p.fns[f.fn]
            if fn['crate'] == 'rstar':
                return fn['path']
        return self.p.fns[st.frames[-1].fn]['path'] if st.frames else 'end'

    def span(self, fn, bb):
        b = fn['blocks'][bb]
        return b['t'].get('sp', '')

    # ------------------------------------------------------------ values of types
    def make(self, st, ty, name, root=False):
        """An arbitrary value of the type."""
        t = self.p.types[ty]
        k = t['k']
        if ty in self.p.objtys:
            a = st.atom(lc(1))
            return ('obj', frozenset([a]))
        if ty in self.p.parent_ty or ty in self.p.enum_ty:
            a = st.atom()
            st.assume_ge(ladd(st.cnt[a], lc(-1)))
            h = la(('n', fresh()))
            if ty in self.p.parent_ty:
                st.assume_ge(ladd(h, lc(-1)))
            return ('node', ty, frozenset([a]), h)
        if k == 'int':
            n = la((('n' if not t.get('signed') else 'z'), fresh()))
            return ('i', n)
        if k == 'bool':
            return ('b', ('sym', name))
        if k == 'ref' or k == 'ptr':
            v = self.make(st, t['elem'], name)
            if t.get('mut'):
                al = ('H', fresh())
                st.store[al] = v
                return ('mref', al, ())
            return ('sref', v)
        if k == 'array':
            n = t.get('len')
            if n is None or n > 64:
                raise Undecided('array of unknown length')
            return ('agg', ty, 0, tuple(self.make(st, t['elem'], '%s.%d' % (name, i)) for i in range(n)))
        if k == 'slice':
            return self.make_many(st, t['elem'], name)
        if k in ('tuple', 'closure'):
            return ('agg', ty, 0, tuple(self.make(st, e, name + '.%d' % i) for i, e in enumerate(t.get('elems', []))))
        if k == 'adt':
            p = t['path']
            if p == 'rstar::rtree::RTree' and self.spec:
                return self.spec.make_tree(self, st, ty, name)
            if self.p.is_vec(ty):
                el = t['args'][0]
                if p.startswith('smallvec'):
                    el = self.p.types[el]['elem']
                return self.make_many(st, el, name)
            if p == 'probe::opq::Env':
                return ('env', frozenset([('q', name)]))
            if p.startswith('probe::opq::'):
                return ('o', ('q', name))
            if t.get('crate') in ('rstar', 'core', 'probe') and t.get('variants') and not t.get('enum'):
                return ('agg', ty, 0, tuple(self.make(st, ft, name + '.' + fn) for fn, ft in t['variants'][0]['fields']))
        if k == 'float':
            return ('o', ('q', name))
        raise Undecided('cannot make a value of type %s' % t['s'])

    def make_many(self, st, el, name):
        n = la(('n', fresh()))
        t = self.p.types[el]
        if el in self.p.objtys:
            a = st.atom(n)
            u = fresh()
            return seq([Many(n, [(u, frozenset([a]))], ('obj', frozenset([('$', u)])))])
        if t['k'] == 'int':
            return seq([Many(n, [], ('ti', 'var', fresh(), 0))])
        raise Undecided('cannot make a sequence of %s' % t['s'])

    # ------------------------------------------------------------ lazy subtrees
    def expand(self, st, v):
        """One level of a lazy node whose variant is decided by its height."""
        _, ty, A, h = v
        A = st.norm(A)
        p = self.p
        if ty in p.parent_ty:
            en = p.parent_ty[ty]
            n = la(('n', fresh()))
            hc = st.nl(ladd(h, lc(-1)))
            fields = []
            for fname, ft in p.types[ty]['variants'][0]['fields']:
                tt = p.types[ft]
                if p.is_vec(ft) and tt['args'][0] == en:
                    u = fresh()
                    st.assume_ge(ladd(n, lc(-1)))
                    st.assume_ge(lsub(st.count(A), n))
                    cap = getattr(self.spec, 'cap', None)
                    if cap is not None:
                        st.assume_ge(lsub(la(cap), n))
                    fields.append(seq([Many(n, [(u, A)], ('node', en, frozenset([('$', u)]), hc))]))
                elif tt.get('path') == 'probe::opq::Env':
                    fields.append(('env', A))
                else:
                    fields.append(self.make(st, ft, 'field ' + fname))
            self.on_expand(st, A)
            return ('agg', ty, 0, tuple(fields))
        leaf, par, pty, oty = p.enum_ty[ty]
        if st.decide_ge(ladd(h, lc(-1))):
            return ('agg', ty, par, (('node', pty, A, st.nl(h)),))
        st.assume_eq(lsub(st.count(A), lc(1)))
        return ('agg', ty, leaf, (('obj', st.norm(A)),))

    def on_expand(self, st, A):
        """The children of a parent become visible."""
        if self.spec:
            self.spec.on_expand(self, st, A)

    # ------------------------------------------------------------ places
    def local(self, st, n):
        return ('L', len(st.frames) - 1, n)

    def step_in(self, st, v, e, alloc, path):
        """Select component e of value v; refines lazily.  Returns the component."""
        k = v[0]
        if e == '*':
            if k == 'sref':
                return v[1]
            raise Undecided('deref of %s' % k)
        if e[0] == 'f':
            if k == 'node':
                raise _Refine(alloc, path)
            if k == 'agg':
                if e[1] >= len(v[3]):
                    return UNDEF
                return v[3][e[1]]
            if k == 'undef':
                return UNDEF
            if k == 'box':
                return v
            if k == 'obj' and self.spec and self.spec.load:
                raise _Refine(alloc, path)
            raise Undecided('field of %s' % k)
        if e[0] == 's':
            if k == 'seq':
                for s in v[1]:
                    if s[1] == e[1]:
                        if s[0] == '1':
                            return s[2]
                        raise Undecided('element of summary segment')
                raise Undecided('stale element reference')
            raise Undecided('element of %s' % k)
        raise Undecided('projection %r' % (e,))

    def get(self, st, alloc, path):
        while True:
            try:
                v = st.store.get(alloc, UNDEF)
                for i, e in enumerate(path):
                    v = self.step_in(st, v, e, alloc, path[:i])
                return v
            except _Refine as e:
                self.refine(st, e.alloc, e.path)

    def put(self, st, alloc, path, nv, frozen_ok=False):
        while True:
            try:
                return self.put1(st, alloc, path, nv, frozen_ok)
            except _Refine as e:
                self.refine(st, e.alloc, e.path)

    def put1(self, st, alloc, path, nv, frozen_ok):
        def upd(v, i):
            if i == len(path):
                return nv
            e = path[i]
            if e == '*':
                if v[0] == 'sref':
                    if not frozen_ok and len(v) > 2:
                        raise Undecided('write through a reference held by a traversal')
                    return ('sref', upd(v[1], i + 1)) + v[2:]
                raise Undecided('write through %s' % v[0])
            if e[0] == 'f':
                if v[0] == 'node':
                    raise _Refine(alloc, path[:i])
                if v[0] == 'undef':
                    # build up a structure field by field
                    fs = [UNDEF] * (e[1] + 1)
                    fs[e[1]] = upd(UNDEF, i + 1)
                    return ('agg', None, 0, tuple(fs))
                if v[0] == 'box':
                    return ('box', upd(UNDEF, len(path))) if i == len(path) - 1 or True else v
                if v[0] != 'agg':
                    raise Undecided('write to field of %s' % v[0])
                fs = list(v[3])
                while len(fs) <= e[1]:
                    fs.append(UNDEF)
                fs[e[1]] = upd(fs[e[1]], i + 1)
                return ('agg', v[1], v[2], tuple(fs))
            if e[0] == 's':
                if v[0] != 'seq':
                    raise Undecided('write to element of %s' % v[0])
                out = []
                hit = False
                for s in v[1]:
                    if s[1] == e[1]:
                        if s[0] != '1':
                            raise Undecided('write to summary segment')
                        out.append(('1', s[1], upd(s[2], i + 1)))
                        hit = True
                    else:
                        out.append(s)
                if not hit:
                    raise Undecided('stale element reference')
                return ('seq', tuple(out))
            raise Undecided('write %r' % (e,))
        st.store[alloc] = upd(st.store.get(alloc, UNDEF), 0)

    def place(self, st, pl):
        """Resolve a MIR place to (alloc, path)."""
        alloc = self.local(st, pl[0])
        path = ()
        for e in pl[1]:
            if e == '*':
                v = self.get(st, alloc, path)
                if v[0] == 'mref':
                    alloc, path = v[1], v[2]
                elif v[0] == 'sref':
                    path = path + ('*',)
                elif v[0] == 'box':
                    alloc, path = v[1], ()
                else:
                    raise Undecided('deref of %s' % v[0])
            elif e[0] == 'f':
                v = self.get(st, alloc, path)
                if v[0] == 'box':
                    continue
                if v[0] == 'node':
                    self.refine(st, alloc, path)
                path = path + (('f', e[1]),)
            elif e[0] == 'd':
                v = self.get(st, alloc, path)
                if v[0] == 'node':
                    self.refine(st, alloc, path)
                    v = self.get(st, alloc, path)
                if v[0] == 'agg' and v[2] != e[1]:
                    raise Infeasible()
            elif e[0] == 'i':
                iv = st.store.get(self.local(st, e[1]))
                alloc, path = models.index_place(self, st, alloc, path, iv[1])
            elif e[0] == 'c':
                v = self.get(st, alloc, path)
                if v[0] == 'agg':
                    j = len(v[3]) - e[1] if e[3] else e[1]
                    path = path + (('f', j),)
                else:
                    if e[3]:
                        L = lsub(models.length(st, v), lc(e[1]))
                    else:
                        L = lc(e[1])
                    alloc, path = models.index_place(self, st, alloc, path, L)
            else:
                raise Undecided('projection %r' % (e,))
        return alloc, path

    def peek(self, st, pl):
        """The envelope of a node can be read without looking inside the node."""
        if not pl[1] or pl[1][-1][0] != 'f':
            return None
        al, pa = self.place(st, (pl[0], pl[1][:-1]))
        v = self.get(st, al, pa)
        if v[0] == 'node' and v[1] in self.p.parent_ty:
            fs = self.p.types[v[1]]['variants'][0]['fields']
            if self.p.types[fs[pl[1][-1][1]][1]].get('path') == 'probe::opq::Env':
                return ('env', st.norm(v[2]))
        return None

    def refine(self, st, alloc, path):
        v = self.get(st, alloc, path)
        if v[0] == 'node':
            self.put(st, alloc, path, self.expand(st, v), True)
        elif v[0] == 'obj':
            self.put(st, alloc, path, self.spec.load(self, st, v), True)

    # ------------------------------------------------------------ operands
    def operand(self, st, o, moves=None):
        k = o['k']
        if k == 'const':
            return self.const(st, o)
        al, pa = self.place(st, o['p'])
        v = self.get(st, al, pa)
        if k == 'move' and moves is not None:
            moves.append((al, pa))
        return v

    def const(self, st, o):
        t = self.p.types[o['ty']]
        if 'fn' in o:
            return ('fn', _FnRef(o['fn']))
        if 'v' in o:
            if t['k'] == 'bool':
                return B(bool(o['v']))
            if t['k'] == 'int':
                return I(o['v'])
            if t['k'] == 'char':
                return I(o['v'])
            if t['k'] == 'adt' and t.get('enum'):
                for vi, v in enumerate(t['variants']):
                    if not v['fields'] and (v['d'] & 0xff) == (o['v'] & 0xff):
                        return ('agg', o['ty'], vi, ())
            return ('o', ('const', o['ty'], o['v']))
        if 'sym' in o:
            s = o['sym']
            if t['k'] == 'int':
                return ('i', la(('p', s)))
            return ('o', ('sym', s))
        if 'body' in o:
            return self.const_body(st, o['body'], o['ty'])
        if o.get('zst'):
            return ('agg', o['ty'], 0, ())
        if 'str' in o:
            return ('o', ('str', o['str']))
        if t['k'] == 'adt' and t.get('enum') and 'raw' in o:
            for vi, v in enumerate(t['variants']):
                if v['d'] == o['raw'] or (v['d'] & 0xff) == (o['raw'] & 0xff):
                    return ('agg', o['ty'], vi, ())
        if t['k'] in ('ref', 'ptr'):
            return ('sref', ('o', ('const', o['ty'], o.get('other', ''))))
        return ('o', ('const', o['ty'], str(o.get('other', o.get('raw', '')))))

    def const_body(self, st, key, ty):
        """Constants and promoteds of rstar: straight-line bodies, evaluated abstractly in place."""
        sub = Engine(self.p, None)
        s2 = State()
        s2.ints = st.ints
        s2.frames = [Frame(key, 0, None, None)]
        try:
            v = sub.straight(s2)
        except Fork:
            raise Undecided('constant %s is not straight-line' % key)
        if v is None:
            raise Undecided('constant %s has no value' % key)
        # allocations made by the constant live on
        def fix(v):
            if v[0] == 'mref':
                return ('sref', fix(sub.get(s2, v[1], v[2])))
            if v[0] == 'sref':
                return ('sref', fix(v[1]))
            if v[0] == 'agg':
                return ('agg', v[1], v[2], tuple(fix(x) for x in v[3]))
            return v
        self.visited.add(key)
        return fix(v)

    def straight(self, st):
        n = 0
        self._ret = None
        while st.frames:
            self.block(st)
            n += 1
            if n > 500:
                raise Undecided('constant does not terminate')
        return self._ret

    # ------------------------------------------------------------ statements
    def rvalue(self, st, r, ty, moves):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1], moves)
        if k == 'repeat':
            v = self.operand(st, r[1], moves)
            if r[2] is None or r[2] > 64:
                raise Undecided('array repeat')
            return ('agg', ty, 0, (v,) * r[2])
        if k == 'ref' or k == 'reborrow' or k == 'addr':
            if k == 'ref' and not r[2]:
                v = self.peek(st, r[1])
                if v is not None:
                    return ('sref', v)
            al, pa = self.place(st, r[1])
            if r[2]:
                if '*' in pa:
                    return ('sref', self.get(st, al, pa), 'frozen')
                return ('mref', al, pa)
            if k == 'addr':
                if '*' in pa:
                    return ('sref', self.get(st, al, pa))
                return ('mref', al, pa)
            v = self.get(st, al, pa)
            return ('sref', v)
        if k == 'cast':
            v = self.operand(st, r[2], moves)
            ck = r[1]
            if ck == 'IntToFloat':
                return ('o', ('i2f', v[1]))
            if ck == 'FloatToInt':
                t = self.p.types[r[3]]
                return ('i', la(('n' if not t.get('signed') else 'z', fresh())))
            if ck == 'IntToInt':
                if v[0] == 'b':
                    if isinstance(v[1], bool):
                        return I(int(v[1]))
                    raise Undecided('cast of symbolic bool')
                return v
            if v[0] == 'fn':
                return v
            if v[0] == 'sref' and v[1][0] == 'agg' and 'Unsize' in ck:
                ft = self.p.types[r[4]]
                et = self.p.types[ft['elem']] if ft.get('elem') is not None else {}
                if et.get('k') == 'array':
                    return ('sref', seq([One(x) for x in v[1][3]]))
                return v
            return v
        if k == 'bin':
            a = self.operand(st, r[2], moves)
            b = self.operand(st, r[3], moves)
            return self.binop(st, r[1], a, b, r[4])
        if k == 'un':
            a = self.operand(st, r[2], moves)
            op = r[1]
            if op == 'Not':
                if a[0] == 'b':
                    if isinstance(a[1], bool):
                        return B(not a[1])
                    if a[1][0] == 'not':
                        return ('b', a[1][1])
                    return ('b', ('not', a[1]))
                raise Undecided('not of %s' % a[0])
            if op == 'Neg':
                if a[0] == 'i':
                    return ('i', lneg(a[1]))
                return ('o', ('neg', a[1]))
            if op == 'PtrMetadata':
                v = a
                if v[0] == 'mref':
                    v = ('sref', self.get(st, v[1], v[2]))
                return ('i', models.length(st, v[1]))
            raise Undecided('unary %s' % op)
        if k == 'discr':
            al, pa = self.place(st, r[1])
            v = self.get(st, al, pa)
            if v[0] == 'node':
                self.refine(st, al, pa)
                v = self.get(st, al, pa)
            if v[0] == 'agg':
                t = self.p.types[r[2]]
                if t['k'] == 'adt':
                    return I(t['variants'][v[2]]['d'])
                return I(v[2])
            if v == UNDEF:
                # an uninhabited residual that was optimised away: only one variant can exist
                t = self.p.types[r[2]]
                live = [x for x in t.get('variants', ()) if not any(self.uninhabited(f[1]) for f in x['fields'])]
                if len(live) == 1 and not live[0]['fields']:
                    return I(live[0]['d'])
            raise Undecided('discriminant of %s' % v[0])
        if k == 'agg':
            vs = tuple([self.operand(st, x, moves) for x in r[2]])
            kk = r[1]
            if kk[0] == 'adt':
                return ('agg', kk[1], kk[2], vs)
            if kk[0] in ('tuple', 'array'):
                return ('agg', ty, 0, vs)
            if kk[0] == 'closure':
                return ('agg', kk[1], 0, vs)
            raise Undecided('aggregate %s' % kk[0])
        raise Undecided('rvalue %s' % k)

    def uninhabited(self, ty):
        t = self.p.types[ty]
        return t['k'] == 'never' or t['s'] == '!' or (t['k'] == 'adt' and t.get('enum') and not t['variants'])

    CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}

    def binop(self, st, op, a, b, ty):
        if a[0] == 'i' and b[0] == 'i':
            x, y = st.nl(a[1]), st.nl(b[1])
            if op in ('Add', 'AddUnchecked', 'AddWithOverflow'):
                r = ('i', ladd(x, y))
            elif op in ('Sub', 'SubUnchecked', 'SubWithOverflow'):
                d = lsub(x, y)
                t = self.p.types[ty]
                if not t.get('signed'):
                    sure = st.ge(d)
                    self.guard(st, sure, 'subtraction', 'an unsigned subtraction may underflow')
                    if not sure:
                        # the subtraction would wrap: always?
                        if st.ge(ladd(lneg(d), lc(-1))):
                            self.issue('panic', 'underflow:%s' % self.wherefn(st), 'unsigned subtraction underflows at %s' % self.where(st), st)
                            raise Diverge('underflow')
                        st.assume_ge(d)
                r = ('i', d)
            elif op in ('Mul', 'MulUnchecked', 'MulWithOverflow'):
                if isconst(x):
                    r = ('i', lscale(y, x[0]))
                elif isconst(y):
                    r = ('i', lscale(x, y[0]))
                else:
                    r = ('i', la(('n', fresh())))
            elif op in self.CMP:
                return B(self.icmp(st, op, x, y))
            elif op in ('Div', 'Rem', 'Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor'):
                if isconst(x) and isconst(y):
                    p, q = x[0], y[0]
                    if op in ('Div', 'Rem') and q == 0:
                        raise Diverge('div0')
                    r = I({'Div': lambda: p // q, 'Rem': lambda: p % q, 'Shl': lambda: p << q, 'Shr': lambda: p >> q,
                           'BitAnd': lambda: p & q, 'BitOr': lambda: p | q, 'BitXor': lambda: p ^ q}[op]())
                elif op in ('Div', 'Rem') and isconst(y) and y[0] > 0:
                    # x = y*q + r with 0 <= r < y
                    q = la(('n', fresh()))
                    memo = st.meta.get(('div', x, y))
                    if memo is not None:
                        q = memo
                    else:
                        st.meta = dict(st.meta)
                        st.meta[('div', x, y)] = q
                        st.assume_ge(lsub(x, lscale(q, y[0])))
                        st.assume_ge(ladd(lsub(lscale(q, y[0]), x), lc(y[0] - 1)))
                    n = q if op == 'Div' else lsub(x, lscale(q, y[0]))
                    r = ('i', st.nl(n))
                else:
                    n = la(('n', fresh()))
                    if op in ('Div', 'Shr', 'BitAnd', 'Rem'):
                        st.assume_ge(lsub(x, n))
                    if op == 'Rem':
                        st.assume_ge(ladd(lsub(y, n), lc(-1)))
                    r = ('i', n)
            elif op == 'Cmp':
                raise Undecided('three-way comparison')
            else:
                raise Undecided('integer op %s' % op)
            if op.endswith('WithOverflow'):
                return ('agg', None, 0, (r, B(False)))
            return r
        if a[0] == 'b' and b[0] == 'b':
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                x = self.truth(st, a)
                y = self.truth(st, b)
                return B({'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y, 'Eq': x == y, 'Ne': x != y,
                          'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
        if a[0] == 'o' and b[0] == 'o':
            x, y = a[1], b[1]
            if op == 'Lt':
                return ('b', ('lt', x, y))
            if op == 'Gt':
                return ('b', ('lt', y, x))
            if op == 'Le':
                return ('b', ('not', ('lt', y, x)))
            if op == 'Ge':
                return ('b', ('not', ('lt', x, y)))
            if op == 'Eq':
                return ('b', models.eqterm(x, y))
            if op == 'Ne':
                return ('b', ('not', models.eqterm(x, y)))
            return ('o', (op, x, y))
        raise Undecided('binary %s on %s, %s' % (op, a[0], b[0]))

    def icmp(self, st, op, x, y):
        if op == 'Eq':
            return st.decide_eq(x, y)
        if op == 'Ne':
            return not st.decide_eq(x, y)
        if op == 'Lt':
            return st.decide_ge(ladd(lsub(y, x), lc(-1)))
        if op == 'Le':
            return st.decide_ge(lsub(y, x))
        if op == 'Gt':
            return st.decide_ge(ladd(lsub(x, y), lc(-1)))
        return st.decide_ge(lsub(x, y))

    def truth(self, st, v):
        """Decide a boolean value, forking when it is open."""
        if isinstance(v[1], bool):
            return v[1]
        t = v[1]
        neg = False
        while t[0] == 'not':
            neg = not neg
            t = t[1]
        t = st.nterm(t)
        st.clean_facts()
        r = models.known(self, st, t)
        if r is None:
            r = st.choose([lambda s: self.learn(s, t, True), lambda s: self.learn(s, t, False)]) == 0
        return r != neg

    def learn(self, st, t, val):
        st.clean_facts()
        t = st.nterm(t)
        st.bf[t] = val
        models.on_learn(self, st, t, val)
        if self.spec:
            self.spec.on_fact(self, st, t, val)

    # ------------------------------------------------------------ execution
    def block(self, st):
        """Execute the block at the top frame; may raise Fork with st partially advanced (caller restores)."""
        f = st.frames[-1]
        fn = self.p.fns[f.fn]
        self.visited.add(f.fn)
        b = fn['blocks'][f.bb]
        if f.phase == 0:
            for s in b['s']:
                self.stmt(st, s)
        self.term(st, f, b['t'])

    def stmt(self, st, s):
        k = s[0]
        if k == '=':
            moves = []
            v = self.rvalue(st, s[2], s[3], moves)
            al, pa = self.place(st, s[1])
            for m in moves:
                if len(m[1]) == 0 or '*' not in m[1]:
                    self.put(st, m[0], m[1], UNDEF, True)
            if pa == ():
                st.store[al] = v
            else:
                self.put(st, al, pa, v)
        elif k == 'dead' or k == 'live':
            st.store.pop(self.local(st, s[1]), None)
        elif k == 'assume':
            v = self.operand(st, s[1])
            if v[0] == 'b' and not self.truth(st, v):
                raise Infeasible()
        elif k == 'setd':
            raise Undecided('set discriminant')
        else:
            raise Undecided('statement %s' % k)

    def goto(self, st, bb):
        f = st.frames[-1]
        f.bb = bb
        f.phase = 0

    def term(self, st, f, t):
        k = t['k']
        if k == 'goto':
            self.goto(st, t['t'])
        elif k == 'switch':
            v = self.operand(st, t['d'])
            if v[0] == 'b':
                x = int(self.truth(st, v))
                for val, bb in t['c']:
                    if val == x:
                        return self.goto(st, bb)
                return self.goto(st, t['o'])
            if v[0] == 'i':
                L = st.nl(v[1])
                bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(self.p.types[t['ty']]['s'])
                if bits and not L[1] and L[0] >= 1 << (bits - 1):
                    L = lc(L[0] - (1 << bits))      # discriminants are written without a sign
                for val, bb in t['c']:
                    if st.decide_eq(L, lc(val)):
                        return self.goto(st, bb)
                return self.goto(st, t['o'])
            raise Undecided('switch on %s' % v[0])
        elif k == 'return':
            self.ret(st)
        elif k == 'unreachable':
            raise Diverge('unreachable')
        elif k == 'assert':
            v = self.operand(st, t['c'])
            if v[0] == 'b' and 'overflow' not in t['m'].lower():
                if self.truth(st, v) != t['e']:
                    self.panic(st, t['m'])
                self.guard(st, True, 'assertion', '')
            self.goto(st, t['t'])
        elif k == 'drop':
            al, pa = self.place(st, t['p'])
            v = self.get(st, al, pa)
            self.drop(st, f, al, pa, v, t)
        elif k == 'call':
            self.call(st, f, t)
        elif k == 'cleanup':
            raise Diverge('cleanup')
        else:
            raise Undecided('terminator %s' % k)

    def guard(self, st, ok, what, text):
        """C34: places that could panic."""
        if self.spec is not None and hasattr(self.spec, 'guard'):
            self.spec.guard(self, st, ok, what, text)

    def panic(self, st, msg):
        if self.spec:
            self.spec.on_panic(self, st, msg)
        raise Diverge('panic')

    def ret(self, st):
        f = st.frames[-1]
        v = st.store.get(self.local(st, 0), UNIT)
        d = len(st.frames) - 1
        if d == 0:
            self._ret = v
            if st.summ is not None or self.spec:
                st.meta['ret'] = v
            st.frames.pop()
            return
        # references into the returning frame's locals cannot escape, except through by-value captures
        for a in [a for a in st.store if a[0] == 'L' and a[1] == d]:
            del st.store[a]
        st.frames.pop()
        if f.dst is not None:
            al, pa = f.dst
            if pa == ():
                st.store[al] = v
            else:
                self.put(st, al, pa, v)
        c = st.frames[-1]
        if f.mark == 'stay':
            return
        c.bb = f.target
        c.phase = 0

    def push_call(self, st, key, args, dst, target, mark=None):
        fn = self.p.fns[key]
        if len(st.frames) > 60:
            raise Undecided('call depth')
        st.frames.append(Frame(key, 0, dst, target, 0, mark))
        d = len(st.frames) - 1
        for i, a in enumerate(args):
            st.store[('L', d, i + 1)] = a

    # ------------------------------------------------------------ drop
    def drops_of(self, v, ty=None, path=()):
        """Paths of values inside v that have a user written Drop."""
        out = []
        if v[0] == 'agg' and v[1] is not None:
            t = self.p.types[v[1]]
            if t.get('drop'):
                out.append((path, t['drop']))
            for i, x in enumerate(v[3]):
                out += self.drops_of(x, None, path + (('f', i),))
        elif v[0] == 'seq':
            for s in v[1]:
                if s[0] == '1':
                    out += self.drops_of(s[2], None, path + (('s', s[1]),))
        return out

    def drop(self, st, f, al, pa, v, t):
        ds = self.drops_of(v)
        if f.phase < len(ds):
            dp, key = ds[f.phase]
            f.phase += 1
            self.push_call(st, key, [('mref', al, pa + dp)], None, None, 'stay')
            return
        self.discard(st, v)
        self.put(st, al, pa, UNDEF, True)
        self.goto(st, t['t'])

    def discard(self, st, v):
        """Value v is destroyed: which stored objects go with it?"""
        canon.settle(st, v)
        A = canon.owned(st, v)
        if A:
            A = frozenset(x for x in st.norm(A) if isinstance(x, int))
            if A and not (st.ge(lneg(st.count(A)))):
                st.gh['dropped'] = st.gh.get('dropped', frozenset()) | A
                if self.spec:
                    self.spec.on_drop(self, st, A)

    # ------------------------------------------------------------ calls
    def call(self, st, f, t):
        moves = []
        args = [self.operand(st, a, moves) for a in t['a']]
        if 'f' in t:
            c = t['f']
        else:
            fv = self.operand(st, t['fop'])
            while fv[0] == 'sref':
                fv = fv[1]
            if fv[0] != 'fn':
                raise Undecided('call of %s' % fv[0])
            c = fv[1].d
        dst = self.place(st, t['dst'])
        for m in moves:
            if '*' not in m[1]:
                self.put(st, m[0], m[1], UNDEF, True)
        self.callsites += 1
        self.invoke(st, c, args, dst, t['t'], t)

    def invoke(self, st, c, args, dst, target, t):
        if c.get('unresolved'):
            raise Undecided('unresolved call %s' % c['path'])
        key = c.get('key')
        m = models.find(self, c)
        if m is not None:
            try:
                r = m(self, st, c, args, t)
            except Tabulate as tab:
                if tab.mark is None:
                    tab.dst, tab.target = dst, target
                raise
            if r is models.PUSHED:
                nf = st.frames[-1]
                nf.dst, nf.target = dst, target
                return
            if target is None:
                raise Diverge('diverging call')
            self.store_ret(st, dst, r, target)
            return
        if key not in self.p.fns:
            raise Undecided('no body for %s' % c.get('rpath', key))
        fn = self.p.fns[key]
        if fn['crate'] not in ('rstar', 'probe', 'core', 'alloc') and not fn['closure']:
            raise Undecided('no model for %s' % c.get('rpath', key))
        self.enter(st, key, args, dst, target)

    def store_ret(self, st, dst, r, target):
        al, pa = dst
        if pa == ():
            st.store[al] = r
        else:
            self.put(st, al, pa, r)
        self.goto(st, target)

    def enter(self, st, key, args, dst, target, mark=None):
        fn = self.p.fns[key]
        if fn['closure'] and len(args) == 2 and not fn.get('spread'):
            # closure bodies take the argument tuple apart
            tup = args[1]
            if tup[0] == 'agg' and len(tup[3]) == fn['args'] - 1:
                args = [args[0]] + list(tup[3])
        elif fn.get('spread') is not None and len(args) != fn['args']:
            pass
        if len(args) != fn['args']:
            raise Undecided('arity of %s' % key)
        if self.driver.tabulated(st, key):
            raise Tabulate(key, args, dst, target, mark)
        self.push_call(st, key, args, dst, target, mark)


class Tabulate(Exception):
    def __init__(self, key, args, dst, target, mark):
        self.key, self.args, self.dst, self.target, self.mark = key, args, dst, target, mark


class _Refine(Exception):
    def __init__(self, alloc, path):
        self.alloc, self.path = alloc, path


class _FnRef:
    """A function value (hashable)."""

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, _FnRef) and self.d['key'] == o.d['key']

    def __hash__(self):
        return hash(self.d['key'])

    def __repr__(self):
        return 'fn ' + self.d['key']
