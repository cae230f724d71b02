"""Ordered-field reasoning about opaque scalars: polynomial normal forms and linear entailment over monomials.

No solver is involved: terms are normalised to polynomials, and a comparison is decided when it follows from the
comparisons already made on the path by Fourier-Motzkin elimination over the monomials.
"""
from fractions import Fraction

_pc = {}


def padd(a, b, s=1):
    d = dict(a)
    for m, k in b.items():
        x = d.get(m, 0) + s * k
        if x:
            d[m] = x
        else:
            d.pop(m, None)
    return d


def pmul(a, b):
    d = {}
    for m, k in a.items():
        for n, l in b.items():
            o = tuple(sorted(m + n, key=repr))
            x = d.get(o, 0) + k * l
            if x:
                d[o] = x
            else:
                d.pop(o, None)
    return d


def pkey(p):
    return tuple(sorted(((m, str(k)) for m, k in p.items()), key=repr))


def poly(t):
    if t in _pc:
        return _pc[t]
    r = _poly(t)
    _pc[t] = r
    return r


def _poly(t):
    if t == 'ZERO':
        return {}
    if t == 'ONE':
        return {(): Fraction(1)}
    if isinstance(t, tuple):
        h = t[0]
        if h in ('add', 'sub', 'add_assign', 'sub_assign') and len(t) == 3:
            return padd(poly(t[1]), poly(t[2]), 1 if h.startswith('add') else -1)
        if h == 'mul' and len(t) == 3:
            return pmul(poly(t[1]), poly(t[2]))
        if h == 'neg':
            return {m: -k for m, k in poly(t[1]).items()}
        if h == 'div' and len(t) == 3:
            q = poly(t[2])
            p = poly(t[1])
            if set(q) == {()}:
                return {m: k / q[()] for m, k in p.items()}
            return pmul(p, {(('inv', pkey(q)),): Fraction(1)})
    return {((t,)): Fraction(1)} if not isinstance(t, tuple) else {(t,): Fraction(1)}


def lra_infeasible(cons):
    """cons: list of (poly without constant handling, strict): poly >= 0 or > 0; unsatisfiable over the rationals
    when the monomials are free variables?"""
    work = set()
    for p, s in cons:
        c = p.get((), Fraction(0))
        f = frozenset((m, k) for m, k in p.items() if m != ())
        if not f:
            if c < 0 or (c == 0 and s):
                return True
            continue
        work.add(norm1(c, f, s))
    while work:
        cnt = {}
        for c, f, s in work:
            for m, k in f:
                p, n = cnt.get(m, (0, 0))
                cnt[m] = (p + 1, n) if k > 0 else (p, n + 1)
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], repr(x)))
        pos, neg, rest = [], [], set()
        for c, f, s in work:
            k = dict(f).get(m, 0)
            if k > 0:
                pos.append((k, c, f, s))
            elif k < 0:
                neg.append((-k, c, f, s))
            else:
                rest.add((c, f, s))
        for kp, c, f, s in pos:
            for kn, c2, f2, s2 in neg:
                d = {}
                for x, k in f:
                    d[x] = d.get(x, 0) + k * kn
                for x, k in f2:
                    d[x] = d.get(x, 0) + k * kp
                nf = frozenset((x, k) for x, k in d.items() if k)
                nc = c * kn + c2 * kp
                if not nf:
                    if nc < 0 or (nc == 0 and (s or s2)):
                        return True
                    continue
                rest.add(norm1(nc, nf, s or s2))
        work = rest
        if len(work) > 4000:
            return False
    return False


def norm1(c, f, s):
    k = abs(min(f, key=lambda x: repr(x[0]))[1])
    if k != 1:
        return (c / k, frozenset((m, x / k) for m, x in f), s)
    return (c, f, s)


def is_scalar_fact(t):
    return isinstance(t, tuple) and t and t[0] in ('lt', 'eq') and not (t[0] == 'eq' and any(isinstance(x, tuple) and x and x[0] == 'E' for x in t[1]))


def fact_cons(t, v):
    """Constraints stated by the fact; [] for a disequality."""
    if t[0] == 'lt':
        d = padd(poly(t[2]), poly(t[1]), -1)
        if v:
            return [(d, True)]
        return [({m: -k for m, k in d.items()}, False)]
    x = list(t[1])
    if len(x) == 1:
        return []
    d = padd(poly(x[0]), poly(x[1]), -1)
    if v:
        return [(d, False), ({m: -k for m, k in d.items()}, False)]
    return []


def gather(bf, goals, extra):
    """Constraints of the path that share monomials with the goals (transitively)."""
    cons = []
    for t, v in bf.items():
        if is_scalar_fact(t):
            cons += fact_cons(t, v)
    cons += extra
    ms = set()
    for g in goals:
        ms |= set(g)
    ms.discard(())
    # the extreme values bound everything
    out = []
    pool = cons
    grew = True
    while grew:
        grew = False
        nxt = []
        for c in pool:
            m = set(c[0])
            m.discard(())
            if m & ms:
                out.append(c)
                if not m <= ms:
                    ms |= m
                    grew = True
            else:
                nxt.append(c)
        pool = nxt
    for x, s in (('MAX', 1), ('MIN', -1)):
        if ((x,)) in ms:
            for m in list(ms):
                if len(m) == 1 and m[0] != x and not (isinstance(m[0], tuple) and m[0][0] == 'inv'):
                    out.append(({(x,): Fraction(s), m: Fraction(-s)}, m[0] in ('MAX', 'MIN')))
    return out


def linear(p):
    return all(len(m) <= 1 for m in p)


def substitute(p, m, q):
    """Replace the atom m by the polynomial q."""
    if not any(m in x for x in p):
        return p
    r = {}
    for x, k in p.items():
        t = {(): k}
        for y in x:
            t = pmul(t, q if y == m else {(y,): Fraction(1)})
        r = padd(r, t)
    return r


def simplify(bf, d, extra):
    """Normalise modulo the equalities between coordinates that the path implies."""
    cons = []
    seen = set()
    eqs = []
    for t, v in bf.items():
        if not is_scalar_fact(t):
            continue
        for p, s in fact_cons(t, v):
            if linear(p) and not s:
                k = pkey(p)
                if pkey({m: -x for m, x in p.items()}) in seen:
                    eqs.append(p)
                seen.add(k)
    # equalities that follow only through a chain of comparisons
    atoms = sorted({m for x in d for m in x}, key=repr)
    if len(atoms) <= 12:
        for i, x in enumerate(atoms):
            for y in atoms[:i]:
                e = {(x,): Fraction(1), (y,): Fraction(-1)}
                n = {(x,): Fraction(-1), (y,): Fraction(1)}
                c = gather(bf, [e], extra)
                if c and lra_infeasible(c + [(e, True)]) and lra_infeasible(c + [(n, True)]):
                    eqs.append(e)
    for k in range(len(eqs)):
        p = eqs[k]
        cand = [m for m in p if m]
        if not cand:
            continue
        m = min(cand, key=lambda z: (z[0] in ('MAX', 'MIN', 'ZERO'), repr(z)))
        c = p[m]
        q = {x: -v / c for x, v in p.items() if x != m}
        d = substitute(d, m[0], q)
        for j in range(k + 1, len(eqs)):
            eqs[j] = substitute(eqs[j], m[0], q)
    return d


def known_lt(bf, a, b, extra=(), deep=True):
    """Is a < b (True), a >= b (False) or open (None)?"""
    d = padd(poly(b), poly(a), -1)        # b - a
    r = known_lt1(bf, d, extra)
    if r is None and deep and not linear(d):
        e = simplify(bf, d, list(extra))
        if e != d:
            r = known_lt1(bf, e, extra)
    return r


def known_lt1(bf, d, extra):
    if not d:
        return False
    if set(d) == {()}:
        return d[()] > 0
    n = {m: -k for m, k in d.items()}
    cons = gather(bf, [d], list(extra))
    if lra_infeasible(cons + [(n, False)]):    # a >= b impossible
        return True
    if lra_infeasible(cons + [(d, True)]):
        return False
    return None


def known_eq(bf, a, b, extra=()):
    d = padd(poly(b), poly(a), -1)
    r = known_eq1(bf, d, extra)
    if r is None and not linear(d):
        e = simplify(bf, d, list(extra))
        if e != d:
            r = known_eq1(bf, e, extra)
    return r


def known_eq1(bf, d, extra):
    if not d:
        return True
    if set(d) == {()}:
        return False
    n = {m: -k for m, k in d.items()}
    for t, v in bf.items():
        if t[0] == 'eq' and not v and is_scalar_fact(t):
            x = list(t[1])
            if len(x) == 2:
                e = padd(poly(x[0]), poly(x[1]), -1)
                if e == d or e == n:
                    return False
    cons = gather(bf, [d], list(extra))
    gt = lra_infeasible(cons + [(d, True)])
    lt = lra_infeasible(cons + [(n, True)])
    if gt and lt:
        return True
    if lra_infeasible(cons + [(d, False), (n, False)]):
        return False
    return None
