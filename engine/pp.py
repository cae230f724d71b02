"""Short rendering of abstract values, for diagnosis."""
from absint import *


def lin(L):
    if L is None:
        return '?'
    if L[0] == 'is':
        return 'is(%s)' % ' '.join(sorted(str(m) for m in L[1]))
    if L[0] in ('var', 'cnt', 'stair'):
        return '%s%s' % (L[0], lin(L[1]) if L[0] == 'stair' else L[1:])
    t = []
    for a, k in sorted(L[1], key=str):
        n = '%s%s' % (a[0], str(a[1]).split('::')[-1])
        t.append(n if k == 1 else '%s*%s' % (k, n))
    if L[0] or not t:
        t.append(str(L[0]))
    return '+'.join(t)


def cs(s):
    return '{' + ' '.join(sorted((x[0] + str(x[1])) if isinstance(x, tuple) else str(x) for x in s)) + '}'


def pp(v):
    k = v[0]
    if k == 'i':
        return lin(v[1])
    if k == 'env':
        return 'E' + cs(v[1])
    if k == 'obj':
        return 'O' + cs(v[1])
    if k == 'node':
        return 'N%s h=%s' % (cs(v[2]), lin(v[3]))
    if k == 'agg':
        return 'a%s/%s(%s)' % (v[1], v[2], ', '.join(pp(x) for x in v[3]))
    if k == 'seq':
        return '[' + '; '.join(sg(s) for s in v[1]) + ']'
    if k == 'sref':
        return '&' + pp(v[1])
    if k == 'iter':
        return 'it:' + v[1] + pp(v[2])
    if k == 'mref':
        return '&mut %s%s' % (al(v[1]), ''.join('.%s' % (e[1] if isinstance(e, tuple) else e) for e in v[2]))
    if k in ('miter', 'mslice'):
        return '%s %s%s %s' % (k, al(v[1]), ''.join('.%s' % (e[1] if isinstance(e, tuple) else e) for e in v[2]), v[3])
    if k == 'ti':
        return 'ti' + lin(v[1:])
    return str(v)


def al(a):
    return ''.join(str(x) for x in a)


def sg(s):
    if s[0] == '1':
        return '#%s %s' % (s[1], pp(s[2]))
    return '#%s *%s %s: %s' % (s[1], lin(s[2]), ' '.join('$%s=%s' % (u, cs(c)) for u, c in s[3]), pp(s[4]))


def state(t):
    out = []
    for a, v in t.store.items():
        out.append('   %s = %s' % (al(a), pp(v)))
    out.append('   cnt ' + ' '.join('%s:%s' % (a, lin(L)) for a, L in t.cnt.items()) + ' gh ' + ' '.join('%s=%s' % (g, cs(s)) for g, s in t.gh.items()))
    return '\n'.join(out)
