"""Properties decided from the types of the crate: signatures, visibility, auto traits, derived code."""
import re


def walk(t, f, refs=()):
    """f(type, refs above it) for every type mentioned in the type."""
    f(t, refs)
    k = t['k']
    r = refs
    if k in ('ref', 'ptr'):
        r = refs + (('mut' if t['mut'] else 'shared'),)
    elif k == 'adt' and not t['local'] and re.search(r'(Mut|Drain|RefMut)$', t['path'].split('::')[-1]):
        r = refs + ('mut',)
    for a in t.get('args', ()):
        walk(a, f, r)


class Api:
    def __init__(self, api):
        self.a = api
        self.adts = {x['path']: x for x in api['adts']}
        self.find()

    def find(self):
        """The node types, by their shape: an enum one of whose variants holds a struct with a sequence of the enum."""
        self.enum = self.par = self.tree = None

        def mentions(t, p):
            hit = []
            walk(t, lambda x, r: hit.append(1) if x['k'] == 'adt' and x['path'] == p else None)
            return bool(hit)
        for p, x in self.adts.items():
            if not x['enum'] or '::deserialize::' in p:
                continue
            for v in x['variants']:
                for f in v['fields']:
                    t = f['ty']
                    if t['k'] == 'adt' and t['local'] and t['path'] in self.adts and not self.adts[t['path']]['enum'] and t['path'] != p:
                        for g in self.adts[t['path']]['variants'][0]['fields']:
                            if mentions(g['ty'], p) and x['nameable']:
                                self.enum, self.par = p, t['path']
        for p, x in self.adts.items():
            if not x['enum'] and x['nameable'] and len(x['variants']) == 1:
                if any(f['ty']['k'] == 'adt' and f['ty']['path'] == self.par for f in x['variants'][0]['fields']) and p != self.enum:
                    self.tree = p
        if not (self.enum and self.par and self.tree):
            raise ValueError('the node types of the tree were not recognised')

    def node(self, t):
        return t['k'] == 'adt' and t['path'] in (self.enum, self.par)

    def treeish(self, t, seen=None):
        """Does a value of the type give access to nodes of a tree?"""
        hit = []
        seen = seen if seen is not None else set()

        def f(x, r):
            if x['k'] == 'adt' and x['local']:
                if x['path'] in (self.enum, self.par, self.tree):
                    hit.append(1)
                elif x['path'] not in seen and x['path'] in self.adts:
                    seen.add(x['path'])
                    for v in self.adts[x['path']]['variants']:
                        for g in v['fields']:
                            if self.treeish(g['ty'], seen):
                                hit.append(1)
            if x['k'] == 'param' and x['s'] == 'Self':
                pass
        walk(t, f)
        return bool(hit)


def short(p):
    return re.sub(r'rstar::(\w+::)*', '', p)


SERDE_TYPES = ['RTree', 'ParentNode', 'RTreeNode', 'AABB', 'Rectangle', 'Line', 'CachedEnvelope', 'GeomWithData', 'PointWithData']


def c18(A, probs):
    stats = {'types': 0, 'fields': 0, 'bodies': 0}
    by = {}
    for x in A.a['serde']:
        if '::deserialize::' in x['adt'] and x['adt'] not in A.adts:
            continue
        by.setdefault(x['adt'], []).append(x)
        stats['bodies'] += 1

    def bad(adt, what, at=''):
        probs.append(('serde', '%s: %s' % (short(adt), what), '%s: %s %s' % (adt, what, at)))
    impls = {}
    for im in A.a['impls']:
        if im['trait'].endswith('::Serialize') or im['trait'].endswith('::Deserialize'):
            impls.setdefault(im['for'].split('<')[0], {})[im['trait'].split('::')[-1]] = im
    names = {p.split('::')[-1]: p for p in A.adts if '::deserialize::' not in p}
    todo = [names[n] for n in SERDE_TYPES if n in names]
    for n in SERDE_TYPES:
        if n not in names:
            probs.append(('serde', 'type %s' % n, 'the type %s was not found' % n))
    for p in impls:
        if p in A.adts and p not in todo and '::deserialize::' not in p:
            todo.append(p)
    for p in todo:
        adt = A.adts[p]
        stats['types'] += 1
        for tr in ('Serialize', 'Deserialize'):
            if tr not in impls.get(p, {}):
                bad(p, 'no implementation of %s' % tr, adt['at'])
        ser = [c for x in by.get(p, []) if x['trait'].endswith('::Serialize') for c in x['calls']]
        dexs = [x for x in by.get(p, []) if x['trait'].endswith('::Deserialize')]
        # helper impls nested in the body of deserialize belong to it
        pre = None
        for x in dexs:
            if x['name'] == 'deserialize':
                pre = x['fn']
        de = {}
        for q, xs in by.items():
            for x in xs:
                if q == p or (pre and x['fn'].startswith(pre)):
                    de.setdefault(x['name'], []).extend(x['calls'])
        alld = [c for cs in de.values() for c in cs]

        def strs(cs):
            return [re.search(r'"(.*)"', a).group(1) for c in cs for a in c['a'] if isinstance(a, str) and re.match(r'const (const )?"', a)]

        def last(c):
            return c['f'].split('::')[-1]
        read = strs([c for c in de.get('visit_str', []) if last(c) == 'eq'])
        for c in ser:
            if last(c) in ('skip_field', 'custom'):
                bad(p, 'a field may be left out when writing', c['at'])
        for c in alld:
            if last(c) == 'default' and 'Default' in c['f']:
                bad(p, 'a value may be made up when reading (%s)' % ', '.join(c['t']), c['at'])
            if c['f'].startswith('rstar::') or c['f'].startswith('<rstar::'):
                if '::deserialize::' not in c['f']:
                    bad(p, 'reading calls %s' % c['f'], c['at'])
        if adt['enum']:
            seen = {}
            for c in ser:
                if last(c) == 'serialize_newtype_variant':
                    st = strs([c])
                    m = re.match(r'self\.v(\d+)\.f0$', c['a'][-1] or '')
                    if m and st:
                        seen[int(m.group(1))] = (st[-1], c['t'][-1])
            for i, v in enumerate(adt['variants']):
                stats['fields'] += 1
                if len(v['fields']) != 1:
                    bad(p, 'variant %s is not of a known form' % v['name'], adt['at'])
                    continue
                ty = v['fields'][0]['norm']
                if i not in seen or seen[i][1] != ty:
                    bad(p, 'variant %s is not written as it is' % v['name'], adt['at'])
                elif seen[i][0] not in read:
                    bad(p, 'variant %s is written as "%s" but not read under this name' % (v['name'], seen[i][0]), adt['at'])
                got = [c for c in de.get('visit_enum', []) if last(c) == 'newtype_variant' and c['t'][-1] == ty]
                if not got:
                    bad(p, 'variant %s is not read back' % v['name'], adt['at'])
            if len(set(s for s, _ in seen.values())) != len(seen):
                bad(p, 'two variants share a name', adt['at'])
            continue
        seen = {}
        for c in ser:
            if last(c) == 'serialize_field':
                st = strs([c])
                m = re.match(r'self\.f(\d+)$', c['a'][-1] or '')
                if not (m and st):
                    bad(p, 'a written field is not a field of the value', c['at'])
                else:
                    seen.setdefault(int(m.group(1)), []).append((st[0], c['t'][-1]))
        fields = adt['variants'][0]['fields']
        for i, f in enumerate(fields):
            stats['fields'] += 1
            w = seen.get(i, [])
            if len(w) != 1:
                bad(p, 'field %s is written %d times' % (f['name'], len(w)), adt['at'])
                continue
            nm, ty = w[0]
            if ty != f['norm']:
                bad(p, 'field %s is written through %s' % (f['name'], ty), adt['at'])
            if nm not in read:
                bad(p, 'field %s is written as "%s" but not read under this name' % (f['name'], nm), adt['at'])
            if nm not in strs([c for c in de.get('visit_map', []) if last(c) == 'missing_field']):
                bad(p, 'field %s may be missing when reading' % f['name'], adt['at'])
            if not any(last(c) == 'next_value' and c['t'][-1] == f['norm'] for c in de.get('visit_map', [])):
                bad(p, 'field %s is not read back as it is' % f['name'], adt['at'])
        if len(set(n for w in seen.values() for n, _ in w)) != len(seen):
            bad(p, 'two fields share a name', adt['at'])
        elems = [c['t'][-1] for c in de.get('visit_seq', []) if last(c) == 'next_element']
        if sorted(elems) != sorted(f['norm'] for f in fields):
            bad(p, 'the sequence form reads %d of %d fields' % (len(elems), len(fields)), adt['at'])
        if not any(last(c) == 'serialize_struct' for c in ser):
            bad(p, 'it is not written as a structure', adt['at'])
        for tr in ('Serialize', 'Deserialize'):
            if tr in impls.get(p, {}) and not impls[p][tr]['derived']:
                bad(p, 'the implementation of %s is written by hand: it is not decided what it does' % tr, impls[p][tr]['at'])
    return stats


def c19(A, probs):
    stats = {'blocks': A.a['blocks'], 'adts': 0, 'statics': len(A.a['statics']), 'opaque types': len(A.a['opaque'])}
    for u in A.a['unsafe']:
        if 'TrivialClone' in u['what']:
            continue                              # from #[derive(Clone)]
        probs.append(('unsafe', u['what'], '%s at %s' % (u['what'], u['at'])))
    for x in A.a['statics']:
        if x['mut']:
            probs.append(('static', x['path'], 'mutable static %s at %s' % (x['path'], x['at'])))
        for h in x['inner']:
            probs.append(('static', x['path'], '%s has %s (%s)' % (x['path'], h, x['at'])))
    # private types matter as far as public ones contain them; that is part of deciding their auto traits
    for p, x in A.adts.items():
        if '::deserialize::' in p:
            continue
        stats['adts'] += 1
        for h in x['inner']:
            if h.startswith('interior'):
                probs.append(('interior', p, '%s: %s (%s)' % (p, h, x['at'])))
        if x['reach']:
            for tr in ('send', 'sync'):
                if not x[tr]:
                    probs.append(('auto', '%s %s' % (p, tr), '%s is not %s although everything it contains is (%s)' % (p, tr, x['at'])))
    for x in A.a['opaque']:
        for tr in ('send', 'sync'):
            if not x[tr]:
                probs.append(('auto', '%s %s' % (x['path'], tr), '%s (%s) is not %s although everything it contains is (%s)' % (x['path'], x['hidden'], tr, x['at'])))
    for im in A.a['impls']:
        if im['trait'] in ('core::marker::Send', 'core::marker::Sync'):
            probs.append(('auto', '%s for %s' % (im['trait'], im['for']), 'explicit implementation of %s for %s at %s' % (im['trait'], im['for'], im['at'])))
    return stats


COPIES = ('core::clone::Clone', 'serde_core::de::Deserialize', 'serde::de::Deserialize', 'core::default::Default')


def c20(A, probs):
    stats = {'functions': 0, 'fields': 0}
    for p in (A.par, A.tree):
        for f in A.adts[p]['variants'][0]['fields']:
            stats['fields'] += 1
            if f['pub']:
                probs.append(('field', '%s.%s' % (short(p), f['name']), 'field %s of %s is public (%s)' % (f['name'], p, A.adts[p]['at'])))
    for p, x in A.adts.items():
        if p in (A.enum, A.par, A.tree) or not x['reach'] or '::deserialize::' in p:
            continue
        for v in x['variants']:
            for f in v['fields']:
                if f['pub'] and A.treeish(f['ty']):
                    probs.append(('field', '%s.%s' % (short(p), f['name']), 'field %s of %s gives access to nodes (%s)' % (f['name'], p, x['at'])))

    def protected(t):
        """Things in a node or tree that only the tree may change."""
        hit = []

        def f(x, r):
            if A.node(x):
                hit.append(x['s'])
        walk(t, f)
        if t['k'] == 'proj' and t['path'].endswith('::Envelope'):
            hit.append(t['s'])
        if t['k'] == 'other' and t['s'] in ('usize', 'u64', 'u32', 'isize'):
            hit.append(t['s'])
        return hit
    for fn in A.a['fns']:
        if not fn['reach'] or '::deserialize::' in fn['path']:
            continue
        stats['functions'] += 1
        src = any(A.treeish(t) for t in fn['in']) or fn['path'].startswith(A.par + '::') or fn['path'].startswith(A.enum + '::')

        def leak(t, how):
            def f(x, r):
                if x['k'] in ('ref', 'ptr') and x['mut'] and src:
                    for h in protected(x['args'][0]):
                        probs.append(('leak', '%s %s' % (fn['path'], how), '%s %s mutable access to %s (%s)' % (fn['path'], how, h, fn['at'])))
                if A.node(x) and 'mut' in r and src:
                    probs.append(('leak', '%s %s' % (fn['path'], how), '%s %s mutable access to %s (%s)' % (fn['path'], how, x['s'], fn['at'])))
            walk(t, f)
        leak(fn['out'], 'returns')
        for c in fn['closures']:
            leak(c, 'passes')

        def byvalue(t, only=None):
            hit = []

            def f(x, r):
                if not r and A.node(x) and (only is None or x['path'] == only):
                    hit.append(x['s'])
            walk(t, f)
            return hit
        if fn['trait'] in COPIES and fn['trait'] != 'core::default::Default' or fn['derived']:
            continue
        made = byvalue(fn['out'], A.par)
        if made:
            probs.append(('build', fn['path'], '%s hands out the inner node %s by value (%s)' % (fn['path'], made[0], fn['at'])))
        if any(byvalue(t) for t in fn['in']):
            hit = []
            for t in fn['in'] + [fn['out']]:
                walk(t, lambda x, r: hit.append(1) if x['k'] == 'adt' and x['path'] == A.tree else None)
            if hit:
                probs.append(('build', fn['path'], '%s puts nodes made by the user into a tree (%s)' % (fn['path'], fn['at'])))
    return stats


def run(prop, probe, api):
    probs = []
    try:
        A = Api(api)
        stats = {'C18': c18, 'C19': c19, 'C20': c20}[prop](A, probs)
    except Exception as e:
        import traceback
        return [('undecided', 'analysis', 'the analysis failed: %s %s' % (e, traceback.format_exc()[-500:]))], {}
    seen = set()
    out = []
    for p in probs:
        if p[:2] not in seen:
            seen.add(p[:2])
            out.append(p)
    return out, stats
