"""Linear arithmetic over lengths and offsets of texts and lists: Fourier-Motzkin elimination on what a path knows."""
from terms import *

STRPOS = ('find', 'rfind')
def textlike(p): return not (p.op == 'charset' or p.op == 'app' and p.a[0] == 'charpred' or p.op in ('clo', 'fn'))
def add(a, b, m=1):
    for k, c in b.items():
        v = a.get(k, 0) + m * c
        if v: a[k] = v
        else: a.pop(k, None)
    return a

def drawn(y):
    """(text, pattern) when y is a position that char_indices, match_indices, ... of the text report"""
    if y.op != 'fld' or y.a[2] != 0: return None
    b = y.a[0]; base = None
    if b.op == 'elem': base = b.a[0]
    elif b.op == 'fld' and b.a[1] == 1 and b.a[0].op == 'app' and b.a[0].a[0] in ('it.nth', 'it.last', 'it.max', 'it.min'):
        q = b.a[0].a[1]
        while q.op == 'itpass' or q.op == 'itfilter': q = q.a[1] if q.op == 'itpass' else q.a[0]
        if q.op == 'it': base = q.a[0]
    while base is not None and base.op == 'app' and base.a[0] in ('rev', 'list'): base = base.a[1]
    if base is None or base.op != 'app': return None
    if base.a[0] == 'char_indices': return base.a[1], None
    if base.a[0] in ('match_indices', 'rmatch_indices') and len(base.a) > 2: return base.a[1], base.a[-1]
    return None

class Lin:
    """linear forms {atom: coefficient, None: constant} of the terms of one path"""
    def __init__(s, e, st): s.e = e; s.st = st; s.memo = {}; s.cons = []; s.atoms = []; s.known = set()
    def form(s, t):
        if t in s.memo: return dict(s.memo[t])
        s.memo[t] = {t: 1}
        r = s._form(t); s.memo[t] = r
        return dict(r)
    def atom(s, t):
        if t not in s.known: s.known.add(t); s.atoms.append(t)
        return {t: 1}
    def _form(s, t):
        if t.op == 'int': return {None: t.a[0]} if t.a[0] else {}
        if t.op == 'app' and t.a[0] == 'add' and len(t.a) == 3: return add(s.form(t.a[1]), s.form(t.a[2]))
        if t.op == 'app' and t.a[0] == 'sub' and len(t.a) == 3: return add(s.form(t.a[1]), s.form(t.a[2]), -1)
        if t.op == 'app' and t.a[0] == 'mul' and len(t.a) == 3 and (t.a[1].op == 'int' or t.a[2].op == 'int'):
            c, x = (t.a[1].a[0], t.a[2]) if t.a[1].op == 'int' else (t.a[2].a[0], t.a[1])
            return add({}, s.form(x), c)
        if t.op == 'app' and t.a[0] == 'len' and len(t.a) == 2: return s.length(t.a[1])
        d = drawn(t)
        if d:
            n = s.length(d[1]) if d[1] is not None and textlike(d[1]) else {None: 1}
            s.cons.append(add(add(s.length(d[0]), {t: 1}, -1), n, -1)); s.cons.append({t: 1})
        return s.atom(t)
    def length(s, x):
        k = ('len', x)
        if k in s.memo: return dict(s.memo[k])
        s.memo[k] = {app('len', x): 1}
        r = s._length(x); s.memo[k] = r
        return dict(r)
    def _length(s, x):
        if x.op == 'str': n = len(x.a[0].encode('utf-8', 'surrogatepass')); return {None: n} if n else {}
        if x.op == 'array': return {None: len(x.a)} if x.a else {}
        if x.op == 'app' and x.a[0] == 'concat':
            r = {}
            for y in x.a[1:]: add(r, s.length(y))
            return r
        if x.op == 'app' and x.a[0] == 'substr' and len(x.a) == 4: return add(s.form(x.a[3]), s.form(x.a[2]), -1)
        if x.op == 'app' and x.a[0] == 'pushed' and x.a[1].op != 'bad': return add(s.length(x.a[1]), {None: 1})
        r = s.atom(app('len', x))
        if x.op == 'fld':
            b = x.a[0]
            if b.op == 'app' and b.a[0] in ('strip_prefix', 'strip_suffix') and x.a[1] == 1 and textlike(b.a[2]):
                return add(s.length(b.a[1]), s.length(b.a[2]), -1)
            if b.op == 'app' and b.a[0] in ('strip_prefix', 'strip_suffix') and x.a[1] == 1: s.cons.append(add(s.length(b.a[1]), dict(r), -1))
            if b.op == 'fld' and b.a[0].op == 'app' and b.a[0].a[0] in ('split_once', 'rsplit_once') and b.a[1] == 1:
                c = b.a[0]
                if x.a[2] == 1:
                    p = s.length(c.a[2]) if textlike(c.a[2]) else None
                    if p is not None: return add(add(s.length(c.a[1]), p, -1), s.length(fld(b, None, 0)), -1)
                else:
                    p = s.length(c.a[2]) if textlike(c.a[2]) else {None: 1}
                    s.cons.append(add(add(s.length(c.a[1]), p, -1), dict(r), -1))
        if x.op == 'app' and x.a[0] in ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'filtered'): s.cons.append(add(s.length(x.a[1]), dict(r), -1))
        s.cons.append(dict(r))
        return r
    def collect(s, terms):
        e, st = s.e, s.st
        for t in terms: s.form(t)
        for t, v in list(st.facts.items()):
            if t.op != 'app': continue
            f = t.a[0]
            if f == 'lt':
                a, b = s.form(t.a[1]), s.form(t.a[2])
                s.cons.append(add(add(b, a, -1), {None: -1}) if v else add(a, b, -1))
            elif f == 'eq' and v:
                x, y = t.a[1], t.a[2]
                if e.ty_text(x) or e.ty_text(y) or x.op == 'str' or y.op == 'str': a, b = s.length(x), s.length(y)
                elif x.op == 'agg' or y.op == 'agg' or x.op == 'tuple' or y.op == 'tuple': continue
                else: a, b = s.form(x), s.form(y)
                d = add(a, b, -1); s.cons += [d, add({}, d, -1)]
            elif f in ('starts_with', 'ends_with', 'contains') and v and len(t.a) == 3 and textlike(t.a[2]) and e.ty_text(t.a[1]):
                s.cons.append(add(s.length(t.a[1]), s.length(t.a[2]), -1))
            elif f == 'is_empty' and len(t.a) == 2:
                l = s.length(t.a[1]); s.cons.append(add({}, l, -1) if v else add(l, {None: -1}))
        for t, vs in list(st.vars.items()):
            if t.op == 'app' and t.a[0] in ('strip_prefix', 'strip_suffix') and len(t.a) == 3 and vs == frozenset([1]): s.cons.append(s.length(fld(t, 1, 0, 1)))
            if t.op == 'app' and t.a[0] in ('split_once', 'rsplit_once') and vs == frozenset([1]):
                b = fld(t, 1, 0, 1); s.length(fld(b, None, 0)); s.cons.append(s.length(fld(b, None, 1)))
        # what the difference constraints know about these atoms
        for _ in range(2):
            ats = [a for a in s.atoms]
            for x, y, c in e.edges(st, ats):
                d = {}
                if y is not None: add(d, s.form(y))
                if x is not None: add(d, s.form(x), -1)
                add(d, {None: c})
                if d not in s.cons: s.cons.append(d)
            if len(s.atoms) == len(ats): break
    def entails(s, goal):
        """goal >= 0 follows"""
        cs = [add({}, goal, -1)]; add(cs[0], {None: -1})
        # only what is connected to the goal
        rel = set(k for k in goal if k is not None); pool = [c for c in s.cons if c]
        for _ in range(6):
            n = len(rel)
            for c in pool:
                ks = {k for k in c if k is not None}
                if ks & rel: rel |= ks
            if len(rel) == n: break
        cs += [c for c in pool if not {k for k in c if k is not None} - rel]
        uniq = []; seen = set()
        for c in cs:
            k = frozenset(c.items())
            if k not in seen: seen.add(k); uniq.append(c)
        cs = uniq; vs = set(k for c in cs for k in c if k is not None)
        if len(vs) > 24: return False
        while vs:
            if any(all(k is None for k in c) and c.get(None, 0) < 0 for c in cs): return True
            v = min(vs, key=lambda q: sum(1 for c in cs if c.get(q, 0) > 0) * sum(1 for c in cs if c.get(q, 0) < 0)); vs.discard(v)
            pos = [c for c in cs if c.get(v, 0) > 0]; neg = [c for c in cs if c.get(v, 0) < 0]
            cs = [c for c in cs if v not in c]; seen = {frozenset(c.items()) for c in cs}
            for a in pos:
                for b in neg:
                    d = add(add({}, a, -b[v]), b, a[v])
                    k = frozenset(d.items())
                    if k in seen: continue
                    if all(q is None for q in d) and d.get(None, 0) >= 0: continue
                    seen.add(k); cs.append(d)
            if len(cs) > 600: return False
        return any(c.get(None, 0) < 0 for c in cs)
def prove(e, st, a, b, k=0):
    """a + k <= b"""
    l = Lin(e, st); l.collect([a, b])
    return l.entails(add(add(l.form(b), l.form(a), -1), {None: -k}))
def at_boundary(e, st, x, n):
    """n is known to be the position of a boundary between characters of x"""
    l = Lin(e, st); want = l.form(n); lx = l.length(x)
    c = [({}, 'start'), (lx, 'end')]
    def sub(f, m=1): c.append((f, m))
    def within(y):
        """start of y in x"""
        if y is x: return {}
        if y.op == 'app' and y.a[0] == 'substr' and len(y.a) == 4:
            o = within(y.a[1])
            return None if o is None else add(o, l.form(y.a[2]))
        if y.op == 'fld':
            b = y.a[0]
            if b.op == 'app' and b.a[0] in ('strip_prefix', 'strip_suffix') and y.a[1] == 1:
                o = within(b.a[1])
                if o is None: return None
                return o if b.a[0] == 'strip_suffix' else add(o, l.length(b.a[2])) if textlike(b.a[2]) else None
            if b.op == 'fld' and b.a[0].op == 'app' and b.a[0].a[0] in ('split_once', 'rsplit_once') and b.a[1] == 1:
                o = within(b.a[0].a[1])
                if o is None: return None
                return o if y.a[2] == 0 else add(add(o, l.length(fld(b, None, 0))), l.length(b.a[0].a[2])) if textlike(b.a[0].a[2]) else None
        return None
    for t, v in list(st.facts.items()):
        if t.op == 'app' and t.a[0] in ('starts_with', 'ends_with') and v and len(t.a) == 3 and textlike(t.a[2]):
            o = within(t.a[1])
            if o is None: continue
            sub(add(dict(o), l.length(t.a[2])) if t.a[0] == 'starts_with' else add(add(dict(o), l.length(t.a[1])), l.length(t.a[2]), -1))
    seen = set()
    pool = [t for t in list(st.vars) + list(st.facts) + [n]]
    for t in pool:
        for y in subterms(t):
            if y in seen: continue
            seen.add(y)
            if y.op == 'app' and y.a[0] in STRPOS and len(y.a) == 3:
                o = within(y.a[1])
                if o is None: continue
                p = fld(y, 1, 0, 1); f = add(dict(o), l.form(p)); sub(f)
                if textlike(y.a[2]): sub(add(dict(f), l.length(y.a[2])))
            d = drawn(y)
            if d:
                o = within(d[0])
                if o is not None:
                    f = add(dict(o), l.form(y)); sub(f)
                    if d[1] is not None and textlike(d[1]): sub(add(dict(f), l.length(d[1])))
            if y.op == 'app' and y.a[0] in ('strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once') and len(y.a) == 3:
                z = fld(y, 1, 0, 1)
                for part in ([z] if y.a[0].startswith('strip') else [fld(z, None, 0), fld(z, None, 1)]):
                    o = within(part)
                    if o is not None: sub(dict(o)); sub(add(dict(o), l.length(part)))
    if x.op == 'app' and x.a[0] == 'concat':
        o = {}
        for y in x.a[1:]: o = add(dict(o), l.length(y)); sub(o)
    return any(f == want for f, _ in c)
