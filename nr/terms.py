"""Hash-consed value terms (global value numbering)."""
import sys
sys.setrecursionlimit(20000)

class T:
    __slots__ = ('op', 'a', 'id')
    def __init__(s, op, a, i):
        s.op = op; s.a = a; s.id = i
    def __repr__(s): return show(s)
    def __lt__(s, o): return s.id < o.id

_tab = {}
_kind = {}
def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T(op, a, len(_tab)); _tab[k] = t
    return t

def I(n): return mk('int', n)
def B(b): return TRUE if b else FALSE
def S(s): return mk('str', s)
def C(c): return mk('str', c)            # chars and one-char strings are interchangeable in predicates
TRUE = mk('bool', 1); FALSE = mk('bool', 0)
UNIT = mk('tuple'); ZERO = mk('int', 0); ONE = mk('int', 1)
TEXTLEN = set()        # lengths of texts
def sym(n): return mk('sym', n)
def app(f, *a): return mk('app', f, *a)

def is_lit(t): return t.op in ('int', 'bool', 'str', 'bytes')

def agg(ty, v, fields):
    """Struct/enum value; eta: S{x.0, x.1, ..} == x (same variant)."""
    fields = tuple(fields)
    if fields and fields[0].op == 'fld':
        b = fields[0].a[0]
        if all(f.op == 'fld' and f.a[0] is b and (f.a[1] or 0) == v and f.a[2] == i
               for i, f in enumerate(fields)) and _kind.get(b, ty) == ty and b in _kind:
            return b
    return mk('agg', ty, v, *fields)

def set_ty(t, ty):
    """Record the (first known) ADT type of an opaque term, for eta and for type-driven rules."""
    if t.op not in ('agg', 'tuple', 'array', 'int', 'bool', 'str', 'clo', 'mref'):
        _kind.setdefault(t, ty)
    return t
def ty_of(t):
    if t.op == 'agg': return t.a[0]
    return _kind.get(t)

def fld(t, v, i, n=None):
    if t.op == 'agg':
        if t.a[1] != (v or 0): return mk('bad', t, v, i)
        return t.a[2 + i] if 2 + i < len(t.a) else mk('bad', t, v, i)
    if t.op in ('tuple', 'array'):
        return t.a[i] if i < len(t.a) else mk('bad', t, v, i)
    if t.op == 'clo': return t.a[1 + i] if 1 + i < len(t.a) else mk('bad', t, v, i)
    if t.op == 'upd':
        b, uv, ui, val, un = t.a
        if (uv or 0) == (v or 0) and ui == i: return val
        return fld(b, v, i, n)
    return mk('fld', t, v, i)

def upd(t, v, i, val, n=None):
    if t.op == 'agg' and t.a[1] == (v or 0):
        a = list(t.a); a[2 + i] = val; return agg(a[0], a[1], a[2:])
    if t.op in ('tuple', 'array'):
        a = list(t.a)
        if i < len(a): a[i] = val
        return mk(t.op, *a)
    if t.op == 'clo':
        a = list(t.a)
        if 1 + i < len(a): a[1 + i] = val
        return mk('clo', *a)
    if t.op == 'upd' and t.a[1] == v and t.a[2] == i: return upd(t.a[0], v, i, val, n)
    return mk('upd', t, v, i, val, None)

def concat(parts):
    out = []
    for p in parts:
        if p.op == 'app' and p.a[0] == 'concat': ps = p.a[1:]
        else: ps = (p,)
        for q in ps:
            if q.op == 'str' and q.a[0] == '': continue
            if out and out[-1].op == 'str' and q.op == 'str': out[-1] = S(out[-1].a[0] + q.a[0])
            else: out.append(q)
    if not out: return S('')
    if len(out) == 1: return out[0]
    return app('concat', *out)

def subterms(t, seen=None):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        for y in x.a:
            if isinstance(y, T): st.append(y)
def contains(t, s):
    return any(x is s for x in subterms(t))
def find(t, pred):
    return [x for x in subterms(t) if pred(x)]
def rewrite(t, f, memo=None):
    if memo is None: memo = {}
    if t in memo: return memo[t]
    r = f(t)
    if r is None:
        a = tuple(rewrite(x, f, memo) if isinstance(x, T) else x for x in t.a)
        if t.op == 'fld': r = fld(*a)
        elif t.op == 'agg': r = agg(a[0], a[1], a[2:])
        elif t.op == 'app' and a[0] == 'concat': r = concat(a[1:])
        else: r = mk(t.op, *a)
    memo[t] = r
    return r

def NOT(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == 'not': return t.a[0]
    return mk('not', t)
def EQ(a, b):
    if a is b: return TRUE
    if a.op == b.op and a.op in ('int', 'str', 'bool'): return FALSE
    if a.op == 'bool': a, b = b, a
    if b is TRUE: return a
    if b is FALSE: return NOT(a)
    if b.id < a.id: a, b = b, a
    # the length of a text is 0 where it is empty
    if ZERO in (a, b):
        x = b if a is ZERO else a
        if x in TEXTLEN: return EQ(x.a[1], S(''))
    return app('eq', a, b)
def LT(a, b):
    if a is b: return FALSE
    if a.op == 'int' and b.op == 'int': return B(a.a[0] < b.a[0])
    if a is ZERO and b in TEXTLEN: return NOT(EQ(b.a[1], S('')))
    if b is ONE and a in TEXTLEN: return EQ(a.a[1], S(''))
    return app('lt', a, b)

TYPES = None
def show(t, d=6):
    if not isinstance(t, T): return str(t)
    if d == 0: return '…'
    if t.op == 'int': return str(t.a[0])
    if t.op == 'bool': return 'true' if t.a[0] else 'false'
    if t.op == 'str': return repr(t.a[0])
    if t.op == 'sym': return t.a[0]
    if t.op == 'app': return f"{t.a[0]}({', '.join(show(x, d-1) for x in t.a[1:])})"
    if t.op == 'agg':
        n = '?'
        if TYPES:
            ty = TYPES[t.a[0]]
            n = ty['s'].split('<')[0].split('::')[-1]
            if ty['kind'] == 'enum': n += '::' + ty['variants'][t.a[1]]['name']
        return f"{n}{{{', '.join(show(x, d-1) for x in t.a[2:])}}}"
    if t.op in ('tuple', 'array'): return ('(' if t.op == 'tuple' else '[') + ', '.join(show(x, d-1) for x in t.a) + (')' if t.op == 'tuple' else ']')
    if t.op == 'fld':
        v = '' if t.a[1] is None else f"@{t.a[1]}"
        ty = _kind.get(t.a[0])
        nm = str(t.a[2])
        if TYPES and ty is not None and TYPES[ty].get('k') == 'adt':
            vs = TYPES[ty]['variants']; vi = t.a[1] or 0
            if vi < len(vs) and t.a[2] < len(vs[vi]['fields']): nm = vs[vi]['fields'][t.a[2]][0]
            if TYPES[ty]['kind'] == 'enum': v = '@' + vs[vi]['name']
            else: v = ''
        return f"{show(t.a[0], d)}{v}.{nm}"
    if t.op == 'discr': return f"discr({show(t.a[0], d-1)})"
    if t.op == 'upd': return f"{show(t.a[0], d-1)}[{t.a[2]}:={show(t.a[3], d-1)}]"
    if t.op == 'clo': return f"closure#{t.a[0]}[{', '.join(show(x, d-1) for x in t.a[1:])}]"
    if t.op == 'mref': return '&mut ' + str(t.a[0]) + ''.join('.' + str(x) for x in t.a[1:])
    return f"{t.op}({', '.join(show(x, d-1) if isinstance(x, T) else str(x) for x in t.a)})"
