"""Interprocedural, path-sensitive value-numbering dataflow analysis over the compiler's MIR.

Nothing of the analysed program is executed and no solver is called: values are hash-consed
terms, branch conditions become must-facts on those terms, joins are kept apart (trace
partitioning), loop bodies are analysed once with every location they modify replaced by an
unknown (phi), and calls either inline the callee's MIR (helpers, closures, Option/Result
plumbing) or, at the named units and at recursion, are replaced by an opaque result."""
import json, re, sys
from terms import *
import terms as TM
import linear

class Limit(Exception): pass

JSON_KIND = {'is_null': 0, 'is_boolean': 1, 'is_number': 2, 'is_string': 3, 'is_array': 4, 'is_object': 5}
PANIC = re.compile(r'(^|::)(panic\w*|unwrap_failed|expect_failed|expect_none_failed|unreachable_\w+|assert_failed\w*|slice_\w+_fail\w*|begin_panic\w*|cold_path_panic|display_fail)(::|$)')

def strip_generics(s):
    out = []; d = 0; i = 0
    while i < len(s):
        if s.startswith('::<', i) and not s.startswith('::<impl', i):
            # generic args of a path segment
            j = i + 3; k = 1
            while k and j < len(s):
                if s[j] == '<': k += 1
                elif s[j] == '>' and s[j-1] != '-': k -= 1
                j += 1
            i = j; continue
        out.append(s[i]); i += 1
    return ''.join(out)

def _match(s, i):
    k = 0
    while i < len(s):
        if s[i] == '<': k += 1
        elif s[i] == '>' and s[i-1] != '-':
            k -= 1
            if k == 0: return i
        i += 1
    return len(s) - 1

def tybase(s):
    s = s.strip()
    while s and s[0] in '&*' or s.startswith('mut ') or s.startswith('const ') or re.match(r"'\w+ ", s):
        if s[0] in '&*': s = s[1:].strip()
        else: s = s.split(' ', 1)[1].strip()
    if s.startswith('['): return 'slice'
    if s.startswith('dyn '): s = s[4:]
    s = re.sub(r'<.*', '', s)
    return s.split('::')[-1]

_sn = {}
def sname(d):
    """nodejs_resolver::resolve::<impl nodejs_resolver::Resolver>::f -> Resolver::f ; <A as B>::f -> A::f"""
    r = _sn.get(d)
    if r is None:
        r = _sn[d] = _sname(d)
    return r
def _sname(d):
    clos = ''
    m = re.search(r'(::\{closure#\d+\})+$', d)
    if m: clos = d[m.start():]; d = d[:m.start()]
    d = strip_generics(d)
    if d.startswith('<'):
        e = _match(d, 0); inner = d[1:e]; rest = d[e+1:].lstrip(':')
        ty = inner; k = 0
        for i in range(len(inner)):
            if inner[i] == '<': k += 1
            elif inner[i] == '>' and inner[i-1] != '-': k -= 1
            elif k == 0 and inner.startswith(' as ', i): ty = inner[:i]; break
        return tybase(ty) + '::' + rest + clos
    i = d.find('<impl ')
    if i >= 0:
        e = _match(d, i); inner = d[i+6:e]; rest = d[e+1:].lstrip(':')
        j = inner.find(' for ')
        ty = inner[j+5:] if j >= 0 else inner
        return tybase(ty) + '::' + rest + clos
    segs = d.split('::')
    if len(segs) >= 2 and (segs[-2][:1].isupper()): return '::'.join(segs[-2:]) + clos
    if segs[0] in ('std', 'core', 'alloc') and len(segs) >= 2: return '::'.join(segs[-2:]) + clos
    if len(segs) > 2 and segs[0] != 'nodejs_resolver': return segs[0] + '::' + segs[-1] + clos
    return segs[-1] + clos

TRANSPARENT_TY = ('str', 'String', 'SmolStr', 'Cow', 'Path', 'PathBuf', 'OsStr', 'OsString', 'Arc', 'Rc', 'Box', 'char')

# std functions that return a view/copy of their (first) argument
TRANSPARENT = {
 'Deref::deref','DerefMut::deref_mut','AsRef::as_ref','AsMut::as_mut','Borrow::borrow','BorrowMut::borrow_mut','ToOwned::to_owned','Clone::clone',
 'Path::to_path_buf','Path::new','PathBuf::as_path','Path::as_os_str','OsStr::to_os_string','PathBuf::into_os_string','PathBuf::new_from',
 'String::as_str','str::to_string','str::to_owned','String::into_boxed_str','Vec::as_slice','Vec::into_boxed_slice','slice::to_vec','Arc::new','Box::new','Rc::new',
 'SmolStr::new','SmolStr::as_str','SmolStr::to_string','SmolStr::new_inline','Box::pin','OsString::into','OsString::as_os_str','hint::must_use','convert::identity',
 'Arc::clone','Rc::clone','Arc::as_ref','Box::as_ref','PathBuf::into_boxed_path','hint::black_box','Vec::into_iter_','Cow::into_owned','Cow::to_mut','String::into_string','Entry::as_ref','PrefixComponent::as_os_str','Component::as_os_str',
 'Arc::unwrap_or_clone','str::into_string','String::from_str','Iterator::into_iter','Vec::as_mut_slice','mem::ManuallyDrop::new','String::from','PathBuf::from','OsString::from','Arc::from','Box::from','Vec::leak','slice::as_slice','Arc::into_inner_','Vec::as_ref','String::as_ref','Path::as_ref','str::as_ref','String::clone','PathBuf::clone','Option::cloned_','Path::iter_','str::as_str',
}
ITER_BASE = {'IntoIterator::into_iter','slice::iter','slice::iter_mut','Vec::iter','Vec::drain','HashMap::iter','HashMap::into_iter','IndexMap::iter','IndexMap::into_iter','IndexMap::iter_mut','HashMap::iter_mut','HashSet::iter','Map::iter','BTreeMap::iter','DashMap::iter','array::iter','VecDeque::iter','Option::iter','Path::iter','IndexSet::iter'}
HASHED = ('HashMap', 'HashSet', 'DashMap', 'DashSet')
PASS_ADAPT = {'Iterator::rev','Iterator::cloned','Iterator::copied','Iterator::skip','Iterator::take','Iterator::step_by','Iterator::peekable','Iterator::fuse','Iterator::by_ref','Iterator::cycle','DoubleEndedIterator::rev'}

class State:
    __slots__ = ('store', 'facts', 'vars', 'ev', 'guards', 'loops', 'steps')
    def __init__(s): s.store = {}; s.facts = {}; s.vars = {}; s.ev = None; s.guards = (); s.loops = (); s.steps = 0
    def copy(s):
        n = State(); n.store = dict(s.store); n.facts = dict(s.facts); n.vars = dict(s.vars)
        n.ev = s.ev; n.guards = s.guards; n.loops = s.loops; n.steps = s.steps
        return n
    def event(s, *e): s.ev = (s.ev, e)
    def events(s):
        o = []; e = s.ev
        while e: o.append(e[1]); e = e[0]
        return o[::-1]

class Trace:
    __slots__ = ('unit', 'kind', 'ret', 'facts', 'vars', 'ev', 'info', 'store', 'guards', '_evl')
    def __init__(s, unit, kind, ret, st, info=None):
        s.unit = unit; s.kind = kind; s.ret = ret; s.facts = st.facts; s.vars = st.vars; s.ev = st.ev; s.info = info; s.store = st.store; s.guards = st.guards; s._evl = None
    def events(s):
        if s._evl is None: s._evl = State.events(s)
        return s._evl

class Frame:
    __slots__ = ('inst', 'fid', 'ctx', 'body', 'stack', 'name')

class Unit:
    def __init__(s, name, inst): s.name = name; s.inst = inst; s.traces = []; s.params = []; s.error = None; s.callees = set()

class Engine:
    def __init__(s, path, unit_names, max_traces=6000, max_steps=400000):
        m = json.load(open(path)) if isinstance(path, str) else path
        s.m = m; s.types = m['types']; s.insts = m['insts']; TM.TYPES = s.types
        s.max_traces = max_traces; s.max_steps = max_steps
        s.unit_names = set(unit_names)
        s.cfg = {}
        s.cur = None
        s.notes = set()       # imprecision notes
        s.obl = {}            # (unit, site, kind) -> discharged?
        s._fid = 0
        s.sname = {i['id']: sname(i['name'] if i['local'] and not i['def'].startswith('<') and i['name'].startswith('<') and '{closure' not in i['name'] else i['def']) for i in s.insts}
        s.proving = False; s.inv = {}; s.inv_bad = set(); s.inv_on = set(); s.inv_new = False; s._last_state = None; s.post = {}; s.post_memo = {}
        s.by_name = {}
        for i in s.insts:
            if i['local'] and i['body']: s.by_name.setdefault(s.sname[i['id']], []).append(i)
        s.hof_depth = 0

    # ---------- types
    def ty(s, n): return s.types[n]
    def adt(s, n):
        t = s.types[n]
        while t.get('k') in ('ref', 'ptr'):
            n = t['to']; t = s.types[n]
        return n if t.get('k') == 'adt' else None
    def peel(s, n):
        t = s.types[n]
        while True:
            if t.get('k') in ('ref', 'ptr'): n = t['to']
            elif t.get('k') == 'adt' and tybase(t['name']) in ('Arc', 'Box', 'Rc') and t['args']: n = t['args'][0]
            elif t.get('k') == 'adt' and t['name'].startswith('dashmap::mapref::one::Ref') and len(t['args']) > 1: n = t['args'][1]
            else: return n
            t = s.types[n]
    def tname(s, n):
        t = s.types[n]
        return tybase(t.get('name') or t['s'])
    def strlike(s, n):
        t = s.types[s.peel(n)]
        return t.get('k') in ('str', 'char') or t.get('k') == 'adt' and tybase(t['name']) in ('String', 'SmolStr', 'Cow', 'Path', 'PathBuf', 'OsStr', 'OsString', 'Component')
    def variant(s, ty, name):
        for i, v in enumerate(s.types[ty]['variants']):
            if v['name'] == name: return i
    def typed(s, t, n):
        a = s.peel(n)
        tt = s.types[a]
        if tt.get('k') == 'adt': set_ty(t, a)
        elif tt.get('k') == 'tuple' and t.op in ('fld', 'sym', 'app', 'elem', 'phi'): set_ty(t, a)
        return t

    # ---------- places
    def local_ty(s, fr, l): return fr.body['locals'][l][0]
    def dest_ty(s, fr, t): return t['rty'] if 'rty' in t else s.place_ty(fr, t['d'])
    def place_ty(s, fr, p):
        n = s.local_ty(fr, p[0]); v = None
        for e in p[1]:
            t = s.types[n]
            if e[0] == '*':
                if t.get('k') in ('ref', 'ptr'): n = t['to']
                elif t.get('k') == 'adt' and t['args']: n = t['args'][0]
            elif e[0] == 'f': n = e[2]
            elif e[0] in ('i', 'ci'):
                n = t.get('to', n)
        return n
    def get(s, st, root, path):
        v = st.store.get(root)
        if v is None:
            v = root[1] if root[0] == 'H' else sym(f"uninit:{root}")
        for (var, i) in path: v = s.proj(st, v, var, i)
        return v
    def proj(s, st, v, var, i):
        if v.op == 'mref': return s.proj(st, s.load_ref(st, v), var, i)
        if v.op == 'app' and v.a[0] == 'dm.get' and False: pass
        return fld(v, var, i)
    def load_ref(s, st, v):
        """value behind a `&mut`"""
        seen = 0
        while v.op == 'mref' and seen < 50:
            v = s.get(st, v.a[0], v.a[1]); seen += 1
        return v
    def set(s, st, root, path, val):
        if not path: st.store[root] = val; return
        base = st.store.get(root)
        if base is None: base = root[1] if root[0] == 'H' else sym(f"uninit:{root}")
        st.store[root] = s.setp(st, base, path, val)
    def setp(s, st, base, path, val):
        if base.op == 'mref':
            s.set(st, base.a[0], base.a[1] + tuple(path), val); return base
        (var, i) = path[0]
        if len(path) == 1: return upd(base, var, i, val)
        return upd(base, var, i, s.setp(st, s.proj(st, base, var, i), path[1:], val))
    def resolve(s, st, fr, p):
        """place -> (root, path)"""
        root = ('L', fr.fid, p[0]); path = []; var = None
        for e in p[1]:
            if e[0] == '*':
                v = s.get(st, root, path)
                if v.op == 'mref':
                    root, path = v.a[0], list(v.a[1])
                elif s.types[s.local_ty(fr, p[0])].get('k') in ('ref', 'ptr') or path:
                    # shared reference / Box: the place holds the value itself
                    pass
                var = None
            elif e[0] == 'f': path = path + [(var, e[1])]; var = None
            elif e[0] == 'd': var = e[1]
            elif e[0] == 'i': path = path + [('ix', s.get(st, ('L', fr.fid, e[1]), []))]; var = None
            elif e[0] == 'ci': path = path + [('ix', mk('ci', e[1], int(bool(e[2]))))]; var = None
            else: path = path + [('sub', mk('subslice', *[x if not isinstance(x, bool) else int(x) for x in e[1:]]))]; var = None
        return root, path
    def read(s, st, fr, p):
        v = st.store.get(('L', fr.fid, p[0]))
        if v is None: v = sym(f"uninit:{fr.name}:{p[0]}")
        var = None; n = s.local_ty(fr, p[0])
        for e in p[1]:
            if e[0] == '*':
                if v.op == 'mref': v = s.load_ref(st, v)
                elif ('H', v) in st.store: v = st.store[('H', v)]
                t = s.types[n]
                if t.get('k') in ('ref', 'ptr'): n = t['to']
                elif t.get('k') == 'adt' and t['args']: n = t['args'][0]
            elif e[0] == 'd': var = e[1]
            elif e[0] == 'f':
                if v.op == 'mref': v = s.load_ref(st, v)
                v = fld(v, var if s.is_enum(n) else None, e[1]); n = e[2]; var = None
                s.typed(v, n)
            elif e[0] == 'i':
                v = s.index(st, v, s.get(st, ('L', fr.fid, e[1]), [])); n = s.types[n].get('to', n); s.typed(v, n)
            elif e[0] == 'ci':
                n = s.types[n].get('to', n); v = s.index(st, v, I(e[1]) if not e[2] else mk('fromend', e[1])); s.typed(v, n)
            else: v = app('subslice', v, *[I(int(x)) for x in e[1:]])
        return v
    def is_enum(s, n):
        t = s.types[n]; return t.get('k') == 'adt' and t['kind'] == 'enum'
    def index(s, st, v, i):
        if v.op == 'mref': v = s.load_ref(st, v)
        if v.op == 'array' and i.op == 'int' and i.a[0] < len(v.a): return v.a[i.a[0]]
        if v.op == 'app' and v.a[0] == 'from_elem': return v.a[1]
        if i.op == 'elem' and i.a[0].op == 'app':
            b = i.a[0].a[1] if i.a[0].a[0] == 'rev' else i.a[0]
            if b.op == 'app' and b.a[0] == 'range' and len(b.a) == 3 and b.a[1] is I(0) and b.a[2].op == 'app' and b.a[2].a[0] == 'len' and b.a[2].a[1] is v: return mk('elem', v, i.a[1])
        return app('at', v, i)
    def write(s, st, fr, p, val):
        root, path = [('L', fr.fid, p[0])], None
        # walk to the last deref of a &mut
        root = ('L', fr.fid, p[0]); path = []; var = None; n = s.local_ty(fr, p[0])
        for e in p[1]:
            if e[0] == '*':
                v = s.get(st, root, path)
                t = s.types[n]
                if v.op == 'mref': root, path = v.a[0], list(v.a[1])
                elif t.get('k') == 'ptr' or t.get('k') == 'ref' and t.get('mut'):
                    root, path = ('H', v), []
                if t.get('k') in ('ref', 'ptr'): n = t['to']
                elif t.get('k') == 'adt' and t['args']: n = t['args'][0]
                var = None
            elif e[0] == 'f': path = path + [(var if s.is_enum(n) else None, e[1])]; var = None; n = e[2]
            elif e[0] == 'd': var = e[1]
            elif e[0] == 'i':
                # array element: weak update
                iv = s.get(st, ('L', fr.fid, e[1]), [])
                old = s.get(st, root, path)
                nv = app('store', old, iv, val)
                s.set(st, root, path, nv); return
            else: return
        s.set(st, root, path, val)
        if root[0] != 'L': st.event('store', root, tuple(path), val)
    def mkref(s, st, fr, p):
        root = ('L', fr.fid, p[0]); path = []; var = None; n = s.local_ty(fr, p[0])
        for e in p[1]:
            if e[0] == '*':
                v = s.get(st, root, path); t = s.types[n]
                if v.op == 'mref': root, path = v.a[0], list(v.a[1])
                elif t.get('k') == 'ptr' or t.get('k') == 'ref' and t.get('mut'): root, path = ('H', v), []
                if t.get('k') in ('ref', 'ptr'): n = t['to']
                elif t.get('k') == 'adt' and t['args']: n = t['args'][0]
            elif e[0] == 'f': path = path + [(var if s.is_enum(n) else None, e[1])]; var = None; n = e[2]
            elif e[0] == 'd': var = e[1]
            elif e[0] in ('i', 'ci'):
                iv = s.get(st, ('L', fr.fid, e[1]), []) if e[0] == 'i' else I(e[1])
                v = s.index(st, s.get(st, root, path), iv)
                root, path = ('H', v), []
                n = s.types[n].get('to', n)
        return mk('mref', root, tuple(path))

    # ---------- operands / rvalues
    def const(s, o):
        v = o['v']; c = v['c']; t = s.types[o['ty']]
        if c == 'int': return I(int(v['v']))
        if c == 'bool': return B(v['v'])
        if c == 'char': return S(chr(v['v']))
        if c == 'str': return S(v['v'])
        if c == 'bytes': return mk('bytes', bytes(v['v']))
        if c == 'variant': return agg(v['ty'], v['v'], [])
        if c == 'agg': return agg(v['ty'], v['v'], [s.const(f) for f in v['f']])
        if c == 'tuple': return mk('tuple', *[s.const(f) for f in v['f']])
        if c == 'zst' or c == 'fn':
            if t.get('k') == 'fndef': return mk('fn', t['inst'] if t.get('inst') is not None else t['s'])
            if t.get('k') == 'closure': return mk('clo', t['inst'])
            if t.get('k') == 'tuple': return UNIT
            if t.get('k') == 'adt': return agg(o['ty'], 0, [])
            return mk('zst', t['s'])
        if c == 'static':
            d = s.m['statics'].get(v['name'])
            if d and not d['mut'] and len(d['strings']) == 1 and s.types[s.peel(d['ty'])].get('k') == 'str': return S(d['strings'][0])
            x = sym('static:' + v['name']); s.typed(x, o['ty']); return x
        if c == 'array':
            return mk('array', *[s.constv(x) for x in v['v']])
        x = mk('const', t['s'], json.dumps(v, sort_keys=True)[:400])
        s.typed(x, o['ty'])
        return x
    def constv(s, x):
        if isinstance(x, dict): return s.const({'ty': x.get('ty', 0), 'v': x})
        if isinstance(x, str): return S(x)
        if isinstance(x, bool): return B(x)
        if isinstance(x, int): return I(x)
        return mk('const', 'elem', json.dumps(x)[:80])
    def operand(s, st, fr, o):
        if o['o'] == 'const': return s.const(o)
        return s.read(st, fr, o['p'])
    def discr(s, st, v, n):
        if v.op == 'mref': v = s.load_ref(st, v)
        t = s.types[n]
        if v.op == 'agg' : return I(int(s.types[v.a[0]]['variants'][v.a[1]]['discr']))
        if t.get('k') == 'adt': set_ty(v, n)
        vs = s.variants(st, v, n)
        if vs is not None and len(vs) == 1:
            return I(int(t['variants'][next(iter(vs))]['discr']))
        return mk('discr', v)
    def variants(s, st, v, n=None):
        """possible variant indices of an enum-typed term"""
        if v.op == 'agg': return frozenset([v.a[1]])
        if v.op == 'upd': return s.variants(st, v.a[0], n)
        x = st.vars.get(v)
        if x is not None: return x
        if n is None: n = ty_of(v)
        if n is None or s.types[n].get('k') != 'adt': return None
        full = frozenset(range(len(s.types[n]['variants'])))
        rp = s.retpath(v) if v.op in ('app', 'fld') else None
        if rp:
            ps = s.post.get(rp[0].a[1])
            if ps is not None:
                k = len(rp[1])
                return frozenset(p[k] for p in ps if len(p) == k + 1 and p[:k] == rp[1]) & full
        if v.op == 'app':
            if v.a[0] == 'to_string' and s.types[n]['name'].endswith('Result'):
                return frozenset([0])      # serialising a serde_json::Value does not fail
            if v.a[0] == 'parent':
                r = app('read', v.a[1])
                if st.vars.get(r) == frozenset([0]): return frozenset([1])   # a file that could be read is not the root
            # links between an Option-returning lookup and its predicate
            if s.types[n]['name'].endswith('Option') and len(full) == 2:
                p = s.some_pred(v)
                if p is not None:
                    tv = s.truth(st, p)
                    if tv is not None: return frozenset([1 if tv else 0])
        return full
    def retpath(s, v):
        """(unit result, variants on the way) of a nested first field of a unit's result"""
        path = ()
        while v.op == 'fld' and v.a[2] == 0 and v.a[1] is not None:
            path = (v.a[1],) + path; v = v.a[0]
        return (v, path) if v.op == 'app' and v.a[0] == 'ret' else None
    def some_pred(s, v):
        f = v.a[0]
        if f in ('find', 'rfind', 'split_once', 'rsplit_once'): return app('contains', v.a[1], v.a[2])
        if f == 'strip_prefix': return app('starts_with', v.a[1], v.a[2])
        if f == 'strip_suffix': return app('ends_with', v.a[1], v.a[2])
        if f == 'first' or f == 'last': return NOT(app('eq', *sorted([app('len', v.a[1]), I(0)])))
        if f == 'map.get': return app('map.contains', v.a[1], v.a[2])
        return None
    def rvalue(s, st, fr, r, dty):
        k = r['r']
        if k == 'use': return s.operand(st, fr, r['x'])
        if k in ('ref', 'addr'):
            if r['mut'] and not (r['p'][1] == [] and s.types[s.local_ty(fr, r['p'][0])].get('k') in ('fndef',)):
                return s.mkref(st, fr, r['p'])
            v = s.read(st, fr, r['p'])
            return v
        if k == 'agg':
            xs = [s.operand(st, fr, x) for x in r['xs']]
            kk = r['k']
            if kk == 'array': return mk('array', *xs)
            if kk == 'tuple': return mk('tuple', *xs)
            if kk == 'closure': return mk('clo', s.types[r['ty']]['inst'], *xs)
            if kk == 'adt':
                v = agg(r['ty'], r['variant'], xs)
                t = s.types[r['ty']]
                if t.get('crate') == s.m['crate'] and v.op == 'agg':
                    st.event('make', v, fr.name)
                return v
            return mk('tuple', *xs)
        if k in ('bin', 'cbin'):
            a = s.operand(st, fr, r['a']); b = s.operand(st, fr, r['b'])
            if a.op == 'mref': a = s.load_ref(st, a)
            if b.op == 'mref': b = s.load_ref(st, b)
            v = s.binop(st, r['op'], a, b)
            if k == 'cbin': return mk('tuple', v, mk('ovf', r['op'], a, b))
            return v
        if k == 'un':
            a = s.operand(st, fr, r['a'])
            if r['op'] == 'Not': return NOT(a)
            if r['op'] == 'Neg': return I(-a.a[0]) if a.op == 'int' else app('neg', a)
            if r['op'] == 'PtrMetadata': return s.len(s.load_ref(st, a) if a.op == 'mref' else a)
            return app('un:' + str(r['op']), a)
        if k == 'cast':
            x = s.operand(st, fr, r['x'])
            return x
        if k == 'discr':
            v = s.read(st, fr, r['p']); return s.discr(st, v, s.place_ty(fr, r['p']))
        if k == 'len':
            v = s.read(st, fr, r['p']); return s.len(v)
        if k == 'repeat':
            return app('from_elem', s.operand(st, fr, r['x']), I(0))
        return mk('rv', k, json.dumps(r)[:120])
    def len(s, v):
        if v.op == 'str': return I(len(v.a[0].encode()))
        if v.op == 'bytes': return I(len(v.a[0]))
        if v.op == 'array': return I(len(v.a))
        if v.op == 'app' and v.a[0] == 'from_elem': return v.a[2]
        if v.op == 'app' and v.a[0] == 'store': return s.len(v.a[1])
        return app('len', v)
    def binop(s, st, op, a, b):
        op = op.replace('WithOverflow', '').replace('Unchecked', '')
        if a.op == 'int' and b.op == 'int':
            x, y = a.a[0], b.a[0]
            try:
                r = {'Add': lambda: I(x+y), 'Sub': lambda: I(x-y), 'Mul': lambda: I(x*y), 'Eq': lambda: B(x == y), 'Ne': lambda: B(x != y), 'Lt': lambda: B(x < y), 'Le': lambda: B(x <= y), 'Gt': lambda: B(x > y), 'Ge': lambda: B(x >= y), 'BitAnd': lambda: I(x & y), 'BitOr': lambda: I(x | y)}.get(op)
                if r: return r()
            except Exception: pass
        if op == 'Eq': return EQ(a, b)
        if op == 'Ne': return NOT(EQ(a, b))
        if op == 'Lt': return LT(a, b)
        if op == 'Gt': return LT(b, a)
        if op == 'Le': return NOT(LT(b, a))
        if op == 'Ge': return NOT(LT(a, b))
        if op in ('BitAnd', 'BitOr'):
            if a.op == 'bool': a, b = b, a
            if b.op == 'bool':
                if op == 'BitAnd': return a if b is TRUE else FALSE
                return TRUE if b is TRUE else a
            return app('and' if op == 'BitAnd' else 'or', a, b)
        if op == 'Add':
            if a.op == 'int': a, b = b, a
            if b.op == 'int':
                if b.a[0] == 0: return a
                if a.op == 'app' and a.a[0] == 'add' and a.a[2].op == 'int': return s.binop(st, 'Add', a.a[1], I(a.a[2].a[0] + b.a[0]))
            return app('add', a, b)
        if op == 'Sub':
            if b.op == 'int': return s.binop(st, 'Add', a, I(-b.a[0]))
            if a is b: return I(0)
            return app('sub', a, b)
        return app('bin:' + op, a, b)

    # ---------- facts
    def truth(s, st, t, d=0):
        if t is TRUE: return True
        if t is FALSE: return False
        if t.op == 'not':
            r = s.truth(st, t.a[0], d); return None if r is None else not r
        f = st.facts.get(t)
        if f is not None: return f
        if d > 4: return None
        if t.op == 'app':
            n = t.a[0]
            if n == 'and':
                a = s.truth(st, t.a[1], d+1); b = s.truth(st, t.a[2], d+1)
                if a is False or b is False: return False
                if a and b: return True
                return None
            if n == 'or':
                a = s.truth(st, t.a[1], d+1); b = s.truth(st, t.a[2], d+1)
                if a or b: return True
                if a is False and b is False: return False
                return None
            if n == 'eq': return s.truth_eq(st, t.a[1], t.a[2], d)
            if n in ('starts_with', 'ends_with', 'contains'): return s.truth_str(st, n, t.a[1], t.a[2], d)
            if n == 'lt':
                if s.prove_le(st, t.a[1], t.a[2], 1): return True
                if s.prove_le(st, t.a[2], t.a[1], 0): return False
                return None
            if n == 'is_some':
                vs = s.variants(st, t.a[1])
                if vs is not None and len(vs) == 1: return next(iter(vs)) == 1
            if n in JSON_KIND and len(t.a) > 1 and isinstance(t.a[1], T):
                vs = s.json_kinds(st, t.a[1])
                if vs is not None:
                    if JSON_KIND[n] not in vs: return False
                    if len(vs) == 1: return True
        return None
    def json_kinds(s, st, x):
        n = ty_of(x)
        if x.op != 'agg' and (n is None or tybase(s.types[n].get('name') or '') != 'Value'): return None
        return s.variants(st, x)
    def truth_eq(s, st, a, b, d):
        if a is b: return True
        la, lb = is_lit(a), is_lit(b)
        if la and lb: return a is b if a.op == b.op else None
        if lb: a, b, la, lb = b, a, lb, la
        # a literal (if any), b term
        for x, y in ((a, b), (b, a)):
            if x.op == 'discr' and y.op == 'int':
                vs = s.variants(st, x.a[0]); n = ty_of(x.a[0])
                if vs is not None and n is not None:
                    ds = {int(s.types[n]['variants'][v]['discr']) for v in vs}
                    if y.a[0] not in ds: return False
                    if len(ds) == 1: return True
        if a.op == 'agg' and b.op == 'agg':
            if a.a[1] != b.a[1]: return False
            rs = [s.truth_eq(st, x, y, d+1) for x, y in zip(a.a[2:], b.a[2:])]
            if all(r for r in rs): return True
            if any(r is False for r in rs): return False
            return None
        if la:
            # known equal to another literal?
            e = s.eqlit(st, b)
            if e is not None: return e is a
            if a.op == 'str':
                lit = a.a[0]
                if b.op == 'app' and b.a[0] == 'concat':
                    if s.concat_min(b) > len(lit): return False
                    if b.a[1].op == 'str' and not lit.startswith(b.a[1].a[0]): return False
                    if b.a[-1].op == 'str' and not lit.endswith(b.a[-1].a[0]): return False
                for t, v in s.str_facts(st, b):
                    p = t.a[2]
                    if p.op != 'str': continue
                    q = {'starts_with': lit.startswith(p.a[0]), 'ends_with': lit.endswith(p.a[0]), 'contains': p.a[0] in lit}[t.a[0]]
                    if q != v: return False
            if a.op == 'int' and b.op == 'app' and b.a[0] == 'len':
                x = b.a[1]
                em = s.truth_eq(st, S(''), x, d+1) if d < 3 else None
                if em is True: return a.a[0] == 0
                if em is False and a.a[0] == 0: return False
                mn = s.minlen(st, x)
                if mn > a.a[0]: return False
            if a.op == 'int' and a.a[0] is not None:
                if s.prove_le(st, a, b, 1) or s.prove_le(st, b, a, 1): return False
        if d < 2:
            # x == y through a shared equality
            for t, v in st.facts.items():
                if v and t.op == 'app' and t.a[0] == 'eq':
                    if (t.a[1] is a and t.a[2] is b) or (t.a[1] is b and t.a[2] is a): return True
        return None
    def concat_min(s, t):
        return sum(len(x.a[0]) for x in t.a[1:] if x.op == 'str')
    def minlen(s, st, x):
        if x.op == 'app' and x.a[0] == 'concat': return s.concat_min(x)
        m = 0
        for t, v in s.str_facts(st, x):
            if v and t.a[2].op == 'str': m = max(m, len(t.a[2].a[0].encode()))
        return m
    def eqlit(s, st, b):
        for t, v in st.facts.items():
            if v and t.op == 'app' and t.a[0] == 'eq':
                if t.a[1] is b and is_lit(t.a[2]): return t.a[2]
                if t.a[2] is b and is_lit(t.a[1]): return t.a[1]
        return None
    def str_facts(s, st, x):
        return [(t, v) for t, v in st.facts.items() if t.op == 'app' and t.a[0] in ('starts_with', 'ends_with', 'contains') and t.a[1] is x]
    def truth_str(s, st, n, x, p, d):
        def ev(lit, pl):
            return {'starts_with': lit.startswith(pl), 'ends_with': lit.endswith(pl), 'contains': pl in lit}[n]
        if p.op == 'str':
            pl = p.a[0]
            if pl == '': return True
            if x.op == 'str': return ev(x.a[0], pl)
            e = s.eqlit(st, x)
            if e is not None and e.op == 'str': return ev(e.a[0], pl)
            if x.op == 'app' and x.a[0] == 'concat':
                a = x.a[1] if n == 'starts_with' else x.a[-1]
                if n == 'contains':
                    if any(q.op == 'str' and pl in q.a[0] for q in x.a[1:]): return True
                    if any(s.truth_str(st, n, q, p, d+1) for q in x.a[1:] if q.op != 'str') : return True
                    return None
                if a.op == 'str':
                    l = a.a[0]
                    if len(l) >= len(pl): return l.startswith(pl) if n == 'starts_with' else l.endswith(pl)
                    if not (pl.startswith(l) if n == 'starts_with' else pl.endswith(l)): return False
                    if n == 'starts_with' and len(x.a) == 3:
                        return s.truth_str(st, n, x.a[2], S(pl[len(l):]), d+1)
                    return None
                r = s.truth_str(st, n, a, p, d+1)
                if r: return True
                if r is False and s.minlen(st, a) >= 1 and len(pl) == 1: return False
                return None
            for t, v in s.str_facts(st, x):
                q = t.a[2]
                if q.op != 'str': continue
                ql = q.a[0]; m = t.a[0]
                if v:
                    if m == n and ev(ql, pl): return True          # stronger known fact
                    if n == 'contains' and pl in ql: return True
                    if m == n == 'starts_with' and not pl.startswith(ql) and not ql.startswith(pl): return False
                    if m == n == 'ends_with' and not pl.endswith(ql) and not ql.endswith(pl): return False
                else:
                    if m == n and ({'starts_with': pl.startswith(ql), 'ends_with': pl.endswith(ql), 'contains': ql in pl}[n]): return False
                    if m == 'contains' and ql in pl: return False
        else:
            if x is p: return True
            if s.truth_eq(st, x, p, d+1) and d < 3: return True
        return None
    def assume(s, st, t, v):
        r = s.truth(st, t)
        if r is not None: return r == v
        while t.op == 'not': t, v = t.a[0], not v
        st.facts[t] = v
        if t.op == 'app':
            n = t.a[0]
            if n == 'and' and v:
                return s.assume(st, t.a[1], True) and s.assume(st, t.a[2], True)
            if n == 'or' and not v:
                return s.assume(st, t.a[1], False) and s.assume(st, t.a[2], False)
            if n == 'and' and not v:
                for i, j in ((1, 2), (2, 1)):
                    if s.truth(st, t.a[i]) is True: return s.assume(st, t.a[j], False)
            if n == 'or' and v:
                for i, j in ((1, 2), (2, 1)):
                    if s.truth(st, t.a[i]) is False: return s.assume(st, t.a[j], True)
            if n == 'eq':
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if x.op == 'discr' and y.op == 'int':
                        n2 = ty_of(x.a[0]); vs = s.variants(st, x.a[0])
                        if n2 is not None and vs is not None:
                            vs = frozenset(w for w in vs if (int(s.types[n2]['variants'][w]['discr']) == y.a[0]) == v)
                            if not vs: return False
                            s.setvars(st, x.a[0], vs)
                if v:
                    # a fact about len()==0 is a fact about emptiness
                    pass
            if n == 'is_some': s.setvars(st, t.a[1], frozenset([1 if v else 0]))
            if n in JSON_KIND and len(t.a) > 1 and isinstance(t.a[1], T):
                vs = s.json_kinds(st, t.a[1])
                if vs is not None and t.a[1].op != 'agg':
                    vs = vs & frozenset([JSON_KIND[n]]) if v else vs - frozenset([JSON_KIND[n]])
                    if not vs: return False
                    s.setvars(st, t.a[1], vs)
        return True
    def setvars(s, st, t, vs):
        st.vars[t] = vs
        if len(vs) == 1 and t.op in ('app', 'fld'):
            rp = s.retpath(t)
            if rp: s.apply_post(st, rp[0], rp[1] + (next(iter(vs)),))
        if len(vs) == 1 and t.op == 'app':
            n = ty_of(t)
            if n is not None and s.types[n]['name'].endswith('Option'):
                p = s.some_pred(t)
                if p is not None:
                    tv = (next(iter(vs)) == 1)
                    while p.op == 'not': p, tv = p.a[0], not tv
                    st.facts.setdefault(p, tv)
            if t.a[0] == 'dm.get' and next(iter(vs)) == 0:
                st.guards = tuple(g for g in st.guards if g[0] is not t)

    def apply_post(s, st, root, key):
        ps = s.post.get(root.a[1])
        if not ps or not ps.get(key): return
        memo = s.post_memo.get((root, key))
        if memo is None or memo[0] is not ps[key]:
            sub = {sym('$RET'): root}
            for i, a in enumerate(root.a[2:]): sub[sym(f'$P{i}')] = a
            fs = [(rewrite(f, lambda x: sub.get(x)), v) for f, v in ps[key]]
            memo = s.post_memo[(root, key)] = (ps[key], fs)
        for f, v in memo[1]:
            if f.op == 'isvar': 
                if f.a[0].op not in ('agg', 'tuple') and f.a[0] not in st.vars: s.setvars(st, f.a[0], frozenset([f.a[1]]))
            elif f.op not in ('bool',):
                while f.op == 'not': f, v = f.a[0], not v
                st.facts.setdefault(f, v)

    # ---------- linear facts (difference bounds)
    def lin(s, t):
        if t.op == 'int': return None, t.a[0]
        if t.op == 'app' and t.a[0] == 'add' and t.a[2].op == 'int':
            b, k = s.lin(t.a[1]); return b, k + t.a[2].a[0]
        return t, 0
    def edges(s, st, terms):
        E = []   # (a, b, k): a <= b + k
        def le(a, b, k=0):
            (x, p), (y, q) = s.lin(a), s.lin(b); E.append((x, y, q - p + k))
        for t, v in st.facts.items():
            if t.op == 'app' and t.a[0] == 'lt':
                if v: le(t.a[1], t.a[2], -1)
                else: le(t.a[2], t.a[1])
            elif t.op == 'app' and t.a[0] == 'eq' and v:
                le(t.a[1], t.a[2]); le(t.a[2], t.a[1])
        seen = set()
        def axioms(t):
            if t in seen: return
            seen.add(t)
            if t.op == 'app':
                f = t.a[0]
                if f == 'len':
                    E.append((None, t, 0))
                    x = t.a[1]
                    m = s.minlen(st, x)
                    if m: E.append((None, t, -m))
                    if x.op == 'app' and x.a[0] == 'ret' and x.a[1].endswith('get_next_list'):
                        le(t, s.len(x.a[2])); le(s.len(x.a[2]), t)
                    if s.truth_eq(st, S(''), x, 3) is False or st.facts.get(EQ(I(0), t)) is False or s.truth_eq(st, I(0), t, 3) is False: E.append((None, t, -1))
                elif f == 'sub':
                    le(t, t.a[1])
                    axioms(t.a[1])
            # contract of the dependency's matcher
            if t.op == 'app' and t.a[0] in ('Match::start', 'Match::end', 'Match::value'):
                E.append((None, t, 0))
                if t.a[0] == 'Match::end': le(app('Match::start', t.a[1]), t)
                if t.a[0] == 'Match::value':
                    for x in subterms(t):
                        if x.op == 'sym' and x.a[0].startswith('static:'):
                            n = s.static_table_len(x.a[0][7:])
                            if n is not None: le(app('add', t, I(1)), I(n))
            if t.op == 'fld':
                b = t.a[0]
                if b.op == 'app' and b.a[0] in ('find', 'rfind'):
                    E.append((None, t, 0)); le(app('add', t, I(s.patlen(b.a[2]))), s.len(b.a[1])); axioms(s.len(b.a[1]))
                    q = b.a[1]
                    if q.op == 'app' and q.a[0] == 'substr' and q.a[2].op == 'int': le(app('add', t, I(s.patlen(b.a[2]) + q.a[2].a[0])), q.a[3]); axioms(q.a[3])
                # (index, char) of char_indices
                if b.op == 'elem' and b.a[0].op == 'app' and b.a[0].a[0] == 'char_indices' and t.a[2] == 0:
                    E.append((None, t, 0)); le(app('add', t, I(1)), s.len(b.a[0].a[1]))
                if b.op == 'elem' and b.a[0].op == 'app' and b.a[0].a[0] == 'match_indices' and t.a[2] == 0:
                    E.append((None, t, 0)); le(app('add', t, I(s.patlen(b.a[0].a[3]))), s.len(b.a[0].a[1])); axioms(s.len(b.a[0].a[1]))
                if b.op == 'app' and b.a[0] in ('get', 'first', 'last') and len(b.a) > 1:
                    from models import members
                    ms = members(t)
                    for y in ms or ():
                        if len(ms) == 1 and y.op == 'fld' and y.a[0].op == 'elem' and y.a[0].a[0].op == 'app' and y.a[0].a[0].a[0] == 'char_indices':
                            E.append((None, t, 0)); ln = s.len(y.a[0].a[0].a[1]); le(app('add', t, I(1)), ln); axioms(ln)
                        elif len(ms) == 1 and y.op == 'fld' and y.a[2] == 0 and y.a[0].op == 'elem' and y.a[0].a[0].op == 'app' and y.a[0].a[0].a[0] == 'match_indices':
                            E.append((None, t, 0)); ln = s.len(y.a[0].a[0].a[1]); le(app('add', t, I(s.patlen(y.a[0].a[0].a[3]))), ln); axioms(ln)
                # contract of get_next_list: list[i] == Some(k)  =>  i <= k < len(path)
                if b.op == 'fld' and b.a[0].op == 'app' and b.a[0].a[0] == 'get' and b.a[0].a[1].op == 'app' and b.a[0].a[1].a[0] == 'ret' and b.a[0].a[1].a[1].endswith('get_next_list'):
                    g = b.a[0]; path = g.a[1].a[2]
                    le(g.a[2], t); le(app('add', t, I(1)), s.len(path)); E.append((None, t, 0))
                    axioms(s.len(path)); axioms(g.a[2])
                    # path[i] is not the separator, so k != i
                    for q, v in st.facts.items():
                        if v and q.op == 'app' and q.a[0] == 'eq' and any(y.op == 'app' and y.a[0] == 'at' and y.a[1] is path and y.a[2] is g.a[2] for y in q.a[1:]) and any(y.op == 'str' and y is not g.a[1].a[3] for y in q.a[1:]):
                            le(app('add', g.a[2], I(1)), t)
            if t.op == 'idx':
                c = t.a[0]
                while c.op == 'itpass': c = c.a[1]
                if c.op == 'it':
                    ln = s.len(c.a[0]); E.append((None, t, 0)); le(app('add', t, I(1)), ln); axioms(ln)
            if t.op == 'elem' and t.a[0].op == 'app' and (t.a[0].a[0] == 'range' or t.a[0].a[0] == 'rev' and t.a[0].a[1].op == 'app' and t.a[0].a[1].a[0] == 'range'):
                rg = t.a[0] if t.a[0].a[0] == 'range' else t.a[0].a[1]
                lo, hi = rg.a[1], rg.a[2]
                le(lo, t); le(app('add', t, I(1)), hi); axioms(lo); axioms(hi)
            if t.op == 'phi' or t.op == 'sym' or t.op == 'idx': E.append((None, t, 0)) if s.unsigned(t) else None
            for y in t.a:
                if isinstance(y, T) and t.op == 'app' and t.a[0] in ('add', 'sub'): axioms(y)
        for t in terms: axioms(t)
        for t, v in list(st.facts.items()):
            if t.op == 'app' and t.a[0] in ('lt', 'eq'):
                for y in t.a[1:]:
                    if y.op in ('app', 'fld', 'elem', 'phi'): axioms(y)
        for t, vs in st.vars.items():
            if len(vs) != 1 or not st: continue
            w = next(iter(vs))
            # get(l, i) is Some  <=>  i < len(l)
            if t.op == 'app' and t.a[0] == 'get' and len(t.a) == 3:
                ln = s.len(t.a[1])
                if w == 1: le(app('add', t.a[2], I(1)), ln)
                else: le(ln, t.a[2])
                axioms(ln)
            if w == 1 and t.op == 'fld' and t.a[0].op == 'app' and t.a[0].a[0] == 'get': axioms(fld(t, 1, 0, 1))
        # known to be other than 0
        for t in list(seen):
            if t.op in ('phi', 'sym', 'fld', 'idx') and st.facts.get(EQ(I(0), t)) is False: E.append((None, t, -1))
        # an element of a list exists: the list is not empty
        for t in list(seen):
            if t.op == 'app' and t.a[0] == 'len' and any(ev[0] == 'elem' and ev[1] is t.a[1] for ev in st.events()): E.append((None, t, -1))
        # at least n, and known to be other than n
        ne = []
        for q, v in st.facts.items():
            if v or q.op != 'app' or q.a[0] != 'eq': continue
            for x, y in ((q.a[1], q.a[2]), (q.a[2], q.a[1])):
                if x.op == 'int' and y.op != 'int':
                    b, k = s.lin(y)
                    if b is not None: ne.append((x.a[0] - k, b))
        for n, b in sorted(ne, key=lambda z: z[0]):
            if n >= 0 and any(w is b and u is None and c <= -n for u, w, c in E): E.append((None, b, -n - 1))
        return E
    def static_table_len(s, name):
        """length of the constant table a lazily built static is made from"""
        for i in s.insts:
            if i['local'] and i['body'] and i['def'].startswith(name + '::{closure'):
                for m in re.finditer(r'"c": "static", "name": "([^"]*)"', json.dumps(i['body'])):
                    d = s.m['statics'].get(m.group(1))
                    g = d and re.match(r"^\[.*; (\d+)\]$", s.types[d['ty']]['s'])
                    if g: return int(g.group(1))
    def unsigned(s, t): return True
    def patlen(s, p): return len(p.a[0].encode()) if p.op == 'str' else 0
    def prove_le(s, st, a, b, k=0):
        """a + k <= b ?"""
        if s.proving: return False
        s.proving = True
        try: return s._prove_le(st, a, b, k)
        finally: s.proving = False
    def prove(s, st, a, b, k=0):
        """a + k <= b, where it has to be shown: with linear arithmetic"""
        if s.prove_le(st, a, b, k): return True
        if s.proving: return False
        s.proving = True
        try: return linear.prove(s, st, a, b, k)
        finally: s.proving = False
    def ty_text(s, x):
        n = ty_of(x)
        return x.op == 'str' or n is not None and s.tname(s.peel(n)).split('<')[0] in ('str', 'String', 'SmolStr', 'Cow')
    def _prove_le(s, st, a, b, k):
        (x, p), (y, q) = s.lin(a), s.lin(b)
        need = q - p - k           # want x <= y + need
        if x is y: return need >= 0
        E = s.edges(st, [z for z in (x, y) if z is not None])
        dist = {y: 0}              # dist[z] = best c with  z <= y + c ; follow edges backwards from y
        for _ in range(8):
            ch = False
            for (u, v, c) in E:
                if v in dist and (u not in dist or dist[u] > dist[v] + c):
                    dist[u] = dist[v] + c; ch = True
            if not ch: break
        return x in dist and dist[x] <= need

    # ---------- control flow of a body
    def analyse_cfg(s, inst):
        r = s.cfg.get(inst['id'])
        if r: return r
        bl = inst['body']['blocks']; n = len(bl)
        succ = [s.succs(b['t']) for b in bl]
        order = []; seen = set([0]); stack = [(0, iter(succ[0]))]; onst = {0}; back = []
        while stack:
            b, it = stack[-1]
            for c in it:
                if c in onst: back.append((b, c)); continue
                if c not in seen:
                    seen.add(c); onst.add(c); stack.append((c, iter(succ[c]))); break
            else:
                stack.pop(); onst.discard(b); order.append(b)
        pred = [[] for _ in bl]
        for b in seen:
            for c in succ[b]: pred[c].append(b)
        loops = {}
        for (t, h) in back:
            body = {h}; w = [t]
            while w:
                x = w.pop()
                if x in body: continue
                body.add(x); w += pred[x]
            loops.setdefault(h, set()).update(body)
        mod = {}
        for h, body in loops.items():
            ms = set(); nx = {}
            refs = {}
            for b in body:
                for x in bl[b]['s']:
                    if x[0] == '=':
                        if '*' not in [e[0] for e in x[1][1]]: ms.add(x[1][0])
                        elif x[1][0] is not None: ms.add(('deref', x[1][0]))
                        r = x[2]
                        if r['r'] in ('ref', 'addr') and r['mut']:
                            if '*' in [e[0] for e in r['p'][1]]: refs.setdefault(('deref', r['p'][0]), []).append(x[1])
                            else: refs.setdefault(r['p'][0], []).append(x[1])
                t = bl[b]['t']
                if t['t'] == 'call': ms.add(t['d'][0])
            nextargs = set()
            for b in body:
                t = bl[b]['t']
                if t['t'] == 'call' and t['f'].get('decl') in ('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back') and t['a'] and 'p' in t['a'][0]:
                    nextargs.add(t['a'][0]['p'][0])
            # temps that reborrow: _a = &mut (*_b)
            alias = {}
            for b in body:
                for x in bl[b]['s']:
                    if x[0] == '=' and x[2]['r'] in ('ref', 'addr') and x[2].get('mut') and x[2]['p'][1] and x[2]['p'][1][0] == ['*']:
                        alias.setdefault(x[2]['p'][0], set()).add(x[1][0])
            def only_next(t, d=0):
                if t in nextargs: return True
                return d < 4 and t in alias and all(only_next(q, d+1) for q in alias[t])
            for L, ts in refs.items():
                if all(only_next(t[0]) for t in ts): nx[L] = True
                else: ms.add(L)
            for L in nx:
                if L in ms and not any(x[0] == '=' and x[1][0] == L and not x[1][1] for b in body for x in bl[b]['s']): ms.discard(L)
            mod[h] = ms
        r = s.cfg[inst['id']] = (loops, mod)
        return r
    def succs(s, t):
        k = t['t']
        if k == 'goto': return [t['to']]
        if k == 'switch': return [b for _, b in t['br']] + ([t['else']] if t['else'] is not None else [])
        if k in ('call', 'drop', 'assert'): return [t['to']] if t.get('to') is not None else []
        return []

    # ---------- running
    def run_unit(s, inst, name):
        for _ in range(8):
            s.inv_new = False; bad = len(s.inv_bad)
            u = s.run_once(inst, name)
            if not s.inv_new and len(s.inv_bad) == bad: break
        return u
    def run_once(s, inst, name):
        s.inv_on = set()
        s.obl = {k: v for k, v in s.obl.items() if k[0] != name}
        u = Unit(name, inst); s.cur = u; s.steps = 0
        st = State(); args = []
        b = inst['body']
        for i in range(1, b['argc'] + 1):
            n = b['locals'][i][0]; t = s.types[n]
            v = mk('sym', f"a{i}:{name}"); s.typed(v, n)
            if t.get('k') == 'ref' and t.get('mut'):
                root = ('P', name, i); st.store[root] = v; a = mk('mref', root, ())
            else: a = v
            args.append(a); u.params.append(v)
        try:
            for st2, v in s.exec_fn(st, inst, args, (name,), ()):
                if v.op == 'mref': v = s.load_ref(st2, v)
                s.end(Trace(u, 'return', v, st2))
        except Limit as e:
            u.error = str(e)
        return u
    def end(s, tr):
        s.cur.traces.append(tr)
        if len(s.cur.traces) > s.max_traces: raise Limit(f'more than {s.max_traces} traces')
    def exec_fn(s, st, inst, args, ctx, stack):
        """all (state, result) outcomes of a call"""
        fr = Frame(); fr.inst = inst; s._fid += 1; fr.fid = s._fid; fr.ctx = ctx; fr.body = inst['body']; fr.stack = stack + (inst['id'],)
        fr.name = s.sname[inst['id']]
        for i, a in enumerate(args): st.store[('L', fr.fid, i + 1)] = a
        loops, mod = s.analyse_cfg(inst)
        out = []; work = [(st, 0, ())]
        while work:
            st, bb, active = work.pop()
            s.steps += 1
            if s.steps > s.max_steps: raise Limit(f'more than {s.max_steps} steps')
            # leaving loops
            active = tuple(h for h in active if bb in loops[h])
            if bb in loops:
                if bb in active:
                    phis = {}
                    for L in mod[bb]:
                        if isinstance(L, tuple): continue
                        ph = mk('phi', fr.ctx, bb, L)
                        v = st.store.get(('L', fr.fid, L))
                        if v is not None and v is not ph: phis[ph] = v
                    for c in s.inv.get((fr.ctx, bb), ()):
                        if c in s.inv_on and c not in s.inv_bad and c[1] in phis and not s.inv_holds(st, c, phis[c[1]]): s.inv_bad.add(c)
                    s.end(Trace(s.cur, 'back', None, st, {'fn': fr.name, 'head': bb, 'phi': phis, 'ctx': fr.ctx}))
                    continue
                init = {}
                for L in mod[bb]:
                    if isinstance(L, tuple):
                        v = st.store.get(('L', fr.fid, L[1]))
                        if v is None or v.op != 'mref': continue
                        if L[1] in mod[bb]: continue
                        root = v.a[0]
                        old = st.store.get(root)
                        ph = mk('phi', fr.ctx, bb, ('m',) + tuple(str(x) for x in root[1:]) if root[0] != 'H' else ('h',))
                        if old is not None and ty_of(old) is not None: set_ty(ph, ty_of(old))
                        if root[0] == 'L' and old is not None and old.op == 'mref': continue
                        st.store[root] = ph; init[ph] = old
                        continue
                    key = ('L', fr.fid, L)
                    old = st.store.get(key)
                    ph = mk('phi', fr.ctx, bb, L)
                    s.typed(ph, s.local_ty(fr, L))
                    if old is not None: init[ph] = old
                    if old is not None and old.op == 'mref':
                        # keep the pointer only if the loop never moves it
                        st.store[key] = mk('mref', ('H', ph), ())
                    else: st.store[key] = ph
                st.event('loop', mk('loophead', fr.ctx, bb), tuple(init.items()), fr.name)
                for c in s.inv.get((fr.ctx, bb), ()):
                    if c in s.inv_bad or c[1] not in init: continue
                    if not s.inv_holds(st, c, init[c[1]]): s.inv_bad.add(c); continue
                    st.facts.update(s.inv_fact(c)); s.inv_on.add(c)
                active = active + (bb,)
            b = fr.body['blocks'][bb]
            for x in b['s']:
                if x[0] == '=':
                    p = x[1]
                    v = s.rvalue(st, fr, x[2], None)
                    if p[1]: s.write(st, fr, p, v)
                    else:
                        st.store[('L', fr.fid, p[0])] = v
                        if v.op in ('app', 'fld', 'sym', 'phi', 'elem'): s.typed(v, s.local_ty(fr, p[0]))
                elif x[0] == 'sd':
                    s.write_discr(st, fr, x)
            t = b['t']; k = t['t']
            if k == 'goto': work.append((st, t['to'], active)); continue
            if k == 'return':
                v = st.store.get(('L', fr.fid, 0), UNIT)
                out.append((st, v)); continue
            if k in ('unreachable', 'resume', 'abort', 'terminate'): continue
            if k == 'switch':
                for st2, bb2 in s.switch(st, fr, t): work.append((st2, bb2, active))
                continue
            if k == 'drop':
                s.drop(st, fr, t['p'])
                work.append((st, t['to'], active)); continue
            if k == 'assert':
                r = s.check_assert(st, fr, t)
                if r: work.append((st, t['to'], active))
                continue
            if k == 'call':
                for st2, v in s.call(st, fr, t, bb):
                    if t['to'] is None: continue
                    p = t['d']
                    if p[1]: s.write(st2, fr, p, v)
                    else:
                        st2.store[('L', fr.fid, p[0])] = v
                        if v.op in ('app', 'fld', 'sym', 'phi', 'elem'): s.typed(v, s.local_ty(fr, p[0]))
                    work.append((st2, t['to'], active))
                continue
            s.notes.add(f'terminator {k}')
        # free the frame
        for st, v in out:
            dead = [kk for kk in st.store if kk[0] == 'L' and kk[1] == fr.fid]
            if v.op == 'mref' and v.a[0] in dead: pass
            else:
                for kk in dead: del st.store[kk]
        return out
    def write_discr(s, st, fr, x): pass
    def drop(s, st, fr, p):
        if not st.guards: return
        v = s.read(st, fr, p)
        rel = [g for g in st.guards if contains(v, g[0])]
        if rel:
            st.guards = tuple(g for g in st.guards if g not in rel)
            for g in rel: st.event('unlock', g[0])
    def switch(s, st, fr, t):
        d = s.operand(st, fr, t['d'])
        if d.op == 'mref': d = s.load_ref(st, d)
        br = [(int(v), b) for v, b in t['br']]
        dt = s.types[t['dty']]
        if d.op == 'bool': d = I(d.a[0]) if dt.get('k') != 'bool' else d
        if dt.get('k') == 'bool':
            out = []
            tv = s.truth(st, d)
            dest = dict(br)
            for val in ((0, 1) if tv is None else ((1,) if tv else (0,))):
                st2 = st.copy() if tv is None else st
                if tv is None and not s.assume(st2, d, bool(val)): continue
                out.append((st2, dest.get(val, t['else'])))
            return out
        if d.op == 'int':
            for v, b in br:
                if v == d.a[0]: return [(st, b)]
            return [(st, t['else'])] if t['else'] is not None else []
        if d.op == 'discr':
            x = d.a[0]; n = ty_of(x)
            if n is not None:
                vs = s.variants(st, x); ds = {w: int(s.types[n]['variants'][w]['discr']) for w in vs}
                out = []; left = set(vs)
                for v, b in br:
                    m = [w for w in vs if ds[w] == v]
                    if not m: continue
                    left -= set(m)
                    st2 = st.copy(); s.setvars(st2, x, frozenset(m)); out.append((st2, b))
                if left and t['else'] is not None:
                    # split the remaining variants as well: facts stay sharp
                    for w in sorted(left):
                        if not self_dead(fr, t['else']):
                            st2 = st.copy(); s.setvars(st2, x, frozenset([w])); out.append((st2, t['else']))
                return out
        out = []
        conv = (lambda v: S(chr(v))) if dt.get('k') == 'char' else I
        st0 = st
        for v, b in br:
            st2 = st0.copy()
            if s.assume(st2, EQ(d, conv(v)), True): out.append((st2, b))
        if t['else'] is not None:
            st2 = st0.copy(); ok = True
            for v, b in br:
                if not s.assume(st2, EQ(d, conv(v)), False): ok = False; break
            if ok: out.append((st2, t['else']))
        return out
    # candidate loop invariants (kept only if they hold initially and are preserved)
    def inv_holds(s, st, c, v):
        if v.op == 'mref': v = s.load_ref(st, v)
        if c[0] == 'le': return s.prove_le(st, v, c[2], c[3])
        ln = s.len(v); return ln is c[2] or (s.prove_le(st, ln, c[2]) and s.prove_le(st, c[2], ln))
    def inv_fact(s, c):
        if c[0] == 'le':
            t = app('add', c[1], I(c[3])) if c[3] else c[1]
            return {LT(c[2], t): False}
        return {EQ(s.len(c[1]), c[2]): True}
    def inv_cand(s, small, big, k):
        """small + k <= big could not be proved: propose loop invariants"""
        def add(c):
            key = (c[1].a[0], c[1].a[1])
            if c not in s.inv.setdefault(key, []): s.inv[key].append(c); s.inv_new = True
        b, n = s.lin(small)
        if b is not None and b.op == 'phi':
            for j in {0, n + k}:
                if not any(x.op == 'phi' and x.a[:2] == b.a[:2] for x in subterms(big)): add(('le', b, big, j))
        if big.op == 'app' and big.a[0] == 'len' and big.a[1].op == 'phi':
            ph = big.a[1]
            for (p, ini) in s.loop_inits:
                if p is ph and ini is not None and ini.op != 'phi':
                    l0 = s.len(ini)
                    if not any(x is ph for x in subterms(l0)):
                        add(('len', ph, l0, 0))
                        if b is not None: s.inv_cand(small, l0, k)
    @property
    def loop_inits(s):
        o = []
        e = s._last_state.ev if s._last_state else None
        while e:
            if e[1][0] == 'loop':
                for p, i in e[1][2]: o.append((p, s.load_ref(s._last_state, i) if isinstance(i, T) and i.op == 'mref' else i))
            e = e[0]
        return o
    def oblige(s, fr, t, kind, ok, detail):
        key = (s.cur.name, fr.name, tuple(t['sp']), kind)
        o = s.obl.get(key)
        s.obl[key] = ok if o is None else (o and ok)
    def check_assert(s, st, fr, t):
        k = t['k']
        c = s.operand(st, fr, t['c'])
        ops = [s.operand(st, fr, o) for o in t.get('ops', [])]
        ops = [s.load_ref(st, o) if o.op == 'mref' else o for o in ops]
        ok = None
        if k == 'bounds':
            ln, ix = ops
            ok = s.prove(st, ix, ln, 1)
        elif k.startswith('overflow:Add') or k.startswith('overflow:Mul') or k.startswith('overflow:Neg'):
            ok = True
        elif k.startswith('overflow:Sub'):
            signed = False
            o0 = t['ops'][0]
            n = s.place_ty(fr, o0['p']) if 'p' in o0 else o0['ty']
            signed = s.types[n].get('k') == 'int'
            ok = True if signed else s.prove(st, ops[1], ops[0], 0)
        else:
            tv = s.truth(st, c)
            ok = tv is not None and tv == t['exp']
        s.oblige(fr, t, k, bool(ok), ops)
        if not ok and k == 'bounds': s.unproved(st, ops[1], ops[0], 1)
        if not ok and k.startswith('overflow:Sub'): s.unproved(st, ops[1], ops[0], 0)
        if not ok:
            s.panic(st, fr, t, 'assert:' + k, ops)
        if k == 'bounds': s.assume(st, LT(ops[1], ops[0]), True)
        if k.startswith('overflow:Sub') and not ok: s.assume(st, LT(ops[0], ops[1]), False)
        return True
    def unproved(s, st, small, big, k):
        s._last_state = st; s.inv_cand(small, big, k)
    def panic(s, st, fr, t, kind, detail=None):
        s.end(Trace(s.cur, 'panic', None, st.copy(), {'kind': kind, 'fn': fr.name, 'sp': t.get('sp'), 'detail': detail}))

    # ---------- calls
    def call(s, st, fr, t, bb):
        f = t['f']; args = [s.operand(st, fr, a) for a in t['a']]
        site = (fr.name, tuple(t['sp']))
        ctx = fr.ctx + ((fr.inst['id'], bb),)
        # the context names values: keep it short
        if 'decl' not in f:
            fv = s.operand(st, fr, f['indirect'])
            return s.call_value(st, fr, t, fv, args, ctx, site)
        inst = s.insts[f['inst']] if f['inst'] is not None else None
        decl = f['decl']; dn = sname(decl)
        # closure / fn value calls
        if dn in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            fv = s.load_ref(st, args[0]) if args[0].op == 'mref' and s.load_ref(st, args[0]).op in ('clo', 'fn') else args[0]
            tup = args[1]
            n = s.types[f['args'][1]] if len(f['args']) > 1 else None
            cnt = len(n['elems']) if n and n.get('k') == 'tuple' else (len(tup.a) if tup.op == 'tuple' else 1)
            un = [tup.a[i] if tup.op == 'tuple' else fld(tup, None, i) for i in range(cnt)]
            return s.call_value(st, fr, t, fv, un, ctx, site, self_arg=args[0], inst=inst)
        return s.call_inst(st, fr, t, inst, decl, dn, args, ctx, site, f)
    def call_value(s, st, fr, t, fv, args, ctx, site, self_arg=None, inst=None):
        if fv.op == 'mref': fv0 = s.load_ref(st, fv)
        else: fv0 = fv
        if fv0.op == 'clo':
            ci = s.insts[fv0.a[0]]
            if ci['body'] is None: return [(st, app('closure', *args))]
            if fr.stack.count(ci['id']) > 0: return [(st, app('reccall', *args))]
            return s.exec_fn(st, ci, [self_arg if (self_arg is not None and self_arg.op == 'mref') else fv0] + args, ctx, fr.stack)
        if fv0.op == 'fn' and isinstance(fv0.a[0], int):
            ci = s.insts[fv0.a[0]]
            f = {'decl': ci['def'], 'args': ci['args'], 'inst': ci['id']}
            if ci.get('sig') and ci['body'] is None:
                # the call is elsewhere: the types of its arguments are those of the callee
                t2 = dict(t); t2['a'] = [{'ty': x} for x in ci['sig']['in']]
                if sname(t['f'].get('decl', '')) not in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call') and s.types[ci['sig']['out']].get('k') != 'other': t2['rty'] = ci['sig']['out']
                t = t2
            return s.call_inst(st, fr, t, ci, s.trait_decl(ci), sname(s.trait_decl(ci)), args, ctx, site, f)
        return [(st, app('indirect', fv0, *args))]
    TRAITS = ('Iterator', 'IntoIterator', 'Clone', 'PartialEq', 'From', 'Into', 'ToString', 'AsRef', 'Deref', 'Default', 'ToOwned', 'Index', 'IndexMut', 'PartialOrd', 'Ord', 'FromIterator', 'Borrow', 'Add', 'AddAssign', 'Extend', 'DerefMut')
    def trait_decl(s, ci):
        m = re.match(r'^<.* as (?:[\w:]*::)?(\w+)(?:<.*>)?>::(\w+)$', ci['def'])
        if m and m.group(1) in s.TRAITS: return f"{m.group(1)}::{m.group(2)}"
        return ci['def']
    def is_unit(s, inst):
        n = s.sname[inst['id']]
        return n in s.unit_names or '*::' + n.rsplit('::', 1)[-1] in s.unit_names
    def call_inst(s, st, fr, t, inst, decl, dn, args, ctx, site, f):
        name = s.sname[inst['id']] if inst else dn
        if inst and inst['local'] and inst['body']:
            if name.endswith('::fmt') and not s.is_unit(inst): return [(st, app('fmt_result'))]
            if s.is_unit(inst) or inst['id'] in fr.stack:
                return s.call_unit(st, fr, t, inst, name, args, site)
            if len(fr.stack) > 40: raise Limit('inlining depth')
            return s.exec_fn(st, inst, args, ctx, fr.stack)
        r = s.model(st, fr, t, inst, decl, dn, name, args, ctx, site, f)
        if r is not None: return r
        if inst and inst['body'] and inst['id'] not in fr.stack:
            return s.exec_fn(st, inst, args, ctx, fr.stack)
        return s.opaque(st, fr, t, name, args, ctx, site)
    def val(s, st, a): return s.load_ref(st, a) if a.op == 'mref' else a
    def call_unit(s, st, fr, t, inst, name, args, site):
        vals = tuple(s.val(st, a) for a in args)
        res = app('ret', name, *vals)
        body = inst['body']
        s.typed(res, body['locals'][0][0])
        n = s.peel(body['locals'][0][0])
        # bottom summary: the callee never returns (not computed yet)
        s.cur.callees.add(name)
        st.event('call', name, vals, res, site, tuple(g[0] for g in st.guards))
        ps = s.post.get(name)
        if ps is not None and not ps: return []      # does not return (yet)
        if ps is not None and () in ps: s.apply_post(st, res, ())
        s.release_moved(st, args)
        for i, a in enumerate(args):
            if a.op == 'mref':
                s.set(st, a.a[0], list(a.a[1]), app('mut:' + name, I(i), *vals))
        return [(st, res)]
    def release_moved(s, st, args): pass
    def opaque(s, st, fr, t, name, args, ctx, site):
        if PANIC.search(name) or t['to'] is None:
            s.panic(st, fr, t, 'call:' + name, args); return []
        vals = tuple(s.val(st, a) for a in args)
        st.event('call', name, vals, None, site, tuple(g[0] for g in st.guards))
        outs = [st]
        # closures handed to unknown code may run
        for a in vals:
            if a.op == 'clo' and s.insts[a.a[0]]['body'] and a.a[0] not in fr.stack:
                ci = s.insts[a.a[0]]; n = ci['body']['argc'] - 1
                fresh = []
                for i in range(n):
                    x = mk('elem', app('hof', name, *vals), ctx, i); s.typed(x, ci['body']['locals'][i + 2][0]); fresh.append(x)
                nxt = []
                for o in outs:
                    nxt.append(o)
                    for st2, v in s.exec_fn(o.copy(), ci, [a] + fresh, ctx, fr.stack): nxt.append(st2)
                outs = nxt
        res = app(name, *vals)
        for o in outs:
            for i, a in enumerate(args):
                if a.op == 'mref': s.set(o, a.a[0], list(a.a[1]), app('mut:' + name, I(i), *vals))
        if t['d'] is not None: s.typed(res, s.dest_ty(fr, t))
        return [(o, res) for o in outs]

    def typed_elem(s, coll, ctx): return mk('elem', coll, ctx)
    def peel_opt(s, n):
        n = s.peel(n); return s.types[n]['args'][0] if s.types[n].get('args') else n
    def place_root(s, a):
        return mk('root', *[x if isinstance(x, (str, int)) else str(x) for x in a.a[0]], str(a.a[1])) if a.op == 'mref' else a
    def release(s, st, vals):
        rel = [g for g in st.guards if any(contains(v, g[0]) for v in vals)]
        if rel:
            st.guards = tuple(g for g in st.guards if g not in rel)
            for g in rel: st.event('unlock', g[0])
    from models import model

def self_dead(fr, bb):
    b = fr.body['blocks'][bb]
    return b['t']['t'] == 'unreachable' and not b['s']

