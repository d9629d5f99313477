"""Models of the standard library and third-party functions the crate calls.

model(...) returns a list of (state, value) outcomes, or None when the function has no model
(then its body is inlined if it was exported, else it is opaque)."""
import re
from terms import *
import linear

STRLIKE = ('str', 'String', 'SmolStr', 'Cow', 'Path', 'PathBuf', 'OsStr', 'OsString', 'char', 'Component', 'PrefixComponent', 'Display')

IDENT_METHODS = {'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'to_owned', 'clone', 'to_path_buf', 'as_path', 'as_os_str', 'to_os_string',
    'into_os_string', 'as_str', 'into_boxed_str', 'as_slice', 'as_mut_slice', 'into_boxed_slice', 'to_vec', 'into_owned', 'into_string', 'into_boxed_path',
    'as_mut_str', 'as_bytes', 'into_bytes', 'leak', 'unwrap_or_clone', 'must_use', 'black_box', 'identity', 'by_ref', 'as_encoded_bytes', 'as_deref_', 'cloned_', 'from_ref', 'as_mut_vec', 'into_vec', 'into_inner_'}
# these consume/return the same value whatever the receiver
CTOR_ID = {'Arc::new', 'Box::new', 'Rc::new', 'Path::new', 'OsStr::new', 'SmolStr::new', 'SmolStr::new_inline', 'String::from_str', 'Arc::clone', 'ManuallyDrop::new', 'Box::pin', 'PathBuf::from', 'Cell::new_'}
LISTY = ('Vec', 'slice', 'array', 'VecDeque', 'HashMap', 'IndexMap', 'HashSet', 'BTreeMap', 'Map', 'IndexSet', 'DashMap', 'BTreeSet')

def option(s, d, ty, some, none):
    pass

def opt_none(ty): return agg(ty, 0, [])
def opt_some(ty, v): return agg(ty, 1, [v])

def method(name): return name.rsplit('::', 1)[-1]
def recv(name): return name.rsplit('::', 1)[0]

def fs_pred(op, p):
    return app(op, p)

def fmt_template(b, args, s, st):
    parts = []; i = 0; k = 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80: parts.append(S(b[i:i+n].decode('utf8', 'replace'))); i += n; continue
        if n == 0x80:
            l = b[i] | b[i+1] << 8; i += 2
            parts.append(S(b[i:i+l].decode('utf8', 'replace'))); i += l; continue
        # placeholder
        f = n & 0x3f; plain = f == 0
        if f & 1: i += 4
        if f & 2: i += 2
        if f & 4: i += 2
        if f & 8:
            k = b[i] | b[i+1] << 8; i += 2
        if k < len(args):
            parts.append(args[k])
        else: parts.append(app('fmt?', I(k)))
        k += 1
    return concat(parts)

def pattern(s, st, fr, t, p, subj, ctx, site):
    """a str pattern argument: literal/term, or a predicate on a character"""
    p = s.val(st, p)
    if p.op in ('clo', 'fn'):
        c = mk('elem', app('chars', subj), ctx)
        if p.op == 'clo':
            outs = s.call_value(st.copy(), fr, t, p, [c], ctx, site)
            if len(outs) == 1: return app('charpred', rewrite(outs[0][1], lambda x: sym('$c') if x is c else None))
        return app('charpred', p)
    if p.op == 'array': return mk('charset', *p.a)
    return p

# ---------------------------------------------------------------- iterators
def it_of(s, st, v):
    v = s.val(st, v)
    if v.op in ('it', 'itmap', 'itfilter', 'itenum', 'itpass', 'itzip', 'itchain', 'itfmap', 'itflat'): return v
    if v.op == 'agg':
        n = s.types[v.a[0]]['name']
        if n.endswith('Range'): return mk('it', app('range', v.a[2], v.a[3]))
        if n.endswith('RangeFrom'): return mk('it', app('rangefrom', v.a[2]))
        if n.endswith('Option'): return mk('it', v)
    if v.op == 'app' and v.a[0] in ('range', 'rangefrom', 'ancestors', 'components', 'split', 'chars', 'char_indices', 'keys', 'values', 'bytes', 'matches', 'match_indices'): return mk('it', v)
    return mk('it', v)
def run_closure(s, st, fr, t, f, args, ctx, site):
    return s.call_value(st, fr, t, f, args, ctx, site)
def list_elem(s, st, coll, ctx, ty=None):
    if coll.op == 'app' and coll.a[0] == 'keys': e = fld(s.typed_elem(coll.a[1], ctx), None, 0)
    elif coll.op == 'app' and coll.a[0] == 'values': e = fld(s.typed_elem(coll.a[1], ctx), None, 1)
    else: e = s.typed_elem(coll, ctx)
    return e
def iter_elem(s, st, fr, t, it, ctx, site, ty=None):
    """[(state, element)] for one arbitrary element of the iterator"""
    k = it.op
    if k == 'it':
        c = it.a[0]
        if c.op == 'array' and 0 < len(c.a) <= 8:
            return [(st if i == len(c.a) - 1 else st.copy(), x) for i, x in enumerate(c.a)]
        if c.op == 'array' and not c.a: return []
        e = list_elem(s, st, c, ctx)
        if ty is not None: s.typed(e, ty)
        return [(st, e)]
    if k == 'itpass':
        name, inner = it.a[0], it.a[1]
        inner2 = inner
        r = []
        for st2, e in iter_elem(s, st, fr, t, inner2, ctx + ((name,),), site, ty): r.append((st2, e))
        return r
    if k == 'itenum':
        return [(a, mk('tuple', mk('idx', it.a[0], ctx), e)) for a, e in iter_elem(s, st, fr, t, it.a[0], ctx, site)]
    if k == 'itzip':
        out = []
        for a, e in iter_elem(s, st, fr, t, it.a[0], ctx + (('z0',),), site):
            for b, e2 in iter_elem(s, a, fr, t, it.a[1], ctx + (('z1',),), site): out.append((b, mk('tuple', e, e2)))
        return out
    if k == 'itchain':
        return iter_elem(s, st.copy(), fr, t, it.a[0], ctx + (('c0',),), site, ty) + iter_elem(s, st, fr, t, it.a[1], ctx + (('c1',),), site, ty)
    if k == 'itmap':
        out = []
        for a, e in iter_elem(s, st, fr, t, it.a[0], ctx, site):
            out += run_closure(s, a, fr, t, it.a[1], [e], ctx, site)
        return out
    if k == 'itfilter':
        out = []
        for a, e in iter_elem(s, st, fr, t, it.a[0], ctx, site):
            for b, v in run_closure(s, a, fr, t, it.a[1], [e], ctx, site):
                if s.assume(b, v, True): out.append((b, e))
        return out
    if k == 'itfmap':
        out = []
        for a, e in iter_elem(s, st, fr, t, it.a[0], ctx, site):
            for b, v in run_closure(s, a, fr, t, it.a[1], [e], ctx, site):
                for c, ok, x in split_option(s, b, v):
                    if ok: out.append((c, x))
        return out
    if k == 'itflat':
        out = []
        for a, e in iter_elem(s, st, fr, t, it.a[0], ctx, site):
            for b, v in run_closure(s, a, fr, t, it.a[1], [e], ctx, site):
                out += iter_elem(s, b, fr, t, it_of(s, b, v), ctx + (('fl',),), site, ty)
        return out
    return [(st, mk('elem', it, ctx))]

def it_base(it):
    while it.op != 'it':
        it = it.a[1] if it.op == 'itpass' else it.a[0]
    return it.a[0]

def indexes(it):
    """the list whose places a range goes through, and an iterator over it"""
    b = it_base(it); back = False
    if b.op == 'app' and b.a[0] == 'rev': back = True; b = b.a[1]
    if b.op != 'app' or b.a[0] != 'range' or len(b.a) != 3 or b.a[1].op != 'int' or b.a[1].a[0] != 0: return None
    n = b.a[2]
    if n.op != 'app' or n.a[0] != 'len': return None
    if it.op == 'it': return n.a[1], mk('it', app('rev', n.a[1]) if back else n.a[1])
    if it.op == 'itpass': return n.a[1], mk('itpass', it.a[0], mk('it', app('rev', n.a[1]) if back else n.a[1]), *it.a[2:])
    return None

def split_variants(s, st, v, ty=None):
    """[(state, variant index)]"""
    vs = s.variants(st, v, ty)
    if vs is None: return None
    out = []
    for w in sorted(vs):
        st2 = st.copy() if len(vs) > 1 else st
        if v.op != 'agg': s.setvars(st2, v, frozenset([w]))
        out.append((st2, w))
    return out
def split_option(s, st, v):
    r = split_variants(s, st, v)
    if r is None: return [(st.copy(), True, fld(v, 1, 0)), (st, False, None)]
    return [(a, w == 1, fld(v, 1, 0) if w == 1 else None) for a, w in r]


def hof_enter(s, st, fr, ctx, it, fns=()):
    """start of the iteration of a higher-order method: what its closures may change is a loop variable; returns the state in which the iteration is over, and these variables"""
    cs = []; q = it
    while True:
        cs += [y for y in q.a if isinstance(y, T) and y.op == 'clo']
        if q.op == 'it' or not q.a: break
        q = q.a[1] if q.op == 'itpass' and len(q.a) > 1 else q.a[0]
        if not isinstance(q, T): break
    cs += [c for c in (s.val(st, f) for f in fns) if c.op == 'clo']
    vs = []; seen = set()
    for c in cs:
        for x in c.a[1:]:
            if not isinstance(x, T) or x.op != 'mref' or (x.a[0], tuple(x.a[1])) in seen: continue
            seen.add((x.a[0], tuple(x.a[1])))
            old = s.get(st, x.a[0], x.a[1])
            if old is None: continue
            ph = mk('phi', ctx, 'hof', len(vs))
            if ty_of(old) is not None: set_ty(ph, ty_of(old))
            s.set(st, x.a[0], list(x.a[1]), ph); vs.append((ph, old, x.a[0], x.a[1]))
    none = st.copy()
    st.event('loop', mk('loophead', ctx, 'hof'), tuple((p, o) for p, o, _, _ in vs), fr.name)
    return none, vs
def hof_back(s, st, fr, ctx, what, vs=()):
    """one more iteration of a higher-order iterator method: a prefix of longer executions"""
    from engine import Trace
    s.end(Trace(s.cur, 'back', None, st, {'fn': fr.name, 'head': what, 'phi': {p: s.get(st, r, q) for p, _, r, q in vs}, 'ctx': ctx}))

def str_index(s, st, fr, t, x, r, rty):
    n = s.types[r.a[0]]['name'].split('::')[-1] if r.op == 'agg' else None
    if n == 'RangeFull': return x
    lo = hi = None
    if n in ('Range', 'RangeInclusive'): lo, hi = r.a[2], r.a[3]
    elif n == 'RangeFrom': lo = r.a[2]
    elif n in ('RangeTo', 'RangeToInclusive'): hi = r.a[2]
    else:
        return app('substr', x, r, r)
    lo = lo or I(0); end = hi or s.len(x)
    if lo is I(0) and end is s.len(x): return x
    ok = boundary(s, st, x, lo) and boundary(s, st, x, end) and s.prove(st, lo, end) and s.prove(st, end, s.len(x))
    s.oblige(fr, t, 'str-slice', bool(ok), (x, lo, end))
    if not ok:
        s.unproved(st, end, s.len(x), 0); s.panic(st, fr, t, 'str-slice', (x, lo, end))
    return app('substr', x, lo, end)

def asciibyte(a, st, base, e=None):
    """the character that a byte of a text is known to be"""
    for f, v in a.facts.items():
        if v and f.op == 'app' and f.a[0] == 'eq':
            for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if y.op == 'int' and y.a[0] < 128 and x.op == 'elem' and x.a[0] is base: return chr(y.a[0])
    return None
def byteplace(a, st, v):
    """the place of a byte that is a known character of one byte is a place where this character was found"""
    if v.op != 'idx' or v.a[0].op != 'it': return v
    b = v.a[0].a[0]
    if b.op != 'app' or b.a[0] != 'bytes': return v
    c = asciibyte(a, st, b)
    return v if c is None else fld(mk('elem', app('match_indices', b.a[1], S('match_indices'), S(c)), v.a[1]), None, 0)
def members(b):
    """the values an element of a collected list can have"""
    c = None
    if b.op == 'fld' and b.a[0].op == 'app' and b.a[0].a[0] in ('get', 'first', 'last'): c = b.a[0].a[1]
    elif b.op == 'elem': c = b.a[0]
    elif b.op == 'app' and b.a[0] == 'at': c = b.a[1]
    if c is not None and c.op == 'app' and c.a[0] == 'collect': return c.a[3:]
    return None
def boundary(s, st, x, n):
    if boundary1(s, st, x, n): return True
    if s.proving: return False
    s.proving = True
    try: return linear.at_boundary(s, st, x, n)
    finally: s.proving = False
def boundary1(s, st, x, n):
    """n is a character boundary of x, and at most its length"""
    if n is I(0) or n is s.len(x): return True
    b, k = s.lin(n)
    ms = members(b) if b is not None else None
    if ms is not None and k == 0: return bool(ms) and all(boundary(s, st, x, y) for y in ms)
    if b is None:
        # literal: a proven prefix of k bytes
        for t, v in s.str_facts(st, x):
            if v and t.a[0] == 'starts_with' and t.a[2].op == 'str':
                pre = t.a[2].a[0].encode()
                if k <= len(pre) and all((c & 0xC0) != 0x80 for c in pre[k:k+1]): return True
        e = s.eqlit(st, x)
        if e is not None and e.op == 'str':
            bs = e.a[0].encode(); return k <= len(bs) and (k == len(bs) or (bs[k] & 0xC0) != 0x80)
        return False
    if b.op == 'fld' and b.a[0].op == 'app' and b.a[0].a[0] in ('find', 'rfind') and b.a[0].a[1] is x:
        p = b.a[0].a[2]
        if k == 0: return True
        if p.op == 'charset' or p.op == 'app' and p.a[0] == 'charpred': return False
        if p.op == 'str':
            bs = p.a[0].encode(); return 0 < k <= len(bs) and (k == len(bs) or (bs[k] & 0xC0) != 0x80)
        return False
    if b.op == 'fld' and b.a[0].op == 'app' and b.a[0].a[0] in ('find', 'rfind') and b.a[0].a[1].op == 'app' and b.a[0].a[1].a[0] == 'substr' and b.a[0].a[1].a[1] is x and b.a[0].a[1].a[2].op == 'int':
        # found in the part of x from a known position on
        p = b.a[0].a[2]; k -= b.a[0].a[1].a[2].a[0]
        if k == 0: return True
        if p.op == 'str':
            bs = p.a[0].encode(); return 0 < k <= len(bs) and (k == len(bs) or (bs[k] & 0xC0) != 0x80)
        return False
    if k == 0 and b.op == 'fld' and b.a[0].op == 'elem' and b.a[0].a[0].op == 'app' and b.a[0].a[0].a[0] == 'char_indices' and b.a[0].a[0].a[1] is x: return True
    if k == 0 and b.op == 'fld' and b.a[0].op == 'fld' and b.a[0].a[0].op == 'app' and contains(b, app('char_indices', x)): return True
    if b.op == 'fld' and b.a[0].op == 'elem' and b.a[2] == 0 and b.a[0].a[0].op == 'app' and b.a[0].a[0].a[0] == 'match_indices' and b.a[0].a[0].a[1] is x:
        p = b.a[0].a[0].a[3]
        if k == 0: return True
        if p.op == 'str':
            bs = p.a[0].encode(); return 0 < k <= len(bs) and (k == len(bs) or (bs[k] & 0xC0) != 0x80)
        return False
    # len(x) - n under a proven suffix
    if b is s.len(x) and k < 0:
        for t, v in s.str_facts(st, x):
            if v and t.a[0] == 'ends_with' and t.a[2].op == 'str':
                suf = t.a[2].a[0].encode(); j = len(suf) + k
                if j >= 0 and (j == 0 or (suf[j] & 0xC0) != 0x80): return True
    if b.op == 'app' and b.a[0] == 'sub' and k == 0 and b.a[1] is s.len(x) and b.a[2].op == 'app' and b.a[2].a[0] == 'len':
        y = b.a[2].a[1]
        if s.truth(st, app('ends_with', x, y)): return True
    if b.op == 'app' and b.a[0] == 'len' and k == 0:
        y = b.a[1]
        if s.truth(st, app('starts_with', x, y)): return True
    # a byte offset reported by a dependency's matcher on x (Match::start / Match::end)
    if k == 0 and b.op == 'app' and b.a[0] in ('Match::start', 'Match::end') and contains(b, x): return True
    return False

PURE_EXTERNAL = re.compile(r'^(i32|u\d+|usize|i64|char|str|String|Path|OsStr|Duration|SystemTime|Level|serde_json|jsonc_parser|phf|daachorse|DoubleArrayAhoCorasick|Match|Component)')

def model(s, st, fr, t, inst, decl, dn, name, args, ctx, site, f):
    m = method(dn)
    V = lambda i: s.val(st, args[i])
    one = lambda v: [(st, v)]
    a0 = args[0] if args else None
    rty = s.dest_ty(fr, t) if t.get('d') is not None else None
    R = recv(name)
    lty = None
    # receiver type: the first argument's declared type
    if t['a']:
        o = t['a'][0]
        ty0 = s.place_ty(fr, o['p']) if 'p' in o else o['ty']
        lty = s.tname(s.peel(ty0))
    crate = inst['crate'] if inst else None

    # ---- logging: no effect on the result (checked by C01), disabled spans
    if crate in ('tracing', 'tracing_core') or decl.startswith('tracing') or dn.startswith('tracing'):
        if m == 'in_scope': return run_closure(s, st, fr, t, args[1], [], ctx, site)
        if m in ('le', 'lt', 'ge', 'gt', '__is_enabled', 'is_enabled'): return one(FALSE)
        if m == 'is_never': return one(TRUE)
        return one(s.typed(app('trace'), rty))
    if 'tracing::Level' in (inst['def'] if inst else '') or lty == 'Level': return one(FALSE)

    # ---- identity functions
    if dn in ('Clone::clone', 'ToOwned::to_owned') and a0 is not None:
        return one(V(0))
    if dn in ('DerefMut::deref_mut', 'AsMut::as_mut', 'BorrowMut::borrow_mut'):
        if lty in ('Option', 'Result'): return None
        return one(a0)
    if dn in ('Deref::deref', 'AsRef::as_ref', 'Borrow::borrow') and inst is not None and not inst['local']:
        v = V(0)
        if lty == 'Ref' or lty == 'RefMut' : return one(v)
        if lty == 'Lazy' or lty == 'OnceCell' or lty == 'LazyLock':
            r = app('lazy', v); return one(s.typed(r, rty))
        return one(v)
    if dn in CTOR_ID: return one(V(0))
    if m in IDENT_METHODS and (lty in STRLIKE or lty in ('Vec', 'slice', 'array', 'Arc', 'Box', 'Rc') or recv(dn) in ('hint', 'convert')) and lty not in ('Option', 'Result') and args:
        if m in ('as_ref', 'as_mut') and lty in ('Option', 'Result'): return None
        return one(a0 if a0.op == 'mref' and m.startswith('as_mut') else V(0))
    if dn in ('From::from', 'Into::into', 'FromStr::from_str'):
        if lty in STRLIKE or lty in ('Vec', 'slice', 'array', 'Arc', 'Box') and rty is not None and (s.tname(s.peel(rty)) in STRLIKE + ('Vec', 'slice', 'array', 'Arc', 'Box')):
            return one(V(0))
        if inst and inst['body']: return None
        if rty is not None and lty == s.tname(s.peel(rty)): return one(V(0))
        if lty == 'bool':
            # 0 or 1
            out = []
            for b in (True, False):
                c = st.copy()
                if s.assume(c, V(0), b): out.append((c, I(1 if b else 0)))
            return out
        r = app('into', V(0)); return one(s.typed(r, rty))
    if dn == 'ToString::to_string' or (m == 'to_string' and lty in STRLIKE):
        if lty in STRLIKE or lty in ('Cow', 'Display'): return one(V(0))
        return one(app('show', V(0)))
    if m in ('display', 'to_string_lossy'):
        return one(app('display', V(0)))
    if m == 'to_str' and lty in STRLIKE: return one(s.typed(app('to_str', V(0)), rty))

    # ---- formatting
    if m == 'new_display' or m == 'new_debug':
        v = V(0)
        return one(v if (lty in STRLIKE or v.op == 'str') and m == 'new_display' else app('show' if m == 'new_display' else 'debug', v))
    if dn.endswith('Arguments::new') or 'fmt::Arguments' in decl and m in ('new', 'new_v1', 'from_str', 'from_str_nonconst', 'new_const'):
        v = V(0)
        if m.startswith('from_str'): return one(v)
        if v.op == 'bytes':
            ar = V(1) if len(args) > 1 else mk('array')
            return one(fmt_template(v.a[0], list(ar.a) if ar.op == 'array' else [], s, st))
        if v.op == 'str':
            ar = V(1) if len(args) > 1 else mk('array')
            return one(fmt_template(v.a[0].encode('latin1', 'replace'), list(ar.a) if ar.op == 'array' else [], s, st))
        return one(app('fmt', *[s.val(st, a) for a in args]))
    if dn in ('fmt::format', 'std::fmt::format') or name in ('fmt::format',): return one(V(0))
    if dn == 'Write::write_fmt' or m in ('write_str', 'write_fmt') or dn.startswith('Formatter::'):
        if lty == 'String' and m in ('write_str', 'write_fmt'):
            s.set(st, a0.a[0], list(a0.a[1]), concat([V(0), V(1)]))
        elif m in ('write_str', 'write_fmt', 'write_char', 'pad'): st.event('write', V(1), fr.name)
        else: st.event('write', app('formatted'), fr.name)
        return one(s.typed(app('fmt_result'), rty))
    if dn == 'Display::fmt' and not (inst and inst['local']):
        st.event('write', V(0), fr.name); return one(s.typed(app('fmt_result'), rty))

    # ---- comparisons
    if dn in ('PartialEq::eq', 'PartialEq::ne') and not (inst and inst['body']):
        for x, y in ((V(0), V(1)), (V(1), V(0))):
            # an option compared with a written one: the variant, then the content
            if x.op != 'agg' or y.op not in ('app', 'fld', 'sym', 'phi') or not s.types[x.a[0]].get('name', '').endswith('Option'): continue
            if ty_of(y) is None: s.typed(y, x.a[0])
            if ty_of(y) != x.a[0]: break
            out = []; w = x.a[1]
            vs = s.variants(st, y) or frozenset([0, 1])
            if 1 - w in vs:
                c = st.copy(); s.setvars(c, y, frozenset([1 - w])); out.append((c, FALSE if m == 'eq' else TRUE))
            if w in vs:
                c = st.copy(); s.setvars(c, y, frozenset([w]))
                if w == 0: out.append((c, TRUE if m == 'eq' else FALSE))
                else:
                    q = EQ(x.a[2], fld(y, 1, 0)); d = c.copy()
                    if s.assume(c, q, True): out.append((c, TRUE if m == 'eq' else FALSE))
                    if s.assume(d, q, False): out.append((d, FALSE if m == 'eq' else TRUE))
            return out
        v = EQ(V(0), V(1))
        return one(v if m == 'eq' else NOT(v))
    if dn in ('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge') :
        op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[m]
        return one(s.binop(st, op, V(0), V(1)))
    if dn in ('Ord::cmp', 'PartialOrd::partial_cmp') and not (inst and inst['local']):
        return one(s.typed(app('cmp', V(0), V(1)), rty))

    if lty == 'Ordering' and m in ('reverse', 'then'): return one(s.typed(app('revcmp', V(0)) if m == 'reverse' else app('thencmp', V(0), V(1)), rty))
    if lty == 'Ordering' and m == 'then_with': return [(b, s.typed(app('thencmp', V(0), v), rty)) for b, v in run_closure(s, st, fr, t, args[1], [], ctx, site)]

    partial(s, st, fr, t, lty, m, dn, crate, args, V)
    # ---- strings
    if lty in STRLIKE:
        x = V(0)
        if m == 'is_empty': return one(EQ(x, S('')))
        if m == 'len':
            n = s.len(x)
            if n.op == 'app' and n.a[0] == 'len': TEXTLEN.add(n)
            return one(n)
        if m in ('starts_with', 'ends_with', 'contains'):
            if lty in ('Path', 'PathBuf'): return one(app('path_' + m, x, V(1)))
            p = pattern(s, st, fr, t, args[1], x, ctx, site)
            return one(app(m, x, p))
        if m in ('find', 'rfind', 'strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once'):
            p = pattern(s, st, fr, t, args[1], x, ctx, site)
            if lty in ('Path', 'PathBuf'): return one(s.typed(app('path_' + m, x, p), rty))
            return one(s.typed(app(m, x, p), rty))
        if m in ('split', 'rsplit', 'splitn', 'rsplitn', 'split_terminator', 'matches', 'split_inclusive'):
            p = pattern(s, st, fr, t, args[-1], x, ctx, site)
            return one(mk('it', app('split', x, S(m), p, *([V(1)] if m in ('splitn', 'rsplitn') else []))))
        if m in ('match_indices', 'rmatch_indices'):
            p = pattern(s, st, fr, t, args[-1], x, ctx, site)
            return one(mk('it', app('match_indices', x, S(m), p)))
        if m in ('chars', 'char_indices', 'bytes', 'lines', 'split_whitespace', 'ancestors', 'components', 'iter'):
            return one(mk('it', app('components' if m == 'iter' else m, x)))
        if m in ('trim_start_matches', 'trim_end_matches', 'trim_matches', 'trim_left_matches', 'trim_right_matches'):
            p = pattern(s, st, fr, t, args[1], x, ctx, site); return one(app(m, x, p))
        if m in ('replace', 'replacen'):
            p = pattern(s, st, fr, t, args[1], x, ctx, site)
            return one(app(m, x, p, V(2), *([V(3)] if len(args) > 3 else [])))
        if m == 'repeat': return one(app('repeat', x, V(1)))
        if m in ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim', 'trim_start', 'trim_end'): return one(app(m, x))
        if m in ('push_str', 'push') and lty in ('String', 'OsString') and a0.op == 'mref':
            s.set(st, a0.a[0], list(a0.a[1]), concat([x, V(1)])); return one(UNIT)
        if m == 'push' and lty == 'PathBuf' and a0.op == 'mref':
            s.set(st, a0.a[0], list(a0.a[1]), app('join', x, V(1))); return one(UNIT)
        if m == 'pop' and lty == 'PathBuf' and a0.op == 'mref':
            if not any(y.op == 'phi' or y.op == 'app' and y.a[0] in ('popped', 'pushed') for y in subterms(x)):
                # not in a loop: the parent directory, if there is one
                n = s.peel(s.place_ty(fr, t['a'][0]['p'])) if 'p' in t['a'][0] else None
                q = app('parent', x); out = []
                for w in sorted(s.variants(st, q) or (0, 1)):
                    st2 = st.copy(); s.setvars(st2, q, frozenset([w]))
                    if w:
                        v = fld(q, 1, 0, 1)
                        if n is not None: set_ty(v, n)
                        s.set(st2, a0.a[0], list(a0.a[1]), v)
                    out.append((st2, B(bool(w))))
                return out
            s.set(st, a0.a[0], list(a0.a[1]), app('popped', x)); return one(app('pop?', x))
        if m == 'pop' and lty == 'String' and a0.op == 'mref':
            s.set(st, a0.a[0], list(a0.a[1]), app('popped', x)); return one(s.typed(app('popchar', x), rty))
        if m in ('clear', 'truncate') and a0.op == 'mref':
            s.set(st, a0.a[0], list(a0.a[1]), S('') if m == 'clear' else app('truncate', x, V(1))); return one(UNIT)
        if dn == 'Add::add': return one(concat([x, V(1)]))
        if dn == 'AddAssign::add_assign' and a0.op == 'mref':
            s.set(st, a0.a[0], list(a0.a[1]), concat([x, V(1)])); return one(UNIT)
        if dn == 'Index::index': return one(str_index(s, st, fr, t, x, V(1), rty))
        if m == 'get' and lty in ('str', 'String'): return one(s.typed(app('str.get', x, V(1)), rty))
        if m == 'join': return one(app('join', x, V(1)))
        if m in ('is_file', 'is_dir', 'exists', 'is_symlink', 'try_exists'):
            st.event('fs', m, x, fr.name); r = app(m, x)
            if st.guards and r in st.facts: r = mk('app', m, x, mk('ctx', ctx))      # asked again while a lock is held: others may have changed the file since
            return one(s.typed(r, rty))
        if m in ('canonicalize', 'metadata', 'symlink_metadata', 'read_dir', 'read_link'):
            st.event('fs', m, x, fr.name); return one(s.typed(app(m, x), rty))
        if m in ('is_absolute', 'is_relative', 'has_root', 'parent', 'file_name', 'extension', 'file_stem', 'with_extension', 'with_file_name', 'eq_ignore_ascii_case', 'is_char_boundary', 'parse', 'cmp', 'partial_cmp', 'as_ptr', 'is_alphabetic', 'is_ascii_alphabetic', 'is_ascii', 'is_ascii_digit', 'is_alphanumeric', 'len_utf8', 'set_extension_', 'char_count'):
            r = app(m, x, *[s.val(st, a) for a in args[1:]]); return one(s.typed(r, rty))
        if m == 'set_extension' and a0.op == 'mref':
            s.set(st, a0.a[0], list(a0.a[1]), app('with_extension', x, V(1))); return one(TRUE)
        if m == 'extend' or m == 'from_iter': return None
        if m == 'concat': return one(concat([x, V(1)]))
    if m in ('canonicalize', 'metadata', 'read_to_string', 'read', 'symlink_metadata', 'read_dir', 'read_link') and decl.startswith('std::fs'):
        p = V(0); st.event('fs', m, p, fr.name)
        return one(s.typed(app(m if m != 'read_to_string' else 'read', p), rty))
    if lty == 'Metadata' and m in ('is_file', 'is_dir', 'modified', 'is_symlink', 'len', 'file_type'):
        x = V(0)
        if x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] == 'metadata' and m in ('is_file', 'is_dir'):
            return one(app(m, x.a[0].a[1]))
        return one(s.typed(app(m, x), rty))
    if m == 'new' and recv(dn) in ('String', 'PathBuf', 'OsString'): return one(S(''))
    if m == 'with_capacity' and recv(dn) in ('String', 'PathBuf', 'OsString'): return one(S(''))

    # ---- lists
    if recv(dn) == 'Vec' and m in ('new', 'with_capacity'): return one(mk('array'))
    if dn == 'Box::new_uninit' or m == 'new_uninit':
        return one(s.typed(app('box_uninit', mk('ctx', ctx)), rty))
    if m == 'box_assume_init_into_vec_unsafe':
        v = V(0); h = st.store.get(('H', v)) or st.store.get(('H', fld(v, None, 0)))
        if h is None: return one(app('vecof', v))
        return one(s.proj(st, s.proj(st, h, None, 1), None, 0))
    if m == 'from_elem': return one(app('from_elem', V(0), V(1)))
    if m == 'into_vec' and args: return one(V(0))
    if lty in ('Vec', 'slice', 'array', 'VecDeque'):
        x = V(0)
        if m == 'len': return one(s.len(x))
        if m == 'is_empty': return one(EQ(s.len(x), I(0)))
        if m == 'push' and a0.op == 'mref':
            e = V(1)
            nv = mk('array', *x.a, e) if x.op == 'array' and len(x.a) < 64 else app('pushed', x, e)
            s.set(st, a0.a[0], list(a0.a[1]), nv); st.event('push', x, e, fr.name); return one(UNIT)
        if m == 'insert' and a0.op == 'mref':
            nv = app('inserted', x, V(1), V(2)); s.set(st, a0.a[0], list(a0.a[1]), nv); st.event('push', x, V(2), fr.name); return one(UNIT)
        if m == 'pop' and a0.op == 'mref':
            s.set(st, a0.a[0], list(a0.a[1]), app('popped', x)); return one(s.typed(app('last', x), rty))
        if m in ('extend', 'extend_from_slice', 'append') and a0.op == 'mref':
            y = V(1); st.event('push', x, app('all', y), fr.name)
            s.set(st, a0.a[0], list(a0.a[1]), app('extended', x, y)); return one(UNIT)
        if m in ('sort_by', 'sort', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_by_cached_key', 'sort_unstable_by_key') and a0.op == 'mref':
            key = cmp_key(s, st, fr, t, args, x, ctx, site)
            s.set(st, a0.a[0], list(a0.a[1]), app('sorted', x, key)); st.event('sort', x, key, fr.name); return one(UNIT)
        if m in ('reverse', 'dedup', 'clear', 'truncate', 'retain', 'dedup_by_key', 'rotate_left', 'rotate_right', 'swap', 'drain') and a0.op == 'mref' and m not in ('retain', 'drain'):
            s.set(st, a0.a[0], list(a0.a[1]), mk('array') if m == 'clear' else app(m, x)); return one(UNIT)
        if m in ('get', 'first', 'last', 'get_mut', 'first_mut', 'last_mut'):
            g = app({'get_mut': 'get', 'first_mut': 'first', 'last_mut': 'last'}.get(m, m), x, *[s.val(st, a) for a in args[1:]])
            s.typed(g, rty)
            if m == 'get' and len(args) > 1 and x.op == 'array' and V(1).op == 'int':
                i = V(1).a[0]; n = s.peel_opt(rty)
                return one(opt_some(rty, x.a[i]) if i < len(x.a) else opt_none(rty))
            if m in ('first', 'last') and x.op == 'array':
                return one(opt_some(rty, x.a[0 if m == 'first' else -1]) if x.a else opt_none(rty))
            return one(g)
        if m == 'contains':
            if x.op == 'array' and 0 < len(x.a) <= 8:
                # a literal list: one comparison after the other
                out = []; y = V(1)
                for e in x.a:
                    c = st.copy()
                    if s.assume(c, EQ(e, y), True): out.append((c, TRUE))
                    if not s.assume(st, EQ(e, y), False): return out
                return out + [(st, FALSE)]
            return one(app('has', x, V(1)))
        if m in ('iter', 'iter_mut', 'into_iter', 'drain'): return one(it_of(s, st, args[0]))
        if m in ('join', 'concat'): return one(app('joined', x, *[s.val(st, a) for a in args[1:]]))
        if dn == 'Index::index' or dn == 'IndexMut::index_mut':
            i = V(1)
            if i.op == 'agg':
                n = s.types[i.a[0]]['name'].split('::')[-1]
                if n == 'RangeFull': return one(x)
                lo = i.a[2] if n in ('Range', 'RangeFrom') else I(0)
                hi = i.a[3] if n == 'Range' else i.a[2] if n == 'RangeTo' else s.len(x)
                if n in ('Range', 'RangeFrom', 'RangeTo'): ok = s.prove(st, lo, hi) and s.prove(st, hi, s.len(x))
                else: ok = False
                s.oblige(fr, t, 'slice', bool(ok), (x, lo, hi))
                if not ok:
                    s.unproved(st, lo, s.len(x), 0); s.unproved(st, hi, s.len(x), 0); s.panic(st, fr, t, 'slice', (x, lo, hi))
                return one(app('sublist', x, lo, hi))
            ok = s.prove(st, i, s.len(x), 1)
            s.oblige(fr, t, 'index', bool(ok), (x, i))
            if not ok:
                s.unproved(st, i, s.len(x), 1); s.panic(st, fr, t, 'index', (i, s.len(x)))
            if dn == 'IndexMut::index_mut' and a0.op == 'mref':
                e = app('slot', x, i)
                s.set(st, a0.a[0], list(a0.a[1]), app('store', x, i))
                return one(mk('mref', ('H', e), ()))
            v = s.index(st, x, i); return one(s.typed(v, rty))
        if m in ('split_at', 'split_first', 'split_last', 'chunks', 'windows', 'binary_search', 'starts_with', 'ends_with', 'position'):
            r = app('list.' + m, x, *[s.val(st, a) for a in args[1:]]); return one(s.typed(r, rty))

    # ---- maps
    if lty in ('HashMap', 'IndexMap', 'BTreeMap', 'Map', 'HashSet', 'IndexSet', 'BTreeSet') or (recv(dn) in ('HashMap', 'IndexMap', 'BTreeMap', 'HashSet') and m in ('new', 'default', 'with_capacity')):
        x = V(0) if args else None
        if m in ('new', 'default', 'with_capacity'): return one(app('map.new'))
        if m in ('len',): return one(s.len(x))
        if m == 'is_empty': return one(EQ(s.len(x), I(0)))
        if m == 'get' or m == 'get_mut':
            k = V(1)
            if x.op == 'app' and x.a[0] == 'map.insert' and x.a[2] is k and len(x.a) > 3: return one(opt_some(rty, x.a[3]))
            if x.op == 'app' and x.a[0] == 'map.or_insert' and x.a[2] is k: return one(opt_some(rty, app('mapslot', *x.a[1:])))
            g = s.typed(app('map.get', x, k), rty)
            return one(g)
        if m in ('contains_key', 'contains'): return one(app('map.contains', x, V(1)))
        if m in ('insert', 'insert_full') and a0.op == 'mref':
            vs = [s.val(st, a) for a in args[1:]]
            st.event('map.insert', x, tuple(vs), fr.name, s.place_root(a0))
            s.set(st, a0.a[0], list(a0.a[1]), app('map.insert', x, *vs)); return one(s.typed(app('map.old', x, *vs), rty))
        if m in ('remove', 'shift_remove', 'swap_remove', 'remove_entry') and a0.op == 'mref':
            s.set(st, a0.a[0], list(a0.a[1]), app('map.remove', x, V(1))); return one(s.typed(app('map.get', x, V(1)), rty))
        if m in ('extend', 'clear', 'append', 'retain', 'sort_by', 'sort_keys', 'reverse') and a0.op == 'mref':
            vs = [s.val(st, a) for a in args[1:]]
            st.event('map.' + m, x, tuple(vs), fr.name, s.place_root(a0))
            s.set(st, a0.a[0], list(a0.a[1]), app('map.' + m, x, *vs)); return one(UNIT)
        if m == 'keys' or m == 'into_keys': return one(mk('it', app('keys', x)))
        if m == 'values' or m == 'into_values' or m == 'values_mut': return one(mk('it', app('values', x)))
        if m in ('iter', 'into_iter', 'iter_mut', 'drain'): return one(mk('it', x))
        if dn == 'Index::index':
            ok = s.truth(st, app('map.contains', x, V(1))) is True
            s.oblige(fr, t, 'mapindex', ok, (x, V(1)))
            if not ok: s.panic(st, fr, t, 'mapindex', (x, V(1)))
            return one(s.typed(fld(app('map.get', x, V(1)), 1, 0, 1), rty))
        if m in ('first', 'last', 'get_index', 'get_full', 'get_key_value', 'get_index_of'): return one(s.typed(app('map.' + m, x, *[s.val(st, a) for a in args[1:]]), rty))
        if m == 'entry' and a0.op == 'mref':
            st.event('map.entry', x, (V(1),), fr.name, s.place_root(a0))
            return one(mk('entry', a0, V(1)))
    if lty == 'Entry' and m in ('or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key', 'and_modify', 'or_insert_entry'):
        e = V(0)
        if e.op == 'entry':
            a, k = e.a; x = s.val(st, a); outs = []
            news = [(st, app('default'))] if m == 'or_default' else [(st, V(1))] if m == 'or_insert' else run_closure(s, st, fr, t, args[1], [], ctx, site) if m == 'or_insert_with' else [(st, app('opaque'))]
            for st2, v in news:
                st2.event('map.insert', x, (k, v, TRUE), fr.name, s.place_root(a))
                s.set(st2, a.a[0], list(a.a[1]), app('map.or_insert', x, k, v))
                slot = app('mapslot', x, k, v)
                outs.append((st2, mk('mref', ('H', slot), ())))
            return outs
    if lty == 'Value' and crate == 'serde_json' or lty == 'Value' and dn == 'Index::index':
        x = V(0)
        if m == 'get' or m == 'pointer': return one(s.typed(app('map.get', x, V(1)), rty))
        if dn == 'Index::index':
            return one(s.typed(app('at', x, V(1)), rty))
        if m in ('is_string', 'is_object', 'is_array', 'is_null', 'is_boolean', 'is_number'):
            return one(app(m, x))
        if m.startswith('as_'): return one(s.typed(app(m, x), rty))
    # ---- concurrent maps
    if lty in ('DashMap', 'DashSet'):
        x = V(0); vs = [s.val(st, a) for a in args[1:]]
        if m == 'default' or m == 'new': return one(app('dm.new'))
        g = tuple(g for g in st.guards)
        st.event('dm', m, x, tuple(vs), g, fr.name)
        if m in ('get', 'get_mut', 'try_get', 'view'):
            r = mk('app', 'dm.get', x, vs[0], mk('ctx', ctx)); s.typed(r, rty)
            st.guards = st.guards + ((r, x),)
            return one(r)
        if m in ('contains_key', 'is_empty', 'len'): return one(app('dm.' + m, x, *vs, mk('ctx', ctx)))
        if m in ('insert', 'remove', 'clear', 'remove_if', 'retain', 'shrink_to_fit', 'alter'):
            outs = [st]
            r = app('dm.' + m, x, *vs, mk('ctx', ctx))
            return one(s.typed(r, rty) if rty is not None else r)
        if m in ('entry', 'iter', 'iter_mut', 'try_entry'):
            r = mk('app', 'dm.' + m, x, *vs, mk('ctx', ctx)); s.typed(r, rty)
            st.guards = st.guards + ((r, x),)
            return one(r)

    if dn.split('::')[-1] in ('integer_min', 'integer_max') or dn in ('Ord::min', 'Ord::max') and lty in ('usize', 'u64', 'u32', 'i32', 'i64', 'u8'): return one(app(m.split('_')[-1], V(0), V(1)))
    # ---- iterators
    if dn == 'IntoIterator::into_iter' : return one(it_of(s, st, args[0]))
    if dn in ('Iterator::rev', 'Iterator::cloned', 'Iterator::copied', 'Iterator::skip', 'Iterator::take', 'Iterator::step_by', 'Iterator::peekable', 'Iterator::fuse', 'Iterator::by_ref', 'Iterator::skip_while', 'Iterator::take_while', 'Iterator::inspect', 'Iterator::cycle', 'DoubleEndedIterator::rev'):
        if dn == 'Iterator::by_ref': return one(args[0])
        it = it_of(s, st, args[0])
        if m in ('cloned', 'copied', 'peekable', 'fuse', 'inspect'): return one(it)
        if it.op == 'it' and m == 'rev': return one(mk('it', app('rev', it.a[0])))
        return one(mk('itpass', m, it, *[s.val(st, a) for a in args[1:]]))
    if dn in ('Iterator::map',): return one(mk('itmap', it_of(s, st, args[0]), V(1)))
    if dn == 'Iterator::filter': return one(mk('itfilter', it_of(s, st, args[0]), V(1)))
    if dn == 'Iterator::filter_map': return one(mk('itfmap', it_of(s, st, args[0]), V(1)))
    if dn == 'Iterator::flat_map': return one(mk('itflat', it_of(s, st, args[0]), V(1)))
    if dn == 'Iterator::enumerate': return one(mk('itenum', it_of(s, st, args[0])))
    if dn == 'Iterator::zip': return one(mk('itzip', it_of(s, st, args[0]), it_of(s, st, args[1])))
    if dn == 'Iterator::chain': return one(mk('itchain', it_of(s, st, args[0]), it_of(s, st, args[1])))
    if dn in ('Iterator::next', 'DoubleEndedIterator::next_back') and not (inst and inst['local']):
        it = it_of(s, st, args[0])
        if m == 'next_back': it = mk('itpass', 'rev', it)
        out = []; none = st.copy()
        ety = s.types[rty]['args'][0]
        none.event('exhausted', it_base(it), fr.name, 'next', it)
        over = indexes(it)
        if over is not None: none.event('exhausted', over[0], fr.name, 'next')
        for a, e in iter_elem(s, st, fr, t, it, ctx, site, ety):
            a.event('elem', it_base(it), e, fr.name, it, 'next')
            if over is not None and e.op == 'elem': a.event('elem', over[0], mk('elem', over[0], e.a[1]), fr.name, over[1], 'next')
            out.append((a, opt_some(rty, e)))
        return out + [(none, opt_none(rty))]
    if dn.startswith('Iterator::') or dn.startswith('DoubleEndedIterator::') or dn == 'FromIterator::from_iter' or dn == 'Extend::extend':
        if m == 'size_hint': return None
        it = it_of(s, st, args[1] if dn == 'Extend::extend' else args[0])
        base = it_base(it)
        if m in ('any', 'all'):
            out = []
            none, vs = hof_enter(s, st, fr, ctx, it, args[1:])
            want = m == 'any'
            if it.op == 'it' and base.op == 'array' and 0 < len(base.a) <= 8:
                # a literal list: one element after the other
                sts = [st]; outs = []
                for e in base.a:
                    nxt = []
                    for a in sts:
                        for b, v in run_closure(s, a, fr, t, args[1], [e], ctx, site):
                            c = b.copy()
                            if s.assume(c, v, want): outs.append((c, B(want)))
                            if s.assume(b, v, not want): nxt.append(b)
                    sts = nxt
                return outs + [(a, B(not want)) for a in sts]
            for a, e in iter_elem(s, st, fr, t, it, ctx, site):
                for b, v in run_closure(s, a, fr, t, args[1], [e], ctx, site):
                    c = b.copy()
                    if s.assume(c, v, want):
                        c.event('elem', base, e, fr.name, it); out.append((c, B(want)))
                    if s.assume(b, v, not want): hof_back(s, b, fr, ctx, m, vs)
            none.event('exhausted', base, fr.name)
            none.facts[app(m, it, s.val(none, args[1]))] = not want
            return out + [(none, B(not want))]
        if m in ('find', 'find_map', 'position', 'rposition', 'try_for_each', 'try_fold_'):
            out = []; none, vs = hof_enter(s, st, fr, ctx, it, args[1:])
            for a, e in iter_elem(s, st, fr, t, it, ctx, site):
                for b, v in run_closure(s, a, fr, t, args[1], [e], ctx, site):
                    if m in ('find', 'position', 'rposition'):
                        c = b.copy()
                        if s.assume(c, v, True):
                            c.event('elem', base, e, fr.name, it); out.append((c, opt_some(rty, e if m == 'find' else mk('idx', it, ctx))))
                        if s.assume(b, v, False): hof_back(s, b, fr, ctx, m, vs)
                    else:
                        stop = {'find_map': 1, 'try_for_each': 1}[m]
                        sp = split_variants(s, b, v)
                        if sp is None: out.append((b, v)); continue
                        for c, w in sp:
                            if w == stop: c.event('elem', base, e, fr.name, it); out.append((c, v))
                            else: hof_back(s, c, fr, ctx, m, vs)
            if m == 'position' and it.op == 'it' and base.op == 'app' and base.a[0] == 'bytes' and len(out) == 1:
                # where a character of one byte is
                c = asciibyte(out[0][0], st, base)
                if c is not None: return one(s.typed(app('find', base.a[1], S(c)), rty))
            none.event('exhausted', base, fr.name)
            if m == 'try_for_each': return out + [(none, s.typed(app('tryok', it), rty))]
            return out + [(none, opt_none(rty))]
        if m in ('for_each',):
            none, vs = hof_enter(s, st, fr, ctx, it, args[1:])
            for a, e in iter_elem(s, st, fr, t, it, ctx, site):
                a.event('elem', base, e, fr.name, it)
                for b, v in run_closure(s, a, fr, t, args[1], [e], ctx, site): hof_back(s, b, fr, ctx, m, vs)
            none.event('exhausted', base, fr.name)
            return [(none, UNIT)]
        if m in ('fold', 'try_fold', 'reduce', 'scan'):
            none, vs = hof_enter(s, st, fr, ctx, it, args[-1:])
            init = V(1) if m != 'reduce' else None
            acc = mk('phi', ctx, 'fold', m)
            if init is not None:
                o = t['a'][1]; s.typed(acc, s.place_ty(fr, o['p']) if 'p' in o else o['ty'])
            out = []
            vals = [init] if init is not None else []
            for a, e in iter_elem(s, st, fr, t, it, ctx, site):
                a.event('elem', base, e, fr.name, it)
                for b, v in run_closure(s, a, fr, t, args[-1], [acc, e], ctx, site):
                    s_phi = {acc: v}; s_phi.update({p: s.get(b, r, q) for p, _, r, q in vs})
                    from engine import Trace
                    s.end(Trace(s.cur, 'back', None, b, {'fn': fr.name, 'head': 'fold', 'phi': s_phi, 'ctx': ctx}))
                    vals.append(v)
            none.event('exhausted', base, fr.name)
            none.event('fold', acc, tuple(vals), fr.name, it)
            if m == 'fold': return [(none, acc)]
            return [(none, s.typed(app(m, it, acc), rty))]
        if m == 'count': return one(app('charlen', base.a[1]) if it.op == 'it' and base.op == 'app' and base.a[0] == 'chars' else app('count', it))
        if m in ('collect', 'from_iter', 'extend'):
            return collect(s, st, fr, t, it, base, args, ctx, site, rty, m)
        if m in ('last', 'nth', 'max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'sum', 'eq', 'lt', 'cmp', 'ne', 'unzip', 'partition'):
            if m in ('nth', 'last') and it.op == 'itmap':
                # the same as mapping the item that is picked
                q = app('it.' + m, it.a[0], *[s.val(st, a) for a in args[1:]]); none = st.copy(); out = []
                s.setvars(none, q, frozenset([0])); s.setvars(st, q, frozenset([1]))
                for b, v in run_closure(s, st, fr, t, it.a[1], [fld(q, 1, 0, 1)], ctx, site): out.append((b, opt_some(rty, v)))
                return out + [(none, opt_none(rty))]
            r = app('it.' + m, it, *[s.val(st, a) for a in args[1:]])
            if m == 'nth' and it.op == 'it':
                if base.op == 'app' and base.a[0] == 'ancestors' and V(1).op == 'int':
                    # the directory itself, its parent, ..
                    k = V(1).a[0]
                    if k == 0: return one(opt_some(rty, base.a[1]))
                    if k == 1: return one(s.typed(app('parent', base.a[1]), rty))
                if base.op == 'app' and base.a[0] == 'collect' or base.op in ('array', 'fld', 'sym'): r = app('get', base, V(1))
            return one(s.typed(r, rty))

    # ---- mem
    if decl.startswith('std::mem::') or dn.startswith('mem::'):
        if m == 'take' and a0.op == 'mref':
            v = V(0); n = s.peel(s.dest_ty(fr, t))
            d = default_of(s, n)
            s.set(st, a0.a[0], list(a0.a[1]), d)
            if a0.a[0][0] != 'L': st.event('store', a0.a[0], tuple(a0.a[1]), d)
            return one(v)
        if m == 'replace' and a0.op == 'mref':
            v = V(0); s.set(st, a0.a[0], list(a0.a[1]), V(1))
            if a0.a[0][0] != 'L': st.event('store', a0.a[0], tuple(a0.a[1]), V(1))
            return one(v)
        if m == 'swap' and a0.op == 'mref' and args[1].op == 'mref':
            v, w = V(0), V(1); s.set(st, a0.a[0], list(a0.a[1]), w); s.set(st, args[1].a[0], list(args[1].a[1]), v); return one(UNIT)
        if m == 'drop':
            s.release(st, [V(0)]); return one(UNIT)
        if m == 'forget': return one(UNIT)
    if dn == 'Default::default' and not (inst and inst['local']) and rty is not None:
        return one(default_of(s, s.peel(rty)))
    if dn == 'Fn::call' : return None
    if lty == 'ManuallyDrop' : return one(V(0))
    # ---- pure functions without effects
    if m in ('value', 'value_mut') and (inst and 'mapref' in inst['def'] or 'mapref' in dn): return one(V(0))
    if m in ('value', 'start', 'end', 'leftmost_find_iter', 'is_match'):
        vs = [s.val(st, a) for a in args]
        r = app(f"{recv(dn).split('::')[-1]}::{m}", *vs)
        if m == 'leftmost_find_iter': return one(mk('it', r))
        return one(s.typed(r, rty))
    if m == 'contains' and 'phf' in dn or recv(dn) == 'Set' and m == 'contains':
        return one(app('has', V(0), V(1)))
    if dn == 'serde_json::from_str' or name == 'serde_json::from_str' : return one(s.typed(app('json', V(0)), rty))
    if m == 'parse_to_serde_value': return one(s.typed(app('jsonc', V(0)), rty))
    return None

def bounds_of(s, x, r):
    n = s.types[r.a[0]]['name'].split('::')[-1] if r.op == 'agg' else None
    if n == 'RangeFull': return I(0), s.len(x)
    if n == 'Range': return r.a[2], r.a[3]
    if n == 'RangeFrom': return r.a[2], s.len(x)
    if n == 'RangeTo': return I(0), r.a[2]
    return None
def partial(s, st, fr, t, lty, m, dn, crate, args, V):
    """library functions that panic outside their domain: an obligation at the call"""
    what = None; x = V(0) if args else None
    if lty in ('String', 'str') and len(args) > 1:
        if m in ('split_at', 'split_off', 'insert', 'insert_str'): what = boundary(s, st, x, V(1)) and s.prove(st, V(1), s.len(x))
        elif m == 'remove': what = boundary(s, st, x, V(1)) and s.prove(st, V(1), s.len(x), 1)
        elif m == 'truncate': what = boundary(s, st, x, V(1)) or s.prove(st, s.len(x), V(1))
        elif m in ('drain', 'replace_range'):
            b = bounds_of(s, x, V(1)); what = b is not None and boundary(s, st, x, b[0]) and boundary(s, st, x, b[1]) and s.prove(st, b[0], b[1]) and s.prove(st, b[1], s.len(x))
        small = V(1)
    elif lty in ('Vec', 'slice', 'array', 'VecDeque') and len(args) > 1:
        if m in ('remove', 'swap_remove') and lty != 'VecDeque': what = s.prove(st, V(1), s.len(x), 1)
        elif m in ('insert', 'split_off', 'split_at', 'split_at_mut', 'rotate_left', 'rotate_right'): what = s.prove(st, V(1), s.len(x))
        elif m == 'swap': what = s.prove(st, V(1), s.len(x), 1) and s.prove(st, V(2), s.len(x), 1)
        elif m in ('chunks', 'windows', 'chunks_exact', 'rchunks'): what = s.prove(st, I(1), V(1))
        elif m == 'drain':
            b = bounds_of(s, x, V(1)); what = b is not None and s.prove(st, b[0], b[1]) and s.prove(st, b[1], s.len(x))
        small = V(1)
    elif lty == 'Value' and dn == 'IndexMut::index_mut' or dn == 'IndexMut::index_mut' and lty in ('IndexMap', 'HashMap', 'Map', 'BTreeMap'):
        if lty == 'Value':
            obj = s.truth(st, app('is_object', x)) is True or s.variants(st, x) == frozenset([5]) or s.variants(st, app('as_object', x)) == frozenset([1])
            what = obj and V(1).op != 'int'
        else: what = s.truth(st, app('map.contains', x, V(1))) is True
        small = None
    elif lty in ('RefCell',) and m in ('borrow', 'borrow_mut'): what = False; small = None
    elif lty in ('Duration', 'SystemTime', 'Instant') and dn in ('Sub::sub', 'SubAssign::sub_assign', 'Add::add') or lty in ('SystemTime', 'Instant') and m in ('sub',): what = lty == 'Instant' and dn == 'Sub::sub'; small = None
    elif dn == 'Iterator::step_by': what = s.prove(st, I(1), V(1)); small = None
    if what is None: return
    s.oblige(fr, t, 'call:' + m, bool(what), tuple(V(i) for i in range(len(args))))
    if not what:
        if small is not None: s.unproved(st, small, s.len(x), 0)
        s.panic(st, fr, t, 'call:' + m, tuple(V(i) for i in range(len(args))))

def default_of(s, n):
    t = s.types[n]; nm = s.tname(n)
    if nm in ('String', 'str', 'PathBuf', 'SmolStr', 'OsString'): return S('')
    if nm == 'Vec': return mk('array')
    if nm == 'Option': return agg(n, 0, [])
    if nm in ('HashMap', 'IndexMap', 'HashSet', 'BTreeMap', 'Map'): return app('map.new')
    if nm in ('DashMap',): return app('dm.new')
    if t.get('k') == 'bool': return FALSE
    if t.get('k') in ('int', 'uint'): return I(0)
    if nm in ('Arc', 'Box', 'Rc') and t.get('args'): return default_of(s, t['args'][0])
    return app('default', S(t['s']))

def cmp_key(s, st, fr, t, args, x, ctx, site):
    """how a sort compares: the closure's result with the two elements named"""
    if len(args) < 2: return S('natural')
    c = s.val(st, args[1])
    if c.op != 'clo': return app('key', c)
    n = s.insts[c.a[0]]['body']['argc'] - 1
    xs = [sym(f'$x{i}') for i in range(n)]
    for i, e in enumerate(xs): s.typed(e, s.insts[c.a[0]]['body']['locals'][i + 2][0])
    outs = s.call_value(st.copy(), fr, t, c, xs, ctx, site)
    return app('key', *[v for _, v in outs])

def collect(s, st, fr, t, it, base, args, ctx, site, rty, m):
    n = s.peel(rty) if m != 'extend' else None
    nm = s.tname(n) if n is not None else ''
    inner = nm; okvar = None
    if nm in ('Result', 'Option'):
        okvar = s.variant(n, 'Ok' if nm == 'Result' else 'Some'); inner = s.tname(s.peel(s.types[n]['args'][0]))
    if it.op == 'it' and inner in ('String', 'Vec', 'PathBuf') :
        if base.op == 'app' and base.a[0] == 'chars':
            return [(st, base.a[1] if inner == 'String' else app('charlist', base.a[1]))]
        if base.op == 'app' and base.a[0] == 'components' and inner == 'PathBuf': return [(st, app('components_of', base.a[1]))]
    if inner == 'String' and it.op == 'it' and base.op == 'app' and base.a[0] == 'charlist': return [(st, base.a[1])]
    if inner == 'String' and it.op == 'it': return [(st, app('string_of', base))]
    if it.op == 'it' and okvar is None and inner in ('Vec',) and m == 'collect': return [(st, base if base.op != 'app' or base.a[0] not in ('keys', 'values', 'range') else app('list', base))]
    none, vs = hof_enter(s, st, fr, ctx, it)
    outs = []; vals = []
    for a, e in iter_elem(s, st, fr, t, it, ctx, site):
        a.event('elem', base, e, fr.name, it)
        if okvar is not None:
            sp = split_variants(s, a, e)
            if sp is None: vals.append(e); hof_back(s, a, fr, ctx, 'collect', vs); continue
            for b, w in sp:
                if w == okvar:
                    vals.append(fld(e, okvar, 0, 1)); hof_back(s, b, fr, ctx, 'collect', vs)
                elif nm == 'Result': outs.append((b, agg(n, w, [fld(e, w, 0, 1)])))
                else: outs.append((b, agg(n, w, [])))
        else:
            vals.append(byteplace(a, st, e)); hof_back(s, a, fr, ctx, 'collect', vs)
    uniq = []
    for v in vals:
        if v not in uniq: uniq.append(v)
    none.event('exhausted', base, fr.name)
    lst = app('collect', mk('sym', inner), mk('src', it), *uniq)
    st_none = none
    if m == 'extend':
        a0 = args[0]
        if a0.op == 'mref':
            x = s.val(none, a0); s.set(none, a0.a[0], list(a0.a[1]), app('extended', x, lst))
        return outs + [(none, UNIT)]
    none.event('collect', lst, it, fr.name)
    if okvar is not None: return outs + [(none, agg(n, okvar, [lst]))]
    return outs + [(none, lst)]
