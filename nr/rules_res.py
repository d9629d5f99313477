"""Rules about what a resolution answers."""
from base import *
from rules_flow import facts

CLEAR = {'ret', 'concat', 'join', 'dm.get'}
def murky(ctx, t):
    """built by something the analysis does not look into"""
    for x in subterms(t):
        if x.op in ('phi', 'bad') or x.op == 'sym' and x.a[0].startswith('uninit'): return True
        if x.op == 'app':
            f = x.a[0]
            if '::' in f or f in ('hof', 'reccall', 'closure', 'indirect', 'find', 'position', 'try_fold'): return True
            if f == 'ret' and x.a[1] not in ctx.A.units: return True
    return False
def on(ctx, tr): return f'when {facts(ctx, tr, 8)}'
def success_infos(ctx, tr):
    """answers built on this path: the info of a returned Success(Info(..))"""
    v = tr.ret
    b = ctx.stats(v)
    if b is not None:
        if b[0] != SUCCESS: return []
        v = b[1]
    k = ctx.built(v, 'ResolveResult')
    return [k[1][0]] if k and k[0] == 'Info' and len(k[1]) else []
def built_result(ctx, tr):
    v = tr.ret
    if v.op == 'agg' and tybase(ctx.types[v.a[0]]['name']) == 'Result' and v.a[1] == 0: return v.a[2]
    return None
def info_of(ctx, v):
    k = ctx.built(v, 'ResolveResult')
    return k[1][0] if k and k[0] == 'Info' else None
def from_callee(ctx, x):
    """x = ret(V, ..)@Success.0@Info.0 -> the ret"""
    if x.op == 'fld' and x.a[2] == 0 and x.a[0].op == 'fld' and x.a[0].a[2] == 0 and isret(x.a[0].a[0]):
        r = x.a[0].a[0]
        if x.a[0].a[1] == ctx.vidx('ResolverStats', SUCCESS) and x.a[1] == ctx.vidx('ResolveResult', 'Info'): return r
    return None
def source_path(ctx, p):
    """the path before canonicalising or normalising"""
    while True:
        if p.op == 'fld' and p.a[2] == 0 and p.a[0].op == 'app' and p.a[0].a[0] == 'canonicalize': p = p.a[0].a[1]
        elif isret(p, r'.*normalize_path_without_link'): p = p.a[2]
        else: return p
def fold_source(ctx, p):
    """the path a lexical normalisation goes through"""
    for x in subterms(p):
        if x.op == 'phi': return True
    return False

# ---------------------------------------------------------------- C05
def c05(ctx, r):
    """Every construction of an answer (Success(Info(..)) in a resolution step, Ok(Info(..)) in the public entry) on every path: the facts of the path contain is_file of that very path value, and the remaining target is empty. A callee's answer is used with what all its returns guarantee."""
    for n in ctx.result_units():
        u = ctx.unit(n, r)
        for tr in ctx.rets(u):
            for x in success_infos(ctx, tr): check_answer(ctx, r, n, tr, x)
    u = ctx.unit('Resolver::resolve', r)
    if u:
        for tr in ctx.rets(u):
            v = built_result(ctx, tr); x = info_of(ctx, v) if v is not None else None
            if x is not None: check_answer(ctx, r, 'Resolver::resolve', tr, x)
def check_answer(ctx, r, n, tr, x):
    p = source_path(ctx, ctx.path(x)); r.ob('answer'); r.site(f'{n}: answer')
    if ctx.truth(tr, app('is_file', p)) is not True:
        if murky(ctx, p): r.note(f'{n}: {short(p)} is not followed')
        else: r.bad(f'{n} not a file', f'{n} answers {short(p)} without having seen that it is a file {on(ctx, tr)}')
    t = ctx.target(x)
    if ctx.truth(tr, EQ(t, S(''))) is not True:
        if murky(ctx, t): r.note(f'{n}: {short(t)} is not followed')
        else: r.bad(f'{n} target left', f'{n} answers with the target {short(t)} left {on(ctx, tr)}')

# ---------------------------------------------------------------- C06
def c06(ctx, r):
    """In the public entry, every path on which Ok(Info(..)) is returned: with options.symlinks known true the path is canonicalize(found)'s Ok value, with it known false the lexical normalisation of the found path; found is the path of the answer of the resolution. Every canonicalize/read_link query in the crate happens under symlinks = true. The lexical normalisation is checked arm by arm: a normal component, prefix and root are appended, '.' changes nothing, '..' removes the last."""
    u = ctx.unit('Resolver::resolve', r)
    if u:
        S_ = ctx.self_(u); on_ = ctx.opt(S_, 'symlinks')
        for tr in ctx.rets(u):
            v = built_result(ctx, tr); x = info_of(ctx, v) if v is not None else None
            if v is not None and x is None and ctx.built(v, 'ResolveResult') is None:
                ret = [y for y in rets_in(v)]
                if v.op == 'fld' and ctx.may(tr, v, 'Info'): r.bad('Resolver::resolve unadjusted', f'the answer of {short(v)} is returned without regard to the symlinks option {on(ctx, tr)}')
                continue
            if x is None: continue
            r.ob('answered path'); r.site('Resolver::resolve: answer')
            p = ctx.path(x); sl = ctx.truth(tr, on_)
            if p.op == 'fld' and p.a[2] == 0 and p.a[0].op == 'app' and p.a[0].a[0] == 'canonicalize':
                if sl is not True: r.bad('Resolver::resolve canonicalize', f'the path is canonicalised although symlinks is {"off" if sl is False else "not asked for"} {on(ctx, tr)}')
                q = p.a[0].a[1]
            elif isret(p, r'.*normalize_path_without_link') or p.op == 'phi':
                if sl is not False: r.bad('Resolver::resolve lexical', f'the path is only normalised lexically although symlinks is {"on" if sl else "not asked for"} {on(ctx, tr)}')
                q = p.a[2] if p.op == 'app' else None
            else:
                if murky(ctx, p): r.note(f'Resolver::resolve: {short(p)} is not followed')
                else: r.bad('Resolver::resolve shape', f'the answered path {short(p)} is neither the canonical nor the lexically normalised path {on(ctx, tr)}')
                q = None
            if q is not None and not (q.op == 'fld' and from_callee(ctx, q.a[0]) is not None and ctx.path(q.a[0]) is q):
                if not murky(ctx, q): r.bad('Resolver::resolve other path', f'the answered path is made of {short(q)}, not of the path that was found {on(ctx, tr)}')
    for n, u in ctx.A.units.items():
        S_ = ctx.self_(u)
        for tr in u.traces:
            for ev in tr.events():
                if ev[0] == 'fs' and ev[1] in ('canonicalize', 'read_link'):
                    r.ob('link query'); r.site(f'{ev[3]}: {ev[1]}')
                    ok = any(v and f.op == 'fld' and f.a[2] == ctx.fidx('ResolverOptions', 'symlinks') and is_opts(ctx, f.a[0]) for f, v in tr.facts.items())
                    if not ok: r.bad(f'{ev[3]} {ev[1]}', f'{ev[3]} calls {ev[1]} on {short(ev[2])} without the symlinks option being on {on(ctx, tr)}')
            if tr.kind == 'back': fold_arm(ctx, r, n, tr)
def is_opts(ctx, t):
    n = ty_of(t)
    return n is not None and tybase(ctx.types[n].get('name') or '') == 'ResolverOptions' or t.op == 'fld' and t.a[2] == ctx.fidx('Resolver', 'options')
def fold_arm(ctx, r, n, tr):
    """one component of a lexical normalisation"""
    comps = [t for t in tr.vars if t.op == 'elem' and t.a[0].op == 'app' and t.a[0].a[0] == 'components']
    for e in comps:
        kind = ctx.vname(tr, e)
        for ph, v in tr.info['phi'].items():
            if v.op not in ('app', 'phi') or v.op == 'app' and v.a[0] not in ('join', 'popped', 'pushed'): continue
            if not contains(v, ph): continue
            if v is ph and kind in ('CurDir', 'ParentDir', 'Normal', 'RootDir', 'Prefix') or v.op == 'app':
                if ph.a and v is ph and not any(w.op == 'app' and w.a[0] in ('join', 'popped', 'pushed') for w in other(ctx, n, ph)): continue
                r.ob('component'); r.site(f'{n}: {kind}')
                if kind == 'CurDir' and v is not ph: r.bad(f'{n} CurDir', f'{n}: a "." component changes the path to {short(v)}')
                elif kind == 'ParentDir' and not (v.op == 'app' and v.a[0] == 'popped' and v.a[1] is ph):
                    if not murky(ctx, v) or v is ph or v.a[0] in ('join', 'pushed'): r.bad(f'{n} ParentDir', f'{n}: a ".." component does not remove the last one: {short(v)}')
                elif kind == 'Normal' and not (v.op == 'app' and v.a[0] in ('join', 'pushed') and v.a[1] is ph and contains(v.a[2], e)): r.bad(f'{n} Normal', f'{n}: a normal component is not appended: {short(v)}')
                elif kind in ('RootDir', 'Prefix') and v is ph: r.bad(f'{n} {kind}', f'{n}: a {kind} component is dropped')
def other(ctx, n, ph):
    return [tr.info['phi'][ph] for tr in ctx.A.units[n].traces if tr.kind == 'back' and ph in tr.info['phi']]

# ---------------------------------------------------------------- C07
def handed_on(ctx, u, tr):
    """infos that leave this unit: what it answers and what it calls others with"""
    v = tr.ret
    if v is not None:
        b = ctx.stats(v)
        if b and b[0] == RESOLVING: yield 'answer', b[1]
        for x in success_infos(ctx, tr): yield 'answer', x
    for ev in ctx.calls(tr):
        V = ctx.A.units.get(ev[1])
        if V is None or ctx.ret_ty(V) != 'ResolverStats': continue
        Q = ctx.info(V)
        for i, p in enumerate(V.params):
            if p is Q and i < len(ev[2]): yield ev[1], ev[2][i]
def parsed(ctx, t):
    """t = ret(Resolver::parse, self, text).field -> the ret"""
    return t.a[0] if t.op == 'fld' and isret(t.a[0], r'Resolver::parse') else None
def callee_arg(ctx, x):
    """x = ret(V, .., A, ..)@Resolving.0 or @Success.0@Info.0 -> A"""
    K = keeps(ctx)
    k = from_callee(ctx, x)
    b = k
    if b is None and x.op == 'fld' and x.a[2] == 0 and isret(x.a[0]) and x.a[1] == ctx.vidx('ResolverStats', RESOLVING): b = x.a[0]
    if b is None or b.a[1] not in ctx.A.units: return None
    V = ctx.A.units[b.a[1]]; Q = ctx.info(V)
    if Q is None or ctx.ret_ty(V) != 'ResolverStats': return None
    return b.a[2 + V.params.index(Q)]
def c07(ctx, r):
    """Query and fragment of every request that a resolution step answers or hands to another step, on every path: each must be the same field of the incoming request (through callees, by induction), or come from one parsed replacement that an exports/imports field supplied, where the replacement either carries the incoming query and fragment inside it, or supplied a query or fragment itself, or there is none to carry. The public entry parses the request it is given and keeps what the resolution answered; joining an answer yields path, query, fragment in this order."""
    for n in ctx.result_units():
        u = ctx.unit(n, r); P = ctx.info(u)
        if P is None: continue
        seen = set()
        for tr in u.traces:
            for what, x in handed_on(ctx, u, tr):
                if (x, tr.kind) in seen and not rets_in(x, r'Resolver::parse'): continue
                seen.add((x, tr.kind)); r.ob('request'); r.site(f'{n} -> {what}')
                qf(ctx, r, n, tr, P, x, what)
    u = ctx.unit('Resolver::resolve', r)
    if u:
        s = ctx.param(u, 'str')
        for tr in ctx.rets(u):
            for ev in ctx.calls(tr):
                V = ctx.A.units.get(ev[1])
                if V is None or ctx.ret_ty(V) != 'ResolverStats' or ctx.info(V) is None: continue
                x = ev[2][V.params.index(ctx.info(V))]; q = ctx.req(x)
                r.ob('entry')
                if not (isret(q, r'Resolver::parse') and q.a[-1] is s) and not murky(ctx, q):
                    for f in ('query', 'fragment'):
                        w = ctx.F(q, 'Request', f); b = w.a[0] if w.op == 'fld' else None
                        if not (b is not None and isret(b, r'Resolver::parse') and b.a[-1] is s and ctx.F(b, 'Request', f) is w): r.bad(f'Resolver::resolve {f}', f'the resolution starts with the {f} {short(w)}, which is not that of the request')
            v = built_result(ctx, tr); x = info_of(ctx, v) if v is not None else None
            if x is not None:
                for f in ('query', 'fragment'):
                    w = ctx.F(ctx.req(x), 'Request', f); r.ob('answer')
                    src = w.a[0].a[0] if w.op == 'fld' and w.a[0].op == 'fld' else None
                    if src is None or from_callee(ctx, src) is None or ctx.F(ctx.req(src), 'Request', f) is not w:
                        if not murky(ctx, w): r.bad(f'Resolver::resolve answer {f}', f'the {f} of the answer is {short(w)} {on(ctx, tr)}')
    # join
    for i in ctx.local:
        if ctx.e.sname[i['id']] == 'ResolveInfo::join':
            try: u = ctx.e.run_unit(i, 'ResolveInfo::join')
            except Exception as ex: r.note(f'join: {ex}'); break
            r.fn('ResolveInfo::join')
            for tr in ctx.rets(u):
                P = u.params[0]; r.ob('join')
                want = concat([ctx.path(P), ctx.query(P), ctx.fragment(P)])
                if tr.ret is not want and not murky(ctx, tr.ret): r.bad('ResolveInfo::join', f'joining an answer yields {short(tr.ret)} {on(ctx, tr)}')
def qf(ctx, r, n, tr, P, x, what, d=0):
    if d > 20: return
    for f, get in (('query', ctx.query), ('fragment', ctx.fragment)):
        t = get(x); p0 = get(P)
        o = keeps(ctx).origin(t)
        if o is p0:
            # kept; a replacement that supplied its own must not be overruled
            rp = parsed(ctx, ctx.target(x))
            if rp is not None and from_field(rp):
                own = ctx.truth(tr, EQ(get2(ctx, rp, f), S('')))
                if own is not True: r.bad(f'{n} {f} overruled', f'{n} hands to {what} the {f} of the request although the replacement {short(rp)} may have its own {on(ctx, tr)}')
            continue
        # field of another info
        src = o.a[0].a[0] if o.op == 'fld' and o.a[0].op == 'fld' else None
        if src is not None and get(src) is o:
            a = callee_arg(ctx, src)
            if a is not None: qf(ctx, r, n, tr, P, a, what, d + 1); continue
        rp = parsed(ctx, o)
        if rp is not None and get2(ctx, rp, f) is o and from_field(rp):
            if ctx.truth(tr, EQ(p0, S(''))) is True: continue
            if any(ctx.truth(tr, EQ(get2(ctx, rp, g), S(''))) is False for g in ('query', 'fragment')): continue
            if any(carries(ctx, c.a, P) for c in rets_in(rp, r'.*::field_process')): continue
            r.bad(f'{n} {f} lost', f'{n} hands to {what} the {f} of the replacement {short(rp)}, which may be empty while the request has one {on(ctx, tr)}'); continue
        if ctx.truth(tr, EQ(o, p0)) is True: continue
        if murky(ctx, o) and not (rp is not None): r.note(f'{n}: {short(o)} is not followed'); continue
        r.bad(f'{n} {f}', f'{n} hands to {what} the {f} {short(o)} instead of that of the request {on(ctx, tr)}')
def get2(ctx, req, f): return ctx.F(req, 'Request', f)
def from_field(t): return hasret(t, r'.*::field_process')
def carries(ctx, args, P):
    """the text a field is asked for ends in the query and then the fragment"""
    for a in args:
        if isinstance(a, T) and a.op == 'app' and a.a[0] == 'concat':
            ps = list(a.a[1:])
            if len(ps) >= 2 and ps[-2] is ctx.query(P) and ps[-1] is ctx.fragment(P): return True
    return False

# ---------------------------------------------------------------- C08
def pkg_of(ctx, tree):
    """X.exports_field_tree@Some.0 -> X"""
    t = tree
    while t.op == 'fld' and t.a[0].op == 'fld' and t.a[2] == 0 and t.a[1] is not None: t = t.a[0]
    if t.op == 'fld':
        for f in ('exports_field_tree', 'imports_field_tree'):
            if ctx.F(t.a[0], 'PkgFileInfo', f) is t: return t.a[0]
    return None
def seen_file(ctx, tr, path, target):
    if ctx.truth(tr, app('is_file', app('join', path, target))) is True: return True
    return (ctx.truth(tr, EQ(target, S(''))) is True or ctx.truth(tr, EQ(target, S('.'))) is True) and ctx.truth(tr, app('is_file', path)) is True
def c08(ctx, r):
    """Every request built from a target that an exports/imports field chose, on every path of every step: if it is handed on to the file lookup, the facts of the path contain is_file of package directory + target and a true check_target(target); a bare target may be handed to a package lookup in the package's own node_modules. The directory is that of the description whose field tree was asked. check_target is verified as a counter over the segments: an absolute target is refused; a segment that may be '..' decreases the counter and the result is refused below zero; only a segment known not to be '..', '.' or empty increases it, by one."""
    have = any(re.fullmatch(r'.*::check_target', n) and ctx.ret_ty(u) is None for n, u in ctx.A.units.items())
    for n in ctx.result_units():
        u = ctx.unit(n, r); P = ctx.info(u)
        for tr in u.traces:
            for what, x in handed_on(ctx, u, tr):
                t = ctx.target(x)
                fps = [c for c in rets_in(t, r'.*::field_process')]
                if not fps or any(True for c in rets_in(t) if c.a[1] in ctx.result_units()): continue
                if what in ('answer',) or True:
                    r.ob('mapped target'); r.site(f'{n} -> {what}')
                    p = ctx.path(x); kind = ctx.vname(tr, ctx.kind(x))
                    pkgs = [pkg_of(ctx, a) for c in fps for a in c.a[2:] if isinstance(a, T)]; pkgs = [k for k in pkgs if k is not None]
                    base = [ctx.F(k, 'PkgFileInfo', 'abs_dir_path') for k in pkgs]
                    imports = any(ctx.F(k, 'PkgFileInfo', 'imports_field_tree') in list(subterms(t)) for k in pkgs)
                    bare = kind == 'Normal' and imports
                    if bare:
                        if base and not any(p is app('join', b, S('node_modules')) for b in base) and not murky(ctx, p): r.bad(f'{n} directory', f'{n} looks the bare target {short(t)} up in {short(p)}, not in the node_modules of its package {on(ctx, tr)}')
                        continue
                    if base and not any(p is b for b in base):
                        if not murky(ctx, p): r.bad(f'{n} directory', f'{n} takes the target {short(t)} relative to {short(p)}, which is not the directory of the package whose field was read {on(ctx, tr)}')
                    if what != 'answer' and re.fullmatch(r'(Imports|Exports)FieldPlugin::apply', what) and kind in ('Internal', 'Normal'): continue
                    if not seen_file(ctx, tr, p, t): r.bad(f'{n} not a file', f'{n} follows the mapped target {short(t)} without having seen a file there {on(ctx, tr)}')
                    if have and not any(v and isret(f, r'.*::check_target') and t in f.a for f, v in tr.facts.items()): r.bad(f'{n} unchecked', f'{n} follows the mapped target {short(t)} without checking that it stays inside the package {on(ctx, tr)}')
    for n, u in ctx.A.units.items():
        if re.fullmatch(r'.*::check_target', n) and ctx.ret_ty(u) is None: climb(ctx, r, n, u)
def climb(ctx, r, n, u):
    ctx.unit(n, r); a = u.params[0]
    for tr in ctx.rets(u):
        if tr.ret is TRUE or tr.ret.op not in ('bool',):
            r.ob('accepted target')
            abs_ = [f for f in tr.facts if mentions_first(f, a)]
            refused = ctx.truth(tr, app('starts_with', a, S('/'))) is False or ctx.truth(tr, app('is_absolute', a)) is False or ctx.truth(tr, app('has_root', a)) is False
            if not refused and not abs_ and tr.ret is TRUE: r.bad(f'{n} absolute', f'{n} accepts an absolute target {on(ctx, tr)}')
    back = [tr for tr in u.traces if tr.kind == 'back']
    D = set()
    for tr in back:
        for ph, v in tr.info['phi'].items():
            b, k = ctx.e.lin(v) if v.op in ('app', 'phi') else (None, 0)
            if b is ph and k < 0: D.add(ph)
    if not D: r.note(f'{n} does not count segments'); return
    for ph in D:
        inits = {i for tr in u.traces for ev in tr.events() if ev[0] == 'loop' for p, i in ev[2] if p is ph}
        for i in inits:
            if i is not None and not (i.op == 'int' and i.a[0] <= 0): r.bad(f'{n} start', f'{n} starts counting at {short(i)}')
    for tr in back:
        for ph in D:
            if ph not in tr.info['phi']: d = 0; v = ph
            else:
                v = tr.info['phi'][ph]; b, d = ctx.e.lin(v)
                if b is not ph: r.note(f'{n}: {short(v)} is not followed'); continue
            r.ob('segment'); r.site(f'{n}: segment {d:+d}')
            up, cur, empty = segment(ctx, tr, a)
            if up is None: r.note(f'{n}: the segment is not recognised'); continue
            if d > 0:
                if d > 1: r.bad(f'{n} counts', f'{n} counts a segment {d} times')
                if up is not False: r.bad(f'{n} up counted', f'{n} counts a segment that may be ".." as a folder {on(ctx, tr)}')
                if cur is not False: r.bad(f'{n} dot counted', f'{n} counts a segment that may be "." as a folder {on(ctx, tr)}')
                if empty is not False: r.bad(f'{n} empty counted', f'{n} counts a segment that may be empty as a folder {on(ctx, tr)}')
            elif d == 0 and up is not False: r.bad(f'{n} up ignored', f'{n} passes over a segment that may be ".." {on(ctx, tr)}')
            elif d < 0 and not (ctx.e.prove_le(ctx.st(tr), I(0), v) or ctx.truth(tr, EQ(ph, I(0))) is False):
                r.bad(f'{n} below zero', f'{n} goes on below its package {on(ctx, tr)}')
def mentions_first(f, a):
    return any(x.op == 'app' and x.a[0] in ('at', 'first', 'strip_prefix', 'components', 'split', 'charpred', 'get') for x in subterms(f)) and contains(f, a) and not any(isret(x) for x in subterms(f))
def segment(ctx, tr, a):
    """what is known of the segment of this turn: may be '..', '.', '' (True/False/'maybe'), or (None, ..) if it is not recognised"""
    # an element of a split
    for f in list(tr.facts):
        for x in subterms(f):
            if x.op == 'elem' and x.a[0].op == 'app' and x.a[0].a[0] in ('split', 'components') and contains(x.a[0], a):
                if x.a[0].a[0] == 'components':
                    k = ctx.vname(tr, x)
                    if k is None: continue
                    return k == 'ParentDir', k == 'CurDir', False
                g = lambda s: ctx.truth(tr, EQ(x, S(s)))
                m = lambda b: 'maybe' if b is None else b
                return m(g('..')), m(g('.')), m(g(''))
    # characters by index
    idx = set()
    for f in list(tr.facts):
        for x in subterms(f):
            if x.op == 'app' and x.a[0] == 'at' and contains(x.a[1], a):
                b, k = ctx.e.lin(x.a[2])
                if b is not None and b.op == 'phi' and x.a[1].op == 'app' and x.a[1].a[0] == 'charlist': idx.add((b, x.a[1]))
    if len(idx) == 1:
        i, c = next(iter(idx))
        dot = lambda k: ctx.truth(tr, EQ(S('.'), app('at', c, i if k == 0 else app('add', i, I(k)))))
        d0, d1 = dot(0), dot(1)
        emp = None
        for f, v in tr.facts.items():
            if f.op == 'app' and f.a[0] == 'eq' and i in f.a[1:] and any(y is not i and contains(y, i) for y in f.a[1:]): emp = v
            if f.op == 'app' and f.a[0] == 'eq' and app('at', c, i) in f.a[1:] and S('/') in f.a[1:]: emp = v
        if emp is True: return False, False, True
        if d0 is False: return False, False, 'maybe' if emp is None else emp
        up = d0 and d1 if d0 is not None and d1 is not None else 'maybe'
        return up, ('maybe' if up is not True else False), False if d0 else 'maybe'
    return None, None, None

# ---------------------------------------------------------------- C09
def c09(ctx, r):
    """In every step that asks an exports or imports field: after the field was asked no path answers Resolving with the target it came with, nor an error that means 'not found here'; before it was asked, a bare request leaves the step unchanged only if there is no description, no such field, or the description is known to be neither in node_modules nor the package itself. Every caller of such a step returns its errors, except the marker. The lookup in node_modules reaches the file layout of an existing package only with what the exports step let through."""
    EXP = r'ExportsFieldPlugin::apply'
    for n in ctx.result_units():
        u = ctx.unit(n, r); P = ctx.info(u)
        if P is None: continue
        for tr in ctx.rets(u):
            asked = ctx.calls(tr, r'.*::field_process')
            b = ctx.stats(tr.ret)
            if asked and b:
                r.ob('field asked'); r.site(f'{n}: field')
                if b[0] == RESOLVING and keeps(ctx).origin(ctx.target(b[1])) is ctx.target(P):
                    r.bad(f'{n} falls through', f'{n} goes on with the unmapped request after the field was asked {on(ctx, tr)}')
                if b[0] == ERROR:
                    msg = fld(b[1], None, 0)
                    if ctx.truth(tr, EQ(msg, S('T0'))) is True: r.bad(f'{n} error lost', f'{n} answers "not found here" after the field was asked {on(ctx, tr)}')
            if re.fullmatch(EXP, n) and b and b[0] == RESOLVING and not asked and keeps(ctx).origin(ctx.target(b[1])) is ctx.target(P):
                r.ob('exports not asked'); gate9(ctx, r, n, u, tr, P)
            # callers
            for ev in ctx.calls(tr, r'(Exports|Imports)FieldPlugin::apply'):
                res = ev[3]
                if res is None or ctx.vname(tr, res) != ERROR: continue
                V = ctx.A.units[ev[1]]; Q = ev[2][V.params.index(ctx.info(V))]
                t = ctx.target(Q)
                if ctx.truth(tr, app('starts_with', t, S('./'))) is True or ctx.truth(tr, EQ(ctx.target(Q), S(''))) is True: continue
                r.ob('error of a field'); r.site(f'{n}: {ev[1]}')
                msg = fld(fld(res, ctx.vidx('ResolverStats', ERROR), 0), None, 0)
                if ctx.truth(tr, EQ(msg, S('T0'))) is True: continue
                if tr.ret is res: continue
                if b and b[0] == ERROR and contains(fld(b[1], None, 0), msg): continue
                if b and b[0] == ERROR and fld(b[1], None, 0) is msg: continue
                if ctx.truth(tr, EQ(msg, S('T0'))) is None and b and b[0] == ERROR and ctx.truth(tr, EQ(fld(b[1], None, 0), S('T0'))) is not True and murky(ctx, fld(b[1], None, 0)): continue
                r.bad(f'{n} swallows {ev[1]}', f'{n} does not report the error of {ev[1]} but answers {short(tr.ret)} {on(ctx, tr)}')
    n = 'Resolver::resolve_as_modules'
    u = ctx.unit(n, r)
    if u and 'ExportsFieldPlugin::apply' in ctx.A.units and 'Resolver::resolve_as_file' in ctx.A.units:
        V = ctx.A.units['Resolver::resolve_as_file']
        for tr in u.traces:
            for ev in ctx.calls(tr, r'Resolver::resolve_as_(file|dir)'):
                V = ctx.A.units[ev[1]]
                x = ev[2][V.params.index(ctx.info(V))]
                r.ob('file layout'); r.site(f'{n}: {ev[1]}')
                if through(ctx, x, EXP): continue
                missing = any(not v and f.op == 'app' and f.a[0] == 'is_dir' and contains(f, S('node_modules')) and f.a[1].op == 'app' and f.a[1].a[0] == 'join' and f.a[1].a[1].op == 'app' and f.a[1].a[1].a[0] == 'join' for f, v in tr.facts.items())
                if not missing: r.bad(f'{n} {ev[1]} around exports', f'{n} calls {ev[1]} with a request that the exports field of an existing package was not asked about {on(ctx, tr)}')
                elif any(v and isret(f, r'.*is_resolve_self') for f, v in tr.facts.items()): r.bad(f'{n} {ev[1]} around own exports', f'{n} calls {ev[1]} although the request names the package itself {on(ctx, tr)}')
def through(ctx, x, pat, d=0):
    """x was let through by a step"""
    if d > 20: return False
    # an info rebuilt from parts: follow its path
    if x.op == 'agg': 
        p = ctx.path(x)
        return p.op == 'fld' and through(ctx, p.a[0], pat, d + 1)
    if x.op == 'fld' and isret(x.a[0]):
        if re.fullmatch(pat, x.a[0].a[1]): return True
        a = callee_arg(ctx, x)
        return a is not None and through(ctx, a, pat, d + 1)
    return False
def gate9(ctx, r, n, u, tr, P):
    if not ctx.may(tr, ctx.kind(P), 'Normal') or knows(ctx, tr, EQ(ctx.kind(P), sym('x'))): return
    if ctx.vname(tr, ctx.kind(P)) not in (None, 'Normal'): return
    # no description, or no such field
    for t, vs in tr.vars.items():
        k = ty_of(t)
        if k is not None and tybase(ctx.types[k].get('name') or '') == 'Option' and vs == frozenset([0]):
            if t.op == 'fld' and t.a[2] == ctx.fidx('PkgFileInfo', 'exports_field_tree') or contains(t, u.params[0]) and t.op == 'fld' and t.a[0] is u.params[0]: return
    inm = any(not v and (isret(f, r'.*is_in_module') or f.op == 'app' and f.a[0] == 'contains' and f.a[2] is S('node_modules')) for f, v in tr.facts.items())
    own = any(not v and (isret(f, r'.*is_resolve_self') or f.op == 'app' and f.a[0] in ('starts_with', 'eq') and ctx.target(P) in f.a) for f, v in tr.facts.items())
    noname = any(vs == frozenset([0]) and t.op == 'fld' and t.a[2] == ctx.fidx('PkgFileInfo', 'name') for t, vs in tr.vars.items())
    if inm and (own or noname): return
    r.bad(f'{n} skips the field', f'{n} lets a bare request through without asking the exports field {on(ctx, tr)}')
def knows(ctx, tr, f): return False
