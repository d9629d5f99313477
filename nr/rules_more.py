"""Rules about the order of the resolution steps, options, messages and the data that is read."""
from base import *
from rules_flow import facts
from rules_res import murky, on, success_infos, from_callee, callee_arg, through, built_result, info_of, handed_on

TAG = 'T0'
def err_msg(ctx, v):
    """message of a built Error"""
    b = ctx.stats(v)
    return fld(b[1], None, 0) if b and b[0] == ERROR else None
def parts(t): return list(t.a[1:]) if t.op == 'app' and t.a[0] == 'concat' else [t]
def msg_of_result(ctx, m):
    """m = ret(V, ..)@Error.0.0 -> the ret"""
    x = m
    while x.op == 'fld': x = x.a[0]
    return x if isret(x) and x.a[1] in ctx.A.units and m is not x else None
def never_tag(ctx, tr, m):
    if ctx.truth(tr, EQ(m, S(TAG))) is False: return True
    ps = parts(m)
    return any(p.op == 'str' and len(p.a[0]) > 2 for p in ps) or m.op == 'str' and m.a[0] != TAG

# ---------------------------------------------------------------- C14
def c14(ctx, r):
    """Errors, on every path of every resolution step: (1) the marker 'T0' is followed by a least fixpoint over the steps (built here, or handed on from a callee that can answer with it, without a comparison that excludes it); the public entry must not be in it. (2) A step that knows its callee answered with the marker, or that ends with nothing found, and answers with another error: the message contains target, query and fragment of the request the step was called with, in this order, and its directory. (3) Every error message that a step builds names something of the request. (4) The public entry resolves the given directory and the parsed request, and hands on the messages of the resolution unchanged. (5) Displaying a request writes target, query, fragment."""
    A = ctx.A; K = keeps(ctx)
    RU = [n for n in ctx.result_units()]
    dirty = {}
    def marks(n, u, tr):
        """can this return carry the marker; why"""
        v = tr.ret
        if n in RU:
            b = ctx.stats(v)
            if b is None:
                if isret(v) and v.a[1] in A.units and ctx.may(tr, v, ERROR):
                    m = fld(fld(v, ctx.vidx('ResolverStats', ERROR), 0), None, 0)
                    return (v.a[1] in dirty and not never_tag(ctx, tr, m)) and v.a[1]
                return None
            if b[0] != ERROR: return None
            m = fld(b[1], None, 0)
        else:
            if v.op == 'agg' and tybase(ctx.types[v.a[0]]['name']) == 'Result': 
                if v.a[1] != 1: return None
                m = v.a[2]
            elif isret(v) and v.a[1] in A.units: return v.a[1] if v.a[1] in dirty else None
            else: return None
        if never_tag(ctx, tr, m): return None
        if ctx.truth(tr, EQ(m, S(TAG))) is True: 
            return 'itself'
        src = msg_of_result(ctx, m)
        if src is not None and src.a[1] in dirty: return src.a[1]
        return None
    names = [n for n in A.units if n in RU or n in ('Resolver::resolve', 'Resolver::load_side_effects')]
    ch = True
    while ch:
        ch = False
        for n in names:
            if n in dirty: continue
            for tr in ctx.rets(A.units[n]):
                w = marks(n, A.units[n], tr)
                if w: dirty[n] = (w, tr); ch = True; break
    for n in names: ctx.unit(n, r)
    r.ob('steps that may answer with the marker', len(dirty))
    for n in ('Resolver::resolve', 'Resolver::load_side_effects'):
        if n in dirty:
            chain = [n]
            while dirty.get(chain[-1], ('itself',))[0] not in ('itself', None) and dirty[chain[-1]][0] not in chain: chain.append(dirty[chain[-1]][0])
            r.bad(f'{n} marker', f'the internal marker can reach the caller: {" <- ".join(chain)} {on(ctx, dirty[chain[-1]][1])}')
    # translations
    for n in RU:
        u = A.units[n]; P = ctx.info(u)
        if P is None: continue
        for tr in ctx.rets(u):
            m = err_msg(ctx, tr.ret)
            if m is None: continue
            r.ob('error'); r.site(f'{n}: error')
            src = msg_of_result(ctx, m)
            if src is not None or ctx.truth(tr, EQ(m, S(TAG))) is True: continue
            if n not in ('Resolver::_resolve', 'Resolver::_resolve_with_tsconfig') and failure_of(m): r.bad(f'{n} early', f'{n} fails with the message of a failed resolution, {short(m)}, although the request and the directory it has may not be the given ones {on(ctx, tr)}'); continue
            found = [ev for ev in ctx.calls(tr) if ev[3] is not None and ev[1] in RU]
            last = found[-1][3] if found else None
            lost = last is not None and ctx.vname(tr, last) == ERROR and ctx.truth(tr, EQ(fld(fld(last, ctx.vidx('ResolverStats', ERROR), 0), None, 0), S(TAG))) is True
            lost = lost or last is not None and ctx.vname(tr, last) == 'Resolving'
            if n != 'Resolver::_resolve' and not lost:
                if murky(ctx, m): continue
                if not names_request(ctx, K, m, P, tr): r.bad(f'{n} says nothing', f'{n} fails with {short(m)}, which does not name the request {on(ctx, tr)}')
                continue
            if n != 'Resolver::_resolve' and lost and not any(p.op == 'str' and 'Resolve' in p.a[0] for p in parts(m)):
                if not names_request(ctx, K, m, P, tr) and not murky(ctx, m): r.bad(f'{n} says nothing', f'{n} fails with {short(m)}, which does not name the request {on(ctx, tr)}')
                continue
            why = incomplete(ctx, K, m, P)
            if why and not opaque(ctx, m, P): r.bad(f'{n} message', f'{n} fails with {short(m)}: {why} {on(ctx, tr)}')
    # the entry
    u = ctx.unit('Resolver::resolve', r)
    if u:
        s = ctx.param(u, 'str'); d = ctx.param(u, 'Path')
        for tr in ctx.rets(u):
            res = None
            for ev in ctx.calls(tr):
                V = A.units.get(ev[1])
                if V is None or ctx.ret_ty(V) != 'ResolverStats' or ctx.info(V) is None: continue
                x = ev[2][V.params.index(ctx.info(V))]; res = ev[3]; r.ob('entry')
                if d is not None and ctx.path(x) is not d and not murky(ctx, ctx.path(x)): r.bad('Resolver::resolve directory', f'the resolution starts in {short(ctx.path(x))}, not in the given directory {on(ctx, tr)}')
                for f in ('target',):
                    w = ctx.F(ctx.req(x), 'Request', f)
                    if w.op == 'fld' and isret(w.a[0], r'Resolver::parse') and w.a[0].a[-1] is s: continue
                    if murky(ctx, w): continue
                    r.bad('Resolver::resolve request', f'the resolution starts with {short(w)}, not with the given request {on(ctx, tr)}')
            v = tr.ret
            if res is not None and ctx.vname(tr, res) == ERROR:
                m = v.a[2] if v.op == 'agg' and tybase(ctx.types[v.a[0]]['name']) == 'Result' and v.a[1] == 1 else None
                want = fld(fld(res, ctx.vidx('ResolverStats', ERROR), 0), None, 0)
                if m is None and v.op == 'agg': r.bad('Resolver::resolve error lost', f'the resolution failed, but the answer is {short(v)} {on(ctx, tr)}')
                elif m is not None and not contains(m, want) and not murky(ctx, m) and ctx.truth(tr, EQ(m, want)) is not True: r.bad('Resolver::resolve message', f'the message {short(want)} is replaced by {short(m)} {on(ctx, tr)}')
    for i in ctx.local:
        if re.search(r'parse::Request as std::fmt::Display>::fmt$', i['def']):
            try: u = ctx.e.run_unit(i, 'Request::fmt')
            except Exception as ex: r.note(f'Display of Request: {ex}'); break
            r.fn('<Request as Display>::fmt')
            for tr in ctx.rets(u):
                w = [ev[1] for ev in tr.events() if ev[0] == 'write']
                if any(v == frozenset([1]) and k.op == 'app' and k.a[0] == 'fmt_result' for k, v in tr.vars.items()): continue
                P = u.params[0]; F = lambda f: ctx.F(P, 'Request', f)
                r.ob('display')
                got = concat(w)
                if any(x.op == 'app' and x.a[0] not in ('concat',) for x in w): r.note('Display of Request is not followed'); continue
                want = concat([F('target'), F('query'), F('fragment')])
                if got is not want and not any(ev[0] == 'loop' for ev in tr.events()): r.bad('Request display', f'a request is displayed as {short(got)}, not as target, query and fragment')
def failure_of(m):
    """a message that quotes a whole request and a directory"""
    ps = parts(m)
    return any(p.op == 'app' and p.a[0] == 'show' for p in ps) and any(p.op == 'app' and p.a[0] in ('display', 'debug') for p in ps) and any(p.op == 'str' and 'failed in' in p.a[0] for p in ps)
def opaque(ctx, m, P): return murky(ctx, m) or any(x.op == 'app' and x.a[0] in ('fmt', 'formatted') for x in subterms(m))
def names_request(ctx, K, m, P, tr):
    q = ctx.req(P)
    if contains(m, ctx.target(P)) or any(x is q for x in subterms(m)) or contains(m, ctx.path(P)): return True
    return any(K.origin(x) is ctx.target(P) for x in subterms(m) if x.op == 'fld') or any(x.op == 'app' and x.a[0] in ('show', 'display', 'debug') for x in subterms(m))
def incomplete(ctx, K, m, P):
    """None when the message names target, query, fragment and directory of P"""
    q = ctx.req(P); got = []
    def whole(x):
        # a request all of whose parts are those of P
        return all(K.origin(ctx.F(x, 'Request', f)) is ctx.F(q, 'Request', f) for f in ('target', 'query', 'fragment'))
    for p in parts(m):
        if p.op == 'str': continue
        if p.op == 'app' and p.a[0] in ('show',) and (p.a[1] is q or p.a[1].op in ('fld', 'agg') and whole(p.a[1])): got += ['target', 'query', 'fragment']; continue
        if p.op == 'app' and p.a[0] in ('display', 'debug', 'show', 'to_str') and K.origin(p.a[1]) is ctx.path(P): got.append('path'); continue
        for f in ('target', 'query', 'fragment'):
            if K.origin(p) is ctx.F(q, 'Request', f): got.append(f)
    for f in ('target', 'query', 'fragment'):
        if f not in got: return f'it does not name the {f} of the request'
    if [x for x in got if x != 'path'][:3] != ['target', 'query', 'fragment']: return 'it does not quote the request in its order'
    if 'path' not in got: return 'it does not name the directory'
    return None

# ---------------------------------------------------------------- C15
RANK = {'AliasPlugin::apply': 0, 'PreferRelativePlugin::apply': 1, 'ExportsFieldPlugin::apply': 2, 'ImportsFieldPlugin::apply': 2, 'AliasFieldPlugin::apply': 3,
        'Resolver::resolve_as_file': 4, 'Resolver::resolve_as_modules': 4, 'Resolver::resolve_as_dir': 5, 'MainFieldPlugin::apply': 6, 'MainFilePlugin::apply': 7}
def arg_info(ctx, ev):
    """the request a step is called with"""
    V = ctx.A.units.get(ev[1])
    if V is None or ctx.info(V) is None: return None
    i = V.params.index(ctx.info(V))
    return ev[2][i] if i < len(ev[2]) else None
def isnone(ctx, tr, t): return ctx.vname(tr, t) == 'None'
def none_desc(ctx, tr):
    """the description is known to be absent on this path"""
    for t, vs in tr.vars.items():
        n = ty_of(t)
        if n is None or tybase(ctx.types[n].get('name') or '') != 'Option' or vs != frozenset([0]): continue
        if t.op == 'fld' and isret(t.a[0], r'Resolver::load_pkg_file'): return True
        if 'PkgFileInfo' in ctx.types[n]['s']: return True
    return False
def mentions_option(ctx, t, name):
    i = ctx.fidx('ResolverOptions', name)
    return any(x.op == 'fld' and x.a[2] == i and from_opts(ctx, x.a[0]) for x in subterms(t))
def from_opts(ctx, t):
    n = ty_of(t)
    return n is not None and tybase(ctx.types[n].get('name') or '') == 'ResolverOptions' or t.op == 'fld' and t.a[2] == ctx.fidx('Resolver', 'options') and (ty_of(t.a[0]) is None or tybase(ctx.types[ty_of(t.a[0])].get('name') or '') == 'Resolver')
def step_off(ctx, tr, step, P):
    """something on this path says that the step would do nothing"""
    if step in ('ImportsFieldPlugin::apply', 'AliasFieldPlugin::apply', 'MainFieldPlugin::apply', 'ExportsFieldPlugin::apply') and none_desc(ctx, tr): return True
    opt = {'AliasPlugin::apply': 'alias', 'PreferRelativePlugin::apply': 'prefer_relative', 'AliasFieldPlugin::apply': 'browser_field', 'MainFieldPlugin::apply': 'main_fields', 'MainFilePlugin::apply': 'main_files'}.get(step)
    for f, v in tr.facts.items():
        if opt in ('prefer_relative', 'browser_field') and not v and f.op == 'fld' and mentions_option(ctx, f, opt): return True
        if opt in ('alias', 'main_fields', 'main_files') and mentions_option(ctx, f, opt): return True
        if step == 'AliasPlugin::apply' and v and f.op == 'app' and f.a[0] in ('contains', 'any') and contains(f, S('node_modules')): return True
        if step == 'PreferRelativePlugin::apply' and v and f.op == 'app' and f.a[0] in ('starts_with', 'eq') and (S('./') in f.a or S('../') in f.a): return True
        if step == 'ImportsFieldPlugin::apply' and not v and f.op == 'app' and f.a[0] == 'starts_with' and (S('#') in f.a): return True
    if step == 'ImportsFieldPlugin::apply' and ctx.vname(tr, ctx.kind(P)) not in (None, 'Internal'): return True
    return False
def segments_of(tr, RU):
    """the step calls of a path, split where a loop begins a new turn"""
    out = [[]]
    for ev in tr.events():
        if ev[0] in ('loop', 'elem', 'exhausted'): out.append([])
        elif ev[0] == 'call' and ev[1] in RU: out[-1].append(ev)
    return out
def c15(ctx, r):
    """The sequence of steps on every path of every step: ranks (alias, prefer-relative, exports/imports, browser field, file or node_modules, directory, main fields, main files) never decrease, apart from the next level of node_modules; no step is entered while the result of the one before may be an answer; an answer a step got is what it answers; each step gets what the one before let through; a directory lookup follows a file lookup of the same path that found nothing; extensions are tried only where the exact file is known to be absent or extensions are enforced; main files only after main fields; and the file lookup of a request is reached only after alias, prefer-relative, imports and browser field, unless the path knows that this step is off."""
    A = ctx.A; K = keeps(ctx); RU = set(ctx.result_units())
    for n in ctx.result_units():
        u = ctx.unit(n, r); P = ctx.info(u)
        if P is None: continue
        for tr in u.traces:
            for seq in segments_of(tr, RU):
                prev = None
                for ev in seq:
                    if prev is not None and not (ev[1] == n and n == 'Resolver::resolve_as_modules') :
                        r.ob('order'); r.site(f'{n}: {prev[1]} then {ev[1]}')
                        a, b = RANK.get(prev[1]), RANK.get(ev[1])
                        if a is not None and b is not None and b < a: r.bad(f'{n} {ev[1]} after {prev[1]}', f'{n} enters {ev[1]} after {prev[1]} {on(ctx, tr)}')
                        res = prev[3]
                        if res is not None and ctx.vname(tr, res) == 'Resolving' and a is not None and b is not None:
                            x = arg_info(ctx, ev)
                            if x is not None and not any(t is res for t in subterms(x)) and not murky(ctx, x) and not same_request(ctx, K, x, fld(res, ctx.vidx('ResolverStats', RESOLVING), 0)):
                                r.bad(f'{n} {ev[1]} ignores {prev[1]}', f'{n} enters {ev[1]} with {short(x)}, not with what {prev[1]} let through {on(ctx, tr)}')
                    if prev is not None and prev[3] is not None and prev[1] in RU:
                        r.ob('no answer before')
                        if ctx.may(tr, prev[3], SUCCESS) and not through_success(ctx, prev): r.bad(f'{n} {ev[1]} despite {prev[1]}', f'{n} enters {ev[1]} although {prev[1]} may have answered {on(ctx, tr)}')
                    prev = ev
                steps = [ev[1] for ev in seq]
                for i, ev in enumerate(seq):
                    x = arg_info(ctx, ev)
                    if ev[1] == 'Resolver::resolve_as_dir' and 'Resolver::resolve_as_file' in A.units and x is not None:
                        r.ob('file before directory')
                        ok = False
                        for f in seq[:i]:
                            if f[1] != 'Resolver::resolve_as_file': continue
                            y = arg_info(ctx, f)
                            if y is not None and K.origin(ctx.path(x)) is K.origin(ctx.path(y)) and K.origin(ctx.target(x)) is K.origin(ctx.target(y)): ok = True
                        if not ok and not murky(ctx, x): r.bad(f'{n} directory first', f'{n} looks for a directory {short(ctx.path(x))} + {short(ctx.target(x))} that was not looked up as a file {on(ctx, tr)}')
                    if ev[1] == 'MainFilePlugin::apply' and 'MainFieldPlugin::apply' in A.units:
                        r.ob('fields before files')
                        if 'MainFieldPlugin::apply' not in steps[:i] and not step_off(ctx, tr, 'MainFieldPlugin::apply', P): r.bad(f'{n} main files first', f'{n} tries the main files without the main fields {on(ctx, tr)}')
                    if ev[1] in ('Resolver::resolve_as_file', 'Resolver::resolve_as_modules') and not (ev[1] == n):
                        need = [] if n != 'Resolver::_resolve' else ['AliasPlugin::apply', 'PreferRelativePlugin::apply', 'ImportsFieldPlugin::apply', 'AliasFieldPlugin::apply']
                        if n in ('MainFieldPlugin::apply', 'MainFilePlugin::apply'): need = ['AliasFieldPlugin::apply']
                        if n == 'Resolver::resolve_as_modules' and 'ExportsFieldPlugin::apply' in steps[:i]: need = ['AliasFieldPlugin::apply']
                        for s in need:
                            if s not in A.units: continue
                            r.ob('steps before a lookup')
                            if s not in steps[:i] and not step_off(ctx, tr, s, P): r.bad(f'{n} {ev[1]} without {s}', f'{n} enters {ev[1]} without {s} {on(ctx, tr)}')
                    if ev[1] == 'ExtensionsPlugin::apply': extensions_late(ctx, r, n, tr, P, ev)
            # an answer is an answer
            if tr.kind != 'return': continue
            for ev in ctx.calls(tr):
                if ev[1] not in RU or ev[3] is None or ctx.vname(tr, ev[3]) != SUCCESS: continue
                r.ob('answer handed on')
                if not (tr.ret is ev[3] or contains(tr.ret, ev[3])) and not murky(ctx, tr.ret): r.bad(f'{n} drops the answer of {ev[1]}', f'{n} answers {short(tr.ret)} although {ev[1]} had answered {on(ctx, tr)}')
def same_request(ctx, K, x, y):
    return all(K.origin(K.field(x, f)) is K.origin(K.field(y, f)) for f in ('path', 'target', 'query', 'fragment'))
def through_success(ctx, ev): return False
def extensions_late(ctx, r, n, tr, P, ev):
    """the exact file is absent, or extensions are enforced"""
    r.ob('exact name first')
    s = ev[2][0]; p = fld(s, None, 0) if s.op == 'agg' else None
    if p is None: r.note(f'{n}: the path of ExtensionsPlugin is not followed'); return
    if ctx.truth(tr, app('is_file', p)) is False: return
    if enforced(ctx, tr) is True: return
    if murky(ctx, p): return
    r.bad(f'{n} extensions first', f'{n} tries the extensions of {short(p)} before its exact name {on(ctx, tr)}')
def enforced(ctx, tr):
    """what the path knows about options.enforce_extension"""
    i = ctx.fidx('ResolverOptions', 'enforce_extension')
    for f, v in tr.facts.items():
        if f.op == 'fld' and f.a[0].op == 'fld' and f.a[0].a[2] == i and from_opts(ctx, f.a[0].a[0]): return v
        g = [x for x in subterms(f) if x.op == 'fld' and x.a[2] == i and from_opts(ctx, x.a[0])]
        if g and f.op == 'app' and f.a[0] == 'unwrap_or': return v
    for t, vs in tr.vars.items():
        if t.op == 'fld' and t.a[2] == i and from_opts(ctx, t.a[0]) and vs == frozenset([0]): return False
    return None

# ---------------------------------------------------------------- C16
LISTS = ('extensions', 'main_files', 'main_fields', 'alias')
REORDER = ('rev', 'sorted', 'reversed', 'revcmp', 'deduped', 'rotated', 'sublist', 'substr', 'reverse', 'dedup', 'truncate', 'rotate_left', 'rotate_right', 'swap')
def olist(ctx, t):
    """name of the ordered list this term is"""
    if t.op != 'fld': return None
    for n in LISTS:
        if t.a[2] == ctx.fidx('ResolverOptions', n) and from_opts(ctx, t.a[0]): return n
    if ctx.adt('MappingEntry')[1] is not None and t.a[2] == ctx.fidx('MappingEntry', 'paths'):
        n = ty_of(t.a[0]); b = t.a[0]
        if n is not None and tybase(ctx.types[n].get('name') or '') == 'MappingEntry' or b.op == 'elem' and hasret(b, r'.*get_absolute_mapping_entries'): return 'paths'
    return None
def base_list(ctx, t):
    """(list name, how it was changed) of what a loop goes over"""
    how = None
    for _ in range(6):
        n = olist(ctx, t)
        if n: return n, how
        if t.op == 'app' and len(t.a) > 1 and isinstance(t.a[1], T):
            if t.a[0] in REORDER: how = t.a[0]
            elif t.a[0] not in ('keys', 'values', 'list', 'clone'): return None, None
            t = t.a[1]
        else: return None, None
    return None, None
def cands(ctx, t):
    """candidates in a term: (term, list)"""
    for x in subterms(t):
        if x.op == 'elem' or x.op == 'app' and x.a[0] in ('at', 'get', 'first', 'last') and len(x.a) > 1:
            n, how = base_list(ctx, x.a[0] if x.op == 'elem' else x.a[1])
            if n: yield x, n, how
def loop_events(tr, ctx=None):
    """events since the head of the loop this path goes back to"""
    ev = tr.events()
    if tr.kind != 'back': return ev
    h = tr.info['head']; h = mk('loophead', tr.info['ctx'], h if isinstance(h, int) else 'hof')
    for i in range(len(ev) - 1, -1, -1):
        if ev[i][0] == 'loop' and ev[i][1] is h: return ev[i:]
    return ev
def inner_loop(evs):
    """another loop is begun within"""
    return any(e[0] == 'loop' for e in evs[1:])
def spine(t):
    """subterms of a value apart from the choice of the candidate itself"""
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        if x.op == 'elem' or x.op == 'app' and x.a[0] in ('at', 'get', 'first', 'last'): continue
        for y in x.a:
            if isinstance(y, T): st.append(y)
def answers(ctx, tr):
    """this path answers (Success, or possibly so)"""
    if tr.kind != 'return': return False
    b = ctx.stats(tr.ret)
    if b: return b[0] == SUCCESS
    return ctx.may(tr, tr.ret, SUCCESS) if isret(tr.ret) else True
def c16(ctx, r):
    """Loops over extensions, main files, main fields, aliases and the fallback paths of a tsconfig mapping, in every resolution step: the list is gone through forwards and from its beginning (no reversing, sorting, skipping adapter; an index starts at 0 and grows by 1); a turn goes on to the next candidate only if this one was tried and did not answer, or is known not to apply; a step ends without an answer only after the list is exhausted, or where the step does not apply; nothing of the request, the directory or the depth that a candidate starts from is carried over from the turn before; a step that lets a request through lets it through unchanged. The constructor keeps the lists as they are given."""
    A = ctx.A; K = keeps(ctx); RU = set(ctx.result_units())
    for n in ctx.result_units():
        u = ctx.unit(n, r); P = ctx.info(u)
        if P is None: continue
        drives = set()
        for tr in u.traces:
            for ev in ctx.calls(tr):
                if ev[1] in RU:
                    x = arg_info(ctx, ev)
                    if x is not None: drives |= {l for _, l, _ in cands(ctx, x)}
            for x in (success_infos(ctx, tr) if tr.kind == 'return' else ()): drives |= {l for _, l, _ in cands(ctx, ctx.path(x))}
        if not drives: continue
        used = {}       # loop variables that lookups start from
        for x, what in {(x, ev[1]) for tr in u.traces for ev in tr.events() for x in lookup_parts(ctx, K, RU, ev)}:
            for y in spine(x):
                if y.op == 'phi': used[y] = what
        for tr in u.traces:
            evs = tr.events()
            # direction
            for ev in evs:
                if ev[0] in ('elem', 'exhausted'):
                    l, how = base_list(ctx, ev[1])
                    if l in drives:
                        r.ob('direction'); r.site(f'{n}: {l}')
                        if how: r.bad(f'{n} {l} order', f'{n} does not go through {l} in its order: {short(ev[1])}')
                        it = ev[4] if ev[0] == 'elem' and len(ev) > 4 else None
                        while isinstance(it, T) and it.op != 'it':
                            if it.op == 'itpass' and it.a[0] in ('rev', 'skip', 'take', 'step_by', 'skip_while', 'take_while', 'nth', 'map_while', 'last'):
                                r.bad(f'{n} {l} order', f'{n} does not try every candidate of {l} in its order ({it.a[0]})')
                            it = it.a[1] if it.op == 'itpass' else it.a[0]
                if ev[0] == 'sort':
                    l, how = base_list(ctx, ev[1])
                    if l: r.bad(f'{n} {l} sorted', f'{n} sorts {l}')
            own = loop_events(tr)
            # candidates met since
            seen = {}
            for ev in own:
                ts = []
                if ev[0] == 'call': ts = [t for t in ev[2] if isinstance(t, T)]
                elif ev[0] == 'fs': ts = [ev[2]]
                elif ev[0] == 'elem': ts = [ev[2]]
                for t in ts:
                    for c, l, how in cands(ctx, t):
                        if l in drives: seen.setdefault(c, l)
            for f in tr.facts:
                for c, l, how in cands(ctx, f):
                    if l in drives: seen.setdefault(c, l)
            for c, l in seen.items():
                at = c.op == 'app' and c.a[0] == 'at'
                if at: index_walk(ctx, r, n, u, l, c)
                if c.op == 'app' and c.a[0] in ('first', 'last') and l in drives and not answers(ctx, tr) and tr.kind == 'return':
                    r.bad(f'{n} {l} only one', f'{n} tries only the {c.a[0]} of {l} {on(ctx, tr)}'); continue
                turn = tr.kind == 'back' and goes_over(ctx, tr, own, c)
                if turn and (isinstance(tr.info['head'], str) and tr.info['head'] not in ('find', 'find_map', 'any', 'position', 'try_for_each') or any(ev[0] in ('push', 'map.insert') and any(isinstance(y, T) and contains(y, c) for y in ev[1:]) for ev in own)): continue    # only collects
                over = any(ev[0] == 'exhausted' and base_list(ctx, ev[1])[0] == l and (l != 'paths' or contains(c, ev[1])) for ev in own) or \
                       any(v is False and f.op == 'app' and f.a[0] == 'lt' and at and contains(f, c.a[2]) and contains(f, c.a[1]) for f, v in tr.facts.items())
                if turn and not over:
                    r.ob('turn')
                    why = skipped(ctx, tr, own, c, l, P, RU)
                    if why: r.bad(f'{n} {l} {why[0]}', f'{n}: {why[1]} {on(ctx, tr)}')
                elif not over and not answers(ctx, tr) and tr.kind in ('return', 'back'):
                    if tr.kind == 'back' and not any(ev[0] == 'elem' and ev[2] is c for ev in own): continue
                    r.ob('end')
                    if tr.kind == 'return' and murky(ctx, tr.ret): continue
                    if not ended_elsewhere(ctx, tr, c): continue
                    r.bad(f'{n} {l} abandoned', f'{n} gives up {l} before every candidate was tried {on(ctx, tr)}')
            # the end of the step
            if tr.kind == 'return' and not answers(ctx, tr):
                for l in drives - {'paths'}:
                    if any(l2 == l for l2 in seen.values()): continue
                    r.ob('end')
                    if any(ev[0] == 'exhausted' and base_list(ctx, ev[1])[0] == l for ev in evs): continue
                    if any(mentions_option(ctx, f, l) for f in tr.facts): continue
                    if any(isinstance(k, T) and mentions_option(ctx, k, l) for k in tr.vars): continue
                    if gate16(ctx, tr, l, P): continue
                    if murky(ctx, tr.ret): continue
                    r.bad(f'{n} {l} not tried', f'{n} ends without having tried {l} {on(ctx, tr)}')
                b = ctx.stats(tr.ret)
                if b and b[0] == RESOLVING and n != 'Resolver::resolve_as_modules':
                    for f in ('path', 'target', 'query', 'fragment'):
                        t = K.origin(K.field(b[1], f)); r.ob('let through')
                        if t is not K.field(P, f) and not murky(ctx, t): r.bad(f'{n} {f} left changed', f'{n} lets the request through with the {f} {short(t)} {on(ctx, tr)}')
            # carried over
            if tr.kind == 'back' and any(l in drives for l in seen.values()):
                for ph, v in tr.info['phi'].items():
                    if v is ph or v.op in ('mref',): continue
                    r.ob('carried'); hit = used.get(ph)
                    if hit and not is_done_flag(v): r.bad(f'{n} carries over', f'{n} starts {hit} for the next candidate from {short(v)}, which the one before left behind')
    u = ctx.unit('Resolver::new', r)
    if u:
        for tr in ctx.rets(u):
            b = ctx.built(tr.ret, 'Resolver'); P = u.params[0]
            if not b: continue
            for l in LISTS:
                t = ctx.opt(tr.ret, l); want = ctx.F(P, 'ResolverOptions', l); r.ob('kept by the constructor')
                if t is not want and contains(t, want) and any(x.op == 'app' and x.a[0] in REORDER for x in subterms(t)): r.bad(f'Resolver::new {l}', f'the constructor changes {l} to {short(t)}')
            for ev in tr.events():
                if ev[0] == 'sort' and any(contains(ev[1], ctx.F(P, 'ResolverOptions', l)) for l in LISTS): r.bad('Resolver::new sorts', f'the constructor sorts {short(ev[1])}')
def lookup_parts(ctx, K, RU, ev):
    if ev[0] == 'call' and ev[1] in RU:
        x = arg_info(ctx, ev)
        return [K.field(x, f) for f in Keeps.FIELDS] if x is not None else []
    return [ev[2]] if ev[0] == 'fs' else []
def is_done_flag(v): return v.op in ('bool', 'int')
def goes_over(ctx, tr, own, c):
    """the loop this path goes back to is the one that yields c"""
    if not isinstance(tr.info['head'], int):
        return not any(ev[0] in ('loop',) for ev in own[1:])
    if c.op == 'elem': return any(ev[0] == 'elem' and (ev[2] is c or contains(ev[2], c)) for ev in own) and not any(ev[0] == 'loop' and any(e2[0] == 'elem' and contains(e2[2], c) for e2 in own[i:]) for i, ev in enumerate(own) if i > 0)
    return True
def ended_elsewhere(ctx, tr, c):
    """the loop over c was left on this path while c was at hand"""
    return any(ev[0] == 'elem' and contains(ev[2], c) for ev in tr.events()) or c.op == 'app'
def index_walk(ctx, r, n, u, l, c):
    """at(list, i): i starts at 0 and grows by 1"""
    b, k = ctx.e.lin(c.a[2])
    if b is None or b.op != 'phi': return
    r.ob('index')
    for tr in u.traces:
        for ev in tr.events():
            if ev[0] == 'loop':
                for p, i in ev[2]:
                    if p is b and i is not None and i.op == 'int' and i.a[0] + k != 0: r.bad(f'{n} {l} start', f'{n} begins {l} at index {i.a[0] + k}')
                    elif p is b and i is not None and i.op == 'app' and contains(i, c.a[1]): r.bad(f'{n} {l} order', f'{n} goes through {l} backwards')
        if tr.kind == 'back' and b in tr.info['phi']:
            b2, d = ctx.e.lin(tr.info['phi'][b])
            if b2 is b and d != 1 and not (d == 0): r.bad(f'{n} {l} step', f'{n} goes through {l} in steps of {d}')
def skipped(ctx, tr, own, c, l, P, RU):
    """(key, text) when this turn leaves candidate c without a reason"""
    last = None
    for ev in own:
        if ev[0] == 'call' and ev[1] in RU:
            x = arg_info(ctx, ev)
            if x is not None and contains(x, c): last = ev
    if last is not None:
        if last[3] is not None and ctx.may(tr, last[3], SUCCESS): return 'answer passed over', f'goes on to the next of {l} although {last[1]} may have answered'
        if ctx.vname(tr, last[3]) == 'Resolving' and last[1] not in ('Resolver::resolve_as_file', 'Resolver::resolve_as_dir', 'Resolver::_resolve', 'Resolver::resolve_as_modules'):
            return 'half tried', f'goes on to the next of {l} after {last[1]} let the candidate through'
        return None
    for f, v in tr.facts.items():
        if f.op == 'app' and f.a[0] == 'is_file' and contains(f, c):
            if v is False: return None
            return 'file passed over', f'goes on to the next of {l} although {short(f)} is a file'
    return None if applies_not(ctx, tr, c, l, P) else ('skipped', f'passes over a candidate of {l} without trying it')
def applies_not(ctx, tr, c, l, P):
    for f, v in tr.facts.items():
        if f.op != 'app': continue
        if l == 'main_fields' and contains(f, c):
            if not v and f.a[0] in ('map.contains', 'is_string'): return True
            if v and f.a[0] in ('eq', 'contains', 'any', 'matches') and any(x.op == 'str' and x.a[0] in ('.', './', '') for x in subterms(f)): return True
        if l == 'alias':
            if contains(f, c) and not v and f.a[0] in ('starts_with', 'has_prefix'): return True
            if contains(f, c) and v and (f.a[0] in ('starts_with', 'eq')) and any(contains(x, fld(c, None, 1)) for x in f.a[1:]): return True
            if f.a[0] in ('lt', 'eq') and contains(f, ctx.depth(P)): return True
    for t, vs in tr.vars.items():
        if contains(t, c) and l in ('main_fields', 'alias') and vs == frozenset([0]):
            n = ty_of(t)
            if n is not None and tybase(ctx.types[n].get('name') or '') == 'Option' and (t.op != 'app' or t.a[0] in ('map.get', 'as_str', 'strip_prefix', 'get')): return True
        if l == 'main_fields' and t.op == 'fld' and t.a[0].op == 'app' and t.a[0].a[0] == 'map.get' and contains(t, c) and 3 not in vs: return True      # a JSON value other than a string
    return False
def gate16(ctx, tr, l, P):
    """the step does not apply at all"""
    if l == 'alias': return any(v and f.op == 'app' and f.a[0] in ('contains', 'any') and contains(f, S('node_modules')) for f, v in tr.facts.items()) or any(f.op == 'app' and f.a[0] in ('lt', 'eq') and contains(f, ctx.depth(P)) for f in tr.facts)
    if l == 'main_fields':
        if none_desc(ctx, tr): return True
        for f, v in tr.facts.items():
            if f.op == 'app' and f.a[0] == 'eq' and not v and contains(f, ctx.path(P)): return True
            if f.op == 'app' and f.a[0] in ('lt', 'eq') and contains(f, ctx.depth(P)): return True
    return False

# ---------------------------------------------------------------- C17
def opt_truth(ctx, tr, name):
    """what the path knows about a boolean option"""
    i = ctx.fidx('ResolverOptions', name)
    for f, v in tr.facts.items():
        if f.op == 'fld' and f.a[2] == i and from_opts(ctx, f.a[0]): return v
    return None
def opt_variant(ctx, tr, name):
    i = ctx.fidx('ResolverOptions', name)
    for t, vs in tr.vars.items():
        if t.op == 'fld' and t.a[2] == i and from_opts(ctx, t.a[0]) and len(vs) == 1: return next(iter(vs))
    return None
def callers_know(ctx, n, know, key):
    """no chain of calls reaches n without a path that knows it: reachability over the calling paths that do not know"""
    memo = ctx.__dict__.setdefault('_know', {})
    if key not in memo:
        A = ctx.A; callers = {}; edges = {}
        for m, u in A.units.items():
            for tr in u.traces:
                cs = {ev[1] for ev in tr.events() if ev[0] == 'call' and ev[1] in A.units}
                for c in cs: callers.setdefault(c, set()).add(m)
                cs -= edges.setdefault(m, set())
                if cs and not know(tr): edges[m] |= cs
        open_ = {m for m in A.units if not callers.get(m, set()) - {m}}; work = list(open_)
        while work:
            for c in edges.get(work.pop(), ()):
                if c not in open_: open_.add(c); work.append(c)
        memo[key] = open_
    return n not in memo[key]
def unchanged(ctx, tr, P):
    b = ctx.stats(tr.ret); K = keeps(ctx)
    return b is not None and b[0] == RESOLVING and all(K.origin(K.field(b[1], f)) is K.field(P, f) for f in Keeps.FIELDS)
def c17(ctx, r):
    """On every path of every step: what depends on a browser field (other than letting the request through unchanged) requires browser_field to be known true, here or at every caller; a bare request is resolved as './' + request only where prefer_relative is known true; an answer with a path that no extension was appended to requires extensions not to be enforced; a description is looked for, read or parsed only where description_file is known to be present, a tsconfig only where tsconfig is. The constructor keeps a given enforce_extension and otherwise sets it to whether one of the extensions is empty."""
    A = ctx.A; K = keeps(ctx); RU = set(ctx.result_units())
    af = ctx.fidx('PkgFileInfo', 'alias_fields')
    def uses_alias(t): return any(x.op == 'fld' and x.a[2] == af and (ty_of(x.a[0]) is None or 'PkgFileInfo' in ctx.types[ty_of(x.a[0])]['s']) and x.a[1] is None for x in subterms(t))
    for n in ctx.result_units():
        u = ctx.unit(n, r); P = ctx.info(u)
        if P is None: continue
        for tr in u.traces:
            if tr.kind == 'return' and not unchanged(ctx, tr, P) and not isret(tr.ret):
                # browser field
                if any(uses_alias(f) for f in tr.facts) or any(uses_alias(x) for x in tr.vars) or uses_alias(tr.ret) or n == 'AliasFieldPlugin::apply':
                    r.ob('browser field'); r.site(f'{n}: browser field')
                    if opt_truth(ctx, tr, 'browser_field') is not True and not callers_know(ctx, n, lambda t: opt_truth(ctx, t, 'browser_field') is True, 'browser'):
                        if not murky(ctx, tr.ret): r.bad(f'{n} browser field', f'{n} applies the browser field without browser_field being on: answers {short(tr.ret)} {on(ctx, tr)}')
            # prefer relative
            for ev in ctx.calls(tr, r'Resolver::_resolve'):
                x = arg_info(ctx, ev)
                if x is None: continue
                t = ctx.target(x)
                if t.op == 'app' and t.a[0] == 'concat' and t.a[1].op == 'str' and t.a[1].a[0] in ('./', '.') and len(t.a) >= 3 and K.origin(t.a[-1]) is ctx.target(P):
                    r.ob('prefer relative'); r.site(f'{n}: prefer relative')
                    know = lambda t2: opt_truth(ctx, t2, 'prefer_relative') is True
                    if not know(tr) and not callers_know(ctx, n, know, 'prefer'): r.bad(f'{n} prefer relative', f'{n} resolves {short(t)} without prefer_relative being on {on(ctx, tr)}')
            # exact file
            for x in (success_infos(ctx, tr) if tr.kind == 'return' else ()):
                if from_callee(ctx, x) is not None: continue
                p = ctx.path(x)
                if murky(ctx, p): continue
                r.ob('exact file')
                if any(l == 'extensions' for _, l, _ in cands(ctx, p)): continue
                if p.op == 'app' and p.a[0] == 'concat': continue
                if enforced(ctx, tr) is not False and not callers_know(ctx, n, lambda t2: enforced(ctx, t2) is False, 'enforced'): r.bad(f'{n} exact file', f'{n} answers {short(p)} without an extension although extensions may be enforced {on(ctx, tr)}')
    for n, u in A.units.items():
        ctx.unit(n, r)
        for tr in u.traces:
            for ev in tr.events():
                what = None
                if ev[0] == 'call' and ev[1] in ('Resolver::parse_description_file', 'Resolver::find_up'): what = ('description_file', ev[1])
                if ev[0] == 'call' and ev[1] == 'CacheFile::read_to_string' and n != 'Resolver::parse_description_file': what = ('description_file', ev[1])
                if ev[0] == 'call' and ev[1] in ('Resolver::_resolve_with_tsconfig', 'TsConfig::parse_file') and n not in ('Resolver::_resolve_with_tsconfig',): what = ('tsconfig', ev[1])
                if what:
                    r.ob(what[0]); r.site(f'{n}: {what[1]}')
                    know = lambda t2, w=what[0]: opt_variant(ctx, t2, w) == 1
                    if not know(tr) and not callers_know(ctx, n, know, what[0]):
                        # the option may be handed in
                        if what[0] == 'description_file' and any(isinstance(a, T) and any(mentions_option(ctx, y, 'description_file') and y.op == 'fld' and y.a[1] == 1 for y in subterms(a)) for a in ev[2]): pass
                        r.bad(f'{n} {ev[1]}', f'{n} calls {ev[1]} without {what[0]} being set {on(ctx, tr)}')
    u = ctx.unit('Resolver::new', r)
    if u: default17(ctx, r, u)
def default17(ctx, r, u):
    P = u.params[0]; given = ctx.F(P, 'ResolverOptions', 'enforce_extension'); exts = ctx.F(P, 'ResolverOptions', 'extensions')
    empty = lambda tr, e: ctx.truth(tr, EQ(e, S('')))
    def ext_elems(tr):
        out = set()
        for f in list(tr.facts) + [ev[2] for ev in tr.events() if ev[0] == 'elem']:
            for x in subterms(f):
                if x.op == 'elem' and x.a[0] is exts or x.op == 'app' and x.a[0] == 'at' and x.a[1] is exts: out.add(x)
        return out
    decides = False
    for tr in u.traces:
        if tr.kind == 'back':
            for e in ext_elems(tr):
                r.ob('extension looked at')
                if empty(tr, e) is True and not any(v.op == 'bool' for v in tr.info['phi'].values()): r.bad('Resolver::new empty extension', f'the constructor passes over the empty extension {on(ctx, tr)}')
                if empty(tr, e) is None and any(contains(f, e) for f in tr.facts): r.bad('Resolver::new other test', f'the constructor decides whether extensions are enforced by {short(next(f for f in tr.facts if contains(f, e)))}')
        if tr.kind != 'return' or not ctx.built(tr.ret, 'Resolver'): continue
        t = ctx.opt(tr.ret, 'enforce_extension'); was = ctx.variants(tr, given)
        r.ob('default'); r.site('Resolver::new: enforce_extension')
        if t is given:
            if was is None or 0 in was: r.bad('Resolver::new no default', f'enforce_extension may stay unset {on(ctx, tr)}')
            continue
        if was is None or 1 in was:
            b = fld(given, 1, 0)
            if t.op == 'agg' and t.a[1] == 1 and (t.a[2] is b or t.a[2].op == 'bool' and ctx.truth(tr, b) is (t.a[2] is TRUE)): continue
            if not murky(ctx, t): r.bad('Resolver::new overrides', f'the given enforce_extension is replaced by {short(t)} {on(ctx, tr)}')
            continue
        if t.op == 'agg' and t.a[1] == 1 and t.a[2].op == 'bool':
            if t.a[2] is TRUE:
                es = ext_elems(tr)
                if not any(empty(tr, e) is True for e in es) and not any(v and f.op == 'app' and f.a[0] in ('has', 'contains', 'any') and contains(f, exts) for f, v in tr.facts.items()): r.bad('Resolver::new enforced', f'extensions are enforced although no empty extension was seen {on(ctx, tr)}')
            else:
                over = any(ev[0] == 'exhausted' and contains(ev[1], exts) for ev in tr.events()) or any(not v and contains(f, exts) for f, v in tr.facts.items())
                es = [e for e in ext_elems(tr) if empty(tr, e) is True]
                if es or not over: r.bad('Resolver::new not enforced', f'extensions are not enforced although an empty extension may be configured {on(ctx, tr)}')
        elif t.op == 'agg' and t.a[1] == 1 and not murky(ctx, t.a[2]) and not contains(t.a[2], exts): r.bad('Resolver::new default', f'by default enforce_extension is {short(t)}')
