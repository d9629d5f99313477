"""Rules about tsconfig files, aliases, node_modules and the targets of mappings."""
from base import *
from rules_flow import facts
from rules_res import murky, on
from rules_more import loop_events, olist
from rules_data import result
from rules_last import back_head, in_loop_of, phis, is_eq, ctx_ty, parent_of, js, reworked, key_gets, get_known, expand, ctx_field, GETS
import strs

def inits(u, t, lim=30):
    """a loop variable stands for what it was before the loop (and for what it may become)"""
    ph = phis(u); out = set(); todo = [t]
    while todo and lim:
        lim -= 1; x = todo.pop()
        if x in out: continue
        out.add(x)
        if x.op == 'phi' and x in ph: todo += [v for v, _ in ph[x]]
    return out
def dropping(it):
    """name of an adapter that leaves elements out, None when all elements are visited"""
    k = 0
    while isinstance(it, T) and it.op != 'it' and k < 20:
        k += 1
        if it.op == 'itpass' and it.a[0] in ('step_by', 'skip', 'take', 'take_while', 'skip_while', 'last', 'nth', 'map_while'): return it.a[0]
        if it.op in ('itfilter', 'itfmap'): return it.op[2:]
        it = next((y for y in it.a if isinstance(y, T)), None)
    return None

# ---------------------------------------------------------------- C25
def c25(ctx, r):
    """merge: what the extending config has is never overwritten unless it is null; for every key of two objects the values are merged, or the extended one is taken where the key is missing; a null takes the extended value. A config is merged into the config that extends it, in this direction, and the result is what is answered. The extended file is the resolution of the text of `extends` from the directory of the extending file. Reading, parsing, being ignored, being too deep and failing in the extended file all lead to an error. baseUrl and paths of the built config are the values of these keys, complete and unchanged; one of another type is an error."""
    u = ctx.unit('merge', r)
    if u is not None and len(u.params) >= 2: merge25(ctx, r, u)
    u = ctx.unit('parse_file_to_value', r)
    if u is not None: chain25(ctx, r, u)
    for n, u in ctx.A.units.items():
        if any(ev[0] == 'make' and ev[1].op == 'agg' and is_c25(ctx, ev[1]) for tr in u.traces for ev in tr.events()): fields25(ctx, r, u)
def is_c25(ctx, x): return tybase(ctx.types[x.a[0]].get('name') or '') == 'CompilerOptions'

def merge25(ctx, r, u):
    n = u.name; a, b = u.params[0], u.params[1]
    if ctx_ty(ctx, a) != 'Value' or ctx_ty(ctx, b) != 'Value': r.note(f'{n}: its parameters are not two JSON values'); return
    def is_a(x): return a in inits(u, x) or x.op == 'phi' and any(contains(v, a) for v in inits(u, x))
    def amap(m):
        return any(x.op == 'fld' and x.a[1] == 5 and is_a(x.a[0]) for x in inits(u, m)) or any(x.op == 'app' and x.a[0] in ('map.insert', 'map.or_insert') and amap(x.a[1]) for x in [m])
    bmap = fld(b, 5, 0)
    nullslots = any(ev[0] == 'map.insert' and len(ev[2]) > 2 and ev[2][1].op == 'agg' and ev[2][1].a[1] == 0 for tr in u.traces for ev in tr.events())
    def kind(tr, x): return {k for k in ('Null', 'Bool', 'Number', 'String', 'Array', 'Object') if js(tr, ctx, x, k) is not False and not (k == 'Null' and nullfact(tr, x) is False) and not (k != 'Null' and nullfact(tr, x) is True) and not (k == 'Object' and objfact(tr, x) is False) and not (k != 'Object' and objfact(tr, x) is True)}
    def nullfact(tr, x): return ctx.truth(tr, app('is_null', x))
    def objfact(tr, x): return ctx.truth(tr, app('is_object', x))
    def slot_of(x):
        """the key of a place in the kept object"""
        if x.op == 'fld' and x.a[1] == 1 and x.a[2] == 0: x = x.a[0]
        if x.op == 'app' and x.a[0] in ('mapslot',) + GETS and len(x.a) > 2 and amap(x.a[1]): return x.a[2]
    def kept_null(tr, x): return kind(tr, x) == {'Null'}
    for tr in u.traces:
        if tr.kind == 'panic': continue
        stored = False
        for ev in tr.events():
            if ev[0] == 'store' and tuple(ev[1][:3]) == ('P', n, 1) or ev[0] == 'store' and ev[1][0] == 'P':
                if list(ev[1])[:3] != ['P', n, 1] and tuple(ev[1])[:3] != ('P', n, 1): continue
                if ev[2] and isinstance(ev[2][0], tuple) and ev[2][0][0] in (1, 2, 3, 4):
                    r.ob('overwrites'); r.bad(f'{n} changes', f'{n} changes a value of the extending config {on(ctx, tr)}'); continue
                if ev[2]: 
                    r.note(f'{n}: stores into a part of the kept value'); continue
                v = ev[3]; r.ob('overwrites'); r.site(f'{n}: overwrites the kept value'); stored = True
                if not kept_null(tr, a) : r.bad(f'{n} overwrites', f'{n} overwrites a value of the extending config {on(ctx, tr)}')
                elif v is not b and not murky(ctx, v) and not contains(v, b): r.bad(f'{n} other value', f'{n} takes {short(v)} instead of the extended value')
            if ev[0] == 'store' and ev[1][0] == 'H':
                k = slot_of(ev[1][1]) if isinstance(ev[1][1], T) else None
                if k is None: continue
                r.ob('overwrites'); slot = ev[1][1]
                fresh = slot.op == 'app' and slot.a[0] == 'mapslot' and ctx.truth(tr, app('map.contains', slot.a[1], k)) is False
                if not fresh and not kept_null(tr, slot) and not contains(ev[3], slot): r.bad(f'{n} overwrites', f'{n} overwrites a value of the extending config {on(ctx, tr)}')
            if ev[0] == 'map.insert' and amap(ev[1]):
                k, v = ev[2][0], ev[2][1]; r.ob('inserts'); r.site(f'{n}: inserts')
                if len(ev[2]) > 2:
                    if v.op == 'fld' and v.a[0].op == 'elem' and contains(v, b) and not any(x[0] == 'call' and x[1] == n for x in tr.events()) and tr.kind == 'back' and ctx.truth(tr, app('map.contains', ev[1], k)) is not False: r.bad(f'{n} left out', f'{n} keeps a value of the extending config without merging the extended one into it {on(ctx, tr)}')
                    continue
                if ctx.truth(tr, app('map.contains', ev[1], k)) is False: continue
                if any(slot_of(t) is k and kind(tr, t) == {'Null'} for t in list(tr.vars) if isinstance(t, T) and t.op == 'app' and t.a[0] in GETS): continue
                if any(t.op == 'app' and t.a[0] in GETS + ('map.contains',) and len(t.a) > 2 and t.a[2] is k and vs == frozenset([0]) for t, vs in tr.vars.items()): continue
                if any(t.op == 'fld' and slot_of(t) is k and kind(tr, t) == {'Null'} for t in list(tr.vars) if isinstance(t, T)): continue
                if contains(v, ev[1]) or murky(ctx, v) and not contains(v, b): continue
                r.bad(f'{n} overwrites', f'{n} overwrites a value of the extending config {on(ctx, tr)}')
            if ev[0] in ('push', 'sort') and isinstance(ev[1], T) and ev[1].op == 'fld' and ev[1].a[1] in (3, 4) and is_a(ev[1].a[0]):
                r.ob('overwrites'); r.bad(f'{n} changes', f'{n} changes a list or text of the extending config {on(ctx, tr)}')
            if ev[0].startswith('map.') and ev[0] in ('map.extend', 'map.append', 'map.clear', 'map.retain') and amap(ev[1]):
                r.ob('inserts'); r.bad(f'{n} {ev[0][4:]}', f'{n} changes the object of the extending config as a whole ({ev[0][4:]}) {on(ctx, tr)}')
            if ev[0] == 'call' and ev[1] == n:
                x = [y for y in ev[2] if isinstance(y, T)]; r.ob('goes deeper'); r.site(f'{n}: merges below')
                if len(x) < 2: continue
                if contains(x[1], a) and not contains(x[1], b) and contains(x[0], b) and slot_of(x[0]) is None: r.bad(f'{n} direction', f'{n} merges the extending config into the extended one')
                k = slot_of(x[0])
                if k is not None and k.op == 'fld' and k.a[0].op == 'elem' and k.a[2] == 0 and x[1].op == 'fld' and x[1].a[0].op == 'elem' and x[1].a[0] is not k.a[0]: r.bad(f'{n} other key', f'{n} merges the values of two keys')
        ka, kb = kind(tr, a), kind(tr, b)
        if tr.kind == 'return':
            r.ob('merged')
            if ka == {'Object'} and kb == {'Object'} and not any(ev[0] == 'exhausted' for ev in tr.events()) and not any(ev[0].startswith('map.') for ev in tr.events()):
                if any(is_eq(f) and v and contains(f, bmap) for f, v in tr.facts.items()): continue
                r.bad(f'{n} no objects', f'{n} does not merge two objects key by key {on(ctx, tr)}')
            if ka == {'Null'} and kb != {'Null'} and nullslots and not stored: r.bad(f'{n} nothing', f'{n} drops the extended value where the extending config has none {on(ctx, tr)}')
        for ev in tr.events():
            if ev[0] == 'elem' and contains(ev[1], b) and len(ev) > 4 and dropping(ev[4]): r.bad(f'{n} left out', f'{n} does not go through all keys of the extended config ({dropping(ev[4])})')
        if tr.kind == 'back':
            here = loop_events(tr)
            for ev in here:
                if ev[0] != 'elem' or not contains(ev[1], b) or not in_loop_of(tr, ev[2]): continue
                e = ev[2]; r.ob('each key'); val = fld(e, None, 1); key = fld(e, None, 0)
                if any(x[0] == 'call' and any(isinstance(y, T) and contains(y, e) for y in x[2]) for x in here): continue
                if any(x[0] == 'map.insert' and contains(x[2][1], e) for x in here) or any(x[0] in ('store', 'map.entry') and isinstance(x[-1], T) and contains(x[-1], e) for x in here): continue
                there = [t for t in tr.vars if slot_of(t) is key] + [t for t in tr.vars if t.op == 'fld' and slot_of(t) is key]
                has = any(f.op == 'app' and f.a[0] == 'map.contains' and f.a[2] is key and v for f, v in tr.facts.items()) or there
                if has:
                    ks = set.intersection(*[kind(tr, t) for t in there]) if there else {'Object', 'Null', 'Bool'}
                    if 'Object' not in kind(tr, val) and 'Null' not in ks or not ks & {'Object', 'Null'}: continue
                if any(f.op == 'app' and f.a[0] not in ('map.contains', 'eq', 'lt') and contains(f, e) and murky(ctx, f) for f in tr.facts): r.note(f'{n}: which keys it merges is not followed'); continue
                r.bad(f'{n} left out', f'{n} leaves out a key of the extended config {on(ctx, tr)}')

def chain25(ctx, r, u):
    n = u.name; L = next((p for p in u.params if ctx_ty(ctx, p) in ('Path', 'PathBuf')), None); me = ctx.self_(u) or ctx.param(u, 'Resolver')
    if L is None: r.note(f'{n}: its path is not found'); return
    D = [p for i, p in enumerate(u.params) if ctx.types[u.inst['body']['locals'][i + 1][0]].get('k') in ('int', 'uint')]
    ri = ctx.adt('ResolveResult')[0]; INFO, IGN = ctx.vidx('ResolveResult', 'Info'), ctx.vidx('ResolveResult', 'Ignored')
    reads = app('read', L)
    def own(x):
        """made of the file itself: the value read from it, before anything was merged"""
        return any(y.op == 'app' and y.a[0] == 'read' and L in y.a for y in subterms(x)) or any(isret(y, r'.*read_to_string') and L in y.a for y in subterms(x))
    def ext(x): return isret(x, re.escape(n)) or x.op == 'fld' and ext(x.a[0])
    for tr in u.traces:
        if tr.kind == 'panic': continue
        selfs = [ev for ev in tr.events() if ev[0] == 'call' and ev[1] == n]
        for ev in tr.events():
            if ev[0] == 'fs' and ev[1].startswith('read') and ev[2] is not L and not murky(ctx, ev[2]): r.bad(f'{n} file', f'{n} reads {short(ev[2])} instead of the file it is given')
            if ev[0] != 'call': continue
            if ev[1] == 'merge':
                x = [y for y in ev[2] if isinstance(y, T)]; r.ob('direction'); r.site(f'{n}: merges')
                if len(x) < 2: continue
                if ext(x[0]) and not ext(x[1]): r.bad(f'{n} direction', f'{n} merges a config into the config it extends, which wins then')
                elif not ext(x[1]) and not murky(ctx, x[1]): r.note(f'{n}: what it merges is not followed')
            if ev[1] == 'Resolver::parse':
                t = next((y for y in ev[2] if isinstance(y, T) and y is not me), None); r.ob('request')
                gs = key_gets(t) if t is not None else []
                if t is not None and reworked(t) and gs: r.bad(f'{n} request', f'{n} resolves {short(t)} instead of the text of extends')
                if gs and not any(g.a[2] is S('extends') for g in gs): r.bad(f'{n} request', f'{n} resolves the text of {gs[0].a[2].a[0]!r} as the extended config')
            if ev[1] in ('Resolver::_resolve', 'Resolver::_resolve_with_tsconfig'):
                i = next((y for y in ev[2] if isinstance(y, T) and ctx_ty(ctx, y) == 'ResolveInfo'), None); r.ob('from where'); r.site(f'{n}: resolves the extended config')
                if i is None: continue
                p = ctx.path(i)
                if parent_of(p) is L: pass
                elif p.op == 'app' and p.a[0] == 'unwrap_or' and contains(p, L): pass
                elif murky(ctx, p): r.note(f'{n}: from where it resolves is not followed')
                else: r.bad(f'{n} from where', f'{n} resolves the extended config from {short(p)} instead of the directory of the file')
            if ev[1] == n:
                x = [y for y in ev[2] if isinstance(y, T)]; r.ob('extended file'); r.site(f'{n}: reads the extended config')
                p = next((y for y in x if ctx_ty(ctx, y) in ('Path', 'PathBuf')), None)
                if p is not None and not hasret(p, r'.*_resolve.*') and not murky(ctx, p) : r.bad(f'{n} extended file', f'{n} reads {short(p)}, not what extends resolves to')
                elif p is not None and not (p.op == 'fld' and p.a[2] == ctx.fidx('ResolveInfo', 'path')) and not murky(ctx, p): r.bad(f'{n} extended file', f'{n} reads {short(p)}, not what extends resolves to')
                for d in D:
                    y = x[u.params.index(d)] if len(x) == len(u.params) else None
                    if y is None: continue
                    if y is d or y.op == 'int': r.bad(f'{n} depth', f'{n} reads an extended config without counting: a cycle has no end')
        if tr.kind != 'return': continue
        k = result(ctx, tr.ret)
        if k is None:
            if isret(tr.ret, re.escape(n)) and tr.vars.get(tr.ret) == frozenset([1]): r.ob('error'); continue
            if isret(tr.ret, re.escape(n)) or ext(tr.ret): r.bad(f'{n} dropped', f'{n} answers the extended config alone {on(ctx, tr)}')
            continue
        if k[0] == 'Err': r.ob('error'); r.site(f'{n}: fails'); continue
        v = k[1]; r.ob('answer'); r.site(f'{n}: answers')
        for t, vs in tr.vars.items():
            if t.op == 'app' and t.a[0] == 'read' and L in t.a and vs == frozenset([1]): r.bad(f'{n} unread', f'{n} answers a config although its file cannot be read {on(ctx, tr)}')
            if t.op == 'app' and t.a[0] in ('jsonc', 'json') and own(t) and vs == frozenset([1]): r.bad(f'{n} unparsed', f'{n} answers a config although its file cannot be parsed {on(ctx, tr)}')
            if t.op == 'fld' and t.a[1] == 0 and t.a[0].op == 'app' and t.a[0].a[0] == 'jsonc' and own(t) and vs == frozenset([0]): r.bad(f'{n} empty', f'{n} answers a config although its file has none {on(ctx, tr)}')
            if isret(t, re.escape(n)) and vs == frozenset([1]): r.bad(f'{n} extended error', f'{n} goes on without an extended config that fails {on(ctx, tr)}')
            if t.op == 'fld' and isret(t.a[0], r'.*::_resolve.*') and ctx.vname(tr, t) == 'Ignored': r.bad(f'{n} ignored', f'{n} goes on without an extended config that is ignored {on(ctx, tr)}')
        for d in D:
            for f, w in tr.facts.items():
                if f.op == 'app' and f.a[0] == 'lt' and f.a[1] is d and f.a[2].op == 'int' and not w: r.bad(f'{n} cycle', f'{n} answers a config which extends itself too deeply {on(ctx, tr)}')
                if f.op == 'app' and f.a[0] == 'lt' and f.a[2] is d and f.a[1].op == 'int' and w: r.bad(f'{n} cycle', f'{n} answers a config which extends itself too deeply {on(ctx, tr)}')
        if D and not any(f.op == 'app' and f.a[0] in ('lt', 'eq') and any(x is d for x in f.a) for f in tr.facts for d in D) and selfs: r.bad(f'{n} cycle', f'{n} reads extended configs without bound {on(ctx, tr)}')
        done = [ev for ev in selfs if tr.vars.get(ev[3]) == frozenset([0]) or tr.vars.get(ev[3]) is None]
        if done:
            if not any(ext(x) for x in subterms(v)): 
                if not murky(ctx, v): r.bad(f'{n} dropped', f'{n} answers without the extended config {on(ctx, tr)}')
            elif not own(strip25(v, n)): r.bad(f'{n} dropped', f'{n} answers the extended config alone {on(ctx, tr)}')
        elif not own(v) and not murky(ctx, v) : r.bad(f'{n} default', f'{n} answers {short(v)} instead of what the file says {on(ctx, tr)}')
        # extends is followed
        texts = [t for t, vs in tr.vars.items() if js(tr, ctx, t, 'String') is True and t.op in ('app', 'fld') and any(g.a[2] is S('extends') for g in key_gets(t)) and own(t)]
        if texts and not any(ev[0] == 'call' and (ev[1].startswith('Resolver::_resolve') or ev[1] == n) for ev in tr.events()):
            if any(contains(f, S('extends')) and not (f.op == 'app' and f.a[0] == 'map.contains') for f in tr.facts): r.bad(f'{n} not followed', f'{n} does not read a config that is extended {on(ctx, tr)}')
            else: r.bad(f'{n} not followed', f'{n} does not read a config that is extended {on(ctx, tr)}')
        for t, vs in tr.vars.items():
            if isret(t, r'Resolver::_resolve.*') and vs == frozenset([ctx.vidx('ResolverStats', 'Success')]) and not selfs and not any(ctx.vname(tr, x) == 'Ignored' for x in tr.vars if x.op == 'fld' and x.a[0] is t): r.bad(f'{n} not followed', f'{n} does not read a config that is found {on(ctx, tr)}')
def strip25(v, n):
    """without the arguments of the call of the function itself"""
    if isret(v, re.escape(n)): return mk('gone')
    return mk(v.op, *[strip25(x, n) if isinstance(x, T) else x for x in v.a])

def fields25(ctx, r, u):
    n = u.name; ctx.unit(n, r)
    _, t = ctx.adt('CompilerOptions'); names = [f[0] for f in t['variants'][0]['fields']]
    KEY = {'base_url': 'baseUrl', 'paths': 'paths'}
    def opts_none(x): return x.op == 'agg' and ctx.types[x.a[0]]['name'].endswith('Option') and x.a[1] == 0
    checked = set()
    for tr in u.traces:
        if tr.kind == 'panic': continue
        for ev in tr.events():
            if ev[0] == 'make' and ev[1].op == 'agg' and is_c25(ctx, ev[1]):
                val = dict(zip(names, ev[1].a[2:]))
                for f, key in KEY.items():
                    if f not in val: continue
                    v = val[f]; r.ob('field'); r.site(f'{n}: {f}')
                    if opts_none(v):
                        k = get_known(tr, key); c = get_known(tr, 'compilerOptions')
                        if k == 'absent' or c == 'absent' : continue
                        if k in ('there', 'other type') or here25(tr, key): r.bad(f'{n} {f} left out', f'{n} leaves {f} empty although the config has {key!r} {on(ctx, tr)}')
                        else: r.bad(f'{n} {f} left out', f'{n} leaves {f} empty although the config may have {key!r} {on(ctx, tr)}')
                        continue
                    parts = expand(u, v); gets = [g for p in parts for g in key_gets(p)]
                    last = {g.a[2].a[0] for g in gets} - {'compilerOptions', 'extends'}
                    if last - {key}: r.bad(f'{n} {f} from {sorted(last - {key})[0]}', f'{n} takes {f} from {sorted(last - {key})[0]!r} instead of {key!r}'); continue
                    if not last:
                        if any(murky(ctx, p) or hasret(p, r'.*') for p in parts) or v.op in ('fld', 'app'): r.note(f'{n}: where {f} comes from is not followed')
                        else: r.bad(f'{n} {f} made up', f'{n} fills {f} with {short(v)}, not from {key!r}')
                        continue
                    pay = v.a[2] if v.op == 'agg' and len(v.a) > 2 else v
                    if f == 'base_url' and reworked(pay): r.bad(f'{n} {f} changed', f'{n} changes {f}: {short(pay)}')
                    for g in gets:
                        if g.a[2].a[0] == key and not any(h.a[2] is S('compilerOptions') for h in key_gets(g.a[1])) and not murky(ctx, g.a[1]) and not hasret(g.a[1], r'(?!parse_file_to_value).*'): r.bad(f'{n} {f} place', f'{n} takes {f} from {short(g.a[1])} instead of compilerOptions')
            if ev[0] == 'map.insert' and about25(u, ev, 'paths'):
                k, v = ev[2][0], ev[2][1]; r.ob('kept'); r.site(f'{n}: keeps the paths')
                if reworked(k): r.bad(f'{n} pattern changed', f'{n} keeps {short(k)} instead of the pattern')
                parts = expand(u, v)
                for p in parts:
                    for x in subterms(p):
                        if x.op == 'app' and x.a[0] == 'collect':
                            if any(isinstance(y, T) and reworked(y) for y in x.a[3:]): r.bad(f'{n} path changed', f'{n} changes a path of a pattern: {short(x)}')
                if k.op == 'fld' and k.a[0].op == 'elem' and not contains(v, k.a[0]) and not any(contains(p, k.a[0]) for p in parts) and not murky(ctx, v): r.bad(f'{n} other paths', f'{n} keeps {short(v)} for a pattern, not its paths')
            if ev[0] == 'elem' and len(ev) > 4 and any(g.a[2] is S('paths') for g in key_gets(ev[1])):
                d = dropping(ev[4])
                if d and not d.startswith('filter'): r.bad(f'{n} paths left out', f'{n} does not take all entries of paths ({d})')
        if tr.kind == 'back':
            here = loop_events(tr)
            for ev in here:
                if ev[0] != 'elem' or not any(g.a[2] is S('paths') for g in key_gets(ev[1])): continue
                r.ob('kept')
                outer = fld_chain(ev[1])
                if in_loop_of(tr, ev[2]) or tr.info['head'] in ('filter_map', 'filter', 'flat_map', 'collect', 'map'):
                    # the entry of paths itself
                    if isinstance(tr.info['head'], int) and not any(x[0] in ('map.insert', 'push', 'collect') for x in here): r.bad(f'{n} paths left out', f'{n} drops an entry of paths {on(ctx, tr)}')
            for ev in here:
                if ev[0] == 'elem' and len(ev) > 4 and ev[2].op == 'app' and ev[2].a[0] == 'as_str' and isinstance(ev[4], T) and ev[4].op == 'itfmap' and any(g.a[2] is S('paths') for g in key_gets(ev[1])): r.bad(f'{n} paths ill typed', f'{n} drops the entries of paths that are no text')
            # a path that is no text is dropped
            for t_, vs in tr.vars.items():
                if t_.op == 'app' and t_.a[0] == 'as_str' and vs == frozenset([0]) and any(g.a[2] is S('paths') for g in key_gets(t_)): r.bad(f'{n} paths ill typed', f'{n} goes on although paths has an entry that is no text {on(ctx, tr)}')
                if t_.op == 'app' and t_.a[0] in ('as_array', 'as_object') and vs == frozenset([0]) and any(g.a[2] is S('paths') for g in key_gets(t_)): r.bad(f'{n} paths ill typed', f'{n} goes on although paths has an entry of another type {on(ctx, tr)}')
        if tr.kind == 'return':
            k = result(ctx, tr.ret)
            if k is None or k[0] != 'Ok': continue
            r.ob('answer')
            for t_, vs in tr.vars.items():
                if isret(t_, r'parse_file_to_value') and vs == frozenset([1]): r.bad(f'{n} default', f'{n} answers a config although it failed {on(ctx, tr)}')
                for key in ('baseUrl', 'paths'):
                    if t_.op == 'app' and str(t_.a[0]).startswith('as_') and vs == frozenset([0]) and any(g.a[2] is S(key) for g in key_gets(t_)): r.bad(f'{n} {key} ill typed', f'{n} answers a config although its {key} has another type {on(ctx, tr)}')
                    if t_.op == 'fld' and t_.a[1] == 1 and t_.a[0].op == 'app' and t_.a[0].a[0] in GETS and t_.a[0].a[2] is S(key) and vs is not None and not vs & {3, 5}: r.bad(f'{n} {key} ill typed', f'{n} answers a config although its {key} has another type {on(ctx, tr)}')
def here25(tr, key): return any(f.op == 'app' and f.a[0] == 'map.contains' and len(f.a) > 2 and f.a[2] is S(key) and v for f, v in tr.facts.items())
def about25(u, ev, key):
    return any(g.a[2] is S(key) for x in ev[2] if isinstance(x, T) for p in expand(u, x, 10) for g in key_gets(p))
def fld_chain(t): return t

# ---------------------------------------------------------------- C26
PAT26 = ['*', 'a', 'ab', 'a*', '*a', 'a*a', 'a/*', 'a/*/b', '@a/*', 'é*', '*é', 'a*b', 'aa*aa', 'a.b', 'A*', '/a', 'a*b*c', '']
TGT26 = ['', 'a', 'b', 'aa', 'ab', 'ba', 'aba', 'aab', 'aaa', 'aaaa', 'aaaaa', 'a/', 'a/b', 'a/c', 'ab/c', 'a/x/b', 'a/b/b', 'a/b', 'xa/b', '@a/b', '@ab', 'é', 'éa', 'aé', 'éé', 'axb', 'axbyc', 'axyb*c', 'A', '*', 'a*', '/a', 'a.b', 'a.c', 'axb/', 'a/x/b/c', 'b/a/x', './a/b', 'a/*']
OWN26 = []
def spec26(p, t):
    """the parts that may replace the star; None: the pattern does not match"""
    if p == t: return {''} | (spec_star(p, t) or set())
    return spec_star(p, t)
def spec_star(p, t):
    if '*' not in p: return None
    a, b = p.split('*', 1)
    if len(t) < len(a) + len(b) or not t.startswith(a) or not t.endswith(b): return None
    return {t[len(a):len(t) - len(b)]}
def c26(ctx, r):
    """Every path that resolves a request made from an entry of paths: for every pair of a pattern and a request of a class of words the guards of this path can hold only where the pattern matches the request, and the text put in place of the star is the part in between; a path that passes over an entry cannot be taken where it matches. The replaced path is below baseUrl, joined to the directory of the tsconfig. A mapped answer is returned only where it is known to be a success, the entries and their paths are tried to the end, and then the request itself is resolved, unchanged."""
    u = ctx.unit('Resolver::_resolve_with_tsconfig', r)
    if u is None: return
    n = u.name; P = ctx.info(u); me = ctx.self_(u); L = next((p for p in u.params if ctx_ty(ctx, p) in ('Path', 'PathBuf')), None)
    if P is None or L is None: r.note(f'{n}: its request or path is not found'); return
    tgt = ctx.target(P); SUCC = ctx.vidx('ResolverStats', 'Success'); ERR = ctx.vidx('ResolverStats', 'Error')
    OWN26[:] = own_words(ctx, u, *[ctx.A.units[x] for x in ('Resolver::match_star',) if x in ctx.A.units], nums=True)[:24]
    def mapped(x): return contains_elem(x)
    def contains_elem(x): return any(y.op == 'elem' for y in subterms(x))
    def entry_of(p):
        """(entry, its pattern terms) that a path was made from"""
        es = [y for y in subterms(p) if y.op == 'elem']
        if not es: return None
        # the outermost: not containing the others as its own element
        return min(es, key=lambda e: sum(1 for y in subterms(e) if y.op == 'elem'))
    def pats(tr, e):
        """the texts of an entry that are compared with the request"""
        out = set()
        for t in list(tr.facts) + list(tr.vars) + [x for ev in tr.events() if ev[0] == 'call' for x in ev[2] if isinstance(x, T)]:
            for y in subterms(t):
                if y.op == 'fld' and y.a[0] is e:
                    nm = ctx_field(ctx, y)
                    if nm == 'pattern' or nm is None and y.a[1] is None and y.a[2] == 0: out.add(y)
        return out
    def understood(tr, pat, env):
        e = strs.Ev(ctx, env)
        for t in list(tr.facts) + list(tr.vars):
            if not any(contains(t, x) for x in env): continue
            if hasret(t, r'Resolver::_resolve.*|.*apply'): continue
            if e.ev(t) is strs.UNK and not any(y.op == 'fld' and ctx_field(ctx, y) == 'paths' for y in subterms(t)): return False
        return True
    for tr in u.traces:
        if tr.kind == 'panic': continue
        calls = [ev for ev in tr.events() if ev[0] == 'call' and ev[1] == 'Resolver::_resolve']
        done = set()
        for ev in calls:
            i = next((y for y in ev[2] if isinstance(y, T) and ctx_ty(ctx, y) == 'ResolveInfo'), None)
            if i is None or i is P: continue
            p = ctx.path(i)
            if not contains_elem(p):
                if p is not ctx.path(P) and not murky(ctx, p): r.note(f'{n}: a request that is not made from an entry is resolved')
                continue
            e = entry_of(p); r.ob('mapping'); r.site(f'{n}: resolves a mapped request')
            ps = pats(tr, e)
            if len(ps) != 1:
                if not ps and not murky(ctx, p) and not any(contains(t, tgt) for t in list(tr.facts) + list(tr.vars)): r.bad(f'{n} any request', f'{n} resolves a mapped request without having compared the pattern with the request')
                else: r.note(f'{n}: how a pattern is matched is not followed')
            else: words26(ctx, r, n, tr, p, next(iter(ps)), tgt, understood)
            place26(ctx, r, n, tr, p, L)
            q = ctx.req(i); t = ctx.F(q, 'Request', 'target')
            if t is tgt: r.bad(f'{n} target', f'{n} resolves a mapped path with the request below it')
        for ev in tr.events():
            if ev[0] == 'elem' and len(ev) > 4:
                d = dropping(ev[4])
                if d and ev[2].op == 'elem' and not d.startswith('filter') and (not inner26(ev[1]) or any(isinstance(y, T) and ctx_field(ctx, y) == 'paths' for y in subterms(ev[1]))): r.bad(f'{n} left out', f'{n} does not try all mappings ({d})')
        if tr.kind == 'back' and not calls and isinstance(tr.info['head'], int):
            here = loop_events(tr)
            for ev in here:
                if ev[0] != 'elem' or not in_loop_of(tr, ev[2]) or inner26(ev[1]): continue
                if any(x[0] in ('exhausted', 'loop') for x in here[1:]) : continue
                ps = pats(tr, ev[2])
                if len(ps) != 1:
                    if not ps and not any(murky(ctx, t) for t in tr.facts): r.bad(f'{n} left out', f'{n} passes over a mapping without having compared it with the request {on(ctx, tr)}')
                    continue
                pat = next(iter(ps)); r.ob('passed over'); r.site(f'{n}: passes over a mapping')
                for w in PAT26 + OWN26:
                    for t in TGT26 + OWN26:
                        m = spec26(w, t)
                        if m is None or m == {''} and w != t: continue
                        env = {pat: w, tgt: t}
                        ok, _ = strs.run(ctx, tr, env)
                        if ok is False: continue
                        if ok is None and not understood(tr, pat, env): r.note(f'{n}: how a pattern is matched is not followed'); break
                        r.bad(f'{n} not applied', f'{n} passes over the mapping {w!r} for {t!r}'); break
                    else: continue
                    break
        if tr.kind == 'back' and isinstance(tr.info['head'], int):
            here = loop_events(tr); ins = [ev for ev in here if ev[0] == 'elem' and inner26(ev[1]) and not in_loop_of(tr, ev[2])]
            for ev in ins:
                if not any(x[0] == 'exhausted' and x[1] is ev[1] for x in here): r.bad(f'{n} not all', f'{n} does not try all paths of a mapping {on(ctx, tr)}')
        if tr.kind != 'return': continue
        v = tr.ret; b = ctx.stats(v); r.ob('answer'); r.site(f'{n}: answers')
        if isret(v, r'Resolver::_resolve'):
            i = next((y for y in v.a[2:] if ctx_ty(ctx, y) == 'ResolveInfo'), None)
            if i is P:
                left = [ev for ev in tr.events() if ev[0] == 'elem' and not any(x[0] == 'exhausted' and x[1] is ev[1] for x in tr.events()) and not ctx_ty(ctx, ev[2]) == 'serde']
                left = [ev for ev in left if any(c[0] == 'call' and c[1] == 'Resolver::_resolve' and any(isinstance(y, T) and contains(y, ev[2]) for y in c[2]) for c in tr.events()) or pats(tr, ev[2])]
                if left: r.bad(f'{n} given up', f'{n} resolves the request unchanged although there are mappings left {on(ctx, tr)}')
                continue
            if i is None: continue
            if contains_elem(ctx.path(i)):
                if tr.vars.get(v) != frozenset([SUCC]): r.bad(f'{n} fails', f'{n} answers what a mapping leads to although it may not be found {on(ctx, tr)}')
            elif ctx.path(i) is ctx.path(P):
                for f in ('target', 'query', 'fragment'):
                    x = ctx.F(ctx.req(i), 'Request', f)
                    y = ctx.F(ctx.req(P), 'Request', f)
                    if isret(x, r'.*parse.*') or x.op == 'fld' and hasret(x, r'.*parse.*'):
                        z = x
                        while z.op == 'fld': z = z.a[0]
                        if not contains(z, y) and z.op == 'ret' and not any(isinstance(a, T) and murky(ctx, a) for a in z.a[2:]) and not any(a is ctx.req(P) or a is P or isinstance(a, T) and (contains(a, ctx.req(P)) and not contains(a, tgt) or a.op == 'app' and a.a[0] in ('display', 'to_string')) for a in z.a[2:]): r.bad(f'{n} {f}', f'{n} resolves the replaced request without the {f} it came with')
                    if x is not y and not murky(ctx, x): r.bad(f'{n} changed', f'{n} resolves the request with another {f}: {short(x)}')
            elif not murky(ctx, ctx.path(i)): r.bad(f'{n} changed', f'{n} resolves the request from another directory: {short(ctx.path(i))}')
        elif b is not None and b[0] == 'Error':
            bad = [x for x in subterms(v) if isret(x, r'TsConfig::parse_file|parse_file_to_value')]
            if not bad and not calls and not murky(ctx, v): r.bad(f'{n} error', f'{n} fails although the config was read {on(ctx, tr)}')
    u2 = ctx.unit('Resolver::get_absolute_mapping_entries', r)
    if u2 is not None: entries26(ctx, r, u2)
def inner26(b):
    """the paths of an entry"""
    return any(y.op == 'elem' for y in subterms(b))
def words26(ctx, r, n, tr, p, pat, tgt, understood):
    for w in PAT26 + OWN26:
        for t in TGT26 + OWN26:
            env = {pat: w, tgt: t}
            ok, e = strs.run(ctx, tr, env)
            if ok is False: continue
            m = spec26(w, t)
            if m is None:
                if ok is None and not understood(tr, pat, env): r.note(f'{n}: how a pattern is matched is not followed'); return
                r.bad(f'{n} no match', f'{n} applies the mapping {w!r} to {t!r}'); return
            for x in subterms(p):
                if x.op != 'app' or x.a[0] not in ('replace', 'replacen'): continue
                k = e.ev(x.a[2]); v = e.ev(x.a[3])
                if k != '*' and k is not strs.UNK: r.bad(f'{n} star', f'{n} replaces {k!r} instead of the star'); return
                if v is strs.UNK:
                    if not murky(ctx, x.a[3]) and not x.a[3].op == 'fld': r.note(f'{n}: what replaces the star is not followed')
                    continue
                if v not in m: r.bad(f'{n} star', f'{n} puts {v!r} in place of the star for the mapping {w!r} and {t!r}'); return
def place26(ctx, r, n, tr, p, L):
    reps = [x for x in subterms(p) if x.op == 'app' and x.a[0] in ('replace', 'replacen')]
    for x in reps:
        src = x.a[1]
        whole = src.op == 'fld' and src.a[0].op == 'app' and src.a[0].a[0] in ('to_str', 'to_string_lossy') and src.a[0].a[1].op == 'elem' or src.op == 'elem'
        r.ob('below baseUrl')
        if whole:
            el = src.a[0].a[1] if src.op == 'fld' else src
            known = [t for t, vs in tr.vars.items() if t.op == 'app' and t.a[0] == 'path_strip_prefix' and t.a[1] is el and vs == frozenset([1])]
            rooted = any(f.op == 'app' and f.a[0] == 'has_root' and v and contains(f, el) for f, v in tr.facts.items())
            if ctx_ty(ctx, el) in ('String', 'str'): continue
            if not known and not rooted: r.bad(f'{n} baseUrl star', f'{n} replaces stars in the directory of the config as well {on(ctx, tr)}')
    if not reps:
        if p.op == 'elem':
            if any(t.op == 'app' and t.a[0] == 'to_str' and vs == frozenset([0]) for t, vs in tr.vars.items()): return
            if any(is_eq(f) and v and f.a[1].op != 'elem' and any(isinstance(x, T) and ctx_field(ctx, x) == 'pattern' for x in f.a[1:]) for f, v in tr.facts.items()): return
            if any(f.op == 'app' and f.a[0] == 'contains' and contains(f, p) and not v for f, v in tr.facts.items()): return
            r.bad(f'{n} star kept', f'{n} resolves {short(p)} with its star {on(ctx, tr)}')
    # the directory: parent(config) joined with baseUrl
    for x in subterms(p):
        if x.op == 'app' and x.a[0] == 'join' and not any(y.op == 'elem' for y in subterms(x.a[1])) and parent_of(x.a[1]) is not None and any(y.op == 'fld' and ctx_field(ctx, y) == 'base_url' for y in subterms(x.a[2])):
            r.ob('next to the config')
            if parent_of(x.a[1]) is not L: r.bad(f'{n} base', f'{n} takes baseUrl relative to {short(x.a[1])} instead of the directory of the config')
    for ev in tr.events():
        if ev[0] == 'call' and ev[1].endswith('get_absolute_mapping_entries'):
            b = next((y for y in ev[2] if isinstance(y, T) and ctx_ty(ctx, y) in ('Path', 'PathBuf')), None)
            if b is None: b = next((y for y in ev[2] if isinstance(y, T) and y.op == 'fld' and any(isinstance(z, T) and ctx_field(ctx, z) == 'base_url' for z in subterms(y)) and not any(ctx_field(ctx, z) == 'paths' for z in subterms(y) if z.op == 'fld')), None)
            if b is None: continue
            r.ob('next to the config')
            if b.op == 'app' and b.a[0] == 'join':
                if parent_of(b.a[1]) is not L and not murky(ctx, b.a[1]): r.bad(f'{n} base', f'{n} takes baseUrl relative to {short(b.a[1])} instead of the directory of the config')
                if not any(y.op == 'fld' and ctx_field(ctx, y) == 'base_url' for y in subterms(b.a[2])) and not murky(ctx, b.a[2]): r.bad(f'{n} base', f'{n} takes the paths relative to {short(b)} instead of baseUrl')
            elif not murky(ctx, b): r.bad(f'{n} base', f'{n} takes the paths relative to {short(b)} instead of baseUrl next to the config')
def entries26(ctx, r, u):
    n = u.name; B = next((p for p in u.params if ctx_ty(ctx, p) in ('Path', 'PathBuf')), None); i, t = ctx.adt('MappingEntry')
    if B is None or t is None: r.note(f'{n}: its directory is not found'); return
    names = [f[0] for f in t['variants'][0]['fields']]
    for tr in u.traces:
        if tr.kind == 'panic': continue
        for ev in tr.events():
            if ev[0] == 'elem' and len(ev) > 4:
                d = dropping(ev[4])
                if d: r.bad(f'{n} left out', f'{n} does not keep all mappings ({d})')
            if ev[0] == 'make' and ev[1].op == 'agg' and ev[1].a[0] == i:
                val = dict(zip(names, ev[1].a[2:])); r.ob('entry'); r.site(f'{n}: keeps a mapping')
                k, ps = val.get('pattern'), val.get('paths')
                if k is not None and reworked(k): r.bad(f'{n} pattern', f'{n} changes a pattern: {short(k)}')
                if k is not None and ps is not None and k.op == 'fld' and k.a[0].op == 'elem':
                    if not any(contains(x, k.a[0]) for x in expand(u, ps)) and not murky(ctx, ps): r.bad(f'{n} other', f'{n} keeps the paths of another mapping')
                for x in expand(u, ps) if ps is not None else []:
                    for y in subterms(x):
                        if y.op == 'app' and y.a[0] == 'join':
                            r.ob('base')
                            if y.a[1] is not B and not murky(ctx, y.a[1]) and not contains(y.a[1], B): r.bad(f'{n} base', f'{n} joins a path to {short(y.a[1])} instead of baseUrl')
                            if reworked(y.a[2]): r.bad(f'{n} path', f'{n} changes a path: {short(y.a[2])}')
                        if y.op == 'app' and y.a[0] == 'collect' and len(y.a) > 3 and not any(isinstance(z, T) and any(q.op == 'app' and q.a[0] == 'join' for q in subterms(z)) for z in y.a[3:]) and any(isinstance(z, T) and any(q.op == 'elem' for q in subterms(z)) for z in y.a[3:]):
                            if not any(murky(ctx, z) for z in y.a[3:] if isinstance(z, T)): r.bad(f'{n} base', f'{n} keeps a path without joining it to baseUrl: {short(y)}')

# ---------------------------------------------------------------- C27
KEY27 = ['a', 'ab', '@a', 'a/', './a', 'é', 'aa', '/a', 'a.b', 'b']
TGT27 = ['a', 'aa', 'aaa', 'ab', 'a/b', 'ba', 'b', 'a/a', 'aba', 'ab/ab', '@a/b', './a/a', 'éa', 'aé', 'éé', '/a/a', 'x/a', 'a.b/a.b', 'aXb', 'A', 'a/', 'b/b', '', 'a/' + 'b' * 80 + '.js']
TO27 = ['x', 'b', 'é/y', './z', 'a']
def listed(it):
    """the list that an iterator goes through, and whether it goes backwards"""
    back = False; k = 0
    while isinstance(it, T) and k < 20:
        k += 1
        if it.op == 'itpass' and it.a[0] == 'rev': back = not back
        if it.op == 'it': it = it.a[0]; break
        if it.op == 'app' and it.a[0] in ('rev', 'list') or not it.op.startswith('it'): break
        it = next((y for y in it.a if isinstance(y, T)), None)
    while isinstance(it, T) and it.op == 'app' and it.a[0] in ('rev', 'list') and len(it.a) > 1:
        if it.a[0] == 'rev': back = not back
        it = it.a[1]
    return it, back
def c27(ctx, r):
    """For every path that resolves a request made from an entry of the option alias, and every triple of a key, a replacement and a request of a class of words: where the guards of the path can hold, the request starts with the key, and the new target is the replacement followed by the rest. Directory, query and fragment stay; the new request goes through the whole resolution. Where a path passes over an entry, the request does not start with the key (or starts with the replacement, or was replaced too often). What the replacement leads to is answered only where it is known to be a success; the path that gives up has seen all entries and hands on the request it was given. The list is visited in its order, without leaving anything out."""
    SUCC = ctx.vidx('ResolverStats', 'Success')
    al = [n for n, u in ctx.A.units.items() if any(ev[0] == 'elem' and is27(ctx, ev[1]) for tr in u.traces for ev in tr.events())]
    if not al: r.note('where aliases are applied is not found')
    for n in al:
        u = ctx.unit(n, r); P = ctx.info(u)
        if P is None: continue
        tgt = ctx.target(P)
        OWN27[:] = own_words(ctx, u, pre=('', 'a/'), nums=True)[:24]
        def env27(e, k, to, t): return {fld(e, None, 0): k, fld(fld(e, None, 1), 0, 0, 1): to, tgt: t}
        def understood(tr, env):
            ev = strs.Ev(ctx, env)
            for t in list(tr.facts) + list(tr.vars):
                if not any(contains(t, x) for x in env) or hasret(t, r'.*'): continue
                if ev.ev(t) is strs.UNK: return False
            return True
        def limited(tr): return any(f.op == 'app' and f.a[0] in ('lt', 'eq') and any(contains(x, ctx.depth(P)) for x in f.a[1:] if isinstance(x, T)) for f in tr.facts)
        tried = False
        for tr in u.traces:
            if tr.kind == 'panic': continue
            es = [ev[2] for ev in tr.events() if ev[0] == 'elem' and is27(ctx, ev[1]) and ev[2].op == 'elem']
            if not es: continue
            calls = []
            for ev in tr.events():
                if ev[0] == 'elem' and len(ev) > 4 and is27(ctx, ev[1]):
                    r.ob('all in order'); d = dropping(ev[4])
                    if d and not d.startswith('filter'): r.bad(f'{n} left out', f'{n} does not try all aliases ({d})')
                    if listed(ev[4])[1]: r.bad(f'{n} order', f'{n} tries the aliases in another order than they are listed')
                if ev[0] != 'call' or ev[1] not in ctx.A.units: continue
                i = next((y for y in ev[2] if isinstance(y, T) and ctx_ty(ctx, y) == 'ResolveInfo'), None)
                if i is None or i is P: continue
                e = next((e for e in es if contains(i, e)), None)
                if e is None: continue
                calls.append((ev, i)); tried = True; r.ob('replaced'); r.site(f'{n}: resolves a replaced request')
                if ev[1] != 'Resolver::_resolve' and not ev[1].endswith('_with_tsconfig') and ev[1] != 'Resolver::resolve' and not any(c[1] == 'Resolver::_resolve' for c in tr.events() if c[0] == 'call' and any(y is i for y in c[2])) and not (contains(ev[3], i) and any(c[0] == 'call' and c is not ev and any(isinstance(y, T) and contains(y, ev[3]) for y in c[2]) for c in tr.events())): r.bad(f'{n} not whole', f'{n} hands the replaced request to {ev[1]} only')
                p = ctx.path(i)
                if p is not ctx.path(P) and not murky(ctx, p) and not hasret(p, r'.*'): r.bad(f'{n} directory', f'{n} resolves the replaced request from {short(p)} instead of the same directory')
                for f in ('query', 'fragment'):
                    x = ctx.F(ctx.req(i), 'Request', f)
                    y = ctx.F(ctx.req(P), 'Request', f)
                    if isret(x, r'.*parse.*') or x.op == 'fld' and hasret(x, r'.*parse.*'):
                        z = x
                        while z.op == 'fld': z = z.a[0]
                        if not contains(z, y) and z.op == 'ret' and not any(isinstance(a, T) and murky(ctx, a) for a in z.a[2:]) and not any(a is ctx.req(P) or a is P or isinstance(a, T) and (contains(a, ctx.req(P)) and not contains(a, tgt) or a.op == 'app' and a.a[0] in ('display', 'to_string')) for a in z.a[2:]): r.bad(f'{n} {f}', f'{n} resolves the replaced request without the {f} it came with')
                    if x is not y and not murky(ctx, x) and not hasret(x, r'.*parse.*'): r.bad(f'{n} {f}', f'{n} resolves the replaced request with another {f}: {short(x)}')
                words27(ctx, r, n, tr, e, ctx.target(i), env27, understood)
            v = tr.ret if tr.kind == 'return' else None
            b = ctx.stats(v) if v is not None else None
            if b is not None and b[0] == 'Success' and not calls:
                # an entry that is ignored
                k27(ctx, r, n, tr, es[-1], env27, understood)
            if tr.kind == 'back' and isinstance(tr.info['head'], int) or tr.kind == 'back' and tr.info['head'] in ('for_each', 'fold', 'find_map', 'find', 'try_for_each'):
                e = next((e for e in es if in_loop_of(tr, e)), None)
                if e is None: continue
                if calls:
                    for ev, i in calls:
                        if tr.vars.get(ev[3]) == frozenset([SUCC]): r.bad(f'{n} dropped', f'{n} drops the answer that a replacement led to {on(ctx, tr)}')
                    continue
                if tr.info['head'] in ('find', 'position'): continue
                r.ob('passed over'); r.site(f'{n}: passes over an alias')
                if limited(tr) or 0 not in (tr.vars.get(fld(e, None, 1)) or [0]): continue
                for k, to, t in words():
                    if not t.startswith(k) or t.startswith(to): continue
                    env = env27(e, k, to, t); ok, _ = strs.run(ctx, tr, env)
                    if ok is False: continue
                    if not understood(tr, env): r.note(f'{n}: how an alias is compared is not followed'); break
                    r.bad(f'{n} not applied', f'{n} passes over the alias {k!r} (to {to!r}) for {t!r} {on(ctx, tr)}'); break
            if v is None: continue
            r.ob('answer')
            for ev, i in calls:
                if v is ev[3] and tr.vars.get(v) != frozenset([SUCC]) : r.bad(f'{n} fails', f'{n} answers what an alias leads to although it may not be found {on(ctx, tr)}')
            if b is not None and b[0] == 'Error' and calls and not any(is_eq(f) and not val and contains(f, calls[-1][0][3]) for f, val in tr.facts.items()): r.bad(f'{n} fails', f'{n} fails because an alias leads nowhere {on(ctx, tr)}')
            if b is not None and b[0] == 'Resolving':
                left = [ev for ev in tr.events() if ev[0] == 'elem' and is27(ctx, ev[1]) and ev[2].op == 'elem' and not any(x[0] == 'exhausted' and x[1] is ev[1] for x in tr.events())]
                if left and (calls or not limited(tr)): r.bad(f'{n} given up', f'{n} gives up although there are aliases left {on(ctx, tr)}')
        if tried:
            for tr in u.traces:
                b = ctx.stats(tr.ret) if tr.kind == 'return' else None
                if b is not None and b[0] == 'Resolving' and b[1] is not P:
                    for f, g in (('directory', ctx.path), ('request', ctx.target), ('query', ctx.query), ('fragment', ctx.fragment)):
                        if g(b[1]) is not g(P) and not hasret(g(b[1]), r'.*') and not murky(ctx, g(b[1])): r.bad(f'{n} unaliased', f'{n} hands on another {f} than the unaliased request: {short(g(b[1]))}')
def is27(ctx, b):
    b = listed(b)[0] if b.op in ('app', 'it') else b
    return isinstance(b, T) and b.op == 'fld' and ctx_field(ctx, b) == 'alias'
def words():
    for k in KEY27 + OWN27[:8]:
        for t in TGT27 + OWN27:
            for to in TO27 + OWN27[:8]: yield k, to, t
OWN27 = []
def k27(ctx, r, n, tr, e, env27, understood):
    for k in KEY27 + OWN27[:8]:
        for t in TGT27 + OWN27:
            if t.startswith(k): continue
            env = env27(e, k, 'x', t); ok, _ = strs.run(ctx, tr, env)
            if ok is False: continue
            if not understood(tr, env): r.note(f'{n}: how an alias is compared is not followed'); return
            r.bad(f'{n} no match', f'{n} applies the alias {k!r} to {t!r} {on(ctx, tr)}'); return
def words27(ctx, r, n, tr, e, new, env27, understood):
    for k, to, t in words():
        env = env27(e, k, to, t); ok, ev = strs.run(ctx, tr, env)
        if ok is False: continue
        if not t.startswith(k):
            if ok is None and not understood(tr, env): r.note(f'{n}: how an alias is compared is not followed'); return
            r.bad(f'{n} no match', f'{n} applies the alias {k!r} to {t!r} {on(ctx, tr)}'); return
        v = ev.ev(new)
        if v is strs.UNK:
            r.note(f'{n}: what an alias makes of the request is not followed'); continue
        if ok is None and not understood(tr, env): continue
        if v != to + t[len(k):]: r.bad(f'{n} replacement', f'{n} makes {v!r} of {t!r} for the alias {k!r} to {to!r}, not {to + t[len(k):]!r}'); return

# ---------------------------------------------------------------- C28
TGT28 = ['a', 'a/b', 'a/b/c', 'ab/', '@a', '@a/b', '@a/b/c', '@a/b/c/d', '@a/', 'é/b', '@é/b/c', 'a//b', 'a.js/x', 'x@y/z', 'a@1/b', 'node_modules/a', 'a/@b/c', '@/b/c', 'A/B', 'a/node_modules/b']
def name28(t):
    """the package that a request names"""
    i = t.find('/')
    if t.startswith('@') and i >= 0: i = t.find('/', i + 1)
    return t if i < 0 else t[:i]
class Part:
    """what a path knows about some values"""
    kind = 'return'
    def __init__(s, facts, vars, evs=()): s.facts = facts; s.vars = vars; s.evs = list(evs)
    def events(s): return s.evs
def taken28(tr, x):
    """the elements that a path takes one by one (outside of loops and higher-order methods) from what it makes of the text"""
    out = []; skip = 0
    for ev in tr.events():
        if ev[0] == 'loop': skip = 1 if isinstance(ev[1], T) and ev[1].a[-1] == 'hof' else 0
        elif ev[0] in ('elem', 'exhausted'):
            if skip: skip = 0; continue
            if ev[0] == 'exhausted' and ev[3:4] != ('next',): continue
            if contains(ev[1], x) and not hasret(ev[1], r'.*'): out.append(ev)
    return out
def known28(tr, x): return (tuple(sorted(((id(f), v) for f, v in tr.facts.items() if contains(f, x) and not hasret(f, r'.*')), key=str)), tuple(sorted(((id(t), tuple(sorted(vs))) for t, vs in tr.vars.items() if contains(t, x) and not hasret(t, r'.*')), key=str))) + (tuple((ev[0], ev[1], ev[2] if ev[0] == 'elem' else None) for ev in taken28(tr, x)),)
def part28(tr, x): return Part({f: v for f, v in tr.facts.items() if contains(f, x) and not hasret(f, r'.*')}, {t: vs for t, vs in tr.vars.items() if contains(t, x) and not hasret(t, r'.*')}, taken28(tr, x))
def looped28(tr, x):
    """a loop of the path goes through the text"""
    loops = False
    for ev in tr.events():
        if ev[0] == 'loop' and isinstance(ev[1], T) and ev[1].a[-1] != 'hof': loops = True
        if loops and ev[0] in ('elem', 'exhausted') and contains(ev[1], x) and not hasret(ev[1], r'.*'): return True
    return False
FSQ = ('is_dir', 'is_file', 'exists')
def sure28(ctx, pt, env):
    """everything known about the text is decided, apart from what depends on the file system or on other values"""
    ev = strs.Ev(ctx, env)
    for t in list(pt.facts) + list(pt.vars):
        if ev.ev(t) is not strs.UNK: continue
        if t.op == 'app' and t.a[0] in FSQ: continue
        if t.op == 'app' and t.a[0] == 'eq' and any(isinstance(x, T) and not any(contains(x, k) for k in env) and x.op not in ('str', 'int', 'bool') for x in t.a[1:]): continue
        return False
    return True
def c28(ctx, r):
    """The lookup in the packages of a directory goes on in the parent of this directory, with the request it was given, only after its own lookup, and only where that found nothing; it gives up without an error of its own only at a directory that has no parent. Every package directory that is asked for is node_modules of the directory joined with the name: for every path and every request of a class of words, the text joined is the part before the first slash, or the second one behind an @; what is handed to the exports field is the rest behind this name."""
    n = 'Resolver::resolve_as_modules'; u = ctx.unit(n, r)
    SUCC = ctx.vidx('ResolverStats', 'Success'); ERR = ctx.vidx('ResolverStats', 'Error')
    if u is not None and ctx.info(u) is not None: up28(ctx, r, u, SUCC)
    fu = ctx.unit('ExportsFieldPlugin::apply', r)
    for u in ctx.A.units.values():
        P = ctx.info(u)
        if P is None: continue
        tgt = ctx.target(P); done = set(); own28 = own_words(ctx, u, pre=('', 'a/', '@a/b'))
        for tr in u.traces:
            if tr.kind == 'panic': continue
            # directories that are asked for
            for f in tr.facts:
                if f.op != 'app' or f.a[0] not in FSQ or len(f.a) < 2: continue
                x = f.a[1]
                if x.op != 'app' or x.a[0] != 'join' or not inmodules(x.a[1]): continue
                if not contains(x.a[2], tgt) or hasret(x.a[2], r'.*'): continue
                k = (x.a[2], known28(tr, tgt))
                if k in done: continue
                done.add(k); r.ob('package asked for'); r.site(f'{u.name}: asks for a package directory')
                if looped28(tr, tgt): r.note(f'{u.name}: the name of a package is found in a loop: not followed'); continue
                pt = part28(tr, tgt)
                for t in TGT28 + own28:
                    env = {tgt: t}; ok, ev = strs.run(ctx, pt, env)
                    if ok is False: continue
                    v = ev.ev(x.a[2])
                    if v is strs.UNK: r.note(f'{u.name}: the name of a package is not followed'); break
                    if ok is None and not sure28(ctx, pt, env): continue
                    if v.rstrip('/') != name28(t).rstrip('/'): r.bad(f'{u.name} package', f'{u.name} asks for the package {v!r} for the request {t!r}, not {name28(t)!r}'); break
            if u is not fu: continue
            for ev_ in tr.events():
                if ev_[0] != 'call' or not ev_[1].endswith('::field_process'): continue
                a = next((y for y in ev_[2] if isinstance(y, T) and not ctx_ty(ctx, y) in ('PathTreeNode', 'HashSet')), None)
                if a is None or hasret(a, r'.*'): continue
                k = (a, known28(tr, tgt), 'f')
                if k in done: continue
                done.add(k); r.ob('rest of the request'); r.site(f'{u.name}: asks the exports field')
                if looped28(tr, tgt): r.note(f'{u.name}: the rest of the request is found in a loop: not followed'); continue
                pt = part28(tr, tgt); q, g = ctx.query(P), ctx.fragment(P)
                if any(contains(f, y) and strs.Ev(ctx, {q: '', g: ''}).ev(f) is (not v) for f, v in tr.facts.items() for y in (q, g)): continue
                for t in TGT28 + own28:
                    env = {tgt: t, q: '', g: ''}; ok, ev = strs.run(ctx, pt, env)
                    if ok is False: continue
                    v = ev.ev(a)
                    if v is strs.UNK: r.note(f'{u.name}: the rest of the request is not followed'); break
                    if ok is None and not sure28(ctx, pt, env): continue
                    want = '.' + t[len(name28(t)):]
                    if v != want: r.bad(f'{u.name} rest', f'{u.name} looks up {v!r} in the exports of the package for the request {t!r}, not {want!r}'); break
def inmodules(p): return p.op == 'app' and p.a[0] == 'join' and p.a[2] is S('node_modules')
def failed(ctx, evs, own): return [evs[o][3] for o in own if ctx_ty(ctx, evs[o][3]) == 'ResolverStats']
def up28(ctx, r, u, SUCC):
    n = u.name; P = ctx.info(u); path = ctx.path(P); nm = app('join', path, S('node_modules')); TAG = None
    loops = any(ev[0] == 'elem' and contains(ev[1], path) and 'ancestors' in show(ev[1]) for tr in u.traces for ev in tr.events())
    for tr in u.traces:
        if tr.kind == 'panic': continue
        evs = tr.events(); selfs = [k for k, ev in enumerate(evs) if ev[0] == 'call' and ev[1] == n]
        own = [k for k, ev in enumerate(evs) if ev[0] == 'call' and ev[1] != n and ev[1] in ctx.A.units and any(isinstance(y, T) and ctx_ty(ctx, y) == 'ResolveInfo' for y in ev[2])]
        isdir = ctx.truth(tr, app('is_dir', nm)); asked = isdir is not None or any(f.op == 'app' and f.a[0] in FSQ and contains(f, nm) for f in tr.facts) or any(contains(t, nm) for t in tr.vars)
        for k in selfs:
            ev = evs[k]; i = next((y for y in ev[2] if isinstance(y, T) and ctx_ty(ctx, y) == 'ResolveInfo'), None)
            if i is None: continue
            r.ob('goes up'); r.site(f'{n}: goes up')
            p = ctx.path(i)
            if parent_of(p) is not path:
                if murky(ctx, p) or hasret(p, r'.*'): r.note(f'{n}: where it goes on is not followed')
                else: r.bad(f'{n} where', f'{n} goes on in {short(p)} instead of the parent directory')
            for f in ('target', 'query', 'fragment'):
                x = ctx.F(ctx.req(i), 'Request', f)
                if x is not ctx.F(ctx.req(P), 'Request', f) and not murky(ctx, x):
                    if hasret(x, r'.*') : r.bad(f'{n} request', f'{n} goes up with a request that an unsuccessful step has changed: {short(x)}')
                    else: r.bad(f'{n} request', f'{n} goes up with another {f}: {short(x)}')
            if any(o > k for o in own): r.bad(f'{n} parent first', f'{n} goes up before it looks in its own directory {on(ctx, tr)}')
            elif not asked and not own: r.bad(f'{n} skipped', f'{n} goes up without looking in its own directory {on(ctx, tr)}')
            elif isdir and not own and not any(isret(t, r'.*load_pkg_file.*') for t in tr.vars): r.bad(f'{n} skipped', f'{n} goes up without looking in its own node_modules {on(ctx, tr)}')
            for o in own:
                if o < k and tr.vars.get(evs[o][3]) == frozenset([SUCC]): r.bad(f'{n} goes on', f'{n} goes up although its own directory has answered')
        for o in own:
            # what is looked up in this directory is the request
            i = next(y for y in evs[o][2] if isinstance(y, T) and ctx_ty(ctx, y) == 'ResolveInfo')
            if ctx.path(i) is not nm: continue
            for f in ('target', 'query', 'fragment'):
                x = ctx.F(ctx.req(i), 'Request', f); r.ob('looked up')
                if x is not ctx.F(ctx.req(P), 'Request', f) and not murky(ctx, x) and not hasret(x, r'.*') and not (x.op == 'app' and x.a[0] == 'concat' and x.a[1] is S('./')): r.bad(f'{n} looked up', f'{n} looks for another {f} in its own directory: {short(x)}')
        if tr.kind != 'return' or selfs or loops: continue
        v = tr.ret; r.ob('stops'); b = ctx.stats(v)
        top = tr.vars.get(app('parent', path)) == frozenset([0])
        if top or b is not None and b[0] == 'Success': continue
        if isret(v) and tr.vars.get(v) == frozenset([SUCC]): continue
        # an error of its own
        def tagged(x): return any(is_eq(f) and val and contains(f, x) for f, val in tr.facts.items())
        if b is not None and b[0] == 'Error' or isret(v) and tr.vars.get(v) and SUCC not in tr.vars[v]:
            if b is not None and b[1].op == 'tuple':
                e = b[1].a[0]
                if own and any(e is x or contains(e, x) for x in failed(ctx, evs, own)) and not any(is_eq(f) and not val and contains(f, e) for f, val in tr.facts.items()) and e.op == 'fld':
                    r.bad(f'{n} stops', f'{n} gives up although there is a parent directory: any error of its own lookup ends the search {on(ctx, tr)}'); continue
                if hasret(e, r'.*') and not any(is_eq(f) and val and (f.a[1] is e or f.a[2] is e) for f, val in tr.facts.items()): continue
                if murky(ctx, e): continue
            elif isret(v) and any(is_eq(f) and not val and contains(f, v) for f, val in tr.facts.items()): continue
            elif isret(v): r.note(f'{n}: where it stops is not followed'); continue
            else: continue
            if any(isret(t, r'Resolver::resolve_as_modules') for t in tr.vars): continue
            r.bad(f'{n} stops', f'{n} gives up although there is a parent directory {on(ctx, tr)}')
        elif b is not None and b[0] == 'Resolving': r.bad(f'{n} stops', f'{n} gives up although there is a parent directory {on(ctx, tr)}')
    for tr in u.traces:
        for ev in tr.events():
            if ev[0] == 'elem' and len(ev) > 4 and contains(ev[1], path) and 'ancestors' in show(ev[1]):
                d = dropping(ev[4])
                if d and not d.startswith('filter'): r.bad(f'{n} left out', f'{n} does not visit all ancestors ({d})')
                if listed(ev[4])[1]: r.bad(f'{n} order', f'{n} visits the ancestors from the root downwards')

# ---------------------------------------------------------------- C32
TGT32 = [a + b + c + d for a in ('./', 'a', './é') for b in ('*', '*/*', '*.*', '*x*/') for c in ('', 'y', '/z*') for d in ('', '.js')] + ['./a.js', './a/', './*.js', './x/*/y/*.mjs', './a*', './é/*', './*/', 'pkg', 'pkg/', 'pkg/*', './a.b/', './$1/*', './a//', './**', 'é*']
REM32 = ['a', 'a/b', '', '*', '**', '$1', '$&', '\\', '%2f', 'é', 'a*b', ' x ', 'a/', '../x', 'ab.js', '${x}', '{}', 'b' * 40, 'A', '😀/x']
REQ32 = {'.': ['.', './/a', '././a', './a./b', './a#b', './a', './ab/c', './é/ü.js', './a/b/c*', './😀/x', './' + 'a/' * 20 + 'b'], '#': ['#a', '##a', '#a#b', '#./a', '#ab/c', '#é/ü.js', '#a/b/c*', '#😀/x', '#' + 'a/' * 20 + 'b']}
def sure32(ctx, pt, env):
    ev = strs.Ev(ctx, env)
    return all(ev.ev(t) is not strs.UNK for t in list(pt.facts) + list(pt.vars) if any(contains(t, k) for k in env))
def wrong32(tr, ctx, env):
    """(path possible, path certain)"""
    ev = strs.Ev(ctx, env); sure = True
    for f, v in tr.facts.items():
        x = ev.ev(f)
        if isinstance(x, bool):
            if x != bool(v): return None, False
        elif any(contains(f, k) for k in env): sure = False
    for t, vs in tr.vars.items():
        x = ev.ev(t)
        if strs.isv(x):
            if x[1] not in vs: return None, False
        elif any(contains(t, k) for k in env): sure = False
    return ev, sure
def c32(ctx, r):
    """For every path through the substitution of a target, and every triple of a target, a remainder (or none) and a kind of key of a class of words: where the guards of the path hold, the answer is the target with the remainder in place of the star (wildcard key), the target with the remainder at its end (folder key and target), the target as it is (exact key), and an error where the target has no place for the remainder. The mapping of a field hands the remainder, the kind of the key and each target on unchanged and collects every result as it is and in order. The remainder is the part of the request from the position that the lookup reports."""
    found = False
    for n, u in ctx.A.units.items():
        if not n.endswith('::target_mapping') and n != 'target_mapping': continue
        ctx.unit(n, r); found = True
        if len(u.params) != 3: r.note(f'{n}: other parameters: not followed'); continue
        a, b, c = u.params; OK = 0; done = set()
        if ctx_ty(ctx, a) != 'Option': r.note(f'{n}: other parameters: not followed'); continue
        T32 = TGT32 + own_words(ctx, u, pre=('./', './*')); R32 = REM32 + own_words(ctx, u, nums=True)
        for tr in u.traces:
            if tr.kind != 'return' or tr.ret is None: continue
            r.ob('substitution'); r.site(f'{n}: answers')
            bad = False
            for t in T32:
                for rem in [None] + R32:
                    for sub in (False, True):
                        if bad: break
                        env = {a: strs.NONE if rem is None else strs.SOME(rem), b: sub, c: t}
                        if rem is not None: env[fld(a, 1, 0, 1)] = rem
                        ev, sure = wrong32(tr, ctx, env)
                        if ev is None: continue
                        v = ev.ev(tr.ret)
                        if not strs.isv(v): 
                            if tr.ret.op == 'agg' and tr.ret.a[1] == OK: r.note(f'{n}: an answer is not followed'); bad = True
                            elif isret(tr.ret) : bad = True
                            else: bad = True
                            continue
                        folder = t.endswith('/')
                        want = t if rem is None and not folder else t + rem if rem is not None and sub and folder else t.replace('*', rem) if rem is not None and not sub and not folder else None
                        if v[1] == OK:
                            got = v[2] if len(v) > 2 else strs.UNK
                            if got is strs.UNK: r.note(f'{n}: an answer is not followed'); continue
                            if not sure: continue
                            kind = 'exact' if rem is None else 'folder' if sub else 'wildcard'
                            if want is None: r.bad(f'{n} {kind} no place', f'{n} answers {got!r} for the target {t!r} and the remainder {rem!r} of a {kind} key, which have no answer'); bad = True
                            elif got != want: r.bad(f'{n} {kind}', f'{n} answers {got!r} for the target {t!r} and the remainder {rem!r} of a {kind} key, not {want!r}'); bad = True
                        elif sure and want is not None:
                            kind = 'exact' if rem is None else 'folder' if sub else 'wildcard'
                            r.bad(f'{n} {kind} refused', f'{n} refuses the target {t!r} for the remainder {rem!r} of a {kind} key {on(ctx, tr)}'); bad = True
    if not found: r.note('the substitution of a target is not found')
    for n, u in ctx.A.units.items():
        if n.endswith('::mapping'): mapping32(ctx, r, n, u)
        if n.endswith('::field_process'): field32(ctx, r, n, u)
def mapping32(ctx, r, n, u):
    ctx.unit(n, r); P = u.params
    for tr in u.traces:
        if tr.kind == 'panic': continue
        evs = tr.events()
        for ev in evs:
            if ev[0] == 'call' and (ev[1].endswith('::target_mapping') or ev[1] == n) and len(ev[2]) >= 3:
                r.ob('handed on'); r.site(f'{n}: calls {ev[1]}')
                for k, what in ((0, 'remainder'), (1, 'kind of the key')):
                    x = ev[2][k]
                    if x is P[k] or murky(ctx, x): continue
                    r.bad(f'{n} {what}', f'{n} hands another {what} on than it was given: {short(x)} {on(ctx, tr)}')
                x = ev[2][2]
                if reworked32(x): r.bad(f'{n} target', f'{n} changes a target before the remainder is put in: {short(x)}')
        res = {ev[3] for ev in evs if ev[0] == 'call' and (ev[1].endswith('::target_mapping') or ev[1] == n) and ev[3] is not None}
        for ev in evs:
            if ev[0] == 'push' and any(contains(ev[2], x) for x in res):
                r.ob('collected'); v = ev[2]
                if reworked32(v): r.bad(f'{n} result', f'{n} changes a mapped target: {short(v)}')
            if ev[0] == 'call' and ev[1].split('::')[-1] in ('insert',) and any(isinstance(y, T) and contains(y, x) for y in ev[2] for x in res) and ev[2] and ctx_ty(ctx, ev[2][0]) == 'Vec': r.bad(f'{n} order', f'{n} puts a mapped target at another place than the end')
            if ev[0] == 'sort': r.bad(f'{n} order', f'{n} sorts the mapped targets')
            if ev[0] == 'elem' and len(ev) > 4 and any(contains(ev[1], x) for x in list(res) + [P[2]]):
                r.ob('in order')
                d = dropping(ev[4])
                if d and not d.startswith('filter'): r.bad(f'{n} left out', f'{n} leaves targets out ({d})')
                if listed(ev[4])[1]: r.bad(f'{n} order', f'{n} takes the targets in another order')
        if tr.kind == 'return' and tr.ret is not None and tr.ret.op == 'agg' and tr.ret.a[1] == 0 and len(tr.ret.a) > 2:
            v = tr.ret.a[2]
            r.ob('answer')
            if v.op == 'array':
                for x in v.a:
                    if any(contains(x, y) for y in res) and reworked32(x): r.bad(f'{n} result', f'{n} changes a mapped target: {short(x)}')
                if not v.a and any(tr.vars.get(y) == frozenset([0]) for y in res): r.bad(f'{n} dropped', f'{n} drops a mapped target {on(ctx, tr)}')
            if v.op == 'app' and v.a[0] in ('rev', 'sorted', 'sublist', 'truncate'): r.bad(f'{n} order', f'{n} answers a changed list of targets: {short(v)}')
        # a mapped target that is not put into the list
        if tr.kind == 'back':
            for ph, v in tr.info['phi'].items():
                if isinstance(v, T) and v.op == 'app' and v.a[0] == 'inserted' and any(contains(v.a[3], x) for x in res) and not (v.a[2].op == 'app' and v.a[2].a[0] == 'len'): r.bad(f'{n} order', f'{n} puts a mapped target at another place than the end')
                if isinstance(v, T) and v.op == 'app' and v.a[0] in ('reverse', 'dedup', 'truncate', 'rotate_left', 'rotate_right', 'swap') and any(contains(v, x) for x in res): r.bad(f'{n} order', f'{n} rearranges the mapped targets: {short(v)}')
            here = loop_events(tr)
            for ev in here:
                if ev[0] == 'call' and ev[1].endswith('::target_mapping') and tr.vars.get(ev[3]) == frozenset([0]):
                    ok = fld(ev[3], 0, 0, 1); r.ob('kept')
                    if any(x[0] == 'push' and contains(x[2], ev[3]) for x in here) or any(contains(v, ev[3]) for v in tr.info['phi'].values() if isinstance(v, T) and v.op == 'app' and v.a[0] in ('pushed', 'extend', 'concat', 'collect')): continue
                    if isinstance(tr.info['head'], int) and not any(x[0] == 'call' and any(isinstance(y, T) and contains(y, ev[3]) for y in x[2]) for x in here): r.bad(f'{n} dropped', f'{n} drops a mapped target {on(ctx, tr)}')
def reworked32(t):
    k = 0
    while t.op == 'fld' and k < 30: t = t.a[0]; k += 1
    return t.op == 'app' and t.a[0] in ('concat', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'replacen', 'substr', 'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'strip_prefix', 'strip_suffix', 'repeat')
def field32(ctx, r, n, u):
    ctx.unit(n, r)
    if len(u.params) < 2: return
    tgt = u.params[1]; done = set()
    for tr in u.traces:
        if tr.kind != 'return': continue
        for ev in tr.events():
            if ev[0] != 'call' or not ev[1].endswith('::mapping') or len(ev[2]) < 2: continue
            fm = {y for x in list(ev[2]) + list(tr.vars) for y in subterms(x) if isret(y, r'.*find_match')}
            if len(fm) != 1: r.note(f'{n}: how the position is found is not followed'); continue
            f = fm.pop()
            if len(f.a) < 4: continue
            rem, sub = ev[2][0], ev[2][1]
            r.ob('remainder'); r.site(f'{n}: maps')
            bad = False
            for pre in ('.', '#'):
                for t in REQ32[pre] + [w for w in own_words(ctx, u, pre=('./' if pre == '.' else '#',)) if not w.endswith('/') and not w.startswith('#/')]:
                    ev0, _ = wrong32(tr, ctx, {tgt: t})
                    if ev0 is None or bad: continue
                    cs = ev0.ev(f.a[3])
                    if isinstance(cs, str): cs = list(cs)
                    if not isinstance(cs, list):
                        r.note(f'{n}: what is looked up is not followed'); bad = True; continue
                    want = '' if t == '.' else t[2:] if pre == '.' else t[1:]
                    if ''.join(cs) != want: r.bad(f'{n} looked up', f'{n} looks up {"".join(cs)!r} for the request {t!r}, not {want!r}'); bad = True; continue
                    L = len(cs)
                    for i in [L + 1] + list(range(0, L + 1)) + [-k - 1 for k in range(0, L + 1)]:
                        if bad: break
                        env = {tgt: t, f: strs.SOME((strs.UNK, i))}
                        e2, sure = wrong32(tr, ctx, env)
                        if e2 is None: continue
                        v, s = e2.ev(rem), e2.ev(sub)
                        w = strs.NONE if i == L + 1 else strs.SOME(want[-i - 1:] if i < 0 else want[i:])
                        if not sure: continue
                        if not strs.isv(v) or len(v) > 2 and not isinstance(v[2], str): r.note(f'{n}: the remainder is not followed ({t!r}, {i})'); bad = True; break
                        if v != w: r.bad(f'{n} remainder', f'{n} takes {v[2] if len(v) > 2 else None!r} as the remainder of {t!r} for the position {i}, not {w[2] if len(w) > 2 else None!r} {on(ctx, tr)}'); bad = True
                        elif isinstance(s, bool) and s != (i < 0): r.bad(f'{n} kind', f'{n} takes a {"wildcard" if i >= 0 else "folder"} key for the other kind'); bad = True
