"""Rules about ignoring, splitting requests, text, conditions, descriptions, tsconfig, aliases, node_modules and targets."""
from base import *
from rules_flow import facts
from rules_res import murky, on, success_infos, from_callee, info_of
from rules_more import loop_events, from_opts, olist

def back_head(tr):
    h = tr.info['head']; return mk('loophead', tr.info['ctx'], h if isinstance(h, int) else 'hof')
def in_loop_of(tr, e):
    """this path goes back to the loop whose element e is"""
    ev = tr.events(); last = None
    for x in ev:
        if x[0] == 'loop': last = x[1]
        if x[0] == 'elem' and x[2] is e: return tr.kind == 'back' and last is back_head(tr)
    return False
def phis(u):
    """phi -> [(initial or next value, path, 'init'|'next')]"""
    if not hasattr(u, '_phis'):
        out = {}
        for tr in u.traces:
            for ev in tr.events():
                if ev[0] == 'loop':
                    for p, v in ev[2]: out.setdefault(p, {}).setdefault((v, 'init'), tr)
            if tr.kind == 'back':
                for p, v in tr.info['phi'].items(): out.setdefault(p, {}).setdefault((v, 'next'), tr)
        u._phis = out
    return u._phis
def is_eq(f): return f.op == 'app' and f.a[0] == 'eq'
def is_adt(ctx, t, name):
    n = ty_of(t)
    return n is not None and tybase(ctx.types[ctx.e.peel(n)].get('name') or '') == name

# ---------------------------------------------------------------- C18
def c18(ctx, r):
    """On every path: a built Success(Ignored) requires an alias value whose variant is known to be Ignored on that path, that this value comes from an entry (the element of a loop, or found by key), and that a positive comparison with the key of the entry is among the facts. On a path where such a comparison with an entry holds and its value may be Ignored, the answer is Success(Ignored). An entry that points to another entry is followed. A description stores Ignored for a browser key exactly where its value is known to be the boolean false. A result of another step that is known to be Success is handed on with its content; the public entry answers Ignored with Ignored."""
    ia, t = ctx.adt('AliasMap')
    ir, tr_ = ctx.adt('ResolveResult')
    if t is None or tr_ is None: r.note('AliasMap or ResolveResult is not there: not analysed'); return
    IGN = next((i for i, v in enumerate(t['variants']) if v['name'] == 'Ignored'), None)
    RIGN = next((i for i, v in enumerate(tr_['variants']) if v['name'] == 'Ignored'), None)
    if IGN is None or RIGN is None: r.note('Ignored is not there: not analysed'); return
    SUCC, = [i for i, v in enumerate(ctx.adt('ResolverStats')[1]['variants']) if v['name'] == 'Success'] or [0]
    def is_ign(v): return v.op == 'agg' and v.a[0] == ir and v.a[1] == RIGN
    def ignored(v): b = ctx.stats(v); return b is not None and b[0] == 'Success' and is_ign(b[1])
    for n in ctx.result_units():
        u = ctx.unit(n, r)
        if u is None: continue
        ph = phis(u)
        def entry(x, seen=()):
            """entries that this value may be of, None when unknown"""
            if x in seen: return set()
            if x.op == 'fld' and x.a[0].op in ('elem', 'app') and x.a[2] == 1: return {x.a[0]}
            if x in ph:
                out = set()
                for v, _ in ph[x]:
                    if v is x: continue
                    e = entry(v, seen + (x,))
                    if e is None: return None
                    out |= e
                return out
            if x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] in ('map.get', 'get'): return {x.a[0]}
            return None
        def init_entry(x):
            if x.op == 'fld' and x.a[2] == 1 and x.a[0].op in ('elem', 'app'): return x.a[0]
            if x in ph:
                for v, k in ph[x]:
                    if k == 'init' and v is not x: return init_entry(v)
            return None
        for tr in u.traces:
            ams = {x: vs for x, vs in tr.vars.items() if is_adt(ctx, x, 'AliasMap')}
            known = [x for x, vs in ams.items() if vs == frozenset([IGN])]
            pos = [f for f, v in tr.facts.items() if v and f.op in ('eq', 'app')]
            def matched(e):
                """True / False / None: compared with the key of this entry"""
                key = fld(e, None, 0); some = None
                if e.op == 'app': return True        # found by key
                for f in pos:
                    if not contains(f, key): continue
                    if f.op == 'app' and f.a[0] in ('contains', 'ends_with'): some = some or False; continue
                    if f.op == 'app' and f.a[0] == 'starts_with' and contains(f.a[1], key): some = some or False; continue
                    some = True
                for x, vs in tr.vars.items():
                    if vs == frozenset([1]) and x.op == 'app' and contains(x, key) and not is_adt(ctx, x, 'AliasMap'): some = True
                return some
            if tr.kind == 'return' and ignored(tr.ret):
                r.ob('ignored'); r.site(f'{n}: answers Ignored')
                if murky(ctx, tr.ret): continue
                succ = [x for x, vs in tr.vars.items() if vs == frozenset([RIGN]) and is_adt(ctx, x, 'ResolveResult')]
                if succ: continue       # the answer of another step, built again
                if not known:
                    if any(hasret(x) for x in ams) : r.note(f'{n}: where the ignored value comes from is not followed'); continue
                    r.bad(f'{n} not ignored', f'{n} answers that the request is ignored although no entry is known to be set to false {on(ctx, tr)}'); continue
                es = set()
                for x in known:
                    e = init_entry(x)
                    if e is None: es = None; break
                    es.add(e)
                if es is None: r.note(f'{n}: the entry of an ignored value is not followed'); continue
                if not any(matched(e) for e in es): r.bad(f'{n} other entry', f'{n} answers that the request is ignored by an entry that it was not found to match {on(ctx, tr)}')
                continue
            # a matching entry that may be Ignored
            for ev in tr.events():
                if ev[0] != 'elem': continue
                e = ev[2]; val = fld(e, None, 1)
                if not (olist(ctx, ev[1]) == 'alias' or 'alias_fields' in str(ctx_field(ctx, ev[1]))): continue
                if not matched(e): continue
                if tr.kind == 'panic' or tr.kind == 'back' and not in_loop_of(tr, e): continue
                vals = [val] + [p for p in ph if any(v is val and k == 'init' for v, k in ph[p])]
                r.ob('matching entry'); r.site(f'{n}: matching entry')
                if any(tr.vars.get(x) is not None and IGN not in tr.vars[x] for x in vals): continue
                if tr.kind == 'return' and (hasret(tr.ret) and any(contains(tr.ret, x) for x in vals) or murky(ctx, tr.ret)): r.note(f'{n}: the answer for a matching entry is not followed'); continue
                if any(hasret(x, r'.*') and any(contains(x, y) for y in vals) for x in tr.vars): continue
                what = 'goes on' if tr.kind == 'back' else f'answers {short(tr.ret)}'
                r.bad(f'{n} ignored passed over', f'{n} {what} although an entry matches that may be set to false {on(ctx, tr)}')
        # chains of entries
        for p, vs in ph.items():
            if not is_adt(ctx, p, 'AliasMap'): continue
            for v, k in vs:
                if k == 'init' or v is p: continue
                r.ob('chain'); r.site(f'{n}: chain of entries'); tr = vs[(v, k)]
                if v.op == 'fld' and v.a[0].op == 'app' and v.a[0].a[0] in ('map.get', 'get') and contains(v.a[0].a[-1], p): continue
                if v.op == 'fld' and v.a[0].op == 'elem': continue
                if not murky(ctx, v): r.bad(f'{n} chain', f'{n} goes from an entry to {short(v)}')
        if any(is_adt(ctx, p, 'AliasMap') for p in ph):
            for tr in ctx.rets(u):
                for x, vs in tr.vars.items():
                    if x not in ph or not is_adt(ctx, x, 'AliasMap') or IGN in vs or not contains(tr.ret, x): continue
                    r.ob('end of a chain')
                    if any(y.op == 'app' and y.a[0] in ('map.get', 'get') and contains(y, x) and w == frozenset([0]) for y, w in tr.vars.items()): continue
                    if any(not w and f.op == 'app' and contains(f, x) for f, w in tr.facts.items()): continue
                    ends = [ev[1] for ev in tr.events() if ev[0] == 'exhausted']
                    if ends and not any(few(e) for e in ends): continue
                    if any(y.op == 'phi' and y is not x and y.a[:2] == x.a[:2] for f in tr.facts for y in subterms(f)): continue     # a counter of the same loop
                    r.bad(f'{n} chain left', f'{n} leaves a chain of entries at {short(x)} without knowing that it points to no other entry {on(ctx, tr)}')
        elif n == 'AliasFieldPlugin::apply': r.note('AliasFieldPlugin::apply: how entries that point to entries are followed is not analysed')
        # what another step answered
        used = {x for tr in ctx.rets(u) for x in subterms(tr.ret) if x.op == 'phi'}
        for tr in u.traces:
            if tr.kind == 'panic': continue
            for ev in tr.events():
                if ev[0] != 'call' or ev[1] not in ctx.result_units() or ev[3] is None: continue
                s = ev[3]
                if SUCC not in tr.vars.get(s, ()): continue
                inner = tr.vars.get(fld(s, SUCC, 0))
                if inner is not None and RIGN not in inner: continue
                r.ob('ignored is final')
                if tr.kind == 'back':
                    if any(contains(v, s) and p in used for p, v in tr.info['phi'].items()): continue
                    r.bad(f'{n} not final', f'{n} goes on with the next candidate although {ev[1]} answered that the request is ignored {on(ctx, tr)}'); continue
                if tr.ret is s or tr.ret.op == 'agg' and ctx.stats(tr.ret) and ctx.stats(tr.ret)[0] == 'Success' and (contains(tr.ret, s) or is_ign(ctx.stats(tr.ret)[1])): continue
                if murky(ctx, tr.ret) or isret(tr.ret) and contains(tr.ret, s): continue
                r.bad(f'{n} not final', f'{n} answers {short(tr.ret)} although {ev[1]} answered that the request is ignored {on(ctx, tr)}')
    u = ctx.unit('Resolver::resolve', r)
    if u:
        for tr in ctx.rets(u):
            for x, vs in tr.vars.items():
                if not is_adt(ctx, x, 'ResolveResult') or vs != frozenset([RIGN]): continue
                r.ob('answer of the public entry')
                if tr.ret.op == 'agg' and ctx.types[tr.ret.a[0]]['variants'][tr.ret.a[1]]['name'] == 'Ok' and (is_ign(tr.ret.a[2]) or tr.ret.a[2] is x): continue
                if not murky(ctx, tr.ret): r.bad('Resolver::resolve ignored', f'the public entry answers {short(tr.ret)} for an ignored request')
    stored18(ctx, r, ia, IGN)
def few(rg):
    """a range of a handful of turns whatever the input is"""
    if rg.op != 'app' or rg.a[0] != 'range': return False
    hi = rg.a[2]
    return any(x.op == 'int' and x.a[0] < 8 for x in ([hi] + [y for y in hi.a if isinstance(y, T)] if hi.op == 'app' and hi.a[0].split('_')[-1].split('::')[-1] == 'min' else [hi]))
def ctx_field(ctx, t):
    """name of the field that a value is"""
    while t.op == 'app' and t.a[0] in ('it', 'iter', 'clone') and len(t.a) > 1: t = t.a[1]
    if t.op != 'fld': return None
    n = ty_of(t.a[0])
    if n is None:
        for ty in ('PkgFileInfo', 'ResolverOptions'):
            i, a = ctx.adt(ty)
            if a and t.a[1] is None and t.a[2] == ctx.fidx('PkgFileInfo', 'alias_fields') and ty == 'PkgFileInfo': return 'alias_fields?'
        return None
    ty = ctx.types[ctx.e.peel(n)]
    if ty.get('k') != 'adt' or 'variants' not in ty: return None
    try: return ty['variants'][t.a[1] or 0]['fields'][t.a[2]][0]
    except (IndexError, KeyError, TypeError): return None
def js(tr, ctx, e, kind):
    """what the path knows: is e a JSON value of this kind (True/False/None)"""
    N = {'Null': 0, 'Bool': 1, 'Number': 2, 'String': 3, 'Array': 4, 'Object': 5}
    M = {'Bool': 'as_bool', 'String': 'as_str', 'Array': 'as_array', 'Object': 'as_object'}
    vs = tr.vars.get(e)
    if vs is not None:
        if vs == frozenset([N[kind]]): return True
        if N[kind] not in vs: return False
    for k, m in M.items():
        for t, v in tr.vars.items():
            if t.op == 'app' and t.a[0] == m and t.a[1] is e and len(v) == 1:
                if k == kind: return v == frozenset([1])
                if v == frozenset([1]): return False
    return None
def js_payloads(tr, e, kind):
    N = {'Bool': 1, 'String': 3, 'Array': 4, 'Object': 5}; M = {'Bool': 'as_bool', 'String': 'as_str', 'Array': 'as_array', 'Object': 'as_object'}
    return [fld(mk('app', M[kind], e), 1, 0), fld(e, N[kind], 0)]
def js_bool(ctx, tr, e):
    if js(tr, ctx, e, 'Bool') is False: return 'no'
    for p in js_payloads(tr, e, 'Bool'):
        v = ctx.truth(tr, p)
        if v is not None: return v
    for f, v in tr.facts.items():       # value == json!(false) and the like
        if is_eq(f) and e in f.a and v: return 'compared'
    return None
def stored18(ctx, r, ia, IGN):
    u = ctx.unit('Resolver::parse_description_file', r)
    if u is None: return
    seen = False
    for tr in u.traces:
        ins = [ev for ev in tr.events() if ev[0] == 'map.insert' and len(ev[2]) > 1 and is_adt(ctx, ev[2][1], 'AliasMap')]
        here = loop_events(tr)
        es = [ev[2] for ev in here if ev[0] == 'elem' and any(x.op == 'str' and x.a[0] == 'browser' for x in subterms(ev[1]))]
        for ev in ins:
            seen = True; key, val = ev[2][0], ev[2][1]; r.ob('stored alias'); r.site('Resolver::parse_description_file: browser entry')
            if val.op != 'agg' or key.op != 'fld' or key.a[0].op not in ('elem', 'app'): r.note('Resolver::parse_description_file: a browser entry is not followed'); continue
            e = fld(key.a[0], None, 1); b = js_bool(ctx, tr, e)
            if val.a[1] == IGN:
                if b not in (False, 'compared'): r.bad('Resolver::parse_description_file ignored', f'a browser entry is stored as ignored although it is not known to be false {on(ctx, tr)}')
            elif len(val.a) > 2 and not contains(val.a[2], e) and not murky(ctx, val.a[2]): r.bad('Resolver::parse_description_file target', f'a browser entry is stored with the target {short(val.a[2])}')
        if tr.kind != 'back' or not es or not in_loop_of(tr, es[-1]): continue
        e = fld(es[-1], None, 1); b = js_bool(ctx, tr, e)
        mine = [ev for ev in ins if ev in here]
        if any(ev[0] in ('collect', 'push', 'map.entry') for ev in here): continue
        r.ob('false entry')
        if b in (None, False) and js(tr, ctx, e, 'String') is not True and not any(x[2][1].op == 'agg' and x[2][1].a[1] == IGN for x in mine) and (seen or mine or js(tr, ctx, e, 'Bool') or b is False):
            if b is None and js(tr, ctx, e, 'Bool') is None and not any(contains(f, e) for f in tr.facts) and not any(contains(f, e) for f in tr.vars): continue
            r.bad('Resolver::parse_description_file false', f'a browser entry that may be false is not stored as ignored {on(ctx, tr)}')
        if js(tr, ctx, e, 'String') is True and not mine: r.bad('Resolver::parse_description_file text', f'a browser entry with a text is not stored {on(ctx, tr)}')

# ---------------------------------------------------------------- C19
import strs
from strs import UNK, isv
import string
KIND_WORDS = [c + x for c in string.ascii_letters for x in (':', ':/', ':\\')] + ['', '.', '..', './', '../', './a', '../a', '/', '/a', '//', '#', '#a', '#/a', 'a', 'a/b', '@a/b', '.a', '..a', '...', '.../a', '.#', '.a/b', 'a:', 'Z:', 'm:', 'C:\\', 'C:\\x', 'c:/', 'c:/x', 'Z:/..', 'C:x', 'cc:/a', 'cc:', '1:/', '1:', ':', ':/', 'a#b', 'x/../y', 'a/./b', 'a/c:/b', 'é', 'é:', 'é:/', '\\a', '.\\a', '..\\a', 'a.', 'a..', ' ./a', ' ', '?', '~', '~/a', '$a', 'node:fs', 'http://a']
def kind_spec(w):
    if w in ('', '.', '..') or w.startswith(('./', '../')): return 'Relative'
    if w.startswith('/'): return 'AbsolutePosix'
    if w.startswith('#'): return 'Internal'
    if re.match(r'[A-Za-z]:([\\/]|$)', w) and not w.endswith('\n'): return 'AbsoluteWin'
    return 'Normal'
def consts_of(u):
    out = set()
    for tr in u.traces:
        for f in list(tr.facts) + list(tr.vars):
            for x in subterms(f):
                if x.op == 'str': out.add(x.a[0])
    return out
def more_words(ws):
    out = []
    for w in sorted(ws):
        if len(w) > 40: continue
        out += [w, w + 'a', w + '/', 'a' + w, w[:-1], w + w, w + 'é', w + '/a']
    return out
def split_spec(w):
    T_ = Q = F = ''; m = 'T'
    for i, c in enumerate(w):
        if m != 'F':
            if c == '#' and i > 0: m = 'F'
            elif c == '?': m = 'Q'
        if m == 'T': T_ += c
        elif m == 'Q': Q += c
        else: F += c
    return T_, Q, F
def c19(ctx, r):
    """The loop that splits a request is taken as an automaton: its state is the values of the loop variables that are not text, its letters are the classes of characters the guards tell apart (`#`, `?`, every other constant, the rest; first or not). Explored together with the specified automaton over every reachable pair of states: each letter is appended exactly once, to the part that the specification says, and nothing else changes the parts. Without a loop, the returned parts are compared on words over these letters. The kind of a target: on every class of beginnings that the guards or the specification tell apart, the paths whose guards hold answer the specified kind. Every Request that is built has the kind of its own target."""
    kind19(ctx, r); reqs19(ctx, r)
    u = ctx.unit('Resolver::parse', r)
    if u is None: return
    for tr in ctx.rets(u):
        b = tr.ret
        parts = []
        for f in ('target', 'query', 'fragment'): parts.append(ctx.F(b, 'Request', f))
        p = ctx.param(u, 'str')
        if p is None: r.note('Resolver::parse: its text is not found'); continue
        callee = {x.a[0].a[1] for x in parts if x.op == 'fld' and isret(x.a[0])} | {x.a[1] for x in parts if isret(x)}
        if len(callee) == 1 and next(iter(callee)) in ctx.A.units:
            n = next(iter(callee)); v = ctx.unit(n, r); q = None; same = None
            for x in parts:
                y = x.a[0] if x.op == 'fld' else x
                if isret(y) and p in y.a[2:]: q = v.params[y.a[2:].index(p)]; same = y
            if q is None: r.note('Resolver::parse: what is split is not followed'); continue
            bad = [k for k, x in enumerate(parts) if not (x.op == 'fld' and x.a[0] is same)]
            if bad:
                # the parts are changed after the split
                left = [i for i in range(3) if i not in {x.a[2] for x in parts if x.op == 'fld' and x.a[0] is same}]
                if len(bad) != 1 or len(left) != 1: r.note('Resolver::parse: what is split is not followed'); continue
                k, = bad; comp = [fld(same, None, x.a[2]) if j != k else fld(same, None, left[0]) for j, x in enumerate(parts)]
                for w in SPLIT_WORDS:
                    sp = split_spec(w); e = strs.run(ctx, tr, {p: w, **dict(zip(comp, sp))})
                    if e[0] is not True: continue
                    val = e[1].ev(parts[k]); r.ob('words')
                    if isinstance(val, str) and val != sp[k]: r.bad('Resolver::parse parts', f"the {('target', 'query', 'fragment')[k]} of {w!r} is {val!r} instead of {sp[k]!r} {on(ctx, tr)}"); break
                parts = comp
            for t2 in ctx.rets(v):
                split19(ctx, r, v, t2, q, [fld(t2.ret, x.a[1], x.a[2]) if x.op == 'fld' else t2.ret for x in parts])
        elif not callee: split19(ctx, r, u, tr, p, parts)
        else: r.note('Resolver::parse: how a request is split is not followed')
import itertools
SPLIT_WORDS = [''.join(w) for k in range(0, 6) for w in itertools.product('a#?', repeat=k)] + ['é#b?c', 'a?é#?', '#é#', '@a/b?c#d', 'A?B#C', ' a? b # c ', 'a//?b=/#/', './a?./b#./c']
def split19(ctx, r, u, tr, p, parts):
    n = u.name
    r.ob('split'); r.site(f'{n}: answers the parts')
    if not any(x.op == 'phi' for x in parts):
        words_split(ctx, r, u, tr, p, parts); return
    if not all(x.op == 'phi' or x.op == 'str' for x in parts): r.note(f'{n}: the parts are put together after the loop: not analysed'); return
    loops = {x.a[:2] for x in parts if x.op == 'phi'}
    if len(loops) != 1: r.note(f'{n}: the parts are collected in several loops: not analysed'); return
    key = next(iter(loops)); ph = phis(u)
    mine = [x for x in ph if x.op == 'phi' and x.a[:2] == key]
    backs = [t for t in u.traces if t.kind == 'back' and (t.info['ctx'], t.info['head']) == key]
    if not backs: r.note(f'{n}: the loop is not found'); return
    bases = {ev[1] for t in backs for ev in t.events() if ev[0] == 'elem'}
    elems = {ev[2] for t in backs for ev in t.events() if ev[0] == 'elem'}
    chars = app('chars', p)
    if len(elems) != 1 or len(bases) != 1: r.note(f'{n}: more than one thing is iterated: not analysed'); return
    E = next(iter(elems)); base = next(iter(bases))
    idx = None
    if base.op == 'app' and base.a[0] == 'char_indices' and base.a[1] is p: ch = fld(E, None, 1); idx = [fld(E, None, 0)]
    elif base is chars: ch = E; idx = []
    else: r.note(f'{n}: {short(base)} is iterated: not analysed'); return
    for t in backs:
        for f in t.facts:
            for x in subterms(f):
                if x.op == 'idx' and x not in idx: idx.append(x)
                if x.op == 'tuple' and x.a and x.a[0].op == 'idx' and x.a[0] not in idx: idx.append(x.a[0])
    texts = [x for x in parts if x.op == 'phi']
    ctrl = [x for x in mine if x not in texts and x in set().union(*[set(subterms(f)) for t in backs for f in list(t.facts) + list(t.vars)] or [set()]) | set().union(*[set(subterms(t.info['phi'].get(q, q))) for t in backs for q in texts])]
    # control variables that others are computed from
    grow = True
    while grow:
        grow = False
        for c in list(ctrl):
            for t in backs:
                for y in subterms(t.info['phi'].get(c, c)):
                    if y in mine and y not in texts and y not in ctrl: ctrl.append(y); grow = True
    init = {}
    for x in ctrl + texts:
        vs = [v for v, k in ph[x] if k == 'init']
        if len(vs) != 1: r.note(f'{n}: the loop is entered in several ways: not analysed'); return
        init[x] = vs[0]
    if any(init[x] is not S('') for x in texts) or any(x.op == 'str' and x is not S('') for x in parts):
        r.bad(f'{n} start', f'{n} does not begin with empty parts'); return
    def finite(v): return v.op in ('agg', 'bool', 'int', 'str', 'tuple') and not any(x.op not in ('agg', 'bool', 'int', 'str', 'tuple') for x in subterms(v))
    if not all(finite(init[x]) for x in ctrl): r.note(f'{n}: a loop variable does not begin with a constant: not analysed'); return
    cs = {x.a[0] for t in backs for f in list(t.facts) + list(t.vars) for x in subterms(f) if x.op == 'str' and len(x.a[0]) == 1 and contains(f, ch)}
    cs |= {chr(x.a[0]) for t in backs for f in list(t.facts) + list(t.vars) for x in subterms(f) if x.op == 'int' and 32 < x.a[0] < 127 and contains(f, ch)}
    letters = ['#', '?'] + sorted(cs - {'#', '?'}) + [next(c for c in 'xyzw0_' if c not in cs), next(c for c in 'éüß' if c not in cs)]
    NAMES = ('target', 'query', 'fragment')
    start = ('T', True, tuple(init[x] for x in ctrl), (0,) * len(texts))
    todo = [(start, '')]; seen = {start}
    while todo:
        (mode, first, cv, ne), word = todo.pop(0)
        for c in letters:
            m2 = mode
            if mode != 'F':
                if c == '#' and not first: m2 = 'F'
                elif c == '?': m2 = 'Q'
            want = 'TQF'.index(m2)
            env = {ch: c}
            if ch is not E: env[E] = (0 if first else UNK, c)
            for i in idx: env[i] = 0 if first else UNK
            memo = dict(zip(ctrl, cv))
            sub = lambda t: rewrite(t, lambda x: memo.get(x))
            poss = []
            for t in backs:
                e = strs.Ev(ctx, env); ok = True
                for f, v in t.facts.items():
                    g = sub(f); x = e.ev(g)
                    if x is UNK: x = text_fact(g, texts, ne)
                    if x is UNK and not first: x = later(g, idx, E)
                    if isinstance(x, bool):
                        if x != bool(v): ok = False; break
                    elif any(y is ch or y in texts or y in idx or y in ctrl for y in subterms(f)): ok = None
                    elif not any(contains(f, y) for y in (E, p)): continue
                    else: ok = None
                if ok is not False:
                    for y, vs in t.vars.items():
                        x = e.ev(sub(y))
                        if isv(x):
                            if x[1] not in vs: ok = False; break
                        elif contains(y, ch) or any(z in subterms(y) for z in ctrl + texts): ok = None
                if ok is not False: poss.append((ok, t))
            if any(ok is None for ok, t in poss):
                r.note(f'{n}: a guard of the loop is not understood: not analysed'); return
            r.ob('steps of the automaton')
            w2 = word + c
            if len(poss) == 0: continue         # leaves the loop or panics: C03
            if len(poss) > 1: r.note(f'{n}: the step of the loop is not determined: not analysed'); return
            t = poss[0][1]
            ne2 = list(ne); lost = None
            for k, x in enumerate(parts):
                old = x; new = sub(t.info['phi'].get(x, x)) if x.op == 'phi' else x
                new = rewrite(new, lambda y: S(c) if y is ch else None)
                exp = concat([old, S(c)]) if k == want else old
                if x.op == 'str' and k == want: r.bad(f'{n} {NAMES[k]}', f'the {NAMES[k]} is always {x.a[0]!r}, although {w2!r} has one'); return
                if new is not exp:
                    inner = [y for y in subterms(new) if y.op == 'app' and y.a[0] not in ('concat',) or y.op in ('fld', 'sym') ]
                    if inner and not (new.op == 'app' and new.a[0] == 'concat' and not any(contains(new, y) for y in inner)): r.note(f'{n}: how a part grows is not understood: not analysed'); return
                    if k == want: lost = f'character {len(w2)} of {w2!r} is not appended to the {NAMES[k]}'
                    elif lost is None: lost = f'the {NAMES[k]} changes at character {len(w2)} of {w2!r}, which belongs to the {NAMES[want]}'
            if lost: r.bad(f'{n} {NAMES[want]}', f'{n}: {lost} {on(ctx, t)}'); return
            for k, x in enumerate(texts):
                if x is parts[want]: ne2[k] = min(4, ne2[k] + len(c.encode()))
            cv2 = []
            e = strs.Ev(ctx, env)
            for x in ctrl:
                v = rewrite(sub(t.info['phi'].get(x, x)), lambda y: S(c) if y is ch else None)
                if not finite(v):
                    b = e.ev(v)
                    if isinstance(b, bool): v = B(b)
                    elif isinstance(b, int) and b < 4: v = I(b)
                    elif isinstance(b, str) and len(b) < 4: v = S(b)
                    elif v.op == 'app' and v.a[0] == 'add' and finite(v.a[1]): v = I(3)
                    else: r.note(f'{n}: a loop variable is not followed: not analysed'); return
                if v.op == 'int' and v.a[0] > 3: v = I(3)
                if v.op == 'str' and len(v.a[0]) > 3: r.note(f'{n}: a text is kept in the loop: not analysed'); return
                cv2.append(v)
            nxt = (m2, False, tuple(cv2), tuple(ne2))
            if nxt not in seen:
                if len(seen) > 400: r.note(f'{n}: too many states'); return
                seen.add(nxt); todo.append((nxt, w2))
    r.ob('states of the automaton', len(seen))
def text_fact(g, texts, ne):
    """length of a part collected so far (4 means at least 4)"""
    for k, x in enumerate(texts):
        if g is EQ(x, S('')): return ne[k] == 0
        if g.op != 'app' or g.a[0] not in ('eq', 'lt'): continue
        a, b = g.a[1:3]; l = app('len', x)
        if l not in (a, b): continue
        o = b if a is l else a
        if o.op != 'int' or o.a[0] > 3: continue
        if g.a[0] == 'eq': return ne[k] == o.a[0]
        return ne[k] < o.a[0] if a is l else o.a[0] < ne[k]
    return UNK
def later(g, idx, E):
    """guards on the position, when it is not the first one"""
    for i in idx:
        if g.op == 'app' and g.a[0] == 'eq' and i in g.a and I(0) in g.a: return False
        if g.op == 'app' and g.a[0] == 'lt' and g.a[1] is I(0) and g.a[2] is i: return True
        if g.op == 'app' and g.a[0] == 'lt' and g.a[1] is i and g.a[2] is I(1): return False
    return UNK
def words_split(ctx, r, u, tr0, p, parts):
    """no loop: the returned parts on words"""
    if getattr(r, '_words', None) == u.name: return
    r._words = u.name
    words = SPLIT_WORDS
    rs = [t for t in ctx.rets(u)]
    base = tr0.ret
    for w in words:
        hit = []
        for t in rs:
            ok, e = strs.run(ctx, t, {p: w})
            if ok is not False: hit.append((ok, t, e))
        if len(hit) != 1 or hit[0][0] is not True: r.note(f'{u.name}: how the request is split is not understood'); return
        t, e = hit[0][1], hit[0][2]
        if t is not tr0 and len(rs) > 1:
            # the same components of another path
            vals = [e.ev(rewrite_path(x, base, t.ret)) for x in parts]
        else: vals = [e.ev(x) for x in parts]
        r.ob('words')
        if any(not isinstance(v, str) for v in vals): r.note(f'{u.name}: the parts are not understood'); return
        if tuple(vals) != split_spec(w): r.bad(f'{u.name} parts', f'{u.name} splits {w!r} into {tuple(vals)}, not {split_spec(w)}'); return
def rewrite_path(x, a, b):
    if a.op in ('tuple', 'agg') and b.op == a.op:
        for i, y in enumerate(a.a):
            if y is x: return b.a[i]
    return mk('bad', x)
def kind19(ctx, r):
    u = ctx.unit('Resolver::get_target_kind', r)
    if u is None: return
    p = ctx.param(u, 'str'); i, kt = ctx.adt('PathKind')
    if p is None or kt is None: r.note('Resolver::get_target_kind: not analysed'); return
    names = [v['name'] for v in kt['variants']]
    words = list(dict.fromkeys(KIND_WORDS + more_words({w for w in consts_of(u) if w})))
    und = 0
    for w in words:
        ks = set(); n = 0
        for t in u.traces:
            if t.kind == 'back': continue
            ok, e = strs.run(ctx, t, {p: w})
            if ok is False: continue
            if t.kind == 'panic': continue      # C03
            n += 1; k = e.ev(t.ret); ks.add(names[k[1]] if isv(k) and k[1] < len(names) else None)
        r.ob('beginnings'); want = kind_spec(w)
        if len(ks) != 1 or None in ks: und += len(ks) != 0 and (None in ks or want in ks); 
        if ks and None not in ks and want not in ks: r.bad(f'Resolver::get_target_kind {want}', f'the kind of the target {w!r} is {" or ".join(sorted(ks))} instead of {want}')
    if und: r.note(f'Resolver::get_target_kind: {und} of {len(words)} beginnings are not decided')
def reqs19(ctx, r):
    """a request has the kind of its own target"""
    it, kt = ctx.adt('PathKind')
    names = [v['name'] for v in kt['variants']] if kt else []
    it = ctx.fidx('Request', 'target'); ik = ctx.fidx('Request', 'kind')
    if it is None or ik is None: return
    for n, u in ctx.A.units.items():
        done = set()
        for tr in u.traces:
            for ev in tr.events():
                if ev[0] != 'make' or ev[1].op != 'agg' or ev[1] in done or tybase(ctx.types[ev[1].a[0]].get('name') or '') != 'Request': continue
                done.add(ev[1]); r.fn(n)
                t, k = fld(ev[1], None, it), fld(ev[1], None, ik); r.ob('built request')
                r.site(f'{n}: builds a request')
                if t.op == 'fld' and k.op == 'fld' and t.a[0] is k.a[0]: continue
                if isret(k, 'Resolver::get_target_kind') and k.a[-1] is t: continue
                if t.op == 'str' and k.op == 'agg':
                    if names[k.a[1]] != kind_spec(t.a[0]): r.bad(f'{n} kind', f'{n} builds a request for {t.a[0]!r} of the kind {names[k.a[1]]}')
                    continue
                if isret(k, 'Resolver::get_target_kind'):
                    if not murky(ctx, t) or k.a[-1].op == 'fld' and t.op == 'fld': r.bad(f'{n} kind', f'{n} builds a request for {short(t)} with the kind of {short(k.a[-1])}')
                    else: r.note(f'{n}: the kind of a request is not followed')
                    continue
                if t.op == 'fld' and k.op == 'fld' and ctx_field(ctx, t) == 'target' and ctx_field(ctx, k) == 'kind': r.bad(f'{n} kind', f'{n} builds a request with the target of {short(t.a[0])} and the kind of {short(k.a[0])}'); continue
                if k.op == 'fld' and ctx_field(ctx, k) == 'kind' and not contains(t, k.a[0]) and not murky(ctx, t): r.bad(f'{n} kind', f'{n} builds a request for {short(t)} with the kind of another one'); continue
                if k.op == 'fld' and ctx_field(ctx, k) == 'kind' and t is not fld(k.a[0], None, it) and not hasret(t): r.bad(f'{n} kind', f'{n} changes the target to {short(t)} without its kind'); continue
                if k.op == 'agg':
                    # a copy of a kind, one path per variant
                    src = [y for y, vs in tr.vars.items() if vs == frozenset([k.a[1]]) and (isret(y, 'Resolver::get_target_kind') or y.op == 'fld' and ctx_field(ctx, y) == 'kind')]
                    if any(isret(y) and y.a[-1] is t or y.op == 'fld' and fld(y.a[0], None, it) is t for y in src): continue
                    w = {'Relative': ('./', '../'), 'AbsolutePosix': ('/',), 'Internal': ('#',)}.get(names[k.a[1]])
                    pre = t.a[1].a[0] if t.op == 'app' and t.a[0] == 'concat' and t.a[1].op == 'str' else None
                    if w and pre and pre.startswith(w): continue
                    if ctx.truth(tr, app('starts_with', t, S('/'))) and names[k.a[1]] == 'AbsolutePosix': continue
                    r.note(f'{n}: the kind {names[k.a[1]]} of a request is not decided'); continue
                r.note(f'{n}: the kind of a request is not followed')

# ---------------------------------------------------------------- C20
LOSSY = ('display', 'debug')
def c20(ctx, r):
    """Taint: the text made from a path by `display`, `to_string_lossy` or `{:?}` (also when another function returns such a text) does not reach a file system operation, the path of a request handed on or answered, the target of a request, a key of a cache, a field of a package description, or a returned path. It may reach messages and comparisons. A path that is not Unicode (`to_str` answers None) does not end the search or the answer where a Unicode path goes on."""
    more = {}; A = ctx.A; PATHTY = ('Path', 'PathBuf', 'OsString', 'OsStr')
    def tyname(n):
        if n is None: return ''
        t = ctx.types[ctx.e.peel(n)]
        return tybase(t['name']) if t.get('k') == 'adt' else t.get('k')
    tainted = {}
    def src(t):
        for x in subterms(t):
            if x.op == 'app' and x.a[0] in LOSSY and len(x.a) > 1 and ispath(x.a[1]): return x
            if x.op == 'app' and x.a[0].endswith('from_utf8_lossy'): return x
            if isret(x) and x.a[1] in tainted: return x
        return None
    def ispath(t):
        """made from a path: not text of a configuration file or an error"""
        n = ty_of(t)
        if n is not None and tyname(n) in ('Value', 'Error', 'ParseError'): return False
        for x in subterms(t):
            if x.op == 'app' and x.a[0] in ('join', 'parent', 'canonicalize', 'file_name', 'components', 'ancestors', 'path_strip_prefix', 'with_extension', 'popped'): return True
            if x.op == 'fld' and ctx_field(ctx, x) in ('path', 'abs_dir_path', 'paths'): return True
            if x.op == 'sym' and re.match(r'a(\d+):', x.a[0]):
                u = A.units.get(x.a[0].split(':', 1)[1]) or more.get(x.a[0].split(':', 1)[1]); k = int(re.match(r'a(\d+):', x.a[0]).group(1))
                if u and k < len(u.inst['body']['locals']) and tyname(u.inst['body']['locals'][k][0]) in PATHTY: return True
                if u and k < len(u.inst['body']['locals']) and tyname(u.inst['body']['locals'][k][0]) in ('param', 'ref', '') : return True
        return False
    # functions that return such a text
    ch = True
    while ch:
        ch = False
        for n, u in A.units.items():
            if n in tainted or n.startswith('Debug') or tyname(u.inst['body']['locals'][0][0]) not in ('String', 'str', 'Cow', 'SmolStr', 'Option'): continue
            if any(src(tr.ret) is not None and not message(ctx, tr.ret) for tr in ctx.rets(u)): tainted[n] = 1; ch = True
    ip = ctx.fidx('ResolveInfo', 'path'); ir = ctx.fidx('ResolveInfo', 'request')
    for i in ctx.local:
        n = ctx.e.sname[i['id']]
        if n in ('ResolveInfo::join', 'ResolveInfo::get_path') and n not in A.units:
            try: more[n] = ctx.e.run_unit(i, n)
            except Exception as x: r.note(f'{n}: {x}')
    for n, u in {**A.units, **more}.items():
        r.fn(n); r.paths += len(u.traces)
        rt = tyname(u.inst['body']['locals'][0][0])
        for tr in u.traces:
            def bad(t, what):
                x = src(t)
                if x is not None: r.bad(f'{n} {what}', f'{n}: {what} is made from the text {short(x, 90)} of a path, which does not keep the bytes of a name that is not Unicode')
            for ev in tr.events():
                if ev[0] == 'fs': r.ob('file system operation'); r.site(f'{n}: {ev[1]}'); bad(ev[2], 'the looked up path')
                elif ev[0] == 'make' and ev[1].op == 'agg':
                    k = tybase(ctx.types[ev[1].a[0]].get('name') or '')
                    if k == 'ResolveInfo': r.ob('path of a request'); bad(fld(ev[1], None, ip), 'the path of a request')
                    elif k == 'Request': r.ob('target of a request'); bad(ctx.F(ev[1], 'Request', 'target'), 'the target of a request')
                    elif k == 'PkgFileInfo': r.ob('package description'); bad(ctx.F(ev[1], 'PkgFileInfo', 'abs_dir_path'), 'the directory of a description')
                elif ev[0] == 'dm' and ev[3]: r.ob('key of a cache'); bad(ev[3][0], 'the key of a cache')
                elif ev[0] == 'call':
                    V = A.units.get(ev[1])
                    if V is None: continue
                    for i, a in enumerate(ev[2]):
                        k = tyname(V.inst['body']['locals'][i + 1][0]) if i + 1 < len(V.inst['body']['locals']) else ''
                        if k in PATHTY: r.ob('path given to a function'); bad(a, f'the path given to {ev[1]}')
                        elif k == 'ResolveInfo': bad(fld(a, None, ip), f'the path given to {ev[1]}'); bad(ctx.target(a), f'the target given to {ev[1]}')
            for f in tr.facts:
                if f.op != 'app' or f.a[0] not in ('eq', 'path_starts_with', 'path_ends_with', 'path_strip_prefix') or len(f.a) != 3: continue
                for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    whole = x.op == 'app' and x.a[0] in ('join', 'parent', 'canonicalize', 'with_extension', 'popped') or x.op == 'fld' and ctx_field(ctx, x) in ('path', 'abs_dir_path')
                    if whole and src(x) is None and isinstance(y, T): r.ob('path compared'); bad(y, 'what a path is compared with')
            if tr.kind == 'back':
                for q, v in tr.info['phi'].items():
                    if v.op == 'app' and v.a[0] in ('join', 'pushed', 'with_extension'): r.ob('path built in a loop'); bad(v, 'a path')
            for ev in tr.events():
                if ev[0] == 'fold':
                    for v in ev[2] if isinstance(ev[2], (list, tuple)) else [ev[2]]:
                        if isinstance(v, T) and v.op == 'app' and v.a[0] in ('join', 'pushed'): r.ob('path built in a loop'); bad(v, 'a path')
            if tr.kind == 'return':
                if rt in PATHTY: r.ob('returned path'); bad(tr.ret, 'the returned path')
                elif rt in ('Option', 'Result') and tr.ret.op == 'agg' and not (rt == 'Result' and tr.ret.a[1] == 1) and len(tr.ret.a) > 2:
                    g = ctx.types[u.inst['body']['locals'][0][0]]['s']
                    if 'PathBuf' in g.split(',')[0] or 'OsString' in g: r.ob('returned path'); bad(tr.ret.a[2], 'the returned path')
                    elif 'ResolveResult' in g:
                        x = info_of(ctx, tr.ret.a[2])
                        if x is not None: bad(fld(x, None, ip), 'the answered path')
                for x in success_infos(ctx, tr) if rt == 'ResolverStats' else []: r.ob('answered path'); bad(fld(x, None, ip), 'the answered path')
        # a path that is not Unicode
        for tr in u.traces:
            if tr.kind != 'return': continue
            for x, vs in tr.vars.items():
                if vs != frozenset([0]) or x.op != 'app' or x.a[0] != 'to_str' or not ispath(x.a[1]): continue
                r.ob('path that is not Unicode'); r.site(f'{n}: to_str')
                root = [y for y in subterms(x.a[1]) if y.op == 'fld' and ctx_field(ctx, y) in ('path', 'abs_dir_path') or y.op == 'sym' and y.a[0].startswith('a')]
                if any(y.op == 'app' and y.a[0] in ('path_strip_prefix',) for y in subterms(x.a[1])): continue
                def uses(t2):
                    out = 0
                    for ev in t2.events():
                        if ev[0] == 'fs' and any(contains(ev[2], y) for y in root): out += 1
                        if ev[0] == 'call' and any(isinstance(a, T) and any(contains(a, y) for y in root) for a in ev[2]): out += 1
                    return out
                mine = uses(tr)
                if tr.ret is not None and any(contains(tr.ret, x.a[1]) for _ in (1,)): continue
                # the same path, had the text been there
                others = [t2 for t2 in u.traces if t2.kind in ('return', 'back') and t2.vars.get(x) == frozenset([1]) and all(t2.facts.get(f, v) == v for f, v in tr.facts.items() if not contains(f, x))]
                if others and all(uses(t2) > mine for t2 in others) and not any(contains(a, x.a[1]) for ev in tr.events() if ev[0] in ('call', 'fs') for a in (ev[2] if ev[0] == 'call' else [ev[2]]) if isinstance(a, T)):
                    r.bad(f'{n} not Unicode', f'{n} gives up when {short(x.a[1], 80)} is not Unicode {on(ctx, tr)}')
                elif others and all(t2.kind == 'return' and t2.ret is not tr.ret and contains(t2.ret, fld(x, 1, 0)) for t2 in others) and rt in PATHTY:
                    r.bad(f'{n} not Unicode', f'{n} answers {short(tr.ret, 80)} when {short(x.a[1], 80)} is not Unicode')
def message(ctx, t):
    """an error or a log text"""
    if t.op == 'agg':
        k = tybase(ctx.types[t.a[0]].get('name') or '')
        return k == 'Result' and t.a[1] == 1
    return t.op == 'app' and t.a[0] == 'concat' and any(x.op == 'str' and ' ' in x.a[0] for x in t.a[1:])

# ---------------------------------------------------------------- C21
def is_names(ctx, t):
    if t.op == 'app' and t.a[0] in ('it', 'iter', 'clone') and len(t.a) > 1: t = t.a[1]
    i = ctx.fidx('ResolverOptions', 'condition_names')
    if t.op == 'fld' and t.a[2] == i and from_opts(ctx, t.a[0]): return True
    if t.op in ('sym', 'param') or not any(isinstance(x, T) for x in t.a):
        n = ty_of(t); return n is not None and tybase(ctx.types[ctx.e.peel(n)].get('name') or '') in ('HashSet', 'BTreeSet', 'IndexSet')
    return False
def about_names(ctx, t): return any(is_names(ctx, x) for x in subterms(t))
DEFAULT = S('default')
def opt_key(x):
    """(map, key) that a value is looked up with, or (list, key of the element it belongs to)"""
    if x.op == 'app' and x.a[0] in ('map.get', 'get') and len(x.a) > 2: return x.a[1], x.a[2]
    if x.op == 'fld' and x.a[1] is None and x.a[2] == 1 and x.a[0].op == 'elem': return x.a[0].a[0], fld(x.a[0], None, 0)
def entries_in(ctx, t):
    """the entries of conditional values that a term depends on: (map, key, the value); only the outermost"""
    out = []; st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); k = opt_key(x)
        if k is not None and not (k[0].op == 'app' and k[0].a[0] == 'ret'): out.append((k[0], k[1], x)); continue
        st += [y for y in x.a if isinstance(y, T)]
    return out
def chosen(ctx, tr, k):
    """may a branch with this key be taken: True / False / None (not tested) / 'unclear'"""
    d = True if k is DEFAULT else ctx.truth(tr, EQ(k, DEFAULT))
    h = None; unclear = False
    for f, v in tr.facts.items():
        if not contains(f, k) or not about_names(ctx, f): continue
        if f.op == 'app' and f.a[0] in ('map.contains', 'has', 'contains') and is_names(ctx, f.a[1]) and f.a[2] is k: h = bool(v)
        elif f.op in ('app', 'eq', 'and', 'or') : unclear = True; h = True if v and f.op == 'app' and f.a[0] == 'eq' else h
    for t, vs in tr.vars.items():
        if contains(t, k) and about_names(ctx, t):
            if t.op == 'app' and t.a[0] in ('get', 'map.get') and is_names(ctx, t.a[1]): h = vs == frozenset([1]) if len(vs) == 1 else h
            else: unclear = True
    if d is True or h is True: return True
    if d is False and h is False: return False
    return 'unclear' if unclear else None
def c21(ctx, r):
    """In the function that chooses a branch of a conditional value: a branch that is answered, or that is gone into, has a key that is known to be a configured name or "default" on that path, and the keys are met in the order of the map (no reordering adapter, no sorted copy, no set, resumed right behind the last one); a turn passes over a key only if it is known to be neither, or its entry is absent, or its nested value was gone into and is known to lead to nothing; nothing is answered with a nested nothing or before the keys are exhausted. The maps that hold conditions, from JSON on, keep insertion order. Every call hands on the configured set."""
    order21(ctx, r)
    for n, u in ctx.A.units.items():
        fs = [f for tr in u.traces for f in list(tr.facts) + list(tr.vars) if about_names(ctx, f)]
        if not fs and n != 'conditional_mapping': continue
        if n != 'conditional_mapping' and not any(f.op == 'app' and f.a[0] in ('map.contains', 'has', 'contains') and is_names(ctx, f.a[1]) for f in fs): continue
        u = ctx.unit(n, r)
        choose21(ctx, r, u)
    u = ctx.unit('conditional_mapping', r)
    # what is done with the chosen value
    for n, u in ctx.A.units.items():
        if n == 'conditional_mapping': continue
        for tr in ctx.rets(u):
            for t, vs in tr.vars.items():
                if not (t.op == 'fld' and isret(t.a[0], 'conditional_mapping') and t.a[1] == 0): continue
                r.ob('chosen value'); r.site(f'{n}: value chosen'); r.fn(n)
                err = tr.ret.op == 'agg' and (ctx.types[tr.ret.a[0]]['name'].endswith('Result')) and tr.ret.a[1] == 1
                if vs == frozenset([0]) and err and not any(hasret(x) and not contains(x, t.a[0]) for x in tr.vars) and t.a[0] in [e[3] for e in tr.events() if e[0] == 'call'][-1:]: r.bad(f'{n} none', f'{n} fails when no condition matches {on(ctx, tr)}')
                if vs == frozenset([1]):
                    v = fld(t, 1, 0)
                    if not contains(tr.ret, v) and not any(contains(x, v) for ev in tr.events() if ev[0] in ('call', 'push') for x in (ev[2] if ev[0] == 'call' else ev[2:3]) if isinstance(x, T)) and not err: r.bad(f'{n} dropped', f'{n} does nothing with the branch that was chosen {on(ctx, tr)}')
    # every call hands on the configured names
    for n, u in ctx.A.units.items():
        for tr in u.traces:
            for ev in tr.events():
                if ev[0] != 'call' or ev[1] not in ctx.A.units: continue
                v = ctx.A.units[ev[1]]
                for i, p in enumerate(v.params):
                    if not is_names(ctx, p) or i >= len(ev[2]): continue
                    a = ev[2][i]; r.ob('names handed on'); r.site(f'{n}: calls {ev[1]}')
                    if is_names(ctx, a): continue
                    if not isinstance(a, T) or murky(ctx, a) and not any(x.op == 'app' and x.a[0] == 'map.new' for x in subterms(a)): r.note(f'{n}: the condition names for {ev[1]} are not followed'); continue
                    r.bad(f'{n} names', f'{n} chooses with other condition names than the configured ones: {short(a)}')
def order21(ctx, r):
    i, t = ctx.adt('MappingValue')
    def ordered(ty, what):
        t = ctx.types[ctx.e.peel(ty)]; n = tybase(t.get('name') or '')
        if n in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'DashMap'): r.bad(f'{what} order', f'{what} is a {n}: it does not keep the order in which the keys are written')
        elif n not in ('IndexMap', 'Vec'): r.note(f'{what}: {n} is not known to keep its order')
        r.ob('ordered map'); r.site(what)
    if t is None: r.note('MappingValue is not there: not analysed')
    else:
        for v in t['variants']:
            if v['name'] == 'Conditional' and v['fields']: ordered(v['fields'][0][1], 'a conditional value')
    for t in ctx.types:
        if t.get('k') == 'adt' and tybase(t['name']) == 'Map' and t.get('crate') == 'serde_json' and 'variants' in t:
            for f in t['variants'][0]['fields']:
                if f[0] == 'map': ordered(f[1], 'a JSON object')
    for n in ('MappingValue::from_json', 'IndexMap::from_json'):
        u = ctx.unit(n)
        if u is None: continue
        r.fn(n)
        for tr in u.traces:
            for ev in tr.events():
                if ev[0] == 'sort': r.bad(f'{n} sorted', f'{n} sorts the keys of a value')
                it = ev[4] if ev[0] == 'elem' and len(ev) > 4 else None
                rev21(r, n, it, 'reads')
                if ev[0] == 'map.insert': r.ob('stored condition'); r.site(f'{n}: stores an entry')
def rev21(r, n, it, what):
    k = 0
    while isinstance(it, T) and it.op != 'it' and k < 20:
        k += 1
        if it.op == 'itpass' and it.a[0] in ('rev', 'step_by', 'skip_while', 'last') or it.op == 'itpass' and it.a[0] == 'skip' and len(it.a) > 2 and it.a[2].op == 'int' and it.a[2].a[0] > 0: r.bad(f'{n} order', f'{n} {what} the keys of a conditional value in another order ({it.a[0]})')
        it = it.a[1] if it.op == 'itpass' else it.a[0]
    if isinstance(it, T) and it.op == 'it' and it.a[0].op == 'app' and it.a[0].a[0] in ('rev', 'sorted'): r.bad(f'{n} order', f'{n} {what} the keys of a conditional value in another order ({it.a[0].a[0]})')
def choose21(ctx, r, u):
    n = u.name
    stacks = {ev[1] for tr in u.traces for ev in tr.events() if ev[0] == 'push' and entries_in(ctx, ev[2])}
    stackphis = {x for s in stacks for x in subterms(s) if x.op == 'phi'}
    own = [p for p in u.params if not is_names(ctx, p)]
    for tr in u.traces:
        evs = tr.events()
        here = loop_events(tr)
        elems = [ev[2] for ev in evs if ev[0] == 'elem']
        for ev in evs:
            if ev[0] == 'elem' and not is_names(ctx, ev[1]): rev21(r, n, ev[4] if len(ev) > 4 else None, 'goes through')
            if ev[0] == 'sort': r.bad(f'{n} sorted', f'{n} sorts the keys of a conditional value')
        def met(k):
            """where a key comes from: 'key' in order, 'names' from the set, None not known"""
            if k is DEFAULT:
                if any(v and is_eq(f) and DEFAULT in f.a and any(x.op == 'elem' and not about_names(ctx, x) for x in subterms(f)) for f, v in tr.facts.items()): return 'key'
                if any(t.op != 'x' and vs == frozenset([1]) and contains(t, DEFAULT) and any(x.op == 'elem' for x in subterms(t)) for t, vs in tr.vars.items()): return 'key'
                ex = [ev[1] for i, ev in enumerate(evs) if ev[0] == 'exhausted' and not (i + 1 < len(evs) and evs[i + 1][0] == 'collect')]
                if ex: return 'key'
                return 'out of order'
            if any(x.op == 'elem' and is_names(ctx, x.a[0]) for x in subterms(k)): return 'names'
            return 'key'
        def taken(x, what):
            for m, k, v in entries_in(ctx, x):
                if not is_adt(ctx, v, 'MappingValue') and not any(is_adt(ctx, y, 'MappingValue') for y in (fld(v, 1, 0),)) and not contains(m, own[0] if own else m) and k.op != 'elem': continue
                r.ob('taken branch'); r.site(f'{n}: takes a branch')
                o = met(k)
                if o == 'names': r.bad(f'{n} order of names', f'{n} looks the condition names up one by one instead of going through the keys in the order they are written'); continue
                if o == 'out of order': r.bad(f'{n} default first', f'{n} {what} the branch "default" without having come to it {on(ctx, tr)}'); continue
                c = chosen(ctx, tr, k)
                if c == 'unclear': r.note(f'{n}: how a key is tested is not followed'); continue
                if c is not True: r.bad(f'{n} other key', f'{n} {what} a branch whose key {short(k)} is not known to be a condition name or "default" {on(ctx, tr)}')
        if tr.kind == 'return':
            ret = tr.ret
            isres = ret.op == 'agg' and ctx.types[ret.a[0]]['name'].endswith('Result')
            err = isres and ret.a[1] == 1
            pay = ret.a[2] if isres and not err else None
            none = pay is not None and (pay.op == 'agg' and ctx.types[pay.a[0]]['name'].endswith('Option') and pay.a[1] == 0 or tr.vars.get(pay) == frozenset([0]))
            if none:
                r.ob('nothing'); r.site(f'{n}: answers nothing')
                last = None
                for ev in evs:
                    if ev[0] in ('elem', 'exhausted') and not is_names(ctx, ev[1]): last = ev
                if last is not None and last[0] == 'elem' and not any(ev[0] == 'loop' for ev in evs[evs.index(last):]): r.bad(f'{n} given up', f'{n} answers nothing although not all keys were looked at {on(ctx, tr)}')
                if stackphis:
                    empty = any(v and is_eq(f) and any(isinstance(x, T) and x.op == 'app' and x.a[0] == 'len' for x in f.a) and contains(f, x0) for f, v in tr.facts.items() for x0 in stackphis) or any(vs == frozenset([0]) and t.op == 'app' and t.a[0] in ('last', 'pop', 'first') and any(contains(t, x0) for x0 in stackphis) for t, vs in tr.vars.items())
                    if not empty: r.bad(f'{n} given up', f'{n} answers nothing although keys of an outer value are left {on(ctx, tr)}')
                for t, vs in tr.vars.items():
                    if t.op == 'app' and t.a[0] == 'ret' and t.a[1] == n and last is not None and last[0] == 'elem': r.bad(f'{n} given up', f'{n} answers nothing because a nested value leads to nothing {on(ctx, tr)}')
                continue
            if err:
                r.ob('error')
                if any(isret(x) for x in subterms(ret)): continue
                if not any(DEFAULT in f.a and is_eq(f) and v for f, v in tr.facts.items()) and not any(contains(t, DEFAULT) for t in tr.vars): r.bad(f'{n} fails', f'{n} fails for a conditional value {on(ctx, tr)}')
                continue
            own_ret = ret if isret(ret, re.escape(n)) else None
            if own_ret is None and pay is not None:
                y = pay
                if y.op == 'fld' and y.a[1] == 0 and isret(y.a[0], re.escape(n)) and tr.vars.get(y) != frozenset([1]): own_ret = y.a[0]
            if own_ret is not None and elems:
                if tr.vars.get(fld(own_ret, 0, 0)) != frozenset([1]) and tr.vars.get(own_ret) != frozenset([1]): r.bad(f'{n} nested nothing', f'{n} answers what a nested value leads to even if that is nothing {on(ctx, tr)}')
                taken(own_ret, 'goes into'); continue
            if pay is not None: taken(pay, 'answers')
        for ev in here:
            if ev[0] == 'push' and ev[1] in stacks: taken(ev[2], 'goes into')
            if ev[0] == 'call' and ev[1] == n:
                for x in ev[2]:
                    if isinstance(x, T) and not is_names(ctx, x): taken(x, 'goes into')
        pushes = [ev for ev in here if ev[0] == 'push' and ev[1] in stacks and entries_in(ctx, ev[2])]
        for ev in pushes:
            # the nested value with its own keys
            p = ev[2]
            if p.op == 'tuple':
                maps = [x for x in p.a if x.op != 'int' and not (x.op == 'app' and x.a[0] in ('collect', 'keys', 'list'))]
                keys = [x for x in p.a if x.op == 'app' and x.a[0] in ('collect', 'keys', 'list')]
                r.ob('nested keys')
                if len(maps) == 1 and keys and not contains(keys[0], maps[0]) and not murky(ctx, keys[0]): r.bad(f'{n} other keys', f'{n} goes through a nested value with the keys of another one')
                for x in p.a:
                    if x.op == 'int' and x.a[0] != 0: r.bad(f'{n} nested start', f'{n} does not begin a nested value at its first key')
            idxs = [x for e in elems for x in subterms(e) if x.op == 'idx']
            skips = [e[4] for e in here if e[0] == 'elem' and len(e) > 4 and any(x.op == 'itpass' and x.a[0] == 'skip' for x in subterms(e[4]))]
            if idxs and skips:
                r.ob('resumed'); stored = [e[3] for e in here if e[0] == 'store' and isinstance(e[3], T) and any(contains(e[3], i) for i in idxs)] + [x for e in here if e[0] == 'push' for x in e[2].a if isinstance(x, T) and x.op == 'app' and x.a[0] in ('add', 'sub') and any(contains(x, i) for i in idxs)]
                good = [app('add', i, I(1)) for i in idxs]
                if not stored: r.bad(f'{n} resumed', f'{n} does not note where an outer value is resumed')
                for v in stored:
                    if v in good or any(v is g for g in good): continue
                    if any(v is i for i in idxs) or v.op == 'app' and v.a[0] in ('add', 'sub') and any(i in v.a for i in idxs): r.bad(f'{n} resumed', f'{n} does not resume an outer value right behind the key that was gone into: {short(v)}')
        if tr.kind != 'back': continue
        for ev in here:
            if ev[0] != 'elem' or is_names(ctx, ev[1]) or not in_loop_of(tr, ev[2]) and not pushes: continue
            if not in_loop_of(tr, ev[2]): continue
            e = ev[2]
            if e.op == 'tuple' and e.a[0].op == 'idx': e = e.a[1]
            if not any(is_adt(ctx, y, 'MappingValue') for y in (fld(e, None, 1),)) and ctx_ty(ctx, e) not in ('String', 'str'):
                continue
            k = fld(e, None, 0) if ctx_ty(ctx, e) not in ('String', 'str') and e.op == 'elem' and ctx_ty(ctx, fld(e, None, 1)) == 'MappingValue' else e
            if any(x[0] in ('collect', 'loop') for x in here[here.index(ev):]): continue
            if not any(contains(f, k) for f in list(tr.facts) + list(tr.vars)):
                if any(x[0] in ('collect', 'push') for x in here) or tr.info['head'] in ('map', 'collect', 'filter') or not isinstance(tr.info['head'], int): continue
            r.ob('passed over'); r.site(f'{n}: passes over a key')
            c = chosen(ctx, tr, k)
            if c is False: continue
            if c == 'unclear': r.note(f'{n}: how a key is tested is not followed'); continue
            absent = any(f.op == 'app' and f.a[0] in ('map.contains', 'has') and f.a[2] is k and not is_names(ctx, f.a[1]) and not v for f, v in tr.facts.items()) or any(opt_key(t) and opt_key(t)[1] in (k, DEFAULT) and vs == frozenset([0]) and t.op == 'app' for t, vs in tr.vars.items())
            if absent: continue
            nested = [x for x in here if x[0] == 'call' and x[1] == n and x[3] is not None]
            if nested:
                s = nested[-1][3]
                if tr.vars.get(fld(s, 0, 0)) == frozenset([0]) or tr.vars.get(s) == frozenset([0]): continue
                r.bad(f'{n} not first', f'{n} goes on with the next key although the branch of this one may lead to a target {on(ctx, tr)}'); continue
            if pushes: continue
            r.bad(f'{n} passed over', f'{n} passes over a key that may be a condition name or "default" {on(ctx, tr)}')
def ctx_ty(ctx, t):
    n = ty_of(t)
    if n is None: return None
    ty = ctx.types[ctx.e.peel(n)]
    return tybase(ty.get('name') or '') if ty.get('k') == 'adt' else ty.get('k')

# ---------------------------------------------------------------- C22
def desc_name(ctx, t):
    """is this term the configured name of description files"""
    i = ctx.fidx('ResolverOptions', 'description_file')
    for x in subterms(t):
        if x.op == 'fld' and x.a[2] == i and from_opts(ctx, x.a[0]): return True
    return False
def parent_of(t):
    """the term this is the parent directory of"""
    if t.op == 'fld' and t.a[1] == 1 and t.a[2] == 0: t = t.a[0]
    if t.op == 'app' and t.a[0] == 'parent': return t.a[1]
def filetests(tr):
    """[(directory, file name, op, value)] of what the path knows about files"""
    out = []
    for f, v in tr.facts.items():
        if f.op == 'app' and f.a[0] in ('is_file', 'exists', 'is_dir') and f.a[1].op == 'app' and f.a[1].a[0] == 'join': out.append((f.a[1].a[1], f.a[1].a[2], f.a[0], v))
    return out
def c22(ctx, r):
    """Every path of the search for a description and of its cache: a directory is answered only where joining it with the searched name is known to be a file; the search goes on only to the parent (or to the next ancestor, all of them in order) and only where it is known not to be one; nothing is answered only where there is no parent left. A description is parsed from the directory that was found and from the configured name in it, and stored for that directory; nothing is remembered only after the search found nothing. No description is not an error."""
    u = ctx.unit('Resolver::find_up', r)
    if u is not None:
        n = u.name; D0, N0 = (u.params + [None, None])[:2]; ph = phis(u)
        for p in u.params:
            ty = ctx_ty(ctx, p)
            if ty == 'str': N0 = p
            if ty in ('Path', 'PathBuf'): D0 = p
        def is_dirptr(d):
            """'start' | 'elem' | 'phi' | None"""
            if d is D0: return 'start'
            if d.op == 'elem' and d.a[0].op == 'app' and d.a[0].a[0] == 'ancestors': return 'elem'
            if d.op == 'phi' or d.op == 'fld' and d.a[0].op == 'phi': return 'phi'
        for tr in u.traces:
            if tr.kind == 'panic': continue
            ft = filetests(tr)
            for d, f, op, v in ft:
                r.ob('name'); r.site(f'{n}: looks for a file')
                if f is not N0 and not murky(ctx, f) and op == 'is_file': r.bad(f'{n} name', f'{n} looks for {short(f)} instead of the name it is given')
            def isfile(d): return next((v for x, f, op, v in ft if x is d and f is N0 and op == 'is_file'), None)
            for ev in tr.events():
                if ev[0] == 'elem' and len(ev) > 4: rev22(r, n, ev[4])
                if ev[0] == 'call' and ev[1] == n:
                    a = [x for x in ev[2] if isinstance(x, T)]; r.ob('goes up'); r.site(f'{n}: goes up')
                    q = next((parent_of(x) for x in a if parent_of(x) is not None), None)
                    if N0 not in a: r.bad(f'{n} other name', f'{n} goes on with another name than the searched one')
                    if q is None: r.note(f'{n}: where the search goes on is not followed'); continue
                    if q is not D0 and parent_of(q) is not None: 
                        if isfile(q) is not False: r.bad(f'{n} skipped', f'{n} skips a directory on the way up'); continue
                    if isfile(D0) is not False: r.bad(f'{n} not nearest', f'{n} goes on to the parent although the directory itself may have the file {on(ctx, tr)}')
            if tr.kind == 'back':
                here = loop_events(tr); es = [ev[2] for ev in here if ev[0] == 'elem' and is_dirptr(ev[2]) == 'elem' and in_loop_of(tr, ev[2])]
                for e in es:
                    r.ob('goes up')
                    if isfile(e) is not False and any(x[0] is e for x in ft) or not ft: r.bad(f'{n} not nearest', f'{n} passes over a directory that may have the file {on(ctx, tr)}')
                    elif isfile(e) is None: r.bad(f'{n} not nearest', f'{n} passes over a directory without having looked for the file in it {on(ctx, tr)}')
                for p, v in tr.info['phi'].items():
                    q = parent_of(v) if isinstance(v, T) else None
                    if q is None and isinstance(v, T) and v.op == 'agg' and len(v.a) == 3: q = parent_of(v.a[2])
                    if q is None: continue
                    r.ob('goes up')
                    base = q
                    if parent_of(base) is not None: 
                        if isfile(base) is not False: r.bad(f'{n} skipped', f'{n} skips a directory on the way up {on(ctx, tr)}'); continue
                    if isfile(base) is not False and not (base.op == 'elem'): r.bad(f'{n} not nearest', f'{n} goes on to the parent although the directory itself may have the file {on(ctx, tr)}')
                for e in [ev for ev in here if ev[0] == 'fs']: pass
            if tr.kind == 'return':
                x = tr.ret
                if isret(x) and x.a[1] == n: continue
                b = x.op == 'agg' and ctx.types[x.a[0]]['name'].endswith('Option')
                if b and x.a[1] == 1 or not b and tr.vars.get(x) == frozenset([1]):
                    d = x.a[2] if b else fld(x, 1, 0); r.ob('found'); r.site(f'{n}: answers a directory')
                    if isret(d) or any(isret(y) and y.a[1] == n for y in subterms(d)): continue
                    if isfile(d) is True: continue
                    if any(op == 'is_file' and v and (f is N0) for _, f, op, v in ft) and parent_of(d) is None and not any(x0 is d for x0, *_ in ft):
                        r.bad(f'{n} other directory', f'{n} answers {short(d)}, not the directory that has the file'); continue
                    if murky(ctx, d): r.note(f'{n}: the directory it answers is not followed'); continue
                    r.bad(f'{n} not a file', f'{n} answers {short(d)} which is not known to have the file {on(ctx, tr)}')
                elif b and x.a[1] == 0 or tr.vars.get(x) == frozenset([0]):
                    r.ob('nothing'); r.site(f'{n}: answers nothing')
                    if any(t.op == 'app' and t.a[0] == 'parent' and vs == frozenset([0]) for t, vs in tr.vars.items()) or any(ev[0] == 'exhausted' for ev in tr.events()):
                        if isfile(D0) is True: r.bad(f'{n} not nearest', f'{n} answers nothing although the directory has the file {on(ctx, tr)}')
                        continue
                    if any((p.op == 'phi' or contains(p, D0)) and vs == frozenset([0]) for p, vs in tr.vars.items()): continue
                    r.bad(f'{n} given up', f'{n} answers nothing although there are directories left above {on(ctx, tr)}')
    u = ctx.unit('Resolver::load_pkg_file', r)
    if u is not None:
        n = u.name; D0 = next((p for p in u.params if ctx_ty(ctx, p) in ('Path', 'PathBuf')), None); me = ctx.self_(u)
        if D0 is None: r.note(f'{n}: its path is not found'); return
        for tr in u.traces:
            if tr.kind == 'panic': continue
            def known_file(d):
                for x, f, op, v in filetests(tr):
                    if x is d and desc_name(ctx, f) and op in ('is_file', 'exists'): 
                        if not v or op == 'is_file': return v
                return None
            def found(d):
                """the nearest directory: found by the search from the path"""
                y = d.a[0] if d.op == 'fld' and d.a[1] == 1 else d
                return y if isret(y, r'.*find_up') else None
            nothing = [t for t, vs in tr.vars.items() if isret(t, r'.*find_up') and vs == frozenset([0])]
            isdir = ctx.truth(tr, app('is_dir', D0))
            absent = any(t.op == 'fld' and vs == frozenset([0]) and desc_name(ctx, t) for t, vs in tr.vars.items())
            def upto(x, what):
                """may the search go on at x"""
                y = found(x)
                if y is not None:
                    a = [z for z in y.a[2:] if isinstance(z, T)]
                    if not any(desc_name(ctx, z) for z in a): r.bad(f'{n} name', f'{n} searches for another name than the configured one: {short(y)}')
                    s = next((z for z in a if not desc_name(ctx, z)), None)
                    q = parent_of(s) if s is not None else None
                    if s is D0 or s is None: return
                    if q is D0:
                        if known_file(D0) is False or isdir is False: return
                        r.bad(f'{n} not nearest', f'{n} searches from the parent although the directory itself may have a description {on(ctx, tr)}'); return
                    if q is not None and parent_of(q) is not None: r.bad(f'{n} skipped', f'{n} skips a directory on the way up: {short(s)}')
                    return
                q = parent_of(x)
                if q is D0:
                    if isdir is False or known_file(D0) is False or nothing: return
                    r.bad(f'{n} not nearest', f'{n} {what} the parent although the directory itself may have a description {on(ctx, tr)}'); return
                if q is not None and q.op != 'elem' and q.op != 'phi':
                    if known_file(q) is False: return
                    r.bad(f'{n} skipped', f'{n} skips a directory on the way up: {short(x)}')
            for ev in tr.events():
                if ev[0] == 'elem' and len(ev) > 4: 
                    if tr.kind != 'back' or not nothing: rev22(r, n, ev[4])
                if ev[0] == 'call' and ev[1] == n:
                    x = [z for z in ev[2] if isinstance(z, T) and z is not me]
                    r.ob('goes on'); r.site(f'{n}: goes on in another directory')
                    for z in x: upto(z, 'goes on in')
                if ev[0] == 'call' and ev[1].endswith('find_up'):
                    r.ob('searches')
                    if ev[3] is not None: upto(ev[3], 'searches')
                if ev[0] == 'call' and ev[1].endswith('parse_description_file'):
                    x = [z for z in ev[2] if isinstance(z, T) and z is not me]; r.ob('parses'); r.site(f'{n}: parses a description')
                    dirs = [z for z in x if not desc_name(ctx, z)]; files = [z for z in x if z.op == 'app' and z.a[0] == 'join']
                    for f in files:
                        if not desc_name(ctx, f.a[2]) and not murky(ctx, f.a[2]): r.bad(f'{n} name', f'{n} reads {short(f.a[2])} instead of the configured description file')
                        for d in dirs:
                            if f.a[1] is not d and not murky(ctx, d): r.bad(f'{n} directory', f'{n} takes {short(d)} for the directory of the description {short(f)}')
                        d = f.a[1]
                        if d is D0:
                            if known_file(d) is False: r.bad(f'{n} not a file', f'{n} reads a description that is known not to be there {on(ctx, tr)}')
                        elif found(d) is not None: upto(d, 'reads')
                        else: upto(d, 'reads the description of')
                if ev[0] == 'dm' and ev[1] == 'insert' and len(ev[3]) > 1:
                    key, val = ev[3][0], ev[3][1]
                    if ty_of(val) is not None and 'PkgFileInfo' not in ctx.types[ty_of(val)]['s'] and 'Option' not in ctx.types[ty_of(val)]['s']: continue
                    r.ob('remembers'); r.site(f'{n}: remembers')
                    none = val.op == 'agg' and ctx.types[val.a[0]]['name'].endswith('Option') and val.a[1] == 0
                    if none:
                        if nothing or absent: continue
                        if any(t.op == 'app' and t.a[0] == 'parent' and vs == frozenset([0]) for t, vs in tr.vars.items()): continue
                        if any(ev2[0] == 'exhausted' for ev2 in tr.events()): continue
                        if any(isret(t, re.escape(n)) for t in tr.vars) or any(isret(t, re.escape(n)) for t in subterms(val)): continue
                        r.bad(f'{n} remembers nothing', f'{n} remembers that there is no description although an ancestor may have one {on(ctx, tr)}')
            if tr.kind != 'return': continue
            x = tr.ret; res = x.op == 'agg' and ctx.types[x.a[0]]['name'].endswith('Result')
            if res and x.a[1] == 1:
                r.ob('error')
                if not hasret(x, r'.*') and not murky(ctx, x): r.bad(f'{n} fails', f'{n} fails without a description that cannot be read {on(ctx, tr)}')
                if not any(isret(y) for y in subterms(x)): r.bad(f'{n} fails', f'{n} fails without a description that cannot be read {on(ctx, tr)}')
            if res and x.a[1] == 0 and (x.a[2].op == 'agg' and x.a[2].a[1] == 0 or tr.vars.get(x.a[2]) == frozenset([0])) and not (x.a[2].op != 'agg' and (isret(x.a[2]) or any(y.op == 'app' and y.a[0].startswith('dm.') for y in subterms(x.a[2])))):
                r.ob('none'); r.site(f'{n}: answers none')
                if nothing or absent or any(t.op == 'app' and t.a[0] == 'parent' and vs == frozenset([0]) for t, vs in tr.vars.items()): continue
                if any(ev[0] == 'exhausted' for ev in tr.events()): continue
                if any((isret(t) or any(y.op == 'app' and str(y.a[0]).startswith('dm.') for y in subterms(t))) and vs == frozenset([0]) for t, vs in tr.vars.items()): continue
                r.bad(f'{n} given up', f'{n} answers that there is no description without having searched for it {on(ctx, tr)}')
            if res and x.a[1] == 0 and any(isret(y, r'.*parse_description_file') for y in subterms(x)): r.ob('answers')
    for n, u in ctx.A.units.items():
        if n in ('Resolver::load_pkg_file',): continue
        for tr in u.traces:
            for ev in tr.events():
                if ev[0] != 'call' or not ev[1].endswith('::load_pkg_file'): continue
                for z in ev[2]:
                    if not isinstance(z, T) or ctx_ty(ctx, z) == 'Resolver': continue
                    r.ob('asked for'); r.site(f'{n}: asks for a description'); r.fn(n)
                    q = parent_of(z)
                    if q is not None and ctx.truth(tr, app('is_dir', q)) is not False: r.bad(f'{n} parent', f'{n} asks for the description of {short(z)}, the parent of a path that may be a directory {on(ctx, tr)}')
def rev22(r, n, it):
    k = 0
    while isinstance(it, T) and it.op != 'it' and k < 20:
        k += 1
        if it.op == 'itpass' and it.a[0] in ('rev', 'step_by', 'skip', 'take', 'take_while', 'skip_while', 'last'): r.bad(f'{n} order', f'{n} does not go through all ancestors, nearest first ({it.a[0]})')
        it = it.a[1] if it.op == 'itpass' else it.a[0]
    if isinstance(it, T) and it.op == 'it' and it.a[0].op == 'app' and it.a[0].a[0] in ('rev', 'sorted'): r.bad(f'{n} order', f'{n} does not go through all ancestors, nearest first ({it.a[0].a[0]})')

# ---------------------------------------------------------------- C23
FIELD_KEYS = {'name': 'name', 'version': 'version', 'alias_fields': 'browser', 'exports_field_tree': 'exports', 'imports_field_tree': 'imports', 'side_effects': 'sideEffects'}
GETS = ('map.get', 'get', 'at', 'pointer', 'mapslot')
def key_gets(t):
    """the lookups by a constant key in a term"""
    return [x for x in subterms(t) if x.op == 'app' and x.a[0] in GETS and len(x.a) > 2 and isinstance(x.a[2], T) and x.a[2].op == 'str']
def expand(u, t, lim=40):
    """the terms that a value is made of, loop variables followed"""
    ph = phis(u); todo = [t]; seen = []; done = set()
    while todo and len(seen) < lim:
        x = todo.pop()
        if x in done: continue
        done.add(x); seen.append(x)
        for y in subterms(x):
            if y.op == 'phi' and y in ph:
                for v, _ in ph[y]: todo.append(v)
    return seen
WANTED = {'browser': {5}, 'imports': {5}, 'exports': {1, 2, 3, 4, 5}, 'sideEffects': {1, 4}}
def get_known(tr, key):
    """what a path knows about the field with this key: 'absent' | 'other type' | 'there' | None"""
    out = None
    for t, vs in tr.vars.items():
        if t.op == 'app' and t.a[0] in GETS and len(t.a) > 2 and t.a[2] is S(key):
            if vs == frozenset([0]): return 'absent'
            if vs == frozenset([1]): out = out or 'there'
    for t, vs in tr.vars.items():
        if t.op == 'app' and str(t.a[0]).startswith('as_') and len(t.a) > 1 and vs == frozenset([0]):
            y = t.a[1]
            if y.op == 'fld' and y.a[1] == 1: y = y.a[0]
            if y.op == 'app' and y.a[0] in GETS and len(y.a) > 2 and y.a[2] is S(key): return 'other type'
            if t.a[0] == 'as_object' and not key_gets(t.a[1]): return 'absent'
        if t.op == 'fld' and t.a[1] == 1 and t.a[0].op == 'app' and t.a[0].a[0] in GETS and len(t.a[0].a) > 2 and t.a[0].a[2] is S(key) and vs and not vs & WANTED.get(key, {3}): return 'other type'
        if t.op == 'app' and t.a[0] in GETS and len(t.a) > 2 and t.a[2] is S(key) and vs and not vs & {1, 3}: return 'other type'
    for f, v in tr.facts.items():
        if f.op == 'app' and f.a[0] in ('map.contains', 'has') and (len(f.a) < 3 or f.a[2] is not S(key)): continue
        if f.op == 'app' and f.a[0] in ('map.contains', 'has', 'is_string', 'is_object', 'is_null', 'is_array', 'is_boolean') and any(x is S(key) for x in subterms(f)):
            if f.a[0] == 'is_null': return 'other type' if v else out
            if not v: return 'absent'
    return out
def reworked(t):
    """a text that is not just what was read"""
    while t.op == 'fld' and t.a[0].op == 'fld': t = t.a[0]
    if t.op == 'fld': t = t.a[0]
    return t.op == 'app' and t.a[0] in ('concat', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'replacen', 'substr', 'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'split_once', 'rsplit_once', 'strip_prefix', 'strip_suffix', 'join')
def c23(ctx, r):
    """Every description that is built takes each field from the lookup of its own key in the JSON of the file it was asked to parse, unchanged (text as it is, a boolean as it is, every text of a list); a field is left empty only on paths where its key is known to be absent or of another type; the trees of exports and imports are built by their own kind of field and remembered in different maps. Side effects are answered as the path of the description and its own side effects, both of the one description that applies to the asked path."""
    i, t = ctx.adt('PkgFileInfo')
    if t is None: r.note('PkgFileInfo is not there: not analysed'); return
    names = [f[0] for f in t['variants'][0]['fields']]
    made = 0
    for n, u in ctx.A.units.items():
        src = n == 'Resolver::parse_description_file'
        makes = {}
        for tr in u.traces:
            if tr.kind == 'return' and tr.ret is not None:
                for x in subterms(tr.ret):
                    if x.op == 'agg' and x.a[0] == i: makes.setdefault(x, []).append(tr)
        if not makes: continue
        ctx.unit(n, r); made += 1
        dirs = [p for p in u.params if ctx_ty(ctx, p) in ('Path', 'PathBuf')]
        maps = {}
        for x, trs in makes.items():
            val = dict(zip(names, x.a[2:]))
            raw = val.get('raw')
            for tr in trs[:40]:
                for fname, key in FIELD_KEYS.items():
                    if fname not in val: continue
                    v = val[fname]; r.ob('field'); r.site(f'{n}: {fname}')
                    parts = expand(u, v)
                    gets = [g for p in parts for g in key_gets(p)]
                    other = sorted({g.a[2].a[0] for g in gets} - {key})
                    if other: r.bad(f'{n} {fname} from {other[0]}', f'{n} takes {fname} from the field {other[0]!r} instead of {key!r}'); continue
                    for g in gets:
                        if raw is not None and g.a[1] is not raw and g.a[1].op == 'fld' and raw.op == 'fld' and not murky(ctx, g.a[1]) and not any(y is raw for y in subterms(g.a[1])): r.bad(f'{n} {fname} other file', f'{n} takes {fname} from {short(g.a[1])}, not from the description it stores')
                    empty = v.op == 'agg' and ctx.types[v.a[0]]['name'].endswith('Option') and v.a[1] == 0 or v.op == 'app' and v.a[0] == 'map.new' or v.op == 'str' and v.a[0] == ''
                    if empty:
                        k = get_known(tr, key)
                        if fname in ('exports_field_tree', 'imports_field_tree', 'side_effects') and k == 'other type' and not any(contains(y, S(key)) for y in tr.vars): k = None
                        if k in ('absent', 'other type'): continue
                        if fname == 'alias_fields' and k is None and any(contains(y, S(key)) for y in list(tr.facts) + list(tr.vars)): continue
                        r.bad(f'{n} {fname} left out', f'{n} leaves {fname} empty although the description may have {key!r} {on(ctx, tr)}'); continue
                    if not gets:
                        if any(murky(ctx, p) or hasret(p, r'.*') for p in parts): r.note(f'{n}: where {fname} comes from is not followed'); continue
                        if v.op == 'fld' or v.op == 'app': r.note(f'{n}: where {fname} comes from is not followed'); continue
                        r.bad(f'{n} {fname} made up', f'{n} fills {fname} with {short(v)}, not from {key!r}'); continue
                    pay = v.a[2] if v.op == 'agg' and ctx.types[v.a[0]]['name'].endswith('Option') else v
                    if fname in ('name', 'version') and reworked(pay):
                        r.bad(f'{n} {fname} changed', f'{n} changes {fname}: {short(pay)}')
                    if fname.endswith('_field_tree'):
                        kinds = {y.a[1] for p in parts for y in subterms(p) if isret(y, r'.*build_field_path_tree')}
                        want = 'MappingValue' if fname.startswith('exports') else 'IndexMap'
                        for k in kinds:
                            if not k.startswith(want): r.bad(f'{n} {fname} kind', f'{n} builds {fname} as the other kind of field ({k})')
                        for p in parts:
                            for y in subterms(p):
                                if y.op == 'app' and str(y.a[0]).startswith('dm.') and len(y.a) > 1: maps.setdefault(fname, set()).add(y.a[1])
                    if fname == 'side_effects':
                        for y in subterms(v):
                            if y.op == 'agg' and tybase(ctx.types[y.a[0]]['name']) == 'SideEffects' and len(y.a) > 2:
                                z = y.a[2]
                                if z.op == 'not': r.bad(f'{n} side_effects changed', f'{n} turns the side effects around: {short(z)}')
                                elif z.op == 'bool' and ctx.truth(tr, z) is not None and not any(contains(f, S(key)) for f in list(tr.facts) + list(tr.vars)): r.bad(f'{n} side_effects made up', f'{n} fills side effects with {short(z)}')
                                elif z.op == 'bool':
                                    for f, w in tr.facts.items():
                                        if f.op == 'fld' and f.a[1] == 1 and f.a[0].op == 'app' and f.a[0].a[0] == 'as_bool' and contains(f, S(key)) and bool(z.a[0]) != w: r.bad(f'{n} side_effects changed', f'{n} turns the side effects around {on(ctx, tr)}')
                if raw is not None and not murky(ctx, raw) and key_gets(raw): r.bad(f'{n} raw', f'{n} stores a part of the description as the description')
                d = val.get('abs_dir_path')
                if d is not None and dirs:
                    r.ob('directory')
                    files = {y for p in expand(u, raw) if raw is not None for y in subterms(p) if isret(y, r'.*read_to_string')} if raw is not None else set()
                    if d in dirs or parent_of(d) in dirs: 
                        if d in dirs:
                            for y in files:
                                for a in y.a[2:]:
                                    if isinstance(a, T) and a is d: r.bad(f'{n} directory', f'{n} stores the path of the file as its directory')
                    elif not murky(ctx, d): r.bad(f'{n} directory', f'{n} stores {short(d)} as the directory of the description')
                    for y in files:
                        a = [z for z in y.a[2:] if isinstance(z, T) and ctx_ty(ctx, z) in ('Path', 'PathBuf')]
                        if a and not any(z in dirs or z.op == 'app' and z.a[0] == 'join' and z.a[1] in dirs for z in a) and not any(murky(ctx, z) for z in a): r.bad(f'{n} file', f'{n} reads another file than it is asked to: {short(a[0])}')
        both = maps.get('exports_field_tree', set()) & maps.get('imports_field_tree', set())
        for m in both: r.bad(f'{n} one map', f'{n} remembers the trees of exports and imports in the same map {short(m)}')
        # every text of a list is kept
        for tr in u.traces:
            if tr.kind != 'back': continue
            here = loop_events(tr)
            for ev in here:
                if ev[0] != 'elem' or not any(g.a[2] is S('sideEffects') for g in key_gets(ev[1])) or not in_loop_of(tr, ev[2]): continue
                r.ob('list kept')
                e = ev[2]
                if any(x[0] in ('push', 'map.insert', 'collect') for x in here): 
                    for x in here:
                        if x[0] == 'push' and isinstance(x[2], T) and (not contains(x[2], e) and not murky(ctx, x[2]) or reworked(x[2])): r.bad(f'{n} list changed', f'{n} keeps {short(x[2])} instead of an entry of side effects')
                    continue
                if tr.info['head'] in ('map', 'collect', 'filter_map', 'try_for_each') or not isinstance(tr.info['head'], int): continue
                if js(tr, ctx, e, 'String') is False: continue
                r.bad(f'{n} list', f'{n} drops an entry of side effects {on(ctx, tr)}')
    if not made: r.note('no description is built in the analysed functions')
    u = ctx.unit('Resolver::load_side_effects', r)
    if u is not None:
        n = u.name; P = next((p for p in u.params if ctx_ty(ctx, p) in ('Path', 'PathBuf')), None)
        fi = {k: ctx.fidx('PkgFileInfo', k) for k in ('abs_dir_path', 'side_effects')}
        for tr in ctx.rets(u):
            x = tr.ret; res = x.op == 'agg' and ctx.types[x.a[0]]['name'].endswith('Result')
            loads = [ev for ev in tr.events() if ev[0] == 'call' and ev[1].endswith('::load_pkg_file')]
            for ev in loads:
                r.ob('asked'); 
                for z in ev[2]:
                    if isinstance(z, T) and ctx_ty(ctx, z) in ('Path', 'PathBuf') and z is not P and not murky(ctx, z): r.bad(f'{n} path', f'{n} asks for the description of {short(z)} instead of the path it is given')
            if not res or x.a[1] == 1: continue
            y = x.a[2]
            if y.op == 'agg' and ctx.types[y.a[0]]['name'].endswith('Option'):
                if y.a[1] == 0:
                    r.ob('none'); r.site(f'{n}: answers none')
                    if any(vs == frozenset([0]) and t.op == 'fld' and isret(t.a[0], r'.*load_pkg_file') for t, vs in tr.vars.items()): continue
                    if any(vs == frozenset([0]) and desc_name(ctx, t) for t, vs in tr.vars.items()): continue
                    r.bad(f'{n} none', f'{n} answers nothing although a description may apply {on(ctx, tr)}'); continue
                p = y.a[2]
                if p.op != 'tuple' or len(p.a) != 2: r.note(f'{n}: its answer is not followed'); continue
                r.ob('answer'); r.site(f'{n}: answers')
                a, b = p.a
                pk = [z for z in subterms(a) if z.op == 'fld' and z.a[2] == fi['abs_dir_path'] and z.a[1] is None and isret_under(z, r'.*load_pkg_file')]
                if a.op == 'app' and a.a[0] == 'join':
                    if not desc_name(ctx, a.a[2]) and not murky(ctx, a.a[2]): r.bad(f'{n} file', f'{n} answers {short(a)} instead of the path of the description')
                    if not (a.a[1].op == 'fld' and a.a[1].a[2] == fi['abs_dir_path']) and not murky(ctx, a.a[1]) : r.bad(f'{n} directory', f'{n} answers {short(a)} instead of the path of the description')
                elif not murky(ctx, a): r.bad(f'{n} file', f'{n} answers {short(a)} instead of the path of the description')
                if b.op == 'fld' and b.a[2] == fi['side_effects'] and isret_under(b, r'.*load_pkg_file'):
                    if pk and pk[0].a[0] is not b.a[0]: r.bad(f'{n} other', f'{n} answers the side effects of another description')
                elif b.op == 'agg' and not any(contains(z, b) for z in ()):
                    base = [t for t in tr.vars if t.op == 'fld' and t.a[2] == fi['side_effects'] and isret_under(t, r'.*load_pkg_file')]
                    if b.a[1] == 0 and not any(tr.vars[t] == frozenset([0]) for t in base) or b.a[1] == 1 and not any(contains(b, t) for t in base): r.bad(f'{n} changed', f'{n} answers other side effects than those of the description {on(ctx, tr)}')
                elif not murky(ctx, b): r.bad(f'{n} changed', f'{n} answers {short(b)} as the side effects of the description')
def isret_under(t, pat):
    return any(isret(x, pat) for x in subterms(t))

# ---------------------------------------------------------------- C24
def option_names(ctx, ts):
    """names of the options that terms depend on"""
    _, t = ctx.adt('ResolverOptions'); out = set()
    if t is None: return out
    fs = [f[0] for f in t['variants'][0]['fields']]
    for x0 in ts:
        for x in subterms(x0):
            if x.op == 'fld' and x.a[1] is None and from_opts(ctx, x.a[0]): out.add(fs[x.a[2]])
    return out
def shared_map(ctx, m):
    """does this map hold package information or trees of fields"""
    n = ty_of(m)
    if n is None: return None
    s = ctx.types[ctx.e.peel(n)]['s']
    return 'PkgFileInfo' in s or 'PathTreeNode' in s
def c24(ctx, r):
    """The constructor: where an external cache is known to be given the resolver holds that very one, where none is given a fresh one, and nothing is decided without looking. No copy of the cache or of one of its maps is made anywhere. Every operation on a map of package information or field trees is on the cache the resolver holds. What is put into the cache depends on no option of the resolver that put it there (neither the value nor the paths that lead to it), unless the key does."""
    u = ctx.unit('Resolver::new', r)
    if u is not None:
        ci = ctx.fidx('Resolver', 'cache'); ei = ctx.fidx('ResolverOptions', 'external_cache')
        P = ctx.param(u, 'ResolverOptions')
        if None in (ci, ei, P): r.note('Resolver::new: its cache is not found')
        else:
            ext = fld(P, None, ei)
            for tr in ctx.rets(u):
                r.ob('constructor'); r.site('Resolver::new: chooses the cache')
                c = fld(tr.ret, None, ci); vs = ctx.variants(tr, ext)
                given = fld(ext, 1, 0)
                fresh = c.op == 'agg' and not contains(c, P)
                if c is given or c.op == 'fld' and c.a[0] is ext: 
                    continue
                if murky(ctx, c): r.note('Resolver::new: the cache it takes is not followed'); continue
                if fresh:
                    if vs == frozenset([0]): continue
                    r.bad('Resolver::new own cache', f'a resolver takes a cache of its own although an external one may be given {on(ctx, tr)}')
                elif any(x.op == 'sym' and x.a[0].startswith('static:') for x in subterms(c)): r.bad('Resolver::new global cache', f'a resolver takes {short(c)}, which it shares with every other one')
                elif contains(c, given): r.bad('Resolver::new part', f'a resolver does not hold the external cache but {short(c)}')
                else: r.note(f'Resolver::new: the cache {short(c)} is not followed')
    # copies
    for i in ctx.local:
        d = i['def']
        if ' as std::clone::Clone>' in d or '::{impl' in d and d.endswith('::clone') or 'test_helper' in d: continue
        for b in i['body']['blocks']:
            t = b['t']
            if t['t'] != 'call': continue
            f = t['f']; k = f.get('inst'); callee = ctx.insts[k]['def'] if k is not None else f.get('decl') or ''
            if re.search(r'(ResolverCache|dashmap::DashMap<.*>) as std::clone::Clone>::clone$', callee) and 'Option' not in callee:
                r.bad(f'{sname_of(d)} copies', f'{d} makes a copy of the cache: what it puts there is not shared'); 
            if re.search(r'Arc<.*>::(make_mut|unwrap_or_clone)', callee) and any('ResolverCache' in ctx.types[i['body']['locals'][a['p'][0]][0]]['s'] for a in t['a'] if a.get('p')): r.bad(f'{sname_of(d)} copies', f'{d} makes a copy of the cache')
            if re.search(r'::(cloned|clone_from|to_owned)$', f.get('decl') or callee) and any(ctx.types[a].get('k') == 'adt' and tybase(ctx.types[a]['name']) in ('ResolverCache', 'DashMap') for a in f.get('args', []) if isinstance(a, int)): r.bad(f'{sname_of(d)} copies', f'{d} makes a copy of the cache: what it puts there is not shared')
            r.ob('copies', 1 if 'clone' in callee else 0)
    for n, v in ctx.m['statics'].items():
        if v.get('local') and re.search(r'ResolverCache|PkgFileInfo|PathTreeNode', ctx.types[v['ty']]['s']): r.bad(f'{sname_of(n)} static', f'package information is kept in the static {n}, outside the cache of the resolver')
    ci = ctx.fidx('Resolver', 'cache')
    for n, u in ctx.A.units.items():
        used = False
        for tr in u.traces:
            for ev in tr.events():
                if ev[0] != 'dm': continue
                m = ev[2]; sh = shared_map(ctx, m)
                if not sh: continue
                used = True; r.ob('operation'); r.site(f'{n}: {ev[1]}'); r.fn(n)
                base = m
                while base.op == 'fld' and not (base.a[1] is None and base.a[2] == ci and is_adt(ctx, base.a[0], 'Resolver')): base = base.a[0]
                if base.op != 'fld':
                    if base.op == 'sym' and base.a[0].startswith('static:') or any(x.op == 'sym' and x.a[0].startswith('static:') for x in subterms(m)): r.bad(f'{n} static', f'{n} keeps package information in {short(m)}, outside the cache of the resolver')
                    elif any(is_adt(ctx, x, 'ResolverCache') for x in subterms(m)) and is_adt(ctx, base, 'ResolverCache'): pass
                    elif any(is_adt(ctx, x, 'Resolver') for x in subterms(m)): r.bad(f'{n} own map', f'{n} keeps package information in {short(m)}, outside the cache of the resolver')
                    elif murky(ctx, m): r.note(f'{n}: a map is not followed')
                if ev[1] not in ('insert', 'or_insert', 'or_insert_with', 'entry', 'alter'): continue
                key, vals = ev[3][0], [x for x in ev[3][1:] if isinstance(x, T)]
                guards = [f for f in list(tr.facts) + list(tr.vars)]
                deps = option_names(ctx, vals + guards) | callee_options(ctx, vals); have = option_names(ctx, [key])
                for o in sorted(deps - have): 
                    r.ob('independent of options')
                    r.bad(f'{o} not in the key', f'{n}: what is put into the cache depends on the option {o}, but the key {short(key)} does not: a resolver with another {o} that shares the cache is given it')
        if used and n.endswith('parse_description_file'): pass
def callee_options(ctx, vals):
    """options that the callees whose results are stored depend on (transitively)"""
    out = set(); todo = {x.a[1] for v in vals for x in subterms(v) if isret(x)}; done = set()
    while todo:
        n = todo.pop()
        if n in done or n not in ctx.A.units: continue
        done.add(n); u = ctx.A.units[n]
        memo = ctx.__dict__.setdefault('_optdeps', {})
        if n not in memo:
            s = set(); cs = set()
            for tr in u.traces:
                for f in list(tr.facts) + list(tr.vars) + ([tr.ret] if tr.ret is not None else []):
                    for x in subterms(f):
                        if x.op == 'fld' and x.a[1] is None and from_opts(ctx, x.a[0]): s.add(x)
                        if isret(x): cs.add(x.a[1])
            memo[n] = (option_names(ctx, s), cs)
        out |= memo[n][0]; todo |= memo[n][1]
    return out
def sname_of(d): return d.split('::')[-2] + '::' + d.split('::')[-1] if '::' in d else d
