"""Rules about which package's field answers."""
import strs
from base import *
from base import T as T_
from strs import UNK, SOME, NONE, isv
from rules_res import murky, on

APPLY = r'ExportsFieldPlugin::apply'; PROC = r'MappingValue::field_process'; LOAD = r'Resolver::load_pkg_file'
def named(t):
    """the part of a bare request that names the package"""
    p = t.split('/')
    return '/'.join(p[:2] if t.startswith('@') else p[:1])
TARGETS = ('lib', 'lib/x', 'lib/x/y.js', 'lib-utils/x', 'lib-utils', 'l/x', 'lib/x.json', '@s/lib', '@s/lib/x/y', '@s/lib2/x', 'é/x')
BASES = ('/p/node_modules', '/p/node_modules/foo/node_modules')
def cases():
    """request, folder, directory and name of a description"""
    for t in TARGETS:
        w = named(t)
        for b in BASES:
            names = [None, w, t + '/z' if t != w else 'z', w[:-1], w + '-more', w.lstrip('@'), w.upper(), 'other'] + (['lib'] if w != 'lib' else [])
            dirs = [b + '/' + w, b + '/' + w + '/deep', b + '/' + w + '-more', b + '/lib', b.rsplit('/', 1)[0], b, '/q/node_modules/' + w]
            for d in dict.fromkeys(dirs):
                for n in dict.fromkeys(names):
                    if n == '': continue
                    yield t, b, d, n, d == b + '/' + w or n == w

def struct(ctx, ty, **f):
    _, t = ctx.adt(ty)
    return ('V', 0) + tuple(f.get(x[0], UNK) for x in t['variants'][0]['fields'])
# ---------------------------------------------------------------- C34
def c34(ctx, r):
    """On every path that hands the exports tree of a description to the mapping: the guards that speak of the name or the directory of that description are evaluated for a class of requests, names and directories; where neither the directory is the one that the request names below the folder it is looked up in, nor the name is exactly the one in the request, one of them fails. On every path that passes a bare request on without the mapping, the reverse. Every call of the exports step gets the description that was loaded for exactly the directory that the request names."""
    for n, u in ctx.A.units.items():
        seen = {}
        for tr in u.traces:
            if any(True for _ in ctx.calls(tr, APPLY)): ctx.unit(n, r); which34(ctx, r, n, u, tr, seen)
    ni, ai = ctx.fidx('PkgFileInfo', 'name'), ctx.fidx('PkgFileInfo', 'abs_dir_path')
    done = set()
    for n, u in ctx.A.units.items():
        for tr in u.traces:
            for ev in tr.events():
                if ev[0] == 'make' and ni is not None and ty_is2(ctx, ev[1], 'PkgFileInfo'): 
                    if (n, ev[1].a[2 + ni], ev[1].a[2 + ai], len(tr.vars) and frozenset(f for f in tr.facts if not hasret(f))) in done: continue
                    done.add((n, ev[1].a[2 + ni], ev[1].a[2 + ai], len(tr.vars) and frozenset(f for f in tr.facts if not hasret(f))))
                    name34(ctx, r, n, tr, ev[1].a[2 + ni]); dir34(ctx, r, n, u, tr, ev[1].a[2 + ai])
    u = ctx.unit('ExportsFieldPlugin::apply', r)
    if u: uses34(ctx, r, u)
def which34(ctx, r, n, u, tr, seen):
    """the description that the exports step is given"""
    for ev in ctx.calls(tr, APPLY):
        if len(ev[2]) < 3: continue
        plug, info = ev[2][0], ev[2][-1]
        ps = list({x for x in subterms(plug) if isret(x, LOAD)})
        if len(ps) != 1: continue
        d = ps[0].a[-1]; T = ctx.target(info); P = ctx.path(info)
        if d.op == 'phi': r.note(f'{n}: the directory {short(d)} is not followed'); continue
        key = (d, T, P, frozenset((f, v) for f, v in tr.facts.items() if contains(f, T) and not hasret(f)), frozenset((f, v) for f, v in tr.vars.items() if f is not T and contains(f, T) and not hasret(f)))
        if key in seen: continue
        seen[key] = True
        r.ob('description given to the exports step'); r.site(f'{n}: exports step'); r.obl += len(TARGETS) - 1
        for base in BASES:
            for t in TARGETS:
                ok, e = strs.run(ctx, tr, {T: t, P: base})
                if ok is False: continue
                v = e.ev(d)
                if not isinstance(v, str): r.note(f'{n}: the directory {short(d)} is not followed'); continue
                if v.rstrip('/') != base + '/' + named(t): r.bad(f'{n} description', f'{n}: the exports field for the request {t!r} is looked for from {v!r} on and not in the package it names, {base + "/" + named(t)!r} {on(ctx, tr)}'); break
            else: continue
            break
FS = ('is_file', 'is_dir', 'exists', 'metadata', 'canonicalize', 'is_symlink')
def ty_is2(ctx, x, name): return x.op == 'agg' and tybase(ctx.types[x.a[0]].get('name') or '') == name
def name34(ctx, r, n, tr, v):
    """the name that is kept is the one that is written"""
    src = [x for x in subterms(v) if x.op == 'app' and x.a[0] in ('as_str', 'as_string')]
    src += [x for x in tr.vars if x.op == 'app' and x.a[0] in ('as_str', 'as_string') and contains(x, S('name')) and x not in src]
    src = [x for x in src if any(y.op == 'app' and y.a[0] == 'map.get' and y.a[-1].op == 'str' for y in subterms(x))]
    src += [x for x in subterms(v) if not src and x.op == 'fld' and x.a[1] and x.a[0].op == 'fld' and x.a[0].a[0].op == 'app' and x.a[0].a[0].a[0] == 'map.get']
    if len(src) != 1: return
    r.ob('name that is kept')
    keys = {y.a[-1].a[0] for y in subterms(src[0]) if y.op == 'app' and y.a[0] == 'map.get' and y.a[-1].op == 'str'}
    if keys != {'name'}: r.bad(f'{n} name', f'{n}: the name of a package is taken from {sorted(keys)} of its description {on(ctx, tr)}'); return
    for w in ('lib', '@s/lib', 'Lib-x', 'lib_1.js', 'é', '@s/l/x', 'a+b', 'a b ', 'a@b', 'a:b', 'a~b', 'a$b', 'a%20b', 'a!b', 'a(b)', 'a#b?c', 'node_modules'):
        ok, e = strs.run(ctx, tr, {src[0]: SOME(w) if src[0].op == 'app' else w})
        if ok is False: continue
        x = e.ev(v)
        if x is UNK or strs.deepunk(x): continue
        if x != SOME(w) and (x != NONE or ok is True or decided(tr, e, src[0])): r.bad(f'{n} name', f'{n}: the package named {w!r} is kept as {x[2] if len(x) > 2 else "having no name"!r} {on(ctx, tr)}'); return
def dir34(ctx, r, n, u, tr, v):
    """the directory that is kept is the one it was read for"""
    ps = [p for p in u.params if contains(v, p)]
    if len(ps) != 1 or v is ps[0]:
        if ps: r.ob('directory that is kept')
        return
    r.ob('directory that is kept')
    for d in ('/p/src', '/p/lib', '/p/node_modules/src', '/p/node_modules/@s/lib', '/p/dist', '/p/lib/package.json', '/p/node_modules/lib/es'):
        ok, e = strs.run(ctx, tr, {ps[0]: d}); x = e.ev(v)
        if ok is False or not isinstance(x, str): continue
        if x not in (d, d.rsplit('/', 1)[0] if d.endswith('package.json') else d): r.bad(f'{n} directory', f'{n}: the description for {d!r} is kept as one of {x!r} {on(ctx, tr)}'); return
def decided(tr, e, x):
    """all that this path asks about the name has a value"""
    return any(contains(f, x) for f in tr.facts) and all(isinstance(e.ev(f), bool) for f in tr.facts if contains(f, x))
def uses34(ctx, r, u):
    n = 'ExportsFieldPlugin::apply'; info = ctx.info(u)
    ai, ti, ni = ctx.fidx('PkgFileInfo', 'abs_dir_path'), ctx.fidx('PkgFileInfo', 'exports_field_tree'), ctx.fidx('PkgFileInfo', 'name')
    ri, t = ctx.adt('PathKind')
    if info is None or None in (ai, ti, ni) or t is None: r.note(f'{n}: the request or the description is not found: not analysed'); return
    NORMAL = next((i for i, v in enumerate(t['variants']) if v['name'] == 'Normal'), None)
    pk = None
    for tr in u.traces:
        for ev in ctx.calls(tr, PROC):
            x = ev[2][0]
            while x.op == 'fld' and not (x.a[2] == ti and ty_is(ctx, x.a[0], 'PkgFileInfo')): x = x.a[0]
            if x.op == 'fld': pk, TREE = x.a[0], x
    if pk is None: r.note(f'{n}: whose tree is mapped is not recognised'); return
    T = ctx.target(info); groups = {}
    for tr in u.traces:
        if tr.kind == 'panic': continue
        maps = bool(ctx.calls(tr, PROC))
        st = ctx.stats(tr.ret) if tr.kind == 'return' else None
        if not maps and not (st and st[0] == 'Resolving' and st[1] is info): continue
        if not maps and (0 in (tr.vars.get(TREE) or ()) or 0 in (tr.vars.get(pk.a[0]) or ())): continue
        fs = [f for f in [*tr.facts, *tr.vars] if not any(isret(y, PROC) or y.op == 'phi' for y in subterms(f)) and not fsonly(f)]
        about = [f for f in fs if f is not TREE and f is not pk.a[0] and speaks(f, pk, ti)]
        tgt = [f for f in fs if contains(f, T) or contains(f, info)]
        key = (maps, frozenset((f, tr.facts.get(f), tr.vars.get(f)) for f in about + tgt), frozenset((e[0], e[1], e[2]) for e in tr.events() if e[0] in ('elem', 'exhausted') and contains(e[1], T)))
        groups.setdefault(key, (tr, maps, about))
    for tr, maps, about in groups.values():
        r.ob('class of paths that map' if maps else 'class of paths that pass on')
        for t_, base, d, nm, right in cases():
            if right == maps: continue
            r.obl += 1
            X = struct(ctx, 'PkgFileInfo', abs_dir_path=d, name=NONE if nm is None else SOME(nm), exports_field_tree=SOME(UNK))
            req = struct(ctx, 'Request', target=t_, kind=('V', NORMAL))
            env = {info: struct(ctx, 'ResolveInfo', path=base, request=req), pk: X}
            if pk.op == 'fld': env[pk.a[0]] = SOME(X)
            ok, e = strs.run(ctx, tr, env)
            if ok is False: continue
            un = [f for f in about if not isinstance(e.ev(f), bool) and not isv(e.ev(f))]
            if un: r.note(f'{n}: {short(un[0])} is not followed'); break
            who = f'the package {nm!r} in {d!r}' if nm is not None else f'the package in {d!r}'
            if maps: r.bad(f'{n} wrong package', f'{n}: the request {t_!r}, looked up in {base!r}, is mapped by the exports field of {who}, which it does not name {on(ctx, tr)}'); break
            if ok is None and any(not isinstance(e.ev(f), bool) for f in tr.facts if not fsonly(f)): continue
            r.bad(f'{n} passed on', f'{n}: the request {t_!r}, looked up in {base!r}, is not mapped by the exports field of {who}, which it names {on(ctx, tr)}'); break
def fsonly(f): return f.op == 'app' and f.a[0] in FS
def ty_is(ctx, t, name):
    k = ty_of(t)
    return k is None or tybase(ctx.types[ctx.e.peel(k)].get('name') or '') == name
def speaks(f, pk, ti):
    """of more of the description than its tree"""
    if f is pk: return True
    if f.op == 'fld' and f.a[0] is pk and f.a[2] == ti: return False
    return any(speaks(y, pk, ti) for y in f.a if isinstance(y, T_))
