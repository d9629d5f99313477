"""Rules about what a resolver keeps: the descriptions it read and the options it was given."""
from base import *
from rules_flow import facts
from rules_res import murky, on
from rules_more import default17
from rules_data import dms, got, map_name, result, WRITE

PKG = 'ResolverCache.file_dir_to_pkg_info'; FILES = 'CacheFile.cached_file'
PARSE = r'.*parse_description_file'; READ = r'CacheFile::read_to_string'; ASK = r'CacheFile::need_update'
LOOK = ('get', 'get_mut', 'contains_key', 'entry', 'view', 'try_get')

def defaults(ctx, ty):
    """the function `default` of a type, run on its own"""
    memo = ctx.__dict__.setdefault('_defaults', {})
    if ty not in memo:
        memo[ty] = None
        n = ty + '::default'; u = ctx.A.units.get(n)
        if u is None:
            for i in ctx.insts:
                if i['local'] and i['body'] and sname(i['name']) == n: u = ctx.e.run_unit(i, n); break
        memo[ty] = u
    return memo[ty]
def ok(tr, t): return tr.vars.get(t) == frozenset([0])
def err(tr, t): return tr.vars.get(t) == frozenset([1])
def stale(ctx, tr, p=None):
    """it is known on this path that the file changed: need_update answered true for it"""
    for f, w in tr.facts.items():
        if w and f.op == 'fld' and isret(f.a[0], ASK): return True
    return False
def gone(ctx, tr):
    return any(not w and f.op == 'app' and f.a[0] in ('is_file', 'exists') for f, w in tr.facts.items())

# ---------------------------------------------------------------- C31
def c31(ctx, r):
    """Every call of the function that reads and parses a description: the path knows that the cache has nothing (or None) under the directory it is for, or that need_update answered true. Every path on which it succeeded and that answers with Ok wrote its result into the cache under that directory, and does not take it out again. A description that is present and unchanged is not taken out of the cache. The parsing reads through the cache of files (which remembers the modification time) and under the path it was given; a successful read remembers the time under the path that was read. need_update, for equal times: evaluated with the difference 0 and a resolution above 0, no feasible path answers true; it looks up the path it was asked about. Both constructors give the cache of files a resolution above 0."""
    for n, u in list(ctx.A.units.items()):
        ctx.unit(n, r)
        for tr in u.traces: warm31(ctx, r, n, u, tr)
        for tr in ctx.rets(u): kept31(ctx, r, n, u, tr)
    u = ctx.unit('Resolver::parse_description_file', r)
    if u: parse31(ctx, r, u)
    u = ctx.unit('CacheFile::read_to_string', r)
    if u: read31(ctx, r, u)
    u = ctx.unit('CacheFile::need_update', r)
    if u: asked31(ctx, r, u)
    for n, u in (('Resolver::new', ctx.unit('Resolver::new', r)), ('Resolver::default', defaults(ctx, 'Resolver'))):
        if u is None: r.note(f'{n} is not there: not analysed'); continue
        r.fn(n)
        for tr in ctx.rets(u):
            r.ob('resolution of a constructor')
            if isret(tr.ret, r'Resolver::new'): continue
            d = ctx.F(ctx.F(tr.ret, 'Resolver', 'fs'), 'CacheFile', 'duration')
            m = re.fullmatch(r'.*from_(secs|millis|micros|nanos)', str(d.a[0])) if d.op == 'app' else None
            if m and d.a[1].op == 'int':
                if d.a[1].a[0] <= 0: r.bad(f'{n} resolution', f'{n} sets the resolution of the file cache to 0: every description counts as changed')
            elif d.op == 'app' and (d.a[0] == 'default' or 'ZERO' in str(d.a[0])): r.bad(f'{n} resolution', f'{n} leaves the resolution of the file cache at 0: every description counts as changed and is read again')
            else: r.note(f'{n}: the resolution {short(d)} is not followed')
def warm31(ctx, r, n, u, tr):
    evs = tr.events()
    for i, ev in enumerate(evs):
        if ev[0] == 'call' and re.fullmatch(PARSE, ev[1]) and len(ev[2]) > 1:
            d = ev[2][1]; r.ob('a description is read'); r.site(f'{n}: read')
            look = [x for x in evs[:i] if x[0] == 'dm' and map_name(ctx, x[2]) == PKG and x[1] in LOOK]
            if not look:
                # not asked on this path; a unit of the repository that never asks is the one that should
                if n == 'Resolver::load_pkg_file' and not any(x[0] == 'dm' and map_name(ctx, x[2]) == PKG and x[1] in LOOK for t in u.traces for x in t.events()): r.bad(f'{n} never asked', f'{n} reads the description of {short(d)} and never looks it up in the cache')
                elif n == 'Resolver::load_pkg_file': r.bad(f'{n} not asked', f'{n} reads the description of {short(d)} and does not look it up in the cache before {on(ctx, tr)}')
                else: r.note(f'{n}: the description is read without a lookup in this function')
                continue
            mine = [x for x in look if x[3] and x[3][0] is d]
            if not mine:
                k = look[-1][3][0]
                if not murky(ctx, k) and not murky(ctx, d): r.bad(f'{n} other key', f'{n} looks up {short(k)} and reads the description of {short(d)} {on(ctx, tr)}')
                continue
            gets = [f for f in list(tr.vars) if f.op == 'app' and f.a[0] == 'dm.get' and map_name(ctx, f.a[1]) == PKG and f.a[2] is d]
            if not gets: r.note(f'{n}: how the cache was asked is not followed'); continue
            hit = [g for g in gets if tr.vars[g] == frozenset([1])]
            if not hit: continue
            if any(tr.vars.get(fld(g, 1, 0)) == frozenset([0]) for g in hit) or stale(ctx, tr): continue
            if gone(ctx, tr): continue
            known = [w for f, w in tr.facts.items() if f.op == 'fld' and isret(f.a[0], ASK)]
            asked = any(x[0] == 'call' and re.fullmatch(ASK, x[1]) for x in evs[:i])
            if known and not any(known): r.bad(f'{n} reread', f'{n} reads a description again that is in the cache and whose file did not change {on(ctx, tr)}')
            elif not asked: r.bad(f'{n} reread', f'{n} reads a description again that is in the cache without asking whether its file changed {on(ctx, tr)}')
            else:
                e = [x for x in tr.vars if isret(x, ASK) and tr.vars[x] == frozenset([1])]
                if not e: r.bad(f'{n} reread', f'{n} reads a description again that is in the cache whatever need_update answers {on(ctx, tr)}')
    for i, ev in enumerate(evs):
        if ev[0] == 'dm' and ev[1] in ('remove', 'clear', 'retain', 'remove_if', 'alter', 'alter_all') and map_name(ctx, ev[2]) in (PKG, FILES):
            r.ob('an entry is taken out')
            if stale(ctx, tr) or gone(ctx, tr) or any(err(tr, t) for t in tr.vars if isret(t, PARSE) or t.op == 'app' and t.a[0] in ('read', 'metadata', 'modified')): continue
            if ev[1] in ('remove_if', 'retain', 'alter', 'alter_all'): r.note(f'{n}: {ev[1]} of the cache is not followed'); continue
            if ev[1] == 'remove' and any(g.op == 'app' and g.a[0] == 'dm.get' and map_name(ctx, g.a[1]) == map_name(ctx, ev[2]) and g.a[2] is ev[3][0] and tr.vars[g] == frozenset([0]) for g in tr.vars): continue
            r.bad(f'{n} dropped', f'{n} takes an entry out of {map_name(ctx, ev[2])} although nothing says that its file changed {on(ctx, tr)}')
def kept31(ctx, r, n, u, tr):
    evs = tr.events(); k = result(ctx, tr.ret)
    for ev in evs:
        if ev[0] != 'call' or not re.fullmatch(PARSE, ev[1]) or ev[3] is None or len(ev[2]) < 2: continue
        p = ev[3]; d = ev[2][1]
        if not ok(tr, p) or k and k[0] == 'Err': continue
        r.ob('a description that was read is kept')
        v = fld(p, 0, 0)
        ins = [x for x in evs if x[0] == 'dm' and x[1] in WRITE and map_name(ctx, x[2]) == PKG]
        mine = [x for x in ins if len(x[3]) > 1 and any(s is v or s is p for y in x[3][1:] for s in subterms(y))]
        if not mine:
            if any(len(x[3]) < 2 or murky(ctx, x[3][1]) for x in ins): r.note(f'{n}: what is kept is not followed')
            elif any(x[0] == 'dm' and map_name(ctx, x[2]) == PKG and x[1] not in LOOK + ('remove', 'len', 'is_empty', 'iter') or x[0] == 'dm' and x[1] == 'entry' for x in evs): r.note(f'{n}: how the description is kept is not followed')
            else: r.bad(f'{n} not kept', f'{n} reads and parses the description of {short(d)} and does not put it into the cache: the next request reads it again {on(ctx, tr)}')
            continue
        if not any(x[3][0] is d for x in mine):
            if not murky(ctx, mine[0][3][0]) and not murky(ctx, d): r.bad(f'{n} kept elsewhere', f'{n} keeps the description of {short(d)} under {short(mine[0][3][0])}')
            continue
        i = max(evs.index(x) for x in mine)
        if any(x[0] == 'dm' and x[1] in ('remove', 'clear') and map_name(ctx, x[2]) == PKG for x in evs[i + 1:]): r.bad(f'{n} taken out', f'{n} takes the description out again right after it was read {on(ctx, tr)}')
def parse31(ctx, r, u):
    n = 'Resolver::parse_description_file'; P = u.params[2] if len(u.params) > 2 else None
    for tr in ctx.rets(u):
        k = result(ctx, tr.ret)
        if not k or k[0] != 'Ok': continue
        r.ob('read through the cache of files')
        through = [ev for ev in tr.events() if ev[0] == 'call' and re.fullmatch(READ, ev[1])]
        direct = [ev for ev in tr.events() if ev[0] == 'fs' and ev[1] in ('read_to_string', 'read', 'open')]
        time = [ev for ev in tr.events() if ev[0] == 'dm' and ev[1] in WRITE and map_name(ctx, ev[2]) == FILES]
        if not through and direct and not time: r.bad(f'{n} around', f'{n} reads {short(direct[0][2])} around the cache of files: its time is not remembered and it counts as changed for ever')
        elif through and P is not None and not any(ev[2][-1] is P for ev in through) and not any(murky(ctx, ev[2][-1]) for ev in through): r.bad(f'{n} other file', f'{n} reads {short(through[0][2][-1])} and not the file that is asked about later')
        elif not through and not time: r.note(f'{n}: the reading is not recognised')
def read31(ctx, r, u):
    n = 'CacheFile::read_to_string'; P = u.params[1] if len(u.params) > 1 else None
    for tr in ctx.rets(u):
        k = result(ctx, tr.ret)
        if not k or k[0] != 'Ok': continue
        r.ob('the time of a read is remembered')
        ws = [ev for ev in tr.events() if ev[0] == 'dm' and ev[1] in WRITE and map_name(ctx, ev[2]) == FILES]
        # what was remembered before answers as well, unless it is out of date
        if not ws:
            if any(ev[0] == 'dm' and map_name(ctx, ev[2]) == FILES for ev in tr.events()): r.note(f'{n}: a path answers from what is remembered')
            else: r.bad(f'{n} not remembered', f'{n} reads a file and does not remember its time: it counts as changed for ever {on(ctx, tr)}')
        elif P is not None and ws[0][3][0] is P and len(ws[0][3]) > 1 and ws[0][3][1].op == 'tuple' and not any(x.op == 'app' and x.a[0] == 'modified' for x in subterms(ws[0][3][1])) and (any(x.op == 'app' and str(x.a[0]).endswith('SystemTime::now') for x in subterms(ws[0][3][1])) or not murky(ctx, ws[0][3][1])): r.bad(f'{n} other time', f'{n} remembers {short(ws[0][3][1])} and not the time of the file: it counts as changed {on(ctx, tr)}')
        elif P is not None and not any(ev[3] and ev[3][0] is P for ev in ws) and not any(murky(ctx, ev[3][0]) for ev in ws): r.bad(f'{n} other key', f'{n} reads {short(P)} and remembers its time under {short(ws[0][3][0])}')

class Unknown(Exception): pass
class Other(Exception):
    """compares something else than the time of the file"""
def same(ctx, t):
    """value of a term when the file has the time that is remembered: times are 0, their difference is 0, the resolution is 1"""
    if t.op in ('int', 'bool'): return t.a[0]
    if t.op == 'not': return not same(ctx, t.a[0])
    if t.op == 'fld':
        if t.a[2] == ctx.fidx('CacheFile', 'duration') and t.a[0].op == 'sym': return 1
        b = t.a[0]
        if b.op == 'app' and b.a[0] == 'modified': return 0
        if b.op == 'fld' and b in got(b) and map_name(ctx, b.a[0].a[1]) == FILES: return 0
        if b.op == 'app' and b.a[0] in ('Metadata::accessed', 'Metadata::created'): raise Other('another time than that of the last change')
        if b.op == 'app' and str(b.a[0]).endswith('duration_since') and t.a[1] == 0:
            for x in b.a[1:]: same(ctx, x)
            return 0
        raise Unknown()
    if t.op == 'const' and 'time::Duration' in str(t.a[0]) and re.search(r'"hex": "0+_*@', str(t.a[1])): return 0
    if t.op == 'app':
        f = t.a[0]
        if f == 'not': return not same(ctx, t.a[1])
        if f in ('lt', 'le', 'eq', 'ne', 'gt', 'ge') and len(t.a) == 3:
            x, y = same(ctx, t.a[1]), same(ctx, t.a[2])
            return {'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y}[f]
        if f in ('and', 'or') and len(t.a) == 3:
            return (same(ctx, t.a[1]) and same(ctx, t.a[2])) if f == 'and' else (same(ctx, t.a[1]) or same(ctx, t.a[2]))
        m = re.fullmatch(r'(?:.*::)?Duration::(?:from_(?:secs|millis|micros|nanos)|as_(?:secs|millis|micros|nanos))', str(f))
        if m and len(t.a) == 2:
            v = same(ctx, t.a[1])
            return min(v, 1)
        if str(f).endswith(('Duration::is_zero',)): return same(ctx, t.a[1]) == 0
        if str(f).endswith(('SystemTime::now', 'Instant::now', 'SystemTime::elapsed')): raise Other('the time of the question')
        if f == 'default' and 'Duration' in show(t): return 0
    raise Unknown()
def asked31(ctx, r, u):
    n = 'CacheFile::need_update'; P = u.params[1] if len(u.params) > 1 else None
    for tr in ctx.rets(u):
        k = result(ctx, tr.ret)
        v = k[1] if k and k[0] == 'Ok' else tr.ret if k is None else None
        if v is None: continue
        hits = [g for g in tr.vars if g.op == 'app' and g.a[0] == 'dm.get' and map_name(ctx, g.a[1]) == FILES]
        for g in hits:
            if P is not None and g.a[2] is not P and not murky(ctx, g.a[2]): r.bad(f'{n} other key', f'{n} looks up {short(g.a[2])} although it was asked about {short(P)}')
        if not any(tr.vars[g] == frozenset([1]) for g in hits): continue
        if gone(ctx, tr): continue
        if any(err(tr, t) for t in tr.vars if t.op == 'app' and (str(t.a[0]).endswith('duration_since') or t.a[0] in ('metadata', 'modified'))): continue
        r.ob('asked about an unchanged file')
        feasible = True; unknown = False
        for f, w in tr.facts.items():
            if f.op == 'app' and f.a[0] in ('is_file', 'is_dir', 'exists'): continue
            try:
                if bool(same(ctx, f)) != w: feasible = False
            except (Unknown, Other):
                unknown = True
        if not feasible: continue
        try: x = same(ctx, v)
        except Unknown: r.note(f'{n}: {short(v)} is not followed'); continue
        except Other as x: r.bad(f'{n} other time', f'{n} decides by {x}, which moves on although the file does not change {on(ctx, tr)}'); continue
        if x and unknown: r.note(f'{n}: a path that answers true has conditions that are not followed')
        elif x: r.bad(f'{n} unchanged', f'{n} says of a file whose time is the remembered one that it changed: {short(v)} {on(ctx, tr)}')

# ---------------------------------------------------------------- C33
DOC = {'extensions': ('list', ['.js', '.json', '.node']), 'enforce_extension': ('none',), 'alias': ('list', []), 'prefer_relative': ('bool', False), 'external_cache': ('none',), 'symlinks': ('bool', True),
       'description_file': ('some', 'package.json'), 'main_files': ('list', ['index']), 'main_fields': ('list', ['main']), 'browser_field': ('bool', False), 'condition_names': ('set', ['node']), 'tsconfig': ('none',)}
def truthy(v): return v is TRUE or v.op == 'int' and v.a[0] == 1
def const(v): return v in (TRUE, FALSE) or v.op in ('int', 'str', 'bool') or v.op in ('agg', 'array') and not v.a or v.op == 'array' and all(const(x) for x in v.a) or v.op == 'agg' and all(const(x) for x in v.a[2:])
def c33(ctx, r):
    """Every path of the constructor: each field of the options it keeps is the same field of the options it was given (the term itself), with one exception: an enforce_extension that is known to be None becomes Some of whether an extension is empty, as the facts of the path say. The cache is the external one where it is known to be there, and an own one where it is known not to be. The default of the options is run on its own and every field compared with the documented default; the default resolver is the constructor applied to it. The types of the options hold nothing that can change behind a shared reference."""
    _, t = ctx.adt('ResolverOptions')
    if t is None: r.note('ResolverOptions is not there: not analysed'); return
    names = [f[0] for f in t['variants'][0]['fields']]
    u = ctx.unit('Resolver::new', r)
    if u:
        P = ctx.param(u, 'ResolverOptions')
        if P is None: r.note('Resolver::new does not take the options'); return
        for tr in ctx.rets(u): given33(ctx, r, u, tr, P, names)
        default17(ctx, r, u)
    d = defaults(ctx, 'Resolver')
    if d is not None:
        r.fn('Resolver::default')
        for tr in ctx.rets(d):
            r.ob('the default resolver')
            if isret(tr.ret, r'Resolver::new'): o = tr.ret.a[2]
            else: o = ctx.F(tr.ret, 'Resolver', 'options')
            documented33(ctx, r, 'Resolver::default', o, names, tr, not isret(tr.ret, r'Resolver::new'))
    d = defaults(ctx, 'ResolverOptions')
    if d is None: r.note('ResolverOptions::default is not there: not analysed')
    else:
        r.fn('ResolverOptions::default')
        for tr in ctx.rets(d): documented33(ctx, r, 'ResolverOptions::default', tr.ret, names, tr)
    for f in t['variants'][0]['fields']:
        if f[0] == 'external_cache': continue
        ty = ctx.types[f[1]].get('s') or ctx.types[f[1]].get('name') or ''
        r.ob('nothing changes behind a shared reference')
        if re.search(r'\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|OnceCell|OnceLock|Atomic\w+|DashMap)\b', str(ty)): r.bad(f'ResolverOptions.{f[0]} mutable', f'ResolverOptions.{f[0]} of type {ty} can change after the resolver was made')
def given33(ctx, r, u, tr, P, names):
    n = 'Resolver::new'; o = ctx.F(tr.ret, 'Resolver', 'options')
    for f in names:
        v = ctx.F(o, 'ResolverOptions', f); g = ctx.F(P, 'ResolverOptions', f); r.ob('option kept')
        if v is g: continue
        if f == 'enforce_extension': continue       # default17
        if f == 'external_cache':
            # the cache itself is looked at below; the option is not read again
            continue
        vs = tr.vars.get(g)
        if result(ctx, v) and vs is not None and len(vs) == 1:
            k, x = result(ctx, v); w = 'None' if vs == frozenset([0]) else 'Some'
            if k == w and (x is None or x is fld(g, 1, 0)): continue
        ft = ctx.truth(tr, g)
        if ft is not None and v in (TRUE, FALSE) and truthy(v) == ft: continue
        if any(s is g for s in subterms(v)):
            if v.op == 'app' and v.a[0] == 'collect' and plain(v, g): continue
            if v.op == 'app' and str(v.a[0]).startswith('mut:') and v.a[2] is g: pass
            elif murky(ctx, v): r.note(f'{n}: {f} is {short(v)}, not followed'); continue
            r.bad(f'{n} {f}', f'{n} does not keep {f} as it was given: {short(v)} {on(ctx, tr)}')
        elif const(v) or any(s is P or s.op == 'fld' and s.a[0] is P for s in subterms(v)): r.bad(f'{n} {f}', f'{n} replaces {f} by {short(v)} {on(ctx, tr)}')
        elif v.op == 'app' and v.a[0] == 'default': r.bad(f'{n} {f}', f'{n} replaces {f} by its default {on(ctx, tr)}')
        else:
            d = defaults(ctx, 'ResolverOptions'); dv = [ctx.F(t.ret, 'ResolverOptions', f) for t in ctx.rets(d)] if d else []
            if any(x.op == v.op and x.op == 'app' and x.a[0] == v.a[0] for x in dv): r.bad(f'{n} {f}', f'{n} replaces {f} by its default {on(ctx, tr)}')
            else: r.note(f'{n}: {f} is {short(v)}, not followed')
    c = ctx.F(tr.ret, 'Resolver', 'cache'); e = ctx.F(P, 'ResolverOptions', 'external_cache'); vs = tr.vars.get(e); r.ob('the cache of the resolver')
    if c is fld(e, 1, 0): return
    fresh = c.op == 'agg' and tybase(ctx.types[c.a[0]].get('name') or '') == 'ResolverCache'
    if fresh and vs == frozenset([0]): return
    if fresh and vs == frozenset([1]): r.bad(f'{n} cache', f'{n} does not use the external cache it was given {on(ctx, tr)}')
    elif fresh and vs is None and not any(s is e for f in tr.facts for s in subterms(f)): r.bad(f'{n} cache', f'{n} makes a cache without asking whether one was given {on(ctx, tr)}')
    else: r.note(f'{n}: the cache {short(c)} is not followed')
def plain(v, g):
    """a collection of the elements of g as they are"""
    its = [s for s in subterms(v) if s.op in ('itmap', 'itfilter', 'itpass', 'itfmap', 'itenum')]
    return not its
def items(v):
    """elements of a list or set that is written out"""
    if v.op in ('array', 'list'): return list(v.a)
    if v.op == 'app' and v.a[0] == 'collect':
        ls = [s for s in subterms(v) if s.op in ('array', 'list')]
        fs = [s for s in subterms(v) if s.op in ('itfilter', 'itpass', 'itfmap')]
        if len(ls) == 1 and not fs: return items(ls[0])
    return None
def documented33(ctx, r, n, o, names, tr, new=False):
    for f in names:
        if f not in DOC: continue
        v = ctx.F(o, 'ResolverOptions', f); d = DOC[f]; r.ob('documented default')
        k = result(ctx, v)
        if d[0] == 'none':
            if new and f == 'enforce_extension' and k and k[0] == 'Some' and k[1] is FALSE: continue
            if k is None: r.note(f'{n}: {f} is {short(v)}, not followed'); continue
            good = k[0] == 'None'
        elif d[0] == 'some':
            if k is None or k[0] == 'Some' and k[1].op != 'str': r.note(f'{n}: {f} is {short(v)}, not followed'); continue
            good = k[0] == 'Some' and k[1].a[0] == d[1]
        elif d[0] == 'bool':
            if v not in (TRUE, FALSE): r.note(f'{n}: {f} is {short(v)}, not followed'); continue
            good = truthy(v) == d[1]
        else:
            xs = items(v)
            if xs is None or any(x.op != 'str' for x in xs): r.note(f'{n}: {f} is {short(v)}, not followed'); continue
            ws = [x.a[0] for x in xs]
            good = ws == d[1] if d[0] == 'list' else sorted(set(ws)) == sorted(d[1])
        if not good: r.bad(f'{n} default {f}', f'{n}: the default of {f} is {short(v)}, documented is {d[1] if len(d) > 1 else None}')
