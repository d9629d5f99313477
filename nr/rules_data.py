"""Rules about caches, description files and errors."""
import os, subprocess
from base import *
from rules_flow import facts
from rules_res import murky, on, parsed, handed_on

def cache_fields(ctx):
    _, t = ctx.adt('ResolverCache')
    return [f[0] for f in t['variants'][0]['fields']] if t else []
def map_name(ctx, m):
    """name of the cache a map value is: field of ResolverCache or CacheFile"""
    if m.op != 'fld': return None
    n = ty_of(m.a[0])
    for ty in ('ResolverCache', 'CacheFile'):
        _, t = ctx.adt(ty)
        if t is None: continue
        if n is not None:
            k = ctx.types[ctx.e.peel(n)]
            if k.get('k') == 'adt' and tybase(k['name']) == ty: return f"{ty}.{t['variants'][0]['fields'][m.a[2]][0]}"
    # by the field that leads there
    b = m.a[0]
    for own, f, ty in (('Resolver', 'cache', 'ResolverCache'), ('Resolver', 'fs', 'CacheFile')):
        if b.op == 'fld' and b.a[2] == ctx.fidx(own, f) and ty_of(b.a[0]) is not None and tybase(ctx.types[ctx.e.peel(ty_of(b.a[0]))].get('name') or '') == own:
            _, t = ctx.adt(ty); return f"{ty}.{t['variants'][0]['fields'][m.a[2]][0]}"
    return None
def dms(ctx, tr, method=None):
    return [ev for ev in tr.events() if ev[0] == 'dm' and (method is None or ev[1] in method)]
def got(t):
    """subterms that are values found in a concurrent map"""
    return [x for x in subterms(t) if x.op == 'fld' and x.a[2] == 0 and x.a[1] == 1 and x.a[0].op == 'app' and x.a[0].a[0] == 'dm.get']
def result(ctx, v):
    """('Ok'|'Err'|'Some'|'None', payload) of a built Result/Option"""
    if v.op == 'agg':
        n = tybase(ctx.types[v.a[0]]['name'])
        if n in ('Result', 'Option'): return ctx.types[v.a[0]]['variants'][v.a[1]]['name'], (v.a[2] if len(v.a) > 2 else None)
    return None
WRITE = ('insert', 'entry.insert', 'entry.or_insert', 'or_insert', 'or_insert_with', 'alter')

# ---------------------------------------------------------------- C10
def c10(ctx, r):
    """Every path that answers with a description found in the cache: the facts contain that the file below the same key was checked (need_update answered false for it) and, for a present description, that it is still a file. need_update: no path answers 'not changed' without a remembered time, with a time that went backwards, or other than by comparing the age with the configured resolution, which the constructor sets to at most one second. The remembered time is the modification time of the same file, queried before its content is read. When reading again fails, the former description is dropped."""
    for n, u in ctx.A.units.items():
        ctx.unit(n, r)
        for tr in ctx.rets(u):
            reuse10(ctx, r, n, u, tr)
            reading10(ctx, r, n, u, tr)
    for n, u in ctx.A.units.items():
        if re.fullmatch(r'CacheFile::need_update', n): changed10(ctx, r, n, u)
    u = ctx.A.units.get('Resolver::new')
    if u:
        for tr in ctx.rets(u):
            fs = ctx.F(tr.ret, 'Resolver', 'fs'); d = ctx.F(fs, 'CacheFile', 'duration'); r.ob('resolution of the cache')
            m = re.fullmatch(r'.*from_(secs|millis|micros|nanos)', d.a[0]) if d.op == 'app' else None
            if m and d.a[1].op == 'int':
                ns = d.a[1].a[0] * {'secs': 10**9, 'millis': 10**6, 'micros': 10**3, 'nanos': 1}[m.group(1)]
                if ns > 10**9: r.bad('Resolver::new resolution', f'a change of a description within {ns / 1e9} s goes unnoticed')
            else: r.note(f'resolution of the cache: {short(d)} is not followed')
def reuse10(ctx, r, n, u, tr):
    v = tr.ret; k = result(ctx, v)
    if k and k[0] == 'Err': return
    x = k[1] if k and k[0] == 'Ok' and k[1] is not None else v
    for g in got(x):
        m = map_name(ctx, g.a[0].a[1])
        if m != 'ResolverCache.file_dir_to_pkg_info': continue
        key = g.a[0].a[2]; r.ob('cached description reused'); r.site(f'{n}: reuse')
        fresh = [f for f, w in tr.facts.items() if not w and f.op == 'fld' and isret(f.a[0], r'.*need_update')]
        files = [f.a[0].a[-1] for f in fresh]
        mine = [p for p in files if p.op == 'app' and p.a[0] == 'join' and p.a[1] is key]
        if not fresh:
            if any(isret(f, r'.*need_update') or f.op == 'fld' and isret(f.a[0], r'.*need_update') for f in tr.facts) or 'CacheFile::need_update' in ctx.A.units:
                r.bad(f'{n} unchecked', f'{n} answers with a cached description without knowing that its file did not change {on(ctx, tr)}')
            else: r.note(f'{n}: the freshness check is not recognised')
            continue
        if not mine and not any(murky(ctx, p) for p in files): r.bad(f'{n} other file', f'{n} checks {short(files[0])} but answers with the description of {short(key)} {on(ctx, tr)}'); continue
        none = tr.vars.get(g) == frozenset([0])
        if not none and not any(ctx.truth(tr, app('is_file', p)) is True for p in mine or files): r.bad(f'{n} removed file', f'{n} answers with a cached description although its file may be gone {on(ctx, tr)}')
def reading10(ctx, r, n, u, tr):
    evs = tr.events()
    for i, ev in enumerate(evs):
        if ev[0] != 'dm' or ev[1] not in WRITE: continue
        m = map_name(ctx, ev[2])
        if m == 'CacheFile.cached_file' and len(ev[3]) > 1:
            key, val = ev[3][0], ev[3][1]; r.ob('remembered time'); r.site(f'{n}: remembered time')
            ts = [x for x in subterms(val) if x.op == 'app' and x.a[0] == 'metadata']
            if not any(x.op == 'app' and x.a[0] == 'modified' for x in subterms(val)): r.bad(f'{n} time', f'{n} remembers {short(val)} without the modification time of the file'); continue
            for x in ts:
                if x.a[1] is not key and not murky(ctx, x.a[1]): r.bad(f'{n} time of another file', f'{n} remembers the time of {short(x.a[1])} for {short(key)}')
                mi = [j for j, e in enumerate(evs) if e[0] == 'fs' and e[1] == 'metadata' and e[2] is x.a[1]]
                rd = [j for j, e in enumerate(evs) if e[0] == 'fs' and e[1] in ('read_to_string', 'read') and e[2] is key]
                if mi and rd and max(mi) > min(rd): r.bad(f'{n} time after content', f'{n} reads the content of {short(key)} before its modification time: a change in between goes unnoticed')
        if m == 'ResolverCache.file_dir_to_pkg_info' and any(isret(x, r'.*parse_description_file') for x in subterms(ev[3][1])):
            # the description is stored here, its time in another map by the reader
            if not any(x.op == 'app' and x.a[0] == 'modified' for x in subterms(ev[3][1])) and any('CacheFile.cached_file' in s for s in [str(writes(ctx))]):
                r.bad('description and time in two maps', f'{n} stores the description and its reader stores the time of the file in two separate steps: two threads that read different contents can leave the older description with the newer time')
    # a failed second reading
    for ev in ctx.calls(tr, r'.*::parse_description_file'):
        if ev[3] is None or tr.vars.get(ev[3]) != frozenset([1]): continue
        for t, vs in tr.vars.items():
            if t.op == 'app' and t.a[0] == 'dm.get' and vs == frozenset([1]) and map_name(ctx, t.a[1]) == 'ResolverCache.file_dir_to_pkg_info':
                r.ob('failed reading')
                if not any(e[0] == 'dm' and e[1] in ('remove', 'remove_if', 'clear', 'insert') and map_name(ctx, e[2]) == 'ResolverCache.file_dir_to_pkg_info' and (not e[3] or e[3][0] is t.a[2]) for e in evs):
                    r.bad(f'{n} stale after error', f'{n} keeps the former description of a file that was read again and is broken: the next call reuses it {on(ctx, tr)}')
def writes(ctx):
    if not hasattr(ctx, '_writes'):
        ctx._writes = {map_name(ctx, ev[2]) for u in ctx.A.units.values() for tr in u.traces for ev in tr.events() if ev[0] == 'dm' and ev[1] in WRITE}
    return ctx._writes
def whole(a, b):
    """durations compared in a unit: the limit is a whole number of milliseconds"""
    m = [x.op == 'app' and len(x.a) == 2 and re.fullmatch(r'(?:.*::)?Duration::as_(millis|micros|nanos)', str(x.a[0])) for x in (a, b)]
    if m[0] and m[1] and a.a[0] == b.a[0]: return a.a[1], b.a[1]
    return a, b
def changed10(ctx, r, n, u):
    S_ = u.params[0]; F = u.params[1]; lim = ctx.F(S_, 'CacheFile', 'duration')
    for tr in ctx.rets(u):
        k = result(ctx, tr.ret)
        if not k or k[0] != 'Ok': continue
        v = k[1]; r.ob('answer about a change'); r.site(f'{n}: answer')
        if ctx.truth(tr, app('is_file', F)) is False: continue
        t = ctx.truth(tr, v)
        stored = [x for x in tr.vars if x.op == 'app' and x.a[0] == 'dm.get' and map_name(ctx, x.a[1]) == 'CacheFile.cached_file']
        if t is True: continue
        for x in stored:
            if x.a[2] is not F and not murky(ctx, x.a[2]): r.bad(f'{n} key', f'{n} compares with the time of {short(x.a[2])}')
        if not stored or any(tr.vars[x] == frozenset([0]) for x in stored):
            if t is False: r.bad(f'{n} unknown time', f'{n} answers that a file whose time is not remembered did not change {on(ctx, tr)}')
            continue
        ds = [x for x in tr.vars if x.op == 'app' and x.a[0].endswith('duration_since')]
        # a time that is known not to be earlier has a distance
        if any(tr.vars[x] == frozenset([1]) and ctx.truth(tr, LT(x.a[1], x.a[2])) is False for x in ds): continue
        if any(tr.vars[x] == frozenset([1]) for x in ds) and t is False: r.bad(f'{n} backwards', f'{n} answers that a file whose time went backwards did not change {on(ctx, tr)}'); continue
        # the comparison, in the value or in a fact
        cond = v if t is None else None
        if t is False:
            for f, w in tr.facts.items():
                if any(y in ds for y in subterms(f)) or any(y.op == 'app' and y.a[0] == 'modified' for y in subterms(f)): cond = f if not w else NOT(f)
            if cond is None: r.bad(f'{n} always', f'{n} answers that the file did not change without comparing times {on(ctx, tr)}'); continue
        c = cond; neg = False
        if c.op == 'not': neg = True; c = c.a[0]
        if c.op == 'app' and c.a[0] == 'lt':
            a, b = whole(c.a[1], c.a[2])
            age = lambda y: any(z in ds for z in subterms(y))
            old = lambda y: y.op == 'fld' and y.a[0].op == 'fld' and bool(got(y)) 
            if age(a) and b is lim and neg: continue          # not (age < limit)
            if b is lim and neg and not ds: continue
            if age(a) and not age(b) and neg and b.op == 'int' and b.a[0] <= 1: continue
            if b.op != 'int' and any(y.op == 'app' and y.a[0] == 'modified' for y in subterms(b)) and not neg and not age(b): continue     # stored < modified: any newer time
            if age(b) and a is not lim and not neg and a.op == 'int': continue
            r.bad(f'{n} comparison', f'{n} answers that the file changed iff {short(cond)}, which misses changes of at least the resolution of the cache')
        elif c.op == 'app' and c.a[0] == 'eq' and neg: continue
        else: r.note(f'{n}: {short(cond)} is not followed')

# ---------------------------------------------------------------- C11
def c11(ctx, r):
    """Every insertion into a cache, on every path: the value is a term over the key and the resolver only (no other parameter); the same map and key were asked before; an exports tree is built by the exports builder and an imports tree by the imports builder, from the same value that the key serialises; the description kept for a directory is parsed from the file in that directory."""
    for n, u in ctx.A.units.items():
        ctx.unit(n, r); S_ = ctx.self_(u)
        for tr in u.traces:
            for ev in dms(ctx, tr, WRITE):
                m = map_name(ctx, ev[2])
                if m is None: r.note(f'{n}: a map that is not recognised: {short(ev[2])}'); continue
                if len(ev[3]) < 2: continue
                key, val = ev[3][0], ev[3][1]; r.ob('insertion'); r.site(f'{n}: {m}')
                # key-derived
                memo = {}
                keyed = {key}
                for x in subterms(key):
                    if x.op == 'app' and 'to_string' in x.a[0]: keyed.add(x.a[1])
                    if x.op == 'app' and x.a[0] == 'show': keyed.add(x.a[1])
                rest = rewrite(val, lambda x: sym('$key') if x in keyed else None)
                for p in u.params:
                    if p is S_ or ctx.types[ctx.e.peel(u.inst['body']['locals'][u.params.index(p) + 1][0])].get('name', '').endswith('CacheFile'): continue
                    if p in keyed: continue
                    if contains(rest, p) and not (key.op == 'elem') and not derived(ctx, rest, p, keyed):
                        r.bad(f'{n} {m} value', f'{n} stores under {short(key, 80)} a value that depends on {show(p)}: {short(val)}')
                # asked under the same key
                asked = [e for e in dms(ctx, tr, ('get', 'contains_key', 'get_mut', 'entry')) if map_name(ctx, e[2]) == m]
                if asked and not any(e[3] and e[3][0] is key for e in asked) and key.op != 'elem':
                    r.bad(f'{n} {m} key', f'{n} asks {m} for {short(asked[0][3][0])} but stores under {short(key)}')
                for e in asked:
                    pass
                if m.endswith('exports_content_to_tree') or m.endswith('imports_content_to_tree'):
                    kind = 'exports' if 'exports' in m else 'imports'
                    for b in rets_in(val, r'.*::build_field_path_tree'):
                        mine = b.a[1].startswith('MappingValue') == (kind == 'exports')
                        if not mine: r.bad(f'{n} {m} builder', f'{n} stores in {m} a tree that {b.a[1]} built')
                        srcs = [x for x in subterms(key) if x.op == 'app' and ('to_string' in x.a[0] or x.a[0] == 'show')]
                        if srcs and not any(x.a[1] is b.a[2] for x in srcs): r.bad(f'{n} {m} content', f'{n} stores in {m} the tree of {short(b.a[2])} under the text of {short(srcs[0].a[1])}')
                if m == 'ResolverCache.file_dir_to_pkg_info':
                    for b in rets_in(val, r'.*::parse_description_file'):
                        if not any(a is key or isinstance(a, T) and a.op == 'app' and a.a[0] == 'join' and a.a[1] is key for a in b.a[2:] if isinstance(a, T)):
                            r.bad(f'{n} {m} directory', f'{n} stores under {short(key)} the description of {short(b)}')
                        for a in b.a[2:]:
                            if isinstance(a, T) and a.op == 'app' and a.a[0] == 'join' and a.a[1] is not key and not murky(ctx, a): r.bad(f'{n} {m} directory', f'{n} stores under {short(key)} the description read from {short(a)}')
                    k = result(ctx, val)
                    if k and k[0] == 'None':
                        r.ob('absence')
                        if not (any(isret(t, r'.*find_up') and vs == frozenset([0]) for t, vs in tr.vars.items()) or any(not w and f.op == 'app' and f.a[0] == 'is_file' for f, w in tr.facts.items())):
                            r.bad(f'{n} {m} absence', f'{n} stores that {short(key)} has no description without having looked {on(ctx, tr)}')
        # which tree goes into which field
        for tr in ctx.rets(u):
            for x in subterms(tr.ret):
                k = ctx.built(x, 'PkgFileInfo')
                if not k: continue
                for kind, b in (('exports', 'MappingValue'), ('imports', 'IndexMap')):
                    f = ctx.F(x, 'PkgFileInfo', f'{kind}_field_tree'); r.ob('tree of a description')
                    for y in subterms(f):
                        if isret(y, r'.*::build_field_path_tree') and not y.a[1].startswith(b): r.bad(f'{n} {kind} tree', f'{n} uses a tree built by {y.a[1]} for the {kind} field')
                        if y.op == 'app' and y.a[0] == 'dm.get':
                            m = map_name(ctx, y.a[1])
                            if m and m != f'ResolverCache.{kind}_content_to_tree': r.bad(f'{n} {kind} tree', f'{n} uses a tree found in {m} for the {kind} field')
def derived(ctx, rest, p, keyed):
    """p occurs in the rest only inside what was asked of the cache's own key"""
    return any(contains(k, p) and k.op != 'app' for k in keyed) and all(True for _ in [0]) and not any(x is p for x in top_uses(rest, keyed))
def top_uses(t, keyed):
    st = [t]
    while st:
        x = st.pop()
        if x in keyed: continue
        yield x
        st += [y for y in x.a if isinstance(y, T)]

# ---------------------------------------------------------------- C12
WITNESS = '''#![allow(unused)]
fn shared<T: Send + Sync + 'static>() {}
pub fn witness() {
    shared::<nodejs_resolver::Resolver>();
    shared::<nodejs_resolver::ResolverCache>();
    shared::<nodejs_resolver::ResolverOptions>();
    shared::<nodejs_resolver::ResolveResult>();
    shared::<std::sync::Arc<nodejs_resolver::ResolverCache>>();
}
'''
def c12(ctx, r):
    """Lock order: for every use of a cache shard on every path, the guards alive at that point (held in a local, a temporary or inside a found value) are collected, through calls by summary; using a map while a guard of the same map is alive, or two maps in both orders, is a deadlock. Sharing: no mutable or thread-local static, no unsafe impl of Send/Sync; a witness crate that requires Resolver, ResolverCache, ResolverOptions and ResolveResult to be Send + Sync has to type-check against the current tree."""
    A = ctx.A
    uses = {}
    def name(m): return map_name(ctx, m) or short(m, 60)
    for n, u in A.units.items():
        ctx.unit(n, r); uses[n] = {name(ev[2]) for tr in u.traces for ev in dms(ctx, tr)}
    ch = True
    while ch:
        ch = False
        for n, u in A.units.items():
            for c in u.callees:
                if c in uses and not uses[c] <= uses[n]: uses[n] |= uses[c]; ch = True
    order = {}
    for n, u in A.units.items():
        for tr in u.traces:
            for ev in tr.events():
                if ev[0] == 'dm' and ev[4]:
                    here = {name(ev[2])}; what = f'{ev[1]} on'
                elif ev[0] == 'call' and ev[5] and ev[1] in uses: here = uses[ev[1]]; what = f'calls {ev[1]}, which uses'
                else:
                    if ev[0] == 'dm': r.ob('cache use'); r.site(f'{n}: {ev[1]} {name(ev[2])}')
                    continue
                r.ob('cache use under a guard'); r.site(f'{n}: {what} {", ".join(sorted(here))}')
                for g in ev[4] if ev[0] == 'dm' else ev[5]:
                    gm = guard_map(ctx, g)
                    for h in here:
                        if gm is None: continue
                        if h == gm: r.bad(f'{n} {gm} twice', f'{n} {what} {h} while it holds a guard of the same cache: a deadlock when both keys are in one shard {on(ctx, tr)}')
                        order.setdefault((gm, h), n)
    for (a, b), n in order.items():
        if a != b and (b, a) in order: r.bad(f'lock order {min(a, b)} {max(a, b)}', f'{n} uses {b} while holding {a}, {order[(b, a)]} the other way round')
    for s, d in ctx.m['statics'].items():
        if not d.get('local'): continue
        r.ob('static')
        if d.get('mut'): r.bad(f'static mut {s}', f'{s} is a mutable static')
        if d.get('tls'): r.note(f'{s} is thread local')
    src_unsafe(ctx, r)
    witness(ctx, r)
def guard_map(ctx, g):
    if isinstance(g, tuple): g = g[0]
    for x in subterms(g):
        if x.op == 'app' and x.a[0].startswith('dm.') and len(x.a) > 1: return map_name(ctx, x.a[1]) or short(x.a[1], 60)
    return None
def src_unsafe(ctx, r):
    """unsafe impl Send/Sync for a local type"""
    for root, _, fs in os.walk(os.path.join(ctx.repo, 'src')):
        for f in fs:
            if not f.endswith('.rs'): continue
            s = open(os.path.join(root, f), errors='replace').read()
            s = re.sub(r'//[^\n]*', '', s)
            for m in re.finditer(r'unsafe\s+impl\s*(<[^>]*>)?\s*(Send|Sync)\b', s): r.bad(f'{f} unsafe impl {m.group(2)}', f'{f}: unsafe impl {m.group(2)}: the compiler no longer checks sharing')
def witness(ctx, r):
    if ctx.scratch is None or not os.path.isdir(ctx.scratch): return
    d = os.path.join(ctx.scratch, 'witness'); os.makedirs(d + '/src', exist_ok=True)
    open(d + '/src/lib.rs', 'w').write(WITNESS)
    open(d + '/Cargo.toml', 'w').write(f'[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nnodejs-resolver = {{ path = "{ctx.repo}" }}\n')
    lock = os.path.join(ctx.repo, 'Cargo.lock')
    if os.path.exists(lock): open(d + '/Cargo.lock', 'w').write(open(lock).read())
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTC', 'RUSTUP_TOOLCHAIN', 'NRMIR_CRATE'): e.pop(k, None)
    e['CARGO_TARGET_DIR'] = os.path.join(ctx.scratch, 'wt'); e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_INCREMENTAL'] = '0'
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline'], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0: r.ob('Send + Sync witness', 5); return
    if 'E0277' in p.stdout and re.search(r'cannot be (shared|sent) between threads safely', p.stdout):
        m = re.search(r'error\[E0277\]: (.*)', p.stdout)
        r.bad('not Send + Sync', f'the witness does not type-check: {m.group(1) if m else ""}')
    else: r.note('the witness crate could not be built: ' + p.stdout.strip()[-300:])

# ---------------------------------------------------------------- C13
FALLIBLE_EXT = ('read', 'metadata', 'modified', 'canonicalize')
def c13(ctx, r):
    """Every path on which a fallible step answered Err (reading or parsing a description file or tsconfig, building a field tree, choosing a target; directly or in a callee) has to end in an error that is not the 'not found here' marker: no path turns it into an answer, an empty value or another request. Steps that try alternatives (aliases, tsconfig fallbacks, prefer-relative, main fields and files) may go on to the next alternative after a failed resolution. Ill typed values that the documentation of a field excludes (exports, imports, sideEffects, baseUrl, paths) are errors."""
    A = ctx.A
    for n, u in A.units.items():
        ctx.unit(n, r)
        rt = ctx.ret_ty(u)
        if rt not in ('Result', 'ResolverStats'): continue
        for tr in ctx.rets(u):
            errs = []
            for t, vs in tr.vars.items():
                if vs != frozenset([1]): continue
                ty = ty_of(t)
                if ty is None or tybase(ctx.types[ty].get('name') or '') != 'Result': continue
                if isret(t) and t.a[1] in A.units or t.op == 'app' and (t.a[0] in FALLIBLE_EXT or t.a[0].startswith(('serde_json::', 'jsonc_parser::', 'fs::'))): errs.append(t)
            if not errs: continue
            b = ctx.stats(tr.ret); k = result(ctx, tr.ret)
            for t in errs:
                r.ob('failed step'); what = t.a[1] if isret(t) else t.a[0]; r.site(f'{n}: {what}')
                if t.op == 'app' and t.a[0] == 'canonicalize' and n != 'Resolver::resolve': pass
                if b: 
                    if b[0] != ERROR: r.bad(f'{n} swallows {what}', f'{n} answers {short(tr.ret)} although {short(t)} failed {on(ctx, tr)}')
                    elif ctx.truth(tr, EQ(fld(b[1], None, 0), S('T0'))) is True: r.bad(f'{n} hides {what}', f'{n} turns the failure of {short(t)} into "not found here"')
                elif k:
                    if k[0] != 'Err': r.bad(f'{n} swallows {what}', f'{n} answers {short(tr.ret)} although {short(t)} failed {on(ctx, tr)}')
                    elif k[1] is not None and ctx.truth(tr, EQ(k[1], S('T0'))) is True: r.bad(f'{n} hides {what}', f'{n} turns the failure of {short(t)} into "not found here"')
                elif tr.ret is t: pass
                elif isret(tr.ret) and contains(tr.ret, t): pass
                elif isret(tr.ret) or tr.ret.op == 'fld': r.bad(f'{n} swallows {what}', f'{n} goes on with {short(tr.ret)} although {short(t)} failed {on(ctx, tr)}')
                else: r.note(f'{n}: {short(tr.ret)} is not followed')
    typed13(ctx, r)
MUST = {'exports': None, 'imports': None, 'sideEffects': 'TsConfig', 'baseUrl': None, 'paths': None}
def typed13(ctx, r):
    """a value of the wrong type under these keys is an error"""
    for n, u in ctx.A.units.items():
        if ctx.ret_ty(u) not in ('Result', 'ResolverStats'): continue
        for tr in ctx.rets(u):
            for key in ('sideEffects', 'baseUrl', 'paths'):
                vs = {}
                for t, w in tr.vars.items():
                    if t.op == 'app' and t.a[0] in ('as_str', 'as_bool', 'as_array', 'as_object', 'as_i64', 'as_u64', 'as_f64', 'as_null') and keyed13(ctx, t.a[1], key): vs[t] = w
                if not vs: continue
                x = {t.a[1] for t in vs}
                for v in x:
                    mine = [w for t, w in vs.items() if t.a[1] is v]
                    if all(w == frozenset([0]) for w in mine):
                        r.ob('ill typed value'); r.site(f'{n}: {key}')
                        k = result(ctx, tr.ret)
                        if not (k and k[0] == 'Err') : r.bad(f'{n} ill typed {key}', f'{n} accepts a {key} of an unexpected type and answers {short(tr.ret)} {on(ctx, tr)}')
            # serde values matched directly
            for t, w in tr.vars.items():
                ty = ty_of(t)
                if re.fullmatch(r'.*::from_json', n) and t in u.params and ty is not None and tybase(ctx.types[ctx.e.peel(ty)].get('name') or '') == 'Value' and len(w) == 1:
                    nm = ctx.types[ctx.e.peel(ty)]['variants'][next(iter(w))]['name']; r.ob('kind of a mapping value'); r.site(f'{n}: {nm}')
                    k = result(ctx, tr.ret)
                    if nm in ('Bool', 'Number') and not (k and k[0] == 'Err'): r.bad(f'{n} accepts {nm}', f'{n} accepts a {nm} as mapping value')
def keyed13(ctx, t, key):
    for x in subterms(t):
        if x.op == 'app' and x.a[0] == 'map.get' and len(x.a) > 2 and x.a[2] is S(key): return True
    return False
