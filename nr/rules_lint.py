"""Rules over the whole program text: which functions the crate uses, which statics it keeps."""
from base import *

# what reading means; anything else in these modules is an effect
FS_READ = re.compile(r'^std::fs::(metadata|symlink_metadata|read|read_to_string|read_dir|read_link|canonicalize|exists|File::open|File::metadata|Metadata::\w+|FileType::\w+|DirEntry::\w+|ReadDir.*|OpenOptions::(new|read|open)|Permissions::(readonly|mode))$')
EFFECT = [
 ('file system', re.compile(r'^std::fs::|^std::os::\w+::fs::(symlink|chown|lchown|fchown|chroot|mkfifo)|^<std::fs::File as std::io::(Write|Seek)>|^<&std::fs::File as std::io::Write>|std::fs::DirBuilder|^std::path::Path::(remove|create|write)')),
 ('process', re.compile(r'^std::process::(Command|exit|abort|Child)|^<std::process::|^std::os::unix::process')),
 ('thread', re.compile(r'^std::thread::(spawn|scope|Builder|sleep|park)|^std::thread::\w*::spawn|^rayon|^tokio')),
 ('network', re.compile(r'^std::net::|^<std::net::|^std::os::unix::net')),
 ('environment', re.compile(r'^std::env::(set_\w+|remove_var)')),
 ('output', re.compile(r'^std::io::(_print|_eprint|stdout|stderr|print|eprint|stdio)|^<std::io::(Stdout|Stderr|StdoutLock|StderrLock)|^std::io::Stdout|^std::io::Stderr|^std::dbg')),
 ('input', re.compile(r'^std::io::(stdin|read_to_string)|^std::io::Stdin')),
 ('panic hook', re.compile(r'^std::panic::(set_hook|take_hook)')),
]
OPEN_WRITE = re.compile(r'^std::fs::OpenOptions::(write|append|truncate|create|create_new)$|^std::fs::File::(create|create_new|set_len|set_permissions|set_modified|set_times|options|sync_all|lock|try_lock)')
CRATES = {'nodejs_resolver', 'core', 'alloc', 'std', 'serde_json', 'serde', 'serde_core', 'jsonc_parser', 'indexmap', 'dashmap', 'smol_str', 'phf', 'phf_shared', 'daachorse', 'once_cell', 'tracing', 'tracing_core', 'tracing_attributes', 'hashbrown', 'lock_api', 'parking_lot', 'parking_lot_core', 'rustc_hash', 'fxhash', 'ahash', 'itertools', 'memchr', 'regex', 'either'}

def names(ctx, x):
    """(definition, crate) of a mentioned function"""
    if isinstance(x, int): i = ctx.insts[x]; return i['def'], i['crate'], i
    return x, None, None
def mentions(ctx):
    for i in ctx.local:
        if not ctx.users(i): continue
        for c in ctx.callees(i):
            d, k, inst = names(ctx, c[0])
            yield i, strip(d), k, inst
    # instantiated library bodies that got a local function as argument (Option::map and the like) only call it
def strip(d):
    from engine import strip_generics
    return strip_generics(d)

def c01(ctx, r):
    """Every function mentioned anywhere in the crate (called or passed as a value) is classified: of std::fs only the reading functions are allowed; functions of std::process, std::net, std::thread, std::env and the standard streams that have an effect, foreign functions and inline assembly are reported at the function that mentions them."""
    from engine import sname

    from rules_last import in_loop_of, back_head
    for i, d, k, inst in mentions(ctx):
        f = sname(i['def']); r.fn(f); r.ob('mentioned function')
        if inst is not None and inst.get('foreign') and not d.startswith(('core::', 'std::intrinsics', 'core::intrinsics')):
            r.bad(f'{f} foreign {d}', f'{f} calls the foreign function {d}')
            continue
        if k is not None and k not in CRATES: r.note(f'{f} uses crate {k}: trusted not to have effects')
        for what, rx in EFFECT:
            if rx.search(d) and not FS_READ.match(d):
                r.bad(f'{f} {what} {d}', f'{f} ({i["span"][0]}) mentions {d}: an effect on {what}')
        if OPEN_WRITE.match(d): r.bad(f'{f} file system {d}', f'{f} opens a file for writing: {d}')
        if d.startswith('std::fs') or '::is_file' in d or '::is_dir' in d or '::exists' in d or 'canonicalize' in d: r.site(f'{f}: {d}')
    for i in ctx.local:
        for b in i['body']['blocks']:
            if b['t']['t'] == 'asm': r.bad(f'{sname(i["def"])} asm', 'inline assembly')

HIDDEN = [
 ('the clock', re.compile(r'^std::time::(SystemTime|Instant)::(now|elapsed)|^std::time::UNIX')),
 ('the environment', re.compile(r'^std::env::(var\w*|vars\w*|current_dir|temp_dir|home_dir|args\w*|current_exe)')),
 ('the process or thread', re.compile(r'^std::process::id|^std::thread::(current|available_parallelism|panicking)|ThreadId|^std::thread::LocalKey|^std::sync::atomic|^core::sync::atomic|Atomic\w+::(load|fetch_\w+|swap|compare\w+)')),
 ('randomness', re.compile(r'RandomState|DefaultHasher|hash_one|^rand::|^getrandom|^fastrand')),
 ('the order of a directory listing', re.compile(r'^std::fs::read_dir|^std::path::Path::read_dir')),
 ('an address', re.compile(r'(Arc|Rc)::(as_ptr|ptr_eq|strong_count|weak_count)|^std::ptr::(addr|addr_eq)|ptr::const_ptr::.*::addr|expose_provenance')),
]
def interior(ctx, n, seen=None):
    """does the type allow mutation behind a shared reference"""
    seen = seen if seen is not None else set()
    if n in seen: return None
    seen.add(n); t = ctx.types[n]
    nm = tybase(t.get('name') or t['s'])
    if nm in ('Cell', 'RefCell', 'Mutex', 'RwLock', 'UnsafeCell', 'OnceCell', 'OnceLock', 'DashMap', 'DashSet') or nm.startswith('Atomic'): return nm
    if nm in ('Lazy', 'LazyLock'):
        for a in t.get('args', []):
            x = interior(ctx, a, seen)
            if x: return x
        return None
    for a in t.get('args', []) or []:
        x = interior(ctx, a, seen)
        if x: return x
    for v in t.get('variants', []) or []:
        for f in v['fields']:
            x = interior(ctx, f[1], seen)
            if x: return x
    return None

HASHTY = ('HashMap', 'HashSet', 'DashMap', 'DashSet')
def coll_name(ctx, b):
    """type name of what is iterated"""
    while b.op == 'app' and b.a[0] in ('keys', 'values', 'list', 'rev'): b = b.a[1]
    n = ty_of(b)
    if n is None: return None
    n = ctx.e.peel(n)
    return tybase(ctx.types[n].get('name') or ctx.types[n]['s'])
def total_key(ctx, lst, key, made=()):
    """is the sort order total over the entries of the map the list was collected from"""
    if key.op == 'str': return True
    keyfields = set()
    if lst.op == 'app' and lst.a[0] == 'collect' or made:
        for v in list(made) + (list(lst.a[3:]) if lst.op == 'app' and lst.a[0] == 'collect' else []):
            if not isinstance(v, T): continue
            if v.op == 'agg':
                for i, x in enumerate(v.a[2:]):
                    if x.op == 'fld' and x.a[0].op == 'elem' and x.a[2] == 0: keyfields.add(i)
            elif v.op == 'tuple':
                for i, x in enumerate(v.a):
                    if x.op == 'fld' and x.a[0].op == 'elem' and x.a[2] == 0: keyfields.add(i)
    def direct(t):
        # $x0, $x0.i, $x0.i.j without a length or another lossy view
        first = None
        while t.op == 'fld': first = t.a[2]; t = t.a[0]
        if not (t.op == 'sym' and t.a[0].startswith('$x')): return False
        return first is None or not keyfields or first in keyfields
    cmps = [x for x in subterms(key) if x.op == 'app' and x.a[0] == 'cmp'] or ([key.a[1]] if key.op == 'app' and key.a[0] == 'key' and len(key.a) > 1 else [])
    for c in cmps:
        ops = c.a[1:] if c.op == 'app' and c.a[0] == 'cmp' else [c]
        ok = True
        for o in ops:
            while o.op == 'agg' and len(o.a) == 3 and tybase(ctx.types[o.a[0]].get('name') or '') == 'Reverse': o = o.a[2]
            if o.op in ('tuple', 'array'): o = next((y for y in o.a if direct(y)), o)
            if not direct(o): ok = False
        if ok: return True
    return False

def c02(ctx, r):
    """(1) Functions that read the clock, environment, process or thread identity, randomness, addresses or directory listings are not mentioned anywhere; statics are immutable. (2) Order taint: an element drawn from the iteration over a HashMap, HashSet or DashMap, or over a list collected from one and not sorted by a total key, may not leave the loop early, be appended to an ordered list, inserted in an insertion-ordered map, or be carried to the next turn."""
    from engine import sname
    from rules_ts import inits
    from rules_last import in_loop_of, back_head
    for i, d, k, inst in mentions(ctx):
        f = sname(i['def']); r.fn(f); r.ob('mentioned function')
        for what, rx in HIDDEN:
            if rx.search(d): r.bad(f'{f} {what} {d}', f'{f} ({i["span"][0]}) mentions {d}: the answer could depend on {what}')
    for i in ctx.local:
        if not ctx.users(i): continue
        for b in i['body']['blocks']:
            for x in b['s']:
                if x[0] == '=' and x[2].get('r') == 'cast' and 'Expose' in str(x[2].get('k', '')): r.bad(f'{sname(i["def"])} address', 'a pointer is converted to an integer')
    for n, d in ctx.m['statics'].items():
        if d.get('crate') != ctx.m['crate'] or '__CALLSITE' in n or n.endswith('::META') or 'CALLSITE' in n: continue
        r.ob('static')
        if d['mut'] or d['tls']: r.bad(f'static {n}', f'{n} is mutable or thread local state outside the resolver')
        else:
            x = interior(ctx, d['ty'])
            if x: r.bad(f'static {n}', f'{n} holds a {x}: state kept in a global')
    # order taint
    A = ctx.A
    tainted = {}          # unit -> True when its result is a hash ordered list
    def hashbase(b):
        if b.op == 'app' and b.a[0] == 'sorted':
            if hashbase(b.a[1]):
                l, made = src_list(b.a[1])
                if not total_key(ctx, l, b.a[2], made): return True
            return False
        if b.op == 'phi': return b in pushed
        if b.op == 'app' and b.a[0] == 'pushed': return hashbase(b.a[1])
        if b in ptaint: return True
        if b.op == 'app' and b.a[0] in ('rev', 'reverse', 'extended', 'list', 'keys', 'values', 'sublist', 'dedup', 'truncate'):
            return any(hashbase(x) for x in b.a[1:] if isinstance(x, T))
        if b.op == 'app' and b.a[0] == 'collect':
            if b.a[1].a[0] in HASHTY: return True
            if b.a[1].a[0] in ('BTreeMap', 'BTreeSet'): return False
            return any(hashbase(x) for x in [itbase(b.a[2].a[0])])
        if b.op == 'app' and b.a[0] == 'ret' and tainted.get(b.a[1]): return True
        if b.op == 'app' and b.a[0] == 'inserted': return False
        return coll_name(ctx, b) in HASHTY
    pushed = {}           # loop variable that elements are pushed to in hash order -> the pushed values
    ptaint = {}           # parameter that is given a hash ordered list -> that list
    def src_list(b, k=9):
        while b.op == 'app' and b.a[0] in ('sorted', 'rev', 'reverse', 'dedup', 'pushed'): b = b.a[1]
        if b in ptaint and k: return src_list(ptaint[b], k - 1)
        if b.op == 'app' and b.a[0] == 'ret':
            u = A.units.get(b.a[1])
            if u and k:
                for t in u.traces:
                    if t.kind == 'return' and (t.ret.op == 'app' or t.ret in pushed): return src_list(t.ret, k - 1)
        return b, pushed.get(b, ())
    def itbase(it):
        while it.op != 'it': it = it.a[1] if it.op == 'itpass' else it.a[0]
        return it.a[0]
    islist = lambda x: tybase(str(coll_name(ctx, x))) in ('Vec', 'VecDeque', 'SmallVec', 'LinkedList') or x.op == 'phi' and any(v.op == 'app' and v.a[0] == 'pushed' for v in inits(A.units[x.a[0][0]], x) if x.a[0] and x.a[0][0] in A.units)
    def loophead_of(t, e):
        last = None
        for x in t.events():
            if x[0] == 'loop': last = x[1]
            if x[0] == 'elem' and x[2] is e: return last
    def outlives(u, t, e, ph):
        """the loop variable keeps its value from one turn of the loop over e to the next"""
        h = loophead_of(t, e)
        if h is None or t.kind != 'back': return True
        if in_loop_of(t, e): return True
        own = {p for x in t.events() if x[0] == 'loop' and x[1] is h for p, _ in x[2]} | {p for q in u.traces if q.kind == 'back' and back_head(q) is h for p in q.info['phi']}
        return any(x in own for x in inits(u, ph))
    def pushes(v, ph, e):
        """values put into the list ph on the way to v"""
        out = []; k = 0
        while v is not ph and k < 50:
            k += 1
            if v.op == 'app' and v.a[0] == 'pushed': out.append(v.a[2]); v = v.a[1]
            elif v.op == 'app' and v.a[0] == 'extended' and v.a[1].op != 'bad': out.append(v); v = v.a[1]
            else: return None
        return out if any(contains(x, e) for x in out) else None
    for _ in range(5):
        ch = False
        for n, u in A.units.items():
            for t in u.traces:
                if t.kind == 'back':
                    for ev in t.events():
                        if ev[0] != 'elem' or not hashbase(ev[1]): continue
                        for ph, v in t.info['phi'].items():
                            if ph in pushed or not isinstance(v, T) or not contains(v, ev[2]): continue
                            m = pushes(v, ph, ev[2])
                            if m and outlives(u, t, ev[2], ph): pushed[ph] = m; ch = True
                    for ph, v in t.info['phi'].items():
                        if ph not in pushed and isinstance(v, T) and v.op == 'phi' and v in pushed: pushed[ph] = pushed[v]; ch = True
                for ev in t.events():
                    if ev[0] == 'loop':
                        for p, v in ev[2]:
                            if p not in pushed and isinstance(v, T) and v in pushed: pushed[p] = pushed[v]; ch = True
                    if ev[0] == 'call' and ev[1] in A.units:
                        for p, v in zip(A.units[ev[1]].params, ev[2]):
                            if isinstance(v, T) and p not in ptaint and islist(v) and hashbase(v) : ptaint[p] = v; ch = True
                if not tainted.get(n) and t.kind == 'return' and (t.ret.op == 'app' and t.ret.a[0] in ('collect', 'rev', 'list', 'sorted', 'extended', 'pushed', 'ret') or t.ret in pushed) and hashbase(t.ret): tainted[n] = True; ch = True
        if not ch: break
    for n, u in A.units.items():
        r.fn(n)
        for t in u.traces:
            evs = t.events()
            for l in pushed:
                for x, where in [(t.ret, 'answers')] * (t.kind == 'return') + [(y, 'stores') for ev in evs if ev[0] in ('store', 'map.insert') for y in (ev[3:] if ev[0] == 'store' else ev[2])]:
                    if isinstance(x, T) and x is not l and x.op in ('agg', 'tuple', 'phi') and (l in x.a or any(isinstance(y, T) and y.op == 'agg' and l in y.a for y in x.a)): r.bad(f'{n}: order of list', f'{n} {where} a list in hash order')
            for k, ev in enumerate(evs):
                if ev[0] != 'elem' or not hashbase(ev[1]): continue
                e = ev[2]; b = ev[1]; key = f'{n}: order of {tybase(str(coll_name(ctx, src_list(b)[0]) or "list"))}'
                r.ob('iteration in hash order'); r.site(f'{n}: iterates {short(b, 60)}')
                rest = evs[k + 1:]
                done = any(x[0] == 'exhausted' and x[1] is b for x in rest)
                if t.kind == 'return' and not done and t.ret is not None:
                    # left early
                    if t.ret.op == 'bool' or t.ret.op == 'agg' and not any(contains(x, e) or hasret(x) for x in t.ret.a[2:]): pass
                    elif pinned(ctx, t, e): pass
                    elif contains(t.ret, e) or any(contains(v, e) for c in ctx.calls(t) for v in c[2] if isinstance(v, T)):
                        r.bad(key, f'{n} leaves the loop over {short(b, 80)} with the first element that answers, but the order of the elements is not determined: {short(t.ret)}')
                for x in rest:
                    if x[0] == 'push' and contains(x[2], e) and x[1] not in pushed and not any(y in pushed for y in inits(u, x[1])) and outlives(u, t, e, x[1]):
                        if ctx.e and not sorted_later(rest, x): r.bad(key + ' push', f'{n} appends elements of {short(b, 80)} to a list in hash order')
                    if x[0] == 'map.insert' and contains(x[2][0], e) and coll_name(ctx, x[1]) == 'IndexMap': r.bad(key + ' insert', f'{n} inserts elements of {short(b, 80)} in an insertion ordered map in hash order')
                if t.kind == 'back':
                    for ph, v in t.info['phi'].items():
                        if v.op in ('mref', 'tuple') or not contains(v, e): continue
                        if ph in pushed or not outlives(u, t, e, ph): continue
                        if ph.a[-1] == 'fold' or True:
                            if guarded_max(ctx, t, ph, v): continue
                            if dead_phi(ctx, u, ph): continue
                            if v.op == 'app' and v.a[0] in ('map.insert', 'pushed', 'map.or_insert') and coll_name(ctx, v.a[1]) != 'IndexMap': continue
                            r.bad(key + ' carried', f'{n} keeps {short(v, 100)} for the next turn of a loop in hash order')
def sorted_later(rest, x): return any(y[0] == 'sort' for y in rest)
def pinned(ctx, t, e):
    """the element is the one whose key equals a value fixed outside: order does not matter"""
    k = fld(e, None, 0)
    for f, v in t.facts.items():
        if v and f.op == 'app' and f.a[0] == 'eq' and (f.a[1] in (k, e) or f.a[2] in (k, e)):
            o = f.a[2] if f.a[1] in (k, e) else f.a[1]
            if not contains(o, e): return True
    return False
def guarded_max(ctx, t, ph, v):
    return any(val and f.op == 'app' and f.a[0] == 'lt' and contains(f.a[1], ph) for f, val in t.facts.items())
def live_phis(u):
    """loop variables whose value is used for something else than becoming a loop variable that is not used"""
    if hasattr(u, '_livephis'): return u._livephis
    live = set(); flow = {}
    def use(x):
        if isinstance(x, T):
            for y in subterms(x):
                if y.op == 'phi': live.add(y)
        elif isinstance(x, (tuple, list)):
            for y in x: use(y)
    for t in u.traces:
        if t.ret is not None: use(t.ret)
        for f in t.facts: use(f)
        for ev in t.events():
            if ev[0] == 'loop':
                for p, v in ev[2]:
                    if isinstance(v, T): flow.setdefault(p, set()).update(y for y in subterms(v) if y.op == 'phi')
            else: use(ev[1:])
        if t.kind == 'back':
            for q, v in t.info['phi'].items():
                if isinstance(v, T): flow.setdefault(q, set()).update(y for y in subterms(v) if y.op == 'phi')
    todo = list(live)
    while todo:
        for y in flow.get(todo.pop(), ()):
            if y not in live: live.add(y); todo.append(y)
    u._livephis = live
    return live
def dead_phi(ctx, u, ph):
    """no path that starts a new turn or leaves the loop uses the value"""
    return ph not in live_phis(u)
