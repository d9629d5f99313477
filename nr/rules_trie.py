"""Rules about the tree that the keys of an exports or imports field are read into."""
from base import *
from rules_res import murky, on
from rules_more import loop_events
from rules_last import ctx_ty
from rules_ts import wrong32, sure32
import strs

WORD29 = ['a', 'a/b', 'ab/cd', 'é/ü/x', 'a//b', '/a', 'aa/aa/aa', '😀/x', 'a*', 'a/b*', '*', 'a.b/c.d', 'long-name/with/many/parts', 'Ab/Cd', 'A']
KEYS29 = ['', 'a', 'A', 'é', 'x', '😀', 'aa', 'ab', 'b', 'lo', 'ü']
def next_list(w, c='/'):
    out = []; last = strs.NONE
    for i in range(len(w) - 1, -1, -1):
        if w[i] == c: last = strs.SOME(i)
        out.append(last)
    return out[::-1]
def places(w, end=False):
    """where a segment begins"""
    out = [0] + [i + 1 for i, c in enumerate(w) if c == '/']
    return [i for i in out if i < len(w) or end]
def rest(w, p): return w[p:]
def segment(w, p):
    i = w.find('/', p); return w[p:i] if i >= 0 else None
class Trie:
    """the loop variables of a walk down the tree: the node and where its part of the text begins"""
    def __init__(s, ctx, u):
        s.ctx = ctx; s.u = u; s.ok = False; s.node = s.pos = s.head = None
        s.root = next((p for p in u.params if ctx_ty(ctx, p) == 'PathTreeNode'), None)
        s.text = next((p for p in u.params if p is not s.root and ctx_ty(ctx, p) in ('Vec', 'slice', 'str', 'String')), None)
        if s.root is None or s.text is None: return
        cands = set(); k = u.params.index(s.root) + 1
        for tr in u.traces:
            for ev in tr.events():
                if ev[0] != 'loop': continue
                ns = [p for p, v in ev[2] if v is s.root or v.op == 'mref' and v.a[0] == ('P', u.name, k)]
                for n in ns:
                    for p, v in ev[2]:
                        if v.op == 'int' and v.a[0] == 0: cands.add((ev[1], n, p))
        if not cands: s.ok = True; s.flat = True; return
        s.flat = False; moved = set()
        for tr in u.traces:
            if tr.kind != 'back': continue
            h = tr.info['head']; h = mk('loophead', tr.info['ctx'], h if isinstance(h, int) else 'hof')
            for hd, n, p in cands:
                if hd is h and n in tr.info['phi'] and tr.info['phi'][n] is not n and p in tr.info['phi'] and tr.info['phi'][p] is not p and contains(tr.info['phi'][p], p): moved.add((hd, n, p))
        if len(moved) != 1: return
        s.head, s.node, s.pos = moved.pop(); s.ok = True
    def inside(s, tr): return s.head is not None and any(ev[0] == 'loop' and ev[1] is s.head for ev in tr.events())
    def at(s, tr): return (s.node, s.pos) if s.inside(tr) else (s.root, None)
    def env(s, w, p, cs='/'):
        env = {s.text: w if ctx_ty(s.ctx, s.text) in ('str', 'String') else list(w)}
        if s.pos is not None: env[s.pos] = p
        for x in s.lists: env[x] = next_list(w, s.lists[x])
        return env
    def find_lists(s):
        s.lists = {}
        for tr in s.u.traces:
            for ev in tr.events():
                if ev[0] == 'call' and ev[1].endswith('get_next_list') and isinstance(ev[3], T) and len(ev[2]) == 2 and ev[2][0] is s.text and ev[2][1].op == 'str': s.lists[ev[3]] = ev[2][1].a[0]
    def own(s): return [w for w in own_words(s.ctx, s.u, nums=True) if '//' not in w][:24]
    def words(s, tr, end=False, words=None):
        """(text, place, evaluator, certain) for which this path can be taken"""
        ins = s.inside(tr)
        if words is None: words = WORD29 + s.own()
        for w in words:
            for p in (places(w, end) if ins else [0]):
                env = s.env(w, p); ev, sure = wrong32(tr, s.ctx, env)
                if ev is None: continue
                if not sure: sure = not any(ev.ev(f) is strs.UNK and any(contains(f, k) for k in env) and not foreign(f, env) and not any(y.op == 'app' and y.a[0].startswith('map.') for y in subterms(f)) for f in list(tr.facts) + list(tr.vars))
                yield w, p, ev, sure
def fields(ctx): return {f: ctx.fidx('PathTreeNode', f) for f in ('children', 'folder', 'wildcards', 'files')}
def some(x): return fld(x, 1, 0, 1) if False else x
def is_field(t, node, i): return t.op == 'fld' and t.a[2] == i and t.a[1] in (None, 0) and t.a[0] is node
def under(t, node, i):
    """the term is this field of the node, or what is in it"""
    while t.op == 'fld':
        if is_field(t, node, i): return True
        t = t.a[0]
    return False
def mentions(tr, node, i):
    return any(is_field(y, node, i) for t in list(tr.facts) + list(tr.vars) for y in subterms(t))
def lookups(tr, node, i):
    """{key: found or not or None} of the lookups of a path in this map of the node"""
    out = {}
    for t, vs in tr.vars.items():
        for y in subterms(t):
            if y.op == 'app' and y.a[0] == 'map.get' and under(y.a[1], node, i): out.setdefault(y.a[2], None)
        if t.op == 'app' and t.a[0] == 'map.get' and under(t.a[1], node, i) and len(vs) == 1: out[t.a[2]] = (vs == frozenset([1]))
    for f, v in tr.facts.items():
        if f.op == 'app' and f.a[0] in ('map.contains', 'map.has') and under(f.a[1], node, i): out[f.a[2]] = bool(v)
    return out
def c29(ctx, r):
    """The tree of a field is gone down along the segments of a request. Induction over the depth, with a node and the place where its part of the request begins: every path of the descent goes to the child under the segment that begins there, and on to the place behind its slash; every match that is produced is the folder of the node, a wildcard of the node whose key begins the segment, or the file under the whole rest, with the position that belongs to it; the file is looked for first, a folder or wildcard of the node is passed over only where it is not there, a wildcard replaces an earlier match only if it is longer, and nothing is given up while there may be a deeper node. Keys are stored along the same segments: a key that ends in a slash as a folder, in a star as a wildcard without it, any other as a file. Places, keys and segments are evaluated over a class of texts, with every place where a segment can begin."""
    if ctx.adt('PathTreeNode')[1] is None: r.note('the tree of a field is not there: not followed'); return
    ix = fields(ctx)
    if any(v is None for v in ix.values()): r.note('the tree of a field has other fields: not followed'); return
    u = ctx.unit('PathTreeNode::find_match', r)
    if u is not None: match29(ctx, r, u, ix)
    u = ctx.unit('PathTreeNode::walk', r)
    if u is not None: walk29(ctx, r, u, ix)
    u = ctx.unit('PathTreeNode::get_next_list', r)
    if u is not None: next29(ctx, r, u)
    for n, u in ctx.A.units.items():
        if n.endswith('::build_field_path_tree'): keys29(ctx, r, n, u, ix)
        if n.endswith('::field_process'): asked29(ctx, r, n, u)

def loop_phi_sources(ctx, u, tr, v, tri, depth=0):
    """what a match can be: {'old', 'none', tuple...}; None: not followed"""
    if depth > 6: return None
    if v.op == 'agg' and len(v.a) == 2: return {'none'}
    if v.op == 'agg' and len(v.a) == 3 and v.a[2].op == 'tuple': return {v.a[2]}
    if v.op == 'phi':
        for ev in reversed(tr.events()):
            if ev[0] != 'loop': continue
            d = dict(ev[2])
            if v in d:
                if ev[1] is tri.head: return {'old'}
                out = loop_phi_sources(ctx, u, tr, d[v], tri, depth + 1)
                if out is None: return None
                for t2 in u.traces:
                    if t2.kind != 'back': continue
                    h = t2.info['head']; h = mk('loophead', t2.info['ctx'], h if isinstance(h, int) else 'hof')
                    if h is not ev[1]: continue
                    x = t2.info['phi'].get(v)
                    if x is None or x is v: continue
                    o = loop_phi_sources(ctx, u, t2, x, tri, depth + 1) if x.op != 'phi' else None
                    if o is None: return None
                    out = out | o
                return out
        return None
    if v.op == 'fld' or v.op == 'app': return None
    return None
def kind29(node, ix, v):
    """what a value of a match is: ('folder', None) | ('wildcard', elem) | ('file', key) | None"""
    x = v
    if under(x, node, ix['folder']): return 'folder', None
    k = 0
    while x.op == 'fld' and k < 6:
        if x.a[0].op == 'elem' and under(x.a[0].a[0], node, ix['wildcards']): return 'wildcard', x.a[0]
        x = x.a[0]; k += 1
        if x.op == 'app' and x.a[0] == 'map.get' and under(x.a[1], node, ix['files']): return 'file', x.a[2]
        if x.op == 'app' and x.a[0] == 'map.get' and under(x.a[1], node, ix['wildcards']): return 'wildget', x.a[2]
    return None
def match29(ctx, r, u, ix):
    n = u.name; tri = Trie(ctx, u)
    if not tri.ok: r.note(f'{n}: the descent is not followed'); return
    tri.find_lists()
    mfield = {}
    for tr in u.traces:
        if tr.kind == 'panic': continue
        node, pos = tri.at(tr)
        main = tr.kind == 'back' and mk('loophead', tr.info['ctx'], tr.info['head'] if isinstance(tr.info['head'], int) else 'hof') is tri.head
        inner = tr.kind == 'back' and not main
        if inner and tr.info['head'] == 'collect': continue
        ws = list(tri.words(tr))
        vals = [tr.ret] if tr.kind == 'return' and tr.ret is not None else [v for p, v in tr.info['phi'].items() if isinstance(v, T)] if tr.kind == 'back' else []
        # --- matches that are produced
        made = []
        for v in vals:
            if v.op == 'agg' and len(v.a) == 3 and v.a[2].op == 'tuple' and len(v.a[2].a) == 2: made.append(v.a[2])
        for c in set(made):
            k = kind29(node, ix, c.a[0])
            if k is None:
                if tri.root is not node and kind29(tri.root, ix, c.a[0]): r.bad(f'{n} node', f'{n} takes a match from the root although it has gone down to another node {on(ctx, tr)}')
                continue
            what, x = k
            if what == 'wildget': r.note(f'{n}: how a wildcard is found is not followed'); continue
            r.ob(f'{what} match'); r.site(f'{n}: {what}')
            for w, p, ev, sure in ws:
                L = len(w)
                if what == 'folder':
                    i = ev.ev(c.a[1])
                    if not isinstance(i, int): r.note(f'{n}: the position of a folder is not followed'); break
                    if sure and i != -p - 1: r.bad(f'{n} folder', f'{n} gives the position {i} to the folder whose part of the request {w!r} begins at {p}, not {-p - 1}'); break
                elif what == 'file':
                    key = ev.ev(x); i = ev.ev(c.a[1])
                    if not isinstance(key, str) or not isinstance(i, int): r.note(f'{n}: the key of a file is not followed'); break
                    if not sure: continue
                    if key != rest(w, p): r.bad(f'{n} file', f'{n} takes the file {key!r} for the rest {rest(w, p)!r} of the request {w!r}'); break
                    if i != L + 1: r.bad(f'{n} file position', f'{n} gives the position {i} to a file for the request {w!r}, not {L + 1}'); break
                else:
                    e0 = mk('fld', x, None, 0); stop = False
                    for key in KEYS29 + tri.own()[:8]:
                        env = tri.env(w, p); env[e0] = key
                        e2, s2 = wrong32(tr, ctx, env)
                        if e2 is None: continue
                        seg = segment(w, p); seg = rest(w, p) if seg is None else seg
                        if not any(contains(f, e0) for f in tr.facts): r.note(f'{n}: how a wildcard is compared is not followed'); stop = True; break
                        i = e2.ev(c.a[1])
                        if not isinstance(i, int): r.note(f'{n}: the position of a wildcard is not followed'); stop = True; break
                        if not keysure(ctx, tr, env, e0): r.note(f'{n}: how a wildcard is compared is not followed'); stop = True; break
                        if not seg.startswith(key): r.bad(f'{n} wildcard', f'{n} takes the wildcard {key + "*"!r} for the segment {seg!r}'); stop = True; break
                        if i != p + len(key): r.bad(f'{n} wildcard position', f'{n} gives the position {i} to the wildcard {key + "*"!r} for the request {w!r} from {p}, not {p + len(key)}'); stop = True; break
                    if stop: break
        if inner: inner29(ctx, r, u, tri, ix, tr, node, ws); continue
        # --- the descent
        if main:
            nx = tr.info['phi'].get(tri.node); px = tr.info['phi'].get(tri.pos)
            if nx is None or nx is tri.node:
                if px is not None and px is not tri.pos: r.note(f'{n}: a turn stays at its node: not followed')
            else:
                y = nx; k = 0
                while y.op == 'fld' and k < 4: y = y.a[0]; k += 1
                if not (y.op == 'app' and y.a[0] == 'map.get' and under(y.a[1], node, ix['children'])): r.note(f'{n}: where it goes down to is not followed')
                else:
                    r.ob('goes down'); r.site(f'{n}: goes down')
                    for w, p, ev, sure in ws:
                        key = ev.ev(y.a[2]); q = ev.ev(px) if px is not None else strs.UNK
                        seg = segment(w, p)
                        if not isinstance(key, str) or not isinstance(q, int): r.note(f'{n}: where it goes down to is not followed'); break
                        if not sure: continue
                        if seg is None: r.bad(f'{n} too deep', f'{n} goes down with the last part of the request {w!r}'); break
                        if key != seg: r.bad(f'{n} segment', f'{n} goes down to the child {key!r} for the segment {seg!r} of the request {w!r}'); break
                        if q != p + len(seg) + 1: r.bad(f'{n} next segment', f'{n} goes on at {q} behind the segment {seg!r} at {p} of the request {w!r}'); break
        # --- what is passed over
        exact = tr.kind == 'return' and tr.ret.op == 'agg' and len(tr.ret.a) == 3 and tr.ret.a[2].op == 'tuple' and (kind29(node, ix, tr.ret.a[2].a[0]) or ('', 0))[0] == 'file'
        empty = not any(True for _ in ws)
        if exact or empty: continue
        if tr.kind == 'return':
            src = loop_phi_sources(ctx, u, tr, tr.ret, tri)
            fl = lookups(tr, node, ix['files']); ch = lookups(tr, node, ix['children'])
            for w, p, ev, sure in ws:
                seg = segment(w, p)
                if seg is None:
                    r.ob('file asked')
                    got = [v for k, v in fl.items() if ev.ev(k) == rest(w, p)]
                    if True in got: r.bad(f'{n} file passed over', f'{n} does not answer a file that it found {on(ctx, tr)}'); break
                    if not got:
                        if any(not isinstance(ev.ev(k), str) for k in fl) or not fl and mentions(tr, node, ix['files']): r.note(f'{n}: how a file is looked up is not followed'); break
                        if not sure: continue
                        if absent(tr, node, ix['files']): continue
                        if fl:
                            r.bad(f'{n} file key', f'{n} looks for the file {", ".join(repr(ev.ev(k)) for k in fl)} instead of {rest(w, p)!r} of the request {w!r}'); break
                        r.bad(f'{n} file passed over', f'{n} gives up without looking for a file: {w!r} from {p} {on(ctx, tr)}'); break
                else:
                    r.ob('deeper asked')
                    if tr.vars.get(fld(node, None, ix['children'])) == frozenset([0]) or absent(tr, node, ix['children']): continue
                    got = [v for k, v in ch.items() if ev.ev(k) == seg]
                    if False in got: continue
                    if not sure: continue
                    if True in got: r.bad(f'{n} gives up', f'{n} gives up although there is a deeper node {on(ctx, tr)}'); break
                    if ch and any(not isinstance(ev.ev(k), str) for k in ch): r.note(f'{n}: how a child is looked up is not followed'); break
                    if ch: r.bad(f'{n} segment', f'{n} looks for the child {", ".join(repr(ev.ev(k)) for k in ch)} for the segment {seg!r} of the request {w!r}'); break
                    if mentions(tr, node, ix['children']) and tr.vars.get(fld(node, None, ix['children'])) is None: r.note(f'{n}: how a child is looked up is not followed'); break
                    r.bad(f'{n} gives up', f'{n} gives up although there may be a deeper node {on(ctx, tr)}'); break
        else:
            # the match that the next turn starts from
            src = None; best = best29(ctx, u, tri)
            if best is None: r.note(f'{n}: the match so far is not followed'); continue
            v = tr.info['phi'].get(best, best)
            src = {'old'} if v is best else loop_phi_sources(ctx, u, tr, v, tri)
        if src is None: r.note(f'{n}: what is answered is not followed'); continue
        whole = all(w == '' for w, p, ev, sure in ws)
        for what in ('folder', 'wildcards'):
            f = fld(node, None, ix[what]); known = tr.vars.get(f); r.ob(f'{what} asked')
            if known == frozenset([0]) or absent(tr, node, ix[what]): continue
            mine = {c for c in src if isinstance(c, T) and (kind29(node, ix, c.a[0]) or ('',))[0] == ('folder' if what == 'folder' else 'wildcard')}
            if known == frozenset([1]):
                if what == 'folder' and (not mine or 'old' in src or 'none' in src):
                    if any(isinstance(c, T) and kind29(node, ix, c.a[0]) is None for c in src): r.note(f'{n}: a match is not followed'); continue
                    r.bad(f'{n} folder passed over', f'{n} passes over the folder of a node {on(ctx, tr)}')
                if what == 'wildcards' and not any(ev[0] in ('elem', 'exhausted') and under(ev[1], node, ix[what]) for ev in tr.events()):
                    if any(ev[0] == 'loop' for ev in tr.events()) and lookups(tr, node, ix[what]): r.note(f'{n}: how wildcards are found is not followed'); continue
                    r.bad(f'{n} wildcards passed over', f'{n} passes over the wildcards of a node {on(ctx, tr)}')
            elif not mentions(tr, node, ix[what]):
                if what == 'wildcards' and any(ev[0] in ('elem', 'exhausted') and under(ev[1], node, ix[what]) for ev in tr.events()): continue
                r.bad(f'{n} {what} passed over', f'{n} {"gives up" if tr.kind == "return" else "goes down"} without looking at the {what} of the node {on(ctx, tr)}')
def absent(tr, node, i):
    """this map of the node is known to be empty"""
    m = fld(node, None, i)
    for f, v in tr.facts.items():
        if v and f.op == 'app' and f.a[0] == 'eq' and any(x.op == 'int' and x.a[0] == 0 for x in f.a[1:]) and any(x.op == 'app' and x.a[0] == 'len' and under(x.a[1], node, i) for x in f.a[1:]): return True
    return False
def keysure(ctx, tr, env, e0):
    ev = strs.Ev(ctx, env)
    return all(ev.ev(f) is not strs.UNK for f in list(tr.facts) + list(tr.vars) if contains(f, e0) and not foreign(f, env))
def foreign(f, env):
    """depends on something else than the given values"""
    st = [f]; k = 0
    while st and k < 500:
        x = st.pop(); k += 1
        if x in env: continue
        if x.op == 'phi' or x.op == 'elem': return True
        st += [y for y in x.a if isinstance(y, T)]
    return False
def best29(ctx, u, tri):
    """the loop variable that holds the match so far"""
    out = set()
    for tr in u.traces:
        for ev in tr.events():
            if ev[0] == 'loop' and ev[1] is tri.head:
                for p, v in ev[2]:
                    if v.op == 'agg' and len(v.a) == 2 and ctx_ty(ctx, v) == 'Option': out.add(p)
    return out.pop() if len(out) == 1 else None
def inner29(ctx, r, u, tri, ix, tr, node, ws):
    """a turn of the loop over the wildcards of a node: a wildcard that begins the segment replaces a shorter match, and nothing else"""
    n = u.name; here = loop_events(tr)
    el = [ev for ev in here if ev[0] == 'elem' and under(ev[1], node, ix['wildcards']) and ev[2].op == 'elem']
    if not el: return
    e = el[0][2]; e0 = mk('fld', e, None, 0)
    lp = here[0]
    if lp[0] != 'loop': return
    bs = [p for p, v in lp[2] if ctx_ty(ctx, v) == 'Option' and (v.op == 'phi' or v.op == 'agg')]
    bs = [p for p in bs if any(isinstance(x, T) and x.op == 'agg' and len(x.a) == 3 and x.a[2].op == 'tuple' and contains(x.a[2], mk('fld', y, None, 1)) for t2 in u.traces if t2.kind == 'back' for x in [t2.info['phi'].get(p)] if x is not None for y in subterms(x) if y.op == 'elem')]
    if len(bs) != 1: r.note(f'{n}: the loop over the wildcards is not followed'); return
    b = bs[0]; v = tr.info['phi'].get(b, b); r.ob('wildcard weighed'); r.site(f'{n}: weighs a wildcard')
    new = v.op == 'agg' and len(v.a) == 3 and contains(v.a[2], e)
    if not new and v is not b: r.bad(f'{n} match lost', f'{n} loses a match while it goes through the wildcards {on(ctx, tr)}') if v.op == 'agg' and len(v.a) == 2 else r.note(f'{n}: the loop over the wildcards is not followed'); 
    if not new and v is not b: return
    for w, p, _, _ in ws:
        seg = segment(w, p); seg = rest(w, p) if seg is None else seg
        for key in KEYS29 + tri.own()[:8]:
            i = p + len(key)
            for old in [None, -1, -p - 1, p - 1, i - 1, i + 1]:
                if old is not None and (old >= i and not seg.startswith(key)): continue
                env = tri.env(w, p); env[e0] = key
                env[b] = strs.NONE if old is None else strs.SOME((strs.UNK, old))
                ev, sure = wrong32(tr, ctx, env)
                if ev is None: continue
                if not keysure(ctx, tr, env, e0) or not keysure(ctx, tr, env, b): r.note(f'{n}: how wildcards are weighed is not followed'); return
                fits = seg.startswith(key); better = old is None or old < i
                if new and not fits: r.bad(f'{n} wildcard', f'{n} takes the wildcard {key + "*"!r} for the segment {seg!r}'); return
                if new and not better: r.bad(f'{n} shorter wins', f'{n} replaces a match at {old} by the shorter wildcard {key + "*"!r} at {i} {on(ctx, tr)}'); return
                if not new and fits and better: r.bad(f'{n} wildcard passed over', f'{n} passes over the wildcard {key + "*"!r} for the segment {seg!r} although it is longer than the match so far ({"none" if old is None else old}) {on(ctx, tr)}'); return

def walk29(ctx, r, u, ix):
    n = u.name; tri = Trie(ctx, u)
    if not tri.ok or len(u.params) < 3: r.note(f'{n}: how keys are stored is not followed'); return
    tri.find_lists(); tgt = u.params[2]; W = WORD29 + ['a/', 'ab/cd/', 'é/', '', '/', '**', 'a*b', 'a/*', 'é*', 'é/ü*', 'a*b*', '*a*', 'a**', 'a*/b', 'a*/b*', 'a.*', './*', 'ab*/'] + tri.own() + [w + '*' for w in tri.own()[:8]]
    k = u.params.index(tri.root) + 1
    for tr in u.traces:
        if tr.kind == 'panic': continue
        node, pos = tri.at(tr)
        main = tr.kind == 'back' and mk('loophead', tr.info['ctx'], tr.info['head'] if isinstance(tr.info['head'], int) else 'hof') is tri.head
        if tr.kind == 'back' and not main: continue
        evs = loop_events(tr) if main else tr.events()
        news = {}       # maps made on this path -> field they are put into
        for ev in evs:
            if ev[0] == 'store' and isinstance(ev[3], T) and ev[2]:
                for what in ('children', 'wildcards', 'files', 'folder'):
                    if any(isinstance(q, tuple) and q[1] == ix[what] and q[0] is None for q in ev[2][:1]):
                        for y in subterms(ev[3]): news.setdefault(y, (what, ev[1]))
        stored = []; kids = []
        for ev in evs:
            if ev[0] == 'store' and isinstance(ev[3], T) and ev[2] and len(ev[2]) <= 2 and isinstance(ev[2][0], tuple) and ev[2][0][1] == ix['folder'] and contains(ev[3], tgt): stored.append(('folder', None, ev[1], ev[3]))
            if ev[0] in ('map.insert', 'map.entry'):
                m = ev[1]; where = None
                for what in ('children', 'wildcards', 'files'):
                    if under(m, node, ix[what]): where = what
                    elif node is not tri.root and under(m, tri.root, ix[what]): where = 'root ' + what
                if where is None:
                    ins = mk('app', 'map.insert', m, *ev[2][:2]) if ev[0] == 'map.insert' else None
                    where = next((news[y][0] for y in news if y.op == 'app' and y.a[0] == 'map.insert' and y.a[1] is m and len(y.a) > 2 and y.a[2] is ev[2][0]), None)
                if where is None: stored.append((None, ev[2][0], None, None)) if any(isinstance(x, T) and contains(x, tgt) for x in ev[2]) else None; continue
                if where.endswith('children'): kids.append((where, ev))
                elif any(isinstance(x, T) and contains(x, tgt) for x in ev[2]): stored.append((where, ev[2][0], None, ev[2][1]))
        r.ob('key stored' if not main else 'child made'); r.site(f'{n}: {"goes down" if main else "stores"}')
        for w, p, ev, sure in tri.words(tr, True, W):
            if not tri.inside(tr) and w != '' and not tri.flat and '/' in w and not sure: continue
            seg = segment(w, p) if p < len(w) else None
            if main:
                if seg is None:
                    if sure: r.bad(f'{n} too deep', f'{n} goes down with the last part of the key {w!r}')
                    break
                q = ev.ev(tr.info['phi'].get(tri.pos, tri.pos))
                if not isinstance(q, int): r.note(f'{n}: where it goes on is not followed'); break
                if q != p + len(seg) + 1:
                    if sure: r.bad(f'{n} next segment', f'{n} goes on at {q} behind the segment {seg!r} at {p} of the key {w!r}')
                    break
                ks = [x[1][2][0] for x in kids] + list(lookups(tr, node, ix['children']))
                if not ks: r.note(f'{n}: which child is made is not followed'); break
                if any(x[0].startswith('root') for x in kids) and sure: r.bad(f'{n} node', f'{n} puts a child into the root although it has gone down to another node'); break
                vs = [ev.ev(x) for x in ks]
                if any(not isinstance(x, str) for x in vs): r.note(f'{n}: which child is made is not followed'); break
                if any(x != seg for x in vs) and sure: r.bad(f'{n} segment', f'{n} goes down to the child {next(x for x in vs if x != seg)!r} for the segment {seg!r} of the key {w!r}'); break
                continue
            if any(x[0] is None for x in stored): r.note(f'{n}: where a key is stored is not followed'); break
            if seg is not None:
                if stored and sure: r.bad(f'{n} too early', f'{n} stores the key {w!r} before its last segment {on(ctx, tr)}'); break
                continue
            want = ('folder', None) if p >= len(w) else ('wildcards', rest(w, p)[:-1]) if w.endswith('*') else ('files', rest(w, p))
            got = {(a, ev.ev(b) if b is not None else None) for a, b, c, d in stored}
            if any(b is strs.UNK for a, b in got): r.note(f'{n}: under which key is stored is not followed'); break
            if not sure: continue
            if not got:
                if any(e[0] in ('call', 'push') and any(isinstance(y, T) and contains(y, tgt) for x in e[1:] for y in (x if isinstance(x, (list, tuple)) else [x]) if isinstance(y, T)) for e in tr.events()): r.note(f'{n}: where a key is stored is not followed'); break
                r.bad(f'{n} lost', f'{n} does not store the key {w!r} {on(ctx, tr)}'); break
            if got != {want}:
                g = sorted(got, key=str)[0]
                r.bad(f'{n} {want[0]}', f'{n} stores the key {w!r} under {g[0]} {g[1]!r}, not under {want[0]} {want[1]!r}'); break
        # what was stored before stays
        for where, ev in kids:
            if ev[0] == 'map.insert' and len(ev[2]) == 2 and under(ev[1], node, ix['children']):
                if tr.facts.get(app('map.contains', ev[1], ev[2][0])) is False or lookups(tr, node, ix['children']).get(ev[2][0]) is False: continue
                r.bad(f'{n} child replaced', f'{n} replaces a child that may be there already {on(ctx, tr)}')
        for ev in evs:
            if ev[0] == 'store' and isinstance(ev[3], T) and ev[2] and isinstance(ev[2][0], tuple) and len(ev[2]) == 1 and ev[2][0][0] is None:
                for what in ('children', 'wildcards'):
                    if ev[2][0][1] != ix[what] or ev[1] != ('H', node): continue
                    f = fld(node, None, ix[what]); r.ob('kept')
                    if contains(ev[3], f) or tr.vars.get(f) == frozenset([0]) or mentions_test(tr, f): continue
                    r.bad(f'{n} {what} replaced', f'{n} replaces the {what} of a node that may have some {on(ctx, tr)}')
def mentions_test(tr, f): return any(contains(t, f) and t.op == 'app' and t.a[0] == 'discr' for t in tr.facts) or (f in tr.vars and 1 not in tr.vars[f])

def next29(ctx, r, u):
    """where the next character of this kind is, for every place"""
    n = u.name
    if len(u.params) != 2: r.note(f'{n}: other parameters: not followed'); return
    lst, ch = u.params; backs = [t for t in u.traces if t.kind == 'back' and isinstance(t.info['head'], int)]
    heads = {(t.info['head'], t.info['ctx']) for t in backs}
    if len(heads) != 1: r.note(f'{n}: the list of next places is not followed'); return
    rng = None; last = None; ok = True
    for t in backs:
        el = [e for e in loop_events(t) if e[0] == 'elem' and e[1] is not lst and e[2].op == 'elem']
        if len(el) != 1: r.note(f'{n}: the list of next places is not followed'); return
        i = el[0][2]; base = el[0][1]
        st = [e for e in loop_events(t) if e[0] == 'store' and e[1][0] == 'H']
        if len(st) != 1 or st[0][1][1].op != 'app' or st[0][1][1].a[0] not in ('slot', 'at') : r.note(f'{n}: the list of next places is not followed'); return
        slot = st[0][1][1]; val = st[0][3]
        rev = base.op == 'app' and base.a[0] == 'rev'; rg = base.a[1] if rev else base
        if not (rg.op == 'app' and rg.a[0] == 'range'): r.note(f'{n}: the list of next places is not followed'); return
        r.ob('next place'); r.site(f'{n}: fills in a place')
        if not rev: r.bad(f'{n} direction', f'{n} goes through the places forwards, so that it finds the last place before and not the next one'); return
        if rg.a[1] is not I(0): r.bad(f'{n} range', f'{n} leaves out the first places: {short(rg)}'); return
        for w in WORD29 + ['', '/']:
            hi = strs.Ev(ctx, {lst: list(w), ch: '/'}).ev(rg.a[2])
            if not isinstance(hi, int): r.note(f'{n}: the list of next places is not followed'); return
            if hi != len(w): r.bad(f'{n} range', f'{n} goes through {hi} places of a text with {len(w)}'); return
        e = mk('elem', lst, i.a[1]); eq = next(((f, v) for f, v in t.facts.items() if f.op == 'app' and f.a[0] == 'eq' and contains(f, e) and contains(f, ch)), None)
        if eq is None: r.note(f'{n}: the list of next places is not followed'); return
        ps = [p for p, v in loop_events(t)[0][2] if v.op == 'agg' and len(v.a) == 2]
        if len(ps) != 1: r.note(f'{n}: the list of next places is not followed'); return
        p = ps[0]; nxt = t.info['phi'].get(p, p); here = agg(val.a[0], 1, (i,)) if val.op == 'agg' else None
        want_here = eq[1]
        for what, x in (('place', val), ('next', nxt)):
            if want_here and not (x.op == 'agg' and len(x.a) == 3 and x.a[2] is i): r.bad(f'{n} {what}', f'{n} takes {short(x)} for a place where the character is') if x is p or x.op == 'agg' else r.note(f'{n}: the list of next places is not followed'); 
            if not want_here and x is not p: r.bad(f'{n} {what}', f'{n} takes {short(x)} for a place where the character is not') if x.op == 'agg' else r.note(f'{n}: the list of next places is not followed')
        if len(slot.a) > 2 and slot.a[2] is not i: r.bad(f'{n} slot', f'{n} fills in {short(slot.a[2])} instead of the place it looks at')

KEY29 = {'.': ['./a', './a/b', './', './a/', './*', './a*', './é/ü', './.a', './a/./b', './a#b', '././a', './a?x'], '#': ['#a', '#a/b', '#a/', '#a*', '#é/ü', '##a', '#a#b', '#./a', '#.']}
def keys29(ctx, r, n, u, ix):
    """what is stored of a key: everything behind its beginning"""
    ctx.unit(n, r); done = set()
    for tr in u.traces:
        if tr.kind == 'panic': continue
        for ev in tr.events():
            if ev[0] != 'call' or not ev[1].endswith('::walk') or len(ev[2]) < 3: continue
            x = ev[2][1]; es = {y for y in subterms(x) if y.op == 'elem'}
            keys = [mk('fld', e, None, 0) for e in es] 
            keys = [k for k in keys if contains(x, k)]
            if len(keys) != 1: r.note(f'{n}: what is stored of a key is not followed'); continue
            k = keys[0]; r.ob('key cut'); r.site(f'{n}: stores a key'); stop = False
            v = ev[2][2]
            if not any(contains(v, mk('fld', e, None, 1)) for e in es): r.bad(f'{n} value', f'{n} stores something else than the value of a key: {short(v)}')
            for pre in ('.', '#'):
                for t in KEY29[pre] + [w for w in own_words(ctx, u, pre=('./' if pre == '.' else '#',)) if not w.startswith('#/')]:
                    if stop: break
                    e2, sure = wrong32(tr, ctx, {k: t})
                    if e2 is None: continue
                    cs = e2.ev(x)
                    if isinstance(cs, str): cs = list(cs)
                    if not isinstance(cs, list): r.note(f'{n}: what is stored of a key is not followed'); stop = True; break
                    if not keysure(ctx, tr, {k: t}, k): continue
                    want = t[2:] if pre == '.' else t[1:]
                    if ''.join(cs) != want: r.bad(f'{n} key', f'{n} stores {"".join(cs)!r} of the key {t!r}, not {want!r}'); stop = True
        # a field without keys, and the key of the package itself: the file under the empty rest
        if tr.kind == 'back' and isinstance(tr.info['head'], int):
            es = [ev[2] for ev in loop_events(tr) if ev[0] == 'elem' and ev[2].op == 'elem']
            for e in es:
                k = mk('fld', e, None, 0); v = mk('fld', e, None, 1)
                e2, sure = wrong32(tr, ctx, {k: '.'})
                if e2 is None or not keysure(ctx, tr, {k: '.'}, k): continue
                r.ob('key of the package'); r.site(f'{n}: the key .')
                put = [ev for ev in loop_events(tr) if ev[0] in ('map.insert', 'map.entry') and len(ev[2]) > 1]
                good = [ev for ev in put if isinstance(ev[2][1], T) and contains(ev[2][1], v) and e2.ev(ev[2][0]) == '' and any(is_files(y, ix) for y in [ev[1]])]
                if good: continue
                if any(ev[0] == 'call' and any(isinstance(x, T) and contains(x, v) for x in ev[2]) and not ev[1].endswith('::walk') for ev in loop_events(tr)) or any(isinstance(x, T) and not isinstance(e2.ev(x), str) for ev in put for x in ev[2][:1]): r.note(f'{n}: what is stored of the key . is not followed'); continue
                if any(ev[0] == 'call' and ev[1].endswith('::walk') and isinstance(e2.ev(ev[2][1]), (list, str)) and not e2.ev(ev[2][1]) for ev in loop_events(tr)): r.bad(f'{n} package', f'{n} stores the key "." as a folder'); continue
                r.bad(f'{n} package', f'{n} does not store the key "." as the file under the empty rest {on(ctx, tr)}')
        if tr.kind == 'return' and tr.ret is not None and tr.ret.op == 'agg' and len(tr.ret.a) == 3 and tr.ret.a[1] == 0 and tr.ret.a[2].op == 'agg':
            root = tr.ret.a[2]
            if len(root.a) - 2 != len(ix): continue
            files = root.a[2 + ix['files']]; ks = []
            while files.op == 'app' and files.a[0] == 'map.insert' and len(files.a) > 3: ks.append((files.a[2], files.a[3])); files = files.a[1]
            if not (files.op == 'app' and files.a[0] == 'map.new'): r.note(f'{n}: what a field without keys is stored as is not followed'); continue
            plain = any(ctx_ty(ctx, t) == 'MappingValue' and vs <= frozenset([0, 2]) for t, vs in tr.vars.items())
            if any(ev[0] == 'call' and ev[1].endswith('::walk') for ev in tr.events()) or not ks and not plain: continue
            r.ob('field without keys'); r.site(f'{n}: a field without keys')
            keys = [strs.Ev(ctx, {}).ev(a) for a, b in ks]
            if any(not isinstance(k, str) for k in keys): r.note(f'{n}: what a field without keys is stored as is not followed'); continue
            if keys != ['']: r.bad(f'{n} whole', f'{n} does not store a field without keys as the file under the empty rest {on(ctx, tr)}')
def is_files(t, ix):
    """the files of a node, whichever"""
    k = 0
    while t.op == 'fld' and k < 4:
        if t.a[2] == ix['files'] and t.a[1] in (None, 0): return True
        t = t.a[0]; k += 1
    return False
ASK29 = ['.', './a', './a/b', './é/ü', './ab/./c', './.a', './a.b', '././a', '#a', '#a/b', '#é/ü', '##a', '#a#b', '#.a', '#a/./b']
def ask29(ctx, u): return ASK29 + [w for w in own_words(ctx, u, pre=('./', '#'), nums=True) if not w.startswith('#/') and not w.endswith('/')]
def asked29(ctx, r, n, u):
    """what is looked up is the request behind its beginning, and a request without a match is mapped to nothing"""
    ctx.unit(n, r)
    if len(u.params) < 2: r.note(f'{n}: what is looked up is not followed'); return
    q = u.params[1]; seen = set()
    for tr in u.traces:
        if tr.kind == 'panic': continue
        for ev in tr.events():
            if ev[0] != 'call' or not ev[1].endswith('::find_match') or len(ev[2]) < 2: continue
            x = ev[2][1]; key = (x, tuple(sorted((id(f), v) for f, v in tr.facts.items() if contains(f, q))))
            if key in seen: continue
            seen.add(key); r.ob('request cut'); r.site(f'{n}: looks up a request')
            before = [t for t in list(tr.facts) + list(tr.vars) if contains(t, q) and not (isinstance(ev[3], T) and contains(t, ev[3]))]
            for w in ask29(ctx, u):
                e2, sure = wrong32(tr, ctx, {q: w})
                if e2 is None: continue
                v = e2.ev(x)
                if isinstance(v, str): v = list(v)
                if not isinstance(v, list) or any(not isinstance(c, str) for c in v): r.note(f'{n}: what is looked up is not followed'); break
                if any(e2.ev(t) is strs.UNK for t in before): continue
                want = w[1:] if w[0] == '#' else w[2:]
                if ''.join(v) != want: r.bad(f'{n} request', f'{n} looks up {"".join(v)!r} for the request {w!r}, not {want!r}'); break
        if tr.kind != 'return' or tr.ret is None: continue
        calls = [ev for ev in tr.events() if ev[0] == 'call' and ev[1].endswith('::find_match')]
        none = [ev for ev in calls if tr.vars.get(ev[3]) == frozenset([0])]
        err = tr.ret.op == 'agg' and len(tr.ret.a) == 3 and tr.ret.a[1] == 1
        if none and not any(isinstance(ev[3], T) and contains(tr.ret, ev[3]) for ev in none):
            r.ob('no match'); r.site(f'{n}: no match')
            if tr.ret.op == 'agg' and len(tr.ret.a) == 3 and tr.ret.a[1] == 0:
                v = strs.Ev(ctx, {}).ev(tr.ret.a[2])
                if isinstance(v, list) and v: r.bad(f'{n} no match', f'{n} maps a request without a match to {v!r}')
                elif not isinstance(v, list) and tr.ret.a[2].op not in ('list', 'nil', 'app', 'vec'): r.note(f'{n}: what a request without a match is mapped to is not followed')
            elif err: r.bad(f'{n} no match', f'{n} ends with an error for a request without a match')
        if err and not calls:
            for w in ask29(ctx, u):
                if (w[0] == '#') != n.startswith('IndexMap'): continue
                e2, sure = wrong32(tr, ctx, {q: w})
                if e2 is None or not sure or not any(contains(f, q) for f in list(tr.facts) + list(tr.vars)): continue
                r.bad(f'{n} refused', f'{n} refuses the request {w!r} {on(ctx, tr)}'); break
