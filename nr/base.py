"""What the rules share: the analysed program, queries over its traces, and the result of a rule."""
import re, sys, os
from terms import *
from engine import State, Engine, sname, tybase, PANIC
from analysis import Analysis

class R:
    """outcome of one rule"""
    def __init__(s, rule):
        s.rule = rule; s.violations = []; s.functions = set(); s.paths = 0; s.obl = 0; s.by = {}; s.sites = set(); s.notes = []; s._seen = set()
    def bad(s, key, msg):
        if key in s._seen: return
        s._seen.add(key); s.violations.append((key, msg))
    def ob(s, kind, n=1): s.obl += n; s.by[kind] = s.by.get(kind, 0) + n
    def note(s, m):
        if m not in s.notes: s.notes.append(m)
    def fn(s, n): s.functions.add(n)
    def site(s, x): s.sites.add(x)

SUCCESS, RESOLVING, ERROR = 'Success', 'Resolving', 'Error'

class Ctx:
    def __init__(s, m, cfg='dev', scratch=None, repo='/repo', dump=None):
        s.m = m; s.cfg = cfg; s.scratch = scratch; s.repo = repo; s._A = None; s.dump = dump
        s.types = m['types']; s.insts = m['insts']
        s.local = [i for i in s.insts if i['local'] and i['body']]
    @property
    def A(s):
        if s._A is None:
            s._A = Analysis(s.m)
        return s._A
    @property
    def e(s): return s.A.e
    # ---- names
    def adt(s, name):
        """(type indices, field index by name) of a local struct"""
        for i, t in enumerate(s.types):
            if t.get('k') == 'adt' and t.get('crate') == s.m['crate'] and tybase(t['name']) == name: return i, t
        return None, None
    def fidx(s, ty, name, variant=0):
        _, t = s.adt(ty)
        if t is None: return None
        for i, f in enumerate(t['variants'][variant]['fields']):
            if f[0] == name: return i
    def F(s, x, ty, name):
        i = s.fidx(ty, name)
        return fld(x, None, i) if i is not None else mk('bad', name)
    def path(s, info): return s.F(info, 'ResolveInfo', 'path')
    def req(s, info): return s.F(info, 'ResolveInfo', 'request')
    def target(s, info): return s.F(s.req(info), 'Request', 'target')
    def query(s, info): return s.F(s.req(info), 'Request', 'query')
    def fragment(s, info): return s.F(s.req(info), 'Request', 'fragment')
    def kind(s, info): return s.F(s.req(info), 'Request', 'kind')
    def depth(s, info): return s.F(s.req(info), 'Request', 'depth')
    def opt(s, resolver, name): return s.F(s.F(resolver, 'Resolver', 'options'), 'ResolverOptions', name)
    def vidx(s, ty, name):
        _, t = s.adt(ty)
        for i, v in enumerate(t['variants']):
            if v['name'] == name: return i
    # ---- units
    def unit(s, name, r=None):
        u = s.A.units.get(name)
        if u is None:
            if r is not None: r.note(f'{name} is not there: not analysed')
            return None
        if r is not None:
            r.fn(name); r.paths += len(u.traces)
            if u.error: r.note(f'{name}: {u.error}; the paths found so far were checked')
        return u
    def param(s, u, ty):
        """the parameter of the (peeled) type"""
        b = u.inst['body']
        for i, p in enumerate(u.params):
            n = s.e.peel(b['locals'][i + 1][0]); t = s.types[n]
            if t.get('k') == 'adt' and tybase(t['name']) == ty or t.get('k') == 'str' and ty == 'str': return p
        return None
    def ret_ty(s, u):
        t = s.types[s.e.peel(u.inst['body']['locals'][0][0])]
        return tybase(t['name']) if t.get('k') == 'adt' else None
    def info(s, u): return s.param(u, 'ResolveInfo')
    def self_(s, u): return s.param(u, 'Resolver')
    def rets(s, u): return [t for t in u.traces if t.kind == 'return']
    def st(s, tr):
        st = State(); st.facts = tr.facts; st.vars = tr.vars; st.ev = tr.ev; return st
    def truth(s, tr, f):
        st = State(); st.facts = dict(tr.facts); st.vars = dict(tr.vars); st.ev = tr.ev
        return s.e.truth(st, f)
    def variants(s, tr, t, n=None):
        return s.e.variants(s.st(tr), t, n)
    def vname(s, tr, t):
        """name of the variant of an enum value on this path, None if several are possible"""
        vs = s.variants(tr, t)
        if vs is None or len(vs) != 1: return None
        n = ty_of(t)
        return s.types[n]['variants'][next(iter(vs))]['name'] if n is not None else None
    def may(s, tr, t, name):
        vs = s.variants(tr, t)
        if vs is None: return True
        n = ty_of(t)
        if n is None: return True
        return any(s.types[n]['variants'][v]['name'] == name for v in vs)
    def stats(s, v):
        """decompose a built ResolverStats: (variant, payload) or None when it is a callee's result"""
        if v.op == 'agg' and tybase(s.types[v.a[0]]['name']) == 'ResolverStats':
            return s.types[v.a[0]]['variants'][v.a[1]]['name'], v.a[2]
        return None
    def built(s, v, ty):
        """(variant name, fields) of a value built here"""
        if v.op == 'agg' and tybase(s.types[v.a[0]]['name']) == ty:
            return s.types[v.a[0]]['variants'][v.a[1]]['name'], v.a[2:]
        return None
    def calls(s, tr, pat=None):
        out = []
        for ev in tr.events():
            if ev[0] == 'call' and (pat is None or re.fullmatch(pat, ev[1])): out.append(ev)
        return out
    def result_units(s): return [n for n, u in s.A.units.items() if s.ret_ty(u) == 'ResolverStats']
    def site_of(s, ev): return f'{ev[4][0]}'
    # ---- whole program
    def callees(s, inst):
        """every function a body mentions: calls and function values"""
        out = []
        def consts(x):
            if isinstance(x, dict):
                if x.get('o') == 'const':
                    t = s.types[x['ty']]
                    if t.get('k') in ('fndef', 'closure') and t.get('inst') is not None: out.append((t['inst'], 'value'))
                    elif t.get('k') == 'fndef': out.append((t['s'], 'value'))
                if x.get('k') == 'closure' and x.get('r') == 'agg':
                    t = s.types[x['ty']]
                    if t.get('inst') is not None: out.append((t['inst'], 'value'))
                for y in x.values(): consts(y)
            elif isinstance(x, list):
                for y in x: consts(y)
        for b in inst['body']['blocks']:
            consts(b['s'])
            t = b['t']
            if t['t'] == 'call':
                f = t['f']
                if f.get('inst') is not None: out.append((f['inst'], 'call', t.get('sp')))
                elif 'decl' in f: out.append((f['decl'], 'call', t.get('sp')))
                consts(t['a'])
            elif t['t'] == 'drop': pass
        return out
    def users(s, inst, skip=('test_helper',)):
        return not any(k in inst['def'] for k in skip)

def isret(t, name=None):
    return t.op == 'app' and t.a[0] == 'ret' and (name is None or re.fullmatch(name, t.a[1]))
def rets_in(t, name=None): return [x for x in subterms(t) if isret(x, name)]
def hasret(t, name=None): return any(isret(x, name) for x in subterms(t))
def short(t, n=160):
    x = show(t, 5); return x if len(x) <= n else x[:n] + '…'

# ---------------------------------------------------------------- what a callee keeps of its request
class Keeps:
    """which fields of the request and directory come back unchanged when a unit answers `Resolving` (greatest fixpoint over the units),
    and by how much at least the replacement depth grows"""
    FIELDS = ('path', 'target', 'query', 'fragment', 'kind', 'depth')
    def __init__(s, ctx):
        s.c = ctx; s.units = [n for n in ctx.result_units() if ctx.info(ctx.A.units[n]) is not None]
        s.same = {n: set(s.FIELDS) for n in s.units}; s.inc = {n: 99 for n in s.units}
        ch = True
        while ch:
            ch = False
            for n in s.units:
                u = ctx.A.units[n]; P = ctx.info(u); keep = set(s.same[n]); inc = s.inc[n]
                for tr in ctx.rets(u):
                    for x in s.resolving(u, tr):
                        keep = {f for f in keep if s.origin(s.field(x, f)) is s.field(P, f)}
                        d = s.delta(s.field(x, 'depth'), P)
                        inc = None if d is None or inc is None else min(inc, d)
                if keep != s.same[n] or inc != s.inc[n]: s.same[n] = keep; s.inc[n] = inc; ch = True
    def field(s, x, f): return s.c.path(x) if f == 'path' else s.c.F(s.c.req(x), 'Request', f)
    def resolving(s, u, tr):
        """the infos a return can hand on"""
        c = s.c; v = tr.ret; b = c.stats(v)
        if b is not None: return [b[1]] if b[0] == RESOLVING else []
        if c.may(tr, v, RESOLVING): return [fld(v, c.vidx('ResolverStats', RESOLVING), 0)]
        return []
    def callee_info(s, x):
        """x = ret(V, ..)@Resolving.0  ->  (V, the info V was called with)"""
        if x.op == 'fld' and x.a[2] == 0 and isret(x.a[0]) and x.a[1] == s.c.vidx('ResolverStats', RESOLVING):
            V = x.a[0].a[1]
            if V in s.same:
                b = s.c.A.units[V].inst['body']
                for i, a in enumerate(x.a[0].a[2:]):
                    n = s.c.e.peel(b['locals'][i + 1][0]); t = s.c.types[n]
                    if t.get('k') == 'adt' and tybase(t['name']) == 'ResolveInfo': return V, a
        return None
    def origin(s, t, d=0):
        """follow a field of an info through the callees that keep it"""
        if d > 30: return t
        for f in s.FIELDS:
            i = s.c.fidx('ResolveInfo', 'path') if f == 'path' else s.c.fidx('Request', f)
            if t.op != 'fld' or t.a[2] != i: continue
            x = t.a[0] if f == 'path' else (t.a[0].a[0] if t.a[0].op == 'fld' and t.a[0].a[2] == s.c.fidx('ResolveInfo', 'request') else None)
            if x is None: continue
            ci = s.callee_info(x)
            if ci and f in s.same[ci[0]] and s.field(x, f) is t: return s.origin(s.field(ci[1], f), d + 1)
        return t
    def delta(s, t, P, d=0):
        """at least how much larger than the depth of P, None if unrelated"""
        if d > 30: return None
        if t is s.c.depth(P): return 0
        if t.op == 'app' and t.a[0] == 'add' and t.a[2].op == 'int' and t.a[2].a[0] >= 0:
            k = s.delta(t.a[1], P, d + 1); return None if k is None else k + t.a[2].a[0]
        i = s.c.fidx('Request', 'depth')
        if t.op == 'fld' and t.a[2] == i and t.a[0].op == 'fld':
            ci = s.callee_info(t.a[0].a[0])
            if ci and s.inc[ci[0]] is not None:
                k = s.delta(s.field(ci[1], 'depth'), P, d + 1); return None if k is None else k + s.inc[ci[0]]
        return None

def keeps(ctx):
    if not hasattr(ctx, '_keeps'): ctx._keeps = Keeps(ctx)
    return ctx._keeps

# ---- words made of what the code itself compares with
KNOWN_LITS = {'', '.', '..', './', '../', '/', '#', '#/', '@', '*', '?', 'node_modules', 'T0', 'default'}
def literals(ctx, u):
    """(texts, numbers) that a unit tests for or builds its answers with, without those that the words cover anyway"""
    memo = ctx.__dict__.setdefault('_lits', {})
    if u.name in memo: return memo[u.name]
    ss, ns, seen = set(), set(), set()
    for tr in u.traces:
        ts = list(tr.facts) + list(tr.vars) + [tr.ret]
        for ev in tr.events():
            if ev[0] == 'call' and ctx.A.units.get(ev[1]) is None and not isinstance(ev[1], str): continue
            for x in ev[1:]: ts += [x] if isinstance(x, T) else [y for y in x if isinstance(y, T)] if isinstance(x, (list, tuple)) else []
        for t in ts:
            if not isinstance(t, T): continue
            st = [t]
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                if x.op == 'str':
                    w = x.a[0]
                    if w not in KNOWN_LITS and len(w) <= 24 and ' ' not in w: ss.add(w)
                elif x.op == 'int' and isinstance(x.a[0], int) and 4 < x.a[0] <= 4096: ns.add(x.a[0])
                else: st += [y for y in x.a if isinstance(y, T)]
    out = (sorted(ss, key=lambda w: (len(w), w))[:6], sorted(ns)[:4])
    memo[u.name] = out; return out
def own_words(ctx, *us, pre=('',), nums=False):
    out = []
    for u in us:
        ss, ns = literals(ctx, u)
        for w in ss:
            for p in pre: out += [p + w, p + 'a' + w, p + w + 'a', p + 'a' + w + w, p + 'a' + w + 'b', p + 'a/' + w, p + w + '/a', p + w[:-1]]
        if nums:
            for k in ns:
                for p in pre: out += [p + 'b' * k, p + 'b' * (k + 1), p + 'b/' * k]
    return list(dict.fromkeys(w for w in out if w))
