"""Fixpoint over the units of the crate: every unit is analysed with the summaries of its callees."""
from engine import *

UNITS = """Resolver::resolve Resolver::_resolve Resolver::_resolve_with_tsconfig Resolver::resolve_as_file Resolver::resolve_as_dir Resolver::resolve_as_modules
*::apply Resolver::load_pkg_file Resolver::parse_description_file Resolver::find_up *::field_process *::mapping *::from_json *::target_mapping
MappingValue::check_target IndexMap::check_target *::build_field_path_tree conditional_mapping PathTreeNode::find_match PathTreeNode::walk PathTreeNode::get_next_list
CacheFile::need_update CacheFile::read_to_string Request::parse_identifier Resolver::parse Resolver::get_target_kind parse_file_to_value merge TsConfig::parse_file
Resolver::load_side_effects Resolver::normalize_path_without_link Resolver::new Resolver::get_absolute_mapping_entries
Resolver::match_star ExportsFieldPlugin::is_resolve_self ExportsFieldPlugin::is_in_module""".split()
BAD = ('phi', 'elem', 'ctx', 'idx', 'it', 'itmap', 'itfilter', 'itenum', 'itpass', 'itfmap', 'mref', 'clo', 'src', 'entry', 'root')

def refs(e, inst):
    """instances a body mentions"""
    out = set()
    def consts(x):
        if isinstance(x, dict):
            if 'ty' in x and isinstance(x['ty'], int):
                t = e.types[x['ty']]
                if t.get('k') in ('fndef', 'closure') and t.get('inst') is not None: out.add(t['inst'])
            for y in x.values(): consts(y)
        elif isinstance(x, list):
            for y in x: consts(y)
    for b in inst['body']['blocks']:
        consts(b['s']); t = b['t']
        if t['t'] == 'call':
            if t['f'].get('inst') is not None: out.add(t['f']['inst'])
            consts(t['a'])
    return out

def updates(r):
    """fields of a value that was assigned to field by field"""
    seen = set()
    while r.op == 'upd':
        if r.a[2] not in seen: seen.add(r.a[2]); yield r.a[1], r.a[2], r.a[3]
        r = r.a[0]

class Analysis:
    def __init__(s, mir, units=UNITS, max_traces=60000, max_steps=8000000, log=None):
        s.e = Engine(mir, units, max_traces, max_steps)
        s.units = {}
        s.promote()
        todo = [i for i in s.e.insts if i['local'] and i['body'] and s.e.is_unit(i) and '{closure' not in i['def']]
        s.inst = {s.e.sname[i['id']]: i for i in todo}
        s.e.post = {n: {} for n in s.inst}
        order = list(s.inst); dirty = set(order); callers = {}
        s.rounds = 0
        while dirty and s.rounds < 400:
            # callees first
            n = next((x for x in order if x in dirty and not (s.callees(x) & (dirty - {x}))), None) or next(x for x in order if x in dirty)
            dirty.discard(n); s.rounds += 1
            u = s.e.run_unit(s.inst[n], n); s.units[n] = u
            for c in s.callees(n): callers.setdefault(c, set()).add(n)
            p = s.summary(u)
            if p != s.e.post[n]:
                s.e.post[n] = p
                dirty |= callers.get(n, set())
                if log: log(n, len(u.traces), sorted(p))
    def promote(s):
        """helpers that call themselves, directly or through each other, are analysed as units too"""
        e = s.e
        loc = {i['id']: i for i in e.insts if i['local'] and i['body']}
        def isu(i): return e.is_unit(i) and '{closure' not in i['def']
        memo = {}
        def out(i):
            r = memo.get(i)
            if r is None: r = memo[i] = [c for c in refs(e, loc[i]) if c in loc]
            return r
        for _ in range(20):
            cyc = None
            for i, inst in loc.items():
                if isu(inst) or '{closure' in inst['def']: continue
                seen = set(); st = [c for c in out(i)]
                while st:
                    c = st.pop()
                    if c == i: cyc = i; break
                    if c in seen or isu(loc[c]): continue
                    seen.add(c); st += out(c)
                if cyc is not None: break
            if cyc is None: return
            e.unit_names.add(e.sname[cyc])
    def callees(s, n):
        u = s.units.get(n)
        return u.callees if u else set()
    def closed(s, t, memo):
        r = memo.get(t)
        if r is None:
            if t.op in BAD or t.op == 'sym' and not t.a[0].startswith('$') and not t.a[0].startswith('static:'): r = False
            else: r = all(s.closed(y, memo) for y in t.a if isinstance(y, T))
            memo[t] = r
        return r
    def cases(s, st, r, depth=0):
        e = s.e
        n = ty_of(r)
        if n is None or e.types[n].get('k') != 'adt' or e.types[n]['kind'] != 'enum' or depth > 2: return
        vs = e.variants(st, r, n)
        if vs is None: return
        for w in sorted(vs):
            st2 = st
            if r.op != 'agg' and st.vars.get(r) != frozenset([w]):
                st2 = st.copy(); e.setvars(st2, r, frozenset([w]))
            yield (w,), st2
            fs = e.types[n]['variants'][w]['fields']
            if fs:
                sub = fld(r, w, 0, len(fs))
                fn = e.peel(fs[0][1])
                if e.types[fn].get('k') == 'adt' and e.types[fn]['kind'] == 'enum' and e.types[fn]['name'].split('::')[-1] not in ('Value',):
                    set_ty(sub, fn)
                    for k, st3 in s.cases(st2, sub, depth + 1): yield (w,) + k, st3
    def var(s, r): return r.a[1] if s.e.is_enum(r.a[0]) else None
    def comps(s, r, p, out, d=0):
        if r in out or is_lit(r): return
        out[r] = p
        if d > 6: return
        if r.op == 'agg':
            for i, x in enumerate(r.a[2:]): s.comps(x, mk('fld', p, s.var(r), i), out, d + 1)
        else:
            for v, i, x in updates(r): s.comps(x, mk('fld', p, v, i), out, d + 1)
    def summary(s, u):
        """result variants (nested), and the facts that hold on every return with that variant"""
        e = s.e; res = {}
        params = {p: sym(f'$P{i}') for i, p in enumerate(u.params)}
        rets = [t for t in u.traces if t.kind == 'return']
        memo_p = {}; cm = {}
        cand = {}
        for tr in rets:
            st = State(); st.facts = dict(tr.facts); st.vars = dict(tr.vars)
            r = tr.ret
            cs = list(s.cases(st, r)) or [((), st)]
            for key, st2 in cs:
                comp = {}; s.comps(r, sym('$RET'), comp)
                # variants of nested opaque parts
                def repl(x):
                    y = comp.get(x)
                    return y if y is not None else params.get(x)
                memo = {}
                got = {}
                def add(f, v):
                    for m, fn in ((memo, repl), (memo_p, params.get)):
                        g = rewrite(f, fn, m)
                        if s.closed(g, cm): got[g] = v
                items = None
                if key in res: 
                    # only what can still survive matters
                    if not res[key]: continue
                for f, v in st2.facts.items(): add(f, v)
                for t, vs in st2.vars.items():
                    if len(vs) == 1: add(mk('isvar', t, next(iter(vs))), True)
                for x, p in comp.items():
                    if p.op == 'fld':
                        if x.op == 'agg' and s.e.is_enum(x.a[0]): got[mk('isvar', p, x.a[1])] = True
                # literal components
                s.lits(r, sym('$RET'), got)
                if key not in res: res[key] = got
                else: res[key] = {f: v for f, v in res[key].items() if got.get(f) == v}
        return {k: tuple(sorted(v.items(), key=lambda x: x[0].id)) for k, v in res.items()}
    def lits(s, r, p, got, d=0):
        if d > 6: return
        if r.op == 'agg':
            for i, x in enumerate(r.a[2:]):
                q = mk('fld', p, s.var(r), i)
                if is_lit(x): got[EQ(q, x)] = True
                else: s.lits(x, q, got, d + 1)
        else:
            for v, i, x in updates(r):
                q = mk('fld', p, v, i)
                if is_lit(x): got[EQ(q, x)] = True
                else: s.lits(x, q, got, d + 1)
