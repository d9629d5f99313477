"""Values of terms over text for given texts: which guards of a path hold for a class of texts, and what the path answers.
A class is represented by a word; every predicate used here (beginnings, ends, equality, occurrence, splitting) is decided by the text alone.
Whatever is not understood has the value UNK, and a path with such a guard is only `possible`."""
from base import *

class _U:
    def __repr__(s): return '?'
UNK = _U()
NONE = ('V', 0)
def SOME(x): return ('V', 1, x)
def isv(x): return isinstance(x, tuple) and len(x) > 0 and x[0] == 'V'
def blen(s): return len(s.encode('utf-8', 'surrogatepass'))
def bsub(s, lo, hi):
    b = s.encode('utf-8', 'surrogatepass')
    if not 0 <= lo <= hi <= len(b): return UNK
    try: return b[lo:hi].decode('utf-8', 'surrogatepass')
    except UnicodeDecodeError: return UNK

class Ev:
    def __init__(s, ctx, env, depth=0): s.c = ctx; s.env = dict(env); s.memo = {}; s.depth = depth
    def ev(s, t):
        if t in s.env: return s.env[t]
        if t in s.memo: return s.memo[t]
        s.memo[t] = UNK
        try: r = s._ev(t)
        except RecursionError: r = UNK
        s.memo[t] = r
        return r
    def setenv(s, t, v): s.env[t] = v; s.memo.clear()
    def _ev(s, t):
        o = t.op
        if o == 'int': return t.a[0]
        if o == 'bool': return bool(t.a[0])
        if o == 'str': return t.a[0]
        if o in ('tuple', 'array'): return tuple(s.ev(x) for x in t.a) if o == 'tuple' else [s.ev(x) for x in t.a]
        if o == 'agg': return ('V', t.a[1]) + tuple(s.ev(x) for x in t.a[2:])
        if o == 'not':
            x = s.ev(t.a[0]); return UNK if not isinstance(x, bool) else not x
        if o == 'fld':
            x = s.ev(t.a[0])
            if isv(x):
                if x[1] != (t.a[1] or 0) or len(x) <= 2 + t.a[2]: return UNK
                return x[2 + t.a[2]]
            if isinstance(x, tuple) and t.a[2] < len(x): return x[t.a[2]]
            return UNK
        if o == 'discr':
            x = s.ev(t.a[0]); return x[1] if isv(x) else UNK
        if o == 'it': return s.ev(t.a[0])
        if o == 'charset': return UNK
        if o == 'sym' and t.a[0].startswith('static:'):
            d = s.c.m['statics'].get(t.a[0][7:])
            if d and d.get('strings') and not d.get('fns'): return list(d['strings'])
            return UNK
        if o == 'app': return s.app(t)
        return UNK
    def table(s, t):
        """the constant table that a lazily built matcher is made from"""
        if t.op == 'app' and t.a[0] == 'lazy': t = t.a[1]
        if t.op != 'sym' or not t.a[0].startswith('static:'): return None
        import json
        names = set()
        for i in s.c.insts:
            if i['local'] and i['body'] and i['def'].startswith(t.a[0][7:] + '::{closure'):
                names |= set(re.findall(r'"c": "static", "name": "([^"]*)"', json.dumps(i['body'])))
        tabs = [s.c.m['statics'][n]['strings'] for n in names if s.c.m['statics'].get(n, {}).get('strings')]
        if len(tabs) == 1: return tabs[0]
        return None
    def pat(s, p):
        """a predicate on positions: text -> list of (start, end) in characters"""
        if p.op == 'charset':
            cs = [s.ev(x) for x in p.a]
            if any(not isinstance(x, str) for x in cs): return None
            return lambda x: [(i, i + 1) for i, c in enumerate(x) if c in cs]
        if p.op == 'app' and p.a[0] == 'charpred':
            if p.a[1].op in ('clo', 'fn'): return None
            def f(x):
                out = []
                for i, c in enumerate(x):
                    e = Ev(s.c, {**s.env, sym('$c'): c}); v = e.ev(p.a[1])
                    if not isinstance(v, bool): return None
                    if v: out.append((i, i + 1))
                return out
            return f
        v = s.ev(p)
        if isinstance(v, list) and all(isinstance(x, str) and len(x) == 1 for x in v): return lambda x: [(i, i + 1) for i, c in enumerate(x) if c in v]
        if not isinstance(v, str): return None
        if v == '': return None
        def g(x):
            out = []; i = x.find(v)
            while i >= 0: out.append((i, i + len(v))); i = x.find(v, i + len(v))
            return out
        return g
    def pmatch(s, p, x):
        f = s.pat(p)
        if f is None:
            if s.ev(p) == '': return [(0, 0)] + [(i, i) for i in range(1, len(x) + 1)]
            return None
        return f(x)
    def ret(s, t):
        """what a function of the program answers for these values, when exactly one of its paths can be taken"""
        u = s.c.A.units.get(t.a[1]); args = t.a[2:]
        if u is None or s.depth > 3 or len(args) != len(u.params): return UNK
        env = {}
        for p, x in zip(u.params, args):
            v = s.ev(x)
            if v is not UNK: env[p] = v
        if not any(isinstance(v, str) or isv(v) for v in env.values()): return UNK
        out = UNK; n = 0
        for tr in u.traces:
            if tr.kind == 'panic': continue
            if any(e[0] in ('loop', 'fs', 'dm') for e in tr.events()): return UNK
            ok, e = run(s.c, tr, env, s.depth + 1)
            if ok is False: continue
            if ok is None or tr.kind != 'return': return UNK
            n += 1; out = e.ev(tr.ret)
        return out if n == 1 else UNK
    def collected(s, t):
        """the elements that the closures of a collected iterator let through, from the paths that lead to the list"""
        if len(t.a) < 3 or t.a[2].op != 'src': return UNK
        it = t.a[2].a[0]; q = it; vals = t.a[3:]; first = []; last_ = []; seen = False
        while q.op != 'it':
            if q.op == 'itpass' and q.a[0] in ('skip', 'take', 'rev', 'step_by'):
                if seen: first.append(q)
                else: last_.append(q)
                q = q.a[1]; continue
            if q.op not in ('itmap', 'itfilter', 'itfmap', 'itenum'): return UNK
            if first: return UNK
            if q.op != 'itenum': seen = True
            q = q.a[0]
        if not seen: first, last_ = last_, []
        def passes(ps, x):
            for p in reversed(ps):
                n = s.ev(p.a[2]) if len(p.a) > 2 else None
                if p.a[0] == 'rev': x = x[::-1]
                elif not isinstance(n, int) or isinstance(n, bool): return UNK
                elif n < 0: x = [] if p.a[0] == 'skip' else x if p.a[0] == 'take' else UNK
                elif p.a[0] == 'skip': x = x[n:]
                elif p.a[0] == 'take': x = x[:n]
                else: x = x[::n] if n else UNK
                if x is UNK: return UNK
            return x
        base = q.a[0]; B = s.ev(base); inner = t.a[1].a[0]
        if not isinstance(B, list): return UNK
        if any(p.a[0] != 'take' for p in first) and any(y.op == 'idx' for v in vals for y in subterms(v)): return UNK
        B = passes(first, B)
        if B is UNK: return UNK
        if not B: return '' if inner == 'String' else [] if inner in ('Vec', 'VecDeque', 'SmallVec') else UNK
        es = {y for v in vals for y in subterms(v) if y.op == 'elem' and y.a[0] is base}
        if not es:
            # places of known bytes
            es = {mk('elem', base, y.a[1]) for v in vals for y in subterms(v) if y.op == 'elem' and y.a[0].op == 'app' and y.a[0].a[0] == 'match_indices' or y.op == 'idx' and y.a[0].op == 'it' and y.a[0].a[0] is base}
        if len(es) != 1: return UNK
        e = es.pop(); idx = mk('idx', mk('it', base), e.a[1])
        if base.op == 'app' and base.a[0] == 'bytes':
            for v in vals:
                for y in subterms(v):
                    if y.op == 'elem' and y.a[0].op == 'app' and y.a[0].a[0] == 'match_indices' and y.a[1] == e.a[1]: places = mk('fld', y, None, 0); break
                else: continue
                break
            else: places = None
        else: places = None
        if not isinstance(e.a[1], tuple) or not e.a[1] or e.a[1][0] not in s.c.A.units: return UNK
        memo = s.c.__dict__.setdefault('_collect', {}); k = (base, vals)
        if k not in memo:
            memo[k] = []
            for tr in s.c.A.units[e.a[1][0]].traces:
                if tr.kind != 'back' or tr.info['head'] != 'collect': continue
                last = next((x for x in reversed(tr.events()) if x[0] == 'elem'), None)
                if last and last[1] is base and (last[2] in vals or places is not None and last[2] is idx): memo[k].append(([(f, v) for f, v in tr.facts.items() if contains(f, e)], [(x, v) for x, v in tr.vars.items() if contains(x, e)], last[2]))
        out = []
        for k_, b in enumerate(B):
            ev = Ev(s.c, {**s.env, e: b, idx: k_, **({places: k_} if places is not None else {})}, s.depth); hit = None; unk = False
            for fs, vs, v in memo[k]:
                xs = [(ev.ev(f), bool(w)) for f, w in fs]
                ys = [(ev.ev(x), w) for x, w in vs]
                if any(isinstance(x, bool) and x != w for x, w in xs) or any(isv(x) and x[1] not in w for x, w in ys): continue
                if any(not isinstance(x, bool) for x, w in xs) or any(not isv(x) for x, w in ys): unk = True; continue
                hit = ev.ev(v); break
            if unk: return UNK
            if hit is not None: out.append(hit)
        out = passes(last_, out)
        if out is UNK: return UNK
        if inner == 'String': return ''.join(out) if all(isinstance(x, str) for x in out) else UNK
        return out if inner in ('Vec', 'VecDeque', 'SmallVec') else UNK
    def app(s, t):
        f = t.a[0]; A = t.a[1:]
        if f == 'ret': return s.ret(t)
        if f == 'concat':
            xs = [s.ev(x) for x in A]
            return ''.join(xs) if all(isinstance(x, str) for x in xs) else UNK
        if f == 'display' and len(A) == 1: return s.ev(A[0]) if isinstance(s.ev(A[0]), str) else UNK
        if f in ('path_starts_with', 'path_ends_with', 'path_strip_prefix') and len(A) == 2:
            x, y = s.ev(A[0]), s.ev(A[1])
            if not isinstance(x, str) or not isinstance(y, str) or '//' in x + y or '/.' in x + y or not y or y[0] == '.' or x[:1] != '/': return UNK
            a, b = x.strip('/').split('/'), y.strip('/').split('/')
            if f == 'path_ends_with': return a[-len(b):] == b and (y[0] != '/' or x.rstrip('/') == y.rstrip('/'))
            hit = y[0] == '/' and a[:len(b)] == b
            return hit if f == 'path_starts_with' else SOME('/'.join(a[len(b):])) if hit else NONE
        if f in ('parent', 'file_name') and len(A) == 1:
            x = s.ev(A[0])
            if not isinstance(x, str) or x[:1] != '/' or '/.' in x or len(x.strip('/')) == 0: return UNK
            h, l = x.rstrip('/').rsplit('/', 1)
            return SOME(l if f == 'file_name' else h or '/')
        if f == 'join' and len(A) == 2:
            x, y = s.ev(A[0]), s.ev(A[1])
            if not isinstance(x, str) or not isinstance(y, str): return UNK
            return y if y.startswith('/') else x.rstrip('/') + '/' + y if x else y
        if f in ('and', 'or', 'bin:BitAnd', 'bin:BitOr'):
            xs = [s.ev(x) for x in A]; isand = f in ('and', 'bin:BitAnd')
            if any(x is (not isand) for x in xs): return not isand
            return isand if all(isinstance(x, bool) for x in xs) else UNK
        if f in ('starts_with', 'ends_with', 'contains'):
            x = s.ev(A[0]); p = s.ev(A[1])
            if not isinstance(x, str): return UNK
            if isinstance(p, str): return x.startswith(p) if f == 'starts_with' else x.endswith(p) if f == 'ends_with' else p in x
            m = s.pmatch(A[1], x)
            if m is None: return UNK
            return any(a == 0 for a, b in m) if f == 'starts_with' else any(b == len(x) and b > a for a, b in m) if f == 'ends_with' else bool(m)
        if f in ('find', 'rfind', 'split_once', 'rsplit_once', 'strip_prefix', 'strip_suffix'):
            x = s.ev(A[0])
            if not isinstance(x, str): return UNK
            m = s.pmatch(A[1], x)
            if m is None: return UNK
            if f == 'strip_prefix': m = [y for y in m if y[0] == 0]
            if f == 'strip_suffix':
                p = s.ev(A[1])
                if isinstance(p, str): m = [(len(x) - len(p), len(x))] if x.endswith(p) else []
                else: m = [y for y in m if y[1] == len(x)]
            if f in ('rfind', 'rsplit_once') and m:
                p = s.ev(A[1])
                if isinstance(p, str): m = [(x.rfind(p), x.rfind(p) + len(p))]
            if not m: return NONE
            a, b = m[-1] if f.startswith('r') else m[0]
            if f in ('find', 'rfind'): return SOME(blen(x[:a]))
            if f == 'strip_prefix': return SOME(x[b:])
            if f == 'strip_suffix': return SOME(x[:a])
            return SOME((x[:a], x[b:]))
        if f in ('trim_start_matches', 'trim_end_matches', 'trim_matches', 'trim_left_matches', 'trim_right_matches'):
            x = s.ev(A[0]); p = s.ev(A[1])
            if not isinstance(x, str): return UNK
            left = f in ('trim_start_matches', 'trim_left_matches', 'trim_matches'); right = f in ('trim_end_matches', 'trim_right_matches', 'trim_matches')
            if isinstance(p, str):
                if not p: return UNK
                while left and x.startswith(p): x = x[len(p):]
                while right and x.endswith(p): x = x[:-len(p)]
                return x
            while True:
                m = s.pmatch(A[1], x)
                if m is None: return UNK
                a = next((b for a, b in m if a == 0 and b > a), None) if left else None
                if a: x = x[a:]; continue
                e = next((a for a, b in m if b == len(x) and b > a), None) if right else None
                if e is None: return x
                x = x[:e]
        if f == 'substr':
            x, lo, hi = (s.ev(y) for y in A[:3])
            if isinstance(x, str) and isinstance(lo, int) and isinstance(hi, int): return bsub(x, lo, hi)
            return UNK
        if f == 'str.get':
            x, r = s.ev(A[0]), A[1]
            if not isinstance(x, str) or r.op != 'agg': return UNK
            n = s.c.types[r.a[0]]['name'].split('::')[-1]; v = [s.ev(y) for y in r.a[2:]]
            if any(not isinstance(y, int) for y in v): return UNK
            lo, hi = {'Range': lambda: v[:2], 'RangeFrom': lambda: (v[0], blen(x)), 'RangeTo': lambda: (0, v[0])}.get(n, lambda: (None, None))()
            if lo is None: return UNK
            r = bsub(x, lo, hi); return NONE if r is UNK else SOME(r)
        if f in ('replace', 'replacen'):
            xs = [s.ev(y) for y in A]
            if not all(isinstance(y, (str, int)) for y in xs) or not isinstance(xs[0], str) or not xs[1]: return UNK
            return xs[0].replace(xs[1], xs[2], *(xs[3:4]))
        if f == 'split':
            x = s.ev(A[0]); k = A[1].a[0]
            if not isinstance(x, str) or k not in ('split', 'split_terminator', 'rsplit', 'matches', 'splitn', 'rsplitn', 'split_inclusive'): return UNK
            m = s.pmatch(A[2], x)
            if m is None: return UNK
            out = []; p = 0
            if k == 'matches': return [x[a:b] for a, b in m]
            if k in ('splitn', 'rsplitn'):
                n = s.ev(A[3]) if len(A) > 3 else UNK
                if not isinstance(n, int): return UNK
                if n == 0: return []
                m = m[:n - 1] if k == 'splitn' else m[len(m) - n + 1:] if n > 1 else []
            if k == 'split_inclusive':
                for a, b in m: out.append(x[p:b]); p = b
                return out + ([x[p:]] if p < len(x) else [])
            for a, b in m: out.append(x[p:a]); p = b
            out.append(x[p:])
            if k == 'rsplitn': out.reverse()
            if k == 'rsplit': out.reverse()
            if k == 'split_terminator' and out[-1] == '': out.pop()
            return out
        if f in ('match_indices',):
            x = s.ev(A[0])
            if not isinstance(x, str) or A[1].a[0] != 'match_indices': return UNK
            m = s.pmatch(A[2], x)
            return UNK if m is None else [(blen(x[:a]), x[a:b]) for a, b in m]
        if f in ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase'):
            x = s.ev(A[0])
            if not isinstance(x, str): return UNK
            if 'ascii' in f: return ''.join((c.lower() if 'lower' in f else c.upper()) if c.isascii() else c for c in x)
            return x.lower() if 'lower' in f else x.upper()
        if f in ('trim', 'trim_start', 'trim_end'):
            x = s.ev(A[0])
            if not isinstance(x, str): return UNK
            return x.strip() if f == 'trim' else x.lstrip() if f == 'trim_start' else x.rstrip()
        if f == 'chars':
            x = s.ev(A[0]); return list(x) if isinstance(x, str) else UNK
        if f == 'bytes':
            x = s.ev(A[0]); return list(x.encode('utf-8', 'surrogatepass')) if isinstance(x, str) else UNK
        if f == 'char_indices':
            x = s.ev(A[0])
            return [(blen(x[:i]), c) for i, c in enumerate(x)] if isinstance(x, str) else UNK
        if f == 'match_indices':
            x, p = s.ev(A[0]), s.ev(A[-1])
            if not isinstance(x, str) or not isinstance(p, str) or not p: return UNK
            out = []; i = x.find(p)
            while i >= 0: out.append((blen(x[:i]), p)); i = x.find(p, i + len(p))
            return out if A[1].a[0][0] == 'm' else out[::-1] if len(p) == 1 else UNK
        if f in ('last', 'first') and len(A) == 1:
            x = s.ev(A[0])
            if isinstance(x, str): x = list(x.encode())
            if isinstance(x, list): return SOME(x[-1 if f == 'last' else 0]) if x else NONE
            return UNK
        if f in ('get', 'nth'):
            x, i = s.ev(A[0]), s.ev(A[1])
            if isinstance(x, str): x = list(x.encode())
            if isinstance(x, list) and isinstance(i, int): return SOME(x[i]) if i < len(x) else NONE
            return UNK
        if f == 'at':
            x, i = s.ev(A[0]), s.ev(A[1])
            if isinstance(x, str): x = list(x.encode())
            if isinstance(x, list) and isinstance(i, int) and i < len(x): return x[i]
            return UNK
        if f == 'has':
            x, y = s.ev(A[0]), s.ev(A[1])
            if isinstance(x, list) and y is not UNK and not any(z is UNK for z in x): return y in x
            return UNK
        if f == 'collect':
            return s.collected(t)
        if f in ('it.nth', 'it.last') and A[0].op == 'it':
            x = s.ev(A[0])
            if isinstance(x, str) or not isinstance(x, list): return UNK
            i = s.ev(A[1]) if f == 'it.nth' else len(x) - 1
            if not isinstance(i, int): return UNK
            return SOME(x[i]) if 0 <= i < len(x) else NONE
        if f == 'charlen':
            x = s.ev(A[0]); return len(x) if isinstance(x, (str, list)) else UNK
        if f in ('len', 'charcount'):
            x = s.ev(A[0])
            if isinstance(x, str): return blen(x)
            return len(x) if isinstance(x, list) else UNK
        if f == 'count':
            x = s.ev(A[0]); return len(x) if isinstance(x, list) else UNK
        if f == 'eq':
            x, y = s.ev(A[0]), s.ev(A[1])
            if x is UNK or y is UNK: return UNK
            if isinstance(x, str) and isinstance(y, int) and not isinstance(y, bool): x, y = y, x
            if isinstance(x, int) and isinstance(y, str):       # a byte and a character
                return x == ord(y) if len(y) == 1 and ord(y) < 128 else UNK
            if deepunk(x) or deepunk(y): return UNK
            return x == y
        if f in ('lt', 'le', 'gt', 'ge'):
            x, y = s.ev(A[0]), s.ev(A[1])
            if isinstance(x, bool) or isinstance(y, bool) or type(x) is not type(y) or not isinstance(x, (int, str)): return UNK
            return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[f]
        if f in ('i32::abs', 'i64::abs', 'isize::abs', 'i32::unsigned_abs', 'isize::unsigned_abs', 'neg'):
            x = s.ev(A[0])
            if not isinstance(x, int) or isinstance(x, bool): return UNK
            return -x if f == 'neg' else abs(x)
        if f == 'string_of':
            x = s.ev(A[0]); return ''.join(x) if isinstance(x, list) and all(isinstance(y, str) for y in x) else UNK
        if f == 'sublist':
            x, lo, hi = (s.ev(y) for y in A[:3])
            return x[lo:hi] if isinstance(x, list) and isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi <= len(x) else UNK
        if f == 'charlist':
            x = s.ev(A[0]); return list(x) if isinstance(x, str) else UNK
        if f in ('add', 'sub', 'mul', 'max', 'min'):
            x, y = s.ev(A[0]), s.ev(A[1])
            if not isinstance(x, int) or not isinstance(y, int): return UNK
            return {'add': x + y, 'sub': x - y, 'mul': x * y, 'max': max(x, y), 'min': min(x, y)}[f]
        m = re.fullmatch(r'(?:u\d+|usize)::(saturating|wrapping|checked)_(add|sub)', f)
        if m:
            x, y = s.ev(A[0]), s.ev(A[1])
            if not isinstance(x, int) or not isinstance(y, int) or isinstance(x, bool) or isinstance(y, bool): return UNK
            z = x + y if m.group(2) == 'add' else x - y
            if z >= 0 and z < 2 ** 31: return SOME(z) if m.group(1) == 'checked' else z
            return UNK if z >= 2 ** 31 or m.group(1) == 'wrapping' else NONE if m.group(1) == 'checked' else 0
        m = re.fullmatch(r'(?:char::|u8::|methods::)*(is_ascii_alphabetic|is_alphabetic|is_ascii_digit|is_numeric|is_ascii_alphanumeric|is_alphanumeric|is_ascii|is_whitespace|is_ascii_lowercase|is_ascii_uppercase|is_lowercase|is_uppercase|is_ascii_punctuation)', f)
        if m:
            x = s.ev(A[0]); k = m.group(1)
            if isinstance(x, int) and not isinstance(x, bool) and x < 128: x = chr(x)
            if not isinstance(x, str) or len(x) != 1: return UNK
            if 'ascii' in k and not x.isascii(): return False
            return {'is_ascii_alphabetic': x.isalpha(), 'is_alphabetic': x.isalpha(), 'is_ascii_digit': x.isdigit(), 'is_numeric': x.isnumeric(), 'is_ascii_alphanumeric': x.isalnum(), 'is_alphanumeric': x.isalnum(), 'is_ascii': x.isascii(), 'is_whitespace': x.isspace(), 'is_ascii_lowercase': x.islower(), 'is_ascii_uppercase': x.isupper(), 'is_lowercase': x.islower(), 'is_uppercase': x.isupper(), 'is_ascii_punctuation': x.isprintable() and not x.isalnum() and x != ' '}[k]
        if f.endswith('leftmost_find_iter') and len(A) == 2:
            tab = s.table(A[0]); x = s.ev(A[1])
            if tab is None or not isinstance(x, str): return UNK
            out = []; i = 0
            while i < len(x):
                best = max((w for w in tab if w and x.startswith(w, i)), key=len, default=None)
                if best is None: i += 1; continue
                out.append(('match', blen(x[:i]), blen(x[:i + len(best)]), tab.index(best))); i += len(best)
            return out
        if f in ('Match::start', 'Match::end', 'Match::value'):
            x = s.ev(A[0])
            if isinstance(x, tuple) and x and x[0] == 'match': return x[1 + ('start', 'end', 'value').index(f[7:])]
            return UNK
        return UNK

def deepunk(x):
    if x is UNK: return True
    return isinstance(x, (list, tuple)) and any(deepunk(y) for y in x)

def run(ctx, tr, env, depth=0):
    """(can this path be taken: True / False / None, the evaluator) for these values"""
    e = Ev(ctx, env, depth); took = {}; loops = False; sure = True; part = set()
    evs = list(tr.events())
    for i, ev in enumerate(evs):
        if ev[0] == 'loop': loops = True
        if ev[0] not in ('elem', 'exhausted'): continue
        if ev[0] == 'exhausted' and i + 1 < len(evs) and evs[i + 1][0] == 'collect': continue
        q = ev[4] if len(ev) > 4 else None; step = ev[5:] == ('next',) or ev[0] == 'exhausted' and ev[3:4] == ('next',)
        while q is not None and q.op in ('itmap', 'itenum'): q = q.a[0]
        b = e.ev(ev[1])
        if not step or loops or not isinstance(b, list) or q is not None and q.op != 'it': sure = False; part.add(ev[1]); continue
        if ev[1] in part: continue
        k = took.get(ev[1], 0)
        if ev[0] == 'exhausted':
            if len(b) > k: return False, e
            continue
        if k >= len(b): return False, e
        x = ev[2] if ev[2].op == 'elem' else next((y for y in subterms(ev[2]) if y.op == 'elem' and y.a[0] is ev[1]), ev[2])
        if x in e.env: sure = False
        else: e.setenv(x, b[k])
        took[ev[1]] = k + 1
    for f, v in tr.facts.items():
        x = e.ev(f)
        if isinstance(x, bool):
            if x != bool(v): return False, e
        else: sure = False
    for t, vs in tr.vars.items():
        x = e.ev(t)
        if isv(x):
            if x[1] not in vs: return False, e
        elif isinstance(x, bool):
            if int(x) not in vs: return False, e
        else: sure = False
    return (True if sure else None), e
