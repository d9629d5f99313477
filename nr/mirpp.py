"""Pretty printer for the exported MIR (debugging aid)."""
import json,sys
def load(p): return json.load(open(p))
class PP:
    def __init__(s,m): s.m=m; s.T=m['types']
    def place(s,p):
        o=f"_{p[0]}"
        for e in p[1]:
            if e[0]=='*': o=f"(*{o})"
            elif e[0]=='f': o+=f".{e[1]}"
            elif e[0]=='d': o=f"({o} as v{e[1]})"
            elif e[0]=='i': o+=f"[_{e[1]}]"
            else: o+=str(e)
        return o
    def op(s,o):
        if o['o']=='const':
            v=o['v']
            if v['c']=='fn': return 'fn:'+s.T[o['ty']]['s']
            return json.dumps(v)[:160]
        if 'p' not in o: return str(o)
        return o['o']+' '+s.place(o['p'])
    def rv(s,r):
        k=r['r']
        if k=='use': return s.op(r['x'])
        if k in('ref','addr'): return ('&mut ' if r['mut'] else '&')+('raw ' if k=='addr' else '')+s.place(r['p'])
        if k=='agg':
            n=r['k']
            if 'ty' in r:
                n=s.T[r['ty']]['s']
                if 'variant' in r and s.T[r['ty']].get('kind')=='enum': n+='::'+s.T[r['ty']]['variants'][r['variant']]['name']
            return f"{n}({', '.join(map(s.op,r['xs']))})"
        if k in('bin','cbin'): return f"{k} {r['op']}({s.op(r['a'])}, {s.op(r['b'])})"
        if k=='un': return f"{r['op']}({s.op(r['a'])})"
        if k=='cast': return f"cast[{r['k']}] {s.op(r['x'])} as {s.T[r['ty']]['s']}"
        if k in('discr','len'): return f"{k}({s.place(r['p'])})"
        return str(r)
    def fn(s,i):
        b=i['body']; o=[f"fn {i['id']} {i['name']}  [{i['def']}] argc={b['argc']} span={i['span']}"]
        for n,l in enumerate(b['locals']): o.append(f"   let _{n}: {s.T[l[0]]['s']}{' // '+l[1] if len(l)>1 else ''}")
        for n,bb in enumerate(b['blocks']):
            o.append(f"  bb{n}:")
            for st in bb['s']:
                if st[0]=='=': o.append(f"    {s.place(st[1])} = {s.rv(st[2])}   @{st[3][1]}")
                elif st[0] in('sl','sx'): pass
                else: o.append('    '+str(st))
            t=bb['t']; k=t['t']
            if k=='call':
                f=t['f']
                if 'decl' in f:
                    nm=f"#{f['inst']} "+(s.m['insts'][f['inst']]['name'] if f['inst'] is not None else '?'+f['decl'])
                else: nm='indirect '+s.op(f['indirect'])
                o.append(f"    {s.place(t['d'])} = {nm}({', '.join(map(s.op,t['a']))}) -> {t['to']}  @{t['sp'][1]}")
            elif k=='switch': o.append(f"    switch {s.op(t['d'])} {t['br']} else {t['else']}")
            elif k=='drop': o.append(f"    drop {s.place(t['p'])} -> {t['to']}")
            elif k=='assert': o.append(f"    assert {s.op(t['c'])}=={t['exp']} {t['k']} -> {t['to']}")
            elif k=='goto': o.append(f"    goto {t['to']}")
            else: o.append('    '+k)
        return '\n'.join(o)
if __name__=='__main__':
    m=load(sys.argv[1]); pp=PP(m)
    for i in m['insts']:
        if i['body'] and any(a in i['name'] for a in sys.argv[2:]): print(pp.fn(i)); print()
