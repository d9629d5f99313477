#!/usr/bin/env python3
"""puts DESIGN.md together"""
import json, os, sys, glob, inspect
T = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(T); sys.path.insert(0, ROOT + '/nr')
import rules
tech = json.load(open(T + '/technique.json')); na = json.load(open(T + '/not_applicable.json'))
notes = json.load(open(T + '/design_notes.json')) if os.path.exists(T + '/design_notes.json') else {}
out = [open(T + '/design_head.md').read(), '## The properties\n']
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append(f'### {i} — {p["title"]}\n')
    f = rules.RULES.get(i)
    if i in tech and f is not None:
        out.append(f'*Method*: {tech[i][0]}.\n\n*Rule*: {inspect.getdoc(f)}\n\n*Bounds*: {tech[i][1]}.\n')
    elif i in na: out.append(f'Not applicable: {na[i]}\n')
    if i in notes: out.append(notes[i] + '\n')
    s = sorted(os.path.basename(d) for d in glob.glob(ROOT + '/seeded/*') if json.load(open(d + '/meta.json'))['property'] == i)
    if s: out.append('*Planted bugs caught*: ' + ', '.join(f'`{x}`' for x in s) + '.\n')
out.append(open(T + '/design_tail.md').read())
out.append('## Planted bugs and the checks that catch them\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(ROOT + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); c = m.get('caught_by', m['property'])
    out.append(f'| `{os.path.basename(d)}` | {m["property"]} | {m["needs"]} | {c} |')
out.append('')
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))
