#!/usr/bin/env python3
"""mkdesign.py: puts DESIGN.md together: fixed text (tools/design_*.md) plus tables from props.py, seeded/ and tools/caught.json"""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V); os.chdir(V)
from props import PROPS
titles={}
for l in open('properties.jsonl'):
    p=json.loads(l); titles[p['id']]=p['title']
D=json.load(open('tools/design_props.json'))
o=open('tools/design_head.md').read()+'\n## Per property\n\n'
for k in sorted(titles):
    d=D[k]
    o+=f'### {k} — {titles[k]}\n\n'
    o+='\n'.join(f'* **{a}**: {b}' for a,b in d.items())+'\n'
    if k in PROPS: o+=f'* **Bounds**: {PROPS[k]["bounds"]}.\n* **Harnesses**: '+', '.join(h+(' (thorough)' if PROPS[k]['harnesses'][h].get('thorough_only') else '') for h in PROPS[k]['harnesses'])+'.\n'
    o+='\n'
o+=open('tools/design_tail.md').read()
C=json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
o+='\n## Planted bugs\n\nEvery one builds, passes the stable tests, and has a demonstration. "Caught by" is the harness whose counterexample the quick check of the property reported.\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|\n'
for b in sorted(os.listdir('seeded')) if os.path.isdir('seeded') else []:
    m=json.load(open(f'seeded/{b}/meta.json')); o+=f"| {b} | {m['property']} | {m['what_it_breaks']}; needs: {m['needs']} | {C.get(b,'?')} |\n"
open('DESIGN.md','w').write(o)
