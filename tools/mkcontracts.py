"""Writes CONTRACTS.md and the two tables of DESIGN.md (from DESIGN.in if present)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyded import kit
kit.load_all()
props = {}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(l)
    props[d['id']] = d
out = ['# Contracts (written by tools/mkcontracts.py)', '']
tab = []
for p, d in props.items():
    cs = kit.for_property(p)
    own = kit.REG.get(p, [])
    out += ['## %s %s' % (p, d['title']), '']
    if p == 'P26':
        out += ['The %d contracts of the other properties that are marked `frame=True`, with frame obligations.' % len(cs), '']
    for c in own:
        out.append('* **%s** %s — %s%s' % (c.name.split(':')[-1], ', '.join('`%s`' % f for f in c.funcs),
                                         'bounded: ' + c.opts['bounded'] if c.opts.get('bounded') else 'proved for all inputs',
                                         '; callees by contract' if c.opts.get('overrides') else ''))
    out.append('')
    b = sum(1 for c in cs if c.opts.get('bounded'))
    try:
        s = '%.0f' % json.load(open(os.path.join(HERE, 'evidence', p + '.json')))['wall_s']
    except Exception:
        s = ''
    tab.append('| %s | %s | %d | %d | %s |' % (p, d['title'], len(cs) - b, b, s))
open(os.path.join(HERE, 'CONTRACTS.md'), 'w').write('\n'.join(out) + '\n')
seeds = ['| id | property | what it breaks | needs |', '|-|-|-|-|']
S = os.path.join(HERE, 'seeded')
for i in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs']))
t = open(os.path.join(HERE, 'tools', 'DESIGN.in')).read()
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t.replace('@TABLE@', '\n'.join(tab)).replace('@SEEDED@', '\n'.join(seeds)))
