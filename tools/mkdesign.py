#!/usr/bin/env python3-vt
"""fills the generated parts of DESIGN.md (contracts per property, assumptions, planted bugs)"""
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vc'))
import suites, bounded
BEYOND = json.load(open(os.path.join(H, 'tools', 'beyond.json')))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
carry, assumed = {}, []
for n in suites.ENABLED:
    sp, _ = suites.load(n)
    for k, c in sp.contracts.items():
        if c.assumed:
            assumed.append('`%s`: contract assumed (%s)' % (k, c.note or 'not verified'))
            continue
        for p in c.props:
            carry.setdefault(p, []).append(k.replace('HsmEventDispatcherBase::', 'Dispatcher::'))


def names(fs):
    n = [f.split('::')[-1].split('#')[0].split('/')[0] for f in fs]
    return ', '.join('%s%s' % (x, ' (%d forms)' % n.count(x) if n.count(x) > 1 else '') for x in dict.fromkeys(n))


rows = []
for p in props:
    i = p['id']
    fs = carry.get(i, [])
    rows.append('| %s %s | %s | %s |' % (i, p['title'], ('postconditions of ' + ', '.join(f.split('::')[-1] for f in fs)) if fs else
                                      'bounded only: no contract yet', BEYOND.get(i, 'nothing further')))
t = open(os.path.join(H, 'tools', 'DESIGN.tmpl.md')).read()
t = t.replace('@@TABLE@@', '\n'.join(rows))
t = t.replace('@@ASSUME@@', '\n'.join('* ' + a for a in bounded.GENERAL_ASSUMPTIONS + [a for n in suites.ENABLED for a in suites.ASSUMPTIONS.get(n, [])] + assumed))
ss = []
try:
    res = json.load(open(os.path.join(H, 'tools', 'seeded.json')))
except FileNotFoundError:
    res = {}
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    ss.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], res.get(n, 'not run yet')))
t = t.replace('@@SEEDED@@', '| bug | property | what it breaks | result of the check of that property |\n|---|---|---|---|\n' + '\n'.join(ss))
open(os.path.join(H, 'DESIGN.md'), 'w').write(t)
