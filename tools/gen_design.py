#!/usr/bin/env python3
"""Write DESIGN.md from tools/design.in.md, the unit files, the registry and the planted bugs."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + '/tools')
import registry
def units():
    out = {}
    for f in sorted(os.listdir(root + '/contracts')):
        if not f.endswith('.unit'): continue
        cur, src, fns = None, None, []
        names = []
        each = None
        for line in open(f'{root}/contracts/{f}'):
            if line.startswith('@unit '): names.append(line.split()[1])
            elif line.startswith('@source '): src = line.split()[1]
            elif line.startswith('@fn '): fns.append((src, line[4:].strip()))
            elif line.startswith('@each '): each = line.split(' in ')[1].split()
        out[f[:-5]] = (names, list(dict.fromkeys(fns)), each)
    return out
U = units()
def coverage():
    t, total = ['| unit file | source | functions |', '|---|---|---|'], 0
    for f, (names, fns, each) in U.items():
        by = {}
        for s, n in fns: by.setdefault(s, []).append(n)
        total += len(fns)
        for i, (s, ns) in enumerate(by.items()):
            label = f + (f' (for each of {", ".join(each)})' if each and len(each) < 14 else '')
            t.append(f'| {label if i == 0 else ""} | `{s}` | {", ".join("`" + n + "`" for n in ns)} |')
    return f'{total} functions in {len(U)} unit files.\n\n' + '\n'.join(t)
def props():
    text = dict(re.findall(r'^(P\d\d): (.*)$', open(root + '/tools/design_props.md').read(), re.M))
    title = {d['id']: d['title'] for d in map(json.loads, open(root + '/properties.jsonl'))}
    out = []
    for p in sorted(registry.PROPS):
        r = registry.PROPS[p]
        us = ', '.join(f'`{u}`' for u in r.get('verus', [])) or 'none'
        out.append(f'### {p} {title[p]} ({r["level"]})\n\nVerus units: {us}.' + (f' Kani harnesses: {", ".join(r["kani"])}.' if r.get('kani') else '') + f'\n\n{text.get(p, "")}')
    return '\n\n'.join(out)
def seeded():
    t = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    catches = json.load(open(root + '/tools/catches.json')) if os.path.exists(root + '/tools/catches.json') else {}
    d = root + '/seeded'
    for b in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(f'{d}/{b}/meta.json'))
        t.append(f'| {b} | {m["property"]} | {m["needs"]} | {catches.get(b, "")} |')
    return '\n'.join(t)
s = open(root + '/tools/design.in.md').read()
open(root + '/DESIGN.md', 'w').write(s.replace('@@COVERAGE@@', coverage()).replace('@@PROPS@@', props()).replace('@@SEEDED@@', seeded()))
