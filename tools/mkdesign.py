#!/usr/bin/env python3
"""Regenerates the per-property and planted-bug sections of DESIGN.md from
checks.json, properties.jsonl, the last evidence files and seeded/."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(R + '/properties.jsonl')]
C = json.load(open(R + '/checks.json'))
M = json.load(open(R + '/MANIFEST.json'))
HOW = json.load(open(R + '/tools/design_how.json'))
out = []
na = {x['property']: x['reason'] for x in M['not_applicable']} if M['not_applicable'] and 'property' in M['not_applicable'][0] else {x.get('id') or x.get('property_id'): x['reason'] for x in M['not_applicable']}
for p in P:
    i = p['id']
    out.append(f"### {i}: {p['title']}\n")
    if i in na:
        out.append(f"Not applicable. {na[i]}\n")
        continue
    out.append(HOW[i] + "\n")
    f = f'{R}/evidence/{i}.json'
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    h = {}
    for x in e['coverage']['harnesses']:
        a = h.setdefault(x['harness'], [x['bounds'], 0, 0, 0, 0.0])
        a[1] += 1
        a[2] += x['paths']
        a[3] += x['queries']
        a[4] += x['solver_s']
    out.append("| harness | bounds | paths | queries |\n|---|---|---|---|")
    for k, v in h.items():
        out.append(f"| `{k}` | {v[0].replace('|', '/')} | {v[2]} | {v[3]} |")
    src = open(f"{R}/irx/harness/{i.lower()}.cpp").read() if 'script' in C[i] else "".join(open(f"{R}/harness/{t}.cpp").read() for t in C[i]['tus'])
    deep = [m.group(1) for m in re.finditer(r'HARNESS_X\((\w+),[^,]*,\s*true|HARNESS_THOROUGH\((\w+)|IRX_HARNESS\((\w+), \d+, 1', src)
            for _ in [0] if m.group(1)] + [m.group(3) for m in re.finditer(r'HARNESS_X\((\w+),[^,]*,\s*true|HARNESS_THOROUGH\((\w+)|IRX_HARNESS\((\w+), \d+, 1', src) if m.group(3)] + [m.group(2) for m in re.finditer(r'HARNESS_X\((\w+),[^,]*,\s*true|HARNESS_THOROUGH\((\w+)|IRX_HARNESS\((\w+), \d+, 1', src) if m.group(2)]
    deep = [d for d in deep if d.startswith(i.lower() + '_')]
    if deep:
        out.append("\nThorough only: " + ", ".join(f"`{d}`" for d in deep) + ".")
    out.append("")
seeds = ["| planted bug | property | needs | caught by |\n|---|---|---|---|"]
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds.append(f"| `{n}` | {m['property']} | {m['needs'].replace('|', '/')} | {HOW.get('seed:' + n, m['property'])} |")
t = open(R + '/DESIGN.md').read()
def put(t, tag, body):
    a, b = f"<!-- {tag} -->", f"<!-- end {tag} -->"
    return t[:t.index(a) + len(a)] + "\n\n" + body + "\n" + t[t.index(b):]
t = put(t, "properties", "\n".join(out))
t = put(t, "seeds", "\n".join(seeds) + "\n")
open(R + '/DESIGN.md', 'w').write(t)
t = open(R + '/DESIGN.md').read()
F = json.load(open(R + '/known_findings.json'))['findings']
t = put(t, "fixes", "\n".join("* " + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 (`\2`): ', f['what']) for f in F) + "\n")
open(R + '/DESIGN.md', 'w').write(t)
