"""Writes /verif/DESIGN.md from design_head.md, design_how.json, the check modules, known_findings.json and seeded/."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
how = json.load(open(V + '/tools/design_how.json'))
kf = json.load(open(V + '/known_findings.json'))
out = [open(V + '/tools/design_head.md').read()]
for p in props:
    i = p['id']
    c = {}
    t = ast.parse(open(f'{V}/checks/{i}.py').read())
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('MODS', 'BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            try: c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    out.append(f'### {i} — {p["title"]}\n')
    out.append(f'*Statement.* {p["statement"]}\n')
    h = how.get(i, {})
    for k, name in (('what', 'How it is decided'), ('oracle', 'Oracle'), ('why', 'Why tests cannot settle it'), ('cost', 'Cost')):
        if h.get(k): out.append(f'*{name}.* {h[k]}\n')
    out.append(f'*Bounds.* {c["BOUNDS"]}.\n')
    out.append(f'*Outside.* {c["OUTSIDE"]}.\n')
    if c.get('ASSUMPTIONS'): a = c['ASSUMPTIONS']; out.append(f'*Assumptions.* {a if isinstance(a, str) else "; ".join(a)}.\n')
    fx = [f.split(' ', 3)[2:] for f in kf['fixed'] if f.startswith(f'fixed: property={i} ')]
    fi = [f for f in kf['findings'] if f['property'] == i]
    if fx: out.append('*Defects found and repaired.* ' + '; '.join(f'{b} (`{a}`)' for a, b in fx) + '.\n')
    for f in fi: out.append(f'*Known finding* `{f["id"]}`: {f["what"]}.\n')
out.append(open(V + '/tools/design_mid.md').read())
out.append('| planted bug | property | what it needs | found |\n|---|---|---|---|')
notes = json.load(open(V + '/tools/seed_notes.json'))
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); b = os.path.basename(d)
    cl = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    out.append(f'| {b} | {m["property"]} | {cl(m["what_it_breaks"])} — needs: {cl(m["needs"])} | {notes.get(b, "caught")} |')
out.append('\n' + open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
print('DESIGN.md', sum(len(o) for o in out), 'characters')
