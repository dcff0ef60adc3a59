"""Writes DESIGN.md from design_head.md, the check docstrings, properties.jsonl and seeded/*/meta.json."""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOUNDS = {c['property']: c for c in json.load(open(os.path.join(H, 'MANIFEST.json')))['checks']}
out = [open(os.path.join(H, 'tools', 'design_head.md')).read()]
bugs = {}
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    bugs.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
fixes = [l.strip() for l in open(os.path.join(H, 'known_findings.txt'))]
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    t = ast.parse(open(os.path.join(H, 'checks', i + '.py')).read())
    subs, ass = [], []
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'sub':
                    kw = {k.arg: ast.unparse(k.value) for k in d.keywords}
                    subs.append(f'{n.name} ({kw["quick"]} / {kw.get("thorough", "8x")} cases)' if 'quick' in kw else f'{n.name} (fixed cases)')
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            ass = ast.literal_eval(n.value)
    out.append(f'### {i}: {p["title"]}\n')
    out.append(' '.join(ast.get_docstring(t).split()) + '\n')
    out.append(f'* Sub-checks (quick / thorough): {", ".join(subs)}.')
    out.append(f'* Technique: {BOUNDS[i]["technique"]}. Bounds: {BOUNDS[i]["level_note"]}.')
    out.append(f'* Why tests do not settle it: {p["why_tests_cant"]}.')
    if ass:
        out.append('* Assumptions: ' + '; '.join(ass) + '.')
    fx = [f.split(' ', 3) for f in fixes if f.startswith(f'fixed: property={i} ')]
    if fx:
        out.append('* Repaired defects, reported again when reverted: ' + '; '.join(f'`{f[2]}` {f[3]}' for f in fx) + '.')
    if i in bugs:
        out.append('* Planted bugs caught by this check: ' + '; '.join(f'`{n}`' + (f' ({m["needs"]})' if m.get('needs') else '') for n, m in bugs[i] if not m.get('missed')) + '.')
    out.append('')
out.append(open(os.path.join(H, 'tools', 'design_tail.md')).read() if os.path.exists(os.path.join(H, 'tools', 'design_tail.md')) else '')
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out)))
