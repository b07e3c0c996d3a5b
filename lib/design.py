"""Rewrite the generated tables of DESIGN.md (defects, planted bugs)."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [json.loads(l) for l in open(f'{root}/known_findings.jsonl')]
rows = ['| property | commit | what failed |', '|---|---|---|']
for d in sorted(F, key=lambda d: (d['status'] != 'known', d['property'])):
    rows.append(f"| {d['property']} | {d.get('commit', 'known: ' + d.get('mechanism', ''))} | {d['what']} |")
S = ['| planted | property | needs | caught by |', '|---|---|---|---|']
catch = json.load(open(f'{root}/catches.json')) if os.path.exists(f'{root}/catches.json') else {}
for m in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    S.append(f"| {i} | {d['property']} | {d['needs']} | {catch.get(i, '')} |")
s = open(f'{root}/DESIGN.md').read()
for k, r in (('DEFECTS', rows), ('SEEDED', S)):
    s = re.sub(rf'(<!-- {k} -->\n).*?(<!-- /{k} -->)', lambda m: m[1] + '\n'.join(r) + '\n' + m[2], s, flags=re.S)
open(f'{root}/DESIGN.md', 'w').write(s)
