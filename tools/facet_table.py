#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between <!-- x --> and <!-- /x -->) from the sources and the last matrix run."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    d = json.load(open(f))
    i = os.path.basename(f)[:3]
    src = open(V + f'/harness/src/bin/{i.lower()}.rs').read()
    bud = {m[0]: (m[1], m[2]) for m in re.findall(r'name: "([^"]+)"(?:.*?)quick: ([\d_]+),\s*thorough: ([\d_]+)', src, re.S)}
    for x in d['coverage']['facets']:
        q, t = bud.get(x['facet'], ('?', '?'))
        out.append(f"| {i} | {x['facet']} | {q.replace('_', ' ')} | {t.replace('_', ' ')} | {x['executions'] / max(1, x['evaluations']):.1f} | {100 * x['nontrivial'] // max(1, x['evaluations'])} % |")
facets = '| id | facet | quick cases | thorough cases | executions per case | non-trivial |\n|---|---|---|---|---|---|\n' + '\n'.join(out)
p = V + '/DESIGN.md'
s = open(p).read()
def put(name, text):
    global s
    s = re.sub(rf'(<!-- {name} -->\n).*?(<!-- /{name} -->)', lambda m: m.group(1) + text + '\n' + m.group(2), s, flags=re.S)
put('facets', facets)
by = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    by.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['what_it_breaks']))
res = {}
if os.path.exists(V + '/tools/matrix.txt'):
    for l in open(V + '/tools/matrix.txt'):
        w = l.split()
        if len(w) > 2: res[w[0]] = (w[2], re.search(r"\[(.*?)\]", l).group(1).replace("'", '') if '[' in l else '')
rows = [f"| {n} | {what} | {'caught' if res.get(n, ('?',))[0] == 'CAUGHT' else res.get(n, ('?',))[0].lower()} |" for k in sorted(by) for n, what in by[k]]
put('seeds', '| planted bug | what it does | check of its property |\n|---|---|---|\n' + '\n'.join(rows))
fixed = json.load(open(V + '/known_findings.json'))
rows = []
for x in fixed['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', x)
    rows.append(f'| {m[1]} | {m[2]} | {m[3]} |')
put('defects', '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(rows))
open(p, 'w').write(s)
