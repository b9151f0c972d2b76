"""Generates DESIGN.md."""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(p):
    r = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('EXPLAIN', 'RULE', 'ASSUME', 'LIMITS'):
            r[n.targets[0].id] = ast.literal_eval(n.value)
    return r


out = [open(os.path.join(V, 'meta/design_head.md')).read()]
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
seeds = {}
for d in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
finds = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl')) if l.strip()]
out.append('## The properties\n')
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']
    out.append('### %s %s\n\n%s\n' % (i, p['title'], p['statement']))
    if i in na:
        out.append('Not applicable: %s\n' % na[i])
        continue
    r = consts(os.path.join(V, 'rules', i.lower() + '.py'))
    out.append('*Analysis.* %s\n\n*Rule.* %s.\n' % (r.get('EXPLAIN', ''), r.get('RULE', '').rstrip('.')))
    if r.get('ASSUME'):
        out.append('*Assumes.* %s.\n' % '; '.join(r['ASSUME']))
    if r.get('LIMITS'):
        out.append('*Not covered.* %s\n' % r['LIMITS'])
    for n, m in seeds.get(i, []):
        out.append('*Planted bug* `%s`: %s. Needs: %s. Caught by %s.\n' % (n, m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'), m.get('caught_by', i)))
    for f in finds:
        if f['property'] == i:
            out.append('*Finding.* %s.\n' % f['record'].rstrip('.'))
tail = os.path.join(V, 'meta/design_tail.md')
if os.path.exists(tail):
    out.append(open(tail).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
