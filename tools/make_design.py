"""Writes DESIGN.md from its fixed parts, the bounds of the checks, the findings and the planted bugs."""
import ast
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def text(*p):
    return open(os.path.join(ROOT, *p)).read()


def bounds(i):
    for n in ast.parse(text('mc', i.lower() + '.py')).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS':
            return ast.literal_eval(n.value)


out = [text('tools', 'design_head.md')]
props = [json.loads(l) for l in text('properties.jsonl').splitlines()]
out.append('## Properties, bounds and cost\n\nCounts and times of a quick run on 8 cores of the state this file was written for; `evidence/<id>.json` has those of the last run.\n')
for p in props:
    i = p['id']
    b = bounds(i)
    out.append('### %s %s\n' % (i, p['title']))
    e = os.path.join(ROOT, 'evidence', i + '.json')
    if os.path.exists(e):
        d = json.load(open(e))
        c = d['coverage']
        if c['exhaustive'] and d['tier'] == 'quick':
            out.append('%d scenarios, %d states, %d transitions, %d traces, %.0f s, exhaustive within the bounds.\n' % (
                c['scenarios'], c['states'], c['transitions'], c['traces_validated_against_impl'], d['wall_s']))
        else:
            out.append('%d scenarios.\n' % c['scenarios'])
    out.append('* quick: %s.\n* thorough: %s.\n' % (b['quick'], b['thorough']))
out.append('## Defects repaired in /repo\n\nFound by the checks, each repaired by a `fix:` commit and listed in known_findings.json (a fixed entry suppresses nothing; there are no unrepaired findings).\n')
for f in json.loads(text('known_findings.json'))['findings']:
    w = f['what'].split(' ', 3)
    out.append('* %s (%s): %s' % (f['property'], f['key'], w[3]) if f['status'] == 'fixed' else '* open, %s: %s' % (f['property'], f['what']))
out.append('')
out.append(text('tools', 'design_tail.md'))
res = json.loads(text('tools', 'seeded_results.json'))
ids = sorted(os.listdir(os.path.join(ROOT, 'seeded')))
n = sum(res.get(i, [0, ''])[1] == 'caught' for i in ids)
out.append('%d planted, %d caught.\n\n| change | property | what it breaks | needs | result |\n| --- | --- | --- | --- | --- |' % (len(ids), n))
for i in ids:
    m = json.loads(text('seeded', i, 'meta.json'))
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], res.get(i, [0, 'not run'])[1]))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
print(len(ids), n)
