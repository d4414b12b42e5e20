"""Writes DESIGN.md:  python3 tools/design.py  (texts here, bounds from mc/, statements from properties.jsonl, bugs from seeded/)."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
TEXT = {}
key = None
for line in open(os.path.join(ROOT, 'tools', 'design_props.md')):
    if line.startswith('## P'):
        key = line[3:].strip()
        TEXT[key] = ''
    elif key:
        TEXT[key] += line


def consts(id):
    out = {}
    for node in ast.parse(open(os.path.join(ROOT, 'mc', id.lower() + '.py')).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            out[node.targets[0].id] = eval(compile(ast.Expression(node.value), id, 'eval'))
    return out


out = [HEAD.rstrip(), '', '## The properties, one by one', '']
manifest = {c['property']: c for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    c = consts(p['id'])
    out += [f"### {p['id']} - {p['title']}", '', f"*Technique*: {manifest[p['id']]['technique']}.", '', TEXT.get(p['id'], '(to be written)').strip(), '',
            f"*Bounds, quick*: {c['BOUNDS']['quick']}.", '', f"*Bounds, thorough*: {c['BOUNDS']['thorough']}.", '']
    if c.get('ASSUMPTIONS'):
        out += [f"*Assumptions*: {'; '.join(c['ASSUMPTIONS'])}.", '']
out += ['## Findings', '', 'From known_findings.txt: defects of PyGSP the checks found, with the input that fails. Those repaired are "fix:" commits in /repo.', '']
for line in open(os.path.join(ROOT, 'known_findings.txt')):
    if line.startswith(('finding:', 'fixed:')):
        out.append('- ' + line.strip())
out += ['', '## Planted bugs (seeded/)', '',
        'Each was written from the text of a property and the code, kept whether or not it was caught at the time, and the checks were strengthened where they',
        'missed it. Every bug of the table is caught (exit 1 and a VIOLATION line) by the quick check of the property named with it, unless the note says otherwise.', '',
        '| bug | caught by | needs | breaks |', '|---|---|---|---|']
try:
    MISSED = {l.split(None, 1)[0]: l.split(None, 1)[1].strip() for l in open(os.path.join(ROOT, 'tools', 'missed.txt')) if l.strip() and not l.startswith('#')}
except FileNotFoundError:
    MISSED = {}
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    id = os.path.basename(d)
    out.append(f"| {id} | {MISSED.get(id, m['property'])} | {m['needs']} | {m['what_it_breaks']} |")
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
