#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written part (tools/design.md) and, for each property, what its check declares (checks/cNN.py),
tools/notes.json, known_findings.txt and the planted bugs. A development aid; no check needs it."""
import ast, glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'lib'), os.path.join(ROOT, 'checks')]
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
EXTRA = json.load(open(os.path.join(ROOT, 'tools', 'why.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
known = [l.strip() for l in open(os.path.join(ROOT, 'known_findings.txt')) if l.startswith(('finding:', 'fixed:'))]
bugs = [dict(json.load(open(p)), id=os.path.basename(os.path.dirname(p))) for p in sorted(glob.glob(ROOT + '/seeded/*/meta.json') + glob.glob(ROOT + '/planted/*/meta.json'))]


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == name:
            return n.value


out = [open(os.path.join(ROOT, 'tools', 'design.md')).read().rstrip(), '', '## Properties', '']
for p in props:
    pid = p['id']
    path = os.path.join(ROOT, 'checks', pid.lower() + '.py')
    tree = ast.parse(open(path).read())
    doc = ' '.join(ast.get_docstring(tree).split('\n\n', 1)[-1].split())
    try:
        rule = ast.literal_eval(const(tree, 'RULE'))
    except ValueError:
        env = {}
        import texts
        ns = dict(texts=texts, len=len)
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try:
                    exec(compile(ast.Module([n], []), path, 'exec'), ns)
                except Exception:
                    pass
        rule = ns['RULE']
    try:
        ass = ast.literal_eval(const(tree, 'ASSUMPTIONS'))
    except ValueError:
        ass = ['those of C01', 'the files of the decider database are not counted as files of the build']
    out += ['### %s %s' % (pid, p['title']), '', p['statement'], '', '*Method.* %s. %s' % (NOTES[pid][0][0].upper() + NOTES[pid][0][1:], doc), '',
            '*Enumerated.* %s.' % ' '.join(rule.split()).rstrip('.'), '', '*Why tests cannot settle it.* ' + EXTRA[pid], '',
            '*Bounds and assumptions.* %s %s.' % (NOTES[pid][1], '; '.join(ass)), '']
    ev = os.path.join(ROOT, 'evidence', pid + '.json')
    fixed = [l for l in known if l.startswith('fixed: property=%s ' % pid)]
    found = [l for l in known if l.startswith('finding: property=%s ' % pid)]
    if fixed:
        out += ['*Defects found and repaired.* ' + '; '.join('%s (%s)' % (re.sub(r'^\S+ \S+ \S+ ', '', l), l.split()[2]) for l in fixed) + '.', '']
    if found:
        out += ['*Known findings.* %d, see below and known_findings.txt.' % len(found), '']
    mine = [b['id'] for b in bugs if b['property'] == pid]
    if mine:
        out += ['*Planted bugs caught.* ' + ', '.join(mine) + '.', '']
out += ['## Planted bugs', '', 'Every one is caught by the quick check of its property (exit 1 and its VIOLATION line).', '',
        '| bug | property | needs | what it breaks |', '|---|---|---|---|']
for b in bugs:
    out.append('| %s | %s | %s | %s |' % (b['id'], b['property'], b['needs'].replace('|', '\\|'), b['what_it_breaks'].replace('|', '\\|')))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines')
