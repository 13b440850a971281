#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = 'semantic_codec/'
P = []
NA = []


def prop(id, title, statement, over, text, why, files, technique=None, note=None, na=None, mechanism=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors=dict(files=[SC + f if not f.startswith('=') else f[1:] for f in files],
                               mechanism=[{'name': n, 'where': w} for n, w in mechanism],
                               state=[{'name': n, 'meaning': m, 'where': w} for n, m, w in state])))
    P[-1]['_t'], P[-1]['_n'], P[-1]['_na'] = technique, note, na


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'proptable.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith('_')}
        for k in ('mechanism', 'state'):
            if not q['anchors'][k]:
                del q['anchors'][k]
        f.write(json.dumps(q) + '\n')

checks, na = [], []
for p in P:
    if p['_na']:
        na.append({'property': p['id'], 'reason': p['_na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'technique': p['_t'], 'level': 'other', 'level_note': p['_n']})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sa.engine, sa.report"', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: every check parses and abstractly interprets the current source of /repo; nothing of it '
              'is executed. Known findings and fixed defects are in known_findings.txt. No hooks were needed.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    print('valid', len(checks), 'checks', len(na), 'not applicable')
except ImportError:
    print('written (not validated)')


def design():
    tools = os.path.join(ROOT, 'tools')
    out = [open(os.path.join(tools, 'design_head.md')).read(), '## The properties\n']
    for p in sorted(P, key=lambda p: p['id']):
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append(p['statement'] + '\n')
        out.append('* Over: %s (%s).' % (p['quantifier']['text'], ', '.join(p['quantifier']['over'])))
        out.append('* Beyond tests: %s.' % p['why_tests_cant'])
        if p['_na']:
            out.append('* Not applicable: %s' % p['_na'])
        else:
            out.append('* Decided by: %s.' % p['_t'])
            out.append('* Oracle and limits: %s.' % p['_n'])
        for m in p['anchors']['mechanism']:
            out.append('* Anchored in: `%s` (%s).' % (m['name'], m['where']))
        out.append('')
    tail = open(os.path.join(tools, 'design_tail.md')).read()
    rows = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
    seeded = os.path.join(ROOT, 'seeded')
    for d in sorted(os.listdir(seeded)):
        meta = json.load(open(os.path.join(seeded, d, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (d, meta['property'], meta['what_it_breaks'], meta['needs']))
    fixed, found = [], []
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        if l.startswith('fixed:'):
            fixed.append('* ' + l[6:].strip())
        elif l.startswith('finding:'):
            found.append('* ' + l[8:].strip())
    variants = 0
    for f in os.listdir(os.path.join(ROOT, 'selftest')):
        if f.endswith('.txt'):
            variants += sum(l.startswith('## ') for l in open(os.path.join(ROOT, 'selftest', f)))
    na_ = ['* **%s** %s: %s' % (p['id'], p['title'], p['_na']) for p in P if p['_na']]
    for k, v in (('@SEEDS@', rows), ('@FIXED@', fixed), ('@FINDINGS@', found), ('@NA@', na_)):
        tail = tail.replace(k, '\n'.join(v))
    out.append(tail.replace('@VARIANTS@', str(variants)))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


design()
