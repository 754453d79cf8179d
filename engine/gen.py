"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.ALL:
        a = {'files': p.files, 'mechanism': p.mech}
        if p.observe:
            a['observe_at'] = list(p.observe)
        f.write(json.dumps({'id': p.id, 'title': p.title, 'statement': p.statement,
                            'quantifier': {'over': p.over, 'text': p.qtext}, 'why_tests_cant': p.why, 'anchors': a}) + '\n')
        assert len(p.title) <= 80, p.id
m = {'version': 1, 'setup_cmd': 'python3 engine/pipeline.py',
     'checks': [{'property': p.id, 'quick_cmd': 'python3 check.py ' + p.id, 'thorough_cmd': 'python3 check.py ' + p.id,
                 'technique': p.technique, 'level': p.level, 'level_note': p.note} for p in props.ALL if not p.na],
     'not_applicable': [{'property': p.id, 'reason': p.na} for p in props.ALL if p.na],
     'notes': 'Every check extracts the MIR of /repo\'s current tree (nightly rustc, offline) and analyses it statically; see DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
props_md = '\n\n'.join('### %s %s\n\n*Method:* %s%s.\n%s%s' % (
    p.id, p.title, p.technique,
    '; analysed from ' + ', '.join('`%s`' % x[1] for x in p.parts) +
    (' (reports: %s)' % ', '.join(sorted({k for x in p.parts if x[0] == 'root' for k in x[2]})) if any(x[0] == 'root' for x in p.parts) else ''),
    ('\n*Bounds and assumptions:* ' + p.note.strip() + '\n') if p.note else '', '\n*Beyond tests:* ' + p.why)
    for p in props.ALL if not p.na)
na_md = '\n'.join('* **%s** %s: %s' % (p.id, p.title, p.na) for p in props.ALL if p.na) or '(none)'
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
sd = os.path.join(V, 'seeded')
caught = {}
cf = os.path.join(V, 'seeds_caught.json')
if os.path.exists(cf):
    caught = json.load(open(cf))
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else ():
    mj = os.path.join(sd, s, 'meta.json')
    if os.path.exists(mj):
        d = json.load(open(mj))
        rows.append('| %s | %s | %s | %s |' % (s, d['property'], d['needs'].replace('|', '/'), caught.get(s, 'not yet run')))
with open(os.path.join(V, 'engine', 'DESIGN.in.md')) as f:
    t = f.read()
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write(t.replace('@@PROPS@@', props_md).replace('@@NA@@', na_md).replace('@@SEEDS@@', '\n'.join(rows)))
