"""writes properties.jsonl and MANIFEST.json from specs/props.py (claimed = a rule module exists)"""
import json, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'specs'))
import props
out, checks, na = [], [], []
for p in props.PROPS:
    r = glob.glob(os.path.join(V, 'sa', 'rules', p['id'].lower() + '_*.py'))
    out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}})
    assert len(p['title']) <= 80, p['id']
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
    elif r:
        checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note'], 'evidence_file': 'evidence/%s.json' % p['id']})
    else:
        na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(o) + '\n' for o in out))
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: a clang-based extractor (frontend/ssfacts.cpp) dumps resolved syntax trees of /repo; rules in sa/rules decide each property over them.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')


# DESIGN.md
def md():
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    seeds = {}
    for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
    o = [open(os.path.join(V, 'specs', 'design_head.md')).read().rstrip(), '', '## 4. The properties', '']
    for p in props.PROPS:
        if 'na' in p:
            continue
        o += ['### %s %s' % (p['id'], p['title']), '',
              '*Specified:* %s' % p['statement'].strip(), '',
              '*Decided by:* %s.' % p['technique'].rstrip('.'), '',
              '*Over:* %s. *Limits:* %s' % (p['text'].rstrip('.'), p['note'].strip() or 'none beyond the trusted base.'), '',
              '*Why tests do not reach it:* %s.' % p['why'].rstrip('.'), '',
              '*Anchored in:* %s' % ', '.join('`%s`' % f for f in p['files']), '']
        fx = [f for f in kf['fixed'] if 'property=%s ' % p['id'] in f]
        op = [f for f in kf['findings'] if f['property'] == p['id']]
        if fx:
            o += ['*Defects found and repaired:*', ''] + ['* %s' % f.split(' ', 2)[2] for f in fx] + ['']
        if op:
            o += ['*Open findings (known_findings.json):*', ''] + ['* %s — %s' % (f['what'], f.get('why_not_repaired', '')) for f in op] + ['']
        if p['id'] in seeds:
            o += ['*Planted bugs:* ' + ', '.join('`%s`' % s for s, _ in seeds[p['id']]), '']
    o += ['## 5. Planted bugs and what catches them', '', '| bug | property | needs | caught |', '|---|---|---|---|']
    for i in sorted(seeds):
        o += ['| `%s` | %s | %s | by %s |' % (s, i, d['needs'], i) for s, d in seeds[i]]
    o += ['', '## 6. Not applicable', '', 'Properties that a user relies on and that static analysis, of the strength within reach here, cannot decide:', '']
    o += ['* **%s %s** — %s' % (p['id'], p['title'], p['na']) for p in props.PROPS if 'na' in p]
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o).rstrip() + '\n')


md()
