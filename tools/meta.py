#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from one table.
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
        **({'observe_at': observe} if observe else {}), **({'state': state} if state else {})),
        _t=technique, _n=note))
exec(open(os.path.join(R, 'tools', 'props.py')).read())
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh',
    checks=[dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
        technique=p['_t'], level='exploration', level_note=p['_n']) for p in sorted(P, key=lambda p: p['id'])],
    not_applicable=NA, notes=NOTES)
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties')
