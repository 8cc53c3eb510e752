"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'pillowcore/'
# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], technique, level_note
CLAIMED = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    CLAIMED.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[H + f for f in files], mech=[(a, H + b) for a, b in mech], technique=technique, note=note))
def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[H + f for f in files], mech=[(a, H + b) for a, b in mech], reason=reason))
exec(open(os.path.join(V, 'tools', 'proplist.py')).read())

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in sorted(CLAIMED + NA, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash extractor/build.sh build/pillow-extract', 
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 -m pv.check %s --tier quick' % p['id'], 'thorough_cmd': 'python3 -m pv.check %s --tier thorough' % p['id'],
                     'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in sorted(CLAIMED, key=lambda p: p['id'])],
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in sorted(NA, key=lambda p: p['id'])]}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(CLAIMED), 'claimed', len(NA), 'not applicable')
if __name__ == '__main__': main()
