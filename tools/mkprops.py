"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/mkprops.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QT = 'src/quanguru/QuantumToolbox/'
CL = 'src/quanguru/classes/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    assert len(title) <= 80, title
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state))


exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                        'mechanism': [dict(name=a, where=b) for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')

have = [p for p in P if os.path.exists(os.path.join(ROOT, 'checks', p['pid'] + '.py'))]
man = {
    'version': 1,
    'setup_cmd': './check selftest',
    'checks': [{
        'property': p['pid'], 'quick_cmd': f"./check {p['pid']} quick", 'thorough_cmd': f"./check {p['pid']} thorough",
        'evidence_file': f"evidence/{p['pid']}.json", 'technique': p['technique'], 'level': 'exploration',
        'level_note': p['note']} for p in have],
    'not_applicable': NOT_APPLICABLE + [{'property': p['pid'], 'reason': 'check not built yet'} for p in P if p not in have],
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(have), 'checks')
