"""Writes /verif/DESIGN.md: see its first lines."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, '/repo/src', ROOT + '/tools']
OVER = {}


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    OVER[pid] = (text, why, files, technique)


QT, CL = 'src/quanguru/QuantumToolbox/', 'src/quanguru/classes/'
exec(open(ROOT + '/tools/props_data.py').read())


def load(name):
    m = importlib.import_module('checks.' + name)
    return m


def main():
    out = [open(ROOT + '/tools/design_head.md').read()]
    for line in open(ROOT + '/properties.jsonl'):
        p = json.loads(line)
        c = load(p['id'])
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(p['statement'] + '\n')
        over = OVER[p['id']]
        out.append(f"* **Ranges over** {over[0]}. {over[1]}")
        out.append(f"* **Anchored in** " + ', '.join(f'`{f}`' for f in over[2]))
        out.append(f"* **Decided by** {over[3]}.")
        out.append(f"* **Workload** {c.RULE}")
        fam = ', '.join(f'`{f[0]}` {f[2]}/{f[3]}' for f in c.FAMILIES)
        out.append(f"* **Bounds** (cases quick/thorough) {fam}" + ('; deciding events required: ' + ', '.join(f'{k} ≥ {v}' for k, v in c.MIN_EVENTS.items()) if getattr(c, 'MIN_EVENTS', None) else '') + '.')
        if getattr(c, 'ASSUMPTIONS', None):
            out.append(f'* **Assumes** {c.ASSUMPTIONS}')
        out.append('')
    kf = json.load(open(ROOT + '/known_findings.json'))
    out.append('## 4. Defects found and repaired\n\nEach is one `fix:` commit in /repo; the check of the property reports it on the original tree.\n')
    for f in kf['fixed']:
        w = f.split(' ', 3)
        out.append(f"* {w[1].split('=')[1]} `{w[2]}` {w[3]}")
    out.append('\n## 5. Known findings (not repaired)\n')
    for f in kf['findings']:
        out.append(f"* {f['property']} `{f['mech']}`: {f['what']} ({f['where']}). Not repaired: {f['why_not_repaired']}.")
    out.append('\n' + open(ROOT + '/tools/design_tail.md').read())
    try:
        res = json.load(open(ROOT + '/tools/seed_results.json'))
    except FileNotFoundError:
        res = {}
    out.append('| planted change | property | needs | caught by (quick) |\n|---|---|---|---|')
    for sid in sorted(os.listdir(ROOT + '/seeded')):
        meta = json.load(open(f'{ROOT}/seeded/{sid}/meta.json'))
        r = res.get(sid, {})
        out.append(f"| {sid} | {meta['property']} | {meta['needs']} | " + (', '.join(k for k, v in r.get('checks', {}).items() if v == 'caught') or '-') + ' |')
    open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


main()
