"""Record the fix: commits of /repo in known_findings.json (keeps the findings list)."""
import json
import os
import subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(ROOT, 'tools', 'fixmap.json')))
k = json.load(open(os.path.join(ROOT, 'known_findings.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = []
for line in log:
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        pid, what = MAP[s[5:]]
        out.append(f'fixed: property={pid} {h} {what}')
k['fixed'] = out
with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
    json.dump(k, f, indent=1)
    f.write('\n')
print('\n'.join(out))
