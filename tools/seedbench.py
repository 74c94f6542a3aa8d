"""Confirm planted bugs and see which checks catch them: tools/seedbench.py [-j N] [--notest] [--checks P1,P2|own|all] [ids...]

Each bug runs in private mount namespaces with a scratch copy of /repo (and of /verif) bound over the real one: build, demo on the
clean and on the patched tree, the repository's tests, then the checks. Needs a root shell that may mount; no check uses it."""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/seedbench'


def sh(d, cmd, timeout=1800, repo='repo'):
    # binds the scratch copies over the real directories, in a mount namespace of its own
    pre = f'mount --bind {d}/{repo} /repo && mount --bind {d}/verif /verif && mount --bind {d}/reports /opt/vp/reports && cd /repo && '
    return subprocess.run(['unshare', '-m', 'bash', '-c', pre + cmd], capture_output=True, text=True, timeout=timeout)


def one(sid, a):
    d = f'{SCR}/{sid}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/reports')
    src = f'{ROOT}/seeded/{sid}'
    meta = json.load(open(src + '/meta.json'))
    out = {'id': sid, 'property': meta['property']}
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        os.makedirs(d + '/verif')
        subprocess.run(f'cd {ROOT} && cp -a checks qgmon check known_findings.json {d}/verif/ && mkdir {d}/verif/evidence {d}/verif/replays', shell=True, check=True)
        shutil.copytree(src, d + '/demo')
        os.remove(d + '/demo/patch.diff')
        out['demo_clean'] = sh(d, f'bash {d}/demo/demo.sh', 300).returncode
        r = subprocess.run(['git', '-C', d + '/repo', 'apply', src + '/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            out['apply'] = r.stderr
            return out
        r = sh(d, 'bash /opt/vp/build.sh')
        out['build'] = r.returncode
        r = sh(d, f'bash {d}/demo/demo.sh', 300)
        out['demo_patched'] = r.returncode
        out['demo_says'] = (r.stdout + r.stderr)[-300:]
        if not a.notest:
            sh(d, f'bash /opt/vp/test.sh {d}/out.json')
            base = json.load(open('/opt/vp/BASELINE.json'))
            got = json.load(open(d + '/out.json'))
            out['tests'] = summary(base, got)
        checks = [meta['property']] if a.checks == 'own' else sorted(f[:-3] for f in os.listdir(ROOT + '/checks') if f[0] in 'TC') if a.checks == 'all' else a.checks.split(',') if a.checks else []
        out['checks'] = {}
        for c in checks:
            t = time.time()
            r = sh(d, f'cd /verif && ./check {c} quick --seed {a.seed}', 900)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out['checks'][c] = 'caught' if r.returncode == 1 and v else 'quiet' if r.returncode == 0 else f'exit {r.returncode}: ' + (r.stdout + r.stderr)[-300:]
            out['secs'] = round(time.time() - t)
            if v:
                i = r.stdout.splitlines().index(v[0])
                out['says'] = r.stdout.splitlines()[i:i + 3]
    except Exception as e:
        out['error'] = repr(e)[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def summary(base, got):
    def passed(x):
        if isinstance(x, dict):
            for k in ('passed', 'stable', 'stable_passing', 'tests'):
                if k in x:
                    v = x[k]
                    return set(v) if isinstance(v, list) else {t for t, s in v.items() if s in ('passed', True)}
        return set(x)
    miss = sorted(passed(base) - passed(got))
    return f'{len(passed(got))} passed, {len(miss)} of the baseline missing {miss[:3]}'


def main():
    p = argparse.ArgumentParser()
    p.add_argument('-j', type=int, default=3)
    p.add_argument('--notest', action='store_true')
    p.add_argument('--checks', default='own')
    p.add_argument('--seed', default='1')
    p.add_argument('ids', nargs='*')
    a = p.parse_args()
    ids = a.ids or sorted(os.listdir(ROOT + '/seeded'))
    os.makedirs(SCR, exist_ok=True)
    with cf.ThreadPoolExecutor(a.j) as ex:
        for o in ex.map(lambda s: one(s, a), ids):
            good = o.get('demo_clean') == 0 and o.get('demo_patched', 0) != 0 and o.get('build') == 0 and (a.notest or ' 0 of the' in o.get('tests', ''))
            print('OK ' if good else 'BAD', o['id'], o['property'], o.get('checks'), o.get('says', ['', ''])[1:], flush=True)
            if not good:
                print('    ', json.dumps(o), flush=True)


main()
