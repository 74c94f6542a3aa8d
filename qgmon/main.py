import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

from . import core


def load_known():
    with open(os.path.join(core.VERIF, 'known_findings.json')) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--nproc', type=int, default=core.NPROC)
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()

    sys.path.insert(0, core.REPO_SRC)
    if a.property == 'selftest':
        import quanguru  # noqa
        assert quanguru.__file__.startswith(core.REPO_SRC), quanguru.__file__
        for fn in sorted(os.listdir(os.path.join(core.VERIF, 'checks'))):
            if fn.endswith('.py') and fn[0].isupper():
                importlib.import_module('checks.' + fn[:-3])
        print('selftest ok')
        return 0
    import quanguru
    if not quanguru.__file__.startswith(core.REPO_SRC):
        print('ERROR: quanguru imported from', quanguru.__file__)
        return 3
    pid = a.property
    mod = importlib.import_module('checks.' + pid)

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        fam = {x[0]: x[1] for x in mod.FAMILIES}[r['family']]
        out = core.run_case(pid, r['family'], fam, r['seed'], r['idx'])
        print(json.dumps({k: out[k] for k in ('violations', 'error', 'log')}, indent=1, default=str))
        return 1 if out['violations'] else 0

    budget = a.budget if a.budget is not None else (360 if tier == 'quick' else 780)
    scratch = tempfile.mkdtemp(prefix=f'qgmon-{pid}-')
    os.environ['QGMON_SCRATCH'] = scratch
    try:
        results, errors, planned = core.run_all(pid, mod.FAMILIES, seed, tier, scratch, budget, a.only, a.nproc)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = {k['mech']: k for k in load_known()['findings'] if k['property'] == pid}
    events, sigs, fams, viol, seen_known, samples = {}, set(), {}, {}, {}, []
    done = skipped = 0
    results.sort(key=lambda r: (r['family'], r['idx']))
    for r in results:
        f = fams.setdefault(r['family'], {'cases': 0, 'skipped': 0, 'checks': 0})
        if r['error']:
            errors.append(r['error'])
        if r['skip']:
            skipped += 1
            f['skipped'] += 1
        else:
            done += 1
            f['cases'] += 1
        f['checks'] += r['events'].get('checks', 0)
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        sigs.update(r['sigs'])
        for v in r['violations']:
            if v['mech'] in known:
                seen_known.setdefault(v['mech'], 0)
                seen_known[v['mech']] += 1
                continue
            key = (r['family'], v['what'])
            e = viol.setdefault(key, {'n': 0, 'first': (r, v)})
            e['n'] += 1
    per = {}
    for r in results:
        if r['skip'] or r['violations']:
            continue
        c = per.setdefault(r['family'], 0)
        if c < 1:
            per[r['family']] = c + 1
            samples.append({'family': r['family'], 'idx': r['idx'], 'case': r['sample'], 'history': r['log'][:25],
                            'events': r['events']})
    nviol = 0
    lines = []
    for (fam, what), e in sorted(viol.items(), key=lambda kv: kv[0]):
        nviol += e['n']
        r, v = e['first']
        name = f"{pid}-{fam}-s{seed}-{r['idx']}.json".replace('/', '_').replace(' ', '_')
        path = os.path.join(core.VERIF, 'replays', name)
        core.write_json(path, {'property': pid, 'family': fam, 'seed': seed, 'idx': r['idx'], 'what': what,
                               'count': e['n'], 'detail': v['detail'], 'mech': v['mech'], 'history': r['log'],
                               'case': r['sample']})
        lines.append((f"VIOLATION property={pid} replay=replays/{name}", f"  {fam}: {what} (x{e['n']})\n"
                      + '    ' + v['detail'].replace('\n', '\n    ')[:900]))
    wall = time.time() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE, 'samples': samples[:12],
            'planned_cases': planned, 'skipped_cases': skipped,
            'observed_events': dict(sorted(events.items())), 'families': fams,
            'known_findings_seen': seen_known,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    if not a.only:
        core.write_json(os.path.join(core.VERIF, 'evidence', pid + '.json'), evidence)
    for mech, n in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {known[mech]['what']} [{mech}] (seen {n}x)")
    print(f"{pid} {tier} seed={seed}: {done} cases ({skipped} skipped, {planned} planned), {events.get('checks', 0)} "
          f"oracle evaluations, {len(sigs)} distinct signatures, {wall:.1f}s")
    if lines:
        for head, det in lines[:25]:
            print(head)
            print(det)
        return 1
    if errors:
        print('ERROR (inconclusive):')
        for e in errors[:5]:
            print(e)
        return 3
    # inconclusive: the deciding monitor was not reached often enough
    if not a.only:
        for fam in mod.FAMILIES:
            want = fam[2] if tier == 'quick' else fam[3]
            got = fams.get(fam[0], {'cases': 0, 'checks': 0})
            if want > 0 and (got['cases'] == 0 or got['checks'] == 0):
                print(f'ERROR (inconclusive): family {fam[0]} observed nothing')
                return 3
        for name, least in getattr(mod, 'MIN_EVENTS', {}).items():
            if events.get(name, 0) < least:
                print(f'ERROR (inconclusive): event {name} seen {events.get(name, 0)} < {least} times')
                return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
