"""C14: what is written into CSV files is read back unchanged, and all numeric results of a session reach their files."""
import os
import tempfile
import numpy as np
import quanguru as qg
from quanguru.extensions.saveReadCSV import saveQResCSV
from qgmon import model as M, simmodel as S
from qgmon.core import Abort, arr

RULE = ('Random (ragged, nested, integer, real, complex, extreme) data are written and read back with every reading option; sessions of simulations with sweeps store '
        'scalar, array and averaged results on simulations, protocols and systems with aliases, all results are saved into a scratch folder, and the set of files '
        'and the content of each of them are compared with the results in memory. Signature: kind of data and shape, or result shapes.')
MIN_EVENTS = {'file': 300, 'value': 5000, 'session': 20, 'ragged': 10, 'complex': 20, 'int': 10, 'nested': 10, 'average': 5}


def values(rng, n, kind):
    if kind == 'int':
        v = [int(x) for x in rng.integers(-10**6, 10**6, n)]
        if rng.random() < .2:
            v[0] = 2**53 - 1
        return v
    x = rng.normal(size=n) * 10. ** rng.integers(-12, 12, n)
    if rng.random() < .3:
        x[int(rng.integers(n))] = [0., -0., np.inf, 1e-308, 5e-324, 1.7976931348623157e308, .1 + .2][int(rng.integers(7))]
    if kind == 'complex':
        y = rng.normal(size=n) * 10. ** rng.integers(-12, 12, n)
        if rng.random() < .3:
            y[int(rng.integers(n))] = [0., -0., 1e-300][int(rng.integers(3))]
        x = np.where(np.isfinite(x), x, 1.) + 1j * y
    how = int(rng.integers(3))
    if how == 0:
        return x
    if how == 1:
        return list(x)                            # numpy scalars
    return [complex(z) if kind == 'complex' else float(z) for z in x]


def same(m, got, want, what):
    m.ev('value', len(want))
    got, want = np.asarray(got), np.asarray(want)
    return m.check(got.shape == want.shape and bool(np.all(got == want)), what, f'{got!r:.300} instead of {want!r:.300}')


def check_read(rng, m, file, rows, kind):
    """Read with every option that keeps the values."""
    m.ev('file')
    opts = []
    if kind == 'complex':
        opts.append((dict(datatype=complex if rng.random() < .5 else np.complex128, realVal=False), lambda r: np.asarray(r)))
        opts.append((dict(datatype=complex), lambda r: np.real(np.asarray(r))))
    else:
        opts.append(({}, lambda r: np.asarray(r, dtype=float)))
        opts.append((dict(datatype=float), lambda r: np.asarray(r, dtype=float)))
        if kind == 'int':
            opts.append((dict(datatype=int), lambda r: np.asarray(r)))
        if not any(np.any(~np.isfinite(np.asarray(r, dtype=float))) for r in rows):
            opts.append((dict(datatype=complex), lambda r: np.asarray(r, dtype=float)))
    for kw, want in opts:
        got = qg.readCSV(file, **kw)
        if len(rows) == 1:
            ok = same(m, got, want(rows[0]), 'values read from a file are those written')
        else:
            ok = m.eq(len(got), len(rows), 'each row that is written is read') and \
                all(same(m, g, want(r), 'values read from a file are those written') for g, r in zip(got, rows))
        if not ok:
            raise Abort


def plain(rng, m):
    with tempfile.TemporaryDirectory() as tmp:
        path = tmp if rng.random() < .5 else os.path.join(tmp, 'new folder')
        expected = {}
        for i in range(int(rng.integers(1, 4))):
            kind = ['real', 'int', 'complex'][int(rng.integers(3))]
            m.ev(kind)
            shape = ['row', 'rows', 'ragged', 'matrix'][int(rng.integers(4))]
            if shape == 'row':
                data = values(rng, int(rng.integers(1, 30)), kind)
                rows = [data]
            elif shape == 'matrix':
                data = np.array([values(rng, 4, kind) for _ in range(int(rng.integers(1, 6)))])
                rows = list(data)
            else:
                n = int(rng.integers(1, 10))
                data = [values(rng, n if shape == 'rows' else int(rng.integers(1, 12)), kind) for _ in range(int(rng.integers(1, 8)))]
                rows = data
                m.ev(shape)
                if rng.random() < .3:
                    data = tuple(data)
            name = ['res', 'x.y', 'a b', 12][int(rng.integers(4))]
            expected[str(name) + '.txt'] = (rows, kind)
            ret = qg.saveCSV(data, path=path, fileName=name)
            m.eq(ret, path, 'saving returns the folder')
            m.sig('plain', kind, shape, len(rows), len(rows[0]))
        m.eq(sorted(os.listdir(path)), sorted(expected), 'a file is written under its name')
        for name, (rows, kind) in expected.items():
            check_read(rng, m, os.path.join(path, name), rows, kind)
        if rng.random() < .3:
            sub = os.path.join(tmp, 'stamped')
            data = values(rng, 5, 'real')
            qg.saveCSV(data, path=sub)
            fs = os.listdir(sub)
            if m.eq(len(fs), 1, 'data without a name are saved under a time stamp'):
                check_read(rng, m, os.path.join(sub, fs[0]), [data], 'real')
        m.sample = {'files': sorted(expected)}


def flatten(name, data, out):
    """Files for a nested result: rows of numbers in one file, deeper levels in one file per index."""
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, (list, np.ndarray)) else 0
    d = depth(data)
    if d <= 2:
        out[name] = [data] if d == 1 else [[data]] if d == 0 else list(data)
        return
    digits = len(str(len(data) - 1))
    for i, x in enumerate(data):
        flatten(name + str(i).zfill(digits), x, out)


def session(rng, m):
    m.ev('session')
    w = S.World(rng, m, updates=False, nsys=None)
    objs = [w.sim] + [e.lib for e in w.entries if not e.internal] + [r.lib for r, _ in w.systems()]
    keys = ['fid', 'obs', 'state', 'avg', 'c']
    plan = []
    for o in objs:
        if rng.random() < .3:
            continue
        if rng.random() < .3 and o is not w.sim:
            o.alias = 'al' + str(int(rng.integers(10**6)))
        ks = [k for k in keys if rng.random() < .5]
        plan.append((o, ks))

        def compute(obj, state, ks=ks):
            st = arr(state[0] if isinstance(state, list) else state).reshape(-1)
            for k in ks:
                if k == 'fid':
                    obj.qRes.singleResult = k, float(abs(st[0])**2)
                elif k == 'obs':
                    obj.qRes.singleResult = k, np.float64(rng.normal())
                elif k == 'state':
                    obj.qRes.singleResult = k, np.abs(st)
                elif k == 'avg':
                    obj.qRes.resAverage = k, float(abs(st[-1])**2)
                else:
                    obj.qRes.singleResult = k, complex(st[0])
        o.compute = compute
    big = rng.random() < .25
    for i in range(int(rng.integers(0, 4))):
        leaf = w.roots[0].leaves()[0]
        n = 11 if big and i in (1, 2) else int(rng.integers(2, 4))
        tgt = [(leaf.lib, 'frequency'), (w.roots[-1].leaves()[-1].lib, 'frequency'), (w.sim.auxObj, 'k')][i]
        w.sim.Sweep.createSweep(system=tgt[0], sweepKey=tgt[1], sweepList=[float(x) for x in rng.uniform(.1, 1, n)],
                                **({'combinatorial': True} if i else {}))
    w.sim.delStates = True
    w.run()
    want = {}
    for o, ks in plan:
        members = ''.join(s for s in [str(o.qRes.name.name), *o.qRes.name.alias] if isinstance(s, str))
        res = o.qRes.resultsDict
        for k in ks:
            m.ev({'avg': 'average', 'c': 'complex'}.get(k, 'res'))
            out = {}
            flatten(members + k, res[k], out)
            if len(out) > 1:
                m.ev('nested')
            m.check(not set(out) & set(want), 'results of different owners and points have different files', members + k)
            for f, rows in out.items():
                want[f + '.txt'] = (rows, 'complex' if k == 'c' else 'real')
    with tempfile.TemporaryDirectory() as tmp:
        saveQResCSV((plan[0][0] if plan else w.sim).qRes, tmp)
        got = sorted(os.listdir(tmp))
        if not m.check(got == sorted(want), 'every numeric result is saved into its file', f'{len(got)} files; missing {sorted(set(want) - set(got))[:5]} '
                       f'unexpected {sorted(set(got) - set(want))[:5]}'):
            raise Abort
        for f, (rows, kind) in want.items():
            check_read(rng, m, os.path.join(tmp, f), rows, kind)
    m.sig('session', w.kind, len(want), tuple(sorted(set(k for _, ks in plan for k in ks))), w.sim.Sweep.indMultip)
    m.sample = {'kind': w.kind, 'files': sorted(want)[:8]}


FAMILIES = [('plain', plain, 200, 8000, 20), ('session', session, 60, 1200)]
