"""C18: everything that computations store is found afterwards, unchanged, in order, under its owner, key and sweep point."""
import multiprocessing
import zlib
import numpy as np
import scipy.sparse as sp
import quanguru as qg
from qgmon.core import Abort, arr

RULE = ('Random simulations (explicit or system owned, several systems and protocols, up to three sweeps) get computations of all three kinds on all owners, which store '
        'values of many types in all the ways there are (single results, both orders of the method, averages, calculated quantities; several times per call, into '
        'the results of other owners, sometimes using what is stored so far); single and multi process runs with and without resetting the results are compared '
        'with plain lists filled by the same computations in the specified order. Signature: owners, sweeps, ways and types, run modes.')
MIN_EVENTS = {'run': 100, 'run:parallel': 15, 'run:keep': 20, 'list': 2000, 'average': 200, 'calculated': 200, 'value': 5000}


def value(kind, key):
    """A value of the given kind, determined by the key alone."""
    h = zlib.crc32(repr(key).encode())
    r = np.random.default_rng(h)
    x = float(r.normal())
    return {'float': lambda: x, 'int': lambda: int(h % 1000), 'complex': lambda: x + 1j * float(r.normal()), 'bool': lambda: h % 2 == 0, 'none': lambda: None,
            'str': lambda: 's%d' % (h % 97), 'tuple': lambda: (x, h % 7), 'list': lambda: [x, h % 7], 'list1': lambda: [x], 'empty': lambda: [], 'dict': lambda: {'a': x},
            'npfloat': lambda: np.float64(x), 'vec': lambda: r.normal(size=1 + h % 4), 'mat': lambda: r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2)),
            'sparse': lambda: sp.csc_matrix(r.normal(size=(2, 1))), 'fixed': lambda: r.normal(size=3)}[kind]()


KINDS = ['float', 'int', 'complex', 'bool', 'none', 'str', 'tuple', 'list', 'list1', 'empty', 'dict', 'npfloat', 'vec', 'mat', 'sparse', 'last']


class Res:
    """Plain mirror of the results of an owner at one point."""

    def __init__(self):
        self.lists, self.avg, self.calc = {}, {}, {}


class Instr:
    def __init__(self, target, key, how, kind):
        self.target, self.key, self.how, self.kind = target, key, how, kind

    def lib(self, owners, marks):
        q = owners[self.target].qRes
        if self.kind == 'last':
            old = (q.calculated if self.how == 'calc' else q.resultsDict).get(self.key)
            v = [len(old), same_repr(old[-1])] if old else 'first'
        else:
            v = value(self.kind, (marks, self.key, self.target))
        if self.how == 'tuple':
            q.singleResult = self.key, v
        elif self.how == 'listed':
            q.singleResult = [self.key, v]
        elif self.how == 'method':
            q.resultsMethod(self.key, v)
        elif self.how == 'swapped':
            q.resultsMethod(v, self.key)
        elif self.how == 'avg':
            q.resAverage = self.key, v
            if self.kind == 'fixed':             # the same array is also kept as it is
                q.singleResult = self.key + ' raw', v
        else:
            q.calculated = self.key, v

    def mir(self, res, marks):
        r = res[self.target]
        d = r.calc if self.how == 'calc' else r.lists
        if self.kind == 'last':
            old = d.get(self.key)
            v = [len(old), same_repr(old[-1])] if old else 'first'
        else:
            v = value(self.kind, (marks, self.key, self.target))
        if self.how == 'avg':
            r.avg.setdefault(self.key, []).append(v)
            if self.kind == 'fixed':
                r.lists.setdefault(self.key + ' raw', []).append(v)
        else:
            d.setdefault(self.key, []).append(v)


class Hook:
    """A computation (which can be sent to other processes)."""

    def __init__(self, instr, owners, systems, counter, first):
        self.instr, self.owners, self.systems, self.counter, self.first = instr, owners, systems, counter, first

    def __call__(self, obj, *args):
        if self.first:
            self.counter[0] = 0
        for ins in self.instr:
            self.counter[0] += 1
            ins.lib(self.owners, tuple(q.frequency for q in self.systems) + (self.counter[0],))


def same_repr(x):
    return repr(arr(x) if sp.issparse(x) else x)


def same(a, b):
    if sp.issparse(a) or sp.issparse(b):
        return sp.issparse(a) and sp.issparse(b) and a.shape == b.shape and np.array_equal(arr(a), arr(b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def close_avg(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12)


def results(rng, m):
    # simulation
    kind = ['sim', 'sim', 'sys'][int(rng.integers(3))]
    nsys = 1 if kind == 'sys' else int(rng.integers(1, 4))
    systems = [qg.Qubit(frequency=float(rng.uniform(.5, 2))) for _ in range(nsys)]
    for q in systems:
        q.initialState = int(rng.integers(2))
    sim = systems[0].simulation if kind == 'sys' else qg.Simulation()
    n = 3 if rng.random() < .8 else int([1, 7, 30][int(rng.integers(3))])
    sim.totalTime, sim.stepSize = .1*n - .05, .1
    entries = []                    # (protocol or None, system)
    for q in systems:
        k = int(rng.integers(3)) if kind == 'sim' else 0
        for _ in range(max(k, 1)):
            if k == 0:
                entries.append((None, q))
                if kind == 'sim':
                    sim.addSubSys(q)
            else:
                p = qg.qProtocol(system=q, steps=[qg.freeEvolution(system=q)])
                sim.addSubSys(q, p)
                entries.append((p, q))
    owners = [sim] + [p for p, _ in entries if p is not None] + systems
    # sweeps
    groups = []
    for _ in range(int(rng.integers(0, 4))):
        q = systems[int(rng.integers(nsys))]
        comb = bool(rng.random() < .6) or not groups
        k = int(rng.integers(1, 4)) if comb else len(groups[-1][0][1])
        vals = [float(x) for x in rng.uniform(.5, 2, k)]
        if any(q is s[0] for g in groups for s in g):
            continue
        sw = sim.Sweep.createSweep(system=q, sweepKey='frequency', sweepList=vals)
        if comb:
            if groups:
                sw.combinatorial = True
            groups.append([(q, vals)])
        else:
            groups[-1].append((q, vals))
    shape = [len(g[0][1]) for g in groups]     # the first sweep is the outermost index
    # computations
    where = ['preCompute', 'compute', 'postCompute']
    hooks = {}
    names = ['a', 'b', 'c', 'long name', 'x/y']
    ways = {}                       # averages and lists do not share keys, and every list key is filled at every point
    for i, o in enumerate(owners):
        for wh in where:
            if rng.random() < .6:
                ins = []
                for _ in range(int(rng.integers(1, 4))):
                    t = i if rng.random() < .7 else int(rng.integers(len(owners)))
                    key = names[int(rng.integers(len(names)))]
                    how = ways.get((t, key)) or ['list', 'list', 'list', 'avg', 'calc'][int(rng.integers(5))]
                    if how != 'calc':
                        ways[(t, key)] = how
                    kd = KINDS[int(rng.integers(len(KINDS)))]
                    if how == 'avg':
                        kd = ways.setdefault((t, key, 'kind'), ['float', 'int', 'complex', 'npfloat', 'fixed'][int(rng.integers(5))])
                    if kd == 'last' and (how == 'calc' or n > 3):
                        kd = 'float'                 # (a value holding all earlier ones doubles every time; what was calculated at other points depends on the process)
                    h = how
                    if how == 'list':
                        h = ['tuple', 'listed', 'method', 'swapped'][int(rng.integers(4))]
                        if h == 'swapped' and kd in ('str', 'last'):
                            h = 'method'
                    ins.append(Instr(t, key, h, kd))
                hooks[(i, wh)] = ins

    counter = [0]
    for i, o in enumerate(owners):
        for wh in where:
            if (i, wh) in hooks or (i, wh) == (0, 'preCompute'):
                setattr(o, wh, Hook(hooks.get((i, wh), []), owners, systems, counter, (i, wh) == (0, 'preCompute')))
    m.note(kind, [(None if p is None else 'p') for p, _ in entries], [[len(s[1]) for s in g] for g in groups])
    m.note({k: [(x.target, x.key, x.how, x.kind) for x in v] for k, v in hooks.items()})

    order = list(range(len(owners)))                 # sim, protocols, systems in order of addition
    keep = {}

    def mirror(ind):
        """Results of one point: the same computations in the specified order on plain lists."""
        left = ind
        for g in reversed(groups):                   # (the last multiplied sweep runs fastest)
            j = left % len(g[0][1])
            left //= len(g[0][1])
            for q, vals in g:
                freq[q.name] = vals[j]
        res = [Res() for _ in owners]
        count = 0
        for wh in ['preCompute'] + ['compute'] * (n + 1) + ['postCompute']:
            for i in order:
                for ins in hooks.get((i, wh), []):
                    count += 1
                    ins.mir(res, tuple(freq[q.name] for q in systems) + (count,))
        return res
    freq = {}
    modes = []
    history = None                  # results of kept runs
    calc_hist = None
    first = True
    for _ in range(int(rng.integers(1, 4))):
        par = bool(rng.random() < .25)
        reset = bool(first or rng.random() < .6)
        first = False
        for q in systems:
            freq[q.name] = q.frequency
        kw = {} if reset and rng.random() < .5 else {'resetRes': reset}
        if par:
            pool = multiprocessing.Pool(2)
            sim.run(p=pool, **kw)
            pool.close()
            pool.join()
        else:
            sim.run(p=False, **kw)
        # (the parameters stay at the last point of a single process run, and are untouched by a parallel one)
        m.ev('run')
        m.ev('run:parallel', int(par))
        m.ev('run:keep', int(not reset))
        modes.append(('par' if par else 'one') + ('' if reset else '+'))
        total = int(np.prod(shape)) if shape else 1
        pts = [mirror(i) for i in range(total)]
        new, calc = [], []
        for i in range(len(owners)):
            d = {}
            for key in pts[0][i].lists:
                ls = [p[i].lists[key] for p in pts]
                d[key] = ls[0] if not shape else nest([x[0] if len(x) == 1 else x for x in ls], shape)
            for key in pts[0][i].avg:
                av = [Avg(p[i].avg[key]) for p in pts]
                d[key] = av[0] if not shape else nest(av, shape)
            new.append(d)
            c = {}
            for p in pts:
                for key, v in p[i].calc.items():
                    c.setdefault(key, []).extend(v)
            calc.append(c)
        if reset or history is None:
            history, calc_hist, kept = new, calc, 1
        else:
            for d, e in zip(history, new):
                for key, v in e.items():
                    d[key] = d[key] + v if key in d and isinstance(v, list) else v
            kept += 1
            for d, e in zip(calc_hist, calc):
                for key, v in e.items():
                    d[key] = d.get(key, []) + v
        size = [kept * shape[0]] + shape[1:] + [n + 1] if shape else [kept * (n + 1)]
        for p, q in entries:
            name = str((q if p is None else p).name) + 'Results'
            for who in (sim, q if p is None else p):
                m.ev('states')
                if not m.eq(dims(who.states.get(name)), size, 'states of every point are kept'):
                    raise Abort
        for i, o in enumerate(owners):
            got = o.resultsDict
            if not m.check(set(history[i]) <= set(got), 'everything stored is found under its owner and key', (sorted(got), sorted(history[i]))):
                raise Abort
            m.check(not {k for k in got if k not in history[i] and got[k] not in ([], None)}, 'nothing else is stored', sorted(got))
            m.check(o.qRes.resultsDict is got, 'results are those of the owner')
            for key, want in history[i].items():
                m.ev('average' if isinstance(flat(want), Avg) else 'list')
                if not m.check(agree(got[key], want, m), 'stored values are found unchanged, in order, at their point',
                               (modes, i, key, str(got[key])[:200], str(show(want))[:200])):
                    raise Abort
            gc = o.qRes.calculated
            for key, want in calc_hist[i].items():
                m.ev('calculated')
                if not m.check(key in gc and same(list(gc[key]), want), 'calculated quantities are kept in order', (modes, i, key, str(gc.get(key))[:200], str(want)[:200])):
                    raise Abort
    m.sig('res', kind, len(owners), tuple(shape), tuple(modes), tuple(sorted({(x.how, x.kind) for v in hooks.values() for x in v})))
    m.sample = {'owners': len(owners), 'shape': shape, 'modes': modes}


class Avg:
    def __init__(self, vals):
        self.v = sum(np.asarray(x) for x in vals) / len(vals)


def dims(x):
    d = []
    while isinstance(x, list):
        d.append(len(x))
        if not x or any(isinstance(y, list) != isinstance(x[0], list) or isinstance(y, list) and len(y) != len(x[0]) for y in x):
            break
        x = x[0]
    return d


def flat(x):
    while isinstance(x, list) and x:
        x = x[0]
    return x


def show(x):
    return [show(y) for y in x] if isinstance(x, list) else x.v if isinstance(x, Avg) else x


def nest(flatlist, shape):
    if len(shape) == 1:
        return list(flatlist)
    k = len(flatlist) // shape[0]
    return [nest(flatlist[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])]


def agree(got, want, m):
    if isinstance(want, Avg):
        m.ev('value')
        return not isinstance(got, list) and close_avg(got, want.v)
    if isinstance(want, list) and isinstance(got, list):
        return len(got) == len(want) and all(agree(a, b, m) for a, b in zip(got, want))
    m.ev('value')
    return same(got, want)


FAMILIES = [('results', results, 200, 4000)]
