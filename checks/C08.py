"""C08: sweeps visit every combination of values exactly once, in order, and results are shaped by the sweeps."""
import numpy as np
import quanguru as qg
from qgmon import model as M, promodel as PM, simmodel as S
from qgmon import ref
from qgmon.core import Abort, arr, Skip

RULE = ('Random sweeps (frequencies, term and gate parameters, ratios, initial states, dimensions, times, several systems at once, ranges, logarithmic, custom functions, '
        'auxiliary values; simultaneous or combinatorial, first or later) run over random simulations. Hooks log the parameters and states seen at every point; '
        'the visited points, results and states are compared with the mirror of the grid. Signature: sweep kinds, lengths, combination pattern, run kind.')
MIN_EVENTS = {'leave': 20, 'owner swept': 1, 'member left': 1, 'run': 100, 'point': 500, 'sweep': 200, 'result': 1500, 'stored': 400, 'kind:freq': 15, 'kind:angle': 5, 'kind:dim': 5, 'kind:initial': 15,
              'kind:time': 5, 'kind:range': 10, 'kind:function': 5, 'kind:aux': 5, 'wide:range': 10, 'wide:log': 10}


def values(rng, n, lo=-2, hi=2):
    if rng.random() < .1:       # hardly different from each other
        x, d = float(rng.uniform(lo, hi)), float(10 ** rng.uniform(-5.5, -2.5))
        return [x + d * int(i) for i in rng.permutation(n)]
    return [float(x) for x in rng.uniform(lo, hi, n)]


def make_sweep(rng, m, w, n, owner):
    """Create one random sweep of n points through `owner` (a Sweep); returns MSweep or None if the chosen kind does not apply."""
    roots = w.roots
    root = roots[int(rng.integers(len(roots)))]
    k = ['freq', 'freq', 'freqs', 'term', 'angle', 'ratio', 'initial', 'initial', 'dim', 'time', 'range', 'log', 'function', 'aux', 'pinitial'][int(rng.integers(15))]
    if k in ('freq', 'range', 'log'):
        s = root.leaves()[int(rng.integers(len(root.leaves())))]
        t = s.terms[0]
        system = s.lib.name if rng.random() < .2 else s.lib
        if k == 'freq':
            vals = values(rng, n)
            k2 = rng.random()
            if k2 < .3:
                vals = np.array(vals)
            elif k2 < .4:
                vals = [int(x) for x in rng.integers(-3, 4, n)]
            if s.lib is getattr(w.sim, 'superSys', None) and rng.random() < .5:      # the owner of the simulation, unless told
                lib = owner.createSweep(sweepKey='frequency', sweepList=vals)
                m.ev('owner swept')
            else:
                lib = owner.createSweep(system=system, sweepKey='frequency', sweepList=vals)
        elif k == 'range':
            lo, st = float(np.round(rng.uniform(-2, 2), 1)), float(np.round(rng.uniform(.1, .7), 1))
            if rng.random() < .3:
                st = -st
            hi = lo + st * (n - 1) + (st * float(rng.uniform(.05, .9)) if rng.random() < .5 else 0)
            if rng.random() < .5:
                hi = float(np.round(hi, 3))
                n2 = int(np.floor((hi - lo) / st + 1e-9)) + 1
                if n2 != n:
                    hi = lo + st * (n - 1)
            vals = [lo + st * i for i in range(n)]
            lib = owner.createSweep(system=system, sweepKey='frequency', sweepMin=lo, sweepMax=hi, sweepStep=st)
        else:
            lo, hi = float(rng.uniform(-2, 0)), float(rng.uniform(0, .5))
            vals = [10**(lo + (hi - lo) * i / max(1, n - 1)) for i in range(n)]
            lib = owner.createSweep(system=system, sweepKey='frequency', sweepMin=lo, sweepMax=hi, sweepStep=n, logSweep=True)

        def apply(i):
            t.freq = vals[i]
        ms = S.MSweep(k, n, apply)
        ms.observe = lambda: s.lib.frequency
        ms.want = lambda i: vals[i]
    elif k == 'freqs':
        leaves = [s for r in roots for s in r.leaves()]
        if len(leaves) < 2:
            return None
        ss = [leaves[int(i)] for i in rng.choice(len(leaves), 2, replace=False)]
        vals = values(rng, n)
        lib = owner.createSweep(system=[s.lib for s in ss], sweepKey='frequency', sweepList=vals)

        def apply(i):
            for s in ss:
                s.terms[0].freq = vals[i]
        ms = S.MSweep(k, n, apply)
        ms.observe = lambda: [s.lib.frequency for s in ss]
        ms.want = lambda i: [vals[i]] * len(ss)
        ms.members = ss
    elif k == 'term':
        ts = [t for t in root.terms_below() if t.parts is None]
        t = ts[int(rng.integers(len(ts)))]
        vals = values(rng, n)
        lib = owner.createSweep(system=t.lib, sweepKey='frequency', sweepList=vals)

        def apply(i):
            t.freq = vals[i]
        ms = S.MSweep(k, n, apply)
        ms.observe = lambda: t.lib.frequency
        ms.want = lambda i: vals[i]
    elif k in ('angle', 'ratio'):
        ps = [p for pool in w.pools.values() for p in pool if isinstance(p, PM.MGate if k == 'angle' else PM.MFree)]
        if not ps:
            return None
        p = ps[int(rng.integers(len(ps)))]
        vals = values(rng, n) if k == 'angle' else values(rng, n, .3, 2)
        lib = owner.createSweep(system=p.lib, sweepKey=k, sweepList=vals)

        def apply(i):
            setattr(p, k, vals[i])
        ms = S.MSweep(k, n, apply)
        ms.observe = lambda: getattr(p.lib, k)
        ms.want = lambda i: vals[i]
    elif k == 'initial':
        if isinstance(root.own, np.ndarray) and root.comp:
            s = root
        else:
            nodes = list(root.walk())
            s = nodes[int(rng.integers(len(nodes)))]
        vals = [S.rand_tree_input(rng, s) for _ in range(n)] if rng.random() < .8 or s is not root else [ref.ket(rng, s.dimension()) for _ in range(n)]
        lib = owner.createSweep(system=s.lib, sweepKey='initialState', sweepList=vals)

        def apply(i):
            S.put_input(s, vals[i])
        ms = S.MSweep(k, n, apply)
        ms.touch = s
    elif k == 'pinitial':
        es = [e for e in w.entries if not e.internal]
        if not es:
            return None
        e = es[int(rng.integers(len(es)))]
        vals = [S.rand_tree_input(rng, e.root) for _ in range(n)]
        lib = owner.createSweep(system=e.lib, sweepKey='initialState', sweepList=vals)

        def apply(i):
            e.inp = vals[i]
        ms = S.MSweep(k, n, apply)
    elif k == 'dim':
        ls = [s for s in root.leaves() if s.kind in ('cavity', 'spin') and not M.pauli_locked(s)]
        if not ls or any(getattr(x, 'own', None) is not None for x in root.walk()) or any(e.inp is not None for e in w.entries if e.root is root):
            return None
        s = ls[int(rng.integers(len(ls)))]
        lo = 1 + (max(s.inp) if isinstance(s.inp, (list, tuple, dict)) else s.inp)
        vals = [int(x) for x in rng.integers(max(2, lo), max(3, lo + 2), n)]
        if rng.random() < .3:
            vals = np.array(vals)
        lib = owner.createSweep(system=s.lib, sweepKey='dimension', sweepList=vals)

        def apply(i):
            s.dim = int(vals[i])
        ms = S.MSweep(k, n, apply)
        ms.observe = lambda: s.lib.dimension
        ms.want = lambda i: int(vals[i])
        ms.dims = root
    elif k == 'time':
        key = ['stepSize', 'totalTime'][int(rng.integers(2))]
        # (a conjugated step that is nowhere a plain step takes its times from its system)
        if any(e.dt is not None or (w.kind == 'pro' and "'" in e.mp.desc()) for e in w.entries):
            return None
        if w.timed.setdefault('key', key) != key:
            return None
        if key == 'stepSize':
            # totalTime stays
            T = w.T
            vals = [T / (float(rng.integers(1, 6)) - .5) for _ in range(n)]
        else:
            vals = [(float(rng.integers(1, 6)) - .5) * w.dt for _ in range(n)]
        tgt = w.time_owner
        lib = owner.createSweep(system=tgt, sweepKey=key, sweepList=vals)

        def apply(i):
            if key == 'stepSize':
                w.dt = vals[i]
                w.n = int(np.floor(T / w.dt)) + 1
            else:
                w.T = vals[i]
                w.n = int(np.floor(vals[i] / w.dt)) + 1
        ms = S.MSweep(k, n, apply)
        ms.observe = lambda: getattr(w.sim, key)
        ms.want = lambda i: vals[i]
    elif k == 'function':
        s = root.leaves()[0]
        t = s.terms[0]
        vals = values(rng, n)
        lib = owner.createSweep(system=s.lib, sweepKey='frequency', sweepList=list(range(n)))

        def fun(swp):
            for x in swp.subSys.values():
                x.frequency = vals[swp.index]
        lib.sweepFunction = fun

        def apply(i):
            t.freq = vals[i]
        ms = S.MSweep(k, n, apply)
        ms.observe = lambda: s.lib.frequency
        ms.want = lambda i: vals[i]
    else:
        name = f'aux{len(w.sweeps)}'
        vals = values(rng, n)
        lib = owner.createSweep(system=root.lib, sweepKey=name, sweepList=vals)
        ms = S.MSweep(k, n, lambda i: None)
        ms.observe = lambda: root.lib.auxDict[name]
        ms.want = lambda i: vals[i]
    ms.lib = lib
    ms.vals = vals
    m.ev('kind:' + k)
    m.ev('sweep')
    return ms


def make_world(rng, m, **kw):
    w = S.World(rng, m, **kw)
    w.timed = {}
    w.time_owner = w.sim if w.kind != 'syspro' else w.sim
    return w


def add_sweeps(rng, m, w, nmax=3):
    shape_len = w.shape()[-1] if w.sweeps else None
    total = int(np.prod(w.shape())) if w.sweeps else 1
    touched = [s.touch for s in w.sweeps if hasattr(s, 'touch')]
    for i in range(int(rng.integers(1, nmax + 1))):
        comb = bool(rng.random() < (.55 if w.sweeps else .25))
        n = shape_len if (w.sweeps and not comb) else M.tail(rng, 1, 5, 13, .05)
        if w.sweeps and not comb and rng.random() < .2:
            n += int(rng.integers(1, 3))      # (values beyond the first sweep of the group are not visited)
        if w.sweeps and comb and total * n > 24:
            continue
        ms = make_sweep(rng, m, w, n, w.sim.Sweep)
        if ms is None:
            continue
        s = getattr(ms, 'touch', None)
        if s is not None:
            # a sweep of the state of a composite fixes the states of its parts and the other way around; kets need fixed dimensions
            if any(x is s or x in s.walk() or s in x.walk() for x in touched) or any(getattr(z, 'dims', None) is s.root() for z in w.sweeps):
                ms.lib.superSys.removeSweep(ms.lib)
                m.ev('kind:' + ms.label, -1)
                m.ev('sweep', -1)
                continue
            touched.append(s)
        if hasattr(ms, 'dims') and any(x.root() is ms.dims for x in touched) or (ms.label == 'pinitial' and any(hasattr(z, 'dims') for z in w.sweeps)) or \
                (hasattr(ms, 'dims') and any(z.label == 'pinitial' for z in w.sweeps)):
            ms.lib.superSys.removeSweep(ms.lib)
            m.ev('kind:' + ms.label, -1)
            m.ev('sweep', -1)
            continue
        ms.comb = comb
        if comb:
            ms.lib.combinatorial = True
        w.sweeps.append(ms)
        if len(w.sweeps) == 1:
            total = shape_len = n
        elif comb:
            total *= n
            shape_len = n
    return w.sweeps


class Boom(Exception):
    """An error of a computation of the user."""


def tick(w):
    """Fails at the chosen call of the computations of a run."""
    if getattr(w, 'boom', None) is not None:
        w.boom -= 1
        if w.boom < 0:
            w.boom = None
            raise Boom


def install(rng, w, seen):
    """Hooks logging what is in force at every point and storing results of every kind of owner."""
    def pre(sim):
        seen.append([[s.observe() if hasattr(s, 'observe') else None for s in w.sweeps], []])
        tick(w)
    w.sim.preCompute = pre

    def compute(sim, states):
        seen[-1][1].append([arr(s) for s in states])
        tick(w)
        sim.qRes.singleResult = 'p0', [float(abs(arr(s)[0, 0])**2) for s in states]
        sim.qRes.singleResult = ['count', len(seen)]
    w.sim.compute = compute
    for e in w.entries:
        if not e.internal:
            def pc(pro, state):
                pro.qRes.singleResult = 'first', complex(arr(state)[0, 0])
                tick(w)
            e.lib.compute = pc
    for r, e in w.systems():
        def sc(s, state):
            s.qRes.resultsMethod('norm', float(np.linalg.norm(arr(state))))
            tick(w)
            s.qRes.singleResult = 'last', complex(arr(state)[-1, 0])
        r.lib.compute = sc


def squeeze(lis):
    return lis[0] if len(lis) == 1 else lis


def check_results(m, w, seen, ret=None):
    pts = w.points()
    if not m.check(len(seen) == len(pts), 'every combination of sweep values is run exactly once', f'{len(seen)} runs for {len(pts)} combinations {w.shape()}'):
        raise Abort
    inst = 0
    for c, (idx, (obs, states)) in enumerate(zip(pts, seen)):
        w.apply_point(idx)
        m.ev('point')
        g = -1
        for i, s in enumerate(w.sweeps):
            if i == 0 or s.comb:
                g += 1
            if hasattr(s, 'observe'):
                if not any(z is not s and z.label in ('freq', 'freqs', 'term', 'range', 'log', 'function') and s.label in ('freq', 'freqs', 'term', 'range', 'log', 'function')
                           for z in w.sweeps) and not any(z is not s and z.label == s.label for z in w.sweeps):
                    ok = m.close(obs[i], s.want(idx[g]), 'swept parameters have the value of the current point', tol=1e-12)
                    if not ok:
                        raise Abort
        traj = w.trajectories()
        if not m.check(len(states) == w.n + 1 and all(len(x) == len(traj) for x in states), 'every point runs all steps from its initial state',
                       f'{len(states)} instants instead of {w.n + 1}'):
            raise Abort
        for k, row in enumerate(states):
            for a, t in zip(row, traj):
                if not m.close(a, t[k], 'the evolution of a point uses the values of that point', tol=1e-7):
                    raise Abort
        # results of this point, in the shape of the sweeps
        def res(owner, key):
            r = owner.resultsDict[key]
            return S.at(r, idx)
        norm = (lambda x: x) if not idx else squeeze
        want = norm([[float(abs(t[k][0, 0])**2) for t in traj] for k in range(w.n + 1)])
        ok = m.close(res(w.sim, 'p0'), want, 'results of a point are found at its place', tol=1e-7)
        ok = ok and m.eq(res(w.sim, 'count'), norm([c + 1] * (w.n + 1)), 'results of a point are found at its place')
        for e, t in zip(w.entries, traj):
            if not e.internal:
                ok = ok and m.close(res(e.lib, 'first'), norm([x[0, 0] for x in t]), 'results of a protocol are found at the place of their point', tol=1e-7)
        for r, e in w.systems():
            t = traj[w.entries.index(e)]
            ok = ok and m.close(res(r.lib, 'last'), norm([x[-1, 0] for x in t]), 'results of a system are found at the place of their point', tol=1e-7)
            ok = ok and m.close(res(r.lib, 'norm'), norm([1.0] * (w.n + 1)), 'results of a system are found at the place of their point', tol=1e-7)
        m.ev('result', w.n + 1)
        for e, t in zip(w.entries, traj):
            key = str(e.name()) + 'Results'
            got = S.at(w.sim.states[key], idx)
            m.ev('stored')
            ok = ok and m.eq(len(got), len(t), 'states of a point are found at its place') and \
                all(m.close(a, b, 'states of a point are found at its place', tol=1e-7) for a, b in zip(got, t))
        if not ok:
            raise Abort
    # nothing beyond the grid
    def shape_ok(nested, shp):
        return not shp or (len(nested) == shp[0] and all(shape_ok(x, shp[1:]) for x in nested))
    m.check(shape_ok(w.sim.resultsDict['p0'], w.shape()), 'results have the shape of the sweeps', str(w.shape()))
    m.check(shape_ok(w.sim.states[str(w.entries[0].name()) + 'Results'], w.shape()), 'states have the shape of the sweeps', str(w.shape()))


def grid(rng, m):
    w = make_world(rng, m, maxdim=3, maxD=9)
    add_sweeps(rng, m, w)
    if not w.sweeps:
        raise Skip
    m.note('sweeps', [(s.label, s.n, s.comb) for s in w.sweeps])
    seen = []
    install(rng, w, seen)
    w.run()
    m.ev('run')
    check_results(m, w, seen)
    m.sig('grid', w.kind, tuple((s.label, s.n, s.comb) for s in w.sweeps), tuple(e.desc() for e in w.entries))
    m.sample = {'kind': w.kind, 'sweeps': [(s.label, s.n, s.comb) for s in w.sweeps], 'shape': w.shape(), 'entries': [e.desc() for e in w.entries]}


def big(rng, m):
    """Many combinatorial and simultaneous sweeps: the visited grid itself."""
    q = qg.Qubit(frequency=1.)
    q.initialState = 0
    q.simStepSize = .3
    q.simTotalTime = .2
    ns, sws, names = [], [], []
    total = 1
    for i in range(int(rng.integers(1, 7))):
        comb = bool(rng.random() < .6)
        n = M.tail(rng, 1, 6, 24, .15) if (i == 0 or comb) else ns[-1]
        if (i == 0 or comb) and total * n > 300:
            continue
        if i == 0 or comb:
            total *= n
            ns.append(n)
        elif not ns:
            continue
        how = int(rng.integers(5))
        if how == 0:
            lo, st = float(rng.uniform(-2, 2)), float(rng.uniform(.01, 1)) * (1 if rng.random() < .6 else -1)
            if rng.random() < .3:
                lo, st = int(rng.integers(-5, 6)), int(rng.integers(1, 4)) * (1 if rng.random() < .6 else -1)
            vals, kw = [lo + st * j for j in range(n)], {'sweepMin': lo, 'sweepMax': lo + st * (n - 1) + (st * .4 if rng.random() < .5 else 0), 'sweepStep': st}
            m.ev('wide:range')
        elif how == 1:
            lo, hi = float(rng.uniform(-3, 2)), float(rng.uniform(-3, 2))
            vals, kw = [10 ** (lo + (hi - lo) * j / max(1, n - 1)) for j in range(n)], {'sweepMin': lo, 'sweepMax': hi, 'sweepStep': n, 'logSweep': True}
            m.ev('wide:log')
        else:
            vals = values(rng, n) if how == 2 else [float(x) for x in rng.integers(0, 1000, n)]
            kw = {'sweepList': vals if how < 4 else tuple(vals) if rng.random() < .5 else np.array(vals)}
        lib = q.simulation.Sweep.createSweep(system=q, sweepKey=f'v{i}', combinatorial=comb, **kw)
        m.eq(len(lib.sweepList), n, 'a sweep has the number of values it was given')
        sws.append((lib, vals, len(ns) - 1))
        names.append(f'v{i}')
    seen = []

    def compute(s, state):
        seen.append(tuple(s.auxDict[k] for k in names))
        s.qRes.singleResult = 'n', len(seen)
        s.qRes.singleResult = 'n', len(seen) + .5
    q.compute = compute
    q.preCompute = lambda s: None
    # one compute at t0 and one after the single step
    q.runSimulation()
    want = []
    for idx in np.ndindex(*ns):
        v = tuple(vals[idx[g]] for _, vals, g in sws)
        want += [v, v]
    m.close(seen, want, 'every combination of sweep values is run exactly once, the last sweep being the fastest', tol=1e-12)
    m.eq(np.shape(q.resultsDict['n'])[:len(ns)], tuple(ns), 'results have the shape of the sweeps')
    m.close(np.array(q.resultsDict['n']).reshape(-1)[0::4], np.arange(total) * 2 + 1, 'results of a point are found at its place')
    m.ev('point', total)
    m.sig('big', tuple(ns), tuple(g for _, _, g in sws))


def removal(rng, m):
    """Removed sweeps are not swept; without sweeps a simulation runs once."""
    w = make_world(rng, m, maxdim=2, maxD=4)
    add_sweeps(rng, m, w)
    if not w.sweeps:
        raise Skip
    if rng.random() < .7:
        w.run()
        for idx in w.points():
            w.apply_point(idx)
    i = int(rng.integers(len(w.sweeps)))
    several = [j for j, x in enumerate(w.sweeps) if hasattr(x, 'members')]
    if several and rng.random() < .8:
        i = several[0]
    s = w.sweeps[i]
    how = int(rng.integers(3)) > 0
    if how == 0:
        w.sim.Sweep.removeSweep(s.lib)
        w.sweeps.remove(s)
    else:
        objs = list(s.lib.subSys.values())
        if len(objs) > 1 and rng.random() < .7:      # the sweep goes on for the others
            objs = [objs[int(rng.integers(len(objs)))]]
            m.ev('member left')
        for o in objs:
            w.sim.removeSweep(o)
        for x in w.sweeps:
            if hasattr(x, 'members'):
                x.members[:] = [y for y in x.members if not any(y.lib is o for o in objs)]
        m.eq([x.lib in w.sim.Sweep.sweeps.values() for x in w.sweeps], [bool(len(x.lib.subSys)) for x in w.sweeps], 'a sweep is removed when none of its systems is left')
        w.sweeps = [x for x in w.sweeps if x.lib in w.sim.Sweep.sweeps.values()]
        m.check(all(not any(o is y for y in x.lib.subSys.values()) for x in w.sweeps for o in objs), 'a removed system is in no sweep any more')
        if any(len(x.lib.subSys) != len(getattr(x, 'members', [0])) for x in w.sweeps):
            raise Skip
    # what remains has to be a valid set of sweeps: simultaneous ones are at least as long as the first of their group
    g = None
    for j, x in enumerate(w.sweeps):
        if j == 0 or x.comb:
            g = x.n
        elif x.n < g:
            raise Skip
    seen = []
    install(rng, w, seen)
    w.run()
    m.ev('removed')
    check_results(m, w, seen)
    m.sig('removal', how, i, tuple((x.label, x.n, x.comb) for x in w.sweeps))


def leavers(rng, m):
    """A protocol or system that leaves the simulation takes its own sweeps along, and no others."""
    w = make_world(rng, m, kind='sim', maxdim=2, maxD=4)
    # guests come first or last, their sweeps between the others
    guests = []
    for g in range(int(rng.integers(1, 3))):
        n = int(rng.integers(1, 4))
        if rng.random() < .6:
            root = w.roots[int(rng.integers(len(w.roots)))]
            p = qg.freeEvolution(system=root.lib)
            w.sim.addProtocol(p)
            obj = p.simulation if rng.random() < .2 else p
            key = 'ratio' if obj is p and rng.random() < .6 else f'guest{g}'
            guests.append(('p', root, p))
        else:
            q = qg.Qubit(frequency=1.)
            q.initialState = 0
            obj, key = q, ['frequency', f'guest{g}'][int(rng.integers(2))]
            guests.append(('q', None, q))
            if rng.random() < .4:
                # a system with some protocols, each with its own sweep
                for _ in range(int(rng.integers(1, 4))):
                    p = qg.freeEvolution(system=q)
                    w.sim.addProtocol(p, q) if rng.random() < .5 else w.sim.addQSystems(q, p)
                    if rng.random() < .8:
                        w.sim.Sweep.createSweep(system=p.simulation if rng.random() < .3 else p, sweepKey=f'extra{g}', sweepList=values(rng, 2, .3, 2))
                m.ev('leave:system-with-protocols')
            else:
                w.sim.addQSystems(q)
            if rng.random() < .2:
                obj, key = q.simulation, f'guest{g}'
        sw = w.sim.Sweep.createSweep(system=obj, sweepKey=key, sweepList=values(rng, n, .3, 2))
        if rng.random() < .5:
            sw.combinatorial = True
    first = list(w.sim.Sweep.sweeps.values())
    add_sweeps(rng, m, w)
    if not w.sweeps:
        raise Skip
    names = rng.random() < .5
    many = rng.random() < .4 and len({k for k, _, _ in guests}) == 1
    if many:
        what = [x.name if names else x for _, _, x in guests]
        (w.sim.removeProtocol if guests[0][0] == 'p' else w.sim.removeQSystems)(what)
    else:
        for k, _, x in guests:
            x = x.name if names else x
            if k == 'p':
                w.sim.removeProtocol(x)
            else:
                (w.sim.removeQSystems if rng.random() < .5 else w.sim.removeSubSys)(x)
    left = list(w.sim.Sweep.sweeps.values())
    m.check(not any(x in left for x in first), 'sweeps of a removed protocol or system are removed')
    if not m.eq([id(x) for x in left], [id(x.lib) for x in w.sweeps], 'sweeps of what stays in the simulation stay'):
        raise Abort
    seen = []
    install(rng, w, seen)
    w.run()
    m.ev('leave', len(guests))
    check_results(m, w, seen)
    m.sig('leavers', names, many, tuple(k for k, _, _ in guests), tuple((x.label, x.n, x.comb) for x in w.sweeps))


FAMILIES = [('leavers', leavers, 60, 900), ('grid', grid, 260, 4500), ('big', big, 120, 1000), ('removal', removal, 120, 1200)]
