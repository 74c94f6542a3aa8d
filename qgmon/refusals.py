"""Histories of edits and runs with edits in between that cannot be carried out (part of C19)."""
import numpy as np
import quanguru as qg
from qgmon import model as M, promodel as PM, simmodel as S
from qgmon import ref
from qgmon.core import Abort, arr, Skip
from checks import C08, C10

class Bogus:
    pass


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def bad_system(rng, root):
    """A random edit of a tree of systems that cannot be carried out: (label, function), or None."""
    nodes = list(root.walk())
    s = pick(rng, nodes)
    leaf = pick(rng, root.leaves())
    comps = [x for x in nodes if x.comp]
    c = pick(rng, comps) if comps else None
    coups = [t for t in root.terms_below() if t.parts is None and len(t.factors) > 1]
    big = [x for x in root.leaves() if x.dim != 2]
    k = int(rng.integers(17))
    if k == 0 and big:
        x = pick(rng, big)
        op = pick(rng, [qg.sigmax, qg.sigmay, qg.sigmaz, qg.sigmam, qg.sigmap])
        return 'operator:pauli', lambda: setattr(x.lib, 'operator', op)
    if k == 1 and coups:
        t = pick(rng, coups)
        n = len(t.factors)
        how = int(rng.integers(3))
        if how == 0:
            ops = [qg.number] * (n + int(pick(rng, [-1, 1])))
            return 'coupling:operators', lambda: setattr(t.lib, 'operator', ops)
        if how == 1:
            return 'coupling:orders', lambda: setattr(t.lib, 'order', [1] * (n + 1))
        return 'coupling:operator', lambda: setattr(t.lib, 'operator', qg.number)
    if k in (2, 3) and coups:
        ts = [t for t in coups if any(f[0].dim != 2 for f in t.factors)]
        if not ts:
            return None
        t = pick(rng, ts)
        i = pick(rng, [j for j, f in enumerate(t.factors) if f[0].dim != 2])
        ops = [pick(rng, [qg.number, qg.create, qg.identity]) for _ in t.factors]
        ops[i] = pick(rng, [qg.sigmax, qg.sigmaz, qg.sigmap])
        return 'coupling:pauli', lambda: setattr(t.lib, 'operator', ops)
    if k == 4 and coups:
        t = pick(rng, coups)
        what = pick(rng, [lambda: [t.factors[0][0].lib, 'nothing'], lambda: [3, t.factors[0][0].lib], lambda: 'nothing', lambda: 5])()
        return 'coupling:systems', lambda: setattr(t.lib, 'qSystem', what)
    if k == 5:
        v = pick(rng, ['1', [1.], (1, 2), {}, Bogus()])
        t = pick(rng, list(root.terms_below()))
        o = pick(rng, [leaf.lib, t.lib])
        return 'frequency', lambda: setattr(o, 'frequency', v)
    if k == 6:
        v = pick(rng, [0, -1, -3, 2.5, '3', [2]])
        return 'dimension', lambda: setattr(leaf.lib, 'dimension', v)
    if k == 7:
        v = pick(rng, [-1, 'x', np.ones((leaf.dim + 1, 1)), Bogus()])
        return 'state', lambda: setattr(leaf.lib, 'initialState', v)
    if k == 8 and c:
        n = len(c.subs)
        v = pick(rng, [[0] * (n + 1), [0] * (n - 1) or [0] * (n + 2), c.dimension() + 1, 'x', [0] * (n - 1) + ['x'], np.ones((c.dimension() + 1, 1))])
        return 'composite state', lambda: setattr(c.lib, 'initialState', v)
    if k == 9:
        if leaf.parent is not None and rng.random() < .5:
            up = leaf.parent
            while up.parent is not None and rng.random() < .5:
                up = up.parent
            return 'member:circular', lambda: leaf.lib.addSubSys(up.lib)
        if rng.random() < .5:
            return 'member:itself', lambda: s.lib.addSubSys(s.lib)
        if leaf.parent is None:
            return None          # (a lone system with terms)
        return 'member:of a single system', lambda: leaf.lib.addSubSys(qg.Qubit(frequency=1))
    if k == 10 and c:
        v = pick(rng, ['nothing', 3, None, Bogus()])
        how = pick(rng, ['addSubSys', 'addSubSys', 'removeSubSys'])
        if how == 'addSubSys' and rng.random() < .4:
            return 'member:parameters', lambda: c.lib.addSubSys(qg.Qubit(frequency=1), bogus=3)
        v = 'nothing' if how == 'removeSubSys' else v
        return 'member:' + how, lambda: getattr(c.lib, how)(v)
    if k == 11 and big:
        x = pick(rng, big)
        return 'term:pauli', lambda: x.lib.createTerm(operator=qg.sigmax, frequency=1.)
    if k == 12 and c:
        ls = c.leaves()
        a, b = ls[0], ls[-1]
        how = int(rng.integers(5))
        if how == 0:
            return 'term:operators', lambda: c.lib.createTerm(qSystem=[a.lib, b.lib], operator=[qg.number], frequency=1.)
        if how == 1:
            return 'term:frequency', lambda: c.lib.createTerm(qSystem=[a.lib, b.lib], operator=[qg.number, qg.number], frequency='1')
        if how == 2:
            return 'term:systems', lambda: c.lib.createTerm(qSystem=[a.lib, 'nothing'], operator=[qg.number, qg.number], frequency=1.)
        if how == 3:
            return 'term:parameters', lambda: c.lib.createTerm(qSystem=[a.lib, b.lib], operator=[qg.number, qg.number], frequency=1., bogus=2)
        return 'term:orders', lambda: c.lib.createTerm(qSystem=[a.lib, b.lib], operator=[qg.number, qg.number], order=[1], frequency=1.)
    if k == 13:
        return 'term:remove', lambda: s.lib.removeTerm('nothing')
    if k == 14:
        o = pick(rng, [s.lib, pick(rng, list(root.terms_below())).lib])
        return 'attribute', lambda: setattr(o, pick(rng, ['frequncy', 'dimensions', 'bogus']), 3)
    if k == 15:
        return 'name', lambda: setattr(s.lib, 'name', pick(rng, [3, 'x']))
    if k == 16 and c:
        cav = [x for x in c.leaves() if x.kind == 'cavity']
        mat = [x for x in c.leaves() if x.kind in ('qubit', 'spin')]
        f = pick(rng, ['JC', 'Rabi', 'Dicke'])
        if len(mat) > 1 and rng.random() < .5:
            return 'coupling:pair', lambda: getattr(c.lib, f)(1., mat[0].lib, mat[1].lib)
        if cav and mat:
            x = [cav[0].lib, mat[0].lib][::int(pick(rng, [1, -1]))]
            if rng.random() < .5 and mat[0].dim != 2:
                return 'coupling:rabi spin', lambda: c.lib.Rabi(1., *x)
            return 'coupling:strength', lambda: getattr(c.lib, f)('1', *x)
    return None


def bad_world(rng, w):
    """A random edit of a simulation, its sweeps or protocols that cannot be carried out: (label, function), or None."""
    sim = w.sim
    root = pick(rng, w.roots)
    pros = [e for e in w.entries if not e.internal]
    k = int(rng.integers(15))
    if k == 0 and w.kind == 'sim':
        other = qg.Qubit(frequency=1.)
        how = int(rng.integers(3))
        if how == 0:
            return 'protocol:of another', lambda: sim.addProtocol(qg.freeEvolution(system=other), system=root.lib,
                                                                  **({'protocolRemove': pros[0].lib} if pros and rng.random() < .5 else {}))
        if how == 1:
            return 'protocol:of none', lambda: sim.addProtocol(qg.freeEvolution())
        return 'protocol:no protocol', lambda: sim.addProtocol(pick(rng, [3, None, 'x', other]))
    if k == 1 and w.kind == 'sim':
        v = pick(rng, [3, 'nothing', Bogus()])
        return 'system:add', lambda: sim.addQSystems(v)
    if k == 2 and w.kind == 'sim':
        v = pick(rng, ['nothing', qg.Qubit(frequency=1.)])
        return 'system:remove', lambda: sim.removeQSystems(v)
    if k in (3, 4):
        how = int(rng.integers(6))
        o = root.leaves()[0].lib
        sw = sim.Sweep
        f = {0: lambda: sw.createSweep(system='nothing', sweepKey='frequency', sweepList=[1., 2.]),
             1: lambda: sw.createSweep(system=o, sweepKey='frequency', bogus=[1., 2.]),
             2: lambda: sw.createSweep(sweepKey='frequency', sweepList=[1., 2.]) if w.kind != 'x' else None,
             3: lambda: sw.createSweep(system=o, sweepList=[1., 2.]),
             4: lambda: sw.createSweep(system=[o, 'nothing'], sweepKey='frequency', sweepList=[1., 2.]),
             5: lambda: sw.removeSweep('nothing')}[how]
        if how == 2 and hasattr(sim.superSys, 'name'):
            return None             # (the sweeps of an owned simulation are those of its owner)
        return f'sweep:{how}', f
    if k in (5, 6, 7):
        attr = pick(rng, ['stepSize', 'totalTime', 'stepCount'])
        v = 0 if attr == 'stepSize' and rng.random() < .4 else 'x'
        o = w.time_set
        return 'times:' + attr, lambda: setattr(o, attr, v)
    if k == 8:
        return 'simulation:attribute', lambda: setattr(sim, 'bogus', 3)
    if k == 9 and pros:
        p = pick(rng, pros)
        how = int(rng.integers(4))
        n = p.root.dimension()
        f = {0: lambda: p.lib.createUpdate(system='nothing', key='frequency', value=1.),
             1: lambda: p.lib.createUpdate(system=p.root.leaves()[0].lib, bogus=3, value=1.),
             2: lambda: setattr(p.lib, 'initialState', np.ones((n + 1, 1))),
             3: lambda: setattr(p.lib, 'bogus', 3)}[how]
        return f'protocol:{how}', f
    if k in (10, 11):
        gs = [p for pool in w.pools.values() for p in pool if isinstance(p, PM.MGate)]
        if not gs:
            return None
        g = pick(rng, gs)
        return 'gate:axis', lambda: setattr(g.lib, 'rotationAxis', pick(rng, ['w', '', 'xy', 3]))
    if k == 12 and pros:
        ps = [e for e in pros if isinstance(e.mp, PM.MProt)]
        if not ps:
            return None
        p = pick(rng, ps)
        return 'protocol:step', lambda: p.lib.addStep(pick(rng, [3, 'nothing']))
    if k == 13:
        return 'run:processes', lambda: sim.run(p=True, coreCount=pick(rng, [0, -1]))
    if k == 14:
        return 'run:pool', lambda: sim.run(p=pick(rng, [3, 'x']))
    return None


def refuse(rng, m, got, kinds):
    """Makes the edit, which has to raise."""
    if got is None:
        return False
    label, f = got
    try:
        f()
    except Exception as e:
        if not touches_library(e, label):
            raise
    else:
        m.check(False, 'an edit that cannot be carried out is refused', label)
        raise Abort
    m.ev('refused in a history')
    m.note('refused', label)
    if label not in kinds:
        kinds.add(label)
    return label


def touches_library(e, label):
    """The error comes from the library (or from Python, for attributes that cannot be set), not from this file."""
    tb = e.__traceback__.tb_next
    while tb is not None:
        if 'quanguru' in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return label in ('name', 'attribute', 'simulation:attribute') or label.startswith('protocol:')


def observe(m, root):
    M.compare_h(m, root, 'a refused edit leaves the Hamiltonian as it was')
    ok = m.eq(root.lib.dimension, root.dimension(), 'a refused edit leaves the dimension as it was')
    for s in root.walk():
        if s.comp:
            ok = ok and m.eq([id(x) for x in s.lib.subSys.values()], [id(x.lib) for x in s.subs], 'a refused edit leaves the members as they were')
        ok = ok and m.eq(s.lib.dimension, s.dimension(), 'a refused edit leaves the dimensions as they were')
    m.ev('compared')
    if not ok:
        raise Abort


def systems(rng, m):
    """Refused edits between valid edits of a tree of systems."""
    root = M.build_tree(rng, maxdim=3, maxD=24)
    states = rng.random() < .5
    if states:
        M.set_initial(rng, root)
    words = []
    kinds = set()
    for _ in range(int(rng.integers(3, 9))):
        if rng.random() < .55:
            x = refuse(rng, m, bad_system(rng, root), kinds)
            if x:
                words.append('!' + x)
                if rng.random() < .6:
                    observe(m, root)
        else:
            f = pick(rng, [M.edit_frequency, M.edit_order, M.edit_operator, M.edit_dimension, M.edit_dimension, M.edit_addterm, M.edit_removeterm, M.edit_retarget])
            if states and f is M.edit_dimension:
                continue
            f(rng, root, m)
            words.append(f.__name__)
    if not kinds:
        raise Skip
    observe(m, root)
    # everything is built anew
    for s in root.leaves():
        if not M.pauli_locked(s) and s.kind != 'qubit' and not states:
            d = s.dim
            s.lib.dimension = d + 1
            s.lib.dimension = d
    root.lib.delMatrices()
    observe(m, root)
    if states:
        m.close(arr(root.lib.initialState), root.ket(), 'a refused edit leaves the initial state as it was')
    m.ev('kinds', len(kinds))
    m.sig('systems', tuple(words), root.describe())


def histories(rng, m):
    """Refused edits between valid edits and runs of a simulation."""
    w = C08.make_world(rng, m, maxdim=3, maxD=8)
    w.time_obj = w.time_set
    if rng.random() < .4:
        C08.add_sweeps(rng, m, w, 2)
    w.seen = []
    C08.install(rng, w, w.seen)
    words, kinds = [], set()
    for _ in range(int(rng.integers(1, 4))):
        for _ in range(int(rng.integers(1, 5))):
            k = rng.random()
            if k < .45:
                x = refuse(rng, m, bad_world(rng, w), kinds)
            elif k < .7:
                x = refuse(rng, m, bad_system(rng, pick(rng, w.roots)), kinds)
            else:
                word = pick(rng, C10.WORDS)
                if C10.edit(rng, m, w, word):
                    words.append(word)
                continue
            if x:
                words.append('!' + x)
        words.append('|')
        del w.seen[:]
        m.note('run')
        w.run()
        m.ev('run')
        C08.check_results(m, w, w.seen)
    if not kinds:
        raise Skip
    m.ev('kinds', len(kinds))
    m.sig('histories', w.kind, tuple(words))
    m.sample = {'kind': w.kind, 'edits': words}


def undone(rng, m):
    """Models that cannot be built: reading or running them raises; after the edit is undone everything is as before."""
    root = M.build_tree(rng, maxdim=3, maxD=12)
    M.set_initial(rng, root)
    q = root.lib
    dt, n = float(rng.uniform(.1, .6)), int(rng.integers(1, 5))
    k = int(rng.integers(5))
    tries = []
    leaf = pick(rng, root.leaves())
    warm = rng.random() < .5
    T = (n - .5) * dt
    q.simTotalTime, q.simStepSize = T, dt
    q.simDelStates = False
    if warm:
        q.runSimulation()
    if k == 0:
        ls = [s for s in root.leaves() if M.pauli_locked(s) and all(x.inp is None or isinstance(x.inp, (int, np.integer)) for x in root.leaves())]
        if not ls or any(x.inp is not None for x in root.walk() if x.comp):
            raise Skip
        s = pick(rng, ls)
        try:
            s.lib.dimension = 3
        except ValueError:       # refused straight away
            tries = None
        undo = lambda: setattr(s.lib, 'dimension', 2)
    elif k == 1:
        t = leaf.terms[0]
        op = t.lib.operator
        bad = pick(rng, [3, 'x'])
        t.lib.operator = bad
        undo = lambda: setattr(t.lib, 'operator', op)
    elif k == 2:
        t = pick(rng, list(root.terms_below()))
        t.lib.frequency = None
        undo = lambda: setattr(t.lib, 'frequency', t.freq)
    elif k == 3:
        def broken(sys, time):
            raise RuntimeError('no value')
        t = leaf.terms[0]
        t.lib.timeDependency = broken
        undo = lambda: setattr(t.lib, 'timeDependency', None)
    else:
        sim = q.simulation
        f = sim.evolFunc

        def broken(*a):
            raise RuntimeError('no evolution')
        sim.evolFunc = broken
        undo = lambda: setattr(sim, 'evolFunc', f)
    for _ in range(int(rng.integers(1, 3)) if tries is not None else 0):
        how = int(rng.integers(3)) if k not in (3, 4) else 2
        try:
            if how == 0:
                q.totalHamiltonian
            elif how == 1:
                q.unitary()
            else:
                q.runSimulation()
            m.check(False, 'a model that cannot be built or evolved raises when it is used', str((k, how)))
        except Abort:
            raise
        except Exception:
            tries.append(how)
    undo()
    states = q.runSimulation()
    M.compare_h(m, root, 'after the edit is undone the Hamiltonian is as before')
    u = ref.U(root.H(), dt)
    v = root.ket()
    ok = m.eq(len(states), n + 1, 'after the edit is undone every instant is run')
    for x in states:
        ok = ok and m.close(arr(x), v, 'after the edit is undone the evolution is as before', tol=1e-7)
        v = u @ v
    m.ev('recovered')
    m.sig('undone', k, tuple(tries or ()), warm, root.describe())
