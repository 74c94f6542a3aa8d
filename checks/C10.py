"""C10: running again gives the results of the current parameters, whatever was run or changed before."""
import numpy as np
import quanguru as qg
from qgmon import model as M, promodel as PM, simmodel as S
from qgmon import ref
from qgmon.core import Abort, arr, Skip
from checks import C08

RULE = ('One simulation is run many times; between runs parameters, operators, gates, times, initial states, sweeps, protocols and caches are changed at random, '
        'propagators are read, other simulations are run, runs fail in a computation of the user, or nothing happens. After every run all computations, results and states are compared with the mirror '
        'of the present parameters. Signature: run kind and sequence of edits.')
MIN_EVENTS = {'run': 250, 'rerun': 40, 'crash': 30, 'point': 500, 'result': 1000, 'edit:frequency': 20, 'edit:gate': 8, 'edit:initial': 15, 'edit:times': 15, 'edit:sweep+': 15,
              'edit:sweep-': 8, 'edit:sweeplist': 6, 'edit:sweeplength': 1, 'edit:other run': 15}
WORDS = ['frequency', 'frequency', 'order', 'operator', 'addterm', 'gate', 'gate', 'ratio', 'initial', 'initial', 'times', 'times', 'sweep+', 'sweep-', 'sweeplist',
         'read', 'delmatrices', 'other run', 'protocol', 'update', 'nothing']


def other_simulation(rng, w):
    """Runs something else that shares systems or protocols, or nothing at all, with this simulation."""
    k = int(rng.integers(3))
    if k == 0:
        q = qg.Qubit(frequency=1.0, initialState=1, simTotalTime=1.1, simStepSize=.5)
        q.simulation.Sweep.createSweep(system=q, sweepKey='frequency', sweepList=[1., 2.])
        q.runSimulation()
        return 'foreign'
    if k == 1 and w.kind != 'sys' and not (w.kind == 'pro' and w.time_obj is w.sim) and not any(e.inp is not None for e in w.entries):
        w.roots[0].lib.runSimulation()       # free evolution (and protocols) of one of the systems
        return 'system'
    es = [e for e in w.entries if not e.internal]
    if es:
        p = es[int(rng.integers(len(es)))].lib
        p.runSimulation()
        if p.simulation is w.sim:            # (this was a run of its own, the swept values stay at the last point)
            for idx in w.points():
                w.apply_point(idx)
        return 'protocol'
    return 'none'


def edit(rng, m, w, word):
    root = w.roots[int(rng.integers(len(w.roots)))]
    pool = w.pools.get(id(root), [])
    swept = w.sweeps
    if word == 'frequency':
        M.edit_frequency(rng, root, m)
    elif word == 'order':
        M.edit_order(rng, root, m)
    elif word == 'operator':
        if any(hasattr(x, 'dims') for x in swept):
            return False
        M.edit_operator(rng, root, m)
    elif word == 'addterm':
        if any(hasattr(x, 'dims') for x in swept):      # (Pauli operators need dimension 2 throughout)
            return False
        M.edit_addterm(rng, root, m)
    elif word == 'gate':
        gs = [p for p in pool if isinstance(p, PM.MGate)]
        if not gs:
            return False
        g = gs[int(rng.integers(len(gs)))]
        if rng.random() < .6:
            g.angle = g.lib.angle = rng.fresh(-3, 3, g.angle)
        else:
            g.axis = g.lib.rotationAxis = 'xyz'[int(rng.integers(3))]
    elif word == 'ratio':
        fs = [p for p in pool if isinstance(p, PM.MFree)]
        if not fs:
            return False
        f = fs[int(rng.integers(len(fs)))]
        f.ratio = f.lib.ratio = rng.fresh(.3, 2, f.ratio)
    elif word == 'initial':
        if any(hasattr(s, 'touch') for s in swept) or any(hasattr(s, 'dims') for s in swept):
            return False
        es = [e for e in w.entries if e.inp is not None]
        if es and rng.random() < .4:
            e = es[int(rng.integers(len(es)))]
            e.inp = S.rand_tree_input(rng, e.root)
            e.lib.initialState = e.inp
        else:
            nodes = list(root.walk())
            s = root if root.own is not None and root.comp else nodes[int(rng.integers(len(nodes)))]
            inp = S.rand_tree_input(rng, s) if rng.random() < .8 or s is not root else ref.ket(rng, s.dimension())
            s.lib.initialState = inp
            S.put_input(s, inp)
    elif word == 'times':
        if any(s.label == 'time' for s in swept) or any(e.dt is not None for e in w.entries):
            return False
        if w.timed and w.time_obj is not w.time_owner:
            return False
        tgt = w.sim if w.kind in ('sim', 'pro') and w.time_obj is w.sim else w.time_obj
        if rng.random() < .5:
            w.n = int(rng.integers(1, 6))
            w.dt = w.T / (w.n - .5)
            tgt.stepSize = w.dt
        else:
            w.n = int(rng.integers(1, 6))
            w.T = (w.n - .5) * w.dt
            tgt.totalTime = w.T
    elif word == 'sweep+':
        if len(swept) >= 3:
            return False
        n = len(swept)
        C08.add_sweeps(rng, m, w, 1)
        if len(w.sweeps) == n:
            return False
    elif word == 'sweep-':
        if not swept:
            return False
        s = swept[int(rng.integers(len(swept)))]
        i = swept.index(s)
        if i + 1 < len(swept) and (i == 0 or s.comb) and not swept[i + 1].comb and swept[i + 1].n != s.n:
            return False
        rest = [x for x in swept if x is not s]
        g = None
        for j, x in enumerate(rest):
            if j == 0 or x.comb:
                g = x.n
            elif x.n < g:
                return False
        w.sim.Sweep.removeSweep(s.lib)
        swept.remove(s)
    elif word == 'sweeplist':
        ss = [s for s in swept if s.label in ('freq', 'term', 'angle', 'ratio', 'aux')]
        if not ss:
            return False
        s = ss[int(rng.integers(len(ss)))]
        i = swept.index(s)
        alone = (i == 0 or s.comb) and (i + 1 == len(swept) or swept[i + 1].comb)      # (simultaneous sweeps keep a common length)
        if alone and isinstance(s.vals, list) and rng.random() < .6:
            k = int(rng.integers(1, 5))
            if int(np.prod(w.shape())) // s.n * k <= 24:
                del s.vals[k:]
                s.vals += [0.] * (k - len(s.vals))
                if k != s.n:
                    m.ev('edit:sweeplength')
                s.n = k
        new = C08.values(rng, s.n, .3, 2)
        for i in range(s.n):
            s.vals[i] = new[i]         # the mirror closes over this list
        s.lib.sweepList = list(new)
    elif word == 'read':
        for e in w.entries:
            e.lib.unitary()
            e.lib.initialState
        root.lib.totalHamiltonian
    elif word == 'delmatrices':
        root.lib.delMatrices()
    elif word == 'other run':
        m.note('ran', other_simulation(rng, w))
    elif word == 'protocol':
        if w.kind != 'sim':
            return False
        if len(w.entries) > 1 and rng.random() < .5:
            es = [e for e in w.entries if not e.internal]
            if not es:
                return False
            e = es[int(rng.integers(len(es)))]
            n = len(w.sim.Sweep.sweeps)
            if any(x is e.lib for s in swept for x in s.lib.subSys.values()) or sum(x.root is e.root for x in w.entries) == 1:
                return False
            w.sim.removeProtocol(e.lib)
            w.entries.remove(e)
            m.eq(len(w.sim.Sweep.sweeps), n, 'removing a protocol keeps the sweeps of others')
        else:
            if any(e.dt is not None for e in w.entries if e.root is root):
                return False         # (shared steps keep the step size of the protocol they were first added to)
            fresh = [p for p in pool if not any(p is x.mp for x in w.entries)]
            p = PM.new_prot(rng, root, fresh, 0)
            w.sim.addProtocol(p.lib)
            w.entries.append(S.Entry(p, root))
            C08.install(rng, w, w.seen)
    elif word == 'update':
        ps = [e.mp for e in w.entries if not e.internal]
        if not ps:
            return False
        p = ps[int(rng.integers(len(ps)))]
        root = [e.root for e in w.entries if e.mp is p][0]
        if p.updates:
            return False
        PM.add_update(rng, root, p, [q for q in w.pools[id(root)] if isinstance(q, PM.MGate)], m)
    m.ev('edit:' + word)
    m.note(word)
    return True


def crash(rng, m, w):
    """A run fails in a computation of the user: the error arrives, and what was run so far does not matter later."""
    w.boom = int(rng.integers(0, 3 + w.n * int(np.prod(w.shape())) * 2))
    try:
        w.run()
    except C08.Boom:
        m.ev('crash')
        return True
    m.check(w.boom is not None, 'an error of a computation is raised by the run')
    w.boom = None
    return False


def history(rng, m):
    w = C08.make_world(rng, m, maxdim=3, maxD=9)
    w.time_obj = w.time_set
    if rng.random() < .5:
        C08.add_sweeps(rng, m, w, 2)
    w.seen = []
    C08.install(rng, w, w.seen)
    words = []
    w.run()
    m.ev('run')
    C08.check_results(m, w, w.seen)
    for _ in range(int(rng.integers(2, 6))):
        n = 0
        for _ in range(int(rng.integers(0, 4))):
            word = WORDS[int(rng.integers(len(WORDS)))]
            if edit(rng, m, w, word):
                words.append(word)
                n += 1
        if n == 0:
            m.ev('rerun')
        if rng.random() < .25:
            words.append('crash' if crash(rng, m, w) else 'run')
        words.append('|')
        del w.seen[:]
        m.note('run')
        w.run()
        m.ev('run')
        C08.check_results(m, w, w.seen)
    m.sig('history', w.kind, tuple(words), tuple(e.desc() for e in w.entries))
    m.sample = {'kind': w.kind, 'edits': words, 'entries': [e.desc() for e in w.entries], 'sweeps': [(s.label, s.n, s.comb) for s in w.sweeps]}


FAMILIES = [('history', history, 400, 4000)]
