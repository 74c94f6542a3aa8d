"""C06: time parameters reach everything bound to them, own values win."""
import numpy as np
import quanguru as qg
from qgmon import model as M, promodel as PM
from qgmon import ref
from qgmon.core import Abort, arr

RULE = ('A chain simulation -> system -> protocols -> steps is linked in random order while total times, step sizes, step counts, samples and state keeping are set '
        'at random levels; every read at every level, every step propagator and the time list are compared with a mirror in which each value is the own one or the '
        'one of the next level up. Signature: linking order and kinds of the set operations per level.')
MIN_EVENTS = {'set': 300, 'read': 1000, 'count': 100, 'unitary': 100, 'set:stepCount': 60, 'join': 300}


class Node:
    def __init__(self, name, obj, kind, up=None):
        self.name, self.obj, self.kind, self.up = name, obj, kind, up
        self.own = {}

    def get(self, key):
        if key in self.own:
            return self.own[key]
        if self.up is not None:
            return self.up.get(key)
        return {'samples': 1, 'delStates': False}.get(key)

    def read(self, key):
        o = self.obj
        if key == 'delStates':
            return o.delStates
        return getattr(o if self.kind == 'sim' else o.simulation, key)

    def put(self, key, val, rng):
        o = self.obj
        if self.kind == 'sim' or rng.random() < .3:
            setattr(o if self.kind == 'sim' else o.simulation, key, val)
        elif rng.random() < .5 and key != 'delStates':
            setattr(o, {'totalTime': 'simTotalTime', 'stepSize': 'simStepSize', 'samples': 'simSamples'}[key], val)
        elif key == 'delStates':
            o.simDelStates = val
        else:
            setattr(o, key, val)


def audit(rng, m, nodes, full=False):
    pick = nodes if full else [nodes[int(i)] for i in rng.choice(len(nodes), min(len(nodes), 3), replace=False)]
    for n in pick:
        for key in ('totalTime', 'stepSize', 'samples', 'delStates'):
            m.ev('read')
            got, want = n.read(key), n.get(key)
            if not m.check(got == want, f'{key} is the own one, or else the one of what it is bound to', f'{n.name}: got {got} want {want}'):
                raise Abort
        T, dt = n.get('totalTime'), n.get('stepSize')
        if T is not None and dt is not None:
            q = T / dt
            if abs(q - round(q)) > 1e-6:
                m.ev('count')
                sim = n.obj if n.kind == 'sim' else n.obj.simulation
                ok = m.eq(sim.stepCount, int(np.floor(q)) + 1, 'the step count covers the total time with the step size')
                tl = sim.timeList
                ok = m.close(tl, dt * np.arange(int(np.floor(q)) + 2), 'the time list is the grid of the steps') and ok
                if not ok:
                    raise Abort
        if n.kind == 'free' and dt is not None:
            m.ev('unitary')
            if not m.close(n.obj.unitary(), ref.U(n.H(), dt / n.get('samples')), 'propagators use the current step size and samples'):
                raise Abort


def chain(rng, m):
    f = float(rng.uniform(.3, 2))
    q = qg.Qubit(frequency=f)
    q.addTerms(qg.QTerm(qSystem=q, operator=qg.QuantumToolbox.operators.Jx, frequency=.7))
    H = f * np.array(ref.jz(2)) + .7 * np.array(ref.jx(2))
    s = Node('system', q, 'sys')
    nodes = [s]
    ops = []
    dt0 = float(rng.uniform(.05, .4))
    nset = int(rng.integers(3, 10))
    todo = ['p'] * int(rng.integers(1, 3)) + ['sim'] * (rng.random() < .6)
    keys = ['totalTime', 'stepSize', 'stepSize', 'samples', 'delStates']
    seq = ['set'] * nset + todo
    rng.shuffle(seq)
    for what in seq:
        if what == 'p':
            fr = qg.freeEvolution(system=q)
            g = qg.xGate(system=q, angle=.3)
            p = qg.qProtocol(system=q, steps=[fr, g])
            pn = Node(f'protocol{len(nodes)}', p, 'pro', s)
            fn = Node(f'step{len(nodes)}', fr, 'free', pn)
            fn.H = lambda: H
            nodes += [pn, fn]
            ops.append('p')
        elif what == 'sim':
            # (a system that has own times when it is added to a simulation takes over a snapshot of the other ones)
            if any(n.kind == 'sim' for n in nodes) or 'totalTime' in s.own or 'stepSize' in s.own:
                continue
            sim = qg.Simulation()
            n = Node('simulation', sim, 'sim')
            if rng.random() < .5:
                n.own['totalTime'] = sim.totalTime = (int(rng.integers(1, 9)) + .5) * dt0
            sim.addQSystems(q)
            s.up = n
            nodes.append(n)
            ops.append('sim')
        else:
            n = nodes[int(rng.integers(len(nodes)))]
            if rng.random() < .2 and n.get('totalTime') is not None:
                c = int(rng.integers(2, 12))
                (setattr(n.obj, 'stepCount', c) if n.kind == 'sim' or rng.random() < .5 else setattr(n.obj, 'simStepCount', c))
                n.own['stepSize'] = n.get('totalTime') / c
                m.ev('set')
                m.ev('set:stepCount')
                m.note('set', n.name, 'stepCount', c)
                ops.append((n.kind, 'stepCount'))
                audit(rng, m, nodes)
                continue
            key = keys[int(rng.integers(len(keys)))]
            val = {'totalTime': lambda: float((int(rng.integers(1, 9)) + .5) * dt0), 'stepSize': lambda: rng.fresh(.3 * dt0, 2 * dt0, n.get('stepSize')),
                   'samples': lambda: int(rng.integers(1, 4)), 'delStates': lambda: bool(rng.integers(2))}[key]()
            n.put(key, val, rng)
            n.own[key] = val
            m.ev('set')
            m.note('set', n.name, key, val)
            ops.append((n.kind, key))
        if rng.random() < .8:
            audit(rng, m, nodes)
    audit(rng, m, nodes, True)
    m.sig('chain', tuple(ops))
    m.sample = {'operations': ops}


def count(rng, m):
    """The number of steps that is set is the number of steps that is used, and total time, step size and step count agree."""
    sim = qg.Simulation()
    T, c = (1.0, 4) if rng.random() < .1 else (float(rng.uniform(.1, 5)), int(rng.integers(1, 60)))
    sim.totalTime = T
    sim.stepCount = c
    m.close(sim.stepSize, T / c, 'the step size is the total time over the step count')
    m.ev('set:stepCount')
    got = sim.stepCount
    # at the pinned commit the count is floor(total / step) + 1, one more than what was set unless rounding hides it
    m.check(got == c, 'the step count is the one that was set', f'T={T} set {c} got {got}',
            mech='stepCount:one-more-than-set' if got == c + 1 else 'stepCount:other')
    q = qg.Qubit(frequency=1.)
    q.simStepSize = dt = float(rng.uniform(.05, .5))
    q.simTotalTime = (c + .5) * dt
    m.eq(q.simulation.stepCount, c + 1, 'the step count covers the total time with the step size')
    q.simTotalTime = (c + 2.5) * dt
    m.eq(q.simulation.stepCount, c + 3, 'the step count covers the total time with the step size')
    q.simStepSize = dt * .4
    m.eq(q.simulation.stepCount, int((c + 2.5) / .4) + 1, 'the step count covers the total time with the step size')
    # the step count and the step size give the total time
    sim = qg.Simulation()
    if rng.random() < .5:
        sim.stepCount, sim.stepSize = c, dt
    else:
        sim.stepSize, sim.stepCount = dt, c
    got = sim.stepCount
    m.close(sim.totalTime, c * dt, 'the total time is the step count times the step size')
    m.check(got == c, 'the step count is the one that was set', f'dt={dt} set {c} got {got}',
            mech='stepCount:one-more-than-set' if got == c + 1 else 'stepCount:other')
    m.sig('count', c)


def join(rng, m):
    """Systems that join a simulation, once or again with further protocols, keep their own values; the others are those of the simulation."""
    f = float(rng.uniform(.3, 2))
    q = qg.Qubit(frequency=f) if rng.random() < .5 else qg.Cavity(dimension=3, frequency=f)
    H = f * np.array(ref.jz(2) if isinstance(q, qg.Qubit) else np.diag([0, 1, 2]))
    vals = {'totalTime': float(rng.uniform(.5, 4)), 'stepSize': float(rng.uniform(.05, .4))}
    own = {}
    for key in rng.permutation(['totalTime', 'stepSize']):
        if rng.random() < .5:
            own[key] = float(vals[key] * rng.uniform(.5, 1.5))
            setattr(q.simulation if rng.random() < .5 else q, key, own[key])
    sim = qg.Simulation()
    for key in rng.permutation(['totalTime', 'stepSize']):
        setattr(sim, key, vals[key])
    ops = [tuple(sorted(own))]
    pros = []

    def audit():
        want = {k: own.get(k, vals[k]) for k in vals}
        for o in [q.simulation] + [p.simulation for p in pros]:
            for k, v in want.items():
                m.ev('read')
                if not m.check(getattr(o, k) == v, 'joining a simulation keeps own values and takes over the others', f'{k}: got {getattr(o, k)} want {v}, own {own}'):
                    raise Abort
            x = want['totalTime'] / want['stepSize']
            if abs(x - round(x)) > 1e-6:
                m.ev('count')
                m.eq(o.stepCount, int(np.floor(x)) + 1, 'the step count covers the total time with the step size')
        for p in pros:
            m.ev('unitary')
            if not m.close(p.unitary(), ref.U(H, want['stepSize']), 'propagators use the current step size and samples'):
                raise Abort

    for _ in range(int(rng.integers(1, 5))):
        k = int(rng.integers(4)) if ops[1:] else int(rng.integers(3))
        if k == 0:
            sim.addQSystems(q)
        elif k in (1, 2):
            p = qg.freeEvolution(system=q) if k == 1 else qg.qProtocol(system=q, steps=[qg.freeEvolution(system=q)])
            sim.addProtocol(p)
            pros.append(p)
        elif not own:
            key = ['totalTime', 'stepSize'][int(rng.integers(2))]
            vals[key] = rng.fresh(.5 * vals[key], 1.5 * vals[key], vals[key])
            setattr(sim, key, vals[key])
        m.note('join', k)
        ops.append(k)
        m.ev('join')
        if rng.random() < .8:
            audit()
    audit()
    m.sig('join', tuple(ops))
    m.sample = {'operations': ops}


FAMILIES = [('join', join, 400, 2000), ('count', count, 120, 600), ('chain', chain, 600, 5000)]
