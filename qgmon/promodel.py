"""Mirror of protocols: free evolutions, rotation gates and sequences with repeated / conjugated steps and updates."""
import numpy as np
import quanguru as qg

from . import model as M
from . import ref


class Upd:
    """Temporary change made by a protocol while its propagator is computed."""

    def __init__(self, nodes=(), value=None, gate=None):
        self.nodes, self.value, self.gate = list(nodes), value, gate

    def setup(self):
        if self.gate is not None:
            self.mem = self.gate.angle
            self.gate.angle = self.value
        else:
            self.terms = [s.terms[0] for s in self.nodes]     # a system's frequency is the one of its first term
            self.mem = [t.freq for t in self.terms]
            for t in self.terms:
                t.freq = self.value

    def setback(self):
        if self.gate is not None:
            self.gate.angle = self.mem
        else:
            for t, f in zip(self.terms, self.mem):
                t.freq = f


class MP:
    def __init__(self):
        self.updates = []

    def U(self, dt):
        for u in self.updates:
            u.setup()
        out = self._U(dt)
        for u in reversed(self.updates):
            u.setback()
        return out

    def full(self, dt):
        """Propagator over the whole step (a free evolution may be divided into samples)."""
        return self.U(dt)

    def sampled(self, dt):
        """Propagators between consecutive samples within one step."""
        return [self.full(dt)]

    def all(self):
        return {id(self): self}


class MFree(MP):
    def __init__(self, s, ratio=1, lib=None):
        super().__init__()
        self.s, self.ratio, self.lib = s, ratio, lib
        self.samples = 1

    def _U(self, dt):
        return ref.U(self.s.H(), dt * self.ratio / self.samples)

    def full(self, dt):
        return np.linalg.matrix_power(self.U(dt), self.samples)

    def sampled(self, dt):
        return [self.U(dt)] * self.samples

    def desc(self):
        return 'F'


class MGate(MP):
    def __init__(self, targets, angle, axis, phase=1, impl=None, lib=None):
        super().__init__()
        self.targets, self.angle, self.axis, self.phase, self.impl, self.lib = targets, angle, axis, phase, impl, lib

    def _U(self, dt):
        pos, D = self.targets[0].positions()
        u = np.eye(D, dtype=complex)
        for s in self.targets:
            b, d, a = pos[id(s)]
            j = {'x': ref.jx, 'y': ref.jy, 'z': ref.jz}[self.axis.lower()](d)
            ph = self.phase if self.impl is None else 1
            u = ref.embed(ref.U(np.array(j), ph * self.angle), b, a) @ u
        return u

    def desc(self):
        return 'G'


class MProt(MP):
    def __init__(self, s, lib=None):
        super().__init__()
        self.s, self.lib = s, lib
        self.steps = []      # (MP, hc)

    def _U(self, dt):
        _, D = self.s.positions()
        u = np.eye(D, dtype=complex)
        for p, h in self.steps:
            x = p.full(dt)
            u = (x.conj().T if h else x) @ u
        return u

    def sampled(self, dt):
        for u in self.updates:
            u.setup()
        out = []
        for p, h in self.steps:
            xs = [p.full(dt)] if isinstance(p, MProt) else p.sampled(dt)
            out += [(x.conj().T if h else x) for x in xs]
        for u in reversed(self.updates):
            u.setback()
        return out

    def all(self):
        out = {id(self): self}
        for p, _ in self.steps:
            out.update(p.all())
        return out

    def desc(self):
        return '[' + ''.join(p.desc() + ("'" if h else '') for p, h in self.steps) + ']'


def new_free(rng, root):
    nodes = list(root.walk())
    s = root if rng.random() < .65 else nodes[int(rng.integers(len(nodes)))]
    ratio = 1 if rng.random() < .5 else float(rng.uniform(.2, 2))
    kw = {} if ratio == 1 else {'ratio': ratio}
    lib = qg.freeEvolution(**({'system': s.lib} if rng.random() < .5 else {'superSys': s.lib}), **kw)
    return MFree(s, ratio, lib)


def new_gate(rng, root):
    ls = root.leaves()
    k = min(len(ls), M.tail(rng, 1, 3, 5, .2))
    ts = [ls[int(i)] for i in rng.choice(len(ls), k, replace=False)]
    ang, ax = float(rng.uniform(-3, 3)), 'xyz'[int(rng.integers(3))]
    if rng.random() < .3:
        ax = ax.upper()
    how = int(rng.integers(3))
    libs = [t.lib for t in ts] if len(ts) > 1 or rng.random() < .5 else ts[0].lib
    if how == 0 and all(t.kind == 'qubit' for t in ts):
        lib = qg.xGate(system=libs, angle=ang, implementation=['instant', 'flip', 'Instant'][int(rng.integers(3))])
        lib.rotationAxis = ax
        return MGate(ts, ang, ax, 1, 'instant', lib)
    if how == 1:
        return MGate(ts, ang, 'x', 1, None, qg.xGate(system=libs, angle=ang))
    ph = 1 if rng.random() < .6 else -1 if rng.random() < .5 else float(rng.uniform(.5, 2))
    lib = qg.SpinRotation(system=libs, angle=ang, rotationAxis=ax)
    if ph != 1:
        lib.phase = ph
    return MGate(ts, ang, ax, ph, None, lib)


def new_prot(rng, root, pool, depth=1, nsteps=None, reuse=0):
    """A protocol of new and reused steps; pool is the list of all protocols so far."""
    p = MProt(root)
    n = nsteps or M.tail(rng, 1, 5, 10, .05)
    if depth == 1 and rng.random() < .05:
        depth = 3
    libs, used, fresh = [], [], []
    for _ in range(n):
        k = int(rng.integers(8)) if rng.random() >= reuse else int(rng.integers(3))
        if k <= 1 and pool:
            q = pool[int(rng.integers(len(pool)))]
        elif k == 2 and depth > 0:
            q = new_prot(rng, root, pool, depth - 1, reuse=reuse)
            pool.append(q)
        elif k <= 5:
            q = new_free(rng, root)
            pool.append(q)
            fresh.append(q)
        else:
            q = new_gate(rng, root)
            pool.append(q)
        # a free evolution has no step size of its own before it is a step of a protocol (or belongs to the root)
        hc = rng.random() < .2 and not (isinstance(q, MFree) and q.s is not root and not any(q is x for x in used))
        if isinstance(q, MFree) and q.s is root and not hc and not any(q is x for x in used) and any(q is x for x in fresh) and rng.random() < .2:
            q.lib = qg.freeEvolution(**({} if q.ratio == 1 else {'ratio': q.ratio}))      # evolves the system of the protocol it is added to
        used.append(q)
        p.steps.append((q, hc))
        libs.append(q.lib.hc if hc else q.lib)
    how = int(rng.integers(3))
    if how == 0:
        p.lib = qg.qProtocol(system=root.lib, steps=libs)
    elif how == 1:
        p.lib = qg.qProtocol(superSys=root.lib)
        for x in libs:
            p.lib.addStep(x)
    else:
        p.lib = qg.qProtocol(system=root.lib)
        p.lib.addStep(*libs)
    return p


def add_update(rng, root, p, allgates, m):
    if p.updates:
        return
    if allgates and rng.random() < .25:
        g = allgates[int(rng.integers(len(allgates)))]
        v = float(rng.uniform(-3, 3))
        p.lib.createUpdate(system=g.lib, key='angle', value=v)
        p.updates.append(Upd(gate=g, value=v))
        m.note('update angle', g.lib.name, v)
        return
    ls = root.leaves()
    k = min(len(ls), int(rng.integers(1, 4)))
    ts = [ls[int(i)] for i in rng.choice(len(ls), k, replace=False)]
    v = float(rng.uniform(-2, 2)) if rng.random() < .7 else 0
    systems = [t.lib for t in ts]
    if rng.random() < .7:
        p.lib.createUpdate(system=systems if k > 1 or rng.random() < .5 else systems[0], key='frequency', value=v)
    else:
        u = qg.classes.QPro.Update(system=systems, key='frequency')

        def fun(upd, systems=systems, v=v):
            for s in systems:
                s.frequency = v
        u.updateFunction = fun
        p.lib.addUpdate(u)
    p.updates.append(Upd(ts, v))
    m.note('update frequency', [str(t.lib.name) for t in ts], v, 'on', p.lib.name)
    m.ev('update:added')
