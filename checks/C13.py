"""C13: open-system evolutions built from dissipators follow the Lindblad equation of the current parameters."""
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
import quanguru as qg
from qgmon import model as M, promodel as PM, ref
from qgmon.core import Abort, arr

RULE = ('Random single and composite systems get dissipators (own jump operators, rates, types, temperatures, shared baths) on their free evolution, on steps and '
        'on (nested) protocols with gates; parameters are edited with propagators read in between, and whole simulations are run from pure and mixed states with '
        'samples and sweeps. Propagators are compared with exponentials of an independently built Lindblad generator, stored states with its iteration, and every '
        'stored state has to be a density matrix. Signature: where the dissipators are attached and the edit sequence.')
ASSUMPTIONS = ('Steps are not shared between open and closed protocols, dissipative steps are not conjugated, and dissipators of a protocol act on steps that '
               'belong to that protocol only.')
MIN_EVENTS = {'read': 200, 'run': 30, 'state': 300, 'edit:rate': 20, 'edit:temperature': 10, 'edit:jump': 10, 'late': 5}

JUMPS = ['destroy', 'create', 'number', 'Jz', 'Jm', 'Jx', 'random']


def sup(u):
    return np.kron(u.conj(), u)


class Bath:
    def __init__(self, temp=0, freq=1, lib=None):
        self.temp, self.freq, self.lib = temp, freq, lib

    def nbar(self):
        return 0. if self.temp == 0 else 1 / (np.exp(self.freq / self.temp) - 1)


class Dis:
    def __init__(self, node, op, rate, typ, lib=None):
        self.node, self.op, self.rate, self.typ, self.lib = node, op, rate, typ, lib
        self.bath = Bath()

    def jrate(self):
        return self.rate * (self.bath.nbar() + self.typ)

    def big(self):
        pos, _ = self.node.positions()
        b, _, a = pos[id(self.node)]
        return ref.embed(self.op, b, a)


def generator(H, dis):
    d = H.shape[0]
    e = np.eye(d)
    L = -1j * (np.kron(e, H) - np.kron(H.T, e))
    for x in dis:
        c, r = x.big(), x.jrate()
        n = c.conj().T @ c
        L = L + r * (np.kron(c.conj(), c) - .5 * (np.kron(e, n) + np.kron(n.T, e)))
    return L


class OFree(PM.MFree):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.dis = []

    def _O(self, dt, above):
        # with samples a step is divided into equal parts
        return la.expm(generator(self.s.H(), above + self.dis) * (dt * self.ratio))


class OGate(PM.MGate):
    def __init__(self, g):
        self.__dict__.update(g.__dict__)

    def _O(self, dt, above):
        return sup(self._U(dt))


class OProt(PM.MProt):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.dis = []

    def _O(self, dt, above):
        D = self.s.dimension()
        u = np.eye(D * D, dtype=complex)
        for p, h in self.steps:
            x = O(p, dt, above + self.dis)
            u = (x.conj().T if h else x) @ u
        return u

    def dissipators(self):
        return self.dis + [d for p, _ in self.steps for d in (p.dissipators() if isinstance(p, OProt) else getattr(p, 'dis', []))]


def O(p, dt, above=()):
    for u in p.updates:
        u.setup()
    out = p._O(dt, list(above))
    for u in reversed(p.updates):
        u.setback()
    return out


def jump(rng, dim):
    k = JUMPS[int(rng.integers(len(JUMPS)))]
    if k == 'random':
        return sp.csc_matrix(rng.normal(size=(dim, dim)) + 1j * rng.normal(size=(dim, dim)))
    op = {'destroy': qg.QuantumToolbox.destroy, 'create': qg.QuantumToolbox.create, 'number': qg.QuantumToolbox.number}.get(k)
    if op:
        return op(dim)
    j = (dim - 1) / 2
    return getattr(qg.QuantumToolbox, k)(j)


def new_dis(rng, root, m):
    ns = list(root.walk())
    node = ns[int(rng.integers(len(ns)))]
    op = jump(rng, node.dimension())
    rate = 0 if rng.random() < .08 else float(rng.uniform(.05, .8))
    typ = 1 if rng.random() < .7 else 0
    kw = [('system', node.lib), ('jOper', op), ('jRate', rate)]
    if typ == 0 or rng.random() < .3:
        kw.append(('type', typ))
    kw = [kw[int(i)] for i in rng.permutation(len(kw))]
    if rng.random() < .7:
        lib = qg.dissipatorObj(**dict(kw))
    else:
        lib = qg.dissipatorObj()
        for k, v in kw:
            setattr(lib, k, v)
    d = Dis(node, arr(op), rate, typ, lib)
    m.note('dissipator', lib.name, 'on', node.describe(), 'rate', rate, 'type', typ)
    if rng.random() < .4:
        set_temp(rng, d, m)
    return d


def set_temp(rng, d, m):
    t = rng.fresh(.2, 2, d.bath.temp or None) if rng.random() < .85 else 0
    if d.bath.lib is not None and rng.random() < .5:
        d.bath.lib.temperature = t
    else:
        d.lib.temperature = t
    d.bath.temp = t
    m.note('temperature', d.lib.name, t)
    m.ev('edit:temperature')


def read(rng, m, p, dt):
    u = p.lib.unitary()
    m.ev('read')
    if not m.close(u, O(p, dt), 'open propagator equals the exponential of the current Lindblad generator, step by step', tol=2e-8):
        raise Abort


def small_tree(rng):
    root = M.build_tree(rng, maxdim=3, maxD=6, nleaf=int(rng.integers(1, 3)))
    if root.comp and rng.random() < .6:
        M.add_coupling(rng, root)
    return root


def steps_for(rng, root, n, used):
    out = []
    for _ in range(n):
        k = int(rng.integers(6))
        if k == 0 and used:
            out.append((used[int(rng.integers(len(used)))], False))
            continue
        if k <= 3:
            ratio = 1 if rng.random() < .5 else float(rng.uniform(.2, 2))
            p = OFree(root, ratio, qg.freeEvolution(system=root.lib, **({} if ratio == 1 else {'ratio': ratio})))
            out.append((p, False))
        else:
            p = OGate(PM.new_gate(rng, root))
            out.append((p, rng.random() < .3))
        used.append(p)
    return out


def protocol(rng, root, pool, m, depth=1):
    p = OProt(root)
    used = []
    p.steps = steps_for(rng, root, int(rng.integers(1, 4)), used)
    if depth and rng.random() < .4:
        p.steps.insert(int(rng.integers(len(p.steps) + 1)), (protocol(rng, root, pool, m, depth - 1), False))
    libs = [q.lib.hc if h else q.lib for q, h in p.steps]
    p.lib = qg.qProtocol(system=root.lib, steps=libs)
    for q, _ in p.steps:
        if q not in pool:
            pool.append(q)
    return p


def attach(rng, m, d, own, pool, top):
    """Add the dissipator to something: the step, a protocol, or the system's own evolution."""
    cands = [p for p in pool + ([top] if top else []) if isinstance(p, (OFree, OProt))] + [own]
    p = cands[int(rng.integers(len(cands)))]
    if d in p.dis:
        return
    d.lib.addToProtocol(p.lib._freeEvol if p is own else p.lib)
    p.dis.append(d)
    m.note('add', d.lib.name, 'to', p.lib.name)


def born(d, own):
    if d.node is own.s:
        own.dis.append(d)     # a dissipator acts on the free evolution of its system


def history(rng, m):
    root = small_tree(rng)
    dt = float(rng.uniform(.1, .9))
    root.lib.simStepSize = dt
    root.lib.simTotalTime = 3 * dt
    own = OFree(root, 1, root.lib)
    pool = []
    top = protocol(rng, root, pool, m)
    gates = [p for p in pool if isinstance(p, PM.MGate)]
    m.note('system', root.describe(), 'protocol', top.desc())
    dis = []
    for _ in range(int(rng.integers(1, 3))):
        d = new_dis(rng, root, m)
        born(d, own)
        dis.append(d)
        attach(rng, m, d, own, pool, top)
    if rng.random() < .3:
        PM.add_update(rng, root, top, [], m)

    def reads():
        if top.dissipators():
            read(rng, m, top, dt)
        if own.dis:
            read(rng, m, own, dt)
    reads()
    kinds = []
    for _ in range(int(rng.integers(3, 10))):
        k = int(rng.integers(15))
        d = dis[int(rng.integers(len(dis)))]
        kinds.append(k)
        if k <= 1:
            d.rate = d.lib.jRate = 0 if rng.random() < .1 else abs(rng.fresh(.05, .8, d.rate))
            m.note('rate', d.lib.name, d.rate)
            m.ev('edit:rate')
        elif k == 2:
            set_temp(rng, d, m)
        elif k == 3:
            op = jump(rng, d.node.dimension())
            d.lib.jOper = op
            d.op = arr(op)
            m.note('jump', d.lib.name)
            m.ev('edit:jump')
        elif k == 4:
            d.typ = d.lib.type = 1 - d.typ
            m.note('type', d.lib.name, d.typ)
        elif k == 5:
            b = Bath(float(rng.uniform(.2, 2)), float(rng.uniform(.3, 2)))
            b.lib = qg.classes.environment.thermalBath(temperature=b.temp, charFreq=b.freq)
            for x in dis:
                if x is d or rng.random() < .5:
                    b.lib.dissipator = x.lib
                    x.bath = b
            m.note('bath', b.temp, b.freq, [x.lib.name for x in dis if x.bath is b])
            m.ev('edit:bath')
        elif k == 6 and d.bath.lib is not None:
            d.bath.freq = d.bath.lib.charFreq = rng.fresh(.3, 2, d.bath.freq)
            m.note('charFreq', d.bath.freq)
            m.ev('edit:bath')
        elif k == 7 and len(dis) < 4:
            d = new_dis(rng, root, m)
            born(d, own)
            dis.append(d)
            attach(rng, m, d, own, pool, top)
            m.ev('late')
        elif k == 8:
            attach(rng, m, d, own, pool, top)
            m.ev('late')
        elif k == 9:
            dt = rng.fresh(.1, .9, dt)
            root.lib.simStepSize = dt
            m.note('dt', dt)
        elif k == 10:
            fs = [p for p in pool if isinstance(p, OFree)]
            if fs:
                p = fs[int(rng.integers(len(fs)))]
                p.ratio = p.lib.ratio = rng.fresh(.2, 2, p.ratio)
                m.note('ratio', p.lib.name, p.ratio)
        elif k == 11 and gates:
            g = gates[int(rng.integers(len(gates)))]
            g.angle = g.lib.angle = rng.fresh(-3, 3, g.angle)
            m.note('angle', g.lib.name, g.angle)
        elif k == 12:
            before = [(x, x.node.dimension()) for x in dis]
            M.edit_dimension(rng, root, m, 8)
            for x, n in before:
                if x.node.dimension() != n:
                    op = jump(rng, x.node.dimension())
                    x.lib.jOper = op
                    x.op = arr(op)
        elif k == 13:
            M.edit_operator(rng, root, m)
        else:
            M.edit_frequency(rng, root, m)
        if rng.random() < .7:
            reads()
    reads()
    for d in dis:
        m.close(d.lib.jRate, d.jrate(), 'rate follows the type and the temperature of the bath', tol=1e-9)
    m.sig('hist', root.describe(), top.desc(), tuple(kinds), len(top.dissipators()), len(own.dis))
    m.sample = {'system': root.describe(), 'protocol': top.desc(), 'edits': kinds}


def mixed(rng, D):
    a = rng.normal(size=(D, D)) + 1j * rng.normal(size=(D, D))
    r = a @ a.conj().T
    return r / np.trace(r)


def evolve(x, rho):
    d = rho.shape[0]
    return (x @ rho.T.reshape(-1, 1)).reshape(d, d).T


def runs(rng, m):
    root = small_tree(rng)
    dt, n = float(rng.uniform(.1, .9)), int(rng.integers(1, 6))
    D = root.dimension()
    k = int(rng.integers(3))
    if k == 0:
        rho = mixed(rng, D)
        root.lib.initialState = np.array(rho)
    elif k == 1:
        v = ref.ket(rng, D)
        rho = v.reshape(-1, 1) @ v.reshape(1, -1).conj()
        root.lib.initialState = v
    else:
        M.set_initial(rng, root)
        v = root.ket()
        rho = v @ v.conj().T
    own = OFree(root, 1, root.lib)
    pool, dis = [], []
    kind = ['sys', 'pro', 'sim'][int(rng.integers(3))]
    top = protocol(rng, root, pool, m) if kind != 'sys' else None
    while len(dis) < 1 or (kind != 'pro' and not own.dis) or (top and not top.dissipators()):
        d = new_dis(rng, root, m)
        born(d, own)
        dis.append(d)
        attach(rng, m, d, own, pool, top)
        if len(dis) > 6:
            return
    sim = root.lib.simulation
    if kind == 'sim':
        sim = qg.Simulation()
        sim.addQSystems(root.lib)
        sim.addProtocol(top.lib)
    sim.totalTime = (n - .5) * dt
    sim.stepSize = dt
    if rng.random() < .2:
        sim.samples = int(rng.integers(2, 6))
    if kind == 'pro':
        sim = top.lib.simulation
    ents = {'sys': [own], 'pro': [top], 'sim': [own, top]}[kind]
    sweeps = []
    for _ in range(int(rng.integers(3)) if rng.random() < .6 else 0):
        d = dis[int(rng.integers(len(dis)))]
        what = ['jRate', 'temperature', 'frequency'][int(rng.integers(3))]
        vals = [float(rng.uniform(.1, .9)) for _ in range(int(rng.integers(2, 4)))]
        if what == 'frequency':
            leaf = root.leaves()[0]
            obj, app = leaf.lib, (lambda v, leaf=leaf: setattr(leaf.terms[0], 'freq', v))
        elif what == 'jRate':
            obj, app = d.lib, (lambda v, d=d: setattr(d, 'rate', v))
        else:
            obj, app = d.lib, (lambda v, d=d: setattr(d.bath, 'temp', v))
        if any(s[0] is obj and s[1] == what for s in sweeps):
            continue
        sim.Sweep.createSweep(system=obj, sweepKey=what, sweepList=vals, **({'combinatorial': True} if sweeps else {}))
        sweeps.append((obj, what, vals, app))
        m.note('sweep', what, vals)
        m.ev('sweep')
    got = []
    keep = rng.random() < .5
    sim.delStates = not keep
    for e in ents:
        obj = e.s.lib if e is own else e.lib
        obj.compute = lambda sy, st, name=e.lib.name: got.append((name, arr(st)))
    rerun = 1 + int(rng.random() < .3)
    for _ in range(rerun):
        del got[:]
        if kind == 'sim' or rng.random() < .5:
            sim.run()
        else:
            ents[0].lib.runSimulation()
        m.ev('run')
        want = []
        shape = [len(s[2]) for s in sweeps]
        for idx in np.ndindex(*shape):
            for s, i in zip(sweeps, idx):
                s[3](s[2][i])
            now = [rho for _ in ents]
            props = [O(e, dt) for e in ents]
            for step in range(n + 1):
                for i, e in sorted(enumerate(ents), key=lambda x: x[1] is own):    # protocols first, then systems
                    want.append((e.lib.name, now[i]))
                    now[i] = evolve(props[i], now[i])
        m.eq([g[0] for g in got], [w[0] for w in want], 'every evolution of an open simulation computes once per time and sweep point')
        for (name, g), (_, w) in zip(got, want):
            m.ev('state')
            if not m.close(g, w, 'states of an open simulation are the Lindblad evolution of the initial state', tol=1e-7):
                break
            m.close(np.trace(g), 1, 'open evolution preserves the trace', tol=1e-8)
            m.close(g, g.conj().T, 'open evolution keeps the state Hermitian', tol=1e-8)
            m.check(np.linalg.eigvalsh((g + g.conj().T) / 2).min() > -1e-8, 'open evolution keeps the state positive', g)
        if keep and kind == 'sys':
            # sweeps nest the list of states
            out = [w for _, w in want]
            st = sim.states[root.lib.name + 'Results']
            for idx in np.ndindex(*shape):
                x = st
                for i in idx:
                    x = x[i]
                flat = int(np.ravel_multi_index(idx, shape)) if shape else 0
                m.eq(len(x), n + 1, 'all states of an open simulation are stored')
                for a, w in zip(x, out[flat * (n + 1):]):
                    m.close(a, w, 'stored states of an open simulation are the evolution', tol=1e-7)
        if rerun > 1 and not sweeps:
            d = dis[0]
            d.rate = d.lib.jRate = abs(rng.fresh(.1, .9, d.rate))
        elif rerun > 1:
            M.edit_operator(rng, root, m)
    m.sig('run', kind, root.describe(), k, len(sweeps), len(dis), rerun)
    m.sample = {'system': root.describe(), 'kind': kind, 'sweeps': [(s[1], s[2]) for s in sweeps]}


def relax(rng, m):
    """Long open evolutions end in the state the rates and temperature dictate."""
    w, T, g = float(rng.uniform(.5, 2)), float(rng.uniform(.3, 2)), float(rng.uniform(.3, 1))
    q = qg.Qubit(frequency=float(rng.uniform(.2, 2)), initialState=int(rng.integers(2)))
    b = qg.classes.environment.thermalBath(temperature=T, charFreq=w)
    b.dissipator = qg.dissipatorObj(system=q, jOper=qg.QuantumToolbox.sigmam(), jRate=g)
    b.dissipator = qg.dissipatorObj(system=q, jOper=qg.QuantumToolbox.sigmap(), jRate=g, type=0)
    q.simTotalTime, q.simStepSize = 60 / g, 10 / g
    q.runSimulation()
    r = arr(q.simulation.states[q.name + 'Results'][-1])
    p = np.exp(-w / T)
    m.ev('run')
    m.ev('state')
    m.close(np.diag(r).real, [p / (1 + p), 1 / (1 + p)], 'a qubit in a thermal bath relaxes to the Boltzmann populations', tol=1e-6)
    m.close(r[0, 1], 0, 'coherences vanish in a thermal bath', tol=1e-6)
    m.sig('relax', round(p, 3))


FAMILIES = [('history', history, 320, 3500), ('runs', runs, 200, 2200), ('relax', relax, 16, 100)]
