"""C04: the propagator of a protocol is the ordered product of its steps' current propagators."""
import numpy as np
import quanguru as qg
from qgmon import model as M, promodel as PM
from qgmon.core import Abort, Skip, arr

RULE = ('Random systems carry several protocols sharing free evolutions, rotation gates, conjugated and nested steps and temporary updates; parameters of '
        'systems, gates, steps and times are edited with propagators of arbitrary protocols read in between (so caches are warm in arbitrary subsets); every '
        'read is compared with a product of exponentials computed from a mirror. Signature: protocol shapes and edit sequence.')
MIN_EVENTS = {'gate': 200, 'read': 300, 'edit:gate': 20, 'edit:ratio': 10, 'edit:dt': 20, 'update:added': 20, 'edit:addstep': 10, 'pulse': 100}


def read(rng, m, p, dt, again=True):
    u = p.lib.unitary()
    m.ev('read')
    ok = m.close(u, p.U(dt), 'propagator equals the ordered product of the current steps', tol=2e-8)
    if ok and again and rng.random() < .3:
        ok = m.close(p.lib.unitary(), p.U(dt), 'reading the propagator again gives the same matrix', tol=2e-8)
    if not ok:
        raise Abort


def shared(rng, m):
    """Few steps that are used again and again, in protocols of several levels."""
    history(rng, m, reuse=.7, depth=2)


def history(rng, m, reuse=0, depth=1):
    root = M.build_tree(rng, maxdim=3, maxD=18 if not reuse else 8)
    if root.comp and rng.random() < .6:
        M.add_coupling(rng, root)
    dt = float(rng.uniform(.1, 1.2))
    root.lib.simStepSize = dt
    root.lib.simTotalTime = 3 * dt
    pool = []
    tops = [PM.new_prot(rng, root, pool, depth, reuse=reuse) for _ in range(int(rng.integers(1, 4)))]
    # protocols are complete before anything is computed, in most histories
    for p in tops:
        if p not in pool:
            pool.append(p)
    own = PM.MFree(root, 1, root.lib)     # system.unitary(): the default free evolution
    kinds = []
    gates = [p for p in pool if isinstance(p, PM.MGate)]
    # sub-protocols keep the shape they are nested with
    nested = {id(q) for p in pool if isinstance(p, PM.MProt) for q, _ in p.steps}
    readable = [p for p in pool if not (isinstance(p, PM.MFree) and id(p) not in nested)] + [own]
    m.note('system', root.describe(), 'protocols', [p.desc() for p in tops])

    def some_read():
        read(rng, m, readable[int(rng.integers(len(readable)))], dt)
    for p in tops:
        if rng.random() < .8:
            read(rng, m, p, dt)
    for _ in range(int(rng.integers(4, 12))):
        k = int(rng.integers(13))
        if k == 0:
            M.edit_frequency(rng, root, m)
        elif k == 1:
            M.edit_order(rng, root, m)
        elif k == 2:
            M.edit_operator(rng, root, m)
        elif k == 3:
            M.edit_dimension(rng, root, m, 24)
        elif k == 4:
            M.edit_addterm(rng, root, m)
        elif k == 5:
            M.edit_removeterm(rng, root, m)
        elif k == 6:
            dt = rng.fresh(.1, 1.2, dt)
            root.lib.simStepSize = dt
            m.note('dt', dt)
            m.ev('edit:dt')
        elif k == 7:
            fs = [p for p in pool if isinstance(p, PM.MFree)]
            if fs:
                p = fs[int(rng.integers(len(fs)))]
                p.ratio = p.lib.ratio = rng.fresh(.2, 2, p.ratio)
                if rng.random() < .4:
                    p.samples = p.lib.simulation.samples = int(rng.integers(1, 4))
                    m.ev('edit:samples')
                m.note('ratio', p.lib.name, p.ratio, p.samples)
                m.ev('edit:ratio')
        elif k in (8, 9) and gates:
            g = gates[int(rng.integers(len(gates)))]
            what = int(rng.integers(3))
            if what == 0:
                g.angle = g.lib.angle = rng.fresh(-3, 3, g.angle)
            elif what == 1:
                g.axis = g.lib.rotationAxis = 'xyz'[int(rng.integers(3))]
            elif all(t.kind == 'qubit' for t in g.targets) and isinstance(g.lib, qg.xGate):
                g.impl = None if g.impl else 'instant'
                g.lib.implementation = g.impl
            else:
                g.phase = g.lib.phase = [-1, 1, 2][int(rng.integers(3))]
            m.note('gate', g.lib.name, what)
            m.ev('edit:gate')
        elif k == 10:
            p = tops[int(rng.integers(len(tops)))]
            if id(p) in nested:
                continue
            q = pool[int(rng.integers(len(pool)))] if rng.random() < .5 else PM.new_gate(rng, root)
            if any(x is p for x in q.all().values()):
                continue
            hc = rng.random() < .3
            p.lib.addStep(q.lib.hc if hc else q.lib)
            p.steps.append((q, hc))
            if q not in pool:
                pool.append(q)
                gates.append(q)
                readable.append(q)
            m.note('addstep', p.lib.name, q.lib.name, hc)
            m.ev('edit:addstep')
        elif k == 11:
            ps = [p for p in pool if not isinstance(p, PM.MGate)]
            if ps:
                PM.add_update(rng, root, ps[int(rng.integers(len(ps)))], gates, m)
        else:
            some_read()
        kinds.append(k)
        if rng.random() < .7:
            some_read()
        if rng.random() < .5:
            read(rng, m, tops[int(rng.integers(len(tops)))], dt)
    order = list(readable)
    rng.shuffle(order)
    for p in order:
        read(rng, m, p, dt)
    for t in root.terms_below():
        if t.parts is None and not (isinstance(t.lib.frequency, type(None))):
            m.close(t.lib.frequency, t.freq, 'computing propagators leaves the parameters as they were')
    m.sig('hist', tuple(p.desc() for p in tops), tuple(kinds))
    m.sample = {'system': root.describe(), 'protocols': [p.desc() for p in tops], 'edits': kinds}


def fixed(rng, m):
    """A step declared fixed keeps the propagator it had when the simulation was prepared; releasing it follows the parameters again."""
    root = M.build_tree(rng, maxdim=3, maxD=12)
    dt = float(rng.uniform(.1, 1))
    root.lib.simStepSize = dt
    root.lib.simTotalTime = 2 * dt
    f = PM.new_free(rng, root)
    g = PM.new_gate(rng, root)
    p = PM.MProt(root)
    p.steps = [(f, False), (g, False), (f, True)]
    p.lib = qg.qProtocol(system=root.lib, steps=[f.lib, g.lib, f.lib.hc])
    m.close(p.lib.unitary(), p.U(dt), 'propagator equals the ordered product of the current steps', tol=2e-8)
    f.lib.fixed = True
    uf = f.U(dt)
    for _ in range(3):
        M.edit_frequency(rng, root, m)
        g.angle = g.lib.angle = rng.fresh(-3, 3, g.angle)
        want = uf.conj().T @ g.U(dt) @ uf
        m.close(p.lib.unitary(), want, 'a fixed step keeps its propagator while the others follow their parameters', tol=2e-8)
        m.ev('read')
    f.lib.fixed = False
    M.edit_frequency(rng, root, m, value=float(rng.uniform(2.1, 3)))
    m.close(p.lib.unitary(), p.U(dt), 'a released step follows the parameters again', tol=2e-8)
    m.sig('fixed', root.describe(), g.desc())


def hcs(rng, m):
    """Every protocol and its conjugate are inverse to each other, in any nesting."""
    root = M.build_tree(rng, maxdim=3, maxD=12)
    dt = float(rng.uniform(.1, 1))
    root.lib.simStepSize = dt
    root.lib.simTotalTime = 2 * dt
    pool = []
    p = PM.new_prot(rng, root, pool, 1)
    q = qg.qProtocol(system=root.lib, steps=[p.lib, p.lib.hc])
    D = root.dimension()
    for _ in range(3):
        m.close(q.unitary(), np.eye(D), 'a protocol followed by its conjugate does nothing', tol=1e-8)
        m.close(p.lib.hc.unitary(), p.U(dt).conj().T, 'the conjugate of a protocol is its conjugate transpose', tol=1e-8)
        M.edit_frequency(rng, root, m)
        for g in pool:
            if isinstance(g, PM.MGate):
                g.angle = g.lib.angle = rng.fresh(-3, 3, g.angle)
        m.ev('read')
    m.sig('hc', p.desc(), root.describe())


def gates(rng, m):
    """Gates on one to four systems, every axis, case, phase and implementation, edited between the reads."""
    n = int(rng.integers(1, 5))
    kinds = ['qubit'] * n if rng.random() < .6 else [['qubit', 'spin', 'cavity'][int(rng.integers(3))] for _ in range(n)]
    root = M.compose(rng, [M.build_leaf(rng, kind=k, maxdim=3) for k in kinds], .4)
    if root.dimension() > 36:
        raise Skip
    ls = root.leaves()
    k = int(rng.integers(1, n + 1))
    ts = [ls[int(i)] for i in rng.choice(n, k, replace=False)]
    ang, ax = float(rng.uniform(-3, 3)), 'xyzXYZ'[int(rng.integers(6))]
    isx = rng.random() < .6
    g = (qg.xGate if isx else qg.SpinRotation)()
    how = int(rng.integers(3))
    if how == 0:
        g.system = [t.lib for t in ts]
    elif how == 1:
        for t in ts:
            g.addSys(t.lib)
    else:
        g.addSubSys([t.lib for t in ts])
    g.angle = ang
    p = PM.MGate(ts, ang, 'x', 1, None, g)
    if not isx or rng.random() < .7:
        g.rotationAxis = p.axis = ax
    m.eq([id(x) for x in g.system], [id(t.lib) for t in ts], 'a gate acts on the systems it is given')
    for _ in range(int(rng.integers(2, 7))):
        read(rng, m, p, 1)
        m.ev('gate')
        e = int(rng.integers(6))
        if e == 0:
            p.angle = g.angle = float(rng.uniform(-3, 3)) if rng.random() < .8 else int(rng.integers(-2, 3))
        elif e == 1:
            p.axis = g.rotationAxis = 'xyzXYZ'[int(rng.integers(6))]
        elif e == 2 and (not isx or p.impl is None):
            p.phase = g.phase = [-1, 1, 2, .5][int(rng.integers(4))]
        elif e == 3 and isx and all(t.kind == 'qubit' for t in ts):
            p.impl = [None, 'instant', 'flip', 'Instant', 'FLIP'][int(rng.integers(5))]
            g.implementation = p.impl
        elif e == 4 and p.impl is None:
            M.edit_dimension(rng, root, m, 40)
        elif e == 5:
            M.edit_frequency(rng, root, m)
    read(rng, m, p, 1)
    m.sig('gates', root.describe(), len(ts), type(g).__name__)


def pulses(rng, m):
    """A protocol with a time-dependency sweep of its own goes through its values one after the other."""
    root = M.build_tree(rng, maxdim=3, maxD=12)
    dt = float(rng.uniform(.1, 1.2))
    root.lib.simStepSize = dt
    root.lib.simTotalTime = 2 * dt
    pool = []
    p = PM.MFree(root, 1, qg.freeEvolution(superSys=root.lib)) if rng.random() < .4 else PM.new_prot(rng, root, pool, 1)
    other = PM.new_free(rng, root)
    other.s = root
    other.lib = qg.freeEvolution(superSys=root.lib, ratio=other.ratio)
    own = [t for t in root.terms_below() if t.single and t.owner.terms[0] is t]
    gs = [x for x in p.all().values() if isinstance(x, PM.MGate)]
    grid, where = [], []                       # values of the sweeps, how to set them in the mirror
    for i in range(int(rng.integers(1, 3))):
        n = int(rng.integers(1, 5))
        comb = i > 0 and rng.random() < .5
        if i and not comb:
            n = len(grid[0][0])
        vals = [float(x) for x in rng.uniform(.1, 2, n)]
        kw = {'combinatorial': True} if comb else {}
        if gs and rng.random() < .4:
            g = gs[int(rng.integers(len(gs)))]
            if any(w[0] is g for w in where):
                continue
            p.lib.timeDependency.createSweep(system=g.lib, sweepKey='angle', sweepList=vals, **kw)
            where.append((g, 'angle'))
        else:
            t = own[int(rng.integers(len(own)))]
            if any(w[0] is t for w in where):
                continue
            lib = t.lib if rng.random() < .5 else t.owner.lib
            p.lib.timeDependency.createSweep(system=lib, sweepKey='frequency', sweepList=vals, **kw)
            where.append((t, 'freq'))
        grid.append((vals, comb))
    p.lib.timeDependency.prepare()

    def want():
        pts = [[]]
        for i, (vals, comb) in enumerate(grid):
            if comb or i == 0:
                pts = [q + [v] for q in pts for v in vals]
                size = len(vals)
            else:
                pts = [q + [vals[vals_index]] for vals_index, q in zip([j % size for j in range(len(pts))], pts)]
        u = None
        for q in pts:
            for (obj, key), v in zip(where, q):
                setattr(obj, key, v)
            u = p.U(dt) if u is None else p.U(dt) @ u
        return u
    for _ in range(int(rng.integers(2, 6))):
        m.ev('pulse')
        if not m.close(p.lib.unitary(), want(), 'a propagator with swept values is the product over the values', tol=5e-8):
            raise Abort
        if rng.random() < .5:
            read(rng, m, other, dt)
        k = int(rng.integers(5))
        if k == 0:
            dt = rng.fresh(.1, 1.2, dt)
            root.lib.simStepSize = dt
        elif k == 1 and gs:
            g = gs[int(rng.integers(len(gs)))]
            g.angle = g.lib.angle = rng.fresh(-3, 3, g.angle)
        elif k == 2:
            M.edit_operator(rng, root, m)
        elif k > 2:
            M.edit_frequency(rng, root, m)
        if rng.random() < .5:
            read(rng, m, other, dt)
    m.close(p.lib.unitary(), want(), 'a propagator with swept values is the product over the values', tol=5e-8)
    m.sig('pulses', p.desc(), len(where), [len(v) for v, _ in grid])


FAMILIES = [('gates', gates, 150, 2500), ('history', history, 160, 4000), ('shared', shared, 100, 2500), ('fixed', fixed, 30, 400), ('hcs', hcs, 40, 500), ('pulses', pulses, 60, 1200)]
