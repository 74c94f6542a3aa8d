"""C11: updates of a protocol hold exactly while that protocol is computed, and leave every parameter as it was."""
import numpy as np
import quanguru as qg
from qgmon import model as M, promodel as PM, simmodel as S
from qgmon.core import Abort, arr
from checks import C07

RULE = ('Random worlds of shared, repeated, conjugated and nested steps get many updates each: of frequencies, operators and orders of systems and terms, of angles, '
        'axes and phases of gates, of ratios, with one or several targets, overlapping targets, custom functions and custom setup/setback, on protocols, free '
        'evolutions and gates. Propagators are read in arbitrary order with edits in between, simulations are run with hooks that observe the parameters at every '
        'instant, with and without samples and sweeps. Signature: update keys per protocol shape.')
MIN_EVENTS = {'read': 150, 'param': 2000, 'update:added': 150, 'run': 40, 'key:frequency': 40, 'key:angle': 10, 'key:ratio': 10, 'key:operator': 8, 'key:order': 8,
              'key:phase': 3, 'function': 10, 'custom': 10, 'overlap': 3}


class U:
    """Mirror of one update: parameters (get, set) and the value they take."""

    def __init__(self, params, value):
        self.params, self.value = params, value

    def setup(self):
        self.mem = [g() for g, _ in self.params]
        for _, s in self.params:
            s(self.value)

    def setback(self):
        for (_, s), v in zip(self.params, self.mem):
            s(v)


def attr(o, a):
    return (lambda: getattr(o, a)), (lambda v: setattr(o, a, v))


def item(lst, i):
    return (lambda: lst[i]), (lambda v: lst.__setitem__(i, v))


def targets(rng, root, pool, key):
    """[(library object, mirror parameter)] that share a key."""
    gates = [p for p in pool if isinstance(p, PM.MGate)]
    frees = [p for p in pool if isinstance(p, PM.MFree)]
    out = []
    if key == 'frequency':
        for s in root.leaves():
            out.append((s.lib, attr(s.terms[0], 'freq')))
        for t in root.terms_below():
            if t.parts is None:
                out.append((t.lib, attr(t, 'freq')))
    elif key == 'operator':
        for s in root.leaves():
            out.append((s.lib, item(s.terms[0].factors[0], 1)))
    elif key == 'order':
        for s in root.leaves():
            out.append((s.lib, item(s.terms[0].factors[0], 2)))
    elif key == 'angle':
        out = [(g.lib, attr(g, 'angle')) for g in gates]
    elif key == 'rotationAxis':
        out = [(g.lib, attr(g, 'axis')) for g in gates]
    elif key == 'phase':
        out = [(g.lib, attr(g, 'phase')) for g in gates if isinstance(g.lib, qg.SpinRotation) and not isinstance(g.lib, qg.xGate)]
    elif key == 'ratio':
        out = [(f.lib, attr(f, 'ratio')) for f in frees if f.lib is not f.s.lib]
    return out


KEYS = ['frequency'] * 4 + ['operator', 'order', 'angle', 'angle', 'rotationAxis', 'phase', 'ratio', 'ratio']


def add(rng, m, root, pool, p):
    key = KEYS[int(rng.integers(len(KEYS)))]
    cands = targets(rng, root, pool, key)
    if key == 'operator':
        n = cands[0][0].dimension
        cands = [c for c in cands if c[0].dimension == n]
    if not cands:
        return
    k = min(len(cands), 1 if rng.random() < .5 else int(rng.integers(2, 5)))
    idx = [int(i) for i in rng.choice(len(cands), k, replace=False)]
    libs = [cands[i][0] for i in idx]
    # a system and its first term name the same frequency: one of them per update
    seen, keep = [], []
    for i in idx:
        lib = cands[i][0]
        me = lib._firstTerm if key == 'frequency' and hasattr(lib, '_firstTerm') and not isinstance(lib, qg.QTerm) else lib
        if not any(me is s for s in seen):
            seen.append(me)
            keep.append(i)
    libs, params = [cands[i][0] for i in keep], [cands[i][1] for i in keep]
    if key in ('frequency', 'angle'):
        v = float(rng.uniform(-2, 2)) if rng.random() < .8 else 0
        lv = v
    elif key == 'operator':
        o = M.ops_for('sys', libs[0].dimension, True)
        v = o[int(rng.integers(len(o)))]
        lv = M.lib_op(v)
    elif key == 'order':
        v = lv = int(rng.integers(1, 4))
    elif key == 'rotationAxis':
        v = lv = 'xyz'[int(rng.integers(3))]
    elif key == 'phase':
        v = lv = [-1, 1, 2, .5][int(rng.integers(4))]
    else:
        v = lv = float(rng.uniform(.2, 2))
    if any(any(x is y for x in libs for y in getattr(u, 'libs', ())) and u.key == key for u in p.updates):
        m.ev('overlap')
    how = int(rng.integers(6))
    one = libs[0] if len(libs) == 1 and rng.random() < .6 else libs
    if how <= 2:
        p.lib.createUpdate(system=one, key=key, value=lv)
    elif how == 3:
        u = qg.classes.QPro.Update(system=one, value=lv)
        u.key = key
        p.lib.addUpdate(u)
    elif how == 4:
        u = qg.classes.QPro.Update(system=one, key=key)

        def fun(upd, libs=tuple(libs), key=key, lv=lv):
            for x in libs:
                setattr(x, key, lv)
        u.updateFunction = fun
        p.lib.addUpdate(u)
        m.ev('function')
    else:
        u = qg.classes.QPro.Update()
        mem = []

        def setup(libs=tuple(libs), key=key, lv=lv):
            mem.append([getattr(x, key) for x in libs])
            for x in libs:
                setattr(x, key, lv)

        def setback(libs=tuple(libs), key=key):
            for x, v0 in zip(libs, mem.pop()):
                setattr(x, key, v0)
        u.setup, u.setback = setup, setback
        p.lib.addUpdate(u)
        m.ev('custom')
    mu = U(params, v)
    mu.libs, mu.key = libs, key
    p.updates.append(mu)
    m.note('update', p.lib.name, p.desc(), key, [str(x.name) for x in libs], v, how)
    m.ev('update:added')
    m.ev('key:' + key)
    return key


def params(root, pool):
    """All parameters as the library has them now, and as they should be."""
    out = []
    for t in root.terms_below():
        if t.parts is None:
            out.append((t.lib.frequency, t.freq, 'frequency'))
            if t.single:
                out.append((t.lib.order, t.factors[0][2], 'order'))
                out.append((getattr(t.lib.operator, '__name__', t.lib.operator), t.factors[0][1], 'operator'))
    for s in root.leaves():
        out.append((s.lib.frequency, s.terms[0].freq, 'system frequency'))
    for p in pool:
        if isinstance(p, PM.MGate):
            out += [(p.lib.angle, p.angle, 'angle'), (p.lib.rotationAxis.lower(), p.axis.lower(), 'axis')]
            if hasattr(p.lib, 'phase') and isinstance(p.lib, qg.SpinRotation) and p.impl is None:
                out.append((p.lib.phase, p.phase, 'phase'))
        elif isinstance(p, PM.MFree):
            if p.lib is not p.s.lib:
                out.append((p.lib.ratio, p.ratio, 'ratio'))
    return out


def intact(m, root, pool, when):
    for got, want, what in params(root, pool):
        m.ev('param')
        if not m.check(got == want, f'parameters are as they were {when}', f'{what}: {got!r} instead of {want!r}'):
            raise Abort


def read(rng, m, p, dt, root, pool):
    u = p.lib.unitary()
    m.ev('read')
    if not m.close(u, p.U(dt), 'a protocol uses the updated parameters, and every other one the present parameters', tol=2e-8):
        raise Abort
    intact(m, root, pool, 'after a propagator is computed')


def shared(rng, m):
    """Few steps that are used again and again, in protocols of several levels with updates; steps are read and edited one by one."""
    history(rng, m, reuse=.7, depth=2)


def history(rng, m, reuse=0, depth=1):
    root = M.build_tree(rng, maxdim=3, maxD=18 if not reuse else 8)
    if root.comp and rng.random() < .6:
        M.add_coupling(rng, root)
    dt = float(rng.uniform(.1, 1.2))
    root.lib.simStepSize = dt
    root.lib.simTotalTime = 3 * dt
    pool = []
    tops = [PM.new_prot(rng, root, pool, depth, reuse=reuse) for _ in range(int(rng.integers(1, 4)))]
    pool += [p for p in tops if p not in pool]
    own = PM.MFree(root, 1, root.lib)
    nested = {id(q) for p in pool if isinstance(p, PM.MProt) for q, _ in p.steps}
    readable = [p for p in pool if not (isinstance(p, PM.MFree) and id(p) not in nested)] + [own]
    m.note('system', root.describe(), 'protocols', [p.desc() for p in tops])
    keys = []
    late = rng.random() < .5
    n = int(rng.integers(1, 6)) + 2 * bool(reuse)
    if not late:
        for _ in range(n):
            keys.append(add(rng, m, root, pool, pool[int(rng.integers(len(pool)))]))
    for i in range(int(rng.integers(3, 9))):
        for _ in range(int(rng.integers(1, 4))):
            read(rng, m, readable[int(rng.integers(len(readable)))], dt, root, pool)
        if late and n and rng.random() < .7:
            keys.append(add(rng, m, root, pool, pool[int(rng.integers(len(pool)))]))
            n -= 1
        k = int(rng.integers(6)) if rng.random() >= reuse else 2
        if k <= 1:
            M.edit_frequency(rng, root, m)
        elif k == 2:
            gs = [p for p in pool if isinstance(p, PM.MGate)]
            if gs:
                g = gs[int(rng.integers(len(gs)))]
                g.angle = g.lib.angle = rng.fresh(-3, 3, g.angle)
        elif k == 3:
            M.edit_operator(rng, root, m)
        elif k == 4:
            M.edit_order(rng, root, m)
    for p in readable:
        read(rng, m, p, dt, root, pool)
    m.sig('hist', tuple(p.desc() for p in tops), tuple(str(k) for k in keys))
    m.sample = {'system': root.describe(), 'protocols': [p.desc() for p in tops], 'updates': [str(k) for k in keys]}


def runs(rng, m):
    w = S.World(rng, m, updates=False, kind=['sim', 'pro', 'syspro', 'sim'][int(rng.integers(4))])
    keys = []
    for root in w.roots:
        pool = w.pools.get(id(root), [])
        for _ in range(int(rng.integers(1, 4)) if pool else 0):
            keys.append(add(rng, m, root, pool, pool[int(rng.integers(len(pool)))]))
    if not any(keys):
        return
    log = C07.Log(w, m)

    def observed(sim, states, old=w.sim.compute):
        for root in w.roots:
            intact(m, root, w.pools.get(id(root), []), 'when computations are called')
        if old:
            old(sim, states)
    w.sim.compute = observed
    log.has[id(w.sim)].add('compute')
    if rng.random() < .3 and w.kind != 'pro':
        (w.sim if w.kind == 'sim' else w.roots[0].lib.simulation).samples = n = int(rng.integers(2, 4))
        for q in [q for pool in w.pools.values() for q in pool if isinstance(q, PM.MFree)] + [e.mp for e in w.entries if isinstance(e.mp, PM.MFree)]:
            q.samples = n
        # steps with own step sizes keep their own samples
        if any(e.dt is not None for e in w.entries):
            return
        m.note('samples', n)
    for _ in range(1 + int(rng.random() < .4)):
        w.run()
        m.ev('run')
        traj = w.trajectories()
        C07.check_calls(m, log.calls, C07.expected_calls(w, log, traj))
        C07.check_storage(m, w, traj)
        for root in w.roots:
            intact(m, root, w.pools.get(id(root), []), 'after a run')
        del log.calls[:]
        M.edit_frequency(rng, w.roots[0], m)
    m.sig('runs', w.kind, tuple(e.desc() for e in w.entries), tuple(str(k) for k in keys))
    m.sample = {'kind': w.kind, 'entries': [e.desc() for e in w.entries], 'updates': [str(k) for k in keys]}


def swept(rng, m):
    """A swept parameter that a protocol also updates: the protocol uses its own value, everything else the swept one."""
    w = S.World(rng, m, updates=False, kind='sim', own_dt=False)
    root = w.roots[int(rng.integers(len(w.roots)))]
    pool = w.pools.get(id(root), [])
    ps = [p for p in pool if isinstance(p, PM.MProt)]
    if not ps:
        return
    p = ps[int(rng.integers(len(ps)))]
    leaf = root.leaves()[int(rng.integers(len(root.leaves())))]
    v = float(rng.uniform(-2, 2))
    p.lib.createUpdate(system=leaf.lib, key='frequency', value=v)
    mu = U([attr(leaf.terms[0], 'freq')], v)
    mu.libs, mu.key = [leaf.lib], 'frequency'
    p.updates.append(mu)
    m.ev('update:added')
    m.ev('key:frequency')
    if rng.random() < .5:
        add(rng, m, root, pool, p)
    vals = [float(x) for x in rng.uniform(-2, 2, int(rng.integers(2, 5)))]
    w.sim.Sweep.createSweep(system=leaf.lib, sweepKey='frequency', sweepList=vals)
    log = C07.Log(w, m)
    w.run()
    m.ev('run')
    want = []
    for x in vals:
        leaf.terms[0].freq = x
        want += C07.expected_calls(w, log, w.trajectories())
    C07.check_calls(m, log.calls, want)
    intact(m, root, pool, 'after a run')
    m.sig('swept', tuple(e.desc() for e in w.entries), len(vals))


FAMILIES = [('history', history, 120, 2500), ('shared', shared, 120, 2500), ('runs', runs, 80, 1600), ('swept', swept, 40, 800)]
