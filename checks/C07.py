"""C07: a simulation evolves every protocol step by step, calls the computations exactly once at each instant, and stores the states."""
import numpy as np
import quanguru as qg
from qgmon import model as M, promodel as PM, simmodel as S
from qgmon import ref
from qgmon.core import Abort, arr, Skip

RULE = ('Random systems with shared-step protocols run in explicit, system-owned and protocol-owned simulations; hooks on every preCompute, compute and postCompute '
        'log (who, when, states). The log is checked against the specified sequence and every logged or stored state against dense matrix evolution. '
        'Signature: run kind, protocol shapes, number of steps, which objects compute.')
MIN_EVENTS = {'created': 40, 'run': 150, 'state': 1500, 'call': 1000, 'stored': 300, 'deleted': 20, 'sampled': 20, 'evolfunc': 20, 'members': 40, 'kind:sim': 20, 'kind:sys': 8, 'kind:pro': 8, 'kind:syspro': 8}


class Log:
    """Records every call of a computation with copies of the states it received."""

    def __init__(self, w, m, who=None):
        self.calls = []
        self.m = m
        self.objs = [('sim', w.sim)]
        for e in w.entries:
            if not e.internal:
                self.objs.append(('pro', e.lib))
        for r, _ in w.systems():
            self.objs.append(('sys', r.lib))
        self.has = {}
        for kind, o in self.objs:
            self.has[id(o)] = set()
            for hook in ('preCompute', 'compute', 'postCompute'):
                if who is None or w.rng.random() < who:
                    setattr(o, hook, self.make(hook, o))
                    self.has[id(o)].add(hook)

    def make(self, hook, o):
        if hook == 'compute':
            def f(obj, states):
                self.calls.append((hook, id(o), obj is o, [arr(s) for s in states] if isinstance(states, list) else arr(states)))
        else:
            def f(obj):
                self.calls.append((hook, id(o), obj is o, None))
        return f


def expected_calls(w, log, traj):
    """The specified sequence of calls of one sweep point."""
    out = []

    def call(hook, o, states=None):
        if hook in log.has.get(id(o), ()):
            out.append((hook, id(o), states))

    def everyone(hook, k=None):
        call(hook, w.sim, None if k is None else [t[k] for t in traj])
        for e, t in zip(w.entries, traj):
            if not e.internal:
                call(hook, e.lib, None if k is None else t[k])
        for r, e in w.systems():
            call(hook, r.lib, None if k is None else traj[w.entries.index(e)][k])
    everyone('preCompute')
    for k in range(w.n + 1):
        everyone('compute', k)
    everyone('postCompute')
    return out


def check_calls(m, got, want):
    for i, w in enumerate(want):
        if i >= len(got):
            m.fail('every computation is called at every instant', f'{len(got)} calls instead of {len(want)}')
            raise Abort
        g = got[i]
        m.ev('call')
        ok = m.check(g[:2] == w[:2], 'computations are called in the specified order', f'call {i}: {g[:2]} instead of {w[:2]}')
        ok = ok and m.check(g[2], 'a computation is called with the object it belongs to')
        if ok and w[2] is not None:
            ok = compare(m, g[3], w[2], f'computations get the states of the current instant')
        if not ok:
            raise Abort
    if not m.check(len(got) == len(want), 'no computation is called more often than specified',
                   f'{len(got)} calls instead of {len(want)}'):
        raise Abort


def compare(m, got, want, what):
    if isinstance(want, list):
        return m.eq(isinstance(got, list) and len(got), len(want), what) and all(compare(m, g, x, what) for g, x in zip(got, want))
    m.ev('state')
    return m.close(got, want, what, tol=1e-7)


def check_storage(m, w, traj, idx=()):
    """Stored states of one sweep point."""
    for e, t in zip(w.entries, traj):
        key = str(e.name()) + 'Results'
        # two protocols of one system are stored under their own names, a free evolution under the name of its system
        got = w.sim.states[key]
        if w.kept(e):
            got = S.at(got, idx)
            m.ev('stored')
            if len(t) == 1 and not isinstance(got, list):
                got = [got]
            ok = m.eq(len(got), len(t), 'the initial state and one state per step are stored') and \
                all(m.close(g, x, 'stored states are the evolution of the initial state', tol=1e-7) for g, x in zip(got, t))
            if ok:
                m.ev('state', len(t))
                owner = e.root.lib if e.internal else e.lib
                ok = m.check(S.at(owner.states[key], idx) is got or all(m.close(a, b, 'a protocol\'s stored states are those of the simulation')
                                                                        for a, b in zip(S.at(owner.states[key], idx), t)), 'states reach their owner')
        else:
            m.ev('deleted')
            ok = m.check(got == [], 'states are not stored when they are to be deleted', repr(got)[:200])
        if not ok:
            raise Abort


def choose_keep(rng, w):
    if rng.random() < .3:
        w.keep = False
        if w.kind in ('sim', 'sys', 'syspro') or rng.random() < .5:
            w.sim.delStates = True
        else:
            w.roots[0].lib.simDelStates = True
            # own value of the protocol's simulation? none: it follows its system
    for e in w.entries:
        if not e.internal and rng.random() < .2 and w.kind != 'pro':
            e.keep = bool(rng.integers(2))
            e.lib.simDelStates = not e.keep


def check_return(m, w, ret, traj):
    e = w.entries[0]
    if w.kind in ('sys', 'pro') or (w.kind == 'syspro' and e.internal):
        if w.kept(e):
            m.eq(len(ret), w.n + 1, 'running a system or protocol returns its states')
            for g, x in zip(ret, traj[0]):
                m.close(g, x, 'running a system or protocol returns its states', tol=1e-7)
        else:
            m.eq(ret, [], 'running a system or protocol returns its states')


def single(rng, m):
    w = S.World(rng, m)
    log = Log(w, m, None if rng.random() < .5 else .5)
    choose_keep(rng, w)
    if rng.random() < .3:
        for root in w.roots:      # something reads (and caches) before the run
            root.lib.totalHamiltonian
        for e in w.entries:
            e.lib.unitary()
    ret = w.run()
    m.ev('run')
    m.ev('kind:' + w.kind)
    traj = w.trajectories()
    check_calls(m, log.calls, expected_calls(w, log, traj))
    check_storage(m, w, traj)
    check_return(m, w, ret, traj)
    m.eq(w.sim.stepCount, w.n, 'the number of steps covers the total time')
    times = w.sim.timeList
    if m.eq(len(times), w.n + 1, 'there is one time for every instant'):
        m.close(np.array(times, float), w.dt * np.arange(w.n + 1), 'the instants are one step size apart')
    m.sig('single', w.kind, tuple(e.desc() for e in w.entries), w.n)
    m.sample = {'kind': w.kind, 'entries': [e.desc() for e in w.entries], 'steps': w.n, 'calls': len(log.calls)}


def samples(rng, m):
    """Steps divided into samples: all samples of a step are available, and the evolution is the same as without."""
    w = S.World(rng, m, own_dt=False)
    n = int(rng.integers(2, 5))
    frees = [q for pool in w.pools.values() for q in pool if isinstance(q, PM.MFree)] + [e.mp for e in w.entries if isinstance(e.mp, PM.MFree)]
    how = int(rng.integers(3))
    if how == 0:          # every step of every system of the simulation
        (w.sim if w.kind == 'sim' else w.roots[0].lib.simulation).samples = n
        for q in frees:
            q.samples = n
    elif how == 1:        # the steps of one protocol
        es = [e for e in w.entries if not e.internal and sum(x.root is e.root for x in w.entries) == 1 and "'" not in e.mp.desc()]
        if not es:
            raise Skip
        e = es[0]
        e.lib.simSamples = n
        for q in e.mp.all().values():
            if isinstance(q, PM.MFree):
                q.samples = n
    else:                 # single steps
        real = [q for q in frees if any(q.lib is st for e in w.entries if isinstance(e.mp, PM.MProt) for st in e.lib.steps.values())]
        if not real:
            raise Skip
        for q in real[:2]:
            q.samples = int(rng.integers(2, 5))
            q.lib.simSamples = q.samples
    seen = []
    pros = w.sim.qEvolutions
    pros = pros if isinstance(pros, list) else [pros]

    def compute(sim, states):
        seen.append([[arr(x) for x in p.sampleStates] for p in pros])
    w.sim.compute = compute
    w.run()
    traj = w.trajectories()
    m.ev('sampled')
    m.eq(len(seen), w.n + 1, 'every computation is called at every instant')
    for e, t, i in zip(w.entries, traj, range(len(pros))):
        direct = [e.mp] if isinstance(e.mp, PM.MFree) else [q for q, _ in getattr(e.mp, 'steps', [])]
        on = any(isinstance(q, PM.MFree) and q.samples > 1 for q in direct)
        for k in range(w.n + 1):
            want = []
            if on and k > 0:
                s = t[k - 1]
                for u in e.mp.sampled(e.dt or w.dt):
                    s = u @ s
                    want.append(s)
            if not compare(m, seen[k][i], want, 'the samples of a step are the states between its parts'):
                raise Abort
    check_storage(m, w, traj)
    m.sig('samples', how, n, tuple(e.desc() for e in w.entries))


def evolfunc(rng, m):
    """A custom evolution function replaces the evolution, everything else stays."""
    w = S.World(rng, m, own_dt=False)
    log = Log(w, m, .7)
    libs = w.sim.protocols if w.kind != 'sim' else None
    if rng.random() < .5:
        calls = []
        rots = [ref.unitary(rng, e.root.dimension()) for e in w.entries]

        def evolve(sim):
            calls.append(sim is w.sim)
            for p, u in zip(sim.subSys.keys(), rots):
                p.currentState = u @ arr(p.currentState)
        w.sim.evolFunc = evolve
        w.run()
        traj = []
        for e, u in zip(w.entries, rots):
            traj.append([e.start()])
            for _ in range(w.n):
                traj[-1].append(u @ traj[-1][-1])
        m.check(all(calls), 'the evolution function gets the simulation')
        m.eq(len(calls), w.n, 'the evolution function is called once per step')
        check_calls(m, log.calls, expected_calls(w, log, traj))
        check_storage(m, w, traj)
    else:
        w.sim.evolFunc = None
        w.run()
        got = [c[:2] for c in log.calls]
        want = []
        for hook in ('preCompute', 'compute', 'postCompute'):
            for kind, o in [('sim', w.sim)] + [('pro', e.lib) for e in w.entries if not e.internal] + [('sys', r.lib) for r, _ in w.systems()]:
                if hook in log.has[id(o)] and not (kind == 'sim' and hook == 'compute'):
                    want.append((hook, id(o)))
        m.eq(got, want, 'without an evolution every computation is called once')
    m.ev('evolfunc')
    m.sig('evolfunc', w.kind, libs is None, tuple(e.desc() for e in w.entries))


def members(rng, m):
    """Protocols and systems are exactly the ones added and not removed, in the order they were added."""
    w = S.World(rng, m, kind='sim', own_dt=False, maxdim=2, maxD=4)
    extra = []
    ran = False
    if rng.random() < .25:          # the simulation is created with its systems
        if all(e.internal for e in w.entries):
            libs = [e.root.lib for e in w.entries]
            old = w.sim
            if rng.random() < .5:
                w.sim = qg.Simulation(libs[0] if len(libs) == 1 and rng.random() < .5 else libs)
            else:
                w.sim = qg.Simulation(subSys=libs)
            for x in libs:
                old.removeQSystems(x)
            w.set_times(w.sim)
            extra.append('init')

    def name(e):
        """What a protocol can be called when it is removed or replaced: the object, its name, or the system's name for the internal one."""
        if e.internal:
            return str(e.root.lib.name) if rng.random() < .5 else e.root.lib.name
        k = int(rng.integers(3))
        return e.lib if k else e.lib.name

    def fresh(root):
        # (a protocol that becomes a step of another one takes over the latter's initial state)
        pool = [q for q in w.pools[id(root)] if not any(q is x.mp for x in w.entries)]
        return S.Entry(PM.new_prot(rng, root, pool, 0), root)

    for _ in range(int(rng.integers(2, 6))):
        k = int(rng.integers(6))
        if k == 0 and len(w.entries) > 1:
            e = w.entries[int(rng.integers(len(w.entries)))]
            n = name(e)
            w.sim.removeProtocol([n] if rng.random() < .2 else n)
            w.entries.remove(e)
            extra.append('rp' + type(n).__name__[0])
        elif k == 1:
            root = w.roots[int(rng.integers(len(w.roots)))]
            e = fresh(root)
            old = w.entries[int(rng.integers(len(w.entries)))]
            if rng.random() < .5:      # replaces another one
                n = name(old)
                if rng.random() < .5:
                    w.sim.addProtocol(protocol=e.lib, system=root.lib, protocolRemove=n)
                else:
                    w.sim.addProtocol(e.lib, protocolRemove=n)
                w.entries.remove(old)
                extra.append('x' + type(n).__name__[0])
            else:
                w.sim.addProtocol(e.lib)
                extra.append('p')
            w.entries.append(e)
        elif k == 2:
            root = S.World.build_root(rng, 2, 4)
            w.roots.append(root)
            w.pools[id(root)] = []
            e = S.Entry(PM.MFree(root, 1, root.lib), root, True)
            how = int(rng.integers(3))
            (w.sim.addQSystems if how < 2 else w.sim.addSubSys)(root.lib if how else root.lib.name)
            w.entries.append(e)
            extra.append('q')
        elif k == 3 and len(w.systems()) > 1:
            r, _ = w.systems()[int(rng.integers(len(w.systems())))]
            how = int(rng.integers(3))
            (w.sim.removeQSystems if how < 2 else w.sim.removeSubSys)(r.lib if how else r.lib.name)
            w.entries = [e for e in w.entries if e.root is not r]
            extra.append('rq')
        elif k == 4:                    # several at once
            if rng.random() < .5:
                es = [fresh(w.roots[int(rng.integers(len(w.roots)))]) for _ in range(2)]
                w.sim.addProtocol([e.lib for e in es])
                w.entries += es
                extra.append('pp')
            else:
                rs = [S.World.build_root(rng, 2, 4) for _ in range(2)]
                for r in rs:
                    w.roots.append(r)
                    w.pools[id(r)] = []
                (w.sim.addQSystems if rng.random() < .5 else w.sim.addSubSys)([r.lib for r in rs])
                w.entries += [S.Entry(PM.MFree(r, 1, r.lib), r, True) for r in rs]
                extra.append('qq')
        elif k == 5 and not ran:
            w.run()
            ran = True
            extra.append('run')
    log = Log(w, m, .6)
    w.run()
    ok = m.eq([id(s) for s in w.sim.qSystems], [id(e.root.lib) for e in w.entries], 'a simulation has the systems that were added and not removed')
    evo = w.sim.qEvolutions
    evo = evo if isinstance(evo, list) else [evo]
    for pros in (w.sim.protocols, evo):
        ok = ok and m.check(len(pros) == len(w.entries) and all((p is e.root.lib._freeEvol if e.internal else p is e.lib) for e, p in zip(w.entries, pros)),
                            'a simulation has the protocols that were added and not removed')
    if not ok:
        raise Abort
    traj = w.trajectories()
    check_calls(m, log.calls, expected_calls(w, log, traj))
    check_storage(m, w, traj)
    m.ev('members')
    for x in extra:
        m.ev('edit:' + x)
    m.sig('members', tuple(extra), tuple(e.desc() for e in w.entries))


def created(rng, m):
    """Systems created by a simulation, with their parameters, belong to it and run like any other."""
    sim = qg.Simulation()
    qs = []
    for i in range(int(rng.integers(1, 4))):
        f = float(rng.uniform(.3, 2))
        op = [qg.sigmax, qg.sigmay, qg.sigmaz][int(rng.integers(3))]
        how = int(rng.integers(4))
        cls = [qg.Qubit, 'Qubit'][0]
        if how == 0:
            q = sim.createSubSys(cls, frequency=f, operator=op)
        elif how == 1:
            q, _ = sim.createQSystems(cls, frequency=f, operator=op)
        elif how == 2:
            q = sim.addSubSys(cls, frequency=f, operator=op)
        else:
            q, _ = sim.addQSystems(qg.Qubit(), frequency=f, operator=op)
        m.check(isinstance(q, qg.Qubit) and q.frequency == f and q.operator is op, 'a created system has the given parameters')
        q.initialState = int(rng.integers(2))
        qs.append((q, f, op, int(np.argmax(np.abs(arr(q.initialState)[:, 0])))))
    dt, n = float(rng.uniform(.1, .6)), int(rng.integers(1, 5))
    sim.totalTime, sim.stepSize, sim.delStates = dt * (n - .5), dt, False
    sim.run()
    if not m.eq([id(x) for x in sim.qSystems], [id(q) for q, *_ in qs], 'a simulation has the systems that were added and not removed'):
        raise Abort
    for q, f, op, s0 in qs:
        u = ref.U(f * arr(op()), dt)
        v = np.zeros((2, 1), complex)
        v[s0] = 1
        got = sim.states[str(q.name) + 'Results']
        m.eq(len(got), n + 1, 'every instant is stored')
        for x in got:
            m.close(arr(x), v, 'a created system evolves under its parameters')
            v = u @ v
        m.ev('created')
    m.sig('created', len(qs), n)


FAMILIES = [('single', single, 360, 6000), ('samples', samples, 80, 1200), ('evolfunc', evolfunc, 60, 800), ('members', members, 160, 2400),
            ('created', created, 40, 400)]
