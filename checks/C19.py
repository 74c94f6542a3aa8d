"""C19: what is refused or fails leaves everything as it was."""
import gc
import multiprocessing
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox import evolution as evo
from qgmon import model as M, promodel as PM, simmodel as S
from qgmon import ref
from qgmon.core import Abort, Skip, arr
from qgmon import refusals
from checks import C07, C08, C12

RULE = ('Random simulations are interrupted by exceptions raised at random moments of a run from user functions of every kind (computations, evolution, updates, sweeps, time '
        'dependence) and from the numerical layer; afterwards parameters, Hamiltonians and a new run are compared with a mirror in which nothing had happened. '
        'Invalid edits of systems and simulations (about 70 kinds) are tried between valid ones: each has to be refused and to leave Hamiltonians, states, dimensions, structure and runs as they were. '
        'Histories of valid edits and runs have impossible edits, also of protocols, gates, couplings and process counts, at random moments; others make a model that cannot be built, use it and undo the edit. '
        'Signature: place and moment of failure, run kind; kinds of refused edits.')
MIN_EVENTS = {'boom': 60, 'rerun': 60, 'state': 800, 'refused': 200, 'bad kinds': 30, 'refused in a simulation': 150, 'refused in a history': 300, 'recovered': 30}


class Boom(Exception):
    pass


class Bomb:
    def __init__(self):
        self.left, self.where, self.hit = None, None, None

    def tick(self, where):
        if self.left is not None and (self.where is None or where == self.where):
            self.left -= 1
            if self.left < 0:
                self.left = None
                self.hit = where
                raise Boom(where)

    def wrap(self, f, where, after=False):
        def g(*a, **k):
            if not after:
                self.tick(where)
            out = f(*a, **k)
            if after:
                self.tick(where)
            return out
        return g


def rig(rng, m, w, bomb):
    """Bombs in all user functions and in the exponentials."""
    objs = [w.sim] + [e.lib for e in w.entries if not e.internal] + [r.lib for r, _ in w.systems()]
    for o in objs:
        for h in ('preCompute', 'compute', 'postCompute'):
            if getattr(o, h) is not None:
                setattr(o, h, bomb.wrap(getattr(o, h), h))
    w.sim.evolFunc = bomb.wrap(w.sim.evolFunc, 'evolFunc', bool(rng.integers(2)))
    for name in ('LiouvillianExp', 'Unitary'):
        if hasattr(evo, name):
            setattr(evo, name, bomb.wrap(getattr(evo, name), 'exponential'))
    for pool in w.pools.values():
        for p in pool:
            for u in p.lib.updates if hasattr(p.lib, 'updates') and p.updates else []:
                if u.updateFunction is not None:
                    u.updateFunction = bomb.wrap(u.updateFunction, 'update', bool(rng.integers(2)))
                else:
                    u.setup = bomb.wrap(u.setup, 'update')


def arm(rng, bomb, places):
    bomb.hit = None
    bomb.left = int(2 ** rng.uniform(0, 5)) - 1
    bomb.where = places[int(rng.integers(len(places)))] if rng.random() < .8 else None


def failing(rng, m):
    td = rng.random() < .25
    w = S.World(rng, m, own_dt=not td, td=td)
    H = C12.Hooks(w, m)
    if td:
        taken = set()
        for _ in range(int(rng.integers(1, 3))):
            C12.add_hook(rng, m, w, H, taken)
    if not td and rng.random() < .25 and all(e.dt is None for e in w.entries):
        n = int(rng.integers(2, 4))
        (w.sim if w.kind == 'sim' else w.roots[0].lib.simulation).samples = n
        for q in [q for pool in w.pools.values() for q in pool if isinstance(q, PM.MFree)] + [e.mp for e in w.entries if isinstance(e.mp, PM.MFree)]:
            q.samples = n
        m.note('samples', n)
        m.ev('samples')
    bomb = Bomb()
    log = C07.Log(w, m)
    C07.choose_keep(rng, w)
    rig(rng, m, w, bomb)
    if td:
        for root in w.roots:
            for t in root.terms_below():
                if t.lib.timeDependency is not None:
                    t.lib.timeDependency = bomb.wrap(t.lib.timeDependency, 'time', bool(rng.integers(2)))
    ok_runs = int(rng.random() < .3)
    fails = []
    for r in range(int(rng.integers(1, 4)) + ok_runs):
        if r >= ok_runs:
            arm(rng, bomb, ['preCompute', 'compute', 'compute', 'postCompute', 'evolFunc', 'exponential', 'exponential', 'update', 'update'] + ['time'] * (3 * td))
        del log.calls[:]
        try:
            w.run()
            boom = False
            bomb.left = None
        except Boom:
            boom = True
            m.ev('boom')
            m.ev('boom:' + bomb.hit)
            fails.append(bomb.hit)
        except Exception as e:
            if bomb.hit is None:
                raise
            m.fail('the exception of a user function reaches the caller', (bomb.hit, type(e).__name__, str(e)[:200]))
            raise Abort
        m.check(boom == (bomb.hit is not None and r >= ok_runs), 'exceptions are not swallowed', bomb.hit)
        bomb.hit = None
        if boom:
            if not td:
                for root in w.roots:
                    if not M.compare_h(m, root, 'parameters are as before a failed run'):
                        raise Abort
                for pool in w.pools.values():
                    for p in pool:
                        if isinstance(p, PM.MGate):
                            m.close(p.lib.angle, p.angle, 'angles are as before a failed run')
            if rng.random() < .3 and not td:
                root = w.roots[int(rng.integers(len(w.roots)))]
                M.edit_frequency(rng, root, m)
        else:
            traj = w.trajectories()
            C07.check_calls(m, log.calls, C07.expected_calls(w, log, traj))
            C07.check_storage(m, w, traj)
    del log.calls[:]
    w.run()
    m.ev('rerun')
    traj = w.trajectories()
    C07.check_calls(m, log.calls, C07.expected_calls(w, log, traj))
    C07.check_storage(m, w, traj)
    m.sig('failing', w.kind, td, tuple(fails), tuple(e.desc() for e in w.entries))
    m.sample = {'kind': w.kind, 'failed at': fails, 'entries': [e.desc() for e in w.entries]}


def sweeps(rng, m):
    w = C08.make_world(rng, m, maxdim=3, maxD=9)
    C08.add_sweeps(rng, m, w)
    if not w.sweeps:
        raise Skip
    seen = []
    C08.install(rng, w, seen)
    bomb = Bomb()
    rig(rng, m, w, bomb)
    for s in w.sweeps:
        if s.label == 'function':
            s.lib.sweepFunction = bomb.wrap(s.lib.sweepFunction, 'sweep', bool(rng.integers(2)))
    fails = []
    for r in range(int(rng.integers(1, 3))):
        arm(rng, bomb, ['preCompute', 'compute', 'postCompute', 'evolFunc', 'exponential', 'update', 'sweep'])
        try:
            w.run()
            bomb.left = None
        except Boom:
            m.ev('boom')
            m.ev('boom:' + bomb.hit)
            fails.append(bomb.hit)
    if not fails:
        raise Skip
    del seen[:]
    w.run()
    m.ev('rerun')
    C08.check_results(m, w, seen)
    m.sig('sweeps', w.kind, tuple(fails), tuple((s.label, s.n, s.comb) for s in w.sweeps))
    m.sample = {'kind': w.kind, 'failed at': fails, 'sweeps': [(s.label, s.n) for s in w.sweeps]}


def bad_edits(rng, root):
    """(kind, callable) of edits that cannot be accepted for this tree."""
    nodes = list(root.walk())
    leaves = [s for s in nodes if not s.comp]
    comps = [s for s in nodes if s.comp]
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    leaf, any_ = pick(leaves), pick(nodes)
    one = M.lib_op(pick(M.ops_for(leaf.kind, leaf.dim)))
    fq = float(rng.uniform(.3, 2))
    ts = list(root.terms_below())
    single = pick([t for t in ts if t.single])
    nofreq = lambda: pick(['x', '1.0', [1.0], (1, 2), {1: 1}])
    nodim = lambda: pick([0, -2, 2.5, 'a', [3]])
    size = lambda s: np.ones((s.dimension() + int(rng.integers(1, 3)), 1), dtype=complex)
    out = [
        ('coupling on a single system', lambda: leaf.lib.createTerm(qSystem=[leaf.lib, qg.Qubit(frequency=1.)], operator=[one, qg.sigmax], frequency=fq)),
        ('operator list for one system', lambda: leaf.lib.createTerm(operator=[one] * int(rng.integers(1, 3)), frequency=fq)),
        ('frequency of a system', lambda: setattr(leaf.lib, 'frequency', nofreq())),
        ('frequency of a term', lambda: setattr(pick(ts).lib, 'frequency', nofreq())),
        ('term with a wrong frequency', lambda: leaf.lib.createTerm(operator=one, frequency=nofreq())),
        ('term with unknown keywords', lambda: leaf.lib.createTerm(operator=one, frequency=fq, foo=3)),
        ('orders for one system', lambda: setattr(single.lib, 'order', [1, 2])),
        ('sub-system of a single system', lambda: leaf.lib.addSubSys(pick([qg.Qubit(frequency=1.), qg.Qubit, qg.Cavity(dimension=3)]))),
        ('creation in a single system', lambda: leaf.lib.createSubSys(qg.Qubit, frequency=2.)),
        ('removal from a single system', lambda: leaf.lib.removeSubSys(pick(nodes).lib)),
        ('state of another size', lambda: setattr(any_.lib, 'initialState', size(any_))),
        ('state of an unknown kind', lambda: setattr(leaf.lib, 'initialState', pick(['up', 1.5, {1}]))),
        ('terms that are not terms', lambda: leaf.lib.addTerms(pick([leaf.lib, 5, 'no such term', [None]]))),
        ('terms replaced by other things', lambda: setattr(leaf.lib, 'terms', pick([leaf.lib, 5, 'no such term']))),
        ('unknown attribute', lambda: setattr(any_.lib, 'foo', 3)),
        ('taken alias', lambda: setattr(leaf.lib, 'alias', taken(rng, root, leaf))),
        ('removal of an unknown term', lambda: any_.lib.removeTerm('no such term')),
        ('removal of a system as a term', lambda: any_.lib.removeTerm(leaf.lib)),
        ('copy with unknown keywords', lambda: any_.lib.copy(foo=3)),
        ('addition of a number', lambda: any_.lib + 5),
    ]
    big = [s for s in leaves if s.dim != 2]
    if big:
        s = pick(big)
        pauli = pick([qg.sigmax, qg.sigmay, qg.sigmaz])
        out += [('pauli operator on more levels', lambda: s.lib.createTerm(operator=pauli, frequency=fq)),
                ('pauli operator set on more levels', lambda: setattr(s.lib, 'operator', pauli))]
    free = [s for s in leaves if s.kind in ('cavity', 'sys')]
    if free:
        s2 = pick(free)
        out += [('dimension', lambda: setattr(s2.lib, 'dimension', nodim()))] * 2
    if comps:
        c = pick(comps)
        a, b = [pick(c.leaves()) for _ in range(2)]
        if len(c.leaves()) > 1:
            while a is b:
                b = pick(c.leaves())
            ops = [M.lib_op(pick(M.ops_for(x.kind, x.dim))) for x in (a, b)]
            out += [('operators of a coupling are too few', lambda: c.lib.createTerm(qSystem=[a.lib, b.lib], operator=ops[:1], frequency=fq)),
                    ('operators of a coupling are not a list', lambda: c.lib.createTerm(qSystem=[a.lib, b.lib], operator=ops[0], frequency=fq)),
                    ('orders of a coupling', lambda: c.lib.createTerm(qSystem=[a.lib, b.lib], operator=ops, order=[1], frequency=fq)),
                    ('coupling with a wrong frequency', lambda: c.lib.createTerm(qSystem=[a.lib, b.lib], operator=ops, frequency=nofreq())),
                    ('coupling with unknown keywords', lambda: c.lib.createTerm(qSystem=[a.lib, b.lib], operator=ops, frequency=fq, foo=3)),
                    ('coupling to a foreign system', lambda: c.lib.createTerm(qSystem=[a.lib, qg.Qubit(frequency=1.)], operator=[ops[0], qg.sigmax], frequency=fq))]
            if b.dim != 2:
                out.append(('pauli coupling on more levels', lambda: c.lib.createTerm(qSystem=[a.lib, b.lib], operator=[ops[0], qg.sigmax], frequency=fq)))
        outside = [s for s in leaves if s not in c.leaves()]
        if outside:
            o = pick(outside)
            out.append(('coupling to a system outside', lambda: c.lib.createTerm(qSystem=[a.lib, o.lib], operator=[one, qg.Jz], frequency=fq)))
        cp = [t for t in ts if not t.single and t.parts is None]
        if cp:
            t = pick(cp)
            k = len(t.factors)
            out += [('operators set on a coupling', lambda: setattr(t.lib, 'operator', pick([[qg.Jz] * (k - 1), [qg.Jz] * (k + 1), qg.Jz]))),
                    ('orders set on a coupling', lambda: setattr(t.lib, 'order', pick([[1] * (k - 1), [2] * (k + 1), 2])))]
        n = len(c.subs)
        nested = [s for s in c.subs if s.comp]
        good = lambda s: [good(x) for x in s.subs] if s.comp else int(rng.integers(s.dim))
        last = lambda v: good(c)[:-1] + [v]
        out += [('state inputs of a composite are too few or many', lambda: setattr(c.lib, 'initialState', pick([good(c)[:-1], good(c) + [0]]))),
                ('state input of a composite is not a list', lambda: setattr(c.lib, 'initialState', pick([0, {0: 1}, 'up', 1.]))),
                ('state input inside a composite', lambda: setattr(c.lib, 'initialState', last(pick(['up', 1.5, size(c.subs[-1])])))),
                ('sub-system that is no system', lambda: c.lib.addSubSys(pick([5, None, 'no such name', qg.Simulation(), 1.5]))),
                ('sub-system with unknown keywords', lambda: c.lib.addSubSys(qg.Qubit(frequency=1.), foo=3)),
                ('creation with unknown keywords', lambda: c.lib.createSubSys(pick([qg.Qubit, qg.Cavity]), foo=3)),
                ('creation with a wrong frequency', lambda: c.lib.createSubSys(qg.Qubit, frequency=nofreq())),
                ('creation with a wrong dimension', lambda: c.lib.createSubSys(qg.Cavity, dimension=nodim())),
                ('circular addition', lambda: c.lib.addSubSys(circular(rng, c))),
                ('removal of an unknown name', lambda: c.lib.removeSubSys(pick(['no such name', ['no such name', c.subs[0].lib]]))),
                ('terms of a composite replaced', lambda: setattr(c.lib, 'terms', pick([leaf.lib, 5, 'no such term']))),
                ('JC coupling of wrong systems', lambda: c.lib.JC(fq, *pick([[qg.Cavity(dimension=3, frequency=1.), qg.Qubit(frequency=1.)], [leaf.lib, c.lib], [qg.Qubit(frequency=1.), qg.Qubit(frequency=2.)]])))]
        if nested:
            x = pick(nested)
            i = c.subs.index(x)
            out.append(('nested state inputs are too few or many',
                        lambda: setattr(c.lib, 'initialState', [good(s) if s is not x else pick([good(s)[:-1], good(s) + [0], 0]) for s in c.subs])))
    return out


def taken(rng, root, leaf):
    others = [s.lib for s in root.walk() if s is not leaf] + [t.lib for t in root.terms_below()]
    s = others[int(rng.integers(len(others)))]
    return str(s.name)


def circular(rng, c):
    """c, or something that contains c."""
    up = [c]
    while up[-1].parent is not None:
        up.append(up[-1].parent)
    x = up[int(rng.integers(len(up)))].lib
    if rng.random() < .2 and x is up[-1].lib:
        x = qg.QuantumSystem(subSys=[x])
        HOLD.append(x)
    return x if rng.random() < .7 else str(x.name)


HOLD = []


def refused(rng, m):
    root = M.build_tree(rng, maxdim=3, maxD=24, nest=.6)
    for _ in range(int(rng.integers(1, 4))):
        M.edit_addterm(rng, root, m)
    M.set_initial(rng, root)
    nodes = list(root.walk())
    kinds = []

    def look(kind, full):
        m.ev('state')
        if not M.compare_h(m, root, f'Hamiltonian is as before the refused edit ({kind})'):
            raise Abort
        if not m.close(root.lib.initialState, root.ket(), f'initial state is as before the refused edit ({kind})'):
            raise Abort
        if full:
            for s in nodes:
                m.check(s.lib.dimension == s.dimension(), f'dimension is as before the refused edit ({kind})')
                m.check(len(s.lib.terms) == len([t for t in s.terms if t.parts is None]), f'terms are as before the refused edit ({kind})')
                if s.comp:
                    m.check([x for x in s.lib.subSys.values()] == [x.lib for x in s.subs], f'sub-systems are as before the refused edit ({kind})')
                if not m.close(s.lib.initialState, s.ket(), f'initial states of sub-systems are as before the refused edit ({kind})'):
                    raise Abort
    for _ in range(int(rng.integers(3, 9))):
        if rng.random() < .5:
            [M.edit_frequency, M.edit_addterm, M.edit_order, M.edit_operator, M.edit_removeterm][int(rng.integers(5))](rng, root, m)
            if rng.random() < .5:
                M.set_initial(rng, root)
            elif rng.random() < .3:
                look('none', False)
        edits = bad_edits(rng, root)
        kind, f = edits[int(rng.integers(len(edits)))]
        m.note('refused', kind)
        try:
            f()
        except Exception:
            m.ev('refused')
            if kind not in SEEN:
                SEEN.add(kind)
                m.ev('bad kinds')
        else:
            m.fail('an impossible edit is refused', kind)
            raise Abort
        kinds.append(kind)
        del HOLD[:]
        look(kind, rng.random() < .5)
        if rng.random() < .4:
            M.edit_frequency(rng, root, m)
            look(kind + ', edited', False)
    root.lib.simTotalTime, root.lib.simStepSize = .3, .2
    root.lib.simDelStates = False
    U = ref.U(root.H(), .2)
    root.lib.runSimulation()
    k = root.ket()
    (states,) = root.lib.simulation.states.values()
    m.check(len(states) == 3, 'run after refused edits has all its states')
    for i, st in enumerate(states):
        if not m.close(st, np.linalg.matrix_power(U, i) @ k, 'run after refused edits'):
            raise Abort
    m.ev('rerun')
    m.sig('refused', root.describe(), tuple(kinds))
    m.sample = {'system': root.describe(), 'refused': kinds}


SEEN = set()


def bad_sim_edits(rng, w):
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    root = pick(w.roots)
    stranger = lambda: qg.Qubit(frequency=1.)
    owners = [w.time_set]
    t = pick(owners)
    notime = lambda: pick(['x', [1.], {}])
    fs = [p for p in w.pools.get(id(root), []) if isinstance(p, PM.MFree)] + [e.mp for e in w.entries if isinstance(e.mp, PM.MFree) and not e.internal]
    gs = [p for p in w.pools.get(id(root), []) if isinstance(p, PM.MGate)]
    out = [
        ('total time', lambda: setattr(t, 'totalTime', notime())),
        ('step size', lambda: setattr(t, 'stepSize', pick(['x', 0, 0., [1.]]))),
        ('step count', lambda: setattr(t, 'stepCount', pick(['x', 0, [1]]))),
        ('unknown attribute of a simulation', lambda: setattr(w.sim, 'foo', 1)),
        ('initial state system', lambda: setattr(w.sim, 'initialStateSystem', pick([5, 'a']))),
        ('sweep of an unknown system', lambda: w.sim.Sweep.createSweep(system=pick(['no such name', 5]), sweepKey='frequency', sweepList=[1., 2.])),
        ('sweep of a parameter some systems have not', lambda: w.sim.Sweep.createSweep(system=[root.leaves()[0].lib, qg.freeEvolution(system=root.lib)], sweepKey='frequency', sweepList=[1., 2.])),
        ('sweep with unknown keywords', lambda: w.sim.Sweep.createSweep(system=root.lib, sweepKey='frequency', sweepList=[1., 2.], foo=3)),
        ('removal of an unknown sweep', lambda: w.sim.Sweep.removeSweep(pick(['no such name', 5]))),
        ('number of cores', lambda: w.sim.run(p=True, coreCount=2.5)),
        ('unknown attribute of a system', lambda: setattr(root.lib, 'foo', 1)),
        ('unknown keywords of a copied system', lambda: root.lib.copy(foo=1)),
        ('unknown attribute of a run', lambda: w.sim.run(foo=1)),
    ]
    if w.kind == 'sim':
        out += [('evolved system that is no system', lambda: w.sim.addQSystems(pick([5, None, 'no such name', 1.5]))),
                ('evolved system with unknown keywords', lambda: w.sim.addSubSys(stranger(), foo=3)),
                ('created system with unknown keywords', lambda: w.sim.createQSystems(pick([qg.Qubit, qg.Cavity]), foo=3)),
                ('created system of no class', lambda: w.sim.createQSystems(pick([5, 'no such name']))),
                ('protocol that is no protocol', lambda: w.sim.addProtocol(pick([5, 'x']), root.lib)),
                ('protocol of a foreign system', lambda: w.sim.addProtocol(qg.freeEvolution(superSys=root.lib), stranger())),
                ('removal of an unknown system', lambda: w.sim.removeQSystems(pick([5, 'no such name', stranger()]))),
                ('removal of an unknown sub-system', lambda: w.sim.removeSubSys(pick([5, 'no such name', stranger()])))]
    for p in fs[:1] + gs[:1]:
        out += [('initial state of a protocol', lambda p=p: setattr(p.lib, 'initialState', np.ones((root.dimension() + 1, 1)))),
                ('unknown attribute of a protocol', lambda p=p: setattr(p.lib, 'foo', 1)),
                ('unknown keywords of an update', lambda p=p: p.lib.createUpdate(foo=5))]
    return out


def refused_sim(rng, m):
    w = C08.make_world(rng, m, maxdim=3, maxD=9)
    C08.add_sweeps(rng, m, w)
    seen = []
    C08.install(rng, w, seen)
    kinds = []
    for _ in range(int(rng.integers(1, 3))):
        if rng.random() < .5:
            del seen[:]
            w.run()
            C08.check_results(m, w, seen)
        for _ in range(int(rng.integers(1, 4))):
            edits = bad_sim_edits(rng, w)
            kind, f = edits[int(rng.integers(len(edits)))]
            m.note('refused', kind)
            kinds.append(kind)
            try:
                f()
            except Exception:
                m.ev('refused')
                m.ev('refused in a simulation')
            else:
                m.fail('an impossible edit is refused', kind)
                raise Abort
        del seen[:]
        w.run()
        m.ev('rerun')
        C08.check_results(m, w, seen)
    m.sig('refused_sim', w.kind, tuple(kinds), tuple((s.label, s.n, s.comb) for s in w.sweeps))
    m.sample = {'kind': w.kind, 'refused': kinds, 'sweeps': [(s.label, s.n) for s in w.sweeps]}


FAMILIES = [('failing', failing, 150, 3000), ('sweeps', sweeps, 80, 1500), ('refused', refused, 400, 12000), ('refused_sim', refused_sim, 150, 3000),
            ('systems', refusals.systems, 200, 4000), ('histories', refusals.histories, 160, 2400), ('undone', refusals.undone, 80, 1200)]
