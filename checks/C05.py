"""C05: initial states follow their inputs through edits of systems, composites and protocols."""
import copy as _copy
import numpy as np
import scipy.sparse as sp
import quanguru as qg
from qgmon import model as M, promodel as PM
from qgmon import ref
from qgmon.core import Abort, arr

RULE = ('Systems, (nested) composites and protocols are given initial-state inputs of every accepted kind, then dimensions, structure and inputs are edited at '
        'random with reads of arbitrary states in between; every read is compared with the product of the current inputs in a mirror. Signature: shape and edit sequence.')
MIN_EVENTS = {'read': 400, 'set:leaf': 60, 'set:composite': 20, 'set:nested': 5, 'set:ket': 10, 'dim:toosmall': 8, 'dim:back': 2, 'attach': 10, 'detach': 10,
              'protocol:own': 10, 'shared': 100, 'shared run': 20}


def out_of_range(inp, d):
    if isinstance(inp, dict):
        return max(inp) >= d
    if isinstance(inp, (list, tuple)):
        return max(inp) >= d
    return False if isinstance(inp, np.ndarray) else inp >= d


def tree_ket(s, inp=None):
    """Ket of node s from the tree's current inputs, or from an explicit (nested) input; None if some input does not fit."""
    if inp is None and s.own is not None:
        return s.own
    if s.comp:
        parts = [tree_ket(x, None if inp is None else inp[i]) for i, x in enumerate(s.subs)]
        return None if any(p is None for p in parts) else ref.kron(*parts)
    inp = s.inp if inp is None else inp
    return None if out_of_range(inp, s.dim) else M.ket_of(inp, s.dim, s.amp)


def rand_inp(rng, dim, amp=False):
    k = int(rng.integers(8))
    n = int(rng.integers(1, dim + 1))
    ks = [int(x) for x in rng.choice(dim, n, replace=False)]
    if k == 0:
        return ks
    if k == 1:
        return tuple(ks)
    if k == 2:
        return M.weights(rng, ks, amp)
    if k == 3:
        return [np.int64(x) for x in ks]
    if k == 4:
        return np.int64(ks[0])
    return ks[0]


def given(inp, rng):
    """What is handed to the library for this input."""
    if isinstance(inp, np.ndarray) and rng.random() < .5:
        return sp.csc_matrix(inp)
    return _copy.copy(inp)


class World:
    def __init__(self, rng, m):
        self.rng, self.m = rng, m
        self.root = M.build_tree(rng, maxdim=4, maxD=40, nest=.5)
        for s in self.root.walk():
            s.own = None
        self.prots = []

    def read(self, s):
        if s.comp and not s.subs:
            return
        want = tree_ket(s)
        self.judge(s.lib.initialState, want, 'initial state is the product of the current inputs')

    def judge(self, got, want, what):
        self.m.ev('read')
        if want is None:
            ok = self.m.check(got is None, 'an input that does not fit the dimension gives no state', repr(got))
        else:
            ok = self.m.check(got is not None, what, 'None instead of a state') and self.m.close(got, want, what)
            if ok:
                ok = self.m.check(abs(np.linalg.norm(arr(got)) - 1) < 1e-9, 'initial states are normalised')
        if not ok:
            raise Abort

    def read_protocol(self, p):
        lib, s, inp = p
        want = tree_ket(s, inp)
        self.judge(lib.initialState, want, 'a protocol starts from its own input, or else from the state of its system')

    def some_reads(self, n=2):
        nodes = list(self.root.walk())
        for _ in range(n):
            if self.prots and self.rng.random() < .35:
                self.read_protocol(self.prots[int(self.rng.integers(len(self.prots)))])
            else:
                self.read(nodes[int(self.rng.integers(len(nodes)))])

    def all_reads(self):
        for i in self.rng.permutation(len(list(self.root.walk()))):
            self.read(list(self.root.walk())[int(i)])
        for p in self.prots:
            self.read_protocol(p)

    def random_input(self, s):
        if s.comp:
            return [self.random_input(x) for x in s.subs]
        return rand_inp(self.rng, s.dim, s.amp)

    def put(self, s, inp):
        """Mirror of s.initialState = inp."""
        s.own = None
        if isinstance(inp, np.ndarray):
            s.own = inp
            if not s.comp:
                s.inp = inp
        elif s.comp:
            for x, i in zip(s.subs, inp):
                self.put(x, i)
        else:
            s.inp = inp

    def ancestors_have_ket(self, s):
        p = s.parent
        while p is not None:
            if p.own is not None:
                return True
            p = p.parent
        return False

    def set(self, s):
        rng = self.rng
        if rng.random() < .15:
            v = ref.ket(rng, s.dimension())
            s.lib.initialState = given(v, rng)
            self.put(s, v)
            self.m.ev('set:ket')
        else:
            inp = self.random_input(s)
            s.lib.initialState = inp if not isinstance(inp, np.ndarray) else given(inp, rng)
            self.put(s, inp)
            self.m.ev('set:composite' if s.comp else 'set:leaf')
            if s.comp and s.parent is not None:
                self.m.ev('set:nested')
        self.m.note('set', s.describe())


def history(rng, m):
    w = World(rng, m)
    root = w.root
    for s in root.leaves():
        w.set(s) if not root.comp or rng.random() < .5 else None
    if root.comp and (any(s.inp is None for s in root.leaves()) or rng.random() < .5):
        inp = w.random_input(root)
        root.lib.initialState = inp
        w.put(root, inp)
    for _ in range(int(rng.integers(0, 3))):
        lib = qg.qProtocol(system=root.lib, steps=[qg.freeEvolution(system=root.lib)]) if rng.random() < .6 else qg.freeEvolution(system=root.lib)
        w.prots.append([lib, root, None])
    kinds = []
    if rng.random() < .8:
        w.all_reads()
    for _ in range(int(rng.integers(4, 12))):
        k = int(rng.integers(10))
        nodes = list(root.walk())
        if k <= 3:
            s = nodes[int(rng.integers(len(nodes)))]
            if w.ancestors_have_ket(s):     # a ket given for a whole composite says nothing about its parts
                s = root
            w.set(s)
            kinds.append('S' if s.comp else 's')
        elif k in (4, 9):
            # a ket belongs to one dimension only: give everything a dimension-free input first
            if any(s.own is not None for s in nodes):
                inp = w.random_input(root)
                root.lib.initialState = inp
                w.put(root, inp)
            ls = [s for s in root.leaves() if s.kind != 'qubit' and not M.pauli_locked(s)]
            if not ls:
                continue
            s = ls[int(rng.integers(len(ls)))]
            small = [x for x in ls if tree_ket(x) is None]
            if small and rng.random() < .8:
                s = small[0]
            big = tree_ket(s) is None
            d = int(rng.integers(2, 6))
            if rng.random() < .5:
                d = s.dim + 1 if big else max(2, s.dim - 1)
            if root.dimension() // s.dim * d > 60:
                d = 2
            s.lib.dimension = d
            s.dim = d
            if tree_ket(s) is None:
                m.ev('dim:toosmall')
            elif big:
                m.ev('dim:back')
            m.note('dim', s.lib.name, d)
            kinds.append('d')
        elif k == 5 and root.comp:
            if any(s.own is not None and s.comp for s in nodes):
                continue
            comps = [s for s in nodes if s.comp]
            c = comps[int(rng.integers(len(comps)))]
            s = M.build_leaf(rng, maxdim=3)
            if root.dimension() * s.dim > 60:
                continue
            s.own = None
            early = rng.random() < .5
            if early:
                w.set(s)
            if any(p[2] is not None for p in w.prots):
                continue
            c.lib.addSubSys(s.lib)
            c.attach(s)
            if not early:
                w.set(s)
            m.ev('attach')
            m.note('attach', s.describe(), 'to', c.describe())
            kinds.append('a')
        elif k == 6 and root.comp:
            cands = [s for s in nodes if s is not root and len(s.parent.subs) > 1]
            if not cands or any(s.own is not None and s.comp for s in nodes) or any(p[2] is not None for p in w.prots):
                continue
            s = cands[int(rng.integers(len(cands)))]
            par = s.parent
            par.lib.removeSubSys(s.lib)
            par.detach(s)
            w.read(s)
            m.ev('detach')
            m.note('detach', s.describe())
            kinds.append('r')
        elif k == 7 and w.prots:
            p = w.prots[int(rng.integers(len(w.prots)))]
            inp = w.random_input(root)
            p[0].initialState = inp
            p[2] = inp
            m.ev('protocol:own')
            m.note('protocol input', inp)
            kinds.append('p')
        else:
            M.edit_frequency(rng, root, m)
            kinds.append('f')
        if rng.random() < .7:
            w.some_reads()
        elif rng.random() < .3:
            root.lib.delMatrices()
            kinds.append('x')
    w.all_reads()
    m.sig('hist', root.describe(), tuple(kinds))
    m.sample = {'system': root.describe(), 'edits': ''.join(kinds)}


def constructor(rng, m):
    """Inputs given to constructors, copied systems, and refused inputs."""
    d = int(rng.integers(2, 6))
    amp = rng.random() < .3
    inp = rand_inp(rng, d, amp)
    co = {'_inpCoef': True} if amp else {}
    cls = [qg.Cavity, qg.Spin, qg.QuantumSystem][int(rng.integers(3))]
    s = cls(dimension=d, frequency=1.0, operator=qg.QuantumToolbox.operators.Jz, initialState=inp, **co) if cls is qg.QuantumSystem else \
        cls(dimension=d, frequency=1.0, initialState=inp, **co)
    m.close(s.initialState, M.ket_of(inp, d, amp), 'an initial state given to the constructor is the state')
    m.ev('read')
    before = arr(s.initialState)
    bad = np.zeros((d + 1, 1))
    bad[0] = 1
    try:
        s.initialState = bad
        m.check(False, 'a ket of another dimension is refused')
    except ValueError:
        m.ev('rejected')
    s2 = cls(dimension=d, frequency=1.0) if cls is not qg.QuantumSystem else cls(dimension=d, frequency=1.0, operator=qg.QuantumToolbox.operators.Jz)
    c = qg.QuantumSystem(subSys=[s2, qg.Qubit(frequency=1.)])
    for wrong in (1, [1], [1, 0, 0], {0: .5, 1: .5}):
        try:
            c.initialState = wrong
            m.check(False, 'a composite takes exactly one input per sub-system', str(wrong))
        except (ValueError, TypeError):
            m.ev('rejected')
    m.sig('con', cls.__name__, d, type(inp).__name__)


def coefficients(rng, m):
    """Dictionaries are populations, not amplitudes; order and scale do not matter."""
    d = int(rng.integers(2, 7))
    s = qg.Cavity(dimension=d, frequency=1.)
    ks = [int(x) for x in rng.choice(d, int(rng.integers(1, d + 1)), replace=False)]
    pops = {k: float(rng.uniform(.05, 2)) for k in ks}
    s.initialState = pops
    v = arr(s.initialState).ravel()
    tot = sum(pops.values())
    m.close(np.abs(v)**2, [pops.get(k, 0) / tot for k in range(d)], 'populations of the state are the given weights')
    s.initialState = dict(reversed(list(pops.items())))
    m.close(arr(s.initialState).ravel(), v, 'the order of the weights does not matter')
    s.initialState = {k: 3 * x for k, x in pops.items()}
    m.close(arr(s.initialState).ravel(), v, 'the scale of the weights does not matter')
    m.ev('read', 3)
    m.sig('pop', d, len(ks))


def shared(rng, m):
    """One input for all protocols of a simulation: used where neither the protocol nor its system has one."""
    w = World(rng, m)
    root = w.root
    w.prots = []
    sim = qg.Simulation()
    for _ in range(int(rng.integers(1, 4))):
        lib = qg.freeEvolution(system=root.lib) if rng.random() < .5 else qg.qProtocol(system=root.lib, steps=[qg.freeEvolution(system=root.lib)])
        if rng.random() < .3:
            inp = w.random_input(root)
            lib.initialState = inp
        else:
            inp = None
        w.prots.append([lib, root, inp])
    for p in w.prots:
        sim.addProtocol(p[0], root.lib)
    sim.totalTime, sim.stepSize, sim.delStates = 1., 1., False
    sim.initialStateSystem = root.lib
    common = None
    has = False                # an input of the system itself
    kinds = []

    def want(p):
        if p[2] is not None:
            return tree_ket(root, p[2])
        return tree_ket(root) if has else tree_ket(root, common)
    for _ in range(int(rng.integers(3, 9))):
        k = int(rng.integers(7))
        if k <= 1 or common is None:
            common = w.random_input(root)
            sim.initialState = common
            m.note('common', common)
            kinds.append('c')
        elif k == 2:
            w.set(root)
            has = True
            kinds.append('s')
        elif k == 3:
            p = w.prots[int(rng.integers(len(w.prots)))]
            p[2] = w.random_input(root)
            p[0].initialState = p[2]
            m.note('own', p[2])
            kinds.append('p')
        elif k == 4:
            ls = [s for s in root.leaves() if s.kind != 'qubit' and not M.pauli_locked(s)]
            if not ls or root.own is not None or any(s.own is not None for s in root.walk()):
                continue
            s = ls[int(rng.integers(len(ls)))]
            d = s.dim + int(rng.integers(-1, 2))
            if d < 2 or root.dimension() // s.dim * d > 60:
                continue
            s.lib.dimension = d
            s.dim = d
            m.note('dim', s.lib.name, d)
            kinds.append('d')
        elif all(want(p) is not None for p in w.prots):
            sim.run()
            m.ev('shared run')
            for p in w.prots:
                if not m.close(sim.states[str(p[0].name) + 'Results'][0], want(p),
                               'a run starts from the own input, else that of the system, else that of the simulation'):
                    raise Abort
            kinds.append('R')
        if rng.random() < .7:
            w.judge(sim.initialState, tree_ket(root, common), 'the input of a simulation gives a state of the system it is told')
            for p in w.prots:
                w.judge(p[0].initialState, want(p), 'a protocol starts from its own input, else that of its system, else that of the simulation')
                m.ev('shared')
    m.sig('shared', root.describe(), tuple(kinds), len(w.prots))
    m.sample = {'system': root.describe(), 'edits': ''.join(kinds)}


FAMILIES = [('shared', shared, 100, 1500), ('history', history, 640, 6000), ('constructor', constructor, 80, 400), ('coefficients', coefficients, 60, 400)]
