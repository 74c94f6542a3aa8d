"""C20: Hamiltonians of the earlier ('Old') system classes."""
import numpy as np
import quanguru as qg
from scipy.linalg import expm
from quanguru.classes.QSys import qCoupling
from qgmon import model as M
from qgmon import ref
from qgmon.core import Abort, arr

RULE = ('Histories of building composites of the earlier system classes (constructors, +, n*, createSubSys), editing frequencies, operators, orders, '
        'dimensions, terms, coupling strengths and coupling terms, adding and removing sub-systems and couplings, interleaved with reads; after '
        'the steps dimensions, propagators, and total, free and coupling Hamiltonians of the composite and its parts are compared with explicit sums. Signature: edit '
        'sequence and final dimensions.')
ASSUMPTIONS = ['Composites of single systems (the earlier classes are superseded; initial states and runs belong to QuantumSystem).']
MIN_EVENTS = {'audit': 4000, 'couple': 800, 'uncouple': 120, 'edit:dimension': 250, 'edit:frequency': 350, 'edit:strength': 110, 'attach': 300, 'detach': 300,
              'detach:coupled': 100, 'term': 400, 'standard': 140, 'propagator': 500}

OPS = {'qubit': ['sigmax', 'sigmay', 'sigmaz', 'sigmap', 'Jx', 'Jz'], 'spin': ['Jx', 'Jy', 'Jz', 'Jp'], 'cavity': ['number', 'create', 'destroy']}
HERM = {'qubit': ['sigmax', 'sigmay', 'sigmaz', 'Jx', 'Jz'], 'spin': ['Jx', 'Jy', 'Jz'], 'cavity': ['number']}


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def freq(rng):
    return float(rng.uniform(-3, 3)) if rng.random() < .9 else 0.0


class S:
    def __init__(self, kind, dim, lib):
        self.kind, self.dim, self.lib = kind, dim, lib
        self.terms = []             # [operator, power, frequency, lib]

    def h(self):
        return sum(f * np.linalg.matrix_power(M.opmat(o, self.dim), p) for o, p, f, _ in self.terms)


class Coup:
    def __init__(self, lib, strength, terms):
        self.lib, self.strength, self.terms = lib, strength, terms        # terms: [[(S, operator), ...], ...]


def leaf(rng, maxdim=4):
    kind = pick(rng, ['qubit', 'spin', 'cavity'])
    f = freq(rng)
    if kind == 'qubit':
        d, lib = 2, qg.QubitOld(frequency=f)
    elif kind == 'spin':
        d = int(rng.integers(2, maxdim + 1))
        lib = qg.SpinOld(jValue=(d - 1) / 2, frequency=f) if rng.random() < .5 else qg.SpinOld(dimension=d, frequency=f)
    else:
        d = int(rng.integers(2, maxdim + 1))
        lib = qg.CavityOld(dimension=d, frequency=f)
    s = S(kind, d, lib)
    s.terms.append(['number' if kind == 'cavity' else 'Jz', 1, f, lib.firstTerm])
    return s


class World:
    def __init__(self, lib):
        self.lib, self.subs, self.coups = lib, [], []

    def D(self):
        return int(np.prod([s.dim for s in self.subs]))

    def at(self, s, op):
        i = [x is s for x in self.subs].index(True)
        return ref.embed(op, int(np.prod([x.dim for x in self.subs[:i]])), int(np.prod([x.dim for x in self.subs[i + 1:]])))

    def free(self):
        return sum(self.at(s, s.h()) for s in self.subs)

    def coupling(self, c):
        out = np.zeros((self.D(), self.D()), dtype=complex)
        for t in c.terms:
            x = np.eye(self.D(), dtype=complex)
            for s, o in t:
                x = x @ self.at(s, M.opmat(o, s.dim))
            out = out + x
        return c.strength * out

    def total(self):
        return self.free() + sum((self.coupling(c) for c in self.coups), np.zeros((self.D(), self.D())))


def audit(rng, m, w, loose, full=False):
    ok = m.eq(int(w.lib.dimension), w.D(), 'dimension is the product of the sub-system dimensions')
    ok = m.eq([x for x in w.lib.qSystems.values()], [s.lib for s in w.subs], 'sub-systems are kept in the order they were added') and ok
    ok = m.eq([x for x in w.lib.qCouplings.values()], [c.lib for c in w.coups], 'couplings are kept in the order they were added') and ok
    ok = m.close(w.lib.totalHam, w.total(), 'total Hamiltonian is the sum of its current parts', tol=1e-9) and ok
    if full or rng.random() < .4:
        ok = m.close(w.lib.freeHam, w.free(), 'free Hamiltonian is the sum of the current systems', tol=1e-9) and ok
        if w.coups:
            c = pick(rng, w.coups)
            ok = m.close(c.lib.totalHam, w.coupling(c), 'a coupling is its current strength times its terms', tol=1e-9) and ok
        s = pick(rng, w.subs)
        ok = m.close(s.lib.totalHam, w.at(s, s.h()), 'a system acts at its own position', tol=1e-9) and ok
        ok = m.eq(int(s.lib.dimension), s.dim, 'dimension of a system') and ok
    if rng.random() < .3:
        x, h = (w.lib, w.total()) if rng.random() < .6 or not loose else (lambda s: (s.lib, s.h()))(pick(rng, loose))
        dt = float(rng.uniform(.01, .3))
        x.simulation.stepSize = dt
        ok = m.close(x.unitary(), expm(-1j * dt * h), 'propagator is the exponential of the current total Hamiltonian', tol=1e-8) and ok
        m.ev('propagator')
    for s in loose:
        ok = m.close(s.lib.totalHam, s.h(), 'a system outside composites has its own Hamiltonian', tol=1e-9) and ok
    m.ev('audit')
    if not ok:
        raise Abort


def couple(rng, m, w):
    a, b = [w.subs[int(i)] for i in rng.choice(len(w.subs), 2, replace=False)]
    g = freq(rng)
    if {a.kind, b.kind} & {'cavity'} and {a.kind, b.kind} & {'qubit', 'spin'} and rng.random() < .5:
        cav, qub = (a, b) if a.kind == 'cavity' else (b, a)
        if len(qub.terms) == 1:      # the earlier classes document these couplings for plain qubits and spins
            kinds = ['JC', 'Dicke'] + (['Rabi'] if qub.dim == 2 else [])
            k = pick(rng, kinds)
            lib = getattr(w.lib, k)(g, a.lib, b.lib)
            ops = {'JC': ('Jp', 'Jm'), 'Rabi': ('sigmax', 'sigmax'), 'Dicke': ('Jx', 'Jx')}[k]
            w.coups.append(Coup(lib, g, [[(cav, 'destroy'), (qub, ops[0])], [(cav, 'create'), (qub, ops[1])]]))
            m.ev('standard')
            m.note(k, w.subs.index(a), w.subs.index(b))
            return
    terms, args = [], []
    for _ in range(int(rng.integers(1, 4))):
        n = len(w.subs) if rng.random() < .2 else 2
        ss = [w.subs[int(i)] for i in rng.choice(len(w.subs), min(n, 3), replace=False)]
        os = [pick(rng, OPS[s.kind]) for s in ss]
        terms.append(list(zip(ss, os)))
        args += [tuple(s.lib for s in ss), tuple(M.lib_op(o) for o in os)]
    how = int(rng.integers(3))
    if how == 0:
        lib = w.lib.createSysCoupling(*args, couplingStrength=g)
    elif how == 1:
        lib = w.lib.createSysCoupling(*args[:2], couplingStrength=g)
        for i in range(2, len(args), 2):
            lib.addTerm(*args[i:i + 2])
    else:
        lib = qCoupling(*args, couplingStrength=g)
        w.lib.addSysCoupling(lib)
    w.coups.append(Coup(lib, g, terms))
    m.ev('couple')
    m.note('couple', how, [[(w.subs.index(s), o) for s, o in t] for t in terms])


def history(rng, m):
    subs = [leaf(rng) for _ in range(int(rng.integers(2, 4)))]
    how = int(rng.integers(3))
    if how == 0:
        lib = subs[0].lib + subs[1].lib
        for s in subs[2:]:
            lib = lib + s.lib
    elif how == 1:
        lib = qg.compQSystem(subSys=[s.lib for s in subs])
    else:
        lib = qg.QuantumSystemOld()
        for s in subs:
            lib.addSubSys(s.lib)
    w = World(lib)
    w.subs = subs
    loose, kinds = [], []
    m.note('start', how, [(s.kind, s.dim) for s in subs])
    for _ in range(int(rng.integers(4, 11))):
        k = int(rng.integers(10))
        if k <= 1 and len(w.subs) > 1:
            couple(rng, m, w)
        elif k == 2:
            s = pick(rng, w.subs + loose)
            t = pick(rng, s.terms)
            t[2] = freq(rng)
            if t is s.terms[0] and rng.random() < .6:
                s.lib.frequency = t[2]
            else:
                t[3].frequency = t[2]
            m.ev('edit:frequency')
        elif k == 3:
            s = pick(rng, w.subs + loose)
            if s.kind == 'qubit':
                continue
            d = int(rng.integers(2, 5))
            if any(o[:5] == 'sigma' for c in w.coups for t in c.terms for x, o in t if x is s):
                continue
            if s.kind == 'spin' and rng.random() < .5:
                s.lib.jValue = (d - 1) / 2
            else:
                s.lib.dimension = d
            s.dim = d
            m.ev('edit:dimension')
            m.note('dimension', s.lib.name, d)
        elif k == 4 and w.coups:
            c = pick(rng, w.coups)
            c.strength = freq(rng)
            if rng.random() < .7:
                c.lib.couplingStrength = c.strength
            else:
                c.lib.frequency = c.strength
            m.ev('edit:strength')
        elif k == 5:
            s = pick(rng, w.subs + loose)
            if len(s.terms) > 1 and rng.random() < .4:
                t = s.terms.pop(int(rng.integers(1, len(s.terms))))
                s.lib.removeTerm(t[3])
            elif rng.random() < .55:
                t = pick(rng, s.terms)
                t[1] = int(rng.integers(1, 4))
                t[3].order = t[1]
            else:
                o, p, f = pick(rng, HERM[s.kind]), int(rng.integers(1, 3)), freq(rng)
                s.terms.append([o, p, f, s.lib.addTerm(M.lib_op(o), frequency=f, order=p)])
            m.ev('term')
            m.note('term', s.lib.name, [t[:3] for t in s.terms])
        elif k == 6:
            s = loose.pop() if loose and rng.random() < .6 else leaf(rng)
            if w.D() * s.dim > 64:
                loose.append(s)
                continue
            r = pick(rng, [lambda: w.lib + s.lib, lambda: w.lib.addSubSys(s.lib), lambda: w.lib.addSubSys(str(s.lib.name))])
            r()
            w.subs.append(s)
            m.ev('attach')
            m.note('attach', s.kind, s.dim)
        elif k == 7 and len(w.subs) > 1:
            s = pick(rng, w.subs)
            m.note('detach', w.subs.index(s))
            if any(x is s for c in w.coups for t in c.terms for x, _ in t):
                m.ev('detach:coupled')
            if rng.random() < .5:
                w.lib - s.lib
            else:
                w.lib.removeSubSys(s.lib)
            w.subs.remove(s)
            for c in w.coups:
                c.terms = [t for t in c.terms if not any(x is s for x, _ in t)]
            w.coups = [c for c in w.coups if c.terms]
            loose.append(s)
            m.ev('detach')
        elif k == 8 and w.coups:
            c = pick(rng, w.coups)
            w.lib.removeSubSys(c.lib)
            w.coups.remove(c)
            m.ev('uncouple')
            m.note('uncouple')
        else:
            continue
        kinds.append(str(k))
        if rng.random() < .7:
            audit(rng, m, w, loose)
    audit(rng, m, w, loose, True)
    m.sig('old', how, ''.join(kinds), tuple((s.kind, s.dim) for s in w.subs), len(w.coups))
    m.sample = {'steps': ''.join(kinds), 'systems': [(s.kind, s.dim) for s in w.subs]}


def times(rng, m):
    """n * system: identical systems side by side, independent of each other."""
    s = leaf(rng, 3)
    n = int(rng.integers(2, 4))
    lib = n * s.lib
    h = s.h()
    w = World(lib)
    w.subs = [S(s.kind, s.dim, x) for x in lib.qSystems.values()]
    if not m.eq(len(w.subs), n, 'n * system holds n systems'):
        raise Abort
    for x in w.subs:
        x.terms = [list(t[:3]) + [x.lib.firstTerm] for t in s.terms]
    m.close(lib.totalHam, w.total(), 'n * system is n identical systems side by side', tol=1e-9)
    x = pick(rng, w.subs)
    x.terms[0][2] = f = freq(rng)
    x.lib.frequency = f
    m.close(lib.totalHam, w.total(), 'copies are independent of the original', tol=1e-9)
    m.sig('times', s.kind, s.dim, n, np.shape(h))
    m.sample = {'kind': s.kind, 'n': n}


FAMILIES = [('history', history, 1600, 16000), ('times', times, 100, 1500)]
