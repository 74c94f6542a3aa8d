"""T09: toolbox functions are pure: inputs untouched, no hidden state, storage format irrelevant."""
import copy
import numpy as np
import scipy.sparse as sp
import quanguru.QuantumToolbox as qt
from quanguru.QuantumToolbox.spinRotations import spinRotation
from qgmon import ref
from qgmon.core import arr, short

RULE = ('Every public toolbox function is called with random admissible inputs in dense, csc, csr and (where values allow) integer '
        'or real dtype; inputs are snapshotted before and compared after, results are compared across formats (and are sparse or arrays as documented or asked for), then '
        'overwritten in place and the call is repeated. Non-trivial: every call (signature = function, dimension, format pair).')


class M:
    """A matrix argument; realised per storage format."""

    def __init__(self, a):
        self.a = np.asarray(a)

    def make(self, fmt):
        a = self.a
        if fmt == 'dense':
            return np.array(a)
        if fmt == 'fortran':
            return np.array(a, order='F')
        if fmt == 'complex':
            return np.array(a, dtype=complex)
        return {'csc': sp.csc_matrix, 'csr': sp.csr_matrix}[fmt](a)


def real(x, fmt):
    if isinstance(x, M):
        return x.make(fmt)
    if isinstance(x, list):
        return [real(y, fmt) for y in x]
    if isinstance(x, tuple):
        return tuple(real(y, fmt) for y in x)
    return copy.deepcopy(x)


def snap(x):
    if sp.issparse(x):
        return ('sp', x.format, x.shape, x.dtype.str, x.toarray().tobytes())
    if isinstance(x, np.ndarray):
        return ('nd', x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(id(y) for y in x) if isinstance(x, list) else 0, tuple(snap(y) for y in x))
    if isinstance(x, dict):
        return ('dict', tuple((k, snap(v)) for k, v in x.items()))
    if callable(x):
        return 'fn'
    return repr(x)


def norm(x):
    """Result as plain nested lists of arrays."""
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    return arr(x).astype(complex)


def same(a, b, tol=1e-8):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if a.shape != b.shape:
        return False
    s = max(1.0, float(np.max(np.abs(a))) if a.size else 1.0)
    return bool(np.allclose(a, b, rtol=0, atol=tol * s))


def scramble(x, seen=None):
    if isinstance(x, (list, tuple)):
        for y in x:
            scramble(y)
        if isinstance(x, list):
            x.clear()
    elif sp.issparse(x):
        if x.data.size:
            x.data[...] = 77
    elif isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
        x[...] = 77


def K(rng, d):
    return M(ref.ket(rng, d))


def R(rng, d):
    return M(.9 * ref.rho(rng, d) + .1 * np.eye(d) / d)


def I(rng, d):
    """A matrix with integer values and dtype (Hermitian)."""
    a = rng.integers(-3, 4, size=(d, d))
    return M(a + a.T)


def table(rng):
    d = int(rng.integers(2, 6))
    h = lambda: M(ref.anyherm(rng, d)) if rng.random() < .6 else I(rng, d)
    s = lambda: K(rng, d) if rng.random() < .5 else R(rng, d)
    cs = lambda: [M(ref.anymat(rng, d)) for _ in range(int(rng.integers(1, 3)))]
    t = float(rng.uniform(.1, 1.5))
    c = cs()
    sq = lambda: M(ref.anymat(rng, d)) if rng.random() < .6 else I(rng, d)
    dims = [2, d, 2]
    big = M(ref.rho(rng, 4 * d)) if rng.random() < .5 else K(rng, 4 * d)
    fl = bool(rng.integers(2))
    k = int(rng.integers(d))
    bas = [M(ref.unitary(rng, d)[:, [i]]) for i in range(d)]
    r4 = M(ref.rho(rng, 4)) if rng.random() < .5 else K(rng, 4)
    S = M(ref.super_of(lambda y: ref.lindblad_rhs(y, None, [c[0].a], [1.0]), d))
    return d, {
        'hc': (sq(),), 'innerProd': (K(rng, d), K(rng, d)), 'norm': (K(rng, d),), 'outerProd': (K(rng, d), K(rng, d)),
        'tensorProd': (sq(), 2, sq()), 'trace': (sq(),), 'partialTrace': ([0, 2], dims, big),
        '_matMulInputs': (sq(), sq(), sq()), '_matPower': (sq(), int(rng.integers(1, 4))),
        'basis': (d, k, fl), 'completeBasis': (d, fl), 'basisBra': (d, k, fl), 'zerosKet': (d, fl), 'zerosMat': (d, fl),
        'weightedSum': ([K(rng, d), K(rng, d)], [.2, .3]), 'superPos': (d, {0: .2, k: .5}, True, fl),
        'densityMatrix': ([K(rng, d), K(rng, d)], [.2, .8]), 'completeBasisMat': (None, bas),
        'normalise': (M(2 * s().a) if rng.random() < .6 else M(np.eye(d, dtype=int) * 2),),
        'compositeState': ([2, d], [{0: .4, 1: .6}, k], fl),
        'mat2Vec': (sq(),), 'vec2Mat': (M(ref.cmat(rng, d * d, 1)),), 'BellStates': ('Phi-', fl), 'purity': (R(rng, d),),
        'number': (d, fl), 'destroy': (d, fl), 'create': (d, fl), 'identity': (d, fl), 'sigmaz': (fl,), 'sigmay': (fl,),
        'sigmax': (fl,), 'sigmap': (fl,), 'sigmam': (fl,), 'Jz': (d, fl, True), 'Jp': (d, fl, True), 'Jm': (d, fl, True),
        'Jx': (d, fl, True), 'Jy': (d, fl, True), 'Js': (d, fl, True), 'operatorPow': (qt.destroy, d, 2, fl),
        'paritySUM': (d, fl), 'parityEXP': (M(ref.number(d)),), 'displacement': (.3 + .2j, d, fl),
        'squeeze': (.1 - .2j, d, fl), 'compositeOp': (sq(), 2, d),
        'Unitary': (h(), t), 'Liouvillian': (h(), c, [.3] * len(c)), 'LiouvillianExp': (h(), t, c, [.3] * len(c)),
        'dissipator': (sq(),), '_preSO': (sq(),), '_postSO': (sq(),), '_prepostSO': (sq(), sq()),
        'evolveOpen': (s(), 2 * t, t, h(), c, [.3] * len(c)),
        'expectation': (h(), s()), 'fidelityPure': (s(), K(rng, d)), 'entropy': (s(),),
        'concurrence': (r4,), 'traceDistance': (R(rng, d), R(rng, d)), 'standardDev': (h(), s()),
        'spectralNorm1': (h(),), '_fidelityTest': (R(rng, d), R(rng, d)),
        'qubRotation': ('y', t, fl), 'xRotation': (t, fl), 'yRotation': (t, fl), 'zRotation': (t, fl),
        'spinRotation': ('x', t, d, fl, True),
        'Wigner': (s(), [-1.0, .5, 2.0]), 'HusimiQ': (s(), [-1.0, .5, 2.0]),
        'qubCavFreeHam': (t, 1 - t, d), 'RabiHam': (t, .4, .1, d), 'JCHam': (t, .4, .1, d), 'aJCHam': (t, .4, .1, d),
        'UJC': (t, .4, .1, t, d, fl),
        'iprKet': (bas, K(rng, d)), 'iprKetNB': (K(rng, d),), 'eigVecStatKet': (bas, K(rng, d)),
        '_eigStatEig': (M(ref.unitary(rng, d)),), 'CNOT': (fl,), 'CPHASE': (t, fl), 'Hadamard': (fl,),
        'HeatCurrent': (S, h(), R(rng, d)), 'nBarThermal': (1.0, t), 'qubitPolarisation': (1.0, t),
        'EigenVectorDist': (.2, d + 3, 2), 'WignerDyson': (t, 4), 'Poissonian': (3, t),
    }


# one of the operands of these is documented/used as an ndarray only
DENSE_ONLY = {'_eigStatEig'}
LOOSE = {'_fidelityTest': 1e-4, 'concurrence': 1e-5, 'traceDistance': 1e-6}


# documented: "Keeps sparse/array as sparse/array"
KEEPS = {'hc', 'Unitary', 'Liouvillian', 'LiouvillianExp', 'dissipator', '_preSO', '_postSO', '_prepostSO', 'parityEXP', 'normalise', 'mat2Vec', 'vec2Mat', 'completeBasisMat'}
# position of the argument that asks for a sparse (True) or array (False) result
FLAGGED = {'basis': 2, 'completeBasis': 1, 'basisBra': 2, 'zerosKet': 1, 'zerosMat': 1, 'superPos': 3, 'compositeState': 2, 'BellStates': 1, 'number': 1, 'destroy': 1, 'create': 1,
           'identity': 1, 'sigmaz': 0, 'sigmay': 0, 'sigmax': 0, 'sigmap': 0, 'sigmam': 0, 'Jz': 1, 'Jp': 1, 'Jm': 1, 'Jx': 1, 'Jy': 1, 'Js': 1, 'paritySUM': 1, 'operatorPow': 3,
           'displacement': 2, 'squeeze': 2, 'qubRotation': 2, 'xRotation': 1, 'yRotation': 1, 'zRotation': 1, 'spinRotation': 3, 'CNOT': 0, 'CPHASE': 1, 'Hadamard': 0, 'UJC': 5}


def kind_ok(res, sparse):
    return all(kind_ok(r, sparse) for r in res) if isinstance(res, (list, tuple)) else sp.issparse(res) == sparse


def fn(name):
    if name == 'spinRotation':
        return spinRotation
    if name == 'spectralNorm1':
        return lambda a: qt.spectralNorm(a)[0]
    return getattr(qt, name)


def hasM(x):
    return isinstance(x, M) or (isinstance(x, (list, tuple)) and any(hasM(y) for y in x))


def one(rng, m, name, args, d):
    f = fn(name)
    tol = LOOSE.get(name, 1e-8)
    fmts = ['dense']
    if any(hasM(a) for a in args):
        fmts = ['dense', 'fortran', 'complex'] + ([] if name in DENSE_ONLY else ['csc', 'csr'])
    first = None
    for fmt in fmts:
        inp = [real(a, fmt) for a in args]
        before = [snap(x) for x in inp]
        res = f(*inp)
        m.ev('calls')
        after = [snap(x) for x in inp]
        for i, (a, b) in enumerate(zip(before, after)):
            m.check(a == b, f'{name} leaves its inputs unchanged', (fmt, 'argument', i))
        if name in KEEPS and fmt in ('dense', 'csc', 'csr'):
            m.check(kind_ok(res, fmt != 'dense'), f'{name} keeps sparse/array as sparse/array', lambda: (fmt, type(res).__name__))
        if name in FLAGGED:
            m.check(kind_ok(res, bool(args[FLAGGED[name]])), f'{name} returns sparse matrices or arrays as asked for', lambda: (args[FLAGGED[name]], type(res).__name__))
            if name != 'UJC':       # documented default: sparse
                k = FLAGGED[name]
                dflt = f(*inp[:k], **{'isDim': x for x in inp[k + 1:]})
                m.check(kind_ok(dflt, True), f'{name} returns sparse matrices unless asked for arrays', type(dflt).__name__)
                m.check(same(norm(dflt), norm(res)), f'{name}: the default kind of result has the same entries', '')
        val = norm(res)
        if first is None:
            first = val
        else:
            m.check(same(first, val, tol), f'{name}: result does not depend on the storage format',
                    lambda: (fmt, short(first), short(val)))
        # no state shared between calls: destroying a result must not affect the next one
        keep = copy.deepcopy(val)
        scramble(res)
        inp2 = [real(a, fmt) for a in args]
        again = norm(f(*inp2))
        m.check(same(keep, again, tol), f'{name}: repeated calls give the same result', lambda: (fmt, short(keep), short(again)))
        m.sig(name, d, fmt)


def pure(rng, m):
    d, tab = table(rng)
    names = list(tab)
    for name in rng.permutation(names):
        one(rng, m, str(name), tab[str(name)], d)
    m.sample = {'d': d, 'functions': len(names)}


FAMILIES = [('pure', pure, 24, 1600, 3)]
MIN_EVENTS = {'calls': 5000}
