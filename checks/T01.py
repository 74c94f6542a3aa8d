"""T01: operator constructors satisfy their defining algebra in every dimension and embed correctly."""
import numpy as np
import scipy.sparse as sp
import quanguru.QuantumToolbox as qt
from qgmon import ref
from qgmon.core import arr

RULE = ('Operators are built for every dimension 1..40 (and random ones to 90), spin quantum numbers in both calling '
        'conventions, python/numpy integer arguments, sparse and dense, and compared with element-wise definitions; '
        'embeddings use random operators and dimensions. A case is non-trivial when its (operator, dimension, '
        'convention, storage) combination is new and its dimension is > 1.')


def _storage(m, got, sparse, name):
    if sparse:
        m.check(sp.issparse(got), f'{name}: sparse=True returns a sparse matrix', type(got))
    else:
        m.check(isinstance(got, np.ndarray), f'{name}: sparse=False returns an array', type(got))


BOSON = {'number': ref.number, 'destroy': ref.destroy, 'create': ref.create, 'identity': lambda d: np.eye(d),
         'paritySUM': ref.parity}
PAULI = {'sigmax': ref.SX, 'sigmay': ref.SY, 'sigmaz': ref.SZ, 'sigmap': ref.SP, 'sigmam': ref.SM}
SPIN = {'Jx': ref.jx, 'Jy': ref.jy, 'Jz': ref.jz, 'Jp': ref.jp, 'Jm': ref.jm, 'Js': ref.js}


def boson(rng, m):
    d = m_dim(rng)
    dd = np.int64(d) if rng.random() < .3 else d
    for name, r in BOSON.items():
        for sparse in (True, False):
            got = getattr(qt, name)(dd, sparse=sparse)
            _storage(m, got, sparse, name)
            m.close(got, r(d), f'{name}(d) equals its definition', tol=1e-12)
            if d > 1:
                m.sig(name, d, sparse, type(dd).__name__)
    a, ad, n = arr(qt.destroy(d)), arr(qt.create(d)), arr(qt.number(d))
    com = a @ ad - ad @ a
    want = np.eye(d)
    want[-1, -1] = 1 - d
    m.close(com, want, '[a, a^dag] = 1 below the truncation edge', tol=1e-10)
    m.close(ad @ a, n, 'a^dag a = n', tol=1e-10)
    m.close(arr(qt.parityEXP(qt.number(d))), ref.parity(d), 'exp(i pi n) = (-1)^n', tol=1e-7)
    m.close(arr(qt.parityEXP(qt.number(d, sparse=False))), ref.parity(d), 'dense exp(i pi n) = (-1)^n', tol=1e-7)
    m.sample = {'d': d}


_D = []


def m_dim(rng):
    # mostly small exhaustive-ish dimensions, sometimes large
    return int(rng.integers(1, 41)) if rng.random() < .85 else int(rng.integers(41, 91))


def pauli(rng, m):
    name = list(PAULI)[int(rng.integers(5))]
    for sparse in (True, False):
        got = getattr(qt, name)(sparse=sparse)
        _storage(m, got, sparse, name)
        m.close(got, PAULI[name], f'{name} equals its definition', tol=1e-14)
        m.sig(name, sparse)
    x, y, z = (arr(getattr(qt, 'sigma' + k)()) for k in 'xyz')
    m.close(x @ y - y @ x, 2j * z, '[sx, sy] = 2i sz', tol=1e-14)


def spin(rng, m):
    d = int(rng.integers(2, 30)) if rng.random() < .9 else int(rng.integers(30, 61))
    j = (d - 1) / 2
    mats = {}
    for name, r in SPIN.items():
        f = getattr(qt, name)
        for sparse in (True, False):
            conv = int(rng.integers(4))
            if conv == 0:
                got = f(j, sparse=sparse)
            elif conv == 1:
                got = f(d, sparse=sparse, isDim=True)
            elif conv == 2:
                got = f(np.float64(j), sparse)
            else:
                got = f(j if d % 2 == 0 else int(j), sparse, False)
            _storage(m, got, sparse, name)
            m.close(got, r(d), f'{name} equals its definition', tol=1e-10)
            m.sig(name, d, sparse, conv)
        mats[name] = arr(f(d, isDim=True))
    x, y, z = mats['Jx'], mats['Jy'], mats['Jz']
    m.close(x @ y - y @ x, 1j * z, '[Jx, Jy] = i Jz', tol=1e-9)
    m.close(y @ z - z @ y, 1j * x, '[Jy, Jz] = i Jx', tol=1e-9)
    m.close(x @ x + y @ y + z @ z, j * (j + 1) * np.eye(d), 'J^2 = j(j+1)', tol=1e-9)
    m.close(mats['Js'], j * (j + 1) * np.eye(d), 'Js = j(j+1)', tol=1e-9)
    m.close(x + 1j * y, mats['Jp'], 'J+ = Jx + iJy', tol=1e-10)
    m.sample = {'d': d, 'j': j}


def disp(rng, m):
    d = int(rng.integers(2, 25))
    alpha = complex(rng.normal(), rng.normal()) * rng.choice([0.3, 1.0, 2.0])
    if rng.random() < .2:
        alpha = float(alpha.real)
    sparse = bool(rng.integers(2))
    a = ref.destroy(d)
    D = qt.displacement(alpha, d, sparse)
    _storage(m, D, sparse, 'displacement')
    # exp(X) for anti-Hermitian X through the spectrum of iX
    X = alpha * a.T - np.conj(alpha) * a
    m.close(D, ref.U(1j * X), 'displacement = exp(alpha a^dag - alpha* a)', tol=1e-8)
    S = qt.squeeze(alpha, d, sparse)
    _storage(m, S, sparse, 'squeeze')
    Y = 0.5 * (np.conj(alpha) * a @ a - alpha * a.T @ a.T)
    m.close(S, ref.U(1j * Y), 'squeeze = exp((alpha* a^2 - alpha a^dag^2)/2)', tol=1e-8)
    Dd = arr(D)
    m.close(Dd @ Dd.conj().T, np.eye(d), 'displacement is unitary', tol=1e-8)
    m.close(Dd @ arr(qt.displacement(-alpha, d)), np.eye(d), 'displacement(-alpha) is the inverse', tol=1e-8)
    h = ref.herm(rng, d)
    hh = sp.csc_matrix(h) if sparse else h
    P = qt.parityEXP(hh)
    m.check(sp.issparse(P) == sparse, 'parityEXP keeps storage', type(P))
    m.close(P, ref.U(h, -np.pi), 'parityEXP = exp(i pi H)', tol=1e-7)
    m.sig('disp', d, sparse, round(abs(alpha), 1))
    m.sample = {'d': d, 'alpha': str(alpha)}


def embed(rng, m):
    d = int(rng.integers(2, 6))
    op = ref.cmat(rng, d)
    op[rng.random((d, d)) < .3] = 0
    b, a = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    sparse = bool(rng.integers(2))
    o = sp.csc_matrix(op) if sparse else op
    got = qt.compositeOp(o, b, a)
    m.close(got, ref.kron(np.eye(b), op, np.eye(a)), 'compositeOp(op, dimB, dimA) = 1_B (x) op (x) 1_A', tol=1e-12)
    got = qt.compositeOp(o, dimB=b, dimA=a)
    m.close(got, ref.embed(op, b, a), 'compositeOp keyword form', tol=1e-12)
    if b > 1:
        m.close(qt.compositeOp(o, b), ref.embed(op, b, 1), 'compositeOp dimA defaults to 1', tol=1e-12)
    if b > 1 or a > 1:
        m.sig('embed', d, b, a, sparse)
    # embedded operators of different sites commute, same-site products are preserved
    e = int(rng.integers(2, 4))
    op2 = ref.cmat(rng, e)
    A = arr(qt.compositeOp(sp.csc_matrix(op), 1, e))
    B = arr(qt.compositeOp(sp.csc_matrix(op2), d, 1))
    m.close(A @ B, B @ A, 'operators on different sites commute', tol=1e-10)
    m.close(A @ B, ref.kron(op, op2), 'product of embeddings is the tensor product', tol=1e-10)
    m.sample = {'d': d, 'before': b, 'after': a}


def power(rng, m):
    p = int(rng.integers(1, 6))
    d = int(rng.integers(2, 9))
    for name, r in (('number', ref.number), ('destroy', ref.destroy), ('create', ref.create)):
        for sparse in (True, False):
            got = qt.operatorPow(getattr(qt, name), d, p, sparse)
            m.close(got, np.linalg.matrix_power(r(d), p), f'operatorPow({name}) is the matrix power', tol=1e-10)
            m.sig('pow', name, d, p, sparse)
    j = d / 2
    got = qt.operatorPow(qt.Jx, j, p)
    m.close(got, np.linalg.matrix_power(ref.jx(d + 1), p), 'operatorPow(Jx) is the matrix power', tol=1e-9)
    for name in PAULI:
        got = qt.operatorPow(getattr(qt, name), 2, p)
        m.close(got, np.linalg.matrix_power(PAULI[name], p), f'operatorPow({name}) is the matrix power', tol=1e-12)
    m.sample = {'d': d, 'power': p}


FAMILIES = [
    ('boson', boson, 240, 3200, 40),
    ('pauli', pauli, 20, 160, 40),
    ('spin', spin, 200, 2400, 40),
    ('disp', disp, 250, 4800, 40),
    ('embed', embed, 300, 8000, 60),
    ('power', power, 100, 1600, 40),
]
