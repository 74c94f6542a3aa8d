"""T04: state constructors give exactly the normalised states they name."""
import numpy as np
import scipy.sparse as sp
import quanguru.QuantumToolbox as qt
from qgmon import ref
from qgmon.core import arr
from qgmon.model import tail

RULE = ('Random dimensions, excitations (int, numpy int, lists, population dicts, complex amplitude dicts), mixtures, '
        'composite dimension lists and matrices; results are compared with amplitudes written out by hand. '
        'Non-trivial: more than one basis component, or a dimension > 2.')


def store(m, got, sparse, name):
    m.check(sp.issparse(got) == sparse, f'{name}: storage follows the sparse flag', type(got))


def basis(rng, m):
    d = tail(rng, 1, 40, 200)
    k = int(rng.integers(d))
    kk = np.int64(k) if rng.random() < .3 else k
    sparse = bool(rng.integers(2))
    want = np.zeros((d, 1))
    want[k] = 1
    for name, g, w in (('basis', qt.basis(d, kk, sparse), want), ('basisBra', qt.basisBra(d, kk, sparse), want.T),
                       ('zerosKet', qt.zerosKet(d, sparse), 0 * want),
                       ('zerosMat', qt.zerosMat(d, sparse), np.zeros((d, d)))):
        m.close(g, w, name, tol=1e-15)
        store(m, g, sparse, name)
    cb = qt.completeBasis(d, sparse)
    m.eq(len(cb), d, 'completeBasis has d states')
    if cb:
        m.close(np.hstack([arr(b) for b in cb]), np.eye(d), 'completeBasis is the ordered computational basis', tol=1e-15)
        store(m, cb[0], sparse, 'completeBasis')
    cm = qt.completeBasisMat(d, sparse=sparse)
    m.eq(len(cm), d, 'completeBasisMat has d projectors')
    m.close(sum(arr(b) for b in cm), np.eye(d), 'completeBasisMat resolves the identity', tol=1e-15)
    m.close(cm[k], want @ want.T, 'completeBasisMat[k] = |k><k|', tol=1e-15)
    u = ref.unitary(rng, min(d, 6))
    kets = [(sp.csc_matrix if sparse else np.array)(u[:, [i]]) for i in range(u.shape[0])]
    keep = list(kets)
    cm = qt.completeBasisMat(compKetBase=kets)
    m.close(sum(arr(b) for b in cm), np.eye(u.shape[0]), 'projectors of a given basis resolve the identity', tol=1e-10)
    m.close(cm[-1], u[:, [-1]] @ u[:, [-1]].conj().T, 'projector of a given ket', tol=1e-10)
    m.check(len(kets) == len(keep) and all(a is b for a, b in zip(kets, keep)),
            'completeBasisMat leaves the given ket basis alone')
    m.sig('basis', d, k, sparse)
    m.sample = {'d': d, 'k': k}


def superpos(rng, m):
    d = tail(rng, 2, 25, 300)
    sparse = bool(rng.integers(2))
    n = int(rng.integers(1, d + 1))
    ks = [int(x) for x in rng.choice(d, n, replace=False)]
    kind = int(rng.integers(5))
    amp = np.zeros((d, 1), complex)
    pops = True
    if kind == 0:
        inp = ks[0] if rng.random() < .5 else np.int32(ks[0])
        amp[ks[0]] = 1
    elif kind == 1:
        inp = list(ks)
        amp[ks] = 1
    elif kind == 2:
        inp = [np.int64(k) for k in ks] if rng.random() < .5 else tuple(ks)
        amp[ks] = 1
    elif kind == 3:
        w = rng.uniform(0.05, 3, size=n)
        inp = {k: float(x) for k, x in zip(ks, w)}
        for k, x in inp.items():
            amp[k] = np.sqrt(x)
    else:
        w = rng.normal(size=n) + 1j * rng.normal(size=n)
        inp = {k: complex(x) for k, x in zip(ks, w)}
        pops = False
        for k, x in inp.items():
            amp[k] = x
    want = amp / np.linalg.norm(amp)
    got = qt.superPos(d, inp, pops, sparse)
    store(m, got, sparse, 'superPos')
    m.close(got, want, 'superPos gives the normalised superposition', tol=1e-12)
    if pops:
        m.close(qt.superPos(d, inp), want, 'superPos default flags', tol=1e-12)
    if n > 1:
        m.sig('sup', kind, d, n, sparse)
    m.sample = {'d': d, 'input': repr(inp)[:200], 'populations': pops}


def mixtures(rng, m):
    d = tail(rng, 2, 9, 40)
    sparse = bool(rng.integers(2))
    w = (lambda x: sp.csc_matrix(x)) if sparse else (lambda x: np.array(x))
    v = ref.ket(rng, d) * (1 if rng.random() < .6 else float(rng.uniform(.2, 4)))
    got = qt.densityMatrix(w(v))
    m.close(got, v @ v.conj().T, 'densityMatrix(ket) = |k><k|', tol=1e-12)
    m.check(sp.issparse(got) == sparse, 'densityMatrix keeps the storage type')
    n = tail(rng, 1, 6, 20)
    ks = [ref.ket(rng, d) for _ in range(n)]
    p = rng.dirichlet(np.ones(n)) if rng.random() < .6 else rng.uniform(.1, 2, size=n)
    pl = [float(x) for x in p] if rng.random() < .5 else p
    if rng.random() < .25:
        pl, p = None, np.ones(n)
    want = sum(pp * (k @ k.conj().T) for pp, k in zip(p, ks)) / np.sum(p)
    got = qt.densityMatrix([w(k) for k in ks], pl)
    m.close(got, want, 'densityMatrix(list, p) is the normalised mixture', tol=1e-12)
    m.check(sp.issparse(got) == sparse, 'densityMatrix keeps the storage type')
    pur = qt.purity(got)
    m.check(abs(pur - np.trace(want @ want)) < 1e-10, 'purity = Tr rho^2', pur)
    m.check(1 / d - 1e-9 <= np.real(pur) <= 1 + 1e-9, 'purity lies in [1/d, 1]', pur)
    m.check(abs(qt.purity(w(ks[0] @ ks[0].conj().T)) - 1) < 1e-10, 'pure states have purity 1')
    # normalise
    s = float(rng.uniform(.01, 50))
    m.close(qt.normalise(w(s * ks[0])), ks[0], 'normalise(ket) has unit norm and keeps the ray', tol=1e-10)
    m.close(qt.normalise(w(s * want)), want, 'normalise(rho) has unit trace', tol=1e-10)
    ws = [complex(x) for x in rng.normal(size=n)]
    m.close(qt.weightedSum([w(k) for k in ks], ws), sum(a * k for a, k in zip(ws, ks)), 'weightedSum', tol=1e-12)
    m.close(qt.weightedSum([w(k) for k in ks]), sum(ks), 'weightedSum without weights is the sum', tol=1e-12)
    m.sig('mix', d, n, sparse, pl is None)
    m.sample = {'d': d, 'n': n, 'p': p}


def composite(rng, m):
    n = tail(rng, 1, 5, 9)
    dims = [int(rng.integers(1 if n > 1 else 2, 6 if n < 5 else 4 if n < 7 else 3)) for _ in range(n)]
    exs, wants = [], []
    for d in dims:
        k = int(rng.integers(3))
        amp = np.zeros((d, 1), complex)
        if k == 0:
            e = int(rng.integers(d))
            amp[e] = 1
        elif k == 1:
            e = [int(x) for x in rng.choice(d, int(rng.integers(1, d + 1)), replace=False)]
            amp[e] = 1
        else:
            ks = rng.choice(d, int(rng.integers(1, d + 1)), replace=False)
            e = {int(x): float(rng.uniform(.1, 1)) for x in ks}
            for a, b in e.items():
                amp[a] = np.sqrt(b)
        exs.append(e)
        wants.append(amp / np.linalg.norm(amp))
    sparse = bool(rng.integers(2))
    got = qt.compositeState(dims, exs, sparse)
    m.close(got, ref.kron(*wants), 'compositeState is the ordered tensor product', tol=1e-12)
    store(m, got, sparse, 'compositeState')
    m.close(qt.compositeState(dims, exs), ref.kron(*wants), 'compositeState default', tol=1e-12)
    if n > 1:
        m.sig('comp', tuple(dims), sparse)
    m.sample = {'dims': dims, 'excitations': repr(exs)[:200]}


def vecmat(rng, m):
    d = tail(rng, 1, 9, 40)
    sparse = bool(rng.integers(2))
    w = (lambda x: sp.csc_matrix(x)) if sparse else (lambda x: np.array(x))
    a = ref.cmat(rng, d)
    v = qt.mat2Vec(w(a))
    m.close(v, ref.vec(a).reshape(-1, 1), 'mat2Vec stacks columns', tol=1e-14)
    m.close(qt.vec2Mat(v), a, 'vec2Mat inverts mat2Vec', tol=1e-14)
    b = ref.cmat(rng, d * d, 1)
    M = qt.vec2Mat(w(b))
    m.close(M, ref.unvec(b), 'vec2Mat fills columns', tol=1e-14)
    m.close(qt.mat2Vec(M), b, 'mat2Vec inverts vec2Mat', tol=1e-14)
    x = ref.cmat(rng, d)
    m.close(arr(qt.mat2Vec(w(a @ x))), np.kron(np.eye(d), a) @ arr(qt.mat2Vec(w(x))),
            'vec(A X) = (1 (x) A) vec(X)', tol=1e-10)
    m.sig('vec', d, sparse)
    m.sample = {'d': d}


def bell(rng, m):
    s = 1 / np.sqrt(2)
    tab = {'Phi+': [s, 0, 0, s], '00': [s, 0, 0, s], 'Phi-': [s, 0, 0, -s], '01': [s, 0, 0, -s],
           'Psi+': [0, s, s, 0], '10': [0, s, s, 0], 'Psi-': [0, s, -s, 0], '11': [0, s, -s, 0]}
    for k, v in tab.items():
        for sparse in (True, False):
            g = qt.BellStates(k, sparse)
            m.close(g, np.array(v).reshape(4, 1), f'BellStates({k})', tol=1e-14)
            store(m, g, sparse, 'BellStates')
            m.sig('bell', k, sparse)
    m.close(qt.BellStates(), np.array(tab['Phi+']).reshape(4, 1), 'BellStates default', tol=1e-14)


FAMILIES = [('basis', basis, 600, 4000, 50), ('superpos', superpos, 1200, 12000, 80), ('mixtures', mixtures, 900, 8000, 60),
            ('composite', composite, 900, 8000, 60), ('vecmat', vecmat, 360, 2000, 60), ('bell', bell, 6, 8)]
