"""T06: measures computed on states agree with their textbook definitions and bounds."""
import numpy as np
import scipy.sparse as sp
import quanguru.QuantumToolbox as qt
from qgmon import ref
from qgmon.core import arr
from qgmon.model import tail

RULE = ('Random kets and density matrices (pure, mixed, rank deficient, basis states, eigenstates, Werner states) in dense/csc '
        'storage; every measure is compared with its definition and with its bounds and invariances (unitary invariance, '
        'symmetry, triangle inequality). Non-trivial: mixed or superposed states in dimension > 1.')


def wrap(rng, x):
    k = int(rng.integers(3))
    return np.array(x) if k == 0 else sp.csc_matrix(x) if k == 1 else sp.csr_matrix(x)


def state(rng, d):
    """(density matrix, ket or None)"""
    k = int(rng.integers(5))
    if k == 0:
        v = np.zeros((d, 1), complex)
        v[int(rng.integers(d))] = np.exp(1j * rng.uniform(0, 6))
        return v @ v.conj().T, v
    if k == 1:
        v = ref.ket(rng, d, True)
        return v @ v.conj().T, v
    if k == 2:
        return ref.rho(rng, d, 1), None
    if k == 3:
        p = rng.dirichlet(np.ones(d))
        return np.diag(p).astype(complex), None
    return ref.rho(rng, d), None


def expect(rng, m):
    d = tail(rng, 2, 9, 40)
    r, v = state(rng, d)
    kind = int(rng.integers(3))
    A = ref.anyherm(rng, d) * 10 ** rng.uniform(-1, 1) if kind else ref.anymat(rng, d)
    if not kind and rng.random() < .3:        # hardly not an observable
        A = ref.herm(rng, d) + 10 ** rng.uniform(-8, -1) * 1j * ref.herm(rng, d)
    if kind == 2:
        A = np.diag(np.diag(A)).real
    w = np.trace(A @ r)
    inp = wrap(rng, v if v is not None and rng.random() < .7 else r)
    got = qt.expectation(wrap(rng, A), inp)
    m.close(got, w, 'expectation = Tr(A rho)', tol=1e-9)
    if kind:
        m.check(np.isrealobj(got) or isinstance(got, float), 'expectation of an observable is real', type(got))
        ev = np.linalg.eigvalsh(A)
        m.check(ev[0] - 1e-8 <= got <= ev[-1] + 1e-8, 'expectation lies inside the spectrum', got)
        var = np.real(np.trace(A @ A @ r) - w ** 2)
        sc = max(1, np.linalg.norm(A, 2) ** 2)
        sd = qt.standardDev(wrap(rng, A), inp)
        m.check(abs(sd ** 2 - max(var, 0)) < 1e-9 * sc and sd >= 0, 'standardDev^2 is the variance', (sd, var))
        sd2, e2 = qt.standardDev(wrap(rng, A), inp, True)
        m.check(abs(sd2 - sd) < 1e-7 * sc, 'standardDev with expect=True gives the same deviation', (sd2, sd))
        m.close(e2, w, 'standardDev with expect=True also gives the expectation', tol=1e-9)
        # an eigenstate has no spread
        ew, evec = np.linalg.eigh(A)
        k = int(rng.integers(d))
        sd = qt.standardDev(wrap(rng, A), wrap(rng, evec[:, [k]]))
        m.check(0 <= sd < 1e-6 * np.sqrt(sc), 'standardDev vanishes on an eigenstate', sd)
        n = tail(rng, 1, 5, 30)
        st = np.hstack([ref.ket(rng, d) for _ in range(n)])
        m.close(qt._expectationColArr(A, st), [np.vdot(st[:, i], A @ st[:, i]) for i in range(n)],
                'expectation of every column', tol=1e-9)
    m.sig('expect', d, kind, v is None, type(inp).__name__)
    m.sample = {'d': d, 'kind': kind}


def fidelity(rng, m):
    d = tail(rng, 2, 8, 30)
    a, b = ref.ket(rng, d), ref.ket(rng, d)
    F = abs(np.vdot(a, b)) ** 2
    ra, rb = a @ a.conj().T, b @ b.conj().T
    for x, y in ((a, b), (a, rb), (ra, b), (ra, rb)):
        m.close(qt.fidelityPure(wrap(rng, x), wrap(rng, y)), F, 'fidelity of pure states = |<a|b>|^2', tol=1e-9)
    m.close(qt.fidelityPure(wrap(rng, a), wrap(rng, a)), 1, 'fidelity with itself is 1', tol=1e-9)
    ph = np.exp(1j * rng.uniform(0, 6))
    m.close(qt.fidelityPure(wrap(rng, ph * a), wrap(rng, b)), F, 'fidelity ignores a global phase', tol=1e-9)
    r = ref.rho(rng, d)
    w = np.real(np.trace(ra @ r))
    for x, y in ((a, r), (r, a), (ra, r)):
        m.close(qt.fidelityPure(wrap(rng, x), wrap(rng, y)), w, 'fidelity of a pure and a mixed state = <a|rho|a>', tol=1e-9)
    # Uhlmann fidelity of full rank mixed states
    s1 = .9 * ref.rho(rng, d) + .1 * np.eye(d) / d
    s2 = .9 * ref.rho(rng, d) + .1 * np.eye(d) / d
    s = ref.funm_herm(s1, lambda x: np.sqrt(np.abs(x)))
    F = np.sum(np.sqrt(np.abs(np.linalg.eigvalsh(s @ s2 @ s)))) ** 2
    m.close(qt._fidelityTest(wrap(rng, s1), wrap(rng, s2)), F, 'Uhlmann fidelity of mixed states', tol=1e-4)  # scipy's sqrtm drops to single precision
    m.sig('fid', d)
    m.sample = {'d': d}


def entropies(rng, m):
    d = tail(rng, 2, 9, 40)
    r, v = state(rng, d)
    p = np.linalg.eigvalsh(r)
    p = p[p > 1e-14]
    S = float(-np.sum(p * np.log(p)))
    inp = wrap(rng, v if v is not None and rng.random() < .7 else r)
    m.close(qt.entropy(inp), S, 'entropy = -Tr rho ln rho', tol=1e-8)
    m.close(qt.entropy(inp, True), S / np.log(2), 'entropy in bits', tol=1e-8)
    m.close(qt.purity(wrap(rng, r)), np.trace(r @ r), 'purity', tol=1e-10)
    # bipartite pure states: both halves have the same entropy
    d2 = tail(rng, 2, 5, 10)
    k = ref.ket(rng, d * d2)
    s = np.linalg.svd(k.reshape(d, d2))[1] ** 2
    s = s[s > 1e-14]
    for keep in ([0], [1]):
        g = qt.entropy(qt.partialTrace(keep, [d, d2], wrap(rng, k)))
        m.close(g, -np.sum(s * np.log(s)), 'entanglement entropy from either half of a pure state', tol=1e-7)
    m.sig('entropy', d, d2, v is None)
    m.sample = {'d': d, 'S': S}


SYSY = np.kron(ref.SY, ref.SY)


def conc(rng, m):
    kind = int(rng.integers(4))
    if kind == 0:                     # pure: C = |<psi|sy sy|psi*>|
        v = ref.ket(rng, 4, rng.random() < .4)
        w = abs(v.T @ SYSY @ v)[0, 0]
        inp = v if rng.random() < .6 else v @ v.conj().T
    elif kind == 1:                   # product states are separable
        a, b = ref.ket(rng, 2), ref.ket(rng, 2)
        v = np.kron(a, b)
        inp, w = (v if rng.random() < .6 else v @ v.conj().T), 0.0
    elif kind == 2:                   # Werner states
        p = float(rng.uniform(0, 1))
        s = np.array([[0, 1, -1, 0]]).T / np.sqrt(2)
        u = np.kron(ref.unitary(rng, 2), ref.unitary(rng, 2))
        inp = u @ (p * s @ s.T + (1 - p) * np.eye(4) / 4) @ u.conj().T
        w = max(0.0, (3 * p - 1) / 2)
    else:                             # X states
        q = rng.dirichlet(np.ones(4))
        z, y = rng.random() * np.sqrt(q[1] * q[2]), rng.random() * np.sqrt(q[0] * q[3])
        f, g = np.exp(1j * rng.uniform(0, 6, 2))
        inp = np.diag(q).astype(complex)
        inp[1, 2], inp[2, 1], inp[0, 3], inp[3, 0] = z * f, z * np.conj(f), y * g, y * np.conj(g)
        w = 2 * max(0, z - np.sqrt(q[0] * q[3]), y - np.sqrt(q[1] * q[2]))
    got = qt.concurrence(wrap(rng, inp))
    full = kind > 1 and np.linalg.eigvalsh(inp)[0] > .01        # the square roots lose no digits
    m.check(abs(got - w) < (1e-9 if full else 2e-5), 'concurrence', (kind, float(np.real(got)), w))
    m.check(-1e-9 <= got <= 1 + 1e-6, 'concurrence lies in [0, 1]', got)
    for k in ('Phi+', 'Phi-', 'Psi+', 'Psi-'):
        m.check(abs(qt.concurrence(qt.BellStates(k, bool(rng.integers(2)))) - 1) < 1e-5, 'Bell states have concurrence 1')
    m.sig('conc', kind, round(float(w), 1))
    m.sample = {'kind': kind, 'C': float(w)}


def distance(rng, m):
    d = tail(rng, 2, 8, 30)
    a, b, c = state(rng, d)[0], state(rng, d)[0], state(rng, d)[0]
    sto = np.array if rng.random() < .5 else sp.csc_matrix
    T = .5 * np.sum(np.abs(np.linalg.eigvalsh(a - b)))
    g = qt.traceDistance(sto(a), sto(b))
    m.check(abs(g - T) < 1e-6, 'traceDistance = Tr|A-B|/2', (g, T))
    m.check(abs(qt.traceDistance(sto(b), sto(a)) - g) < 1e-6, 'traceDistance is symmetric')
    m.check(-1e-9 <= g <= 1 + 1e-6, 'traceDistance of states lies in [0, 1]', g)
    m.check(g <= qt.traceDistance(sto(a), sto(c)) + qt.traceDistance(sto(c), sto(b)) + 1e-6, 'triangle inequality')
    m.check(abs(qt.traceDistance(sto(a), sto(a))) < 1e-9, 'traceDistance to itself is 0')
    u = ref.unitary(rng, d)
    m.check(abs(qt.traceDistance(sto(u @ a @ u.conj().T), sto(u @ b @ u.conj().T)) - T) < 1e-6, 'unitary invariance')
    m.sig('dist', d, round(T, 1))
    m.sample = {'d': d, 'T': T}


def spectra(rng, m):
    d = tail(rng, 2, 8, 30)
    herm = bool(rng.integers(2))
    A = ref.anyherm(rng, d) if herm else ref.unitary(rng, d) @ np.diag(rng.normal(size=d)) @ np.diag(np.exp(1j * rng.uniform(0, 6, d)))
    mag = bool(rng.integers(2))
    vals, vecs = qt.sortedEigens(wrap(rng, A), mag) if mag or rng.random() < .5 else qt.sortedEigens(wrap(rng, A))
    key = np.abs(vals) if mag else np.real(vals)
    m.check(bool(np.all(np.diff(key) >= -1e-9)), 'sortedEigens is sorted', vals)
    m.eq(len(vals), d, 'sortedEigens returns every eigenvalue')
    m.eq(len(vecs), d, 'sortedEigens returns every eigenvector')
    want = np.linalg.eigvals(A)
    # compare as multisets
    rest = list(vals)
    for x in want:
        k = int(np.argmin([abs(x - y) for y in rest]))
        m.check(abs(rest[k] - x) < 1e-6, 'sortedEigens has the right spectrum', (vals, want))
        rest.pop(k)
    for x, v in zip(vals, vecs):
        v = arr(v).reshape(-1, 1)
        m.check(abs(np.linalg.norm(v) - 1) < 1e-8, 'eigenvectors are normalised')
        m.check(np.linalg.norm(A @ v - x * v) < 1e-7 * max(1, np.linalg.norm(A)),
                'k-th eigenvector belongs to the k-th eigenvalue', x)
    sn, vv = qt.spectralNorm(wrap(rng, A))
    m.close(sn, np.linalg.norm(A, 2), 'spectralNorm is the largest singular value', tol=1e-8)
    m.sig('spec', d, herm, mag)
    m.sample = {'d': d, 'hermitian': herm}


FAMILIES = [('expect', expect, 1500, 20000, 80), ('fidelity', fidelity, 750, 10000, 50), ('entropies', entropies, 900, 12000, 60),
            ('conc', conc, 900, 12000, 60), ('distance', distance, 750, 10000, 50), ('spectra', spectra, 900, 12000, 60)]
