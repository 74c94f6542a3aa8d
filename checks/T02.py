"""T02: closed-system propagators obey exp(-iHt) laws."""
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
import quanguru.QuantumToolbox as qt
from qgmon import ref
from qgmon.core import arr
from qgmon.model import tail

RULE = ('Random Hermitian Hamiltonians (dense, sparse, diagonal, degenerate, zero, embedded, 1..24 dimensional) and real '
        'times (zero, negative, tiny, large) are propagated, as are effective (lossy, non-Hermitian) ones; the result is compared with the spectral propagator and '
        'with the group laws. Non-trivial: H not proportional to the identity and t != 0.')


def ham(rng):
    d = int(rng.integers(1, 13)) if rng.random() < .85 else tail(rng, 13, 25, 70, .15)
    kind = int(rng.integers(7))
    if kind == 0:
        h = ref.herm(rng, d)
    elif kind == 1:
        h = np.diag(rng.normal(size=d)).astype(complex)
    elif kind == 2:      # degenerate spectrum
        u = ref.unitary(rng, d)
        h = u @ np.diag(rng.integers(-1, 2, size=d)) @ u.conj().T
    elif kind == 3:      # physically structured
        n = max(2, d // 2)
        h = np.kron(ref.SZ, np.eye(n)) * rng.normal() + np.kron(np.eye(2), ref.number(n)) * rng.normal() \
            + rng.normal() * np.kron(ref.SX, ref.create(n) + ref.destroy(n))
    elif kind == 4:      # real symmetric, integer entries
        a = rng.integers(-3, 4, size=(d, d))
        h = (a + a.T)
    elif kind == 5:
        h = np.zeros((d, d))
    else:                # sparse pattern
        h = ref.herm(rng, d) * (rng.random((d, d)) < .3)
        h = (h + h.conj().T) / 2
    h = np.asarray(h)
    if kind != 4:
        h = h * rng.choice([0.1, 1, 5])
    return (h + h.conj().T) / 2 if kind != 4 else h, kind


def time(rng):
    return float(rng.choice([0.0, 1e-6, 0.1, 1.0, 2.5, -0.7, -3.0, 10.0, 75.0, float(rng.normal() * 2)]))


def wrap(h, sparse):
    return sp.csc_matrix(h) if sparse else np.array(h)


def unitary(rng, m):
    h, kind = ham(rng)
    d = h.shape[0]
    t = time(rng)
    sparse = bool(rng.integers(2))
    H = wrap(h, sparse)
    Ud = qt.Unitary(H, t)
    m.check(sp.issparse(Ud) == sparse, 'Unitary keeps the storage type', type(Ud))
    m.close(Ud, ref.U(h, t), 'Unitary(H, t) = exp(-iHt)', tol=1e-8)
    u = arr(Ud)
    m.close(u.conj().T @ u, np.eye(d), 'propagator is unitary', tol=1e-8)
    m.close(arr(qt.Unitary(H)), ref.U(h, 1.0), 'time step defaults to 1', tol=1e-8)
    m.close(arr(qt.Unitary(H, 0)), np.eye(d), 'U(0) = 1', tol=1e-12)
    s = time(rng)
    m.close(arr(qt.Unitary(H, s)) @ u, arr(qt.Unitary(H, s + t)), 'U(s)U(t) = U(s+t)', tol=1e-7)
    m.close(arr(qt.Unitary(H, -t)), u.conj().T, 'U(-t) = U(t)^dagger', tol=1e-8)
    c = float(rng.choice([2.0, -1.0, 0.5]))
    m.close(arr(qt.Unitary(c * H, t)), arr(qt.Unitary(H, c * t)), 'U depends on H*t only', tol=1e-7)
    m.close(arr(qt.LiouvillianExp(H, t)), ref.U(h, t), 'LiouvillianExp without collapse operators is exp(-iHt)', tol=1e-8)
    if t != 0 and d > 1 and kind != 5:
        m.sig(kind, d, t, sparse)
    # states keep norm, energies are conserved
    v = ref.ket(rng, d)
    V = wrap(v, sparse)
    w = arr(Ud @ V)
    m.check(abs(np.linalg.norm(w) - 1) < 1e-8, 'propagation keeps the norm', np.linalg.norm(w))
    e0 = (v.conj().T @ h @ v)[0, 0]
    e1 = (w.conj().T @ h @ w)[0, 0]
    m.check(abs(e0 - e1) < 1e-7 * max(1, np.abs(h).max() * d), 'propagation conserves the energy', (e0, e1))
    m.sample = {'d': d, 't': t, 'kind': kind, 'sparse': sparse}


def trotter(rng, m):
    """Longer sequences: stepping n times equals one propagator of n*dt; commuting parts factorise."""
    d = tail(rng, 2, 8, 14)
    h = ref.herm(rng, d)
    n = tail(rng, 2, 40, 300)
    dt = float(rng.uniform(0.01, 0.4))
    sparse = bool(rng.integers(2))
    u = qt.Unitary(wrap(h, sparse), dt)
    v = wrap(ref.ket(rng, d), sparse)
    w = v
    for _ in range(n):
        w = u @ w
    m.close(w, ref.U(h, n * dt) @ arr(v), 'n steps of dt equal one step of n*dt', tol=1e-7)
    e = int(rng.integers(2, 5))
    g = ref.herm(rng, e)
    A, B = np.kron(h, np.eye(e)), np.kron(np.eye(d), g)
    m.close(qt.Unitary(wrap(A + B, sparse), dt * n), np.kron(ref.U(h, n * dt), ref.U(g, n * dt)),
            'non-interacting subsystems evolve independently', tol=1e-7)
    m.sig('trotter', d, e, n, sparse)
    m.sample = {'d': d, 'n': n, 'dt': dt}


def effective(rng, m):
    """Effective (lossy) Hamiltonians are not Hermitian: the propagator is still exp(-iHt), only no longer unitary."""
    d = tail(rng, 1, 9, 40)
    h = ref.herm(rng, d) - 1j * np.diag(rng.uniform(0, .5, size=d)) if rng.random() < .6 else .4 * ref.cmat(rng, d)
    t = time(rng)
    t = np.sign(t) * min(abs(t), 3)
    sparse = bool(rng.integers(2))
    u = qt.Unitary(wrap(h, sparse), t)
    m.close(u, la.expm(-1j * t * h), 'Unitary(H, t) = exp(-iHt) for an effective Hamiltonian', tol=1e-8)
    m.close(arr(u) @ arr(qt.Unitary(wrap(h, sparse), -t)), np.eye(d), 'U(t)U(-t) = 1 for an effective Hamiltonian', tol=1e-6)
    m.close(qt.LiouvillianExp(wrap(h, sparse), t), la.expm(-1j * t * h), 'LiouvillianExp of an effective Hamiltonian', tol=1e-8)
    if d > 1 and t:
        m.sig('eff', d, t, sparse)
    m.sample = {'d': d, 't': t, 'sparse': sparse}


def special(rng, m):
    """Hamiltonians with structure, in any number of element types and storage formats."""
    d = tail(rng, 1, 8, 14)
    h, k = ref.special(rng, d, rng.random() < .5)
    t = time(rng)
    t = np.sign(t) * min(abs(t), 10 if np.allclose(h, ref.dag(h), atol=1e-12) else 3)
    if not h.imag.any() and rng.random() < .7:
        h = h.real
        if rng.random() < .3 and np.allclose(h, np.round(h), atol=0):
            h = h.astype(int)
    f = int(rng.integers(3))
    H = [np.array, sp.csc_matrix, sp.csr_matrix][f](h)
    want = ref.U(h.astype(complex), t)
    u = qt.Unitary(H, t)
    ok = m.close(u, want, 'Unitary(H, t) = exp(-iHt)', tol=1e-8)
    m.check(sp.issparse(u) == (f > 0), 'Unitary keeps the storage type', type(u))
    m.close(qt.LiouvillianExp(H, t), want, 'LiouvillianExp without collapse operators is exp(-iHt)', tol=1e-8)
    if ok and t and d > 1:
        m.sig('special', k, d, t, f)
    m.ev('special')
    m.sample = {'d': d, 't': t, 'kind': k, 'format': f}


FAMILIES = [('unitary', unitary, 500, 16000, 50), ('trotter', trotter, 200, 6000, 50), ('effective', effective, 200, 8000, 50), ('special', special, 400, 14000, 50)]
