"""T07: Wigner and Husimi quasi-probabilities."""
import math
import numpy as np
import scipy.sparse as sp
import quanguru.QuantumToolbox as qt
from qgmon import ref
from qgmon.core import arr
from qgmon.model import tail

RULE = ('Random kets and density matrices (dimension 2-10, dense/csc) on random 1-D axes; Wigner values are compared with the '
        'displaced-parity definition evaluated through explicit Laguerre sums, Husimi values with |<alpha|psi>|^2 / <alpha|rho|alpha>, '
        'plus normalisation, marginal and linearity laws. Non-trivial: dimension > 2 with coherences.')


def wrap(rng, x):
    return np.array(x) if rng.random() < .5 else sp.csc_matrix(x)


def lag(n, k, x):
    return sum((-1) ** i * math.comb(n + k, n - i) * x ** i / math.factorial(i) for i in range(n + 1))


def wigner_ref(r, alpha):
    """(2/pi) Tr[rho D(alpha) P D(alpha)^dag] through the Fock-basis matrix elements."""
    d = r.shape[0]
    b = 4 * abs(alpha) ** 2
    w = 0
    for m_ in range(d):
        for n in range(m_, d):
            # matrix element of the displaced parity operator <n| D P D+ |m>
            el = (-1) ** m_ * math.sqrt(math.factorial(m_) / math.factorial(n)) * (2 * alpha) ** (n - m_) \
                * lag(m_, n - m_, b) * math.exp(-b / 2)
            w += r[m_, n] * el if m_ == n else 2 * np.real(r[m_, n] * el)
    return 2 / np.pi * np.real(w)


def rand_state(rng, d):
    if rng.random() < .5:
        v = ref.ket(rng, d, rng.random() < .5)
        return v, v @ v.conj().T
    r = ref.rho(rng, d)
    return None, r


def wigner(rng, m):
    d = tail(rng, 2, 10, 22)
    v, r = rand_state(rng, d)
    inp = wrap(rng, v if v is not None and rng.random() < .6 else r)
    n = tail(rng, 1, 5, 12)
    ax = np.sort(rng.uniform(-3, 3, n) * (1 if rng.random() < .8 else 2))
    g = float(rng.choice([np.sqrt(2), 2, 1, .7]))
    W = qt.Wigner(inp, ax, g) if rng.random() < .7 or g != np.sqrt(2) else qt.Wigner(inp, list(ax))
    m.eq(W.shape, (n, n), 'Wigner has one value per grid point')
    for i, y in enumerate(ax):
        for j, x in enumerate(ax):
            al = .5 * g * (x + 1j * y)
            m.close(W[i, j], g ** 2 / 2 * wigner_ref(r, al), 'Wigner[i, j] is the displaced parity at (x_j, y_i)', tol=1e-8)
    m.sig('wig', d, n, v is None, round(g, 2))
    m.sample = {'d': d, 'axis': [float(x) for x in ax], 'g': g}


def husimi(rng, m):
    d = tail(rng, 2, 10, 22)
    v, r = rand_state(rng, d)
    inp = wrap(rng, v if v is not None and rng.random() < .6 else r)
    n = tail(rng, 1, 5, 12)
    ax = np.sort(rng.uniform(-3, 3, n) * (1 if rng.random() < .8 else 2))
    g = float(rng.choice([np.sqrt(2), 2, 1, .7]))
    Q = qt.HusimiQ(inp, ax) if g == np.sqrt(2) else qt.HusimiQ(inp, ax, g)
    m.eq(Q.shape, (n, n), 'HusimiQ has one value per grid point')
    for i, y in enumerate(ax):
        for j, x in enumerate(ax):
            al = .5 * g * (x + 1j * y)
            c = np.array([al ** k / math.sqrt(math.factorial(k)) for k in range(d)]).reshape(-1, 1) * math.exp(-abs(al) ** 2 / 2)
            w = np.real((c.conj().T @ r @ c)[0, 0]) / np.pi * g ** 2 / 4
            m.close(Q[i, j], w, 'HusimiQ[i, j] is <alpha|rho|alpha> at (x_j, y_i)', tol=1e-8)
    m.check(bool(np.all(Q >= -1e-10)), 'HusimiQ is non-negative')
    m.sig('hus', d, n, v is None, round(g, 2))
    m.sample = {'d': d, 'axis': [float(x) for x in ax], 'g': g}


def norms(rng, m):
    d = int(rng.integers(2, 7))
    v, r = rand_state(rng, d)
    inp = wrap(rng, v if v is not None and rng.random() < .6 else r)
    ax = np.linspace(-7, 7, 71)
    h = ax[1] - ax[0]
    W = qt.Wigner(inp, ax)
    # the library's scale is (g^2/pi) Tr[rho D P D+], i.e. the same constant (2) for every state
    m.close(np.sum(W) * h * h, 2, 'Wigner integrates to the same constant for every state', tol=1e-4)
    m.check(bool(np.max(np.abs(W)) <= 2 / np.pi + 1e-9), 'Wigner is bounded by its value for a parity eigenstate at the origin')
    # the position marginal is |<x|psi>|^2 summed over the mixture
    def hermf(n, x):
        a, b = np.pi ** -.25 * np.exp(-x * x / 2), None
        if n == 0:
            return a
        prev, cur = a, np.sqrt(2) * x * a
        for k in range(1, n):
            prev, cur = cur, np.sqrt(2 / (k + 1)) * x * cur - np.sqrt(k / (k + 1)) * prev
        return cur
    f = [hermf(n, ax) for n in range(d)]
    px = sum(np.real(r[a, b] * f[a] * f[b]) for a in range(d) for b in range(d))
    m.close(np.sum(W, axis=0) * h, 2 * px, 'Wigner position marginal is the position distribution', tol=1e-4)
    Q = qt.HusimiQ(inp, ax)
    # with alpha = (x + i y)/sqrt(2), d2alpha = dx dy / 2
    m.close(np.sum(Q) * h * h, 1, 'HusimiQ is normalised over phase space', tol=1e-3)
    a, b = ref.rho(rng, d), ref.rho(rng, d)
    p = rng.random()
    s = np.linspace(-2, 2, 5)
    for fn in (qt.Wigner, qt.HusimiQ):
        m.close(fn(p * a + (1 - p) * b, s), p * fn(a, s) + (1 - p) * fn(b, s), 'linear in the density matrix', tol=1e-9)
    m.sig('norms', d, v is None)
    m.sample = {'d': d}


FAMILIES = [('wigner', wigner, 900, 12000, 60), ('husimi', husimi, 900, 12000, 60), ('norms', norms, 360, 4000, 30)]
