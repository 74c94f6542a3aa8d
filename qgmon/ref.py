"""Independent reference mathematics (numpy only; never imports the code under test)."""
import itertools
import math

import numpy as np


# ---------------------------------------------------------------- random objects
def ket(rng, d, sparse_amp=False):
    v = rng.normal(size=(d, 1)) + 1j * rng.normal(size=(d, 1))
    if sparse_amp:
        v *= (rng.random((d, 1)) < 0.6)
        if not np.any(v):
            v[rng.integers(d), 0] = 1
    return v / np.linalg.norm(v)


def rho(rng, d, rank=None):
    rank = rank or int(rng.integers(1, d + 1))
    r = np.zeros((d, d), complex)
    p = rng.dirichlet(np.ones(rank))
    for k in range(rank):
        v = ket(rng, d)
        r += p[k] * (v @ v.conj().T)
    return r


def herm(rng, d, scale=1.0):
    a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    return scale * (a + a.conj().T) / 2


def cmat(rng, n, m=None):
    m = n if m is None else m
    return rng.normal(size=(n, m)) + 1j * rng.normal(size=(n, m))


def unitary(rng, d):
    q, r = np.linalg.qr(cmat(rng, d))
    return q * (np.diag(r) / np.abs(np.diag(r)))


# ---------------------------------------------------------------- linear algebra
def dag(a):
    return np.conj(np.swapaxes(a, 0, 1))


def kron(*ms):
    out = np.ones((1, 1))
    for m in ms:
        m = np.asarray(m)
        n = np.zeros((out.shape[0] * m.shape[0], out.shape[1] * m.shape[1]), complex)
        for i in range(out.shape[0]):
            for j in range(out.shape[1]):
                n[i * m.shape[0]:(i + 1) * m.shape[0], j * m.shape[1]:(j + 1) * m.shape[1]] = out[i, j] * m
        out = n
    return out


def embed(op, before, after):
    return np.kron(np.kron(np.eye(before), op), np.eye(after))


def ptrace(r, dims, keep):
    """Partial trace by explicit summation over basis labels."""
    keep = sorted(keep)
    n = len(dims)
    out_dims = [dims[k] for k in keep]
    D = int(np.prod(out_dims)) if out_dims else 1
    out = np.zeros((D, D), complex)
    rest = [k for k in range(n) if k not in keep]

    def flat(lbl):
        x = 0
        for d, i in zip(dims, lbl):
            x = x * d + i
        return x

    def flatk(lbl):
        x = 0
        for d, i in zip(out_dims, lbl):
            x = x * d + i
        return x
    for a in itertools.product(*[range(d) for d in out_dims]):
        for b in itertools.product(*[range(d) for d in out_dims]):
            s = 0
            for e in itertools.product(*[range(dims[k]) for k in rest]):
                la, lb = [0] * n, [0] * n
                for k, x in zip(keep, a):
                    la[k] = x
                for k, x in zip(keep, b):
                    lb[k] = x
                for k, x in zip(rest, e):
                    la[k] = lb[k] = x
                s += r[flat(la), flat(lb)]
            out[flatk(a), flatk(b)] = s
    return out


def expm_taylor(a):
    """exp(a) by scaling and squaring of a plain Taylor series (independent of scipy)."""
    a = np.asarray(a, complex)
    nrm = np.linalg.norm(a, 1)
    s = max(0, int(math.ceil(math.log2(nrm / 0.25))) if nrm > 0.25 else 0)
    b = a / 2 ** s
    term = np.eye(a.shape[0], dtype=complex)
    out = term.copy()
    for k in range(1, 25):
        term = term @ b / k
        out = out + term
    for _ in range(s):
        out = out @ out
    return out


def U(h, t=1.0):
    """exp(-i h t) through the spectral decomposition of h; a scaled and squared power series if h is not Hermitian."""
    h = np.asarray(h, complex)
    if not np.allclose(h, h.conj().T, atol=1e-12):
        k = max(0, int(np.ceil(np.log2(max(np.linalg.norm(h, 1) * abs(t), 1e-9)))) + 4)
        a, out = -1j * h * t / 2 ** k, np.eye(len(h), dtype=complex)
        term = out.copy()
        for i in range(1, 25):
            term = term @ a / i
            out = out + term
        for _ in range(k):
            out = out @ out
        return out
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-1j * w * t)) @ v.conj().T


def funm_herm(h, f):
    w, v = np.linalg.eigh(np.asarray(h, complex))
    return (v * f(w)) @ v.conj().T


# ---------------------------------------------------------------- operators (definitions)
def number(d):
    return np.diag(np.arange(d).astype(float))


def destroy(d):
    a = np.zeros((d, d))
    for n in range(1, d):
        a[n - 1, n] = math.sqrt(n)
    return a


def create(d):
    return destroy(d).T


SX = np.array([[0, 1], [1, 0]], complex)
SY = np.array([[0, -1j], [1j, 0]])
SZ = np.array([[1, 0], [0, -1]], complex)
SP = np.array([[0, 1], [0, 0]], complex)
SM = np.array([[0, 0], [1, 0]], complex)


def jz(d):
    j = (d - 1) / 2
    return np.diag([j - k for k in range(d)]).astype(complex)


def jp(d):
    j = (d - 1) / 2
    m = np.zeros((d, d), complex)
    for k in range(1, d):
        mm = j - k           # |j, mm> -> |j, mm+1>
        m[k - 1, k] = math.sqrt(j * (j + 1) - mm * (mm + 1))
    return m


def jm(d):
    return dag(jp(d))


def jx(d):
    return (jp(d) + jm(d)) / 2


def jy(d):
    return (jp(d) - jm(d)) / 2j


def js(d):
    j = (d - 1) / 2
    return j * (j + 1) * np.eye(d, dtype=complex)


def parity(d):
    return np.diag([(-1.0) ** n for n in range(d)])


# ---------------------------------------------------------------- open systems
def lindblad_rhs(r, H, cs, gs):
    out = np.zeros_like(r, dtype=complex)
    if H is not None:
        out += -1j * (H @ r - r @ H)
    for c, g in zip(cs, gs):
        A, B = c if isinstance(c, tuple) else (c, dag(c))
        n = B @ A
        out += g * (A @ r @ B - 0.5 * (n @ r + r @ n))
    return out


def super_of(f, d):
    """Matrix of the linear map f on d x d matrices in the column-stacking convention."""
    L = np.zeros((d * d, d * d), complex)
    for j in range(d):
        for i in range(d):
            e = np.zeros((d, d), complex)
            e[i, j] = 1
            L[:, j * d + i] = vec(f(e))
    return L


def vec(r):
    return np.array([r[i, j] for j in range(r.shape[1]) for i in range(r.shape[0])])


def unvec(v):
    v = np.asarray(v).ravel()
    d = int(round(math.sqrt(v.size)))
    out = np.zeros((d, d), complex)
    for j in range(d):
        for i in range(d):
            out[i, j] = v[j * d + i]
    return out


def choi(S, d):
    """Choi matrix of a superoperator given in the column-stacking convention."""
    C = np.zeros((d * d, d * d), complex)
    for i in range(d):
        for j in range(d):
            e = np.zeros((d, d), complex)
            e[i, j] = 1
            C += np.kron(e, unvec(S @ vec(e)))
    return C


def special(rng, d, hermitian=False):
    """Matrices with structure: permutations, single pairs of elements, triangular, defective, almost diagonal, almost Hermitian ..."""
    k = int(rng.integers(12))
    z = np.zeros((d, d), dtype=complex)
    dia = np.diag(rng.normal(size=d)).astype(complex)
    i, j = [int(x) for x in rng.integers(d, size=2)]
    eps = 10 ** rng.uniform(-6, -1)
    if k == 0:                          # permutation, also a cyclic one
        a = np.eye(d, dtype=complex)[rng.permutation(d)]
    elif k == 1:                        # diagonal but for one pair
        a = dia
        a[i, j] = a[j, i] = float(rng.normal())
        if i != j and rng.random() < .6:
            a[i, i] = 0 if rng.random() < .5 else a[i, i]
            a[j, j] = 0
    elif k == 2:                        # one element
        a = z
        a[i, j] = rng.normal() + 1j * rng.normal()
    elif k == 3:                        # nilpotent / ladder
        a = [destroy, create, jp, jm][int(rng.integers(4))](d).astype(complex) * float(rng.uniform(.2, 2))
    elif k == 4:                        # Jordan block
        a = np.eye(d, dtype=complex) * complex(rng.normal(), rng.normal() * .3) + np.diag(np.ones(d - 1), 1)
    elif k == 5:                        # triangular
        a = np.tril(cmat(rng, d)) if rng.random() < .5 else np.triu(cmat(rng, d)).real.astype(complex)
    elif k == 6:                        # almost diagonal
        a = dia + eps * herm(rng, d)
    elif k == 7:                        # almost Hermitian
        a = herm(rng, d) + eps * cmat(rng, d)
    elif k == 8:                        # rank one
        v, w = ket(rng, d), ket(rng, d)
        a = v @ dag(v if rng.random() < .5 else w) * float(rng.normal())
    elif k == 9:                        # imaginary and antisymmetric, or anti-Hermitian
        a = np.array(jy(d)) if rng.random() < .5 else 1j * herm(rng, d)
    elif k == 10:                       # blocks
        e = int(rng.integers(0, d + 1))
        a = z
        a[:e, :e], a[e:, e:] = herm(rng, e) if e else 0, herm(rng, d - e) if d > e else 0
    else:                               # almost degenerate, or a multiple of the identity
        a = np.eye(d, dtype=complex) * float(rng.normal()) + (eps * herm(rng, d) if rng.random() < .7 else 0)
    a = np.asarray(a, dtype=complex)
    if hermitian:
        a = (a + dag(a)) / 2
    return (a, k)


def anyherm(rng, d):
    return herm(rng, d) if rng.random() < .75 else special(rng, d, True)[0]


def anymat(rng, d):
    return cmat(rng, d) if rng.random() < .75 else special(rng, d)[0]
