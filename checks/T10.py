"""T10: statistical distributions, participation ratios and thermal averages."""
import math
import numpy as np
import scipy.sparse as sp
from scipy import integrate
import quanguru.QuantumToolbox as qt
from qgmon import ref
from qgmon.core import arr
from qgmon.model import tail

RULE = ('Probability densities are integrated numerically over random dimensions/parameters and compared with their closed forms and '
        'moments; participation ratios and component statistics are computed for random kets in random orthonormal bases; '
        'thermal averages against Bose/Boltzmann sums. Non-trivial: dimension > 2.')


def wrap(rng, x):
    k = int(rng.integers(3))
    return np.array(x) if k == 0 else sp.csc_matrix(x) if k == 1 else sp.csr_matrix(x)


def spacing(rng, m):
    for b in (1, 2, 4):
        f = lambda x: float(qt.WignerDyson(x, b))
        m.close(integrate.quad(f, 0, 12, limit=200)[0], 1, f'Wigner surmise beta={b} is normalised', tol=1e-6)
        m.close(integrate.quad(lambda x: x * f(x), 0, 12, limit=200)[0], 1, f'Wigner surmise beta={b} has unit mean', tol=1e-6)
        x = float(rng.uniform(0, 4))
        c = {1: np.pi / 2 * x * np.exp(-np.pi * x * x / 4), 2: 32 / np.pi ** 2 * x ** 2 * np.exp(-4 * x * x / np.pi),
             4: 2 ** 18 / (729 * np.pi ** 3) * x ** 4 * np.exp(-64 * x * x / (9 * np.pi))}[b]
        m.close(f(x), c, f'Wigner surmise beta={b}', tol=1e-10)
        m.close(qt.WignerSurmise(x, b), c, 'WignerSurmise is the same density', tol=1e-10)
        m.sig('wd', b, round(x, 2))
    x = float(rng.uniform(0, 8))
    m.close(qt.WignerDyson(x, 0), math.exp(-x), 'beta=0 is the exponential law', tol=1e-12)
    m.close(qt.WignerDyson(x), qt.WignerDyson(x, 1), 'beta defaults to 1', tol=1e-14)
    lam = float(rng.uniform(.1, 12))
    ks = range(0, 90)
    p = [float(qt.Poissonian(k, lam)) for k in ks]
    m.close(p[:30], [math.exp(-lam) * lam ** k / math.factorial(k) for k in range(30)], 'Poissonian', tol=1e-9)
    m.close([sum(p), sum(k * q for k, q in zip(ks, p))], [1, lam], 'Poissonian is normalised with mean lambda', tol=1e-8)


def eigvec(rng, m):
    n = tail(rng, 4, 40, 300)
    for b in (1, 2, 4):
        # substitution x = sin^2 removes the integrable end-point singularities
        f = lambda t: float(qt.EigenVectorDist(np.sin(t) ** 2, n, b)) * 2 * np.sin(t) * np.cos(t)
        lo, hi = 1e-9, np.pi / 2 - 1e-9
        m.close(integrate.quad(f, lo, hi, limit=300)[0], 1, f'eigenvector density beta={b} is normalised', tol=1e-5)
        mean = integrate.quad(lambda t: np.sin(t) ** 2 * f(t), lo, hi, limit=300)[0]
        # beta=1,2: one of n components; beta=4: one of n/2 pairs
        m.close(mean, {1: 1 / n, 2: 1 / n, 4: 2 / n}[b], f'eigenvector density beta={b} has the right mean component', tol=1e-5)
        x = float(rng.uniform(.01, .9))
        w = {1: math.exp(math.lgamma(n / 2) - math.lgamma((n - 1) / 2)) * (1 - x) ** ((n - 3) / 2) / math.sqrt(math.pi * x),
             2: (n - 1) * (1 - x) ** (n - 2), 4: (n - 1) * (n - 2) * x * (1 - x) ** (n - 3)}[b]
        m.close(qt.EigenVectorDist(x, n, b), w, f'eigenvector density beta={b}', tol=1e-9)
    m.close(qt.EigenVectorDist(.3, n), qt.EigenVectorDist(.3, n, 1), 'beta defaults to 1', tol=1e-12)
    m.sig('ev', n)
    m.sample = {'dim': n}


def participation(rng, m):
    d = tail(rng, 2, 10, 40)
    k = ref.ket(rng, d, rng.random() < .3)
    u = ref.unitary(rng, d) if rng.random() < .7 else np.eye(d)
    bas = [wrap(rng, u[:, [i]]) for i in range(d)]
    c = np.abs(u.conj().T @ k).ravel() ** 2
    m.close(qt.iprKet(bas, wrap(rng, k)), 1 / np.sum(c ** 2), 'iprKet = 1/sum |c|^4 in the given basis', tol=1e-9)
    m.close(qt.iprKetNB(wrap(rng, k)), 1 / np.sum(np.abs(k) ** 4), 'iprKetNB = 1/sum |c|^4', tol=1e-9)
    m.close(qt.iprKet(qt.completeBasis(d), wrap(rng, k)), qt.iprKetNB(wrap(rng, k)),
            'iprKet in the computational basis = iprKetNB', tol=1e-9)
    i = int(rng.integers(d))
    m.close(qt.iprKet(bas, wrap(rng, u[:, [i]])), 1, 'a basis state is perfectly localised', tol=1e-8)
    flat = u @ (np.exp(1j * rng.uniform(0, 6, (d, 1))) / np.sqrt(d))
    m.close(qt.iprKet(bas, wrap(rng, flat)), d, 'an equal superposition is maximally delocalised', tol=1e-8)
    g = qt.iprKetNB(wrap(rng, k))
    m.check(1 - 1e-9 <= g <= d + 1e-9, 'participation lies in [1, d]', g)
    reg, sym = qt.eigVecStatKet(bas, wrap(rng, k))
    m.close(reg, c, 'component statistics of a ket', tol=1e-9)
    m.close(sym, [c[2 * i] + c[2 * i + 1] for i in range(d // 2)], 'symplectic statistics pair up components', tol=1e-9)
    reg, sym = qt.eigVecStatKet(bas, wrap(rng, k), symp=False)
    m.close(reg, c, 'component statistics of a ket, no pairing', tol=1e-9)
    m.eq(len(sym), 0, 'no symplectic statistics unless asked')
    V = ref.unitary(rng, d)
    m.close(qt._eigStatEig(V), np.abs(V).ravel() ** 2, 'entries of given eigenvectors', tol=1e-12)
    m.close(sorted(float(x) for x in np.ravel(qt._eigStatEig(V, symp=True))),
            sorted(abs(V[2 * a, b]) ** 2 + abs(V[2 * a + 1, b]) ** 2 for b in range(d) for a in range(d // 2)),
            'paired entries of given eigenvectors', tol=1e-12)
    H = ref.herm(rng, d)
    w, v = np.linalg.eigh(H)
    st = qt._eigStat(wrap(rng, H))
    m.close(np.sort(np.ravel(st)), np.sort(np.abs(v).ravel() ** 2), '_eigStat: entries of every eigenvector', tol=1e-7)
    st = qt._eigStat(wrap(rng, H), True)
    m.close(np.sort(np.ravel(st)), np.sort([abs(v[2 * a, b]) ** 2 + abs(v[2 * a + 1, b]) ** 2 for b in range(d)
                                            for a in range(d // 2)]), '_eigStat symplectic', tol=1e-7)
    vals, vecs = qt._eigs(wrap(rng, H))
    m.close(H @ arr(vecs), arr(vecs) * vals, '_eigs diagonalises', tol=1e-8)
    m.sig('ipr', d, len(reg))
    m.sample = {'d': d}


def thermal(rng, m):
    w, T = float(rng.uniform(.05, 5)), float(rng.uniform(.05, 10))
    unit = 1.0 if rng.random() < .5 else float(10.0 ** rng.uniform(-9, 9))     # only the ratio of the two matters
    w, T = w * unit, T * unit
    hb, kb = (1.0, 1.0) if rng.random() < .5 else tuple(float(x) for x in rng.uniform(.3, 2, 2))
    x = hb * w / (kb * T)
    q = math.exp(-x)
    m.close(qt.nBarThermal(w, T, hb, kb), q / (1 - q), 'Bose-Einstein occupation', tol=1e-8)
    m.eq(qt.nBarThermal(w, 0), 0, 'no thermal excitation at zero temperature')
    m.check(qt.nBarThermal(w, T) < qt.nBarThermal(w, T * 1.5), 'occupation grows with temperature')
    e = q_ = math.exp(-w / T)
    m.close(qt.qubitPolarisation(w, T), (e - 1) / (e + 1), 'qubitPolarisation = P1 - P0 of the thermal state', tol=1e-10)
    m.close(qt.qubitPolarisation(w, -T), (1 - e) / (e + 1), 'a negative temperature inverts the polarisation', tol=1e-10)
    d = tail(rng, 2, 6, 12)
    H = ref.herm(rng, d)
    r = ref.rho(rng, d)
    cs = [ref.cmat(rng, d) for _ in range(int(rng.integers(1, 3)))]
    gs = [float(g) for g in rng.uniform(.1, 2, len(cs))]
    dr = ref.lindblad_rhs(r, None, cs, gs)
    L = ref.super_of(lambda y: ref.lindblad_rhs(y, None, cs, gs), d)
    sto = np.array if rng.random() < .5 else sp.csc_matrix
    m.close(qt.HeatCurrent(sto(L), sto(H), sto(r)), np.real(np.trace(dr @ H)), 'HeatCurrent = Tr(L[rho] H)', tol=1e-8)
    m.sig('th', round(w, 1), round(T, 1), d)
    m.sample = {'w': w, 'T': T}


FAMILIES = [('spacing', spacing, 80, 1200, 10), ('eigvec', eigvec, 120, 1600, 10), ('participation', participation, 600, 12000, 60),
            ('thermal', thermal, 600, 12000, 60)]
