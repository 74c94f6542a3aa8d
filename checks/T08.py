"""T08: rotations, gates and model Hamiltonians equal their closed forms."""
import numpy as np
import scipy.sparse as sp
import quanguru.QuantumToolbox as qt
from quanguru.QuantumToolbox.spinRotations import spinRotation
from qgmon import ref
from qgmon.core import arr
from qgmon.model import tail

RULE = ('Random angles (including 0, multiples of pi, negative and large), axes in both cases, spins 1/2..4 and dimensions, '
        'phases, and model parameters; compared with exponentials of the generators computed by the reference. '
        'Non-trivial: generic angle or coupled parameters.')


def ang(rng):
    k = int(rng.integers(4))
    return float([rng.uniform(-7, 7), rng.integers(-4, 5) * np.pi / 2, rng.uniform(-60, 60), rng.uniform(-1e-3, 1e-3)][k])


def store(m, g, sparse, name):
    m.check(sp.issparse(g) == sparse, f'{name}: storage follows the sparse flag', type(g))


def rotations(rng, m):
    th = ang(rng)
    sparse = bool(rng.integers(2))
    P = {'x': ref.SX, 'y': ref.SY, 'z': ref.SZ}
    F = {'x': qt.xRotation, 'y': qt.yRotation, 'z': qt.zRotation}
    for ax in 'xyz':
        want = ref.U(P[ax] / 2, th)
        for name, g in ((ax + 'Rotation', F[ax](th, sparse)), ('qubRotation', qt.qubRotation(ax, th, sparse)),
                        ('qubRotation upper case', qt.qubRotation(ax.upper(), th, sparse))):
            m.close(g, want, f'{name}: exp(-i theta sigma/2)', tol=1e-12)
            store(m, g, sparse, name)
        m.close(F[ax](th), want, f'{ax}Rotation default storage', tol=1e-12)
        a2 = ang(rng)
        m.close(arr(F[ax](th)) @ arr(F[ax](a2)), F[ax](th + a2), f'{ax}: rotations about one axis add up', tol=1e-10)
        g = arr(F[ax](th))
        m.close(g @ g.conj().T, np.eye(2), 'rotations are unitary', tol=1e-12)
    isDim = bool(rng.integers(2))
    d = tail(rng, 2, 10, 40)
    j = d if isDim else (d - 1) / 2
    ax = 'xyz'[int(rng.integers(3))]
    J = {'x': ref.jx, 'y': ref.jy, 'z': ref.jz}[ax](d)
    a = ax if rng.random() < .6 else ax.upper()
    g = spinRotation(a, th, j, sparse, isDim) if isDim or not sparse or rng.random() < .5 else spinRotation(a, th, j)
    m.close(g, ref.U(J, th), f'spinRotation {ax}: exp(-i theta J)', tol=1e-9)
    try:
        qt.qubRotation('w', th)
        m.fail('qubRotation accepts an unknown axis')
    except ValueError:
        m.ev('rejected')
    m.sig('rot', round(th, 3), d, ax, isDim, sparse)
    m.sample = {'theta': th, 'd': d, 'axis': ax}


def gates(rng, m):
    sparse = bool(rng.integers(2))
    g = qt.CNOT(sparse)
    store(m, g, sparse, 'CNOT')
    w = np.eye(4)[[0, 1, 3, 2]]
    m.close(g, w, 'CNOT flips the target only when the control is 1', tol=1e-14)
    ph = ang(rng)
    g = qt.CPHASE(ph, sparse)
    store(m, g, sparse, 'CPHASE')
    m.close(g, np.diag([1, 1, 1, np.exp(1j * ph)]), 'CPHASE puts the phase on |11> only', tol=1e-12)
    p2 = ang(rng)
    m.close(arr(qt.CPHASE(ph)) @ arr(qt.CPHASE(p2)), qt.CPHASE(ph + p2), 'phases of CPHASE add up', tol=1e-10)
    g = qt.Hadamard(sparse)
    store(m, g, sparse, 'Hadamard')
    H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    m.close(g, H, 'Hadamard', tol=1e-14)
    m.close(arr(g) @ arr(g), np.eye(2), 'Hadamard is an involution', tol=1e-12)
    k = np.kron(np.eye(2), arr(qt.Hadamard()))
    m.close(k @ arr(qt.CPHASE(np.pi)) @ k, qt.CNOT(), 'CNOT = H CPHASE(pi) H', tol=1e-12)
    m.sig('gate', round(ph, 3), sparse)
    m.sample = {'phase': ph}


def models(rng, m):
    wq, wc, g = [float(x) for x in rng.uniform(-3, 3, 3)]
    n = tail(rng, 2, 9, 40)
    sz = np.kron(ref.SZ, np.eye(n))
    num = np.kron(np.eye(2), ref.number(n))
    a, ad = ref.destroy(n), ref.create(n)
    cav, qub = qt.qubCavFreeHam(wq, wc, n)
    m.close(cav, wc * num, 'cavity part: wc a^dag a', tol=1e-12)
    m.close(qub, .5 * wq * sz, 'qubit part: wq/2 sigma_z', tol=1e-12)
    H0 = wc * num + .5 * wq * sz
    jc = np.kron(ref.SM, ad) + np.kron(ref.SP, a)
    ajc = np.kron(ref.SP, ad) + np.kron(ref.SM, a)
    m.close(qt.RabiHam(wq, wc, g, n), H0 + g * np.kron(ref.SX, a + ad), 'Rabi Hamiltonian', tol=1e-12)
    m.close(qt.JCHam(wq, wc, g, n), H0 + g * jc, 'Jaynes-Cummings Hamiltonian', tol=1e-12)
    m.close(qt.aJCHam(wq, wc, g, n), H0 + g * ajc, 'anti-Jaynes-Cummings Hamiltonian', tol=1e-12)
    N = num + np.kron(np.diag([1, 0]), np.eye(n))
    h = arr(qt.JCHam(wq, wc, g, n))
    m.close(h @ N - N @ h, 0 * h, 'Jaynes-Cummings conserves the excitation number', tol=1e-10)
    h = arr(qt.RabiHam(wq, wc, g, n))
    P = np.kron(ref.SZ, ref.parity(n))
    m.close(h @ P - P @ h, 0 * h, 'Rabi conserves parity', tol=1e-10)
    m.close(arr(qt.JCHam(wq, wc, g, n)) + arr(qt.aJCHam(wq, wc, g, n)) - H0, h, 'Rabi = JC + anti-JC couplings', tol=1e-10)
    m.sig('model', n, round(wq, 2), round(g, 2))
    m.sample = {'wq': wq, 'wc': wc, 'g': g, 'n': n}


def ujc(rng, m):
    wq, wc = [float(x) for x in rng.uniform(-3, 3, 2)]
    if rng.random() < .2:
        wc = wq
    g = float(rng.uniform(.1, 3)) * (1 if rng.random() < .7 else -1) * (0 if rng.random() < .08 else 1)
    t = float(rng.uniform(0, 5)) * (1 if rng.random() < .8 else -1)
    n = tail(rng, 2, 9, 40)
    sparse = bool(rng.integers(2))
    # basis: cavity (x) qubit with the qubit's ground state first; the last cavity level keeps no partner
    H = np.kron(wc * ref.number(n), np.eye(2)) + np.kron(np.eye(n), np.diag([-wq / 2, wq / 2]))
    low, up = ref.destroy(n), np.array([[0, 0], [1, 0]])          # |g> -> |e>
    H = H + g * (np.kron(low, up) + np.kron(low, up).T)
    got = qt.UJC(wq, wc, g, t, n, sparse)
    store(m, got, sparse, 'UJC')
    m.close(got, ref.U(H, t), 'UJC is the Jaynes-Cummings propagator', tol=1e-8)
    m.close(qt.UJC(wq, wc, g, 0, n), np.eye(2 * n), 'UJC at time zero is the identity', tol=1e-12)
    t2 = float(rng.uniform(0, 5))
    m.close(qt.UJC(wq, wc, g, t, n) @ qt.UJC(wq, wc, g, t2, n), qt.UJC(wq, wc, g, t + t2, n), 'UJC group law', tol=1e-8)
    # the same dynamics from the library's own Hamiltonian (ordering: qubit (x) cavity, excited first)
    perm = [(1 - (i % 2)) * n + i // 2 for i in range(2 * n)]
    U = arr(qt.Unitary(qt.JCHam(wq, wc, g, n), t))
    m.close(U[np.ix_(perm, perm)], got, 'UJC agrees with exponentiating JCHam', tol=1e-7)
    m.sig('ujc', n, sparse, wq == wc, round(t, 2))
    m.sample = {'wq': wq, 'wc': wc, 'g': g, 't': t, 'n': n}


FAMILIES = [('rotations', rotations, 600, 12000, 60), ('gates', gates, 200, 2400, 50), ('models', models, 600, 12000, 60),
            ('ujc', ujc, 400, 8000, 50)]
