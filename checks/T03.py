"""T03: open-system generators and propagators implement the Lindblad master equation."""
import numpy as np
import scipy.sparse as sp
import quanguru.QuantumToolbox as qt
from qgmon import ref
from qgmon.core import arr
from qgmon.model import tail

RULE = ('Random Hamiltonians (or none), 0..4 random/standard collapse operators (matrices, (A,B) pairs, ready-made '
        'super-operators), rates (incl. zero, omitted), times and states of dimension 1..5, sparse and dense, are '
        'compared with a generator built column by column from the master equation and its Taylor exponential; every '
        'step of evolveOpen is observed through its callback. Non-trivial: at least one non-zero dissipative channel.')


def setup(rng, dmax=5):
    d = tail(rng, 2, dmax + 1, dmax + 4, .04)
    sparse = bool(rng.integers(2))
    w = (lambda x: sp.csc_matrix(x)) if sparse else (lambda x: np.array(x))
    H = ref.anyherm(rng, d) if rng.random() < .85 else None
    cs, gs, given = [], [], []
    for k in range(tail(rng, 0, 5, 10)):
        kind = int(rng.integers(5))
        if kind == 0:
            c = ref.anymat(rng, d) * .5
        elif kind == 1:
            c = ref.destroy(d).astype(complex)
        elif kind == 2:
            c = ref.jz(d)
        elif kind == 3:
            c = ref.create(d).astype(complex)
        else:
            c = ref.unitary(rng, d)
        cs.append(c)
        given.append(w(c))
        gs.append(float(rng.choice([0.0, 0.05, 0.3, 1.0, 2.0])))
    if H is None and not cs:
        H = ref.anyherm(rng, d)
    return d, sparse, w, H, cs, gs, given


def gen(H, cs, gs, d):
    return ref.super_of(lambda r: ref.lindblad_rhs(r, H, cs, gs), d)


def liouvillian(rng, m):
    d, sparse, w, H, cs, gs, given = setup(rng)
    Hm = None if H is None else w(H)
    ones = rng.random() < .25
    dbl = rng.random() < .25
    rates = None if ones else gs
    f = 2.0 if dbl else 1.0
    eff = [f * (1.0 if ones else g) for g in gs]
    # give (A, B) pairs and ready-made super-operators too
    cs2, giv2 = list(cs), list(given)
    for k in range(len(cs)):
        r = rng.random()
        if r < .2 and not (H is None and k == 0):
            B = ref.anymat(rng, d) * .5
            cs2[k], giv2[k] = (cs[k], B), (w(cs[k]), w(B))
        elif r < .35 and not (H is None and k == 0):
            S = ref.super_of(lambda x, c=cs[k]: ref.lindblad_rhs(x, None, [c], [1.0]), d)
            giv2[k] = w(S)
            eff[k] /= f          # the factor applies to dissipators the library builds itself
    want = gen(H, cs2, eff, d)
    kw = {'_double': True} if dbl else {}
    L = qt.Liouvillian(Hm, giv2 if (giv2 or rng.random() < .5) else None, rates, **kw)
    m.close(L, want, 'Liouvillian implements -i[H,.] + sum_k g_k D[c_k]', tol=1e-9)
    if sparse:
        m.check(sp.issparse(L), 'sparse inputs give a sparse Liouvillian', type(L))
    if cs:
        m.sig('L', d, sparse, len(cs), ones, dbl, H is None)
        c = given[0]
        D = qt.dissipator(c)
        m.close(D, gen(None, [cs[0]], [1.0], d), 'dissipator(c) = c.c^dag - {c^dag c,.}/2', tol=1e-9)
        m.check(sp.issparse(D) == sparse, 'dissipator keeps the storage type', type(D))
        B = ref.anymat(rng, d)
        m.close(qt.dissipator(c, w(B)), gen(None, [(cs[0], B)], [1.0], d), 'dissipator(A,B) = A.B - {BA,.}/2', tol=1e-9)
        m.close(qt.dissipator(c, _double=True), 2 * gen(None, [cs[0]], [1.0], d), '_double doubles the dissipator', tol=1e-9)
    m.sample = {'d': d, 'n_collapse': len(cs), 'rates': eff, 'sparse': sparse}


def superop(rng, m):
    d = tail(rng, 2, 7, 13)
    sparse = bool(rng.integers(2))
    w = (lambda x: sp.csc_matrix(x)) if sparse else (lambda x: np.array(x))
    A, B = ref.anymat(rng, d), ref.anymat(rng, d)
    one = rng.random() < .5
    I = np.eye(d)
    eye = (sp.identity(d, format='csc') if sparse else I)
    m.close(qt._preSO(w(A)) if one else qt._preSO(w(A), eye), ref.super_of(lambda r: A @ r, d), 'pre super-operator is A.', tol=1e-10)
    m.close(qt._postSO(w(A)) if one else qt._postSO(w(A), eye), ref.super_of(lambda r: r @ A, d), 'post super-operator is .A', tol=1e-10)
    m.close(qt._prepostSO(w(A), w(B)), ref.super_of(lambda r: A @ r @ B, d), 'prepost super-operator is A.B', tol=1e-10)
    m.close(qt._prepostSO(w(A)), ref.super_of(lambda r: A @ r @ A, d), 'prepost super-operator of one matrix is A.A', tol=1e-10)
    m.ev('superop', 4)
    m.sig('superop', d, sparse, one)
    m.sample = {'d': d, 'sparse': sparse}


def propagator(rng, m):
    d, sparse, w, H, cs, gs, given = setup(rng, 4)
    Hm = None if H is None else w(H)
    t = float(rng.choice([0.0, 0.01, 0.2, 1.0, 3.0]))
    ones = rng.random() < .2
    rates = None if ones else gs
    eff = [1.0] * len(gs) if ones else gs
    L = gen(H, cs, eff, d)
    if not given and H is None:
        return
    E = qt.LiouvillianExp(Hm, t, given, rates)
    m.check(sp.issparse(E) == sparse, 'LiouvillianExp keeps the storage type', type(E))
    m.close(E, ref.expm_taylor(L * t), 'LiouvillianExp = exp(L t)', tol=1e-7)
    m.close(qt.LiouvillianExp(Hm, t, given, rates, exp=False), L, 'exp=False returns the generator', tol=1e-9)
    m.close(qt.LiouvillianExp(Hm, collapseOperators=given, decayRates=rates), ref.expm_taylor(L), 'the time step defaults to 1', tol=1e-7)
    Ea = arr(E)
    tr = np.array([1.0 if i == j else 0.0 for j in range(d) for i in range(d)])
    m.close(tr @ Ea, tr, 'trace is preserved', tol=1e-7)
    C = ref.choi(Ea, d)
    m.close(C, C.conj().T, 'Hermiticity is preserved', tol=1e-7)
    ev = np.linalg.eigvalsh((C + C.conj().T) / 2)
    m.check(ev.min() > -1e-7 * max(1, abs(ev).max()), 'the propagator is completely positive', ev.min())
    m.close(arr(qt.LiouvillianExp(Hm, t / 2, given, rates)) @ arr(qt.LiouvillianExp(Hm, t / 2, given, rates)), Ea,
            'semigroup law E(t/2)^2 = E(t)', tol=1e-7)
    if H is not None and all(g == 0 for g in eff):
        u = ref.U(H, t)
        m.close(Ea, np.kron(u.conj(), u), 'without dissipation the propagator is U . U^dagger', tol=1e-7)
    if H is not None:
        e0 = qt.LiouvillianExp(Hm, t, [], [])
        u = ref.U(H, t)
        m.close(e0, np.kron(u.conj(), u), 'an empty collapse list gives U . U^dagger', tol=1e-7)
    if cs and any(eff):
        m.sig('P', d, sparse, len(cs), t, ones, H is None)
    m.sample = {'d': d, 't': t, 'rates': eff}


def evolve(rng, m):
    d, sparse, w, H, cs, gs, given = setup(rng, 4)
    Hm = None if H is None else w(H)
    if not given:
        c = ref.destroy(d).astype(complex)
        cs, gs, given = [c], [.2], [w(c)]
    nst = tail(rng, 0, 12, 60)
    dt = float(rng.choice([0.1, 0.05, 0.3, 1.0, 0.07, 0.25]))
    total = nst * dt
    if rng.random() < .3:
        total = float(np.round(total, 10))
    if rng.random() < .3:
        total += 0.4 * dt            # an incomplete last step is not taken
    isket = rng.random() < .5
    r0 = ref.ket(rng, d) if isket else ref.rho(rng, d)
    start = r0 @ r0.conj().T if isket else r0
    seen = []
    dele = rng.random() < .3
    cb = (lambda s: seen.append(arr(s))) if rng.random() < .7 else None
    dbl = rng.random() < .2
    f = 2.0 if dbl else 1.0
    kw = {'_double': True} if dbl else {}
    if rng.random() < .2:
        dt, total = 1.0, float(nst)
        out = qt.evolveOpen(w(r0), nst, Hamiltonian=Hm, collapseOperators=given, decayRates=gs, calcFunc=cb, delStates=bool(dele), **kw)
    else:
        out = qt.evolveOpen(w(r0), total, dt, Hm, given, gs, calcFunc=cb, delStates=bool(dele), **kw)
    E = ref.expm_taylor(gen(H, cs, [f * g for g in gs], d) * dt)
    traj = [start]
    for _ in range(nst):
        traj.append(ref.unvec(E @ ref.vec(traj[-1])))
    if dele:
        m.eq(len(out), 1, 'delStates keeps only the initial state')
    else:
        if m.eq(len(out), nst + 1, 'evolveOpen returns the initial state and one state per full step'):
            for k, (g, wnt) in enumerate(zip(out, traj)):
                if not m.close(g, wnt, 'every returned state solves the master equation', tol=1e-7):
                    m.note('step', k)
                    break
    m.close(out[0], start, 'the first state is the initial state', tol=1e-12)
    if cb is not None:
        m.ev('callbacks', len(seen))
        if m.eq(len(seen), nst + 1, 'the callback sees every state exactly once'):
            for g, wnt in zip(seen, traj):
                if not m.close(g, wnt, 'the callback sees the states in time order', tol=1e-7):
                    break
    for s in (out if not dele else seen):
        a = arr(s)
        m.check(abs(np.trace(a) - 1) < 1e-7, 'trace stays 1', np.trace(a))
        m.check(np.abs(a - a.conj().T).max() < 1e-7, 'state stays Hermitian')
        m.check(np.linalg.eigvalsh((a + a.conj().T) / 2).min() > -1e-7, 'state stays positive')
    m.sig('E', d, sparse, nst, dt, isket, bool(dele), cb is None)
    m.sample = {'d': d, 'steps': nst, 'dt': dt, 'total': total}


def steady(rng, m):
    d = int(rng.integers(2, 5))
    sparse = bool(rng.integers(2))
    w = (lambda x: sp.csc_matrix(x)) if sparse else (lambda x: np.array(x))
    H = ref.anyherm(rng, d)
    # down and up rates: a unique, full-rank steady state
    cs = [ref.destroy(d).astype(complex), ref.create(d).astype(complex)]
    gs = [float(rng.uniform(.5, 1.5)), float(rng.uniform(.05, .4))]
    vals, vecs = qt.steadyState(w(H), [w(c) for c in cs], gs)
    mags = np.abs(vals)
    m.check(all(mags[i] <= mags[i + 1] + 1e-12 for i in range(len(mags) - 1)), 'spectrum is sorted by magnitude', mags)
    m.check(abs(vals[-1] - 1) < 1e-7, 'largest eigenvalue of the propagator is 1', vals[-1])
    r = ref.unvec(arr(vecs[-1]))
    r = r / np.trace(r)
    m.close(ref.lindblad_rhs(r, H, cs, gs), np.zeros((d, d)), 'the last eigenvector is the stationary state', tol=1e-6)
    m.close(r, r.conj().T, 'stationary state is Hermitian', tol=1e-6)
    E = qt.LiouvillianExp(w(H), 60.0, [w(c) for c in cs], gs)
    r1 = ref.unvec(arr(E) @ ref.vec(ref.rho(rng, d)))
    m.close(r1, r, 'long evolution converges to the stationary state', tol=1e-4)
    m.sig('S', d, sparse)
    m.sample = {'d': d, 'rates': gs}


def heat(rng, m):
    d = int(rng.integers(2, 5))
    sparse = bool(rng.integers(2))
    w = (lambda x: sp.csc_matrix(x)) if sparse else (lambda x: np.array(x))
    H, c, r = ref.anyherm(rng, d), ref.anymat(rng, d), ref.rho(rng, d)
    D = qt.dissipator(w(c))
    got = qt.HeatCurrent(D, w(H), w(r))
    want = np.trace(ref.lindblad_rhs(r, None, [c], [1.0]) @ H)
    m.check(abs(got - want.real) < 1e-8 * max(1, abs(want)), 'HeatCurrent = Tr(L(rho) H)', (got, want))
    m.sig('heat', d, sparse)
    m.sample = {'d': d}


FAMILIES = [('superop', superop, 120, 6000), ('liouvillian', liouvillian, 800, 16000, 40), ('propagator', propagator, 600, 10000, 30),
            ('evolve', evolve, 600, 10000, 30), ('steady', steady, 120, 1600, 20), ('heat', heat, 160, 1200, 40)]
MIN_EVENTS = {'callbacks': 100}
