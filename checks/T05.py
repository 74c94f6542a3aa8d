"""T05: tensor products, partial traces, traces, inner/outer products obey their algebraic definitions."""
import numpy as np
import scipy.sparse as sp
import quanguru.QuantumToolbox as qt
from qgmon import ref
from qgmon.core import arr

RULE = ('Random operators, kets and density matrices on 1-5 subsystems of unequal dimensions (dense, csc and csr storage, '
        'integer identities); results are compared with explicit index sums. Non-trivial: at least two subsystems of '
        'different dimension, a proper subset kept.')


def wrap(rng, x):
    k = int(rng.integers(3))
    return np.array(x) if k == 0 else sp.csc_matrix(x) if k == 1 else sp.csr_matrix(x)


def tensor(rng, m):
    n = int(rng.integers(1, 5))
    ms, ws, shapes = [], [], []
    for i in range(n):
        r, c = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        # integer arguments mean identities of that dimension (leading or interleaved)
        if rng.random() < .25 and n > 1:
            r = c = int(rng.integers(1, 5))
            ms.append(np.eye(r))
            ws.append(r if rng.random() < .6 else np.int64(r))
            shapes.append('I%d' % r)
        else:
            a = ref.cmat(rng, r, c)
            ms.append(a)
            ws.append(wrap(rng, a))
            shapes.append((r, c))
    got = qt.tensorProd(*ws)
    if not (n == 1 and isinstance(ws[0], (int, np.integer))):
        m.close(got, ref.kron(*ms), 'tensorProd is the ordered Kronecker product', tol=1e-12)
    # mixed-product rule through the library's own calls
    ds = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(2, 4)))]
    A = [ref.anymat(rng, d) for d in ds]
    B = [ref.anymat(rng, d) for d in ds]
    lhs = arr(qt.tensorProd(*[wrap(rng, x) for x in A])) @ arr(qt.tensorProd(*[wrap(rng, x) for x in B]))
    m.close(lhs, arr(qt.tensorProd(*[wrap(rng, a @ b) for a, b in zip(A, B)])),
            'mixed product rule (A(x)B)(C(x)D) = AC(x)BD', tol=1e-10)
    t = qt.trace(qt.tensorProd(*[wrap(rng, x) for x in A]))
    m.close(t, np.prod([np.trace(a) for a in A]), 'Tr(A (x) B) = Tr A Tr B', tol=1e-10)
    if n > 1:
        m.sig('tensor', tuple(map(str, shapes)))
    m.sample = {'shapes': str(shapes)}


def ptrace(rng, m):
    many = rng.random() < .2     # many small subsystems, some of them trivial
    n = int(rng.integers(6, 11)) if many else int(rng.integers(1, 6))
    while True:
        dims = [int(rng.integers(1, 3)) if many else int(rng.integers(1, 5)) for _ in range(n)]
        if np.prod(dims) <= (128 if many else 48):
            break
    D = int(np.prod(dims))
    k = int(rng.integers(1, n + 1))
    keep = sorted(int(x) for x in rng.choice(n, k, replace=False))
    kind = int(rng.integers(3))
    if kind == 0 and D > 1:
        v = ref.ket(rng, D)
        r, inp = v @ v.conj().T, wrap(rng, v)
    elif kind == 1:
        r = ref.rho(rng, D)
        inp = wrap(rng, r)
    else:
        r = ref.anymat(rng, D)
        inp = wrap(rng, r)
    kk = np.array(keep) if rng.random() < .4 else list(keep)
    dd = np.array(dims) if rng.random() < .4 else list(dims)
    want = ref.ptrace(r, dims, keep)
    got = qt.partialTrace(kk, dd, inp)
    m.close(got, want, 'partialTrace equals the explicit basis sum', tol=1e-10)
    m.close(np.trace(arr(got)), np.trace(r), 'partialTrace preserves the trace', tol=1e-10)
    if len(keep) > 1:
        mixed = [keep[int(i)] for i in rng.permutation(len(keep))]
        m.close(qt.partialTrace(mixed, dims, inp), want, 'kept subsystems stay in the order of the tensor product', tol=1e-10)
        # tracing in two stages gives the same state
        sub = sorted(int(x) for x in rng.choice(len(keep), int(rng.integers(1, len(keep))), replace=False))
        two = qt.partialTrace(sub, [dims[i] for i in keep], got)
        one = qt.partialTrace([keep[i] for i in sub], dims, inp)
        m.close(two, one, 'tracing out in stages agrees with tracing out at once', tol=1e-10)
    # product states reduce to their factors
    fs = [ref.rho(rng, d) for d in dims]
    got = qt.partialTrace(keep, dims, wrap(rng, ref.kron(*fs)))
    m.close(got, ref.kron(*[fs[i] for i in keep]), 'partialTrace of a product state gives the kept factors', tol=1e-10)
    if 1 < n and k < n:
        m.sig('ptrace', tuple(dims), tuple(keep), kind)
    m.sample = {'dims': dims, 'keep': keep, 'kind': kind}


def products(rng, m):
    d = int(rng.integers(1, 9))
    e = int(rng.integers(1, 9))
    a, b = ref.cmat(rng, d, 1), ref.cmat(rng, d, 1)
    wa, wb = wrap(rng, a), wrap(rng, b)
    ip = np.vdot(b, a)
    m.close(qt.innerProd(wa, wb), ip, 'innerProd(a, b) = <b|a>', tol=1e-10)
    m.close(qt.innerProd(wa), np.vdot(a, a), 'innerProd(a) = <a|a>', tol=1e-10)
    m.close(np.conj(qt.innerProd(wb, wa)), ip, 'inner product is conjugate symmetric', tol=1e-10)
    m.close(qt.norm(wa), np.linalg.norm(a), 'norm is the 2-norm', tol=1e-10)
    c = ref.cmat(rng, e, 1)
    wc = wrap(rng, c)
    m.close(qt.outerProd(wa, wc), np.outer(a, c.conj()), 'outerProd(a, c) = |a><c|', tol=1e-10)
    m.close(qt.outerProd(wa), np.outer(a, a.conj()), 'outerProd(a) = |a><a|', tol=1e-10)
    x, y = ref.cmat(rng, d, e), ref.cmat(rng, e, d)
    m.close(qt.hc(wrap(rng, x)), x.conj().T, 'hc is the conjugate transpose', tol=1e-14)
    m.close(qt.hc(qt.hc(wrap(rng, x))), x, 'hc is an involution', tol=1e-14)
    m.close(qt.trace(wrap(rng, x @ y)), np.trace(y @ x), 'trace is cyclic', tol=1e-10)
    # helpers
    z = ref.anymat(rng, d)
    p = int(rng.integers(1, 6))
    m.close(qt._matPower(wrap(rng, z), p), np.linalg.matrix_power(z, p), '_matPower', tol=1e-10)
    ms = [ref.anymat(rng, d) for _ in range(int(rng.integers(1, 5)))]
    w = ms[0]
    for q in ms[1:]:
        w = w @ q
    m.close(qt._matMulInputs(*[wrap(rng, q) for q in ms]), w, '_matMulInputs multiplies left to right', tol=1e-10)
    m.close(qt.operatorPow(qt.destroy, d + 1, p), np.linalg.matrix_power(ref.destroy(d + 1), p), 'operatorPow', tol=1e-9)
    if d > 1:
        m.sig('prod', d, e, p, type(wa).__name__, type(wb).__name__)
    m.sample = {'d': d, 'e': e}


def embed(rng, m):
    """compositeOp: identities on the other side, in the right order."""
    d, db, da = int(rng.integers(1, 5)), int(rng.integers(0, 5)), int(rng.integers(0, 5))
    a = ref.anymat(rng, d)
    got = qt.compositeOp(wrap(rng, a), *((db, da) if rng.random() < .6 else (np.int64(db), np.int64(da))))
    m.close(got, ref.embed(a, max(db, 1), max(da, 1)), 'compositeOp = 1 (x) A (x) 1', tol=1e-12)
    m.close(qt.compositeOp(wrap(rng, a), dimB=db), ref.embed(a, max(db, 1), 1), 'compositeOp, only before', tol=1e-12)
    m.close(qt.compositeOp(wrap(rng, a), dimA=da), ref.embed(a, 1, max(da, 1)), 'compositeOp, only after', tol=1e-12)
    m.sig('embed', d, db, da)
    m.sample = {'d': d, 'before': db, 'after': da}


FAMILIES = [('tensor', tensor, 1200, 16000, 80), ('ptrace', ptrace, 1200, 16000, 60), ('products', products, 1200, 16000, 80),
            ('embed', embed, 450, 2400, 60)]
