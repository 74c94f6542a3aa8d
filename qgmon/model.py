"""Independent reference model of QuanGuru's object layer: a plain tree of systems and terms with explicit dense matrices.

Nothing here calls into QuanGuru except `build`/mutators, which drive the real object through its public interface while the
plain mirror is edited in parallel."""
import numpy as np
import quanguru as qg
import quanguru.QuantumToolbox as qt

from . import ref

SPIN = {'Jx', 'Jy', 'Jz', 'Jp', 'Jm', 'Js'}
PAULI = {'sigmax', 'sigmay', 'sigmaz', 'sigmap', 'sigmam'}
BOSON = {'number', 'create', 'destroy'}
PM = {'sigmax': np.array([[0, 1], [1, 0]], complex), 'sigmay': np.array([[0, -1j], [1j, 0]]),
      'sigmaz': np.diag([1, -1]).astype(complex), 'sigmap': np.array([[0, 1], [0, 0]], complex),
      'sigmam': np.array([[0, 0], [1, 0]], complex)}


def lib_op(name):
    return getattr(qt, name)


def opmat(name, dim):
    """Dense matrix of a named operator on a system of this dimension."""
    if name in PM:
        return PM[name]
    return {'number': ref.number, 'create': ref.create, 'destroy': ref.destroy, 'identity': lambda d: np.eye(d, dtype=complex),
            'Jx': ref.jx, 'Jy': ref.jy, 'Jz': ref.jz, 'Jp': ref.jp, 'Jm': ref.jm, 'Js': ref.js}[name](dim)


class MTerm:
    """One term: frequency * product over (system, operator, power)."""

    def __init__(self, owner, factors, freq, lib=None, single=True):
        self.owner, self.factors, self.freq, self.lib, self.single = owner, [list(f) for f in factors], freq, lib, single
        self.td = None           # function of time giving the frequency (time-dependent terms)
        self.parts = None        # for compound terms: list of MTerm summed, sharing this frequency

    def matrix(self, pos, D, freq=None):
        f = self.freq if freq is None else freq
        if self.parts is not None:
            return f * sum(p.matrix(pos, D, 1) for p in self.parts)
        out = np.eye(D, dtype=complex)
        for s, name, power in self.factors:
            b, d, a = pos[id(s)]
            out = out @ ref.embed(np.linalg.matrix_power(opmat(name, d), power), b, a)
        return f * out

    def uses(self, s):
        fs = self.factors if self.parts is None else [x for p in self.parts for x in p.factors]
        return any(f[0] is s for f in fs)


class MSys:
    def __init__(self, kind, dim=None, subs=(), lib=None):
        self.kind, self.dim, self.lib = kind, dim, lib
        self.subs = []
        self.terms = []
        self.parent = None
        self.inp = None
        self.amp = False
        for s in subs:
            self.attach(s)

    # -- structure
    @property
    def comp(self):
        return self.kind == 'comp'

    def attach(self, s):
        s.parent = self
        self.subs.append(s)

    def detach(self, s):
        """Remove s from self, and every coupling above that involves s or anything in it."""
        gone = list(s.walk())
        self.subs = [x for x in self.subs if x is not s]
        s.parent = None
        p = self
        while p is not None:
            p.terms = [t for t in p.terms if not (not t.single and any(t.uses(g) for g in gone))]
            p = p.parent

    def walk(self):
        yield self
        for s in self.subs:
            yield from s.walk()

    def leaves(self):
        return [s for s in self.walk() if not s.comp]

    def root(self):
        return self if self.parent is None else self.parent.root()

    def dimension(self):
        if self.comp:
            d = 1
            for s in self.subs:
                d *= s.dimension()
            return d
        return self.dim

    def positions(self):
        """{id(system): (dims before, dim, dims after)} inside the root."""
        r = self.root()
        D = r.dimension()
        pos = {}

        def go(s, before):
            d = s.dimension()
            pos[id(s)] = (before, d, D // (before * d))
            for x in s.subs:
                go(x, before)
                before *= x.dimension()
        go(r, 1)
        return pos, D

    def terms_below(self):
        for s in self.walk():
            yield from s.terms

    # -- physics
    def H(self, time=None):
        pos, D = self.positions()
        h = np.zeros((D, D), dtype=complex)
        for t in self.terms_below():
            if any(t in (c.parts or ()) for c in self.terms_below()):
                continue
            h = h + t.matrix(pos, D, t.td(time) if (t.td is not None and time is not None) else None)
        return h

    def ket(self):
        """Reference initial state (column) in the system's own space."""
        if self.comp:
            return ref.kron(*[s.ket() for s in self.subs])
        return ket_of(self.inp, self.dim, self.amp)

    def describe(self):
        if self.comp:
            return '(' + ' '.join(s.describe() for s in self.subs) + ')'
        return f'{self.kind}{self.dim}'


def ket_of(inp, dim, amp=False):
    if isinstance(inp, np.ndarray):
        return inp.astype(complex).reshape(dim, -1)
    v = np.zeros((dim, 1), dtype=complex)
    if isinstance(inp, dict):
        for k, w in inp.items():
            v[k, 0] += w if amp else np.sqrt(w)
    elif isinstance(inp, (list, tuple)):
        for k in inp:
            v[k, 0] += 1
    else:
        v[inp, 0] = 1
    return v / np.linalg.norm(v)


# ---------------------------------------------------------------- random generation
def tail(rng, lo, hi, far, p=.06):
    """An integer of [lo, hi), now and then one of [hi, far): most cases are small, some are not."""
    return int(rng.integers(lo, hi)) if rng.random() >= p else int(rng.integers(hi, far))


def rfreq(rng, nonzero=True):
    k = int(rng.integers(8))
    if k == 0:
        return int(rng.integers(1, 4))
    if k == 5:              # orders of magnitude away from the others
        return float(10 ** rng.uniform(-5, -2)) if rng.random() < .6 else float(rng.uniform(5, 20))
    if k == 1:
        return -float(rng.uniform(.1, 2))
    if k == 2 and not nonzero:
        return 0 if rng.random() < .5 else 0.0
    if k == 3:
        return np.float64(rng.uniform(.1, 2))
    return float(rng.uniform(.1, 2))


def ops_for(kind, dim, hermitian=False):
    if hermitian:
        o = ['number', 'Jx', 'Jy', 'Jz'] if kind != 'sys' else ['number', 'Jx', 'Jz']
        return o + (['sigmax', 'sigmay', 'sigmaz'] if dim == 2 else [])
    o = ['number', 'create', 'destroy'] if kind == 'cavity' else ['Jx', 'Jy', 'Jz', 'Jp', 'Jm'] if kind in ('spin', 'qubit') \
        else ['number', 'create', 'destroy', 'Jx', 'Jz']
    if dim == 2:
        o = o + ['sigmax', 'sigmay', 'sigmaz', 'sigmap', 'sigmam']
    return o


def build_leaf(rng, kind=None, dim=None, maxdim=4, hermitian=True, freq=None):
    kind = kind or ['sys', 'cavity', 'spin', 'qubit'][int(rng.integers(4))]
    dim = 2 if kind == 'qubit' else dim or (tail(rng, 2, maxdim + 1, 10) if maxdim > 2 else 2)
    freq = rfreq(rng) if freq is None else freq
    how = int(rng.integers(3))
    amp = rng.random() < .12
    co = {'_inpCoef': True} if amp and rng.random() < .5 else {}
    if kind == 'qubit':
        lib = qg.Qubit(frequency=freq, **co)
        op = 'Jz'
    elif kind == 'cavity':
        lib = qg.Cavity(dimension=dim, frequency=freq, **co)
        op = 'number'
    elif kind == 'spin':
        if how == 0:
            lib = qg.Spin(jValue=(dim - 1) / 2, frequency=freq, **co)
        else:
            lib = qg.Spin(dimension=dim, frequency=freq, **co)
        op = 'Jz'
    else:
        op = ops_for('sys', dim, hermitian)[int(rng.integers(len(ops_for('sys', dim, hermitian))))]
        if op in PAULI or how == 0:
            lib = qg.QuantumSystem(dimension=dim, operator=lib_op(op), frequency=freq, **co)
        else:
            lib = qg.QuantumSystem(operator=lib_op(op), frequency=freq, dimension=dim, **co)
    if amp and not co:
        lib._inpCoef = True
    s = MSys(kind, dim, lib=lib)
    s.amp = amp
    s.terms.append(MTerm(s, [(s, op, 1)], freq, lib=lib._firstTerm))
    return s


def build_tree(rng, maxdim=4, maxD=36, nleaf=None, nest=.35, hermitian=True):
    """Random single or (nested) composite system; returns the mirror root."""
    nleaf = nleaf or int(rng.integers(1, 5))
    if maxD > 12 and rng.random() < .05:      # many small systems
        nleaf, maxdim, maxD = int(rng.integers(4, 7)), 2, max(maxD, 64)
    leaves, D = [], 1
    for _ in range(nleaf):
        s = build_leaf(rng, maxdim=maxdim, hermitian=hermitian)
        if leaves and D * s.dim > maxD:
            break
        D *= s.dim
        leaves.append(s)
    if len(leaves) == 1:
        return leaves[0]
    return compose(rng, leaves, nest)


def compose(rng, items, nest=.35):
    groups, i = [], 0
    while i < len(items):
        if rng.random() < nest and len(items) - i >= 2 and len(items) > 2:
            k = int(rng.integers(2, len(items) - i + 1))
            if k == len(items):
                k -= 1
            groups.append(compose(rng, items[i:i + k], nest / 2))
            i += k
        else:
            groups.append(items[i])
            i += 1
    if len(groups) == 1:
        return groups[0]
    m = MSys('comp', subs=groups)
    how = int(rng.integers(4))
    if how == 0:
        m.lib = qg.QuantumSystem(subSys=[g.lib for g in groups])
    elif how == 1:
        m.lib = qg.QuantumSystem()
        for g in groups:
            m.lib.addSubSys(g.lib if rng.random() < .7 else str(g.lib.name))
    elif how == 2 and not any(g.comp for g in groups):
        acc = groups[0].lib
        for g in groups[1:]:
            acc = acc + g.lib
        m.lib = acc
    else:
        m.lib = qg.QuantumSystem()
        m.lib.addSubSys([g.lib for g in groups])
    return m


def add_single_term(rng, s, hermitian=True, freq=None):
    names = ops_for(s.kind, s.dim, hermitian)
    name = names[int(rng.integers(len(names)))]
    order = 1 if rng.random() < .6 else tail(rng, 2, 4, 7)
    freq = rfreq(rng, nonzero=False) if freq is None else freq
    twins = [t for t in s.terms if len(t.factors) == 1 and t.factors[0][0] is s and t.factors[0][1] in names]
    if twins and rng.random() < .2:             # the same operator once more, the same frequency too now and then
        t = twins[int(rng.integers(len(twins)))]
        name, order = t.factors[0][1], t.factors[0][2]
        freq = t.freq if rng.random() < .6 else freq
    kw = {}
    if order != 1 or rng.random() < .3:
        kw['order'] = order
    how = int(rng.integers(3))
    if how == 0:
        lib = s.lib.createTerm(operator=lib_op(name), frequency=freq, **kw)
    elif how == 1 and s.parent is not None:
        lib = s.root().lib.createTerm(qSystem=s.lib, operator=lib_op(name), frequency=freq, **kw)
    else:
        lib = qg.QTerm(qSystem=s.lib, operator=lib_op(name), frequency=freq, **kw)
        s.lib.addTerms(lib)
    t = MTerm(s, [(s, name, order)], freq, lib=lib)
    s.terms.append(t)
    return t


def add_coupling(rng, c, hermitian=True, freq=None):
    """Coupling on composite c between 2-3 of the systems below it."""
    cand = [x for x in c.walk() if not x.comp]
    k = min(len(cand), 2 if rng.random() < .75 else 3)
    idx = [int(i) for i in rng.choice(len(cand), k, replace=False)]
    facs = []
    for i in idx:
        names = ops_for(cand[i].kind, cand[i].dim, hermitian)
        facs.append([cand[i], names[int(rng.integers(len(names)))], 1])
    kw = {}
    if rng.random() < .3:
        for f in facs:
            f[2] = int(rng.integers(1, 3))
        kw['order'] = [f[2] for f in facs]
    freq = rfreq(rng) if freq is None else freq
    twins = [t for t in c.terms if len(t.factors) > 1]
    if twins and rng.random() < .12:
        t = twins[int(rng.integers(len(twins)))]
        if all(f[1] in ops_for(f[0].kind, f[0].dim, hermitian) for f in t.factors):
            facs, kw = [list(f) for f in t.factors], {'order': [f[2] for f in t.factors]}
            freq = t.freq if rng.random() < .6 else freq
    libs = [f[0].lib if rng.random() < .7 else str(f[0].lib.name) for f in facs]
    lib = c.lib.createTerm(qSystem=libs if rng.random() < .7 else tuple(libs), operator=[lib_op(f[1]) for f in facs],
                           frequency=freq, **kw)
    t = MTerm(c, facs, freq, lib=lib, single=False)
    c.terms.append(t)
    return t


def weights(rng, ks, amps=False):
    """Populations, or amplitudes where the system takes those."""
    if amps:
        return {x: (complex(*rng.uniform(-1, 1, 2)) or 1j) if rng.random() < .7 else float(rng.uniform(.1, 1)) * (-1) ** int(rng.integers(2)) for x in ks}
    return {x: float(rng.uniform(.1, 1)) for x in ks}


def rand_input(rng, dim, amps=False):
    """A random single-system initial-state input of the accepted kinds."""
    k = int(rng.integers(5))
    if k == 0 or dim == 1:
        return int(rng.integers(dim))
    n = int(rng.integers(1, dim + 1))
    ks = [int(x) for x in rng.choice(dim, n, replace=False)]
    if k == 1:
        return ks
    if k == 2:
        return weights(rng, ks, amps)
    if k == 3:
        v = ref.ket(rng, dim)
        return v
    return int(rng.integers(dim))


def set_initial(rng, s, how=None):
    """Give the whole tree an initial state through the library and mirror it."""
    if not s.comp:
        s.inp = rand_input(rng, s.dim, s.amp)
        s.lib.initialState = s.inp
        return
    how = int(rng.integers(2)) if how is None else how
    if how == 0:
        for x in s.leaves():
            x.inp = rand_input(rng, x.dim, x.amp)
            x.lib.initialState = x.inp
    else:
        def inputs(c):
            out = []
            for x in c.subs:
                if x.comp:
                    out.append(inputs(x))
                else:
                    x.inp = rand_input(rng, x.dim, x.amp)
                    out.append(x.inp)
            return out
        s.lib.initialState = inputs(s)


# ---------------------------------------------------------------- edits applied to library and mirror alike
def pauli_locked(s):
    """A Pauli operator acts on s somewhere, so its dimension has to stay 2."""
    return any(f[0] is s and f[1] in PAULI for t in s.root().terms_below()
               for f in (t.factors if t.parts is None else [x for p in t.parts for x in p.factors]))


def edit_frequency(rng, root, m, value=None):
    ts = [t for t in root.terms_below()]
    t = ts[int(rng.integers(len(ts)))]
    f = rfreq(rng, nonzero=False) if value is None else value
    if value is None and rng.random() < .15:    # the value it has, or that of another term
        f = (t if rng.random() < .4 else ts[int(rng.integers(len(ts)))]).freq
    elif value is None and rng.random() < .2 and not isinstance(t.freq, complex):        # hardly different
        f = float(t.freq) + float(10 ** rng.uniform(-6.5, -2.5)) * (1 if rng.random() < .5 else -1)
        m.ev('edit:tiny')
    if t.single and t.owner.terms[0] is t and rng.random() < .6:
        t.owner.lib.frequency = f
        via = 'system'
    else:
        t.lib.frequency = f
        via = 'term'
    t.freq = f
    for p in t.parts or ():
        p.freq = f
    m.note('frequency', via, t.owner.lib.name, f)
    m.ev('edit:frequency')


def edit_order(rng, root, m):
    ts = [t for t in root.terms_below() if t.parts is None]
    t = ts[int(rng.integers(len(ts)))]
    if t.single:
        o = tail(rng, 1, 4, 7)
        if t.owner.terms[0] is t and rng.random() < .5:
            t.owner.lib.order = o
        else:
            t.lib.order = o
        t.factors[0][2] = o
    else:
        o = [int(rng.integers(1, 3)) for _ in t.factors]
        t.lib.order = list(o)
        for f, x in zip(t.factors, o):
            f[2] = x
    m.note('order', t.owner.lib.name, o)
    m.ev('edit:order')


def edit_operator(rng, root, m, hermitian=True):
    ts = [t for t in root.terms_below() if t.parts is None]
    t = ts[int(rng.integers(len(ts)))]
    names = []
    for f in t.factors:
        o = ops_for(f[0].kind, f[0].dimension(), hermitian)
        names.append(o[int(rng.integers(len(o)))])
    if t.single:
        if t.owner.terms[0] is t and rng.random() < .5:
            t.owner.lib.operator = lib_op(names[0])
        else:
            t.lib.operator = lib_op(names[0])
    else:
        t.lib.operator = [lib_op(n) for n in names]
    for f, n in zip(t.factors, names):
        f[1] = n
    m.note('operator', t.owner.lib.name, names)
    m.ev('edit:operator')


def edit_retarget(rng, root, m):
    """Point an existing coupling at other systems."""
    ts = [t for t in root.terms_below() if not t.single and t.parts is None]
    if not ts:
        return
    t = ts[int(rng.integers(len(ts)))]
    cand = [x for x in t.owner.walk() if not x.comp]
    idx = [int(i) for i in rng.choice(len(cand), 2, replace=False)]
    facs = []
    for i in idx:
        o = ops_for(cand[i].kind, cand[i].dim, True)
        facs.append([cand[i], o[int(rng.integers(len(o)))], 1])
    t.lib.qSystem = [f[0].lib for f in facs]
    t.lib.operator = [lib_op(f[1]) for f in facs]
    t.factors = facs
    m.note('retarget', [str(f[0].lib.name) for f in facs])
    m.ev('edit:retarget')


def edit_dimension(rng, root, m, maxD=60):
    ls = [s for s in root.leaves() if s.kind != 'qubit' and s.terms and not pauli_locked(s)]
    if not ls:
        return
    s = ls[int(rng.integers(len(ls)))]
    d = tail(rng, 2, 6, 13)
    if root.root().dimension() // s.dim * d > maxD:
        d = 2
    if s.kind == 'spin' and rng.random() < .5:
        s.lib.jValue = (d - 1) / 2
    else:
        s.lib.dimension = d if rng.random() < .8 else np.int64(d)
    s.dim = d
    m.note('dimension', s.lib.name, d)
    m.ev('edit:dimension')


def edit_addterm(rng, root, m):
    comps = [s for s in root.walk() if s.comp and len(s.leaves()) > 1]
    if comps and rng.random() < .5:
        t = add_coupling(rng, comps[int(rng.integers(len(comps)))])
    else:
        ls = root.leaves()
        t = add_single_term(rng, ls[int(rng.integers(len(ls)))])
    m.note('addterm', t.owner.lib.name, [(str(f[0].lib.name), f[1], f[2]) for f in t.factors], t.freq)
    m.ev('edit:addterm')


def edit_replaceterms(rng, root, m):
    """The terms of one system are replaced by some of them, in another order, and new ones."""
    compound = [id(p) for c in root.terms_below() for p in [c, *(c.parts or ())] if c.parts]
    own = [s for s in root.walk() if s.terms and not any(id(t) in compound or t.td is not None for t in s.terms)]
    own = [s for s in own if s.comp or all(len(t.factors) == 1 and t.factors[0][0] is s for t in s.terms)]
    if not own:
        return
    s = own[int(rng.integers(len(own)))]
    old = list(s.terms)
    keep = [old[int(i)] for i in rng.permutation(len(old))[:int(rng.integers(len(old) + 1))]]
    if not s.comp and (rng.random() < .5 or not keep):
        names, f = ops_for(s.kind, s.dim, True), rfreq(rng, nonzero=False)
        name = names[int(rng.integers(len(names)))]
        lib = qg.QTerm(qSystem=s.lib, operator=lib_op(name), frequency=f)
        keep.insert(int(rng.integers(len(keep) + 1)), MTerm(s, [(s, name, 1)], f, lib=lib))
    libs = [t.lib if rng.random() < .7 else str(t.lib.name) for t in keep]
    if libs and rng.random() < .6:
        s.lib.terms = libs[0] if len(libs) == 1 and rng.random() < .5 else libs
    else:
        s.lib.resetTerms()
        for t in libs:
            s.lib.addTerms(t)
    s.terms = keep
    m.note('replace terms', s.lib.name, [str(t.lib.name) for t in keep])
    m.ev('edit:replaceterms')


def edit_removeterm(rng, root, m):
    if rng.random() < .2:
        return edit_replaceterms(rng, root, m)
    ts = [t for t in root.terms_below() if (not t.single or len(t.owner.terms) > 1)
          and not any(t in (c.parts or ()) for c in root.terms_below())]
    if not ts:
        return
    t = ts[int(rng.integers(len(ts)))]
    nodes = list(root.root().walk())
    via = [t.owner, root, nodes[int(rng.integers(len(nodes)))]][int(rng.integers(3))]
    via.lib.removeTerm(t.lib if rng.random() < .6 else str(t.lib.name))
    t.owner.terms.remove(t)
    m.note('removeterm', t.owner.lib.name, 'via', via.lib.name)
    m.ev('edit:removeterm')


def compare_h(m, s, what, tol=1e-9):
    got = s.lib.totalHamiltonian
    want = s.H()
    if np.ndim(got) == 0 and got == 0:
        got = np.zeros_like(want)
    return m.close(got, want, what, tol=tol)
