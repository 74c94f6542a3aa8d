"""C16: the standard light-matter couplings are what they are named after, wherever and between whatever they are made."""
import numpy as np
import quanguru as qg
from qgmon import model as M
from qgmon import ref
from qgmon.core import Abort, Skip, arr

RULE = ('Random (nested) composites of cavities, qubits, spins and other systems are given JC, Rabi and Dicke couplings between a cavity and a qubit or spin '
        '(with Jz or a number operator; named in either order, or none named), several on one composite, and then edited: coupling strength (by hand and by sweep), dimensions, frequencies, '
        'members added and removed, coupled systems removed, couplings removed. After every edit the Hamiltonian of the whole and of a part is compared with '
        'the dense sum; propagators and swept evolutions use it too. Signature: coupling kinds, shape, edits.')
MIN_EVENTS = {'couple': 60, 'strength': 20, 'uncouple': 5, 'swept': 5, 'member': 10, 'excitations': 10}
OPS = {'JC': ('Jp', 'Jm'), 'Rabi': ('sigmax', 'sigmax'), 'Dicke': ('Jx', 'Jx')}


MATTER = ('qubit', 'spin')


def world(rng):
    ks = ['cavity', ['qubit', 'spin'][int(rng.integers(2))]]
    for _ in range(int(rng.integers(0, 3))):
        ks.append(['cavity', 'qubit', 'spin', 'sys'][int(rng.integers(4))])
    ks = [ks[int(i)] for i in rng.permutation(len(ks))]
    while True:
        dims = [2 if k == 'qubit' else int(rng.integers(2, 5)) for k in ks]
        if np.prod(dims) <= 40:
            break
    leaves = [M.build_leaf(rng, kind=k, dim=d) for k, d in zip(ks, dims)]
    for s in leaves:
        if s.kind in MATTER and rng.random() < .15:        # counts its excitations as a cavity does
            s.lib.operator = M.lib_op('number')
            t = s.terms[0]
            t.factors = [(s, 'number', t.factors[0][2])]
    return M.compose(rng, leaves, .35 if len(leaves) > 2 else 0), MATTER


def couple(rng, m, root, mat):
    comps = [c for c in root.walk() if c.comp and 'cavity' in {x.kind for x in c.leaves()} and set(mat) & {x.kind for x in c.leaves()}]
    if not comps:
        return None
    c = comps[int(rng.integers(len(comps)))]
    cav = [x for x in c.leaves() if x.kind == 'cavity']
    qub = [x for x in c.leaves() if x.kind in mat]
    a, b = cav[int(rng.integers(len(cav)))], qub[int(rng.integers(len(qub)))]
    how = int(rng.integers(4))
    direct = [x for x in c.subs if x.kind in ('cavity', *mat)]
    if how == 3 and 1 <= sum(x.kind == 'cavity' for x in direct) < len(direct):
        a = [x for x in direct if x.kind == 'cavity'][0]
        b = [x for x in direct if x.kind in mat][0]
    elif how == 3:
        how = 0
    if b.lib.operator is M.lib_op('number'):
        names = ['JC']
    elif b.lib.operator not in (M.lib_op('Jz'), M.lib_op('sigmaz')):
        return None
    else:
        names = ['JC', 'Dicke'] + (['Rabi'] if b.dim == 2 else [])
    name = names[int(rng.integers(len(names)))]
    g = M.rfreq(rng)
    f = getattr(c.lib, name)
    lib = f(g, a.lib, b.lib) if how == 0 else f(g, b.lib, a.lib) if how == 1 else f(g, subSys2=a.lib, subSys1=b.lib) if how == 2 else f(g)
    parts = [M.MTerm(c, [(a, x, 1), (b, y, 1)], g, single=False) for x, y in zip(('destroy', 'create'), ('create', 'destroy') if b.lib.operator is M.lib_op('number') else OPS[name])]
    if b.lib.operator is M.lib_op('number'):
        m.ev('excitations')
    t = M.MTerm(c, [], g, lib=lib, single=False)
    t.parts = parts
    c.terms.append(t)
    m.ev('couple')
    m.note(name, 'on', c.describe(), str(a.lib.name), str(b.lib.name), how, g)
    return t, name


def audit(rng, m, root):
    nodes = list(root.walk())
    ok = M.compare_h(m, root, 'Hamiltonian with standard couplings')
    ok = M.compare_h(m, nodes[int(rng.integers(len(nodes)))], 'Hamiltonian of a part with standard couplings') and ok
    if ok and root.dimension() <= 48 and rng.random() < .3:
        dt = float(rng.uniform(.1, .9))
        root.lib.simStepSize = dt
        ok = m.close(root.lib.unitary(), ref.U(root.H(), dt), 'propagator with standard couplings', tol=1e-7)
    if not ok:
        raise Abort


def couplings(root):
    return [t for t in root.terms_below() if t.parts is not None]


def swept(rng, m, root):
    """The strength of a coupling swept in a simulation."""
    ts = couplings(root)
    if not ts or root.dimension() > 48:
        return
    t = ts[int(rng.integers(len(ts)))]
    vals = [float(x) for x in rng.uniform(-1, 1, size=int(rng.integers(2, 5)))]
    old = t.freq
    M.set_initial(rng, root)
    k0 = root.ket()
    dt, n = float(rng.uniform(.1, .5)), int(rng.integers(1, 4))
    root.lib.simStepSize = dt
    sim = qg.Simulation(root.lib)
    sim.stepSize, sim.totalTime = dt, (n + .5) * dt
    sim.Sweep.createSweep(system=t.lib, sweepKey='frequency', sweepList=vals)
    sim.delStates = False
    seen = []
    sim.compute = lambda s, st: seen.append(arr(st[0]))
    sim.run()
    t.freq, i = old, 0
    for v in vals:
        t.freq = v
        u = ref.U(root.H(), dt)
        k = k0
        for _ in range(n + 2):
            if i >= len(seen) or not m.close(seen[i], k, 'state of a point of a coupling-strength sweep', tol=1e-7):
                m.check(i < len(seen), 'every point of a coupling-strength sweep is evolved')
                raise Abort
            k, i = u @ k, i + 1
    m.eq(len(seen), i, 'states of a coupling-strength sweep')
    for p in t.parts:
        p.freq = t.freq
    m.check(t.lib.frequency == vals[-1], 'the swept strength keeps its last value')
    m.ev('swept')


def history(rng, m):
    root, mat = world(rng)
    loose, kinds = [], []
    for _ in range(int(rng.integers(1, 3))):
        r = couple(rng, m, root, mat)
        if r:
            kinds.append(r[1])
    audit(rng, m, root)
    if not couplings(root):
        raise Skip
    n = int(rng.integers(3, 10))
    for _ in range(n):
        k = int(rng.integers(11))
        ts = couplings(root)
        if k <= 2 and ts:
            t = ts[int(rng.integers(len(ts)))]
            g = M.rfreq(rng, nonzero=False)
            t.lib.frequency = g
            t.freq = g
            m.ev('strength')
            m.note('strength', g)
            kinds.append('g')
        elif k == 3:
            M.edit_dimension(rng, root, m)
            kinds.append('d')
        elif k == 4:
            ls = root.leaves()
            s = ls[int(rng.integers(len(ls)))]
            if s.terms:
                s.terms[0].freq = s.lib.frequency = M.rfreq(rng)
            kinds.append('f')
        elif k == 5:
            r = couple(rng, m, root, mat)
            if r:
                kinds.append(r[1])
        elif k == 6 and ts and rng.random() < .6:
            t = ts[int(rng.integers(len(ts)))]
            nodes = list(root.walk())
            via = nodes[int(rng.integers(len(nodes)))]
            via.lib.removeTerm(t.lib if rng.random() < .6 else str(t.lib.name))
            t.owner.terms.remove(t)
            m.ev('uncouple')
            m.note('uncouple', 'via', via.lib.name)
            kinds.append('u')
        elif k == 7:
            cands = [s for s in root.walk() if s is not root and len(s.parent.subs) > 1]
            if not cands:
                continue
            s = cands[int(rng.integers(len(cands)))]
            s.parent.lib.removeSubSys(s.lib)
            m.note('remove', s.describe())
            s.parent.detach(s)
            loose.append(s)
            m.ev('member')
            kinds.append('-')
        elif k == 8:
            comps = [s for s in root.walk() if s.comp]
            c = comps[int(rng.integers(len(comps)))]
            s = loose.pop() if loose and rng.random() < .6 else M.build_leaf(rng, kind=['cavity', mat[int(rng.integers(2))], 'sys'][int(rng.integers(3))], maxdim=3)
            if root.dimension() * s.dimension() > 60:
                loose.append(s)
                continue
            c.lib.addSubSys(s.lib)
            c.attach(s)
            m.note('add', s.describe())
            m.ev('member')
            kinds.append('+')
        elif k == 9:
            swept(rng, m, root)
            kinds.append('s')
        else:
            M.edit_addterm(rng, root, m)
            kinds.append('t')
        if rng.random() < .75:
            audit(rng, m, root)
    audit(rng, m, root)
    for s in loose:
        M.compare_h(m, s, 'Hamiltonian of a removed member')
    m.sig('hist', root.describe(), tuple(kinds))
    m.sample = {'system': root.describe(), 'edits': kinds}


FAMILIES = [('history', history, 400, 4000)]
