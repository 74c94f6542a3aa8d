"""C15: copies of quantum systems equal the original at the time of copying and are independent of it afterwards."""
import numpy as np
import quanguru as qg
from qgmon import model as M, ref, simmodel as S
from qgmon.core import Abort, arr
from checks.C16 import couple, MATTER

RULE = ('Random (nested) systems with extra terms, couplings and initial states of every kind, after random edits, are copied with copy(), n*system or system+system; '
        'copies are copied again, sub-systems inside composites are copied out. Hamiltonians, dimensions, initial states and propagators of all of them are compared '
        'with separate mirrors after the copy and after every edit of any of them. Signature: system shape, way of copying, edits.')
MIN_EVENTS = {'copy': 100, 'audit': 600, 'nested': 15, 'coupling': 20, 'times': 10, 'sum': 10, 'standard coupling': 10, 'edit:frequency': 50}


def mirror_copy(m, s, lib):
    """Mirror of lib, which has to have the structure of s."""
    c = M.MSys(s.kind, s.dim, lib=lib)
    c.inp, c.amp = s.inp, s.amp
    own = getattr(s, 'own', None)
    c.own = None if own is None else np.array(own)
    subs = list(lib.subSys.values())
    if not m.check(len(subs) == len(s.subs) and type(lib) is type(s.lib), 'a copy has the sub-systems of the original', f'{subs} of {s.describe()}'):
        raise Abort
    for x, l in zip(s.subs, subs):
        m.check(l is not x.lib, 'sub-systems are copied, not shared')
        c.attach(mirror_copy(m, x, l))
    return c


def copy_terms(m, s, c):
    twin = {id(a): b for a, b in zip(s.walk(), c.walk())}
    for a, b in zip(s.walk(), c.walk()):
        libs = list(b.lib.terms.values())
        flat = [p for t in a.terms for p in ([t] if t.parts is None else t.parts)]      # standard couplings are two terms with one strength
        if not m.eq(len(libs), len(flat), 'a copy has the terms of the original'):
            raise Abort
        freqs = [t.freq for t in a.terms for _ in range(1 if t.parts is None else len(t.parts))]
        for t, l, f in zip(flat, libs, freqs):
            m.check(l is not t.lib, 'terms are copied, not shared')
            b.terms.append(M.MTerm(b, [[twin[id(x[0])], x[1], x[2]] for x in t.factors], f, lib=l, single=t.single))


def mcopy(m, s, lib):
    c = mirror_copy(m, s, lib)
    copy_terms(m, s, c)
    return c


def audit(rng, m, roots, t=None):
    for r in roots:
        m.ev('audit')
        ok = m.close(r.lib.totalHamiltonian, r.H(), 'Hamiltonians of a copy and its original are those of their own parameters', tol=1e-9)
        for x in r.walk():
            ok = ok and m.eq(x.lib.dimension, x.dimension(), 'dimensions of a copy and its original are their own')
        if getattr(r, 'has', False) and ok:
            ok = m.close(r.lib.initialState, S.tree_ket(r), 'initial states of a copy and its original are their own', tol=1e-9)
        if ok and t and rng.random() < .3:
            dt = float(rng.uniform(.1, 1))
            r.lib.simStepSize = dt
            r.lib.simTotalTime = 3 * dt
            r.dt = dt
        if ok and getattr(r, 'dt', None):
            ok = m.close(r.lib.unitary(), ref.U(r.H(), r.dt), 'propagators of a copy and its original follow their own parameters and times', tol=1e-8)
            m.ev('times')
        if not ok:
            raise Abort


def edit(rng, m, r, dims):
    k = int(rng.integers(8))
    if k == 0 and dims:
        M.edit_dimension(rng, r, m, 24)
    elif k == 1:
        M.edit_order(rng, r, m)
    elif k == 2:
        M.edit_operator(rng, r, m)
    elif k == 3:
        M.edit_addterm(rng, r, m)
    elif k == 4:
        M.edit_removeterm(rng, r, m)
    elif k == 5 and not dims:
        inp = S.rand_tree_input(rng, r)
        r.lib.initialState = inp
        S.put_input(r, inp)
        m.ev('edit:initial')
    elif k == 6 and not dims:
        ls = r.leaves()
        x = ls[int(rng.integers(len(ls)))]
        if all(getattr(y, 'own', None) is None for y in r.walk() if y.comp):
            inp = S.rand_tree_input(rng, x)
            x.lib.initialState = inp
            S.put_input(x, inp)
            m.ev('edit:initial')
    else:
        M.edit_frequency(rng, r, m)
    return k


def make(rng, m):
    dims = rng.random() < .4
    if dims:
        root = M.build_tree(rng, maxdim=3, maxD=18, nleaf=int(rng.integers(1, 4)))
        if root.comp and rng.random() < .7:
            M.add_coupling(rng, root)
    else:
        root = S.World.build_root(rng, 3, 18)
        root.has = True
    if rng.random() < .5:
        M.add_single_term(rng, root.leaves()[-1])
    if any(s.comp for s in root.subs):
        m.ev('nested')
        inner = next(s for s in root.subs if s.comp)
        if rng.random() < .6:
            M.add_coupling(rng, inner)
    if root.comp and rng.random() < .4 and couple(rng, m, root, MATTER):
        m.ev('standard coupling')
    if any(not t.single for t in root.terms_below()):
        m.ev('coupling')
    return root, dims


def copies(rng, m):
    root, dims = make(rng, m)
    for _ in range(int(rng.integers(0, 4))):
        edit(rng, m, root, dims)
    roots = [root]
    audit(rng, m, roots, rng.random() < .5)
    word = []
    for _ in range(int(rng.integers(1, 4))):
        src = roots[int(rng.integers(len(roots)))]
        node = src
        if src.comp and rng.random() < .3:      # copy a part of a composite
            ns = [x for x in src.walk() if x is not src]
            node = ns[int(rng.integers(len(ns)))]
        kw = {}
        if not node.comp and rng.random() < .3:
            kw = {'frequency': float(rng.uniform(.1, 2))}
        lib = node.lib.copy(**kw)
        m.ev('copy')
        m.check(lib is not node.lib and str(lib.name) != str(node.lib.name), 'a copy is a system of its own with its own name')
        c = mcopy(m, node, lib)
        if kw:
            c.terms[0].freq = kw['frequency']
        # parts of a system with one state for the whole have none of their own
        c.has = getattr(src, 'has', False) and (node is src or all(getattr(x, 'own', None) is None for x in src.walk()))
        roots.append(c)
        word.append('copy' if node is src else 'part')
        m.note('copy', node.describe(), kw)
        audit(rng, m, roots, True)
        for _ in range(int(rng.integers(1, 5))):
            r = roots[int(rng.integers(len(roots)))]
            word.append(edit(rng, m, r, dims))
            audit(rng, m, roots)
    m.sig('copies', root.describe(), tuple(word))
    m.sample = {'system': root.describe(), 'history': word}


def sums(rng, m):
    """n*system and system+system are composites of independent copies."""
    src = M.build_leaf(rng, maxdim=3) if rng.random() < .8 else M.build_tree(rng, maxdim=2, maxD=4, nleaf=2)
    dims = True
    if not src.comp and rng.random() < .5:
        M.add_single_term(rng, src)
    if src.comp:
        M.add_coupling(rng, src)
    n = int(rng.integers(2, 4)) if src.dimension() <= 3 else 2
    root = M.MSys('comp')
    if rng.random() < .6 or src.comp:
        root.lib = n * src.lib
    else:
        n = 2
        root.lib = src.lib + src.lib
    m.ev('sum')
    subs = list(root.lib.subSys.values())
    if not m.eq(len(subs), n, 'n*system has n members'):
        raise Abort
    m.check(subs[0] is src.lib, 'the first member of n*system is the system itself')
    root.attach(src)
    for l in subs[1:]:
        root.attach(mcopy(m, src, l))
    audit(rng, m, [root])
    for _ in range(int(rng.integers(2, 6))):
        k = int(rng.integers(4))
        if k == 0:
            M.add_coupling(rng, root)
        elif k == 1 and root.dimension() <= 12:
            M.edit_dimension(rng, root, m, 24)
        elif k == 2:
            M.edit_operator(rng, root, m)
        else:
            M.edit_frequency(rng, root, m)
        audit(rng, m, [root], True)
    if rng.random() < .5 and root.dimension() <= 12:
        c = mcopy(m, root, root.lib.copy())
        m.ev('copy')
        M.edit_frequency(rng, root, m)
        audit(rng, m, [root, c])
        M.edit_frequency(rng, c, m)
        audit(rng, m, [root, c])
    m.sig('sums', src.describe(), n)


FAMILIES = [('copies', copies, 240, 2500), ('sums', sums, 100, 800)]
