"""C03: dimensions and tensor positions follow every structural edit of composite systems."""
import numpy as np
import quanguru as qg
from qgmon import model as M
from qgmon import ref
from qgmon.core import Abort, arr

RULE = ('Histories of building, nesting, extending, shrinking, detaching and re-attaching systems and changing dimensions, interleaved with reads; '
        'after every step the dimension, nested list of dimensions and Hamiltonian (i.e. the tensor position of every operator) of all systems, including '
        'detached ones, are compared with an explicit tree. Signature: edit sequence and final shape.')
MIN_EVENTS = {'large:resize': 25, 'detach:coupled-from-deep': 8, 'attach:again': 10, 'dimension:composite': 5, 'attach': 40, 'detach': 40, 'detach:composite': 10, 'attach:nested': 10, 'edit:dimension': 20, 'sum': 60, 'times': 10, 'spin': 100}


def nested_dims(s):
    return [nested_dims(x) for x in s.subs] if s.comp else s.dim


def audit(rng, m, roots, full=False):
    for r in roots:
        if r.comp and not r.subs:
            continue
        nodes = list(r.walk())
        pick = nodes if full else [r, nodes[int(rng.integers(len(nodes)))]]
        for s in pick:
            if s.comp and not s.subs:
                continue
            ok = m.eq(int(s.lib.dimension), s.dimension(), 'dimension is the product of the sub-system dimensions')
            ok = m.eq(s.lib.subSysDimensions, nested_dims(s), 'subSysDimensions lists the current dimensions in order') and ok
            ok = M.compare_h(m, s, 'every operator sits at its system\'s tensor position') and ok
            if s.comp:
                ok = m.eq([x for x in s.lib.subSys.values()], [x.lib for x in s.subs], 'sub-systems are kept in the order they were added') and ok
            if s.parent is not None:
                ok = m.check(s.lib.superSys is s.parent.lib, 'a sub-system knows the composite that contains it') and ok
            elif s is r:
                ok = m.check(s.lib.superSys is None, 'a removed system has no composite') and ok
            m.ev('audit')
            if not ok:
                raise Abort




def history(rng, m):
    maxD = 72
    root = M.MSys('comp', lib=qg.QuantumSystem())
    first = M.build_leaf(rng, maxdim=3)
    root.lib.addSubSys(first.lib)
    root.attach(first)
    loose = []
    kinds = []
    if rng.random() < .2:
        # a deep chain of composites, with couplings at its top reaching into it
        for _ in range(3):
            extra = M.build_leaf(rng, maxdim=2)
            if root.dimension() * extra.dimension() > 32:
                continue
            order = [root, extra] if rng.random() < .5 else [extra, root]
            root = M.MSys('comp', subs=order, lib=qg.QuantumSystem(subSys=[x.lib for x in order]))
        for _ in range(3):
            M.add_coupling(rng, root)
    m.note('start', root.describe())
    for _ in range(int(rng.integers(5, 14))):
        comps = [s for s in root.walk() if s.comp]
        k = int(rng.integers(10))
        if k <= 2:
            c = comps[int(rng.integers(len(comps)))]
            if loose and rng.random() < .5:
                s = loose.pop(int(rng.integers(len(loose))))
            elif rng.random() < .3:
                s = M.build_tree(rng, maxdim=3, maxD=8, nleaf=2)
            else:
                s = M.build_leaf(rng, maxdim=3)
            if root.dimension() * s.dimension() > maxD:
                loose.append(s)
                continue
            how = int(rng.integers(4))
            if how == 0 and not s.comp:
                r = c.lib + s.lib
                m.check(r is c.lib, 'composite + single system extends the composite')
            elif how == 1:
                c.lib.addSubSys(str(s.lib.name))
            elif how == 2:
                c.lib.addSubSys([s.lib])
            else:
                c.lib.addSubSys(s.lib)
            c.attach(s)
            m.ev('attach')
            if c is not root:
                m.ev('attach:nested')
            m.note('attach', s.describe(), 'to', c.describe())
            kinds.append('a' if not s.comp else 'A')
        elif k <= 4:
            cands = [s for s in root.walk() if s is not root and len(s.parent.subs) > 1]
            if not cands:
                continue
            s = cands[int(rng.integers(len(cands)))]
            how = int(rng.integers(4))
            via = s.parent if how < 2 else comps[int(rng.integers(len(comps)))]
            if any(via is x for x in s.walk()):
                via = s.parent
            arg = s.lib if rng.random() < .6 else str(s.lib.name)
            inner = [g for c in s.subs for g in c.walk() if g is not c]
            if any(t.uses(g) for c in comps if not any(c is x for x in s.walk()) for t in c.terms if not t.single for g in inner):
                m.ev('detach:coupled-from-deep')
            if how == 1 and via is s.parent:
                via.lib - arg
            else:
                via.lib.removeSubSys(arg)
            s.parent.detach(s)
            loose.append(s)
            m.ev('detach')
            if s.comp:
                m.ev('detach:composite')
            m.note('detach', s.describe(), 'via', via.describe())
            kinds.append('d' if not s.comp else 'D')
        elif k == 5 and rng.random() < .25:
            # something that is there already, and a dimension for a composite: no change
            s = comps[int(rng.integers(len(comps)))]
            if rng.random() < .6 and s.subs:
                x = s.subs[int(rng.integers(len(s.subs)))]
                s.lib.addSubSys([x.lib, str(x.lib.name), [x.lib]][int(rng.integers(3))])
                m.ev('attach:again')
            else:
                s.lib.dimension = int(rng.integers(2, 9))
                m.ev('dimension:composite')
            kinds.append('=')
        elif k == 5:
            M.edit_dimension(rng, root, m, maxD)
            kinds.append('n')
        elif k == 6:
            M.edit_addterm(rng, root, m)
            kinds.append('t')
        elif k == 7 and loose:
            s = loose[int(rng.integers(len(loose)))]
            M.edit_dimension(rng, s, m, maxD) if rng.random() < .5 else M.edit_frequency(rng, s, m)
            kinds.append('l')
        elif k == 8 and rng.random() < .4 and root.dimension() <= 12:
            # put the whole thing inside a new composite
            extra = M.build_leaf(rng, maxdim=3)
            order = [root, extra] if rng.random() < .5 else [extra, root]
            new = M.MSys('comp', subs=order, lib=qg.QuantumSystem(subSys=[x.lib for x in order]))
            root = new
            m.note('wrap', root.describe())
            kinds.append('w')
        else:
            M.edit_frequency(rng, root, m)
            kinds.append('f')
        if rng.random() < .7:
            audit(rng, m, [root] + loose)
    audit(rng, m, [root] + loose, full=True)
    m.sig('hist', tuple(kinds), root.describe())
    m.sample = {'final': root.describe(), 'steps': ''.join(kinds), 'detached': [s.describe() for s in loose]}


def large(rng, m):
    """Sub-systems of large dimensions come, go and are resized."""
    dims = [int(rng.integers(2, 4)), int(rng.integers(20, 115))] if rng.random() < .6 else [int(x) for x in rng.integers(2, 19, 2)]
    dims = [dims[int(i)] for i in rng.permutation(2)] + ([2] if rng.random() < .5 else [])
    root = M.MSys('comp', lib=qg.QuantumSystem())
    for d in dims:
        s = M.build_leaf(rng, kind='cavity' if d > 18 else None, dim=d)
        root.lib.addSubSys(s.lib)
        root.attach(s)
    loose, kinds = [], ''
    for _ in range(int(rng.integers(2, 5))):
        k = int(rng.integers(3))
        if k == 0 and len(root.subs) > 1:
            s = root.subs[int(rng.integers(len(root.subs)))]
            root.lib.removeSubSys(s.lib)
            root.detach(s)
            loose.append(s)
        elif k == 1 and loose:
            s = loose.pop()
            if root.dimension() * s.dim > 400:
                loose.append(s)
                continue
            root.lib.addSubSys(s.lib)
            root.attach(s)
        else:
            s = root.subs[int(rng.integers(len(root.subs)))]
            d = int(rng.integers(2, 115))
            if s.kind != 'cavity' or root.dimension() // s.dim * d > 400:
                continue
            s.lib.dimension = d
            s.dim = d
            m.ev('large:resize')
        kinds += 'rax'[k]
        audit(rng, m, [root] + loose)
    m.sig('large', tuple(dims), kinds)
    m.sample = {'dims': dims, 'steps': kinds}


def algebra(rng, m):
    """+, -, n* and constructors build the same composites."""
    n = int(rng.integers(2, 4))
    ls = [M.build_leaf(rng, maxdim=3) for _ in range(n)]
    hs = [s.H() for s in ls]
    acc = ls[0].lib
    for s in ls[1:]:
        acc = acc + s.lib
    root = M.MSys('comp', subs=ls, lib=acc)
    audit(rng, m, [root], True)
    # singles first, then remove one by '-'
    if n == 3:
        k = int(rng.integers(3))
        r = acc - ls[k].lib
        m.check(r is acc, 'a - b returns the remaining composite')
        s = ls[k]
        root.detach(s)
        audit(rng, m, [root, s], True)
        m.close(s.lib.totalHamiltonian, hs[k], 'a removed system has its stand-alone Hamiltonian again')
    c = int(rng.integers(2, 4))
    base = M.build_leaf(rng, maxdim=3)
    f = base.terms[0].freq
    if rng.random() < .5:
        M.add_single_term(rng, base)
    h = base.H()
    r = c * base.lib
    d = base.dim
    want = sum(ref.embed(h, d**i, d**(c - 1 - i)) for i in range(c))
    m.eq(len(r.subSys), c, 'n * system holds n systems')
    m.close(r.totalHamiltonian, want, 'n * system is n identical systems side by side')
    m.check(list(r.subSys.values())[0] is base.lib, 'n * system contains the system itself')
    base.lib.frequency = f + 1.5
    diff = arr(r.totalHamiltonian) - want
    pos = ref.embed(1.5 * np.array(M.MTerm(base, base.terms[0].factors, 1).matrix({id(base): (1, d, 1)}, d)), 1, d**(c - 1))
    m.close(diff, pos, 'the copies in n * system are independent of the original')
    two = M.build_leaf(rng, maxdim=3)
    h2 = two.H()
    comp = two.lib + two.lib
    m.eq(int(comp.dimension), two.dim**2, 'system + itself is a composite of two such systems')
    m.close(comp.totalHamiltonian, ref.embed(h2, 1, two.dim) + ref.embed(h2, two.dim, 1), 'system + itself holds a copy')
    m.ev('algebra')
    m.sig('alg', tuple(s.describe() for s in ls), c, base.describe())


def sums(rng, m):
    """Chains of +, - and n* over single and composite systems."""
    pool = [M.build_leaf(rng, maxdim=3) if rng.random() < .6 else M.build_tree(rng, maxdim=2, maxD=8, nleaf=2) for _ in range(int(rng.integers(3, 6)))]
    kinds = []

    def copied(s, lib):
        """Mirror of a copy made by the library."""
        c = M.MSys(s.kind, s.dim, lib=lib)
        for x, y in zip(s.subs, lib.subSys.values()):
            c.attach(copied(x, y))
        return c

    def twin(s, lib):
        c = copied(s, lib)
        tw = {id(a): b for a, b in zip(s.walk(), c.walk())}
        for a, b in zip(s.walk(), c.walk()):
            for t, l in zip(a.terms, b.lib.terms.values()):
                b.terms.append(M.MTerm(b, [[tw[id(f[0])], f[1], f[2]] for f in t.factors], t.freq, lib=l, single=t.single))
        return c
    for _ in range(int(rng.integers(2, 7))):
        k = rng.random()
        i, j = [int(x) for x in rng.choice(len(pool), 2, replace=False)] if len(pool) > 1 else (0, 0)
        a, b = pool[i], pool[j]
        if k < .6 and a is not b and a.dimension() * b.dimension() <= 64:
            arg = b.lib if rng.random() < .8 else str(b.lib.name)
            r = a.lib + arg
            if a.comp and not b.comp:
                ok = m.check(r is a.lib, 'composite + single system extends the composite')
                new = a
                a.attach(b)
                kinds.append('cs')
            elif b.comp and not a.comp:
                ok = m.check(r is b.lib, 'single system + composite extends the composite')
                new = b
                b.attach(a)
                kinds.append('sc')
            else:
                ok = m.check(r is not a.lib and r is not b.lib, 'the sum of two of a kind is a new composite')
                new = M.MSys('comp', subs=[a, b], lib=r)
                kinds.append('cc' if a.comp else 'ss')
            if not ok:
                raise Abort
            pool = [s for s in pool if s is not a and s is not b] + [new]
            m.ev('sum')
        elif k < .7 and a.dimension() <= 8:
            c = 2 if rng.random() < .7 or a.dimension() > 4 else 3
            r = c * a.lib
            new = M.MSys('comp', lib=r)
            subs = list(r.subSys.values())
            if not m.check(len(subs) == c and subs[0] is a.lib, 'n * system holds the system and copies of it'):
                raise Abort
            copies = [twin(a, x) for x in subs[1:]]
            for x in [a] + copies:
                new.attach(x)
            pool = [s for s in pool if s is not a] + [new]
            kinds.append('n' + str(c))
            m.ev('times')
        elif k < .75 and a.comp and len(a.subs) > 1:
            s = a.subs[int(rng.integers(len(a.subs)))]
            r = a.lib - (s.lib if rng.random() < .7 else str(s.lib.name))
            m.check(r is a.lib, 'a - b returns the remaining composite')
            a.detach(s)
            pool.append(s)
            kinds.append('-')
        elif k < .8:
            r = qg.QuantumSystem() + a.lib
            if a.comp:
                ok = m.check(r is a.lib, 'nothing + composite is that composite')
            else:
                ok = m.check(r is not a.lib, 'nothing + single system is a composite of it')
                pool = [s for s in pool if s is not a] + [M.MSys('comp', subs=[a], lib=r)]
            if not ok:
                raise Abort
            kinds.append('0')
        elif k < .9:
            M.edit_dimension(rng, a, m, 64)
            kinds.append('d')
        else:
            M.edit_addterm(rng, a, m)
            kinds.append('t')
        for s in pool:
            for x in s.leaves():
                if x.kind in ('spin', 'qubit'):
                    m.eq(float(x.lib.jValue), (x.dim - 1) / 2, 'the spin quantum number follows the dimension')
                    m.ev('spin')
        if rng.random() < .6:
            audit(rng, m, pool)
    audit(rng, m, pool, full=True)
    m.sig('sums', tuple(kinds), tuple(s.describe() for s in pool))
    m.sample = {'steps': kinds, 'final': [s.describe() for s in pool]}


FAMILIES = [('large', large, 60, 1200), ('sums', sums, 120, 1500), ('history', history, 300, 5000), ('algebra', algebra, 100, 800)]
