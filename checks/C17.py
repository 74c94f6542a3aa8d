"""C17: every object is found by its name and any of its aliases, and by nothing else."""
import copy
import gc
import pickle
import numpy as np
import quanguru as qg
from quanguru.classes import base as qbase
from quanguru.classes import QGates
from qgmon import model as M
from qgmon.core import Abort

RULE = ('Objects of all classes are created (explicitly and by the library), given aliases (single, lists, repeated, taken ones), dropped and collected, and looked up by names, '
        'aliases and name objects; alias dictionaries run random operations beside a plain model; systems, terms, steps and sweeps are addressed by name or alias '
        'wherever objects are accepted; sessions are pickled. Signature: operations and classes.')
MIN_EVENTS = {'lookup': 500, 'alias': 100, 'refused': 20, 'dict': 500, 'place': 100, 'pickle': 10, 'results name': 100, 'near name': 50, 'near key': 50}
CLS = ['named', 'qBase', 'QuantumSystem', 'Qubit', 'Cavity', 'Spin', 'QTerm', 'qProtocol', 'freeEvolution', 'Simulation', 'SpinRotation', 'thermalBath']


def word(rng):
    return ''.join('abcdefXYZ_ 19'[int(i)] for i in rng.integers(13, size=int(rng.integers(1, 7)))) + str(int(rng.integers(10**6)))


def near(rng, k):
    """Another name very close to k."""
    o = [k.lower(), k.upper(), k.swapcase(), k.strip() if k.strip() != k else k + ' ', ' ' + k, k[:-1], k[1:], k + k[-1], k.replace('_', ' '), k.replace(' ', ''), k[::-1], k + 'Results', '0' + k]
    return o[int(rng.integers(len(o)))]


def registry(rng, m):
    qbase.named._resetAll()
    alive = []                # [object, class name, aliases]
    count = {}
    taken = set()
    dead = []
    ops = []

    def check(o, al, who):
        for k in [o.name, str(o.name), o.name.name] + list(al):
            m.ev('lookup')
            if not m.check(who.getByNameOrAlias(k) is o, 'a name or alias leads to its object', (str(k), str(o.name))):
                raise Abort
            m.check(o.name == k and k == o.name, 'a name equals its aliases', str(k))
        m.check(who.getByNameOrAlias(o) is o, 'an object is itself')
        for k in al if hasattr(o, 'qRes') else ():
            m.ev('results name')
            if not m.check(who.getByNameOrAlias(k + 'Results') is o.qRes, 'an alias names the results too', k):
                raise Abort
        if not m.eq(sorted(map(str, o.alias)), sorted(map(str, al)), 'the alias list holds every alias once'):
            raise Abort
    for _ in range(int(rng.integers(5, 25))):
        k = int(rng.integers(9))
        if k <= 2 or not alive:
            c = CLS[int(rng.integers(len(CLS)))]
            kw = {}
            al = []
            if rng.random() < .4:
                al = [word(rng) for _ in range(int(rng.integers(1, 3)))]
                kw['alias'] = al[0] if len(al) == 1 and rng.random() < .6 else list(al)
            if c in ('Cavity', 'Spin'):
                kw['dimension'] = 2
            o = getattr(qg, c, None) or getattr(QGates, c)
            before = [o.clsInstances(False), o.clsInstances()]
            o = o(**kw)
            if not m.eq([o.clsInstances(False), o.clsInstances() - o.clsInstances(True)], [before[0] + 1] * 2, 'created objects are counted once'):
                raise Abort
            m.check(o.clsInstances() > before[1], 'the total number of instances grows')
            n = str(o.name)
            num = n[len(o.label):]
            if not m.check(n.startswith(o.label) and num.isdigit() and int(num) > count.get(c, 0), 'default names are the label and a running number', n):
                raise Abort
            count[c] = int(num)
            if not m.check(n not in taken, 'names are unique', n):
                raise Abort
            taken |= {n, *al}
            alive.append([o, c, al])
            ops.append('n' + c[0])
        elif k <= 4:
            e = alive[int(rng.integers(len(alive)))]
            al = [word(rng) for _ in range(int(rng.integers(1, 3)))]
            e[0].alias = al[0] if len(al) == 1 else al
            e[2] += al
            taken |= set(al)
            m.ev('alias')
            ops.append('a')
        elif k == 5:
            e = alive[int(rng.integers(len(alive)))]
            if e[2]:
                e[0].alias = e[2][int(rng.integers(len(e[2])))]
                ops.append('A')
        elif k == 6 and len(alive) > 1:
            i, j = [int(x) for x in rng.choice(len(alive), 2, replace=False)]
            other = alive[j]
            bad = (other[2] + [str(other[0].name)])[int(rng.integers(len(other[2]) + 1))]
            try:
                alive[i][0].alias = bad if rng.random() < .7 else [bad]
                m.fail('an alias in use by another object is refused', (bad, str(alive[i][0].name)))
            except ValueError:
                m.ev('refused')
            ops.append('R')
        elif k == 7:
            w = 'no ' + word(rng)
            if rng.random() < .7:
                e = alive[int(rng.integers(len(alive)))]
                w = near(rng, (e[2] + [str(e[0].name)])[int(rng.integers(len(e[2]) + 1))])
                owned = {str(x) for y in alive for x in [y[0].name] + y[2]} | {str(x) + 'Results' for y in alive for x in [y[0].name] + y[2]}
                if w in owned or w == '':
                    continue
                m.ev('near name')
                m.check(not (e[0].name == w or w == e[0].name), 'a name equals its aliases only', (w, str(e[0].name), e[2]))
            try:
                alive[int(rng.integers(len(alive)))][0].getByNameOrAlias(w)
                m.fail('an unknown name is refused', w)
            except ValueError:
                m.ev('refused')
        elif k == 8 and len(alive) > 2 and rng.random() < .5:
            ns = [i for i, e in enumerate(alive) if e[1] == 'named']
            if ns:
                e = alive.pop(ns[0])
                dead += [str(e[0].name)] + e[2]
                e.clear()
                o = other = e = None
                gc.collect()
                ops.append('x')
        if dead and rng.random() < .5 and alive:
            w = dead[int(rng.integers(len(dead)))]
            try:
                r = alive[0][0].getByNameOrAlias(w)
                m.fail('the name of an object that is gone is refused', (w, r))
            except ValueError:
                pass
        e = alive[int(rng.integers(len(alive)))]
        check(e[0], e[2], alive[int(rng.integers(len(alive)))][0])
    for e in alive:
        check(e[0], e[2], alive[0][0])
    m.sig('reg', tuple(ops))
    m.sample = {'ops': ops}


def aliasdict(rng, m):
    """aliasDict beside a plain list of (members, value)."""
    qbase.named._resetAll()
    d = qbase.aliasDict()
    model = []                # [key, value]
    pool = []                 # [key object, members]
    for i in range(int(rng.integers(2, 8))):
        if rng.random() < .6:
            al = [word(rng) for _ in range(int(rng.integers(0, 4)))]
            pool.append([qbase.aliasClass('k' + str(i), list(al)), ['k' + str(i)] + al])
        else:
            w = word(rng)
            pool.append([w, [w]])

    def find(p):
        for x in model:
            if x[0] is p:
                return x

    def access(p):
        if rng.random() < .35:
            return p[0]
        if rng.random() < .1:
            w = near(rng, p[1][int(rng.integers(len(p[1])))])
            if w and all(w not in y[1] for y in pool):
                m.ev('near key')
                if not (m.check(w not in d, 'a key is found by its aliases only', w) and m.eq(d.get(w, -3), -3, 'a key is found by its aliases only')):
                    raise Abort
        return p[1][int(rng.integers(len(p[1])))]
    ops = []
    for _ in range(int(rng.integers(10, 40))):
        p = pool[int(rng.integers(len(pool)))]
        k = access(p)
        x = find(p)
        v = int(rng.integers(100))
        o = int(rng.integers(9))
        ops.append(o)
        m.ev('dict')
        if o == 0 or (o == 1 and x is None):
            # insertion by the key itself, so that later aliases still find it
            if x is None:
                d[p[0]] = v
                model.append([p, v])
            else:
                d[k] = v
                x[1] = v
        elif o == 1:
            how = int(rng.integers(3))
            others = [y for y in model if y is not x]
            if others and rng.random() < .5:           # several at once
                y = others[int(rng.integers(len(others)))]
                v2 = int(rng.integers(100))
                k2 = access(y[0])
                d.update({k2: v2, k: v} if how == 0 else [(k2, v2), (k, v)] if how == 1 else zip([k, k2], [v, v2]))
                y[1] = v2
            elif how == 2 and isinstance(k, str):
                d.update(**{k: v})
            else:
                d.update({k: v} if how == 0 else ((k, v),))
            x[1] = v
        elif o == 2:
            m.eq(d.get(k, -1), x[1] if x else -1, 'get')
        elif o == 3:
            if x is None:
                try:
                    d[k]
                    m.fail('a missing key raises', str(k))
                except KeyError:
                    pass
            else:
                m.eq(d[k], x[1], 'item access')
        elif o == 4:
            m.eq(k in d, x is not None, 'membership')
        elif o == 5:
            r = d.pop(k, -7)
            m.eq(r, x[1] if x else -7, 'pop')
            model = [y for y in model if y is not x]
        elif o == 6 and x is not None:
            del d[k]
            model = [y for y in model if y is not x]
        elif o == 7:
            if x is None:
                m.eq(d.setdefault(p[0], v), v, 'setdefault of a missing key')
                model.append([p, v])
            else:
                m.eq(d.setdefault(k, v), x[1], 'setdefault of a present key')
        elif o == 8:
            if isinstance(p[0], qbase.aliasClass):
                w = word(rng)
                p[0].alias = w
                p[1].append(w)
            elif rng.random() < .5:
                c = d.copy()
                m.check(type(c) is qbase.aliasDict and c is not d, 'copy of an alias dictionary')
                d = c
        if not (m.eq(len(d), len(model), 'number of items') and m.eq(list(d.values()), [y[1] for y in model], 'values in insertion order')):
            raise Abort
    m.sig('dict', tuple(ops))
    m.sample = {'ops': ops, 'keys': [p[1] for p in pool]}


def places(rng, m):
    """Names and aliases are accepted wherever objects are."""
    root = M.build_tree(rng, nleaf=int(rng.integers(2, 4)), maxD=18)
    if not root.comp:
        root = M.compose(rng, [root, M.build_leaf(rng, maxdim=3)], 0)
    nodes = list(root.walk())
    al = {}
    for i, s in enumerate(nodes):
        if rng.random() < .8:
            al[id(s)] = [word(rng) for _ in range(int(rng.integers(1, 3)))]
            s.lib.alias = al[id(s)]

    def ref(s):
        c = [s.lib, str(s.lib.name), s.lib.name] + 3 * al.get(id(s), [])
        m.ev('place')
        return c[int(rng.integers(len(c)))]
    m.note(root.describe())
    for c in nodes:
        for s in c.subs:
            for k in [s.lib.name, str(s.lib.name)] + al.get(id(s), []):
                m.ev('place')
                if not m.check(c.lib.subSys[k] is s.lib and k in c.lib.subSys, 'members are found by name and alias', str(k)):
                    raise Abort
    comps = [s for s in nodes if s.comp]
    for _ in range(int(rng.integers(1, 4))):
        if rng.random() < .6:
            c = comps[int(rng.integers(len(comps)))]
            ls = c.leaves()
            i, j = [int(x) for x in rng.choice(len(ls), 2, replace=False)]
            names = [M.ops_for(ls[x].kind, ls[x].dim, True) for x in (i, j)]
            names = [n[int(rng.integers(len(n)))] for n in names]
            f = M.rfreq(rng)
            t = M.MTerm(c, [(ls[i], names[0], 1), (ls[j], names[1], 1)], f, single=False)
            t.lib = c.lib.createTerm(qSystem=[ref(ls[i]), ref(ls[j])], operator=[M.lib_op(n) for n in names], frequency=f)
            c.terms.append(t)
        else:
            ls = root.leaves()
            s = ls[int(rng.integers(len(ls)))]
            names = M.ops_for(s.kind, s.dim, True)
            n, f = names[int(rng.integers(len(names)))], M.rfreq(rng)
            t = M.MTerm(s, [(s, n, 1)], f)
            t.lib = root.lib.createTerm(qSystem=ref(s), operator=M.lib_op(n), frequency=f)
            s.terms.append(t)
        if rng.random() < .7:
            w = word(rng)
            t.lib.alias = w
            m.check(t.owner.lib.terms[w] is t.lib and t.owner.lib.terms[str(t.lib.name)] is t.lib, 'terms are found by name and alias')
        if not M.compare_h(m, root, 'terms given by names act on the named systems'):
            raise Abort
        if rng.random() < .3:
            root.lib.removeTerm(t.lib.alias[0] if t.lib.alias else str(t.lib.name))
            t.owner.terms.remove(t)
            if not M.compare_h(m, root, 'a term is removed by name or alias'):
                raise Abort
    # sweeps and simulations
    s = root.leaves()[int(rng.integers(len(root.leaves())))]
    sim = qg.Simulation()
    sim.addSubSys(ref(root))
    sim.Sweep.createSweep(system=ref(s), sweepKey='frequency', sweepList=[.25, .75])
    seen = []
    sim.stepSize = sim.totalTime = .1
    sim.delStates = True
    sim.compute = lambda x, st: seen.append(s.lib.frequency)
    M.set_initial(rng, root)
    sim.run()
    m.check(len(set(seen)) == 2 and sorted(set(seen)) == [.25, .75], 'a sweep of a named system sweeps that system', seen)
    s.terms[0].freq = s.lib.frequency
    # protocols
    a, b = qg.freeEvolution(system=root.lib), qg.freeEvolution(system=root.lib)
    pa = word(rng)
    a.alias = pa
    p = qg.qProtocol(system=root.lib)
    p.addStep(a, b)
    m.check(p.steps[pa] is a and p.steps[str(b.name)] is b, 'steps are found by name and alias')
    m.eq([x for x in p.steps.values()], [a, b], 'steps named by alias are in order')
    # removal of members
    cands = [x for x in nodes if x is not root and len(x.parent.subs) > 1]
    if cands:
        x = cands[int(rng.integers(len(cands)))]
        x.parent.lib.removeSubSys(ref(x))
        x.parent.detach(x)
        M.compare_h(m, root, 'a member is removed by name or alias')
        if rng.random() < .5:
            root.lib.addSubSys(ref(x))
            root.attach(x)
            M.compare_h(m, root, 'a member is added by name or alias')
    m.sig('places', root.describe(), len(al))
    m.sample = {'system': root.describe()}


def pickled(rng, m):
    """In a session that was pickled, names lead to the objects of that session; the original keeps working."""
    qbase.named._resetAll()
    root = M.build_tree(rng, nleaf=int(rng.integers(1, 4)), maxD=12)
    extra = qg.Qubit(alias=word(rng))
    for s in root.walk():
        if rng.random() < .6:
            s.lib.alias = word(rng)
    new = root.lib
    for _ in range(int(rng.integers(1, 3))):
        old = new
        new = pickle.loads(pickle.dumps(old))
        m.ev('pickle')
        m.check(new is not old and new.name == old.name, 'a pickled system keeps its name')

    def walk(x):
        yield x
        for y in x.subSys.values():
            yield from walk(y)
    for s, x in zip(root.walk(), walk(new)):
        for k in [str(s.lib.name)] + list(s.lib.alias):
            m.ev('lookup')
            m.check(new.getByNameOrAlias(k) is x, 'names in a pickled session lead to its objects', k)
            m.check(root.lib.getByNameOrAlias(k) is s.lib, 'names in the original session lead to the original objects', k)
    m.check(extra.getByNameOrAlias(extra.alias[0]) is extra, 'other objects stay reachable')
    m.close(new.totalHamiltonian, root.H(), 'the pickled system has the same Hamiltonian')
    root.leaves()[0].lib.frequency = 7.25
    m.close(new.totalHamiltonian, root.H(), 'the pickled system is independent')
    root.leaves()[0].terms[0].freq = 7.25
    M.compare_h(m, root, 'the original follows its own parameters')
    z = qg.Qubit(alias=word(rng))
    m.check(z.getByNameOrAlias(z.alias[0]) is z and root.lib.getByNameOrAlias(str(z.name)) is z, 'objects made after pickling are reachable')
    m.sig('pickled', root.describe())


def shared(rng, m):
    """Auxiliary dictionary and object are one for the whole session."""
    objs = [qg.Qubit(), qg.Simulation(), qg.qProtocol(), qg.QuantumSystem()]
    want = dict(objs[0].auxDict)
    for _ in range(int(rng.integers(2, 8))):
        a, b = [objs[int(i)] for i in rng.integers(len(objs), size=2)]
        k, v = 'k%d' % int(rng.integers(5)), int(rng.integers(100))
        if rng.random() < .5:
            a.auxDict = {k: v}
        else:
            a.auxDict[k] = v
        want[k] = v
        m.eq(dict(b.auxDict), want, 'auxiliary items are seen from every object')
        setattr(a.auxObj, k, v)
        m.eq(getattr(b.auxObj, k), v, 'auxiliary attributes are seen from every object')
    m.sig('shared', len(want))


FAMILIES = [('registry', registry, 450, 3000, 5), ('aliasdict', aliasdict, 450, 3000, 10), ('places', places, 180, 1200), ('pickled', pickled, 90, 500), ('shared', shared, 30, 60)]
