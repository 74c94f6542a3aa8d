"""Mirror of simulations: what is run, swept, computed and stored, evaluated with dense matrices."""
import numpy as np
import quanguru as qg

from . import model as M
from . import promodel as PM
from . import ref


def tree_ket(s, inp=None):
    """Ket of a node from the tree's current inputs, or from an explicit (nested) input."""
    if isinstance(inp, np.ndarray):
        return inp.reshape(-1, 1)
    if inp is None and getattr(s, 'own', None) is not None:
        return s.own.reshape(-1, 1)
    if s.comp:
        return ref.kron(*[tree_ket(x, None if inp is None else inp[i]) for i, x in enumerate(s.subs)])
    return M.ket_of(s.inp if inp is None else inp, s.dim, s.amp)


def rand_tree_input(rng, s):
    if s.comp:
        return [rand_tree_input(rng, x) for x in s.subs]
    k = int(rng.integers(4))
    ks = [int(x) for x in rng.choice(s.dim, int(rng.integers(1, s.dim + 1)), replace=False)]
    return ks[0] if k <= 1 else ks if k == 2 else M.weights(rng, ks, s.amp)


def put_input(s, inp):
    s.own = None
    if isinstance(inp, np.ndarray):
        s.own = inp
    elif s.comp:
        for x, i in zip(s.subs, inp):
            put_input(x, i)
    else:
        s.inp = inp


class Entry:
    """One evolution of a simulation: a protocol (or the free evolution) of a system."""

    def __init__(self, mp, root, internal=False):
        self.mp, self.root, self.internal = mp, root, internal
        self.inp = None
        self.dt = None       # own step size
        self.keep = None     # own delStates

    @property
    def lib(self):
        return self.mp.lib

    def name(self):
        return (self.root.lib if self.internal else self.lib).name

    def start(self):
        return tree_ket(self.root, self.inp)

    def desc(self):
        return ('free' if self.internal else self.mp.desc()) + '@' + self.root.describe()


class MSweep:
    """values[i] is handed to the library; apply(i) is the mirror of assigning it."""

    def __init__(self, label, n, apply, final=None):
        self.label, self.n, self.apply, self.final = label, n, apply, final
        self.comb = False
        self.lib = None


class World:
    """One simulation with its systems, protocols and sweeps; lib objects and their mirror."""

    def __init__(self, rng, m, maxdim=3, maxD=12, nsys=None, protocols=True, kind=None, build=None, updates=True, own_dt=True, td=False):
        self.rng, self.m = rng, m
        self.td = td
        self.kind = kind or ['sim', 'sim', 'sys', 'pro', 'syspro'][int(rng.integers(5))]
        nsys = nsys or (1 if self.kind != 'sim' else int(rng.integers(1, 4)))
        self.roots = [(build or self.build_root)(rng, maxdim, maxD) for _ in range(nsys)]
        self.sweeps = []
        self.keep = True
        dt = float(rng.uniform(.1, .9))
        self.dt, self.n = dt, M.tail(rng, 1, 6, 24, .05)
        self.entries = []
        self.pools = {}
        self.sim = None
        early = rng.random() < .5
        if not early:
            self.make(protocols, updates)
        if self.kind == 'sim':
            self.sim = qg.Simulation()
            if early:
                self.set_times(self.sim)
        elif early:
            self.set_times(self.roots[0].lib.simulation)
        if early:
            self.make(protocols, updates)
        self.link()
        if not early:
            # (a conjugated step that is nowhere a plain step takes its times from its system)
            own = self.kind != 'pro' or (rng.random() < .5 and not any("'" in e.mp.desc() for e in self.entries))
            self.set_times(self.sim if own else self.roots[0].lib.simulation)
        if own_dt:
            for e in self.entries:
                # (shared steps keep the step size of the protocol they were first added to)
                alone = sum(x.root is e.root for x in self.entries) == 1 and "'" not in e.mp.desc()
                if not e.internal and self.kind != 'pro' and alone and rng.random() < .5:
                    e.dt = float(rng.uniform(.1, .9))
                    e.lib.simStepSize = e.dt
        for e in self.entries:
            if not e.internal and rng.random() < .3:
                e.inp = rand_tree_input(rng, e.root) if rng.random() < .7 else ref.ket(rng, e.root.dimension())
                e.lib.initialState = e.inp
        m.note('kind', self.kind, 'dt', dt, 'steps', self.n, 'entries', [e.desc() for e in self.entries])

    @staticmethod
    def build_root(rng, maxdim, maxD):
        if maxD > 8 and rng.random() < .04:
            root = M.build_tree(rng, maxdim=2, maxD=32, nleaf=int(rng.integers(4, 6)))
        else:
            root = M.build_tree(rng, maxdim=maxdim, maxD=maxD, nleaf=int(rng.integers(1, 4)))
        if root.comp and rng.random() < .7:
            M.add_coupling(rng, root)
        for s in root.walk():
            s.own = None
        if rng.random() < .15:
            inp = ref.ket(rng, root.dimension())
        else:
            inp = rand_tree_input(rng, root)
        if root.comp and not isinstance(inp, np.ndarray) and rng.random() < .5:
            for x, i in zip(root.subs, inp):
                x.lib.initialState = i
        else:
            root.lib.initialState = inp
        put_input(root, inp)
        return root

    def set_times(self, sim):
        self.T = T = (self.n - .5) * self.dt
        self.time_set = sim
        if self.rng.random() < .5:
            sim.totalTime = T
            sim.stepSize = self.dt
        else:
            sim.stepSize = self.dt
            sim.totalTime = T

    def make(self, protocols, updates):
        rng = self.rng
        for root in self.roots:
            pool = self.pools.setdefault(id(root), [])
            mine = []
            if protocols and self.kind != 'sys' and (self.kind != 'sim' or rng.random() < .75):
                for _ in range(1 if self.kind == 'pro' else int(rng.integers(1, 3))):
                    reuse = .7 if rng.random() < .15 else 0
                    p = PM.new_prot(rng, root, pool, 2 if reuse else 1, reuse=reuse)
                    mine.append(Entry(p, root))
                if updates:
                    for p in [e.mp for e in mine] + [q for q in pool if not isinstance(q, PM.MGate)][:2]:
                        if rng.random() < .25:
                            PM.add_update(rng, root, p, [q for q in pool if isinstance(q, PM.MGate)], self.m)
                pool += [e.mp for e in mine]
            if not mine:
                if self.kind in ('pro', 'syspro') or (self.kind == 'sim' and protocols and rng.random() < .3):
                    f = PM.MFree(root, 1 if rng.random() < .5 else float(rng.uniform(.3, 2)))
                    f.lib = qg.freeEvolution(system=root.lib, ratio=f.ratio)
                    pool.append(f)
                    mine.append(Entry(f, root))
                else:
                    mine.append(Entry(PM.MFree(root, 1, root.lib), root, True))
            self.drop = False
            if self.kind == 'syspro':     # the simulation of a system starts with its free evolution
                self.drop = rng.random() < .5
                if not self.drop:
                    mine.insert(0, Entry(PM.MFree(root, 1, root.lib), root, True))
            self.entries += mine
        if self.kind == 'sim':
            order = list(rng.permutation(len(self.entries)))
            self.entries = [self.entries[int(i)] for i in order]

    def link(self):
        rng = self.rng
        if self.kind == 'sim':
            for e in self.entries:
                how = int(rng.integers(3))
                if e.internal:
                    if how == 0:
                        self.sim.addQSystems(e.root.lib)
                    elif how == 1 or e is not self.entries[0]:
                        self.sim.addSubSys(e.root.lib)
                    else:
                        self.sim.subSys = e.root.lib
                elif how == 0:
                    self.sim.addProtocol(e.lib)
                elif how == 1:
                    self.sim.addQSystems(e.root.lib, Protocol=e.lib)
                else:
                    self.sim.addProtocol(protocol=e.lib, system=e.root.lib)
        elif self.kind == 'sys':
            self.sim = self.roots[0].lib.simulation
        elif self.kind == 'pro':
            self.sim = self.entries[0].lib.simulation
        else:
            self.sim = self.roots[0].lib.simulation
            free = self.sim.protocols[0]
            for e in self.entries:
                if e.internal:
                    continue
                remove = free if self.drop and e is self.entries[0] else None
                if rng.random() < .5:
                    self.sim.addProtocol(protocol=e.lib, system=e.root.lib, protocolRemove=remove)
                else:
                    self.roots[0].lib.addProtocol(e.lib, protocolRemove=remove)

    def systems(self):
        """Distinct systems in the order of their first protocol, with that protocol."""
        out = []
        for e in self.entries:
            if not any(e.root is r for r, _ in out):
                out.append((e.root, e))
        return out

    # ------------------------------------------------------------------ sweeps
    def shape(self):
        out = []
        for i, s in enumerate(self.sweeps):
            if i == 0 or s.comb:
                out.append(s.n)
        return out

    def points(self):
        shp = self.shape()
        return list(np.ndindex(*shp)) if shp else [()]

    def apply_point(self, idx):
        g = -1
        for i, s in enumerate(self.sweeps):
            if i == 0 or s.comb:
                g += 1
            s.apply(idx[g])

    # ------------------------------------------------------------------ evolution
    def set_time(self, t):
        for root in self.roots:
            for x in root.terms_below():
                if x.td is not None:
                    x.freq = x.td(t)

    def trajectories(self):
        """One sweep point: list over entries of the list of states at t0, t1, ..."""
        out = [[e.start()] for e in self.entries]
        self.samples = [[[]] for e in self.entries]
        cache = {}
        for k in range(self.n):
            if self.td:
                self.set_time((k + 1) * self.dt)
                cache = {}
            for i, e in enumerate(self.entries):
                if i not in cache:
                    cache[i] = e.mp.full(e.dt or self.dt)
                out[i].append(cache[i] @ out[i][-1])
        return out

    def run(self, **kw):
        if self.kind == 'sim' or (self.kind == 'syspro' and self.rng.random() < .5):
            return self.sim.run(**kw)
        if self.kind in ('sys', 'syspro'):
            return self.roots[0].lib.runSimulation(**kw) if self.rng.random() < .7 else self.sim.run(**kw)
        return self.entries[0].lib.runSimulation(**kw) if self.rng.random() < .7 else self.sim.run(**kw)

    def kept(self, e):
        return (e.keep if e.keep is not None else self.keep)


def at(nested, idx):
    for i in idx:
        nested = nested[i]
    return nested
