"""C12: time-dependent parameters take, in every step of every run, the value of the time or position of that step."""
import numpy as np
import quanguru as qg
from qgmon import model as M, promodel as PM, simmodel as S
from qgmon.core import Abort, arr, Skip
from checks import C07

RULE = ('Random worlds (explicit, system-owned and protocol-owned simulations of several systems and protocols) get time-dependent terms at random places, whose '
        'functions set frequencies, operators, other systems\' frequencies or gate angles, possibly using parameters swept by the simulation, or time-dependency '
        'sweeps of lists or functions over several objects; everything is run, edited and run again. The log of the times the functions are called with and every '
        'computed and stored state are compared with stepwise evolution of a mirror. Signature: run kind, places and kinds of time dependence.')
MIN_EVENTS = {'run': 80, 'state': 800, 'td': 60, 'tdcall': 500, 'sweeplist': 40, 'range': 5, 'rerun': 20, 'hook:frequency': 20, 'hook:angle': 2, 'hook:other': 2}


class Hooks:
    """Functions of time acting on library and mirror alike."""

    def __init__(self, w, m):
        self.w, self.m, self.hooks, self.seen = w, m, [], []
        w.set_time = self.set_time

    def set_time(self, t):
        for h in self.hooks:
            h(t)


def shape(rng):
    k = int(rng.integers(5))
    a, b = float(rng.uniform(-2, 2)), float(rng.uniform(.2, 3))
    if k == 0:
        return lambda t: a + b * t
    if k == 1:
        return lambda t: a * np.sin(b * t)
    if k == 2:
        return lambda t: a * np.exp(-b * t)
    if k == 3:
        return lambda t: a if t < b else -a       # switched
    return lambda t: a * np.cos(b * t) ** 2 + .1


def busy(w, t):
    """Terms that an update of a protocol changes are not made time dependent."""
    return any(t in [n.terms[0] for n in u.nodes] for pool in w.pools.values() for p in pool for u in p.updates)


def add_hook(rng, m, w, H, taken):
    root = w.roots[int(rng.integers(len(w.roots)))]
    ts = [t for t in root.terms_below() if t.parts is None and id(t) not in taken and not busy(w, t)]
    if not ts:
        return None
    t = ts[int(rng.integers(len(ts)))]
    if t.lib.timeDependency is not None:
        return None
    f = shape(rng)
    what = ['frequency', 'frequency', 'frequency', 'angle', 'other', 'operator'][int(rng.integers(6))]
    log = []
    if what == 'frequency':
        first = t.single and t.owner.terms[0] is t and rng.random() < .4

        def lib(term, time, f=f, first=first):
            log.append(time)
            if first:
                t.owner.lib.frequency = f(time)
            else:
                term.frequency = f(time)

        def mir(time):
            t.freq = f(time)
        taken.add(id(t))
    elif what == 'angle':
        gs = [p for p in w.pools.get(id(root), []) if isinstance(p, PM.MGate) and id(p) not in taken
              and not any(u.gate is p for q in w.pools.get(id(root), []) for u in q.updates)]
        if not gs:
            return None
        g = gs[int(rng.integers(len(gs)))]
        taken.add(id(g))

        def lib(term, time):
            log.append(time)
            g.lib.angle = f(time)

        def mir(time):
            g.angle = f(time)
    elif what == 'other':
        os_ = [x for x in root.terms_below() if x.parts is None and id(x) not in taken and x is not t and not busy(w, x)]
        if not os_:
            return None
        o = os_[int(rng.integers(len(os_)))]
        taken.add(id(o))
        taken.add(id(t))
        a = float(rng.uniform(.5, 2))

        def lib(term, time):       # sets its own frequency relative to that of another term
            log.append(time)
            term.frequency = a * o.lib.frequency * (1 + time)

        def mir(time):
            t.freq = a * o.freq * (1 + time)
    else:
        if not t.single:
            return None
        names = M.ops_for(t.owner.kind, t.owner.dimension(), True)
        ns = [names[int(rng.integers(len(names)))] for _ in range(2)]
        c = float(rng.uniform(.1, 2))
        taken.add(id(t))

        def lib(term, time):
            log.append(time)
            term.operator = M.lib_op(ns[0] if time < c else ns[1])

        def mir(time):
            t.factors[0][1] = ns[0] if time < c else ns[1]
    t.lib.timeDependency = lib
    H.hooks.append(mir)
    H.seen.append((log, root))
    m.note('time-dependent', what, 'of', t.owner.lib.name)
    m.ev('td')
    m.ev('hook:' + what)
    return what


def runs(rng, m):
    w = S.World(rng, m, own_dt=False, td=True)
    H = Hooks(w, m)
    taken = set()
    kinds = [add_hook(rng, m, w, H, taken) for _ in range(int(rng.integers(1, 4)))]
    if not any(kinds):
        raise Skip
    # a swept parameter besides the time-dependent ones
    sw = []
    if rng.random() < .4:
        root = w.roots[int(rng.integers(len(w.roots)))]
        ts = [t for t in root.terms_below() if t.parts is None and not busy(w, t)]
        ts = [t for t in ts if t.lib.timeDependency is None]
        if ts:
            t = ts[int(rng.integers(len(ts)))]
            vals = [float(x) for x in rng.uniform(-2, 2, int(rng.integers(2, 4)))]
            w.sim.Sweep.createSweep(system=t.lib, sweepKey='frequency', sweepList=vals)
            sw = [(t, vals)]
            m.note('sweep', vals)
    log = C07.Log(w, m)
    if rng.random() < .25:
        n = int(rng.integers(2, 4))
        (w.sim if w.kind == 'sim' else w.roots[0].lib.simulation).samples = n
        for q in [q for pool in w.pools.values() for q in pool if isinstance(q, PM.MFree)] + [e.mp for e in w.entries if isinstance(e.mp, PM.MFree)]:
            q.samples = n
        m.note('samples', n)
    if rng.random() < .3:
        for e in w.entries:
            e.lib.unitary()       # read before the run, whatever the time is then
    for r in range(1 + int(rng.random() < .5)):
        for l, _ in H.seen:
            del l[:]
        del log.calls[:]
        w.run()
        m.ev('run')
        if r:
            m.ev('rerun')
        want, trajs = [], []
        for v in (sw[0][1] if sw else [None]):
            if sw:
                sw[0][0].freq = v
            tr = w.trajectories()
            trajs.append(tr)
            want += C07.expected_calls(w, log, tr)
        C07.check_calls(m, log.calls, want)
        for i, tr in enumerate(trajs):
            C07.check_storage(m, w, tr, (i,) if sw else ())
        grid = [(k + 1) * w.dt for k in range(w.n)]
        for l, root in H.seen:
            l = [float(x) for x in l]
            m.ev('tdcall', len(l))
            ok = all(min(abs(x - g) for g in grid) < 1e-9 for x in l)
            m.check(ok, 'time dependence is evaluated at the times of the steps', f'{l} for steps {grid}')
            m.check(all(any(abs(x - g) < 1e-9 for x in l) for g in grid), 'time dependence is evaluated in every step', f'{l} for steps {grid}')
            # within a sweep point, time does not go back
            drops = sum(b < a - 1e-9 for a, b in zip(l, l[1:]))
            m.check(drops == (len(trajs) - 1 if w.n > 1 else 0), 'time runs forward once per sweep point', f'{l}')
        root = w.roots[0]
        if r == 0:
            k = int(rng.integers(3))
            if k == 0 and w.kind == 'sim':
                w.n = int(rng.integers(1, 6))
                w.sim.totalTime = w.T = (w.n - .5) * w.dt
            elif k == 1:
                M.edit_frequency(rng, root, m)
    m.sig('td', w.kind, tuple(e.desc() for e in w.entries), tuple(str(k) for k in kinds), len(sw))
    m.sample = {'kind': w.kind, 'entries': [e.desc() for e in w.entries], 'hooks': [str(k) for k in kinds], 'steps': w.n}


def lists(rng, m):
    """Time-dependency sweeps: the k-th value holds in the k-th step."""
    w = S.World(rng, m, own_dt=False, updates=False, td=True)
    H = Hooks(w, m)
    taken = set()
    base = w.n + int(rng.integers(0, 3)) if rng.random() < .8 else max(1, w.n - 1)
    acts = []
    functions = rng.random() < .3
    for i in range(int(rng.integers(1, 4))):
        root = w.roots[int(rng.integers(len(w.roots)))]
        pool = w.pools.get(id(root), [])
        cands = [[(x.lib, 'frequency', x.terms[0], 'freq')] for x in root.leaves()]
        cands += [[(t.lib, 'frequency', t, 'freq')] for t in root.terms_below() if t.parts is None]
        cands += [[(g.lib, 'angle', g, 'angle')] for g in pool if isinstance(g, PM.MGate)] * 2
        cands += [[(f.lib, 'ratio', f, 'ratio')] for f in pool if isinstance(f, PM.MFree) and f.lib is not f.s.lib]
        ls = root.leaves()
        if len(ls) > 1:
            cands.append([(x.lib, 'frequency', x.terms[0], 'freq') for x in ls])
        c = cands[int(rng.integers(len(cands)))]
        if any((id(x[2]), x[3]) in taken for x in c):
            continue
        taken |= {(id(x[2]), x[3]) for x in c}
        vals = [float(x) for x in rng.uniform(.1, 2, base)]
        libs = [x[0] for x in c]
        key = c[0][1]
        how = 0 if functions else int(rng.integers(5))
        if how == 0:
            def fun(s, libs=tuple(libs), key=key, vals=tuple(vals)):
                for x in libs:
                    setattr(x, key, vals[s.index % len(vals)])
            s = w.sim.timeDependency.createSweep(system=libs, sweepKey=key)
            s.sweepFunction = fun
            fn = True
        elif how == 1:
            s = w.sim.timeDependency.createSweep(system=libs if len(libs) > 1 else libs[0], sweepKey=key)
            s.sweepList = vals
            fn = False
        elif how == 4:
            lo, st = float(rng.uniform(.1, 1)), float(rng.uniform(.1, .5)) * (1 if key == 'ratio' or rng.random() < .7 else -1)
            vals = [lo + st * k for k in range(base)]
            s = w.sim.timeDependency.createSweep(system=libs, sweepKey=key, sweepMin=lo, sweepMax=vals[-1] + st * float(rng.uniform(.05, .9)), sweepStep=st)
            fn = False
            m.ev('range')
        else:
            s = w.sim.timeDependency.createSweep(system=libs, sweepKey=key, sweepList=vals if how == 2 else np.array(vals))
            fn = False
        acts.append((c, vals, fn))
        m.note('list', key, [str(x.name) for x in libs], vals, how)
        m.ev('sweeplist')
    # how many values there are is decided by the first sweep
    first = acts[0]
    count = w.n if first[2] else len(first[1])
    if any(len(v) < count for _, v, fn in acts if not fn):
        raise Skip

    def set_time(t):
        k = int(round(t / w.dt)) - 1
        for c, vals, fn in acts:
            for x in c:
                setattr(x[2], x[3], vals[(k % count) % len(vals)])
    w.set_time = set_time
    sw = []
    if rng.random() < .3:
        root = w.roots[0]
        ts = [t for t in root.terms_below() if t.parts is None and (id(t), 'freq') not in taken]
        if ts:
            t = ts[int(rng.integers(len(ts)))]
            v = [float(x) for x in rng.uniform(-2, 2, 2)]
            w.sim.Sweep.createSweep(system=t.lib, sweepKey='frequency', sweepList=v)
            sw = [(t, v)]
    log = C07.Log(w, m)
    for r in range(1 + int(rng.random() < .5)):
        del log.calls[:]
        w.run()
        m.ev('run')
        if r:
            m.ev('rerun')
        want = []
        for v in (sw[0][1] if sw else [None]):
            if sw:
                sw[0][0].freq = v
            want += C07.expected_calls(w, log, w.trajectories())
        C07.check_calls(m, log.calls, want)
        m.eq(w.sim.stepCount, w.n, 'the number of steps covers the total time')
        if r == 0 and w.kind == 'sim' and all(fn for _, _, fn in acts):
            w.n = int(rng.integers(1, 7))
            if rng.random() < .5:
                w.sim.totalTime = w.T = (w.n - .5) * w.dt
            else:
                w.sim.stepSize = w.dt = w.T / (w.n - .5)
            count = w.n
            m.note('steps', w.n)
            m.ev('steps changed')
    m.sig('list', w.kind, tuple(e.desc() for e in w.entries), tuple((c[0][1], fn, len(c)) for c, _, fn in acts), len(sw))
    m.sample = {'kind': w.kind, 'entries': [e.desc() for e in w.entries], 'keys': [c[0][1] for c, _, _ in acts]}


FAMILIES = [('runs', runs, 200, 2000), ('lists', lists, 140, 1500)]
