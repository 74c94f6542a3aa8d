"""C09: running the sweep points in several processes gives what running them one after the other gives."""
import multiprocessing
import os
import time
import numpy as np
import quanguru as qg
from qgmon import model as M, promodel as PM, simmodel as S
from qgmon.core import Abort, arr, Skip
from checks import C08

RULE = ('Random sweeps over random simulations are run in sequences of single and multi process runs (own pools, core counts, remembered core counts, all cores of machines of several sizes; some runs fail in a computation of the user); computations '
        'sleep for random times so that points finish in random order; every result and state is compared with the mirror of the grid, and the process each '
        'point ran in is recorded. Signature: sequence of run modes, sweep kinds and shape, worker counts.')
MIN_EVENTS = {'run:multi': 40, 'run:single': 15, 'point': 300, 'result': 800, 'stored': 300, 'other process': 100, 'out of order': 3, 'failed:multi': 4, 'failed:single': 2, 'run:all': 8, 'run:all but told': 8, 'calculated': 100}
AUX = {}


class Boom(Exception):
    """An error of a computation of the user."""


def tick():
    if AUX.get('boom') is not None:
        AUX['boom'] -= 1
        if AUX['boom'] < 0:
            raise Boom('here')


def sim_pre(sim):
    time.sleep(float(np.random.default_rng(int(time.time() * 1e6) % 2**31).uniform(0, .012)))
    sim.qRes.singleResult = 'begin', time.time()


def sim_compute(sim, states):
    tick()
    sim.qRes.singleResult = 'p0', [float(abs(arr(s)[0, 0])**2) for s in states]
    sim.qRes.singleResult = 'pid', os.getpid()
    sim.qRes.resAverage = 'mean', float(abs(arr(states[0])[0, 0])**2)


def sim_post(sim):
    sim.qRes.singleResult = 'end', time.time()


def pro_compute(pro, state):
    pro.qRes.singleResult = 'first', complex(arr(state)[0, 0])


def sys_compute(s, state):
    s.qRes.resultsMethod('norm', float(np.linalg.norm(arr(state))))
    s.qRes.singleResult = 'last', complex(arr(state)[-1, 0])


def calc(owner, *args):
    """Stores nothing but a calculated quantity."""
    owner.qRes.calculated = 'state', [complex(x) for x in arr(owner.initialState).ravel()]


def install_bare(w):
    """Owners only calculate quantities; there are neither results nor states."""
    w.sim.delStates = True
    w.bare = []
    for r, e in w.systems():
        r.lib.simulation.delStates = True
        r.lib.preCompute = calc
        w.bare.append((r.lib, lambda r=r: S.tree_ket(r, None)))
    for e in w.entries:
        e.lib.simulation.delStates = True
        if not e.internal:
            e.lib.preCompute = calc
            w.bare.append((e.lib, e.start))


def judge_bare(m, w, multi):
    want = {id(o): [] for o, _ in w.bare}
    for idx in w.points():
        w.apply_point(idx)
        m.ev('point')
        for o, start in w.bare:
            want[id(o)].append([complex(x) for x in np.ravel(start())])
    for o, _ in w.bare:
        got = o.qRes.calculated.get('state', [])
        m.ev('calculated', len(got))
        if not (m.eq(len(got), len(want[id(o)]), 'what was calculated at the points is kept') and
                all(m.close(a, b, 'what was calculated at the points is kept in order', tol=1e-7) for a, b in zip(got, want[id(o)]))):
            raise Abort


def install(w):
    w.sim.preCompute, w.sim.compute, w.sim.postCompute = sim_pre, sim_compute, sim_post
    for e in w.entries:
        if not e.internal:
            e.lib.compute = pro_compute
    for r, _ in w.systems():
        r.lib.compute = sys_compute


def as_list(x):
    return x if isinstance(x, list) else [x]


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def judge(m, w, multi):
    """All results and states of the last run against the mirror."""
    ends = []
    for idx in w.points():
        w.apply_point(idx)
        traj = w.trajectories()
        norm = (lambda x: x) if not idx else C08.squeeze
        m.ev('point')

        def res(owner, key):
            return S.at(owner.resultsDict[key], idx)
        p0 = [[float(abs(t[k][0, 0])**2) for t in traj] for k in range(w.n + 1)]
        ok = m.close(res(w.sim, 'p0'), norm(p0), 'results of a point are found at its place', tol=1e-7)
        ok = ok and m.close(res(w.sim, 'mean'), np.mean([p[0] for p in p0]), 'averages are over the instants of their point', tol=1e-7)
        for e, t in zip(w.entries, traj):
            if not e.internal:
                ok = ok and m.close(res(e.lib, 'first'), norm([x[0, 0] for x in t]), 'results of a protocol are found at the place of their point', tol=1e-7)
        for r, e in w.systems():
            t = traj[w.entries.index(e)]
            ok = ok and m.close(res(r.lib, 'last'), norm([x[-1, 0] for x in t]), 'results of a system are found at the place of their point', tol=1e-7)
            ok = ok and m.close(res(r.lib, 'norm'), norm([1.0] * (w.n + 1)), 'results of a system are found at the place of their point', tol=1e-7)
        m.ev('result', w.n + 1)
        pids = set(as_list(res(w.sim, 'pid')))
        ok = ok and m.eq(len(pids), 1, 'a point is run by one process')
        other = pids != {os.getpid()}
        if other:
            m.ev('other process')
        ok = ok and m.check(other == multi, 'points are run by the processes that were asked for')
        ends.append(res(w.sim, 'end') if not isinstance(res(w.sim, 'end'), list) else res(w.sim, 'end')[0])
        for e, t in zip(w.entries, traj):
            key = str(e.name()) + 'Results'
            got = S.at(w.sim.states[key], idx)
            m.ev('stored')
            ok = ok and m.eq(len(got), len(t), 'states of a point are found at its place') and \
                all(m.close(a, b, 'states of a point are found at its place', tol=1e-7) for a, b in zip(got, t))
        if not ok:
            raise Abort
    if ends != sorted(ends):
        m.ev('out of order')

    def shape_ok(nested, shp):
        return not shp or (len(nested) == shp[0] and all(shape_ok(x, shp[1:]) for x in nested))
    m.check(shape_ok(w.sim.resultsDict['p0'], w.shape()), 'results have the shape of the sweeps', str(w.shape()))


def runs(rng, m):
    w = C08.make_world(rng, m, maxdim=3, maxD=9, updates=False)
    C08.add_sweeps(rng, m, w)
    if any(s.label == 'function' for s in w.sweeps):
        raise Skip
    bare = rng.random() < .25
    (install_bare if bare else install)(w)
    m.note('bare', bare)
    m.note('sweeps', [(s.label, s.n, s.comb) for s in w.sweeps])
    modes = []
    memory = AUX.get('memory')
    for _ in range(int(rng.integers(1, 5))):
        if rng.random() < .2 and not bare:       # a run that fails in between
            AUX['boom'] = int(rng.integers(0, 2 if any(s.label == 'time' for s in w.sweeps) else w.n + 1))      # (every point computes that often, so every process gets there)
            multi = rng.random() < .6
            try:
                w.run(**(dict(p=True, coreCount=int(rng.integers(1, 4))) if multi else dict(p=False)))
            except Boom:
                m.ev('failed:multi' if multi else 'failed:single')
                modes.append('failed')
            else:
                m.check(False, 'an error of a computation is raised by the run')
            AUX['boom'] = None
        cores = None
        k = ['single', 'multi', 'multi', 'pool', 'default', 'all', 'all but told'][int(rng.integers(7))]
        if k == 'single':
            w.run(p=False)
            multi = False
        elif k == 'multi':
            memory = int(rng.integers(1, 4))
            w.run(p=True, coreCount=memory)
            multi, cores = True, memory
        elif k.startswith('all'):
            # all cores but one, the number of cores being that of some machine
            real = multiprocessing.cpu_count
            multiprocessing.cpu_count = lambda c=int(rng.integers(1, 4)): c
            try:
                if k == 'all':
                    w.run(p=True, coreCount=['all', 'ALL', 'All'][int(rng.integers(3))])
                else:
                    w.run(p=True)
            finally:
                multiprocessing.cpu_count = real
            memory, multi = -1, True
            m.ev('run:' + k)
        elif k == 'pool':
            pool = multiprocessing.Pool(2)
            w.run(p=pool)
            pool.close()
            pool.join()
            memory, multi = 2, True
        else:
            w.run()
            multi, cores = memory is not None, memory     # the number of cores of the last parallel run is used again
        AUX['memory'] = memory
        if not bare and multi and cores not in (None, -1):
            pids = set(np.ravel(flat(w.sim.resultsDict['pid'])).tolist())
            m.check(len(pids) <= cores, 'points are run by as many processes as were asked for')
        m.check(not multiprocessing.active_children(), 'the processes of a run end with it')
        m.ev('run:multi' if multi else 'run:single')
        m.note(k, memory)
        modes.append((k, memory))
        (judge_bare if bare else judge)(m, w, multi)
        if rng.random() < .4:              # a parameter that is not swept changes between runs
            swept = {id(x) for s in w.sweeps for x in s.lib.subSys.values()}
            ls = [x for r in w.roots for x in r.leaves() if id(x.lib) not in swept and not any(id(t.lib) in swept for t in x.terms)]
            if ls:
                s = ls[int(rng.integers(len(ls)))]
                s.lib.frequency = s.terms[0].freq = float(rng.uniform(-2, 2))
                modes.append('edit')
    m.sig('runs', tuple(modes), tuple((s.label, s.n, s.comb) for s in w.sweeps), w.kind)
    m.sample = {'modes': modes, 'sweeps': [(s.label, s.n, s.comb) for s in w.sweeps], 'kind': w.kind}


FAMILIES = [('runs', runs, 160, 1500, 1)]
