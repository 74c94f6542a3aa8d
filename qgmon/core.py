"""Monitor context, case runner (forked, seeded, replayable) and verdict/evidence bookkeeping."""
import faulthandler
import hashlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np
import scipy.sparse as sp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = '/repo/src'
NPROC = max(1, min(8, os.cpu_count() or 1))


class Skip(Exception):
    """The generated case is outside the property's domain (counted, never a verdict)."""


class Abort(Exception):
    """Stop the current case after a violation that makes the rest meaningless."""


class CaseTimeout(Exception):
    pass


def arr(x):
    """Dense ndarray copy of any matrix-like."""
    if sp.issparse(x):
        return np.array(x.toarray())
    return np.array(x)


def short(x, n=400):
    if sp.issparse(x):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        s = np.array2string(np.asarray(x), precision=5, threshold=40, max_line_width=160)
    else:
        s = repr(x)
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


class Mon:
    """One case's view of the monitor: records observed events, signatures and violations."""

    def __init__(self, family):
        self.family = family
        self.violations = []
        self.events = {}
        self.sigs = set()
        self.sample = None
        self.log = []
        self.expect_exc = None

    # -- recording
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def sig(self, *parts):
        """A distinct, non-trivial thing this case exercised."""
        self.sigs.add(hashlib.md5(repr((self.family,) + parts).encode()).hexdigest()[:16])

    def note(self, *parts):
        """Append to this case's history (shown in samples / replay files)."""
        if len(self.log) < 400:
            self.log.append(' '.join(str(p) for p in parts))

    # -- judging
    def fail(self, what, detail='', mech=None):
        self.violations.append({'what': what, 'detail': str(detail)[:1500], 'mech': mech or what})

    def check(self, cond, what, detail='', mech=None):
        self.ev('checks')
        if not cond:
            self.fail(what, detail() if callable(detail) else detail, mech)
        return bool(cond)

    def eq(self, got, want, what, mech=None):
        self.ev('checks')
        ok = (got == want)
        if isinstance(ok, np.ndarray):
            ok = bool(ok.all())
        if not ok:
            self.fail(what, f'got {short(got)} want {short(want)}', mech)
        return bool(ok)

    def close(self, got, want, what, tol=1e-8, mech=None):
        """Elementwise closeness with a tolerance scaled by the magnitude of the reference."""
        self.ev('checks')
        try:
            g, w = arr(got), arr(want)
            if g.shape != w.shape:
                self.fail(what, f'shape {g.shape} != {w.shape}: got {short(g)} want {short(w)}', mech)
                return False
            g = g.astype(complex)
            w = w.astype(complex)
        except (TypeError, ValueError) as e:
            self.fail(what, f'not numeric: {short(got)} ({e})', mech)
            return False
        if g.size == 0:
            return True
        scale = max(1.0, float(np.max(np.abs(w))) if np.all(np.isfinite(w)) else 1.0)
        d = np.abs(g - w)
        if not np.all(np.isfinite(g)) or float(np.max(d)) > tol * scale:
            md = float(np.nanmax(d)) if np.any(np.isfinite(d)) else float('nan')
            self.fail(what, f'max|diff|={md:.3g} got {short(g)} want {short(w)}', mech)
            return False
        return True


def case_seed(seed, pid, family, idx):
    return [int(seed) & 0xffffffff, zlib.crc32(pid.encode()), zlib.crc32(family.encode()), int(idx)]


def _from_repo(tb):
    """Is the innermost non-library frame of this traceback in the code under test?"""
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO_SRC) or fn.startswith(VERIF):
            last = fn
        tb = tb.tb_next
    return last is not None and last.startswith(REPO_SRC)


def _touches_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_SRC):
            return True
        tb = tb.tb_next
    return False


class Rng(np.random.Generator):
    """A generator whose uniform numbers are, in a case that wants coincidences, taken from a coarse grid:
    frequencies, step sizes, angles and swept values are then often equal to each other."""
    snap = False

    def uniform(self, low=0.0, high=1.0, size=None):
        x = super().uniform(low, high, size)
        if not self.snap:
            return x
        for step in (.5, .25, .1):
            k = np.arange(np.ceil(low / step), np.floor(high / step) + 1)
            if len(k) > 1:
                g = k * step
                return np.float64(g[np.abs(g - x).argmin()]) if size is None else g[np.abs(g[:, None] - np.ravel(x)).argmin(0)].reshape(np.shape(x))
        return x

    def fresh(self, low, high, old):
        """Another value of a parameter: uniform, or (sometimes) one that is hardly different from the one it has."""
        if old is None or self.random() >= .15:
            return float(self.uniform(low, high))
        return float(old) + (1 if self.random() < .5 else -1) * 10 ** float(super().uniform(-6.5, -2.5))


def run_case(pid, family, func, seed, idx, case_timeout=240):
    """Run one case; returns a plain dict."""
    s = case_seed(seed, pid, family, idx)
    rng = Rng(np.random.PCG64(s))
    rng.snap = zlib.crc32(repr(s).encode()) % 5 == 0
    random.seed(repr(s))
    np.random.seed(np.random.SeedSequence(s).generate_state(1)[0])
    m = Mon(family)
    out = {'family': family, 'idx': idx, 'skip': False, 'error': None}

    def onalarm(signum, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(case_timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            func(rng, m)
    except Skip:
        out['skip'] = True
    except Abort:
        pass
    except CaseTimeout:
        out['error'] = f'case {family}#{idx} timed out after {case_timeout}s'
    except Exception as e:  # noqa
        tb = e.__traceback__
        txt = ''.join(traceback.format_exception(type(e), e, tb))[-3000:]
        if _touches_repo(tb):
            m.fail(f'{family}: unexpected {type(e).__name__} raised by the library', txt[-1400:],
                   mech=f'{family}:raises:{type(e).__name__}')
        else:
            out['error'] = f'harness error in {family}#{idx}:\n{txt}'
    finally:
        signal.alarm(0)
    out.update(violations=m.violations, events=m.events, sigs=sorted(m.sigs), sample=m.sample, log=m.log)
    return out


def _child(pid, jobs, seed, path, deadline):
    faulthandler.enable()
    res = []
    for fam, func, idx in jobs:
        if time.time() > deadline:
            break
        res.append(run_case(pid, fam, func, seed, idx))
    tmp = path + '.tmp'
    with open(tmp, 'wb') as f:
        pickle.dump(res, f)
    os.rename(tmp, path)


def run_all(pid, families, seed, tier, scratch, budget_s, only=None, nproc=NPROC):
    """families: list of (name, func, n_quick, n_thorough[, batch]). Returns (results, errors, planned)."""
    jobs = []
    for fam in families:
        name, func, nq, nt = fam[:4]
        batch = fam[4] if len(fam) > 4 else 4 if pid.startswith('C') else 25  # registries grow with every object
        if only and name not in only:
            continue
        n = nq if tier == 'quick' else nt
        for a in range(0, n, batch):
            jobs.append([(name, func, i) for i in range(a, min(n, a + batch))])
    planned = sum(len(j) for j in jobs)
    # interleave so that a time cap thins every family instead of dropping the last ones
    order = sorted(range(len(jobs)), key=lambda k: (zlib.crc32(repr((jobs[k][0][0], jobs[k][0][2])).encode())))
    queue = [jobs[k] for k in order]
    deadline = time.time() + budget_s
    running, results, errors = {}, [], []
    serial = 0
    sys.stdout.flush()
    sys.stderr.flush()
    while queue or running:
        while queue and len(running) < nproc and time.time() < deadline:
            job = queue.pop(0)
            path = os.path.join(scratch, f'b{serial}.pkl')
            serial += 1
            p = os.fork()
            if p == 0:
                code = 0
                try:
                    _child(pid, job, seed, path, deadline + 60)
                except BaseException:  # noqa
                    traceback.print_exc()
                    code = 9
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            running[p] = (path, job)
        if not running:
            break
        p, st = os.wait()
        if p not in running:
            continue
        path, job = running.pop(p)
        if os.path.exists(path):
            with open(path, 'rb') as f:
                results.extend(pickle.load(f))
            os.unlink(path)
        else:
            errors.append(f'worker for {job[0][0]}#{job[0][2]}.. died with status {st}')
    return results, errors, planned


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
        f.write('\n')
    os.replace(tmp, path)
