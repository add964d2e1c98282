"""Shared machinery of the bounded exhaustive checks: counters, violations,
known findings, process pool, evidence.  See /verif/DESIGN.md."""

import contextlib
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRACE = {"quick": 90, "thorough": 900}
MAX_STORED = int(os.environ.get("MC_STORED", "12"))


class Hang(BaseException):
    pass


def plain(x, depth=0):
    """JSON-able, deterministic rendering."""
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return float(repr(x)) if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, dict):
        return {str(plain(k)): plain(v) for k, v in list(x.items())[:64]}
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v) for v in x), key=str)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in list(x)[:64]]
    return repr(x)[:300]


def short(x, limit=400):
    s = json.dumps(plain(x))
    return s if len(s) <= limit else s[:limit] + "..."


class Ctx:
    """What one task explored and what it found."""

    def __init__(self, prop, task, tier, known):
        self.prop, self.task, self.tier = prop, task, tier
        self.known = known  # list of known-finding entries for this property
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.n_violations = 0
        self.violations = []
        self.known_hit = set()
        self.samples = []
        self.outcomes = set()
        self.bounds = {}
        self.current = None
        self.judged = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- counters
    def state(self, n=1):
        self.states += int(n)

    def step(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def outcome(self, x):
        if len(self.outcomes) < 4096:
            self.outcomes.add(hashlib.md5(repr(x).encode()).hexdigest()[:12])

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(plain(x))

    def bound(self, name, value):
        self.bounds[name] = plain(value)

    def at(self, *case):
        self.current = case

    def judge(self, key, got=None):
        """Every comparison is counted; early ones leave a sample and the outcomes that were seen."""
        self.judged += 1
        if not self.samples:
            self.sample(key)
        if self.judged <= 2000 and got is not None and len(self.outcomes) < 4096:
            try:
                g = np.asarray(got)
                b = repr(got) if g.dtype == object else (g.shape, g.astype(complex).tobytes() if g.dtype.kind in "biufc" else g.tobytes())
            except Exception:
                b = repr(got)
            self.outcomes.add(hashlib.md5(repr(b).encode()).hexdigest()[:12])

    # -- verdicts
    def fail(self, key, msg, observed=None):
        key = str(key)
        obs = plain(observed)
        for kf in self.known:
            if kf["key"] == key and ("observed" not in kf or kf["observed"] == obs):
                self.known_hit.add(kf["id"])
                return
        self.n_violations += 1
        if len(self.violations) < MAX_STORED:
            self.violations.append(
                {"key": key, "message": str(msg)[:1500], "observed": obs}
            )

    def ok(self, cond, key, msg="", observed=None):
        self.judge(key, observed)
        if not cond:
            self.fail(key, msg, observed)
        return bool(cond)

    def eq(self, got, want, key, msg=""):
        """Exact equality, including shape for arrays."""
        self.judge(key, got)
        try:
            g, w = np.asarray(got), np.asarray(want)
            good = g.shape == w.shape and bool(np.array_equal(g, w))
        except Exception:  # ragged
            good = got == want
        if not good:
            self.fail(key, f"{msg}: got {short(got)}, expected {short(want)}", got)
        return good

    def close(self, got, want, key, msg="", tol=1e-9):
        self.judge(key, got)
        g, w = np.asarray(got, dtype=complex), np.asarray(want, dtype=complex)
        good = g.shape == w.shape
        if good and g.size:
            fin = np.isfinite(w)
            good = bool(np.all(np.isfinite(g) == fin)) and bool(
                np.all(np.abs(g[fin] - w[fin]) <= tol * (1 + np.abs(w[fin])))
            )
            if good and not np.all(fin):
                good = bool(np.all(np.real(g[~fin]) == np.real(w[~fin])))
        if not good:
            self.fail(key, f"{msg}: got {short(got)}, expected {short(want)}", got)
        return good

    @contextlib.contextmanager
    def guard(self, key, msg=""):
        """An exception out of the code under test is a violation of the case."""
        try:
            yield
        except Hang:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:][::-1])
            self.fail(
                key,
                f"{msg}: unexpected {type(e).__name__}: {str(e)[:300]} at {where}",
                f"{type(e).__name__}",
            )

    def raises(self, exc, fn, key, msg=""):
        self.judge(key)
        try:
            r = fn()
        except exc:
            return True
        except Hang:
            raise
        except Exception as e:
            self.fail(key, f"{msg}: raised {type(e).__name__} ({e}) instead of rejecting", type(e).__name__)
            return False
        self.fail(key, f"{msg}: accepted, returned {short(r)}", r)
        return False


@contextlib.contextmanager
def time_limit(seconds, what):
    """A call that does not come back is reported as such (nests in the task alarm)."""

    def onalarm(sig, frm):
        raise Hang(what)

    old = signal.signal(signal.SIGALRM, onalarm)
    left = signal.alarm(int(seconds))
    t0 = time.time()
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(max(1, int(left - (time.time() - t0))))


def _run_task(conn, prop, name, fn, kwargs, tier, known, limit):
    ctx = Ctx(prop, name, tier, known)

    def onalarm(sig, frm):
        raise Hang("task time limit")

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    t0 = time.time()
    try:
        import warnings

        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        fn(ctx, **kwargs)
    except Hang:
        ctx.fail(f"{name}/hang", f"no answer within {limit}s; current case: {short(ctx.current)}")
    except BaseException as e:
        ctx.fail(
            f"{name}/exception",
            f"unexpected {type(e).__name__}: {e}; case {short(ctx.current)}\n"
            + "".join(traceback.format_tb(e.__traceback__)[-4:]),
            type(e).__name__,
        )
    signal.alarm(0)
    out = {
        "name": name,
        "states": ctx.states,
        "transitions": ctx.transitions or ctx.judged,
        "traces": ctx.traces,
        "n_violations": ctx.n_violations,
        "violations": ctx.violations,
        "known_hit": sorted(ctx.known_hit),
        "samples": ctx.samples,
        "outcomes": sorted(ctx.outcomes),
        "bounds": ctx.bounds,
        "wall": time.time() - t0,
    }
    conn.send(out)
    conn.close()


def run_tasks(prop, tasks, tier, known, limit, jobs):
    """Each task in its own forked process, at most `jobs` at a time."""
    mpx = mp.get_context("fork")
    pending = list(tasks)
    running = {}
    results = []
    stop = None  # a violation decides the run: the rest gets only a while longer
    while pending or running:
        while pending and len(running) < jobs:
            name, fn, kwargs = pending.pop(0)
            a, b = mpx.Pipe(duplex=False)
            p = mpx.Process(target=_run_task, args=(b, prop, name, fn, kwargs, tier, known, limit))
            p.start()
            b.close()
            running[a] = (name, p, time.time())
        ready = mpc.wait(list(running), timeout=1.0)
        for conn in ready:
            name, p, t0 = running.pop(conn)
            try:
                results.append(conn.recv())
            except EOFError:
                results.append(_dead(name, "task process died without an answer"))
            p.join()
            if results[-1]["n_violations"] and stop is None:
                stop = time.time() + GRACE[tier]
        if stop is not None and time.time() > stop and (pending or running):
            print(f"stopped early: {len(pending) + len(running)} tasks unfinished after a violation", flush=True)
            for _, p, _ in running.values():
                p.kill()
                p.join()
            break
        for conn in [c for c, (_, _, t0) in running.items() if time.time() - t0 > limit + 15]:
            name, p, t0 = running.pop(conn)
            p.kill()
            p.join()
            results.append(_dead(name, f"killed after {limit + 15}s without an answer"))
    return results


def _dead(name, why):
    return {
        "name": name, "states": 0, "transitions": 0, "traces": 0, "n_violations": 1,
        "violations": [{"key": f"{name}/hang", "message": why, "observed": None}],
        "known_hit": [], "samples": [], "outcomes": [], "bounds": {}, "wall": 0.0,
    }
