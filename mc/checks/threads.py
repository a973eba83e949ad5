"""Predictions do not depend on the schedule of threads (C05).

Two threads evaluate the real library under a controlled scheduler: every line that
is executed within the library is a scheduling point, only the thread that holds the
baton runs, and all schedules up to a number of preemptions are executed.
"""

import json
import os
import shutil
import sys
import tempfile
import threading

import numpy as np

from .. import calls, core
from ..catalog import CATALOG
from .history import in_child, same

BLOCKED = 0.1, 4  # sec. and times without progress: waits for a lock of the library


RUN = None  # the execution of this process


class Deadlock(Exception):
    """Both threads wait for each other."""


class Lock:
    """A lock that the library creates: a thread which has to wait for it hands over
    to the other thread, so that waiting is a transition of the scheduler."""

    def __init__(self, lock):
        self._lock = lock

    def acquire(self, blocking=True, timeout=-1):
        if self._lock.acquire(False):
            return True
        if not blocking:
            return False
        tid = RUN.thread() if RUN is not None else None
        if tid is None:
            return self._lock.acquire(blocking, timeout)
        return RUN.wait(tid, self._lock)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self._lock.release()

    def __getattr__(self, name):
        return getattr(self._lock, name)


def control_locks():
    """Locks created by the library are controlled by the scheduler."""
    for k in [k for k in sys.modules if k.split(".")[0] == "pygmm"]:
        raise RuntimeError(f"{k} was imported before")

    def factory(create):
        def make():
            frame = sys._getframe(1)
            while frame is not None and frame.f_code.co_filename == threading.__file__:
                frame = frame.f_back
            if frame is not None and frame.f_code.co_filename.startswith(src_dir()):
                return Lock(create())
            return create()

        return make

    threading.Lock = factory(threading.Lock)
    threading.RLock = factory(threading.RLock)


class Execution:
    """One execution of the bodies under a schedule.

    Only the first executions of a line, up to `visits`, are scheduling points.
    switches is a list of (thread, count): the thread hands over to the other one
    just before its count-th scheduling point.
    """

    def __init__(self, bodies, first, switches, src, visits, opcodes=False):
        self.bodies = bodies
        self.switches = list(switches)
        self.src = src
        self.visits = visits
        self.seen = [{}, {}]
        self.opcodes = opcodes
        self.first = first
        self.count = [0, 0]
        self.events = [0, 0]
        self.done = [False, False]
        self.result = [None, None]
        self.baton = [threading.Semaphore(0), threading.Semaphore(0)]
        self.finished = threading.Semaphore(0)
        self.trail = []
        self.pending = 0
        self.idents = [None, None]

    def thread(self):
        me = threading.get_ident()
        return self.idents.index(me) if me in self.idents else None

    def wait(self, tid, lock):
        """The thread waits for a lock of the other one."""
        other = 1 - tid
        while not self.done[other]:
            before = self.events[other]
            self.baton[other].release()
            self.baton[tid].acquire()
            if lock.acquire(False):
                return True
            if self.events[other] == before:
                break
        if lock.acquire(False):
            return True
        raise Deadlock()

    def point(self, tid, frame):
        if self.visits is not None:
            place = (frame.f_code, frame.f_lasti if self.opcodes else frame.f_lineno)
            seen = self.seen[tid]
            k = seen[place] = seen.get(place, 0) + 1
            if k > self.visits:
                return
        self.count[tid] += 1
        if self.pending < len(self.switches) and self.switches[self.pending] == (
            tid,
            self.count[tid],
        ):
            self.pending += 1
            self.trail.append(
                (tid, os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            )
            other = 1 - tid
            if not self.done[other]:
                self.baton[other].release()
                # Resumes when the other is preempted, at its end, or when it waits
                # for this one
                idle, last = 0, -1
                while not self.baton[tid].acquire(timeout=BLOCKED[0]):
                    idle = idle + 1 if self.events[other] == last else 0
                    last = self.events[other]
                    if idle >= BLOCKED[1]:
                        break

    def run_thread(self, tid):
        def local(frame, event, arg):
            self.events[tid] += 1
            if event == ("opcode" if self.opcodes else "line"):
                self.point(tid, frame)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.src):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        self.idents[tid] = threading.get_ident()
        self.baton[tid].acquire()
        sys.settrace(tracer)
        try:
            self.result[tid] = core.outcome(self.bodies[tid])
        finally:
            sys.settrace(None)
            self.done[tid] = True
            self.baton[1 - tid].release()
            self.finished.release()

    def run(self):
        global RUN
        RUN = self
        threads = [
            threading.Thread(target=self.run_thread, args=(i,), daemon=True)
            for i in (0, 1)
        ]
        for t in threads:
            t.start()
        self.baton[self.first].release()
        for _ in threads:
            if not self.finished.acquire(timeout=120):
                raise RuntimeError("threads do not finish")
        for t in threads:
            t.join()
        return self.result


# --------------------------------------------------------------------------
# Harnesses: callable() -> bodies
# --------------------------------------------------------------------------
def h_models(ei, i, ej, j, before=None):
    """Two independent predictions, perhaps after another one."""
    a, b = CATALOG[ei], CATALOG[ej]

    def make():
        if before is not None:
            core.outcome(lambda: a.observe(a.build(a.scenarios[before])))
        return [
            lambda: a.observe(a.build(a.scenarios[i])),
            lambda: b.observe(b.build(b.scenarios[j])),
        ]

    return make


def h_shared_scenario(ei, i, ej):
    """Two models are evaluated with the same scenario object."""
    a, b = CATALOG[ei], CATALOG[ej]
    scen, opts = a.options(a.scenarios[i])

    def make():
        s = core.import_library().Scenario(**scen)
        return [
            lambda: a.observe(a.load()(s, **opts)),
            lambda: b.observe(b.load()(s, **opts)),
        ]

    return make


def h_shared_model(ei, i):
    """Two threads read one prediction."""
    a = CATALOG[ei]

    def make():
        m = a.build(a.scenarios[i])
        return [lambda: a.observe(m), lambda: a.observe(m)]

    return make


def h_call(ci, same_arguments=False, warm=False):
    def make():
        c = calls.calls()[ci]

        def one(factor):
            return as_dict(c.run({k: v * factor for k, v in c.arrays.items()}))

        if warm:
            one(0.9)
        return [lambda: one(1.0), lambda: one(1.0 if same_arguments else 0.9)]

    return make


def as_dict(seq):
    return {str(i): np.array(v, float) for i, v in enumerate(seq)}


def h_hkr(i, j):
    scen = [
        dict(mag=5.5, dist_jb=20.0, v_s30=400.0, mechanism="SS"),
        dict(mag=6.8, dist_jb=70.0, v_s30=700.0, mechanism="RS", depth_hyp=9.0),
    ]

    def one(k):
        import importlib

        pygmm = core.import_library()
        mod = importlib.import_module("pygmm.hermkes_kuehn_riggelsen_2014")
        m = mod.HermkesKuehnRiggelsen2014(pygmm.Scenario(**scen[k]))
        return dict(
            sa=m.spec_accels, std=m.ln_stds, pga=np.array(m.pga), pgv=np.array(m.pgv)
        )

    def make():
        import importlib

        core.import_library()
        importlib.import_module("pygmm.hermkes_kuehn_riggelsen_2014")
        return [lambda: one(i), lambda: one(j)]

    return make


def equal(a, b):
    if isinstance(a, core.Raised) or isinstance(b, core.Raised):
        return isinstance(a, core.Raised) and isinstance(b, core.Raised) and a.kind == b.kind
    return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)


def harnesses(thorough):
    out = []
    for ei, e in enumerate(CATALOG):
        n = len(e.scenarios)
        for i in range(n):
            for j in range(n):
                if i < j and (thorough or (i, j) == (0, 1)):
                    out.append((f"{e.abbrev} {i} | {e.abbrev} {j}", ("models", ei, i, ei, j)))
            if i == 0 or thorough:
                out.append((f"{e.abbrev} {i} | {e.abbrev} {i}", ("models", ei, i, ei, i)))
                j = (i + 1) % n
                out.append(
                    (f"{e.abbrev} {i} | {e.abbrev} {i} after {j}", ("models", ei, i, ei, i, j))
                )
                out.append((f"{e.abbrev} {i} shared scenario", ("scenario", ei, i, ei)))
                out.append((f"{e.abbrev} {i} shared prediction", ("prediction", ei, i)))
        # Models of a different kind
        for ej in range(len(CATALOG)):
            if ej == (ei + 1) % len(CATALOG) or (thorough and ej > ei):
                out.append(
                    (f"{e.abbrev} 0 | {CATALOG[ej].abbrev} 0", ("models", ei, 0, ej, 0))
                )
    for ci, c in enumerate(calls.calls()):
        if not c.name.startswith("GMM") or c.name.endswith("linear"):
            out.append((f"{c.name} | {c.name}", ("call", ci)))
            out.append((f"{c.name} | same", ("call", ci, True)))
            out.append((f"{c.name} | same after another", ("call", ci, True, True)))
    return out


MAKE = dict(
    models=h_models, scenario=h_shared_scenario, prediction=h_shared_model, call=h_call
)
MAKE["hkr"] = h_hkr


def visits():
    return 8 if core.thorough() else 2


def src_dir():
    return os.path.join(os.path.abspath(core.REPO), "src", "pygmm")


def profile(spec):
    """Number of scheduling points of each thread, and sequential observations.

    Each in a process in which the library was imported but not used, as for
    schedules: what is initialized at the first use, is so in every execution.
    """
    make = MAKE[spec[0]](*spec[1:])
    src = src_dir()

    def count(tid):
        # The thread runs to completion before the other one
        x = Execution(make(), tid, [], src, visits())
        x.run()
        return x.count[tid]

    counts = [in_child(lambda: count(tid)) for tid in (0, 1)]
    # Observations without any scheduler
    base = [in_child(lambda: core.outcome(make()[tid])) for tid in (0, 1)]
    return counts, base


def run_schedules(args):
    """Executes a list of schedules of one harness."""
    spec, base, schedules, cold = args
    if not cold:
        return in_child(lambda: run_schedules_here(args))
    return run_schedules_here(args)


def run_schedules_here(args):
    spec, base, schedules, cold = args
    make = MAKE[spec[0]](*spec[1:])
    src = src_dir()
    out, n, points = [], 0, 0
    for first, switches in schedules:

        def one(first=first, switches=switches):
            x = Execution(make(), first, switches, src, visits())
            x.run()
            bad = [t for t in (0, 1) if not equal(x.result[t], base[t])]
            return bad, x.trail, x.pending, sum(x.count)

        bad, trail, pending, k = in_child(one) if cold else one()
        n += 1
        points += k
        if bad:
            # The same schedule fails again
            again = in_child(one)
            out.append((first, switches, bad, trail, again[0] == bad))
            if len(out) > 3:
                break
    return n, points, out


def bound_1(counts):
    for first in (0, 1):
        yield first, []
        for k in range(1, counts[first] + 1):
            yield first, [(first, k)]


def bound_2(counts):
    for first in (0, 1):
        other = 1 - first
        for k in range(1, counts[first] + 1):
            for j in range(1, counts[other] + 1):
                yield first, [(first, k), (other, j)]


def c05(rep):
    control_locks()
    core.import_library()
    limit = 60000 if core.thorough() else 1500
    hs = harnesses(core.thorough())
    explore(rep, hs, limit)
    hkr(rep)


def explore(rep, hs, limit, cold=False):
    profs = list(core.pmap(profile, [h[1] for h in hs]))
    work, meta = [], []
    both, skipped, max_points = 0, [], 0
    for (label, spec), (counts, base) in zip(hs, profs):
        max_points = max(max_points, *counts)
        for c in core.chunks(list(bound_1(counts)), 150):
            work.append((spec, base, c, True))
            meta.append(label)
        if 2 * counts[0] * counts[1] <= limit:
            both += 1
            for c in core.chunks(list(bound_2(counts)), 150):
                work.append((spec, base, c, core.thorough() or cold))
                meta.append(label)
        else:
            skipped.append(label)
    distinct = set()
    for label, (n, points, bad) in zip(meta, core.pmap(run_schedules, work)):
        rep.states += n
        rep.transitions += points
        rep.traces += n
        distinct.add(label)
        for first, switches, tids, trail, again in bad:
            rep.violation(
                f"C05 {label} first={first} " + json.dumps(switches),
                harness=label,
                first=first,
                switches=switches,
                threads=tids,
                preempted_at=trail,
                reproduced=again,
            )
        if len(rep.violations) > 40:
            rep.exhaustive = False
            break
    # Determinism of the scheduler: a schedule gives the same trail twice
    spec = hs[0][1]
    make = MAKE[spec[0]](*spec[1:])
    k = profs[0][0][0] // 2
    trails = []

    def trail():
        x = Execution(make(), 0, [(0, k)], src_dir(), visits())
        x.run()
        return x.trail, x.count

    for _ in range(2):
        trails.append(in_child(trail))
    if trails[0] != trails[1]:
        raise RuntimeError(f"schedule is not reproducible: {trails}")
    rep.extra["executions_of_a_line_that_are_scheduling_points"] = visits()
    rep.extra["harnesses"] = rep.extra.get("harnesses", 0) + len(hs)
    rep.extra["harnesses_two_preemptions"] = (
        rep.extra.get("harnesses_two_preemptions", 0) + both
    )
    rep.extra["harnesses_one_preemption_only"] = (
        rep.extra.get("harnesses_one_preemption_only", 0) + len(skipped)
    )
    rep.extra["most_scheduling_points_of_a_thread"] = max(
        max_points, rep.extra.get("most_scheduling_points_of_a_thread", 0)
    )
    for label, spec in hs[:3]:
        rep.sample(dict(harness=label))
    if work:
        rep.sample(dict(harness=meta[0], schedule=work[0][2][-1]))


def hkr(rep):
    """The model with a table that is loaded by the first prediction. The published
    table is not in the repository: a synthetic one is used in a scratch copy. The
    table has to be loaded by every execution, which run in separate processes."""
    from ..refs import other as ref

    scratch = tempfile.mkdtemp(prefix="pygmm-hkr-")
    repo = core.REPO
    try:
        dst = os.path.join(scratch, "src", "pygmm")
        shutil.copytree(
            os.path.join(repo, "src", "pygmm"),
            dst,
            ignore=shutil.ignore_patterns("__pycache__"),
        )
        ev, pr = ref.hkr_events()
        np.savez(
            os.path.join(dst, "data", "hermkes_kuehn_riggelsen_2014.npz"),
            events=ev,
            predictions=pr,
        )

        def body():
            # Imported from the scratch copy within this process only
            for k in [k for k in sys.modules if k.split(".")[0] == "pygmm"]:
                del sys.modules[k]
            sys.path[:] = [p for p in sys.path if os.path.join(repo, "src") != p]
            core.REPO = scratch
            sub = core.Report("C05")
            h = [("HKR14 0 | HKR14 1", ("hkr", 0, 1)), ("HKR14 0 | HKR14 0", ("hkr", 0, 0))]
            explore(sub, h, 10000, True)
            return sub.states, sub.transitions, sub.violations

        s, t, v = in_child(body)
        rep.states += s
        rep.traces += s
        rep.transitions += t
        rep.violations += v
        rep.extra["schedules_of_lazy_table"] = s
    finally:
        shutil.rmtree(scratch)
