"""Using the library leaves the process as it was (C26)."""

import asyncio
import atexit
import builtins
import calendar
import collections
import copy
import copyreg
import csv
import dataclasses
import datetime
import decimal
import faulthandler
import fractions
import gc
import io
import json
import locale
import logging
import math
import multiprocessing
import os
import pickle
import random
import re
import resource
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import tracemalloc
import typing
import warnings

import numpy as np
import scipy.special

from .. import calls, core
from ..catalog import CATALOG
from .history import in_child
from .sequences import report_ops

def watched():
    import scipy.interpolate

    return dict(
        numpy=np, linalg=np.linalg, random=np.random, interpolate=scipy.interpolate, math=math,
        os=os, json=json, copy=copy, pickle=pickle, logging=logging, warnings=warnings,
        builtins=builtins, sys=sys, ma=np.ma, collections=collections, typing=typing,
        dataclasses=dataclasses, abc=collections.abc, encoder=json.encoder, io=io,
        datetime=datetime, decimal=decimal, re=re, threading=threading, fractions=fractions,
    )  # fmt: skip


def functions_of_modules():
    """Identity of all functions of the watched modules."""
    out = {}
    for label, mod in watched().items():
        for k, v in vars(mod).items():
            if callable(v) and not k.startswith("__"):
                out[f"{label}.{k}"] = v
            # Methods of classes that can be replaced
            if isinstance(v, type) and v.__flags__ & (1 << 9) and not k.startswith("__"):
                for a, b in vars(v).items():
                    if not a.startswith(("_abc", "__weakref__", "__dict__", "__annot")):
                        if callable(b) or isinstance(b, (property, classmethod, staticmethod)):
                            out[f"{label}.{k}.{a}"] = b
    return out


def tree(path):
    """Names, sizes and times of all files, without compiled modules."""
    out = {}
    for base, dirs, files in os.walk(path):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for f in files:
            st = os.stat(os.path.join(base, f))
            out[os.path.join(base, f)] = (st.st_size, st.st_mtime_ns)
    return out


def loggers():
    """Settings of the loggers of others."""
    return {
        k: (v.level, v.disabled, v.propagate, list(v.handlers), list(v.filters))
        for k, v in sorted(logging.Logger.manager.loggerDict.items())
        if isinstance(v, logging.Logger) and k.split(".")[0] != "pygmm"
    }


def constants():
    """Public tables of the library."""
    pygmm = core.import_library()
    out = {"KNOWN_KEYS": repr(pygmm.Scenario.KNOWN_KEYS)}
    for e in CATALOG:
        cls = e.load()
        for k in ("NAME", "ABBREV", "PERIODS", "LIMITS", "INDICES_PSA", "INDEX_PGA", "INDEX_PGV"):
            if hasattr(cls, k):
                v = getattr(cls, k)
                out[f"{e.abbrev}.{k}"] = (
                    v.tobytes() if isinstance(v, np.ndarray) else repr(v)
                )
        for p in getattr(cls, "PARAMS", []):
            out[f"{e.abbrev}.{p.name}"] = repr(
                [getattr(p, a, None) for a in ("required", "default", "min", "max", "options")]
            )
    return out


def snapshot(scratch, package=True):
    """State of the process that does not belong to the library."""
    root = logging.getLogger()
    out = {
        "numpy error handling": repr(np.geterr()) + repr(np.geterrcall()),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "numpy random numbers": pickle.dumps(np.random.get_state()),
        "random numbers": random.getstate(),
        "filters of warnings": list(warnings.filters),
        "display of warnings": (warnings.showwarning, warnings.formatwarning),
        "handlers of the root logger": list(root.handlers),
        "level of the root logger": (root.level, root.disabled, root.manager.disable, logging.raiseExceptions),
        "filters of the root logger": list(root.filters),
        "other loggers": loggers(),
        "last handler": (logging.lastResort, logging.lastResort and logging.lastResort.level),
        "additions to builtins": sorted(vars(builtins)),
        "registered copying": sorted(
            repr(k) for k in copyreg.dispatch_table if not k.__module__.startswith("pygmm")
        ),
        "functions at exit": atexit._ncallbacks(),
        "settings of the interpreter": [
            repr(getattr(sys, k, None))
            for k in ("dont_write_bytecode", "pycache_prefix", "tracebacklimit", "ps1", "warnoptions",
                      "flags", "executable", "prefix", "path_hooks")
        ],
        "frozen objects": gc.get_freeze_count(),
        "levels of logging": tuple(logging.getLevelName(i) for i in range(0, 60, 10)),
        "logger class": logging.getLoggerClass(),
        "locale": locale.setlocale(locale.LC_ALL),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "file mode": (lambda m: (os.umask(m), m)[1])(os.umask(0o22)),
        "search path": list(sys.path),
        "arguments": list(sys.argv),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "streams": (sys.stdout, sys.stderr, sys.stdin),
        "hooks": (sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks)),
        "trace": (sys.gettrace(), sys.getprofile()),
        "signals": [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "timers": signal.getitimer(signal.ITIMER_REAL),
        "threads": threading.active_count(),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        "time zone": (time.timezone, time.tzname),
        "decimal numbers": (lambda c: (c.prec, c.rounding, c.Emin, c.Emax, repr(c.traps)))(decimal.getcontext()),
        "start of processes": multiprocessing.get_start_method(allow_none=True),
        "event loops": type(asyncio.get_event_loop_policy()),
        "time limit of sockets": socket.getdefaulttimeout(),
        "csv": (csv.field_size_limit(), csv.list_dialects()),
        "first day of the week": calendar.firstweekday(),
        "fault handler": faulthandler.is_enabled(),
        "memory tracing": tracemalloc.is_tracing(),
        "limits of the process": tuple(resource.getrlimit(getattr(resource, k)) for k in ("RLIMIT_AS", "RLIMIT_CPU", "RLIMIT_NOFILE", "RLIMIT_STACK", "RLIMIT_CORE", "RLIMIT_DATA")),
        "priority": (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0))),
        "digits of integers": sys.get_int_max_str_digits(),
        "stack of threads": threading.stack_size(),
        "numpy buffer": np.getbufsize(),
        "masked arrays": repr(np.ma.masked_print_option),
        "special functions": repr(scipy.special.geterr()),
        "generator hooks": repr(sys.get_asyncgen_hooks()),
        "profiling of threads": (threading.gettrace(), threading.getprofile()),
        "open files": len(os.listdir("/proc/self/fd")),
        "files": tree(scratch),
    }  # fmt: skip
    if package:
        out["files of the package"] = tree(os.path.join(core.REPO, "src", "pygmm"))
        out.update({f"constant {k}": v for k, v in constants().items()})
    return out


def changed(before, after):
    return sorted(k for k in before if before[k] != after.get(k))


# -- Operations ---------------------------------------------------------------
def operations():
    """label -> thunk: predictions, rejected and reported scenarios, and functions."""
    out = {}
    pygmm = core.import_library()
    for i, e in enumerate(CATALOG):

        def everything(e=e):
            for s in e.scenarios:
                m = e.build(s)
                e.observe(m)
                repr(m)
                repr(m.scenario)
                for n in dir(type(m)):
                    if not n.startswith("_"):
                        core.outcome(lambda: getattr(m, n))
                core.outcome(lambda: pickle.loads(pickle.dumps(m)))
                core.outcome(lambda: copy.deepcopy(m))
                if e.kind == "gmm":
                    for kind in ("linear", "cubic"):
                        m.interp_spec_accels([0.0, 0.1, 1e3], kind)

        out[f"{e.abbrev} predictions"] = everything

        def rejected(e=e):
            scen, opts = e.options(e.scenarios[0])
            for k in scen:
                for s in (
                    {n: v for n, v in scen.items() if n != k},
                    dict(scen, **{k: "not a number"}),
                    dict(scen, **{k: [1.0, 2.0]}),
                    dict(scen, **{k: float("nan")}),
                    dict(scen, **{k: 0.0}),
                    dict(scen, **{k: -1.0}),
                ):
                    core.outcome(
                        lambda: e.observe(e.load()(pygmm.Scenario(**s), **opts))
                    )
            core.outcome(lambda: pygmm.Scenario(unknown=1.0))
            core.outcome(lambda: pygmm.Scenario(**scen).copy_with(unknown=1.0))

        out[f"{e.abbrev} rejected"] = rejected
        labels = report_ops(i)[0]
        for j, label in enumerate(labels):
            if label != "nominal":
                out[f"{e.abbrev} {label}"] = lambda e=e, i=i, j=j: e.run(
                    report_scenario(i, j)
                )
    for c in calls.calls():

        def call(c=c):
            core.outcome(lambda: c.run({k: v.copy() for k, v in c.arrays.items()}))
            # From no to many elements, invalid and not finite ones
            for n in (0, 1, 2, 40, 300):
                if n < 300 or "S17" not in c.name:
                    core.outcome(lambda: c.run(calls.resized(c, n)))
            for bad in (0.0, -1.0, np.nan, np.inf):
                core.outcome(
                    lambda: c.run({k: np.full(len(v), bad) for k, v in c.arrays.items()})
                )
            core.outcome(lambda: c.run({k: "text" for k in c.arrays}))

        out[c.name] = call
    ki = calls._mod("kishida_2017")

    def targets():
        n = len(calls.PERIODS)
        for given in range(2**n):
            mask = [not given >> i & 1 for i in range(n)]
            core.outcome(
                lambda: ki.calc_cond_mean_spectrum_vector(
                    calls.PERIODS,
                    calls.LN_PSA,
                    calls.LN_STD,
                    np.ma.masked_array(calls.LN_PSA + 0.3, mask),
                )
            )

    out["K17 targets"] = targets
    return out


def report_scenario(i, j):
    return report_ops(i)[2][j]


AMBIENT = ("default", "configured")


def prepare(ambient, scratch):
    """The process before the library is used."""
    os.chdir(scratch)
    warnings.simplefilter("ignore")
    logging.disable(logging.NOTSET)
    if ambient == "configured":
        np.seterr(all="warn", under="ignore")
        np.seterrcall(print)
        np.set_printoptions(precision=3, suppress=True)
        np.random.seed(11)
        random.seed(11)
        warnings.filterwarnings("ignore", category=DeprecationWarning, message="x")
        logging.getLogger().addHandler(logging.NullHandler())
        logging.getLogger().setLevel(logging.ERROR)
        locale.setlocale(locale.LC_ALL, "C")
        sys.setrecursionlimit(3000)
        gc.set_threshold(500, 5, 5)
        decimal.getcontext().prec = 17
        socket.setdefaulttimeout(3.0)
        csv.field_size_limit(1000)
        scipy.special.seterr(singular="warn")
        np.ma.masked_print_option.set_display("none")
        calendar.setfirstweekday(6)
        os.environ["PYGMM_SCRATCH"] = "1"
        for name in ("numpy", "scipy", "matplotlib", "concurrent.futures", "asyncio", "py.warnings"):
            logging.getLogger(name).setLevel(logging.INFO)
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)


def redirect(path):
    """Standard output goes to a file."""
    sys.stdout.flush()
    fd = os.open(path, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    os.dup2(fd, 1)
    os.close(fd)


OPS = {}


def history(args):
    """The operations of a history, each followed by a comparison of the process."""
    ambient, labels = args
    scratch = tempfile.mkdtemp(prefix="pygmm-c26-")
    outfile = tempfile.mktemp(prefix="pygmm-c26-out-")

    def run():
        prepare(ambient, scratch)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)  # messages about the scenarios
        os.close(null)
        redirect(outfile)
        funcs = functions_of_modules()
        first = snapshot(scratch)
        bad, before = [], first
        for label in labels:
            core.outcome(OPS[label])
            sys.stdout.flush()
            after = snapshot(scratch)
            what = changed(before, after)
            now = functions_of_modules()
            what += [f"function {k}" for k in funcs if now.get(k) is not funcs[k]]
            if os.path.getsize(outfile):
                what.append("standard output")
                redirect(outfile)
            bad += [(label, w) for w in what]
            before, funcs = after, now
        return bad

    try:
        return in_child(run)
    finally:
        shutil.rmtree(scratch)
        if os.path.exists(outfile):
            os.remove(outfile)


# -- Import -------------------------------------------------------------------
IMPORT = """
import sys, json
sys.path.insert(0, {root!r})
sys.path.insert(0, {src!r})
sys.dont_write_bytecode = True
from mc import core
from mc.checks import ambient
import numpy, scipy.interpolate, collections, typing, importlib, dataclasses
scratch = {scratch!r}
ambient.prepare({state!r}, scratch)
for m in list(sys.modules):
    assert not m.startswith("pygmm"), m
funcs = ambient.functions_of_modules()
before = ambient.snapshot(scratch, False)
importlib.import_module({module!r})
sys.stdout.flush()
after = ambient.snapshot(scratch, False)
what = ambient.changed(before, after)
now = ambient.functions_of_modules()
what += ["function " + k for k in funcs if now.get(k) is not funcs[k]]
print("RESULT" + json.dumps(what))
"""


def modules():
    src = os.path.join(core.REPO, "src", "pygmm")
    names = sorted(f[:-3] for f in os.listdir(src) if f.endswith(".py"))
    return ["pygmm"] + ["pygmm." + n for n in names if not n.startswith("_")]


def importing(args):
    state, module = args
    scratch = tempfile.mkdtemp(prefix="pygmm-c26-")
    try:
        code = IMPORT.format(
            root=core.ROOT, src=os.path.join(core.REPO, "src"), scratch=scratch,
            state=state, module=module,
        )  # fmt: skip
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME=scratch)
        r = subprocess.run(
            [sys.executable, "-c", code], env=env, cwd=scratch, capture_output=True, text=True
        )
        head, sep, tail = r.stdout.partition("RESULT")
        if not sep:
            return [(module, "import fails: " + r.stderr[-200:])]
        bad = [(module, w) for w in json.loads(tail)]
        if head:
            bad.append((module, "standard output"))
        return bad
    finally:
        shutil.rmtree(scratch)


def c26(rep):
    core.import_library()
    work = [(a, m) for a in AMBIENT for m in modules()]
    for (a, m), bad in zip(work, core.pmap(importing, work)):
        rep.states += 1
        rep.transitions += 1
        rep.traces += 1
        for module, what in bad:
            rep.violation(f"C26 import {module} {a}: {what}")
    rep.extra["imports"] = len(work)
    OPS.update(operations())
    names = list(OPS)
    work = [(a, [x]) for a in AMBIENT for x in names]
    if core.thorough():
        work += [(a, [x, y]) for a in AMBIENT for x in names for y in names]
    else:
        # Chains in which every operation follows every kind of operation once
        work += [
            (a, names[k::step] + names[:k:step])
            for a in AMBIENT
            for step in (1, 7)
            for k in range(0, len(names), 9)
        ]
    steps = 0
    for (a, h), bad in zip(work, core.pmap(history, work)):
        rep.states += len(h)
        rep.transitions += len(h)
        rep.traces += 1
        steps += len(h)
        for label, what in bad:
            rep.violation(f"C26 {label} ({a}): {what}", history=h[: h.index(label) + 1][-5:])
    rep.extra["operations"] = len(names)
    rep.extra["histories"] = len(work)
    rep.extra["steps"] = steps
    rep.extra["watched"] = sorted(
        k for k in snapshot(tempfile.gettempdir() + "/none", False)
    )
    rep.sample(names[0])
    rep.sample(names[-1])
