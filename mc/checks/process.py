"""Predictions survive copying and pickling (C23), and do not depend on the process
that computes them (C24)."""

import copy
import itertools
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import core
from ..catalog import CATALOG
from .contract import array, lattice
from .history import clobber, raw_outputs, same

# -- C23 --------------------------------------------------------------------
OPS = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    "pickle 0": lambda m: pickle.loads(pickle.dumps(m, 0)),
    "pickle 2": lambda m: pickle.loads(pickle.dumps(m, 2)),
    "pickle 5": lambda m: pickle.loads(pickle.dumps(m, 5)),
    "pair": lambda m: pickle.loads(pickle.dumps([m, m]))[1],
    "reduce": lambda m: copy.deepcopy({"a": m, "b": [m]})["b"][0],
}


def differs(a, b):
    """Name of an observation that differs."""
    if isinstance(b, core.Raised):
        return repr(b)
    if set(a) != set(b):
        return "other observations"
    return next((k for k in a if not same(a[k], b[k])), None)


def scenario(m):
    """Names, types and values of the reported scenario."""
    s = getattr(m, "scenario", None)
    return s is None or (type(s), sorted((k, type(v), repr(v)) for k, v in s.items()))


def c23_model(args):
    """Every sequence of operations of one model."""
    e, s, depth = args
    m = core.outcome(lambda: e.build(s))
    if isinstance(m, core.Raised):
        return 1, 0, [(dict(scenario=s), repr(m))]
    base = core.outcome(lambda: e.observe(m))
    if isinstance(base, core.Raised):
        return 1, 0, [(dict(scenario=s), repr(base))]
    base = {k: np.array(v) for k, v in base.items()}
    bad, n = [], 1
    level = [((), m)]
    for _ in range(depth):
        nxt = []
        for path, x in level:
            for name, op in OPS.items():
                n += 1
                here = dict(scenario=s, operations=list(path + (name,)))
                y = core.outcome(lambda: op(x))
                if isinstance(y, core.Raised):
                    bad.append((here, repr(y)))
                    continue
                obs = core.outcome(lambda: e.observe(y))
                what = differs(base, obs)
                if what is None and scenario(y) != scenario(m):
                    what = "scenario of the copy"
                if what is None:
                    for v in obs.values():
                        clobber(v)
                    for label, z in (("copy", y), ("source", x), ("model", m)):
                        what = differs(base, core.outcome(lambda: e.observe(z)))
                        if what:
                            what = f"{what} of the {label}, after its use"
                            break
                elif not isinstance(obs, core.Raised):
                    what = f"{what} of the copy"
                if what:
                    bad.append((here, what))
                    continue
                if type(y) is not type(m) or y is x:
                    bad.append((here, "is not another model of the same class"))
                nxt.append((path + (name,), y))
        level = nxt
    # Nothing but the class is shared with the original
    for name, op in OPS.items():
        if name == "copy":
            continue
        for x, label in ((m, "model"), (copy.copy(m), "copy")):
            n += 1
            here = dict(scenario=s, operations=[label, name, "modify"])

            def run():
                y = op(x)
                for v in raw_outputs(y):
                    clobber(v)
                for k, v in vars(y).items():
                    if isinstance(v, (dict, list)):
                        v.clear()
                return e.observe(m)

            what = differs(base, core.outcome(run))
            if what:
                bad.append((here, f"{what}, after the arrays of the copy are modified"))
                m = e.build(s)
    return n, n - 1, bad


def c23_scenario(args):
    """Copies of a scenario lead to the same prediction."""
    import pygmm

    e, s, _ = args
    base = core.outcome(lambda: e.observe(e.build(s)))
    scen, opts = e.options(s)
    bad, n = [], 0
    for name, op in OPS.items():
        n += 1
        here = dict(scenario=s, operations=[name, "model"])

        def run():
            c = op(pygmm.Scenario(**scen))
            assert type(c) is pygmm.Scenario
            return e.observe(e.load()(c, **opts))

        what = differs(base, core.outcome(run))
        if what:
            bad.append((here, what))
    return n, n, bad


OTHER = """
import sys
sys.path.insert(0, sys.argv[1])
import mc.core
mc.core.REPO = sys.argv[2]
sys.path.insert(0, sys.argv[2] + "/src")
import pickle
from mc.checks import process
process.c23_receive(sys.argv[3], sys.argv[4])
"""


def c23_receive(given, result):
    """Observations of models that another process has pickled."""
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    entries = {e.abbrev: e for e in CATALOG}
    with open(given, "rb") as fp:
        items = pickle.load(fp)
    out = []
    for abbrev, data in items:
        m = core.outcome(lambda: pickle.loads(data))
        o = m if isinstance(m, core.Raised) else core.outcome(lambda: entries[abbrev].observe(m))
        if isinstance(o, core.Raised):
            out.append(repr(o))
        else:
            out.append(({k: np.array(v, float) for k, v in o.items()}, repr(scenario(m))))
    with open(result, "wb") as fp:
        pickle.dump(out, fp)


def c23_transfer(rep):
    """Models of which the pickle is read by a new process."""
    items, expected = [], []
    for e in CATALOG:
        for s in e.scenarios:
            for p in (0, 2, pickle.HIGHEST_PROTOCOL):
                for op in ("build", "use", "copy"):
                    m = e.build(s)
                    obs = {k: np.array(v, float) for k, v in e.observe(e.build(s)).items()}
                    if op == "use":
                        e.observe(m)
                    m = copy.deepcopy(m) if op == "copy" else m
                    items.append((e.abbrev, pickle.dumps(m, p)))
                    expected.append((e, s, p, op, obs, repr(scenario(m))))
    scratch = tempfile.mkdtemp(prefix="pygmm_transfer_")
    try:
        given, result = os.path.join(scratch, "in"), os.path.join(scratch, "out")
        with open(given, "wb") as fp:
            pickle.dump(items, fp)
        r = subprocess.run(
            [sys.executable, "-B", "-c", OTHER, core.ROOT, core.REPO, given, result],
            cwd=scratch, capture_output=True, text=True, errors="replace", timeout=600,
            env=dict(os.environ, VERIF_REPO=core.REPO),
        )  # fmt: skip
        if r.returncode:
            rep.violation("C23 other process", what=r.stderr[-800:])
            return
        with open(result, "rb") as fp:
            got = pickle.load(fp)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for (e, s, p, op, obs, scen), g in zip(expected, got):
        rep.states += 1
        rep.transitions += 1
        rep.traces += 1
        what = g if isinstance(g, str) else differs(obs, g[0])
        if what is None and g[1] != scen:
            what = "scenario"
        if what:
            here = json.dumps(core.jsonable(dict(scenario=s, protocol=p, model=op)), sort_keys=True)
            rep.violation(f"C23 {e.abbrev} other process {here}", what=what)
    rep.extra["models_read_by_another_process"] = len(items)


def c23_one(args):
    return c23_scenario(args) if args[2] is None else c23_model(args)


def c23(rep):
    core.import_library()
    c23_transfer(rep)
    t = core.thorough()
    work = []
    for e in CATALOG:
        for i, s in enumerate(e.scenarios):
            work.append((e, s, 4 if t and i == 0 else 3))
        more = array(e, 31 if t else 17, 2)
        for s in itertools.chain(lattice(e, 2 if t else 1, 4), more):
            work.append((e, s, 1))
            work.append((e, s, None))
    for item, (n, m, bad) in zip(work, core.pmap(c23_one, work)):
        rep.states += n
        rep.transitions += m
        rep.traces += n
        if item[2] is not None and item[2] > 1:
            rep.sample(dict(model=item[0].abbrev, scenario=item[1], depth=item[2]))
        for here, what in bad[:3]:
            key = json.dumps(core.jsonable(here), sort_keys=True)
            rep.violation(f"C23 {item[0].abbrev} {key}", what=what)
        if len(rep.violations) > 60:
            rep.exhaustive = False
            break
    rep.extra["operations"] = list(OPS)
    rep.extra["maximum_depth"] = 4 if t else 3


# -- C24 --------------------------------------------------------------------
def everything():
    """Observations of all models and functions, in this process."""
    import logging
    import warnings

    from .. import calls

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    out = {}

    def add(key, value):
        if isinstance(value, core.Raised):
            out[key] = value.kind
        else:
            out[key] = [np.array(v, float).ravel().tolist() for v in value]

    with np.errstate(all="ignore"):
        for e in CATALOG:
            for i, s in enumerate(e.scenarios):
                o = e.run(s)
                add(
                    f"{e.abbrev} {i}",
                    o if isinstance(o, core.Raised) else [o[k] for k in sorted(o)],
                )
                # Validation
                for k in s:
                    for v in ("nonsense", None):
                        r = core.outcome(lambda: e.build(dict(s, **{k: v})))
                        add(
                            f"{e.abbrev} {i} {k}={v}",
                            r if isinstance(r, core.Raised) else [1.0],
                        )
                    r = core.outcome(
                        lambda: e.build({a: b for a, b in s.items() if a != k})
                    )
                    add(
                        f"{e.abbrev} {i} without {k}",
                        r if isinstance(r, core.Raised) else [1.0],
                    )
        for c in calls.calls():
            add(c.name, core.outcome(lambda: c.run(c.arrays)))
    return out


def other_process(method):
    """The same, computed in another process, or in a thread."""
    if method == "main":
        return everything()
    if method == "thread":
        import threading

        out = []
        t = threading.Thread(target=lambda: out.append(everything()))
        t.start()
        t.join()
        return out[0]
    import multiprocessing

    with multiprocessing.get_context(method).Pool(1) as pool:
        return pool.apply(everything)


CHILD = """
import json, os, sys, importlib
sys.path.insert(0, sys.argv[1])
import mc.core
mc.core.REPO = sys.argv[2]
os.environ["VERIF_REPO"] = sys.argv[2]
sys.path.insert(0, os.path.join(sys.argv[2], "src"))
if __name__ == "__main__":
    if sys.argv[6] == "none":
        sys.stdin = sys.stdout = sys.stderr = sys.__stdout__ = sys.__stderr__ = None
    elif sys.argv[6] == "text":
        import io
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    for name in sys.argv[5].split(","):
        importlib.import_module(name)
    from mc.checks import process
    out = process.other_process(sys.argv[4])
    with open(sys.argv[3], "w") as fp:
        json.dump(out, fp)
"""


def modules():
    folder = os.path.join(core.REPO, "src", "pygmm")
    names = sorted(f[:-3] for f in os.listdir(folder) if f.endswith(".py"))
    skip = ("__init__", "_version")
    return ["pygmm"] + ["pygmm." + n for n in names if n not in skip]


COORDS = dict(
    first=["pygmm"],
    flags=[[], ["-O"], ["-OO"], ["-X", "utf8=1"], ["-X", "dev"], ["-s", "-E"], ["-I", "-B", "-u"],
           ["-W", "error"], ["-b", "-X", "frozen_modules=off"]],
    hash=["0", "1", "2", "4242", "random"],
    locale=[None, "C", "C.utf8", "POSIX", "ascii"],
    threads=[None, "1", "3", "8"],
    cwd=["scratch", "root", "package", "data", "decoy"],
    place=["repo", "copy", "unusual", "names", "readonly", "link"],
    method=["main", "thread", "fork", "spawn", "forkserver"],
    zone=[None, "Asia/Tokyo"],
    home=["scratch", None, "missing", "decoy"],
    streams=["pipes", "closed", "none", "text"],
)


PAIRS = {"flags", "cwd", "place", "method"}


def c24_states(thorough):
    coords = dict(COORDS, first=modules())
    base = {k: v[0] for k, v in coords.items()}
    seen, out = set(), []
    for r in range(3):
        for names in itertools.combinations(coords, r):
            if r > 1 and not thorough and not PAIRS.issuperset(names):
                continue
            for vals in itertools.product(*(coords[n] for n in names)):
                s = dict(base, **dict(zip(names, vals)))
                if "first" not in names and r:
                    s["first"] = ",".join(coords["first"])  # all modules
                key = json.dumps(s, sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    out.append(s)
    # All modules, in the reverse order
    out.append(dict(base, first=",".join(reversed(coords["first"]))))
    return out


def decoys(path, data):
    """A folder with other files of the names of the tables of the library."""
    places = ["", "data", "pygmm/data", "src/pygmm/data", "pygmm", ".pygmm", ".pygmm/data"]
    places += [f"{a}/pygmm{b}" for a in (".cache", ".config", ".local/share") for b in ("", "/data")]
    for place in places:
        folder = os.path.join(path, place)
        os.makedirs(folder, exist_ok=True)
        for name in os.listdir(data):
            with open(os.path.join(data, name), "rb") as fp:
                content = fp.read()
            if name.endswith((".csv", ".json")):
                content = content.translate(bytes.maketrans(b"13579", b"24680"))
            with open(os.path.join(folder, name), "wb") as fp:
                fp.write(content)
    return path


def c24_run(args):
    s, places, scratch = args
    work = tempfile.mkdtemp(dir=scratch)
    result = os.path.join(work, "out.json")
    script = os.path.join(work, "child.py")
    with open(script, "w") as fp:
        fp.write(CHILD)
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "VIRTUAL_ENV")}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    if s["hash"] is not None:
        env["PYTHONHASHSEED"] = s["hash"]
    if s["locale"] == "ascii":  # Without coercion to UTF-8
        env.update(LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
    elif s["locale"]:
        env["LC_ALL"] = env["LANG"] = s["locale"]
    if s["threads"]:
        for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            env[v] = s["threads"]
    if s["zone"]:
        env["TZ"] = s["zone"]
    if s["home"]:
        env["HOME"] = dict(
            scratch=work, missing=os.path.join(work, "none"), decoy=places["decoy"]
        )[s["home"]]
    repo = places[s["place"]]
    package = os.path.join(repo, "src", "pygmm")
    cwd = dict(scratch=work, root="/", package=os.path.join(repo, "src"),
               data=os.path.join(package, "data"), decoy=places["decoy"])[s["cwd"]]  # fmt: skip
    cmd = [sys.executable, "-B", *s["flags"], script, core.ROOT, repo, result]
    if s["streams"] == "closed":
        cmd = ["/bin/sh", "-c", 'exec "$@" <&- >&- 2>&-', "sh"] + cmd
    p = subprocess.run(
        cmd + [s["method"], s["first"], s["streams"]], cwd=cwd, env=env, capture_output=True,
        text=True, errors="replace", timeout=600,
    )  # fmt: skip
    out = None
    if p.returncode == 0:
        with open(result) as fp:
            out = json.load(fp)
    shutil.rmtree(work, ignore_errors=True)
    return out, p.stderr[-1500:]


def c24_differs(base, out):
    if set(base) != set(out):
        return "other observations"
    for k, a in base.items():
        b = out[k]
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return f"{k}: {str(b)[:60]} instead of {str(a)[:60]}"
        elif len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
            return f"{k}: other values"
    return None


def c24_one(args):
    """Number of observations, and what differs."""
    out, err = c24_run(args[:3])
    if out is None:
        return 0, "process failed: " + err
    return len(out), c24_differs(args[3], out)


def c24(rep):
    core.import_library()
    scratch = tempfile.mkdtemp(prefix="pygmm_process_")
    try:
        places = dict(repo=core.REPO)
        src = os.path.join(core.REPO, "src")
        names = dict(
            unusual="a b\N{LATIN SMALL LETTER U WITH DIAERESIS} 'c",
            # Names of files and folders of the library
            names="pygmm/src/model.py/data/__init__.py/x.csv.gz %s [0-9]*/pygmm/data/model.pyc",
        )
        for name in ("copy", "unusual", "names", "readonly"):
            path = os.path.join(scratch, names.get(name, name))
            shutil.copytree(
                src, os.path.join(path, "src"), ignore=shutil.ignore_patterns("__pycache__")
            )
            places[name] = path
        # The package and its files are links
        places["link"] = os.path.join(scratch, "link")
        os.makedirs(os.path.join(places["link"], "src"))
        os.symlink(
            os.path.join(places["copy"], "src", "pygmm"), os.path.join(places["link"], "src", "pygmm")
        )
        places["decoy"] = decoys(
            os.path.join(scratch, "decoy"), os.path.join(src, "pygmm", "data")
        )
        for folder, _, files in os.walk(places["readonly"]):
            for f in files:
                os.chmod(os.path.join(folder, f), 0o444)
            os.chmod(folder, 0o555)
        states = c24_states(core.thorough())
        # Transitions are changes of one coordinate from the default process
        base, err = c24_run((states[0], places, scratch))
        if base is None:
            rep.violation("C24 default process", what=err)
            return
        here = everything()
        what = c24_differs(base, here)
        if what:
            rep.violation("C24 process of the check", what=what)
        work = [(s, places, scratch, base) for s in states]
        for (s, *_), (n, what) in zip(work, core.pmap(c24_one, work)):
            rep.states += 1
            rep.transitions += n
            rep.traces += 1
            rep.sample(s)
            if what:
                rep.violation("C24 " + json.dumps(s, sort_keys=True), what=what)
            if len(rep.violations) > 40:
                rep.exhaustive = False
                break
        rep.extra["observations_per_process"] = len(base)
        rep.extra["coordinates"] = {k: len(v) for k, v in dict(COORDS, first=modules()).items()}
    finally:
        for folder, _, _ in os.walk(scratch):
            os.chmod(folder, 0o755)
        shutil.rmtree(scratch, ignore_errors=True)
