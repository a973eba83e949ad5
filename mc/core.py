"""Framework of the explicit-state exploration.

A *state* is a fully described stimulus of the library (a scenario, an operation
history, a schedule ...).  A *transition* changes one coordinate of a state (one
parameter of a scenario), appends one operation to a history, or takes one
scheduling decision.  Every state that is reachable within the stated bounds is
visited; nothing is sampled, and VERIF_SEED is recorded but never used.
"""

import itertools
import json
import math
import multiprocessing
import os
import sys
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known_findings.json")

NPROC = int(os.environ.get("VERIF_NPROC", 0)) or max(1, min(8, os.cpu_count() or 1))


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def thorough():
    return tier() == "thorough"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        return 0


# --------------------------------------------------------------------------
# State enumeration
# --------------------------------------------------------------------------
class Space:
    """Scenarios described by coordinates with ordered finite alphabets.

    Parameters
    ----------
    fine : dict
        coordinate -> dense alphabet
    coarse : dict
        coordinate -> alphabet with at least one member per regime of the
        published equations, and the limits of the regimes
    bases : list of dict
        initial states
    products : list of list of str
        groups of interacting coordinates, of which the complete product of the
        coarse alphabets is explored from every initial state
    valid : callable
        predicate to restrict the states to those the model is defined for
    """

    def __init__(self, fine, coarse, bases, products=(), valid=None, label=""):
        self.fine = fine
        self.coarse = coarse
        self.bases = bases
        self.products = products
        self.valid = valid
        self.label = label
        self.transitions = 0

    def states(self, k_fine=2, k_coarse=3):
        """All distinct states within the bounds, fewest deviations first."""
        seen = set()
        names = list(self.fine)
        for b in self.bases:
            assert set(b) == set(names), (self.label, set(b) ^ set(names))

        def emit(s):
            self.transitions += 1
            key = tuple(s[n] for n in names)
            # 1 == 1.0 == True are different stimuli
            key = tuple((type(v).__name__, v) for v in key)
            if key in seen:
                return None
            if self.valid is not None and not self.valid(s):
                return None
            seen.add(key)
            return dict(s)

        for k in range(0, max(k_fine, k_coarse) + 1):
            for alpha, kmax in ((self.fine, k_fine), (self.coarse, k_coarse)):
                if k > kmax:
                    continue
                for base in self.bases:
                    for combo in itertools.combinations(names, k):
                        for vals in itertools.product(*(alpha[c] for c in combo)):
                            s = dict(base)
                            s.update(zip(combo, vals))
                            s = emit(s)
                            if s is not None:
                                yield s
        for group in self.products:
            for base in self.bases:
                for vals in itertools.product(*(self.coarse[c] for c in group)):
                    s = dict(base)
                    s.update(zip(group, vals))
                    s = emit(s)
                    if s is not None:
                        yield s


def regimes(bases, alphabet, names, valid=None):
    """Initial states in which every pair of values of two of the coordinates `names`
    occurs (greedy covering array), after the bases they are derived from."""
    pairs = {
        (a, x, b, y)
        for a, b in itertools.combinations(range(len(names)), 2)
        for x in range(len(alphabet[names[a]]))
        for y in range(len(alphabet[names[b]]))
    }
    out = [dict(b) for b in bases]
    while pairs:
        a, x, b, y = min(pairs)
        row = {a: x, b: y}
        for c in range(len(names)):
            if c not in row:
                # The value with most pairs that are still missing
                def gain(v, c=c):
                    return sum(
                        (min(c, d), v if c < d else w, max(c, d), w if c < d else v) in pairs
                        for d, w in row.items()
                    )

                row[c] = max(range(len(alphabet[names[c]])), key=gain)
        new = {(c, row[c], d, row[d]) for c in row for d in row if c < d}
        pairs -= new
        state = dict(bases[len(out) % len(bases)])
        state.update({names[c]: alphabet[names[c]][v] for c, v in row.items()})
        if valid is None or valid(state):
            out.append(state)
    return out


def orthogonal(q, t, n):
    """Orthogonal array of q**t rows with n <= q + 1 columns of levels 0..q-1: every
    combination of levels of any t columns occurs exactly once. The rows are the values
    of all polynomials of degree below t over the integers modulo the prime q."""
    assert n <= q + 1 and all(q % d for d in range(2, int(q**0.5) + 1)), (q, n)
    coef = np.array(np.meshgrid(*[np.arange(q)] * t, indexing="ij")).reshape(t, -1)
    out = np.empty((q**t, n), int)
    for x in range(n):
        if x == q:
            out[:, x] = coef[-1]
            continue
        v = np.zeros(q**t, int)
        for a in coef[::-1]:
            v = (v * x + a) % q
        out[:, x] = v
    return out


class Orthogonal(Space):
    """Every combination of the levels of any t coordinates.

    Parameters
    ----------
    levels : callable(number) -> dict of alphabets of up to this number of values
    """

    def __init__(self, q, t, levels, valid=None, label=""):
        alphabet = levels(q)
        super().__init__(alphabet, {}, [], (), valid, label)
        self.q, self.t = q, t

    def states(self, k_fine=None, k_coarse=None):
        names = [n for n in self.fine if len(self.fine[n]) > 1]
        fixed = {n: self.fine[n][0] for n in self.fine if len(self.fine[n]) == 1}
        seen = set()
        for row in orthogonal(self.q, min(self.t, len(names)), len(names)).tolist():
            self.transitions += 1
            # Shorter alphabets are repeated
            s = {n: self.fine[n][i % len(self.fine[n])] for n, i in zip(names, row)}
            s.update(fixed)
            key = tuple((type(v).__name__, v) for v in s.values())
            if key in seen or (self.valid is not None and not self.valid(s)):
                continue
            seen.add(key)
            yield s


def around(*points, rel=1e-6):
    """Breakpoints with their neighbours on both sides."""
    out = []
    for p in points:
        d = rel * max(abs(p), 1e-3)
        out += [p - d, p, p + d]
    return out


def merge(*lists):
    """Ordered union."""
    out, seen = [], set()
    for lst in lists:
        for v in lst:
            v = v if v is None or isinstance(v, (str, bool)) else float(v)
            if v not in seen:
                seen.add(v)
                out.append(v)
    return out


def merge_any(*lists):
    """Ordered union that keeps the types."""
    out, seen = [], set()
    for v in (v for lst in lists for v in lst):
        if (type(v), v) not in seen:
            seen.add((type(v), v))
            out.append(v)
    return out


def lin(a, b, n):
    return [float(v) for v in np.linspace(a, b, n)]


def geo(a, b, n):
    return [float(v) for v in np.geomspace(a, b, n)]


# --------------------------------------------------------------------------
# Parallel exploration
# --------------------------------------------------------------------------
def chunks(iterable, size):
    it = iter(iterable)
    while True:
        c = list(itertools.islice(it, size))
        if not c:
            return
        yield c


def _init_worker():
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


_JOB = None


def _call(i):
    func, items = _JOB
    return func(items[i])


START = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", 780))  # sec. for a quick check
CUT = []  # explorations that the budget ended


def pmap(func, items, nproc=None):
    """Ordered parallel map over a list; the first exception is raised. It ends early
    when the budget of a quick check is used up, which is reported as not exhaustive."""
    global _JOB
    items = list(items)
    nproc = min(nproc or NPROC, max(1, len(items)))
    if nproc == 1:
        _init_worker()
        for i in items:
            yield func(i)
        return
    _JOB = (func, items)  # inherited by the forked workers
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(nproc, _init_worker) as pool:
        results = pool.imap(_call, range(len(items)))
        for _ in items:
            left = None if thorough() else max(1.0, BUDGET - (time.time() - START))
            try:
                r = results.next(timeout=left)
            except multiprocessing.TimeoutError:
                CUT.append(getattr(func, "__name__", repr(func)))
                return
            yield r


# --------------------------------------------------------------------------
# Reporting
# --------------------------------------------------------------------------
def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return jsonable(float(o))
    if isinstance(o, float) and not math.isfinite(o):
        return repr(o)
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    return repr(o)


class Report:
    """Collects what one check explored and found."""

    def __init__(self, pid):
        self.pid = pid
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []  # dict(key=..., detail...)
        self.exhaustive = True

    def sample(self, s, limit=8):
        if len(self.samples) < limit:
            self.samples.append(jsonable(s))

    def violation(self, key, **detail):
        """Record a violation. key identifies the failing input or history."""
        self.violations.append(dict(key=key, **jsonable(detail)))

    def known(self):
        try:
            with open(KNOWN) as fp:
                entries = json.load(fp)["findings"]
        except FileNotFoundError:
            return {}
        return {e["key"]: e for e in entries if e["property"] == self.pid}

    def finish(self):
        known = self.known()
        new, hit = [], {}
        for v in self.violations:
            if v["key"] in known:
                hit[v["key"]] = v
            else:
                new.append(v)
        for k in sorted(hit):
            print(f"KNOWN-FINDING: property={self.pid} {known[k]['what']}")
        coverage = dict(
            states=int(self.states),
            transitions=int(self.transitions),
            traces_validated_against_impl=int(self.traces),
            exhaustive=bool(self.exhaustive) and not CUT,
            samples=self.samples,
        )
        coverage.update(jsonable(self.extra))
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{self.pid}.json"), "w") as fp:
            json.dump(
                dict(
                    property=self.pid,
                    tier=tier(),
                    seed=seed(),
                    level="model_checking",
                    coverage=coverage,
                    assumptions=self.assumptions,
                    wall_s=round(time.time() - self.start, 3),
                    violations=len(new),
                ),
                fp,
                indent=1,
            )
        print(
            f"{self.pid}: tier={tier()} states={self.states} "
            f"transitions={self.transitions} traces={self.traces} "
            f"wall={time.time() - self.start:.1f}s violations={len(new)}"
        )
        if new:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{self.pid}.json")
            with open(path, "w") as fp:
                json.dump(
                    dict(property=self.pid, tier=tier(), violations=new[:200]),
                    fp,
                    indent=1,
                )
            for v in new[:5]:
                print("  " + json.dumps(v)[:1500])
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        return 0


def explore(pid, func):
    """Run a check; with an exception outside of the comparisons nothing of the
    property can be observed, and this is a violation as well. Every check runs to
    completion on the library as it is."""
    rep = Report(pid)
    try:
        func(rep)
    except (OSError, MemoryError):  # the sandbox
        raise
    except Exception:
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        rep.exhaustive = False
        rep.violation("exception", traceback=tb.splitlines()[-12:])
    return rep


def guarded(pid, func):
    return explore(pid, func).finish()


# --------------------------------------------------------------------------
# The library
# --------------------------------------------------------------------------
def import_library():
    """Import pygmm from the working tree of the repository."""
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import pygmm

    assert os.path.abspath(pygmm.__file__).startswith(os.path.abspath(src)), (
        pygmm.__file__
    )
    return pygmm


def outcome(func):
    """Value, or the kind of exception."""
    try:
        return func()
    except Exception as e:  # noqa: BLE001
        return Raised(e)


class Raised:
    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.msg = str(exc)[:300]

    def __repr__(self):
        return f"raised {self.kind}: {self.msg}"


def close(a, b, rtol=1e-8, atol=1e-10):
    return np.isclose(
        np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=atol, equal_nan=True
    )
