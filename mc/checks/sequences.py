"""Long histories of one model or function, and what is reported about values outside
of the limits (parts of C04)."""

import warnings

import numpy as np

from .. import core
from ..catalog import CATALOG
from . import repeat
from .scenario import PARAMS, Records


def scaled(kwds, f):
    """Every number of the scenario multiplied with a factor near one."""
    return {k: v * f if isinstance(v, float) else v for k, v in kwds.items()}


def model_stimulus(i, k):
    e = CATALOG[i]
    first = e.scenarios[k % 2]
    kwds = scaled(first, 1 + 1e-4 * (1 + k // 2))

    def run():
        got = e.run(kwds)
        return ("raised", got.kind) if isinstance(got, core.Raised) else list(got.values())

    return run


def function_stimulus(name, k):
    func, base, _ = repeat.functions()[name]
    f = 1 + 1e-4 * (1 + k)
    given = {
        n: v * f if isinstance(v, (float, np.ndarray)) else v for n, v in base.items()
    }

    def run():
        got = core.outcome(lambda: func(**given))
        if isinstance(got, core.Raised):
            return ("raised", got.kind)
        return [np.array(g, float) for g in (got if isinstance(got, tuple) else (got,))]

    return run


def stimulus(fam, k):
    return model_stimulus(fam[1], k) if fam[0] == "object" else function_stimulus(fam[1], k)


def long_history(args):
    """After every one of `length` distinct stimuli the process is forked; the branch
    returns to the first, a middle and the latest stimulus. Then the whole sequence is
    repeated in the same order, in reverse, and with every stimulus twice."""
    from .history import in_child

    fam, length = args
    runs = [stimulus(fam, k) for k in range(length)]
    base = [in_child(r) for r in runs]

    def history():
        n, bad = 0, []

        def check(k, label):
            nonlocal n
            n += 1
            if not repeat.equal(runs[k](), base[k]):
                bad.append(label)

        for k in range(length):
            check(k, f"stimulus {k} after {k} others")

            def branch(k=k):
                out = []
                for j in (0, k // 2, k):
                    if not repeat.equal(runs[j](), base[j]):
                        out.append(f"stimulus {j} again after {k + 1} others")
                return out

            bad += in_child(branch)
            n += 3
            if len(bad) > 3:
                return n, bad
        for name, order in (
            ("same order", range(length)),
            ("reverse order", range(length - 1, -1, -1)),
            ("twice", [k for k in range(length) for _ in (0, 1)]),
        ):
            for k in order:
                check(k, f"stimulus {k} of {length} again, {name}")
                if len(bad) > 3:
                    return n, bad
        return n, bad

    return in_child(history)


# -- Reports ------------------------------------------------------------------
def report_ops(i):
    """Scenarios with one or two values outside of the limits or options."""
    e = CATALOG[i]
    first = e.scenarios[0]
    out = [("nominal", dict(first))]
    for p in PARAMS[e.abbrev]:
        n = p["name"]
        if "options" in p:
            if isinstance(first.get(n), str) or n in ("region", "mechanism"):
                out.append((f"{n} unknown", dict(first, **{n: "mars"})))
            continue
        lo, hi = p.get("min"), p.get("max")
        if lo:
            out.append((f"{n} low", dict(first, **{n: lo * 0.99})))
        if hi:
            out.append((f"{n} high", dict(first, **{n: hi * 1.01})))
            out.append((f"{n} higher", dict(first, **{n: hi * 1.02})))
    if "mechanism" in [p["name"] for p in PARAMS[e.abbrev]]:
        for mech in ("SS", "NS", "RS"):
            out.append((f"{mech} 8.7", dict(first, mechanism=mech, mag=8.7)))

    def thunk(kwds):
        def run():
            with warnings.catch_warnings(record=True) as seen, Records() as log:
                warnings.simplefilter("always")
                got = e.run(kwds)
            says = sorted(f"{w.category.__name__}: {w.message}" for w in seen)
            says += sorted(log.messages)
            if isinstance(got, core.Raised):
                return ("raised", got.kind, says)
            return ("value", list(got.values()), says)

        return run

    return [o[0] for o in out], [thunk(o[1]) for o in out], [o[1] for o in out]


def same_report(x, y):
    if x[0] != y[0] or x[2] != y[2]:
        return False
    return x[1] == y[1] if x[0] == "raised" else repeat.equal(x[1], y[1])


def reports(args):
    """All pairs of scenarios, and each twice."""
    from .history import in_child

    i, part, parts = args
    labels, runs, _ = report_ops(i)
    base = [in_child(r) for r in runs]
    n, bad = 0, []
    for a in range(part, len(runs), parts):

        def history(a=a):
            runs[a]()
            out, k = [], 0
            for b in range(len(runs)):

                def branch(b=b):
                    if not same_report(runs[b](), base[b]):
                        return [labels[a], labels[b]]
                    if not same_report(runs[a](), base[a]):
                        return [labels[a], labels[b], labels[a]]
                    return None

                k += 1
                got = in_child(branch)
                if got:
                    out.append(got)
            return k, out

        k, out = in_child(history)
        n += k
        bad += out
    return n, bad


# -- Rejections ---------------------------------------------------------------
def rejections(i):
    """Scenarios with all optional values of which one is missing or not valid, as
    (label, scenario, warnings are errors)."""
    from .history import VARY

    e = CATALOG[i]
    names = [p["name"] for p in PARAMS[e.abbrev]]
    full = dict(e.scenarios[0])
    full.update({n: VARY[n] for n in names if n in VARY})
    # Numbers that no other scenario has
    full = {k: v * 1.07 if isinstance(v, float) else v for k, v in full.items()}
    out = []
    for n in full:
        if n.startswith("+"):
            continue
        out.append((f"without {n}", {k: v for k, v in full.items() if k != n}, False))
        for v in ("not a value", [1.0, 2.0], {}, -5.0):
            out.append((f"{n} {v}", dict(full, **{n: v}), False))
        out.append((f"{n} -5.0, error", dict(full, **{n: -5.0}), True))
    return out


def rejected(args):
    """Every rejection, followed by every prediction."""
    from .history import c04_baseline, in_child, observations, same, scenarios

    i, part, parts = args
    e = CATALOG[i]
    todo = scenarios(i)
    base = [c04_baseline(("m", i, j)) for j in range(len(todo))]

    def history(label, kwds, errors):
        bad = []
        for j, s in enumerate(todo):
            with warnings.catch_warnings():
                warnings.simplefilter("error" if errors else "ignore")
                core.outcome(lambda: e.observe(e.build(kwds)))
            got = core.outcome(lambda: observations(e, e.build(s)))
            if isinstance(got, core.Raised):
                fine = base[j] == ("raised", got.kind)
            else:
                fine = isinstance(base[j], dict) and all(
                    same(got[k], v) for k, v in base[j].items()
                )
            if not fine:
                bad.append(f"scenario {j} after {label}")
        return bad

    n, out = 0, []
    for r in rejections(i)[part::parts]:
        out += in_child(lambda: history(*r))
        n += 2 * len(todo)
    return n, out


def explore(rep):
    t = core.thorough()
    length = 1500 if t else 160
    work = [(f, length) for f in repeat.families(t)]
    total = 0
    for (fam, _), (n, bad) in zip(work, core.pmap(long_history, work)):
        total += n
        for b in bad[:3]:
            rep.violation(f"C04 {repeat.fam_name(fam)} {b}", what="long history")
    rep.extra["length_of_long_histories"] = length
    rep.extra["steps_of_long_histories"] = total
    work = [(i, p, 2) for i in range(len(CATALOG)) for p in range(2)]
    pairs = 0
    for (i, _, _), (n, bad) in zip(work, core.pmap(reports, work)):
        pairs += n
        for b in bad[:3]:
            rep.violation(f"C04 {CATALOG[i].abbrev} {b}", what="report of the limits")
    rep.extra["pairs_of_reports"] = pairs
    work = [(i, p, 2) for i in range(len(CATALOG)) for p in range(2)]
    rejections_ = 0
    for (i, _, _), (n, bad) in zip(work, core.pmap(rejected, work)):
        rejections_ += n
        for b in bad[:3]:
            rep.violation(f"C04 {CATALOG[i].abbrev} {b}", what="prediction after a rejection")
    rep.extra["steps_after_rejections"] = rejections_
    total += rejections_
    rep.states += total + pairs
    rep.transitions += total + pairs
    rep.traces += total + pairs
