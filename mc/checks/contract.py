"""What every model provides: accessors (C08), interpolation (C09), finite positive
predictions (C10) that vary continuously (C11)."""

import itertools
import json

import numpy as np

from .. import core
from ..catalog import CATALOG
from .scenario import PARAMS

# Number of values, or range, where the library states no limit
RANGE = dict(
    mag=(3.0, 8.5),
    dist_rup=(0.5, 300.0),
    dist_jb=(0.0, 300.0),
    dist_epi=(1.0, 200.0),
    dist_hyp=(5.0, 200.0),
    dist_x=(-100.0, 100.0),
    dist_y0=(0.0, 50.0),
    dist_crjb=(0.0, 30.0),
    v_s30=(150.0, 2000.0),
    depth_1_0=(0.005, 2.0),
    depth_2_5=(0.05, 10.0),
    depth_tor=(0.0, 20.0),
    depth_bor=(8.0, 20.0),
    depth_bot=(10.0, 25.0),
    depth_hyp=(1.0, 20.0),
    dip=(15.0, 90.0),
    width=(4.0, 30.0),
    dpp_centered=(-0.5, 0.5),
    pga_ref=(0.001, 10.0),
)
MODEL_RANGE = {
    ("AB06", "mag"): (3.5, 8.0),
    ("AB06", "dist_rup"): (1.0, 1000.0),
    ("AB06", "v_s30"): (150.0, 1500.0),
    ("C03", "dist_rup"): (1.0, 1000.0),
    ("TP05", "dist_rup"): (1.0, 1000.0),
    ("Pea11", "dist_rup"): (1.0, 1000.0),
    ("ASK14", "v_s30"): (180.0, 1500.0),
    ("AGA16", "depth_hyp"): (30.0, 150.0),
    ("AGA16", "dist_hyp"): (50.0, 300.0),
    ("AGA16", "mag"): (3.0, 8.5),
    ("CB14-PNNL", "mag"): (3.0, 8.5),
    ("I14", "mag"): (5.0, 8.5),
    ("DBC14", "depth_hyp"): (1.0, 25.0),
}


# Values that are zero although the range of the alphabets starts above
ZERO = dict(dist_rup=0.5, dist_epi=1.0, dist_hyp=5.0, depth_1_0=0.005, depth_2_5=0.05, depth_hyp=1.0)


def limits(entry, name):
    if (entry.abbrev, name) in MODEL_RANGE:
        return MODEL_RANGE[entry.abbrev, name]
    lo, hi = RANGE[name]
    p = next(p for p in PARAMS[entry.abbrev] if p["name"] == name)
    if p["min"] is not None:
        lo = max(lo, p["min"])
    if p["max"] is not None:
        hi = min(hi, p["max"])
    return lo, hi


def numeric(entry):
    return [p["name"] for p in PARAMS[entry.abbrev] if "options" not in p]


def defined(entry, s):
    """The models are defined for this scenario."""
    a = entry.abbrev
    rup, jb, x = s.get("dist_rup"), s.get("dist_jb"), s.get("dist_x")
    if jb is not None and rup is not None and jb > rup:
        return False
    if a == "ASK14" and s.get("on_hanging_wall") and (x is None or x < 0):
        return False
    if a == "CB14":
        bot = s.get("depth_bot", 15.0)
        tor = s.get("depth_tor")
        if bot <= (tor if tor is not None else 0) + 1:
            return False
        if s.get("depth_bor") is not None and s["depth_bor"] <= (tor or 0) + 1:
            return False
    if a == "PR24" and (s["event_type"], s["region"]) == ("interface", "Taiwan"):
        return False
    if a == "AGA16":
        if s["event_type"] == "intraslab":
            return s.get("dist_hyp") is not None and s.get("depth_hyp") is not None
        return s.get("dist_rup") is not None
    return True


def values(entry, name, n):
    """Alphabet that spans the range of applicability."""
    lo, hi = limits(entry, name)
    out = core.geo(lo, hi, n) if lo > 0 and hi / lo > 10 else core.lin(lo, hi, n)
    if lo <= ZERO.get(name, 0.0) and entry.abbrev not in ("C03", "TP05", "Pea11", "AB06"):
        # On top of the rupture, rupture at the surface, no soil
        out = core.merge([0.0], out)
    if (entry.abbrev, name) == ("AB06", "v_s30"):
        out = [0.0, *out]  # hard rock
    return out


def lattice(entry, k, n):
    """Scenarios with up to k deviations from the scenarios of the catalogue."""
    params = PARAMS[entry.abbrev]
    alpha = {
        p["name"]: (list(p["options"]) if "options" in p else values(entry, p["name"], n))
        for p in params
    }
    seen = set()
    for base in entry.scenarios:
        for r in range(k + 1):
            for combo in itertools.combinations(alpha, r):
                for vals in itertools.product(*(alpha[c] for c in combo)):
                    s = dict(base)
                    s.update(zip(combo, vals))
                    key = tuple(sorted((a, repr(b)) for a, b in s.items()))
                    if key not in seen and defined(entry, s):
                        seen.add(key)
                        yield s


def array(entry, q, t):
    """Scenarios in which every combination of the levels of any t values occurs."""
    alpha = {}
    for p in PARAMS[entry.abbrev]:
        name = p["name"]
        if "options" in p:
            alpha[name] = list(p["options"])
        elif not p["required"] and name.startswith(("depth", "width", "dpp")):
            # A tenth of the scenarios omits the value
            omitted = [] if entry.abbrev == "AGA16" else [None] * max(1, q // 10)
            alpha[name] = omitted + values(entry, name, q - len(omitted))
        else:
            alpha[name] = values(entry, name, q)
    options = [
        {k: v for k, v in s.items() if k.startswith("+")} for s in entry.scenarios
    ]
    alpha["+"] = [o for i, o in enumerate(options) if o not in options[:i]]
    names = list(alpha)
    seen = set()
    for row in core.orthogonal(q, min(t, len(names)), len(names)).tolist():
        s = {n: alpha[n][i % len(alpha[n])] for n, i in zip(names, row)}
        s.update(s.pop("+"))
        s = {k: v for k, v in s.items() if v is not None}
        key = repr(s)
        if key not in seen and defined(entry, s):
            seen.add(key)
            yield s


def pairwise(entry, n):
    """A few scenarios in which every pair of n levels of any two values occurs."""
    alpha = {}
    for p in PARAMS[entry.abbrev]:
        name = p["name"]
        alpha[name] = list(p["options"]) if "options" in p else values(entry, name, n)
        if not p["required"] and name.startswith(("depth", "width")) and entry.abbrev != "AGA16":
            alpha[name].insert(0, None)
    bases = [{k: s.get(k) for k in alpha} for s in entry.scenarios]
    for s, full in zip(entry.scenarios, bases):
        full.update({k: v for k, v in s.items() if k.startswith("+")})
    for s in core.regimes(bases, alpha, list(alpha))[len(bases) :]:
        s = {k: v for k, v in s.items() if v is not None}
        if defined(entry, s):
            yield s


# --------------------------------------------------------------------------
# C10
# --------------------------------------------------------------------------
STD_MAX = 3.0


def c10_chunk(args):
    entry, states = args
    out = []
    for s in states:
        obs = entry.run(s)
        if isinstance(obs, core.Raised):
            out.append((s, repr(obs)))
            continue
        for k, v in obs.items():
            if k.startswith("interp"):
                continue  # NaN outside of the periods: C09
            if entry.kind == "duration" and (
                k in ("minus", "interp_std") or k.startswith("energy") or entry.abbrev == "KS06"
            ):
                continue
            std = "std" in k
            if not np.isfinite(v).all():
                out.append((s, f"{k} is not finite"))
            elif k == "ln_eas":
                continue
            elif not (v > 0).all():
                out.append((s, f"{k} is not positive"))
            elif std and not (v < STD_MAX).all():
                out.append((s, f"{k} is too large"))
    return len(states), out


def c10(rep):
    core.import_library()
    work = []
    for e in CATALOG:
        many = len(PARAMS[e.abbrev]) > 8
        k = 3 if core.thorough() or not many else 2
        n = 5 if core.thorough() and not many else 4
        states = list(lattice(e, k, n))
        rep.extra.setdefault("spaces", []).append(
            dict(model=e.abbrev, states=len(states), deviations=k)
        )
        for q, r in ((101, 2), (29, 3)) if core.thorough() else ((53, 2), (17, 3)):
            more = list(array(e, q, r))
            rep.extra["spaces"].append(
                dict(model=e.abbrev, states=len(more), levels=q, combinations=r)
            )
            states += more
        rep.sample(dict(model=e.abbrev, scenario=states[-1]), limit=21)
        work += [(e, c) for c in core.chunks(states, 200)]
    for (e, _), (n, bad) in zip(work, core.pmap(c10_chunk, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for s, what in bad[:5]:
            rep.violation(
                f"C10 {e.abbrev} " + json.dumps(core.jsonable(s), sort_keys=True),
                what=what,
            )
        if len(rep.violations) > 50:
            rep.exhaustive = False
            break


# --------------------------------------------------------------------------
# C11
# --------------------------------------------------------------------------
def grid(entry, name, thorough):
    """Values at which published equations change are among the round numbers."""
    lo, hi = limits(entry, name)
    step = dict(
        mag=0.05, v_s30=10.0, dip=2.5, depth_1_0=0.02, depth_2_5=0.1, pga_ref=0.02,
        depth_tor=0.5, depth_hyp=0.5, depth_bor=0.5, depth_bot=0.5, width=0.5,
        dpp_centered=0.05, dist_crjb=0.5, dist_y0=1.0,
    ).get(name, 1.0)  # fmt: skip
    if thorough:
        step /= 2
    if hi > 400:
        pts = np.r_[np.arange(1, 200, step), np.arange(200, hi, 5 * step)]
    else:
        k0, k1 = int(np.ceil(lo / step)), int(np.floor(hi / step))
        pts = np.arange(k0, k1 + 1) * step
    if name.startswith("dist") and lo <= 1:
        pts = np.r_[np.arange(0.1, 1, 0.1) if lo > 0 else np.arange(0, 1, 0.1), pts]
    pts = np.unique(np.round(pts, 6))
    return [float(p) for p in pts if lo <= p <= hi]


def vector(entry, s):
    """Observations as one vector, of which jumps are sought."""
    obs = entry.run(s)
    if isinstance(obs, core.Raised):
        return None
    out = []
    for k in sorted(obs):
        v = obs[k].ravel()
        if k == "periods" or k.startswith("interp") or k == "freqs":
            continue
        if entry.kind == "duration" and (k == "minus" or k.startswith("energy")):
            continue
        if "std" not in k and k != "ln_eas":
            v = np.log(np.maximum(v, 1e-300))
        out.append(v)
    return np.concatenate(out)


EPS = 1e-9
JUMP = 1e-5
SUSPECT = 2e-3


def c11_line(args):
    """All jumps along one coordinate."""
    entry, base, name, thorough = args
    pts = grid(entry, name, thorough)
    f = lambda x: vector(entry, dict(base, **{name: x}))  # noqa: E731
    ok = lambda x: defined(entry, dict(base, **{name: x}))  # noqa: E731
    n, jumps, rows = 0, [], []
    lim = limits(entry, name)
    for x in pts:
        d = EPS * max(abs(x), 1.0)
        if not (ok(max(x - d, lim[0])) and ok(x) and ok(min(x + d, lim[1]))):
            rows.append(None)
            continue
        # At the limits, from within
        y = [f(max(x - d, lim[0])), f(x), f(min(x + d, lim[1]))]
        n += 3
        if any(v is None or not np.isfinite(v).all() for v in y):
            rows.append(None)
            continue
        size = max(np.abs(y[1] - y[0]).max(), np.abs(y[2] - y[1]).max())
        if size > JUMP:
            jumps.append((x, float(size)))
        rows.append(y)
    # Jumps between the points
    for i in range(len(pts) - 1):
        a, b = rows[i], rows[i + 1]
        if a is None or b is None:
            continue
        step = pts[i + 1] - pts[i]
        left = rows[i - 1] if i > 0 else None
        right = rows[i + 2] if i + 2 < len(pts) else None
        diff = b[0] - a[2]
        res = []
        if left is not None:
            res.append(np.abs(diff - (a[0] - left[2]) * step / (pts[i] - pts[i - 1])).max())
        if right is not None:
            res.append(
                np.abs(diff - (right[0] - b[2]) * step / (pts[i + 2] - pts[i + 1])).max()
            )
        if not res or min(res) <= SUSPECT:
            continue
        lo, hi, ylo, yhi = pts[i], pts[i + 1], a[2], b[0]
        lo += EPS * max(abs(lo), 1.0)
        hi -= EPS * max(abs(hi), 1.0)
        while hi - lo > EPS * max(abs(hi), 1.0):
            mid = 0.5 * (lo + hi)
            y = f(mid)
            n += 1
            if y is None or not np.isfinite(y).all():
                break
            if np.abs(y - ylo).max() > np.abs(yhi - y).max():
                hi, yhi = mid, y
            else:
                lo, ylo = mid, y
        else:
            size = np.abs(yhi - ylo).max()
            if size > JUMP:
                jumps.append((0.5 * (lo + hi), float(size)))
    return n, len([r for r in rows if r is not None]), jumps


def published(entry, base, name, x, size):
    """Steps of the published equations are at known values, and of limited size."""
    if entry.abbrev == "CB14" and size < 5e-4:
        # Rounded coefficients of the hanging wall (at the end of the rupture)
        return True
    for p, limit in STEPS.get((entry.abbrev, name), lambda s: ())(base):
        if abs(x - p) < 1e-6 * max(1.0, abs(p)):
            return size < limit
    return False


def _bins(s):
    if s.get("depth_1_0") is None:
        return ()
    return (200.0, 1.0), (300.0, 0.4), (500.0, 0.8)


def _gamma(s):
    return ((6.0, 2.5), (6.9, 2.5)) if s.get("region") in ("japan", "italy") else ()


STEPS = {
    # Rounding of the standard deviation for large magnitudes
    ("C03", "mag"): lambda s: ((7.16, 0.002),),
    ("TP05", "mag"): lambda s: ((7.2, 0.02),),
    ("Pea11", "mag"): lambda s: ((7.0, 0.002),),
    # Velocity limit of the linear site response
    ("AGA16", "v_s30"): lambda s: ((1032.5, 0.08), (1053.5, 0.08), (1085.7, 0.08)),
    ("CB14-PNNL", "v_s30"): lambda s: ((1032.5, 0.08), (1053.5, 0.08), (1085.7, 0.08)),
    # Step at the up-dip edge of the rupture
    ("CB14", "dist_x"): lambda s: ((0.0, 0.5),),
    # Site response in Japan
    ("CB14", "v_s30"): lambda s: ((200.0, 0.6),) if s.get("region") == "japan" else (),
    # Attenuation for 6 < M < 6.9
    ("CY14", "mag"): _gamma,
    # Coefficients for small and large magnitudes
    ("I14", "mag"): lambda s: ((6.75, 0.005),),
    # Rounding of coefficients of the source
    ("AS16", "mag"): lambda s: ((5.2, 5e-4), (5.35, 5e-4)),
    # Bins of the basin term
    ("BA19", "v_s30"): _bins,
}


def c11_bases(entry, thorough):
    """Scenarios of the catalogue, and the options of the categories."""
    out = []
    for base in entry.scenarios:
        out.append(base)
        for p in PARAMS[entry.abbrev]:
            if "options" in p and (thorough or base is entry.scenarios[0]):
                for o in p["options"]:
                    s = dict(base, **{p["name"]: o})
                    if s not in out and defined(entry, s):
                        out.append(s)
    out += pairwise(entry, 6 if thorough else 3)
    return out


def c11(rep):
    core.import_library()
    work = []
    for e in CATALOG:
        for base in c11_bases(e, core.thorough()):
            for name in numeric(e):
                if base.get(name) is None and base is not e.scenarios[0]:
                    continue
                if e.abbrev == "ASB14" and name not in base and name.startswith("dist"):
                    continue
                work.append((e, base, name, core.thorough()))
    explored = 0
    for (e, base, name, _), (n, pts, jumps) in zip(work, core.pmap(c11_line, work)):
        rep.states += n
        rep.transitions += 2 * pts
        rep.traces += n
        explored += pts
        for x, size in jumps:
            if published(e, base, name, x, size):
                rep.extra["published_steps"] = rep.extra.get("published_steps", 0) + 1
                continue
            rep.violation(
                f"C11 {e.abbrev} {name}={x:.6g} "
                + json.dumps(core.jsonable(base), sort_keys=True),
                parameter=name,
                at=x,
                jump=size,
            )
    rep.extra["lines"] = len(work)
    rep.extra["points"] = explored
    for e, base, name, _ in work[:: max(1, len(work) // 8)]:
        rep.sample(dict(model=e.abbrev, along=name, scenario=base))


# --------------------------------------------------------------------------
# C08
# --------------------------------------------------------------------------
MEASURES = ("pga", "pgv", "pgd")


def not_implemented(func):
    got = core.outcome(func)
    return isinstance(got, core.Raised) and got.kind == "NotImplementedError"


def is_scalar(v):
    return np.ndim(v) == 0 and np.isfinite(float(v))


def c08_one(entry, s):
    """First inconsistency of the accessors of one prediction, or None."""
    m = core.outcome(lambda: entry.build(s))
    if isinstance(m, core.Raised):
        return repr(m)
    scen = dict(m.scenario)
    a, b = entry.observe(m), entry.observe(m)
    for k in a:
        if not np.array_equal(a[k], b[k], equal_nan=True):
            return f"repeated reading of {k}"
    if dict(m.scenario) != scen:
        return "reading changes the scenario"
    if entry.kind == "gmm":
        n = entry.n_psa
        for k in ("periods", "spec_accels", "ln_stds"):
            if a[k].shape != (n,):
                return f"shape of {k}: {a[k].shape}"
        if not (np.diff(a["periods"]) > 0).all() or not a["periods"][0] > 0:
            return "periods do not increase"
        for k in MEASURES:
            std = "ln_std_" + k
            if k in entry.im:
                if not is_scalar(getattr(m, k)) or not is_scalar(getattr(m, std)):
                    return f"{k} is not a number"
            elif not not_implemented(lambda: getattr(m, k)) or not not_implemented(
                lambda: getattr(m, std)
            ):
                return f"{k} is not provided by the model"
        t = a["periods"]
        if not same12(m.interp_spec_accels(t), a["spec_accels"]):
            return "interp_spec_accels at the periods"
        if not same12(m.interp_ln_spec_accels(t), np.log(a["spec_accels"])):
            return "interp_ln_spec_accels at the periods"
        if not same12(m.interp_ln_stds(t), a["ln_stds"]):
            return "interp_ln_stds at the periods"
    elif entry.kind == "fas":
        n = len(a["freqs"])
        if any(a[k].shape != (n,) for k in ("eas", "ln_eas", "ln_std")):
            return "shapes"
        if not same12(np.log(a["eas"]), a["ln_eas"]):
            return "eas and ln_eas"
        if not (np.diff(a["freqs"]) > 0).all():
            return "frequencies do not increase"
    elif entry.kind == "ratio":
        if a["ratio"].shape != a["ln_std"].shape or a["ratio"].ndim != 1:
            return "shapes"
    elif entry.kind == "conditional":
        if not is_scalar(m.pgv) or not is_scalar(m.ln_std_pgv):
            return "pgv"
    elif "plus" in a:
        if not a["minus"] <= a["duration"] <= a["plus"]:
            return "order of the durations"
        d = np.array(m.duration_for_energy(0.75), float)
        if not same12(d, [a["duration"], a["plus"], a["minus"]]):
            return "duration for 75% of the energy"
    return None


def same12(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and bool(core.close(x, y, 1e-11, 1e-12).all())


def c08_chunk(args):
    entry, states = args
    out = []
    for s in states:
        bad = core.outcome(lambda: c08_one(entry, s))
        if bad is not None:
            out.append((s, repr(bad)))
    return len(states), out


def c08(rep):
    core.import_library()
    work = []
    for e in CATALOG:
        k = 2 if core.thorough() or len(PARAMS[e.abbrev]) < 8 else 1
        states = list(lattice(e, k, 4)) + list(array(e, 31 if core.thorough() else 17, 2))
        work += [(e, c) for c in core.chunks(states, 200)]
        rep.sample(dict(model=e.abbrev, scenario=states[-1]), limit=21)
    run_chunks(rep, "C08", c08_chunk, work)


def run_chunks(rep, pid, func, work):
    for (e, _), (n, bad) in zip(work, core.pmap(func, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for s, what in bad[:5]:
            rep.violation(
                f"{pid} {e.abbrev} " + json.dumps(core.jsonable(s), sort_keys=True),
                what=what,
            )
        if len(rep.violations) > 50:
            rep.exhaustive = False
            break


# --------------------------------------------------------------------------
# C09
# --------------------------------------------------------------------------
def step_kind(kind, x, xs, ys):
    """Reference of the interpolation within the range of increasing xs."""
    i = int(np.searchsorted(xs, x, side="right")) - 1
    i = min(max(i, 0), len(xs) - 2)
    w = (x - xs[i]) / (xs[i + 1] - xs[i])
    if kind in ("linear", "slinear"):
        return (1 - w) * ys[i] + w * ys[i + 1]
    if kind == "zero":
        return ys[i + 1] if w >= 1 else ys[i]
    if kind == "nearest":
        return ys[i] if w < 0.5 else ys[i + 1]
    raise KeyError(kind)


FRACTIONS = (0.1, 0.25, 0.49, 0.51, 0.9)


def c09_points(t):
    """(period, location) with the ends, both outsides and points of all gaps."""
    lt = np.log(t)
    pts = [(t[0] * 0.99, None), (t[-1] * 1.01, None), (t[0] * 0.01, None), (t[-1] * 90, None)]
    pts += [(x, None) for x in (0.0, float("inf"))]
    pts += [(float(p), float(np.log(p))) for p in t]
    for i in range(len(t) - 1):
        for w in FRACTIONS:
            x = lt[i] + w * (lt[i + 1] - lt[i])
            pts.append((float(np.exp(x)), float(x)))
    return pts


def c09_work(args):
    entry, s = args
    m = entry.build(s)
    out, n = [], 0
    t = np.array(m.periods, float)
    lt = np.log(t)
    psa, std = np.log(np.array(m.spec_accels)), np.array(m.ln_stds, float)
    pts = c09_points(t)
    arr = np.array([p for p, _ in pts])
    for kind in (None, "linear", "slinear", "nearest", "zero", "quadratic", "cubic"):
        kw = {} if kind is None else dict(kind=kind)
        for name, ys in (
            ("interp_ln_spec_accels", psa),
            ("interp_spec_accels", psa),
            ("interp_ln_stds", std),
        ):
            f = getattr(m, name)
            got = core.outcome(lambda: np.asarray(f(arr, **kw), float))
            if isinstance(got, core.Raised) or got.shape != arr.shape:
                out.append((name, kind, repr(got)))
                continue
            if name == "interp_spec_accels":
                got = np.log(got)
            for (p, x), g in zip(pts, got):
                n += 1
                if x is None:
                    if not np.isnan(g):
                        out.append((name, kind, f"{g} at {p} outside of the periods"))
                    continue
                at = np.isclose(x, lt, rtol=0, atol=1e-12)
                if kind in ("quadratic", "cubic"):
                    if at.any() and not core.close(g, ys[at][0], 1e-7, 1e-7):
                        out.append((name, kind, f"{g} at {p}"))
                    continue
                if at.any():
                    # A rounded logarithm may select the previous value
                    i = int(np.flatnonzero(at)[0])
                    opts = [ys[i]] + ([ys[i - 1]] if kind == "zero" and i else [])
                else:
                    opts = [step_kind(kind or "linear", x, lt, ys)]
                if not any(core.close(g, o, 1e-8, 1e-9) for o in opts):
                    out.append((name, kind, f"{g} at {p}, expected {opts[0]}"))
            # Many periods are those of smaller arrays
            if kind in (None, "cubic"):
                many = np.exp(np.linspace(lt[0], lt[-1], 6007)[1:-1])
                many = np.r_[t, many, t]
                for size in (300, 1100, 4500, len(many)):
                    n += size
                    v = core.outcome(lambda: np.asarray(f(many[-size:], **kw), float))
                    exp = np.concatenate(
                        [np.asarray(f(c, **kw), float) for c in np.array_split(many[-size:], 1 + size // 60)]
                    )
                    if isinstance(v, core.Raised) or not same12(v, exp):
                        out.append((name, kind, f"{size} periods"))
            # Other forms and orders of the same periods
            ref = np.asarray(f(arr, **kw), float)
            for label, form, order in (
                ("reversed", arr[::-1], slice(None, None, -1)),
                ("list", arr.tolist(), slice(None)),
                ("2d", arr[: len(arr) // 2 * 2].reshape(2, -1), None),
            ):
                n += 1
                v = core.outcome(lambda: np.asarray(f(form, **kw), float))
                exp = (
                    ref[: len(arr) // 2 * 2].reshape(2, -1) if order is None else ref[order]
                )
                if isinstance(v, core.Raised) or not same12(v, exp):
                    out.append((name, kind, f"{label} {v!r}"[:200]))
            for p in (float(t[0]), float(t[len(t) // 2]), 1.0 if t[-1] >= 1 else float(t[-1])):
                n += 1
                v = core.outcome(lambda: np.asarray(f(p, **kw), float))
                exp = np.asarray(f([p], **kw), float)[0]
                if isinstance(v, core.Raised) or v.shape != () or not same12(v, exp):
                    out.append((name, kind, f"scalar {v!r}"[:200]))
    return n, out


def c09(rep):
    core.import_library()
    work = []
    for e in CATALOG:
        if e.kind == "gmm":
            for s in lattice(e, 1, 4 if core.thorough() else 2) if core.thorough() else e.scenarios:
                work.append((e, s))
    for (e, s), (n, bad) in zip(work, core.pmap(c09_work, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        rep.sample(dict(model=e.abbrev, scenario=s))
        for name, kind, what in bad[:5]:
            rep.violation(
                f"C09 {e.abbrev} {name} {kind} "
                + json.dumps(core.jsonable(s), sort_keys=True),
                what=what,
            )
    rep.extra["predictions"] = len(work)
