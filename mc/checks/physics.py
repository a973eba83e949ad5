"""Order invariants between neighbouring states that follow from the physics of the
publications: durations of energy fractions (C17), soft sites (C18), nonlinear site
response (C19), hanging wall (C20), deviations (C21) and intensity measures (C22)."""

import itertools
import json

import numpy as np

from .. import core
from ..catalog import BY_ABBREV, CATALOG
from .contract import array, defined, lattice, limits, pairwise
from .trends import DISTANCES, c13_points, medians, no_hanging_wall

TOL = 1e-9


def above(hi, lo, tol=TOL):
    """Index of the first value of hi that is below lo, or None."""
    hi, lo = np.ravel(hi), np.ravel(lo)
    bad = ~(hi - lo >= -tol * np.maximum(np.abs(lo), 1e-300))
    return int(np.flatnonzero(bad)[0]) if bad.any() else None


def explore(rep, pid, func, work):
    """func(item) returns (states, transitions, [(key, what)])."""
    count = {}
    for item, (n, m, bad) in zip(work, core.pmap(func, work)):
        rep.states += n
        rep.transitions += m
        rep.traces += n
        name = item[0] if isinstance(item[0], str) else item[0].abbrev
        count[name] = count.get(name, 0) + n
        if name not in rep.extra.setdefault("sampled", []):
            rep.extra["sampled"].append(name)
            rep.sample(dict(model=name, state=item[1]), limit=12)
        for k, what in bad[:3]:
            key = json.dumps(core.jsonable(k), sort_keys=True)
            rep.violation(f"{pid} {name} {key}", what=what)
        if len(rep.violations) > 60:
            rep.exhaustive = False
            break
    rep.extra.pop("sampled", None)
    rep.extra["states_by_model"] = count


# -- C17 --------------------------------------------------------------------
def fractions(thorough):
    e = np.round(np.arange(0.10, 0.951, 0.05), 2)
    mid = (e[1:] + e[:-1]) / 2
    out = np.r_[e, mid - 1e-4, mid + 1e-4]
    out = np.r_[out, np.arange(0.10, 0.9501, 0.001 if thorough else 0.01)]
    out = np.unique(np.round(out, 6))
    return [float(x) for x in out if 0.1 <= x <= 0.95]


def c17_one(args):
    e, s, energies = args
    m = core.outcome(lambda: e.build(s))
    if isinstance(m, core.Raised):
        return 1, 0, [(s, repr(m))]
    bad = []
    if e.abbrev in ("PR23", "PR24"):
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rows = core.outcome(
                lambda: [np.array(m.duration_for_energy(x), float) for x in energies]
            )
        if isinstance(rows, core.Raised):
            return 1, 0, [(s, repr(rows))]
        prev = None
        for x, (med, plus, minus) in zip(energies, rows):
            if not (0 < minus < med < plus):
                bad.append((dict(s, energy=x), f"{minus} < {med} < {plus}"))
            if prev is not None and above([med, plus, minus], prev) is not None:
                bad.append((dict(s, energy=x), f"{[med, plus, minus]} after {prev}"))
            prev = [med, plus, minus]
        return len(energies), len(energies) - 1, bad
    d = m.duration
    if e.abbrev == "AS96":
        nias = [x for x in energies if x <= 0.95]
        v = np.array(m.interp(nias), float)
        if above(v[1:], v[:-1]) is not None:
            bad.append((s, f"durations {v.tolist()}"))
        stds = [-5.0, -3.0, -2.0, -1.0, -0.1, 0.0, 0.5, 1.0, 2.0, 2.5, 4.0]
        w = np.array(m.interp(nias, stds), float)
        w = w if w.shape == (len(stds), len(nias)) else w.T
        if w.shape == (len(stds), len(nias)):
            if above(w[1:], w[:-1] * (1 + 1e-6)) is not None:
                bad.append((s, "durations for the deviations"))
        else:
            bad.append((s, f"shape {w.shape}"))
        return len(nias), len(nias) - 1, bad
    if e.abbrev == "AS16":
        pairs = [("D_5t75", "D_5t95"), ("D_20t80", "D_5t95")]
    else:
        pairs = [("D_5t75a", "D_5t95a"), ("D_5t75v", "D_5t95v")]
    for a, b in pairs:
        if not float(d[a]) < float(d[b]):
            bad.append((s, f"{a} {d[a]} {b} {d[b]}"))
    return 1, len(pairs), bad


def c17_states(e, thorough):
    for s in lattice(e, 3, 7 if thorough else 5):
        if e.abbrev == "PR23":
            # The published coefficients of distant records cross
            if s["dist_rup"] > 100 or s["dist_rup"] < 1 or not 200 <= s["v_s30"] <= 1500:
                continue
        if e.abbrev == "KS06" and not np.isfinite(
            e.build(s).duration.tolist()
        ).all():
            # Published sum of source, path and site durations is negative
            continue
        yield s


def c17(rep):
    core.import_library()
    en = fractions(core.thorough())
    work = [
        (e, s, en)
        for e in CATALOG
        if e.kind == "duration"
        for s in c17_states(e, core.thorough())
    ]
    explore(rep, "C17", c17_one, work)


# -- C18 --------------------------------------------------------------------
def weak(e, s):
    """The same scenario with weak motion, away from the hanging wall."""
    s = no_hanging_wall(s)
    for k in DISTANCES:
        if k in s:
            s[k] = max(0.6 * limits(e, k)[1], 100.0)
    if "dist_jb" in s and "dist_rup" in s:
        s["dist_jb"] = s["dist_rup"] - 1.0
    if "dist_x" in s:
        s["dist_x"] = -50.0
    s["mag"] = min(s["mag"], 6.0)
    for k in ("depth_1_0", "depth_2_5"):
        s.pop(k, None)
    return s


def long_period(e, s, obs):
    """Medians that are amplified by soft sites."""
    if e.kind == "gmm":
        t = obs["periods"]
        hi = 1.8 if e.abbrev == "DBC14" else 5.0
        out = dict(spec_accels=obs["spec_accels"][(t >= 0.4) & (t <= hi)])
        if "pgv" in obs:
            out["pgv"] = obs["pgv"].ravel()
        return out
    if e.kind == "fas":
        return dict(eas=obs["eas"][(obs["freqs"] >= 0.3) & (obs["freqs"] <= 8.0)])
    return medians(e, obs)


# Velocities at which the publications change the site response
VELOCITIES = [180.0, 300.0, 360.0, 500.0, 520.0, 760.0, 800.0, 1000.0, 1100.0, 1130.0, 1180.0, 1300.0]


def c18_line(args):
    e, s, vs = args
    prev, n, bad = None, 0, []
    for v in vs:
        obs = e.run(dict(s, v_s30=v))
        n += 1
        if isinstance(obs, core.Raised):
            bad.append((dict(s, v_s30=v), repr(obs)))
            break
        row = long_period(e, s, obs)
        if prev is not None:
            for k in row:
                i = above(prev[k], row[k])
                if i is not None:
                    bad.append(
                        (dict(s, v_s30=v), f"{k}[{i}] from {prev[k][i]} to {row[k][i]}")
                    )
        prev = row
    return n, n - 1, bad


def c18(rep):
    core.import_library()
    work, seen = [], set()
    for e in CATALOG:
        if e.kind == "ratio" or "v_s30" not in e.scenarios[0]:
            continue
        lo, hi = limits(e, "v_s30")
        vs = core.geo(lo, hi, 80 if core.thorough() else 30)
        vs = np.r_[vs, [v + d for v in VELOCITIES for d in (-1e-3, 0.0, 1e-3)]]
        vs = np.unique(vs[(vs >= lo) & (vs <= hi)]).tolist()
        more = pairwise(e, 6 if core.thorough() else 4)
        for s in itertools.chain(lattice(e, 2, 6 if core.thorough() else 4), more):
            if e.kind == "duration":
                # A depth that is given is relative to the average for the velocity
                s = {k: v for k, v in s.items() if k != "depth_1_0"}
            else:
                s = weak(e, s)
                if e.abbrev == "ASK14" and s.get("region") == "japan":
                    continue  # published in steps of the velocity
            s.pop("v_s30")
            if e.abbrev == "DBC14":
                s["mag"] = max(s["mag"], 5.0)  # neural network at the limit of its data
            if e.abbrev == "KS06" and s["dist_rup"] < 10:
                continue  # published duration can be negative
            if not defined(e, dict(s, v_s30=400.0)):
                continue
            key = (e.abbrev, repr(sorted(s.items())))
            if key not in seen:
                seen.add(key)
                work.append((e, s, vs))
    explore(rep, "C18", c18_line, work)


# -- C19 --------------------------------------------------------------------
SITE = dict(
    ASK14=([None, 0.05, 0.4, 2.0], [None, "california", "japan"]),
    BSSA14=([None, 0.05, 0.4, 2.0], [None, "california", "japan"]),
    CB14=([0.4, 1.5, 2.0, 5.0], [None, "california", "japan"]),
    CY14=([0.0, 0.05, 0.4, 2.0], [None, "california", "japan"]),
)
# Reference site of the models, and the velocity above which all motion increases
ROCK = {
    "AB06": 760.0, "ASB14": 750.0, "AGA16": 1100.0, "CB14-PNNL": 1100.0, "ASK14": 1180.0,
    "BSSA14": 760.0, "CB14": 1100.0, "CY14": 1130.0, "BA19": 1000.0,
}  # fmt: skip


# Published coefficients are rounded
TOL_SITE = 1e-4


def c19_site(abbrev, s):
    cls = BY_ABBREV[abbrev].load()
    prev, bad, n = None, [], 0
    for a in s["amps"]:
        f = core.outcome(
            lambda: np.asarray(
                cls.calc_site_term(a, s["v_s30"], s["depth"], s["region"]), float
            )
        )
        n += 1
        here = dict({k: v for k, v in s.items() if k != "amps"}, reference=a)
        if isinstance(f, core.Raised):
            return n, n, [(here, repr(f))]
        if prev is not None:
            b, g = prev
            if not (f - g <= TOL_SITE).all():
                bad.append((here, f"amplified {(f - g).max()} more than weaker motion"))
            # The surface motion increases nevertheless
            if s["v_s30"] >= 180 and not (f - g + np.log(a / b) >= -1e-9).all():
                bad.append((here, "surface motion decreases"))
        prev = (a, f)
    return n, n - 1, bad


def c19_line(args):
    if args[2] is None:
        return c19_site(*args[:2])
    e, s, points, vs = args
    n, bad = 0, []
    rock = ROCK[e.abbrev]
    prev = {}
    for p in points:
        ref = e.run(dict(s, **p, v_s30=rock))
        n += 1
        if isinstance(ref, core.Raised):
            return n, n, [(dict(s, **p), repr(ref))]
        ref = medians(e, ref)
        for v in vs:
            obs = e.run(dict(s, **p, v_s30=v))
            n += 1
            if isinstance(obs, core.Raised):
                return n, n, [(dict(s, **p), repr(obs))]
            amp = {}
            for k, x in medians(e, obs).items():
                r = np.log(x / ref[k])
                if e.abbrev == "CB14" and k == "spec_accels":
                    r = r[8:]  # short periods are limited by PGA
                amp[k] = r
            if v in prev:
                for k in amp:
                    d = amp[k] - prev[v][k]
                    if not (-d <= TOL_SITE).all():
                        i = int(np.argmin(d))
                        bad.append((dict(s, **p, v_s30=v), f"{k}[{i}] {d[i]}"))
            prev[v] = amp
    return n, n - len(vs) - 1, bad


def c19(rep):
    core.import_library()
    t = core.thorough()
    work = []
    amps = core.geo(0.001, 1.5, 60 if t else 30)
    for ab, (depths, regions) in SITE.items():
        for v in core.geo(150, 1500, 60 if t else 30):
            for d in depths:
                for r in regions:
                    work.append((ab, dict(v_s30=v, depth=d, region=r, amps=amps), None))
    seen = set()
    for e in CATALOG:
        if e.abbrev not in ROCK:
            continue
        for s in itertools.chain(lattice(e, 2, 6 if t else 4), pairwise(e, 6 if t else 4)):
            s = no_hanging_wall(s)
            for k in ("depth_1_0", "depth_2_5", "v_s30"):
                s.pop(k, None)
            for name in DISTANCES:
                if name not in s or (name == "dist_jb" and "dist_rup" in s):
                    continue
                points = c13_points(e, name, s, 24 if t else 14)
                base = {k: v for k, v in s.items() if k not in points[0]}
                key = (e.abbrev, repr(sorted(base.items())))
                if key in seen or not defined(e, dict(base, **points[0], v_s30=400.0)):
                    continue
                seen.add(key)
                vs = (180.0, 250.0, 360.0, 520.0) if t else (200.0, 300.0, 500.0)
                if e.abbrev == "DBC14":
                    vs = [v for v in vs if v >= 200]
                work.append((e, base, points, vs))
    explore(rep, "C19", c19_line, work)


# -- C20 --------------------------------------------------------------------
PLACES = [
    (0.0, 0.3), (0.0, 2.0), (0.0, 4.0), (0.0, 8.0), (0.0, 12.0), (0.0, 20.0), (0.0, 30.0),
    (1.0, 12.0), (3.0, 8.0), (6.0, 18.0), (12.0, 30.0), (20.0, 45.0), (28.0, 60.0),
]  # fmt: skip


def c20_states(e, thorough):
    """Stiff sites on the hanging wall of ruptures that are at least as far as their
    surface projection."""
    lo, hi = limits(e, "mag")
    grid = dict(
        mag=core.lin(max(lo, 4.5), hi, 25 if thorough else 13) + [5.500001, 6.499999],
        dip=[20.0, 30.0, 38.0, 45.0, 60.0, 75.0, 85.0, 89.0],
        depth_tor=[None, 0.0, 3.0, 6.0, 9.0, 14.0, 18.0, 20.0],
        width=[None, 5.0, 12.0, 25.0],
        mechanism=["RS", "NS"],
    )
    lat = list(lattice(e, 3 if thorough else 2, 4)) + list(pairwise(e, 6 if thorough else 4))
    for vals in itertools.product(*grid.values()):
        lat.append(dict(e.scenarios[0], **dict(zip(grid, vals))))
    seen = set()
    for i, s in enumerate(lat):
        if s.get("dist_x") is None:
            continue
        for jb, x in PLACES:
            tor = s.get("depth_tor")
            if tor is not None:
                tor = min(tor, 20.0)
            h = dict(
                s, dist_jb=jb, dist_x=x, depth_tor=tor, v_s30=max(s["v_s30"], 760.0)
            )
            h["dist_rup"] = float(np.hypot(jb, 12.0 if tor is None else tor) + 2.0)
            h["depth_bot"] = 30.0
            h.pop("depth_bor", None)
            if e.abbrev != "CB14":
                h.pop("depth_bot")
            if e.abbrev == "CY14":
                h.pop("width", None)
            key = repr(sorted((k, repr(v)) for k, v in h.items()))
            if key not in seen and defined(e, h):
                seen.add(key)
                yield h


def c20_one(args):
    e, s = args
    if e.abbrev == "CB14":
        hw, fw = s, dict(s, dist_x=-s["dist_x"])
    else:
        hw, fw = dict(s, on_hanging_wall=True), dict(s, on_hanging_wall=False)
    a, b = e.run(hw), e.run(fw)
    if isinstance(a, core.Raised) or isinstance(b, core.Raised):
        return 2, 1, [(s, f"{a!r} {b!r}"[:300])]
    bad = []
    for k in ("spec_accels", "pga", "pgv"):
        i = above(a[k], b[k])
        if i is not None:
            bad.append((s, f"{k}[{i}] {a[k].ravel()[i]} footwall {b[k].ravel()[i]}"))
    return 2, 1, bad


def c20_chunk(args):
    e, _, states = args
    bad = []
    for s in states:
        bad += c20_one((e, s))[2]
    return 2 * len(states), len(states), bad


def c20(rep):
    core.import_library()
    work = [
        (BY_ABBREV[a], c[0], c)
        for a in ("ASK14", "CB14", "CY14")
        for c in core.chunks(c20_states(BY_ABBREV[a], core.thorough()), 200)
    ]
    explore(rep, "C20", c20_chunk, work)


# -- C21 --------------------------------------------------------------------
ISOLATED = 0.05
ROUNDING = 0.01


def isolated(t, v):
    """Largest deviation of one value from its neighbours that is the opposite of
    the deviation of both neighbours."""
    r = np.zeros(len(t))
    w = (t[1:-1] - t[:-2]) / (t[2:] - t[:-2])
    r[1:-1] = v[1:-1] - (1 - w) * v[:-2] - w * v[2:]
    c, a, b = r[2:-2], r[1:-3], r[3:-1]
    x = np.minimum(np.abs(c), 2 * np.minimum(np.abs(a), np.abs(b)))
    x = np.where((c * a < 0) & (c * b < 0), x, 0)
    i = int(x.argmax())
    return float(x[i]), i + 2


def deviations(e, obs):
    if e.kind == "gmm":
        return {k: obs[k].ravel() for k in obs if k.startswith("ln_std")}
    return dict(ln_std=obs["ln_std"].ravel())


def c21_line(args):
    e, s, mags = args
    n, bad, prev = 0, [], None
    for m in mags:
        here = dict(s, mag=m)
        obs = e.run(here)
        n += 1
        if isinstance(obs, core.Raised):
            return n, n, [(here, repr(obs))]
        dev = deviations(e, obs)
        if e.kind == "gmm":
            size, i = isolated(np.log(obs["periods"]), obs["ln_stds"])
            if size > ISOLATED:
                bad.append((here, f"ln_stds[{i}] = {obs['ln_stds'][i]} is isolated"))
        elif e.kind == "fas":
            size, i = isolated(np.log(obs["freqs"]), obs["ln_std"])
            if size > ISOLATED:
                bad.append((here, f"ln_std[{i}] is isolated"))
        # Not for periods over one second
        if e.kind == "gmm":
            dev["ln_stds"] = dev["ln_stds"][obs["periods"] <= 1.0]
        if prev is not None and e.kind != "ratio":
            for k in dev:
                d = prev[k] - dev[k]
                if not (d >= -ROUNDING).all():
                    bad.append((here, f"{k} increases by {-d.min()}"))
        prev = dev
    return n, n - 1, bad


def c21_source(args):
    e, s = args[:2]
    a = e.run(dict(s, vs_source="inferred"))
    b = e.run(dict(s, vs_source="measured"))
    if isinstance(a, core.Raised) or isinstance(b, core.Raised):
        return 2, 1, [(s, f"{a!r} {b!r}"[:300])]
    bad = []
    for k in deviations(e, a):
        i = above(a[k], b[k])
        if i is not None:
            bad.append((s, f"{k}[{i}] {a[k].ravel()[i]} for a measured velocity {b[k].ravel()[i]}"))
    for k in medians(e, a):
        if not core.close(a[k], b[k]).all():
            bad.append((s, f"{k} depends on the source of the velocity"))
    return 2, 1, bad


def c21_one(args):
    return c21_source(args) if args[2] is None else c21_line(args)


def c21(rep):
    core.import_library()
    t = core.thorough()
    work, seen = [], set()
    for e in CATALOG:
        if e.kind in ("duration", "conditional"):
            continue
        for s in itertools.chain(lattice(e, 2, 6 if t else 4), pairwise(e, 6 if t else 4)):
            if e.kind != "ratio":
                z = {k: s[k] for k in ("depth_1_0", "depth_2_5") if k in s}
                s = dict(weak(e, s), **z)
            s.pop("mag")
            key = (e.abbrev, repr(sorted(s.items())))
            if key in seen or not defined(e, dict(s, mag=6.0)):
                continue
            seen.add(key)
            mags = core.lin(*limits(e, "mag"), 40 if t else 20)
            if e.abbrev in ("C03", "TP05", "Pea11"):
                mags = core.merge(mags, [6.9999, 7.0, 7.1599, 7.16, 7.1999, 7.2])
                mags.sort()
            work.append((e, s, mags))
    for a in ("ASK14", "CY14"):
        for s in itertools.chain(lattice(BY_ABBREV[a], 2, 4), array(BY_ABBREV[a], 17, 2)):
            work.append((BY_ABBREV[a], s, None))
    explore(rep, "C21", c21_one, work)


# -- C22 --------------------------------------------------------------------
# Published for hard rock, or without a period that is short enough
SHORT = dict(TP05=None, C03=None, AB06=(0.85, 1.9), Pea11=(0.98, 1.5))


def c22_one(args):
    e, s = args
    obs = e.run(s)
    if isinstance(obs, core.Raised):
        return 1, 1, [(s, repr(obs))]
    bad = []
    t, psa = obs["periods"], obs["spec_accels"]
    if "pga" in obs:
        pga = float(obs["pga"])
        lim = SHORT.get(e.abbrev, (0.97, 1.08))
        if e.abbrev == "AB06" and not s["v_s30"]:
            lim = (lim[0], 3.0)  # hard rock
        if lim is not None and not lim[0] <= psa[0] / pga <= lim[1]:
            bad.append((s, f"PSA({t[0]}) is {psa[0] / pga} PGA"))
        if not 1.0 <= psa.max() / pga <= 13:
            bad.append((s, f"the largest PSA is {psa.max() / pga} PGA"))
    if "pgv" in obs:
        one = np.exp(np.interp(0.0, np.log(t), np.log(psa)))
        r = float(obs["pgv"]) / one
        if not 25 <= r <= 1400:
            bad.append((s, f"PGV is {r} cm/s for a PSA(1 s) of 1 g"))
    if "pgd" in obs:
        sd = psa[-1] * 980.665 * (t[-1] / (2 * np.pi)) ** 2
        r = float(obs["pgd"]) / sd
        if not 0.3 <= r <= 4:
            bad.append((s, f"PGD is {r} of the displacement at {t[-1]} s"))
    sd = np.log(psa) + 2 * np.log(t)
    small = e.abbrev == "CB14-PNNL" and s["mag"] < 4.5
    if not small and not (sd[-1] > sd[0] and np.diff(sd).min() > -0.8):
        bad.append((s, "spectral displacements decrease"))
    return 1, 1, bad


def c22_states(e, k):
    more = [(101, 2), (29, 3)] if core.thorough() else [(53, 2), (17, 3)]
    for s in itertools.chain(lattice(e, k, 4), *(array(e, q, t) for q, t in more)):
        if e.abbrev == "CY14":
            # Closer than the rupture is
            tor = s.get("depth_tor")
            if np.hypot(s["dist_jb"], 0.0 if tor is None else tor) > s["dist_rup"]:
                continue
        yield s


def c22_chunk(args):
    e, _, states = args
    n, bad = 0, []
    for s in states:
        bad += c22_one((e, s))[2]
        n += 1
    return n, n, bad


def c22(rep):
    core.import_library()
    work = []
    for e in CATALOG:
        if e.kind == "gmm":
            many = len(e.scenarios[0]) > 7
            k = 3 if core.thorough() or not many else 2
            for c in core.chunks(c22_states(e, k), 200):
                work.append((e, c[0], c))
    explore(rep, "C22", c22_chunk, work)
