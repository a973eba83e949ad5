"""Caller data is never modified (C03); predictions do not depend on history (C04)."""

import gc
import itertools
import json
import os
import pickle
import warnings

import numpy as np

from .. import calls, core
from ..catalog import CATALOG
from . import repeat, sequences
from .scenario import MISSING, PARAMS, c07_states

# --------------------------------------------------------------------------
# C03
# --------------------------------------------------------------------------
def as_list(a):
    return a.tolist()


def as_tuple(a):
    return tuple(a.tolist())


def as_copy(a):
    return a.copy()


def as_readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def as_strided(a):
    b = np.full((2 * a.size,), -77.0)
    b[::2] = a
    return b[::2]


def as_column(a):
    b = np.full((a.size, 3), -77.0)
    b[:, 1] = a
    return b[:, 1]


def as_reversed(a):
    return a[::-1].copy()[::-1]


def as_subclass(a):
    return np.ma.masked_array(a.copy(), False)


FORMS = [as_list, as_tuple, as_copy, as_readonly, as_strided, as_column, as_reversed]


def same(x, y, tol=1e-12):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and bool(core.close(x, y, tol, tol).all())


def clobber(v):
    """Overwrite a returned or provided array; True if it was possible."""
    if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
        if v.dtype.names:
            for n in v.dtype.names:
                v[n] = -9.0e9
        else:
            v[...] = -9.0e9
        return True
    if isinstance(v, list):
        v[:] = [-9.0e9] * len(v)
        return True
    return False


def c03_call(args):
    """One function with every combination of the forms of its arguments."""
    i, depth = args
    call = (calls.calls() + calls.neutral())[i]
    names = list(call.arrays)
    base = call.run({k: v.copy() for k, v in call.arrays.items()})
    base = [np.array(b, float) for b in base]
    out, n = [], 0
    for forms in itertools.product(FORMS, repeat=len(names)):
        given = {k: f(call.arrays[k]) for k, f in zip(names, forms)}
        label = {k: f.__name__ for k, f in zip(names, forms)}
        before = {k: np.array(v) for k, v in given.items()}
        for rep in range(depth):
            n += 1
            got = core.outcome(lambda: call.run(given))
            if isinstance(got, core.Raised):
                out.append((label, "raised", repr(got)))
                break
            if len(got) != len(base) or not all(same(g, b) for g, b in zip(got, base)):
                out.append((label, "value", rep))
                break
            changed = [k for k in names if not np.array_equal(np.array(given[k]), before[k])]
            if changed:
                out.append((label, "modified", changed))
                break
            # What is returned belongs to the caller
            copies = [np.array(g, float) for g in got]
            if rep == depth - 1:
                for v in given.values():
                    clobber(v)
                if not all(same(g, c) for g, c in zip(got, copies)):
                    out.append((label, "result follows the argument", None))
            else:
                for g in got:
                    clobber(g)
                changed = [
                    k for k in names if not np.array_equal(np.array(given[k]), before[k])
                ]
                if changed:
                    out.append((label, "argument follows the result", changed))
                    break
    return n, [(call.name, lab, what, det) for lab, what, det in out]


def everything(a):
    """All that belongs to a masked array, including what is masked."""
    mask = np.ma.getmask(a)
    return (
        a.data.tobytes(), np.ma.getmaskarray(a).tobytes(), mask is np.ma.nomask,
        a.hardmask, repr(a.fill_value), a.dtype.str, a.shape,
    )  # fmt: skip


def c03_masked(args):
    """Conditions are a masked array: nothing of it changes, masked or not."""
    hidden, form, depth = args
    ki = calls._mod("kishida_2017")
    n, out, size = 0, [], len(calls.PERIODS)
    for given in range(1, 2**size):
        mask = np.array([not given >> i & 1 for i in range(size)])
        data = np.where(mask, hidden, calls.LN_PSA + 0.3)
        base = data.copy()
        if form == "strided":
            base = np.full(2 * size, -77.0)
            base[::2] = data
            base = base[::2]
        cond = np.ma.masked_array(base, mask)
        if form == "hard":
            cond.harden_mask()
        elif form == "read-only":
            base.flags.writeable = False
            cond = np.ma.masked_array(base, mask)
        elif form == "view":
            whole = np.ma.masked_array(np.r_[base, 5.0], np.r_[mask, False])
            cond = whole[:-1]
        elif form == "nomask":
            cond = np.ma.masked_array(calls.LN_PSA + 0.3)
        before, mask_before = everything(cond), mask.copy()
        first = None
        for _ in range(depth):
            n += 1
            got = core.outcome(
                lambda: ki.calc_cond_mean_spectrum_vector(
                    calls.PERIODS.copy(), calls.LN_PSA.copy(), calls.LN_STD.copy(), cond
                )
            )
            if isinstance(got, core.Raised):
                out.append((given, repr(got)))
                break
            if everything(cond) != before or not np.array_equal(mask, mask_before):
                out.append((given, "conditions modified"))
                break
            if first is None:
                first = [np.array(g, float) for g in got]
            elif not all(same(g, f) for g, f in zip(got, first)):
                out.append((given, "value"))
                break
            for g in got:
                clobber(g)
            if everything(cond) != before:
                out.append((given, "conditions follow the result"))
                break
    return n, out


def c03_scen(args):
    """Scenarios given to a model remain as they were, and vice versa."""
    entry, states = args
    pygmm = core.import_library()
    out, n = [], 0
    for kwds in states:
        kwds = {k: v for k, v in kwds.items() if v is not MISSING}
        scen, opts = entry.options(kwds)
        fresh = core.outcome(
            lambda: entry.observe(entry.load()(pygmm.Scenario(**scen), **opts))
        )
        if isinstance(fresh, core.Raised):
            continue  # decided by C02
        for form in ("scenario", "dict", "reused"):
            n += 1
            given = dict(scen) if form == "dict" else pygmm.Scenario(**scen)
            opt_before = {k: np.array(v) for k, v in opts.items()}
            cls = entry.load()
            m = core.outcome(lambda: cls(given, **opts))
            if form == "reused":
                # A second prediction with the same object
                m = core.outcome(lambda: cls(given, **opts))
            got = core.outcome(lambda: entry.observe(m))
            if isinstance(got, core.Raised):
                out.append((kwds, form, repr(m) + repr(got)))
                break
            if any(not same(got[k], fresh[k]) for k in fresh):
                out.append((kwds, form, "value"))
                break
            if dict(given) != scen or type(given) is not (
                dict if form == "dict" else pygmm.Scenario
            ):
                out.append((kwds, form, "provided scenario was modified"))
                break
            if any(not np.array_equal(np.array(opts[k]), v) for k, v in opt_before.items()):
                out.append((kwds, form, "option was modified"))
                break
            # Changes of the provided scenario after the construction
            for k in list(given):
                given[k] = -9.0e9 if isinstance(given[k], float) else "changed"
            again = core.outcome(lambda: entry.observe(m))
            if isinstance(again, core.Raised) or any(
                not same(again[k], fresh[k]) for k in fresh
            ):
                out.append((kwds, form, "prediction follows the provided scenario"))
                break
    return n, [(entry.abbrev, k, f, w) for k, f, w in out]


def shared_scenarios():
    common = dict(
        mag=6.7, dist_rup=42.0, dist_jb=40.0, dist_hyp=46.0, dist_epi=43.0, dist_x=38.0,
        v_s30=420.0, mechanism="SS", depth_hyp=9.0, dip=70.0, event_type="interface",
        site_cond="soil", pga_ref=0.12,
    )  # fmt: skip
    return [
        dict(common),
        dict(common, region="japan", mechanism="RS", on_hanging_wall=True),
        dict(common, region="Japan", event_type="interface", depth_1_0=0.3),
        {
            k: (np.float64(v) if isinstance(v, float) else v)
            for k, v in dict(common, depth_tor=4.0, depth_2_5=2.0, mag=5.2).items()
        },
    ]


def c03_shared(args):
    """Sequences of models evaluated with one shared scenario object."""
    si, first, length = args
    pygmm = core.import_library()
    scen = shared_scenarios()[si]
    models = []
    for e in CATALOG:
        opts = {k[1:]: v for k, v in e.scenarios[0].items() if k.startswith("+")}
        ref = core.outcome(
            lambda: e.observe(e.load()(pygmm.Scenario(**scen), **opts))
        )
        if not isinstance(ref, core.Raised):
            models.append((e, opts, ref))
    out, n, tr = [], 0, 0
    if first >= len(models):
        return 0, 0, []
    for rest in itertools.product(models, repeat=length - 1):
        shared = pygmm.Scenario(**scen)
        n += 1
        for e, opts, ref in (models[first],) + rest:
            tr += 1
            got = core.outcome(lambda: e.observe(e.load()(shared, **opts)))
            if isinstance(got, core.Raised) or any(not same(got[k], ref[k]) for k in ref):
                names = [models[first][0].abbrev] + [r[0].abbrev for r in rest]
                out.append((si, names, e.abbrev))
                break
        if dict(shared) != scen:
            out.append((si, [models[first][0].abbrev] + [r[0].abbrev for r in rest], "scenario"))
        if len(out) > 10:
            break
    return n, tr, out


def c03(rep):
    from .contract import array

    core.import_library()
    n_calls = len(calls.calls()) + len(calls.neutral())
    work = [(i, 2) for i in range(n_calls)]
    for (i, _), (n, bad) in zip(work, core.pmap(c03_call, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for name, label, what, det in bad[:10]:
            rep.violation(
                f"C03 {name} {what} " + json.dumps(label, sort_keys=True),
                function=name, forms=label, what=what, detail=det,
            )  # fmt: skip
    work = [
        (hidden, form, 2)
        for hidden in (0.5, 1e9, np.nan, np.inf)
        for form in ("plain", "strided", "hard", "read-only", "view", "nomask")
    ]
    for w, (n, bad) in zip(work, core.pmap(c03_masked, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for given, what in bad[:5]:
            rep.violation(f"C03 masked conditions {w} {given}", what=what)
    rep.extra["masked_conditions"] = len(work)
    rep.extra["functions"] = n_calls
    rep.extra["forms"] = [f.__name__ for f in FORMS]
    work = []
    for e in CATALOG:
        states = list(c07_states(e, core.thorough())) + list(array(e, 17, 2))
        work += [(e, c) for c in core.chunks(states, 100)]
    for n, bad in core.pmap(c03_scen, work):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for ab, kwds, form, what in bad[:5]:
            rep.violation(
                f"C03 {ab} {form} " + json.dumps(core.jsonable(kwds), sort_keys=True),
                what=what,
            )
    length = 3 if core.thorough() else 2
    work = [
        (si, i, length)
        for si in range(len(shared_scenarios()))
        for i in range(len(CATALOG))
    ]
    seqs = 0
    for n, tr, bad in core.pmap(c03_shared, work):
        seqs += n
        rep.states += n
        rep.traces += n
        rep.transitions += tr
        for si, names, what in bad[:5]:
            rep.violation(f"C03 shared {si} {names}", what=what)
    rep.extra["sequences_with_shared_scenario"] = seqs
    rep.extra["length_of_sequences"] = length
    rep.sample(shared_scenarios()[0])


# --------------------------------------------------------------------------
# C04
# --------------------------------------------------------------------------
VARY = dict(
    depth_1_0=0.5, depth_2_5=3.5, depth_bor=17.0, depth_bot=21.0, depth_hyp=11.0,
    depth_tor=2.5, width=17.0, dpp_centered=0.25, dist_crjb=9.0, dist_y0=4.0,
    mechanism="NS", region="japan", vs_source="inferred", is_aftershock=True,
    tectonic_region="backarc",
)  # fmt: skip
_SCENARIOS = {}


def scenarios(i):
    """Scenarios of the catalogue, followed by those which differ from the first one
    in a single value."""
    if i not in _SCENARIOS:
        e = CATALOG[i]
        first = e.scenarios[0]
        out = list(e.scenarios)
        names = [p["name"] for p in PARAMS[e.abbrev]]
        for n in names + [k for k in first if k.startswith("+")]:
            v = first.get(n)
            if isinstance(v, float):
                out.append(dict(first, **{n: round(v * 1.05, 6)}))
            elif n in VARY and v != VARY[n]:
                out.append(dict(first, **{n: VARY[n]}))
        _SCENARIOS[i] = out
    return _SCENARIOS[i]


def raw_outputs(m):
    """The objects that are handed out by the properties of a prediction."""
    out = []
    for n in dir(type(m)):
        if not n.startswith("_") and isinstance(getattr(type(m), n), property):
            v = core.outcome(lambda: getattr(m, n))
            if not isinstance(v, core.Raised):
                out.append(v)
    return out


def observations(e, m):
    """Public observations, and an interpolation outside of the range."""
    out = e.observe(m)
    if e.kind == "gmm":
        out["outside"] = np.array(m.interp_spec_accels([0.0, 0.3, 1e3]), float)
    elif e.kind == "ratio":
        out["outside"] = np.array(m.interp_ratio([0.0, 0.3, 1e3]), float)
    return out


class World:
    """Live objects of a history."""

    def __init__(self, baseline):
        self.baseline = baseline
        self.live = []  # (key, entry, object)
        self.calls = calls.calls()

    def check(self, key, obs):
        ref = self.baseline[key]
        if isinstance(obs, core.Raised):
            return None if ref == ("raised", obs.kind) else repr(obs)
        if isinstance(ref, tuple):
            return "raised before"
        for k in ref:
            if not same(obs[k], ref[k]):
                return k
        return None

    def step(self, op):
        """Applies an operation; returns a mismatch or None."""
        kind = op[0]
        pygmm = core.import_library()
        if kind in ("use", "spoil"):
            e, kwds = CATALOG[op[1]], scenarios(op[1])[op[2]]
            m = core.outcome(lambda: e.build(kwds))
            obs = m if isinstance(m, core.Raised) else core.outcome(lambda: observations(e, m))
            bad = self.check(("m", op[1], op[2]), obs)
            if bad:
                return f"{e.abbrev} {bad}"
            if kind == "spoil":
                # The caller does as it likes with what was returned to it
                for v in raw_outputs(m):
                    if isinstance(v, pygmm.Scenario):
                        for k in list(v):
                            v[k] = "spoiled"
                    else:
                        clobber(v)
            elif not isinstance(m, core.Raised):
                self.live.append((("m", op[1], op[2]), e, m))
        elif kind == "fail":
            # Warnings are turned into errors: the construction stops half way
            e = CATALOG[op[1]]
            scen, opts = e.options(e.scenarios[0])
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                for s in (
                    dict(scen, mag=-3.0),
                    dict(scen, mechanism="?", region="?"),
                    {k: v for k, v in scen.items() if k != "mag"},
                    dict(scen, v_s30="not a number"),
                    dict(scen, dist_rup=[1.0, 2.0]),
                ):
                    core.outcome(lambda: e.observe(e.load()(pygmm.Scenario(**s), **opts)))
        elif kind == "warn":
            # Outside of the limits
            e = CATALOG[op[1]]
            scen, opts = e.options(e.scenarios[-1])
            for s in (dict(scen, mag=9.9), dict(scen, v_s30=40.0), dict(scen, region="mars")):
                core.outcome(lambda: e.observe(e.load()(pygmm.Scenario(**s), **opts)))
        elif kind == "call":
            c = self.calls[op[1]]
            given = {k: v.copy() for k, v in c.arrays.items()}
            got = core.outcome(lambda: c.run(given))
            if isinstance(got, core.Raised):
                return f"{c.name} {got!r}"
            ref = self.baseline[("c", op[1])]
            if len(ref) != len(got) or not all(same(g, r) for g, r in zip(got, ref)):
                return f"{c.name} value"
            for g in list(got) + list(given.values()):
                clobber(g)
        for key, e, m in self.live:
            obs = core.outcome(lambda: observations(e, m))
            bad = self.check(key, obs)
            if bad:
                return f"earlier {e.abbrev} {bad}"
        return None


def in_child(func):
    """Result of a function that is evaluated in a forked process: the state of
    the parent is the snapshot every branch starts from."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        gc.disable()  # collections would copy all pages
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", func()))
            except Exception as e:  # noqa: BLE001
                data = pickle.dumps(("error", repr(e)))
            with os.fdopen(w, "wb") as fp:
                fp.write(data)
        except BaseException:  # noqa: BLE001
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("branch ended without a result")
    status, value = pickle.loads(data)
    if status != "ok":
        raise RuntimeError(value)
    return value


def c04_baseline(key):
    """Observation in a process which evaluated nothing else."""

    def one():
        if key[0] == "m":
            e = CATALOG[key[1]]
            got = core.outcome(
                lambda: observations(e, e.build(scenarios(key[1])[key[2]]))
            )
            return ("raised", got.kind) if isinstance(got, core.Raised) else got
        c = calls.calls()[key[1]]
        got = c.run({k: v.copy() for k, v in c.arrays.items()})
        return [np.array(g, float) for g in got]

    return in_child(one)


BASE = {}


def c04_tree(world, menus, history):
    """Depth first over all histories; every branch runs in a fork of its prefix."""
    n, bad = 0, []
    for op in menus[0]:

        def branch(op=op):
            mism = world.step(op)
            if mism is not None:
                return 1, [(history + [op], mism)]
            if len(menus) == 1:
                return 1, []
            k, b = c04_tree(world, menus[1:], history + [op])
            return k + 1, b

        k, b = in_child(branch)
        n += k
        bad += b
        if len(bad) > 5:
            break
    return n, bad


def c04_work(args):
    prefix_menu, menus = args
    return c04_tree(World(BASE), [prefix_menu] + menus, [])


def c04_array(args):
    """Many scenarios of one model, of which any two values occur in some scenario, and
    those that are next to them: in order, in reverse order, and by halves. Each order is
    evaluated in a process of its own."""
    i, q = args
    from .contract import array

    e = CATALOG[i]
    states = []
    for s in array(e, q, 2):
        near = {
            k: (v * 1.0002 if isinstance(v, float) and k != "dip" else v) for k, v in s.items()
        }
        states += [s, near]
    n = len(states)
    orders = dict(
        forward=list(range(n)),
        reverse=list(range(n))[::-1],
        halves=[j for k in range((n + 1) // 2) for j in (k, k + n // 2) if j < n],
        twice=[j for k in range(0, n, 2) for j in (k, k + 1, k) if j < n],
    )

    def evaluate(order):
        out = []
        for j in order:
            obs = core.outcome(lambda: observations(e, e.build(states[j])))
            if isinstance(obs, core.Raised):
                out.append(obs.kind)
            else:
                out.append(hash(tuple((k, obs[k].tobytes()) for k in sorted(obs))))
        return out

    first, bad = {}, []
    for label, order in orders.items():
        got = in_child(lambda: evaluate(order))
        for j, h in zip(order, got):
            if first.setdefault(j, h) != h and len(bad) < 5:
                bad.append((states[j], f"differs if evaluated in order: {label}"))
    return sum(len(o) for o in orders.values()), bad


def c04_names(history):
    out = []
    cs = calls.calls()
    for op in history:
        name = cs[op[1]].name if op[0] == "call" else CATALOG[op[1]].abbrev
        out.append([op[0], name] + list(op[2:]))
    return out


def c04(rep):
    core.import_library()
    keys = [("m", i, j) for i, e in enumerate(CATALOG) for j in range(len(scenarios(i)))]
    keys += [("c", i) for i in range(len(calls.calls()))]
    for k, v in zip(keys, core.pmap(c04_baseline, keys)):
        BASE[k] = v
    variants = [("use", i, j) for _, i, j in (k for k in keys if k[0] == "m")]
    use = [u for u in variants if u[2] < len(CATALOG[u[1]].scenarios)]
    spoil = [("spoil", *u[1:]) for u in use]
    fail = [(k, i) for i in range(len(CATALOG)) for k in ("fail", "warn")]
    call = [("call", k[1]) for k in keys if k[0] == "c"]
    everything = use + spoil + fail + call
    work = []
    # Two operations, of all models and functions
    for op in everything:
        work.append(([op], [use + call]))
    # Longer histories of the same model
    depth = 5 if core.thorough() else 3
    for i in range(len(CATALOG)):
        menu = [o for o in use + spoil + fail if o[1] == i]
        last = [o for o in use if o[1] == i]
        d = depth if len(last) <= 3 else depth - 1
        for op in menu:
            work.append(([op], [menu] * (d - 2) + [last]))
        # Pairs of scenarios that differ in one or two values
        near = [v for v in variants if v[1] == i and (v[2] == 0 or v not in use)]
        for op in near:
            work.append(([op], [near]))
    if core.thorough():
        for op in spoil + fail + call:
            work.append(([op], [use, use]))
    for (pm, menus), (n, bad) in zip(work, core.pmap(c04_work, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for hist, what in bad[:5]:
            rep.violation(
                "C04 " + json.dumps(core.jsonable(c04_names(hist))),
                history=c04_names(hist),
                what=what,
            )
        if len(rep.violations) > 50:
            rep.exhaustive = False
            break
    work = [(i, 53 if core.thorough() else 17) for i in range(len(CATALOG))]
    for (i, _), (n, bad) in zip(work, core.pmap(c04_array, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        rep.extra["evaluations_in_orders"] = rep.extra.get("evaluations_in_orders", 0) + n
        for s, what in bad:
            rep.violation(
                f"C04 {CATALOG[i].abbrev} " + json.dumps(core.jsonable(s), sort_keys=True),
                what=what,
            )
    repeat.explore(rep)
    sequences.explore(rep)
    rep.extra["operations"] = len(everything)
    rep.extra["scenarios"] = len(variants)
    rep.extra["depth_all_models"] = 3 if core.thorough() else 2
    rep.extra["depth_same_model"] = depth
    rep.extra["baselines_in_separate_processes"] = len(keys)
    rep.sample(c04_names([spoil[0], use[5]]))
    rep.sample(c04_names([fail[3], call[2]]))
