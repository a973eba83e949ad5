"""Properties of the scenario, and of the parameters of the models."""

import copy
import itertools
import json
import logging
import os
import pickle
import warnings

import numpy as np

from .. import core
from ..catalog import CATALOG
from ..refs.common import DATA

# --------------------------------------------------------------------------
# C01: A scenario is a mapping with attributes
# --------------------------------------------------------------------------
KEYS = ["mag", "mechanism", "dist_jb"]
VALUES = {"mag": [6.0, 7.5], "mechanism": ["SS", None], "dist_jb": [0.0, 20.0]}
UNKNOWN = ["magnitude", "v_s_30"]


def c01_ops():
    """Operations on the pair (scenario, other scenario)."""
    ops = []
    for k in KEYS:
        for v in VALUES[k]:
            ops += [("setattr", k, v), ("setitem", k, v), ("copy_with", k, v)]
        ops += [("delitem", k), ("pop", k)]
    ops += [("update", (("mag", 5.0), ("dist_jb", 3.0))), ("setdefault", "mag", 4.0)]
    ops += [("copy",), ("copy.copy",), ("deepcopy",), ("pickle",), ("swap",), ("clear",)]
    ops += [("or", "dist_jb", 3.0), ("or scenario", "mag", 7.5), ("ror", "mag", 6.0)]
    ops += [("ior", "mechanism", "SS"), ("construct", "mag", 6.0), ("union",)]
    ops += [("bad or", UNKNOWN[0]), ("bad construct", UNKNOWN[1])]
    ops += [("rebuild",), ("bad_copy_with", UNKNOWN[0]), ("bad_copy_with", UNKNOWN[1])]
    return ops


def c01_model(state, op):
    """Reference: two independent dictionaries."""
    a, b = (dict(x) for x in state)
    name = op[0]
    res = None
    if name in ("setattr", "setitem"):
        a[op[1]] = op[2]
    elif name == "copy_with":
        b = dict(a, **{op[1]: op[2]})
    elif name == "delitem":
        if op[1] not in a:
            return state, "KeyError"
        del a[op[1]]
    elif name == "pop":
        res = ("value", a.pop(op[1], "missing"))
    elif name == "update":
        a.update(op[1])
    elif name == "setdefault":
        res = ("value", a.setdefault(op[1], op[2]))
    elif name in ("copy", "copy.copy", "deepcopy", "pickle", "rebuild"):
        b = dict(a)
    elif name in ("or", "or scenario", "construct"):
        b = dict(a, **{op[1]: op[2]})
    elif name == "ror":
        b = dict({op[1]: op[2]}, **a)
    elif name == "ior":
        a[op[1]] = op[2]
    elif name == "union":
        b = dict(a, **b)
    elif name == "swap":
        a, b = b, a
    elif name == "clear":
        a = {}
    elif name in ("bad_copy_with", "bad or", "bad construct"):
        return state, "Warning"
    return (freeze(a), freeze(b)), res


def freeze(d):
    return tuple(sorted(d.items()))


def c01_apply(pair, op, Scenario):
    a, b = pair
    name = op[0]
    res = None
    try:
        if name == "setattr":
            setattr(a, op[1], op[2])
        elif name == "setitem":
            a[op[1]] = op[2]
        elif name == "copy_with":
            b = a.copy_with(**{op[1]: op[2]})
        elif name == "delitem":
            del a[op[1]]
        elif name == "pop":
            res = ("value", a.pop(op[1], "missing"))
        elif name == "update":
            a.update(dict(op[1]))
        elif name == "setdefault":
            res = ("value", a.setdefault(op[1], op[2]))
        elif name == "copy":
            b = a.copy()
        elif name == "copy.copy":
            b = copy.copy(a)
        elif name == "deepcopy":
            b = copy.deepcopy(a)
        elif name == "pickle":
            b = pickle.loads(pickle.dumps(a))
        elif name == "rebuild":
            b = Scenario(**a)
        elif name == "or":
            b = a | {op[1]: op[2]}
        elif name == "or scenario":
            b = a | Scenario(**{op[1]: op[2]})
        elif name == "ror":
            b = {op[1]: op[2]} | a
        elif name == "ior":
            a |= {op[1]: op[2]}
        elif name == "construct":
            b = Scenario(a, **{op[1]: op[2]})
        elif name == "union":
            b = a | b
        elif name == "bad or":
            a | {op[1]: 1.0}
        elif name == "bad construct":
            Scenario(dict(a, **{op[1]: 1.0}))
        elif name == "swap":
            a, b = b, a
        elif name == "clear":
            a.clear()
        elif name == "bad_copy_with":
            a.copy_with(**{op[1]: 1.0})
    except Exception as e:  # noqa: BLE001
        res = "KeyError" if isinstance(e, KeyError) else type(e).__name__
    return (a, b), res


KNOWN = sorted(
    "depth_1_0 depth_2_5 depth_tor depth_bor depth_bot depth_hyp dip dist_crjb dist_jb "
    "dist_epi dist_hyp dist_rup dist_x dist_y0 dpp_centered event_type is_aftershock "
    "mag mechanism on_hanging_wall pga_ref region site_cond tectonic_region v_s30 "
    "vs_source width".split()
)
KINDS = [0.0, None, False, "", "x", 7.5]


def c01_key_ops(key):
    """Operations on one key, with values of every kind."""
    ops = [
        (name, key, v)
        for v in KINDS
        for name in ("setattr", "setitem", "copy_with", "construct", "or", "ior", "setdefault")
    ]
    ops += [("delitem", key), ("pop", key), ("swap",), ("clear",), ("union",)]
    ops += [("copy",), ("deepcopy",), ("pickle",), ("rebuild",)]
    return ops


def c01_key(args):
    """Every history of operations on one key."""
    key, depth = args
    Scenario = core.import_library().Scenario
    init = (freeze({}), freeze({}))
    ops = c01_key_ops(key)
    n, bad = 0, []
    for history in itertools.product(ops, repeat=depth):
        state, exp_res = init, None
        pair, res = (Scenario(), Scenario()), None
        for op in history:
            state, exp_res = c01_model(state, op)
            pair, res = c01_apply(pair, op, Scenario)
        n += 1
        got = [c01_view(s, Scenario, [key, "mag"]) for s in pair]
        exp = [c01_expect(d, keys=[key, "mag"]) for d in state]
        # Compared by the text, as 0 and False are equal
        if repr((got, res)) != repr((exp, exp_res)):
            bad.append((history, got, exp))
    return n, bad


def c01_view(s, Scenario, keys=KEYS):
    """Everything that is observable from a scenario."""
    items = {}
    for k in keys:
        by_item = s[k] if k in s else "missing"
        by_get = s.get(k, "missing")
        by_attr = getattr(s, k, "missing")
        has = hasattr(s, k)
        items[k] = (by_item, by_get, by_attr, has)
    return dict(
        kind=isinstance(s, Scenario),
        data=freeze(dict(s)),
        keys=tuple(sorted(s.keys())),
        length=len(s),
        items=items,
        repr=repr(s),
        equal=s == dict(s),
    )


def c01_expect(d, kind=True, keys=KEYS):
    d = dict(d)
    items = {
        k: (d.get(k, "missing"),) * 3 + (k in d,) for k in keys
    }
    return dict(
        kind=kind,
        data=freeze(d),
        keys=tuple(sorted(d)),
        length=len(d),
        items=items,
        repr=f"<Scenario(mag={d.get('mag')}, dist_jb={d.get('dist_jb')})>",
        equal=True,
    )


def c01(rep):
    """Breadth first over all states of two scenarios; every transition out of every
    state is executed on fresh objects that replay the shortest history, and in
    addition every history up to a depth without merging of states."""
    Scenario = core.import_library().Scenario
    ops = c01_ops()

    def run(history):
        pair = (Scenario(), Scenario())
        res = None
        for op in history:
            pair, res = c01_apply(pair, op, Scenario)
        return pair, res

    def verify(history, state, expected_res):
        pair, res = run(history)
        rep.traces += 1
        views = [c01_view(s, Scenario) for s in pair]
        exp = [c01_expect(d) for d in state]
        if views != exp or res != expected_res:
            rep.violation(
                "C01 " + json.dumps(core.jsonable(history)),
                history=history,
                got=views,
                expected=exp,
                result=res,
                expected_result=expected_res,
            )

    init = (freeze({}), freeze({}))
    seen = {init: ()}
    queue = [init]
    depth = 5 if core.thorough() else 4
    while queue:
        state = queue.pop(0)
        hist = seen[state]
        for op in ops:
            nxt, res = c01_model(state, op)
            rep.transitions += 1
            verify(hist + (op,), nxt, res)
            if nxt not in seen and len(hist) + 1 < depth:
                seen[nxt] = hist + (op,)
                queue.append(nxt)
            if len(rep.violations) > 20:
                return
    rep.states = len(seen)
    # Without merging
    k = 3
    for history in itertools.product(ops, repeat=k if core.thorough() else 2):
        state, res = init, None
        for op in history:
            state, res = c01_model(state, op)
        rep.transitions += len(history)
        verify(history, state, res)
    # Every key, with values of every kind
    work = [(k, d) for k in KNOWN for d in ((1, 2, 3) if core.thorough() else (1, 2))]
    for item, (n, bad) in zip(work, core.pmap(c01_key, work)):
        rep.states += n
        rep.traces += n
        rep.transitions += n * item[1]
        for history, got, exp in bad[:3]:
            rep.violation(
                "C01 key " + json.dumps(core.jsonable(history)),
                history=history,
                got=got,
                expected=exp,
            )
    # Constructors
    known = KNOWN
    for n in (1, 2):
        for keys in itertools.combinations(known, n):
            d = {k: i + 1.5 for i, k in enumerate(keys)}
            rep.states += 1
            rep.traces += 1
            s = core.outcome(lambda: Scenario(**d))
            if (
                isinstance(s, core.Raised)
                or dict(s) != d
                or any(getattr(s, k, None) != v for k, v in d.items())
            ):
                rep.violation(f"C01 construct {keys}", got=repr(s))
                continue
            # attribute assignment of documented keys is visible as item
            for k in keys:
                setattr(s, k, 99.0)
                if s[k] != 99.0:
                    rep.violation(f"C01 setattr {k}", keys=keys)
    near = []
    for k in sorted(known):
        # Names that are almost known
        near += [k + "_", "_" + k, k + " ", " " + k, k.upper(), k.title(), k.swapcase(),
                 k + "s", k[:-1], k.replace("_", ""), k.replace("_", "-"), k + "_0", k + ".0"]  # fmt: skip
    near = [k for k in dict.fromkeys(near) if k not in known]
    for k in known:
        for bad in UNKNOWN + ["Mag", "data_", "vs30"] + near:
            for kw in ({bad: 1}, {k: 1.0, bad: 1}):
                rep.states += 1
                got = core.outcome(lambda: Scenario(**kw))
                if not (isinstance(got, core.Raised) and got.kind == "Warning"):
                    rep.violation(f"C01 unknown {sorted(kw)}", got=repr(got))
    got = core.outcome(lambda: Scenario().not_a_key)
    if not (isinstance(got, core.Raised) and got.kind == "AttributeError"):
        rep.violation("C01 unknown attribute", got=repr(got))
    rep.extra["depth_of_merged_histories"] = depth
    rep.extra["operations"] = len(ops)
    for h in list(seen.values())[1:6]:
        rep.sample(h)


# --------------------------------------------------------------------------
# C02: Parameters
# --------------------------------------------------------------------------
with open(os.path.join(DATA, "parameters.json")) as fp:
    PARAMS = json.load(fp)

MISSING = "<omitted>"


# Limits of the magnitude by mechanism, which are logged
MAG_LIMITS = {
    "BSSA14": {"SS": (3.0, 8.5), "NS": (3.0, 7.0)},
    "CB14": {"SS": (None, 8.5), "RS": (None, 8.0), "NS": (None, 7.5)},
    "CY14": {"SS": (3.5, 8.5), "U": (3.5, 8.5), "RS": (3.5, 8.0), "NS": (3.5, 8.0)},
}


class Records(logging.Handler):
    """Messages of the log."""

    def __init__(self):
        super().__init__(logging.WARNING)
        self.messages = []

    def emit(self, record):
        self.messages.append(record.getMessage())

    def __enter__(self):
        self.logger = logging.getLogger()
        self.disabled = self.logger.manager.disable
        logging.disable(logging.NOTSET)
        self.logger.addHandler(self)
        return self

    def __exit__(self, *args):
        self.logger.removeHandler(self)
        logging.disable(self.disabled)


def c02_mag_limit(abbrev, resolved):
    """The exceeded limit of the magnitude, or None."""
    lo, hi = MAG_LIMITS.get(abbrev, {}).get(resolved.get("mechanism"), (None, None))
    if lo is not None and resolved["mag"] < lo:
        return lo
    if hi is not None and resolved["mag"] > hi:
        return hi
    return None


NAN = float("nan")


def c02_alphabet(p, base, abbrev=None):
    """Values of a parameter, one per class of outcome, and both sides of limits."""
    out = [MISSING, None]
    if "options" in p:
        out += list(p["options"]) + ["other", ""]
        # Not options, although they look like one
        for o in p["options"]:
            like = [str(o), str(o).lower(), str(o).upper(), f" {o}"]
            out += [v for v in like if v not in p["options"] and v not in out]
        return out
    mid = base.get(p["name"])
    if mid is None:
        mid = {"depth_bor": 16.0, "depth_hyp": 8.0, "depth_1_0": 0.3}.get(p["name"], 5.0)
    out += [mid]
    for lim, sign in ((p["min"], -1), (p["max"], 1)):
        if lim is not None:
            # A little beyond, at, and a little within
            d = 1e-4 * max(abs(lim), 1.0)
            out += [lim + sign * d, lim, lim - sign * d]
            # The next number beyond the limit
            out.append(float(np.nextafter(lim, sign * np.inf)))
    if p["name"] == "mag":
        lims = {x for v in MAG_LIMITS.get(abbrev, {}).values() for x in v if x is not None}
        for lim in sorted(lims - {p["min"], p["max"]}):
            out += [lim - 1e-3, lim, lim + 1e-3]
    if p["min"] is not None and p["min"] > 0 and not (p["name"] == "v_s30" or "dist" in p["name"]):
        out += [0, 0.0]  # given, although it is false
    return out + [NAN]


def c02_expect(params, state):
    """(missing required, {name: (value, limit)} of warnings, resolved)."""
    warn, resolved = {}, {}
    for p in params:
        v = state.get(p["name"], MISSING)
        given = v is not MISSING and v is not None
        if not given and p["required"]:
            return p["name"], None, None
        value = v if given else p["default"]
        if "options" in p:
            if value not in p["options"]:
                warn[p["name"]] = (value, None)
                value = p["default"]
        elif given:
            if p["min"] is not None and value < p["min"]:
                warn[p["name"]] = (value, p["min"])
            elif p["max"] is not None and value > p["max"]:
                warn[p["name"]] = (value, p["max"])
        resolved[p["name"]] = value
    return None, warn, resolved


def c02_undefined(abbrev, r):
    """Scenarios for which the published models have no value."""
    if abbrev == "ASB14":
        return all(r[k] is None for k in ("dist_jb", "dist_epi", "dist_hyp"))
    if abbrev == "AGA16":
        if r["event_type"] == "intraslab":
            return r["dist_hyp"] is None or r["depth_hyp"] is None
        return r["dist_rup"] is None or r["event_type"] is None
    if abbrev == "CB14-PNNL":
        return r["dist_rup"] is None
    if abbrev == "ASK14":
        return bool(r["on_hanging_wall"]) and r["dist_x"] is None
    if abbrev == "DBC14":
        return r["mechanism"] is None
    if abbrev == "PR24":
        return (
            r["event_type"] is None
            or r["region"] is None
            or (r["event_type"], r["region"]) == ("interface", "Taiwan")
        )
    return False


def c02_one(entry, state):
    """Mismatch of one construction, or None."""
    params = PARAMS[entry.abbrev]
    missing, warn, resolved = c02_expect(params, state)
    kwds = {k: v for k, v in state.items() if v is not MISSING}
    with warnings.catch_warnings(record=True) as caught, Records() as log:
        warnings.simplefilter("always")
        m = core.outcome(lambda: entry.build(kwds))
    if missing is not None:
        if not (isinstance(m, core.Raised) and m.kind == "ValueError"):
            return dict(what="missing required parameter", name=missing, got=repr(m))
        return None
    if c02_undefined(entry.abbrev, resolved):
        return None
    if isinstance(m, core.Raised):
        return dict(what="construction", got=repr(m))
    msgs = [str(w.message) for w in caught if issubclass(w.category, UserWarning)]
    # Whether a value that is not a number is beyond a limit is not documented
    nan = [k for k, v in resolved.items() if v != v]
    msgs = [s for s in msgs if not any(n in s for n in nan)]
    if bool(msgs) != bool(warn):
        return dict(what="warnings", got=msgs, expected=warn)
    for name, (value, lim) in warn.items():
        hit = [s for s in msgs if name in s and (lim is None or str(lim) in s)]
        if not hit or not any(str(value) in s for s in hit):
            return dict(what="warning", got=msgs, name=name, value=value, limit=lim)
    for s in msgs:
        if not any(n in s for n in warn):
            return dict(what="spurious warning", got=s)
    lim = c02_mag_limit(entry.abbrev, resolved)
    if "mag" in nan:
        log.messages, lim = [], None
    if bool(log.messages) != (lim is not None):
        return dict(what="magnitude for the mechanism", got=log.messages, limit=lim)
    for s in log.messages:
        if f"{lim:g}" not in s or f"{resolved['mag']:g}" not in s:
            return dict(what="message about the magnitude", got=s, limit=lim)
    scen = m.scenario
    if sorted(scen.keys()) != sorted(resolved):
        return dict(what="parameters", got=sorted(scen.keys()))
    for k, v in resolved.items():
        got = scen[k]
        if v is None:
            continue  # may be estimated
        if got is not v and got != v and not (v != v and got != got):
            return dict(what="resolved", name=k, got=got, expected=v)
    return None


def c02_states(entry, depth):
    params = PARAMS[entry.abbrev]
    names = [p["name"] for p in params]
    seen = set()
    for base in entry.scenarios:
        opts = {k: v for k, v in base.items() if k.startswith("+")}
        full = {k: base.get(k, MISSING) for k in names}
        alpha = {p["name"]: c02_alphabet(p, base, entry.abbrev) for p in params}
        for k in range(depth + 1):
            for combo in itertools.combinations(names, k):
                for vals in itertools.product(*(alpha[c] for c in combo)):
                    s = dict(full)
                    s.update(zip(combo, vals))
                    key = tuple((n, type(v).__name__, v) for n, v in s.items())
                    if key not in seen:
                        seen.add(key)
                        yield dict(s, **opts)


def c02_array(entry):
    """Every combination of the values of two, and of the principal values of three
    parameters."""
    params = PARAMS[entry.abbrev]
    base = entry.scenarios[0]
    alpha = {p["name"]: c02_alphabet(p, base, entry.abbrev) for p in params}
    # Most scenarios have the required values
    for p in params:
        if p["required"] or p["name"].startswith("dist"):
            alpha[p["name"]] = [v for v in alpha[p["name"]] if v is not MISSING and v is not None]
    names = list(alpha)
    opts = {k: v for k, v in base.items() if k.startswith("+")}
    n = max(len(names) - 1, *map(len, alpha.values()))
    q = next(q for q in range(max(n, 2), 1000) if all(q % d for d in range(2, q)))
    for levels, t in ((q, 2), (17, 3)):
        for row in core.orthogonal(levels, min(t, len(names)), len(names)).tolist():
            s = {k: alpha[k][i % len(alpha[k])] for k, i in zip(names, row)}
            yield dict(s, **opts)


def c02_chunk(args):
    entry, states = args
    out = []
    for s in states:
        bad = c02_one(entry, s)
        if bad:
            out.append((s, bad))
    return len(states), out


def c02(rep):
    core.import_library()
    depth = 2
    work = []
    for e in CATALOG:
        d = depth
        if core.thorough() and len(PARAMS[e.abbrev]) < 9:
            d = 3
        if core.thorough() or len(PARAMS[e.abbrev]) <= 8:
            states = list(c02_states(e, d))
        else:
            # All pairs from the first scenario, single deviations from the others
            first = copy.copy(e)
            first.scenarios = e.scenarios[:2]
            rest = copy.copy(e)
            rest.scenarios = e.scenarios[2:]
            states = list(c02_states(first, d)) + list(c02_states(rest, 1))
        states += c02_array(e)
        rep.extra.setdefault("spaces", []).append(
            dict(model=e.abbrev, states=len(states), deviations=d)
        )
        rep.sample(dict(model=e.abbrev, state=states[-1]))
        work += [(e, c) for c in core.chunks(states, 300)]
    for (e, _), (n, bad) in zip(work, core.pmap(c02_chunk, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for s, b in bad[:20]:
            rep.violation(
                f"C02 {e.abbrev} " + json.dumps(core.jsonable(s), sort_keys=True),
                model=e.abbrev,
                state=s,
                **b,
            )
        if len(rep.violations) > 50:
            rep.exhaustive = False
            break


# --------------------------------------------------------------------------
# C06: Forms of the same scenario
# --------------------------------------------------------------------------
EXTRA = dict(
    depth_bot=18.5, site_cond="soil", pga_ref=0.37, dist_epi=77.0, dpp_centered=0.9,
    depth_1_0=0.41, depth_2_5=2.3, depth_bor=16.5, depth_hyp=11.0, depth_tor=1.7, dip=47.0,
    dist_crjb=3.0, dist_hyp=61.0, dist_jb=42.0, dist_rup=58.0, dist_x=-13.0, dist_y0=5.0,
    event_type="interface", is_aftershock=True, mechanism="RS", on_hanging_wall=True,
    region="japan", tectonic_region="backarc", v_s30=333.0, vs_source="inferred", width=14.0,
)  # fmt: skip


def c06_forms(pygmm, scen):
    """The same scenario in different forms."""
    S = pygmm.Scenario

    def convert(f):
        return {
            k: (f(v) if isinstance(v, float) else v) for k, v in scen.items()
        }

    yield "reversed", S(**dict(reversed(list(scen.items()))))
    yield "dict", dict(scen)
    yield "float64", S(**convert(np.float64))
    yield "0-d", S(**convert(np.array))
    ints = {k: (int(v) if isinstance(v, float) and v == int(v) else v) for k, v in scen.items()}
    yield "int", S(**ints)
    yield "numpy int", S(
        **{k: (np.int64(v) if type(v) is int else v) for k, v in ints.items()}
    )
    yield "numpy bool", S(
        **{k: (np.bool_(v) if type(v) is bool else v) for k, v in scen.items()}
    )
    yield "numpy str", S(
        **{k: (np.str_(v) if type(v) is str else v) for k, v in scen.items()}
    )
    s = S()
    for k, v in scen.items():
        setattr(s, k, v)
    yield "attributes", s
    s = S()
    for k, v in scen.items():
        s[k] = v
    yield "items", s
    yield "copy_with", S().copy_with(**scen)
    yield "copy", S(**scen).copy()
    yield "explicit None", S(**{k: scen.get(k) for k in S.KNOWN_KEYS})


def c06_chunk(args):
    entry, kwds, omitted, depth = args
    pygmm = core.import_library()
    scen, opts = entry.options(kwds)
    base = entry.run(kwds)
    out, n = [], 0
    # A scenario without a needed value is rejected in each of its forms
    rejected = isinstance(base, core.Raised)
    if rejected and not omitted:
        return 1, [("base", repr(base))]
    if omitted and (
        base.kind == "ZeroDivisionError"
        if rejected
        else any(not np.isfinite(v).all() for k, v in base.items() if not k.startswith("interp"))
    ):
        return 1, []  # not defined, and division by zero depends on the type
    names = {p["name"] for p in PARAMS[entry.abbrev]}
    forms = list(c06_forms(pygmm, scen))
    # Values that the model does not use
    extra = {
        k: v for k, v in EXTRA.items() if k not in names and k in pygmm.Scenario.KNOWN_KEYS
    }
    # Any one or two of them, and all of them
    for r in sorted({*range(1, min(depth, len(extra)) + 1), len(extra)}):
        for ks in itertools.combinations(extra, r):
            forms.append(
                ("unused " + ",".join(ks), pygmm.Scenario(**scen, **{k: extra[k] for k in ks}))
            )
    for name, s in forms:
        n += 1
        got = core.outcome(lambda: entry.observe(entry.load()(s, **opts)))
        if rejected or isinstance(got, core.Raised):
            if not (rejected and isinstance(got, core.Raised) and got.kind == base.kind):
                out.append((name, f"{base!r} {got!r}"[:300]))
            continue
        for k in base:
            # Integer powers may round differently
            if got[k].shape != base[k].shape or not core.close(
                got[k], base[k], 1e-12, 1e-13
            ).all():
                out.append((name, k))
                break
    return n, out


def c06_states():
    """model, scenario, whether a value is omitted, and number of unused values"""
    from .contract import array

    deep = core.thorough()
    for e in CATALOG:
        grids = []
        for base in e.scenarios:
            grids.append(base)
            # Whole numbers, which have an integer form
            whole = {k: (float(round(v)) if isinstance(v, float) and v > 2 else v) for k, v in base.items()}
            grids.append(whole)
            for k, v in base.items():
                if isinstance(v, float) and not k.startswith("+"):
                    for f in (0.9, 1.07):
                        grids.append(dict(base, **{k: v * f}))
        # Small whole numbers of every value
        for base in e.scenarios:
            for p in PARAMS[e.abbrev]:
                if "options" not in p:
                    for v in (0.0, 1.0, 2.0, -1.0, 3.0):
                        yield e, dict(base, **{p["name"]: v}), True, 1
        for i, g in enumerate(grids):
            yield e, g, False, 2 if deep or i < 2 else 1
        # Omitted values are not replaced by those that the model does not use
        for base in e.scenarios:
            opt = [p["name"] for p in PARAMS[e.abbrev] if not p["required"] and p["name"] in base]
            for r in sorted({1, 2, len(opt)} if deep else {1, len(opt)}):
                for ks in itertools.combinations(opt, r):
                    yield e, {k: v for k, v in base.items() if k not in ks}, True, 1 + deep
        # Every pair of values, as whole numbers where possible
        for g in array(e, 31 if deep else 17, 2):
            whole = {
                k: (float(round(v)) if isinstance(v, float) and v > 2 else v)
                for k, v in g.items()
            }
            yield e, whole, False, 1


def c06(rep):
    core.import_library()
    work = list(c06_states())
    for (e, kwds, _, _), (n, bad) in zip(work, core.pmap(c06_chunk, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        rep.sample(dict(model=e.abbrev, scenario=kwds))
        if len(rep.violations) > 50:
            rep.exhaustive = False
            break
        for name, what in bad:
            rep.violation(
                f"C06 {e.abbrev} {name} " + json.dumps(core.jsonable(kwds), sort_keys=True),
                form=name,
                output=what,
            )


# --------------------------------------------------------------------------
# C07: Resolved scenario
# --------------------------------------------------------------------------
def c07_chunk(args):
    """The scenario reported by the model reproduces the prediction."""
    entry, states = args
    pygmm = core.import_library()
    out = []
    for kwds in states:
        scen, opts = entry.options({k: v for k, v in kwds.items() if v is not MISSING})
        m = core.outcome(lambda: entry.load()(pygmm.Scenario(**scen), **opts))
        if isinstance(m, core.Raised):
            continue  # decided by C02
        res = dict(m.scenario)
        a = core.outcome(lambda: entry.observe(m))
        for form in (res, {k: v for k, v in res.items() if v is not None}):
            m2 = core.outcome(lambda: entry.load()(pygmm.Scenario(**form), **opts))
            if isinstance(m2, core.Raised):
                out.append((kwds, repr(m2)))
                break
            b = core.outcome(lambda: entry.observe(m2))
            if isinstance(a, core.Raised) or isinstance(b, core.Raised):
                out.append((kwds, f"{a!r} {b!r}"[:300]))
                break
            if dict(m2.scenario) != res:
                out.append((kwds, dict(first=res, second=dict(m2.scenario))))
                break
            if any(not core.close(a[k], b[k], 1e-12, 1e-13).all() for k in a):
                out.append((kwds, "prediction"))
                break
    return len(states), out


def c07_states(entry, full):
    """All subsets of the omitted optional parameters, from every scenario."""
    params = PARAMS[entry.abbrev]
    values = dict(
        depth_1_0=0.35, depth_2_5=1.7, depth_bor=17.0, depth_bot=21.0, depth_hyp=9.0,
        depth_tor=2.0, dist_crjb=9.0, dist_x=12.0, dist_y0=4.0, width=13.0,
        dpp_centered=0.2, dist_rup=33.0, dist_hyp=41.0, dist_jb=28.0, dist_epi=30.0,
        mechanism="NS", region="japan", vs_source="inferred", is_aftershock=True,
        on_hanging_wall=True, tectonic_region="backarc",
    )  # fmt: skip
    opt = [p for p in params if not p["required"]]
    for base in entry.scenarios:
        req = {
            k: v
            for k, v in base.items()
            if k.startswith("+") or k not in {p["name"] for p in opt}
        }
        for mag in (base["mag"], 4.3, 5.6, 7.7):
            if not full and mag != base["mag"] and base is not entry.scenarios[0]:
                continue
            for r in range(len(opt) + 1):
                for given in itertools.combinations(opt, r):
                    s = dict(req, mag=mag)
                    for p in given:
                        s[p["name"]] = base.get(p["name"], values[p["name"]])
                    if entry.abbrev == "ASK14" and s.get("on_hanging_wall"):
                        if (s.get("dist_x") or -1) < 0:
                            s["dist_x"] = 12.0
                    yield s


def c07(rep):
    from .contract import array

    core.import_library()
    work = []
    for e in CATALOG:
        states = list(c07_states(e, core.thorough()))
        for q, r in ((101, 2), (29, 3)) if core.thorough() else ((53, 2), (17, 3)):
            states += array(e, q, r)
        rep.extra.setdefault("spaces", []).append(dict(model=e.abbrev, states=len(states)))
        rep.sample(dict(model=e.abbrev, scenario=states[len(states) // 2]))
        work += [(e, c) for c in core.chunks(states, 100)]
    for (e, _), (n, bad) in zip(work, core.pmap(c07_chunk, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for kwds, what in bad[:10]:
            rep.violation(
                f"C07 {e.abbrev} " + json.dumps(core.jsonable(kwds), sort_keys=True),
                what=what,
            )
        if len(rep.violations) > 50:
            rep.exhaustive = False
            break
