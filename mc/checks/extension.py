"""Models that users define on the documented base classes (C25)."""

import copy
import itertools
import json
import pickle
import warnings

import numpy as np

from .. import core

PERIODS = [0.05, 0.3, 2.0]
VALUES = dict(zip(PERIODS, [-1.2, -0.4, -2.5]), pga=-1.7, pgv=2.1, pgd=0.6)
STDS = dict(zip(PERIODS, [0.55, 0.61, 0.72]), pga=0.5, pgv=0.58, pgd=0.9)
NAMES = ("pga", "pgv", "pgd")
OUTSIDE = [0.0499, 2.001]


def same(x, y, tol=1e-12):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and bool(core.close(x, y, tol, tol).all())


def not_implemented(func):
    got = core.outcome(func)
    return isinstance(got, core.Raised) and got.kind == "NotImplementedError"


# -- Layout of the ground motion models -------------------------------------
def layouts(thorough):
    """(order of the entries, measures, scales, has deviations)."""
    for n in (2, 3):
        psa = PERIODS[:n]
        for k in range(len(NAMES) + 1):
            for im in itertools.combinations(NAMES, k):
                slots = list(psa) + list(im)
                for order in itertools.permutations(slots):
                    for scales in ((1.0, 1.0), (980.665, 2.54)) if k else ((1.0, 1.0),):
                        for std in (True, False):
                            if not thorough and n == 3 and not std and scales[0] == 1.0 and k:
                                continue
                            yield order, im, scales, std


def storage():
    """Names of the attributes in which models of the library keep the logarithm of
    the response and its deviation: those that the documented examples set, or those
    with the values. None if there are none."""
    pygmm = core.import_library()
    m = pygmm.Idriss2014(pygmm.Scenario(mag=6.0, dist_rup=20.0, v_s30=500.0, mechanism="SS"))
    out = []
    for name, v in (("_ln_resp", np.log(m.spec_accels)), ("_ln_std", m.ln_stds)):
        has = [
            k
            for k, x in vars(m).items()
            if isinstance(x, np.ndarray) and x.shape == m.PERIODS.shape and same(x[m.INDICES_PSA], v)
        ]
        out.append(name if name in has else (has or [None])[0])
    return None if None in out else out


def layout_one(args):
    names, (order, im, scales, has_std) = args
    model = core.import_library().model
    psa = [x for x in order if not isinstance(x, str)]
    attrs = dict(
        PERIODS=np.array([x if not isinstance(x, str) else -1.0 for x in order]),
        INDICES_PSA=np.array([i for i, x in enumerate(order) if not isinstance(x, str)]),
        PGV_SCALE=scales[0],
        PGD_SCALE=scales[1],
        PARAMS=[model.NumericParameter("mag", True, 3, 8)],
    )
    for k in im:
        attrs["INDEX_" + k.upper()] = order.index(k)

    def init(self, scenario):
        model.GroundMotionModel.__init__(self, scenario)
        setattr(self, names[0], np.array([VALUES[x] for x in order]))
        if has_std:
            setattr(self, names[1], np.array([STDS[x] for x in order]))

    cls = type("Own", (model.GroundMotionModel,), dict(attrs, __init__=init))
    m = cls(model.Scenario(mag=5.0))
    if not same(m.periods, psa):
        return "periods"
    if not same(m.spec_accels, np.exp([VALUES[x] for x in psa])):
        return "spec_accels"
    scale = dict(pga=1.0, pgv=scales[0], pgd=scales[1])
    for k in NAMES:
        if k not in im:
            for name in (k, "ln_std_" + k):
                if not not_implemented(lambda: getattr(m, name)):
                    return name + " is not provided"
            continue
        if not same(getattr(m, k), np.exp(VALUES[k]) * scale[k]):
            return k
        if has_std and not same(getattr(m, "ln_std_" + k), STDS[k]):
            return "ln_std_" + k
        if not has_std and not not_implemented(lambda: getattr(m, "ln_std_" + k)):
            return "ln_std_" + k + " is not provided"
    lx = np.log(sorted(psa))
    t = [float(np.exp(0.3 * a + 0.7 * b)) for a, b in zip(lx, lx[1:])]
    pts = OUTSIDE[:1] + psa + t + [max(psa) * 1.001]

    def expect(vals):
        y = np.interp(np.log(pts), lx, [vals[x] for x in sorted(psa)])
        y[[0, -1]] = np.nan
        return y

    ln = m.interp_ln_spec_accels(pts)
    for got, exp, name in (
        (ln, expect(VALUES), "interp_ln_spec_accels"),
        (m.interp_spec_accels(pts), np.exp(expect(VALUES)), "interp_spec_accels"),
    ):
        if not np.allclose(got[1:-1], exp[1:-1], rtol=1e-10, atol=1e-12):
            return name
        if not np.isnan(got[[0, -1]]).all():
            return name + " outside"
    if has_std:
        if not same(m.ln_stds, [STDS[x] for x in psa]):
            return "ln_stds"
        got, exp = m.interp_ln_stds(pts), expect(STDS)
        if not np.allclose(got[1:-1], exp[1:-1], rtol=1e-10, atol=1e-12):
            return "interp_ln_stds"
        if not np.isnan(got[[0, -1]]).all():
            return "interp_ln_stds outside"
    else:
        if not not_implemented(lambda: m.ln_stds):
            return "ln_stds without deviations"
        if not not_implemented(lambda: m.interp_ln_stds(pts)):
            return "interp_ln_stds without deviations"
    return None


# -- Parameters --------------------------------------------------------------
GIVEN = "<omitted>"


def numeric_params():
    for req in (False, True):
        for lo in (None, -2.0, 0, 3.0):
            for hi in (None, 0, 3.0, 8.0):
                if lo is not None and hi is not None and lo > hi:
                    continue
                for default in (None, 0, 5.0, 99.0):
                    yield ("numeric", req, lo, hi, default)


def categorical_params():
    opts = [None, [], ["SS"], ["SS", "NS", "RS"], [True, False], ["a", ""], [0, 1, 2]]
    for req in (False, True):
        for o in opts:
            for default in [None, "other"] + (o or [])[:2]:
                yield ("categorical", req, o, default)


def param_values(p):
    if p[0] == "numeric":
        out = [GIVEN, None, 0, 0.0, -0.0, False, np.float64(4.0), np.int64(4), np.float32(2.5)]
        for lim in (p[2], p[3]):
            if lim is not None:
                out += [lim, lim - 1e-9, lim + 1e-9, lim - 5, lim + 5]
        return out + [1e300, -1e300, np.inf, -np.inf]
    return [GIVEN, None, "SS", "NS", "ss", "", "other", True, False, 0, 1, 3]


def param_expect(p, v):
    """('error',) or (value, number of problems, limit)."""
    missing = v is None or v is GIVEN
    if missing and p[1]:
        return "error"
    value = p[-1] if missing else v
    if p[0] == "numeric":
        lim = None
        if value is not None:
            if p[2] is not None and value < p[2]:
                lim = p[2]
            elif p[3] is not None and value > p[3]:
                lim = p[3]
        return value, lim is not None, lim
    if value in (p[2] or []):
        return value, False, None
    return p[-1], True, None


def make_param(p, name):
    model = core.import_library().model
    if p[0] == "numeric":
        return model.NumericParameter(name, p[1], p[2], p[3], p[4])
    return model.CategoricalParameter(name, p[1], p[2], p[3])


def param_one(args):
    """Parameters of a model defined by a user, with values for each of them."""
    specs, values, form = args
    model = core.import_library().model
    names = ["depth_bor", "region", "width"][: len(specs)]
    cls = type(
        "Own",
        (model.Model,),
        dict(PARAMS=[make_param(p, n) for p, n in zip(specs, names)]),
    )
    kwds = {n: v for n, v in zip(names, values) if v is not GIVEN}
    given = dict(kwds, dist_jb=3.0)
    make = {
        "scenario": lambda: cls(model.Scenario(**given)),
        "dict": lambda: cls(given),
        "keywords": lambda: cls(**given),
    }[form]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        m = core.outcome(make)
    exp = [param_expect(p, v) for p, v in zip(specs, values)]
    if "error" in exp:
        if not (isinstance(m, core.Raised) and m.kind == "ValueError"):
            return f"accepted: {m!r}"
        return None
    if isinstance(m, core.Raised):
        return repr(m)
    if sorted(m.scenario) != sorted(names):
        return f"values {sorted(m.scenario)}"
    msgs = [str(w.message) for w in caught]
    for n, (value, warn, lim) in zip(names, exp):
        got = m.scenario[n]
        if not (got is value or (got == value and type(got) is type(value))):
            return f"{n}: {got!r} for {value!r}"
        mine = [s for s in msgs if n in s]
        if bool(mine) != warn:
            return f"{n}: warnings {mine}"
        if lim is not None and not any(str(lim) in s for s in mine):
            return f"{n}: limit {lim} in {mine}"
    if given != dict(kwds, dist_jb=3.0):
        return "data of the caller"
    return None


def param_states(thorough):
    num, cat = list(numeric_params()), list(categorical_params())
    forms = ("scenario", "dict", "keywords")
    for p in num + cat:
        for v in param_values(p):
            for form in forms:
                yield (p,), (v,), form
    # Two parameters, with one value of every class
    pick = num[:: 1 if thorough else 7] + cat[:: 1 if thorough else 3]
    if thorough:
        pick = num[::3] + cat
    for p, q in itertools.product(pick, repeat=2):
        for v in param_values(p)[:6]:
            for w in param_values(q)[:6]:
                yield (p, q), (v, w), "scenario"


# -- Coefficients ------------------------------------------------------------
def coefficient_states():
    names = ["a_1", "phi", "M_1", "keys_", "data"]
    vals = [0, -0.5, None, "x", (1, 2)]
    for k in range(len(names) + 1):
        for c in itertools.permutations(names, k):
            yield tuple(zip(c, vals))
    # Every kind of name: private, short, upper case, not ASCII, of a built-in
    odd = ["_a", "a", "A", "__b", "c_", "\u03c6", "self_", "len", "name", "ln_1", "_"]
    for k in (1, 2):
        for c in itertools.permutations(odd, k):
            yield tuple(zip(c, vals))
            yield tuple(zip(c, reversed(vals)))


def coefficient_one(items):
    model = core.import_library().model
    d = dict(items)
    c = model.Coefficients(**d)
    forms = {"": lambda: c, "copy": lambda: copy.copy(c), "deepcopy": lambda: copy.deepcopy(c)}
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        forms[f"pickle {p}"] = lambda p=p: pickle.loads(pickle.dumps(c, p))
    for label, form in forms.items():
        x = core.outcome(form)
        if isinstance(x, core.Raised):
            return f"{label}: {x!r}"
        if dict(x) != d or list(x) != list(d) or len(x) != len(d):
            return f"{label}: contents"
        for k, v in items:
            if getattr(x, k) != v or x[k] != v or k not in x:
                return f"{label}: {k}"
        if "other" in x or hasattr(x, "other") or x.get("other", 7) != 7:
            return f"{label}: unknown name"
        got = core.outcome(lambda: x["other"])
        if not (isinstance(got, core.Raised) and got.kind == "KeyError"):
            return f"{label}: unknown item"
        got = core.outcome(lambda: x.__setitem__("a_1", 1))
        if not isinstance(got, core.Raised):
            return f"{label}: not read-only"
    return None


# -- Property ----------------------------------------------------------------
def c25_chunk(args):
    part, items = args
    func = dict(layout=layout_one, parameters=param_one, coefficients=coefficient_one)[part]
    out = []
    for x in items:
        bad = core.outcome(lambda: func(x))
        if bad is not None:
            out.append((x, bad if isinstance(bad, str) else repr(bad)))
    return len(items), out


def c25(rep):
    core.import_library()
    t = core.thorough()
    names = storage()
    parts = dict(
        layout=[(names, x) for x in layouts(t)] if names else [],
        parameters=list(param_states(t)),
        coefficients=list(coefficient_states()),
    )
    work = [(k, c) for k, v in parts.items() for c in core.chunks(v, 500)]
    for (k, _), (n, bad) in zip(work, core.pmap(c25_chunk, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for x, what in bad[:5]:
            rep.violation(f"C25 {k} {json.dumps(core.jsonable(x))}", what=what)
        if len(rep.violations) > 40:
            rep.exhaustive = False
            break
    rep.extra["states_by_part"] = {k: len(v) for k, v in parts.items()}
    rep.extra["attributes_of_response"] = names
    for k, v in parts.items():
        rep.sample(dict(part=k, state=core.jsonable(v[-1:])))
