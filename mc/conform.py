"""Conformance of the implementation with a reference model, state by state."""

import importlib
import json
import os

import numpy as np

from . import core
from .refs.common import DATA

# Published periods of the spectral accelerations
with open(os.path.join(DATA, "periods.json")) as fp:
    PERIODS = json.load(fp)


# Values outside of the documented limits: accepted with a warning
FAR = dict(
    mag=[0.0, 1.0, 2.5, 9.3, 10.0],
    dist_rup=[0.01, 0.3, 450.0, 800.0, 2500.0],
    dist_jb=[0.0, 0.01, 0.3, 450.0, 800.0, 2500.0],
    dist_hyp=[0.1, 450.0, 800.0, 2500.0],
    dist_epi=[0.0, 0.1, 450.0, 800.0, 2500.0],
    dist_x=[-2000.0, -400.0, 400.0, 2000.0],
    dist_y0=[300.0, 2000.0],
    v_s30=[30.0, 90.0, 2100.0, 3500.0],
    depth_hyp=[0.0, 0.5, 45.0, 90.0, 300.0],
    depth_tor=[0.0, 25.0, 60.0, 150.0],
    depth_bor=[60.0],
    depth_1_0=[0.001, 4.0, 12.0],
    depth_2_5=[0.0, 0.005, 12.0, 30.0],
    dip=[1.0, 5.0, 90.0],
    width=[0.1, 80.0, 300.0],
    dpp_centered=[-40.0, 40.0],
)


# Ranges that are covered densely
DENSE = dict(
    mag=(3.0, 8.5),
    dist_rup=(0.5, 350.0),
    dist_jb=(0.3, 350.0),
    dist_hyp=(5.0, 300.0),
    dist_epi=(1.0, 300.0),
    dist_x=(-80.0, 120.0),
    dist_y0=(0.0, 110.0),
    v_s30=(120.0, 2000.0),
    depth_tor=(0.0, 21.0),
    depth_bor=(4.0, 30.0),
    depth_bot=(8.0, 30.0),
    depth_1_0=(0.004, 3.0),
    depth_2_5=(0.03, 9.0),
    dip=(12.0, 89.0),
    width=(2.0, 60.0),
    dpp_centered=(-15.0, 15.0),
    pga_ref=(0.0005, 3.0),
)
# (levels, strength) of the orthogonal arrays
ARRAYS = {1: [(101, 2), (29, 3), (11, 4)], 2: [(211, 2), (53, 3), (17, 4)]}


def levels_of(fine, name, n):
    """Alphabet of up to n values, which spans the range of a fine alphabet."""
    fine = list(fine)
    number = [
        v for v in fine if isinstance(v, (int, float)) and not isinstance(v, bool) and v is not None
    ]
    if name in DENSE and number and len(fine) > 1:
        number += [v for v in DENSE[name]]
    elif len(set(number)) < 3:
        return fine
    lo, hi = DENSE.get(name, (-np.inf, np.inf))
    positive = [v for v in number if v > 0]
    logarithmic = min(number) >= 0 and max(positive) / min(positive) > 15 and name not in (
        "mag", "dip", "dist_y0", "depth_tor", "depth_hyp"
    )  # fmt: skip
    lo, hi = max(lo, min(positive if logarithmic else number)), min(hi, max(number))
    other = [v for v in fine if v is None or isinstance(v, (str, bool))]
    if logarithmic and 0 in number:
        other.append(0.0)
    # Every omitted or special value has a share of about a tenth
    other *= max(1, n // 10) if other else 1
    k = n - len(other)
    return other + (core.geo(lo, hi, k) if logarithmic else core.lin(lo, hi, k))


class Conformance:
    """Binds one public model of the library to its reference model.

    Parameters
    ----------
    spaces : callable(level: 1 quick, 2 thorough) -> list of (Space, k_fine, k_coarse)
    build : callable(dict) -> object of the library
    observe : callable(object, dict) -> dict of public observations
    reference : callable(batch, states) -> dict of the same observations, with
        leading dimension of the number of states. `batch` holds arrays of shape
        (N, 1): floats (NaN if omitted) or str (\"\" if omitted).
    """

    def __init__(
        self,
        label,
        spaces,
        build,
        observe,
        reference,
        rtol=1e-8,
        atol=1e-10,
        chunk=400,
        raw=False,
        defined=None,
        far=None,
        dense=None,
    ):
        self.label = label
        self.spaces = spaces
        self.build = build
        self.observe = observe
        self.reference = reference
        self.rtol = rtol
        self.atol = atol
        self.chunk = chunk
        self.defined = defined  # predicate of states
        self.far = far  # predicate of states outside of the limits, False for none
        self.dense = dense  # predicate of states of orthogonal arrays, False for none
        self.raw = raw  # the reference only uses the list of states

    # -- evaluation -----------------------------------------------------
    def batch(self, states):
        out = {}
        for k in states[0]:
            vals = [s[k] for s in states]
            if any(isinstance(v, str) for v in vals):
                a = np.array(["" if v is None else v for v in vals], dtype=object)
            else:
                a = np.array([np.nan if v is None else float(v) for v in vals])
            out[k] = a[:, None]
        return out

    def run_impl(self, state):
        kwds = {k: v for k, v in state.items() if v is not None}
        try:
            return self.observe(self.build(kwds), kwds)
        except Exception as e:  # noqa: BLE001
            return core.Raised(e)

    def compare(self, states):
        """Returns the list of mismatches, hashes of the observations, and the number
        of states for which the model is defined."""
        if self.defined is not None:
            states = [s for s in states if self.defined(s)]
            if not states:
                return [], set(), 0
        with np.errstate(all="ignore"):
            batch = None if self.raw else self.batch(states)
            ref = self.reference(batch, states)
        if self.label in PERIODS:
            ref["periods"] = np.tile(PERIODS[self.label], (len(states), 1))
        mism, distinct = [], set()
        got = [self.run_impl(s) for s in states]
        ok = [i for i, g in enumerate(got) if not isinstance(g, core.Raised)]
        for i, g in enumerate(got):
            if isinstance(g, core.Raised):
                mism.append((i, dict(output="construction", got=repr(g))))
        for name, exp in ref.items():
            exp = np.asarray(exp, float)
            rows = []
            for i in ok:
                v = got[i].get(name)
                if v is None:
                    mism.append((i, dict(output=name, got="missing")))
                    rows.append(np.full(exp.shape[1:], np.nan))
                    continue
                v = np.asarray(v, float)
                if v.shape != exp.shape[1:]:
                    mism.append(
                        (i, dict(output=name, got_shape=v.shape, exp_shape=exp.shape[1:]))
                    )
                    v = np.full(exp.shape[1:], np.nan)
                rows.append(v)
            if not rows:
                continue
            rows = np.array(rows)
            exp = exp[ok]
            bad = ~core.close(rows, exp, self.rtol, self.atol)
            bad = bad.reshape(len(ok), -1)
            for j in np.flatnonzero(bad.any(axis=1)):
                idx = int(np.flatnonzero(bad[j])[0])
                mism.append(
                    (
                        ok[j],
                        dict(
                            output=name,
                            index=idx,
                            n_bad=int(bad[j].sum()),
                            expected=float(exp[j].ravel()[idx]),
                            got=float(rows[j].ravel()[idx]),
                        ),
                    )
                )
            for r in rows:
                distinct.add(hash(np.round(r, 9).tobytes()))
        mism.sort(key=lambda m: m[0])
        return [(states[i], m) for i, m in mism], distinct, len(states)

    def far_spaces(self, spaces):
        for space, _, _ in spaces:
            alphabet = {k: FAR.get(k, []) for k in space.fine}
            if not any(alphabet.values()):
                continue

            def valid(s, space=space):
                if self.far is not None and not self.far(s):
                    return False
                return space.valid is None or space.valid(s)

            yield (
                core.Space(
                    alphabet,
                    alphabet,
                    space.bases[: 64 if core.thorough() else 8],
                    (),
                    valid,
                    f"{space.label} outside of the limits".strip(),
                ),
                2,
                3 if core.thorough() else 0,
            )

    def dense_spaces(self, spaces):
        """Every combination of two, three and four coordinates, in orthogonal arrays."""
        groups = {}
        for space, _, _ in spaces:
            groups.setdefault(tuple(space.fine), []).append(space)
        for names, group in groups.items():
            fine = {n: core.merge_any(*(g.fine[n] for g in group)) for n in names}
            free = [n for n in names if len(fine[n]) > 1]
            fixed = {n: fine[n][0] for n in names if len(fine[n]) == 1}

            def valid(s, group=group):
                if not all(f is None or f(s) for f in (self.dense, self.far)):
                    return False
                return any(g.valid is None or g.valid(s) for g in group)

            for q, t in ARRAYS[2 if core.thorough() else 1]:
                if t > len(free) or len(free) > q + 1:
                    continue

                def levels(n, fine=fine, names=names):
                    return {k: levels_of(fine[k], k, n) for k in free} | {
                        k: [v] for k, v in fixed.items()
                    }

                if np.prod([float(len(v)) for v in levels(q).values()]) < 3 * q**t:
                    # The complete product is as small
                    continue
                label = f"{group[0].label} all {t} of {q} levels".strip()
                yield core.Orthogonal(q, t, levels, valid, label), 0, 0

    # -- exploration ----------------------------------------------------
    def explore(self, rep, max_violations=20):
        core.import_library()
        distinct = set()
        total = 0
        spaces = self.spaces(2 if core.thorough() else 1)
        if self.far is not False and not self.raw:
            far = list(self.far_spaces(spaces))
            dense = [] if self.dense is False else list(self.dense_spaces(spaces))
            spaces = spaces + far + dense
        for space, kf, kc in spaces:
            space.transitions = 0
            todo = list(core.chunks(space.states(kf, kc), self.chunk))
            n = sum(len(c) for c in todo)
            rep.extra.setdefault("spaces", []).append(
                dict(
                    label=f"{self.label} {space.label}".strip(),
                    states=n,
                    deviations_fine=kf,
                    deviations_coarse=kc,
                    initial_states=len(space.bases),
                    alphabet={k: len(v) for k, v in space.fine.items()},
                    alphabet_coarse={k: len(v) for k, v in space.coarse.items()},
                    products=[list(p) for p in space.products],
                )
            )
            rep.transitions += space.transitions
            if todo:
                for i in (0, len(todo) // 2, -1):
                    rep.sample(dict(model=self.label, **todo[i][0]))
            nbad = 0
            results = core.pmap(self.compare, todo)
            for mism, dist, count in results:
                distinct |= dist
                total += count
                rep.states += count
                rep.traces += count
                for s, m in mism:
                    nbad += 1
                    if nbad <= max_violations:
                        rep.violation(key(self.label, s), model=self.label, state=s, **m)
                if nbad > max_violations:
                    rep.exhaustive = False
                    results.close()
                    break
        rep.extra.setdefault("distinct_outcomes", {})[self.label] = len(distinct)


def key(label, state):
    return label + " " + json.dumps(core.jsonable(state), sort_keys=True)


def gmm_observe(m, kwds):
    """Public observations of a ground motion model."""
    out = dict(periods=m.periods, spec_accels=m.spec_accels, ln_stds=m.ln_stds)
    for name in ("pga", "pgv", "pgd"):
        if getattr(m, "INDEX_" + name.upper()) is not None:
            out[name] = getattr(m, name)
            out["ln_std_" + name] = getattr(m, "ln_std_" + name)
    return out


def builder(module, cls):
    """Constructor through a Scenario; imported lazily."""

    def build(kwds):
        pygmm = core.import_library()
        mod = importlib.import_module("pygmm." + module)
        return getattr(mod, cls)(pygmm.Scenario(**kwds))

    return build
