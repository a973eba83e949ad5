"""Correlation matrices (C12), conditional spectra (C15), and evaluation of arrays
element by element (C16)."""

import itertools
import json

import numpy as np

from .. import calls, core

MAGS = (2.0, 3.0, 5.0, 5.5, 6.0, 6.7, 7.0, 8.0, 8.5, 9.0)


def funcs():
    """name -> (matrix of values, alphabet)."""
    bj = calls._mod("baker_jayaram_2008")
    ba = calls._cls("bayless_abrahamson_2018", "BaylessAbrahamson2018")
    st = calls._cls("stafford_2017", "Stafford2017")

    def bj_matrix(t):
        return np.array([bj.calc_correls(t, x) for x in t])

    out = {"BJ08": bj_matrix, "BA18": lambda f: ba.corr(f)}
    for m in MAGS:
        out[f"S17 M{m}"] = lambda f, m=m: st.cor(f, mag=m)
        out[f"S17 between events M{m}"] = lambda f, m=m: np.array(
            [[st.between_event_correlation(a, b, m) for b in f] for a in f]
        )
    out["S17 within events"] = lambda f: np.array(
        [[st.within_event_correlation(a, b) for b in f] for a in f]
    )
    out["S17 between sites"] = lambda f: np.array(
        [[st.between_site_correlation(a, b) for b in f] for a in f]
    )
    return out


def alphabet(name, n):
    if name == "BJ08":
        special = [0.109, 0.2, 0.109 * (1 - 1e-6), 0.2 * (1 + 1e-6)]
        lo, hi = 0.01, 10.0
    else:
        special = [0.1, 1.0, 5.0, 10.0]
        lo, hi = (0.1, 23.9) if name == "BA18" else (0.1, 50.0)
    v = np.unique(np.r_[np.geomspace(lo, hi, n - len(special)), special])
    return v


# -- C12 --------------------------------------------------------------------
def c12_matrix(c):
    """Defect of a correlation matrix, or None."""
    c = np.asarray(c, float)
    if c.ndim != 2 or c.shape[0] != c.shape[1]:
        return f"shape {c.shape}"
    if not np.isfinite(c).all():
        return "not finite"
    if np.abs(c - c.T).max() > 1e-12:
        return "not symmetric"
    if np.abs(np.diag(c) - 1).max() > 1e-12:
        return "diagonal"
    if np.abs(c).max() > 1 + 1e-12:
        return "larger than one"
    if np.linalg.eigvalsh(c).min() < -1e-8:
        return "not positive semidefinite"
    return None


def c12_work(args):
    name, subsets = args
    f = funcs()[name]
    out = []
    for s in subsets:
        got = core.outcome(lambda: f(np.array(s)))
        bad = repr(got) if isinstance(got, core.Raised) else c12_matrix(got)
        if bad:
            out.append((s, bad))
    return len(subsets), out


def c12(rep):
    core.import_library()
    t = core.thorough()
    work = []
    for name in funcs():
        fast = name in ("BJ08", "BA18")
        a = alphabet(name, 14 if fast else 9)
        subsets = []
        for k in range(1, (5 if t else 4) + 1):
            for s in itertools.combinations(a.tolist(), k):
                subsets.append(s)
                if k <= 3:
                    # Order does not matter
                    subsets += [p for p in itertools.permutations(s) if p != s]
        # Values that are close to each other, by parts and by differences
        for x in a.tolist() if t or fast else a.tolist()[::2]:
            for e in range(2, 10):
                for d in (x * 10.0**-e, 5 * x * 10.0**-e, 10.0**-e, 3 * 10.0**-e):
                    if d > 0.5 * x or (name == "BA18" and x + 4 * d > 24):
                        continue
                    subsets.append((x, x + d))
                    subsets.append((x, x + d, x + 2 * d))
                    subsets.append((x, x + d, x + 1.5 * d, x + 4 * d, a[0], a[len(a) // 2]))
        big = alphabet(name, 200 if fast else (60 if t else 30))
        subsets.append(tuple(big.tolist()))
        work += [(name, c) for c in core.chunks(subsets, 200)]
    for (name, _), (n, bad) in zip(work, core.pmap(c12_work, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        rep.sample(dict(model=name, values=work[0][1][-1]))
        for s, what in bad[:3]:
            rep.violation(f"C12 {name} {json.dumps(s)[:200]}", what=what)
    rep.extra["matrices"] = rep.states


# -- C15 --------------------------------------------------------------------
ALPHA = [0.02, 0.08, 0.109, 0.2, 0.5, 1.0, 1.01, 8.0]
LN = dict(zip(ALPHA, np.log([0.25, 0.5, 0.55, 0.6, 0.4, 0.2, 0.199, 0.01])))
# Amplitudes relative to the median in standard deviations
EPS = [0.0, 1e-6, -1e-3, 0.01, -0.03, 0.1, 0.5, -0.5, 1.0, -1.5, 2.5, -3.5, 6.0, -9.0]
SD = dict(zip(ALPHA, [0.55, 0.6, 0.62, 0.6, 0.65, 0.7, 0.702, 0.8]))


def c15_work(args):
    """Conditional spectra of all scenarios of one set of periods."""
    periods = args
    bj, ki = calls._mod("baker_jayaram_2008"), calls._mod("kishida_2017")
    p = np.array(periods)
    ln = np.array([LN[t] for t in periods])
    sd = np.array([SD[t] for t in periods])
    n, out = 0, []

    def bad(label, what):
        out.append((label, what))

    cms = {}
    for i in range(len(p)):
        for eps in EPS:
            n += 1
            target = ln[i] + eps * sd[i]
            got = core.outcome(lambda: bj.calc_cond_mean_spectrum(p, ln, sd, p[i], target))
            label = dict(periods=periods, at=periods[i], eps=eps)
            if isinstance(got, core.Raised):
                bad(label, repr(got))
                continue
            m, s = (np.asarray(v, float) for v in got)
            cms[i, eps] = m, s
            if m.shape != p.shape or s.shape != p.shape:
                bad(label, "shape")
            elif not core.close(m[i], target, 1e-9, 1e-9) or abs(s[i]) > 1e-6:
                bad(label, "CMS does not equal the target")
            elif (s < 0).any() or (s > sd * (1 + 1e-9)).any():
                bad(label, "CMS standard deviation exceeds the unconditional one")
            elif eps == 0 and not core.close(m, ln, 1e-9, 1e-9).all():
                bad(label, "CMS of the median is not the median")
            elif (np.abs(m - ln) > abs(eps) * sd * (1 + 1e-9)).any():
                bad(label, "CMS exceeds the number of standard deviations")
    # A condition between the periods, at the interpolated median
    for lo, hi in zip(p, p[1:]):
        for w in (0.1, 0.5, 0.9):
            n += 1
            at = lo + w * (hi - lo)
            label = dict(periods=periods, at=at, eps=0.0)
            got = core.outcome(
                lambda: bj.calc_cond_mean_spectrum(p, ln, sd, at, np.interp(at, p, ln))
            )
            if isinstance(got, core.Raised):
                bad(label, repr(got))
                continue
            m, s = (np.asarray(v, float) for v in got)
            if m.shape != p.shape or not core.close(m, ln, 1e-9, 1e-9).all():
                bad(label, "CMS of the median between the periods is not the median")
            elif not (s >= 0).all() or (s > sd * (1 + 1e-9)).any():
                bad(label, "CMS standard deviation exceeds the unconditional one")
    for k in range(1, len(p) + 1):
        for cond in itertools.combinations(range(len(p)), k):
            mask = np.ones(len(p), bool)
            mask[list(cond)] = False
            for pattern in (*EPS, "mixed"):
                n += 1
                e = (
                    np.where(np.arange(len(p)) % 2, 1.0, -0.5)
                    if pattern == "mixed"
                    else np.full(len(p), pattern)
                )
                tgt = np.ma.masked_array(ln + e * sd, mask)
                got = core.outcome(
                    lambda: ki.calc_cond_mean_spectrum_vector(p, ln, sd, tgt)
                )
                label = dict(periods=periods, cond=[periods[c] for c in cond], eps=pattern)
                if isinstance(got, core.Raised):
                    bad(label, repr(got))
                    continue
                m, s = (np.asarray(v, float) for v in got)
                c = list(cond)
                if m.shape != p.shape or s.shape != p.shape:
                    bad(label, "shape")
                elif not core.close(m[c], (ln + e * sd)[c], 1e-9, 1e-9).all():
                    bad(label, "CMSV does not equal the targets")
                elif (np.abs(s[c]) > 1e-9).any():
                    bad(label, "CMSV standard deviation at the targets")
                elif not (s >= 0).all() or (s > sd * (1 + 1e-9)).any():
                    bad(label, "CMSV standard deviation exceeds the unconditional one")
                elif pattern == 0.0 and not core.close(m, ln, 1e-7, 1e-7).all():
                    bad(label, "CMSV of the median is not the median")
                elif k == 1:
                    a = cms.get((cond[0], float(e[cond[0]])))
                    if a is not None and not (
                        core.close(a[0], m, 1e-9, 1e-9).all()
                        and core.close(a[1], s, 1e-6, 1e-6).all()
                    ):
                        bad(label, "one condition differs from the CMS")
                if len(out) > 5:
                    return n, out
    return n, out


def c15(rep):
    core.import_library()
    sizes = range(1, 9) if core.thorough() else range(1, 7)
    work = [c for k in sizes for c in itertools.combinations(ALPHA, k)]
    if not core.thorough():
        work.append(tuple(ALPHA))
    for w, (n, bad) in zip(work, core.pmap(c15_work, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for label, what in bad[:3]:
            rep.violation(
                f"C15 {what} " + json.dumps(core.jsonable(label), sort_keys=True), what=what
            )
        if len(rep.violations) > 30:
            rep.exhaustive = False
            break
    rep.extra["sets_of_periods"] = len(work)
    rep.sample(dict(periods=work[-1]))
    rep.sample(dict(periods=work[10]))


# -- C16 --------------------------------------------------------------------
# name -> axes of the result which follow the elements (1: vector, 2: matrix)
ELEMENTWISE = {
    "BJ08 correlation": 1,
    "BA18 correlation": 2,
    "BA18 covariance": 2,
    "BA18 covariance of std": 2,
    "S17 variances": 1,
    "S17 covariance": 2,
    "S17 correlation": 2,
    "S17 covariance of std": 2,
    "S17 correlation of std": 2,
    "PR24 durations": 1,
    "AS96 increments": 1,
    "AS96 interpolation": 1,
    "GA11 ratios": 1,
    "GA11 std": 1,
    "GMM interp_spec_accels linear": 1,
    "GMM interp_ln_spec_accels linear": 1,
    "GMM interp_ln_stds linear": 1,
    "GMM interp_spec_accels cubic": 1,
}


def c16_work(args):
    name, thorough = args
    call = {c.name: c for c in calls.calls()}[name]
    dim = ELEMENTWISE[name]
    arrays = call.arrays
    n_el = len(next(iter(arrays.values())))
    ref = [np.array(v, float) for v in call.run({k: v.copy() for k, v in arrays.items()})]
    n, out = 0, []
    orders = []
    for k in range(1, n_el + 1):
        for s in itertools.combinations(range(n_el), k):
            orders.append(s)
            if k <= (n_el if thorough else 4):
                orders += [p for p in itertools.permutations(s) if p != s]
    # Repeated elements
    orders += [s for k in (2, 3, 4) for s in itertools.product(range(n_el), repeat=k)]
    # Long arrays of repeated elements
    for k in LENGTHS[dim]:
        for step in (1, n_el - 1):
            orders.append(tuple((i * step) % n_el for i in range(k)))
    for s in dict.fromkeys(orders):
        n += 1
        idx = list(s)
        got = core.outcome(lambda: call.run({k: v[idx] for k, v in arrays.items()}))
        if isinstance(got, core.Raised) or len(got) != len(ref):
            out.append((s, repr(got)))
            continue
        for g, r in zip(got, ref):
            exp = r[idx] if dim == 1 else r[np.ix_(idx, idx)]
            g = np.asarray(g, float)
            if g.shape != exp.shape:
                out.append((s, "shape"))
                break
            ok = core.close(g, exp, 1e-11, 1e-12)
            if dim == 2:
                # The same element twice
                i = np.array(idx)
                ok |= (i[:, None] == i) & ~np.eye(len(idx), dtype=bool)
            if not ok.all():
                out.append((s, "value"))
                break
        if len(out) > 5:
            break
    return n, out


def c16_dense(args):
    """Arrays of many different elements, compared with arrays of one or two."""
    name, thorough = args
    call = {c.name: c for c in calls.calls()}[name]
    dim = ELEMENTWISE[name]
    n, out = 0, []
    for k in LENGTHS[dim]:
        arrays = calls.resized(call, k)
        for label, order in (("up", np.arange(k)), ("down", np.arange(k)[::-1])):
            n += 1
            got = core.outcome(lambda: call.run({a: v[order] for a, v in arrays.items()}))
            if isinstance(got, core.Raised):
                out.append(((k, label), repr(got)))
                continue
            got = [np.asarray(g, float) for g in got]
            if dim == 1:
                parts = [[i] for i in range(k)]
            else:
                step = 1 if k < 20 else k // 9
                parts = [[i, j] for i in range(0, k, step) for j in range(i + 1, k, step)]
                parts += [[i, i + 1] for i in range(k - 1)]
            for i in parts:
                one = call.run({a: v[order[i]] for a, v in arrays.items()})
                for g, r in zip(got, one):
                    exp = np.asarray(r, float)
                    v = g[i] if dim == 1 else g[np.ix_(i, i)]
                    if v.shape != exp.shape or not core.close(v, exp, 1e-11, 1e-12).all():
                        out.append(((k, label, i), "value"))
                        break
                if len(out) > 5:
                    return n, out
    return n, out


def c16_outer(args):
    """Every deviation with every fraction, for any numbers of them."""
    import pygmm

    m = pygmm.AbrahamsonSilva1996(pygmm.Scenario(**calls.SCEN["AS96"]))
    nias, stds = np.linspace(0.05, 0.97, 12), np.array([-2.0, -1.0, 0.0, 0.5, 1.0, 3.0, -0.1, 1.0, 2.5])
    ref = np.array([[float(np.ravel(m.interp([x], [s]))[0]) for x in nias] for s in stds])
    n, out = 0, []
    for k in range(1, len(nias) + 1):
        for r in range(1, len(stds) + 1):
            for i in (np.arange(k), np.arange(k)[::-1], np.arange(12 - k, 12)):
                for j in (np.arange(r), np.arange(r)[::-1], np.zeros(r, int)):
                    n += 1
                    for form in (np.array, list):
                        got = core.outcome(lambda: np.asarray(m.interp(form(nias[i]), form(stds[j])), float))
                        exp = ref[np.ix_(j, i)]
                        if isinstance(got, core.Raised) or got.shape != exp.shape or not core.close(got, exp, 1e-11, 1e-12).all():
                            out.append(((i.tolist(), j.tolist()), "outer product"))
            if len(out) > 5:
                return n, out
    return n, out


def c16_any(args):
    if args[0] == "outer":
        return c16_outer(args[1:])
    return c16_dense(args[1:]) if args[0] == "dense" else c16_work(args[1:])


# Interpolation of higher order has to be of elements within the range
LENGTHS = {1: (7, 9, 16, 17, 33, 65, 101, 129, 257, 513), 2: (7, 9, 17, 21, 33, 65)}


def c16(rep):
    core.import_library()
    work = [(w, n, core.thorough()) for n in ELEMENTWISE for w in ("dense", "orders")]
    work.append(("outer", "AS96 fractions and deviations", False))
    for (_, name, _), (n, bad) in zip(work, core.pmap(c16_any, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        for s, what in bad[:3]:
            rep.violation(f"C16 {name} {s}", what=what)
    rep.sample(dict(functions=list(ELEMENTWISE)))
    rep.sample(dict(order=(3, 1, 0)))
