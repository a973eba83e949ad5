"""Histories of calls of one function, or of queries of one object, with arguments
that differ little or in one place only (part of C04)."""

import itertools

import numpy as np

from .. import calls, core
from ..catalog import CATALOG
from .scenario import PARAMS

CLOSE = (1 + 1e-9, 1 + 1e-3, 1.03)


def near(v):
    """Values that differ from v, by little first."""
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, (int, float)):
        return [v * f for f in CLOSE] if v else [1e-9, 1e-3, 0.1]
    if isinstance(v, np.ma.MaskedArray):
        out = [v * f for f in CLOSE]
        mask = np.ma.getmaskarray(v)
        for i in range(v.size):
            m = mask.copy()
            m[i] = not m[i]
            if not m.all():
                out.append(np.ma.masked_array(v.data.copy(), m))
        return out
    if isinstance(v, np.ndarray):
        out = [v * f for f in CLOSE]
        for i in range(v.size):
            # One element, with both ends, length and often the sum unchanged
            w = v.copy()
            w[i] *= 1.003 if i % 2 else 0.997
            out.append(w)
        return out
    return []


def functions():
    """name -> (function, arguments, alternatives of the arguments)."""
    m, c = calls._mod, calls._cls
    bj, ki = m("baker_jayaram_2008"), m("kishida_2017")
    ba18 = c("bayless_abrahamson_2018", "BaylessAbrahamson2018")
    st = c("stafford_2017", "Stafford2017")
    ask = c("abrahamson_silva_kamai_2014", "AbrahamsonSilvaKamai2014")
    bssa = c("boore_stewart_seyhan_atkinson_2014", "BooreStewartSeyhanAtkinson2014")
    cb = c("campbell_bozorgnia_2014", "CampbellBozorgnia2014")
    cy = c("chiou_youngs_2014", "ChiouYoungs2014")
    as16 = c("afshari_stewart_2016", "AfshariStewart2016")
    as96 = c("abrahamson_silva_1996", "AbrahamsonSilva1996")
    ba19 = c("bayless_abrahamson_2019", "BaylessAbrahamson2019")
    pr24 = m("pinilla_ramos_et_al_2024")
    P, LN, SD, F = calls.PERIODS, calls.LN_PSA, calls.LN_STD, calls.FREQS
    cond = np.ma.masked_array(LN + 0.3, [True, False, True, True, False, True])
    mech = dict(mechanism=["SS", "NS", "RS"])
    region = dict(region=[None, "california", "japan", "global"])
    return {
        "BJ08 correlation": (bj.calc_correls, dict(periods=P, period_cond=0.3), {}),
        "CMS": (
            bj.calc_cond_mean_spectrum,
            dict(periods=P, ln_psas=LN, ln_stds=SD, period_cond=0.5, ln_psa_cond=-0.5),
            dict(period_cond=[0.2, 1.0]),
        ),
        "CMSV": (
            ki.calc_cond_mean_spectrum_vector,
            dict(periods=P, ln_psas=LN, ln_stds=SD, ln_psas_cond=cond),
            {},
        ),
        "BA18 corr": (ba18.corr, dict(freqs=F), dict(freqs=[F[:3], F[::-1]])),
        "BA18 cov": (
            ba18.cov,
            dict(freqs=F, component="tau"),
            dict(component=["phi_ss", "phi_s2s", "total"]),
        ),
        "S17 cov": (
            st.cov,
            dict(freqs=F, sigma_E=SD, sigma_S=SD * 0.8, sigma_A=SD * 0.7, mag=6.0),
            dict(freqs=[F[::-1]], mag=[5.0, 7.0]),
        ),
        "S17 cov of freqs": (st.cov, dict(freqs=F, mag=6.0), dict(freqs=[F[:3], F[::-1]])),
        "S17 cor": (st.cor, dict(freqs=F, mag=6.0), dict(freqs=[F[:3], F[::-1]], mag=[5.0, 7.0])),
        "S17 between events": (st.between_event_correlation, dict(f_i=1.0, f_j=3.0, mag=6.0), dict(f_i=[3.0, 0.3], f_j=[1.0])),
        "S17 within events": (st.within_event_correlation, dict(f_i=1.0, f_j=3.0), dict(f_i=[3.0], f_j=[1.0])),
        "S17 between sites": (st.between_site_correlation, dict(f_i=1.0, f_j=3.0), dict(f_i=[3.0], f_j=[1.0])),
        "S17 variances": (st.compute_variances, dict(freqs=F), dict(freqs=[F[:3], F[::-1]])),
        "ASK14 site": (
            ask.calc_site_term,
            dict(resp_ref=np.geomspace(0.5, 0.05, len(ask.PERIODS)), v_s30=300.0, depth_1_0=0.3, region="california"),
            dict(region, depth_1_0=[None]),
        ),
        "BSSA14 site": (bssa.calc_site_term, dict(pga_ref=0.2, v_s30=300.0, depth_1_0=0.3, region="california"), dict(region, depth_1_0=[None])),
        "CB14 site": (cb.calc_site_term, dict(pga_ref=0.2, v_s30=300.0, depth_2_5=0.5, region="california"), dict(region, depth_2_5=[4.0])),
        "CY14 site": (
            cy.calc_site_term,
            dict(resp_ref=np.geomspace(0.5, 0.05, len(cy.PERIODS)), v_s30=300.0, depth_1_0=0.3, region="california"),
            region,
        ),
        "ASK14 width": (ask.calc_width, dict(mag=6.5, dip=60.0), {}),
        "ASK14 depth_tor": (ask.calc_depth_tor, dict(mag=6.5), {}),
        "ASK14 depth_1_0": (ask.calc_depth_1_0, dict(v_s30=400.0, region="california"), region),
        "AS16 depth_1_0": (as16.calc_depth_1_0, dict(v_s30=400.0, region="california"), region),
        "BA19 depth_1_0": (ba19.calc_depth_1_0, dict(v_s30=400.0), {}),
        "CY14 depth_1_0": (cy.calc_depth_1_0, dict(v_s30=400.0, region="california"), region),
        "CY14 depth_tor": (cy.calc_depth_tor, dict(mag=6.5, mechanism="SS"), mech),
        "CB14 depth_2_5": (cb.calc_depth_2_5, dict(v_s30=400.0, region="global", depth_1_0=None), dict(region, depth_1_0=[0.2, 0.0])),
        "CB14 depth_hyp": (cb.calc_depth_hyp, dict(mag=6.5, dip=60.0, depth_tor=2.0, depth_bor=12.0), {}),
        "CB14 width": (cb.calc_width, dict(mag=6.5, dip=60.0, depth_tor=2.0, depth_bot=15.0), {}),
        "CB14 depth_bor": (cb.calc_depth_bor, dict(depth_tor=2.0, dip=60.0, width=10.0), {}),
        "AS96 increments": (as96.calc_ln_dur_incr, dict(nias=np.array([0.1, 0.5, 0.75, 0.95])), {}),
        "PR24 durations": (
            pr24.duration_model,
            dict(mag=np.array([6.0, 6.5, 7.0]), rrup=np.array([80.0, 120.0, 200.0]), vs30=np.array([200.0, 400.0, 800.0]), region="Japan", eq_type="slab", energy=0.5),
            dict(region=["Taiwan", "South America"], eq_type=["interface"], energy=[0.75, 0.95]),
        ),
    }  # fmt: skip


def function_ops(name):
    func, base, alt = functions()[name]
    out = [base]
    for k, v in base.items():
        for w in near(v) + list(alt.get(k, [])):
            out.append(dict(base, **{k: w}))

    def thunk(kwds):
        def run(_ctx):
            given = {
                k: v.copy() if isinstance(v, np.ndarray) else v for k, v in kwds.items()
            }
            got = core.outcome(lambda: func(**given))
            if isinstance(got, core.Raised):
                return ("raised", got.kind)
            got = got if isinstance(got, tuple) else (got,)
            return [np.array(g, float) for g in got]

        return run

    labels = [{k: core.jsonable(v) for k, v in kw.items() if v is not base[k]} for kw in out]
    return labels, [thunk(kw) for kw in out]


# -- Queries of objects -------------------------------------------------------
PTS = [0.03, 0.11, 0.7, 2.2]


def object_scenarios(e):
    """The first scenario and those with a value that is a little different."""
    first = e.scenarios[0]
    out = [first, e.scenarios[1]]
    for p in PARAMS[e.abbrev]:
        v = first.get(p["name"])
        if isinstance(v, float):
            out += [dict(first, **{p["name"]: v * f}) for f in CLOSE[:2]]
    return out


def queries(e):
    """label -> function of the object."""
    out = {}
    if e.kind == "gmm":
        names = ["spec_accels", "ln_stds", "periods"]
        names += [x for k in e.im for x in (k, "ln_std_" + k)]
        for kind in (None, "linear", "nearest", "cubic"):
            for pts in (PTS, [x * 1.001 for x in PTS], PTS[:2], PTS[::-1], 0.11):
                for f in ("interp_spec_accels", "interp_ln_spec_accels", "interp_ln_stds"):
                    if kind in (None, "cubic") or pts is PTS:
                        kw = {} if kind is None else dict(kind=kind)
                        out[f"{f} {kind} {pts}"] = lambda m, f=f, pts=pts, kw=kw: getattr(m, f)(pts, **kw)
    elif e.kind == "fas":
        names = ["eas", "ln_eas", "ln_std", "freqs"]
    elif e.kind == "ratio":
        names = ["ratio", "ln_std"]
        for f in ("interp_ratio", "interp_ln_std"):
            for pts in (PTS, [x * 1.001 for x in PTS], PTS[:2], PTS[::-1]):
                out[f"{f} {pts}"] = lambda m, f=f, pts=pts: getattr(m, f)(pts)
    elif e.kind == "conditional":
        names = ["pgv", "ln_std_pgv"]
    elif e.abbrev == "AS96":
        names = ["duration", "std_err"]
        for pts in ([0.1, 0.5], [0.1, 0.501], [0.5, 0.1], [0.95]):
            for std in (None, [1.0], [-1.0, 1.0]):
                out[f"interp {pts} {std}"] = lambda m, pts=pts, std=std: m.interp(pts, std)
    elif e.abbrev in ("KS06", "AS16"):
        names = ["duration", "std_err"]
    else:
        names = ["duration", "duration_plus_sigma", "duration_minus_sigma"]
        for x in (0.1, 0.5, 0.501, 0.525, 0.74, 0.75, 0.751, 0.95, 0.3):
            out[f"energy {x}"] = lambda m, x=x: m.duration_for_energy(x)
    for n in names:
        out[n] = lambda m, n=n: getattr(m, n)
    return out


def plain(v):
    if isinstance(v, np.ndarray) and v.dtype.names:
        return [np.array([v[n] for n in v.dtype.names], float)]
    return [np.array(v, float)]


def object_ops(i):
    """Queries of two objects, and the construction of similar ones."""
    e = CATALOG[i]
    labels, thunks = [], []
    scen = object_scenarios(e)

    def ask(j, q):
        def run(ctx):
            m = ctx.get((i, j))
            if m is None:
                m = ctx[i, j] = core.outcome(lambda: e.build(scen[j]))
            if isinstance(m, core.Raised):
                return ("raised", m.kind)
            got = core.outcome(lambda: q(m))
            if isinstance(got, core.Raised):
                return ("raised", got.kind)
            return plain(got)

        return run

    qs = queries(e)
    main = next(iter(n for n in ("spec_accels", "eas", "ratio", "pgv", "duration") if n in qs))
    for j in range(len(scen)):
        for n, q in qs.items():
            if j < 1 or n == main or (j == 1 and not n.endswith("]")):
                labels.append([j, n])
                thunks.append(ask(j, q))
    return labels, thunks


def families(thorough):
    out = [("function", n) for n in functions()]
    return out + [("object", i) for i in range(len(CATALOG))]


def ops(fam):
    return function_ops(fam[1]) if fam[0] == "function" else object_ops(fam[1])


def fam_name(fam):
    return fam[1] if fam[0] == "function" else CATALOG[fam[1]].abbrev


def equal(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x == y
    return len(x) == len(y) and all(
        a.shape == b.shape and bool(core.close(a, b, 1e-13, 1e-13).all())
        for a, b in zip(x, y)
    )


def explore_family(args):
    """All histories of the family up to the depth: (states, mismatches)."""
    from .history import in_child

    fam, part, parts, depth = args
    labels, thunks = ops(fam)
    base = [in_child(lambda t=t: t({})) for t in thunks]
    n, bad = 0, []
    first = [k for k in range(len(thunks)) if k % parts == part]

    def walk(ctx, hist, left):
        """Continue a history; each step runs in a fork of its prefix."""
        k, out = 0, []
        for b in range(len(thunks)):

            def branch(b=b):
                got = thunks[b](ctx)
                if not equal(got, base[b]):
                    return 1, [hist + [b]]
                # What was asked first has the same answer afterwards
                a = hist[0]
                if not equal(thunks[a](ctx), base[a]):
                    return 1, [hist + [b, a]]
                if left == 1:
                    return 1, []
                k, o = walk(ctx, hist + [b], left - 1)
                return k + 1, o

            kk, o = in_child(branch)
            k += kk
            out += o
            if len(out) > 3:
                break
        return k, out

    for a in first:

        def start(a=a):
            ctx = {}
            got = thunks[a](ctx)
            if not equal(got, base[a]):
                return 1, [[a]]
            k, o = walk(ctx, [a], depth - 1)
            return k + 1, o

        k, o = in_child(start)
        n += k
        bad += o
        if len(bad) > 3:
            break
    return n, [[labels[x] for x in h] for h in bad]


def explore(rep):
    work = []
    for fam in families(core.thorough()):
        m = len(ops(fam)[0])
        depth = 3 if m <= (24 if core.thorough() else 9) else 2
        work += [(fam, p, 4, depth) for p in range(4)]
    total = 0
    for w, (n, bad) in zip(work, core.pmap(explore_family, work)):
        rep.states += n
        rep.transitions += n
        rep.traces += n
        total += n
        for h in bad[:3]:
            rep.violation(f"C04 {fam_name(w[0])} {core.jsonable(h)}"[:400], what="history of calls")
        if len(rep.violations) > 50:
            rep.exhaustive = False
            break
    rep.extra["histories_of_one_function_or_object"] = total
    rep.extra["functions_and_objects"] = len(families(False))
