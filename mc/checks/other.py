"""State spaces of the duration, Fourier amplitude, ratio and correlation models."""

import importlib
import warnings
import os
import shutil
import tempfile

import numpy as np

from .. import core
from ..conform import Conformance, builder, gmm_observe
from ..core import Space, around, geo, lin, merge
from ..refs import other as ref
from .gmm import Group


def full(label, alpha, valid=None):
    """Complete product of the alphabets."""
    base = {k: v[len(v) // 2] for k, v in alpha.items()}
    if valid is not None and not valid(base):
        base = {k: v[0] for k, v in alpha.items()}
    return (Space(alpha, alpha, [base], (), valid, label), len(alpha), 0)


# -- GA11 -------------------------------------------------------------------
def ga11_spaces(t):
    n = t + 1
    return [
        full(
            "GA11",
            dict(
                mag=merge(lin(5, 8.5, 9 * n), around(5.0, 6.75, 7.0), [4.6]),
                dist_rup=merge([0.0, 200.0], geo(1, 180, 5 * n)),
                v_s30=merge(
                    [400.0, 450, 600, 810, 1010, 1200, 1600],
                    around(865.1, 700, 503, 862, 1053.5),
                ),
                pga_ref=[0.001, 0.05, 0.4, 1.5, 0.01, 0.2, 0.9, 5.0],
                mechanism=["SS", "NS", "RS"],
            ),
        )
    ]


def ga11_observe(m, kwds):
    per = ref.GA_INTERP
    return dict(
        ratio=m.ratio,
        ln_std=m.ln_std,
        interp_ratio=m.interp_ratio(per),
        interp_ln_std=m.interp_ln_std(per),
    )


GA11 = Conformance(
    "GA11", ga11_spaces, builder("gulerce_abrahamson_2011", "GulerceAbrahamson2011"),
    ga11_observe, ref.ga11,
)  # fmt: skip


# -- Durations --------------------------------------------------------------
def as96_spaces(t):
    n = 3 * t
    return [
        full(
            "AS96",
            dict(
                mag=merge(lin(4, 7.5, 29 * n), around(6.0), [3.5, 8.0]),
                dist_rup=merge([0.0, 5.0], around(10.0), geo(12, 300, 20 * n)),
                site_cond=["soil", "rock"],
            ),
        )
    ]


def as96_observe(m, kwds):
    scalar = m.interp(0.5)
    curve = m.interp(list(ref.AS96_NIAS))
    k = int(np.flatnonzero(ref.AS96_NIAS == 0.5)[0])
    if not core.close(scalar, curve[k]):
        raise ValueError("scalar and array interpolation differ")
    return dict(
        duration=m.duration,
        std_err=m.std_err,
        increments=m.calc_ln_dur_incr(ref.AS96_NIAS),
        interp=curve,
        interp_stds=m.interp(ref.AS96_NIAS, ref.AS96_STDS),
    )


AS96 = Conformance(
    "AS96", as96_spaces, builder("abrahamson_silva_1996", "AbrahamsonSilva1996"),
    as96_observe, ref.as96,
)  # fmt: skip


def rec_observe(*names):
    def observe(m, kwds):
        out = {}
        d, s = m.duration, m.std_err
        for k in names:
            out[k] = d[k]
            out["std_err_" + k] = s[k]
        return out

    return observe


def ks06_spaces(t):
    n = t + 1
    return [
        full(
            "KS06",
            dict(
                mag=merge(lin(5, 7.6, 14 * n), [4.5, 6.0]),
                dist_rup=merge([0.0], lin(2, 200, 12 * n)),
                v_s30=merge(lin(200, 1000, 9 * n), [1200.0]),
            ),
        )
    ]


KS06 = Conformance(
    "KS06", ks06_spaces, builder("kempton_stewart_2006", "KemptonStewart2006"),
    rec_observe("D_5t75a", "D_5t95a", "D_5t75v", "D_5t95v"), ref.ks06,
)  # fmt: skip

DURATION = Group(AS96, KS06)


def as16_spaces(t):
    n = t + 1
    return [
        full(
            "AS16",
            dict(
                mag=merge(
                    lin(3, 7.9, 11 * n), around(5.2, 5.35, 5.5, 5.75, 6.5, 7.0, 7.15, 7.4)
                ),
                dist_rup=merge([0.0, 4.0, 30, 120, 200], around(10.0, 50.0), lin(1, 180, 9 * n)),
                v_s30=merge([200.0, 330, 480, 1000], around(600.0)),
                mechanism=["SS", "NS", "RS", "U"],
                depth_1_0=[None, 0.0, 0.05, 0.3, 0.6, 1.0, 2.0],
            ),
        )
    ]


AS16 = Conformance(
    "AS16", as16_spaces, builder("afshari_stewart_2016", "AfshariStewart2016"),
    rec_observe("D_5t75", "D_5t95", "D_20t80"), ref.as16,
)  # fmt: skip


def raises(func, kind):
    got = core.outcome(func)
    return isinstance(got, core.Raised) and got.kind == kind


def energy_limits(m):
    for e in (0.0, 0.05, 0.0999, 0.951, 1.0, -0.5):
        if not raises(lambda: m.duration_for_energy(e), "ValueError"):
            raise ValueError(f"energy {e} accepted")


def pr23_observe(m, kwds):
    energy_limits(m)
    base = (m.duration, m.duration_plus_sigma, m.duration_minus_sigma)
    if not np.array_equal(m.duration_for_energy(0.75), base, equal_nan=True):
        raise ValueError("D5-75 differs from the default duration")
    return dict(
        duration=base[0],
        plus=base[1],
        minus=np.real_if_close(base[2]),
        energy=np.array([m.duration_for_energy(e) for e in ref.PR23_ENERGY]),
    )


def pr23_spaces(t):
    n = t + 1
    return [
        full(
            "PR23",
            dict(
                mag=merge(lin(4, 8, 8 * n + 1), around(6.75)),
                dist_rup=merge([0.0, 5, 25, 90, 240, 300], around(10.0, 42, 44, 130), lin(1, 290, 10 * t)),
                v_s30=merge([120.0, 150, 240, 450, 1100, 1960], around(200.0, 275, 1900, 2000), geo(180, 1800, 12 * t)),
            ),
        )
    ]  # fmt: skip


PR23 = Conformance(
    "PR23", pr23_spaces, builder("pinilla_ramos_et_al_2023", "PinillaRamosEtAl2023"),
    pr23_observe, ref.pr23,
)  # fmt: skip


def pr24_observe(m, kwds):
    energy_limits(m)
    return dict(
        duration=m.duration,
        plus=m.duration_plus_sigma,
        minus=m.duration_minus_sigma,
        d575_median=m.d575_median,
        d575_sigma=m.d575_sigma,
        d5x_median=[m.d5x_median(k) for k in ref.PR24_NAMES],
        d5x_sigma=[m.d5x_sigma(k) for k in ref.PR24_NAMES],
        energy=np.array([m.duration_for_energy(e) for e in ref.PR24_ENERGY]),
    )


def pr24_valid(s):
    return not (s["event_type"] == "interface" and s["region"] == "Taiwan")


def pr24_spaces(t):
    n = t + 1
    return [
        full(
            "PR24",
            dict(
                mag=merge(lin(4.5, 8.5, 8 * n + 1), around(6.0, 7.0)),
                dist_rup=merge([0.0, 10, 60, 150, 300], around(250.0), lin(1, 290, 8 * t)),
                v_s30=merge([150.0, 300, 760, 2000], geo(180, 1800, 6 * t)),
                event_type=["interface", "slab"],
                region=["Japan", "New Zealand", "South America", "Taiwan"],
            ),
            pr24_valid,
        )
    ]  # fmt: skip


class PR24_(Conformance):
    """Adds invalid events, and the function for arrays."""

    def explore(self, rep):
        super().explore(rep)
        pygmm = core.import_library()
        mod = importlib.import_module("pygmm.pinilla_ramos_et_al_2024")
        n = 0
        for mag in lin(4.5, 8.5, 9):
            for r in (0.0, 100.0, 300.0):
                kwds = dict(mag=mag, dist_rup=r, v_s30=400.0, event_type="interface", region="Taiwan")
                n += 1
                if not raises(lambda: mod.PinillaRamosEtAl2024(pygmm.Scenario(**kwds)), "ValueError"):
                    rep.violation("PR24 interface Taiwan", state=kwds)
        # A fraction without coefficients is announced
        for event in ("interface", "slab"):
            m = mod.PinillaRamosEtAl2024(
                pygmm.Scenario(mag=7.0, dist_rup=80.0, v_s30=400.0, event_type=event, region="Japan")
            )
            for e in ref.PR24_ENERGY:
                n += 1
                with warnings.catch_warnings(record=True) as seen:
                    warnings.simplefilter("always")
                    m.duration_for_energy(e)
                if bool(seen) == (e in ref.ENERGIES):
                    rep.violation(f"PR24 warning {event} {e:g}", seen=len(seen))
        if not core.close(np.asarray(mod.PinillaRamosEtAl2024.ENERGY_THRESHOLDS), ref.ENERGIES).all():
            rep.violation("PR24 fractions")
        # Arrays: every combination of shapes that can be broadcast
        mags, rups, vs = [5.0, 6.5, 8.0], [20.0, 140.0, 280.0], [200.0, 500.0, 1500.0]
        shapes = {
            "scalar": lambda x: x[1],
            "list": lambda x: list(x),
            "one": lambda x: [x[2]],
            "array": lambda x: np.array(x),
            "row": lambda x: np.array(x)[None, :],
            "column": lambda x: np.array(x)[:, None],
        }
        for a in shapes:
            for b in shapes:
                for c in shapes:
                    for event in ("interface", "slab"):
                        for e in (0.1, 0.5, 0.75, 0.95):
                            n += 1
                            args = (shapes[a](mags), shapes[b](rups), shapes[c](vs))
                            got = core.outcome(
                                lambda: mod.duration_model(*args, "Japan", event, e)
                            )
                            M, R, V = np.broadcast_arrays(*(np.atleast_1d(x) for x in args))
                            col = [x.reshape(-1, 1).astype(float) for x in (M, R, V)]
                            k = col[0].shape
                            ev = np.full(k, event, object)
                            med, sig = ref.pr24_core(*col, np.full(k, "Japan", object), ev)
                            exp = ref.pr24_energy(*col, ev, med, sig, e)
                            bad = isinstance(got, core.Raised) or not all(
                                np.shape(g) == M.shape
                                and core.close(np.ravel(g), x.ravel()).all()
                                for g, x in zip(got, exp)
                            )
                            if bad:
                                rep.violation(
                                    f"PR24 duration_model {a} {b} {c} {event} {e}",
                                    got=repr(got)[:400],
                                )
        rep.states += n
        rep.transitions += n
        rep.traces += n


PR24 = PR24_(
    "PR24", pr24_spaces, builder("pinilla_ramos_et_al_2024", "PinillaRamosEtAl2024"),
    pr24_observe, ref.pr24,
)  # fmt: skip


# -- Fourier amplitude spectra ----------------------------------------------
def ba19_spaces(t):
    fine = dict(
        dist_rup=merge([0.0], geo(1, 300, 24)),
        mag=merge(lin(3, 8, 21), around(4.0, 6.0, 3.838)),
        v_s30=merge([150.0, 180, 240, 360, 450, 620, 900, 1300, 1500], around(200.0, 300, 500, 760, 1000)),
        depth_tor=[0.0, 2.0, 8.0, 15, 19.9, 20.0, 25.0],
        depth_1_0=[None, 0.0, 0.01, 0.05, 0.2, 0.6, 1.5, 2.0, 2.5],
        mechanism=[None, "SS", "NS", "RS"],
    )  # fmt: skip
    coarse = dict(
        fine,
        dist_rup=[0.5, 20, 140],
        mag=[3.5, 5.2, 7.3],
        v_s30=[170.0, 260, 420, 700, 900, 1300],
        depth_tor=[1.0, 22.0],
        depth_1_0=[None, 0.02, 0.8, 3.0],
        mechanism=[None, "NS"],
    )
    base = dict(
        dist_rup=25.0, mag=6.4, v_s30=340.0, depth_tor=4.0, depth_1_0=None, mechanism=None
    )
    near = dict(base, dist_rup=2.0, mag=7.2, depth_1_0=0.5, mechanism="NS", v_s30=220.0)
    return [
        (Space(fine, coarse, [base, near], [list(fine)], None, "BA19"), 2 + t, 3 + (t > 1))
    ]


BA19 = Conformance(
    "BA19", ba19_spaces, builder("bayless_abrahamson_2019", "BaylessAbrahamson2019"),
    lambda m, kwds: dict(eas=m.eas, ln_eas=m.ln_eas, ln_std=m.ln_std, freqs=m.freqs),
    ref.ba19,
)  # fmt: skip


class Pairs:
    """All ordered tuples of the frequencies up to a length."""

    def __init__(self, freqs, n, label, **others):
        self.freqs, self.n, self.others = freqs, n, others
        self.label = label
        self.transitions = 0
        self.fine = dict(freqs=freqs, **others)
        self.coarse = {}
        self.products = ()
        self.bases = [{}]

    def states(self, *_):
        import itertools

        names = list(self.others)
        for k in range(1, self.n + 1):
            for combo in itertools.permutations(self.freqs, k):
                for vals in itertools.product(*self.others.values()):
                    self.transitions += 1
                    yield dict(zip(names, vals), freqs=list(combo))


def ba18_spaces(t):
    comp = ["tau", "phi_s2s", "phi_s", "sigma"]
    return [
        (Pairs(geo(0.05, 150, 45 * t), 2, "BA18 pairs", component=comp), 0, 0),
        (
            Pairs([0.1, 0.33, 1.0, 4.7, 5.0, 23.9, 100.0], 3 + t, "BA18", component=comp),
            0,
            0,
        ),
    ]


def ba18_build(kwds):
    core.import_library()
    mod = importlib.import_module("pygmm.bayless_abrahamson_2018")
    return mod.BaylessAbrahamson2018


def ba18_observe(m, s):
    fr = s["freqs"]
    std = [0.3 + 0.1 * i for i in range(len(fr))]
    if not raises(lambda: m.cov(fr), "NotImplementedError"):
        raise ValueError("cov without standard deviation")
    if not core.close(m.corr(np.array(fr)), m.corr(tuple(fr))).all():
        raise ValueError("corr depends on the container")
    one = m.cov(fr, std=0.5)
    if not core.close(one, 0.25 * m.corr(fr)).all():
        raise ValueError("cov with a common standard deviation")
    return dict(
        corr=ref.pad([m.corr(fr)])[0],
        cov=ref.pad([m.cov(fr, component=s["component"])])[0],
        cov_std=ref.pad([m.cov(fr, std=std)])[0],
    )


BA18 = Conformance("BA18", ba18_spaces, ba18_build, ba18_observe, ref.ba18, raw=True)


# -- Stafford (2017) --------------------------------------------------------
def st_build(kwds):
    core.import_library()
    return importlib.import_module("pygmm.stafford_2017").Stafford2017


def st_pair_spaces(t):
    f = merge(geo(0.1, 24, 64 if t > 1 else 36), around(0.25, 4.0, 5.0, 10.0))
    # Beyond the range of the data, and close to each other
    f = merge(f, geo(0.01, 0.1, 5), geo(24, 100, 8), [25.0, 25.01, 0.05, 0.0501, 1.0, 1.001])
    return [full("Stafford pairs", dict(f_i=f, f_j=f, mag=lin(3, 8, 6)))]


def st_pair_observe(m, s):
    fi, fj, mag = s["f_i"], s["f_j"], s["mag"]
    return dict(
        event=m.between_event_correlation(fi, fj, mag),
        site=m.between_site_correlation(fi, fj),
        within=m.within_event_correlation(fi, fj),
        sds=np.ravel(m.compute_variances([fi])),
    )


ST_PAIR = Conformance(
    "Stafford pairs", st_pair_spaces, st_build, st_pair_observe, ref.st_pair, chunk=2000
)


def st_matrix_spaces(t):
    f = [0.12, 0.25, 1.0, 1.02, 4.5, 5.0, 10.5, 24.0]
    return [
        (
            Pairs(f, 4 if t > 1 else 3, "Stafford matrices", mag=[None, 3.5, 6.0, 7.5], own=list(range(8))),
            0,
            0,
        )
    ]


def st_matrix_observe(m, s):
    fr = np.array(s["freqs"])
    kwds = {}
    for k, name in enumerate(("sigma_E", "sigma_S", "sigma_A")):
        if s["own"] >> k & 1:
            kwds[name] = np.array([0.3 + 0.1 * i + 0.2 * k for i in range(len(fr))])
    # Deviations of another length are rejected
    for name in kwds:
        for wrong in (kwds[name][:-1], np.r_[kwds[name], 0.5]):
            for f in (m.cov, m.cor):
                if not raises(lambda: f(fr, **dict(kwds, **{name: wrong})), "ValueError"):
                    raise ValueError(f"{name} of another length")
    if s.get("mag") is not None:
        kwds["mag"] = s["mag"]
    return dict(
        cov=ref.pad([m.cov(fr, **kwds)])[0], cor=ref.pad([m.cor(fr, **kwds)])[0]
    )


ST_MATRIX = Conformance(
    "Stafford", st_matrix_spaces, st_build, st_matrix_observe, ref.st_matrix, raw=True
)
STAFFORD = Group(ST_PAIR, ST_MATRIX)


# -- Conditional spectra ----------------------------------------------------
def bj_build(kwds):
    core.import_library()
    return importlib.import_module("pygmm.baker_jayaram_2008")


BJ08 = Conformance(
    "BJ08 correlation",
    lambda t: [
        full(
            "",
            dict(
                period_cond=merge(
                    geo(0.01, 10, 900 * t), around(0.05, 0.109, 0.2), list(ref.BJ_PERIODS)
                )
            ),
        )
    ],
    bj_build,
    lambda m, s: dict(
        corr=m.calc_correls(ref.BJ_PERIODS, s["period_cond"]),
        scalar=m.calc_correls(float(ref.BJ_PERIODS[37]), s["period_cond"]),
    ),
    ref.bj08,
    raw=True,
    chunk=40,
)  # fmt: skip


def cms_observe(m, s):
    ln, sd = ref.spectrum(s["shape"], ref.CMS_PERIODS)
    tc = s["period_cond"]
    target = np.interp(tc, ref.CMS_PERIODS, ln) + s["epsilon"] * np.interp(
        tc, ref.CMS_PERIODS, sd
    )
    args = [ref.CMS_PERIODS, ln, sd]
    if s["lists"]:
        args = [list(a) for a in args]
    mean, std = m.calc_cond_mean_spectrum(*args, tc, target)
    return dict(mean=mean, sd=std)


CMS = Conformance(
    "CMS",
    lambda t: [
        full(
            "",
            dict(
                period_cond=merge(geo(0.02, 8, 150 * t), list(ref.CMS_PERIODS), [0.109, 0.2]),
                epsilon=lin(-3, 3, 9),
                shape=[0, 1, 2],
                lists=[0, 1],
            ),
        )
    ],
    bj_build,
    cms_observe,
    ref.cms,
    raw=True,
    atol=1e-7,
)  # fmt: skip
CONDITIONAL = Group(BJ08, CMS)


class Subsets:
    """Every choice of the periods that are conditioned upon."""

    fine = coarse = {}
    products = ()
    bases = [{}]

    def __init__(self, sizes):
        self.sizes = sizes
        self.label = "all subsets"
        self.transitions = 0

    def states(self, *_):
        for n in self.sizes:
            for shape in (0, 1, 2):
                for given in range(2**n):
                    self.transitions += 1
                    yield dict(n=n, shape=shape, given=given)


def kishida_observe(m, s):
    per = np.array(ref.KISHIDA_PERIODS[s["n"]])
    ln, sd = ref.spectrum(s["shape"], per)
    n = len(per)
    given = np.array([bool(s["given"] >> i & 1) for i in range(n)])
    eps = np.array([ref.kishida_eps(i) for i in range(n)])
    # Masked entries hold values that must not be used
    hidden = [1e3, np.nan, -np.inf][s["given"] % 3]
    target = np.ma.masked_array(np.where(given, ln + eps * sd, hidden), ~given)
    mean, std = m.calc_cond_mean_spectrum_vector(per, ln, sd, target)
    out = {}
    k = max(ref.KISHIDA_PERIODS)
    for name, v in (("mean", mean), ("sd", std)):
        v = np.ma.getdata(v).astype(float)
        # Round off of the differences of variances
        v = np.where(np.isnan(v), -1.0, v)
        out[name] = np.r_[v, np.zeros(k - n)] if v.shape == (n,) else v
    return out


def kishida_build(kwds):
    core.import_library()
    return importlib.import_module("pygmm.kishida_2017")


KISHIDA = Conformance(
    "CMSV",
    lambda t: [(Subsets([4, 7, 8, 9, 11]), 0, 0)],
    kishida_build,
    kishida_observe,
    ref.kishida,
    raw=True,
    rtol=1e-6,
    atol=1e-6,
    chunk=100,
)


class KishidaOrder:
    """The periods must be increasing: all orders of up to four periods."""

    def explore(self, rep):
        import itertools

        core.import_library()
        m = importlib.import_module("pygmm.kishida_2017")
        vals = [0.05, 0.3, 1.0, 4.0]
        n = 0
        for k in (2, 3, 4):
            for order in itertools.product(vals, repeat=k):
                n += 1
                ok = all(a < b for a, b in zip(order, order[1:]))
                ln = np.linspace(-1, -2, k)
                tgt = np.ma.masked_array(ln + 0.5, [True] + [False] + [True] * (k - 2))
                got = core.outcome(
                    lambda: m.calc_cond_mean_spectrum_vector(
                        list(order), list(ln), [0.6] * k, tgt
                    )
                )
                rejected = isinstance(got, core.Raised) and got.kind == "ValueError"
                if rejected == ok or (isinstance(got, core.Raised) and not rejected):
                    rep.violation(f"CMSV periods {order}", got=repr(got))
        rep.states += n
        rep.transitions += n
        rep.traces += n


CMSV = Group(KISHIDA, KishidaOrder())


# -- AB20 -------------------------------------------------------------------
def ab20_build(kwds):
    pygmm = core.import_library()
    mod = importlib.import_module("pygmm.abrahamson_bhasin_2020")
    scen = pygmm.Scenario(
        mag=kwds["mag"], dist_rup=kwds["dist_rup"], v_s30=kwds["v_s30"]
    )
    return mod.AbrahamsonBhasin2020(scen, **{kwds["measure"]: kwds["value"]})


AB20 = Conformance(
    "AB20",
    lambda t: [
        full(
            "",
            dict(
                mag=merge(lin(3, 8, 30 * t + 1), around(5.0, 7.0, 7.5)),
                dist_rup=merge([0.0], geo(1, 300, 20 * t)),
                v_s30=[180.0, 300, 425, 760, 1500],
                measure=["pga", "psa_1s"],
                value=[0.001, 0.02, 0.3, 1.0, 2.0],
            ),
        )
    ],
    ab20_build,
    lambda m, s: dict(
        pgv=m.pgv, ln_std_pgv=m.ln_std_pgv, ln_period=m.ln_period_pgv(s["mag"])
    ),
    ref.ab20,
    chunk=1000,
)


# -- HKR14 ------------------------------------------------------------------
HKR_SPACE = dict(
    mag=[3.8, 4.0, 4.6, 5.0, 5.5, 6.1, 6.5, 7.0, 7.8],
    depth_hyp=[None, 0.0, 5.0, 11.0, 14.0, 20.0, 33.0],
    dist_jb=[0.0, 3.0, 15.0, 30.0, 70.0, 130.0, 190.0],
    v_s30=[120.0, 200.0, 300.0, 420.0, 700.0, 900.0, 1100.0, 1180.0],
    mechanism=["SS", "NS", "RS"],
)
HKR14 = Conformance(
    "HKR14",
    lambda t: [full("", HKR_SPACE)],
    builder("hermkes_kuehn_riggelsen_2014", "HermkesKuehnRiggelsen2014"),
    gmm_observe,
    ref.hkr14,
)


def hkr14(rep):
    """The published training set is not in the repository: run the package from a
    scratch copy that holds a synthetic one."""
    scratch = tempfile.mkdtemp(prefix="pygmm-hkr-")
    try:
        dst = os.path.join(scratch, "src", "pygmm")
        shutil.copytree(
            os.path.join(core.REPO, "src", "pygmm"),
            dst,
            ignore=shutil.ignore_patterns("__pycache__"),
        )
        ev, pr = ref.hkr_events()
        np.savez(
            os.path.join(dst, "data", "hermkes_kuehn_riggelsen_2014.npz"),
            events=ev,
            predictions=pr,
        )
        core.REPO = scratch
        HKR14.explore(rep)
    finally:
        shutil.rmtree(scratch)
