"""Public functions of the library that take arrays, with their arguments.

`arrays` names the arguments that may be given as any array_like; `fixed` are
the other arguments.
"""

import importlib

import numpy as np

from . import core


class Call:
    def __init__(self, name, func, arrays, fixed=None):
        self.name = name
        self.func = func  # callable(**kwds) -> array or tuple of arrays
        self.arrays = arrays
        self.fixed = fixed or {}

    def run(self, arrays):
        out = self.func(**arrays, **self.fixed)
        return out if isinstance(out, tuple) else (out,)


def resized(call, n):
    """The arrays of a call with another number of elements."""
    out = {}
    for k, v in call.arrays.items():
        x = np.linspace(0, 1, len(v))
        out[k] = np.interp(np.linspace(0, 1, n), x, np.asarray(v, float))
    return out


def _mod(name):
    core.import_library()
    return importlib.import_module("pygmm." + name)


def _cls(mod, cls):
    return getattr(_mod(mod), cls)


SCEN = dict(
    BSSA14=dict(mag=6.5, dist_jb=16.0, v_s30=400.0),
    AS96=dict(mag=6.5, dist_rup=20.0, site_cond="soil"),
    GA11=dict(mag=6.5, dist_rup=20.0, v_s30=500.0, pga_ref=0.2, mechanism="SS"),
    AGA16=dict(mag=8.2, dist_rup=80.0, v_s30=300.0, event_type="interface"),
)

PERIODS = np.array([0.05, 0.1, 0.2, 0.5, 1.0, 2.0])
LN_PSA = np.log(np.array([0.2, 0.35, 0.5, 0.4, 0.2, 0.08]))
LN_STD = np.array([0.6, 0.62, 0.63, 0.66, 0.7, 0.73])
FREQS = np.array([0.2, 0.5, 1.0, 3.0, 10.0, 20.0])


def calls():
    pygmm = core.import_library()
    S = pygmm.Scenario
    bj, ki = _mod("baker_jayaram_2008"), _mod("kishida_2017")
    ba18 = _cls("bayless_abrahamson_2018", "BaylessAbrahamson2018")
    st = _cls("stafford_2017", "Stafford2017")
    ask = _cls("abrahamson_silva_kamai_2014", "AbrahamsonSilvaKamai2014")
    cy = _cls("chiou_youngs_2014", "ChiouYoungs2014")
    pr24 = _mod("pinilla_ramos_et_al_2024")
    as96 = _cls("abrahamson_silva_1996", "AbrahamsonSilva1996")
    aga = _cls("abrahamson_gregor_addo_2016", "AbrahamsonGregorAddo2016")
    bssa = _cls("boore_stewart_seyhan_atkinson_2014", "BooreStewartSeyhanAtkinson2014")
    ga = _cls("gulerce_abrahamson_2011", "GulerceAbrahamson2011")

    def cmsv(periods, ln_psas, ln_stds, ln_psas_cond):
        return ki.calc_cond_mean_spectrum_vector(
            periods, ln_psas, ln_stds, ln_psas_cond
        )

    masked = np.ma.masked_array(
        LN_PSA + 0.3, [True, False, True, True, False, True]
    )
    out = [
        Call("BJ08 correlation", bj.calc_correls, dict(periods=PERIODS), dict(period_cond=0.3)),
        Call(
            "BJ08 conditional spectrum",
            bj.calc_cond_mean_spectrum,
            dict(periods=PERIODS, ln_psas=LN_PSA, ln_stds=LN_STD),
            dict(period_cond=0.5, ln_psa_cond=-0.5),
        ),
        Call(
            "K17 conditional spectrum",
            lambda periods, ln_psas, ln_stds: cmsv(periods, ln_psas, ln_stds, masked.copy()),
            dict(periods=PERIODS, ln_psas=LN_PSA, ln_stds=LN_STD),
        ),
        Call("BA18 correlation", ba18.corr, dict(freqs=FREQS)),
        Call("BA18 covariance", lambda freqs: ba18.cov(freqs, component="tau"), dict(freqs=FREQS)),
        Call("BA18 covariance of std", lambda freqs, std: ba18.cov(freqs, std=std), dict(freqs=FREQS, std=LN_STD)),
        Call("S17 variances", st.compute_variances, dict(freqs=FREQS)),
        Call("S17 covariance", st.cov, dict(freqs=FREQS), dict(mag=6.7)),
        Call("S17 correlation", st.cor, dict(freqs=FREQS)),
        Call(
            "S17 covariance of std",
            st.cov,
            dict(freqs=FREQS, sigma_E=LN_STD, sigma_S=LN_STD * 0.8, sigma_A=LN_STD * 0.7),
        ),
        Call("S17 correlation of std", st.cor,
             dict(freqs=FREQS, sigma_E=LN_STD, sigma_S=LN_STD * 0.8, sigma_A=LN_STD * 0.7)),
        Call("ASK14 site term", ask.calc_site_term,
             dict(resp_ref=np.geomspace(0.5, 0.05, len(ask.PERIODS))),
             dict(v_s30=300.0, depth_1_0=0.3)),
        Call("CY14 site term", cy.calc_site_term,
             dict(resp_ref=np.geomspace(0.5, 0.05, len(cy.PERIODS))),
             dict(v_s30=300.0, depth_1_0=0.3, region="california")),
        Call("PR24 durations", lambda **k: pr24.duration_model(**k, region="Japan", eq_type="slab", energy=0.5),
             dict(mag=np.array([6.0, 6.5, 7.0]), rrup=np.array([80.0, 120.0, 200.0]), vs30=np.array([200.0, 400.0, 800.0]))),
        Call("AS96 increments", as96.calc_ln_dur_incr, dict(nias=np.array([0.05, 0.1, 0.5, 0.95, 0.99]))),
        Call("AS96 interpolation", lambda nias: as96(S(**SCEN["AS96"])).interp(nias),
             dict(nias=np.array([0.05, 0.1, 0.5, 0.95, 0.99]))),
        Call("AS96 interpolation with std", lambda nias, stds: as96(S(**SCEN["AS96"])).interp(nias, stds),
             dict(nias=np.array([0.05, 0.1, 0.5, 0.95, 0.99]), stds=np.array([-1.0, 1.0, 2.0]))),
        Call("AGA16 adjusted",
             lambda adjust_c1: aga(S(**SCEN["AGA16"]), adjust_c1=adjust_c1).spec_accels,
             dict(adjust_c1=np.linspace(-0.2, 0.3, len(aga.PERIODS)))),
        Call("GA11 ratios", lambda periods: ga(S(**SCEN["GA11"])).interp_ratio(periods), dict(periods=PERIODS)),
        Call("GA11 std", lambda periods: ga(S(**SCEN["GA11"])).interp_ln_std(periods), dict(periods=PERIODS)),
    ]  # fmt: skip
    for kind in ("linear", "nearest", "zero", "slinear", "quadratic", "cubic"):
        for what in ("interp_spec_accels", "interp_ln_spec_accels", "interp_ln_stds"):
            out.append(
                Call(
                    f"GMM {what} {kind}",
                    lambda periods, kind=kind, what=what: getattr(
                        bssa(S(**SCEN["BSSA14"])), what
                    )(periods, kind),
                    dict(periods=PERIODS),
                )
            )
    return out


def neutral():
    """Calls of which the result equals an argument, or does not depend on it."""
    pygmm = core.import_library()
    bj, ki = _mod("baker_jayaram_2008"), _mod("kishida_2017")
    as96 = _cls("abrahamson_silva_1996", "AbrahamsonSilva1996")
    aga = _cls("abrahamson_gregor_addo_2016", "AbrahamsonGregorAddo2016")
    ask = _cls("abrahamson_silva_kamai_2014", "AbrahamsonSilvaKamai2014")
    cy = _cls("chiou_youngs_2014", "ChiouYoungs2014")
    S = pygmm.Scenario
    three = dict(periods=PERIODS, ln_psas=LN_PSA, ln_stds=LN_STD)

    def cmsv(mask):
        return lambda periods, ln_psas, ln_stds: ki.calc_cond_mean_spectrum_vector(
            periods, ln_psas, ln_stds, np.ma.masked_array(LN_PSA.copy(), mask)
        )

    none = np.zeros(len(PERIODS), bool)
    return [
        Call("BJ08 spectrum of the median", bj.calc_cond_mean_spectrum, three,
             dict(period_cond=0.5, ln_psa_cond=float(LN_PSA[3]))),
        Call("BJ08 spectrum without deviations", bj.calc_cond_mean_spectrum,
             dict(three, ln_stds=np.r_[0.0, 0.0, 0.0, 0.6, 0.0, 0.0]),
             dict(period_cond=0.5, ln_psa_cond=-0.5)),
        Call("BJ08 correlation with itself", bj.calc_correls, dict(periods=np.ones(5)), dict(period_cond=1.0)),
        Call("K17 median of all periods", cmsv(none), three),
        Call("K17 median of one period", cmsv(np.arange(len(PERIODS)) != 2), three),
        Call("AS96 median", lambda nias, stds: as96(S(**SCEN["AS96"])).interp(nias, stds),
             dict(nias=np.array([0.1, 0.5, 0.95]), stds=np.zeros(2))),
        Call("AGA16 without adjustment", lambda adjust_c1: aga(S(**SCEN["AGA16"]), adjust_c1=adjust_c1).spec_accels,
             dict(adjust_c1=np.zeros(len(aga.PERIODS)))),
        Call("AGA16 adjustments", lambda adjust_c1: aga(S(**SCEN["AGA16"]), adjust_c1=adjust_c1).adjust_c1 + 0,
             dict(adjust_c1=np.zeros(len(aga.PERIODS)))),
        Call("ASK14 site term of rock", ask.calc_site_term,
             dict(resp_ref=np.ones(len(ask.PERIODS))), dict(v_s30=1180.0, depth_1_0=None)),
        Call("CY14 site term of rock", cy.calc_site_term,
             dict(resp_ref=np.ones(len(cy.PERIODS))),
             dict(v_s30=1130.0, depth_1_0=float(cy.calc_depth_1_0(1130.0, "california")), region="california")),
    ]  # fmt: skip
