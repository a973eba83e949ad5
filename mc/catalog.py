"""Every public model of the library, with scenarios in distinct regimes.

The entries are written from the documentation of the models: `units` and `limits`
are not read from the library.
"""

import importlib

import numpy as np

from . import core

T, F = True, False


class Entry:
    def __init__(self, abbrev, module, cls, kind, scenarios, im=(), n_psa=0):
        self.abbrev = abbrev
        self.module = "pygmm." + module
        self.cls = cls
        self.kind = kind  # gmm, fas, ratio, duration, conditional
        self.scenarios = scenarios
        self.im = im  # intensity measures in addition to PSA
        self.n_psa = n_psa

    def load(self):
        core.import_library()
        return getattr(importlib.import_module(self.module), self.cls)

    def options(self, kwds):
        """Split in parameters of the scenario, and options of the model."""
        opts = {k[1:]: v for k, v in kwds.items() if k.startswith("+")}
        scen = {k: v for k, v in kwds.items() if not k.startswith("+")}
        return scen, opts

    def build(self, kwds):
        pygmm = core.import_library()
        scen, opts = self.options(kwds)
        return self.load()(pygmm.Scenario(**scen), **opts)

    def observe(self, m):
        """All public observations as arrays."""
        out = {}
        if self.kind == "gmm":
            out["spec_accels"] = m.spec_accels
            out["ln_stds"] = m.ln_stds
            out["periods"] = m.periods
            for k in self.im:
                out[k] = getattr(m, k)
                out["ln_std_" + k] = getattr(m, "ln_std_" + k)
            t = INTERP
            out["interp_spec_accels"] = m.interp_spec_accels(t)
            out["interp_ln_stds"] = m.interp_ln_stds(t)
        elif self.kind == "fas":
            for k in ("freqs", "eas", "ln_eas", "ln_std"):
                out[k] = getattr(m, k)
        elif self.kind == "ratio":
            out["ratio"] = m.ratio
            out["ln_std"] = m.ln_std
            out["interp_ratio"] = m.interp_ratio(INTERP)
            out["interp_ln_std"] = m.interp_ln_std(INTERP)
        elif self.kind == "conditional":
            out["pgv"] = m.pgv
            out["ln_std_pgv"] = m.ln_std_pgv
        elif self.abbrev == "AS96":
            out["duration"] = m.duration
            out["std_err"] = m.std_err
            out["interp"] = m.interp([0.1, 0.3, 0.75, 0.95])
            out["interp_std"] = m.interp([0.1, 0.3, 0.75, 0.95], [-1.0, 1.0])
        elif self.abbrev in ("KS06", "AS16"):
            d, s = m.duration, m.std_err
            for k in d.dtype.names:
                out[k] = d[k]
                out["std_err_" + k] = s[k]
        else:
            out["duration"] = m.duration
            out["plus"] = m.duration_plus_sigma
            out["minus"] = m.duration_minus_sigma
            for e in (0.1, 0.5, 0.95):
                out[f"energy_{e}"] = m.duration_for_energy(e)
        return {k: np.array(v, dtype=float) for k, v in out.items()}

    def run(self, kwds):
        return core.outcome(lambda: self.observe(self.build(kwds)))


INTERP = [0.02, 0.033, 0.1, 0.27, 1.0, 1.7, 3.0]

GMM = "gmm"
CATALOG = [
    Entry("C03", "campbell_2003", "Campbell2003", GMM, [
        dict(mag=6.2, dist_rup=35.0),
        dict(mag=7.6, dist_rup=100.0),
        dict(mag=5.4, dist_rup=420.0),
    ], n_psa=16),
    Entry("TP05", "tavakoli_pezeshk_2005", "TavakoliPezeshk05", GMM, [
        dict(mag=6.2, dist_rup=35.0),
        dict(mag=7.6, dist_rup=100.0),
        dict(mag=5.4, dist_rup=420.0),
    ], ("pga",), 13),
    Entry("Pea11", "pezeshk_zandieh_tavakoli_2011", "PezeshkZandiehTavakoli2011", GMM, [
        dict(mag=6.2, dist_rup=35.0),
        dict(mag=7.6, dist_rup=100.0),
        dict(mag=5.4, dist_rup=420.0),
    ], ("pga",), 22),
    Entry("AB06", "atkinson_boore_2006", "AtkinsonBoore2006", GMM, [
        dict(mag=6.2, dist_rup=35.0, v_s30=760.0),
        dict(mag=7.6, dist_rup=5.0, v_s30=250.0),
        dict(mag=5.0, dist_rup=300.0, v_s30=170.0),
    ], ("pga", "pgv", "pgd"), 24),
    Entry("ASB14", "akkar_sandikkaya_bommer_2014", "AkkarSandikkayaBommer2014", GMM, [
        dict(mag=6.2, dist_jb=35.0, v_s30=400.0, mechanism="SS"),
        dict(mag=7.2, dist_hyp=25.0, v_s30=900.0, mechanism="NS"),
        dict(mag=4.6, dist_epi=120.0, v_s30=200.0, mechanism="RS"),
        dict(mag=5.6, dist_jb=12.0, dist_epi=14.0, dist_hyp=16.0, v_s30=750.0, mechanism="RS"),
    ], ("pga", "pgv"), 62),
    Entry("DBC14", "derras_bard_cotton_2014", "DerrasBardCotton2014", GMM, [
        dict(mag=6.2, dist_jb=35.0, v_s30=400.0, depth_hyp=10.0, mechanism="SS"),
        dict(mag=4.6, dist_jb=120.0, v_s30=250.0, depth_hyp=20.0, mechanism="NS"),
        dict(mag=6.8, dist_jb=8.0, v_s30=760.0, depth_hyp=4.0, mechanism="RS"),
    ], ("pga", "pgv"), 62),
    Entry("AGA16", "abrahamson_gregor_addo_2016", "AbrahamsonGregorAddo2016", GMM, [
        dict(mag=8.2, dist_rup=80.0, v_s30=300.0, event_type="interface"),
        dict(mag=7.1, dist_hyp=110.0, depth_hyp=70.0, v_s30=800.0, event_type="intraslab", tectonic_region="backarc"),
        dict(mag=7.1, dist_rup=130.0, v_s30=1200.0, event_type="interface", tectonic_region="backarc"),
        {"mag": 7.9, "dist_rup": 60.0, "v_s30": 500.0, "event_type": "interface", "+adjust_c1": 0.2, "+scale_atten": 1.3},
    ], ("pga",), 22),
    Entry("CB14-PNNL", "coppersmith_bommer_2014", "CoppersmithBommer2014", GMM, [
        dict(mag=8.2, dist_rup=80.0, v_s30=300.0, event_type="interface"),
        dict(mag=7.1, dist_rup=30.0, v_s30=800.0, event_type="intraslab"),
        {"mag": 7.9, "dist_rup": 160.0, "v_s30": 1200.0, "event_type": "interface", "+scale_atten": 0.8},
    ], ("pga",), 14),
    Entry("ASK14", "abrahamson_silva_kamai_2014", "AbrahamsonSilvaKamai2014", GMM, [
        dict(mag=6.5, dist_rup=20.0, dist_jb=16.0, dist_x=18.0, dip=60.0, v_s30=400.0, mechanism="SS"),
        dict(mag=7.2, dist_rup=8.0, dist_jb=3.0, dist_x=6.0, dip=40.0, v_s30=250.0, mechanism="RS", on_hanging_wall=T, region="japan", depth_1_0=0.3, depth_tor=1.0, width=14.0),
        dict(mag=5.3, dist_rup=60.0, dist_jb=58.0, dist_x=50.0, dip=70.0, v_s30=1180.0, mechanism="NS", is_aftershock=T, dist_crjb=8.0, region="taiwan", vs_source="inferred", dist_y0=3.0),
        dict(mag=4.4, dist_rup=90.0, dist_jb=88.0, dist_x=-50.0, dip=90.0, v_s30=620.0, mechanism="RS", region="china"),
    ], ("pga", "pgv"), 22),
    Entry("BSSA14", "boore_stewart_seyhan_atkinson_2014", "BooreStewartSeyhanAtkinson2014", GMM, [
        dict(mag=6.5, dist_jb=16.0, v_s30=400.0),
        dict(mag=7.2, dist_jb=90.0, v_s30=250.0, mechanism="RS", depth_1_0=0.6, region="japan"),
        dict(mag=4.8, dist_jb=160.0, v_s30=900.0, mechanism="NS", region="turkey"),
    ], ("pga", "pgv"), 105),
    Entry("CB14", "campbell_bozorgnia_2014", "CampbellBozorgnia2014", GMM, [
        dict(mag=6.5, dist_rup=20.0, dist_jb=16.0, dist_x=18.0, dip=60.0, v_s30=400.0, mechanism="SS"),
        dict(mag=7.2, dist_rup=8.0, dist_jb=3.0, dist_x=6.0, dip=40.0, v_s30=180.0, mechanism="RS", region="japan", depth_2_5=4.0, depth_tor=1.0, width=14.0, depth_hyp=9.0),
        dict(mag=5.3, dist_rup=120.0, dist_jb=118.0, dist_x=-50.0, dip=70.0, v_s30=1100.0, mechanism="NS", region="china", depth_bot=20.0, depth_bor=16.0),
        dict(mag=4.4, dist_rup=40.0, dist_jb=38.0, dist_x=20.0, dip=30.0, v_s30=620.0, mechanism="RS", depth_1_0=0.2, region="italy"),
    ], ("pga", "pgv"), 21),
    Entry("CY14", "chiou_youngs_2014", "ChiouYoungs2014", GMM, [
        dict(mag=6.5, dist_rup=20.0, dist_jb=16.0, dist_x=18.0, dip=60.0, v_s30=400.0, mechanism="SS"),
        dict(mag=6.3, dist_rup=8.0, dist_jb=3.0, dist_x=6.0, dip=40.0, v_s30=250.0, mechanism="RS", on_hanging_wall=T, region="japan", depth_1_0=0.3, depth_tor=1.0, vs_source="inferred"),
        dict(mag=5.3, dist_rup=120.0, dist_jb=118.0, dist_x=-50.0, dip=70.0, v_s30=1130.0, mechanism="NS", region="china", dpp_centered=0.3),
        dict(mag=7.4, dist_rup=3.0, dist_jb=2.0, dist_x=1.0, dip=80.0, v_s30=620.0, region="italy"),
    ], ("pga", "pgv"), 24),
    Entry("I14", "idriss_2014", "Idriss2014", GMM, [
        dict(mag=6.5, dist_rup=20.0, v_s30=500.0, mechanism="SS"),
        dict(mag=7.5, dist_rup=5.0, v_s30=900.0, mechanism="RS"),
        dict(mag=5.1, dist_rup=140.0, v_s30=1200.0, mechanism="SS"),
    ], ("pga",), 22),
    Entry("BA19", "bayless_abrahamson_2019", "BaylessAbrahamson2019", "fas", [
        dict(mag=6.5, dist_rup=20.0, v_s30=400.0, depth_tor=3.0),
        dict(mag=7.5, dist_rup=5.0, v_s30=220.0, depth_tor=0.0, depth_1_0=0.6, mechanism="NS"),
        dict(mag=4.2, dist_rup=140.0, v_s30=1200.0, depth_tor=12.0, mechanism="RS"),
    ]),
    Entry("GA11", "gulerce_abrahamson_2011", "GulerceAbrahamson2011", "ratio", [
        dict(mag=6.5, dist_rup=20.0, v_s30=500.0, pga_ref=0.2, mechanism="SS"),
        dict(mag=7.5, dist_rup=5.0, v_s30=900.0, pga_ref=0.8, mechanism="RS"),
        dict(mag=5.1, dist_rup=140.0, v_s30=1200.0, pga_ref=0.01, mechanism="NS"),
    ]),
    Entry("AB20", "abrahamson_bhasin_2020", "AbrahamsonBhasin2020", "conditional", [
        {"mag": 6.5, "dist_rup": 20.0, "v_s30": 400.0, "+pga": 0.2},
        {"mag": 4.5, "dist_rup": 90.0, "v_s30": 900.0, "+psa_1s": 0.01},
        {"mag": 7.8, "dist_rup": 4.0, "v_s30": 250.0, "+pga": 0.6},
    ]),
    Entry("AS96", "abrahamson_silva_1996", "AbrahamsonSilva1996", "duration", [
        dict(mag=6.5, dist_rup=20.0, site_cond="soil"),
        dict(mag=7.2, dist_rup=5.0, site_cond="rock"),
        dict(mag=5.0, dist_rup=140.0, site_cond="soil"),
    ]),
    Entry("KS06", "kempton_stewart_2006", "KemptonStewart2006", "duration", [
        dict(mag=6.5, dist_rup=20.0, v_s30=400.0),
        dict(mag=7.2, dist_rup=50.0, v_s30=250.0),
        dict(mag=5.4, dist_rup=140.0, v_s30=700.0),
    ]),
    Entry("AS16", "afshari_stewart_2016", "AfshariStewart2016", "duration", [
        dict(mag=6.5, dist_rup=20.0, v_s30=400.0, mechanism="SS"),
        dict(mag=7.6, dist_rup=5.0, v_s30=250.0, mechanism="RS", depth_1_0=0.6),
        dict(mag=5.0, dist_rup=140.0, v_s30=900.0, mechanism="NS", depth_1_0=0.01),
    ]),
    Entry("PR23", "pinilla_ramos_et_al_2023", "PinillaRamosEtAl2023", "duration", [
        dict(mag=6.5, dist_rup=20.0, v_s30=400.0),
        dict(mag=7.6, dist_rup=150.0, v_s30=220.0),
        dict(mag=5.0, dist_rup=70.0, v_s30=900.0),
    ]),
    Entry("PR24", "pinilla_ramos_et_al_2024", "PinillaRamosEtAl2024", "duration", [
        dict(mag=7.5, dist_rup=90.0, v_s30=400.0, event_type="interface", region="Japan"),
        dict(mag=6.6, dist_rup=150.0, v_s30=220.0, event_type="slab", region="Taiwan"),
        dict(mag=5.2, dist_rup=270.0, v_s30=900.0, event_type="slab", region="South America"),
    ]),
]  # fmt: skip
BY_ABBREV = {e.abbrev: e for e in CATALOG}
