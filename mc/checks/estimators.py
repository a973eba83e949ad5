"""Public estimators of missing scenario values, and public site terms."""

import importlib

import numpy as np

from .. import core
from ..conform import Conformance
from ..core import around, geo, lin, merge
from ..refs import nga, other
from .gmm import Group
from .other import full


def cls_builder(module, cls):
    def build(kwds):
        core.import_library()
        return getattr(importlib.import_module("pygmm." + module), cls)

    return build


ASK = cls_builder("abrahamson_silva_kamai_2014", "AbrahamsonSilvaKamai2014")
BSSA = cls_builder("boore_stewart_seyhan_atkinson_2014", "BooreStewartSeyhanAtkinson2014")
CB = cls_builder("campbell_bozorgnia_2014", "CampbellBozorgnia2014")
CY = cls_builder("chiou_youngs_2014", "ChiouYoungs2014")
AS16 = cls_builder("afshari_stewart_2016", "AfshariStewart2016")
BA19 = cls_builder("bayless_abrahamson_2019", "BaylessAbrahamson2019")

REGIONS = [None, "global", "california", "china", "italy", "japan", "taiwan"]


def v_s(t):
    return merge(geo(100, 2000, 120 * t), around(360.0, 760, 1100, 1130, 1180, 1360))


# -- Basin depths -----------------------------------------------------------
def depth_build(kwds):
    return dict(
        ask14=ASK(kwds), cy14=CY(kwds), as16=AS16(kwds), ba19=BA19(kwds), cb14=CB(kwds)
    )


def depth_observe(m, s):
    v, r = s["v_s30"], s.get("region")
    return dict(
        ask14=m["ask14"].calc_depth_1_0(v, r),
        cy14=m["cy14"].calc_depth_1_0(v, r),
        as16=m["as16"].calc_depth_1_0(v, r),
        ba19=m["ba19"].calc_depth_1_0(v),
        cb14=m["cb14"].calc_depth_2_5(v, r),
        ask14_default=m["ask14"].calc_depth_1_0(v),
        as16_default=m["as16"].calc_depth_1_0(v),
        cb14_default=m["cb14"].calc_depth_2_5(v),
    )


def depth_ref(b, states):
    v = b["v_s30"]
    jp = np.array([[s["region"] == "japan"] for s in states])
    no = np.zeros_like(jp)
    return {
        k: x[:, 0]
        for k, x in dict(
            ask14=nga.ask14_depth_1_0(v, jp),
            cy14=nga.cy14_depth_1_0(v, jp),
            as16=nga.cy14_depth_1_0(v, jp),
            ba19=nga.ask14_depth_1_0(v, no),
            cb14=nga.cb14_depth_2_5(v, jp),
            ask14_default=nga.ask14_depth_1_0(v, no),
            as16_default=nga.cy14_depth_1_0(v, no),
            cb14_default=nga.cb14_depth_2_5(v, no),
        ).items()
    }


DEPTH = Conformance(
    "basin depth",
    lambda t: [full("", dict(v_s30=v_s(t), region=REGIONS))],
    depth_build,
    depth_observe,
    depth_ref,
)

Z25 = Conformance(
    "Z2.5 of Z1.0",
    lambda t: [full("", dict(depth_1_0=geo(0.005, 5, 90), region=REGIONS))],
    CB,
    lambda m, s: dict(z=m.calc_depth_2_5(None, s.get("region"), s["depth_1_0"])),
    lambda b, states: dict(
        z=np.array(
            [
                np.exp(0.408 - 1.745 * np.log(s["depth_1_0"]))
                if s["region"] == "japan"
                else np.exp(1.392 - 1.798 * np.log(s["depth_1_0"]))
                for s in states
            ]
        )
    ),
)


# -- Rupture geometry -------------------------------------------------------
def rup_observe(m, s):
    mag, dip, tor, bot = s["mag"], s["dip"], s["depth_tor"], s["depth_bot"]
    w = m["cb14"].calc_width(mag, dip, tor, bot)
    bor = m["cb14"].calc_depth_bor(tor, dip, w)
    return dict(
        ask14_width=m["ask14"].calc_width(mag, dip),
        ask14_tor=m["ask14"].calc_depth_tor(mag),
        cy14_rs=m["cy14"].calc_depth_tor(mag, "RS"),
        cy14_ss=m["cy14"].calc_depth_tor(mag, "SS"),
        cy14_ns=m["cy14"].calc_depth_tor(mag, "NS"),
        cy14_u=m["cy14"].calc_depth_tor(mag, "U"),
        cb14_width=w,
        cb14_bor=bor,
        cb14_hyp=m["cb14"].calc_depth_hyp(mag, dip, tor, bor),
    )


def rup_ref(b, states):
    M, dip, tor, bot = (b[k] for k in ("mag", "dip", "depth_tor", "depth_bot"))
    w = nga.cb14_width(M, dip, tor, bot)
    bor = tor + w * np.sin(np.radians(dip))
    ss = nga.cy14_depth_tor(M, False)
    out = dict(
        ask14_width=nga.ask14_width(M, dip),
        ask14_tor=nga.ask14_depth_tor(M),
        cy14_rs=nga.cy14_depth_tor(M, True),
        cy14_ss=ss,
        cy14_ns=ss,
        cy14_u=ss,
        cb14_width=w,
        cb14_bor=bor,
        cb14_hyp=nga.cb14_depth_hyp(M, dip, tor, bor),
    )
    return {k: v[:, 0] for k, v in out.items()}


RUPTURE = Conformance(
    "rupture",
    lambda t: [
        full(
            "",
            dict(
                mag=merge(lin(3, 9, 60 * t), around(4.97, 5.0, 5.849, 6.75, 7.2)),
                dip=merge([10.0, 25, 55, 75, 90], around(40.0), lin(5, 90, 18 * t)),
                depth_tor=[0.0, 1.0, 4.0, 9.0],
                depth_bot=[11.0, 15.0, 25.0],
            ),
        )
    ],
    depth_build,
    rup_observe,
    rup_ref,
    far=lambda s: s["depth_tor"] < s["depth_bot"],
)


# -- Site terms -------------------------------------------------------------
PGA_REF = [0.0005, 0.01, 0.08, 0.3, 0.9, 2.0]


def site_space(vref, depths, regions):
    return lambda t: [
        full(
            "",
            dict(
                ref=PGA_REF + [0.002, 0.03, 0.15, 0.5, 1.4],
                v_s30=merge(v_s(t), around(150.0, 200, 250, 400, 700), [vref]),
                depth=depths,
                region=regions,
            ),
        )
    ]


def is_japan(states):
    return np.array([[s["region"] == "japan"] for s in states])


def ask_site(b, states):
    jp = is_japan(states)
    z = np.where(b["v_s30"] == 1180.0, np.nan, b["depth"])
    return dict(site=nga.ask14_site(b["ref"], b["v_s30"], z, jp))


SITE_ASK = Conformance(
    "ASK14 site",
    site_space(1180.0, [None, 0.0, 0.02, 0.2, 1.0, 3.0], [None, "california", "japan"]),
    ASK,
    lambda m, s: dict(
        site=m.calc_site_term(s["ref"], s["v_s30"], s.get("depth"), s.get("region"))
    ),
    ask_site,
)
SITE_BSSA = Conformance(
    "BSSA14 site",
    site_space(760.0, [None, 0.0, 0.02, 0.2, 1.0, 3.0], [None, "california", "japan"]),
    BSSA,
    lambda m, s: dict(
        site=m.calc_site_term(s["ref"], s["v_s30"], s.get("depth"), s.get("region"))
    ),
    lambda b, states: dict(
        site=nga.bssa14_site(b["ref"], b["v_s30"], b["depth"], is_japan(states))
    ),
)
SITE_CB = Conformance(
    "CB14 site",
    site_space(1100.0, [0.0, 0.4, 1.0, 2.0, 3.0, 5.0, 9.0], [None, "california", "japan", "italy", "china"]),
    CB,
    lambda m, s: dict(
        site=m.calc_site_term(s["ref"], s["v_s30"], s["depth"], s.get("region"))
    ),
    lambda b, states: dict(
        site=nga.cb14_site(b["ref"], b["v_s30"], b["depth"], is_japan(states))
    ),
)  # fmt: skip
SITE_CY = Conformance(
    "CY14 site",
    site_space(1130.0, [0.0, 0.02, 0.2, 1.0, 3.0], [None, "california", "japan", "china"]),
    CY,
    lambda m, s: dict(
        site=m.calc_site_term(s["ref"], s["v_s30"], s["depth"], s.get("region"))
    ),
    lambda b, states: dict(
        site=nga.cy14_site(b["ref"], b["v_s30"], b["depth"], is_japan(states))
    ),
)

ESTIMATORS = Group(DEPTH, Z25, RUPTURE)
SITE_TERMS = Group(SITE_ASK, SITE_BSSA, SITE_CB, SITE_CY)
