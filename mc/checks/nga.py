"""State spaces of the NGA-West2 models."""

import numpy as np

from ..conform import Conformance, builder, gmm_observe
from ..core import Space, around, geo, lin, merge, regimes
from ..refs import nga as ref

T, F = True, False


def ask14_spaces(level):
    thorough = level > 1
    mag = merge(
        lin(3.0, 8.5, 23), [2.5, 4.0, 5.0, 6.0, 7.0, 9.0], around(5.0, 5.5, 6.5, 6.75), [7.2]
    )
    coarse_mag = [3.5, 4.6, 5.3, 5.9, 6.6, 7.1, 8.2]
    vs = merge(
        [120.0, 150, 165, 180, 200, 250, 300, 350, 400, 450, 520, 600, 660, 700, 760],
        [850, 900, 1000, 1100, 1150, 1179.9, 1180, 1250, 1400, 1500, 1700],
    )
    rup = merge([0.0, 0.5, 1, 3, 5, 10, 20, 30, 45, 60, 80, 100, 150, 200, 300, 400])
    fine = dict(
        mag=mag,
        dist_rup=rup,
        dist_jb=[0.0, 1, 5, 15, 29.9, 30, 31, 60, 150, 300],
        dist_x=[None, 0.0, 0.5, 2, 4, 8, 15, 25, 40, 80, -5.0, -30.0],
        dist_y0=[None, 0.0, 1, 3, 5, 8, 20],
        v_s30=vs,
        depth_1_0=[None, 0.0, 0.005, 0.05, 0.2, 0.5, 1.0, 3.0],
        depth_tor=[None, 0.0, 1, 5, 9.9, 10, 15, 20, 25],
        dip=[10.0, 29, 30, 31, 45, 60, 75, 89, 90],
        width=[None, 2.0, 8, 15, 30],
        dist_crjb=[None, 0.0, 3, 5, 8, 12, 15, 20],
        mechanism=["SS", "NS", "RS"],
        region=[None, "global", "california", "china", "italy", "japan", "taiwan"],
        vs_source=[None, "measured", "inferred"],
        is_aftershock=[None, F, T],
        on_hanging_wall=[None, F, T],
    )
    coarse = dict(
        fine,
        mag=coarse_mag,
        dist_rup=[0.5, 12.0, 55, 180],
        dist_jb=[0.0, 12, 50],
        dist_x=[None, 3.0, 12, 30],
        dist_y0=[None, 0.5, 4.0],
        v_s30=[170.0, 330, 640, 1050, 1180, 1600],
        depth_1_0=[None, 0.03, 0.8],
        depth_tor=[None, 2.0, 12],
        dip=[20.0, 50, 90],
        width=[None, 12.0],
        dist_crjb=[None, 2.0, 9],
        region=[None, "california", "china", "italy", "japan", "taiwan"],
        vs_source=[None, "inferred"],
        is_aftershock=[None, T],
        on_hanging_wall=[None, T],
    )
    base = dict(
        mag=6.7, dist_rup=15.0, dist_jb=9.0, dist_x=11.0, dist_y0=None, v_s30=420.0,
        depth_1_0=None, depth_tor=None, dip=47.0, width=None, dist_crjb=None,
        mechanism="RS", region=None, vs_source=None, is_aftershock=None,
        on_hanging_wall=None,
    )  # fmt: skip
    hw = dict(
        base, mag=5.8, on_hanging_wall=T, dist_y0=2.0, depth_1_0=0.3, depth_tor=3.0,
        width=14.0, region="japan", vs_source="inferred", is_aftershock=T,
        dist_crjb=7.0, mechanism="NS", v_s30=270.0, dist_rup=40.0,
    )  # fmt: skip
    tw = dict(base, mag=7.6, region="taiwan", on_hanging_wall=T, v_s30=900.0, dist_x=5.0)

    def valid(s):
        if s["on_hanging_wall"] and (s["dist_x"] is None or s["dist_x"] < 0):
            return False
        return True

    groups = [
        ["on_hanging_wall", "mag", "dist_x", "dip", "depth_tor", "dist_y0", "dist_jb"],
        ["on_hanging_wall", "mag", "dist_x", "dip", "width", "dist_y0"],
        ["region", "v_s30", "dist_rup", "depth_1_0", "mag"],
        ["region", "vs_source", "mag", "dist_rup", "v_s30"],
        ["mechanism", "region", "is_aftershock", "on_hanging_wall", "vs_source"],
        ["is_aftershock", "dist_crjb", "mag", "mechanism", "region"],
    ]
    cats = [
        "mag", "region", "mechanism", "on_hanging_wall", "is_aftershock", "vs_source",
        "dip", "depth_tor", "dist_y0", "depth_1_0", "width",
    ]  # fmt: skip
    if thorough:
        cats += ["v_s30", "dist_rup", "dist_x", "dist_jb", "dist_crjb"]
    # On the hanging wall, dist_x is given
    starts = regimes([base, hw, tw], dict(coarse, dist_x=[3.0, 12, 30]), cats, valid)
    return [
        (Space(fine, coarse, [base, hw, tw], groups, valid), 2, 3),
        (Space(fine, coarse, starts, (), valid, "regimes"), 2, 3 if thorough else 1),
    ]


ASK14 = Conformance(
    "ASK14",
    ask14_spaces,
    builder("abrahamson_silva_kamai_2014", "AbrahamsonSilvaKamai2014"),
    gmm_observe,
    ref.ask14,
)


# --------------------------------------------------------------------------
def bssa14_spaces(level):
    thorough = level > 1
    fine = dict(
        mag=merge(
            lin(3.0, 8.5, 23), [2.5, 9.0], around(4.5, 5.5, 5.7, 6.0, 6.2), [5.45, 5.95]
        ),
        dist_jb=merge(
            [0.0, 0.05, 0.1, 0.5, 1, 2, 5, 10, 20, 40, 70, 79, 81, 90, 100, 105],
            [110, 116, 130, 150, 200, 250, 272, 290, 300, 350, 450],
        ),
        v_s30=merge(
            [100.0, 150, 180, 200, 215, 225, 240, 260, 275, 300, 305, 350, 400, 450],
            [500, 600, 700, 760, 800, 925, 1000, 1100, 1200, 1300, 1450, 1500, 2000],
        ),
        depth_1_0=merge([None, 0.0, 0.005, 0.02, 0.05, 0.1, 0.2], lin(0.3, 1.5, 7), [3.0]),
        mechanism=[None, "U", "SS", "NS", "RS"],
        region=[
            None, "global", "california", "china", "italy", "japan", "new_zealand",
            "taiwan", "turkey",
        ],
    )  # fmt: skip
    coarse = dict(
        fine,
        mag=[3.4, 4.7, 5.2, 5.6, 6.1, 6.9, 7.8],
        dist_jb=[0.05, 4, 35, 95, 200, 380],
        v_s30=[160.0, 235, 280, 420, 800, 1250, 1600],
        depth_1_0=[None, 0.01, 0.25, 1.2],
    )
    base = dict(
        mag=6.4, dist_jb=22.0, v_s30=365.0, depth_1_0=None, mechanism="SS", region=None
    )
    jp = dict(base, mag=4.8, depth_1_0=0.6, region="japan", mechanism="RS", dist_jb=120.0)
    starts = regimes([base, jp], coarse, list(fine))
    return [
        (
            Space(
                fine,
                coarse,
                [base, jp],
                [["mag", "dist_jb", "v_s30", "depth_1_0", "mechanism", "region"]],
            ),
            2,
            4,
        ),
        (Space(fine, coarse, starts, (), None, "regimes"), 3 if thorough else 2, 1),
    ]


BSSA14 = Conformance(
    "BSSA14",
    bssa14_spaces,
    builder("boore_stewart_seyhan_atkinson_2014", "BooreStewartSeyhanAtkinson2014"),
    gmm_observe,
    ref.bssa14,
)


# --------------------------------------------------------------------------
def cb14_defined(s):
    """Whether there is a rupture plane."""
    b = {
        k: np.array([[np.nan if v is None else v]], object if isinstance(v, str) else float)
        for k, v in s.items()
    }
    b["region"] = np.array([[s["region"] or ""]], object)
    b["mechanism"] = np.array([[s["mechanism"]]], object)
    _, _, _, ztor, W, zbor, _ = (a if a is None else a for a in ref.cb14_resolve(b))
    ztor, W, zbor = float(ztor[0, 0]), float(W[0, 0]), float(zbor[0, 0])
    if W <= 0:
        return False  # no rupture plane
    if s["depth_hyp"] is None and zbor - ztor <= 0:
        return False  # no rupture plane
    r1 = W * np.cos(np.radians(s["dip"]))
    # Equation is singular where both limits coincide
    return bool(abs(62 * s["mag"] - 350 - r1) > 1e-3)


def cb14_spaces(level):
    thorough = level > 1
    fine = dict(
        depth_1_0=[None, 0.0, 0.3, 1.0],
        depth_2_5=merge([None, 0.0, 0.1, 0.4, 0.8, 1.0, 1.2, 2, 3, 3.2, 5, 8, 12]),
        depth_bor=[None, 4.0, 9, 14, 20],
        depth_bot=[None, 10.0, 15, 20, 30],
        depth_hyp=[None, 0.0, 4, 7, 9, 14, 20, 25],
        depth_tor=[None, 0.0, 1, 4, 9, 16.66, 17, 22],
        dip=[10.0, 20, 30, 39, 40, 41, 60, 80, 90],
        dist_jb=[0.0, 1, 6, 12, 30, 90],
        dist_rup=merge(
            [0.0, 0.5, 2, 5, 10, 15, 25, 40, 60, 79, 80, 81, 100, 150, 200, 250, 300, 400]
        ),
        dist_x=[-40.0, -3, 0, 1, 4, 7, 11, 16, 25, 45, 80, 150],
        mag=merge(lin(3.3, 8.5, 27), around(4.5, 5.5, 6.5), [6.75, 3.0, 9.0]),
        v_s30=merge(
            [120.0, 150, 180, 199, 200, 201, 250, 300, 350, 400, 410, 450, 500, 550],
            [600, 650, 700, 800, 865, 900, 1000, 1080, 1100, 1200, 1500, 1800],
        ),
        width=[None, 3.0, 9, 18, 40],
        region=[None, "global", "california", "japan", "italy", "china"],
        mechanism=["SS", "NS", "RS"],
    )
    coarse = dict(
        fine,
        depth_1_0=[None, 0.5],
        depth_2_5=[None, 0.6, 2.0, 5.0],
        depth_bor=[None, 13.0],
        depth_bot=[None, 22.0],
        depth_hyp=[None, 5.0, 11.0, 24.0],
        depth_tor=[None, 3.0, 18.0],
        dip=[25.0, 55, 90],
        dist_jb=[0.0, 8],
        dist_rup=[0.0, 9, 60, 140],
        dist_x=[-5.0, 3, 20, 70],
        mag=[4.2, 4.9, 5.3, 5.9, 6.7, 7.6],
        v_s30=[170.0, 320, 600, 1000, 1300],
        width=[None, 12.0],
        region=[None, "california", "japan", "italy", "china"],
    )
    base = dict(
        depth_1_0=None, depth_2_5=None, depth_bor=None, depth_bot=None, depth_hyp=None,
        depth_tor=None, dip=44.0, dist_jb=5.0, dist_rup=13.0, dist_x=9.0, mag=6.8,
        v_s30=380.0, width=None, region=None, mechanism="RS",
    )  # fmt: skip
    jp = dict(
        base, depth_2_5=4.0, depth_tor=2.5, mag=6.1, region="japan", v_s30=190.0,
        mechanism="NS", dist_x=25.0, width=13.0,
    )  # fmt: skip
    small = dict(base, mag=4.7, region="china", dist_rup=130.0, dist_jb=125.0, dip=70.0)

    groups = [
        ["mag", "dist_x", "dip", "width", "depth_tor", "dist_jb", "dist_rup"],
        ["region", "v_s30", "depth_2_5", "mag", "dist_rup"],
        ["depth_tor", "depth_bor", "depth_bot", "depth_hyp", "width", "dip", "mag"],
        ["region", "mechanism", "mag", "v_s30", "dist_rup"],
        ["depth_1_0", "depth_2_5", "region", "v_s30"],
    ]
    cats = [
        "mag", "region", "mechanism", "depth_tor", "width", "dip", "dist_x", "depth_2_5",
    ]  # fmt: skip
    if thorough:
        cats += ["v_s30", "dist_rup", "dist_jb", "depth_hyp", "depth_bor", "depth_bot"]
    starts = regimes([base, jp, small], coarse, cats)
    return [
        (Space(fine, coarse, [base, jp, small], groups), 2, 3),
        (Space(fine, coarse, starts, (), None, "regimes"), 2, 3 if thorough else 1),
    ]


CB14 = Conformance(
    "CB14",
    cb14_spaces,
    builder("campbell_bozorgnia_2014", "CampbellBozorgnia2014"),
    gmm_observe,
    ref.cb14,
    defined=cb14_defined,
)


# --------------------------------------------------------------------------
def cy14_spaces(level):
    thorough = level > 1
    fine = dict(
        dist_rup=merge(
            [0.0, 0.5, 1, 3, 7, 12, 20, 30, 40, 45, 55, 69, 70, 71, 90, 120, 160, 230, 300, 400]
        ),
        dist_x=[-50.0, -5, 0, 1, 4, 9, 17, 30, 80],
        dist_jb=[0.0, 1, 5, 12, 30, 90],
        mag=merge(
            lin(3.5, 8.5, 21), around(4.5, 4.97, 5.5, 5.849, 6.0, 6.3, 6.5, 6.9), [3.0, 9.0]
        ),
        v_s30=merge(
            [120.0, 180, 220, 280, 340, 360, 420, 500, 570.94, 650, 760, 850],
            [1000, 1100, 1130, 1140, 1300, 1500, 1900],
        ),
        depth_tor=[None, 0.0, 1, 3, 7, 12, 20, 25],
        depth_1_0=[None, 0.0, 0.01, 0.05, 0.2, 0.5, 1.0, 2.5],
        dpp_centered=[None, -0.4, 0.0, 0.3, 1.0],
        dip=[15.0, 30, 45, 60, 75, 90],
        mechanism=[None, "U", "SS", "NS", "RS"],
        on_hanging_wall=[None, F, T],
        region=[None, "california", "china", "italy", "japan"],
        vs_source=[None, "measured", "inferred"],
    )
    coarse = dict(
        fine,
        dist_rup=[0.5, 15.0, 52, 110, 280],
        dist_x=[-4.0, 2, 14],
        dist_jb=[0.0, 10],
        mag=[4.0, 4.8, 5.3, 5.9, 6.2, 6.6, 7.2],
        v_s30=[200.0, 450, 900, 1200],
        depth_tor=[None, 4.0],
        depth_1_0=[None, 0.03, 0.7],
        dpp_centered=[None, 0.5],
        dip=[35.0, 90],
        on_hanging_wall=[None, T],
        region=[None, "china", "italy", "japan"],
        vs_source=[None, "inferred"],
    )
    base = dict(
        dist_rup=17.0, dist_x=12.0, dist_jb=9.0, mag=6.6, v_s30=390.0, depth_tor=None,
        depth_1_0=None, dpp_centered=None, dip=50.0, mechanism="RS", on_hanging_wall=None,
        region=None, vs_source=None,
    )  # fmt: skip
    hw = dict(
        base, on_hanging_wall=T, region="japan", depth_tor=2.0, depth_1_0=0.4, mag=6.2,
        mechanism="NS", vs_source="inferred", dpp_centered=0.2,
    )  # fmt: skip
    groups = [
        ["region", "mag", "dist_rup", "mechanism", "v_s30"],
        ["on_hanging_wall", "dist_x", "dist_jb", "dip", "depth_tor", "mag", "dist_rup"],
        ["region", "v_s30", "depth_1_0", "vs_source", "mag"],
        ["dpp_centered", "mag", "dist_rup", "region"],
        ["mechanism", "on_hanging_wall", "region", "vs_source", "mag"],
    ]
    cats = [
        "mag", "region", "mechanism", "on_hanging_wall", "vs_source", "depth_tor",
        "depth_1_0", "dpp_centered", "dip",
    ]  # fmt: skip
    if thorough:
        cats += ["v_s30", "dist_rup", "dist_x", "dist_jb"]
    starts = regimes([base, hw], coarse, cats)
    return [
        (Space(fine, coarse, [base, hw], groups), 2, 4),
        (Space(fine, coarse, starts, (), None, "regimes"), 2, 3 if thorough else 1),
    ]


CY14 = Conformance(
    "CY14",
    cy14_spaces,
    builder("chiou_youngs_2014", "ChiouYoungs2014"),
    gmm_observe,
    ref.cy14,
)


# --------------------------------------------------------------------------
def i14_spaces(level):
    thorough = level > 1
    fine = dict(
        dist_rup=merge([0.0, 0.5], geo(1, 400, 40)),
        mag=merge(lin(4.0, 8.6, 47), around(5.0, 6.75, 7.5)),
        v_s30=merge([250.0, 400, 449, 450], geo(460, 1250, 30), [1200, 1500, 2000]),
        mechanism=["SS", "RS"],
    )
    base = dict(dist_rup=20.0, mag=6.3, v_s30=620.0, mechanism="SS")
    big = dict(base, mag=7.3, mechanism="RS", dist_rup=2.0)
    return [(Space(fine, fine, [base, big]), 3 if not thorough else 4, 1)]


I14 = Conformance(
    "I14", i14_spaces, builder("idriss_2014", "Idriss2014"), gmm_observe, ref.i14, chunk=2000
)
