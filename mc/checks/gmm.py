"""State spaces of the remaining ground motion models."""

import importlib

from .. import core
from ..conform import Conformance, builder, gmm_observe
from ..core import Space, around, geo, lin, merge
from ..refs import gmm as ref


class Group:
    """Several conformance explorations that decide one property."""

    def __init__(self, *members):
        self.members = members

    def explore(self, rep):
        for m in self.members:
            m.explore(rep)


def mr_spaces(mag, dist, **others):
    """Dense product of magnitude and distance."""

    def spaces(level):
        fine = dict(mag=mag(level), dist_rup=dist(level), **others)
        base = {k: v[len(v) // 2] for k, v in fine.items()}
        return [(Space(fine, fine, [base]), len(fine), 0)]

    return spaces


def e_mag(lo, hi, *brk):
    return lambda t: merge(lin(lo, hi, 160 * t + 1), around(*brk), [lo, hi])


def e_dist(lo, *brk):
    return lambda t: merge(
        [lo], geo(max(lo, 0.1), 1000, 240 * t), around(*brk), [1.0, 1000.0]
    )


C03 = Conformance(
    "C03",
    mr_spaces(e_mag(5.0, 8.2, 7.16), e_dist(0.0, 70, 130)),
    builder("campbell_2003", "Campbell2003"),
    gmm_observe,
    ref.c03,
    chunk=2000,
)
TP05 = Conformance(
    "TP05",
    mr_spaces(e_mag(5.0, 8.2, 7.2), e_dist(0.0, 70, 130)),
    builder("tavakoli_pezeshk_2005", "TavakoliPezeshk05"),
    gmm_observe,
    ref.tp05,
    chunk=2000,
    far=lambda s: s["mag"] < 8.5,  # the equations are not defined above
)
PEA11 = Conformance(
    "Pea11",
    mr_spaces(e_mag(5.0, 8.0, 7.0), e_dist(0.0, 69.5, 70, 139.7, 140)),
    builder("pezeshk_zandieh_tavakoli_2011", "PezeshkZandiehTavakoli2011"),
    gmm_observe,
    ref.pea11,
    chunk=2000,
)
EAST = Group(C03, TP05, PEA11)


# --------------------------------------------------------------------------
def ab06_spaces(level):
    fine = dict(
        mag=merge(lin(3.5, 8.5, 40 * level + 1), around(2.0, 5.5, 5.75, 6.0, 8.25), [3.0]),
        dist_rup=merge([1.0], geo(1, 1000, 60 * level), around(10.0, 70, 140)),
        v_s30=merge(
            [120.0, 150, 210, 250, 350, 450, 550, 650, 900, 1300, 2000],
            around(180.0, 300, 760),
            lin(200, 1200, 40 * level + 1),
        ),
    )
    base = dict(mag=6.5, dist_rup=40.0, v_s30=400.0)
    return [(Space(fine, fine, [base]), 3, 0)]


AB06 = Conformance(
    "AB06",
    ab06_spaces,
    builder("atkinson_boore_2006", "AtkinsonBoore2006"),
    gmm_observe,
    ref.ab06,
    chunk=1000,
)


# --------------------------------------------------------------------------
def asb14_spaces(level):
    n = level + 1
    d = merge([0.0], geo(0.5, 250, 20 * n))
    fine = dict(
        dist_jb=[None] + d,
        dist_epi=[None] + d,
        dist_hyp=[None] + d,
        mag=merge(lin(4, 8, 16 * n + 1), around(6.75), [3.5, 8.3]),
        v_s30=merge(
            [150.0, 180, 240, 300, 360, 420, 500, 600, 700],
            around(750.0, 1000.0),
            [800.0, 900, 1100, 1200, 1500],
        ),
        mechanism=["SS", "NS", "RS"],
    )
    coarse = dict(
        fine,
        dist_jb=[None, 0.0, 8.0, 120],
        dist_epi=[None, 3.0, 40.0, 190],
        dist_hyp=[None, 6.0, 70.0, 150],
        mag=[4.5, 5.5, 6.5, 6.9, 7.7],
        v_s30=[180.0, 420, 740, 850, 1150],
    )
    bases = [
        dict(dist_jb=j, dist_epi=e, dist_hyp=h, mag=6.3, v_s30=380.0, mechanism="NS")
        for j in (None, 20.0)
        for e in (None, 24.0)
        for h in (None, 28.0)
        if not (j is None and e is None and h is None)
    ]

    def valid(s):
        return not all(s[k] is None for k in ("dist_jb", "dist_epi", "dist_hyp"))

    return [(Space(fine, coarse, bases, [list(fine)], valid), 1 + level, 4)]


class ASB14_(Conformance):
    """Adds the states that do not provide any distance."""

    def explore(self, rep):
        super().explore(rep)
        n = 0
        for mag in lin(4, 8, 9):
            for v in (200.0, 750.0, 1200.0):
                for mech in ("SS", "NS", "RS"):
                    kwds = dict(mag=mag, v_s30=v, mechanism=mech)
                    got = core.outcome(lambda: self.build(kwds))
                    n += 1
                    if not (
                        isinstance(got, core.Raised) and got.kind == "NotImplementedError"
                    ):
                        rep.violation("ASB14 no distance", state=kwds, got=repr(got))
        rep.states += n
        rep.transitions += n
        rep.traces += n


ASB14 = ASB14_(
    "ASB14",
    asb14_spaces,
    builder("akkar_sandikkaya_bommer_2014", "AkkarSandikkayaBommer2014"),
    gmm_observe,
    ref.asb14,
    chunk=1000,
)


# --------------------------------------------------------------------------
def dbc14_spaces(level):
    n = level + 1
    fine = dict(
        dist_jb=geo(1, 300, 9 * n),
        mag=lin(3.6, 7.6, 8 * n + 1),
        v_s30=geo(120, 1200, 7 * n),
        depth_hyp=lin(0, 25, 5 * n + 1),
        mechanism=["SS", "NS", "RS"],
    )
    base = dict(dist_jb=20.0, mag=6.0, v_s30=400.0, depth_hyp=10.0, mechanism="SS")
    return [(Space(fine, fine, [base]), 5, 0)]


DBC14 = Conformance(
    "DBC14",
    dbc14_spaces,
    builder("derras_bard_cotton_2014", "DerrasBardCotton2014"),
    gmm_observe,
    ref.dbc14,
    chunk=1000,
)

# --------------------------------------------------------------------------
EXTRA = ("adjust_c1", "adjust_c4", "scale_atten")


def hydro_builder(module, cls):
    def build(kwds):
        pygmm = core.import_library()
        scen = {k: v for k, v in kwds.items() if k not in EXTRA}
        opts = {k: v for k, v in kwds.items() if k in EXTRA}
        mod = importlib.import_module("pygmm." + module)
        return getattr(mod, cls)(pygmm.Scenario(**scen), **opts)

    return build


def aga_observe(m, kwds):
    out = gmm_observe(m, kwds)
    out.pop("pgv", None)
    return out


def aga16_spaces(level):
    fine = dict(
        mag=merge(lin(4, 9.2, 27), around(7.5, 7.6, 7.7, 7.8, 7.9, 8.0), [3.0, 8.5]),
        dist_rup=merge(geo(1, 500, 24), around(100.0), [90.0]),
        dist_hyp=merge(geo(20, 500, 20), around(85.0), [100.0]),
        depth_hyp=merge([30.0, 45, 60, 80, 100, 140, 180], around(120.0)),
        v_s30=merge(
            [150.0, 200, 300, 400, 500, 600, 760, 900, 1200, 1500],
            around(865.1, 1000.0, 1053.5, 1085.7, 1032.5, 877.6, 748.2, 654.3, 587.1, 503.0, 456.6, 430.3, 410.5, 400.0),
        ),
        event_type=["interface", "intraslab"],
        tectonic_region=[None, "forearc", "backarc", "unknown"],
        adjust_c1=[None, -0.5, -0.2, 0.0, 0.2, 0.45],
        scale_atten=[None, 0.0, 0.7, 1.0, 1.5],
    )
    coarse = dict(
        fine,
        mag=[5.5, 7.55, 7.75, 8.4],
        dist_rup=[12.0, 92, 250],
        dist_hyp=[45.0, 92, 250],
        depth_hyp=[50.0, 150],
        v_s30=[220.0, 430, 700, 950, 1300],
        tectonic_region=[None, "backarc"],
        adjust_c1=[None, 0.2],
        scale_atten=[None, 0.7],
    )
    base = dict(
        mag=7.4, dist_rup=70.0, dist_hyp=90.0, depth_hyp=60.0, v_s30=450.0,
        event_type="interface", tectonic_region=None, adjust_c1=None, scale_atten=None,
    )  # fmt: skip
    slab = dict(base, event_type="intraslab", tectonic_region="backarc", depth_hyp=90.0)
    return [(Space(fine, coarse, [base, slab], [list(fine)]), 1 + level, 3)]


AGA16 = Conformance(
    "AGA16",
    aga16_spaces,
    hydro_builder("abrahamson_gregor_addo_2016", "AbrahamsonGregorAddo2016"),
    gmm_observe,
    ref.aga16,
)


def pnnl_spaces(level):
    fine = dict(
        mag=merge(lin(4, 9, 15 * level + 1), around(7.5, 7.8, 8.0)),
        dist_rup=merge(geo(1, 500, 16 * level), around(40.0)),
        v_s30=merge(
            [150.0, 250, 400, 600, 760, 900, 1200, 1500], around(865.1, 944.57, 1000.0)
        ),
        event_type=["interface", "intraslab"],
        scale_atten=[None, 0.6, 1.0, 1.4],
    )
    base = dict(
        mag=7.4, dist_rup=70.0, v_s30=450.0, event_type="interface", scale_atten=None
    )
    return [(Space(fine, fine, [base]), 5, 0)]


PNNL = Conformance(
    "CB14-PNNL",
    pnnl_spaces,
    hydro_builder("coppersmith_bommer_2014", "CoppersmithBommer2014"),
    gmm_observe,
    ref.cb14_pnnl,
)
SUBDUCTION = Group(AGA16, PNNL)
