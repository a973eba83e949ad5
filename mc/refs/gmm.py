"""Reference models of the remaining ground motion models."""

import json
import os

import numpy as np

from .common import DATA, Table, clip01, default, is_

LN10 = np.log(10)
G_CGS = 980.665


def result(ln, sd, psa, **im):
    sd = np.broadcast_to(sd, ln.shape)
    out = dict(spec_accels=np.exp(ln[:, psa]), ln_stds=sd[:, psa])
    for k, i in im.items():
        out[k] = np.exp(ln[:, i])
        out["ln_std_" + k] = sd[:, i]
    return out


# -- Campbell (2003) --------------------------------------------------------
C03 = Table("campbell_2003.csv", 1)


def c03(b, _states=None):
    c, M, R = C03, b["mag"], b["dist_rup"]
    rho = np.hypot(R, c.c_7 * np.exp(c.c_8 * M))
    ln = (
        c.c_1
        + c.c_2 * M
        + c.c_3 * (8.5 - M) ** 2
        + c.c_4 * np.log(rho)
        + (c.c_5 + c.c_6 * M) * R
        + c.c_9 * np.log(np.maximum(R, 70) / 70)
        + c.c_10 * np.log(np.maximum(R, 130) / 130)
    )
    sd = np.where(M < 7.16, c.c_11 + c.c_12 * M, c.c_13)
    return result(ln, sd, slice(0, 16))


# -- Tavakoli and Pezeshk (2005) --------------------------------------------
TP05 = Table("tavakoli_pezeshk_2005.csv", 1)


def tp05(b, _states=None):
    c, M, R = TP05, b["mag"], b["dist_rup"]
    up = (8.5 - M) ** 2.5
    rho = np.hypot(R, c.c_5 * np.exp(c.c_6 * M + c.c_7 * up))
    ln = (
        c.c_1
        + c.c_2 * M
        + c.c_3 * up
        + c.c_9 * np.log(R + 4.5)
        + c.c_10 * np.log(np.maximum(R / 70, 1))
        + c.c_11 * np.log(np.maximum(R / 130, 1))
        + (c.c_4 + c.c_13 * M) * np.log(rho)
        + (c.c_8 + c.c_12 * M) * rho
    )
    sd = np.where(M < 7.2, c.c_14 + c.c_15 * M, c.c_16)
    return result(ln, sd, slice(1, 14), pga=0)


# -- Pezeshk, Zandieh and Tavakoli (2011) -----------------------------------
P11 = Table("pezeshk_zandieh_tavakoli_2011.csv", 1)


def pea11(b, _states=None):
    c, M, R = P11, b["mag"], b["dist_rup"]
    lr = 0.5 * np.log10(R**2 + c.c_11**2)
    l70, l140 = np.log10(70.0), np.log10(140.0)
    near = np.minimum(lr, l70)
    mid = np.clip(lr, l70, l140) - l70
    far = np.maximum(lr, l140) - l140
    log = (
        c.c_1
        + c.c_2 * M
        + c.c_3 * M**2
        + (c.c_4 + c.c_5 * M) * near
        + (c.c_6 + c.c_7 * M) * mid
        + (c.c_8 + c.c_9 * M) * far
        + c.c_10 * 10**lr
    )
    s = np.where(M <= 7, c.c_12 * M + c.c_13, -6.95e-3 * M + c.c_14)
    return result(LN10 * log, LN10 * np.hypot(s, c.sigma_reg), slice(1, 23), pga=0)


# -- Atkinson and Boore (2006), with stress of Atkinson and Boore (2011) ----
AB = Table("atkinson_boore_2006-bc.csv", 2)
AB_SITE = Table("atkinson_boore_2006-site.csv", 2)
AB_SF = Table("atkinson_boore_2006-sf.csv", 2)


def over_period(x, xp, y):
    """Interpolation of the columns of y, constant beyond the limits."""
    out = np.empty((y.shape[0], x.size))
    for j, p in enumerate(x):
        if p <= xp[0]:
            out[:, j] = y[:, 0]
        elif p >= xp[-1]:
            out[:, j] = y[:, -1]
        else:
            i = int(np.searchsorted(xp, p, side="right")) - 1
            w = (p - xp[i]) / (xp[i + 1] - xp[i])
            out[:, j] = (1 - w) * y[:, i] + w * y[:, i + 1]
    return out


def ab06(b, _states=None):
    c, M, R, V = AB, b["mag"], b["dist_rup"], b["v_s30"]
    period = c.period[0]
    log = (
        c.c_1
        + c.c_2 * M
        + c.c_3 * M**2
        + (c.c_4 + c.c_5 * M) * np.log10(np.minimum(R, 70))
        + (c.c_6 + c.c_7 * M) * np.log10(np.maximum(R / 140, 1))
        + (c.c_8 + c.c_9 * M) * np.log10(np.maximum(10 / R, 1))
        + c.c_10 * R
    )
    f = AB_SF
    log_sf2 = 0.05 + f.delta * np.minimum(np.maximum(M - f.m_1, 0) / (f.m_h - f.m_1), 1)
    stress = 10 ** (3.45 - 0.2 * M)
    sf = np.minimum(np.log(stress / 140) / np.log(2), 1) * log_sf2
    log = log + over_period(period, f.period[0], sf)
    # Site amplification
    s = AB_SITE
    steep = s.b_2 + (s.b_1 - s.b_2) * np.log(V / 300) / np.log(180 / 300)
    flat = s.b_2 * np.log(V / 760) / np.log(300 / 760)
    b_nl = np.where(
        V <= 180, s.b_1, np.where(V <= 300, steep, np.where(V <= 760, flat, 0))
    )
    pga = np.maximum(10 ** log[:, 2:3], 60.0)
    site = (s.b_lin * np.log(V / 760) + b_nl * np.log(pga / 100)) / LN10
    log = log + over_period(period, s.period[0], site)
    log[:, 2:] -= np.log10(G_CGS)
    sd = 0.3 * LN10 * np.ones_like(log)
    return result(LN10 * log, sd, slice(3, 27), pga=2, pgv=1, pgd=0)


# -- Akkar, Sandikkaya and Bommer (2014) ------------------------------------
ASB = {
    k: Table("akkar-sandikkaya-bommer-2014-%s.csv" % k, 2)
    for k in ("dist_jb", "dist_hyp", "dist_epi")
}


def _asb14(c, b, R):
    M, V, mech = b["mag"], b["v_s30"], b["mechanism"]
    dm = M - c.c_1
    ln = (
        c.a_1
        + np.where(dm <= 0, c.a_2, c.a_7) * dm
        + c.a_3 * (8.5 - M) ** 2
        + (c.a_4 + c.a_5 * dm) * 0.5 * np.log(R**2 + c.a_6**2)
        + np.where(is_(mech, "NS"), c.a_8, 0)
        + np.where(is_(mech, "RS"), c.a_9, 0)
    )
    pga = np.exp(ln[:, 0:1])
    r = V / 750.0
    soft = c.b_1 * np.log(r) + c.b_2 * (
        np.log(pga + c.c * r**c.n) - np.log(pga + c.c) - c.n * np.log(r)
    )
    stiff = c.b_1 * np.log(np.minimum(V, c.v_con) / 750.0)
    return ln + np.where(V <= 750, soft, stiff)


def asb14(b, _states=None):
    jb, hyp = b["dist_jb"], b["dist_hyp"]
    use_jb = ~np.isnan(jb)
    use_hyp = ~use_jb & ~np.isnan(hyp)
    ln = {k: _asb14(ASB[k], b, b[k]) for k in ASB}
    out = np.where(
        use_jb, ln["dist_jb"], np.where(use_hyp, ln["dist_hyp"], ln["dist_epi"])
    )
    sd = np.where(
        use_jb,
        ASB["dist_jb"].sd_total,
        np.where(use_hyp, ASB["dist_hyp"].sd_total, ASB["dist_epi"].sd_total),
    )
    return result(out, sd, slice(2, 64), pga=0, pgv=1)


# -- Derras, Bard and Cotton (2014) -----------------------------------------
with open(os.path.join(DATA, "derras_bard_cotton_2014.json")) as fp:
    DBC = json.load(fp)


def dbc14(b, _states=None):
    d = {k: np.array(v, float) for k, v in DBC.items() if k in ("w_1", "w_2", "b_1", "b_2")}
    lim = DBC["min_max"]
    code = np.select(
        [is_(b["mechanism"], m) for m in ("NS", "RS", "SS")], [1.0, 3.0, 4.0]
    )
    x = dict(
        log10_dist_jb=np.log10(b["dist_jb"]),
        mag=b["mag"],
        log10_v_s30=np.log10(b["v_s30"]),
        depth_hyp=b["depth_hyp"],
        mechanism=code,
    )
    order = ["log10_dist_jb", "mag", "log10_v_s30", "depth_hyp", "mechanism"]
    p = np.hstack([2 * (x[k] - lim[k][0]) / (lim[k][1] - lim[k][0]) - 1 for k in order])
    hidden = np.tanh(p @ d["w_1"].T + d["b_1"].reshape(1, -1))
    y = hidden @ d["w_2"].T + d["b_2"].reshape(1, -1)
    rng = np.array(lim["log10_resp"], float)
    log = rng[:, 0] + (y + 1) / 2 * (rng[:, 1] - rng[:, 0])
    log[:, 0] += 2  # m/s to cm/s
    log[:, 1:] -= np.log10(9.80665)
    sd = LN10 * np.array(DBC["log10_std"]["total"], float).reshape(1, -1)
    return result(LN10 * log, sd, slice(2, 64), pga=1, pgv=0)


# -- Abrahamson, Gregor and Addo (2016) -------------------------------------
AGA = Table("abrahamson_gregor_addo_2016.csv", 1)
PNNL = Table("coppersmith_bommer_2014.csv", 1)


def aga_dc1(period, slab):
    """Central adjustment of the magnitude break."""
    anchors = [(0.3, 0.2), (0.5, 0.1), (1.0, 0.0), (2.0, -0.1), (3.0, -0.2)]
    inter = []
    for t in period[0]:
        if t <= anchors[0][0]:
            v = anchors[0][1]
        elif t >= anchors[-1][0]:
            v = anchors[-1][1]
        else:
            for (t0, v0), (t1, v1) in zip(anchors, anchors[1:]):
                if t0 <= t <= t1:
                    v = v0 + (v1 - v0) * np.log(t / t0) / np.log(t1 / t0)
                    break
        inter.append(v)
    return np.where(slab, -0.3, np.array(inter)[None, :])


def _hydro(c, M, V, R, dc1, path, rest):
    """Terms in common of the BC Hydro model and its PNNL modification."""
    brk = 7.8 + dc1
    rock = (
        c.t_1
        + c.t_4 * dc1
        + path
        + np.where(M <= brk, c.t_4, c.t_5) * (M - brk)
        + c.t_13 * (10 - M) ** 2
        + rest
    )

    def site(v, pga):
        r = np.minimum(v, 1000.0) / c.v_lin
        lin = (c.t_12 + c.b * c.n) * np.log(r)
        if pga is None:
            pga = 0.0 * v
        nl = (
            c.t_12 * np.log(r)
            - c.b * np.log(pga + c.c)
            + c.b * np.log(pga + c.c * r**c.n)
        )
        return np.where(v < c.v_lin, nl, lin)

    # At the reference only PGA is used, which is linear
    ref = np.exp((rock + site(np.full_like(V, 1000.0), None))[:, 0:1])
    return rock + site(V, ref)


def aga16(b, states=None):
    c, M = AGA, b["mag"]
    slab = is_(b["event_type"], "intraslab")
    back = is_(b["tectonic_region"], "backarc")
    R = np.where(slab, b["dist_hyp"], b["dist_rup"])
    dc1 = aga_dc1(c.period, slab)
    adj = np.array([np.nan if s["adjust_c1"] is None else s["adjust_c1"] for s in states])
    dc1 = np.where(np.isnan(adj)[:, None], dc1, adj[:, None])
    scale = default(b["scale_atten"], 1.0)
    path = (c.t_2 + np.where(slab, c.t_14, 0) + c.t_3 * (M - 7.8)) * np.log(
        R + c.c_4 * np.exp(c.t_9 * (M - 6))
    ) + scale * c.t_6 * R
    faba = np.where(
        slab,
        c.t_7 + c.t_8 * np.log(np.maximum(R, 85) / 40),
        c.t_15 + c.t_16 * np.log(np.maximum(R, 100) / 40),
    )
    rest = np.where(
        slab, c.t_10 + c.t_11 * (np.minimum(b["depth_hyp"], 120) - 60), 0
    ) + np.where(back, faba, 0)
    ln = _hydro(c, M, b["v_s30"], R, dc1, path, rest)
    return result(ln, np.hypot(c.phi, c.tau), slice(1, 23), pga=0)


def cb14_pnnl(b, states=None):
    c, M, R = PNNL, b["mag"], b["dist_rup"]
    slab = is_(b["event_type"], "intraslab")
    dc1 = aga_dc1(c.period, slab)
    scale = default(b["scale_atten"], 1.0)
    path = (c.t_2 + c.t_3 * (M - 7.8)) * np.log(
        R + c.c_4 * np.exp(c.t_9 * (M - 6))
    ) + scale * c.t_6 * R
    rest = c.t_16 * np.log(np.maximum(R, 40) / 40)
    ln = _hydro(c, M, b["v_s30"], R, dc1, path, rest)
    return result(ln, np.hypot(c.phi, c.tau), slice(0, 14), pga=0)
