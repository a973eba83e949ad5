"""Reference models of the NGA-West2 ground motion models."""

import numpy as np

from .common import Table, clip01, default, interp_cols, is_

np.seterr(all="ignore")

RAD = np.pi / 180


def result(t, ln, sd, psa, **im):
    out = dict(spec_accels=np.exp(ln[:, psa]), ln_stds=sd[:, psa])
    for k, i in im.items():
        out[k] = np.exp(ln[:, i])
        out["ln_std_" + k] = sd[:, i]
    return out


# --------------------------------------------------------------------------
# Abrahamson, Silva and Kamai (2014)
# --------------------------------------------------------------------------
A = Table("abrahamson_silva_kamai_2014.csv", 2)


def ask14_width(mag, dip):
    return np.minimum(18 / np.sin(dip * RAD), 10 ** (0.45 * mag - 1.75))


def ask14_depth_tor(mag):
    return 7.8 * clip01((7.2 - mag) / 2.2)


def ask14_depth_1_0(v, japan):
    def f(p, r, k):
        return np.exp(-k / p * np.log((v**p + r**p) / (1360.0**p + r**p))) / 1000

    return np.where(japan, f(2, 412.0, 5.23), f(4, 610.0, 7.67))


def ask14_site(sa_ref, v, depth_1_0, japan):
    """Site term for a site velocity other than the reference."""
    v1 = 1500 * (np.clip(A.period, 0.5, 3) / 0.5) ** -0.35
    r = np.minimum(v, v1) / A.v_lin
    lin = (A.a10 + A.b * A.n) * np.log(r)
    nl = A.a10 * np.log(r) + A.b * np.log((sa_ref + A.c * r**A.n) / (sa_ref + A.c))
    slope = interp_cols(v, [150, 250, 400, 700], [A.a43, A.a44, A.a45, A.a46])
    basin = slope * np.log((depth_1_0 + 0.01) / (ask14_depth_1_0(v, japan) + 0.01))
    return np.where(r < 1, nl, lin) + np.where(np.isnan(depth_1_0), 0, basin)


def ask14(b, _states=None):
    M, R, dip = b["mag"], b["dist_rup"], b["dip"]
    region = default(b["region"], "global")
    mech = b["mechanism"]
    W = default(b["width"], np.nan)
    W = np.where(np.isnan(W), ask14_width(M, dip), W)
    ztor = np.where(np.isnan(b["depth_tor"]), ask14_depth_tor(M), b["depth_tor"])
    crjb = default(b["dist_crjb"], 15.0)
    v30 = b["v_s30"]
    jp, cn, tw = (is_(region, r) for r in ("japan", "china", "taiwan"))

    # Source and geometric spreading
    c4m = A.c4 - (A.c4 - 1) * clip01(5 - M)
    lnR = np.log(np.hypot(R, c4m))
    m1, m2 = A.m1, A.m2
    geom = (A.a2 + A.a3 * (np.maximum(M, m2) - m1)) * lnR
    quad = A.a8 * (8.5 - np.maximum(M, m2)) ** 2
    mlin = np.where(M > m1, A.a5 * (M - m1), A.a4 * (np.maximum(M, m2) - m1))
    low = np.where(M <= m2, A.a6 * (M - m2) + A.a7 * (M - m2) ** 2, 0)
    f1 = A.a1 + geom + quad + mlin + low + A.a17 * R

    # Hanging wall
    hw = np.asarray(b["on_hanging_wall"] == 1.0)
    x = b["dist_x"]
    t1 = np.where(dip > 30, (90 - dip) / 45, 60 / 45)
    dm = M - 6.5
    t2 = np.where(
        M >= 6.5, 1 + 0.2 * dm, np.where(M > 5.5, 1 + 0.2 * dm - 0.8 * dm**2, 0)
    )
    r1 = W * np.cos(dip * RAD)
    r2 = 3 * r1
    t3 = np.where(
        x < r1,
        0.25 + 1.5 * (x / r1) - 0.75 * (x / r1) ** 2,
        np.where(x < r2, 1 - (x - r1) / (r2 - r1), 0),
    )
    t4 = clip01(1 - (ztor / 10) ** 2)
    y0 = b["dist_y0"]
    t5 = np.where(
        np.isnan(y0),
        clip01(1 - b["dist_jb"] / 30),
        clip01(1 - (y0 - x * np.tan(20 * RAD)) / 5),
    )
    f4 = np.where(hw, A.a13 * t1 * t2 * t3 * t4 * t5, 0)

    # Rupture depth, style of faulting, aftershocks
    f6 = A.a15 * clip01(ztor / 20)
    taper = clip01(M - 4)
    style = np.where(is_(mech, "RS"), A.a11, np.where(is_(mech, "NS"), A.a12, 0)) * taper
    after = np.where(b["is_aftershock"] == 1.0, A.a14, 0) * clip01(1 - (crjb - 5) / 10)
    common = f1 + f4 + f6 + style + after

    v1 = 1500 * (np.clip(A.period, 0.5, 3) / 0.5) ** -0.35

    def regional(v):
        r = np.minimum(v, v1) / A.v_lin
        f13 = interp_cols(
            v,
            [150, 250, 350, 450, 600, 850, 1150],
            [A.a36, A.a37, A.a38, A.a39, A.a40, A.a41, A.a42],
        )
        return np.where(
            tw,
            A.a31 * np.log(r) + A.a25 * R,
            np.where(cn, A.a28 * R, np.where(jp, f13 + A.a29 * R, 0)),
        )

    vref = np.full_like(v30, 1180.0)
    # At the reference velocity the site response is linear without basin
    r_ref = np.minimum(vref, v1) / A.v_lin
    sa_ref = np.exp(common + regional(vref) + (A.a10 + A.b * A.n) * np.log(r_ref))
    z1 = np.where(v30 == 1180.0, np.nan, b["depth_1_0"])
    ln = common + regional(v30) + ask14_site(sa_ref, v30, z1, jp)

    # Aleatory variability
    src = default(b["vs_source"], "measured")
    t = clip01((M - 4) / 2)
    phi_al = np.where(
        is_(src, "measured"), A.s1m + (A.s2m - A.s1m) * t, A.s1e + (A.s2e - A.s1e) * t
    )
    phi_jp = A.s5 + (A.s6 - A.s5) * clip01((R - 30) / 50)
    phi_al = np.where(jp, phi_jp, phi_al)
    tau_al = A.s3 + (A.s4 - A.s3) * clip01((M - 5) / 2)
    phi_b2 = np.maximum(phi_al**2 - 0.16, 0)
    d = A.b * sa_ref * (
        1 / (sa_ref + A.c * (v30 / A.v_lin) ** A.n) - 1 / (sa_ref + A.c)
    )
    d = np.where(v30 >= A.v_lin, 0, d)
    sd = np.sqrt(phi_b2 * (1 + d) ** 2 + 0.16 + tau_al**2 * (1 + d) ** 2)
    return result(A, ln, sd, slice(0, 22), pga=22, pgv=23)


# --------------------------------------------------------------------------
# Boore, Stewart, Seyhan and Atkinson (2014)
# --------------------------------------------------------------------------
B = Table("boore_stewart_seyhan_atkinson-2014.csv", 2)


def cy14_depth_1_0(v, japan):
    def f(p, r, k):
        return np.exp(-k / p * np.log((v**p + r**p) / (1360.0**p + r**p))) / 1000

    return np.where(japan, f(2, 412.39, 5.23), f(4, 570.94, 7.15))


def bssa14_site(pga_ref, v, depth_1_0, japan):
    lin = B.c * np.log(np.minimum(v, B.V_c) / 760)
    f2 = B.f_4 * (np.exp(B.f_5 * (np.minimum(v, 760) - 360)) - np.exp(B.f_5 * 400))
    nl = B.f_1 + f2 * np.log1p(pga_ref / B.f_3)
    dz = depth_1_0 - cy14_depth_1_0(v, japan)
    dz = np.where(np.isnan(dz), 0, dz)
    basin = np.where(B.period >= 0.65, np.minimum(B.f_6 * dz, B.f_7), 0)
    return lin + nl + basin


def bssa14(b, _states=None):
    M, R, v = b["mag"], b["dist_jb"], b["v_s30"]
    mech = default(b["mechanism"], "U")
    region = default(b["region"], "global")
    e = np.where(
        is_(mech, "SS"),
        B.e_1,
        np.where(is_(mech, "NS"), B.e_2, np.where(is_(mech, "RS"), B.e_3, B.e_0)),
    )
    dm = M - B.M_h
    event = e + np.where(dm <= 0, B.e_4 * dm + B.e_5 * dm**2, B.e_6 * dm)
    dc3 = np.where(
        is_(region, "china", "turkey"),
        B.dc_3ct,
        np.where(is_(region, "italy", "japan"), B.dc_3ij, B.dc_3global),
    )
    r = np.hypot(R, B.h)
    path = (B.c_1 + B.c_2 * (M - B.M_ref)) * np.log(r / B.R_ref)
    path = path + (B.c_3 + dc3) * (r - B.R_ref)
    rock = event + path
    site = bssa14_site(np.exp(rock[:, 1:2]), v, b["depth_1_0"], is_(region, "japan"))
    ln = rock + site

    w = clip01(M - 4.5)
    tau = B.tau_1 + (B.tau_2 - B.tau_1) * w
    phi = B.phi_1 + (B.phi_2 - B.phi_1) * w
    phi = phi - B.dphi_V * clip01(np.log(B.V_2 / v) / np.log(B.V_2 / B.V_1))
    phi = phi + B.dphi_R * clip01(
        np.log(np.maximum(R, 0.1) / B.R_1) / np.log(B.R_2 / B.R_1)
    )
    return result(B, ln, np.hypot(tau, phi), slice(2, 107), pga=1, pgv=0)


# --------------------------------------------------------------------------
# Campbell and Bozorgnia (2014)
# --------------------------------------------------------------------------
C = Table("campbell_bozorgnia_2014.csv", 2)
C_C, C_N = 1.88, 1.18


def cy14_depth_tor(M, reverse):
    z = np.where(
        reverse,
        2.704 - 1.226 * np.maximum(M - 5.849, 0),
        2.673 - 1.136 * np.maximum(M - 4.970, 0),
    )
    return np.maximum(z, 0) ** 2


def cb14_depth_2_5(v, japan):
    return np.where(
        japan, np.exp(5.359 - 1.102 * np.log(v)), np.exp(7.089 - 1.144 * np.log(v))
    )


def cb14_width(M, dip, ztor, zbot):
    return np.minimum(10 ** ((M - 4.07) / 0.98 / 2), (zbot - ztor) / np.sin(dip * RAD))


def cb14_depth_hyp(M, dip, ztor, zbor):
    f_m = np.where(M < 6.75, -4.317 + 0.984 * M, 2.325)
    # The published limit of 6.75 rounds the intersection of both branches
    f_m = np.minimum(-4.317 + 0.984 * M, 2.325)
    f_d = np.where(dip <= 40, 0.0445 * (dip - 40), 0)
    return ztor + np.exp(np.minimum(f_m + f_d, np.log(0.9 * (zbor - ztor))))


def cb14_site(pga_ref, v, z25, japan):
    r = v / C.k_1
    lo = C.c_11 * np.log(r) + C.k_2 * np.log(
        (pga_ref + C_C * r**C_N) / (pga_ref + C_C)
    )
    hi = (C.c_11 + C.k_2 * C_N) * np.log(r)
    f = np.where(v <= C.k_1, lo, hi)
    jp = np.where(
        v <= 200,
        (C.c_12 + C.k_2 * C_N) * np.log(v / 200),
        (C.c_13 + C.k_2 * C_N) * np.log(r),
    )
    f = f + np.where(japan, jp, 0)
    shallow = (C.c_14 + np.where(japan, C.c_15, 0)) * (z25 - 1)
    deep = C.c_16 * C.k_3 * np.exp(-0.75) * (1 - np.exp(-0.25 * (z25 - 3)))
    return f + np.where(z25 <= 1, shallow, np.where(z25 > 3, deep, 0))


def cb14_resolve(b):
    """Resolved scenario."""
    M, dip = b["mag"], b["dip"]
    region = default(b["region"], "global")
    jp = is_(region, "japan")
    z25 = np.where(np.isnan(b["depth_2_5"]), cb14_depth_2_5(b["v_s30"], jp), b["depth_2_5"])
    ztor = np.where(
        np.isnan(b["depth_tor"]),
        cy14_depth_tor(M, is_(b["mechanism"], "RS")),
        b["depth_tor"],
    )
    zbot = default(b["depth_bot"], 15.0)
    W = np.where(np.isnan(b["width"]), cb14_width(M, dip, ztor, zbot), b["width"])
    zbor = np.where(np.isnan(b["depth_bor"]), ztor + W * np.sin(dip * RAD), b["depth_bor"])
    zhyp = np.where(
        np.isnan(b["depth_hyp"]), cb14_depth_hyp(M, dip, ztor, zbor), b["depth_hyp"]
    )
    return region, jp, z25, ztor, W, zbor, zhyp


def cb14(b, _states=None):
    M, dip, R, x, v = b["mag"], b["dip"], b["dist_rup"], b["dist_x"], b["v_s30"]
    mech = b["mechanism"]
    region, jp, z25, ztor, W, zbor, zhyp = cb14_resolve(b)

    f_mag = (
        C.c_0
        + C.c_1 * M
        + C.c_2 * np.maximum(M - 4.5, 0)
        + C.c_3 * np.maximum(M - 5.5, 0)
        + C.c_4 * np.maximum(M - 6.5, 0)
    )
    f_dis = (C.c_5 + C.c_6 * M) * np.log(np.hypot(R, C.c_7))
    f_flt = np.where(is_(mech, "RS"), C.c_8, np.where(is_(mech, "NS"), C.c_9, 0))
    f_flt = f_flt * clip01(M - 4.5)

    r1 = W * np.cos(dip * RAD)
    r2 = 62 * M - 350
    near = C.h_1 + C.h_2 * (x / r1) + C.h_3 * (x / r1) ** 2
    q = (x - r1) / (r2 - r1)
    far = np.maximum(C.h_4 + C.h_5 * q + C.h_6 * q**2, 0)
    h_x = np.where(x < 0, 0, np.where(x <= r1, near, far))
    h_r = np.where(R == 0, 1, (R - b["dist_jb"]) / np.where(R == 0, 1, R))
    h_m = np.where(M <= 5.5, 0, np.minimum(M - 5.5, 1) * (1 + C.a_2 * (M - 6.5)))
    h_z = np.where(ztor <= 16.66, 1 - 0.06 * ztor, 0)
    f_hng = C.c_10 * h_x * h_r * h_m * h_z * (90 - dip) / 45

    f_hyp = np.clip(zhyp - 7, 0, 13) * (C.c_17 + (C.c_18 - C.c_17) * clip01(M - 5.5))
    f_dip = C.c_19 * dip * clip01(5.5 - M)
    d20 = np.where(
        is_(region, "japan", "italy"),
        C.dc_20jp,
        np.where(is_(region, "china"), C.dc_20ch, C.dc_20ca),
    )
    f_atn = (C.c_20 + d20) * np.maximum(R - 80, 0)
    common = f_mag + f_dis + f_flt + f_hng + f_hyp + f_dip + f_atn

    vref = np.full_like(v, 1100.0)
    # The reference velocity exceeds k_1 of PGA: linear site response
    ref = common + cb14_site(np.zeros_like(v), vref, cb14_depth_2_5(vref, jp), jp)
    pga_ref = np.exp(ref[:, 21:22])
    ln = common + cb14_site(pga_ref, v, z25, jp)
    # Equation (1): PSA at periods of less than 0.25 s is at least PGA
    short = (C.period > 0) & (C.period < 0.25)
    ln = np.where(short, np.maximum(ln, ln[:, 21:22]), ln)

    w = clip01(5.5 - M)
    tau = C.tau_2 + (C.tau_1 - C.tau_2) * w
    phi = C.phi_2 + (C.phi_1 - C.phi_2) * w
    r = v / C.k_1
    al = C.k_2 * pga_ref * (1 / (pga_ref + C_C * r**C_N) - 1 / (pga_ref + C_C))
    al = np.where(v < C.k_1, al, 0)
    rho = C.rho_lnPGAlnY
    taup = tau[:, 21:22]
    tau2 = tau**2 + (al * taup) ** 2 + 2 * al * rho * tau * taup
    af, afp = C.phi_lnAF, C.phi_lnAF[:, 21:22]
    pb = np.sqrt(phi**2 - af**2)
    pbp = np.sqrt(phi[:, 21:22] ** 2 - afp**2)
    phi2 = pb**2 + af**2 + (al * pbp) ** 2 + 2 * al * rho * pb * pbp
    return result(C, ln, np.sqrt(tau2 + phi2), slice(0, 21), pga=21, pgv=22)


# --------------------------------------------------------------------------
# Chiou and Youngs (2014)
# --------------------------------------------------------------------------
Y = Table("chiou_youngs_2014.csv", 2)


def cy14_nl(v):
    return Y.phi_2 * (
        np.exp(Y.phi_3 * (np.minimum(v, 1130) - 360)) - np.exp(Y.phi_3 * 770)
    )


def cy14_site(y_ref, v, depth_1_0, japan):
    p1 = np.where(japan, Y.phi_1jp, Y.phi_1)
    p5 = np.where(japan, Y.phi_5jp, Y.phi_5)
    p6 = np.where(japan, Y.phi_6jp, Y.phi_6)
    dz = 1000 * (depth_1_0 - cy14_depth_1_0(v, japan))
    return (
        p1 * np.minimum(np.log(v / 1130), 0)
        + cy14_nl(v) * np.log((y_ref + Y.phi_4) / Y.phi_4)
        + p5 * (1 - np.exp(-dz / p6))
    )


def cy14(b, _states=None):
    M, R, v, dip = b["mag"], b["dist_rup"], b["v_s30"], b["dip"]
    mech = default(b["mechanism"], "U")
    region = default(b["region"], "california")
    jp = is_(region, "japan")
    rs, ns = is_(mech, "RS"), is_(mech, "NS")
    ztor = np.where(np.isnan(b["depth_tor"]), cy14_depth_tor(M, rs), b["depth_tor"])
    z1 = np.where(np.isnan(b["depth_1_0"]), cy14_depth_1_0(v, jp), b["depth_1_0"])
    dpp = default(b["dpp_centered"], 0.0)

    ch = np.cosh(2 * np.maximum(M - 4.5, 0))
    ln = Y.c_1 + np.where(rs, Y.c_1a + Y.c_1c / ch, 0) + np.where(ns, Y.c_1b + Y.c_1d / ch, 0)
    ln = ln + Y.c_2 * (M - 6)
    ln = ln + (Y.c_2 - Y.c_3) / Y.c_n * np.log1p(np.exp(Y.c_n * (Y.c_m - M)))
    ln = ln + (Y.c_7 + Y.c_7b / ch) * (ztor - cy14_depth_tor(M, rs))
    cd = np.cos(dip * RAD)
    ln = ln + (Y.c_11 + Y.c_11b / ch) * cd**2
    ln = ln + Y.c_4 * np.log(R + Y.c_5 * np.cosh(Y.c_6 * np.maximum(M - Y.c_hm, 0)))
    ln = ln + (Y.c_4a - Y.c_4) * 0.5 * np.log(R**2 + Y.c_rb**2)
    g = Y.c_gamma1 + Y.c_gamma2 / np.cosh(np.maximum(M - Y.c_gamma3, 0))
    ji = is_(region, "japan", "italy") & (M > 6) & (M < 6.9)
    g = g * np.where(ji, Y.gamma_ji, np.where(is_(region, "china"), Y.gamma_c, 1))
    ln = ln + g * R
    ln = ln + (
        Y.c_8
        * np.maximum(1 - np.maximum(R - 40, 0) / 30, 0)
        * np.minimum(np.maximum(M - 5.5, 0) / 0.8, 1)
        * np.exp(-Y.c_8a * (M - Y.c_8b) ** 2)
        * dpp
    )
    hw = np.asarray(b["on_hanging_wall"] == 1.0)
    f_hw = (
        Y.c_9
        * cd
        * (Y.c_9a + (1 - Y.c_9a) * np.tanh(b["dist_x"] / Y.c_9b))
        * (1 - np.hypot(b["dist_jb"], ztor) / (R + 1))
    )
    ln = ln + np.where(hw, f_hw, 0)
    y_ref = np.exp(ln)
    ln = ln + cy14_site(y_ref, v, z1, jp)

    w = np.clip(M, 5, 6.5) - 5
    tau = Y.tau_1 + (Y.tau_2 - Y.tau_1) / 1.5 * w
    nl0 = cy14_nl(v) * y_ref / (y_ref + Y.phi_4)
    s2 = np.where(jp, Y.sigma_2jp, Y.sigma_2)
    meas = is_(default(b["vs_source"], "measured"), "measured")
    phi = (Y.sigma_1 + (s2 - Y.sigma_1) / 1.5 * w) * np.sqrt(
        np.where(meas, 0.7, Y.sigma_3) + (1 + nl0) ** 2
    )
    sd = np.sqrt(((1 + nl0) * tau) ** 2 + phi**2)
    return result(Y, ln, sd, slice(0, 24), pga=24, pgv=25)


# --------------------------------------------------------------------------
# Idriss (2014)
# --------------------------------------------------------------------------
IS = Table("idriss_2014-small.csv", 2)
IL = Table("idriss_2014-large.csv", 2)


def i14(b, _states=None):
    M, R, v = b["mag"], b["dist_rup"], b["v_s30"]

    def f(c):
        return (
            c.alpha_1
            + c.alpha_2 * M
            + c.alpha_3 * (8.5 - M) ** 2
            - (c.beta_1 + c.beta_2 * M) * np.log(R + 10)
            + c.epsilon * np.log(v)
            + c.gamma * R
            + np.where(is_(b["mechanism"], "RS"), c.phi, 0)
        )

    ln = np.where(M <= 6.75, f(IS), f(IL))
    T = np.clip(IS.period, 0.05, 3)
    sd = 1.18 + 0.035 * np.log(T) - 0.06 * np.clip(M, 5, 7.5)
    return result(IS, ln, sd, slice(0, 22), pga=0)
