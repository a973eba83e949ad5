"""Reference models of the duration, Fourier amplitude, ratio and correlation models."""

import json
import os

import numpy as np

from .common import DATA, Table, clip01, default, is_


def load(name):
    with open(os.path.join(DATA, name)) as fp:
        return json.load(fp)


# -- Gulerce and Abrahamson (2011) ------------------------------------------
GA = Table("gulerce_abrahamson_2011-coefficients.csv", 2)
GA_PERIODS = GA.period[0]
GA_INTERP = np.array([0.005, 0.01, 0.013, 0.02, 0.06, 0.21, 0.45, 0.5, 1.2, 2.7, 6.0, 10.0, 12.0])


def log_interp(x, xp, y):
    """Linear over the logarithm of x, constant beyond the limits."""
    out = np.empty((y.shape[0], len(x)))
    lx, lxp = np.log(x), np.log(xp)
    for j, v in enumerate(lx):
        if v <= lxp[0]:
            out[:, j] = y[:, 0]
        elif v >= lxp[-1]:
            out[:, j] = y[:, -1]
        else:
            i = max(k for k in range(len(lxp)) if lxp[k] <= v)
            w = (v - lxp[i]) / (lxp[i + 1] - lxp[i])
            out[:, j] = (1 - w) * y[:, i] + w * y[:, i + 1]
    return out


def ga11(b, _states=None):
    c = GA
    M, R, V, pga, mech = (b[k] for k in ("mag", "dist_rup", "v_s30", "pga_ref", "mechanism"))
    dm = M - c.c1
    ln = (
        c.a1
        + np.where(dm < 0, c.a4, c.a5) * dm
        + c.a8 * (8.5 - M) ** 2
        + (c.a2 + c.a3 * dm) * 0.5 * np.log(R**2 + c.c4**2)
        + np.where(is_(mech, "RS"), c.a6, 0)
        + np.where(is_(mech, "NS"), c.a7, 0)
    )
    t = c.period
    v1 = np.full_like(t, 700.0)
    mid = (t > 1) & (t <= 2)
    v1[mid] = np.exp(6.76 - 0.297 * np.log(t[mid]))
    mid = (t > 0.5) & (t <= 1)
    v1[mid] = np.exp(8 - 0.795 * np.log(t[mid] / 0.21))
    v1[(t <= 0.5) & (t >= 0)] = 1500.0
    v1[t < 0] = 862.0
    vl = np.minimum(V, v1)
    r = vl / c.v_lin
    # Horizontal amplification is removed from the vertical
    horiz = np.where(
        vl < c.v_lin,
        c.b * (np.log(pga + c.c * r**c.n) - np.log(pga + c.c)),
        c.b * c.n * np.log(r),
    )
    ln = ln + c.a10 * np.log(r) - horiz
    w = clip01((M - 5) / 2)
    sd = np.hypot(c.s1 + w * (c.s2 - c.s1), c.s3 + w * (c.s4 - c.s3))
    p = GA_PERIODS[2:]
    return dict(
        ratio=np.exp(ln),
        ln_std=sd,
        interp_ratio=np.exp(log_interp(GA_INTERP, p, ln[:, 2:])),
        interp_ln_std=log_interp(GA_INTERP, p, sd[:, 2:]),
    )


# -- Durations --------------------------------------------------------------
def moment(M):
    return 10 ** (1.5 * M + 16.05)


def brune_dur(stress, M):
    """Inverse of the corner frequency."""
    return 1 / (4.9e6 * 3.2 * np.cbrt(stress / moment(M)))


AS96_NIAS = np.array(
    [0.05, 0.0999, 0.1, 0.12, 0.15, 0.2, 0.28, 0.33, 0.4, 0.5, 0.62, 0.75, 0.77, 0.85]
    + [0.9, 0.93, 0.95, 0.951, 1.0]
)
AS96_STDS = np.array([-2.0, -1.0, 0.0, 0.5, 1.0])
AS96_ERR = [
    0.843, 0.759, 0.713, 0.691, 0.674, 0.660, 0.646, 0.636, 0.628,
    0.616, 0.605, 0.594, 0.582, 0.565, 0.545, 0.528, 0.510, 0.493,
]  # fmt: skip


def as96(b, _states=None):
    M, R = b["mag"], b["dist_rup"]
    stress = np.exp(5.204 + 0.851 * (M - 6))

    def incr(i):
        x = np.log((i - 0.05) / (1 - i))
        return np.where((i < 0.1) | (i > 0.95), np.nan, -0.532 + 0.552 * x - 0.0262 * x**2)

    total = (
        brune_dur(stress, M)
        + np.where(is_(b["site_cond"], "soil"), 0.805, 0)
        + 0.063 * np.maximum(R - 10, 0)
    )
    ln = np.log(total) + incr(np.array(0.75))
    curve = ln + incr(AS96_NIAS[None, :])
    err = np.interp(AS96_NIAS, 0.05 * np.arange(2, 20), AS96_ERR)
    return dict(
        duration=np.exp(ln)[:, 0],
        std_err=np.full(len(M), 0.55),
        increments=np.tile(incr(AS96_NIAS), (len(M), 1)),
        interp=np.exp(curve),
        interp_stds=np.exp(curve[:, None, :] + AS96_STDS[None, :, None] * err),
    )


def ks06(b, _states=None):
    M, R, V = b["mag"], b["dist_rup"], b["v_s30"]
    dm = M - 6
    stress = np.exp(
        np.hstack([6.02 + 0 * dm, 2.79 + 0.82 * dm, 5.46 + 0 * dm, 1.53 + 1.34 * dm])
    )
    d = (
        brune_dur(stress, M)
        + np.array([[0.07, 0.15, 0.10, 0.15]]) * R
        + np.array([[0.82, 3.0, 1.40, 3.99]])
        - np.array([[0.0013, 0.0041, 0.0022, 0.0062]]) * V
    )
    d = np.where(d > 0, d, np.where(d == 0, 0.0, np.nan))
    sd = np.broadcast_to([0.57, 0.47, 0.66, 0.52], d.shape)
    out = {}
    for i, k in enumerate(("D_5t75a", "D_5t95a", "D_5t75v", "D_5t95v")):
        out[k] = d[:, i]
        out["std_err_" + k] = sd[:, i]
    return out


def basin_depth(v, p, ref, k):
    return np.exp(-k / p * np.log((v**p + ref**p) / (1360.0**p + ref**p))) / 1000


AS16_B = dict(
    SS=([1.279, 2.302, 0.8804], [5.578, 3.467, 6.188]),
    NS=([1.555, 2.541, 1.409], [4.992, 3.170, 4.778]),
    RS=([0.7806, 1.612, 0.7729], [7.061, 4.536, 6.579]),
    # the "unspecified" mechanism: any value which is not one of the options
    U=([1.280, 2.182, 0.8822], [5.576, 3.628, 6.182]),
)


def as16(b, _states=None):
    M, R, V = b["mag"], b["dist_rup"], b["v_s30"]
    m1, m2 = np.array([[5.35, 5.2, 5.2]]), np.array([[7.15, 7.4, 7.4]])
    b0 = np.zeros((len(M), 3))
    b1 = np.zeros((len(M), 3))
    for k, (x, y) in AS16_B.items():
        w = is_(b["mechanism"], k)
        b0 = np.where(w, x, b0)
        b1 = np.where(w, y, b1)
    ln_stress = (
        b1
        + np.array([[0.9011, 0.9443, 0.7414]]) * (np.minimum(M, m2) - 6)
        + np.array([[-1.684, -3.911, -3.164]]) * np.maximum(M - m2, 0)
    )
    src = np.where(M > m1, brune_dur(np.exp(ln_stress), M), b0)
    path = (
        np.array([[0.1159, 0.3165, 0.0646]]) * np.clip(R, 0, 10)
        + np.array([[0.1065, 0.2539, 0.0865]]) * (np.clip(R, 10, 50) - 10)
        + np.array([[0.0682, 0.0932, 0.0373]]) * (np.maximum(R, 50) - 50)
    )
    dz = 1000 * (b["depth_1_0"] - basin_depth(V, 4, 570.94, 7.15))  # m
    dz = np.where(np.isnan(dz), 0, np.minimum(dz, 200))
    site = (
        np.array([[-0.2246, -0.3183, -0.4237]])
        * np.log(np.minimum(V, 600) / np.array([[368.2, 369.9, 369.6]]))
        + np.array([[0.0006, 0.0006, 0.0005]]) * dz
    )
    d = (src + path) * np.exp(site)
    wt, wp = clip01((M - 6.5) / 0.5), clip01((M - 5.5) / 0.25)
    tau = (1 - wt) * np.array([[0.28, 0.25, 0.30]]) + wt * np.array([[0.25, 0.19, 0.19]])
    phi = (1 - wp) * np.array([[0.54, 0.43, 0.56]]) + wp * np.array([[0.41, 0.35, 0.45]])
    sd = np.hypot(tau, phi)
    out = {}
    for i, k in enumerate(("D_5t75", "D_5t95", "D_20t80")):
        out[k] = d[:, i]
        out["std_err_" + k] = sd[:, i]
    return out


# -- Pinilla-Ramos et al. (2023) --------------------------------------------
# All fractions with coefficients, and both sides of the middle between them, where
# the closest fraction with coefficients changes
ENERGIES = [round(0.05 * i, 2) for i in range(2, 20)]
PR23_ENERGY = sorted(
    ENERGIES + [e + d for e in ENERGIES[:-1] for d in (0.01, 0.024, 0.026)]
)
PR23 = {k: np.array(v) for k, v in load("pinilla_ramos_2023.json").items()}


def pr23(b, _states=None):
    M, R, V = b["mag"], b["dist_rup"], b["v_s30"]
    c2 = np.where(
        R <= 10,
        0.41 + 0.045 * R / 10,
        np.where(
            R <= 42,
            0.455 + 0.085 * (R - 10) / 32,
            0.54 + 0.035 * (R - 42) / 158,
        ),
    )
    dm = M - 6.75
    src = 3.655 * 10 ** (dm * np.where(dm < 0, 0.515, c2))
    path = 0.041 * R + (
        0.063 * np.minimum(R, 44)
        + 0.034 * (np.clip(R, 44, 130) - 44)
        + 0.083 * (np.maximum(R, 130) - 130)
    )
    lv = np.log(V)
    top = 0.565 * clip01((np.log(2000) - lv) / (np.log(2000) - np.log(1900)))
    soft = (1.11 - 0.565) * clip01((np.log(275) - lv) / (np.log(275) - np.log(200)))
    site = -0.619 * (lv - np.log(2000)) * np.exp(0.278 * (top + soft))
    med = src + path + site
    x = R / 100
    sig = (
        0.537
        - 0.093 * x
        + 0.0278 * x**2
        - 0.0372 * M
        + 0.00179 * M**2
        + np.minimum(0.0206 * (200 / V) ** 2.401, 0.0419)
    )
    n = 0.3

    def bounds(median, s):
        p = median**n
        return [median, (p + s) ** (1 / n), (p - s) ** (1 / n)]

    out = dict(zip(("duration", "plus", "minus"), (v[:, 0] for v in bounds(med, sig))))
    curves = []
    for e in PR23_ENERGY:
        i = int(round((e - 0.05) / 0.05))
        c = {k: v[i] for k, v in PR23.items()}
        ratio = c["cmed"] + c["a0"] + c["r1x"] * R + c["v1x"] * (lv - np.log(2000))
        ga, gc = ratio**n, med**n * n * ratio ** (n - 1)
        s = np.sqrt(
            (ga * sig) ** 2
            + (gc * c["std_c"]) ** 2
            + 2 * c["r"] * ga * gc * sig * c["std_c"]
        )
        curves.append(np.hstack(bounds(ratio * med, s)))
    out["energy"] = np.stack(curves, axis=1)
    return out


# -- Pinilla-Ramos et al. (2024) --------------------------------------------
PR24_ENERGY = PR23_ENERGY
PR24 = {
    k: {a: np.array(x) for a, x in v.items()}
    for k, v in load("pinilla_ramos_2024.json").items()
}
PR24_NAMES = {
    "D5-10": 0.25, "D5-20": 0.35, "D5-30": 0.50, "D5-40": 0.65, "D5-50": 0.75,
    "D5-60": 0.85, "D5-70": 0.95, "D5-75": 1.00, "D5-80": 1.10, "D5-85": 1.25,
    "D5-90": 1.45, "D5-95": 1.80,
}  # fmt: skip
PR24_REGION = dict(
    interface={
        "Japan": (0.03, -2.485),
        "New Zealand": (0.024, -2.420),
        "South America": (0.024, -2.248),
    },
    slab={
        "Japan": (0.046, -1.480),
        "New Zealand": (0.032, -1.252),
        "South America": (0.042, -1.510),
        "Taiwan": (0.038, -1.151),
    },
)


def pr24_core(M, R, V, region, event):
    slab = is_(event, "slab")
    base = np.full(M.shape, np.nan)
    vs = np.full(M.shape, np.nan)
    for e, regs in PR24_REGION.items():
        for r, (x, y) in regs.items():
            w = is_(event, e) & is_(region, r)
            base, vs = np.where(w, x, base), np.where(w, y, vs)
    inter = 5.268 * 10 ** ((M - 7.0) * 0.275)
    intra = 0.340 * 10 ** ((np.minimum(M, 6.0) - 4.25) * 0.5) + 2.770 * np.maximum(
        M - 6.0, 0
    ) / 2.5
    near = np.where(slab, 0.013, 0.031)
    far = np.where(slab, 0.020, 0.029)
    med = (
        np.where(slab, intra, inter)
        + vs * np.log(V / 3100)
        + near * np.minimum(R, 250)
        + far * np.maximum(R - 250, 0)
        + base * R
    )
    x = R / 100
    k_i = (0.3107, -0.0393, 0.0062, -0.0519, 0.0041, 0.0028)
    k_s = (0.3035, -0.0188, 0.004, -0.0288, 0.0019, 0.0038)
    terms = (1.0, x, x**2, M, M**2, np.log(V))
    sig = np.where(
        slab,
        sum(k * t for k, t in zip(k_s, terms)),
        sum(k * t for k, t in zip(k_i, terms)),
    )
    return med, sig


def pr24_energy(M, R, V, event, med, sig, e):
    """Median, plus and minus one standard deviation; of size (N, 1)."""
    slab = is_(event, "slab")
    n = np.where(slab, 0.25, 0.15)
    i = int(round((e - 0.10) / 0.05))
    if abs(e - 0.75) < 1e-9:
        m, s = med, sig
    else:
        c = {
            k: np.where(slab, PR24["slab"][k][i], PR24["interface"][k][i])
            for k in PR24["slab"]
            if k != "n2"
        }
        ratio = (
            c["c_median"]
            + c["a0"]
            + c["m1"] * M
            + c["r1"] * R / 100
            + c["v1"] * np.log(V / 3100)
        )
        m = ratio * med
        ga, gc = ratio**n * sig, n * c["sigma_c"] * med**n * ratio ** (n - 1)
        s = np.sqrt(ga**2 + gc**2 + 2 * c["rho_c_d575"] * ga * gc)
    p = m**n
    return m, (p + s) ** (1 / n), (p - s) ** (1 / n)


def pr24(b, _states=None):
    M, R, V = b["mag"], b["dist_rup"], b["v_s30"]
    event = b["event_type"]
    med, sig = pr24_core(M, R, V, b["region"], event)
    d, p, m = pr24_energy(M, R, V, event, med, sig, 0.75)
    return dict(
        duration=d[:, 0],
        plus=p[:, 0],
        minus=m[:, 0],
        d575_median=med[:, 0],
        d575_sigma=sig[:, 0],
        d5x_median=med * np.array(list(PR24_NAMES.values())),
        d5x_sigma=sig * np.ones(len(PR24_NAMES)),
        energy=np.stack(
            [
                np.hstack(pr24_energy(M, R, V, event, med, sig, e))
                for e in PR24_ENERGY
            ],
            axis=1,
        ),
    )


# -- Bayless and Abrahamson (2019) ------------------------------------------
BA = Table("bayless_abrahamson_2019.csv", 2)


def ba19(b, _states=None):
    c = BA
    M, R, V = b["mag"], b["dist_rup"], b["v_s30"]
    f = c.freq_hz
    scaling = (
        c.c1
        + c.c2 * (M - 6)
        + (c.c2 - c.c3) / c.cn * np.log1p(np.exp(c.cn * (c.cM - M)))
        + c.c4 * np.log(R + c.c5 * np.cosh(c.c6 * np.maximum(M - c.chm, 0)))
        - (0.5 + c.c4) * np.log(np.hypot(R, 50))
        + c.c7 * R
        + c.c9 * np.minimum(b["depth_tor"], 20)
        + np.where(is_(default(b["mechanism"], "SS"), "NS"), c.c10, 0)
    )
    n = 239  # up to 24 Hz
    ln_ref = scaling[:, 170:171]  # basin term vanishes at the reference
    z_ref = basin_depth(V, 4, 610.0, 7.67)
    z = default(b["depth_1_0"], np.nan)
    z = np.where(np.isnan(z), z_ref, z)
    slope = np.where(
        V <= 200, c.c11a, np.where(V <= 300, c.c11b, np.where(V <= 500, c.c11c, c.c11d))
    )
    basin = slope * np.log((np.minimum(z, 2) + 0.01) / (z_ref + 0.01))
    lin = c.c8 * np.log(np.minimum(V, 1000) / 1000)
    ir = np.exp(1.238 + 0.846 * ln_ref)
    f2 = c.f4 * (
        np.exp(c.f5 * (np.minimum(V, 760) - 360)) - np.exp(c.f5 * (760.0 - 360))
    )
    nl = (f2 * np.log((ir + c.f3) / c.f3))[:, :n]
    # Deamplification remains at its maximum, smoothed by 7-point running mean
    out = np.empty_like(nl)
    for j, row in enumerate(nl):
        k = int(np.argmin(row))
        row = np.concatenate([row[: k + 1], np.full(n - k - 1, row[k])])
        padded = np.concatenate([np.zeros(3), row, np.zeros(3)])
        sm = np.array([padded[i : i + 7].sum() / 7 for i in range(n)])
        sm[n - 7 :] = row[k]
        out[j] = sm
    ln = (scaling + basin + lin)[:, :n] + out
    kappa = np.exp(-0.4 * np.log(V / 760) - 3.5)
    tail = ln[:, n - 1 :] - np.pi * kappa * (f[:, n:] - f[:, n - 1 : n])
    ln = np.hstack([ln, tail])
    w = clip01((M - 4) / 2)
    sd = np.sqrt(
        ((1 - w) * c.s1 + w * c.s2) ** 2
        + ((1 - w) * c.s3 + w * c.s4) ** 2
        + ((1 - w) * c.s5 + w * c.s6) ** 2
        + np.nan_to_num(c.c1a)**2
    )
    return dict(eas=np.exp(ln), ln_eas=ln, ln_std=sd, freqs=np.repeat(f, len(M), axis=0))


# -- Bayless and Abrahamson (2018) ------------------------------------------
BA18 = Table("bayless_abrahamson_2018.csv", 3)


def ba18_corr(fi, fj):
    lo, hi = min(fi, fj), max(fi, fj)
    if lo == hi:
        return 1.0
    a, b, c, d = (
        float(np.interp(lo, BA18.freq_hz[0], getattr(BA18, k)[0])) for k in "ABCD"
    )
    r = np.log(hi / lo)
    return float(np.tanh(a * np.exp(b * r) + c * np.exp(d * r)))


def ba18(_b, states):
    corr, cov, own = [], [], []
    for s in states:
        fr = s["freqs"]
        m = np.array([[ba18_corr(x, y) for y in fr] for x in fr])
        sd = np.interp(fr, BA18.freq_hz[0], getattr(BA18, s["component"])[0])
        corr.append(m)
        cov.append(m * np.outer(sd, sd))
        st = np.array([0.3 + 0.1 * i for i in range(len(fr))])
        own.append(m * np.outer(st, st))
    return dict(corr=pad(corr), cov=pad(cov), cov_std=pad(own))


def pad(mats, n=5):
    """Common shape."""
    out = np.zeros((len(mats), n, n))
    for i, m in enumerate(mats):
        out[i, : m.shape[0], : m.shape[1]] = m
    return out


# -- Stafford (2017) --------------------------------------------------------
ST = load("stafford_2017.json")


def logistic(f, a, mid, k):
    r = (f / mid) ** k
    return a * r / (1 + r)


def st_terms(f, mag):
    """Parameters of the correlation functions at the lower frequency."""
    g = ST
    corner = 10 ** (g["CF_C1"] - g["CF_C2"] * mag)
    fn = f / corner
    gam_e = (
        g["gamma_E0"]
        + logistic(fn, g["gamma_E1"], g["gamma_E2"], g["gamma_E3"])
        + g["gamma_E4"] * np.log(fn / g["gamma_E2"])
    )
    eta_a = logistic(f, g["eta_A0"], g["eta_A1"], g["eta_A2"]) * (
        1 + logistic(f, g["eta_A3"], g["eta_A4"], g["eta_A5"])
    )
    lo = np.minimum(f, 10.0)
    s_term = lo / (lo + g["gamma_A2"] * (1 - lo / 10.0))
    gam_a = (
        g["gamma_A0"]
        + g["gamma_A1"] * s_term
        + g["gamma_A3"] * np.log(np.maximum(f / 10.0, 1)) ** 2
    )
    eta_s = g["eta_S0"] * np.log(np.clip(f, 0.25, 4.0) / 0.25) + g["eta_S1"] * np.log(
        np.maximum(f / 4.0, 1)
    )
    gam_s = (
        g["gamma_S0"]
        + logistic(f, g["gamma_S1"], g["gamma_S2"], g["gamma_S3"])
        + logistic(f, g["gamma_S4"], g["gamma_S5"], g["gamma_S6"])
    )
    return gam_e, eta_a, gam_a, eta_s, gam_s


def st_corrs(fi, fj, mag):
    lo, hi = np.minimum(fi, fj), np.maximum(fi, fj)
    x = hi / lo
    gam_e, eta_a, gam_a, eta_s, gam_s = st_terms(lo, mag)
    nug = x**-50.0
    event = x**gam_e
    within = (1 - eta_a) * x**-gam_a * (1 - nug) + nug
    site = (1 - eta_s) * x**gam_s * (1 - nug) + nug
    return event, site, within


def st_sds(f):
    g = ST
    e = (
        g["sigma_E0"]
        + logistic(f, g["sigma_E1"], g["sigma_E2"], g["sigma_E3"])
        + logistic(f, g["sigma_E4"], g["sigma_E5"], g["sigma_E6"])
    )
    s = (
        g["sigma_S0"]
        + logistic(f, g["sigma_S1"], g["sigma_S2"], g["sigma_S3"])
        + logistic(f, g["sigma_S4"], g["sigma_S5"], g["sigma_S6"])
    )
    a = g["sigma_A0"] + g["sigma_A1"] * np.log(np.maximum(f / 5.0, 1)) ** 2
    return e, s, a


def st_pair(b, _states=None):
    e, s, w = st_corrs(b["f_i"], b["f_j"], b["mag"])
    sd = np.hstack(st_sds(b["f_i"]))
    return dict(event=e[:, 0], site=s[:, 0], within=w[:, 0], sds=sd)


def st_matrix(_b, states):
    cov, cor = [], []
    for s in states:
        f = np.array(s["freqs"])
        sds = [
            np.array([0.3 + 0.1 * i + 0.2 * k for i in range(len(f))])
            if s["own"] >> k & 1
            else computed
            for k, computed in enumerate(st_sds(f))
        ]
        rho = st_corrs(f[:, None], f[None, :], s["mag"] or 6.0)
        m = sum(r * np.outer(d, d) for r, d in zip(rho, sds))
        d = np.sqrt(np.diag(m))
        cov.append(m)
        cor.append(m / np.outer(d, d))
    return dict(cov=pad(cov), cor=pad(cor))


# -- Baker and Jayaram (2008) -----------------------------------------------
BJ_PERIODS = np.unique(
    np.r_[
        np.geomspace(0.01, 10, 121),
        0.1089, 0.109, 0.1091, 0.1999, 0.2, 0.2001, 0.05, 0.5, 1.0, 2.0, 5.0,
    ]
)  # fmt: skip


def bj_rho(t1, t2):
    lo, hi = min(t1, t2), max(t1, t2)
    c1 = 1 - np.cos(np.pi / 2 - 0.366 * np.log(hi / max(lo, 0.109)))
    c2 = 0.0
    if hi < 0.2:
        logi = 1 / (1 + np.exp(100 * hi - 5))
        c2 = 1 - 0.105 * (1 - logi) * (hi - lo) / (hi - 0.0099)
    c3 = c2 if hi < 0.109 else c1
    c4 = c1 + 0.5 * (np.sqrt(c3) - c3) * (1 + np.cos(np.pi * lo / 0.109))
    if hi < 0.109:
        return c2
    if lo > 0.109:
        return c1
    if hi < 0.2:
        return min(c2, c4)
    return c4


def bj08(_b, states):
    rows = []
    for s in states:
        rows.append([bj_rho(t, s["period_cond"]) for t in BJ_PERIODS])
    return dict(corr=np.array(rows), scalar=np.array([r[37] for r in rows]))


def spectrum(shape, periods):
    """Some target spectra, and standard deviations."""
    lt = np.log(np.asarray(periods))
    ln = [-1.0 - 0.6 * (lt - np.log(0.2)) ** 2, -2 - 0.9 * lt, 0.3 * np.sin(2 * lt) - 1.5][
        shape
    ]
    sd = [0.6 + 0.05 * lt**2 / 4, 0.65 + 0 * lt, 0.5 + 0.03 * (lt + 4)][shape]
    return ln, sd


CMS_PERIODS = np.geomspace(0.02, 8.0, 41)


def cms(_b, states):
    mean, sd = [], []
    for s in states:
        ln, sig = spectrum(s["shape"], CMS_PERIODS)
        tc = s["period_cond"]
        m = np.interp(tc, CMS_PERIODS, ln)
        k = np.interp(tc, CMS_PERIODS, sig)
        eps = s["epsilon"]
        # Target is given by the number of standard deviations
        rho = np.array([bj_rho(t, tc) for t in CMS_PERIODS])
        mean.append(ln + eps * rho * sig)
        sd.append(sig * np.sqrt(np.maximum(1 - rho**2, 0)))
        assert np.isfinite(m + k)
    return dict(mean=np.array(mean), sd=np.array(sd))


KISHIDA_PERIODS = {
    4: [0.02, 0.15, 0.8, 3.0],
    7: [0.01, 0.05, 0.12, 0.3, 0.9, 2.5, 7.0],
    8: [0.1, 0.1005, 0.2, 0.5, 0.502, 1.0, 1.01, 1.011],
    9: [0.015, 0.06, 0.11, 0.19, 0.4, 0.85, 1.7, 3.6, 8.0],
    11: [0.015, 0.05, 0.09, 0.15, 0.25, 0.42, 0.8, 1.5, 2.8, 5.0, 9.0],
}


def kishida(_b, states):
    """Conditions on one period after the other."""
    n = max(KISHIDA_PERIODS)
    mean, sd = np.zeros((len(states), n)), np.zeros((len(states), n))
    for j, s in enumerate(states):
        per = KISHIDA_PERIODS[s["n"]]
        ln, sig = spectrum(s["shape"], per)
        cov = np.array([[bj_rho(x, y) for y in per] for x in per]) * np.outer(sig, sig)
        mu = ln.copy()
        for i in range(len(per)):
            if s["given"] >> i & 1:
                target = ln[i] + kishida_eps(i) * sig[i]
                gain = cov[:, i] / cov[i, i]
                mu = mu + gain * (target - mu[i])
                cov = cov - np.outer(gain, cov[i])
                mu[i] = target
                cov[i, :] = cov[:, i] = 0
        mean[j, : len(per)] = mu
        sd[j, : len(per)] = np.sqrt(np.maximum(np.diag(cov), 0))
    return dict(mean=mean, sd=sd)


def kishida_eps(i):
    return [1.0, -0.5, 0.8, 1.6, 0.2, -1.1, 0.6, 2.0, 0.0, 0.9, -0.3][i]


# -- Abrahamson and Bhasin (2020) -------------------------------------------
AB20 = dict(
    pga=(4.77, 0.738, 0.484, 0.275, -0.036, -0.332, -0.44, 0.0, 0.32, 0.42, 0.12, 0.26),
    psa_1s=(4.80, 0.82, 0.55, 0.27, 0.054, -0.382, -0.21, 0.0, 0.28, 0.38, 0.12, 0.17),
)


def ab20(b, states=None):
    M, R, V = b["mag"], b["dist_rup"], b["v_s30"]
    k = np.array([AB20[s["measure"]] for s in states]).T[:, :, None]
    a1, a2, a3, a4, a5, a6, a7, a8, p1, p2, t1, t2 = k
    slope = a2 + (a3 - a2) * clip01((M - 5) / 2.5)
    ln = (
        a1
        + slope * np.log(b["value"])
        + a4 * (M - 6)
        + a5 * (8.5 - M) ** 2
        + a6 * np.log(R + 5 * np.exp(0.4 * (M - 6)))
        + (a7 + a8 * (M - 5)) * np.log(V / 425.0)
    )
    w = clip01((M - 5) / 2)
    sd = np.hypot(p1 + w * (p2 - p1), t1 + w * (t2 - t1))
    return dict(pgv=np.exp(ln)[:, 0], ln_std_pgv=sd[:, 0], ln_period=(0.66 * M - 4.09)[:, 0])


# -- Hermkes, Kuehn and Riggelsen (2014) ------------------------------------
def hkr_events():
    """A synthetic training set: the published set cannot be redistributed."""
    ev, pr = [], []
    for m in (4.0, 5.5, 7.0):
        for z in (5.0, 20.0):
            for mech in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
                for r in (3.0, 40.0, 160.0):
                    for v in (200.0, 500.0, 1100.0):
                        ev.append((m, z) + mech + (r, v))
                        i = len(ev)
                        row = []
                        for k in range(6):
                            row += [-2 + 0.01 * i - 0.1 * k, 0.2 + 0.001 * i + 0.01 * k]
                        pr.append(row)
    return np.array(ev, float), np.array(pr, float)


def hkr14(b, _states=None):
    ev, pr = hkr_events()
    mech = b["mechanism"]
    x = np.hstack(
        [
            b["mag"],
            default(b["depth_hyp"], 15.0),
            is_(mech, "RS"),
            is_(mech, "SS"),
            is_(mech, "NS"),
            b["dist_jb"],
            b["v_s30"],
        ]
    ).astype(float)
    d = ((x[:, None, :] - ev[None]) ** 2).sum(axis=2)
    p = pr[d.argmin(axis=1)]
    ln, sd = p[:, 0::2], np.sqrt(p[:, 1::2])
    return dict(
        spec_accels=np.exp(ln[:, 1:6]),
        ln_stds=sd[:, 1:6],
        pga=np.exp(ln[:, 1]),
        ln_std_pga=sd[:, 1],
        pgv=np.exp(ln[:, 0]),
        ln_std_pgv=sd[:, 0],
    )
