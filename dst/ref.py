"""Reference model of the documented estimation and inference formulas, computed from reported numbers only."""
import numpy as np
from scipy.optimize import brentq
from scipy.stats import norm

RT = 1e-7


def close(a, b, rtol=RT, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def aggregate(all_coef, all_se, scaling):
    """Median over repetitions; variance: median of se^2 + (coef_r - coef)^2 / scaling."""
    scaling = np.asarray(scaling, float).reshape(-1, 1)
    c = np.median(all_coef, axis=1)
    return c, np.sqrt(np.median(all_se ** 2 + (all_coef - c[:, None]) ** 2 / scaling, axis=1))


def cluster_se(psi, deriv, smpls, smpls_cluster, cv, k):
    """Cluster-robust standard error (one- and two-way) of a score over a clustered splitting; and the scaling."""
    g = J = 0.0
    if cv.shape[1] == 1:
        c = cv[:, 0]
        for (tr, te), (ctr, cte) in zip(smpls, smpls_cluster):
            I = cte[0]
            g += sum(psi[c == v].sum() ** 2 for v in I) / len(I)
            J += deriv[te].sum() / len(I)
        n = len(np.unique(c))
        K = len(smpls)
    else:
        c1, c2 = cv[:, 0], cv[:, 1]
        for (tr, te), (ctr, cte) in zip(smpls, smpls_cluster):
            I, L = cte[0], cte[1]
            w = min(len(I), len(L)) / (len(I) * len(L)) ** 2
            g += w * sum(psi[(c1 == v) & np.isin(c2, L)].sum() ** 2 for v in I)
            g += w * sum(psi[(c2 == v) & np.isin(c1, I)].sum() ** 2 for v in L)
            J += deriv[te].sum() / (len(I) * len(L))
        n = min(len(np.unique(c1)), len(np.unique(c2)))
        K = len(smpls)
    g, J = g / K, J / K
    return np.sqrt(g / J ** 2 / n), n


def iid_se(psi, deriv):
    n = len(psi)
    return np.sqrt(np.mean(psi ** 2) / np.mean(deriv) ** 2 / n), n


def confint(all_thetas, all_ses, level, boot_t=None):
    R = all_thetas.shape[1]
    if boot_t is None:
        crit = np.full(R, norm.ppf(1 - (1 - level) / 2))
    else:
        crit = np.quantile(np.max(np.abs(boot_t), axis=1), level, axis=0)
    return np.column_stack((np.median(all_thetas - all_ses * crit, axis=1), np.median(all_thetas + all_ses * crit, axis=1)))


def pvals(all_thetas, all_ses):
    return np.median(2 * norm.sf(np.abs(all_thetas / all_ses)), axis=1)


def romano_wolf(all_t, boot_t):
    """Stepdown p-values per repetition, median over repetitions."""
    P, R = all_t.shape
    out = np.empty((P, R))
    for r in range(R):
        t = np.abs(all_t[:, r])
        order = sorted(range(P), key=lambda j: -t[j])
        prev = 0.0
        for i, j in enumerate(order):
            rest = order[i:]
            p = min(1.0, float(np.mean(np.max(np.abs(boot_t[:, rest, r]), axis=1) >= t[j])))
            prev = max(prev, p) if i else p
            out[j, r] = prev
    return np.median(out, axis=1)


def bonferroni(all_p):
    return np.median(np.minimum(1.0, all_p * all_p.shape[0]), axis=1)


def holm(all_p):
    P, R = all_p.shape
    out = np.empty((P, R))
    for r in range(R):
        o = np.argsort(all_p[:, r])
        run = 0.0
        for i, j in enumerate(o):
            run = max(run, min(1.0, (P - i) * all_p[j, r]))
            out[j, r] = run
    return np.median(out, axis=1)


def framework_messages(f, tol=RT):
    """Check one frozen inference object (snap_framework) against the formulas that need nothing else."""
    out = []
    at, as_ = f["all_thetas"], f["all_ses"]
    c, s = aggregate(at, as_, f["var_scaling_factors"])
    if not close(f["thetas"], c):
        out.append("estimates are not the median over the repetitions")
    if not close(f["ses"], s):
        out.append("standard errors are not the aggregate over the repetitions")
    if not close(f["t_stats"], f["thetas"] / f["ses"]):
        out.append("t statistics are not estimate / standard error")
    if not close(f["all_t_stats"], at / as_):
        out.append("t statistics per repetition are not estimate / standard error")
    if not close(f["pvals"], pvals(at, as_), rtol=1e-5, atol=1e-12):
        out.append("p-values do not follow from the t statistics")
    if np.any(f["ses"] < 0) or np.any(as_ < 0):
        out.append("negative standard errors")
    return out


# ----------------------------------------------------------------- scores at reported predictions
def normalize_ipw(m, d):
    w1, w0 = np.mean(d / m), np.mean((1 - d) / (1 - m))
    return d * m * w1 + (1 - d) * (1 - (1 - m) * w0)


def fold_means(v, smpls):
    out = np.full(len(v), np.nan)
    for tr, te in smpls:
        out[te] = np.mean(v[tr])
    return out


def cvar_threshold(y, target, smpls, treated, q):
    """The preliminary quantile of each fold, recovered from the reported targets; None if they do not come from one."""
    out = []
    for tr, te in smpls:
        i = te[treated[te]]
        yy, t = y[i], target[i]
        if len(i) == 0 or np.any(np.isnan(t)):
            return None
        for a in (np.min(t), (yy[0] - (1 - q) * t[0]) / q):
            if np.allclose(np.maximum(a, (yy - q * a) / (1 - q)), t, rtol=1e-9, atol=1e-9):
                out.append(a)
                break
        else:
            return None
    return out


def weights_of(spec, df, m_adj, d, r):
    from . import catalog as C
    o = spec["opts"]
    w = C.make_weights(spec)
    if w is None:
        w = np.ones(len(df))
    if spec["cls"] == "IRM" and o["score"] == "ATTE":
        sub = w * d
        p = np.mean(sub)
        return sub / p, m_adj * w / p
    if isinstance(w, dict):
        return w["weights"], w["weights_bar"][:, r]
    return w, w


def score(spec, df, treat, P, smpls, r, targets=None):
    """The documented score at the predictions P (nuisance -> (n,)): ('lin', psi_a, psi_b), ('nl', psi(theta), deriv(theta)) or None."""
    cls, o = spec["cls"], spec["opts"]
    y = df["y"].to_numpy(float)
    d = df[treat].to_numpy(float)
    n = len(y)
    one = np.ones(n)
    if cls in ("PLR", "PLRC"):
        v = d - P["ml_m"]
        if o["score"] in ("IV-type", "call:plr_g"):
            return "lin", -v * d, v * (y - P["ml_g"])
        return "lin", -v * v, v * (y - P["ml_l"])
    if cls in ("PLIV", "PLIVC"):
        part = o.get("partial")
        if part == "Z":
            return "lin", -P["ml_r"] * d, P["ml_r"] * y
        u = y - P["ml_l"]
        if part == "XZ":
            iv = P["ml_m"] - P["ml_r"]
            return "lin", -(d - P["ml_r"]) * iv, iv * u
        w = d - P["ml_r"]
        if o.get("n_instr", 1) == 2:
            Vz = df[["z", "z2"]].to_numpy(float) - np.column_stack((P["ml_m_z"], P["ml_m_z2"]))
            A = np.column_stack((one, Vz))
            rt = A @ np.linalg.lstsq(A, w, rcond=None)[0]
            return "lin", -w * rt, rt * u
        v = df["z"].to_numpy(float) - P["ml_m"]
        if o["score"] == "IV-type":
            return "lin", -v * d, v * (y - P["ml_g"])
        return "lin", -w * v, v * u
    if cls == "IRM":
        m = normalize_ipw(P["ml_m"], d) if o.get("normalize_ipw") else P["ml_m"]
        g0, g1 = P["ml_g0"], P["ml_g1"]
        ipw = d * (y - g1) / m - (1 - d) * (y - g0) / (1 - m)
        if str(o["score"]).startswith("call"):
            return "lin", -one, g1 - g0 + ipw
        w, wb = weights_of(spec, df, m, d, r)
        return "lin", -w / np.mean(w), w * (g1 - g0) + wb * ipw
    if cls == "APO":
        t = (d == o["treatment_level"]).astype(float)
        m = normalize_ipw(P["ml_m"], t) if o.get("normalize_ipw") else P["ml_m"]
        w, wb = weights_of(spec, df, m, d, r)
        return "lin", -w / np.mean(w), w * P["ml_g_d_lvl1"] + wb * t * (y - P["ml_g_d_lvl1"]) / m
    if cls == "IIVM":
        z = df["z"].to_numpy(float)
        m, g0, g1, r0, r1 = (P[k] for k in ("ml_m", "ml_g0", "ml_g1", "ml_r0", "ml_r1"))
        if o.get("normalize_ipw"):
            m = normalize_ipw(m, d)     # with respect to the treatment, as the repository's tests have it
        b = g1 - g0 + z * (y - g1) / m - (1 - z) * (y - g0) / (1 - m)
        a = r1 - r0 + z * (d - r1) / m - (1 - z) * (d - r0) / (1 - m)
        return "lin", -a, b
    if cls == "DID":
        p = fold_means(d, smpls)
        g0, g1 = P["ml_g0"], P["ml_g1"]
        norm_ = o.get("in_sample_normalization", True)
        if o["score"] == "observational":
            m = P["ml_m"]
            if norm_:
                q = (1 - d) * m / (1 - m)
                return "lin", -d / np.mean(d), (d / np.mean(d) - q / np.mean(q)) * (y - g0)
            return "lin", -d / p, (d - m) / (p * (1 - m)) * (y - g0)
        p = np.mean(d) if norm_ else p
        c = d / p - (1 - d) / (1 - p) if norm_ else (d - p) / (p * (1 - p))
        return "lin", -one, c * (y - g0) + (1 - d / p) * (g1 - g0)
    if cls == "DIDCS":
        t = df["t"].to_numpy(float)
        cell = {(a, b): (d == a) * (t == b) * 1.0 for a in (0, 1) for b in (0, 1)}
        g = {(a, b): P[f"ml_g_d{a}_t{b}"] for a in (0, 1) for b in (0, 1)}
        sg = {(1, 1): 1, (1, 0): -1, (0, 1): -1, (0, 0): 1}
        p, lam = fold_means(d, smpls), fold_means(t, smpls)
        obs, norm_ = o["score"] == "observational", o.get("in_sample_normalization", True)
        wa = one if not obs else d / np.mean(d) if norm_ else d / p
        psi_b = np.zeros(n)
        for (a, b), ind in cell.items():
            psi_b = psi_b + sg[a, b] * wa * g[a, b]
            w = ind * (P["ml_m"] / (1 - P["ml_m"]) if obs and a == 0 else 1.0)
            if norm_:
                w = w / np.mean(w)
            else:
                w = w / ((p if a == 1 or obs else 1 - p) * (lam if b == 1 else 1 - lam))
            psi_b = psi_b + sg[a, b] * w * (y - g[a, b])
        return "lin", -wa, psi_b
    if cls in ("PQ", "CVAR"):
        tr = d == o["treatment"]
        m = normalize_ipw(P["ml_m"], d) if o.get("normalize_ipw", True) else P["ml_m"]
        m = m if o["treatment"] == 1 else 1 - m
        q, g = o["quantile"], P["ml_g"]
        if cls == "CVAR":
            th = cvar_threshold(y, targets["ml_g"], smpls, tr, q)
            if th is None:
                return "bad", "the reported targets of ml_g do not come from one preliminary quantile per fold", None
            a = np.mean(th)
            return "lin", -one, tr * (np.maximum(a, (y - q * a) / (1 - q)) - g) / m + g
        return "nl", lambda th: tr * ((y <= th) - g) / m + g - q, lambda th: kde(y - th, tr / m)
    if cls == "LPQ":
        z = df["z"].to_numpy(float)
        tr, sign, q = d == o["treatment"], 2 * o["treatment"] - 1.0, o["quantile"]
        m = np.clip(P["ml_m_z"], o.get("trimming_threshold", 0.01), 1 - o.get("trimming_threshold", 0.01))
        m = normalize_ipw(m, z) if o.get("normalize_ipw", True) else m
        h1, h0 = z / m, (1 - z) / (1 - m)
        c = np.mean(P["ml_m_d_z1"] - P["ml_m_d_z0"] + h1 * (d - P["ml_m_d_z1"]) - h0 * (d - P["ml_m_d_z0"]))
        g0, g1 = P["ml_g_du_z0"], P["ml_g_du_z1"]
        return ("nl", lambda th: sign * (g1 - g0 + h1 * (tr * (y <= th) - g1) - h0 * (tr * (y <= th) - g0)) / c - q,
                lambda th: kde(y - th, sign * (h1 - h0) * tr / c))
    if cls == "SSM":
        s = df["s"].to_numpy(float)
        m, pi, g0, g1 = (P[k] for k in ("ml_m", "ml_pi", "ml_g_d0", "ml_g_d1"))
        w1, w0 = (d == 1) * s / (m * pi), (d == 0) * s / ((1 - m) * pi)
        if o.get("normalize_ipw"):
            w1, w0 = w1 * np.sum(d == 1) / np.sum(w1), w0 * np.sum(d == 0) / np.sum(w0)
        return "lin", -one, w1 * (y - g1) + g1 - w0 * (y - g0) - g0
    raise KeyError(cls)


def kde(u, w):
    from statsmodels.nonparametric.kde import KDEUnivariate
    k = KDEUnivariate(np.asarray(u).reshape(-1, 1))
    k.fit(kernel="gau", bw="silverman", weights=w, fft=False)
    return k.evaluate(0)


def is_root(f, th, scale):
    """theta is a zero or a sign change of the mean score f (a step function)."""
    if f(th) == 0:
        return True
    for e in (1e-9, 1e-7):
        a, b = f(th - e * scale), f(th + e * scale)
        if np.sign(a) != np.sign(b):
            return True
    return False


def solve(spec, df, sc, smpls, smpls_cluster):
    """The coefficient a linear score implies."""
    _, a, b = sc
    if smpls_cluster is None:
        return -np.mean(b) / np.mean(a)
    A = B = 0.0
    for (tr, te), (_, cte) in zip(smpls, smpls_cluster):
        k = np.prod([len(c) for c in cte])
        A += a[te].sum() / k
        B += b[te].sum() / k
    return -B / A


def moment(psi, smpls, smpls_cluster):
    """The empirical moment of a score: the mean, with clusters the fold sums each scaled by its number of clusters."""
    if smpls_cluster is None:
        return float(np.mean(psi))
    return float(sum(psi[te].sum() / np.prod([len(c) for c in cte]) for (tr, te), (_, cte) in zip(smpls, smpls_cluster)))


def residual2(spec, df, treat, P, theta):
    """Squared outcome residuals entering the sensitivity elements; None where not covered."""
    cls, o = spec["cls"], spec["opts"]
    y, d = df["y"].to_numpy(float), df[treat].to_numpy(float)
    if cls in ("PLR", "PLRC"):
        if o["score"] == "IV-type":
            return (y - P["ml_g"] - theta * d) ** 2
        return (y - P["ml_l"] - theta * (d - P["ml_m"])) ** 2
    if cls in ("IRM", "DID"):
        return (y - np.where(d == 1, P["ml_g1"], P["ml_g0"])) ** 2
    if cls == "APO":
        return (y - np.where(d == o["treatment_level"], P["ml_g_d_lvl1"], P["ml_g_d_lvl0"])) ** 2
    if cls == "DIDCS":
        t = df["t"].to_numpy()
        g = np.select([(d == a) & (t == b) for a in (0, 1) for b in (0, 1)], [P[f"ml_g_d{a}_t{b}"] for a in (0, 1) for b in (0, 1)])
        return (y - g) ** 2
    return None


def nu2_elements(spec, df, treat, P, r):
    """Per-observation elements of nu^2 (mean: nu^2) for the classes with a simple documented form; None otherwise."""
    cls, o = spec["cls"], spec["opts"]
    d = df[treat].to_numpy(float)
    if cls == "IRM":
        m = normalize_ipw(P["ml_m"], d) if o.get("normalize_ipw") else P["ml_m"]
        w, wb = weights_of(spec, df, m, d, r)
        return 2 * w * wb * (1 / m + 1 / (1 - m)) - (wb * (d / m - (1 - d) / (1 - m))) ** 2
    if cls == "APO":
        t = (d == o["treatment_level"]).astype(float)
        m = normalize_ipw(P["ml_m"], t) if o.get("normalize_ipw") else P["ml_m"]
        w, wb = weights_of(spec, df, m, d, r)
        return 2 * w * wb / m - (wb * t / m) ** 2
    return None


def robustness(f, p, smpls_args=None):
    """Robustness values: strength of confounding in both equations at which the bound (of the estimate, of its interval) meets the null
    hypothesis.  Per coefficient a pair; an entry is None where that strength is not unique."""
    grid = np.concatenate(([0.0], np.geomspace(1e-4, 0.9999, 60)))
    vals = {}

    def at(v, j, k, side):
        if v not in vals:
            vals[v] = sensitivity(f, {**p, "cf_y": v, "cf_d": v}, smpls_args)
        return vals[v][side][k][j]
    out = []
    for j, th in enumerate(f["thetas"]):
        null = p["null_hypothesis"][j]
        side = "upper" if null > th else "lower"
        pair = []
        for k in (0, 2):
            g = np.array([at(float(v), j, k, side) - null for v in grid])
            if np.isnan(g).any():
                pair.append(None)
                continue
            steps = np.diff(g) * (1 if side == "upper" else -1)
            if (steps < -1e-9 * (1 + np.abs(g).max())).any() or np.ptp(g) < 1e-9:
                pair.append(None)
            elif g[0] * g[-1] > 0:
                pair.append(0.0 if abs(g[0]) < abs(g[-1]) else float(grid[-1]))
            else:
                pair.append(brentq(lambda v: at(float(v), j, k, side) - null, 0.0, float(grid[-1]), xtol=1e-7))
        out.append(pair)
    return out


def sensitivity(f, p, smpls_args=None):
    """Bounds, their standard errors and confidence bounds from a frozen inference object f and input parameters p."""
    s = abs(p["rho"]) * np.sqrt(p["cf_y"] * p["cf_d"] / (1 - p["cf_d"]))
    mb, pmb = f["sensitivity_elements"]["max_bias"][0], f["sensitivity_elements"]["psi_max_bias"]
    z = norm.ppf(p["level"])
    out = {}
    for name, sg in (("lower", -1), ("upper", 1)):
        th = f["all_thetas"] + sg * s * mb
        psi = f["scaled_psi"] + sg * s * pmb
        if smpls_args is None:
            se = np.sqrt(np.mean(psi ** 2, axis=0) / psi.shape[0])
        else:
            se = np.array([[cluster_se(psi[:, j, r], np.ones(len(psi)), *smpls_args(r))[0] for r in range(psi.shape[2])]
                           for j in range(psi.shape[1])])
        t, e = aggregate(th, se, f["var_scaling_factors"])
        out[name] = (t, e, np.median(th + sg * z * se, axis=1))
    return out
