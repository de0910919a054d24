"""Model catalogue: data, learners, models and the honesty rules, built from a JSON spec.

spec = {"cls": ..., "opts": {...}, "n": .., "dseed": .., "n_folds": .., "n_rep": .., "ytype": "cont"|"int"|"bin"}
"""
import copy
import os
import random
import warnings

import numpy as np
import pandas as pd

warnings.filterwarnings("ignore")

import doubleml as dml  # noqa: E402
from doubleml.double_ml_framework import DoubleMLFramework, concat  # noqa: E402,F401
from doubleml.utils import GlobalClassifier, GlobalRegressor  # noqa: E402

from .learners import ID_BASE, REC, QuietCls, QuietReg, RecCls, RecReg, SingleCls, SingleReg  # noqa: E402

try:
    from doubleml.rdd import RDFlex
except Exception:  # pragma: no cover
    RDFlex = None

X_COLS = ["x1", "x2", "x3", "xid"]


# ----------------------------------------------------------------- user callables (module level: picklable)
def score_plr(y, d, l_hat, m_hat, g_hat, smpls):
    REC.enter("score", None)
    v = d - m_hat
    return -v * v, v * (y - l_hat)


def score_plr_g(y, d, l_hat, m_hat, g_hat, smpls):
    REC.enter("score", None)
    v = d - m_hat
    return -v * d, v * (y - g_hat)


def score_irm(y, d, g_hat0, g_hat1, m_hat, smpls):
    REC.enter("score", None)
    psi_b = g_hat1 - g_hat0 + d * (y - g_hat1) / m_hat - (1.0 - d) * (y - g_hat0) / (1.0 - m_hat)
    return np.full_like(m_hat, -1.0), psi_b


def score_iivm(y, z, d, g_hat0, g_hat1, m_hat, r_hat0, r_hat1, smpls):
    REC.enter("score", None)
    psi_b = g_hat1 - g_hat0 + z * (y - g_hat1) / m_hat - (1.0 - z) * (y - g_hat0) / (1.0 - m_hat)
    psi_a = -(r_hat1 - r_hat0 + z * (d - r_hat1) / m_hat - (1.0 - z) * (d - r_hat0) / (1.0 - m_hat))
    return psi_a, psi_b


def score_pliv(y, z, d, l_hat, m_hat, r_hat, g_hat, smpls):
    REC.enter("score", None)
    return -(d - r_hat) * (z - m_hat), (z - m_hat) * (y - l_hat)


def kernel_custom(x, h):
    return np.array(np.maximum(0, 1 - (np.abs(x) / (h * 1.3)) ** 2), dtype=float)


def prefer_large(est, X, y):
    est.predict(X)
    return float(est.alpha)


def prefer_small(est, X, y):
    est.predict(X)
    return -float(est.alpha)


CALL = {"plr": score_plr, "plr_g": score_plr_g, "irm": score_irm, "iivm": score_iivm, "pliv": score_pliv}


# ----------------------------------------------------------------- option grid
# (class, options) variants; weights steer generation
GRID = [
    ("PLR", {"score": "partialling out"}),
    ("PLR", {"score": "partialling out", "n_treat": 2}),
    ("PLR", {"score": "partialling out", "n_treat": 3, "dtype": "bin"}),
    ("PLR", {"score": "IV-type"}),
    ("PLR", {"score": "IV-type", "n_treat": 2, "dtype": "bin"}),
    ("PLR", {"score": "partialling out", "n_treat": 2, "other_cov": False}),
    ("PLR", {"score": "call:plr"}),
    ("PLR", {"score": "call:plr_g"}),
    ("PLIV", {"score": "partialling out"}),
    ("PLIV", {"score": "IV-type"}),
    ("PLIV", {"score": "partialling out", "n_instr": 2}),
    ("PLIV", {"score": "partialling out", "n_treat": 2}),
    ("PLIV", {"score": "partialling out", "n_treat": 2, "n_instr": 2}),
    ("PLIV", {"score": "call:pliv"}),
    ("PLIV", {"score": "partialling out", "partial": "Z", "n_instr": 2}),
    ("PLIV", {"score": "partialling out", "partial": "XZ", "n_instr": 2}),
    ("IRM", {"score": "ATE"}),
    ("IRM", {"score": "ATTE"}),
    ("IRM", {"score": "ATE", "normalize_ipw": True}),
    ("IRM", {"score": "ATE", "weights": "vec"}),
    ("IRM", {"score": "ATE", "weights": "dict"}),
    ("IRM", {"score": "ATTE", "weights": "vecbin"}),
    ("IRM", {"score": "call:irm"}),
    ("IIVM", {"score": "LATE"}),
    ("IIVM", {"score": "LATE", "always_takers": False}),
    ("IIVM", {"score": "LATE", "never_takers": False}),
    ("IIVM", {"score": "LATE", "normalize_ipw": True}),
    ("IIVM", {"score": "call:iivm"}),
    ("DID", {"score": "observational"}),
    ("DID", {"score": "observational", "in_sample_normalization": False}),
    ("DID", {"score": "experimental"}),
    ("DID", {"score": "experimental", "in_sample_normalization": False}),
    ("DIDCS", {"score": "observational"}),
    ("DIDCS", {"score": "observational", "in_sample_normalization": False}),
    ("DIDCS", {"score": "experimental"}),
    ("DIDCS", {"score": "experimental", "in_sample_normalization": False}),
    ("APO", {"treatment_level": 0}),
    ("APO", {"treatment_level": 2, "normalize_ipw": True}),
    ("APO", {"treatment_level": 1, "weights": "vec"}),
    ("APO", {"treatment_level": 1, "weights": "dict"}),
    ("APOS", {"levels": [0, 1, 2]}),
    ("APOS", {"levels": [2, 0], "normalize_ipw": True}),
    ("APOS", {"levels": [1, 2], "weights": "vec"}),
    ("APOS", {"levels": [2, 1], "weights": "dict"}),
    ("PQ", {"treatment": 1, "quantile": 0.5}),
    ("PQ", {"treatment": 0, "quantile": 0.3, "normalize_ipw": False}),
    ("LPQ", {"treatment": 1, "quantile": 0.5}),
    ("LPQ", {"treatment": 0, "quantile": 0.4, "normalize_ipw": False}),
    ("CVAR", {"treatment": 1, "quantile": 0.5}),
    ("CVAR", {"treatment": 0, "quantile": 0.3, "normalize_ipw": False}),
    ("QTE", {"score": "PQ", "quantiles": [0.3, 0.6]}),
    ("QTE", {"score": "PQ", "quantiles": [0.6, 0.4], "normalize_ipw": False}),
    ("QTE", {"score": "LPQ", "quantiles": [0.5]}),
    ("QTE", {"score": "CVaR", "quantiles": [0.25, 0.5, 0.7]}),
    ("SSM", {"score": "missing-at-random"}),
    ("SSM", {"score": "missing-at-random", "normalize_ipw": True}),
    ("SSM", {"score": "nonignorable"}),
    ("SSM", {"score": "nonignorable", "normalize_ipw": True}),
    ("PLRC", {"score": "partialling out", "cl": 1}),
    ("PLRC", {"score": "partialling out", "cl": 2}),
    ("PLRC", {"score": "IV-type", "cl": 1}),
    ("PLRC", {"score": "partialling out", "cl": 1, "n_treat": 2}),
    ("PLIVC", {"score": "partialling out", "cl": 1}),
    ("PLIVC", {"score": "partialling out", "cl": 2}),
    ("IRM", {"score": "ATE", "cl": 1}),
    ("IRM", {"score": "ATTE", "cl": 2}),
    ("IIVM", {"score": "LATE", "cl": 1}),
    ("DID", {"score": "observational", "cl": 1}),
    ("DIDCS", {"score": "observational", "cl": 1}),
    ("APO", {"treatment_level": 1, "cl": 2}),
    ("PQ", {"treatment": 1, "quantile": 0.5, "cl": 1}),
    ("LPQ", {"treatment": 1, "quantile": 0.5, "cl": 1}),
    ("CVAR", {"treatment": 1, "quantile": 0.5, "cl": 1}),
    ("SSM", {"score": "missing-at-random", "cl": 1}),
    ("RD", {"fuzzy": False, "fs": "cutoff"}),
    ("RD", {"fuzzy": True, "fs": "cutoff and score"}),
    ("RD", {"fuzzy": True, "fs": "interacted cutoff and score", "kernel": "custom"}),
]
TRIM = {"IRM", "IIVM", "APO", "APOS", "PQ", "LPQ", "CVAR", "QTE", "SSM", "DID", "DIDCS"}
HEAVY = {"PQ": 2, "LPQ": 4, "CVAR": 2, "QTE": 6, "RD": 5, "APOS": 2}
BASE_CLASSES = ["PLR", "PLIV", "IRM", "IIVM", "DID", "DIDCS", "APO", "PQ", "LPQ", "CVAR", "SSM", "PLRC", "PLIVC"]


def variants(classes=None, pred=None):
    return [(c, dict(o)) for c, o in GRID
            if (classes is None or c in classes) and (c != "RD" or RDFlex is not None)
            and (pred is None or pred(c, o))]


FORM = int(os.environ.get("DST_FORM", "16"))


def make_spec(rng, variant, n=None, n_folds=None, n_rep=None, ytype=None):
    cls, opts = variant
    big = {"LPQ": 160, "QTE": 150, "PQ": 120, "CVAR": 110, "SSM": 120, "DIDCS": 110, "IIVM": 110, "RD": 220, "APO": 100, "APOS": 100}
    base = big.get(cls, 72)
    if n is None:
        n = base + rng.choice([0, 7, 20, 31]) + 40 * opts.get("cl", 0)
    if cls in ("PLRC", "PLIVC"):
        n = None
    if n_folds is None:
        n_folds = rng.choice([2, 3, 4, 5]) if "cl" not in opts else rng.choice([2, 3]) if opts["cl"] == 1 or cls in ("PLRC", "PLIVC") else 2
        if cls in ("LPQ", "RD") or (cls == "QTE" and opts["score"] == "LPQ"):
            n_folds = min(n_folds, 3)
    if n_rep is None:
        n_rep = rng.choice([1, 2, 3]) if HEAVY.get(cls, 1) < 4 else rng.choice([1, 2])
    opts = dict(opts)
    if cls in TRIM and rng.random() < 0.2:
        opts["trimming_threshold"] = rng.choice([0.25, 0.35])
    if cls == "RD":
        opts["cutoff"] = rng.choice([0, 0, 0.35])
        opts["h_fs"] = rng.choice([None, None, 0.8])
        opts.setdefault("kernel", rng.choice([None, "uniform", "Epanechnikov", "triangular"]))
        opts["global"] = rng.choice([(), (), ("ml_g",), ("ml_m",)])
    yts = ["cont", "int", "cont"]
    if cls in ("IRM", "APO", "APOS", "IIVM", "PLR") and "cl" not in opts and not str(opts.get("score", "")).startswith("call"):
        yts.append("bin")
    if cls in ("DID", "DIDCS", "SSM", "RD"):
        yts += ["bin"]
    if cls in ("PQ", "LPQ", "CVAR", "QTE"):
        yts = ["cont"]
    spec = {"cls": cls, "opts": dict(opts), "n": n, "dseed": rng.randrange(10 ** 6), "n_folds": n_folds, "n_rep": n_rep,
            "ytype": ytype or yts[getattr(rng, "turn", rng.randrange(12)) % len(yts)]}
    if spec["ytype"] == "bin" and rng.random() < 0.3:
        spec["gcls"] = False
    if rng.random() < 0.12:
        spec["f32"] = True
    if cls == "IIVM" and opts.get("always_takers", True) and "cl" not in opts and rng.random() < 0.3:
        spec["rare"] = True
    if spec["dseed"] * 7 % 100 < FORM:  # row labels, column order and storage types as a user may have them
        spec["form"] = spec["dseed"]
    return spec


# ----------------------------------------------------------------- data
def _half(r, score, share):
    """0/1 vector with exactly round(share*n) ones, larger for larger score."""
    n = len(score)
    out = np.zeros(n, dtype=int)
    k = int(round(share * n))
    out[np.argsort(-(score + 1.5 * r.normal(size=n)), kind="stable")[:k]] = 1
    return out


def make_df(spec):
    return reform(_make_df(spec), spec.get("form"))


def _make_df(spec):
    cls, o = spec["cls"], spec["opts"]
    r = np.random.RandomState(spec["dseed"])
    clusters = None
    if cls in ("PLRC", "PLIVC"):
        a = 9 + spec["dseed"] % 3
        b = 8 + spec["dseed"] % 4
        if o["cl"] == 1:
            sizes = r.randint(4, 9, size=a + 3)
            clusters = np.column_stack((np.repeat(np.arange(a + 3), sizes), np.zeros(sizes.sum(), dtype=int)))
        else:
            g1, g2 = np.meshgrid(np.arange(a), np.arange(b), indexing="ij")
            clusters = np.column_stack((g1.ravel(), g2.ravel()))
        clusters = clusters[r.permutation(len(clusters))]
        n = len(clusters)
    else:
        n = spec["n"]
    x = r.normal(size=(n, 3))
    df = pd.DataFrame({"x1": x[:, 0], "x2": x[:, 1], "x3": x[:, 2], "xid": ID_BASE + np.arange(n, dtype=float)})
    u = r.normal(size=n)
    e = r.normal(size=n)
    if cls in ("PLR", "PLIV", "PLRC", "PLIVC"):
        nt = o.get("n_treat", 1)
        dcols = ["d"] + [f"d{k}" for k in range(2, nt + 1)]
        zs = r.normal(size=(n, 2))
        for k, c in enumerate(dcols):
            lat = 0.5 * x[:, k % 3] + 0.4 * r.normal(size=n) + (0.8 * zs[:, 0] + 0.4 * zs[:, 1] if cls in ("PLIV", "PLIVC") else 0) + 0.5 * u
            if o.get("dtype") == "bin":
                df[c] = _half(r, lat, 0.5)
            else:
                df[c] = lat
        df["z"] = zs[:, 0] + 0.3 * x[:, 1]
        df["z2"] = zs[:, 1]
        dsum = sum((1.0 - 0.4 * k) * df[c].values for k, c in enumerate(dcols))
        y = 0.5 * dsum + x @ np.array([0.6, -0.3, 0.2]) + e + (0.6 * u if cls.startswith("PLIV") else 0)
        if clusters is not None:
            y = y + 0.4 * r.normal(size=clusters[:, 0].max() + 1)[clusters[:, 0]]
            df["c1"] = clusters[:, 0] * 10 + 3
            df["c2"] = clusters[:, 1] * 7 + 1
    elif cls in ("APO", "APOS"):
        d = np.zeros(n, dtype=int)
        order = np.argsort(x[:, 0] + 1.5 * r.normal(size=n), kind="stable")
        cuts = 3 if spec.get("share") is None else [int(spec["share"] * n), int((0.5 + spec["share"] / 2) * n)]
        for k, ch in enumerate(np.array_split(order, cuts)):
            d[ch] = k
        df["d"] = d
        y = 0.7 * d + x @ np.array([0.6, -0.3, 0.2]) + e
    elif cls == "RD":
        s = r.uniform(-1, 1, size=n) + o.get("cutoff", 0.0)
        d = (s >= o.get("cutoff", 0.0)).astype(int)
        if o["fuzzy"]:
            flip = r.uniform(size=n) < 0.15
            d = np.where(flip, 1 - d, d)
        df["d"] = d
        df["s"] = s
        y = 1.0 * d + 0.8 * s + x @ np.array([0.6, -0.3, 0.2]) + 0.5 * e
    else:
        sc = x[:, 0]
        if cls in ("IIVM", "LPQ") or (cls == "QTE" and o["score"] == "LPQ"):
            z = _half(r, sc, 0.5)
            d = np.zeros(n, dtype=int)
            p0 = 0.2 if o.get("always_takers", True) else 0.0
            p1 = 0.8 if o.get("never_takers", True) else 1.0
            if spec.get("rare"):
                p0 = 1.0 / np.sum(z == 0)       # one observation: the others are a training part with one class
            d[z == 0] = _half(r, x[z == 0, 1], p0)
            d[z == 1] = _half(r, x[z == 1, 1], p1)
            df["z"] = z
        else:
            d = _half(r, sc, spec.get("share") or 0.5)
        df["d"] = d
        if cls == "DIDCS":
            t = np.zeros(n, dtype=int)
            for v in (0, 1):
                t[d == v] = _half(r, 0 * sc[d == v], 0.5)
            df["t"] = t
        if cls == "SSM":
            s = np.zeros(n, dtype=int)
            for v in (0, 1):
                s[d == v] = _half(r, x[d == v, 1], 0.7)
            df["s"] = s
            df["z"] = r.normal(size=n) + s
        y = 0.9 * d + x @ np.array([0.6, -0.3, 0.2]) + e
        if cls == "DIDCS":
            y = y + 0.4 * df["t"].values
    if clusters is None and "cl" in o:
        # clusters of the other classes: every combination of two dimensions has observations
        a, b = (8 + spec["dseed"] % 3, 7 + spec["dseed"] % 2) if o["cl"] == 2 else (14 + spec["dseed"] % 4, 1)
        cell = np.r_[np.arange(a * b), r.randint(0, a * b, size=n)][:n]
        g = r.permutation(cell)
        y = y + 0.4 * r.normal(size=a)[g // b]
        df["c1"] = g // b * 10 + 3
        df["c2"] = g % b * 7 + 1
    yt = spec.get("ytype", "cont")
    if yt == "int":
        y = np.round(3 * y).astype(int)
    elif yt == "bin":
        cell = sum(10 ** k * df[c].to_numpy() for k, c in enumerate({"IIVM": ("d", "z"), "IRM": ("d",), "APO": ("d",), "APOS": ("d",), "DID": ("d",), "DIDCS": ("d", "t"),
                                                                      "SSM": ("d", "s"), "RD": ("d",)}.get(cls, ()))) + np.zeros(n)
        yb = np.zeros(n, dtype=int)
        for c in np.unique(cell):
            yb[cell == c] = y[cell == c] > np.median(y[cell == c])
        y = yb
    df["y"] = y
    if cls == "SSM":
        df.loc[df["s"] == 0, "y"] = 0
    if spec.get("dfloat"):
        for c in ("d", "z", "t"):
            if c in df:
                df[c] = df[c].astype(float)
    return df


def clustered(spec):
    return "cl" in spec["opts"]


def roles(spec):
    cls, o = spec["cls"], spec["opts"]
    kw = {"y_col": "y", "x_cols": list(spec.get("x_cols", X_COLS))}
    nt = o.get("n_treat", 1)
    kw["d_cols"] = copy.copy(spec.get("d_cols")) or (["d"] + [f"d{k}" for k in range(2, nt + 1)] if nt > 1 else "d")
    if cls in ("PLIV", "PLIVC"):
        kw["z_cols"] = ["z", "z2"] if o.get("n_instr", 1) == 2 else "z"
    if cls in ("IIVM", "LPQ") or (cls == "QTE" and o["score"] == "LPQ"):
        kw["z_cols"] = "z"
    if cls == "DIDCS":
        kw["t_col"] = "t"
    if cls in ("SSM", "RD"):
        kw["s_col"] = "s"
        if cls == "SSM" and o["score"] == "nonignorable":
            kw["z_cols"] = "z"
    if "other_cov" in o:
        kw["use_other_treat_as_covariate"] = o["other_cov"]
    if "cl" in o:
        kw["cluster_cols"] = ["c1"] if o["cl"] == 1 else ["c1", "c2"]
    return kw


LABELS = ["shifted", "permuted", "filtered", "text", "repeated", "dates", "two", "names"]


def labels(n, k):
    """Row labels other than 0..n-1."""
    r = random.Random(f"labels{k}")
    kind = LABELS[k % len(LABELS)]
    if kind == "shifted":
        return pd.RangeIndex(7, 7 + n)
    if kind == "permuted":
        return pd.Index(r.sample(range(n), n))
    if kind == "filtered":
        return pd.Index(sorted(r.sample(range(3 * n), n)))
    if kind == "text":
        return pd.Index([f"row {i}" for i in r.sample(range(n), n)])
    if kind == "repeated":
        return pd.Index([r.randrange(1 + n // 2) for _ in range(n)])
    if kind == "dates":
        return pd.date_range("2020-01-01", periods=n, freq="D")[::-1]
    if kind == "two":
        return pd.MultiIndex.from_arrays([[i // 5 for i in range(n)], [i % 5 for i in range(n)]], names=["unit", "time"])
    return pd.Index(r.sample(range(n), n), name="x1")


def reform(df, form):
    """The same data in another form: row labels, column order, further columns, storage types."""
    if form is None:
        return df
    r = random.Random(f"form{form}")
    df = df.copy()
    cols = list(df.columns)
    if r.random() < 0.6:
        df["comment"] = "none"
        df["when"] = pd.Timestamp("2021-05-05")
        df["gap"] = np.nan
    if r.random() < 0.6:
        for c in cols:
            if df[c].dtype.kind == "i" and r.random() < 0.7:
                lo, hi = df[c].min(), df[c].max()
                df[c] = df[c].astype(r.choice(["float64", "int32"] + ["int8"] * (lo >= -100 and hi <= 100) + ["uint8"] * (lo >= 0 and hi <= 100) + ["bool"] * 2 * (c != "y" and {lo, hi} <= {0, 1})))
    if r.random() < 0.6:
        order = list(df.columns)
        r.shuffle(order)
        df = df[order]
    if r.random() < 0.75:
        df.index = labels(len(df), r.randrange(1000))
    return df


def make_data(spec, df=None, kw=None):
    if df is None:
        df = make_df(spec)
    kw = roles(spec) if kw is None else kw
    if "cluster_cols" in kw:
        return dml.DoubleMLClusterData(df, **kw)
    return dml.DoubleMLData(df, **kw)


# ----------------------------------------------------------------- learners
def learner_kinds(spec):
    """learner argument -> 'reg' | 'cls' for the model class."""
    cls, o = spec["cls"], spec["opts"]
    yb = spec.get("ytype") == "bin"
    gcls = yb and spec.get("gcls", True)
    if cls in ("PLR", "PLRC"):
        k = {"ml_l": "reg", "ml_m": "cls" if o.get("dtype") == "bin" else "reg"}
        if o["score"] in ("IV-type", "call:plr_g"):
            k["ml_g"] = "reg"
        return k
    if cls in ("PLIV", "PLIVC"):
        if o.get("partial") == "Z":
            return {"ml_r": "reg"}
        k = {"ml_l": "reg", "ml_m": "reg", "ml_r": "reg"}
        if o["score"] == "IV-type":
            k["ml_g"] = "reg"
        return k
    if cls in ("IRM", "APO", "APOS"):
        return {"ml_g": "cls" if gcls else "reg", "ml_m": "cls"}
    if cls == "IIVM":
        return {"ml_g": "cls" if gcls else "reg", "ml_m": "cls", "ml_r": "cls"}
    if cls in ("DID", "DIDCS"):
        k = {"ml_g": "cls" if gcls else "reg"}
        if o["score"] == "observational":
            k["ml_m"] = "cls"
        return k
    if cls in ("PQ", "LPQ"):
        return {"ml_g": "cls", "ml_m": "cls"}
    if cls == "CVAR":
        return {"ml_g": "reg", "ml_m": "cls"}
    if cls == "QTE":
        return {"ml_g": "reg" if o["score"] == "CVaR" else "cls", "ml_m": "cls"}
    if cls == "SSM":
        return {"ml_g": "cls" if gcls else "reg", "ml_pi": "cls", "ml_m": "cls"}
    if cls == "RD":
        k = {"ml_g": "cls" if gcls else "reg"}
        if o["fuzzy"]:
            k["ml_m"] = "cls"
        return k
    raise KeyError(cls)


def make_learners(spec, reg=RecReg, clf=RecCls):
    out = {}
    if spec.get("quiet"):
        reg, clf = QuietReg, QuietCls
    elif spec.get("f32") and reg is RecReg and clf is RecCls:
        reg, clf = SingleReg, SingleCls
    for j, (name, kind) in enumerate(learner_kinds(spec).items()):
        alpha = 1.0 + 0.5 * j + spec.get("alpha", 0.0)
        out[name] = reg(alpha=alpha, label=name) if kind == "reg" else clf(alpha=alpha, label=name, **spec.get("cls_kw", {}))
        if name in spec["opts"].get("global", ()):
            out[name] = (GlobalRegressor if kind == "reg" else GlobalClassifier)(out[name])
    return out


def make_weights(spec):
    w = spec["opts"].get("weights")
    if w is None:
        return None
    r = np.random.RandomState(spec["dseed"] + 7)
    n = spec["n"]
    if w == "vec":
        return r.uniform(0.3, 1.0, size=n)
    if w == "vecbin":
        return (r.uniform(size=n) < 0.7).astype(float)
    if w == "dict":
        return {"weights": r.uniform(0.3, 1.0, size=n), "weights_bar": r.uniform(0.3, 1.0, size=(n, spec["n_rep"]))}
    raise KeyError(w)


def passed_lists(spec):
    """Constructor arguments that are containers (apart from weights)."""
    cls, o = spec["cls"], spec["opts"]
    if cls == "APOS":
        lv = list(spec.get("levels", o["levels"]))
        return {"treatment_levels": np.array(lv) if spec["dseed"] % 3 == 0 else lv}
    if cls == "QTE":
        q = list(spec.get("quantiles", o["quantiles"]))
        return {"quantiles": np.array(q) if spec["dseed"] % 2 else q}
    if cls == "IIVM" and ("always_takers" in o or "never_takers" in o):
        return {"subgroups": {"always_takers": o.get("always_takers", True), "never_takers": o.get("never_takers", True)}}
    return {}


def make_model(spec, data=None, learners=None, draw=True, **over):
    cls, o = spec["cls"], spec["opts"]
    data = make_data(spec) if data is None else data
    lr = make_learners(spec) if learners is None else learners
    kw = {"n_folds": spec["n_folds"], "n_rep": spec["n_rep"]}
    if cls != "RD":
        kw["draw_sample_splitting"] = draw
    sc = o.get("score")
    if isinstance(sc, str) and sc.startswith("call:"):
        sc = CALL[sc[5:]]
    if sc is not None:
        kw["score"] = sc
    for k in ("normalize_ipw", "in_sample_normalization", "treatment_level", "treatment", "quantile", "trimming_threshold"):
        if k in o:
            kw[k] = o[k]
    w = make_weights(spec)
    if w is not None:
        kw["weights"] = w
    kw.update(passed_lists(spec))
    kw.update(over)
    if cls in ("PLR", "PLRC"):
        return dml.DoubleMLPLR(data, **lr, **kw)
    if cls in ("PLIV", "PLIVC"):
        part = o.get("partial")
        if part == "Z":
            return dml.DoubleMLPLIV._partialZ(data, **lr, **kw)
        if part == "XZ":
            return dml.DoubleMLPLIV._partialXZ(data, **lr, **kw)
        return dml.DoubleMLPLIV(data, **lr, **kw)
    if cls == "RD":
        ckw = {"fuzzy": o["fuzzy"], "fs_specification": o["fs"], "cutoff": o.get("cutoff", 0)}
        if o.get("kernel") is not None:
            ckw["fs_kernel"] = kernel_custom if o["kernel"] == "custom" else o["kernel"]
        if o.get("h_fs") is not None:
            ckw["h_fs"] = o["h_fs"]
        kw.update(ckw)
        return RDFlex(data, **lr, **kw)
    return getattr(dml, "DoubleML" + cls)(data, **lr, **kw)


# ----------------------------------------------------------------- structure helpers
def kind(spec):
    return {"QTE": "QTE", "APOS": "APOS", "RD": "RD"}.get(spec["cls"], "base")


def d_cols(spec):
    k = roles(spec)["d_cols"]
    return [k] if isinstance(k, str) else list(k)


def submodels(spec, model):
    """Base models with their class spec inside a composite (or the model itself)."""
    k = kind(spec)
    if k == "base":
        return [(spec, model)]
    if k == "APOS":
        out = []
        for lvl, m in zip(model.treatment_levels, model.modellist):
            o = {kk: v for kk, v in spec["opts"].items() if kk != "levels"}
            o["treatment_level"] = lvl
            out.append(({**spec, "cls": "APO", "opts": o}, m))
        return out
    if k == "QTE":
        sub = {"PQ": "PQ", "LPQ": "LPQ", "CVaR": "CVAR"}[spec["opts"]["score"]]
        out = []
        for tr, ml in ((0, model.modellist_0), (1, model.modellist_1)):
            for q, m in zip(model.quantiles, ml):
                so = {"treatment": tr, "quantile": float(q)}
                if "normalize_ipw" in spec["opts"]:
                    so["normalize_ipw"] = spec["opts"]["normalize_ipw"]
                if "trimming_threshold" in spec["opts"]:
                    so["trimming_threshold"] = spec["opts"]["trimming_threshold"]
                out.append(({**spec, "cls": sub, "opts": so}, m))
        return out
    return []


def features(spec, df, treat):
    """The covariate block for a treatment."""
    kw = roles(spec)
    cols = list(kw["x_cols"])
    dc = d_cols(spec)
    if kw.get("use_other_treat_as_covariate", True):
        cols += [c for c in dc if c != treat]
    return df[cols].to_numpy(dtype=float)


def rules(spec, df, treat):
    """nuisance -> rule dict(label, mask (n,), mode, target (n,) | ('kind', ...) | None, X (n, p) | None)."""
    cls, o = spec["cls"], spec["opts"]
    X = features(spec, df, treat)
    n = len(df)
    y = df["y"].to_numpy(dtype=float)
    d = df[treat].to_numpy(dtype=float)
    ALL = np.ones(n, dtype=bool)

    def R(label, mask=ALL, target=None, X=X, mode="all"):
        return {"label": label, "mask": mask, "target": target, "X": X, "mode": mode}

    if cls in ("PLR", "PLRC"):
        out = {"ml_l": R("ml_l", target=y), "ml_m": R("ml_m", target=d)}
        if "ml_g" in learner_kinds(spec):
            out["ml_g"] = R("ml_g", target=("y-theta*d", y, d))
        return out
    if cls in ("PLIV", "PLIVC"):
        z = df[["z", "z2"]].to_numpy(dtype=float) if o.get("n_instr", 1) == 2 else df[["z"]].to_numpy(dtype=float)
        part = o.get("partial")
        if part == "Z":
            return {"ml_r": R("ml_r", target=d, X=np.column_stack((X, z)))}
        if part == "XZ":
            return {"ml_l": R("ml_l", target=y), "ml_m": R("ml_m", target=d, X=np.column_stack((X, z))),
                    "ml_r": R("ml_r", target=None)}
        out = {"ml_l": R("ml_l", target=y), "ml_r": R("ml_r", target=d)}
        if z.shape[1] == 1:
            out["ml_m"] = R("ml_m", target=z[:, 0])
        else:
            out["ml_m_z"] = R("ml_m", target=z[:, 0])
            out["ml_m_z2"] = R("ml_m", target=z[:, 1])
        if "ml_g" in learner_kinds(spec):
            out["ml_g"] = R("ml_g", target=("y-theta*d", y, d))
        return out
    if cls == "IRM":
        return {"ml_g0": R("ml_g", d == 0, y), "ml_g1": R("ml_g", d == 1, y), "ml_m": R("ml_m", target=d)}
    if cls == "IIVM":
        z = df["z"].to_numpy(dtype=float)
        out = {"ml_g0": R("ml_g", z == 0, y), "ml_g1": R("ml_g", z == 1, y), "ml_m": R("ml_m", target=z)}
        out["ml_r0"] = R("ml_r", z == 0, d) if o.get("always_takers", True) else 0.0
        out["ml_r1"] = R("ml_r", z == 1, d) if o.get("never_takers", True) else 1.0
        return out
    if cls == "APO":
        tr = d == o["treatment_level"]
        return {"ml_g_d_lvl1": R("ml_g", tr, y), "ml_g_d_lvl0": R("ml_g", ~tr, y, X=np.column_stack((d, X))),
                "ml_m": R("ml_m", target=tr.astype(float))}
    if cls == "DID":
        out = {"ml_g0": R("ml_g", d == 0, y), "ml_g1": R("ml_g", d == 1, y)}
        if o["score"] == "observational":
            out["ml_m"] = R("ml_m", target=d)
        return out
    if cls == "DIDCS":
        t = df["t"].to_numpy(dtype=float)
        out = {f"ml_g_d{a}_t{b}": R("ml_g", (d == a) & (t == b), y) for a in (0, 1) for b in (0, 1)}
        if o["score"] == "observational":
            out["ml_m"] = R("ml_m", target=d)
        return out
    if cls in ("PQ", "CVAR"):
        tr = d == o["treatment"]
        tgt = ("threshold", y, ALL) if cls == "PQ" else ("cvar", y, o["quantile"])
        return {"ml_m": R("ml_m", target=d), "ml_g": R("ml_g", tr, tgt, mode="part")}
    if cls == "LPQ":
        z = df["z"].to_numpy(dtype=float)
        tr = d == o["treatment"]
        return {"ml_m_z": R("ml_m", target=z), "ml_m_d_z0": R("ml_m", z == 0, d), "ml_m_d_z1": R("ml_m", z == 1, d),
                "ml_g_du_z0": R("ml_g", z == 0, ("threshold", y, tr), mode="part"),
                "ml_g_du_z1": R("ml_g", z == 1, ("threshold", y, tr), mode="part")}
    if cls == "SSM":
        s = df["s"].to_numpy(dtype=float)
        if o["score"] == "missing-at-random":
            return {"ml_pi": R("ml_pi", target=s, X=np.column_stack((X, d))), "ml_m": R("ml_m", target=d),
                    "ml_g_d0": R("ml_g", (d == 0) & (s == 1), y), "ml_g_d1": R("ml_g", (d == 1) & (s == 1), y)}
        z = df["z"].to_numpy(dtype=float)
        return {"ml_pi": R("ml_pi", target=s, X=np.column_stack((X, d, z)), mode="part"),
                "ml_m": R("ml_m", target=d, X=None, mode="part"),
                "ml_g_d0": R("ml_g", (d == 0) & (s == 1), y, X=None, mode="part"),
                "ml_g_d1": R("ml_g", (d == 1) & (s == 1), y, X=None, mode="part")}
    raise KeyError(cls)


# classes whose nuisance functions (except those named) need no preliminary target-parameter estimate
PRELIM = {"PLR": {"ml_g"}, "PLRC": {"ml_g"}, "PLIV": {"ml_g"}, "PLIVC": {"ml_g"}, "PQ": {"ml_g"}, "CVAR": {"ml_g"},
          "LPQ": {"ml_g_du_z0", "ml_g_du_z1"}}
