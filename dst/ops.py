"""Operations on models: generated histories, execution modes, and what a model reports."""
import contextlib
import random
import re

import numpy as np
import pandas as pd

from . import backend, catalog as C, snap as S, trace
from .learners import REC
from .threads import Baton

SENS = {"PLR", "PLRC", "IRM", "APO", "APOS", "DID", "DIDCS"}
EXT = {"PLR", "PLRC", "PLIV", "PLIVC", "IRM", "IIVM", "APO", "APOS", "PQ", "LPQ", "DID", "DIDCS"}
BOOT = ["normal", "Bayes", "wild"]


def caps(spec):
    """What this variant supports."""
    cls, o = spec["cls"], spec["opts"]
    call = str(o.get("score", "")).startswith("call")
    k = C.kind(spec)
    c = {"fit", "confint"}
    if k != "RD":
        c |= {"draw", "set", "padj", "summary"}
        if not C.clustered(spec):
            c.add("boot")
    if k == "APOS":
        c.discard("padj")
    if cls in SENS and not call:
        c |= {"sens", "bench"}
    if cls == "PLR" and o.get("n_treat", 1) > 1:
        c.discard("bench") if False else None
    if k == "base":
        c |= {"tune", "params", "eval"}
        if o.get("partial") in ("Z", "XZ"):
            c.discard("params")
    if cls in EXT and not call and o.get("partial") is None:
        c.add("ext")
    if k == "APOS":
        c.add("contrast")
    if spec["n_rep"] == 1 and not call:
        if cls == "IRM" and o["score"] == "ATE" and "weights" not in o:
            c |= {"gate", "cate", "tree", "effci"}
        if cls == "APO" and "weights" not in o:
            c |= {"gapo", "capo", "effci"}
        if cls == "PLR" and o.get("n_treat", 1) == 1:
            c |= {"gate", "cate", "effci"}
    return c


# ----------------------------------------------------------------- sample splittings made by the harness
def strata(spec, df):
    """Cells that every fold should contain, as an integer code."""
    cls, o = spec["cls"], spec["opts"]
    n = len(df)
    if cls in ("IRM", "DID", "APO", "APOS", "PQ", "CVAR"):
        return df["d"].to_numpy().astype(int)
    if cls == "QTE":
        return (df["d"] + (2 * df["z"] if o["score"] == "LPQ" else 0)).to_numpy().astype(int)
    if cls in ("IIVM", "LPQ"):
        return (df["d"] + 2 * df["z"]).to_numpy().astype(int)
    if cls == "DIDCS":
        return (df["d"] + 2 * df["t"]).to_numpy().astype(int)
    if cls == "SSM":
        return (df["d"] + 2 * df["s"]).to_numpy().astype(int)
    if cls == "RD":
        return ((df["s"] >= 0) * 2 + df["d"]).to_numpy().astype(int)
    if o.get("dtype") == "bin":
        return df[C.d_cols(spec)].to_numpy().astype(int) @ (2 ** np.arange(len(C.d_cols(spec))))
    return np.zeros(n, dtype=int)


def make_smpls(spec, df, seed, n_folds=None, n_rep=None, uneven=False, shuffle_order=True):
    """A valid sample splitting for the data, independent of doubleml.  Returns (smpls, smpls_cluster or None)."""
    r = np.random.RandomState(seed)
    K = n_folds or spec["n_folds"]
    R = n_rep or spec["n_rep"]
    n = len(df)
    if C.clustered(spec):
        cc = C.roles(spec)["cluster_cols"]
        cv = df[cc].to_numpy()
        all_s, all_c = [], []
        for _ in range(R):
            parts = [np.array_split(r.permutation(np.unique(cv[:, j])), K) for j in range(cv.shape[1])]
            s, c = [], []
            for idx in np.ndindex(*([K] * cv.shape[1])):
                te = np.ones(n, bool)
                tr = np.ones(n, bool)
                ctr, cte = [], []
                for j, i in enumerate(idx):
                    t = np.sort(parts[j][i])
                    u = np.sort(np.concatenate([p for m, p in enumerate(parts[j]) if m != i]))
                    te &= np.isin(cv[:, j], t)
                    tr &= np.isin(cv[:, j], u)
                    cte.append(t)
                    ctr.append(u)
                s.append((np.where(tr)[0], np.where(te)[0]))
                c.append((ctr, cte))
            all_s.append(s)
            all_c.append(c)
        return all_s, all_c
    st = strata(spec, df)
    out = []
    for _ in range(R):
        fold = np.empty(n, dtype=int)
        off = 0
        for v in np.unique(st):
            idx = r.permutation(np.where(st == v)[0])
            f = (np.arange(len(idx)) + off) % K
            if uneven and len(idx) > 4 * K:
                f[: len(idx) // 5] = 0
            fold[idx] = f
            off += len(idx)
        s = []
        for k in range(K):
            te, tr = np.where(fold == k)[0], np.where(fold != k)[0]
            if shuffle_order and r.randint(3) == 0:
                te = r.permutation(te)
            if shuffle_order and r.randint(3) == 0:
                tr = r.permutation(tr)
            s.append((tr, te))
        if shuffle_order and r.randint(2):
            s = [s[i] for i in r.permutation(K)]
        if shuffle_order and r.randint(4) == 0:       # training parts need not be the complements
            s = [(np.delete(tr, r.permutation(len(tr))[: len(tr) // 25]), te) for tr, te in s]
        out.append(s)
    return out, None


# ----------------------------------------------------------------- execution modes
def gen_cfg(rng, spec=None, modes=("seq", "shared", "isolated", "threads"), w=None):
    mode = rng.choice(modes)
    k = C.kind(spec) if spec else "base"
    cfg = {"mode": mode, "workers": rng.randint(2, 4), "jobs_cv": rng.choice([None, 1, 2, 3]),
           "jobs_models": rng.choice([None, 1, 2, 3]) if k in ("QTE", "APOS") else None,
           "ro": rng.random() < 0.4, "batch": rng.choice([1, 1, 3]), "nested": rng.random() < 0.7,
           "gap": rng.choice([0, 40, 200, 1000]), "default": rng.choice([None, 2, 3]), "death": 0, "stall": rng.random() < 0.5}
    comp = k in ("QTE", "APOS")
    eff = [cfg["jobs_cv"] or cfg["default"] or 1] + ([cfg["jobs_models"] or cfg["default"] or 1] if comp else [])
    if mode != "seq" and max(eff) < 2:
        cfg["jobs_cv"] = 2
    return cfg


SEQ = {"mode": "seq", "workers": 1, "jobs_cv": None, "jobs_models": None}


@contextlib.contextmanager
def running(sim, cfg):
    """Run the body under an execution mode."""
    cfg = cfg or SEQ
    if cfg["mode"] == "seq":
        with backend.parallel(sim, "seq"):
            yield
        return
    kw = {"mode": cfg["mode"], "workers": cfg["workers"], "default_jobs": cfg.get("default"), "stall": cfg.get("stall", True),
          "readonly": cfg.get("ro", False), "death": cfg.get("death", 0), "batch": cfg.get("batch", 1),
          "nested": cfg.get("nested", True)}
    if cfg["mode"] == "threads":
        baton = Baton(sim)
        baton.line_gap = cfg.get("gap", 0)
        old = REC.hook
        REC.hook = lambda kind, learner: baton.switch()
        try:
            with backend.parallel(sim, baton=baton, **kw):
                if baton.line_gap:
                    with trace.lines(baton.line):
                        yield
                else:
                    yield
        finally:
            REC.hook = old
        return
    with backend.parallel(sim, **kw):
        yield


def jobs(spec, cfg):
    cfg = cfg or SEQ
    k = C.kind(spec)
    if k == "RD":
        return {}
    out = {"n_jobs_cv": cfg.get("jobs_cv")}
    if k in ("QTE", "APOS"):
        out["n_jobs_models"] = cfg.get("jobs_models")
    return out


# ----------------------------------------------------------------- a world: everything of one user session
class World:
    def __init__(self, spec, seed=0, draw=True, own_split=None, learners=None, data=None, df=None, model_kw=None):
        self.spec = spec
        self.seed = seed
        self.returned = []         # (name, object) of everything the library returned
        self.kept = []             # analysis objects the user keeps: (name, reader, object)
        self.last = self.fitted = None      # the latest fit that was started / that succeeded
        self.given = []            # (name, object, frozen copy) of everything handed to the library
        self.df = C.make_df(spec) if df is None else df
        self.df0 = self.df.copy(deep=True)
        self.data = C.make_data(spec, self.df, self.give("column roles", C.roles(spec))) if data is None else data
        self.learners = C.make_learners(spec) if learners is None else learners
        self.give("data frame", self.df)
        for k, v in self.learners.items():
            self.give(f"learner {k}", v)
        np.random.seed(seed % (2 ** 32))
        if C.kind(spec) == "RD":
            self.model = C.make_model(spec, self.data, self.learners, **(model_kw or {}))
        else:
            model_kw = {**{k: self.give(k, v) for k, v in C.passed_lists(spec).items()}, **(model_kw or {})}
            wt = C.make_weights(spec)
            if wt is not None:
                model_kw = {"weights": self.give("weights", wt), **model_kw}
            self.model = C.make_model(spec, self.data, self.learners, draw=own_split is None, **(model_kw or {}))
            if own_split is not None:
                s, c = make_smpls(spec, self.df, **own_split)
                self.set_smpls(s, c)

    @classmethod
    def resume(cls, spec, model, df):
        """A session around a model that came from somewhere else."""
        w = cls.__new__(cls)
        w.spec, w.seed, w.model, w.df, w.df0 = spec, 0, model, df, df.copy(deep=True)
        w.last = w.fitted = None
        w.given, w.learners, w.data, w.answer, w.kept, w.returned = [], {}, None, None, [], []
        return w

    def give(self, name, obj):
        self.given.append((name, obj, S.freeze(obj)))
        return obj

    def changed_inputs(self):
        """Names of handed-over objects that are no longer what they were."""
        out = []
        for name, obj, was in self.given:
            d = S.diff(was, S.freeze(obj))
            if d:
                out.append(f"{name}{d[0]}")
        return out

    def set_smpls(self, s, c):
        if c is None and isinstance(s, list) and isinstance(s[0], list):
            form = int(s[0][0][1][0]) % 4
            if form == 0 and len(s) == 1:
                s = s[0]                              # one repetition may be given as a list of pairs
            elif form == 1:
                s = [[(tr.tolist(), te.tolist()) for tr, te in f] for f in s]
        self.give("sample splitting", s)
        if c is not None:
            self.give("cluster splitting", c)
        if c is not None:
            self.model.set_sample_splitting(s, c)
        else:
            self.model.set_sample_splitting(s)

    # current number of repetitions/folds as reported
    @property
    def n_rep(self):
        return self.model.n_rep

    def fit(self, sim=None, cfg=None, **kw):
        kw = {**jobs(self.spec, cfg), **kw}
        if C.kind(self.spec) == "RD":
            kw = {k: v for k, v in kw.items() if k == "n_iterations"}
        with running(sim, cfg):
            return self.model.fit(**kw)


def gen_fit(rng, spec, cfg=True):
    op = {"op": "fit", "sp": rng.random() < 0.75, "sm": rng.random() < 0.35}
    if C.kind(spec) == "RD":
        op = {"op": "fit", "it": rng.choice([1, 2, 2])}
    if cfg:
        op["cfg"] = gen_cfg(rng, spec)
    return op


def gen_tune(rng, spec, small=True):
    return {"op": "tune", "folds": rng.random() < 0.5, "set": rng.random() < 0.75, "ret": rng.random() < 0.5,
            "mode": rng.choice(["grid_search", "randomized_search"]), "seed": rng.randrange(10 ** 6), "kf": rng.choice([2, 3]),
            "scoring": rng.choice([None, None, "one", "dir"]), "cfg": gen_cfg(rng, spec, modes=("seq", "seq", "shared", "isolated"))}


def gen_op(rng, spec, kinds, cfg=True):
    c0 = caps(spec)
    c = c0 & set(kinds)
    name = rng.choice(sorted(c))
    if name == "fit":
        return gen_fit(rng, spec, cfg)
    if name == "boot":
        return {"op": "boot", "method": rng.choice(BOOT), "n": rng.choice([5, 11, 20]), "seed": rng.randrange(10 ** 6)}
    if name == "sens":
        return {"op": "sens", "cf_y": rng.choice([0.03, 0.1, 0.2]), "cf_d": rng.choice([0.03, 0.1, 0.15]),
                "rho": rng.choice([1.0, 0.5, -0.7]), "level": rng.choice([0.9, 0.95]), "null": rng.choice([0.0, 0.3, "mid", "vec"])}
    if name == "draw":
        return {"op": "draw", "seed": rng.randrange(10 ** 6)}
    if name == "set":
        cl = C.clustered(spec)
        same = "weights" in spec["opts"] and spec["opts"]["weights"] == "dict"
        return {"op": "set", "seed": rng.randrange(10 ** 6), "n_folds": rng.choice([2, 3]) if cl or spec["cls"] in ("LPQ", "QTE", "RD")
                else rng.choice([2, 3, 4]), "n_rep": spec["n_rep"] if same or spec["n_rep"] == 1 and rng.random() < 0.7 else rng.choice([1, 2])}
    if name == "params":
        return {"op": "params", "k": rng.randrange(10 ** 6), "alpha": rng.choice([0.5, 2.5, 7.0]), "none": rng.random() < 0.15,
                "deep": rng.random() < 0.3}
    if name == "tune":
        return gen_tune(rng, spec)
    if name == "confint":
        return {"op": "confint", "joint": rng.random() < 0.5, "level": rng.choice([0.9, 0.95])}
    if name == "padj":
        return {"op": "padj", "method": rng.choice(["romano-wolf", "bonferroni", "holm"])}
    if name == "bench":
        return {"op": "bench", "set": rng.choice([["x1"], ["x2"], ["x1", "x3"]]), "cfg": gen_cfg(rng, spec, modes=("seq", "seq", "shared"))}
    if name == "contrast":
        return {"op": "contrast", "k": rng.randrange(100)}
    if name == "effci":
        return {"op": "effci", "kind": rng.choice(sorted(c0 & {"gate", "cate", "gapo", "capo"})), "k": rng.randrange(1000), "seed": rng.randrange(10 ** 6),
                "level": rng.choice([0.9, 0.95]), "n": rng.choice([400, 1000]), "own": rng.random() < 0.5}
    return {"op": name, "k": rng.randrange(1000)}


def copy_params(spec, m):
    """The nuisance parameters in use, in a form that can be set on another model: [(learner, treatment, nested list)] per sub-model."""
    out = []
    for _, s in C.submodels(spec, m):
        one = []
        for ln in s.params_names:
            for tr in C.d_cols(spec):
                p = s.params[ln][tr]
                if p is not None and any(x is not None for x in p):
                    one.append((ln, tr, [[dict(q) if q is not None else {} for q in x] if x is not None else [{}] * s.n_folds for x in p]))
        out.append(one)
    return out


def config(spec, m):
    """Sample splitting and parameters a model currently uses (None without a splitting)."""
    try:
        s = m.smpls
    except ValueError:
        return None
    cl = m.smpls_cluster if C.clustered(spec) else None
    cp = [[(np.array(a), np.array(b)) for a, b in r] for r in s]
    if cl is not None:
        cl = [[([np.array(v) for v in a], [np.array(v) for v in b]) for a, b in r] for r in cl]
    return {"smpls": cp, "cl": cl, "params": copy_params(spec, m)}


def fresh(w, conf, seed=None, **kw):
    """A new session: newly created data, learners and model with the configuration `conf`."""
    spec = w.spec
    f = World(spec, w.seed if seed is None else seed, own_split={"seed": 1} if conf is not None else None, df=w.df0.copy(deep=True), **kw)
    if conf is not None:
        config_onto(f, conf)
    return f


def config_onto(f, conf):
    f.set_smpls(conf["smpls"], conf["cl"])
    for (_, s), ps in zip(C.submodels(f.spec, f.model), conf["params"]):
        for ln, tr, p in ps:
            s.set_ml_nuisance_params(ln, tr, p)


def refit(w, sim, last=None, seed=None):
    """What a fresh session gives for the latest fit of w."""
    last = last or w.fitted
    f = fresh(w, last["conf"], seed)
    apply(f, {**last["op"], "cfg": dict(SEQ), "ext": last["ext"], "extsel": None}, sim)
    return f


def make_ext(spec, m, sel, perturb=True, full=False):
    """External predictions made from stored ones (slightly altered), for a random supported subset; None if there are none."""
    r = random.Random(f"ext{sel}")
    stretch = perturb and random.Random(f"stretch{sel}").random() < 0.4

    def altered(nu, v):
        if stretch and nu.startswith(("ml_m", "ml_pi")) and v.min() >= 0 and v.max() <= 1:
            return np.clip(0.5 + 2.2 * (v - 0.5), 0.0015, 0.9985)  # beyond the trimming threshold
        return 0.96 * v + 0.02

    def part(P, names):
        out = {}
        for nu in names:
            v = P[nu]
            if np.any(np.isnan(v)):
                if spec["cls"] == "LPQ":
                    return {}
                continue
            out[nu] = altered(nu, v) if perturb else v.copy()
        return out

    def pick(names):
        names = list(names)
        if full or spec["cls"] == "LPQ":
            return names
        k = r.randint(1, len(names))
        return r.sample(names, k)

    if C.kind(spec) == "APOS":
        if any(s.predictions is None or s.predictions["ml_m"].shape[1] != s.n_rep for s in m.modellist):
            return None
        out = {}
        for lv, s in zip(m.treatment_levels, m.modellist):
            if full or r.random() < 0.7:
                out[lv] = part({k: v[:, :, 0] for k, v in s.predictions.items()}, pick(s.params_names))
        return out or None
    P = m.predictions
    if P is None or C.kind(spec) != "base":
        return None
    out = {}
    names = pick(m.params_names)
    for j, tr in enumerate(C.d_cols(spec)):
        if P[m.params_names[0]].shape[1] != m.n_rep:
            return None
        out[tr] = part({k: v[:, :, j] for k, v in P.items()}, names if full or r.random() < 0.5 else pick(m.params_names))
    return out


def grids(spec, m, rng_seed):
    r = random.Random(rng_seed)
    out = {}
    for ln in m.learner_names:
        a = sorted(r.sample([0.2, 0.5, 1.0, 2.0, 4.0, 9.0], 3))
        out[ln] = {"alpha": a, "shift": [0.0, 0.35]} if r.random() < 0.4 and C.learner_kinds(spec).get(ln) == "reg" else {"alpha": a}
    return out


def scoring(spec, m, kind):
    if kind == "dir":
        # one learner is to take the largest, another the smallest penalty
        out = {}
        for ln in m.learner_names:
            lab = next(k for k in C.learner_kinds(spec) if ln == k or ln.startswith(k))
            out[ln] = C.prefer_large if spec["dseed"] >> sorted(C.learner_kinds(spec)).index(lab) & 1 else C.prefer_small
        return out
    if kind != "one":
        return None
    ln = sorted(m.learner_names)[0]
    return {ln: "neg_mean_absolute_error" if C.learner_kinds(spec).get(ln) == "reg" else "neg_log_loss"}


def groups(df, k):
    if k % 2:
        return pd.DataFrame({"g": np.where(df["x1"] > 0, "hi", "lo")})
    q = pd.qcut(df["x2"], 3, labels=False).to_numpy()
    return pd.DataFrame({f"g{i}": q == i for i in range(3)})


def references(lv, k):
    """One reference level, or a list of several."""
    r = random.Random(f"ref{k}")
    return lv[k % len(lv)] if k % 2 else r.sample(lv, r.randint(1, len(lv)))


def basis(df):
    return pd.DataFrame({"b0": 1.0, "b1": df["x1"].to_numpy(), "b2": df["x2"].to_numpy() ** 2})


def relabel(spec, df, k):
    """A frame passed to an analysis, with the row labels of the data or others."""
    if spec.get("form") is None or df is None:
        return df
    df = df.copy()
    if (df.dtypes == bool).all() and spec["form"] % 3:      # dummies as integers
        df = df.astype("int64")
    if (df.dtypes == object).all() and spec["form"] % 2:    # labels as categories
        df = df.astype("category")
    df.index = C.labels(len(df), spec["form"] + k)
    return df


def effect_rows(df, op):
    """Where intervals of group or conditional effects are asked for (None: for every group)."""
    if op["kind"] in ("cate", "capo"):
        return basis(df).iloc[op["k"] % 5:op["k"] % 5 + 6 + op["k"] % 3].reset_index(drop=True)
    if op["own"]:
        return None
    g = pd.get_dummies(groups(df, op["k"])["g"], prefix="Group", prefix_sep="_") if op["k"] % 2 else groups(df, op["k"])
    return g.iloc[op["k"] % 7:op["k"] % 7 + 5].reset_index(drop=True)


def null_of(m, null):
    """The null hypothesis: a number, a value between the estimates ('mid') or one value per coefficient ('vec')."""
    if not isinstance(null, str):
        return null
    if m.framework is None:
        return 0.0
    th = np.asarray(m.framework.thetas, float)
    if null == "mid":
        return float((th.min() + th.max()) / 2) + 1e-3
    return th + np.where(np.arange(len(th)) % 2, 0.11, -0.07)


def _seed(op, s):
    if not op.get("raw"):
        np.random.seed(s)


def apply(w, op, sim):
    """Apply one operation to a world; returns its answer as a frozen value (None if none)."""
    m, spec, name = w.model, w.spec, op["op"]
    if name == "fit":
        if C.kind(spec) == "RD":
            w.last = {"op": op, "ext": None, "conf": None}
            w.fit(sim, op.get("cfg"), n_iterations=op.get("it", 2))
        else:
            kw = {"store_predictions": op.get("sp", True), "store_models": op.get("sm", False)}
            ext = op.get("ext")
            if ext is None and op.get("extsel") is not None:
                ext = make_ext(spec, m, op["extsel"])
            if ext is not None:
                kw["external_predictions"] = w.give("external predictions", ext)
            w.last = {"op": op, "ext": ext, "conf": config(spec, m)}
            w.fit(sim, op.get("cfg"), **kw)
        w.fitted = w.last
        return None
    if name == "boot":
        _seed(op, op["seed"])
        m.bootstrap(method=op["method"], n_rep_boot=op["n"])
        return None
    if name == "sens":
        m.sensitivity_analysis(cf_y=op["cf_y"], cf_d=op["cf_d"], rho=op["rho"], level=op["level"], null_hypothesis=w.give("null hypothesis", null_of(m, op["null"])))
        return None
    if name == "names":
        if m.framework is not None:
            m.framework.treatment_names = w.give("treatment names", [f"effect {i + op['k']}" for i in range(m.framework.n_thetas)])
        return None
    if name == "draw":
        _seed(op, op["seed"])
        m.draw_sample_splitting()
        return None
    if name == "set":
        s, c = make_smpls(spec, w.df, op["seed"], op["n_folds"], op["n_rep"])
        w.set_smpls(s, c)
        return None
    if name == "params":
        names = m.params_names
        ln = names[op["k"] % len(names)]
        dc = C.d_cols(spec)
        tr = dc[(op["k"] // 7) % len(dc)]
        p = {"alpha": op["alpha"]}
        if op.get("none"):
            p = None
        elif op.get("deep"):
            p = [[{"alpha": op["alpha"] + 0.25 * r + 0.1 * f} for f in range(m.n_folds)] for r in range(m.n_rep)]
        m.set_ml_nuisance_params(ln, tr, w.give("nuisance parameters", p))
        return None
    if name == "tune":
        _seed(op, op["seed"])
        with running(sim, op.get("cfg")):
            res = m.tune(w.give("parameter grids", grids(spec, m, op["seed"])), tune_on_folds=op["folds"],
                         scoring_methods=w.give("scoring methods", scoring(spec, m, op["scoring"])),
                         n_folds_tune=op["kf"], search_mode=op["mode"], n_iter_randomized_search=2,
                         n_jobs_cv=(op.get("cfg") or SEQ).get("jobs_cv"), set_as_params=op["set"], return_tune_res=op["ret"])
        if op["ret"]:
            w.returned.append(("tuning results", res))
            return tune_result(res)
        return None
    if name == "confint":
        return answer(w, name, m.confint(joint=op["joint"], level=op["level"]) if C.kind(spec) != "RD" else m.confint(level=op["level"]))
    if name == "padj":
        return answer(w, name, m.p_adjust(method=op["method"]))
    if name == "summary":
        return answer(w, name, m.summary)
    if name == "eval":
        names = m.params_names
        sub = None if op["k"] % 2 else [names[(op["k"] // 2 + i) % len(names)] for i in range(1 + op["k"] // 7 % 2)]
        return answer(w, name, m.evaluate_learners(learners=w.give("learners to evaluate", sub), metric=nan_rmse))
    if name == "bench":
        kw = {k: v for k, v in jobs(spec, op.get("cfg")).items() if v is not None}
        with running(sim, op.get("cfg")):
            return answer(w, name, m.sensitivity_benchmark(w.give("benchmark set", list(op["set"])), fit_args=w.give("fit arguments", kw or None)))
    if name == "contrast":
        refs = references(list(m.treatment_levels), op["k"])
        return keep(w, name, S.snap_framework, m.causal_contrast(w.give("references", refs) if isinstance(refs, list) else refs))
    if name in ("gate", "gapo"):
        return keep(w, name, blp, getattr(m, name)(w.give("groups", relabel(spec, groups(w.df, op["k"]), op["k"]))))
    if name in ("cate", "capo"):
        return keep(w, name, blp, getattr(m, name)(w.give("basis", relabel(spec, basis(w.df), op["k"]))))
    if name == "effci":
        gr = op["kind"] in ("gate", "gapo")
        b = getattr(m, op["kind"])(w.give("groups", relabel(spec, groups(w.df, op["k"]), op["k"])) if gr else w.give("basis", relabel(spec, basis(w.df), op["k"])))
        rows = w.give("rows", relabel(spec, effect_rows(w.df0, op), op["k"] + 1))
        _seed(op, op["seed"])
        ci = b.confint(rows, joint=True, level=op["level"], n_rep_boot=op["n"])
        out, same = [ci, b.confint(rows, level=op["level"])], True
        if rows is not None:  # the answers carry the labels of the rows asked for
            same = all(f.index.equals(rows.index) for f in out)
            out = [f.reset_index(drop=True) for f in out]
        return S.freeze(out + [b.blp_omega, b.confint(level=op["level"]), same])
    if name == "tree":
        X = w.df0[["x1", "x2"]].copy()
        return keep(w, name, lambda t: tree(t, X), m.policy_tree(w.give("features", relabel(spec, w.df[["x1", "x2"]].copy(), op["k"])), depth=1 + op["k"] % 2, random_state=3))
    raise KeyError(name)


def answer(w, name, obj):
    """Remember an object the library returned."""
    w.returned.append((name, obj))
    return S.freeze(obj)


def keep(w, name, read, obj):
    """Remember an analysis object, to be read again later."""
    w.kept.append((name, lambda: read(obj), obj))
    return read(obj)


def tree(t, X):
    tt = t.policy_tree.tree_
    return S.freeze([tt.feature.astype(float), tt.threshold, t.predict(X).reset_index(drop=True), t.summary])


def blp(b):
    return S.freeze([b.blp_model.params, b.blp_omega, b.summary, b.confint(level=0.9)])


def nan_rmse(y_true, y_pred):
    ok = ~(np.isnan(y_true) | np.isnan(y_pred))
    return float(np.sqrt(np.mean(np.square(y_true[ok] - y_pred[ok])))) if ok.any() else 0.0


def tune_result(res):
    """The parameters in tuning results (the searches themselves are compared elsewhere)."""
    if isinstance(res, dict):
        return S.freeze(res["params"])
    return [tune_result(r) for r in res]


READ_OPS = {"confint", "padj", "summary", "eval", "bench", "contrast", "gate", "cate", "gapo", "capo", "effci", "tree"}


def inference(spec, m, text=True):
    """Everything inferential the object answers right now; refusals are recorded as such."""
    out = {}

    def ask(name, fn):
        try:
            out[name] = S.freeze(fn())
        except Exception as e:
            out[name] = f"EXC:{type(e).__name__}"

    if text:
        ask("text", lambda: re.sub(r" at 0x[0-9a-f]+", "", str(m)))
    if C.kind(spec) == "RD":
        ask("confint", lambda: m.confint())
        return out
    for lv in (0.9, 0.95):
        ask(f"confint{lv}", lambda: m.confint(level=lv))
        ask(f"joint{lv}", lambda: m.confint(joint=True, level=lv))
    if hasattr(type(m), "p_adjust"):
        for me in ("romano-wolf", "bonferroni", "holm"):
            ask("padj-" + me, lambda: m.p_adjust(me))
    ask("summary", lambda: m.summary)
    if hasattr(type(m), "sensitivity_summary"):
        ask("sens", lambda: m.sensitivity_summary)
    return out
