"""C16 drawn sample splittings are valid for every random stream; explicit ones are reported and used exactly as given."""
import contextlib
import copy
import math
import random

import numpy as np

from .. import catalog as C, honest as H, ops as O, snap as S, trace
from ..core import FAULT_EXC, V
from ..learners import REC
from ..threads import Baton
from . import common as K

PROP = "C16"
REAL = ["doubleml sample splitting, validation and every model class that draws splittings", "scikit-learn KFold/StratifiedKFold", "NumPy"]
STUB = ["random generator (seeded, adversarially initialised, or simulator-decided permutations; may fail)", "learners (deterministic recording learners)",
        "joblib worker pool (simulated)"]
RULE = ("Each run: a model (or resampler) with a random number of folds, repetitions, observations, group imbalance and cluster structure draws splittings "
        "repeatedly from a stream decided by the simulator (ordinary and sparse generator states, or permutations chosen one by one), some draws hit by an "
        "interrupt, failing allocation or failing generator, some made by two models at once in interleaved threads; every reported splitting must be a "
        "balanced, stratified or cluster-disjoint partition with complementary training parts, and on ordinary streams no repetition may come back. Explicit splittings are given in every documented form "
        "and must be reported and used exactly. Non-trivial: a splitting was checked; distinct by event-log digest.")
ASSUME = ["every treatment/period cell has at least one observation per fold", "an interrupted draw may leave the previous or a new splitting, but a valid one"]

STRATA = {"IRM": ("d",), "DID": ("d",), "APO": ("d",), "APOS": ("d",), "PQ": ("d",), "CVAR": ("d",), "QTE": ("d",), "IIVM": ("d", "z"), "LPQ": ("d", "z"),
          "SSM": ("d", "s"), "DIDCS": ("d", "t")}


# ----------------------------------------------------------------- random streams
class Stream(np.random.RandomState):
    """A generator whose permutations are chosen by the simulator, and which may fail."""

    def __new__(cls, *a):
        return super().__new__(cls)

    def __init__(self, sim, seed, fail=None):
        super().__init__(seed)
        self.sim, self.fail, self.n = sim, fail, 0

    def _order(self, n):
        self.n += 1
        if self.fail is not None and self.n == self.fail[0]:
            self.sim.fault("generator_" + self.fail[1])
            raise FAULT_EXC[self.fail[1]]("injected")
        k = self.sim.choose(6)
        i = np.arange(n)
        if k == 1:
            return i[::-1].copy()
        if k == 2:
            return np.roll(i, self.sim.choose(max(n, 1)))
        if k == 3:
            return np.concatenate((i[::2], i[1::2]))
        if k == 4:
            a, b = self.sim.choose(max(n, 1)), self.sim.choose(max(n, 1))
            i[[a, b]] = i[[b, a]]
            return i
        if k == 5:
            return i
        return super().permutation(n)

    def shuffle(self, x):
        p = self._order(len(x))
        if isinstance(x, np.ndarray):
            x[:] = x[p]
        else:
            x[:] = [x[j] for j in p]

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            return self._order(int(x))
        return np.asarray(x)[self._order(len(x))]


@contextlib.contextmanager
def stream(sim, st):
    old = np.random.mtrand._rand
    try:
        if st["kind"] == "seed":
            np.random.seed(st["seed"])
        elif st["kind"] == "state":
            key = np.zeros(624, dtype=np.uint32)
            r = random.Random(st["seed"])
            for _ in range(r.choice([0, 1, 2, 5])):
                key[r.randrange(624)] = r.choice([1, 0x80000000, 0xFFFFFFFF, r.getrandbits(32)])
            np.random.set_state(("MT19937", key, r.choice([0, 1, 623, 624]), 0, 0.0))
        else:
            np.random.mtrand._rand = Stream(sim, st["seed"], st.get("fail"))
        yield
    finally:
        np.random.mtrand._rand = old


def gen_stream(rng, fail=False):
    k = rng.choice(["seed", "seed", "state", "chosen", "chosen"])
    st = {"kind": k, "seed": rng.randrange(2 ** 31)}
    if k == "chosen" and fail and rng.random() < 0.4:
        st["fail"] = [rng.choice([1, 2, 3, 5]), rng.choice(["learner_error", "interrupt", "oom"])]
    return st


# ----------------------------------------------------------------- oracle
def check_plain(smpls, n, K_, R, strata=None, what=""):
    out = []
    if len(smpls) != R:
        return [V("repetitions", f"{what}{len(smpls)} repetitions drawn instead of {R}")]
    for r, folds in enumerate(smpls):
        if len(folds) != K_:
            out.append(V("folds", f"{what}repetition {r}: {len(folds)} folds drawn instead of {K_}"))
            continue
        seen = np.zeros(n, dtype=int)
        sizes = []
        for k, (tr, te) in enumerate(folds):
            tr, te = np.asarray(tr), np.asarray(te)
            np.add.at(seen, te, 1)
            sizes.append(len(te))
            if len(tr) + len(te) != n or not np.array_equal(np.sort(np.concatenate((tr, te))), np.arange(n)):
                out.append(V("complement", f"{what}repetition {r} fold {k}: the training part is not the complement of the test part"))
        if np.any(seen != 1):
            out.append(V("partition", f"{what}repetition {r}: observation {int(np.argmax(seen != 1))} is in {int(seen[np.argmax(seen != 1)])} test parts"))
        if max(sizes) - min(sizes) > 1:
            out.append(V("balance", f"{what}repetition {r}: test parts of sizes {sizes}"))
        if strata is not None and not out:
            for s in np.unique(strata):
                c = [int(np.sum(strata[te] == s)) for _, te in folds]
                if max(c) - min(c) > 1:
                    out.append(V("strata", f"{what}repetition {r}: {c} observations of group {s} in the test parts"))
                    break
        if out:
            break
    return out[:2]


def check_cluster(smpls, cl, cv, K_, R):
    out = []
    n, dims = cv.shape
    if len(smpls) != R or len(cl) != R:
        return [V("repetitions", f"{len(smpls)} repetitions and {len(cl)} cluster splittings instead of {R}")]
    uniq = [np.unique(cv[:, j]) for j in range(dims)]
    for r in range(R):
        if len(smpls[r]) != K_ ** dims or len(cl[r]) != K_ ** dims:
            return [V("folds", f"repetition {r}: {len(smpls[r])} parts instead of {K_ ** dims}")]
        seen = np.zeros(n, dtype=int)
        combos = set()
        per_dim = [set() for _ in range(dims)]
        for k, ((tr, te), (ctr, cte)) in enumerate(zip(smpls[r], cl[r])):
            tr, te = np.asarray(tr), np.asarray(te)
            np.add.at(seen, te, 1)
            mtr, mte = np.ones(n, bool), np.ones(n, bool)
            for j in range(dims):
                a, b = set(np.asarray(ctr[j]).tolist()), set(np.asarray(cte[j]).tolist())
                if a & b or (a | b) != set(uniq[j].tolist()) or len(a) + len(b) != len(np.asarray(ctr[j])) + len(np.asarray(cte[j])):
                    out.append(V("cluster-partition", f"repetition {r} part {k}: training and test clusters of dimension {j} do not partition its clusters"))
                per_dim[j].add(frozenset(b))
                mtr &= np.isin(cv[:, j], list(a))
                mte &= np.isin(cv[:, j], list(b))
                if set(cv[tr, j].tolist()) & set(cv[te, j].tolist()):
                    out.append(V("shared-cluster", f"repetition {r} part {k}: training and test parts share a cluster of dimension {j}"))
            combos.add(tuple(frozenset(np.asarray(c).tolist()) for c in cte))
            if not np.array_equal(np.sort(tr), np.where(mtr)[0]) or not np.array_equal(np.sort(te), np.where(mte)[0]):
                out.append(V("cluster-indices", f"repetition {r} part {k}: the reported clusters do not describe the parts"))
            if out:
                return out[:2]
        if np.any(seen != 1):
            out.append(V("partition", f"repetition {r}: observation {int(np.argmax(seen != 1))} is in {int(seen[np.argmax(seen != 1)])} test parts"))
        if len(combos) != K_ ** dims:
            out.append(V("combinations", f"repetition {r}: {len(combos)} different combinations of cluster folds"))
        for j in range(dims):
            sz = sorted(len(s) for s in per_dim[j])
            if len(sz) != K_ or sum(sz) != len(uniq[j]) or sz[-1] - sz[0] > 1:
                out.append(V("cluster-balance", f"repetition {r} dimension {j}: cluster folds of sizes {sz} for {len(uniq[j])} clusters in {K_} folds"))
        if out:
            return out[:2]
    return []


def n_orders(groups, K_):
    """Logarithm of the number of balanced assignments of the members of the groups to K_ folds (a lower bound)."""
    out = 0.0
    for n in groups:
        sz = [n // K_ + (i < n % K_) for i in range(K_)]
        out += math.lgamma(n + 1) - sum(math.lgamma(k + 1) for k in sz)
    return out


def key(folds):
    return tuple(np.sort(np.asarray(te)).tobytes() for _, te in folds)


def check_random(draws, groups, K_):
    """Draws from ordinary random streams: a repetition never comes back (odds below 1e-12 for each pair)."""
    if n_orders(groups, K_) < 28 + 2 * math.log(K_):
        return []
    seen = {}
    for i, smpls in enumerate(draws):
        for r, folds in enumerate(smpls):
            k = key(folds)
            if k in seen:
                return [V("not-random", f"draw {i}, repetition {r} has the same folds as draw {seen[k][0]}, repetition {seen[k][1]}")]
            seen[k] = (i, r)
    return []


# ----------------------------------------------------------------- scenarios
def make(rng, v):
    cls, opts = v
    spec = C.make_spec(rng, v, n_folds=rng.choice([2, 2, 3, 4, 5, 7, 10]), n_rep=rng.choice([1, 1, 2, 3, 5]), ytype="cont")
    if "weights" in opts and opts["weights"] == "dict":
        spec["n_rep"] = min(spec["n_rep"], 3)
    x = rng.random()
    scn = {"spec": spec, "wseed": rng.randrange(10 ** 6), "ratio": rng.choice([0.0, 0.0, 0.6, 1.2]), "kind": "model"}
    if C.clustered(spec):
        spec["n_folds"] = rng.choice([2, 2, 3, 4] if len(C.roles(spec)["cluster_cols"]) > 1 else [2, 3, 4, 5, 6])
    if x < 0.18:
        scn["kind"] = "resampler"
        cl = rng.random() < 0.45
        scn["res"] = {"n": rng.randint(12, 140), "K": rng.choice([2, 3, 4, 5, 8, 12]), "R": rng.choice([1, 2, 4]), "cells": rng.choice([0, 1, 2, 3, 4, 6]),
                      "dims": rng.choice([1, 2, 2, 3]) if cl else 0, "names": rng.choice(["int", "float", "str", "big"]), "seed": rng.randrange(10 ** 6)}
        if cl:
            scn["res"]["K"] = rng.choice([2, 3, 4] if scn["res"]["dims"] > 1 else [2, 3, 4, 5, 6, 8])
        scn["draws"] = [gen_stream(rng) for _ in range(2)]
        return scn
    if x < 0.45 and cls != "RD":
        scn["kind"] = "explicit"
        form = rng.choice(["rep", "rep", "list", "one", "one_list", "plainlists"]) if not C.clustered(spec) else "rep"
        if cls in ("PQ", "LPQ", "CVAR", "QTE") and form.startswith("one"):
            form = "list"
        scn.update(form=form, seed=rng.randrange(10 ** 6), K=rng.choice([2, 3, 4]), R=rng.choice([1, 2, 3]), cfg=O.gen_cfg(rng, spec),
                   prefit=rng.random() < 0.3)
        if C.clustered(spec) or cls in ("LPQ", "QTE"):
            scn["K"] = rng.choice([2, 3])
        if opts.get("weights") == "dict":
            scn["R"] = spec["n_rep"] = rng.choice([1, 2])
            if form != "rep":
                scn["R"] = spec["n_rep"] = 1
        spec["n_folds"], spec["n_rep"] = (scn["K"], min(spec["n_rep"], 2)) if opts.get("weights") != "dict" else (scn["K"], spec["n_rep"])
        return scn
    if x < 0.55 and cls != "RD":
        scn["kind"] = "threads"
        scn["gap"] = rng.choice([1, 3, 10, 30])
        scn["draws"] = [gen_stream(rng)]
        return scn
    draws = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        d = {"stream": gen_stream(rng, fail=True), "line": None}
        if rng.random() < 0.25 and "fail" not in d["stream"]:
            d["line"] = [rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 60]), rng.choice(["interrupt", "oom"])]
        if cls not in ("LPQ", "QTE", "RD") and not scn["ratio"] and spec["n_folds"] <= 5 and rng.random() < 0.3:
            d["fit"] = rng.random() < 0.5
        draws.append(d)
    draws[0]["line"] = None
    draws[0]["stream"].pop("fail", None)
    scn["draws"] = draws
    return scn


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 2200, 40000), make, C.variants())


def frame(scn):
    """Data whose groups are unbalanced (some cells close to one observation per fold)."""
    spec = scn["spec"]
    df = C.make_df(spec)
    if not scn["ratio"] or spec["cls"] not in STRATA:
        return df
    r = np.random.RandomState(spec["dseed"] + 1)
    cols = STRATA[spec["cls"]] + (("z",) if spec["cls"] == "QTE" and spec["opts"]["score"] == "LPQ" else ())
    key = df[list(dict.fromkeys(cols))].astype(int).astype(str).agg("".join, axis=1).to_numpy()
    keep = np.zeros(len(df), bool)
    for c in np.unique(key):
        i = r.permutation(np.where(key == c)[0])
        m = max(spec["n_folds"], 6, int(len(i) * np.exp(-scn["ratio"] * r.uniform(0, 2))))
        keep[i[:m]] = True
    df = df[keep].reset_index(drop=True)
    df["xid"] = 1e6 + np.arange(len(df), dtype=float)
    return df


def strata_of(spec, df):
    c = STRATA.get(spec["cls"])
    if spec["cls"] == "RD":
        return df["d"].to_numpy().astype(int)
    if c is None:
        return None
    return sum(df[k].to_numpy().astype(int) * 10 ** i for i, k in enumerate(c))


def check(spec, df, m, K_=None, R=None):
    K_, R = K_ or spec["n_folds"], R or spec["n_rep"]
    if C.kind(spec) == "RD":
        smpls = getattr(m, "_smpls", None)
        return [] if smpls is None else check_plain(smpls, len(df), K_, R)
    if C.clustered(spec):
        return check_cluster(m.smpls, m.smpls_cluster, df[C.roles(spec)["cluster_cols"]].to_numpy(), K_, R)
    st = strata_of(spec, df)
    out = check_plain(m.smpls, len(df), K_, R, st)
    if (m.n_folds, m.n_rep) != (K_, R):
        out.append(V("reported", f"n_folds={m.n_folds}, n_rep={m.n_rep} reported for {K_} folds and {R} repetitions"))
    for i, (_, s) in enumerate(C.submodels(spec, m)):
        if s is not m and S.diff(S.freeze(s.smpls), S.freeze(m.smpls)):
            out.append(V("submodel", f"sub-model {i} uses another sample splitting than the reported one"))
            break
    return out


def groups_of(spec, df):
    """Sizes of the groups that are dealt out to the folds independently."""
    if C.clustered(spec):
        return [df[c].nunique() for c in C.roles(spec)["cluster_cols"]]
    st = strata_of(spec, df)
    return [len(df)] if st is None else np.unique(st, return_counts=True)[1].tolist()


def run(scn, sim):
    return {"model": run_model, "resampler": run_res, "explicit": run_explicit, "threads": run_threads}[scn["kind"]](scn, sim)


def run_res(scn, sim):
    from doubleml.utils import DoubleMLClusterResampling, DoubleMLResampling
    c = scn["res"]
    r = np.random.RandomState(c["seed"])
    out = []
    for st in scn["draws"]:
        if c["dims"]:
            cv = np.column_stack([r.randint(0, r.randint(c["K"], 4 * c["K"]), size=c["n"]) for _ in range(c["dims"])])
            for j in range(c["dims"]):
                cv[: c["K"], j] = np.arange(c["K"])
            cv = cv[r.permutation(c["n"])]
            cv = {"int": lambda a: a, "float": lambda a: a * 0.5 - 3.25, "str": lambda a: np.array([[f"c{v}" for v in row] for row in a], dtype=object),
                  "big": lambda a: a * 10 ** 9 - 7}[c["names"]](cv)
            with stream(sim, st):
                s, cl = DoubleMLClusterResampling(n_folds=c["K"], n_rep=c["R"], n_obs=c["n"], n_cluster_vars=c["dims"], cluster_vars=cv).split_samples()
            out += check_cluster(s, cl, cv, c["K"], c["R"])
            if st["kind"] == "seed":
                out += check_random([s], [len(np.unique(cv[:, j])) for j in range(c["dims"])], c["K"])
        else:
            g = None
            if c["cells"]:
                g = np.sort(r.randint(0, c["cells"], size=c["n"])) if r.randint(2) else r.randint(0, c["cells"], size=c["n"])
                if np.bincount(g).max() < c["K"]:
                    g[: c["K"]] = 0
            with stream(sim, st):
                s = DoubleMLResampling(n_folds=c["K"], n_rep=c["R"], n_obs=c["n"], stratify=g).split_samples()
            out += check_plain(s, c["n"], c["K"], c["R"], g)
            if st["kind"] == "seed":
                out += check_random([s], [c["n"]] if g is None else np.bincount(g).tolist(), c["K"])
        sim.log(S.digest(S.freeze(s)))
    sim.probe("resampler_draws", len(scn["draws"]))
    return {"v": out[:2], "nontrivial": True, "sig": f"res{c['dims']}"}


def run_model(scn, sim):
    spec = scn["spec"]
    df = frame(scn)
    w, out, before, plain = None, [], None, []
    for i, d in enumerate(scn["draws"]):
        cnt, ctx = None, contextlib.nullcontext()
        if d["line"]:
            cnt = trace.Counter(d["line"][0], FAULT_EXC[d["line"][1]]("injected"))
            ctx = trace.lines(cnt)
        try:
            if w is None or C.kind(spec) == "RD":
                with stream(sim, d["stream"]):
                    if C.kind(spec) == "RD":
                        w = O.World(spec, scn["wseed"], df=df.copy(deep=True)) if w is None else w
                        with ctx:
                            w.model = C.make_model(spec, w.data, w.learners)
                    else:
                        w = world(spec, scn, df)
            else:
                with stream(sim, d["stream"]), ctx:
                    w.model.draw_sample_splitting()
            ok = True
        except K.INJECTED:
            ok = False
            if cnt is not None:
                sim.fault(d["line"][1] + "_at_line")
        now = S.freeze(getattr(w.model, "_smpls", None) if C.kind(spec) == "RD" else w.model.smpls)
        sim.log(ok, S.digest(now))
        sim.probe("model_draws")
        v = check(spec, df, w.model)
        if not ok and C.kind(spec) in ("QTE", "APOS"):
            v = [x for x in v if x["kind"] != "submodel"]
        if not ok and not v:
            sim.probe("draws_failed")
        out += v
        if ok and d["stream"]["kind"] == "seed" and not out:
            s = getattr(w.model, "_smpls", None) if C.kind(spec) == "RD" else w.model.smpls
            if s is not None:
                plain.append([[(None, np.array(te)) for _, te in folds] for folds in s])
                out += check_random(plain, groups_of(spec, df), spec["n_folds"])
        if out:
            break
        if d.get("fit"):
            with stream(sim, {"kind": "seed", "seed": 3}):
                O.apply(w, {"op": "fit", "sp": True, "sm": False, "cfg": dict(O.SEQ)}, sim)
            if S.diff(now, S.freeze(w.model.smpls)):
                out.append(V("changed-by-fit", "fitting changed the sample splitting"))
        before = now
    return {"v": out[:2], "nontrivial": True, "sig": f"{spec['cls']}{spec['n_folds']}"}


def world(spec, scn, df):
    """A world whose model draws its splitting in the constructor, from the stream in force."""
    w = O.World.__new__(O.World)
    w.spec, w.seed, w.last, w.fitted, w.given = spec, scn["wseed"], None, None, []
    w.df, w.df0 = df, df.copy(deep=True)
    w.data = C.make_data(spec, df)
    w.learners = C.make_learners(spec)
    over = {}
    wt = C.make_weights(spec)
    if wt is not None and len(df) != spec["n"]:
        over["weights"] = {k: v[: len(df)] for k, v in wt.items()} if isinstance(wt, dict) else wt[: len(df)]
    w.model = C.make_model(spec, w.data, w.learners, **over)
    return w


def run_threads(scn, sim):
    """Two models draw at the same time; every splitting must be valid whatever the interleaving."""
    spec = scn["spec"]
    df = frame(scn)
    with stream(sim, {"kind": "seed", "seed": 1}):
        ms = [world(spec, scn, df.copy(deep=True)) for _ in range(2)]
    first = [S.freeze(w.model.smpls) for w in ms]
    baton = Baton(sim)
    baton.line_gap = scn["gap"]

    def go(w):
        for _ in range(2):
            w.model.draw_sample_splitting()
    with stream(sim, scn["draws"][0]), trace.lines(baton.line):
        ts = [baton.spawn(lambda w=w: go(w), f"t{i}") for i, w in enumerate(ms)]
        baton.join(ts)
    for t in ts:
        if t.error is not None:
            raise t.error
    out = []
    for w, f in zip(ms, first):
        out += check(spec, df, w.model)
        sim.log(S.digest(S.freeze(w.model.smpls)))
    sim.probe("concurrent_draws", 2)
    return {"v": out[:2], "nontrivial": True, "sig": f"thr{spec['cls']}"}


def run_explicit(scn, sim):
    spec = scn["spec"]
    w = O.World(spec, scn["wseed"])
    n = len(w.df)
    form = scn["form"]
    if scn["prefit"]:
        O.apply(w, {"op": "fit", "sp": True, "sm": False, "cfg": dict(O.SEQ)}, sim)
    R = scn["R"] if form == "rep" else 1
    s, c = O.make_smpls(spec, w.df, scn["seed"], scn["K"], R)
    full = np.arange(n)
    if form == "rep":
        arg, want = s, s
    elif form == "list":
        arg, want = s[0], s
    elif form == "plainlists":
        arg = [(np.sort(a).tolist(), np.sort(b).tolist()) for a, b in s[0]]
        want = [[(np.array(a), np.array(b)) for a, b in arg]]
    elif form == "one":
        arg, want = (full, full), [[(full, full)]]
    else:
        arg, want = [(full, full)], [[(full, full)]]
    norm = lambda x: S.freeze([[(np.sort(np.asarray(a)), np.sort(np.asarray(b))) for a, b in r] for r in x])  # noqa: E731
    want = norm(want)
    w.set_smpls(arg, c)
    m = w.model
    K_ = len(want[0])
    out = []

    def reported(when):
        d = S.diff(want, norm(m.smpls))
        if d:
            out.append(V("explicit-reported", f"the splitting reported {when} is not the one that was set: {d[0]}"))
        kk = int(round(K_ ** (1 / len(C.roles(spec).get("cluster_cols", [1])))))
        if m.n_rep != R or m.n_folds not in (K_, kk):
            out.append(V("explicit-reported", f"n_folds={m.n_folds}, n_rep={m.n_rep} {when} for {K_} parts and {R} repetitions"))
        if c is not None:
            d = S.diff(S.freeze(c), S.freeze(m.smpls_cluster))
            if d:
                out.append(V("explicit-reported", f"the cluster splitting reported {when} is not the one that was set: {d[0]}"))
        for _, sm in C.submodels(spec, m):
            if sm is not m and S.diff(want, norm(sm.smpls)):
                out.append(V("explicit-submodel", f"a sub-model uses another splitting {when} than the one that was set"))
                break
    reported("after setting it")
    if not out:
        REC.events.clear()
        O.apply(w, {"op": "fit", "sp": True, "sm": False, "cfg": scn["cfg"]}, sim)
        reported("after fitting")
        parts = {np.sort(np.asarray(te)).tobytes() for r in m.smpls for _, te in r}
        for e in REC.events:
            if e["ev"] == "predict" and e["ids"] is not None and spec["cls"] not in ("PQ", "LPQ", "QTE", "CVAR", "SSM") \
                    and spec["opts"].get("partial") != "XZ" and np.unique(e["ids"]).tobytes() not in parts:
                out.append(V("explicit-used", f"a {e['label']} learner predicted {len(e['ids'])} observations that are no test part of the splitting set"))
                break
        if K_ > 1:
            idx = H.index_predictions(REC.events)
            for sspec, sm in C.submodels(spec, m):
                out += H.check_model(sspec, w.df, sm, REC.events, [[(a, b) for a, b in r] for r in s], idx=idx)
        sim.log(S.digest(S.snap(spec, m, models=False)))
    ch = w.changed_inputs()
    if ch:
        out.append(V("explicit-modified", f"the splitting handed over was modified: {ch[0]}"))
    sim.probe("explicit_splittings")
    return {"v": out[:2], "nontrivial": True, "sig": f"exp{spec['cls']}{form}"}


def shrink(scn):
    for i in range(len(scn.get("draws") or [])):
        if i:
            c = copy.deepcopy(scn)
            del c["draws"][i]
            yield c
    yield from K.shrink_spec(scn)
