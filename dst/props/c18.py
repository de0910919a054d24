"""C18 every reported number follows from the reported predictions: recomputed by a reference model after histories with faults."""
import numpy as np
from scipy.stats import norm

from .. import catalog as C, ops as O, ref, snap as S
from ..core import V
from . import common as K

PROP = "C18"
REAL, STUB = K.REAL + ["rdrobust"], K.STUB
RULE = ("Each run: a generated history (fits in simulated execution modes with stored, dropped or supplied predictions, bootstraps, sensitivity analyses, "
        "splittings, parameters, tuning, analyses; some operations hit by a fault). Whenever the object reports inference, a reference model written "
        "from the documented formulas recomputes scores, estimates, (cluster-robust) standard errors, aggregation, t statistics, p-values, "
        "confidence and joint intervals, adjusted p-values, summaries and sensitivity bounds from the reported predictions. Non-trivial: at least "
        "one fit was recomputed; distinct by event-log digest.")
ASSUME = ["numerical agreement to 1e-7 relative, for quantile models a sign change of the score within 1e-7 of the outcome range",
          "kernel density estimates of quantile models are recomputed with statsmodels, RDFlex numbers per repetition are those of rdrobust"]
KINDS = ["fit", "fit", "boot", "boot", "sens", "draw", "set", "params", "tune", "confint", "padj", "summary", "bench", "gate", "cate", "gapo", "contrast"]


def make(rng, v):
    spec = C.make_spec(rng, v)
    heavy = C.HEAVY.get(spec["cls"], 1)
    if heavy == 1 and rng.random() < 0.15:
        spec["n_rep"] = rng.choice([4, 5])
    c = O.caps(spec)
    kinds = [k for k in KINDS if k in c and not (heavy > 3 and k in ("tune", "bench"))]
    ops = [O.gen_fit(rng, spec)]
    for _ in range(rng.choice([1, 2, 3, 4]) if heavy < 3 else rng.choice([0, 1, 2])):
        ops.append(O.gen_op(rng, spec, [rng.choice(kinds)]))
    if "set" in c and heavy < 3 and rng.random() < (0.7 if "cl" in spec["opts"] else 0.15):
        st = O.gen_op(rng, spec, ["set"])
        if "cl" in spec["opts"]:
            st["n_folds"] = 5 - spec["n_folds"]     # another number of folds (2 <-> 3), then estimated again
        ops += [st, O.gen_fit(rng, spec)]
    for op in ops:
        if op["op"] == "fit" and "ext" in c and rng.random() < 0.3:
            op["extsel"] = rng.randrange(1000)
        op["fault"] = K.gen_fault(rng, op) if rng.random() < 0.12 and op["op"] not in ("set", "draw", "params") else None
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": ops, "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.4 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 600, 14000), make, C.variants())


def run(scn, sim):
    spec = scn["spec"]
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    n = 0
    for i, op in enumerate(scn["ops"]):
        r = K.faulty(w, op, op.get("fault"), sim)
        if C.kind(spec) == "RD":
            if r == "ok" and w.model.coef is not None:
                n += 1
                out = check_rd(w.model)
            else:
                out = []
        elif w.model.framework is not None:
            n += 1
            out = check(w)
        else:
            out = []
        sim.log(op["op"], r, None if C.kind(spec) == "RD" else S.digest(S.attr(w.model, "coef")))
        if out:
            return {"v": out[:3], "nontrivial": True, "sig": f"{spec['cls']}:{op['op']}"}
    return {"v": [], "nontrivial": n > 0, "sig": f"{spec['cls']}:{[o['op'] for o in scn['ops']]}"}


def check_rd(m):
    out = []
    ac, ase = m.all_coef, m.all_se
    scal = np.array([np.sum(r.N_h) for r in m._rdd_obj]) if hasattr(m, "_rdd_obj") else None
    c = np.median(ac, axis=1)
    if not ref.close(m.coef, c):
        out.append(V("aggregation", "coefficients are not the median over the repetitions"))
    if scal is not None and not ref.close(m.se, np.sqrt(np.median(ase ** 2 + (ac - c[:, None]) ** 2 / scal, axis=1))):
        out.append(V("aggregation", "standard errors do not aggregate the repetitions"))
    for lv in (0.9, 0.95):
        if not ref.close(m.confint(level=lv).to_numpy(), ref.confint(ac, ase, lv)):
            out.append(V("inference", "confidence intervals do not follow from the repetitions"))
    if not ref.close(m.t_stat, m.coef / m.se) or not ref.close(m.pval, 2 * norm.sf(np.abs(m.coef / m.se)), rtol=1e-5, atol=1e-12):
        out.append(V("inference", "test statistics or p-values do not follow"))
    return out


def check(w):
    spec, m = w.spec, w.model
    f = S.snap_framework(m.framework)
    out = []
    subs = C.submodels(spec, m)
    for sp, s in subs:
        out += check_base(sp, s, w.df0, w.fitted["conf"])
    if C.kind(spec) == "QTE":
        for i in range(len(m.quantiles)):
            a, b = m.modellist_1[i], m.modellist_0[i]
            if not ref.close(m.all_coef[i], (a.all_coef - b.all_coef)[0]):
                out.append(V("composite", "an effect is not the difference of the two potential quantiles"))
            d = (a.psi / a.psi_deriv.mean(axis=0) - b.psi / b.psi_deriv.mean(axis=0))[:, :, 0]
            if not ref.close(m.all_se[i], np.sqrt(np.mean(d ** 2, axis=0) / d.shape[0])):
                out.append(V("composite", "standard errors are not those of the difference of the two potential quantiles"))
    if C.kind(spec) == "APOS":
        for i, s in enumerate(m.modellist):
            if not ref.close(m.all_coef[i], s.all_coef[0]) or not ref.close(m.all_se[i], s.all_se[0]):
                out.append(V("composite", "a level's estimates are not those of its model"))
    out += [V("inference-object", x) for x in ref.framework_messages(f)]
    out += answers(spec, m, f, w)
    return out


def reported_targets(spec, m, df, smpls):
    """The reported targets of every nuisance function are the documented ones, on the documented subsample."""
    out = []
    for j, tr in enumerate(C.d_cols(spec)):
        for nu, rule in C.rules(spec, df, tr).items():
            T = (m.nuisance_targets or {}).get(nu)
            if not isinstance(rule, dict) or rule["target"] is None or T is None:
                continue
            for r in range(m.n_rep):
                t = np.asarray(T[:, r, j], dtype=float)
                has = ~np.isnan(t)
                where = f"{nu} {tr} repetition {r}: "
                if not has.any():
                    continue        # predictions were provided for it
                if (rule["mask"] & ~has).any():
                    out.append(V("targets", where + "no target is reported for some observations of its subsample"))
                elif isinstance(rule["target"], np.ndarray):
                    if not ref.close(t[has], rule["target"][has]):
                        out.append(V("targets", where + "the reported target is not that of the nuisance function"))
                elif rule["target"][0] == "threshold":
                    _, y, member = rule["target"]
                    for _, te in smpls[r]:
                        i = te[has[te]]
                        a, b = y[i][(t[i] == 1)], y[i][member[i] & (t[i] == 0)]
                        if not np.isin(t[i], (0.0, 1.0)).all() or (t[i][~member[i]] != 0).any() or (len(a) and len(b) and a.max() > b.min()):
                            out.append(V("targets", where + "the reported target is not an indicator of outcomes below one value in the treated group"))
                            break
    return out


def losses(spec, m):
    """Reported losses are those of the reported predictions and targets (root mean squared error, or log loss of classifiers)."""
    P, T, L = m.predictions, m.nuisance_targets, m.nuisance_loss
    kinds = C.learner_kinds(spec)
    if P is None or T is None:
        return []
    for ln in m.params_names:
        kind = next(k for lab, k in kinds.items() if ln.startswith(lab)) if any(ln.startswith(lab) for lab in kinds) else None
        for r in range(m.n_rep):
            for j in range(P[ln].shape[2]):
                p, t = P[ln][:, r, j], T[ln][:, r, j]
                if kind is None or np.isnan(t).all():
                    continue
                if kind == "cls":
                    q = np.clip(p, 1e-15, 1 - 1e-15)
                    want = -np.nanmean(t * np.log(q) + (1 - t) * np.log(1 - q))
                else:
                    want = np.sqrt(np.nanmean((t - p) ** 2))
                if not ref.close(L[ln][r, j], want):
                    return [V("loss", f"the loss of {ln} repetition {r} is {L[ln][r, j]}, the reported predictions and targets give {want}")]
    return []


def check_base(spec, m, df, conf):
    out = []
    if m.all_coef is None or np.any(np.isnan(m.all_coef)):
        return [V("estimate", "missing estimates although inference is reported")]
    smpls, P, T = conf["smpls"], m.predictions, m.nuisance_targets     # the splitting of the latest fit
    clustered = C.clustered(spec)
    cl = conf["cl"]
    cv = df[C.roles(spec)["cluster_cols"]].to_numpy() if clustered else None
    for j, tr in enumerate(C.d_cols(spec)):
        for r in range(m.n_rep):
            th = m.all_coef[j, r]
            sc = None
            if P is not None:
                sc = ref.score(spec, df, tr, {k: v[:, r, j] for k, v in P.items()}, smpls[r], r,
                               {k: v[:, r, j] for k, v in T.items()})
            el = {k: v[:, r, j] for k, v in m.psi_elements.items()}
            psi, dpsi = m.psi[:, r, j], m.psi_deriv[:, r, j]
            where = f"{spec['cls']} {tr} repetition {r}: "
            if sc is not None and sc[0] == "bad":
                out.append(V("score", where + sc[1]))
            elif sc is not None and sc[0] == "lin":
                if not ref.close(el["psi_a"], sc[1], atol=1e-8) or not ref.close(el["psi_b"], sc[2], atol=1e-8):
                    out.append(V("score", where + "score elements are not the documented score at the reported predictions"))
            if "psi_a" in el:
                lin = sc if sc is not None and sc[0] == "lin" else ("lin", el["psi_a"], el["psi_b"])
                if not ref.close(th, ref.solve(spec, df, lin, smpls[r], cl[r] if cl else None)):
                    out.append(V("estimate", where + "the estimate does not solve the moment condition"))
                if not ref.close(psi, el["psi_a"] * th + el["psi_b"], atol=1e-8) or not ref.close(dpsi, el["psi_a"], atol=1e-8):
                    out.append(V("score", where + "the score is not the one at the estimate"))
            elif sc is not None:
                if not ref.close(psi, sc[1](th), atol=1e-7):
                    out.append(V("score", where + "the score is not the documented one at the reported predictions and estimate"))
                if not ref.close(dpsi, np.full(len(dpsi), float(np.ravel(sc[2](th))[0])), rtol=1e-6):
                    out.append(V("score", where + "the score derivative is not the documented one"))
                y = df["y"].to_numpy()[df["d"].to_numpy() == spec["opts"]["treatment"]]
                lo, hi = y.min(), y.max()
                fn = lambda t: ref.moment(sc[1](t), smpls[r], cl[r] if cl else None)
                if not ref.is_root(fn, th, hi - lo):
                    for k in range(1, 10):
                        a, b = max(th - k / 20 * (hi - lo), lo), min(th + k / 20 * (hi - lo), hi)
                        if np.sign(fn(a)) != np.sign(fn(b)):
                            out.append(V("estimate", where + "the estimate does not solve the moment condition"))
                            break
            se = ref.cluster_se(psi, dpsi, smpls[r], cl[r], cv, 0)[0] if clustered else ref.iid_se(psi, dpsi)[0]
            if not ref.close(m.all_se[j, r], se):
                out.append(V("se", where + "the standard error is not that of the score"))
    out += reported_targets(spec, m, df, smpls)
    out += losses(spec, m)
    out += sens_elements(spec, m, df)
    c, s = ref.aggregate(m.all_coef, m.all_se, m.framework.var_scaling_factors)
    want = [min(len(np.unique(cv[:, k])) for k in range(cv.shape[1])) if clustered else len(df)] * len(c)
    if not ref.close(m.framework.var_scaling_factors, want):
        out.append(V("aggregation", "the variance scaling is not the number of observations or clusters"))
    if not ref.close(m.coef, c) or not ref.close(m.se, s):
        out.append(V("aggregation", "coefficients or standard errors do not aggregate the repetitions"))
    sp = np.stack([m.psi[:, :, j] / (np.mean(m.psi_deriv[:, :, j], axis=0)) for j in range(m.psi.shape[2])], axis=1)
    if not ref.close(m.framework.scaled_psi, sp, atol=1e-8):
        out.append(V("inference-object", "the scaled scores are not score / mean derivative"))
    if not ref.close(m.framework.all_thetas, m.all_coef) or not ref.close(m.framework.all_ses, m.all_se):
        out.append(V("inference-object", "estimates of the inference object are not those of the model"))
    if not ref.close(m.t_stat, m.coef / m.se) or not ref.close(m.pval, 2 * norm.sf(np.abs(m.coef / m.se)), rtol=1e-5, atol=1e-12):
        out.append(V("inference", "test statistics or p-values do not follow from the estimates"))
    return out


def sens_elements(spec, m, df):
    el = m.sensitivity_elements
    P = m.predictions
    if el is None or np.all(np.isnan(el["sigma2"])) or str(spec["opts"].get("score", "")).startswith("call"):
        return []
    out = []
    for j, tr in enumerate(C.d_cols(spec)):
        nus = []
        for r in range(m.n_rep):
            if P is not None:
                p = {k: v[:, r, j] for k, v in P.items()}
                e = ref.residual2(spec, df, tr, p, m.all_coef[j, r])
                if e is not None and (not ref.close(el["sigma2"][0, r, j], np.mean(e)) or not ref.close(el["psi_sigma2"][:, r, j], e - np.mean(e), atol=1e-8)):
                    out.append(V("sensitivity", f"sigma2 of {tr} repetition {r} does not follow from the reported predictions"))
                nus.append(ref.nu2_elements(spec, df, tr, p, r))
                if spec["cls"] in ("PLR", "PLRC"):
                    v2 = (df[tr].to_numpy(float) - p["ml_m"]) ** 2
                    if not ref.close(el["nu2"][0, r, j], 1 / np.mean(v2)):
                        out.append(V("sensitivity", f"nu2 of {tr} repetition {r} does not follow from the reported predictions"))
        if nus and nus[0] is not None:
            neg = any(np.mean(x) <= 0 for x in nus)
            for r, x in enumerate(nus):
                want = np.mean(el["riesz_rep"][:, r, j] ** 2) if neg else np.mean(x)
                if not ref.close(el["nu2"][0, r, j], want):
                    out.append(V("sensitivity", f"nu2 of {tr} repetition {r} does not follow from the reported predictions"))
        fe = m.framework.sensitivity_elements
        s2, n2 = el["sigma2"][0, :, j], el["nu2"][0, :, j]
        mb = np.sqrt(s2 * n2)
        if fe is None or not ref.close(fe["max_bias"][0, j, :], mb) \
                or not ref.close(fe["psi_max_bias"][:, j, :], (s2 * el["psi_nu2"][:, :, j] + n2 * el["psi_sigma2"][:, :, j]) / (2 * mb), atol=1e-8):
            out.append(V("sensitivity", f"the bias bound of {tr} does not follow from the sensitivity elements"))
    return out[:2]


def answers(spec, m, f, w):
    out = []
    at, as_ = f["all_thetas"], f["all_ses"]
    for lv in (0.9, 0.95):
        if not ref.close(m.confint(level=lv).to_numpy(), ref.confint(at, as_, lv)):
            out.append(V("inference", f"the {lv} confidence intervals do not follow from the estimates"))
    b = f["boot_t_stat"]
    cap = "padj" in O.caps(spec)
    if b is not None:
        if b.shape != (f["n_rep_boot"], at.shape[0], at.shape[1]) or np.any(np.isnan(b)):
            out.append(V("bootstrap", "bootstrap statistics are incomplete"))
        elif not ref.close(m.confint(joint=True, level=0.9).to_numpy(), ref.confint(at, as_, 0.9, b)):
            out.append(V("inference", "joint confidence intervals do not follow from the bootstrap statistics"))
        elif cap and not ref.close(m.p_adjust("romano-wolf")["pval"].to_numpy(), ref.romano_wolf(at / as_, b)):
            out.append(V("inference", "Romano-Wolf p-values do not follow from the bootstrap statistics"))
    if cap:
        ap = 2 * norm.sf(np.abs(at / as_))
        for me in ("bonferroni", "holm"):
            d = m.p_adjust(me)
            if not ref.close(d["pval"].to_numpy(), getattr(ref, me)(ap), rtol=1e-5, atol=1e-12):
                out.append(V("inference", f"{me} p-values do not follow from the p-values"))
            if not ref.close(d.iloc[:, 0].to_numpy(), m.coef):
                out.append(V("inference", f"{me}: the reported estimates are not the model's"))
    s = m.summary
    ci = ref.confint(at, as_, 0.95)
    want = np.column_stack((m.coef, m.se, m.coef / m.se, m.pval, ci))
    if s.shape != want.shape or not ref.close(s.to_numpy(float), want, rtol=1e-5, atol=1e-9):
        out.append(V("inference", "the summary does not report the estimates and intervals"))
    p = f["sensitivity_params"]
    if p is not None and f["sensitivity_elements"] is not None:
        args = None
        if C.clustered(spec):
            cv = w.df0[C.roles(spec)["cluster_cols"]].to_numpy()
            args = lambda r: (w.fitted["conf"]["smpls"][r], w.fitted["conf"]["cl"][r], cv, 0)
        want = ref.sensitivity(f, p["input"], args)
        for side in ("lower", "upper"):
            for nm, x in zip(("theta", "se", "ci"), want[side]):
                if not ref.close(p[nm][side], x):
                    out.append(V("sensitivity", f"the {side} {nm} of the sensitivity analysis does not follow from its parameters"))
        if not out and args is None:
            for j, pair in enumerate(ref.robustness(f, p["input"])):
                for nm, x in zip(("rv", "rva"), pair):
                    if x is not None and abs(p[nm][j] - x) > 2e-3:
                        out.append(V("sensitivity", f"{nm} of coefficient {j} is {p[nm][j]:.4f}, the bound meets the null hypothesis at {x:.4f}"))
    return out


shrink = K.shrink_ops
