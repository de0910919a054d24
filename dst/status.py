"""What an object may report after an aborted operation: everything old, everything new, or nothing - never a mixture."""
import numpy as np

from . import catalog as C, snap as S
from .core import V

RESULTS = ["coef", "se", "all_coef", "all_se", "psi", "psi_deriv", "psi_elements", "predictions", "nuisance_targets", "nuisance_loss",
           "models", "t_stat", "pval", "ci", "h", "w", "h_fs"]


def _null(x):
    if x is None:
        return True
    if isinstance(x, str):
        return x.startswith("EXC:")
    if isinstance(x, float):
        return x != x
    if isinstance(x, np.ndarray):
        return x.size == 0 or (x.dtype.kind == "f" and bool(np.all(np.isnan(x))))
    if isinstance(x, dict):
        return all(_null(v) for k, v in x.items() if k not in ("__df__", "index", "dtypes"))
    if isinstance(x, list):
        return all(_null(v) for v in x)
    return False


def classify(old, new, cur):
    """Set of {'old', 'new', 'foreign'}: which values a reported attribute contains (nothing -> empty set)."""
    if _null(cur):
        return set()
    o, n = not S.diff(old, cur), not S.diff(new, cur)
    if o and n:
        return set()
    if o:
        return {"old"}
    if n:
        return {"new"}
    if isinstance(cur, np.ndarray) and cur.dtype.kind in "fiub":
        m = ~np.isnan(cur.astype(float))
        out = set()
        same = {}
        for name, ref in (("old", old), ("new", new)):
            if isinstance(ref, np.ndarray) and ref.shape == cur.shape and ref.dtype.kind in "fiub":
                same[name] = (ref == cur) & m
        io = same.get("old", np.zeros(cur.shape, bool))
        iN = same.get("new", np.zeros(cur.shape, bool))
        if np.any(m & ~io & ~iN):
            out.add("foreign")
        if np.any(io & ~iN):
            out.add("old")
        if np.any(iN & ~io):
            out.add("new")
        return out
    if isinstance(cur, dict):
        out = set()
        for k, v in cur.items():
            out |= classify(old.get(k) if isinstance(old, dict) else None, new.get(k) if isinstance(new, dict) else None, v)
        return out
    if isinstance(cur, list):
        out = set()
        for i, v in enumerate(cur):
            out |= classify(old[i] if isinstance(old, list) and i < len(old) else None,
                            new[i] if isinstance(new, list) and i < len(new) else None, v)
        return out
    return {"foreign"}


def judge_object(old, new, cur, where=""):
    """Messages about one object's snapshot (base model, RDFlex, or the top of a composite) after an aborted fit."""
    out = []
    cls = {a: classify(old.get(a), new.get(a), cur[a]) for a in RESULTS if a in cur}
    for a, c in cls.items():
        if "foreign" in c:
            out.append(f"{where}{a} holds values of neither the previous nor the new results")
        elif c == {"old", "new"}:
            out.append(f"{where}{a} mixes previous and new results")
    olds = [a for a, c in cls.items() if c == {"old"}]
    news = [a for a, c in cls.items() if c == {"new"}]
    if olds and news:
        out.append(f"{where}{olds[0]} is from the previous results, {news[0]} from the new fit")
    if "framework" in cur and cur["framework"] is not None:
        c = classify(old.get("framework"), new.get("framework"), cur["framework"])
        if "foreign" in c or len(c) > 1:
            out.append(f"{where}the inference object is neither the previous nor the new one")
        else:
            want = old if c == {"old"} else new if c == {"new"} else None
            for a in ("coef", "se", "all_coef", "all_se", "psi", "psi_deriv"):
                if a in cur and want is not None and S.diff(want[a], cur[a]):
                    out.append(f"{where}inference is reported, but {a} is not the matching complete one")
            if want is None and (S.diff(old.get("coef"), cur["coef"]) and S.diff(new.get("coef"), cur["coef"])):
                out.append(f"{where}inference is reported, but coef is not the matching complete one")
    return out


def after_fit(old, new, cur):
    out = judge_object(old, new, cur)
    if "sub" in cur:
        for i, (o, n, c) in enumerate(zip(old["sub"], new["sub"], cur["sub"])):
            out += judge_object(o, n, c, f"model {i}: ")
        if cur["framework"] is not None and not S.diff(new["framework"], cur["framework"]) and S.diff(old["framework"], cur["framework"]):
            for i, (n, c) in enumerate(zip(new["sub"], cur["sub"])):
                if S.diff(n["coef"], c["coef"]):
                    out.append(f"the combined inference is new, but model {i} is not")
        if cur["framework"] is not None and not S.diff(old["framework"], cur["framework"]) and S.diff(new["framework"], cur["framework"]):
            for i, (o, c) in enumerate(zip(old["sub"], cur["sub"])):
                if S.diff(o["coef"], c["coef"]):
                    out.append(f"the combined inference is the previous one, but model {i} moved on")
    return [V("mixture", m) for m in out[:3]]


def _empty(x):
    return _null(x) or (isinstance(x, dict) and "__df__" in x and (not x["__df__"] or not x["index"]))


def inference_after(old, new, cur):
    """Answers after an aborted fit: refused, or all from one side."""
    got = set()
    out = []
    for k, v in cur.items():
        if isinstance(v, str) or _empty(v):
            continue
        o, n = not S.diff(old.get(k), v), not S.diff(new.get(k), v)
        if not o and not n:
            out.append(V("mixture", f"{k} answers neither as before nor as the new results"))
        elif o != n:
            got.add("old" if o else "new")
    if len(got) > 1:
        out.append(V("mixture", "some answers are from the previous, others from the new results"))
    return out


BOOT = ["boot_t_stat", "boot_method", "n_rep_boot"]
SENS = ["sensitivity_params"]


def after_other(spec, old, new, cur):
    """After an aborted operation that is no fit: each part as before or as after the undisturbed operation."""
    out = []

    def part(o, n, c, keys, where):
        k = set()
        for a in keys:
            if a not in c:
                continue
            eo, en = not S.diff(o.get(a), c[a]), not S.diff(n.get(a), c[a])
            if not eo and not en:
                out.append(V("mixture", f"{where}{a} is neither as before nor as afterwards"))
            elif eo != en:
                k.add("old" if eo else "new")
        if len(k) > 1:
            out.append(V("mixture", f"{where}{'/'.join(keys)} mix the previous and the new results"))

    def obj(o, n, c, where):
        if not isinstance(c, dict) or not isinstance(o, dict):
            if S.diff(o, c) and S.diff(n, c):
                out.append(V("mixture", f"{where} changed"))
            return
        part(o, n, c, BOOT, where)
        part(o, n, c, SENS, where)
        for a in c:
            if a in BOOT + SENS + ["summary"]:
                continue
            if a == "framework":
                obj(o.get(a), n.get(a), c[a], where + "framework ")
            elif a == "sub":
                for i in range(len(c[a])):
                    obj(o[a][i], n[a][i], c[a][i], f"model {i}: ")
            elif a == "params":
                for ln in c[a]:
                    for tr in c[a][ln]:
                        if S.diff(o[a][ln][tr], c[a][ln][tr]) and S.diff(n[a][ln][tr], c[a][ln][tr]):
                            out.append(V("mixture", f"{where}parameters of {ln}/{tr} are neither the previous nor the tuned ones"))
            elif S.diff(o.get(a), c[a]) and S.diff(n.get(a), c[a]):
                out.append(V("changed", f"{where}{a} changed: {S.diff(o.get(a), c[a])[0]}"))
    obj(old, new, cur, "")
    return out[:3]
