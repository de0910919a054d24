"""Snapshots of everything an object reports, and bitwise comparison of snapshots."""
import hashlib

import numpy as np
import pandas as pd

from . import catalog as C
from .core import InjectedError, InjectedOOM

MODEL_ATTRS = ["coef", "se", "all_coef", "all_se", "t_stat", "pval", "psi", "psi_deriv", "psi_elements", "predictions",
               "nuisance_targets", "nuisance_loss", "sensitivity_elements", "sensitivity_params", "boot_t_stat", "n_rep_boot",
               "boot_method", "n_folds", "n_rep", "params", "summary"]
COMP_ATTRS = ["coef", "se", "all_coef", "all_se", "t_stat", "pval", "boot_t_stat", "n_rep_boot", "boot_method", "n_folds",
              "n_rep", "sensitivity_params", "sensitivity_elements", "summary"]
FW_ATTRS = ["thetas", "ses", "all_thetas", "all_ses", "t_stats", "all_t_stats", "pvals", "all_pvals", "scaled_psi",
            "var_scaling_factors", "boot_t_stat", "boot_method", "n_rep_boot", "sensitivity_elements", "sensitivity_params",
            "treatment_names", "n_rep", "n_obs", "n_thetas"]
RD_ATTRS = ["coef", "se", "ci", "all_coef", "all_se", "h", "w", "h_fs", "n_rep", "n_folds", "t_stat", "pval"]


def freeze(x, depth=0):
    """A deep, immutable-by-construction copy made of plain containers and arrays."""
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    if isinstance(x, np.ndarray):
        return x.copy() if x.dtype != object else ["objarr"] + [freeze(v, depth + 1) for v in x.ravel()]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, pd.DataFrame):
        return {"__df__": [str(c) for c in x.columns], "index": [str(i) for i in x.index], "dtypes": [str(t) for t in x.dtypes],
                "v": [freeze(x.iloc[:, j].to_numpy(), depth + 1) for j in range(x.shape[1])]}
    if isinstance(x, (pd.Series, pd.Index)):
        return {"__ser__": freeze(np.asarray(x), depth + 1)}
    if isinstance(x, dict):
        return {str(k): freeze(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [freeze(v, depth + 1) for v in x]
    if hasattr(x, "digest_"):
        return f"fitted:{type(x).__name__}:{x.digest_}:{sorted(x.get_params().items())!r}"
    if hasattr(x, "get_params"):
        return f"learner:{type(x).__name__}:{sorted(x.get_params().items())!r}"
    if callable(x):
        return f"callable:{getattr(x, '__name__', '?')}"
    return f"object:{type(x).__name__}"


def attr(obj, name):
    try:
        return freeze(getattr(obj, name))
    except (InjectedError, InjectedOOM):
        raise
    except Exception as e:  # reported as part of the snapshot
        return f"EXC:{type(e).__name__}"


def snap_framework(fw):
    if fw is None:
        return None
    return {a: attr(fw, a) for a in FW_ATTRS}


def snap_base(m, models=True):
    out = {a: attr(m, a) for a in MODEL_ATTRS}
    out["framework"] = snap_framework(m.framework)
    if models:
        out["models"] = attr(m, "models")
    try:
        out["smpls"] = freeze(m.smpls)
        out["smpls_cluster"] = freeze(m.smpls_cluster)
    except ValueError:
        out["smpls"] = None
    return out


def snap(spec, m, models=True):
    k = C.kind(spec)
    if k == "base":
        return snap_base(m, models)
    if k == "RD":
        return {a: attr(m, a) for a in RD_ATTRS}
    out = {a: attr(m, a) for a in COMP_ATTRS}
    out["framework"] = snap_framework(m.framework)
    try:
        out["smpls"] = freeze(m.smpls)
    except ValueError:
        out["smpls"] = None
    subs = m.modellist if k == "APOS" else list(m.modellist_0) + list(m.modellist_1)
    out["sub"] = [snap_base(s, models) for s in subs]
    return out


def same_array(a, b):
    if a.shape != b.shape:
        return False
    if a.dtype != b.dtype:
        if a.dtype.kind in "iufb" and b.dtype.kind in "iufb":
            return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan=True))
        return False
    if a.dtype.kind == "f":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def diff(a, b, path="", ignore=(), out=None, limit=6, rtol=None):
    """Paths at which two snapshots differ (bitwise, NaN equal to NaN)."""
    out = [] if out is None else out
    if len(out) >= limit:
        return out
    last = path.rsplit(".", 1)[-1]
    if last in ignore:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k in ignore:
                continue
            if k not in a or k not in b:
                out.append(f"{path}.{k}: only on one side")
            else:
                diff(a[k], b[k], f"{path}.{k}", ignore, out, limit, rtol)
        return out
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            out.append(f"{path}: lengths {len(a)} and {len(b)}")
            return out
        for i, (u, v) in enumerate(zip(a, b)):
            diff(u, v, f"{path}[{i}]", ignore, out, limit, rtol)
        return out
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if not same_array(a, b):
            if rtol is not None and a.shape == b.shape and a.dtype.kind in "iufb" and b.dtype.kind in "iufb" and \
                    np.allclose(a.astype(float), b.astype(float), rtol=rtol, atol=rtol, equal_nan=True):
                return out
            out.append(f"{path}: {_brief(a, b)}")
        return out
    if type(a) is float and type(b) is float and (a != a) and (b != b):
        return out
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (rtol is not None and np.isclose(a, b, rtol=rtol, atol=rtol)):
            return out
        out.append(f"{path}: {a!r} != {b!r}")
        return out
    if type(a) is not type(b) or a != b:
        out.append(f"{path}: {str(a)[:80]} != {str(b)[:80]}")
    return out


def _brief(a, b):
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    try:
        bad = ~((a == b) | ((a != a) & (b != b)))
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        return f"{int(bad.sum())}/{a.size} entries differ, first at {i}: {a[i]!r} != {b[i]!r}"
    except Exception:
        return "arrays differ"


def digest(s):
    h = hashlib.sha256()
    _upd(h, s)
    return h.hexdigest()[:16]


def _upd(h, s):
    if isinstance(s, dict):
        for k in sorted(s):
            h.update(k.encode()); _upd(h, s[k])
    elif isinstance(s, list):
        h.update(b"[")
        for v in s:
            _upd(h, v)
    elif isinstance(s, np.ndarray):
        h.update(str(s.shape).encode()); h.update(np.ascontiguousarray(s).tobytes())
    else:
        h.update(repr(s).encode())
