"""C03 failures are contained: one or two injected faults anywhere in an operation, then the object is judged and the call retried."""
import contextlib

import numpy as np

from .. import backend, catalog as C, ops as O, snap as S, status, trace
from ..core import FAULT_EXC, V, InjectedError, InjectedInterrupt, InjectedOOM
from ..learners import REC
from . import common as K

PROP = "C03"
REAL, STUB = K.REAL, K.STUB
RULE = ("Each run: a history, then one operation (fit, refit, bootstrap, tuning, sensitivity analysis, derived analysis) that is hit by an injected "
        "fault - failing learner or user score, interrupt or failing allocation at a learner call or at any executed source line, failing "
        "random generator, dying worker - at a position chosen from an undisturbed twin run. The error must surface, the object may report only the "
        "complete old or new results or none, inputs and a bystander model must be unchanged, and repeating the call must give exactly the "
        "twin's results. Non-trivial: the fault fired; distinct by event-log digest.")
ASSUME = ["interrupts are delivered at source lines of the library or inside learner calls, not inside NumPy or pandas",
          "scikit-learn searches skip failing candidates, so failing candidates need not surface from tuning"]
READ = ["bench", "contrast", "gate", "cate", "gapo", "capo", "tree", "eval", "confint", "padj", "summary"]


def make(rng, v):
    spec = C.make_spec(rng, v, n_rep=rng.choice([1, 2, 2, 3]) if C.HEAVY.get(v[0], 1) < 4 else rng.choice([1, 2]))
    heavy = C.HEAVY.get(spec["cls"], 1)
    c = O.caps(spec)
    hist = []
    if rng.random() < 0.75:
        hist.append(O.gen_fit(rng, spec))
        hist += [O.gen_op(rng, spec, ["boot", "sens", "params", "confint", "fit"] if heavy < 6 else ["boot", "sens", "confint"])
                 for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.random() < 0.3 and C.kind(spec) != "RD":
            hist.append(O.gen_op(rng, spec, ["draw", "set"]))
    x = rng.random()
    has_fit = bool(hist)
    drew = bool(hist) and hist[-1]["op"] in ("draw", "set")
    if x < 0.55 or not has_fit or drew:
        op = O.gen_fit(rng, spec) if x < 0.8 or "tune" not in c or heavy > 3 else O.gen_tune(rng, spec)
    elif x < 0.68 and "tune" in c and heavy < 4:
        op = O.gen_tune(rng, spec)
    elif x < 0.8 and "boot" in c:
        op = O.gen_op(rng, spec, ["boot"])
        if rng.random() < 0.6:
            hist.append(O.gen_op(rng, spec, ["boot"]))
    elif x < 0.9 and "sens" in c:
        op = O.gen_op(rng, spec, ["sens"])
        if rng.random() < 0.7:
            hist.append(O.gen_op(rng, spec, ["sens"]))
    else:
        if c & set(READ + ["sens"]) & {"bench", "gate", "cate", "gapo", "capo", "tree", "contrast", "eval", "sens"}:
            op = O.gen_op(rng, spec, READ + ["sens"])
        else:
            op = O.gen_fit(rng, spec)
    if op["op"] == "eval":
        hist[0]["sp"] = True
        for h in hist:
            if h["op"] == "fit":
                h["sp"] = True
    if spec["cls"] == "RD":
        spec["n_rep"] = rng.choice([1, 2, 2])
        if rng.random() < 0.75:     # a refit whose results differ from those of the earlier fit
            hist, op = [O.gen_fit(rng, spec)], O.gen_fit(rng, spec)
            hist[0]["it"] = 3 - op["it"]
    faults = []
    learner_op = op["op"] in ("fit", "tune", "bench")
    for _ in range(rng.choice([1, 1, 2])):
        y = rng.random()
        mode = (op.get("cfg") or {}).get("mode", "seq")
        if op["op"] == "boot" and y < 0.4:
            faults.append({"at": "rng", "kind": rng.choice(["oom", "interrupt"]), "pos": rng.random()})
        elif learner_op and mode == "isolated" and y < 0.3:
            faults.append({"at": "death", "n": rng.choice([1, 2, 5])})
        elif learner_op and (y < 0.6 or mode == "threads"):
            faults.append({"at": "call", "kind": rng.choice(["learner_error", "interrupt", "oom"]), "pos": rng.choice([rng.random(), rng.random(), 1.0, 0.0])})
        else:
            # late positions matter: aggregation and construction of the inference object come last
            faults.append({"at": "line", "kind": rng.choice(["interrupt", "interrupt", "oom"]),
                           "pos": rng.choice([rng.random(), rng.random(), 1 - 0.06 * rng.random(), 0.03 * rng.random()])})
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": hist, "op": op, "faults": faults, "by": rng.random() < 0.4,
            "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.5 else None, "retry_cfg": rng.random() < 0.5}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 600, 14000), make, C.variants() + C.variants(["RD"]))


@contextlib.contextmanager
def failing_rng(n, exc, sim):
    names = ["normal", "exponential", "uniform", "standard_normal", "standard_exponential", "choice", "permutation", "shuffle", "randint"]
    saved = {k: getattr(np.random, k) for k in names}
    cnt = [0]

    def wrap(f):
        def g(*a, **kw):
            cnt[0] += 1
            if cnt[0] == n:
                sim.fault("rng_" + type(exc).__name__)
                raise exc
            return f(*a, **kw)
        return g
    for k, f in saved.items():
        setattr(np.random, k, wrap(f))
    try:
        yield cnt
    finally:
        for k, f in saved.items():
            setattr(np.random, k, f)


def history(scn, w, sim):
    for op in scn["ops"]:
        try:
            O.apply(w, op, sim)
        except (ValueError, NotImplementedError):
            if op["op"] in ("fit", "tune"):
                raise


def run(scn, sim):
    spec, op = scn["spec"], scn["op"]
    # the undisturbed twin
    t = O.World(spec, scn["wseed"], own_split=scn["own"])
    history(scn, t, sim)
    kinds = {f["at"] for f in scn["faults"]}
    n0 = REC.calls
    lines = trace.Counter()
    rng_calls = [0]
    try:
        if "line" in kinds and (op.get("cfg") or {}).get("mode") != "threads":
            with trace.lines(lines):
                ans_t = O.apply(t, op, sim)
        elif "rng" in kinds:
            with failing_rng(-1, None, sim) as rng_calls:
                ans_t = O.apply(t, op, sim)
        else:
            ans_t = O.apply(t, op, sim)
    except (ValueError, NotImplementedError) as e:
        if op["op"] in ("fit", "tune"):
            raise
        return {"v": [], "nontrivial": False, "sig": f"refused:{type(e).__name__}"}
    calls = REC.calls - n0
    new = S.snap(spec, t.model)
    new_inf = O.inference(spec, t.model)

    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    history(scn, w, sim)
    by = None
    if scn["by"]:
        by = O.World(spec, scn["wseed"] + 1, data=w.data, learners=w.learners, df=w.df)
        by.fit(sim, O.SEQ)
        by_snap = S.snap(spec, by.model)
        if C.kind(spec) == "base" and len(C.d_cols(spec)) > 1:
            w.data.set_x_d(C.d_cols(spec)[0])
    old, old_inf = S.snap(spec, w.model), O.inference(spec, w.model)
    out = []
    fired = False
    for f in scn["faults"]:
        raised, hit = inject(w, op, f, sim, calls, lines.n, rng_calls[0])
        fired |= hit
        cur, cur_inf = S.snap(spec, w.model), O.inference(spec, w.model)
        sim.log("after", S.digest(cur), raised)
        if hit and not raised:
            if op["op"] != "tune":
                out.append(V("swallowed", f"a {f} during {op['op']} did not reach the caller"))
            else:
                old, old_inf = cur, cur_inf     # the search skipped the failing candidate and went through
        if hit and raised:
            if op["op"] == "fit":
                out += status.after_fit(old, new, cur)
                out += status.inference_after(old_inf, new_inf, cur_inf)
            else:
                # a read operation run in the twin may legitimately leave nothing behind at all
                out += status.after_other(spec, old, new, cur)
                out += status.inference_after(old_inf, new_inf, cur_inf)
        ch = w.changed_inputs()
        if ch:
            out.append(V("inputs", f"changed by the failed {op['op']}: {ch[0]}"))
        if S.diff(S.freeze(w.df0), S.freeze(w.df)):
            out.append(V("inputs", "the data frame changed"))
        if C.kind(spec) != "RD":
            d = S.diff({"s": old["smpls"]}, {"s": cur["smpls"]})
            if d:
                out.append(V("splitting", f"the sample splitting changed: {d[0]}"))
        if by is not None and S.diff(by_snap, S.snap(spec, by.model)):
            out.append(V("bystander", "another model sharing data and learners changed"))
        if out:
            break
    if not out and (op["op"] != "tune" or raised or not fired):
        r = dict(op)
        if r.get("cfg") and not scn["retry_cfg"]:
            r["cfg"] = dict(O.SEQ)
        ans = O.apply(w, r, sim)
        d = S.diff(ans_t, ans)
        if d:
            out.append(V("retry", f"repeating {op['op']} answers differently from an undisturbed call: {d[0]}"))
        d = S.diff(new, S.snap(spec, w.model)) or S.diff(new_inf, O.inference(spec, w.model))
        if d:
            out.append(V("retry", f"repeating {op['op']} does not give the results of an undisturbed run: {d[0]}"))
    return {"v": out, "nontrivial": fired, "sig": f"{spec['cls']}:{op['op']}:{[(f['at'], f.get('kind')) for f in scn['faults']]}"}


def inject(w, op, f, sim, calls, nlines, nrng):
    """Run the operation with the fault.  (raised, fired)."""
    op = dict(op)
    hit = [False]
    ctx = contextlib.nullcontext()
    exc = FAULT_EXC[f["kind"]]("injected") if "kind" in f else None
    where = None
    if f["at"] == "call":
        if not calls:
            return False, False
        at = REC.calls + 1 + min(int(f["pos"] * calls), calls - 1)

        def fault(kind, learner, n):
            if n == at:
                hit[0] = True
                sim.fault(f["kind"] + "_in_" + kind)
                raise exc
        REC.fault = fault
    elif f["at"] == "line":
        if not nlines:
            return False, False
        cnt = trace.Counter(1 + min(int(f["pos"] * nlines), nlines - 1), exc)
        ctx = trace.lines(cnt)
    elif f["at"] == "rng":
        if not nrng:
            return False, False
        ctx = failing_rng(1 + min(int(f["pos"] * nrng), nrng - 1), exc, sim)
    elif f["at"] == "death":
        op["cfg"] = {**op["cfg"], "death": f["n"]}
    before = dict(sim.faults)
    raised = False
    try:
        with ctx:
            O.apply(w, op, sim)
    except (InjectedError, InjectedInterrupt, InjectedOOM, backend.WORKER_DEATH):
        raised = True
    except ValueError as e:
        if op["op"] != "tune" or not (hit[0] or "fits failed" in str(e)):
            raise
        raised = True
    finally:
        REC.fault = None
    if f["at"] == "line":
        hit[0] = cnt.fired
        if cnt.fired:
            sim.fault(f["kind"] + "_at_line")
            sim.log("line", *cnt.where)
    if f["at"] in ("death", "rng"):
        hit[0] = sim.faults != before and any(k.startswith(("worker_death", "rng_")) and sim.faults[k] != before.get(k) for k in sim.faults)
    return raised, hit[0]


def shrink(scn):
    import copy
    if len(scn["faults"]) > 1:
        for i in range(len(scn["faults"])):
            c = copy.deepcopy(scn)
            del c["faults"][i]
            yield c
    if scn["by"]:
        c = copy.deepcopy(scn)
        c["by"] = False
        yield c
    if (scn["op"].get("cfg") or {}).get("mode", "seq") != "seq" and scn["faults"][0]["at"] != "death":
        c = copy.deepcopy(scn)
        c["op"]["cfg"] = dict(O.SEQ)
        yield c
    yield from K.shrink_ops(scn)
