"""C09 a fit depends only on its current inputs: any history with faults, then a fit that must equal that of a new object."""
from .. import catalog as C, ops as O, snap as S
from ..core import V
from . import common as K

PROP = "C09"
REAL, STUB = K.REAL + ["rdrobust"], K.STUB
RULE = ("Each run: a generated history on one object (fits with and without stored or supplied predictions, refits, tuning, parameters, bootstraps, splittings, "
        "analyses, each possibly hit by a failing learner, interrupt, failing allocation or dying worker), then a final fit. Everything the object "
        "reports afterwards must be bit-identical to a newly created object given the same data, learners, parameters, splitting and options. "
        "Non-trivial: the history contains an earlier fit; distinct by event-log digest.")
ASSUME = ["parameters and sample splitting are read from the object just before the final fit and set on the new object through the public interface"]
COMPOSITE = [v for v in C.variants() if C.kind({"cls": v[0]}) in ("APOS", "QTE")]
KINDS = ["fit", "fit", "boot", "sens", "draw", "set", "params", "tune", "confint", "padj", "summary", "bench", "gate", "cate", "gapo", "capo", "contrast"]


def make(rng, v):
    spec = C.make_spec(rng, v)
    heavy = C.HEAVY.get(spec["cls"], 1)
    c = O.caps(spec)
    kinds = [k for k in KINDS if k in c and not (heavy > 3 and k in ("tune", "bench"))]
    ops = [O.gen_fit(rng, spec)]
    for _ in range(rng.choice([0, 1, 2, 3, 4]) if heavy < 3 else rng.choice([0, 1, 2])):
        ops.append(O.gen_op(rng, spec, [rng.choice(kinds)]))
    nfit = 0
    for op in ops:
        if op["op"] == "fit":
            nfit += 1
            if "ext" in c and rng.random() < 0.3:
                op["extsel"] = rng.randrange(1000)
        op["fault"] = K.gen_fault(rng, op) if rng.random() < 0.3 and op["op"] not in ("set", "draw", "params") else None
    final = O.gen_fit(rng, spec)
    if "ext" in c and rng.random() < 0.25:
        final["extsel"] = rng.randrange(1000)
    if rng.random() < 0.4:        # the same call again, with other supplied predictions or other stored parts
        last = [o for o in ops if o["op"] == "fit"][-1]
        if last.get("fault") is None:
            ops.append({**last, "fault": None, **({"extsel": rng.randrange(1000)} if "ext" in c and rng.random() < 0.7 else {})})
            final = {**final, "sp": last.get("sp", True), "sm": last.get("sm", False), **({"it": final["it"]} if "it" in final else {})}
            if "extsel" in ops[-1]:
                ops[0]["sp"] = True
                final["extsel"] = rng.randrange(1000)
    elif rng.random() < 0.5 and "params" in c:
        ops.append({**O.gen_op(rng, spec, ["params", "set"]), "fault": None})
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": ops, "final": final,
            "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.4 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 540, 12000), make, C.variants() + COMPOSITE)


def run(scn, sim):
    spec = scn["spec"]
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    earlier = False
    for op in scn["ops"]:
        r = K.faulty(w, op, op.get("fault"), sim)
        earlier |= op["op"] == "fit"
        sim.log(op["op"], r)
    O.apply(w, scn["final"], sim)
    out = compare(w, sim)
    return {"v": out, "nontrivial": earlier, "sig": f"{spec['cls']}:{[o['op'] for o in scn['ops']]}"}


def compare(w, sim):
    spec = w.spec
    got, inf = S.snap(spec, w.model), O.inference(spec, w.model)
    sim.log(S.digest(got))
    f = O.refit(w, sim)
    d = S.diff(S.snap(spec, f.model), got, ignore=("params",)) or S.diff(O.inference(spec, f.model), inf)
    return [V("history", f"the fit differs from that of a new object: {m}") for m in d[:2]]


shrink = K.shrink_ops
