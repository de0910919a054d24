"""C07 sharing models do not affect each other: interleaved calls and thread switches, compared with each model used alone."""
import copy
import json
import random

from .. import backend, catalog as C, ops as O, snap as S, trace
from ..core import V
from ..learners import REC, RecCls, RecReg
from ..threads import Baton
from . import common as K

PROP = "C07"
REAL, STUB = K.REAL + ["rdrobust", "threads (parked and released one at a time by the simulator)"], K.STUB
RULE = ("Each run: two or three models (same or different classes) built from one data object, the same learner objects for all nuisance roles and "
        "partly one sample splitting object, plus deep copies of models; their operations, some failing, are interleaved in a seeded order, "
        "or executed at the same time in threads switched at learner calls and library lines. Each model must report and answer exactly what it does when its "
        "operations run alone on objects of its own. Non-trivial: operations of at least two models alternated; distinct by event-log digest.")
ASSUME = ["simultaneous use from threads: data with one treatment, operations without random choices"]
KINDS = ["fit", "fit", "boot", "sens", "draw", "set", "params", "tune", "confint", "padj", "summary", "eval", "bench", "contrast", "gate", "cate", "gapo",
         "capo", "tree"]
TKINDS = ["fit", "fit", "sens", "params", "confint", "summary", "bench", "contrast", "gate", "cate", "gapo", "capo"]


def family(v):
    cls, o = v
    spec = {"cls": cls, "opts": o}
    g = {"PLRC": "PLRC", "PQ": "bin", "CVAR": "bin", "IRM": "bin", "DID": "bin", "LPQ": "iv", "IIVM": "iv", "APO": "lv", "APOS": "lv"}.get(cls, cls)
    if cls == "QTE":
        g = "iv" if o["score"] == "LPQ" else "bin"
    return json.dumps([g, C.roles(spec), o.get("dtype"), o.get("always_takers", True), o.get("never_takers", True), o.get("fuzzy")], sort_keys=True)


FAM = {}
for _v in C.variants():
    FAM.setdefault(family(_v), []).append(_v)


def make(rng, v):
    part = [v] + [rng.choice(FAM[family(v)]) for _ in range(rng.choice([1, 1, 2]) if C.HEAVY.get(v[0], 1) < 4 else 1)]
    if sum(C.HEAVY.get(p[0], 1) > 3 for p in part) > 1:
        part[1] = next((p for p in FAM[family(v)] if C.HEAVY.get(p[0], 1) < 4), part[1])
    specs = [C.make_spec(rng, p, ytype="cont") for p in part]
    n = max(s["n"] for s in specs) if specs[0]["n"] is not None else None
    split = {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.5 and v[0] != "RD" else None
    nf = min(s["n_folds"] for s in specs)
    for s in specs:
        s.update(n=n, dseed=specs[0]["dseed"], rare=all(t.get("rare") for t in specs))
        if "cutoff" in s["opts"]:
            s["opts"]["cutoff"] = specs[0]["opts"]["cutoff"]
        if split:
            s.update(n_folds=nf, n_rep=specs[0]["n_rep"])
    heavy = max(C.HEAVY.get(s["cls"], 1) for s in specs)
    threads = rng.random() < 0.4 and specs[0]["opts"].get("n_treat", 1) == 1
    steps, world = [], list(range(len(specs)))
    if threads:
        for i, s in enumerate(specs):
            mine = [O.gen_fit(rng, s, cfg=False)]
            k = [x for x in TKINDS if x in O.caps(s) and not (heavy > 3 and x in ("bench", "fit"))]
            mine += [O.gen_op(rng, s, [rng.choice(k)], cfg=False) for _ in range(rng.choice([0, 1, 2]))]
            for op in mine:
                op["cfg"] = {**O.SEQ, "jobs_cv": 2, "jobs_models": rng.choice([None, 2])} if rng.random() < 0.25 and op["op"] == "fit" and split else dict(O.SEQ)
            steps += [["op", i, op] for op in mine]
    else:
        kind_of = {i: i for i in world}
        for i in world:
            if rng.random() < 0.9:
                steps.append(["op", i, O.gen_fit(rng, specs[i])])
        for _ in range(rng.randint(3, 8) if heavy < 3 else rng.randint(2, 4)):
            i = rng.choice(world)
            s = specs[kind_of[i]]
            if rng.random() < 0.15 and len(world) < 5:
                steps.append(["copy", i])
                kind_of[len(world)] = kind_of[i]
                world.append(len(world))
                continue
            k = [x for x in KINDS if x in O.caps(s) and not (C.HEAVY.get(s["cls"], 1) > 3 and x in ("tune", "bench"))]
            op = O.gen_op(rng, s, [rng.choice(k)])
            op["fault"] = None
            if rng.random() < 0.15 and op["op"] not in ("set", "draw", "params"):
                if "cfg" in op:      # one order of execution: the fault must hit the same work when the model is used alone
                    op["cfg"] = {**op["cfg"], "mode": "seq", "jobs_cv": None, "jobs_models": None}
                op["fault"] = K.gen_fault(rng, op)
            steps.append(["op", i, op])
        rng.shuffle(steps) if False else None
    return {"specs": specs, "wseed": rng.randrange(10 ** 6), "split": split, "steps": steps, "threads": threads,
            "gap": rng.choice([0, 0, 25, 100, 400]) if heavy < 4 else rng.choice([0, 1000])}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 480, 10000), make, C.variants())


def learners(spec, pool=None):
    pool = pool if pool is not None else {"reg": RecReg(alpha=1.2, label="s"), "cls": RecCls(alpha=1.7, label="s")}
    return {k: pool[v] for k, v in C.learner_kinds(spec).items()}


def build(scn, i, shared=None):
    spec = scn["specs"][i]
    if shared is None:
        shared = {"df": C.make_df(spec), "pool": None}
        shared["data"] = C.make_data(spec, shared["df"])
        if scn["split"]:
            shared["smpls"] = O.make_smpls(spec, shared["df"], **scn["split"])
    w = O.World(spec, scn["wseed"] + i, own_split={"seed": 1} if scn["split"] else None, data=shared["data"], df=shared["df"],
                learners=learners(spec, shared["pool"]))
    if scn["split"]:
        w.set_smpls(*shared["smpls"])
    return w


def report(w):
    return {"snap": S.snap(w.spec, w.model), "inference": O.inference(w.spec, w.model)}


def run(scn, sim):
    return run_threads(scn, sim) if scn["threads"] else run_calls(scn, sim)


def shared_objects(scn):
    spec = scn["specs"][0]
    sh = {"df": C.make_df(spec), "pool": {"reg": RecReg(alpha=1.2, label="s"), "cls": RecCls(alpha=1.7, label="s")}}
    sh["data"] = C.make_data(spec, sh["df"])
    if scn["split"]:
        sh["smpls"] = O.make_smpls(spec, sh["df"], **scn["split"])
    return sh


def step(w, op, sim, answers):
    r = K.faulty(w, op, op.get("fault"), sim)
    answers.append([op["op"], r, w.answer if r == "ok" else None])


def run_calls(scn, sim):
    sh = shared_objects(scn)
    ws = [build(scn, i, sh) for i in range(len(scn["specs"]))]
    lineage = [(i, []) for i in range(len(ws))]
    answers = [[] for _ in ws]
    for st in scn["steps"]:
        if st[1] >= len(ws):
            continue
        if st[0] == "copy":
            i = st[1]
            c = copy.copy(ws[i])
            c.model = copy.deepcopy(ws[i].model)
            c.given = []
            ws.append(c)
            lineage.append((lineage[i][0], list(lineage[i][1])))
            answers.append(list(answers[i]))
            sim.probe("copies")
        else:
            step(ws[st[1]], st[2], sim, answers[st[1]])
            lineage[st[1]][1].append(st[2])
    out = []
    for j, w in enumerate(ws):
        alone = build(scn, lineage[j][0])
        own = []
        for op in lineage[j][1]:
            step(alone, op, sim, own)
        d = S.diff(own, answers[j]) or S.diff(report(alone), report(w))
        sim.log(j, S.digest(S.snap(w.spec, w.model)))
        if d:
            what = "a deep copy" if j >= len(scn["specs"]) else "a model"
            out.append(V("interference", f"{what} ({w.spec['cls']}) does not give what it gives when used alone: {d[0]}"))
    used = [st[1] for st in scn["steps"] if st[0] == "op"]
    return {"v": out[:2], "nontrivial": len(set(used)) > 1, "sig": f"{[s['cls'] for s in scn['specs']]}:{used}"}


def run_threads(scn, sim):
    sh = shared_objects(scn)
    ws = [build(scn, i, sh) for i in range(len(scn["specs"]))]
    answers = [[] for _ in ws]
    todo = [[st[2] for st in scn["steps"] if st[1] == i] for i in range(len(ws))]
    baton = Baton(sim, max_switches=200000)
    baton.line_gap = scn["gap"]
    old = REC.hook
    REC.hook = lambda kind, learner: baton.switch()

    def client(i):
        for op in todo[i]:
            par = any((op.get("cfg") or {}).get(k) for k in ("jobs_cv", "jobs_models"))
            ctx = backend.parallel_config(backend="sim") if par else backend.parallel_config(backend="sequential")
            with ctx:
                answers[i].append([op["op"], attempt(ws[i], op, sim)])
            baton.switch()

    env = backend.ENV
    backend.ENV = backend.Env(sim, mode="threads", workers=2, baton=baton)
    try:
        import contextlib
        with trace.lines(baton.line) if scn["gap"] else contextlib.nullcontext():
            ts = [baton.spawn(lambda i=i: client(i), f"client{i}") for i in range(len(ws))]
            baton.join(ts)
    finally:
        REC.hook = old
        backend.ENV = env
    for t in ts:
        if t.error is not None:
            raise t.error
    out = []
    for j, w in enumerate(ws):
        alone = build(scn, j)
        own = [[op["op"], attempt(alone, {**op, "cfg": dict(O.SEQ)}, sim)] for op in todo[j]]
        d = S.diff(own, answers[j]) or S.diff(report(alone), report(w))
        sim.log(j, S.digest(S.snap(w.spec, w.model)))
        if d:
            out.append(V("interference", f"a model ({w.spec['cls']}) used at the same time as others does not give what it gives alone: {d[0]}"))
    sim.probe("concurrent_runs")
    return {"v": out[:2], "nontrivial": sim.n_sched > 2, "sig": f"T{[s['cls'] for s in scn['specs']]}"}


def attempt(w, op, sim):
    """Apply without touching the process-wide execution mode (the clients run at the same time)."""
    m, name = w.model, op["op"]
    try:
        if name == "fit":
            kw = O.jobs(w.spec, op.get("cfg"))
            if C.kind(w.spec) == "RD":
                kw = {"n_iterations": op.get("it", 2)}
            else:
                kw.update(store_predictions=op.get("sp", True), store_models=op.get("sm", False))
            m.fit(**kw)
            return None
        if name == "bench":
            return S.freeze(m.sensitivity_benchmark(list(op["set"])))
        return O.apply(w, op, sim)
    except (ValueError, NotImplementedError) as e:
        if name in ("fit", "params"):
            raise
        return type(e).__name__


def shrink(scn):
    for i in range(len(scn["steps"])):
        c = copy.deepcopy(scn)
        if c["steps"][i][0] == "op":
            del c["steps"][i]
            yield c
    if len(scn["specs"]) > 2:
        c = copy.deepcopy(scn)
        c["specs"] = c["specs"][:2]
        c["steps"] = [s for s in c["steps"] if s[1] < 2 and s[0] == "op"]
        yield c
    for i, s in enumerate(scn["steps"]):
        if s[0] == "op" and s[2].get("fault"):
            c = copy.deepcopy(scn)
            c["steps"][i][2]["fault"] = None
            yield c
        if s[0] == "op" and (s[2].get("cfg") or {}).get("mode", "seq") != "seq":
            c = copy.deepcopy(scn)
            c["steps"][i][2]["cfg"] = dict(O.SEQ)
            yield c
