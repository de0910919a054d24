"""C13 downloads through a simulated network with injected faults, compared with the known content of the server."""
import copy
import io
import itertools
import random

import numpy as np
import pandas as pd

from .. import catalog as C, net, trace
from ..core import FAULT_EXC, Sim, V
from ..threads import Baton
from . import common as K

PROP = "C13"
REAL = ["doubleml.datasets (fetchers) and DoubleMLData", "pandas readers", "urllib and http.client (redirects, status, chunked and announced lengths)"]
STUB = ["sockets, TLS, name resolution and the HTTP servers (simulated network)", "time.sleep (virtual time)", "threads (parked and released one at a time)"]
RULE = ("Each run: a seeded server content and a sequence of fetches with all data sets and return types (one after the other or at the same time in "
        "threads switched at network reads and library lines); a connection may be refused, reset, time out, be redirected, answer with an error or a "
        "foreign page, be cut anywhere, or deliver bit by bit; interrupts hit library lines; the caller alters the data it received. Every fetch must "
        "return exactly the content of the server, transformed as documented, or raise; a fetch without a fault must succeed. Non-trivial: a fault "
        "was injected and a fetch succeeded afterwards, or fetches overlapped; distinct by event-log digest.")
ASSUME = ["the server announces the length of its answer (a closed connection without an announced length cannot be told from the end of the data)"]
K401 = ["age", "inc", "educ", "fsize", "marr", "twoearn", "db", "pira", "hown"]
BX = ["female", "black", "othrace", "dep1", "dep2", "q2", "q3", "q4", "q5", "q6", "agelt35", "agegt54", "durable", "lusd", "husd"]
ALIAS = ["DoubleMLData", "DoubleMLData_class", "DataFrame", "pd.DataFrame", "DataFrame_class"]


def make(rng, v):
    calls = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        scripts = [net.gen_script(rng) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        calls.append({"what": rng.choice(["401k", "bonus", "bonus"]), "type": rng.choice(ALIAS + ["nonsense"] if rng.random() < 0.3 else ALIAS),
                      "poly": rng.random() < 0.3, "scripts": scripts, "alter": rng.random() < 0.5,
                      "line": {"n": rng.randint(1, 40), "kind": rng.choice(["interrupt", "oom"])} if rng.random() < 0.12 else None})
    return {"cseed": rng.randrange(10 ** 6), "n": rng.choice([40, 90, 200]), "calls": calls, "threads": rng.random() < 0.3,
            "gap": rng.choice([0, 3, 20])}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 600, 20000), make, [None])


def content(scn):
    """The tables on the server and their files."""
    r = random.Random(scn["cseed"])
    n = scn["n"]
    k = {"nifa": [r.uniform(0, 1e5) for _ in range(n)], "net_tfa": [r.gauss(0, 5e4) for _ in range(n)], "tw": [r.gauss(0, 5e4) for _ in range(n)],
         "age": [r.randint(25, 64) for _ in range(n)], "inc": [r.uniform(1e3, 2e5) for _ in range(n)]}
    for c in ("educ", "fsize"):
        k[c] = [r.randint(1, 18) for _ in range(n)]
    for c in ("e401", "p401", "marr", "twoearn", "db", "pira", "hown", "male"):
        k[c] = [r.randint(0, 1) for _ in range(n)]
    names = list(k)
    r.shuffle(names)
    k = {c: k[c] for c in names}
    b = {"abdt": [r.randint(10000, 11000) for _ in range(n)], "tg": [r.choice([0, 0, 4, 4, 1, 2, 3, 5, 6]) for _ in range(n)],
         "inuidur1": [r.randint(1, 52) for _ in range(n)], "inuidur2": [r.randint(1, 52) for _ in range(n)]}
    for c in ("female", "black", "hispanic", "othrace"):
        b[c] = [r.randint(0, 1) for _ in range(n)]
    b["dep"] = [i % 3 if i < 12 else r.choice([0, 0, 1, 2]) for i in range(n)]
    b["tg"][:6] = [0, 4, 0, 4, 0, 4]
    for c in BX[5:13] + ["nondurable", "lusd", "husd"]:
        b[c] = [r.randint(0, 1) for _ in range(n)]
    f = io.BytesIO()
    pd.DataFrame(k).to_stata(f, write_index=False)
    lines = [(" " * r.randint(1, 3)).join(b)] + [(" " * r.randint(1, 3)).join(str(b[c][i]) for c in b) + " " * r.randint(0, 1) for i in range(n)]
    return k, b, {"sipp1991.dta": f.getvalue(), "penn_jae.dat": ("\n".join(lines) + "\n").encode()}


def expected_bonus(b):
    keep = [i for i, t in enumerate(b["tg"]) if t in (0, 4)]
    e = {c: np.array([v[i] for i in keep], dtype=float) for c, v in b.items()}
    e["tg"] = (e["tg"] == 4).astype(float)
    e["inuidur1"] = np.log(e["inuidur1"])
    lv = sorted(set(e["dep"]))
    for j, x in enumerate(lv[1:3]):
        e[f"dep{j + 1}"] = (e["dep"] == x).astype(float)
    return e


def poly(e):
    out = {(a,): e[a] for a in BX}
    for a, c in itertools.combinations_with_replacement(BX, 2):
        out[tuple(sorted((a, c)))] = e[a] * e[c]
    return out


def terms(name):
    """'female^2' -> (female, female); 'a b' -> (a, b)."""
    out = []
    for part in name.split(" "):
        b, _, p = part.partition("^")
        out += [b] * int(p or 1)
    return tuple(sorted(out))


def same(name, got, want):
    g = np.asarray(got, dtype=float)
    if g.shape != want.shape:
        return f"{name}: {g.shape[0]} rows instead of {want.shape[0]}"
    if not np.allclose(g, want, rtol=1e-12, atol=0):
        i = int(np.argmax(~np.isclose(g, want, rtol=1e-12, atol=0)))
        return f"{name}: row {i} is {g[i]}, the server sent {want[i]}"
    return None


def judge(call, res, k, b):
    """What is wrong with a successful answer (None: nothing)."""
    if call["type"] == "nonsense":
        return "an unknown return type gave an answer"
    frame = "Frame" in call["type"]
    if isinstance(res, pd.DataFrame) != frame:
        return f"{call['type']} requested, got {type(res).__name__}"
    df = res if frame else res.data
    if not df.index.equals(pd.RangeIndex(len(df))):
        return "row labels are not consecutive"
    if call["what"] == "401k":
        if call["poly"]:
            return "polynomial features of the 401(k) data"
        e = {c: np.array(v, dtype=float) for c, v in k.items()}
        if list(df.columns) != list(k):
            return f"columns {list(df.columns)} instead of {list(k)}"
        y, d, xs = "net_tfa", "e401", [(c,) for c in K401]
        ex = {(c,): e[c] for c in K401}
    else:
        e = expected_bonus(b)
        y, d = "inuidur1", "tg"
        if call["poly"]:
            ex = poly(e)
            xs = list(ex)
            e = {y: e[y], d: e[d]}
            miss = set(ex) - {terms(c) for c in df.columns if c not in (y, d)}
        else:
            ex = {(c,): e[c] for c in BX}
            xs = list(ex)
            miss = set(e) - set(df.columns)
        if miss:
            return f"columns {sorted(miss)[:5]} are missing"
    for c, v in e.items():
        r = same(c, df[c], v)
        if r:
            return r
    cols = {terms(c): c for c in df.columns}
    for c, v in ex.items():
        r = same(str(c), df[cols[c]], v)
        if r:
            return r
    if not frame:
        if res.y_col != y or list(res.d_cols) != [d] or [terms(c) for c in res.x_cols] != xs and {terms(c) for c in res.x_cols} != set(xs):
            return f"roles y={res.y_col} d={res.d_cols} x={res.x_cols}"
        r = same("y", res.y, e[y]) or same("d", res.d, e[d])
        if r:
            return r
        for j, c in enumerate(res.x_cols):
            r = same(c, res.x[:, j], ex[terms(c)])
            if r:
                return r
    return None


BENIGN = {"redirect", "short_reads"}


def harmful(sim):
    return sum(v for k, v in sim.faults.items() if k not in BENIGN)


def fetch(call):
    import doubleml as dml
    from doubleml import datasets
    t = {"DoubleMLData_class": dml.DoubleMLData, "DataFrame_class": pd.DataFrame}.get(call["type"], call["type"])
    fn = datasets.fetch_401K if call["what"] == "401k" else datasets.fetch_bonus
    return fn(return_type=t, polynomial_features=call["poly"])


def refused(call):
    return call["type"] == "nonsense" or (call["what"] == "401k" and call["poly"])


def alter(res):
    """The caller works on what it received."""
    df = res if isinstance(res, pd.DataFrame) else res.data
    for c in list(df.columns):
        try:
            df[c] = -7.0
        except Exception:
            return
    if isinstance(res, pd.DataFrame):
        df.drop(index=df.index[::2], inplace=True)


WARM = []


def warm():
    """Imports that happen inside the first fetch are done before any thread is parked."""
    if not WARM:
        WARM.append(1)
        sim = Sim(0)
        _, _, files = content({"cseed": 0, "n": 40})
        for what, t, p in itertools.product(["401k", "bonus"], ALIAS, [False, True]):
            with net.installed(net.Net(sim, files)):
                try:
                    fetch({"what": what, "type": t, "poly": p})
                except Exception:
                    pass
        for kind in net.CONNECT:
            net.CONNECT[kind]()
        for s in ({"enc": "gzip"}, {"enc": "chunked"}, {"redirect": 1}, {"status": 404}, {"loop": 1}, {"break": "truncated", "pos": 0.5}, {"page": 1}):
            for what in ("401k", "bonus"):
                n = net.Net(sim, files)
                n.scripts = [dict(s)]
                with net.installed(n):
                    try:
                        fetch({"what": what, "type": "DataFrame", "poly": False})
                    except Exception:
                        pass


def run(scn, sim):
    warm()
    k, b, files = content(scn)
    out, state = [], {"faulty": 0, "after": 0, "overlap": 0}
    opts = pd.options.mode.copy_on_write
    st0 = np.random.get_state()

    def one(i, call, n, line):
        n.scripts = copy.deepcopy(call["scripts"])
        f0 = harmful(sim)
        cnt = trace.Counter(line["n"], FAULT_EXC[line["kind"]]("injected")) if line else None
        try:
            if cnt:
                with trace.lines(cnt):
                    res = fetch(call)
            else:
                res = fetch(call)
        except K.INJECTED:
            sim.fault(line["kind"] + "_at_line")
            sim.log(i, "injected")
            return None
        except Exception as e:
            sim.log(i, "raised", type(e).__name__)
            if not refused(call) and harmful(sim) == f0 and not scn["threads"]:
                out.append(V("unavailable", f"call {i} ({call['what']}, {call['type']}) failed without a fault: {type(e).__name__}: {e}"))
            return None
        r = judge(call, res, k, b)
        sim.log(i, "ok", r)
        if r:
            out.append(V("wrong-data", f"call {i} ({call['what']}, {call['type']}, polynomial={call['poly']}, "
                                       f"connections {call['scripts']}): {r}"))
        if state["faulty"]:
            state["after"] += 1
        if n.unknown:
            sim.probe("unknown_address")
        return res

    if scn["threads"]:
        baton = Baton(sim, 500_000)
        baton.line_gap = scn["gap"]
        nets = {}

        def whose():
            t = baton.me()
            return nets[t.name]

        class Shared:
            def __init__(self):
                self.sim = sim

            def connect(self, conn):
                whose().connect(conn)

            def yield_(self):
                baton.switch()
        kept = []

        def job(i, call):
            def go():
                res = one(i, call, nets[f"t{i}"], None)
                if res is not None:
                    kept.append((i, call, res))
                    if call["alter"]:
                        alter(res)
            return go
        with net.installed(Shared()):
            with trace.lines(baton.line) if scn["gap"] else _null():
                ts = []
                for i, call in enumerate(scn["calls"]):
                    nets[f"t{i}"] = net.Net(sim, files, baton.switch)
                    ts.append(baton.spawn(job(i, call), f"t{i}"))
                baton.join(ts)
        for t in ts:
            if t.error is not None:
                raise t.error
        state["overlap"] = baton.switches
        for i, call, res in kept:
            if not call["alter"]:
                r = judge(call, res, k, b)
                if r:
                    out.append(V("shared-data", f"the data of call {i} changed when another caller altered its own: {r}"))
    else:
        kept = []
        for i, call in enumerate(scn["calls"]):
            f0 = sum(sim.faults.values())
            n = net.Net(sim, files)
            with net.installed(n):
                res = one(i, call, n, call["line"])
            if sum(sim.faults.values()) > f0:
                state["faulty"] += 1
            for j, c2, r2 in kept:
                r = judge(c2, r2, k, b)
                if r:
                    out.append(V("shared-data", f"the data of call {j} changed by call {i}: {r}"))
            if res is not None:
                if call["alter"]:
                    alter(res)
                else:
                    kept.append((i, call, res))
            if out:
                break
    if pd.options.mode.copy_on_write != opts:
        out.append(V("options", "a pandas option was changed"))
    st1 = np.random.get_state()
    if st0[2] != st1[2] or not np.array_equal(st0[1], st1[1]):
        out.append(V("generator", "the global random generator was used"))
    return {"v": out[:4], "nontrivial": bool(state["after"] or state["overlap"] > 4), "sig": f"{[c['what'] for c in scn['calls']]}{scn['threads']}"}


def _null():
    import contextlib
    return contextlib.nullcontext()


def shrink(scn):
    for i in range(len(scn["calls"])):
        if len(scn["calls"]) > 1:
            c = copy.deepcopy(scn)
            del c["calls"][i]
            yield c
    if scn["threads"]:
        c = copy.deepcopy(scn)
        c["threads"] = False
        yield c
    for i, call in enumerate(scn["calls"]):
        for j in range(len(call["scripts"])):
            c = copy.deepcopy(scn)
            del c["calls"][i]["scripts"][j]
            yield c
            s = call["scripts"][j]
            for k, v in (("short", None), ("delay", None), ("redirect", 0), ("early", None), ("enc", "length")):
                if s.get(k) and s[k] != v:
                    c = copy.deepcopy(scn)
                    c["calls"][i]["scripts"][j][k] = v
                    yield c
        for k, v in (("line", None), ("alter", False), ("poly", False), ("type", "DataFrame")):
            if call[k] and call[k] != v:
                c = copy.deepcopy(scn)
                c["calls"][i][k] = v
                yield c
    if scn["n"] > 40:
        yield {**scn, "n": 40}
