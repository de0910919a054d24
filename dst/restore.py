"""Checkpoint and restore: copying, serialising, and a helper process in which a restored model lives on.

    python -m dst.restore        (the helper: requests on stdin, answers on stdout, both length-prefixed pickles)
"""
import copy
import io
import os
import pickle
import struct
import subprocess
import sys

import numpy as np

KINDS = ["deepcopy", "pickle2", "pickle4", "pickle5", "cloudpickle"]


def dumps(obj, kind):
    if kind == "cloudpickle":
        import cloudpickle
        return cloudpickle.dumps(obj)
    return pickle.dumps(obj, protocol=int(kind[6:]))


def restore(obj, kind):
    """A restored copy of the object, in this process."""
    if kind == "deepcopy":
        return copy.deepcopy(obj)
    return pickle.loads(dumps(obj, kind))


# ----------------------------------------------------------------- the other process
def _send(f, obj):
    b = pickle.dumps(obj, protocol=5)
    f.write(struct.pack("<Q", len(b)))
    f.write(b)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError("helper process ended")
    n = struct.unpack("<Q", h)[0]
    return pickle.loads(f.read(n))


_HELPER = None


def helper(request):
    """Ask the helper interpreter of this worker (started when first needed, with another hash seed)."""
    global _HELPER
    if _HELPER is None or _HELPER.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED="4242", DST_HELPER="1")
        _HELPER = subprocess.Popen([sys.executable, "-m", "dst.restore"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                   cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    try:
        _send(_HELPER.stdin, request)
        return _recv(_HELPER.stdout)
    except BaseException:
        _HELPER.kill()
        _HELPER.wait()
        _HELPER = None
        raise


def session(request):
    """Continue a restored model with the requested operations; returns what it reports before and after each."""
    from dst import core, ops as O
    from dst.learners import REC
    from dst.props import common as K
    REC.reset()
    np.random.seed(request["seed"])
    spec = request["spec"]
    model = pickle.loads(request["model"])
    w = O.World.resume(spec, model, request["df"])
    sim = core.Sim(request["seed"])
    out = [report(spec, w, None, "restored")]
    for op in request["ops"]:
        st = K.faulty(w, op, op.get("fault"), sim)
        out.append(report(spec, w, w.answer, st))
    REC.reset()
    return out


def report(spec, w, answer, status):
    from dst import ops as O, snap as S
    return {"snap": S.snap(spec, w.model), "inf": O.inference(spec, w.model), "answer": answer, "status": status}


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(2), "wb"), write_through=True)
    import warnings
    from dst import run  # noqa: F401  (paths and environment)
    warnings.filterwarnings("ignore")
    while True:
        try:
            req = _recv(sys.stdin.buffer)
        except EOFError:
            return
        try:
            ans = ("ok", session(req))
        except BaseException as e:  # noqa: BLE001 - reported to the caller
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            ans = ("error", f"{type(e).__name__}: {e} [" + " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-5:])) + "]")
        _send(out, ans)


if __name__ == "__main__":
    main()
