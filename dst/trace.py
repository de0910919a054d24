"""Line-granular seam on doubleml's own code: interrupts and thread switches at any source line."""
import os
import sys
import threading

_TOOL = 3
_ROOT = None
_STATE = {"on": False, "cb": None}
mon = sys.monitoring


def _root():
    global _ROOT
    if _ROOT is None:
        import doubleml
        _ROOT = os.path.dirname(os.path.abspath(doubleml.__file__)) + os.sep
    return _ROOT


_skip = {}


def _line(code, line):
    fn = code.co_filename
    s = _skip.get(fn)
    if s is None:
        s = _skip[fn] = not fn.startswith(_root()) or (os.sep + "tests" + os.sep) in fn
    if s:
        return mon.DISABLE
    cb = _STATE["cb"]
    if cb is not None:
        cb(code, line)
    return None


class lines:
    """``with lines(cb): ...`` calls cb(code, line) for each executed doubleml line (any thread)."""

    def __init__(self, cb):
        self.cb = cb

    def __enter__(self):
        if not _STATE["on"]:
            mon.use_tool_id(_TOOL, "dst")
            mon.register_callback(_TOOL, mon.events.LINE, _line)
            _STATE["on"] = True
        _STATE["cb"] = self.cb
        mon.set_events(_TOOL, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon.set_events(_TOOL, 0)
        _STATE["cb"] = None
        return False


class Counter:
    """Counts lines executed by one thread; raises ``exc`` when the count reaches ``at``."""

    def __init__(self, at=None, exc=None):
        self.n, self.at, self.exc = 0, at, exc
        self.where = None
        self.me = threading.get_ident()
        self.fired = False

    def __call__(self, code, line):
        if threading.get_ident() != self.me:
            return
        self.n += 1
        if self.at is not None and self.n == self.at and not self.fired:
            self.fired = True
            self.where = (os.path.relpath(code.co_filename, _root()), code.co_name, line)
            raise self.exc
