"""Real threads, parked and released one at a time: the simulator decides who runs."""
import threading

from .core import StepBudget


class _T:
    def __init__(self, name):
        self.name = name
        self.sem = threading.Semaphore(0)
        self.done = False
        self.pred = None
        self.ident = None
        self.error = None


class Baton:
    """The creating thread is managed too ("main").  Exactly one managed thread runs at any time."""

    def __init__(self, sim, max_switches=20000):
        self.sim = sim
        self.main = _T("main")
        self.main.ident = threading.get_ident()
        self.ts = [self.main]
        self.by_ident = {self.main.ident: self.main}
        self.gap = None
        self.switches = 0
        self.max_switches = max_switches
        self.live = True
        self.line_gap = 0            # mean number of lines between switches (0 = only learner calls)

    def spawn(self, fn, name):
        t = _T(name)

        def run():
            t.sem.acquire()
            t.ident = threading.get_ident()
            self.by_ident[t.ident] = t
            try:
                fn()
            except BaseException as e:  # noqa: BLE001
                t.error = e
            t.done = True
            self._next(t, finished=True)

        th = threading.Thread(target=run, daemon=True, name=name)
        t.thread = th
        self.ts.append(t)
        th.start()
        return t

    def me(self):
        return self.by_ident.get(threading.get_ident())

    def _runnable(self):
        out = []
        for t in self.ts:
            if t.done:
                continue
            if t.pred is not None:
                if t.pred():
                    t.pred = None
                else:
                    continue
            out.append(t)
        return out

    def _next(self, cur, finished=False):
        self.switches += 1
        if self.switches > self.max_switches:
            # liveness: hand back to main with an error
            self.live = False
            self.main.pred = None
            self.main.sem.release()
            return
        r = self._runnable()
        if not r:
            self.live = False
            self.main.pred = None
            self.main.sem.release()
            return
        if cur in r and not finished:      # default choice 0: keep running
            r.remove(cur)
            r.insert(0, cur)
        nxt = r[self.sim.choose(len(r))]
        if nxt is cur and not finished:
            return
        self.sim.sched("switch", cur.name, nxt.name)
        nxt.sem.release()
        if not finished:
            cur.sem.acquire()
            self._check(cur)

    def _check(self, cur):
        if not self.live and cur is self.main:
            raise StepBudget("threads cannot make progress")

    def switch(self):
        """A scheduling point of the running managed thread."""
        if not self.live:
            return
        cur = self.me()
        if cur is not None:
            self._next(cur)

    def line(self, code, line):
        if not self.line_gap or not self.live:
            return
        cur = self.me()
        if cur is None or len(self.ts) < 2:
            return
        if self.gap is None:
            self.gap = 1 + self.sim.choose(2 * self.line_gap)
        self.gap -= 1
        if self.gap <= 0:
            self.gap = None
            self._next(cur)

    def wait(self, pred):
        cur = self.me()
        while not pred():
            if not self.live:
                raise StepBudget("threads cannot make progress")
            cur.pred = pred
            self._next(cur)

    def join(self, ts):
        self.wait(lambda: all(t.done for t in ts))
