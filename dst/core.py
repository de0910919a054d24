"""Core of the simulator: seeded choices, virtual clock, event log, fault counters.

One scenario (a JSON object) is one exactly repeatable execution: every choice made while it runs
comes from ``Sim.choose``, which draws from a PRNG seeded by the scenario, or replays a recorded
list of choices (``forced``; missing entries are 0, the "boring" default).
"""
import hashlib
import random


class StepBudget(Exception):
    """The simulated system did not finish within the step budget (a liveness violation)."""


class Sim:
    def __init__(self, seed, forced=None, max_steps=2_000_000):
        self.seed = seed
        self.rng = random.Random("sim:" + str(seed))
        self.forced = list(forced) if forced is not None else None
        self.choices = []          # recorded choices (ints)
        self.now = 0.0             # virtual seconds
        self.steps = 0
        self.max_steps = max_steps
        self.h = hashlib.sha256()
        self.n_events = 0
        self.faults = {}           # fault kind -> times actually fired
        self.probes = {}           # rare-condition probes
        self.sched_h = hashlib.sha256()  # the interleaving only (for the distinct-interleavings measure)
        self.n_sched = 0
        self.log_lines = [] if False else None

    # -- choices
    def choose(self, n, what=""):
        """A choice in range(n). 0 is the default a minimiser moves towards."""
        if n <= 1:
            return 0
        k = len(self.choices)
        if self.forced is not None:
            c = self.forced[k] % n if k < len(self.forced) else 0
        else:
            c = self.rng.randrange(n)
        self.choices.append(c)
        return c

    def chance(self, p_num, p_den, what=""):
        """True with probability p_num/p_den; choice 0 means False."""
        return self.choose(p_den, what) >= p_den - p_num

    # -- log
    def log(self, *items):
        self.n_events += 1
        s = repr(items)
        self.h.update(s.encode())
        if self.log_lines is not None:
            self.log_lines.append(s)

    def sched(self, *items):
        self.n_sched += 1
        self.sched_h.update(repr(items).encode())
        self.log("S", *items)

    def step(self, k=1):
        self.steps += k
        if self.steps > self.max_steps:
            raise StepBudget(f"no end after {self.max_steps} simulated steps")

    def advance(self, dt):
        self.now += dt

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("F", kind)

    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def digest(self):
        return self.h.hexdigest()[:16]

    def sched_digest(self):
        return self.sched_h.hexdigest()[:16]


class InjectedError(RuntimeError):
    """Injected failure of a learner / user callback."""


class InjectedInterrupt(KeyboardInterrupt):
    """Injected user interrupt."""


class InjectedOOM(MemoryError):
    """Injected failing allocation."""


FAULT_EXC = {
    "learner_error": InjectedError,
    "interrupt": InjectedInterrupt,
    "oom": InjectedOOM,
}


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


def V(kind, msg):
    return {"kind": kind, "msg": str(msg)[:600]}
