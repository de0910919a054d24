"""A joblib backend whose workers, clock and failures belong to the simulator.

``with parallel(sim, cfg): ...`` makes every ``joblib.Parallel`` in the process run on W simulated workers
in virtual time.  Modes:

* ``shared``    tasks run in the caller's memory (like joblib's threading backend), atomically, in completion order
* ``isolated``  tasks and results cross a pickle boundary (like loky): each worker has its own copy of its task and its own
                global NumPy generator; optionally the task's arrays are read-only (like loky's memory-mapped arguments)
* ``threads``   tasks run in parked real threads, interleaved by the simulator at learner calls and source lines

Faults: worker stalls (virtual time), worker death before/after the task ran (isolated), failing tasks (from learners).
"""
import contextlib
import heapq
import io
import pickle

import numpy as np
import cloudpickle
import joblib
from joblib import parallel_config, register_parallel_backend
from joblib._parallel_backends import ParallelBackendBase, SequentialBackend
from joblib.externals.loky.process_executor import TerminatedWorkerError

from .core import StepBudget

ENV = None            # the active environment (module global: backends are pickled into tasks)
WORKER_DEATH = TerminatedWorkerError


class Env:
    def __init__(self, sim, mode="shared", workers=2, stall=True, readonly=False, death=0, batch=1, nested=True, baton=None):
        self.sim, self.mode, self.workers = sim, mode, max(1, workers)
        self.stall, self.readonly, self.death, self.batch, self.nested = stall, readonly, death, batch, nested
        self.baton = baton
        self.rng_states = {}
        self.n_tasks = 0
        self.paused = False


def _dumps(obj):
    bufs = []
    data = cloudpickle.dumps(obj, protocol=5, buffer_callback=lambda b: bufs.append(b.raw().tobytes()) and None)
    return data, bufs


def _loads(payload, readonly):
    data, bufs = payload
    return pickle.loads(data, buffers=bufs if readonly else [bytearray(b) for b in bufs])


class _Job:
    __slots__ = ("func", "payload", "callback", "result", "error", "done", "tid", "start", "worker")

    def __init__(self, func, callback, tid):
        self.func, self.callback, self.tid = func, callback, tid
        self.payload = self.result = self.error = self.worker = None
        self.done = False
        self.start = None


class SimBackend(ParallelBackendBase):
    supports_retrieve_callback = False
    uses_threads = True
    supports_sharedmem = True

    def __init__(self, nesting_level=0, **kw):
        super().__init__(nesting_level=nesting_level)
        self._q = None
        self.parallel = None

    def __reduce__(self):
        return (SimBackend, (self.nesting_level,))

    # -- joblib interface
    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        w = ENV.workers if ENV is not None else 1
        if n_jobs is None:
            return w
        return w if n_jobs < 0 else int(n_jobs)

    def configure(self, n_jobs=1, parallel=None, **kw):
        n = self.effective_n_jobs(n_jobs)
        self.parallel = parallel
        self._n = n
        self._reset()
        return n

    def _reset(self):
        self._pending = []        # submitted, not started
        self._running = []        # heap (finish time, seq, job)
        self._seq = 0
        self._free = list(range(getattr(self, "_n", 1)))
        self._threads = []

    def terminate(self):
        self._reset()

    def abort_everything(self, ensure_ready=True):
        # tasks still running in threads of a shared-memory backend cannot be killed: let them finish
        if ENV is not None and ENV.mode == "threads" and ENV.baton is not None:
            for job in list(getattr(self, "_threads", [])):
                ENV.baton.wait(lambda j=job: j.done)
        elif ENV is not None and ENV.mode == "shared":
            while self._running:           # started tasks run to their end, queued tasks are dropped
                _, _, job = heapq.heappop(self._running)
                self._execute(job)
        self._reset()

    def compute_batch_size(self):
        return 1 + (ENV.sim.choose(ENV.batch) if ENV is not None and ENV.batch > 1 else 0)

    def get_nested_backend(self):
        lvl = (self.nesting_level or 0) + 1
        if lvl > 1 or ENV is None or not ENV.nested:
            return SequentialBackend(nesting_level=lvl), None
        return SimBackend(nesting_level=lvl), None

    def submit(self, func, callback=None):
        env = ENV
        env.n_tasks += 1
        job = _Job(func, callback, env.n_tasks)
        env.sim.log("submit", job.tid)
        if env.mode == "isolated" and env.sim.choose(2) == 0:
            job.payload = _dumps(func)       # the feeder serialises now or when the task starts
        if env.mode == "threads":
            self._threads.append(job)
            env.baton.spawn(lambda: self._run_thread(job), f"task{job.tid}")
        else:
            self._pending.append(job)
        return job

    apply_async = submit

    # -- execution
    def _run_thread(self, job):
        try:
            job.result = job.func()
        except BaseException as e:  # noqa: BLE001 - delivered to the caller
            job.error = e
        job.done = True
        ENV.sim.sched("done", job.tid, job.error is None)

    def _start_some(self):
        sim = ENV.sim
        while self._pending and self._free:
            job = self._pending.pop(0)
            w = self._free.pop(0)
            job.worker = w
            if ENV.mode == "isolated" and job.payload is None:
                job.payload = _dumps(job.func)
            dur = 1 + sim.choose(7)
            if ENV.stall and sim.chance(1, 12):
                dur += 1000
                sim.fault("worker_stall")
            self._seq += 1
            heapq.heappush(self._running, (sim.now + dur, self._seq, job))
            sim.sched("start", job.tid, w)

    def _execute(self, job):
        env, sim = ENV, ENV.sim
        sim.step()
        try:
            if env.mode == "isolated":
                death = env.death and sim.chance(1, env.death)
                if death and sim.choose(2) == 0:
                    sim.fault("worker_death")
                    raise WORKER_DEATH("a simulated worker died before its task")
                func = _loads(job.payload, env.readonly)
                outer = np.random.get_state()
                key = (self.nesting_level or 0, job.worker)
                if key not in env.rng_states:
                    np.random.seed(sim.choose(2 ** 31))
                else:
                    np.random.set_state(env.rng_states[key])
                try:
                    res = func()
                    payload = _dumps(res)
                finally:
                    env.rng_states[key] = np.random.get_state()
                    np.random.set_state(outer)
                if death:
                    sim.fault("worker_death")
                    raise WORKER_DEATH("a simulated worker died after its task, before the result arrived")
                job.result = _loads(payload, False)
            else:
                job.result = job.func()
        except StepBudget:
            raise
        except BaseException as e:  # noqa: BLE001
            job.error = e
        job.done = True
        sim.sched("done", job.tid, job.error is None)

    def _tick(self):
        self._start_some()
        if not self._running:
            raise StepBudget("no task can make progress")
        t, _, job = heapq.heappop(self._running)
        ENV.sim.now = max(ENV.sim.now, t)
        self._execute(job)
        self._free.append(job.worker)
        if job.callback is not None and job.error is None:
            job.callback(job)
        return job

    def retrieve_result(self, job, timeout=None):
        if ENV.mode == "threads":
            ENV.baton.wait(lambda: job.done)
            if job.error is None and job.callback is not None:
                cb, job.callback = job.callback, None
                cb(job)
        else:
            while not job.done:
                self._tick()
        if job.error is not None:
            raise job.error
        return job.result


register_parallel_backend("sim", SimBackend)


@contextlib.contextmanager
def parallel(sim, mode="shared", workers=2, default_jobs=None, **kw):
    """Run joblib on the simulated backend.  ``mode='seq'`` leaves joblib's sequential path in place."""
    global ENV
    if mode == "seq":
        with parallel_config(backend="sequential"):
            yield None
        return
    old = ENV
    ENV = Env(sim, mode=mode, workers=workers, **kw)
    try:
        with parallel_config(backend="sim", n_jobs=default_jobs):
            yield ENV
    finally:
        ENV = old


MODES = ["shared", "isolated", "isolated_ro", "threads"]
