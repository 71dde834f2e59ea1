"""Deterministic guards: everything that could run forever ends as a finite failure.

* GuardLoop: an event loop that raises Deadlock when nothing can ever run again
  and Livelock after a large number of iterations;
* cpu_guard: a CPU-time alarm for endless synchronous loops.
"""

import asyncio
import contextlib
import signal


class GuardError(Exception):
    pass


class Deadlock(GuardError):
    """No task can run and no timer is pending: the run would block forever."""


class Livelock(GuardError):
    """The event loop spins without ending."""


class Hang(BaseException):
    """CPU budget of one case used up."""


ITER_CAP = 60_000


class GuardLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        super().__init__()
        self._guard_iters = 0

    def _run_once(self):
        self._guard_iters += 1
        if self._guard_iters > ITER_CAP:
            self._guard_iters = ITER_CAP - 5_000  # leave room for the clean-up
            raise Livelock("event loop spins without finishing")
        if not self._ready and not self._scheduled and not self._stopping:
            raise Deadlock("no task can run any more and the run has not ended")
        super()._run_once()


class GuardPolicy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = GuardLoop


def install():
    asyncio.set_event_loop_policy(GuardPolicy())


@contextlib.contextmanager
def cpu_guard(seconds):
    def on_alarm(signum, frame):
        raise Hang(f"one case used more than {seconds}s of CPU time")

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
