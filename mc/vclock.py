"""A virtual clock and alarm. Import before the code under test: it then sees virtual time while `running`."""
import contextlib
import signal
import time

_real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "process_time", "sleep")}
_alarm, _setitimer = signal.alarm, signal.setitimer


class _Clock:
    active = False
    now = 0.0
    deadline = None
    set_alarms = 0


clock = _Clock()


class UnhandledAlarm(BaseException):
    """The alarm went off with no handler: the process would have been killed."""


def _now(name):
    def f():
        return clock.now if clock.active else _real[name]()
    f.__name__ = name
    return f


def _v_alarm(seconds):
    if not clock.active:
        return _alarm(seconds)
    left = 0 if clock.deadline is None else max(0, int(clock.deadline - clock.now))
    clock.deadline = clock.now + seconds if seconds else None
    clock.set_alarms += 1
    return left


def _v_setitimer(which, seconds, interval=0.0):
    if not clock.active or which != signal.ITIMER_REAL:
        return _setitimer(which, seconds, interval)
    left = 0.0 if clock.deadline is None else clock.deadline - clock.now
    clock.deadline = clock.now + seconds if seconds else None
    clock.set_alarms += 1
    return left, 0.0


def advance(seconds):
    """Time passes in the calling code; a due alarm goes off on the way."""
    end = clock.now + seconds
    if clock.deadline is not None and clock.deadline <= end:
        clock.now, clock.deadline = clock.deadline, None
        handler = signal.getsignal(signal.SIGALRM)
        if not callable(handler):
            raise UnhandledAlarm()
        handler(signal.SIGALRM, None)
    clock.now = end


def _v_sleep(seconds):
    if not clock.active:
        return _real["sleep"](seconds)
    advance(seconds)


for _n in ("time", "monotonic", "perf_counter"):
    setattr(time, _n, _now(_n))
time.sleep = _v_sleep
signal.alarm, signal.setitimer = _v_alarm, _v_setitimer


@contextlib.contextmanager
def running():
    clock.active, clock.now, clock.deadline, clock.set_alarms = True, 1000.0, None, 0
    try:
        yield clock
    finally:
        clock.active = False
