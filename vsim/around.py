"""What a simulated process finds around it: clocks, random numbers, directory.

The functions are in place before the library is imported; they give real
values until an execution starts.
"""

import os
import random
import sys
import time

_real = {k: getattr(time, k) for k in ("time", "monotonic", "perf_counter", "process_time")}
_urandom = os.urandom
_now = None  # simulated nanoseconds
_tick = None

STEPS = [1_000, 1_000_000, 40_000_000, 10**9, 61 * 10**9, 86_400 * 10**9]
DIRS = ["/", "/usr", "/etc"]
ZONES = ["UTC", "Asia/Tokyo", "America/Lima"]


def _read():
    """Every reading is later than the one before, now and then by days."""
    global _now
    _now += STEPS[min(_tick.getrandbits(3), 5)]
    return _now


def _wrap(name):
    real, real_ns = _real[name], getattr(time, name + "_ns")

    def seconds():
        return real() if _now is None else _read() / 1e9

    def nanoseconds():
        return real_ns() if _now is None else _read()

    setattr(time, name, seconds)
    setattr(time, name + "_ns", nanoseconds)


def urandom(n):
    return _urandom(n) if _now is None else random.randbytes(n)


def install():
    for name in _real:
        _wrap(name)
    os.urandom = urandom


def start(salt=0):
    """Begin an execution, in the child that runs it."""
    global _now, _tick
    _tick = random.Random(salt)
    _now = (1_700_000_000 + 7_654_321 * salt) * 10**9
    random.seed(salt)


def elsewhere(salt):
    """Become a process at another time and place that has not imported much."""
    start(salt)
    os.chdir(DIRS[salt % 3])
    os.environ["TZ"] = ZONES[salt % 3]
    if sys.modules.pop("vsim.late", None):
        del sys.modules["vsim"].late
