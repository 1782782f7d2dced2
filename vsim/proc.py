"""Forked executions: each runs in its own child of the pristine zygote."""

import marshal
import os
import select
import signal
import sys
import time
import traceback

from . import around

_monotonic = time.monotonic


class ChildFailure(Exception):
    """kind is 'timeout', 'crash' or 'error' (harness exception)."""

    def __init__(self, kind, detail):
        Exception.__init__(self, f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


def plain(x):
    """Strip subclasses so that the result can be marshalled."""
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or type(x) in (bool, int, float, str, bytes):
        return x
    if isinstance(x, str):
        return str.__str__(x)
    if isinstance(x, bool):
        return bool(x)
    if isinstance(x, int):
        return int(x)
    return repr(x)


def _quiet(info):
    """Injected exceptions also hit finalizers, where they only get printed."""


def child(fn, *args, timeout=30.0):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            sys.unraisablehook = _quiet
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            around.start()
            try:
                out = ["ok", fn(*args)]
            except BaseException:  # noqa: BLE001 - harness failure
                out = ["error", traceback.format_exc()]
            try:
                data = marshal.dumps(out)
            except ValueError:
                data = marshal.dumps(plain(out))
            view = memoryview(data)
            while view:
                n = os.write(w, view[:65536])
                view = view[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = _monotonic() + timeout
    killed = False
    while True:
        left = end - _monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if killed:
        raise ChildFailure("timeout", f"no result after {timeout} s")
    if status != 0:
        raise ChildFailure("crash", f"wait status {status}")
    out = marshal.loads(b"".join(chunks))
    if out[0] == "error":
        raise ChildFailure("error", out[1])
    return out[1]
