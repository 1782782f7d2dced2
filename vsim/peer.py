"""Another process of the simulated system: a pristine zygote with a hash seed
and a memory layout of its own that executes functions of property modules in forked children."""

import importlib
import marshal
import os
import struct
import subprocess
import sys

from . import proc

_peers = {}


def _send(f, x):
    try:
        data = marshal.dumps(x)
    except ValueError:
        data = marshal.dumps(proc.plain(x))
    f.write(struct.pack("<I", len(data)) + data)
    f.flush()


def _recv(f):
    head = f.read(4)
    if len(head) < 4:
        return None
    return marshal.loads(f.read(struct.unpack("<I", head)[0]))


def call(hashseed, flags, mod, fn, *args):
    """Run vsim.props.<mod>.<fn>(*args) in a fresh process of that peer."""
    key = (os.getpid(), hashseed)
    p = _peers.get(key)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VSIM_LAYOUT=str(hashseed))
        p = _peers[key] = subprocess.Popen(
            [sys.executable, "-m", "vsim.peer", *flags],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
        )  # fmt: skip
    _send(p.stdin, [mod, fn, list(args)])
    out = _recv(p.stdout)
    if out is None:
        raise proc.ChildFailure("error", "peer process died")
    if out[0] == "fail":
        raise proc.ChildFailure(out[1], out[2])
    return out[1]


def close():
    """Stop this process's peers."""
    for (pid, _), p in list(_peers.items()):
        if pid == os.getpid():
            p.stdin.close()
            p.wait()
    _peers.clear()


def main(flags):
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    from .boot import boot

    boot(**dict.fromkeys(flags, True))
    for name in ("ops",):
        importlib.import_module("vsim." + name)
    inp = sys.stdin.buffer
    while True:
        req = _recv(inp)
        if req is None:
            return
        mod = importlib.import_module("vsim.props." + req[0])
        try:
            _send(out, ["ok", proc.child(getattr(mod, req[1]), *req[2])])
        except proc.ChildFailure as e:
            _send(out, ["fail", e.kind, e.detail])


if __name__ == "__main__":
    from .layout import fix

    fix("vsim.peer")
    main(sys.argv[1:])
    os._exit(0)
