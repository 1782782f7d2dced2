"""Memory layout of a process: no address randomisation, seeded shifts.

Addresses decide the order of sets of classes and functions, so they are part
of an execution like its hash seed.
"""

import os
import sys

_ballast = []


def fix(module):
    """Run this module again without address randomisation."""
    if os.environ.get("VSIM_LAYOUT_FIXED") != "1":
        os.environ["VSIM_LAYOUT_FIXED"] = "1"
        try:
            import ctypes

            if ctypes.CDLL(None).personality(0x0040000) == -1:
                return
        except (ImportError, OSError, AttributeError):
            return
        os.execv(sys.executable, [sys.executable, "-m", module, *sys.argv[1:]])
    n = int(os.environ.get("VSIM_LAYOUT", "0"))
    x = n
    for _ in range(n % 4000):
        x = (x * 1103515245 + 12345) % (1 << 31)
        _ballast.append(bytes(520 + 16 * (x % 200)))
