"""Memory layout of the arrays a case is built from: the same elements, contiguous or as a view with a step.
The worker sets MODE from the case, so a case always gets the same layout."""
import json
import zlib

import numpy as np
import riptable as rt

MODE = 0


def choose(case, drv=None):
    """A driver's nolay(case) tells where the layout may show (slicing a Categorical drops its unused categories)."""
    global MODE
    if drv is not None and getattr(drv, "nolay", lambda c: False)(case):
        MODE = 0
        return
    MODE = {0: 1, 1: 2}.get(zlib.crc32(json.dumps(case, sort_keys=True).encode()) % 8, 0)


def view(a):
    """a 1-d array -> equal array in the current layout"""
    if MODE == 0 or not isinstance(a, np.ndarray) or a.ndim != 1 or len(a) == 0:
        return a
    b = np.asarray(a)
    if MODE == 1:
        c = np.repeat(b, 2)
        c[1::2] = b[::-1]
        b = c[::2]
    else:
        b = b[::-1].copy()[::-1]
    return b.view(rt.FastArray) if isinstance(a, rt.FastArray) else b


def fa(a):
    return view(rt.FA(a))
