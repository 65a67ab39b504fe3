"""Reference for visual search, attention shifts and automatic buffering (C22, C23, C24)."""
import math

from .lib import *

EXTREME = ("lowest", "highest", "closest", "onewayclosest")


def pos(stim):
    return int(stim["position"][0]), int(stim["position"][1])


def dist(a, b):
    return math.hypot(float(a[0]) - float(b[0]), float(a[1]) - float(b[1]))


def visible(stim):
    """Externally visible features: slot -> text."""
    return {k: str(stim[k]) for k in stim if k in stim.get("externally_visible", [])}


def meets(c, value, number):
    """Does a value (of the stimulus) meet a criterion {"v", "nv", "rel"} whose variables were replaced?"""
    if c.get("rel"):
        sign, bound = c["rel"]
        if not (value < bound if sign == "<" else value > bound):
            return False
    v = c.get("v")
    if v is not None and not (number and v in EXTREME) and str(v) != str(value):
        return False
    return all(str(n) != str(value) for n in c.get("nv", ()))


def satisfies(stim, crit, attended=None, is_attended=False):
    """All criteria except the extremal ones."""
    if attended is not None and attended != is_attended:
        return False
    if not meets(crit.get("value", {}), stim.get("text", ""), False):
        return False
    x, y = pos(stim)
    if not meets(crit.get("screen_x", {}), x, True) or not meets(crit.get("screen_y", {}), y, True):
        return False
    for slot, val in visible(stim).items():     # every externally visible feature has to be in the request
        if str(crit.get(slot, {}).get("v")) != val:
            return False
    return True


def extremes(crit):
    return {(s if crit[s].get("v") != "closest" else "both", crit[s]["v"]) for s in ("screen_x", "screen_y") if crit.get(s, {}).get("v") in EXTREME}


def best(stims, which, focus):
    """Those of stims that are extremal; which is (slot, criterion)."""
    slot, kind = which
    axis = 1 if slot == "screen_y" else 0
    key = {"lowest": lambda s: pos(s)[axis], "highest": lambda s: -pos(s)[axis], "closest": lambda s: dist(focus, pos(s)),
           "onewayclosest": lambda s: abs(float(focus[axis]) - pos(s)[axis])}[kind]
    low = min(map(key, stims))
    return [s for s in stims if key(s) <= low + 1e-9]


def search(screen, crit, attended, recent, finst, focus):
    """(acceptable stimuli, those that satisfy everything but the extremal criteria)."""
    sat = [s for s in screen.values() if satisfies(s, crit, attended if finst else None, s in recent)]
    ext = extremes(crit)
    return (best(sat, next(iter(ext)), focus) if sat and len(ext) == 1 else sat), sat


def location_of(stim):
    return ("chunk", frozenset([("screen_x", str(pos(stim)[0])), ("screen_y", str(pos(stim)[1]))] + list(visible(stim).items())))


def declare():
    pyactr.chunktype("go", "s p q n")
    for t in ("_visual", "_visuallocation"):
        pyactr.makechunk("", t, color="red")
    pyactr.chunktype("place", "screen_x screen_y color shape value")
    pyactr.chunktype("thing", "screen_pos cmd value color shape")
