"""Reference activations, written from the ACT-R equations, over canonical chunks."""
import math

from .lib import *


def base_level(now, times, bll=True, decay=0.5, optimized=False, manual=None):
    """None when the chunk cannot be retrieved."""
    b = None
    if not bll:
        b = 0.0
    else:
        past = [t for t in times if t < now]
        if past:
            if optimized:
                b = math.log(len(past) / (1 - decay)) - decay * math.log(now - max(past))
            else:
                b = math.log(math.fsum((now - t) ** -decay for t in past))
    if manual is not None:
        b = manual if b is None else math.log(math.exp(b) + math.exp(manual))
    return b


def sources(chunk, only_chunks):
    """(slot, value) pairs of a canonical chunk that spread activation."""
    return [(s, v) for s, v in chunk[1] if not only_chunks or isinstance(v, tuple)]


def spread(target, buffers, weights, memory, S, restricted=False, only_chunks=True):
    """buffers: name -> canonical chunk or None; memory: iterable of canonical chunks."""
    total = 0.0
    for name, w in weights.items():
        src = buffers.get(name)
        if src is None:
            continue
        srcs = sources(src, only_chunks)
        held = sources(target, only_chunks)
        for slot, v in srcs:
            occ = sum(1 for _, u in held if u == v)
            if restricted:
                if (slot, v) not in held:
                    continue
                fan = 1 + sum((slot, v) in k[1] for k in memory)
            else:
                if not occ and v != target:
                    continue
                fan = 1 + sum(u == v for k in memory for _, u in k[1])
            total += w / len(srcs) * (S - math.log(fan / max(1, occ)))
    return total


def mismatch(req, chunk, table, penalty):
    """req: slot -> (set of values, set of negated values); table: frozenset of two values -> similarity."""
    d = dict(chunk[1])
    if all(vs == {d.get(s)} and not ns for s, (vs, ns) in req.items()) and {s for s in d if d[s] is not None} == {s for s, (vs, _) in req.items() if vs != {None}}:
        return 0.0
    total = 0.0
    for s, (vs, ns) in req.items():
        for v in vs:
            if v != d.get(s):
                total += table.get(frozenset([v, d.get(s)]), -penalty)
        for n in ns:
            if n == d.get(s):
                total -= penalty
    return total


def matches(req, chunk):
    d = dict(chunk[1])
    return all((not vs or vs == {d.get(s)}) and d.get(s) not in ns for s, (vs, ns) in req.items())
