"""C08 Modifying and creating buffer chunks changes only what was asked."""
from ..core import Sub, need
from ..lib import *
from pyactr import declarative, goals, vision

val = st.sampled_from(["p", "q", "r", 1, {"t": "t2", "s": {"a": "p"}}, {"t": "t2", "s": {"a": "q", "b": {"t": "t1", "s": {"c": "p"}}}}])
names = ["a", "b", "c", "d"]


def rhs_constraint():
    good = weighted((4, val.map(lambda v: {"v": v})), (4, st.sampled_from(VARS).map(lambda x: {"x": x})), (1, st.just({"v": "None"})),
                    (1, st.just({})))
    return weighted((12, good), (1, st.builds(lambda v, x: {"v": v, "x": x}, val, st.sampled_from(VARS))),
                    (1, st.builds(lambda v: {"nv": [v]}, val)), (1, st.builds(lambda x: {"nx": [x]}, st.sampled_from(VARS))))


cases = st.fixed_dictionaries({
    "orig": chunk_specs(1, slots=names, vals=weighted((4, val), (1, st.none()))),
    "mod": st.builds(lambda t, d: {"t": t, "s": d}, st.sampled_from(TYPES), st.dictionaries(st.sampled_from(names), rhs_constraint(), min_size=0, max_size=4)),
    "bind": st.dictionaries(st.sampled_from(VARS), weighted((5, val), (1, st.just("None"))), max_size=3),
    "buf": st.sampled_from(["goal", "retrieval", "visual", "visual_location"]),
    "how": st.sampled_from(["modify", "modify", "create"]),
    "empty": weighted((9, st.just(False)), (1, st.just(True))),
    "stored": st.booleans()})


def substitute(mod, pos):
    """dict of mentioned slots -> canonical value, or None when the action is illegal."""
    out = {}
    for s, c in mod["s"].items():
        if c.get("nv") or c.get("nx"):
            return None
        vals = set()
        if c.get("v") is not None:
            vals.add(canon_value(c["v"]))
        if c.get("x"):
            if c["x"] not in pos:
                return None
            vals.add(pos[c["x"]])
        if len(vals) > 1:
            return None
        if vals:
            out[s] = vals.pop()
    return out


def check(case, ctx):
    env = pyactr.Environment()
    dm = declarative.DecMem()
    buf = {"goal": lambda: goals.Goal(None, dm), "retrieval": lambda: declarative.DecMemBuffer(dm),
           "visual": lambda: vision.Visual(env, dm), "visual_location": lambda: vision.VisualLocation(env, dm)}[case["buf"]]()
    orig = real_chunk(case["orig"])
    before = canon_spec(case["orig"])
    empty = bool(case.get("empty"))
    if empty:
        before_buf = None
    elif case["buf"] == "visual_location":
        buf.add(orig, None)
    else:
        buf.add(orig)
    if not empty:
        before_buf = before
    if case["stored"]:
        dm.add(orig, 0)
    pos = {x: canon_value(v) for x, v in case["bind"].items()}
    actr = {"=" + x: (real_value(v) if isinstance(v, dict) else str(v)) for x, v in case["bind"].items()}
    actr_before = dict(actr)
    mod = real_pattern(case["mod"], "make")
    modc = canon_pattern(case["mod"])
    create = case["how"] == "create" and case["buf"] == "goal"
    want = substitute(case["mod"], pos)

    def act():
        if create:
            buf.create(mod, dm, actr)
        else:
            buf.modify(mod, actr)
    if want is None or empty and not create:       # nothing can be modified in an empty buffer
        expect_error(act, ACTRError, "%s with %s under %s" % (case["how"], mod, pos))
        ctx.label("rejected")
        now = buf_canon(buf)
        need(now == before_buf, "after a rejected %s the buffer holds %s, before it held %s", case["how"], show(now), show(before_buf))
    else:
        act()
        if create:
            new = want
            typ = case["mod"]["t"]
        else:
            new = {s: canon_value(v) for s, v in case["orig"]["s"].items()}
            new.update(want)
            typ = case["mod"]["t"]
        ch = buf_chunk(buf)
        need(ch is not None, "buffer is empty after %s", case["how"])
        got = canon_chunk(ch)
        exp = ("chunk", frozenset((s, v) for s, v in new.items() if v is not None))
        need(got == exp, "%s %s by %s with %s gives %s, expected %s", case["how"], case["orig"], mod, pos, show(got), show(exp))
        need(ch.typename == typ, "type after %s is %s, expected %s", case["how"], ch.typename, typ)
        ctx.label("accepted", "vars" if any(c.get("x") for c in case["mod"]["s"].values()) else "no-vars",
                  "emptied-slot" if any(v is None for v in want.values()) else "-")
        need(ch == ch and hash(ch) == hash(buf_chunk(buf)), "modified chunk is not equal to itself")
    need(canon_chunk(orig) == before, "the original chunk changed to %s", orig)
    need(actr == actr_before, "the bindings changed to %s", actr)
    mm = dm_canon(dm)
    need(mm == ({before: [0.0]} if case["stored"] else {}), "memory is %s after %s", {show(k): v for k, v in mm.items()}, case["how"])
    ctx.nontrivial(want is None or want or empty)


SUBS = [Sub("actions", cases, check, 2000, 60000,
            "original chunk, right-hand-side pattern, bindings and buffer kind; non-trivial: a slot is mentioned or the action must be rejected", shards=6)]
