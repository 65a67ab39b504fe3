"""C01 Chunk identity is determined by slot content."""
from ..core import Sub, need
from ..lib import *

ROUTES = ["Chunk", "Chunk_rev", "make", "varval", "string"]


def textable(spec):
    return bool(spec["s"]) and all(v is not None for v in spec["s"].values())


def tweak(spec, how, slot, val, keys):
    """A variation of spec; how decides which."""
    s = dict(spec["s"])
    if how == "permute":
        order = sorted(s, key=lambda k: keys.index(k) if k in keys else 99)
        return {"t": spec["t"], "s": {k: s[k] for k in order}}
    if how == "retype":
        return {"t": "t3" if spec["t"] != "t3" else "t1", "s": s}
    if how == "addempty":
        s.setdefault(slot, None)
        return {"t": spec["t"], "s": s}
    if how == "drop":
        s.pop(slot, None)
        return {"t": spec["t"], "s": s} if s else spec
    if how == "set":
        s[slot] = val
        return {"t": spec["t"], "s": s}
    if how == "move":
        ks = list(s)
        if len(ks) >= 2:
            s[ks[0]], s[ks[1]] = s[ks[1]], s[ks[0]]
        return {"t": spec["t"], "s": s}
    if how == "deep":      # change inside a nested chunk
        for k, v in s.items():
            if isinstance(v, dict):
                s[k] = tweak(v, "set", slot, "p", keys)
                break
        return {"t": spec["t"], "s": s}
    return spec


def family(base):
    """A list of chunks: a base chunk and variations of it."""
    mod = st.tuples(st.sampled_from(["permute", "retype", "addempty", "drop", "set", "move", "deep", "same"]),
                    st.sampled_from(SLOTS), values(1), st.permutations(SLOTS))

    def build(args):
        spec, mods, routes = args
        out, cur = [spec], spec
        for i, m in enumerate(mods):
            cur = tweak(cur if i % 2 else spec, *m)
            out.append(cur)
        return [{"c": c, "r": r} for c, r in zip(out, routes)]
    return st.tuples(base, st.lists(mod, min_size=1, max_size=3),
                     st.lists(st.sampled_from(ROUTES), min_size=4, max_size=4)).map(build)


def check_chunks(case, ctx):
    cs = []
    for d in case:
        r = d["r"]
        if r == "string" and not textable(d["c"]):
            r = "make"
        cs.append((real_chunk(d["c"], r), canon_spec(d["c"])))
    eqs = 0
    for i, (a, ca) in enumerate(cs):
        need(a == a, "chunk differs from itself: %s", a)
        for j, (b, cb) in enumerate(cs):
            want = ca == cb
            need((a == b) == want, "%s == %s gives %s, contents are %s", a, b, a == b, "equal" if want else "different")
            need((a != b) == (not want), "!= disagrees with == for %s, %s", a, b)
            need((hash(a) == hash(b)) == want, "hashes of %s and %s agree: %s, contents equal: %s", a, b, hash(a) == hash(b), want)
            if i < j:
                eqs += want
    d = {}
    for a, ca in cs:
        d[a] = ca
    need(len(d) == len({c for _, c in cs}), "dict keyed by %d distinct chunks has %d entries", len({c for _, c in cs}), len(d))
    for a, ca in cs:
        need(d[a] == ca, "lookup by equal chunk finds another chunk")
    ctx.label("some-equal" if eqs else "all-different")
    if any(isinstance(v, dict) for x in case for v in x["c"]["s"].values()):
        ctx.label("nested")
    ctx.nontrivial(len({c for _, c in cs}) > 1 or eqs)


def pat_family():
    def build(args):
        p, perm, cons, slot, how, routes = args
        out = [p]
        # same constraints, different order
        q = {"t": "t3", "s": {s: dict(p["s"][s]) for s in sorted(p["s"], key=perm.index)}}
        for c in q["s"].values():
            if "nv" in c:
                c["nv"] = list(reversed(c["nv"]))
            if "nx" in c:
                c["nx"] = list(reversed(c["nx"]))
        out.append(q)
        r = {"t": p["t"], "s": {s: dict(c) for s, c in p["s"].items()}}
        if how == "set":
            r["s"][slot] = cons
        elif how == "drop":
            ks = [k for k in r["s"]]
            if len(ks) > 1:
                del r["s"][ks[0]]
        elif how == "kind":     # value becomes negated value, variable becomes negated variable
            k = list(r["s"])[0]
            c = r["s"][k]
            if c.get("v") is not None:
                c["nv"] = [c.pop("v")]
            elif c.get("x"):
                c["nx"] = [c.pop("x")]
        elif how == "swapnames":
            for c in r["s"].values():
                if c.get("x"):
                    c["x"] = {"x": "y", "y": "x", "xy": "yx", "yx": "xy"}.get(c["x"], "x")
        out.append(r)
        return [{"p": c, "r": rr} for c, rr in zip(out, routes)]
    return st.tuples(pattern_specs(1), st.permutations(SLOTS), constraints(0), st.sampled_from(SLOTS),
                     st.sampled_from(["set", "drop", "kind", "swapnames"]),
                     st.lists(st.sampled_from(["varval", "make", "marked"]), min_size=3, max_size=3)).map(build)


def check_patterns(case, ctx):
    ps = [(real_pattern(d["p"], d["r"]), canon_pattern(d["p"])) for d in case]
    multi = False
    for i, (a, ca) in enumerate(ps):
        for j, (b, cb) in enumerate(ps):
            want = ca == cb
            need((a == b) == want, "patterns %s and %s: equal is %s, same constraints is %s", a, b, a == b, want)
            need((hash(a) == hash(b)) == want, "hashes of patterns %s and %s: equal is %s, same constraints is %s", a, b, hash(a) == hash(b), want)
    for d in case:
        multi = multi or any(len(c.get("nv", ())) > 1 or len(c.get("nx", ())) > 1 for c in d["p"]["s"].values())
    ctx.label("several-negations" if multi else "simple")
    ctx.nontrivial(any(len(_d) > 0 for _d in (x["p"]["s"] for x in case)))


SUBS = [
    Sub("chunks", family(chunk_specs(2)), check_chunks, 2400, 60000,
        "families of 2-4 chunks derived from one another by permuting, retyping, emptying, setting, swapping slots (nesting up to 2), built by 5 routes; non-trivial: at least two different contents or an equal pair", shards=4),
    Sub("patterns", pat_family(), check_patterns, 1600, 40000,
        "a pattern, the same constraints reordered, and a changed one; non-trivial: has constraints", shards=4),
]
