"""C02 Pattern matching follows the declarative meaning of patterns."""
from ..core import Sub, need
from ..lib import *

# a small alphabet makes agreement between slots likely
small = st.sampled_from(["p", "q", "p", 1, {"t": "t2", "s": {"a": "p"}}, {"t": "t2", "s": {"a": "q"}}])
cval = weighted((5, small), (1, st.none()))
names = ["a", "b", "c", "d", "e"]
pats = pattern_specs(0, slots=names, vals=small, max_slots=4)
chs = chunk_specs(0, slots=names, vals=cval, max_slots=5)
binds = st.dictionaries(st.sampled_from(VARS), small, max_size=2)


def con_for(v, kind, var, other):
    """A constraint aimed at a slot holding v."""
    if kind == "eq":
        return {"v": "None" if v is None else v}
    if kind == "var":
        return {"x": var}
    if kind == "eqvar":
        return {"v": "None" if v is None else v, "x": var}
    if kind == "neg":
        return {"nv": [other]}
    if kind == "negs":
        return {"nv": [other, "zzz"]}
    if kind == "negself":
        return {"nv": ["None" if v is None else v]}
    if kind == "nvar":
        return {"nx": [var]}
    if kind == "varneg":
        return {"x": var, "nv": [other]}
    return {"x": var, "nx": [v2 for v2 in VARS if v2 != var][:1]}


def aimed():
    """A pattern built from the chunk so that most of it holds."""
    kinds = ["eq", "eq", "var", "var", "eqvar", "neg", "negs", "nvar", "nvar", "varneg", "varnvar", "negself"]

    def build(args):
        c, ks, vs, os_, extra, t, ini = args
        p = {}
        init = {}
        held = [v for v in c["s"].values() if v is not None] or ["p"]
        for i, (x, k) in enumerate(ini):      # mostly bound to a value the chunk holds
            init[x] = held[k % len(held)] if k else "q"
        for (slot, v), k, x, o in zip(sorted(c["s"].items()), ks, vs, os_):
            if k != "skip":
                p[slot] = con_for(v, k, x, o)
        if extra:
            p.setdefault(extra[0], extra[1])
        return {"pattern": {"t": t, "s": p}, "chunk": c, "init": init}
    return st.tuples(chs, st.lists(st.sampled_from(kinds + ["skip"]), min_size=5, max_size=5),
                     st.one_of(st.lists(st.sampled_from(VARS[:2]), min_size=5, max_size=5), st.lists(st.sampled_from(VARS), min_size=5, max_size=5)),
                     st.lists(small, min_size=5, max_size=5),
                     st.one_of(st.none(), st.tuples(st.sampled_from(names), constraints(0, vals=small))),
                     st.sampled_from(TYPES),
                     st.lists(st.tuples(st.sampled_from(VARS), st.integers(0, 2)), max_size=3)).map(build)


free = st.builds(lambda p, c, b: {"pattern": p, "chunk": c, "init": b}, pats, chs, binds)


def as_bindings(init):
    return {"=" + k: (real_value(v) if isinstance(v, dict) else str(v)) for k, v in init.items()}


def compare(p, chunk, pos, neg, real, other, ctx, what):
    cslots = {s: canon_value(v) for s, v in chunk["s"].items()}
    ok, pos2, neg2 = ref_match(p, cslots, pos, neg)
    got = real <= other
    need(bool(got) == ok, "%s: %s <= %s (bindings %s) gives %s, the declarative reading says %s", what, real, other, pos, got, ok)
    if ok:
        b = bindings_of(real)
        need(b == pos2, "%s: after matching %s with %s the bindings are %s, expected %s", what, real, other, b, pos2)
    return ok, pos2, neg2


def check_one(case, ctx):
    p, c = case["pattern"], case["chunk"]
    pos = {k: canon_value(v) for k, v in case["init"].items()}
    real, other = real_pattern(p), real_chunk(c)
    real.boundvars = as_bindings(case["init"])
    ok, _, _ = compare(p, c, pos, None, real, other, ctx, "match")
    # slot names renamed so that their alphabetical order is reversed
    ren = {n: "s%02d" % (50 - i) for i, n in enumerate(sorted(set(names) | set(c["s"]) | set(p["s"])))}
    p2 = {"t": "u1", "s": {ren[s]: x for s, x in p["s"].items()}}
    c2 = {"t": "u2", "s": {ren[s]: x for s, x in c["s"].items()}}
    r2, o2 = real_pattern(p2), real_chunk(c2)
    r2.boundvars = as_bindings(case["init"])
    compare(p2, c2, pos, None, r2, o2, ctx, "match with slots renamed")
    # proper part
    r3 = real_pattern(p)
    r3.boundvars = as_bindings(case["init"])
    r4 = real_pattern(p)
    r4.boundvars = as_bindings(case["init"])
    eq = r4 == other
    need((r3 < other) == (ok and not eq), "%s < %s is %s although match=%s and equality=%s", real, other, r3 < other, ok, eq)
    # the same pattern with other bindings is like a new pattern with those bindings
    if case["init"]:
        for _ in range(2):
            alt = {k: "q" if v == "p" else "p" for k, v in case["init"].items()} if not _ else case["init"]
            r5 = real_pattern(p)
            for r in (r4, r5):
                r.boundvars = as_bindings(alt)
            need((r4 == other) == (r5 == other) and hash(r4) == hash(r5), "%s == %s is %s with the bindings %s once it had others, and %s if it never had", r4, other, r4 == other, alt, r5 == other)
    cons = list(p["s"].values())
    nv = sum(1 for x in cons if x.get("x")) + sum(len(x.get("nx", ())) for x in cons)
    ctx.label("match" if ok else "no-match", "vars>=2" if nv >= 2 else "vars<2",
              "missing-slot" if set(p["s"]) - set(c["s"]) else "all-slots")
    if any(x.get("x") for x in cons) and any(x.get("nx") for x in cons):
        ctx.label("var+negvar" + ("-match" if ok else ""))
    ctx.nontrivial(cons)


def total():
    """Every filled slot is constrained, and most variables are bound: the pattern may come to equal the chunk."""
    def build(args):
        c, ks, vs, os_, ini = args
        p = {s: con_for(v, k, x, o) for (s, v), k, x, o in zip(sorted(c["s"].items()), ks, vs, os_)}
        return {"pattern": {"t": "t1", "s": p}, "chunk": c, "init": ini}
    few = st.sampled_from(["p", "p", "q"])
    return st.tuples(st.dictionaries(st.sampled_from(names), few, min_size=1, max_size=2).map(lambda d: {"t": "t1", "s": d}),
                     st.lists(st.sampled_from(["eq", "var", "var", "var", "varneg", "eqvar", "nvar"]), min_size=2, max_size=2),
                     st.lists(st.sampled_from(VARS), min_size=2, max_size=2), st.lists(few, min_size=2, max_size=2),
                     st.dictionaries(st.sampled_from(VARS), few, max_size=3)).map(build)


def chain_cases():
    def build(args):
        a, b = args
        return {"steps": [{"pattern": a["pattern"], "chunk": a["chunk"]}, {"pattern": b["pattern"], "chunk": b["chunk"]}]}
    return st.tuples(aimed(), aimed()).map(build)


def check_chain(case, ctx):
    """Bindings carried from one match into the next (as within one left-hand side)."""
    pos, neg, carried = {}, {}, {}
    for i, s in enumerate(case["steps"]):
        real, other = real_pattern(s["pattern"]), real_chunk(s["chunk"])
        real.boundvars = dict(carried)
        ok, pos2, neg2 = compare(s["pattern"], s["chunk"], pos, neg, real, other, ctx, "match %d of a chain" % (i + 1))
        if not ok:
            ctx.label("stopped-at-%d" % (i + 1))
            break
        pos, neg, carried = pos2, neg2, dict(real.boundvars)
    else:
        ctx.label("chain-matched")
    ctx.nontrivial(i > 0)


SUBS = [
    Sub("aimed", aimed(), check_one, 2400, 80000,
        "patterns derived from the chunk they are matched with, one constraint kind per slot; non-trivial: has constraints", shards=4),
    Sub("free", free, check_one, 1600, 60000,
        "independent patterns, chunks and initial bindings; non-trivial: has constraints", shards=3),
    Sub("total", total(), check_one, 1200, 40000,
        "patterns constraining every filled slot, with most variables bound beforehand; non-trivial: has constraints", shards=2),
    Sub("chain", chain_cases(), check_chain, 1200, 40000,
        "two matches sharing variables; non-trivial: the second is reached", shards=3),
]
