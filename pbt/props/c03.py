"""C03 Partial matching adds up declared similarities."""
import math

from ..core import Sub, need
from ..lib import *

PEN = [0, 0.5, 1, 1, 1.5, 2]
SIM = [0, -0.25, -0.5, -0.75, -1.25, -2]
val = st.sampled_from(["p", "q", "r", 1, {"t": "t2", "s": {"a": "p"}}, {"t": "t2", "s": {"a": "q"}}])
names = ["a", "b", "c", "d"]


def cases():
    cons = weighted((5, val.map(lambda v: {"v": v})), (1, st.lists(val, min_size=1, max_size=2, unique_by=lambda q: repr(q)).map(lambda l: {"nv": l})),
                    (1, st.just({"v": "None"})), (1, st.none()))
    cvals = weighted((6, val), (1, st.none()), (1, st.just("MISSING")))
    aimed = st.lists(st.tuples(st.booleans(), st.sampled_from(SIM)), min_size=0, max_size=2)
    free = st.tuples(val, val, st.sampled_from(SIM)).map(list)

    def build(args):
        slots, sims, bad, pen, bound = args
        req = {s: c for s, (c, _, _) in slots.items() if c}
        ch = {s: v for s, (_, v, _) in slots.items() if v != "MISSING"}
        out = []
        sims = [(s, sw, x) for s, (_, _, l) in slots.items() for sw, x in l] + list(sims)
        for x in sims:
            if isinstance(x, list):
                a, b, v = x
            else:
                a, b, v = req.get(x[0], {}).get("v"), ch.get(x[0]), x[2]
                if x[1]:
                    a, b = b, a
            if a in (None, "None") or b in (None, "None") or canon_value(a) == canon_value(b):
                continue
            out.append([a, b, v])
        if not req:
            req = {"a": {"v": "p"}}
        if not ch:
            ch = {"b": "q"}
        return {"request": req, "chunk": ch, "sims": out, "bad": bad, "penalty": pen, "bound": bound}
    return st.tuples(st.dictionaries(st.sampled_from(names), st.tuples(cons, cvals, aimed), min_size=1, max_size=4),
                     st.lists(free, max_size=2), st.booleans(), st.sampled_from(PEN), st.booleans()).map(build)


def check(case, ctx):
    m = new_model(subsymbolic=True, partial_matching=True, baselevel_learning=False, latency_factor=1.0, latency_exponent=1.0,
                  retrieval_threshold=-100, mismatch_penalty=case["penalty"])
    table = {}
    for a, b, v in case["sims"]:
        m.set_similarities(real_value(a) if isinstance(a, dict) else str(a), real_value(b) if isinstance(b, dict) else str(b), v)
        table[frozenset([canon_value(a), canon_value(b)])] = v
        if case["bad"]:
            expect_error(lambda: m.set_similarities(real_value(a) if isinstance(a, dict) else str(a), real_value(b) if isinstance(b, dict) else str(b), 0.5),
                         ACTRError, "positive similarity")
    ch = real_chunk({"t": "mem", "s": case["chunk"]})
    m.decmem.add(ch, 0)
    slots = {s: canon_value(v) for s, v in case["chunk"].items()}
    score, mism, declared = 0.0, 0, 0

    def sim(a, b):
        return table.get(frozenset([a, b]), -case["penalty"])
    req = {"t": "mem", "s": dict(case["request"])}
    goal = bind = None
    if case["bound"]:   # send the values through variables bound in the goal
        goal, bind = {"t": "go", "s": {"go": "yes"}}, {"t": "go", "s": {"go": {"v": "yes"}}}
        for i, (s, c) in enumerate(sorted(case["request"].items())):
            if "v" in c and c["v"] != "None":
                goal["s"]["g%d" % i] = c["v"]
                bind["s"]["g%d" % i] = {"x": "v%d" % i}
                req["s"][s] = {"x": "v%d" % i}
            elif "nv" in c and len(c["nv"]) == 1:
                goal["s"]["g%d" % i] = c["nv"][0]
                bind["s"]["g%d" % i] = {"x": "v%d" % i}
                req["s"][s] = {"nx": ["v%d" % i]}
    for s, c in case["request"].items():
        cv = slots.get(s)
        if "v" in c and canon_value(c["v"]) != cv:
            k = frozenset([canon_value(c["v"]), cv])
            declared += k in table
            score += sim(canon_value(c["v"]), cv)
            mism += 1
        for n in c.get("nv", ()):
            if canon_value(n) == cv:
                score += -case["penalty"]
                mism += 1
    request_once(m, lambda: real_pattern(req), goal, None, bind)
    simu = new_sim(m)
    tr = drive(simu, 60)
    started, t, what = retrieval_outcome(tr)
    need(t is not None and what != "None", "no retrieval with a threshold of -100: %s", tr.events)
    want = math.exp(-score)
    need(tclose(t - started, want, 2e-4), "latency %.4f for request %s on chunk %s, sims %s, penalty %s; expected %.4f (score %s)",
         t - started, real_pattern(req), ch, case["sims"], case["penalty"], want, score)
    ctx.label("mismatches=%d" % min(mism, 3), "declared" if declared else "undeclared")
    ctx.nontrivial(mism)


SUBS = [Sub("score", cases(), check, 1600, 40000,
            "one-chunk memories, value/negated requests (direct or through bound variables), similarity tables; the score is read off the retrieval latency; non-trivial: some mentioned slot disagrees", shards=6)]
