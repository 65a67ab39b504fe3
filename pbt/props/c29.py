"""C29 Copies of memories and buffers are faithful and independent."""
import itertools

from ..core import Sub, need
from ..lib import *
from pyactr import declarative, goals

DecMem = declarative.DecMem
inner = {"t": "t2", "s": {"a": "p"}}
inner2 = {"t": "t2", "s": {"a": "q"}}
small = st.sampled_from(["p", "q", 1, inner, inner2])
spec = chunk_specs(0, slots=["a", "b", "c"], vals=small, max_slots=3)
times = st.sampled_from([0, -1, -2.5, -0.33333, -10])
SRC = {"t": "src", "s": {"a": inner, "b": inner2}}


def mem_ops():
    w = st.integers(0, 2)
    add = st.builds(lambda w, c, t: {"op": "add", "w": w, "c": c, "t": t}, w, spec, times)
    act = st.builds(lambda w, i, a: {"op": "act", "w": w, "i": i, "a": a}, w, st.integers(0, 4), st.sampled_from([0, 1.5, -2]))
    fan = st.builds(lambda w, r: {"op": "fan", "w": w, "r": r}, w, st.booleans())
    copy = st.builds(lambda w: {"op": "copy", "w": w}, w)
    dele = st.builds(lambda w, i: {"op": "del", "w": w, "i": i}, w, st.integers(0, 4))
    seti = st.builds(lambda w, c, t: {"op": "set", "w": w, "c": c, "t": t}, w, spec, times)
    return st.tuples(st.lists(add, min_size=1, max_size=4),
                     st.lists(weighted((4, add), (2, act), (3, fan), (1, seti)), max_size=4),
                     st.lists(weighted((4, add), (2, act), (3, fan), (2, copy), (1, seti)), max_size=8)).map(
                         lambda z: z[0] + z[1] + [{"op": "copy", "w": 0}] + z[2])


PAR = {"subsymbolic": True, "partial_matching": False, "mismatch_penalty": 1, "baselevel_learning": False, "decay": 0.5, "optimized_learning": False,
       "strength_of_association": 3, "association_only_from_chunks": True, "buffer_spreading_activation": {"g": 1}, "instantaneous_noise": 0,
       "retrieval_threshold": -1000, "latency_factor": 1, "latency_exponent": 1, "activation_trace": False, "rule_firing": 0.05}


def spread(dm, target, restricted):
    """Activation with which the chunk target is retrieved from dm when SRC is in the goal, base level 0."""
    g = goals.Goal()
    g.add(real_chunk(SRC))
    r = declarative.DecMemBuffer(dm)
    got, _ = r.retrieve(1000, target, {}, {"g": g}, {}, dict(PAR, spreading_activation_restricted=restricted))
    need(got is not None, "nothing retrieved for the request %s from %s", target, dm)
    return canon_chunk(got), r.activation


def fan_model(mem, restricted):
    """Expected activation of every chunk of the model memory {canon: (times, act)}."""
    import math
    out = {}
    srcs = [("a", canon_spec(inner)), ("b", canon_spec(inner2))]
    for k, (_, act) in mem.items():
        total = 0
        for slot, src in srcs:
            vals = [v for _, v in k[1]]
            if restricted:
                if (slot, src) not in k[1]:
                    continue
                fan = 1 + sum((slot, src) in kk[1] for kk in mem)
            else:
                if src not in vals and src != k:
                    continue
                fan = 1 + sum(v == src for kk in mem for _, v in kk[1])
            total += 3 - math.log(fan / max(1, vals.count(src)))
        base = 0 if act is None else math.log(math.exp(0) + math.exp(act))
        out[k] = base + total / 2
    return out


def check_mem(case, ctx):
    mems = [(DecMem(), {})]
    fanned = set()
    for i, op in enumerate(case):
        o = op["op"]
        what = "step %d (%s)" % (i, o)
        w = op["w"] % len(mems)
        dm, mo = mems[w]
        if o == "add":
            dm.add(real_chunk(op["c"]), op["t"])
            k = canon_spec(op["c"])
            ts, a = mo.get(k, ([], None))
            mo[k] = (ts + [round(float(op["t"]), 4)], a)
        elif o == "set":
            dm[real_chunk(op["c"])] = op["t"]
            k = canon_spec(op["c"])
            mo[k] = ([round(float(op["t"]), 4)], mo.get(k, (0, None))[1])
        elif o == "act":
            k = list(mo)[op["i"] % len(mo)]
            dm.add_activation([c for c in dm if canon_chunk(c) == k][0], op["a"])
            mo[k] = (mo[k][0], op["a"])
        elif o == "fan":
            exp = fan_model(mo, op["r"])
            best = max(exp.values())
            got, act = spread(dm, pyactr.makechunk("", "any"), op["r"]) if False else spread(dm, real_pattern({"t": "x", "s": {"zz": {"nv": ["no"]}}}), op["r"])
            need(close(act, best), "%s: highest activation in memory %d is %s, expected %s", what, w, act, best)
            need(close(exp[got], best), "%s: memory %d retrieves %s", what, w, show(got))
            fanned.add(w)
        elif o == "copy":
            if len(mems) < 3:
                mems.append((dm.copy(), dict(mo)))
                if w in fanned:
                    fanned.add(len(mems) - 1)
                    ctx.label("copied-with-fans")
        for j, (d, m) in enumerate(mems):
            got = dm_canon(d)
            need(list(canon_chunk(c) for c in d) == list(m), "%s: memory %d has entries %s, expected %s", what, j, d, [show(k) for k in m])
            for k in m:
                need(got[k] == m[k][0], "%s: memory %d has times %s for %s, expected %s", what, j, got[k], show(k), m[k][0])
            acts = {canon_chunk(c): a for c, a in d.activations.items()}
            need(acts == {k: a for k, (_, a) in m.items() if a is not None}, "%s: memory %d has manual activations %s", what, j, acts)
    for j, (d, m) in enumerate(mems):     # finally, fans
        for r in (True, False):
            exp = fan_model(m, r)
            got, act = spread(d, real_pattern({"t": "x", "s": {"zz": {"nv": ["no"]}}}), r)
            need(close(act, max(exp.values())), "memory %d: highest activation (restricted=%s) is %s, expected %s", j, r, act, max(exp.values()))
    ctx.nontrivial(len(mems) > 1)


def buf_cases():
    op = st.builds(lambda o, w, c, t, r: {"op": o, "w": w, "c": c, "t": t, "rr": r},
                   st.sampled_from(["add", "clear", "modify", "retrieve", "retrieve", "copy", "memadd", "state"]), st.integers(0, 3), spec, times, st.sampled_from([None, None, "False", "True"]))
    return st.fixed_dictionaries({"kind": st.sampled_from(["goal", "retrieval", "retrieval"]), "mem": st.lists(spec, min_size=1, max_size=4), "start": st.one_of(spec, spec, st.none()),
                                  "finst": st.integers(0, 3), "delay": st.sampled_from([0, 0.2, 1]), "newmem": st.booleans(),
                                  "pre": st.lists(op, max_size=4), "post": st.lists(op, min_size=1, max_size=6)})


def check_buf(case, ctx):
    """Goal copies share the memory (or get the given one); retrieval copies get a copy of the memory or the given one."""
    dms = []      # model memories: canon -> times
    real = []

    def newmem(d, m):
        real.append(d)
        dms.append(m)
        return len(real) - 1
    m0 = {}
    d0 = DecMem()
    for c in case["mem"]:
        d0.add(real_chunk(c), -5)
        m0.setdefault(canon_spec(c), []).append(-5.0)
    newmem(d0, m0)
    if case["kind"] == "goal":
        b = goals.Goal(None, d0, case["delay"])
    else:
        b = declarative.DecMemBuffer(d0, finst=case["finst"])
        b.model_parameters = {"decay": 0.3}
    content0 = None
    if case["start"] is not None:
        b.add(real_chunk(case["start"]))
        content0 = canon_spec(case["start"])
    bufs = [[b, content0, 0, []]]     # buffer, content, memory index, recent

    def copy(w, fresh):
        buf, content, mi, recent = bufs[w]
        if fresh:
            nd = DecMem()
            nb = buf.copy(nd)
            ni = newmem(nd, {})
        elif case["kind"] == "goal":
            nb, ni = buf.copy(), mi
        else:
            nb = buf.copy()
            ni = newmem(nb.dm, {k: list(v) for k, v in dms[mi].items()})
        bufs.append([nb, content, ni, list(recent)])

    def do(i, op):
        w = op["w"] % len(bufs)
        what = "step %d (%s on buffer %d)" % (i, op["op"], w)
        e = bufs[w]
        buf, content, mi, recent = e
        mem = dms[mi]

        def harvest(t):
            if e[1] is not None:
                mem.setdefault(e[1], []).append(round(float(t), 4))
                e[1] = None
        o = op["op"]
        if o == "add":
            if case["kind"] != "goal":
                harvest(op["t"])
            buf.add(real_chunk(op["c"]), op["t"])
            e[1] = canon_spec(op["c"])
        elif o == "clear":
            buf.clear(op["t"])
            harvest(op["t"])
        elif o == "modify" and content is not None:
            buf.modify(real_chunk(op["c"], "make"))
            new = dict(content[1])
            for s, v in op["c"]["s"].items():
                new[s] = canon_value(v)
            e[1] = ("chunk", frozenset(new.items()))
        elif o == "memadd":
            real[mi].add(real_chunk(op["c"]), op["t"])
            mem.setdefault(canon_spec(op["c"]), []).append(round(float(op["t"]), 4))
        elif o == "state":
            buf.state = buf._BUSY
            for j, other in enumerate(bufs):
                need(j == w or other[0].state == buf._FREE, "%s: state of buffer %d changed", what, j)
            buf.state = buf._FREE
        elif o == "copy" and len(bufs) < 4:
            copy(w, op["t"] == 0)
        elif o == "retrieve" and case["kind"] == "retrieval":
            req = real_pattern({"t": "x", "s": {"zz": {"nv": ["no"]}}})
            tests = {} if op["rr"] is None else {"recently_retrieved": op["rr"]}
            got, _ = buf.retrieve(77, req, {}, {}, tests, dict(PAR, subsymbolic=False))
            allowed = list(mem)
            if tests and case["finst"]:
                allowed = [k for k in mem if (k in recent) == (op["rr"] == "True")]
                ctx.label("finst-restricted")
            got = None if got is None else canon_chunk(got)
            need(got in allowed if allowed else got is None, "%s: retrieved %s with recent results %s, allowed %s", what, show(got), [show(r) for r in recent], [show(k) for k in allowed])
            if case["finst"]:
                recent.append(got)
                del recent[:-case["finst"]]
        if case["kind"] == "retrieval":
            buf.model_parameters["decay"] = 9
            for j, other in enumerate(bufs):
                need(j == w or other[0].model_parameters["decay"] != 9, "%s: parameters of buffer %d changed too", what, j)
            buf.model_parameters["decay"] = 0.3
        for j, (bb, c, mj, _) in enumerate(bufs):
            need(buf_canon(bb) == c, "%s: buffer %d holds %s, expected %s", what, j, show(buf_canon(bb)), show(c))
            if case["kind"] == "goal":
                need(bb.delay == case["delay"], "%s: buffer %d has delay %s, expected %s", what, j, bb.delay, case["delay"])
            else:
                need(bb.model_parameters == {"decay": 0.3}, "%s: buffer %d has parameters %s", what, j, bb.model_parameters)
                need(bb.finst == case["finst"], "%s: buffer %d has finst %s, expected %s", what, j, bb.finst, case["finst"])
            need(bb.dm is real[mj], "%s: buffer %d uses another memory", what, j)
        for j, d in enumerate(real):
            need(dm_canon(d) == dms[j], "%s: memory %d is %s, expected %s", what, j, d, {show(k): v for k, v in dms[j].items()})
    for i, op in enumerate(case["pre"]):
        do(i, op)
    if len(bufs) < 4:
        copy(0, case["newmem"])
    for i, op in enumerate(case["post"]):
        do(100 + i, op)
    ctx.label(case["kind"], "newmem" if case["newmem"] else "default-mem")
    ctx.nontrivial(content0 is not None or case["pre"])


# ------------------------------------------------------------------ retrieval with partial matching

def gen_partial(rng):
    def sims():
        return [[a, b, rng.choice([-.1, -.3, -.7, -2.1, 0])] for a, b in itertools.combinations("pqrs", 2) if rng.random() < .7]
    mem = {tuple(sorted({"a": rng.choice("pqrs"), "b": rng.choice("pqrs")}.items())) for _ in range(rng.randint(2, 5))}
    return {"mem": [dict(x) for x in sorted(mem)], "sims": sims(), "others": sims(), "reqs": [{x: rng.choice("pqrs") for x in rng.sample("ab", rng.randint(1, 2))} for _ in range(3)],
            "when": rng.choice(["before", "after", "both"]), "fresh": rng.random() < .4, "penalty": rng.choice([1, .5, 3])}


def check_partial(case, ctx):
    """A copied retrieval buffer finds what the original finds, by the similarities of its own model."""
    par = dict(PAR, spreading_activation_restricted=False, buffer_spreading_activation={}, partial_matching=True, mismatch_penalty=case["penalty"], baselevel_learning=False, retrieval_threshold=-50)
    def new(sims):
        m = new_model()
        for a, b, v in sims:
            m.set_similarities(a, b, v)
        return m
    pyactr.chunktype("f", "a b")
    other = new(case["others"])
    if case["when"] != "after":
        new_sim(other)
    m = new(case["sims"])
    for f in case["mem"]:
        m.decmem.add(Chunk("f", **f), time=-1)
    new_sim(m)
    if case["when"] != "before":
        new_sim(other)
    c = m.retrieval.copy(m.decmem.copy()) if case["fresh"] else m.retrieval.copy()
    if case["when"] == "both":
        new_sim(new([]))
    got = []
    for req in case["reqs"]:
        x, y = (b.retrieve(9, Chunk("f", **req), {}, {}, {}, par) for b in (m.retrieval, c))
        need(x[0] == y[0] and close(x[1], y[1], 1e-9), "asked for %s, the buffer retrieves %s in %s, its copy %s in %s", req, x[0], x[1], y[0], y[1])
        need(close(m.retrieval.activation, c.activation, 1e-9), "asked for %s, the activation is %s in the buffer and %s in its copy", req, m.retrieval.activation, c.activation)
        got.append(x[0] is not None and any(str(getattr(x[0], k)) != v for k, v in req.items()))
    ctx.nontrivial(any(got) and case["sims"] != case["others"])


SUBS = [
    Sub("memories", mem_ops(), check_mem, 1200, 40000,
        "histories over a memory and its copies with additions, manual activations and fan computations; contents, activations and fan-dependent activation compared with independent models after every step; non-trivial: a copy exists", shards=5),
    Sub("buffers", buf_cases(), check_buf, 1200, 40000,
        "goal and retrieval buffers, copied with or without a given memory before and during operation sequences; non-trivial: the original had content or a history", shards=3),
        Sub("partial", gen_partial, check_partial, 150, 6000,
            "copied retrieval buffers retrieve by partial matching as the originals do, while other models have other similarities; non-trivial: a chunk that differs from the request is retrieved", shards=1)]
