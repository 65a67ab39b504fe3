"""C13 Recently retrieved chunks are tracked by the retrieval finst."""
from ..core import Sub, need
from ..lib import *
from pyactr import declarative
from .. import act

FLAGS = [None, "False", "True", False, True]
PAR = {"subsymbolic": False, "rule_firing": 0.05, "partial_matching": False, "mismatch_penalty": 1, "baselevel_learning": True, "decay": 0.5, "optimized_learning": False,
       "strength_of_association": 0, "association_only_from_chunks": True, "buffer_spreading_activation": {}, "spreading_activation_restricted": False,
       "instantaneous_noise": 0, "activation_trace": False, "retrieval_threshold": -100, "latency_factor": 0.1, "latency_exponent": 1.0}


def gen(rng):
    mem = []
    for i in range(rng.randint(1, 6)):
        mem.append([{"t": "f", "s": {"a": rng.choice("pq"), "i": "i%d" % i}}, [-float(i + 1)]])
    if rng.random() < .4:
        mem = [[{"t": c["t"], "s": {"a": c["s"]["a"], "i": {"t": "t2", "s": {"b": c["s"]["i"]}}}}, ts] for c, ts in mem]
    rng.shuffle(mem)
    steps = []
    for _ in range(rng.randint(2, 10)):
        r = rng.random()
        req = {"a": {"v": rng.choice("pq")}} if r < .6 else {"a": {"v": "nothing"}} if r < .75 else {"a": {"nv": ["zz"]}}
        steps.append({"req": req, "flag": rng.choice(FLAGS + ["False", "True", "False"]), "buf": rng.choice([0, 0, 0, 1])})
    return {"mem": mem, "steps": steps, "finst": [rng.choice([0, 1, 2, 3, 4, 8]), rng.choice([0, 1, 3])], "sub": rng.random() < .5,
            "thr": rng.choice([-100, -0.5]), "new": rng.choice([None, None, 2, 4])}


class Model:
    def __init__(self, finst):
        self.finst, self.recent = finst, []

    def allowed(self, cands, flag):
        if flag is None or not self.finst:
            return list(cands)
        want = flag in ("True", True)
        return [k for k in cands if (k in self.recent) == want]

    def record(self, got):
        if self.finst:
            self.recent = (self.recent + [got])[-self.finst:]


def base(ts, now, sub):
    """Base level in the module's settings; None if there is no presentation before now."""
    if not sub:
        return 0
    return act.base_level(round(now, 4), ts)


def verdict(step, model, mem, now, sub, thr):
    """(allowed results, whether failure is right)."""
    cands = []
    for k, ts in mem.items():
        d = dict(k[1])
        c = step["req"]["a"]
        if ("v" in c and d["a"] != c["v"]) or (ts[0] == now):
            continue
        cands.append(k)
    ok = model.allowed(cands, step["flag"])
    if sub:
        sc = {k: base(mem[k], now, True) for k in ok}
        sc = {k: v for k, v in sc.items() if v is not None}
        sc = {k: v for k, v in sc.items() if v >= thr}
        ok = [k for k, v in sc.items() if v >= max(sc.values()) - 1e-9]
    return ok


def check_direct(case, ctx):
    dm = declarative.DecMem()
    mem = {}
    for c, ts in case["mem"]:
        dm.add(real_chunk(c), list(ts))
        mem[canon_spec(c)] = list(ts)
    bufs, models = [], []
    for i, f in enumerate(case["finst"]):
        if i == 0:
            b = declarative.DecMemBuffer(dm, finst=f)
        else:
            b = declarative.DecMemBuffer(dm)
            b.finst = f
        need(b.finst == f, "finst set to %s is %s", f, b.finst)
        expect_error(lambda: setattr(b, "finst", -1 - f), ValueError, "negative finst")
        need(b.finst == f, "rejected finst changed the finst to %s", b.finst)
        bufs.append(b)
        models.append(Model(f))
    expect_error(lambda: declarative.DecMemBuffer(dm, finst=-2), ValueError, "negative finst")
    par = dict(PAR, subsymbolic=case["sub"], retrieval_threshold=case["thr"])
    if case["new"] is not None and not models[1].finst:
        bufs[1].finst = case["new"]
        models[1] = Model(case["new"])
    hits = 0
    for i, s in enumerate(case["steps"]):
        b, mo = bufs[s["buf"]], models[s["buf"]]
        extra = {} if s["flag"] is None else {"recently_retrieved": s["flag"]}
        got, _ = b.retrieve(5.0, real_pattern({"t": "f", "s": s["req"]}), {}, {}, extra, par)
        ok = verdict(s, mo, mem, 5.0, case["sub"], case["thr"])
        g = None if got is None else canon_chunk(got)
        text = "retrieval %d (%s, recently_retrieved=%s, finst %d, recent %s)" % (i, s["req"], s["flag"], mo.finst, [show(k) for k in mo.recent])
        need((g in ok) if ok else g is None, "%s gives %s, allowed %s", text, show(g), [show(k) for k in ok])
        if s["flag"] is not None and mo.finst and any(mo.recent):
            hits += 1
            ctx.label("recent:%s" % (s["flag"],), "found" if g else "none")
        mo.record(g)
        need([None if x is None else canon_chunk(x) for x in b.recent] == mo.recent, "%s: recent retrievals are %s, expected %s", text, list(b.recent), [show(k) for k in mo.recent + [g]])
    ctx.nontrivial(hits)


def check_sim(case, ctx):
    rf = 0.05
    m = new_model(subsymbolic=case["sub"], retrieval_threshold=case["thr"], latency_factor=0.01)
    mem = {}
    for c, ts in case["mem"]:
        m.decmem.add(real_chunk(c), list(ts))
        mem[canon_spec(c)] = list(ts)
    bufs = [m.retrieval, m.set_retrieval("other")]
    names = ["retrieval", "other"]
    models = []
    for b, f in zip(bufs, case["finst"]):
        b.finst = f
        models.append(Model(f))
    m.goal.add(real_chunk({"t": "go", "s": {"step": "n0"}}))

    def rule(i, s, q):
        def lhs():
            d = {"=g": real_pattern({"t": "go", "s": {"step": {"v": "n%d" % i}}})}
            d["?" + names[case["steps"][i - 1]["buf"] if i else 0]] = {"state": q}
            return d

        def rhs():
            d = {"=g": real_pattern({"t": "go", "s": {"step": {"v": "n%d" % (i + 1)}}}), "+" + names[s["buf"]]: real_pattern({"t": "f", "s": s["req"]})}
            if s["flag"] is not None:
                d["?" + names[s["buf"]]] = {"recently_retrieved": s["flag"]}
            return d
        return make_rule("r%d%s" % (i, q), lhs, rhs)
    m.set_productions(*[rule(i, s, q) for i, s in enumerate(case["steps"]) for q in ("free", "error")])
    seen = []
    drive(new_sim(m), 300, on_event=lambda ev: seen.append((ev, [buf_canon(b) for b in bufs])))
    starts = [ev for ev, _ in seen if ev[2] == "START RETRIEVAL"]
    ends = [(ev, c) for ev, c in seen if ev[2].startswith("RETRIEVED: ")]
    need(len(starts) == len(ends) == len(case["steps"]), "%d requests led to %d retrievals and %d results", len(case["steps"]), len(starts), len(ends))
    held, hits = [None, None], 0
    for i, s in enumerate(case["steps"]):
        w = s["buf"]
        mo = models[w]
        now = starts[i][0]
        ok = verdict(s, mo, mem, now, case["sub"], case["thr"])
        (t, name, a), content = ends[i]
        need(name == names[w], "request %d answered by %s", i, name)
        g = None if a == "RETRIEVED: None" else content[w]
        text = "retrieval %d (%s, recently_retrieved=%s, finst %d, recent %s)" % (i, s["req"], s["flag"], mo.finst, [show(k) for k in mo.recent])
        need((g in ok) if ok else g is None, "%s gives %s, allowed %s", text, show(g), [show(k) for k in ok])
        if s["flag"] is not None and mo.finst and any(mo.recent):
            hits += 1
            ctx.label("recent:%s" % (s["flag"],), "found" if g else "none")
        mo.record(g)
        if g is not None:
            if held[w] is not None:
                mem[held[w]] = mem[held[w]] + [t]
            held[w] = g
    ctx.nontrivial(hits)


SUBS = [
    Sub("direct", gen, check_direct, 3000, 100000, "sequences of up to 10 requests with and without restriction over two buffers with their own finst; non-trivial: a restricted request with something recently retrieved", shards=3),
    Sub("simulation", gen, check_sim, 1500, 50000, "the same sequences sent by rules of a running model; same rule", shards=5),
]
