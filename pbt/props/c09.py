"""C09 Symbolic retrieval returns a chunk that satisfies the request, if there is one."""
import copy

from ..core import Sub, need
from ..lib import *
from pyactr import declarative

S = ["a", "b", "c"]
INNER = [{"t": "t2", "s": {"a": "p"}}, {"t": "t2", "s": {"a": "q", "b": "p"}}, {"t": "t3", "s": {"a": "p"}}]
PAR = {"subsymbolic": False, "rule_firing": 0.05, "partial_matching": False, "mismatch_penalty": 1, "latency_factor": 0.1, "latency_exponent": 1, "retrieval_threshold": 0}


def val(rng, none=False):
    r = rng.random()
    if none and r < .15:
        return None
    if r > .8:
        return rng.choice(INNER)
    return rng.choice(["p", "q", "r", "p", "q", 1])


def fact(rng):
    return {"t": rng.choice(["f1", "f2"]), "s": {s: val(rng, True) for s in rng.sample(S, rng.randint(1, 3))}}


def request(rng, vs=("x", "y"), base=None):
    """A request; often derived from a chunk so that it has a chance to succeed."""
    p = {}
    for s in rng.sample(S, rng.randint(1, 3)):
        c = {}
        r = rng.random()
        if r < .35:
            c["v"] = base["s"][s] if base and s in base["s"] and base["s"][s] is not None and rng.random() < .85 else val(rng)
        elif r < .6:
            c["x"] = rng.choice(vs)
            if rng.random() < .1:
                c["v"] = val(rng)
        elif r < .7:
            c["v"] = "None"
        if rng.random() < .25:
            c["nv"] = [val(rng) for _ in range(rng.randint(1, 2))]
            if rng.random() < .2:
                c["nv"].append("None")
        if rng.random() < .15:
            c["nx"] = [rng.choice(vs)]
        if c:
            p[s] = c
    if not p:
        p["a"] = {"x": rng.choice(vs)}
    return {"t": rng.choice(["f1", "f2"]), "s": p}


def substituted(req, pos):
    """Request with variables replaced by their canonical values; None if it asks for two values at once."""
    out = {}
    for s, c in req["s"].items():
        vs = set()
        if c.get("v") is not None:
            vs.add(canon_value(c["v"]))
        if c.get("x"):
            vs.add(pos[c["x"]])
        if len(vs) > 1:
            return None
        out[s] = (vs, {canon_value(v) for v in c.get("nv", ())} | {pos[x] for x in c.get("nx", ())})
    return out


def satisfies(sub, chunk):
    d = dict(chunk[1])
    return all((not vs or d.get(s) in vs) and d.get(s) not in ns for s, (vs, ns) in sub.items())


def gen_mem(rng, now):
    mem, seen = [], set()
    for _ in range(rng.randint(0, 7)):
        f = fact(rng)
        k = canon_spec(f)
        if k in seen or not k[1]:
            continue
        seen.add(k)
        ts = sorted(rng.sample([-20.0, -3.0, -1.5, -0.5], rng.randint(1, 3)))
        if rng.random() < .15:
            ts = [now] if rng.random() < .7 else ts[:1] + [now]
        mem.append([f, ts])
    return mem


def gen_direct(rng):
    now = rng.choice([0, 1.25, 10, 0.1 + 0.2, 0.3])
    mem = gen_mem(rng, now)
    return {"now": now, "mem": mem, "x": val(rng), "y": val(rng), "rf": rng.choice([0.05, 0.2]),
            "old": fact(rng) if rng.random() < .5 else None, "over": rng.random() < .2,
            "reqs": [request(rng, base=rng.choice(mem)[0] if mem else None) for _ in range(rng.randint(1, 3))]}


def check_direct(case, ctx):
    dm = declarative.DecMem()
    model = {}
    for c, ts in case["mem"]:
        for t in ts:
            dm.add(real_chunk(c), t)
        model[canon_spec(c)] = [round(float(t), 4) for t in ts]
    buf = declarative.DecMemBuffer(dm)
    old = case["old"]
    if old is not None:
        buf.add(real_chunk(old))
    par = dict(PAR, rule_firing=case["rf"])
    if case["over"]:      # parameters of the buffer go before those of the model
        par.update(subsymbolic=True, rule_firing=7)
        buf.model_parameters = {"subsymbolic": False, "rule_firing": case["rf"]}
    bound = {"t": "b", "s": {"bx": case["x"], "by": case["y"]}}
    test = real_pattern({"t": "b", "s": {"bx": {"x": "x"}, "by": {"x": "y"}}})
    test.boundvars = {}
    need(test <= real_chunk(bound), "binding the variables failed")
    pos = {"x": canon_value(case["x"]), "y": canon_value(case["y"])}
    for req in case["reqs"]:
        sub = substituted(req, pos)
        real = real_pattern(req)
        call = lambda: buf.retrieve(case["now"], real, dict(test.boundvars), {}, {}, par)
        if sub is None:
            expect_error(call, ACTRError, "request %s with %s" % (req, pos))
            ctx.label("two values")
        else:
            got, extra = call()
            allowed = [k for k, ts in model.items() if satisfies(sub, k) and ts[0] != round(case["now"], 4)]
            ctx.label("several" if len(allowed) > 1 else "one" if allowed else "none")
            if any(satisfies(sub, k) for k in model) and not allowed:
                ctx.label("only stored now")
            ctx.nontrivial(len(model) > 1)
            if allowed:
                need(got is not None, "request %s with %s fails although %s matches", req, pos, [show(k) for k in allowed])
                need(canon_chunk(got) in allowed, "request %s with %s retrieves %s, allowed are %s", req, pos, show(canon_chunk(got)), [show(k) for k in allowed])
                need(extra == 0, "successful symbolic retrieval takes %s", extra)
            else:
                need(got is None, "request %s with %s retrieves %s, which does not satisfy it or was stored now", req, pos, got)
                need(extra == case["rf"], "failed symbolic retrieval takes %s, expected the rule-firing time %s", extra, case["rf"])
        need(dm_canon(dm) == model, "a retrieval changed the memory: %s", dm)
        need(buf_canon(buf) == (None if old is None else canon_spec(old)), "computing a retrieval changed the buffer: %s", buf)

# ------------------------------------------------------------------ in simulations


def gen_sim(rng):
    rf = rng.choice([0.05, 0.05, 0.1])
    start = rng.choice([0, 0, 3.0])
    mem = gen_mem(rng, rng.choice([round(start + rf, 4), round(start + 2 * rf, 4)]))
    steps = []
    for i in range(rng.randint(1, 5)):
        r = rng.random()
        if r < .75 or not steps:
            steps.append({"k": "req", "p": request(rng, base=rng.choice(mem)[0] if mem else None)})
        elif r < .9:
            steps.append({"k": "mod", "p": {"t": "f1", "s": {rng.choice(S): {"v": val(rng)}}}})
        else:
            steps.append({"k": "clear"})
    return {"rf": rf, "start": start, "mem": mem, "x": val(rng), "y": val(rng), "steps": steps,
            "old": fact(rng) if rng.random() < .4 else None, "name": rng.choice(["retrieval", "retrieval", "mem2"])}


def check_sim(case, ctx):
    m = new_model(rule_firing=case["rf"])
    name = case["name"]
    buf = m.retrieval if name == "retrieval" else m.set_retrieval(name)
    model = {}
    for c, ts in case["mem"]:
        m.decmem.add(real_chunk(c), list(ts))
        model[canon_spec(c)] = [round(float(t), 4) for t in ts]
    cur = None
    if case["old"] is not None:
        buf.dm = m.decmem
        buf.add(real_chunk(case["old"]), -1)
        cur = canon_spec(case["old"])
    m.goal.add(real_chunk({"t": "b", "s": {"step": "n0", "bx": case["x"], "by": case["y"]}}))
    steps = case["steps"]
    pos = {"x": canon_value(case["x"]), "y": canon_value(case["y"])}
    # expected course, adopting the choice among several matching chunks
    for st_ in steps:
        if st_["k"] == "req" and substituted(st_["p"], pos) is None:
            return      # rejected requests are covered by the other sub

    def rules():
        for i, s in enumerate(steps):
            kinds = [("free", {"state": "free"}), ("error", {"state": "error"})]
            for k, q in kinds:
                def lhs(i=i, q=q, s=s):
                    d = {"=g": real_pattern({"t": "b", "s": {"step": {"v": "n%d" % i}, "bx": {"x": "x"}, "by": {"x": "y"}}}), "?" + name: dict(q)}
                    if s["k"] == "mod":
                        d["=" + name] = real_pattern({"t": "f1", "s": {"a": {}}})
                    return d

                def rhs(i=i, s=s):
                    d = {"=g": real_pattern({"t": "b", "s": {"step": {"v": "n%d" % (i + 1)}}})}
                    if s["k"] == "req":
                        d["+" + name] = real_pattern(s["p"])
                    elif s["k"] == "mod":
                        d["=" + name] = real_pattern(s["p"])
                    else:
                        d["~" + name] = None
                    return d
                yield make_rule("s%d_%s" % (i, k), lhs, rhs)
    m.set_productions(*rules())
    sim = new_sim(m, initial_time=case["start"])
    seen = []

    def on(ev):
        seen.append((ev, buf_canon(buf), buf.state))
    drive(sim, 200, on_event=on)
    it = iter(seen)

    def nxt(*acts):
        """Next event among acts; others of the procedural cycle are skipped."""
        for (t, proc, act), content, state in it:
            if any(act.startswith(a) for a in acts):
                return t, act, content, state
        return None, None, None, None
    now, state = case["start"], "free"
    for i, s in enumerate(steps):
        if s["k"] == "mod" and cur is None:
            t, act, _, _ = nxt("RULE FIRED")
            need(act is None, "rule %s fired with nothing in the buffer", act)
            break
        t, act, _, _ = nxt("RULE FIRED")
        now = now + case["rf"]
        need(act == "RULE FIRED: s%d_%s" % (i, state), "step %d: %s at %s, expected the rule for state %s", i, act, t, state)
        need(tclose(t, now), "step %d fires at %s, expected %s", i, t, now)
        if s["k"] == "mod":
            d = dict(cur[1])
            d.update({k: canon_value(c["v"]) for k, c in s["p"]["s"].items()})
            cur = ("chunk", frozenset(d.items()))
            state = "free"
        elif s["k"] == "clear":
            if cur is not None:
                model.setdefault(cur, []).append(round(now, 4))
            cur, state = None, "free"
        else:
            sub = substituted(s["p"], pos)
            t, act, content, stt = nxt("START RETRIEVAL")
            need(act and tclose(t, now), "step %d: retrieval starts at %s, expected %s", i, t, now)
            need(content == cur and stt == "busy", "step %d: at the start of retrieval the buffer holds %s in state %s", i, show(content), stt)
            t, act, content, stt = nxt("RETRIEVED: ")
            need(act, "step %d: retrieval never ends", i)
            allowed = [k for k, ts in model.items() if satisfies(sub, k) and not tclose(ts[0], now, 1e-6)]
            ctx.label("several" if len(allowed) > 1 else "one" if allowed else "none")
            ctx.nontrivial(len(model) > 1)
            if allowed:
                need(tclose(t, now), "step %d: retrieved at %s, expected %s", i, t, now)
                need(content in allowed and stt == "free", "step %d: request %s with %s puts %s (%s) into the buffer, allowed are %s", i, s["p"], pos, show(content), stt, [show(k) for k in allowed])
                if cur is not None:
                    model.setdefault(cur, []).append(round(now, 4))
                    ctx.label("replaced")
                cur, state = content, "free"
            else:
                now = now + case["rf"]
                need(act == "RETRIEVED: None" and tclose(t, now), "step %d: %s at %s, expected a failure at %s", i, act, t, now)
                need(content == cur and stt == "error", "step %d: after the failure the buffer holds %s in state %s, expected %s in state error", i, show(content), stt, show(cur))
                state = "error"
    else:
        t, act, _, _ = nxt("RULE FIRED")
        need(act is None, "rule %s fired at the end", act)
    need(buf_canon(buf) == cur, "in the end the buffer holds %s, expected %s", buf, show(cur))
    got = dm_canon(m.decmem)
    need(set(got) == set(model), "in the end memory holds %s, expected %s", [show(k) for k in got], [show(k) for k in model])
    for k in got:
        need(len(got[k]) == len(model[k]) and all(tclose(a, b) for a, b in zip(got[k], model[k])), "in the end %s has times %s, expected %s", show(k), got[k], model[k])


SUBS = [
    Sub("direct", gen_direct, check_direct, 6000, 250000, "memory of up to 7 chunks, requests with values, variables and negations over it; non-trivial: more than one chunk in memory", shards=3),
    Sub("simulation", gen_sim, check_sim, 2000, 60000, "chains of up to 5 requests, modifications and clearings of the retrieval buffer in a running model; non-trivial: a request over more than one chunk", shards=5),
]
