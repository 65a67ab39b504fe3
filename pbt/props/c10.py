"""C10 Subsymbolic retrieval picks the most active match with the right latency."""
import contextlib
import io
import math

from ..core import Sub, need
from ..lib import *
from .. import act

PARTS = {"Base level learning: ": "base", "Spreading activation ": "spread", "Partial matching ": "partial", "Noise: ": "noise", "Total activation ": "total", "Time to retrieve ": "time"}
IN = [{"t": "t2", "s": {"a": "p"}}, {"t": "t2", "s": {"a": "q"}}]
S = ["a", "b", "c"]


def val(rng, p=.35):
    return rng.choice(IN) if rng.random() < p else rng.choice(["p", "q", "r"])


def gen(rng):
    rf = rng.choice([0.05, 0.05, 0.2])
    start = rng.choice([0, 0, 5.0, 0.3])
    mem, seen = [], set()
    for i in range(rng.choice([1, 2, 3, 4, 6, 8])):
        c = {"t": "f", "s": {s: val(rng) for s in rng.sample(S, rng.randint(1, 3))}}
        k = repr(sorted(map(repr, canon_spec(c)[1])))
        if k in seen:
            continue
        seen.add(k)
        ts = [round(start - rng.choice([0.0, 0.1, 1, 5, rng.uniform(0.01, 30)]), 4) for _ in range(rng.choice([1, 1, 2, 4]))]
        if rng.random() < .08:
            ts = [round(start + rf, 4)]
        mem.append([c, ts, rng.choice([None] * 5 + [0, 1.0, -1.5, 2.5])])
    cond = {}
    base = rng.choice(mem)[0]["s"]
    for s in rng.sample(S, rng.choice([1, 1, 2])):
        r = rng.random()
        cond[s] = {"v": base[s] if s in base and rng.random() < .8 else val(rng)} if r < .45 else {"x": rng.choice("xy")} if r < .75 else {"nv": [val(rng)]} if r < .9 else {"nx": [rng.choice("xy")]}
    par = {"subsymbolic": True, "rule_firing": rf, "baselevel_learning": rng.random() < .75, "optimized_learning": rng.random() < .3, "decay": rng.choice([0.5, 0.5, 0.3]),
           "latency_factor": rng.choice([0.1, 1.0, 3.0, 0.35]), "latency_exponent": rng.choice([1.0, 1.0, 0.5, 2.0]), "retrieval_threshold": rng.choice([-20, -20, 0, -1, 0.5, -2, 1]),
           "partial_matching": rng.random() < .4, "mismatch_penalty": rng.choice([1, 0.5, 2, 1.5]), "strength_of_association": rng.choice([0, 2, 3.5]),
           "spreading_activation_restricted": rng.random() < .3, "association_only_from_chunks": rng.random() < .6}
    if rng.random() < .6:
        par["buffer_spreading_activation"] = {b: rng.choice([1, 0.5, 2]) for b in rng.sample(["g", "im"], rng.randint(1, 2))}
    over = {}
    if rng.random() < .3:
        for k in rng.sample(["latency_factor", "latency_exponent", "retrieval_threshold", "partial_matching", "decay", "mismatch_penalty", "baselevel_learning", "subsymbolic", "strength_of_association"], rng.randint(1, 3)):
            over[k] = {"latency_factor": 0.7, "latency_exponent": 1.3, "retrieval_threshold": -5, "partial_matching": True, "decay": 0.7, "mismatch_penalty": 0.25,
                       "baselevel_learning": False, "subsymbolic": True, "strength_of_association": 1}[k]
        if "subsymbolic" in over:
            par["subsymbolic"] = False
    sims = [[val(rng), val(rng), rng.choice([0, -0.2, -0.7, -3])] for _ in range(rng.randint(0, 3))]
    return {"start": start, "mem": mem, "req": cond, "par": par, "over": over, "sims": sims, "x": val(rng), "y": val(rng), "z": val(rng),
            "im": {s: val(rng, .7) for s in rng.sample(S, 2)} if rng.random() < .6 else None, "second": rng.random() < .3, "trace": rng.random() < .25}


def check(case, ctx):
    par = dict(case["par"])
    m = new_model(**par, activation_trace=case.get("trace", False))
    m.retrieval.model_parameters.update(case["over"])
    eff = dict(pyactr.ACTRModel.MODEL_PARAMETERS, **par)
    eff.update(case["over"])
    table = {}
    for a, b, v in case["sims"]:
        if canon_value(a) != canon_value(b):
            m.set_similarities(real_value(a), real_value(b), v)
            table[frozenset([canon_value(a), canon_value(b)])] = v
    mem = {}
    for c, ts, manual in case["mem"]:
        for t in ts:
            m.decmem.add(real_chunk(c), t)
        if manual is not None:
            m.decmem.add_activation(real_chunk(c), manual)
        mem[canon_spec(c)] = (list(ts), manual)
    gspec = {"t": "go", "s": {"step": "n0", "gx": case["x"], "gy": case["y"], "gz": case["z"]}}
    m.goal.add(real_chunk(gspec))
    im = m.set_goal("im")
    imspec = None
    if case["im"]:
        imspec = {"t": "img", "s": case["im"]}
        im.add(real_chunk(imspec))
    req = {"t": "f", "s": case["req"]}
    n = 2 if case["second"] else 1

    def rule(i, q):
        def lhs():
            return {"=g": real_pattern({"t": "go", "s": {"step": {"v": "n%d" % i}, "gx": {"x": "x"}, "gy": {"x": "y"}}}), "?retrieval": {"state": q}}

        def rhs():
            return {"=g": real_pattern({"t": "go", "s": {"step": {"v": "n%d" % (i + 1)}}}), "+retrieval": real_pattern(req)}
        return make_rule("r%d%s" % (i, q), lhs, rhs)
    m.set_productions(*[rule(i, q) for i in range(n) for q in ("free", "error")])
    sim = new_sim(m, initial_time=case["start"])
    seen = []
    printed = []

    def note(ev):
        seen.append((ev, buf_canon(m.retrieval), m.retrieval.state, m.retrieval.activation))
        if ev[2].startswith("RETRIEVED: "):
            printed.append(out.getvalue())
            out.truncate(0)
            out.seek(0)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        drive(sim, 120, on_event=note)
    pos = {"x": canon_value(case["x"]), "y": canon_value(case["y"])}
    sub = {}
    for s, c in case["req"].items():
        vs = {canon_value(c["v"])} if "v" in c else {pos[c["x"]]} if "x" in c else set()
        sub[s] = (vs, {canon_value(v) for v in c.get("nv", ())} | {pos[x] for x in c.get("nx", ())})
    g = dict(canon_spec(gspec)[1])
    now = case["start"]
    held = None
    for i in range(n):
        now = now + par["rule_firing"]
        g["step"] = "n%d" % (i + 1)
        bufs = {"g": ("chunk", frozenset(g.items())), "im": None if imspec is None else canon_spec(imspec)}
        scores = {}
        for k, (ts, manual) in mem.items():
            if not eff["partial_matching"] and not act.matches(sub, k):
                continue
            b = act.base_level(round(now, 4), ts, eff["baselevel_learning"], eff["decay"], eff["optimized_learning"], manual)
            if b is None:
                continue
            a = b + act.spread(k, bufs, eff["buffer_spreading_activation"], mem, eff["strength_of_association"], eff["spreading_activation_restricted"], eff["association_only_from_chunks"])
            if eff["partial_matching"]:
                a += act.mismatch(sub, k, table, eff["mismatch_penalty"])
            scores[k] = a
        top = max(scores.values()) if scores else None
        starts = [j for j, (ev, *_ ) in enumerate(seen) if ev[2] == "START RETRIEVAL"]
        ends = [j for j, (ev, *_ ) in enumerate(seen) if ev[2].startswith("RETRIEVED: ")]
        need(len(starts) > i and len(ends) > i, "request %d does not lead to a retrieval: %s", i, [e for e, *_ in seen])
        (ev0, *_), (ev1, content, state, activation) = seen[starts[i]], seen[ends[i]]
        need(tclose(ev0[0], now), "retrieval %d starts at %s, expected %s", i, ev0[0], now)
        text = "request %s with %s, activations %s, threshold %s" % (case["req"], pos, {show(k): round(v, 4) for k, v in scores.items()}, eff["retrieval_threshold"])
        thr = eff["retrieval_threshold"]
        if top is not None and abs(top - thr) < 1e-7 and not (top == thr and float(top).is_integer()):
            return
        if top is not None and top >= thr:
            lat = eff["latency_factor"] * math.exp(-eff["latency_exponent"] * top)
            best = {k for k, v in scores.items() if v > top - 1e-7}
            need(content in best, "%s: retrieved %s (%s)", text, show(content), ev1[2])
            need(state == "free", "%s: state after success is %s", text, state)
            need(close(activation, scores[content], 1e-7), "%s: recorded activation %s", text, activation)
            if case.get("trace"):
                shown = {}
                for line in printed[i].splitlines():
                    for head, part in PARTS.items():
                        if line.startswith(head):
                            shown[part] = float(line[len(head):])
                need(set(shown) == set(PARTS.values()), "%s: the activation trace is %s", text, printed[i])
                want = {"total": scores[content], "time": lat, "noise": 0, "base": act.base_level(round(now, 4), mem[content][0], eff["baselevel_learning"], eff["decay"], eff["optimized_learning"], mem[content][1])}
                want["partial"] = act.mismatch(sub, content, table, eff["mismatch_penalty"]) if eff["partial_matching"] else 0
                want["spread"] = want["total"] - want["base"] - want["partial"]
                need(all(close(shown[k], want[k], 1e-6) for k in want), "%s: the activation trace is %s, expected %s", text, shown, want)
                ctx.label("activation trace")
            else:
                need(not printed[i].strip(), "%s was printed although tracing is off", printed[i])
            ctx.label("success", "runner-up" if len(scores) > 1 else "only one")
            ctx.nontrivial(len(scores) > 1)
            if held is not None:
                mem.setdefault(held, ([], None))[0].append(round(now + lat, 4))
            held = content
        else:
            lat = eff["latency_factor"] * math.exp(-eff["latency_exponent"] * thr)
            need(ev1[2] == "RETRIEVED: None" and state == "error" and content == held, "%s: %s, buffer %s, state %s", text, ev1[2], show(content), state)
            ctx.label("failure", "below threshold" if scores else "no match")
            ctx.nontrivial(bool(scores))
        need(tclose(ev1[0] - ev0[0], lat, 2.1e-4 + 1e-9 * lat), "%s: latency is %.4f, expected %.4f", text, ev1[0] - ev0[0], lat)
        if lat > 1e5:
            return
        now = ev1[0] if i + 1 == n else round(now + lat, 4)
    ctx.label("partial" if eff["partial_matching"] else "exact", "override" if case["over"] else "-", "spreading" if eff["buffer_spreading_activation"] else "no spreading")


SUBS = [Sub("retrieval", gen, check, 6000, 120000,
            "one or two retrievals in a running model over memories of up to 8 chunks with all activation components; non-trivial: several candidates, or one below the threshold", shards=8)]
