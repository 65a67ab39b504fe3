"""C12 Spreading activation reflects the current buffers and memory."""
from ..core import Sub, need
from ..lib import *
from .. import act
from pyactr import declarative, goals

IN = [{"t": "t2", "s": {"a": "p"}}, {"t": "t2", "s": {"a": "q"}}, {"t": "t2", "s": {"a": "p", "b": "q"}}]
BUFS = ["g", "im", "retrieval"]
PAR = {"subsymbolic": True, "partial_matching": False, "mismatch_penalty": 1, "baselevel_learning": False, "decay": 0.5, "optimized_learning": False,
       "instantaneous_noise": 0, "activation_trace": False, "retrieval_threshold": -1e9, "latency_factor": 1.0, "latency_exponent": 0.0, "rule_firing": 0.05}


def val(rng):
    return rng.choice(IN) if rng.random() < .65 else rng.choice(["p", "q", 1, None])


def content(rng):
    return {"t": "t1", "s": {s: val(rng) for s in rng.sample(["a", "b", "c", "d"], rng.randint(1, 4))}}


def gen(rng):
    ops = []
    n = 0
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        if r < .5 or n < 2:
            k = rng.random()
            if k < .1:
                c = rng.choice(IN)         # a source that is itself in memory
            elif k < .25 and n:
                c = "again"
            else:
                c = content(rng)
            ops.append({"op": "mem", "c": c, "i": rng.randint(0, 5), "how": rng.choice(["add", "add", "list", "set"])})
            n += 1
        elif r < .8:
            ops.append({"op": "buf", "b": rng.choice(BUFS), "c": content(rng) if rng.random() < .85 else None})
        else:
            ops.append({"op": "check", "restricted": rng.random() < .4, "only": rng.random() < .6})
    ops.append({"op": "check", "restricted": rng.random() < .4, "only": rng.random() < .6})
    return {"ops": [{"op": "buf", "b": "g", "c": content(rng)}] + ops, "S": rng.choice([0, 1, 2.5, 4]),
            "w": {b: rng.choice([1, 0.5, 2, 0]) for b in rng.sample(BUFS, rng.randint(1, 3))}}


def check(case, ctx):
    dm = declarative.DecMem()
    bufs = {"g": goals.Goal(None, dm), "im": goals.Goal(None, dm), "retrieval": declarative.DecMemBuffer(dm)}
    model = []           # canonical chunks in memory
    cont = {b: None for b in bufs}
    assoc = checks = 0
    for i, op in enumerate(case["ops"]):
        if op["op"] == "mem":
            c = op["c"]
            if c == "again":
                if not model:
                    continue
                k = model[op["i"] % len(model)]
                real = [x for x in dm if canon_chunk(x) == k][0]
            else:
                real, k = real_chunk(c), canon_spec(c)
            if not k[1]:
                continue
            if op["how"] == "set":
                dm[real] = 0
            else:
                dm.add([real] if op["how"] == "list" else real, 0)
            if k not in model:
                model.append(k)
        elif op["op"] == "buf":
            b = bufs[op["b"]]
            old = cont[op["b"]]
            if op["b"] == "retrieval" and old is not None and old not in model:
                model.append(old)
            if op["c"] is None or not canon_spec(op["c"])[1]:
                if op["b"] != "retrieval" and old is not None and old not in model:
                    model.append(old)
                b.clear(0)
                cont[op["b"]] = None
            else:
                b.add(real_chunk(op["c"])) if op["b"] != "retrieval" else b.add(real_chunk(op["c"]), 0)
                cont[op["b"]] = canon_spec(op["c"])
        else:
            par = dict(PAR, strength_of_association=case["S"], association_only_from_chunks=op["only"], buffer_spreading_activation=case["w"],
                       spreading_activation_restricted=op["restricted"])
            reader = declarative.DecMemBuffer(dm)
            for k in model:
                # a request that only this chunk satisfies: every slot is mentioned
                chunk = [x for x in dm if canon_chunk(x) == k][0]
                p = {"t": "any", "s": {}}
                d = dict(k[1])
                for s in ("a", "b", "c", "d"):
                    p["s"][s] = {"v": "None"}
                pat = Chunk("any", **{s: Varval(values=parts(dict(chunk)[s])[0] if s in d else "None", variables=None, negvalues=(), negvariables=()) for s in ("a", "b", "c", "d")})
                got, _ = reader.retrieve(1, pat, {}, bufs, {}, par)
                need(got is not None and canon_chunk(got) == k, "step %d: request for %s retrieves %s", i, show(k), got)
                want = act.spread(k, cont, case["w"], model, case["S"], op["restricted"], op["only"])
                need(close(reader.activation, want), "step %d: activation spread to %s from %s (weights %s, S %s, restricted %s, only chunks %s, memory %s) is %s, expected %s", i, show(k),
                     {b: show(c) for b, c in cont.items() if c}, case["w"], case["S"], op["restricted"], op["only"], [show(x) for x in model], reader.activation, want)
                if want != 0:
                    assoc += 1
            checks += 1
            need(set(dm_canon(dm)) == set(model), "memory changed to %s", dm)
    ctx.label("associations" if assoc else "-", "checked=%d" % min(checks, 4))
    ctx.nontrivial(assoc and len(model) > 1)


SUBS = [Sub("growing", gen, check, 1800, 60000,
            "histories of storing chunks, changing three buffers and computing the activation spread to every chunk in memory; non-trivial: some association between a source and a chunk in a memory of several", shards=6)]
