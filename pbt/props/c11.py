"""C11 Base-level activation follows the ACT-R equation."""
import math

from ..core import Sub, need
from ..lib import *
from .. import act
from pyactr import declarative

PAR = {"subsymbolic": True, "partial_matching": False, "mismatch_penalty": 1, "strength_of_association": 0, "association_only_from_chunks": True,
       "buffer_spreading_activation": {}, "spreading_activation_restricted": False, "instantaneous_noise": 0, "activation_trace": False,
       "retrieval_threshold": -1e9, "latency_factor": 1.0, "latency_exponent": 0.0, "rule_firing": 0.05}


def gen(rng):
    now = rng.choice([0, 0.05, 1, 2.5, 10.0, 123.4567, 0.1 + 0.2, 1e4])
    hist = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 12, 40]) if rng.random() < .99 else rng.randint(1000, 5000)):
        r = rng.random()
        age = 0 if r < .15 else rng.choice([0.0001, 0.001, 0.05, 1, 3600, 1e6]) if r < .5 else round(rng.uniform(0.0001, 50), rng.choice([1, 4, 6]))
        hist.append(round(now - age, rng.choice([4, 4, 8])))
    rng.shuffle(hist)
    return {"now": now, "hist": hist, "decay": rng.choice([0.5, 0.5, 0.5, 0.1, 0.9, 0.25, 0.0] + [round(rng.uniform(0, 0.99), 3)]),
            "bll": rng.random() < .9, "opt": rng.random() < .4, "manual": rng.choice([None, None, None, 0, 1.5, -2, 3]),
            "route": rng.choice(["add", "add", "list", "set", "sim"]), "more": round(rng.uniform(0.001, 20), 4), "dt": rng.choice([0.0001, 0.05, 7, 1000.0])}


def measure(hist, case, now):
    """Activation and extra time with which the only chunk of a memory is retrieved, None if it is not."""
    dm = declarative.DecMem()
    c = real_chunk({"t": "t1", "s": {"a": "p"}})
    if case["route"] == "set":
        dm[c] = np.array([round(t, 4) for t in hist])
    elif case["route"] == "list":
        dm.add(c, list(round(t, 4) for t in hist))
    else:
        for t in hist:
            dm.add(c, t)
    if case["manual"] is not None:
        dm.add_activation(c, case["manual"])
    par = dict(PAR, baselevel_learning=case["bll"], decay=case["decay"], optimized_learning=case["opt"])
    if case["route"] == "sim":
        m = new_model(**{k: par[k] for k in par if k != "rule_firing"}, rule_firing=0)
        m.decmems["decmem"] = dm
        request_once(m, lambda: real_pattern({"t": "t1", "s": {"a": {"v": "p"}}}))
        tr = drive(new_sim(m, initial_time=now), 40)
        _, t, what = retrieval_outcome(tr)
        need(t is not None, "no retrieval happens: %s", tr.events)
        return None if what == "None" else m.retrieval.activation
    b = declarative.DecMemBuffer(dm)
    before = dm_canon(dm)
    got, _ = b.retrieve(now, real_pattern({"t": "t1", "s": {"a": {"v": "p"}}}), {}, {}, {}, par)
    need(dm_canon(dm) == before, "computing the base level changed the history from %s to %s", before, dm_canon(dm))
    return None if got is None else b.activation


def check(case, ctx):
    now = round(case["now"], 4)
    hist = [round(t, 4) for t in case["hist"]]
    par = dict(bll=case["bll"], decay=case["decay"], optimized=case["opt"])
    want = act.base_level(now, hist, manual=case["manual"], **par)
    got = measure(case["hist"], case, case["now"])
    text = "base level for presentations %s at %s (decay %s, bll %s, optimized %s, manual %s)" % (sorted(hist), now, case["decay"], case["bll"], case["opt"], case["manual"])
    if want is None:
        need(got is None, "%s is %s although every presentation is at the present moment", text, got)
        ctx.label("only present")
        return
    need(got is not None, "%s: chunk is not retrieved, expected activation %s", text, want)
    need(close(got, want, 1e-7), "%s is %s, expected %s", text, got, want)
    present = sum(t == now for t in hist)
    ctx.label("present=%d" % min(present, 2), "opt" if case["opt"] else "-", "manual" if case["manual"] is not None else "-")
    ctx.nontrivial(case["bll"] and len(hist) > 1)
    if not case["bll"]:
        return
    # metamorphic relations
    more = measure(case["hist"] + [case["now"] - case["more"]], case, case["now"])
    need(more is not None and more >= got - 1e-12, "%s falls from %s to %s by one more presentation %s ago", text, got, more, case["more"])
    past = [t for t in case["hist"] if round(t, 4) < now]
    later = measure(past, case, case["now"] + case["dt"]) if past else None
    need(not past or later is not None and later <= got + 1e-12, "%s rises from %s to %s when %s passes", text, got, later, case["dt"])
    perm = measure(list(reversed(case["hist"])), case, case["now"])
    need(perm is not None and close(perm, got, 1e-9), "%s depends on the order of presentations: %s, %s", text, got, perm)


SUBS = [Sub("history", gen, check, 4000, 150000,
            "presentation histories of up to 40 times including the present moment, decay, learning modes and manual activation; closed formula and metamorphic relations; non-trivial: base-level learning with several presentations", shards=6)]
