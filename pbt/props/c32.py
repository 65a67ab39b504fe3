"""C32 A model can be simulated again."""
from ..core import Sub, need
from ..lib import *
from .. import worlds as W
from .. import models as M


def gen(rng):
    spec = W.gen_world(rng, utils=[0, 0, 1, 2])
    p = spec["params"]
    if rng.random() < .25:
        p.update(utility_learning=True, subsymbolic=True)
        for r in spec["rules"]:
            if rng.random() < .4:
                r["r"] = rng.choice([5, 10, 0])
    if rng.random() < .15:
        p["production_compilation"] = True
    spec["start"] = rng.choice([0, 0, 0, 1.5, 20, -3])
    return {"model": spec, "visual": rng.choice(["default", "default", "own"]), "start": rng.choice([0, 0, 1.5, 20, -3]), "steps": rng.choice([0, rng.randint(1, 12), rng.randint(3, 60), 150]),
            "drive": rng.choice(["step", "step", "run"]), "memory": rng.choice(["new", "same"]), "runs": rng.choice([1, 1, 2]), "seed": rng.randint(0, 9999)}


def new(case):
    m, env = W.build(case["model"])
    if env is not None and case["visual"] == "own":
        m.visualBuffer("visual", "visual_location", m.decmem)
    return m, env


def walk(case, m, env, limit, how="step"):
    """Events of a new simulation of the model and how it ends."""
    sim = W.simulate(case["model"], m, env, case["start"])
    np.random.seed(case["seed"])
    events, end = [], "cut"
    try:
        if how == "run":
            if limit:
                sim.run(case["start"] + limit * .013)
            return events, end
        while len(events) < limit:
            sim.step()
            e = sim.current_event
            events.append([e.time, e.proc, e.action])
    except simpy.core.EmptySchedule:
        end = "ended"
    except ACTRError as e:
        end = "error " + str(e)[:60]
    return events, end


def restore(case, m, env, focus):
    """Puts into the model what it had before it was simulated."""
    spec = case["model"]
    for n in [n for n in m.productions if n not in {r["n"] for r in spec["rules"]}]:
        del m.productions[n]
    for r in spec["rules"]:
        m.productions[r["n"]]["utility"] = r.get("u") or 0
    for b in W.all_buffers(m).values():
        for c in list(b):
            b.discard(c)
        if b.state == "error":
            b.state = "free"
        if hasattr(b, "recent"):
            b.recent.clear()
        if hasattr(b, "attend_automatic"):
            b.attend_automatic = True
            b.current_focus = focus
    if env is not None:
        env.current_focus = focus
    for name, _, chunk in spec["goals"]:
        if chunk is not None:
            m.goals[name].add(real_chunk(chunk))
    if case["memory"] == "new":
        m.decmems = {}
        m.set_decmem()
    else:
        for c in list(m.decmem):
            del m.decmem[c]
        m.decmem.restricted_number_chunks.clear()
        m.decmem.unrestricted_number_chunks.clear()
    for chunk, ts in spec["dm"]:
        m.decmem.add(real_chunk(chunk), list(ts))
    if env is not None and case["visual"] == "own":
        m.visbuffers["visual"].dm = m.visbuffers["visual_location"].dm = m.decmem


def check(case, ctx):
    m, env = new(case)
    focus = None if env is None else list(env.current_focus)
    params = {k: dict(v) if isinstance(v, dict) else v for k, v in m.model_parameters.items()}
    for _ in range(case["runs"]):
        busy = walk(case, m, env, case["steps"], case["drive"])
        left = {a for b, (c, s) in W.snapshot(m).items() for a, v in s.items() if v == "busy"}
        restore(case, m, env, focus)
        need(m.model_parameters == params, "parameters are %s after a run, and were %s", m.model_parameters, params)
    got = walk(case, m, env, 120)
    state = W.state_of(m)
    m2, env2 = new(case)
    want = walk(case, m2, env2, 120)
    state2 = W.state_of(m2)
    need(m.model_parameters == params, "parameters are %s after a run, and were %s", m.model_parameters, params)
    for i, (a, b) in enumerate(zip(got[0], want[0])):
        need(a == b, "event %d is %s in a model that was simulated before, and %s in a new model", i, a, b)
    need(len(got[0]) == len(want[0]) and got[1] == want[1], "a model that was simulated before goes through %d events (%s), a new model through %d (%s)", len(got[0]), got[1], len(want[0]), want[1])
    for k in state:
        need(state[k] == state2[k], "%s of a model that was simulated before: %s, of a new model: %s", k, state[k], state2[k])
    ctx.label("left unfinished" if left else "left idle")
    for a in left:
        ctx.label("left busy: " + a)
    ctx.label(want[1].split()[0])
    ctx.nontrivial(case["steps"] and len(want[0]) > 5 and (left or busy[1] != "cut"))


SUBS = [Sub("again", gen, check, 4000, 120000,
            "random models of all modules are simulated, abandoned at some point, given their contents back and simulated again; compared with a new model; non-trivial: the former simulation was left with a module busy or ran to its end",
            shards=8, shrink=W.shrink_field("model"))]
