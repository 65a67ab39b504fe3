"""C28 Models do not influence one another."""
import copy

from ..core import Sub, need, reset_globals, canon_json
from ..lib import *
from .. import models as M, worlds as W

PV = M.PV
STEPS = 70


def gen_life(rng):
    spec = W.gen_world(rng, utils=[0, 0, 1, 2], rewards=(None, None, None, 5, 2.5), env=rng.random() < .35, feats=("im", "retrieval", "goalset", "star", "strict", "nx") + (("finst",) if rng.random() < .5 else ()))
    spec["finst"] = rng.choice([1, 2, 3, 4]) if spec["finst"] or rng.random() < .2 else 0
    p = spec["params"]
    p.update(emma_noise=False, instantaneous_noise=0, utility_noise=0)
    if rng.random() < .5:
        p["utility_learning"] = True
    if rng.random() < .3:
        p["production_compilation"] = True
    if rng.random() < .6:
        p.update(subsymbolic=True, retrieval_threshold=rng.choice([-5, -3, 0]), partial_matching=rng.random() < .75, mismatch_penalty=rng.choice([1, 1, .5, 2]), latency_factor=rng.choice([.1, .05, .03]))
        if rng.random() < .5:
            p["strength_of_association"] = 2
    if rng.random() < .3:
        p[rng.choice(["decay", "latency_exponent"])] = rng.choice([.3, .6, .8])
    spec["sims"] = [[rng.choice(PV), rng.choice(PV), -rng.choice([0, .1, .5, 2, 7])] for _ in range(rng.choice([0, 0, 2, 4]))]
    spec["sims"] = [s for s in spec["sims"] if s[0] != s[1]]
    spec["spread"] = rng.choice([None, None, 1, 2]) if p.get("strength_of_association") else None
    spec["confs"] = {}
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        k = rng.random()
        if k < .25:
            c = ["sim", rng.choice(PV), rng.choice(PV), -rng.choice([.1, 3])]
        elif k < .45:
            c = ["param", *rng.choice([["rule_firing", .08], ["latency_factor", .2], ["utility_alpha", .5], ["strict_harvesting", True], ["mismatch_penalty", 3], ["retrieval_threshold", -1], ["motor_prepared", True], ["decay", .2]])]
        elif k < .55:
            c = ["utility", rng.randint(0, 5), rng.choice([3, -2])]
        elif k < .7:
            c = ["fact", {"a": rng.choice(PV), "b": rng.choice(PV)}]
        elif k < .85:
            c = ["goal", {"s": "s%d" % rng.randint(0, 2), "a": rng.choice(PV)}]
        else:
            c = ["spread", rng.choice([.5, 3])]
        spec["confs"].setdefault(str(rng.randint(0, 25)), []).append(c)
    spec["form"] = rng.choice(["func", "text", "unnamed"])
    spec["twice"] = rng.random() < .2
    spec["later"] = rng.random() < .25        # parameters are set on the finished model
    return spec


def gen(rng):
    n = 2 if rng.random() < .8 else 3
    lives = [gen_life(rng) for _ in range(n)]
    if rng.random() < .3:       # the same model with other settings
        q = lives[0]["params"]
        lives[1] = copy.deepcopy(lives[0])
        lives[1]["params"] = {**q, "rule_firing": .11, "latency_factor": .3}
        lives[1]["sims"] = [[a, b, v * 2 - .3] for a, b, v in lives[0]["sims"]]
        for r in lives[1]["rules"]:
            r["u"] = rng.choice([0, 1, 2])
    order = []
    for _ in range(rng.randint(10, 120)):
        order += [rng.randrange(n)] * rng.choice([1, 1, 2, 5])
    return {"lives": lives, "order": order}


def live(spec, log):
    """One model, from its construction to its end; yields between the stages."""
    env = W.make_env(spec["env"]) if spec["env"] else None
    if spec.get("later"):
        m = pyactr.ACTRModel() if env is None else pyactr.ACTRModel(environment=env)
        yield
        for k, v in sorted(copy.deepcopy(spec["params"]).items()):
            m.model_parameters[k] = v
            yield
    else:
        m = new_model(environment=env, **copy.deepcopy(spec["params"]))
        yield
    for name, delay, chunk in spec["goals"]:
        g = m.goals["g"] if name == "g" else m.set_goal(name, delay)
        yield
        if chunk is not None:
            g.add(real_chunk(chunk))
            yield
    for chunk, ts in spec["dm"]:
        m.decmem.add(real_chunk(chunk), list(ts))
        yield
    if spec["finst"]:
        m.retrieval.finst = spec["finst"]
        yield
    if spec["spread"]:
        m.model_parameters["buffer_spreading_activation"]["g"] = spec["spread"]
        yield
    if spec["form"] in ("text", "unnamed"):
        for r in spec["rules"]:
            m.productionstring(name="" if spec["form"] == "unnamed" else r["n"], string=M.rule_text(r), utility=r["u"], reward=r["r"])
            yield
    else:
        M.add_rules(m, spec["rules"])
        yield
    for a, b, v in spec["sims"]:
        m.set_similarities(a, b, v)
        yield

    def confs(i):
        for c in spec["confs"].get(str(i), []):
            if c[0] == "sim":
                if c[1] != c[2]:
                    m.set_similarities(*c[1:])
            elif c[0] == "param":
                m.model_parameters[c[1]] = c[2]
            elif c[0] == "utility":
                names = list(m.productions)
                m.productions[names[c[1] % len(names)]]["utility"] = c[2]
            elif c[0] == "fact":
                m.decmem.add(Chunk("fact", **c[1]), sim.show_time())
            elif c[0] == "goal":
                m.goals["g"].add(Chunk("go", **c[1]))
            elif c[0] == "spread":
                m.model_parameters["buffer_spreading_activation"]["g"] = c[1]
            yield

    for again in range(2 if spec["twice"] else 1):
        sim = W.simulate(spec, m, env)
        yield
        try:
            for i in range(STEPS):
                yield from confs(i)
                sim.step()
                e = sim.current_event
                log.append([e.time, e.proc, e.action])
                yield
                if i % 10 == 5:
                    log.append(W.state_of(m))
            log.append("cut")
        except simpy.core.EmptySchedule:
            log.append("ended")
        except ACTRError as e:
            log.append("error " + str(e)[:60])
            break
        yield
    log.append(W.state_of(m))
    log.append({k: repr(v) for k, v in sorted(m.model_parameters.items())})
    log.append({n: [rule_sides(m.productions[n]), m.productions[n]["reward"]] for n in m.productions})


def rule_sides(rule):
    return [sorted((k, repr(v) if isinstance(v, Chunk) else canon_json(v)) for k, v in side.items()) for side in rule["rule"]()]


def run(lives, order):
    reset_globals(7)
    W.declare(None)
    before = copy.deepcopy(pyactr.ACTRModel.MODEL_PARAMETERS)
    fresh = pyactr.ACTRModel().model_parameters
    need({k: fresh.get(k) for k in DEFAULTS} == DEFAULTS, "parameters that are not given do not have their documented values: %s", {k: fresh.get(k) for k in DEFAULTS if fresh.get(k) != DEFAULTS[k]})
    logs = [[] for _ in lives]
    going = {i: live(s, logs[i]) for i, s in enumerate(lives) if s is not None}
    for i in list(order) + [i for i in sorted(going) for _ in range(1000)]:
        if i in going:
            try:
                next(going[i])
            except StopIteration:
                del going[i]
    after = pyactr.ACTRModel.MODEL_PARAMETERS
    need(before == after, "the default parameters change: %s", {k: after.get(k) for k in {**before, **after} if after.get(k) != before.get(k)})
    return logs


def check(case, ctx):
    lives = case["lives"]
    together = run(lives, case["order"])
    for i, spec in enumerate(lives):
        alone = run([s if j == i else None for j, s in enumerate(lives)], [])[i]
        for a, b in zip(alone, together[i]):
            need(a == b, "model %s alone: %s\nwith the other model(s): %s", i, a, b)
        need(len(alone) == len(together[i]), "model %s does %s alone and %s with the other model(s)", i, alone[-1], together[i][-1])
    ctx.label("%d models" % len(lives), *["rejected" for log in together if any(isinstance(x, str) and x.startswith("error") for x in log)],
              *["sims" for s in lives if s["sims"] and s["params"].get("partial_matching")], *["retrieval" for log in together if any(isinstance(x, list) and str(x[2]).startswith("RETRIEVED: f") for x in log)])
    ctx.nontrivial(sum(any(isinstance(x, list) and str(x[2]).startswith("RULE FIRED") for x in log) for log in together) >= 2)


def shrink(case):
    for i, s in enumerate(case["lives"]):
        if len(case["lives"]) > 2:
            yield {"lives": case["lives"][:i] + case["lives"][i + 1:], "order": [o - (o > i) for o in case["order"] if o != i]}
        for x in W.shrink_world(s):
            yield {**case, "lives": case["lives"][:i] + [x] + case["lives"][i + 1:]}
        for k, v in (("sims", []), ("confs", {}), ("spread", None), ("form", "func"), ("twice", False), ("later", False)):
            if s.get(k, v) != v:
                yield {**case, "lives": case["lives"][:i] + [{**s, k: v}] + case["lives"][i + 1:]}
    o = case["order"]
    for a in range(0, len(o), max(1, len(o) // 4)):
        yield {**case, "order": o[:a] + o[a + max(1, len(o) // 4):]}


SUBS = [Sub("interleaved", gen, check, 500, 20000,
            "two or three random models (all modules, partial matching with similarities, learning, compilation) constructed, reconfigured and stepped in a random interleaving; the trace, state, parameters and rules of each have to be what they are when it lives alone, and the defaults stay; non-trivial: rules fire in at least two models", shards=8, shrink=shrink)]
