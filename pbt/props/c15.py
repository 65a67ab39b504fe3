"""C15 Utility learning propagates rewards by temporal difference."""
from ..core import Sub, need
from ..lib import *
from .. import models as M


def gen(rng):
    spec = M.gen_model(rng, utils=[0, 0, 1, 1, 2.5, -3, 10, 4.75], rewards=[None, None, None, 5, 0, -2, 12.5, 1], min_rules=2, max_rules=6)
    spec["params"].update(utility_learning=rng.random() < .9, utility_alpha=rng.choice([.2, .2, .5, 1, 0.013]), subsymbolic=rng.random() < .3,
                          rule_firing=rng.choice([.05, .05, .031, .1]), retrieval_threshold=-20)
    return {"model": spec, "form": rng.choice(["func", " ", "marked"]), "again": rng.random() < .3, "cut": rng.randint(5, 40), "start2": rng.choice([0, 7.5])}


def gen_long(rng):
    """Rules that fire again and again before the goal changes from outside and a rule with a reward fires."""
    n = rng.randint(1, 4)
    rules = [{"n": "rule%d" % i, "u": rng.choice([0, 0, 1, 2.5]), "r": None, "lhs": {"=g": {"t": "go", "s": {"s": {"v": "s%d" % (i % n)}}}},
              "rhs": {"=g": {"t": "go", "s": {"s": {"v": "s%d" % ((i + 1) % n)}}}}} for i in range(n + rng.randint(0, 2))]
    end = {"n": "end", "u": rng.choice([0, 3, -1]), "r": rng.choice([5, 0, -2, 12.5, 100]), "lhs": {"=g": {"t": "go", "s": {"s": {"v": "end"}}}}, "rhs": {"=g": {"t": "go", "s": {"s": {"v": "s0"}}}}}
    rules.insert(rng.randint(0, len(rules)), end)
    spec = {"params": {"utility_learning": True, "utility_alpha": rng.choice([.2, .2, .5, 1, 0.013]), "subsymbolic": rng.random() < .3, "rule_firing": rng.choice([.05, .05, .031, .1])},
            "goals": [["g", 0, {"t": "go", "s": {"s": "s0", "a": "p"}}]], "dm": [], "rules": rules, "start": rng.choice([0, 0, 3.07]), "finst": 0}
    return {"model": spec, "form": rng.choice(["func", " ", "marked"]), "again": False, "every": rng.randint(8, 90)}


def check(case, ctx):
    spec = case["model"]
    p = spec["params"]
    m = M.build(spec, case["form"])
    rules = {r["n"]: r for r in spec["rules"]}
    stt = {"updates": 0, "multi": 0, "decided": 0}

    def utils():
        return {n: m.productions[n]["utility"] for n in rules}
    util = utils()
    need(util == {n: r["u"] for n, r in rules.items()}, "initial utilities %s differ from those given %s", util, {n: r["u"] for n, r in rules.items()})

    def run(limit, start):
        nonlocal util
        util = utils()     # the first run may have been left between a reward and its announcement
        sel = []           # (rule, time) since the previous reward
        box = {"fired": 0}

        def on(ev):
            nonlocal util
            t, proc, act = ev
            new = utils()
            if proc == "PROCEDURAL" and act.startswith("RULE SELECTED: "):
                name = act[len("RULE SELECTED: "):]
                holds = [n for n, r in rules.items() if M.ref_lhs(r["lhs"], box["snap"])[0]]
                best = max([util[n] for n in holds] + [util[name]])
                need(util[name] == best, "at %s rule %s with utility %s was selected although the current utilities of those that hold are %s", t, name, util[name], {n: util[n] for n in holds})
                stt["decided"] += stt["updates"] > 0 and len({util[n] for n in holds}) > 1
                sel.append((name, t))
            if proc == "PROCEDURAL" and act == "CONFLICT RESOLUTION":
                box["snap"] = M.snapshot(m)
            if proc == "PROCEDURAL" and act.startswith("RULE FIRED: "):
                name = act[len("RULE FIRED: "):]
                r = rules[name]["r"]
                if p["utility_learning"] and r is not None:
                    want, n = dict(util), {}
                    for s, ts in sel:
                        want[s] = round(want[s] + p["utility_alpha"] * (r - (t - ts) - want[s]), 4)
                        n[s] = n.get(s, 0) + 1
                    for s in rules:
                        need(abs(new[s] - want[s]) <= 1.01e-4 * n.get(s, 0), "reward %s of %s at %s after the selections %s: utility of %s goes from %s to %s, expected %s", r, name, t, sel, s, util[s], new[s], want[s])
                    stt["updates"] += 1
                    stt["multi"] += any(v > 1 for v in n.values()) or len(n) > 1
                    sel.clear()
                    util = new
                box["fired"] += 1
                if case.get("every") and box["fired"] % case["every"] == 0:
                    m.goals["g"].add(Chunk("go", s="end"))
            elif sel and new != util and p["utility_learning"] and rules[sel[-1][0]]["r"] is not None and tclose(t, sel[-1][1] + p["rule_firing"]) and "STOPPED" not in act:
                return      # the reward is given at this very moment; checked when the firing is announced
            need(new == util, "at %s (%s %s) utilities changed from %s to %s", t, proc, act, util, new)
        drive(new_sim(m, initial_time=start), limit, on_event=on)
    run(case["cut"] if case["again"] else 900 if case.get("every") else 150, spec["start"])
    if case["again"]:
        u = utils()
        run(100, spec["start"] + case["start2"])
        ctx.label("second-run")
        if not p["utility_learning"]:
            need(utils() == u, "utilities changed without utility learning")
    ctx.label("learning" if p["utility_learning"] else "off", *(["updates"] if stt["updates"] else []), *(["several-selections"] if stt["multi"] else []),
              *(["decided-after-learning"] if stt["decided"] else []))
    ctx.nontrivial(stt["multi"])


SUBS = [Sub("replay", gen, check, 3000, 80000,
            "random production systems with rewards; utilities after every event compared with the temporal-difference equation applied to the observed selections, and every selection with the current utilities; non-trivial: a reward reaches several selections", shards=8, shrink=M.shrink_field("model")),
        Sub("long", gen_long, check, 120, 5000,
            "the same for rules that fire 8 to 90 times before a reward comes; non-trivial: a reward reaches several selections", shards=2)]
