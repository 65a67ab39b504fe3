"""C26 Unsafe production compilations are blocked, others happen, and no rule is altered by them."""
import json

from ..core import Sub, need, canon_json, case_json
from ..lib import *
from .. import compilation as C
from .c25 import gen_reader

DONE = ("MODIFIED", "CREATED A CHUNK", "WROTE A CHUNK", "RETRIEVED")
REQUESTED = ("manual", "visual", "visual_location")


def text_of(rule):
    gen = rule["rule"]()
    return [sorted((k, repr(v) if isinstance(v, Chunk) else canon_json(v)) for k, v in side.items()) for side in gen]


def acts(rule):
    """buffer -> sign of the action, other than extra tests and commands"""
    return {b: s for s, b, p in rule["rhs"] if s not in "!?"}


def blocked(r1, r2, strict, done, failed, full, changed=False):
    """Reason why r1 and r2 must not be compiled; None if they must be; "?" if both are fine.

    done: buffers in which the action of r1 ended before r2 was selected; failed: the retrieval of r1 found nothing; full: there is a chunk in the retrieval buffer after r2; changed: the visual module buffered something between the rules"""
    a1, a2 = acts(r1), acts(r2)
    tested = {b for b, p in r2["lhs"]}
    used = a2.keys() | {b for s, b, p in r2["rhs"]}
    maybe = "?" if changed and all("visual" in [b for b, p in r["lhs"]] for r in (r1, r2)) else None     # what the rules test may contradict each other
    for b in {b for b, s in a1.items() if s == "~"} | ({b for b, p in r1["lhs"] if b not in a1.keys() | {b for s, b, p in r1["rhs"]}} if strict else set()):
        if b in tested:
            return "%s, emptied by the first rule, is tested" % b
        for x, q in r2["query"]:
            if x == b and (q.get("buffer", "empty") != "empty" or b in a1 and q.get("state", "free") != "free"):
                return "%s, emptied by the first rule, is queried" % b
    for b, s in a1.items():
        if s == "~":
            continue
        queries = [q for x, q in r2["query"] if x == b]
        if s == "+":
            if b != "retrieval" and a2.get(b) == "+":
                return "both rules request %s" % b
            if b in REQUESTED and any(q != {"state": "busy"} for q in queries):
                return "%s is queried" % b
            if b in ("visual", "visual_location") and b in tested:
                return "%s is tested" % b
            if b == "retrieval":
                if any(q.get("state") == "error" for q in queries):
                    return "the failure of retrieval is queried"
                if b in done and full:
                    if failed or a2.get(b) == "+":
                        maybe = "?"     # what is in the buffer is not what the first rule retrieved
                    else:
                        return "the retrieved chunk is in the buffer"
                if b in done and failed and b in tested:
                    return "the retrieval failed"
        if s == "+" and b not in done and b in tested:
            return "the second rule tests what was in %s before the request" % b
        if b not in done and a2.get(b) in tuple("~=*@"):
            return "the request in %s is in progress" % b
        if b in done and strict and b != "retrieval" and b in tested and b not in used:
            return "%s is harvested" % b
    return maybe


def observe(m, by_name, strict, ctx, limit=300, greedy=False):
    """Run the model; every rule that fires decides which pair has been compiled. Returns the fired rules."""
    before = {n: text_of(m.productions[n]) for n in m.productions}
    sim = new_sim(m)
    fired, pair, done, failed, full, prev_full = [], None, set(), False, False, False
    last = None             # last rule fired
    since = []              # events since then, up to the last conflict resolution
    upto = 0
    current = None          # (a, b, done, failed) waiting for compilation
    created = []
    utils = {}
    learning, alpha = m.model_parameters["utility_learning"], m.model_parameters["utility_alpha"]

    def decide(what, prev):
        a, b, done, failed, changed = current
        name = "%s and %s" % (a, b)
        why = blocked(by_name[a], by_name[b], strict, done, failed, prev, changed) if a in by_name and b in by_name else "?"
        if what is None:
            need(why is not None, "%s and %s fired in succession but were not compiled", a, b)
            ctx.label("blocked: " + why)
            return
        new = what.split(": ", 1)[1]
        need(new == name or new.startswith(name + " ") and new[len(name) + 1:].isdigit(), "%s were compiled into %r", name, new)
        need(why in (None, "?"), "%s were compiled although %s", name, why)
        ctx.label("compiled")
        p = m.productions[new]
        if what.startswith("RULE CREATED"):
            need(new not in before, "a rule that already was there is created: %s", new)
            for other in before:
                if other == name or other.startswith(name + " ") and other[len(name) + 1:].isdigit():
                    need(before[other] != text_of(p), "the rule %s is created again as %s", other, new)
            need(p["utility"] == 0 and p["reward"] is None, "the new rule %s has utility %s and reward %s", new, p["utility"], p["reward"])
            before[new] = text_of(p)
        else:
            need(new in before, "a rule that was not there is re-created: %s", new)
            want = utils[new]
            if learning:
                want = round(want + alpha * (utils[a] - want), 4)
            need(close(p["utility"], want, 1e-6), "the utility of %s is %s when it is re-created; it was %s and that of %s is %s", new, p["utility"], utils[new], a, utils[a])
            ctx.label("re-created")
            ctx.nontrivial(learning)
        utils[new] = p["utility"]

    ended = False
    what = None
    for _ in range(limit):
        utils.update({n: m.productions[n]["utility"] for n in m.productions})
        prev = bool(list(m.retrievals.values())[0])
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            ended = True
            break
        e = sim.current_event
        if e.action.startswith("RULE CREATED") or e.action.startswith("RULE RE-CREATED"):
            need(current is not None and what is None, "%s although no two different rules fired in succession before: %s", e.action, fired)
            decide(e.action, prev)
            current = None
        elif greedy and e.action.startswith("RULE SELECTED: "):
            utility, held = m.productions[e.action[15:]]["utility"], buf_chunk(m.goals["g"])
            for n in m.productions:
                if m.productions[n]["utility"] > utility:
                    lhs = next(m.productions[n]["rule"]())
                    need(set(lhs) != {"=g"} or not lhs["=g"] <= held, "%s with utility %s is selected although %s with utility %s matches %s", e.action[15:], utility, n, m.productions[n]["utility"], held)
        elif e.action.startswith("RULE FIRED: "):
            if current is not None:
                decide(None, prev)
            current = None
            name = e.action[12:]
            if last is not None and last != name:
                acted = since[:upto]
                ok = {p for p, a in acted if a.startswith(DONE)}
                current = (last, name, ok, ("retrieval", "RETRIEVED: None") in acted, any(p == "visual" and a.startswith("AUTOMATIC BUFFERING") for p, a in since))
            last, since, upto = name, [], 0
            fired.append(name)
        else:
            if e.action == "CONFLICT RESOLUTION":
                upto = len(since)
            since.append((e.proc, e.action))
    if ended and current is not None:
        a, b, done, failed, changed = current
        name = "%s and %s" % (a, b)
        new = [n for n in m.productions if n not in before]
        need(len(new) <= 1, "rules added at the end: %s", new)
        if a in by_name and b in by_name:
            why = blocked(by_name[a], by_name[b], strict, done, failed, bool(list(m.retrievals.values())[0]), changed)
            exists = [n for n in m.productions if n == name or n.startswith(name + " ")]
            if why is None:
                need(exists, "%s and %s fired in succession at the end but were not compiled", a, b)
                ctx.label("compiled")
            elif why != "?":
                need(not new, "%s were compiled although %s", name, why)
                ctx.label("blocked: " + why)
        for n in new:
            need(n == name or n.startswith(name + " "), "%s were compiled into %s", name, n)
    for n in before:
        need(text_of(m.productions[n]) == before[n], "rule %s was altered by compilation:\n%s\n%s", n, before[n], text_of(m.productions[n]))
    return fired


def rules_of(case):
    return {"r%d" % i: r for i, r in enumerate(case["rules"])}


def check_pairs(case, ctx):
    m = C.new(case, production_compilation=True)
    rules = {"r1": case["r1"], "r2": case["r2"]}
    m.set_productions(*[C.rule_fn(n, r) for n, r in rules.items()])
    try:
        fired = observe(m, rules, case["params"]["strict_harvesting"], ctx)
    except ACTRError:
        ctx.label("rejected")
        return
    ctx.nontrivial(fired[:2] == ["r1", "r2"])


# ------------------------------------------------------------------ sequences of rules and learning

def gen_walk(rng):
    n = rng.randint(2, 4)
    rules = []
    for i in range(n):
        for _ in range(rng.choice([1, 1, 2])):
            rules.append([i, rng.randrange(n), rng.choice([None, None, "v1", "v2"]), rng.choice([None, None, "v1", "v2", "=x"])])
    return {"rules": rules, "u": [rng.choice([0, 1, 2.5, 3, -1, 10]) for _ in rules], "alpha": rng.choice([.2, .2, .5, 1, .0371]), "learning": rng.random() < .75,
            "string": rng.random() < .5, "strict": rng.random() < .2, "on": rng.random() < .9, "q": rng.choice(["v1", "v2"])}


def walk_rule(r):
    a, b, p, q = r
    lhs = {"s": {"v": "k%d" % a}, "q": {"x": "x"}}
    if p:
        lhs["p"] = {"v": p}
    rhs = {"s": {"v": "k%d" % b}}
    if q:
        rhs["p"] = {"x": "x"} if q == "=x" else {"v": q}
    return {"lhs": [["g", lhs]], "query": [], "rhs": [["=", "g", rhs]]}


def check_walk(case, ctx):
    C.declare()
    m = new_model(production_compilation=case["on"], utility_learning=case["learning"], utility_alpha=case["alpha"], strict_harvesting=case["strict"])
    m.goals["g"].add(Chunk("go", s="k0", p="v1", q=case["q"], r=None))
    rules = {"r%d" % i: walk_rule(r) for i, r in enumerate(case["rules"])}
    if case["string"]:
        for i, (n, r) in enumerate(rules.items()):
            m.productionstring(name=n, utility=case["u"][i], string="=g>\n%s\n==>\n=g>\n%s" % (pattern_text({"t": "go", "s": r["lhs"][0][1]}), pattern_text({"t": "go", "s": r["rhs"][0][2]})))
    else:
        m.set_productions(*[C.rule_fn(n, r, utility=case["u"][i]) for i, (n, r) in enumerate(rules.items())])
    names = list(m.productions)
    need(names == list(rules), "rules are %s", names)
    if not case["on"]:
        sim = new_sim(m)
        drive(sim, 120)
        need(list(m.productions) == names, "rules %s were compiled although production compilation is off", list(m.productions))
        return ctx.label("off")
    fired = observe(m, rules, case["strict"], ctx, 150, greedy=True)
    ctx.label("cycle" if len(fired) > 5 else "short", *(["compiled rule fires"] if any(" and " in f for f in fired) else []), *(["self"] if any(a == b for a, b in zip(fired, fired[1:])) else []))
    ctx.nontrivial(len(fired) > 5)


# ------------------------------------------------------------------ visual and motor buffers

def gen_visual(rng):
    rules = []
    n = rng.randint(3, 6)
    loc = vis = False
    for i in range(n):
        r = {"lhs": [["g", {"s": {"v": "k%d" % i}}]], "query": [], "rhs": [["=", "g", {"s": {"v": "k%d" % (i + 1)}}]]}
        k = rng.random()
        if k < .35 or not loc and k < .6:
            r["rhs"].append(["+", "visual_location", {"value": {"v": rng.choice("AAB")}} if rng.random() < .7 else {"screen_x": {"v": "lowest"}}])
            if rng.random() < .3:
                r["query"].append(["visual_location", rng.choice([{"state": "free"}, {"buffer": "full"}, {"buffer": "empty"}])])
            loc = True
        elif loc and k < .75:
            r["lhs"].append(["visual_location", {"screen_x": {"x": "x"}}])
            if rng.random() < .7:
                r["rhs"].append(["+", "visual", {"cmd": {"v": "move_attention"}, "screen_pos": {"x": "visual_location"}}])
                vis = True
            elif rng.random() < .4:
                r["rhs"].append(["~", "visual_location", None])
        elif vis and k < .9:
            r["lhs"].append(["visual", {"value": {"v": "A"}}])
            if rng.random() < .3:
                r["rhs"].append(["~", "visual", None])
        elif k < .95:
            r["rhs"].append(["+", "manual", {"cmd": {"v": "press_key"}, "key": {"v": rng.choice("AJ5")}}])
        k = rng.random()
        have = {b for b, q in r["query"]}
        if k < .35:
            b, q = rng.choice([["visual", {"state": "busy"}], ["visual", {"state": "busy"}], ["visual", {"state": "free"}], ["visual", {"buffer": "empty"}], ["visual", {"buffer": "full"}], ["visual_location", {"state": "free"}],
                               ["visual_location", {"buffer": "full"}], ["manual", {"state": "busy"}], ["manual", {"state": "busy"}], ["manual", {"state": "free"}], ["manual", {"preparation": "busy"}], ["manual", {"state": "busy", "execution": "free"}], ["visual", {"state": "busy", "buffer": "empty"}]])
            if b not in have:
                r["query"].append([b, q])
        rules.append(r)
    return {"rules": rules, "strict": rng.random() < .25, "emma": rng.random() < .6, "pos": rng.choice([[320, 180], [500, 100]])}


TYPES = {**C.TYPES, "visual": "_visual", "visual_location": "_visuallocation"}


def check_visual(case, ctx):
    C.TYPES.update(TYPES)
    C.declare()
    env = pyactr.Environment()
    m = new_model(env, production_compilation=True, strict_harvesting=case["strict"], emma=case["emma"], emma_noise=False, automatic_visual_search=False)
    m.goals["g"].add(Chunk("go", s="k0", p=None, q=None, r=None))
    rules = rules_of(case)
    m.set_productions(*[C.rule_fn(n, r) for n, r in rules.items()])
    sim_kw = {"environment_process": env.environment_process, "stimuli": [{"s": {"text": "A", "position": tuple(case["pos"])}}], "triggers": "ENTER", "times": 9}
    real = m.simulation
    m.simulation = lambda **kw: real(**kw, **sim_kw)
    try:
        fired = observe(m, rules, case["strict"], ctx, 150)
    except ACTRError:
        return ctx.label("rejected")
    ctx.nontrivial(len(fired) >= 3)


# ------------------------------------------------------------------ words

def check_reader(case, ctx):
    C.TYPES.update(TYPES)
    C.declare()
    env = pyactr.Environment(focus_position=(100, 100))
    m = new_model(env, production_compilation=True, emma_noise=False, **case["params"])
    m.goals["g"].add(Chunk("go", **case["g"]))
    m.visualBuffer("visual", "visual_location", m.decmem)
    rules = rules_of(case)
    C.set_rules(m, list(rules.items()), case["form"], utility=1)
    sim_kw = {"environment_process": env.environment_process, "stimuli": [{"w": {"text": w, "position": (100, 100)}} for w in case["words"]], "triggers": ["A"] * len(case["words"]), "times": list(case["times"])}
    real = m.simulation
    m.simulation = lambda **kw: real(**kw, **sim_kw)
    try:
        fired = observe(m, rules, case["params"]["strict_harvesting"], ctx, 150)
    except ACTRError:
        return ctx.label("rejected")
    ctx.nontrivial(len(set(fired)) >= 2)


def shrink_rules(case):
    for i, r in enumerate(case["rules"]):
        for f in ("query", "rhs", "lhs"):
            for j, e in enumerate(r[f]):
                if e[1] == "g" or e[0] == "g":
                    continue
                c = json.loads(case_json(case))
                del c["rules"][i][f][j]
                yield c
    c = json.loads(case_json(case))
    if len(c["rules"]) > 2:
        c["rules"].pop()
        yield c


SUBS = [
    Sub("pairs", C.gen_pair, check_pairs, 1500, 60000,
        "two rules over goal, imaginal (with or without delay), retrieval and motor buffers; whether they are compiled has to follow from the documented conditions, applied to the trace, and existing rules have to stay as they were; non-trivial: both fire in succession", shards=6),
    Sub("walks", gen_walk, check_walk, 700, 30000,
        "up to eight rules over control states with cycles and repetitions, written as functions or strings; every two different rules that fire in succession are compiled once (created or re-created with its utility moved toward that of the first parent), and nothing else is; non-trivial: a utility was moved or more than five rules fired", shards=6),
    Sub("visual", gen_visual, check_visual, 700, 30000,
        "up to six rules that search, attend, query, press keys and clear buffers; every pair that fires in succession is judged by the documented conditions; non-trivial: at least three rules fired", shards=6, shrink=shrink_rules),
    Sub("words", gen_reader, check_reader, 500, 20000,
        "two to four rules that read words which the environment shows one after the other, test, query, clear and harvest the visual buffer; every pair that fires in succession is judged by the documented conditions; non-trivial: two different rules fired", shards=6, shrink=shrink_rules),
]
