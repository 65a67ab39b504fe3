"""C33 A model consists of what it was given."""
import copy

from ..core import Sub, need
from ..lib import *
from .. import worlds as W

GOALS = ["g", "goal", "im", "imaginal", "g2"]
RETS = ["retrieval", "ret", "memory"]
EYES = [("visual", "visual_location"), ("visual", "where"), ("what", "where"), ("v2", "l2")]
RULES = ["go", "stop", "r1", "r2", "add one"]
PARAMS = {"rule_firing": [.05, .1, .03], "decay": [.3, .5], "latency_factor": [.1, .63], "retrieval_threshold": [0, -2], "strict_harvesting": [True, False], "utility_alpha": [.2, .5], "mismatch_penalty": [1, 4],
          "subsymbolic": [True, False], "optimized_learning": [True], "emma": [False], "eye_mvt_angle_parameter": [1, 2], "automatic_visual_search": [False], "motor_prepared": [True], "activation_trace": [False]}


def gen_rule(rng):
    return {"tag": "t%d" % rng.randint(0, 999), "u": rng.choice([None, 0, 1, -2.5, 3]), "r": rng.choice([None, None, 0, 4, 2.5])}


def gen(rng):
    params = {k: rng.choice(PARAMS[k]) for k in rng.sample(sorted(PARAMS), rng.choice([0, 1, 2, 4]))}
    steps = []
    few = rng.random() < .3
    many = rng.random() < .12
    for _ in range(rng.randint(8, 14) if many else rng.randint(2, 14)):
        k = rng.choice(["decmem", "decmem", "own memory"]) if many and rng.random() < .8 else rng.choice(["unnamed", "unnamed", "unnamed", "delete", "text", "update", "functions", "goal"] if few else ["goal", "goal", "retrieval", "decmem", "decmem", "own memory", "eyes", "text", "text", "unnamed", "functions", "update", "delete", "bad", "parameter", "assign"])
        if k == "goal":
            s = [k, rng.choice(GOALS), rng.choice([None, 0, .2, 1])]
        elif k == "retrieval":
            s = [k, rng.choice(RETS)]
        elif k == "decmem":
            s = [k, rng.choice([None, "dict", "set", "list"]), [rng.choice(["a", "b", "c", "d"]) for _ in range(rng.randint(0, 3))]]
        elif k == "own memory":
            s = [k, rng.choice(["m1", "m2", "decmem"]), [rng.choice(["a", "b"]) for _ in range(rng.randint(0, 2))]]
        elif k == "eyes":
            s = [k, rng.randrange(len(EYES)), rng.choice([None, None, 0, 1, 7]), rng.random() < .4]
        elif k in ("text", "update"):
            s = [k, rng.choice(RULES), gen_rule(rng)]
        elif k == "unnamed":
            s = [k, gen_rule(rng)]
        elif k == "functions":
            s = [k, [[n, gen_rule(rng)] for n in rng.sample(["go", "stop", "r1", "r2"], rng.randint(0, 3))]]
        elif k == "delete":
            s = [k, rng.randint(0, 5)]
        elif k == "bad":
            s = [k, rng.choice(["goal name", "retrieval name", "delay", "parameter", "similarity", "text", "finst"])]
        elif k == "parameter":
            p = rng.choice(sorted(PARAMS))
            s = [k, p, rng.choice(PARAMS[p])]
        else:
            s = [k, rng.choice(["goal", "retrieval", "decmem"]), rng.randint(0, 2)]
        steps.append(s)
    return {"params": params, "steps": steps, "env": rng.random() < .6, "strict": rng.random() < .3, "homes": [rng.choice([None, 0, 1, 2]) for _ in range(8)]}


def text(r):
    return "=g> isa cc v %s ==> =g> isa cc w %s" % (r["tag"], r["tag"])


def sides(rule):
    return [sorted((k, canon_chunk(v)) for k, v in side.items()) for side in rule["rule"]()]


def function(name, r):
    kw = {}
    if r["u"] is not None:
        kw["utility"] = r["u"]
    if r["r"] is not None:
        kw["reward"] = r["r"]
    return make_rule(name, lambda: {"=g": Chunk("cc", v=r["tag"])}, lambda: {"=g": Chunk("cc", w=r["tag"])}, **kw)


def single(get, holder, what):
    """The only one is available without its name; several are ambiguous."""
    if len(holder) == 1:
        need(get() is list(holder.values())[0], "the only %s is not the model's", what)
    else:
        expect_error(get, ValueError, "asking for the only %s of %d" % (what, len(holder)))


def check(case, ctx):
    pyactr.chunktype("cc", "v w")
    env = pyactr.Environment(focus_position=(0, 0)) if case["env"] else None
    m = pyactr.ACTRModel(environment=env, **case["params"])
    par = {**DEFAULTS, **case["params"]}
    goals, rets, mems, eyes, rules = {"g": m.goals["g"]}, {"retrieval": m.retrieval}, {"decmem": m.decmem}, {}, {}
    delays = {"g": 0}
    contents = {"decmem": {}}
    finsts = {}

    def compare(what):
        for real, ref, kind in ((m.goals, goals, "goal buffers"), (m.retrievals, rets, "retrieval buffers"), (m.decmems, mems, "memories"), (m.visbuffers, eyes, "visual buffers")):
            need(list(real) == list(ref) and all(real[k] is ref[k] for k in ref), "after %s the %s are %s instead of %s", what, kind, list(real), list(ref))
        single(lambda: m.goal, goals, "goal buffer")
        single(lambda: m.retrieval, rets, "retrieval buffer")
        single(lambda: m.decmem, mems, "memory")
        for n, g in goals.items():
            need(g.delay == delays[n] and len(g) == 0, "after %s goal buffer %s has delay %s and content %s", what, n, g.delay, g)
        for n, dm in mems.items():
            need({k: sorted(v) for k, v in dm_canon(dm).items()} == contents[n], "after %s memory %s is %s instead of %s", what, n, dm_canon(dm), contents[n])
        for n, f in finsts.items():
            need(eyes[n].finst == f, "after %s the finst of %s is %s instead of %s", what, n, eyes[n].finst, f)
        need(list(m.productions) == list(rules) and len(m.productions) == len(rules), "after %s the rules are %s instead of %s", what, list(m.productions), list(rules))
        for n, r in rules.items():
            p = m.productions[n]
            need(n in m.productions and p["utility"] == (r["u"] or 0) and p["reward"] == r["r"], "after %s rule %s has utility %s and reward %s instead of %s and %s", what, n, p["utility"], p["reward"], r["u"] or 0, r["r"])
            need(sides(p) == [[("=g", canon_chunk(Chunk("cc", v=r["tag"])))], [("=g", canon_chunk(Chunk("cc", w=r["tag"])))]], "after %s rule %s is %s", what, n, sides(p))
        got = {k: m.model_parameters.get(k) for k in par}
        need(got == par and set(m.model_parameters) == set(par), "after %s the parameters are %s", what, {k: (m.model_parameters.get(k), par.get(k)) for k in set(par) | set(m.model_parameters) if m.model_parameters.get(k) != par.get(k)})

    compare("construction")
    for s in case["steps"]:
        k = s[0]
        if k == "goal":
            b = m.set_goal(s[1]) if s[2] is None else m.set_goal(s[1], s[2])
            goals[s[1]], delays[s[1]] = b, s[2] or 0
        elif k == "retrieval":
            rets[s[1]] = m.set_retrieval(s[1])
        elif k == "decmem":
            cs = [Chunk("cc", v=x) for x in s[2]]
            data = {"dict": {c: i for i, c in enumerate(cs)}, "set": set(cs), "list": list(cs), None: None}[s[1]]
            dm = m.set_decmem() if data is None else m.set_decmem(data)
            name = "decmem" if len(mems) <= 1 else next((n for n in m.decmems if m.decmems[n] is dm), None)
            need(name is not None and len(m.decmems) == (1 if len(mems) <= 1 else len(mems) + 1), "after set_decmem there are the memories %s", list(m.decmems))
            mems[name] = dm
            contents[name] = {} if data is None else {canon_chunk(c): [float(data[c])] if s[1] == "dict" else [0.0] for c in data}
        elif k == "own memory":
            mems[s[1]] = m.decmems[s[1]] = pyactr.declarative.DecMem({Chunk("cc", v=x): 3 for x in s[2]})
            contents[s[1]] = {canon_chunk(Chunk("cc", v=x)): [3.0] for x in s[2]}
        elif k == "eyes" and env:
            nv, nl = EYES[s[1]]
            dm = list(mems.values())[0] if s[3] else None
            kw = {**({} if s[2] is None else {"finst": s[2]}), **({} if dm is None else {"default_harvest": dm})}
            v, vl = m.visualBuffer(nv, nl, **kw)
            need(isinstance(v, pyactr.vision.Visual) and isinstance(vl, pyactr.vision.VisualLocation), "visualBuffer returns %s and %s", type(v).__name__, type(vl).__name__)
            need(v.default_harvest is dm and vl.default_harvest is dm and v.environment is env and vl.environment is env, "the visual buffers have not the memory and environment they should have")
            for n in (nv, nl):
                finsts.pop(n, None)
            eyes.update({nv: v, nl: vl})
            finsts[nl] = 4 if s[2] is None else s[2]
        elif k == "text":
            kw = {**({} if s[2]["u"] is None else {"utility": s[2]["u"]}), **({} if s[2]["r"] is None else {"reward": s[2]["r"]})}
            p = m.productionstring(name=s[1], string=text(s[2]), **kw)
            rules[s[1]] = s[2]
            need(sides(p) == sides(m.productions[s[1]]), "productionstring returns another rule")
        elif k == "unnamed":
            p = m.productionstring(string=text(s[1]), utility=s[1]["u"] or 0, reward=s[1]["r"])
            new = [n for n in m.productions if n not in rules]
            need(len(new) == 1, "an unnamed rule next to %s gets the name %s", list(rules), new)
            rules[new[0]] = s[1]
        elif k == "functions":
            m.set_productions(*[function(n, r) for n, r in s[1]])
            rules.clear()
            rules.update(s[1])
        elif k == "update":
            m.productions[s[1]] = {"rule": function(s[1], s[2]), "utility": s[2]["u"] or 0, "reward": s[2]["r"]}
            rules[s[1]] = s[2]
        elif k == "delete":
            if rules:
                n = list(rules)[s[1] % len(rules)]
                del m.productions[n]
                del rules[n]
        elif k == "bad":
            what = s[1]
            if what == "goal name":
                expect_error(lambda: m.set_goal(5), ValueError, what)
            elif what == "retrieval name":
                expect_error(lambda: m.set_retrieval(None), ValueError, what)
            elif what == "delay":
                expect_error(lambda: m.set_goal("im", -1), ValueError, what)
            elif what == "parameter":
                expect_error(lambda: pyactr.ACTRModel(rule_fire=.1), ACTRError, what)
            elif what == "similarity":
                expect_error(lambda: m.set_similarities("a", "b", .5), ACTRError, what)
            elif what == "finst":
                if env:
                    expect_error(lambda: m.visualBuffer("what", "where", finst=-1), ValueError, what)
            else:
                expect_error(lambda: m.productionstring(name="r1", string="=g> isa cc v a =g> isa cc"), ACTRError, what)
        elif k == "parameter":
            m.model_parameters[s[1]] = s[2]
            par[s[1]] = s[2]
        elif k == "assign":
            if s[1] == "goal":
                n = GOALS[s[2]]
                m.goal = n
                goals[n], delays[n] = m.goals[n], 0
            elif s[1] == "retrieval":
                n = RETS[s[2]]
                m.retrieval = n
                rets[n] = m.retrievals[n]
            elif len(mems) == 1:
                m.decmem = {Chunk("cc", v="z"): 1}
                mems["decmem"], contents["decmem"] = m.decmems["decmem"], {canon_chunk(Chunk("cc", v="z")): [1.0]}
        compare(s)
    objects = [*goals.values(), *rets.values(), *mems.values(), *eyes.values()]
    need(len({id(o) for o in objects}) == len(objects), "one object stands under two names")

    # rules refer to the buffers by their names
    par = m.model_parameters
    par.update(subsymbolic=False, strict_harvesting=case["strict"], production_compilation=False, automatic_visual_search=False, emma_noise=False)
    named = {**goals, **rets}
    home = {n: None for n in named}
    if len(mems) > 1:       # each buffer can have its own memory
        for n, k in zip(named, case["homes"]):
            if k is not None:
                home[n] = list(mems.values())[k % len(mems)]
                if n in goals:
                    named[n].default_harvest = home[n]
                else:
                    named[n].decmem = home[n]
    for n in rets:
        if home[n] is not None:
            home[n].add(Chunk("cc", v="fact " + n), -1)
    filled = list(mems.values()) if len(mems) == 1 else [dm for dm in mems.values() if len(dm)]
    if len(filled) == 1:    # the others use the only memory, or the only one that has chunks
        for n in named:
            if home[n] is None:
                home[n] = filled[0]
                if n in rets:
                    home[n].add(Chunk("cc", v="fact " + n), -1)
    used = {id(dm): dm for dm in [*home.values(), *(e.dm for e in eyes.values())] if dm is not None}
    if len(used) == 1:
        for n in goals:
            home[n] = home[n] if home[n] is not None else list(used.values())[0]
    homeless = [n for n in goals if home[n] is None]
    rets = {n: r for n, r in rets.items() if home[n] is not None}
    for n, g in goals.items():
        g.add(Chunk("cc", v="in " + n))
    if env and not eyes:
        eyes = {"visual": None, "visual_location": None}
    places = [n for n in eyes if n in ("visual_location", "where", "l2")] if env else []
    stim = {n: {"text": n, "position": (40 * i + 30, 100)} for i, n in enumerate(places)}

    def lhs():
        return {"=" + n: Chunk("cc", v="in " + n) for n in goals}

    def rhs():
        return {**{"=" + n: Chunk("cc", v="now " + n, w="x") for n in goals}, **{"+" + n: Chunk("cc", v="fact " + n) for n in rets}, **{"+" + n: Chunk("_visuallocation", value=n) for n in places}}

    def later():
        return {"=" + n: Chunk("cc", w="x") for n in goals}
    rest = {**({"@" + homeless[0]: Chunk("cc", v="over")} if homeless else {}), **{"=" + n: Chunk("cc", w="y") for n in homeless[1:]}}
    m.set_productions(make_rule("all", lhs, rhs), make_rule("away", later, lambda: {**{"~" + n: None for n in goals if home[n] is not None}, **{"~" + n: None for n in rets}, **rest}))
    kw = {"environment_process": env.environment_process, "stimuli": [stim], "triggers": "A", "times": 1} if env else {}
    sim = new_sim(m, **kw)
    for n, b in named.items():
        if n in rets or n in goals and len(mems) == 1:
            need(b.dm is home[n], "buffer %s does not use the memory it should use", n)
    tr = drive(sim, 400, on_event=lambda e: False if e[2] == "RULE SELECTED: away" else None)
    need([e[2] for e in tr.events if e[2].startswith("RULE FIRED")] == ["RULE FIRED: all"], "a rule that tests all goal buffers %s does not fire: %s", list(goals), tr.events[:5])
    for n, g in goals.items():
        need(buf_canon(g) == canon_chunk(Chunk("cc", v="now " + n, w="x")), "goal buffer %s is %s", n, g)
    tr2 = drive(sim, 400)
    events = tr.events + tr2.events
    hits = {e[1]: e[2] for e in events if e[2].startswith("RETRIEVED")}
    need(set(hits) == set(rets) and all("fact " + n in hits[n] for n in rets), "retrievals: %s", hits)
    for n in places:
        seen = [e[2] for e in events if e[1] == n and e[2].startswith("ENCODED")]
        need(len(seen) == 1 and all("screen_%s= %d" % a in seen[0] for a in zip("xy", stim[n]["position"])), "buffer %s looks for %s and finds %s", n, stim[n], seen)
        if eyes[n] is not None:
            found = dict(buf_canon(eyes[n])[1])
            need((found.get("screen_x"), found.get("screen_y")) == tuple(str(x) for x in stim[n]["position"]), "buffer %s looks for %s and holds %s", n, stim[n], eyes[n])
    need([e[2] for e in tr2.events if e[2].startswith("RULE FIRED")] == ["RULE FIRED: away"], "the second rule does not fire: %s", [e for e in tr2.events if e[1] == "PROCEDURAL"][:6])
    for n, g in goals.items():
        if home[n] is not None:
            every = {**used, **{id(dm): dm for dm in mems.values()}}
            there = [dm for dm in every.values() if canon_chunk(Chunk("cc", v="now " + n, w="x")) in dm_canon(dm)]
            need(len(g) == 0 and len(there) == 1 and there[0] is home[n], "the chunk cleared from %s is in the memories %s", n, there)
        elif n == homeless[0]:      # chunks can be written and changed where it is not known where they would be cleared to
            need(buf_canon(g) == canon_chunk(Chunk("cc", v="over")), "goal buffer %s is %s", n, g)
    if homeless:
        m.set_productions(make_rule("where", lambda: {"?" + homeless[0]: {"buffer": "full"}}, lambda: {("+" if case["strict"] else "~") + homeless[0]: Chunk("cc", v="over") if case["strict"] else None}))
        m.model_parameters["strict_harvesting"] = False
        before = {n: dm_canon(dm) for n, dm in mems.items()}
        sim = new_sim(m, **kw)
        expect_error(lambda: drive(sim, 400), ACTRError, "clearing a buffer of which it is not known to which memory")
        need({n: dm_canon(dm) for n, dm in mems.items()} == before, "the chunk of unknown destination gets to a memory")
        ctx.label("homeless")
    ctx.label("%d memories" % min(len(mems), 4), "%d goals" % min(len(goals), 3), "%d retrievals" % min(len(rets), 3), *(["eyes"] if places else []))
    ctx.nontrivial(len(goals) + len(rets) + len(eyes) > 2)


# ------------------------------------------------------------------ parameters of single buffers

MEMORY = {"latency_factor": [.1, .63, .02], "latency_exponent": [1, .5], "decay": [.5, .3, .8], "baselevel_learning": [True, False], "optimized_learning": [False, True], "instantaneous_noise": [0, .3], "retrieval_threshold": [0, -2, .5],
          "strength_of_association": [0, 3], "spreading_activation_restricted": [False, True], "association_only_from_chunks": [True, False], "partial_matching": [False, True], "mismatch_penalty": [1, 3], "buffer_spreading_activation": [{}, {"g": 2}]}
EYE = {"emma": [True, False], "emma_noise": [False, True], "emma_landing_site_noise": [False, True], "eye_mvt_angle_parameter": [1, 2.5], "eye_mvt_scaling_parameter": [.01, .05]}


def gen_own(rng):
    spec = W.gen_world(rng, utils=[0, 0, 1, 2])
    spec["params"]["subsymbolic"] = True
    spec["params"]["motor_prepared"] = False
    given, other = [], []
    for table in (MEMORY, EYE):
        given.append({k: rng.choice(table[k]) for k in rng.sample(sorted(table), rng.randint(1, len(table)))})
        other.append({k: rng.choice(table[k]) for k in given[-1]})
    return {"model": spec, "own": given, "other": other, "seed": rng.randint(0, 9999), "steps": 120}


def check_own(case, ctx):
    spec = case["model"]
    out, shared = [], {}
    for own in (False, True):
        level = case["other"] if own else case["own"]
        sp = {**spec, "params": {**spec["params"], **level[0], **level[1]}}
        m, env = W.build(copy.deepcopy(sp))
        if env is not None:
            v, vl = m.visualBuffer("visual", "visual_location", m.decmem)
        if own:
            mine = copy.deepcopy(case["own"])
            m.retrieval.model_parameters = mine[0]
            if env is not None:
                v.model_parameters = mine[1]
        before = copy.deepcopy(m.model_parameters)
        sim = W.simulate(sp, m, env)
        np.random.seed(case["seed"])
        events, end = [], "cut"
        try:
            while len(events) < case["steps"]:
                sim.step()
                e = sim.current_event
                events.append([e.time, e.proc, e.action])
        except simpy.core.EmptySchedule:
            end = "ended"
        except ACTRError as e:
            end = "error " + str(e)[:60]
        need(m.model_parameters == before, "parameters of the model are %s after a run, and were %s", m.model_parameters, before)
        if own:
            need(mine == case["own"], "parameters of buffers are %s after a run, and were %s", mine, case["own"])
        out.append((events, end, W.state_of(m)))
    (a, enda, sa), (b, endb, sb) = out
    for i, (x, y) in enumerate(zip(a, b)):
        need(x == y, "event %d is %s with parameters given to the model, and %s with the same parameters given to the buffers that use them", i, x, y)
    need(len(a) == len(b) and enda == endb, "%d events (%s) with parameters given to the model, %d (%s) with the same parameters given to buffers", len(a), enda, len(b), endb)
    for k in sa:
        need(sa[k] == sb[k], "%s is %s with parameters given to the model, %s with the same parameters given to buffers", k, sa[k], sb[k])
    used = [n for n, word in (("retrieval", "START RETRIEVAL"), ("visual", "PREPARATION TO SHIFT")) if any(word in e[2] for e in a)]
    ctx.label(*used, enda.split()[0])
    ctx.nontrivial(used and case["own"] != case["other"])


SUBS = [Sub("configuration", gen, check, 2000, 40000,
            "sequences of up to 14 steps that set buffers, memories, visual buffers, rules (as text, functions, unnamed, replaced, deleted) and parameters, some ill-formed, compared after every step with a reference model; then rules that use all buffers by name are run; non-trivial: more than two buffers", shards=8),
        Sub("buffer parameters", gen_own, check_own, 1600, 50000,
            "random models whose parameters of retrieval and of eye movements are given to the model, or, where the model has others, to the buffers that use them; same events and final state, and no parameter is changed by a run; non-trivial: a retrieval or shift of attention starts", shards=8, shrink=W.shrink_field("model"))]
