"""C25 A compiled rule does what its two parents did in sequence."""
import random

from ..core import Sub, need, reset_globals, canon_json
from ..lib import *
from .. import compilation as C


def parents(case, content=None, compilation=True, **kw):
    """Run the two rules of the case: (model, log, error)."""
    reset_globals(1)
    m = C.new(case, content, production_compilation=compilation, **kw)
    C.set_rules(m, [("r1", case["r1"]), ("r2", case["r2"])], case.get("form"))
    try:
        sim, log, end = C.run(m)
    except Exception as e:
        return m, [], e
    return m, log, None


def alone(case, rule, content=None):
    """Run the compiled rule alone."""
    reset_globals(1)
    m = C.new(case, content)
    m.productions["r1 and r2"] = rule
    sim, log, end = C.run(m)
    return m, log


def compiled(case, ctx):
    """The compiled rule and what the parents did; None if there is nothing to check."""
    m, log, err = parents(case)
    m0, log0, err0 = parents(case, compilation=False)
    if err is not None:
        need(err0 is not None, "the model runs without production compilation, but with it there is %s: %s", type(err).__name__, err)
        ctx.label("rejected")
        return None
    need(err0 is None, "the model fails without production compilation (%s), but not with it", err0)
    f = C.fired(log)
    if f[:2] != ["r1", "r2"] or "r1 and r2" not in m.productions:
        ctx.label("no succession" if f[:2] != ["r1", "r2"] else "blocked")
        need("r1 and r2" not in m.productions or "r1" in f and "r2" in f, "a rule was compiled although %s fired", f)
        return None
    cut = [e for e in log if not (e[2].startswith("RULE CREATED") or e[2].startswith("RULE RE-CREATED"))]
    k = next((i for i, e in enumerate(cut) if e[2].startswith("RULE SELECTED: r1 and")), len(cut))
    need(cut[:k] == log0[:k], "production compilation changes the run:\n%s\n%s", cut[:k], log0[:k])
    return m.productions["r1 and r2"], C.outcome(m0, log0), C.fired(log0)


def check_pair(case, ctx):
    r = compiled(case, ctx)
    if r is None:
        return
    rule, want, f = r
    if len(f) > 2:
        return
    m, log = alone(case, rule)
    need(C.fired(log), "the compiled rule does not match in the state in which its first parent fired")
    if len(C.fired(log)) > 1:
        return
    got = C.outcome(m, log)
    for k in want:
        need(want[k] == got[k], "%s is %s after the two rules and %s after the rule compiled from them", k, want[k], got[k])
    ctx.label("strict" if case["params"]["strict_harvesting"] else "not strict", *(["retrieval used"] if any(b == "retrieval" for b, p in case["r2"]["lhs"]) else []),
              *["r%d %s%s" % (i, s, b) for i in (1, 2) for s, b, p in case["r%d" % i]["rhs"] if (s, b) != ("=", "g")])
    ctx.nontrivial()


def gen_pair(rng):
    return C.gen_pair(rng)


def gen_states(rng):
    while True:
        case = C.gen_pair(rng)
        if any(b == "retrieval" and s == "+" for s, b, p in case["r1"]["rhs"]) or case["delay"] and any((s, b) == ("*", "im") for s, b, p in case["r1"]["rhs"]):
            if rng.random() < .95:
                continue
            for s, b, p in case["r1"]["rhs"]:
                case["delay"] = 0
            case["r1"]["rhs"] = [e for e in case["r1"]["rhs"] if (e[0], e[1]) != ("+", "retrieval")]
        break
    case["others"] = []
    for _ in range(3):
        c = {"g": dict(case["g"]), "im": dict(case["im"]) if case["im"] else None, "ret": case["ret"]}
        for _ in range(rng.randint(1, 2)):
            b = rng.choice(["g", "g", "im"])
            if c[b]:
                c[b][rng.choice([s for s in c[b] if s != "s"])] = rng.choice(C.VALS + [None])
        if c["im"] and not any(c["im"].values()):
            c["im"] = None
        case["others"].append(c)
    return case


def check_states(case, ctx):
    r = compiled(case, ctx)
    if r is None:
        return
    rule = r[0]
    for c in case["others"]:
        m, log, err = parents(case, c, False)
        if err is not None:
            ctx.label("rejected")
            continue
        m2, log2 = alone(case, rule, c)
        f, f2 = C.fired(log), C.fired(log2)
        if len(f) > 2 or len(f2) > 1:
            continue
        if f != ["r1", "r2"]:
            need(not f2, "the compiled rule fires although only %s of its parents would: state %s", f, c)
            ctx.label("neither")
            ctx.nontrivial(f == ["r1"])
            continue
        need(f2, "both rules fire but the compiled rule does not: state %s", c)
        want, got = C.outcome(m, log), C.outcome(m2, log2)
        for k in want:
            need(want[k] == got[k], "%s is %s after the two rules and %s after the rule compiled from them in another state %s", k, want[k], got[k], c)
        ctx.label("both")
        ctx.nontrivial()


# ------------------------------------------------------------------ chains

def gen_chain(rng):
    """A cycle of rules; the state goes from k0 to k1 ... and back to an earlier one."""
    case = {"g": C.gen_content(rng, "g"), "im": C.gen_content(rng, "im") if rng.random() < .6 else None, "ret": None,
            "dm": [C.gen_content(rng, "retrieval", .1) for _ in range(rng.randint(1, 3))], "delay": 0,
            "params": {"strict_harvesting": rng.random() < .3, "rule_firing": .05}, "rules": []}
    case["g"]["s"] = "k0"
    for f in case["dm"]:
        f["k"] = f["k"] or "v1"
    if case["im"]:
        case["im"]["a"] = case["im"]["a"] or "v1"
    state = {"g": dict(case["g"]), "im": dict(case["im"]) if case["im"] else None}
    n = rng.randint(2, 5)
    requested = None
    for i in range(n):
        binds = {}
        dens = rng.choice([.2, .5])
        lhs = [["g", C.gen_test(rng, "g", state["g"], binds, dens)]]
        if state["im"] is not None and rng.random() < .5:
            lhs.append(["im", C.gen_test(rng, "im", state["im"], binds, dens)])
        rhs = []
        if requested is not None and rng.random() < .8:
            lhs.append(["retrieval", C.gen_test(rng, "retrieval", requested, binds, .5)])
            rhs.append(["~", "retrieval", None])
            requested = None
        lhs = [e for e in lhs if e[1]]
        rhs += [e for e in C.gen_actions(rng, state, binds, "k%d" % (i + 1) if i + 1 < n else "k%d" % rng.choice([0, 0, 0, n]))]
        if rng.random() < .3 and ["~", "retrieval", None] not in rhs:
            pat = C.gen_request(rng, case["dm"], {})
            rhs.append(["+", "retrieval", pat])
            ok = [f for f in case["dm"] if all(C.value(c, {}) == f[s] for s, c in pat.items())]
            requested = ok[-1] if ok else None
        case["rules"].append({"lhs": lhs, "query": [], "rhs": rhs})
    case["u"] = rng.choice([-1, -1, -1, 1])
    case["time"] = rng.choice([.4, .8, 1.3])
    case["form"] = rng.choice(["func", "text"])
    return case


def parts(name):
    return [p for p in name.replace(" and ", " ").split() if p[0] == "r"]


def history(case, compilation, limit):
    """[(rules fired so far, their state)], names of the rules, ended?"""
    reset_globals(1)
    m = C.new(case, production_compilation=compilation)
    C.set_rules(m, [("r%d" % i, r) for i, r in enumerate(case["rules"])], case.get("form"), utility=case["u"])
    sim = new_sim(m)
    count, out, selected = 0, [], []
    fired = []
    error = None
    while True:
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            ended = True
            break
        except ACTRError as e:
            error, ended = e, True
            break
        e = sim.current_event
        if e.time > limit:
            ended = False
            break
        if e.action.startswith("RULE FIRED: "):
            fired += parts(e.action[12:])
            selected.append(e.action[12:])
        if e.action == "CONFLICT RESOLUTION":
            out.append((len(fired), {"g": buf_canon(m.goals["g"]), "im": buf_canon(m.goals["im"])}))
    return m, fired, out, ended, selected, error


def check_chain(case, ctx):
    m0, f0, h0, end0, _, err0 = history(case, False, case["time"] * 8)
    m1, f1, h1, end1, sel, err1 = history(case, True, case["time"])
    need(all(not n.count(" and ") for n in m0.productions), "rules were compiled although production compilation is off")
    if err0 is not None:
        return ctx.label("rejected")
    need(err1 is None, "with production compilation, the run stops with %s", err1)
    k = min(len(f0), len(f1))
    need(f1[:k] == f0[:k], "compiled rules change what happens: without compilation %s fire, with it %s", f0[:k], sel)
    if not end0 and len(f0) < len(f1):
        ctx.label("short")
    elif end0:
        need(len(f1) <= len(f0) and (not end1 or len(f1) == len(f0)), "without compilation %s fire, with it %s (%s)", f0, f1, sel)
    states = dict(h0)
    for n, s in h1:
        if n in states:
            need(states[n] == s, "after the first %d rules (%s) the buffers are %s without compilation and %s with it (%s)", n, f0[:n], states[n], s, sel)
    # no duplicates, all of them named after their parents
    texts = {}
    for name in m1.productions:
        rule = m1.productions[name]["rule"]()
        text = [rule_text(next(rule)), rule_text(next(rule))]
        for other in texts:
            if parts(other) == parts(name):
                need(texts[other] != text, "%s and %s are the same rule", name, other)
        texts[name] = text
    ctx.label("cycles" if len(f0) > 2 * len(case["rules"]) else "once", *(["compiled of compiled"] if any(len(parts(s)) > 2 for s in sel) else []), *(["parents preferred"] if case["u"] > 0 else []))
    ctx.nontrivial(any(len(parts(s)) > 1 for s in sel) or case["u"] > 0 and len(f1) > 2)


# ------------------------------------------------------------------ again

def gen_again(rng):
    """Two rules that fire in succession repeatedly, in different states and with different facts in memory."""
    while True:
        case = C.gen_pair(rng)
        if any(b == "retrieval" and s == "+" for s, b, p in case["r1"]["rhs"]) or rng.random() < .3:
            break
    if rng.random() < .4:      # what the second rule does does not depend on what was retrieved
        case["r2"]["rhs"] = [[s, b, {x: c if "v" in c else {"v": rng.choice(C.VALS)} for x, c in p.items()} if b in ("g", "im") and p else p] for s, b, p in case["r2"]["rhs"]]
    case["runs"] = [{"g": case["g"], "im": case["im"], "ret": case["ret"], "dm": case["dm"]}]
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .25:
            case["runs"].append(rng.choice(case["runs"]))
            continue
        c = {"g": dict(case["g"]), "im": dict(case["im"]) if case["im"] else None, "ret": case["ret"], "dm": [dict(f) for f in case["dm"]]}
        for f in c["dm"]:
            if rng.random() < .8:
                f[rng.choice(C.SLOTS_OF["retrieval"])] = rng.choice(C.VALS)
        rng.shuffle(c["dm"])
        if rng.random() < .4:
            b = rng.choice(["g", "im"])
            if c[b]:
                c[b][rng.choice([s for s in c[b] if s != "s"])] = rng.choice(C.VALS)
        case["runs"].append(c)
    return case


def check_again(case, ctx):
    known = {}      # names and rules composed so far
    for i, c in enumerate(case["runs"]):
        now = {**case, **c}

        def go(carried, compilation=True):
            reset_globals(1)
            m = C.new(now, production_compilation=compilation)
            C.set_rules(m, [("r1", case["r1"]), ("r2", case["r2"])], case.get("form"), utility=2)
            for name in carried:
                m.productions[name] = carried[name]
            try:
                return m, C.run(m)[1], None
            except ACTRError as e:
                return m, [], e
        m0, log0, err0 = go({}, False)
        m1, log1, err1 = go({})
        m, log, err = go(known)
        if err0 is not None:
            ctx.label("rejected")
            continue
        need(err1 is None and err is None, "with production compilation, the run stops with %s", err1 or err)
        f = C.fired(log0)
        need(C.fired(log) == f, "%s fire without compilation and %s with the rules %s, whose utility is lower", f, C.fired(log), sorted(known))
        texts = {}
        for name in m.productions:
            if len(parts(name)) < 2:
                continue
            rule = m.productions[name]["rule"]()
            texts[name] = [rule_text(next(rule)), rule_text(next(rule))]
            for other in texts:
                need(other == name or texts[other] != texts[name], "%s and %s are the same rule", name, other)
        for name in known:
            need(m.productions[name]["rule"] is known[name]["rule"], "%s is replaced by another rule when the same rules fire again", name)
        if f != ["r1", "r2"] or "r1 and r2" not in m1.productions:
            ctx.label("no succession" if f != ["r1", "r2"] else "blocked")
            continue
        want, found = C.outcome(m0, log0), []
        for name in texts:
            m2, log2 = alone(now, m.productions[name])
            if C.fired(log2) == ["r1 and r2"]:
                found.append(C.outcome(m2, log2) == want)
        need(any(found), "in run %d, the rules composed so far, %s, do not include one that does what the two rules did", i + 1, sorted(texts))
        ctx.label("run %d: %s" % (i + 1, "new rule" if len(texts) > len(known) else "known rule"))
        if len(texts) > 1 or len(texts) == len(known):
            ctx.nontrivial()
        known = {name: m.productions[name] for name in texts}


# ------------------------------------------------------------------ noisy

def gen_noisy(rng):
    """A few rules for goal and imaginal buffer, any of which might follow any other one."""
    case = {"g": C.gen_content(rng, "g"), "im": C.gen_content(rng, "im"), "ret": None, "dm": [], "delay": 0,
            "params": {"strict_harvesting": rng.random() < .2, "rule_firing": .05, "subsymbolic": True, "utility_noise": rng.choice([.5, 1])}, "rules": []}
    case["g"]["s"] = "k0"
    if not any(case["im"].values()):
        case["im"]["a"] = "v1"
    state = {"g": dict(case["g"]), "im": dict(case["im"])}
    shifts = rng.random() < .3
    for i in range(rng.randint(2, 3)):
        if shifts:
            case["rules"].append(gen_shift(rng, case, i))
            continue
        binds = {}
        dens = rng.choice([.2, .5])
        lhs = [["g", C.gen_test(rng, "g", state["g"], binds, dens)]]
        if state["im"] is not None and rng.random() < .4:
            lhs.append(["im", C.gen_test(rng, "im", state["im"], binds, dens)])
        if rng.random() < .7:
            lhs[0][1].pop("s")
        lhs = [e for e in lhs if e[1]]
        rhs = C.gen_actions(rng, state, binds, "k%d" % (i + 1))
        if not lhs:
            binds.clear()
            lhs.append(["g", {"s": {"x": "x"}}])
            binds["x"] = None
            rhs = [e for e in rhs if not e[2] or not any("x" in c for c in e[2].values())] or [["=", "g", {"s": {"v": "k1"}}]]
        if rhs[0][:2] == ["=", "g"] and rng.random() < .4:
            rhs[0][0] = "@"
        if rng.random() < .5 and rhs[0][2].get("s"):
            rhs[0][2]["s"] = {"v": "k0"}
        case["rules"].append({"lhs": lhs, "query": [], "rhs": rhs})
    case["form"] = rng.choice(["func", "text"])
    case["seed"] = rng.randint(0, 9999)
    case["time"] = rng.choice([.4, .8, 1.5])
    return case


def gen_shift(rng, case, i):
    """A rule that moves values from slot to slot; different rules use the same names of variables."""
    for b, slots in (("g", "spqr"), ("im", "abc")):
        for x in slots:
            case[b][x] = case[b].get(x) if i else rng.choice(C.VALS + ["w%d" % j for j in range(4)])
    tested = rng.sample("spqr", rng.randint(2, 4))
    lhs = [["g", {x: {"x": y} for x, y in zip(tested, rng.sample(["x", "y", "z", "xx"], 4))}]]
    if rng.random() < .4:
        lhs.append(["im", {x: {"x": rng.choice(["u", "uu", "v"])} for x in rng.sample("abc", 1)}])
    have = [c["x"] for e in lhs for c in e[1].values()]
    rhs = [["=", "g", {x: {"x": rng.choice(have)} if rng.random() < .85 else {"v": rng.choice(["w8", "w9"])} for x in rng.sample("spqr", rng.randint(2, 4))}]]
    if len(lhs) > 1:
        rhs.append(["=", "im", {x: {"x": rng.choice(have)} for x in rng.sample("abc", rng.randint(1, 2))}])
    return {"lhs": lhs, "query": [], "rhs": rhs}


def other_states(case, state, name):
    """States that differ in some slots."""
    rng = random.Random("%s %s" % (case["seed"], name))
    for _ in range(3):
        out = {}
        for b, c in state.items():
            if c is not None:
                vals = {x[0]: str(x[1].values) if hasattr(x[1], "values") and not callable(x[1].values) else None for x in c}
                pool = [v for v in vals.values() if v and v != "None"] + ["w1", "v1"]
                for x in vals:
                    if rng.random() < .3:
                        vals[x] = rng.choice(pool + [None])
                out[b] = Chunk(c.typename, **{x: None if v == "None" else v for x, v in vals.items()})
            else:
                out[b] = None
        yield out


def state_of(m):
    return {"g": buf_canon(m.goals["g"]), "im": buf_canon(m.goals["im"])}


def one_rule(case, chunks, i, composed=None):
    """What the rule i (or a composed rule) alone does to the chunks in g and im; None if it does not fire."""
    C.declare()
    m = new_model(strict_harvesting=case["params"]["strict_harvesting"], rule_firing=.05)
    for b in chunks:        # any buffer is taken for a goal buffer
        if b != "g":
            m.set_goal(b, 0)
        if chunks[b] is not None:
            m.goals[b].add(chunks[b])
    if composed:
        m.productions["r"] = composed
    else:
        C.set_rules(m, [("r", case["rules"][i])], "func")
    sim = new_sim(m)
    out = None
    while True:
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            return out
        a = sim.current_event.action
        if a == "CONFLICT RESOLUTION" and sim.current_event.time >= .05:
            return {b: buf_chunk(m.goals[b]) for b in chunks}
        if a == "RULE FIRED: r":
            out = {}


def check_noisy(case, ctx):
    reset_globals(case["seed"])
    m = C.new(case, production_compilation=True)
    names = ["r%d" % i for i in range(len(case["rules"]))]
    C.set_rules(m, list(zip(names, case["rules"])), case["form"])
    sim = new_sim(m)
    steps, rule, before, error = [], None, None, None
    made = []       # (name of a new rule, step at which its first parent fired)
    while not steps or steps[-1][3] < case["time"]:
        if steps and len(parts(steps[-1][0])) > 8:
            break               # conditions of such rules take long
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            break
        except ACTRError as e:
            error = e
            break
        e = sim.current_event
        if e.action.startswith("RULE SELECTED: "):
            before = {b: buf_chunk(m.goals[b]) for b in ("g", "im")}
        elif e.action.startswith("RULE FIRED: "):
            rule = e.action[12:]
        elif e.action.startswith("RULE CREATED: ") and len(steps) > 1 and len(made) < 6:
            made.append((e.action[14:], len(steps) - 2))
        elif e.action == "CONFLICT RESOLUTION" and rule:
            steps.append((rule, before, {b: buf_chunk(m.goals[b]) for b in ("g", "im")}, e.time))
            rule = None
    if error is not None:       # legitimate only if one of the rules cannot do what it says
        steps.append((rule, before, None, None))
    composed, known = 0, {}
    for name, old, new, t in steps:
        now = old
        for p in parts(name):
            key = (p, str(show_state(now)))
            try:
                if key not in known:
                    known[key] = one_rule(case, now, int(p[1:]))
                now = known[key]
            except ACTRError:       # the rule itself is wrong: it does something impossible (e.g. it modifies an empty buffer)
                return ctx.label("rejected")
            need(now is not None, "%s fires in the state %s although %s would not follow", name, show_state(old), p)
        need(new is not None, "%s fails (%s), although its parents could fire in the state %s", name, error, show_state(old))
        a, b = ({k: None if c is None else canon_chunk(c) for k, c in d.items()} for d in (now, new))
        need(a == b, "in the state %s, %s leads to %s, its parts one after the other to %s", show_state(old), name, show_state(new), show_state(now))
        composed = max(composed, len(parts(name)))
    for name, i in made:
        if i + 1 < len(steps) and steps[i + 1][2] is not None:
            old, want = steps[i][1], steps[i + 1][2]
            now = one_rule(case, old, None, m.productions[name])
            need(now is not None, "%s does not match in the state %s in which its parents %s and %s fired", name, show_state(old), steps[i][0], steps[i + 1][0])
            a, b = ({k: None if c is None else canon_chunk(c) for k, c in d.items()} for d in (now, want))
            need(a == b, "in the state %s, %s leads to %s, its parents %s and %s led to %s", show_state(old), name, show_state(now), steps[i][0], steps[i + 1][0], show_state(want))
            ctx.label("same state")
            for state in other_states(case, old, name):
                try:
                    want = one_rule(case, state, None, m.productions[steps[i][0]])
                    want = want and one_rule(case, want, None, m.productions[steps[i + 1][0]])
                except ACTRError:
                    continue
                try:
                    now = one_rule(case, state, None, m.productions[name])
                except ACTRError as e:
                    need(False, "in the state %s, %s fails (%s), its parents %s and %s lead to %s", show_state(state), name, e, steps[i][0], steps[i + 1][0], want and show_state(want))
                a, b = (d and {k: None if c is None else canon_chunk(c) for k, c in d.items()} for d in (now, want))
                need(a == b, "in the state %s, %s leads to %s, its parents %s and %s to %s", show_state(state), name, now and show_state(now), steps[i][0], steps[i + 1][0], want and show_state(want))
                ctx.label("other state: " + ("both" if b else "neither"))
    ctx.label("of %s rules" % (composed if composed < 3 else "3-5" if composed < 6 else "6+"), case["form"])
    ctx.nontrivial(composed > 1)


# ------------------------------------------------------------------ reader

def gen_reader(rng):
    """Rules that read words which come one after the other and are buffered automatically."""
    words = [rng.choice("ABC") for _ in range(rng.randint(3, 6))]
    rules = []
    for i in range(rng.randint(2, 4)):
        lhs, rhs, binds = {}, {}, []
        if rng.random() < .5:
            lhs["s"] = {"v": rng.choice(["k0", "k0", "k1"])}
        for s in "pq":
            if rng.random() < .2:
                lhs[s] = rng.choice([{"v": rng.choice("ABC")}, {"nv": [rng.choice("ABC")]}, {"x": s}])
                binds += [s] if "x" in lhs[s] else []
        r = {"lhs": [["g", lhs]], "query": [], "rhs": [["=", "g", rhs]]}
        if rng.random() < .75:
            vis = rng.choice([{"v": rng.choice(words)}, {"v": rng.choice(words)}, {"x": "w"}, {"x": "p"}, {"nv": [rng.choice(words)]}, {"x": "w", "nv": [rng.choice(words)]}])
            r["lhs"].append(["visual", {"value": vis}])
            if vis.get("x") and vis["x"] not in binds:
                binds.append(vis["x"])
            if rng.random() < .6:
                r["rhs"].append(["~", "visual", None])
        elif rng.random() < .3:
            r["query"].append(["visual", rng.choice([{"buffer": "full"}, {"buffer": "empty"}])])
        if not lhs:
            lhs["r"] = {"x": "r"}
            binds.append("r")
        rhs["s"] = {"v": rng.choice(["k0", "k0", "k1"])}
        for s in "pqr":
            if rng.random() < .4:
                rhs[s] = {"x": rng.choice(binds)} if binds and rng.random() < .7 else {"v": rng.choice("ABC")}
        rules.append(r)
    times = []
    for w in words:
        times.append(rng.choice([.103, .156, .205, .352, .504]))      # nothing happens at the time of a rule

    return {"words": words, "times": times, "g": {"s": "k0", "p": rng.choice(["A", "B", None]), "q": "C", "r": "A"}, "rules": rules, "u": rng.choice([1, 1, -1]),
            "params": {"strict_harvesting": rng.random() < .3}, "form": rng.choice(["func", "text"])}


def reader_run(case, compilation):
    """(time, state when the rule was selected, rule, state at the next conflict resolution)"""
    reset_globals(1)
    C.declare()
    env = pyactr.Environment(focus_position=(100, 100))
    m = new_model(env, production_compilation=compilation, rule_firing=.05, emma_noise=False, **case["params"])
    m.goals["g"].add(Chunk("go", **case["g"]))
    vis = m.visualBuffer("visual", "visual_location", m.decmem)[0]
    C.set_rules(m, [("r%d" % i, r) for i, r in enumerate(case["rules"])], case["form"], utility=case["u"])
    sim = m.simulation(realtime=False, trace=False, gui=False, environment_process=env.environment_process,
                       stimuli=[{"w": {"text": w, "position": (100, 100)}} for w in case["words"]], triggers=["A"] * len(case["words"]), times=list(case["times"]))
    end = sum(case["times"]) + .3
    out, log, rule, before, error = [], [], None, None, None

    def state():
        return {"g": buf_chunk(m.goals["g"]), "visual": buf_chunk(vis)}
    for _ in range(400):
        snap = state()
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            break
        except ACTRError as e:
            error = e
            break
        e = sim.current_event
        if e.time > end:
            break
        log.append((e.time, e.proc, e.action))
        if e.action.startswith("RULE FIRED: "):
            rule, before = e.action[12:], snap
        elif e.action == "CONFLICT RESOLUTION" and rule:
            out.append((rule, before, state(), e.time))
            rule = None
        elif rule and e.proc in ("visual", "visual_location") and e.action != "CLEARED":
            rule = None         # the environment acts at the same time
    return out, [e for e in log if not e[2].startswith(("RULE CREATED", "RULE RE-CREATED"))], error


def check_reader(case, ctx):
    C.TYPES.setdefault("visual", "_visual")
    out0, log0, err0 = reader_run(case, False)
    out1, log1, err1 = reader_run(case, True)
    if err0 is not None:
        return ctx.label("rejected")
    need(err1 is None, "with production compilation, the run stops with %s", err1)
    if case["u"] > 0:
        k = min(len(log0), len(log1))
        need(log0[:k] == log1[:k], "compiled rules, whose utility is lower, change the run: %s", [(a, b) for a, b in zip(log0, log1) if a != b][:1])
        need(k > 200 or len(log0) == len(log1), "with compiled rules, whose utility is lower, the run ends elsewhere: %s", (log0[k:] + log1[k:])[:1])
        ctx.label("parents preferred")
        return ctx.nontrivial(len({r for r, _, _, _ in out0}) > 1)
    known, composed = {}, 1
    for name, old, new, t in out1:
        now = old
        if len(parts(name)) > 6:
            break
        for p in parts(name):
            key = (p, str(show_state(now)))
            if key not in known:
                known[key] = one_rule(case, now, int(p[1:]))
            need(known[key] is not None, "%s fires at %s in the state %s although %s would not follow", name, t, show_state(old), p)
            now = known[key]
        a, b = ({k: None if c is None else canon_chunk(c) for k, c in d.items()} for d in (now, new))
        need(a == b, "in the state %s, %s leads to %s, its parts one after the other to %s", show_state(old), name, show_state(new), show_state(now))
        composed = max(composed, len(parts(name)))
    ctx.label("of %s rules" % (composed if composed < 3 else "3+"))
    ctx.nontrivial(composed > 1)


def show_state(d):
    return {b: str(c) for b, c in d.items()}


def rule_text(side):
    return sorted((k, repr(v) if isinstance(v, Chunk) else canon_json(v)) for k, v in side.items())


SUBS = [
    Sub("pair", gen_pair, check_pair, 1500, 60000,
        "two rules over goal, imaginal (with or without delay), retrieval and motor buffers that fire one after the other; the compiled rule alone, started in the same state, has to leave the same buffers and key presses, and the run with compilation has to be the run without it; non-trivial: a rule was compiled and compared", shards=6),
    Sub("states", gen_states, check_states, 900, 40000,
        "the same for three other states, in which the compiled rule (without retrieval) has to fire and do the same exactly if the two rules fire; non-trivial: at least the first parent fires in one of them", shards=6),
    Sub("chain", gen_chain, check_chain, 600, 30000,
        "cycles of up to five rules whose compiled rules take over (their utility is higher), rules compiled from compiled rules included; the parents that fire and the buffers after them have to be those of the run without compilation; non-trivial: a compiled rule fired", shards=6),
    Sub("again", gen_again, check_again, 400, 16000,
        "two rules that fire in succession in two to four runs with other facts in memory or other buffers, the rules composed in former runs (whose utility is lower) being kept; after each run, one of the composed rules, alone, has to do what the two rules did, former ones have to be kept and no two may be the same; non-trivial: a rule was re-created, or another one created beside the former ones", shards=6),
    Sub("noisy", gen_noisy, check_noisy, 500, 20000,
        "two or three rules for goal and imaginal buffer, chosen with utility noise, so that rules are composed in any order and depth; every composed rule that fires has to lead where its parts lead, fired alone one after the other from the same state, and may only fire if they can; non-trivial: a composed rule fired", shards=6),
    Sub("reader", gen_reader, check_reader, 500, 20000,
        "two to four rules that read words which the environment shows one after the other and the visual module buffers; if the rules have higher utility than composed ones, the run has to be the one without compilation; otherwise, every composed rule that fires has to lead where its parts lead from the same state; non-trivial: two rules fired (the first) or a composed rule fired (the second)", shards=6),
]
