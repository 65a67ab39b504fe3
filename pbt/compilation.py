"""Pairs of rules that fire in succession, for the checks of production compilation (C25, C26).

A case: {"g", "im": {slot: value} or None, "dm": [{slot: value}], "r1", "r2": rule, "params": {...}, "delay": delay of im}
A rule: {"lhs": [[buffer, pattern]], "query": [[buffer, {test: value}]], "rhs": [[sign, buffer, pattern or None]]}
"""
from .lib import *

TYPES = {"g": "go", "im": "img", "retrieval": "fct", "manual": "_manual"}
SLOTS_OF = {"g": ["s", "p", "q", "r"], "im": ["a", "b", "c"], "retrieval": ["k", "l", "m"]}
VALS = ["v1", "v2", "v3", "3"]
VARS = ["x", "y", "z", "xx", "v1"]


def declare():
    pyactr.chunktype("go", SLOTS_OF["g"])
    pyactr.chunktype("img", SLOTS_OF["im"])
    pyactr.chunktype("fct", SLOTS_OF["retrieval"])


def gen_content(rng, buf, empty=.2):
    return {s: None if rng.random() < empty else rng.choice(VALS) for s in SLOTS_OF[buf]}


def gen_test(rng, buf, content, binds, dens=.6):
    """A pattern that content satisfies; adds to binds."""
    out = {}
    for s in SLOTS_OF[buf]:
        v = content.get(s)
        if s == "s" and buf == "g":
            out[s] = {"v": v}
            continue
        if rng.random() > dens:
            continue
        c = {}
        k = rng.random()
        if k < .3:
            c["v"] = v if v is not None else "None"
        elif k < .75:
            ok = [x for x in VARS if x not in binds or binds[x] == v]
            if not ok:
                continue
            c["x"] = rng.choice(ok)
            binds[c["x"]] = v
            if v is None:
                continue
        if k >= .65:
            ns = [w for w in VALS if w != v]
            if rng.random() < .5 and not (c.get("v")):
                c["nv"] = rng.sample(ns, min(len(ns), rng.choice([1, 1, 2])))
            if not c.get("nv") or rng.random() < .4:
                nx = [x for x in binds if binds[x] not in (v, None)]
                if nx:
                    c["nx"] = rng.sample(nx, min(len(nx), rng.choice([1, 1, 2])))
        if c:
            out[s] = c
    return out


def gen_rhs(rng, buf, binds, dens=.6, control=None, empty=.1):
    out = {}
    for s in SLOTS_OF[buf]:
        if control and s == "s":
            out[s] = {"v": control}
        elif rng.random() < dens:
            xs = [x for x in binds if binds[x] is not None]
            if xs and rng.random() < .6:
                out[s] = {"x": rng.choice(xs)}
            elif rng.random() < empty:
                out[s] = {"v": "None"}
            else:
                out[s] = {"v": rng.choice(VALS)}
    return out


def value(c, binds):
    if "x" in c:
        return binds[c["x"]]
    return None if c.get("v") in (None, "None") else c["v"]


def after(content, sign, pat, binds):
    if sign == "~":
        return None
    new = {s: value(c, binds) for s, c in pat.items()}
    if sign in "+@":
        return {s: new.get(s) for s in (SLOTS_OF["g"] if "s" in pat or set(pat) <= set(SLOTS_OF["g"]) and not set(pat) <= set(SLOTS_OF["im"]) else SLOTS_OF["im"])}
    return {**content, **new}


def gen_actions(rng, state, binds, control):
    """RHS entries; changes state."""
    rhs = []
    sign = "=" if rng.random() < .75 else rng.choice("++@*")
    pat = gen_rhs(rng, "g", binds, control=control)
    if sign == "=" and rng.random() < .2:
        pat = {"s": pat["s"]}
    rhs.append([sign, "g", pat])
    new = {s: value(c, binds) for s, c in pat.items()}
    state["g"] = {**state["g"], **new} if sign in "=*" else {s: new.get(s) for s in SLOTS_OF["g"]}
    k = rng.random()
    if state.get("im") is not None and k < .3:
        pat = gen_rhs(rng, "im", binds)
        if pat:
            rhs.append([rng.choice("==*"), "im", pat])
            state["im"] = {**state["im"], **{s: value(c, binds) for s, c in pat.items()}}
    elif k < .55:
        pat = gen_rhs(rng, "im", binds, dens=.8)
        if any(value(c, binds) is not None for c in pat.values()):
            rhs.append(["+", "im", pat])
            state["im"] = {s: value(pat[s], binds) if s in pat else None for s in SLOTS_OF["im"]}
    elif k < .65:
        rhs.append(["~", "im", None])
        state["im"] = None
    return rhs


def gen_request(rng, facts, binds):
    f = rng.choice(facts)
    pat = {}
    for s in SLOTS_OF["retrieval"]:
        if rng.random() < .6 and f[s] is not None:
            xs = [x for x in binds if binds[x] == f[s]]
            if xs and rng.random() < .7:
                pat[s] = {"x": rng.choice(xs)}
            else:
                pat[s] = {"v": f[s]}
    if not pat:
        pat = {"k": {"v": f["k"] or "v1"}}
    if rng.random() < .15:
        pat["m"] = {"v": "nope"}
    return pat


def gen_pair(rng):
    case = {"g": gen_content(rng, "g"), "im": gen_content(rng, "im") if rng.random() < .6 else None,
            "dm": [gen_content(rng, "retrieval", .1) for _ in range(rng.randint(1, 3))], "delay": rng.choice([0, 0, .2])}
    case["g"]["s"] = "k0"
    case["ret"] = rng.choice(case["dm"]) if rng.random() < .15 else None
    if case["im"] and not any(case["im"].values()):
        case["im"]["a"] = "v1"
    for f in case["dm"] + ([case["ret"]] if case["ret"] else []):
        if not any(f.values()):
            f["k"] = "v1"
    case["params"] = {"strict_harvesting": rng.random() < .35, "rule_firing": rng.choice([.05, .0701]), "utility_learning": rng.random() < .3}
    state = {"g": dict(case["g"]), "im": dict(case["im"]) if case["im"] else None}
    rules = []
    requested = case["ret"]
    for i in (1, 2):
        binds = {}
        lhs = [["g", gen_test(rng, "g", state["g"], binds)]]
        if state["im"] is not None and rng.random() < .6:
            lhs.append(["im", gen_test(rng, "im", state["im"], binds)])
        query = []
        used = False
        if requested is not None and rng.random() < .6:
            used = True
            lhs.append(["retrieval", gen_test(rng, "retrieval", requested, binds)])
        elif requested is not None and rng.random() < .4:
            query.append(["retrieval", rng.choice([{"state": "busy"}, {"state": "error"}, {"state": "free"}, {"buffer": "full"}])])
        elif i == 2 and requested is None and any(e[1] == "retrieval" for e in rules[0]["rhs"]) and rng.random() < .7:      # the request of the first rule fails
            query.append(["retrieval", rng.choice([{"state": "error"}, {"state": "error"}, {"state": "free"}, {"buffer": "empty"}])])
        lhs = [e for e in lhs if e[1]]
        if rng.random() < .15:
            query.append(rng.choice([["g", {"buffer": "full"}], ["im", {"buffer": "full"}], ["im", {"state": "free"}], ["g", {"state": "free"}], ["manual", {"state": "free"}], ["manual", {"state": "busy"}]]))
        rng.shuffle(lhs)
        rhs = gen_actions(rng, state, binds, "k%d" % i)
        if i == 1 and rng.random() < .55 or i == 2 and rng.random() < .15:
            pat = gen_request(rng, case["dm"], binds)
            rhs.append(["+", "retrieval", pat])
            ok = [f for f in case["dm"] if all(value(c, binds) == f[s] for s, c in pat.items())]
            requested = ok[-1] if ok else case["ret"] if i == 1 else None      # a failure leaves what was in the buffer
        elif i == 2 and (used and rng.random() < .8 or rng.random() < .05):
            rhs.append(["~", "retrieval", None])
        if rng.random() < .15:
            rhs.append(["+", "manual", {"cmd": {"v": "press_key"}, "key": {"v": rng.choice("ajk")}}])
        if rng.random() < .1:
            rhs.append(["?", "retrieval", {"recently_retrieved": rng.choice([False, "False"])}]) if rng.random() < 0 else None
        rng.shuffle(rhs)
        rules.append({"lhs": lhs, "query": query, "rhs": rhs})
    case["r1"], case["r2"] = rules
    case["form"] = rng.choice(["func", "text"])
    return case


def rule_fn(name, rule, **kw):
    def lhs():
        d = {"=" + b: real_pattern({"t": TYPES[b], "s": p}) for b, p in rule["lhs"]}
        for b, q in rule["query"]:
            d["?" + b] = dict(q)
        return d

    def rhs():
        return {sign + b: None if p is None else real_pattern({"t": TYPES[b], "s": p}) for sign, b, p in rule["rhs"]}
    return make_rule(name, lhs, rhs, **kw)


def new(case, content=None, **params):
    declare()
    content = content or case
    m = new_model(**{**case["params"], **params})
    im = m.set_goal("im", case["delay"])
    for f in case["dm"]:
        m.decmem.add(Chunk("fct", **f))
    m.goals["g"].add(Chunk("go", **content["g"]))
    if content.get("ret"):
        m.retrieval.add(Chunk("fct", **content["ret"]))
    if content["im"]:
        im.add(Chunk("img", **content["im"]))
    return m


def run(m, limit=300):
    """Fired rules and the trace."""
    sim = new_sim(m)
    log = []
    for _ in range(limit):
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            return sim, log, True
        e = sim.current_event
        log.append((e.time, e.proc, e.action))
    return sim, log, False


def fired(log):
    return [a[12:] for t, p, a in log if p == "PROCEDURAL" and a.startswith("RULE FIRED")]


def outcome(m, log):
    bufs = {"g": m.goals["g"], "im": m.goals["im"]}
    out = {k: buf_canon(b) for k, b in bufs.items()}
    out["retrieval"] = buf_canon(m.retrieval) if not m.retrievals else buf_canon(list(m.retrievals.values())[0])
    out["keys"] = [a for t, p, a in log if a.startswith("KEY PRESSED")]
    return out


def rule_string(rule):
    def part(sign, buf, pat):
        if pat is None:
            return "%s%s>" % (sign, buf)
        out = ["%s%s>" % (sign, buf)]
        if sign == "?":
            return " ".join(out + ["%s %s" % (k, v) for k, v in pat.items()])
        out.append("isa " + TYPES[buf])
        for s, c in pat.items():
            if "v" in c:
                out.append("%s %s" % (s, c["v"]))
            if "x" in c:
                out.append("%s =%s" % (s, c["x"]))
            out += ["%s ~%s" % (s, v) for v in c.get("nv", ())] + ["%s ~=%s" % (s, v) for v in c.get("nx", ())]
        return " ".join(out)
    lhs = [part("=", b, p) for b, p in rule["lhs"]] + [part("?", b, q) for b, q in rule["query"]]
    return "  ".join(lhs) + " ==> " + "  ".join(part(*e) for e in rule["rhs"])


def set_rules(m, rules, form, **kw):
    """Add the named rules [(name, rule)] to the model in the given notation."""
    if form == "text":
        for n, r in rules:
            m.productionstring(name=n, string=rule_string(r), **kw)
    else:
        m.set_productions(*[rule_fn(n, r, **kw) for n, r in rules])
