"""Random production systems: JSON specs, strategies, builders.

model spec:
  params   {parameter: value}
  goals    [[name, delay, chunk or None], ...]        first one is always "g"
  dm       [[chunk, [times]], ...]
  rules    [{"n": name, "u": utility, "r": reward, "lhs": {"=g": pattern | "?b": {..}}, "rhs": {...}}]
  start    initial time
  finst    of the retrieval buffer
"""
from .lib import *

PV = ["p", "q", "r"]
CTRL = ["s0", "s1", "s2"]
FEATS = ("im", "retrieval", "goalset", "star", "strict", "nx")


def subset(rng, xs, lo, hi):
    xs = list(xs)
    return rng.sample(xs, min(len(xs), rng.randint(lo, hi)))


def pick(rng, *pairs):
    """Weighted choice of (weight, value)."""
    return rng.choices([v for _, v in pairs], [w for w, _ in pairs])[0]


def gen_rule(rng, feats, buffers, idx):
    """One rule; feats: names of features allowed; buffers: name -> delay."""
    lhs, rhs, bound, bufvar = {}, {}, [], []
    plain = idx == 0 or rng.random() < .35      # few conditions, so that runs go on

    def con(other=None):
        if other in buffers and "bufvar" in feats and rng.random() < .08:
            return {"x": other} if rng.random() < .7 else {"nx": [other]}      # =im in a slot of another buffer
        k = "x" if plain else pick(rng, (6, "x"), (2, "v"), (1, "nv"), (1, "nx"))
        if k == "v":
            return {"v": rng.choice(PV)}
        if k == "x":
            x = rng.choice(VARS)
            bound.append(x)
            return {"x": x}
        if k == "nv":
            return {"nv": subset(rng, PV, 1, 2)}
        return {"nx": [rng.choice(VARS)]}

    def fill():
        if "bufvar" in feats and rng.random() < .06:
            tested = [k[1:] for k in lhs if k[0] == "="]
            if tested and not bufvar:
                bufvar.append(1)      # at most once per rule: contents would grow exponentially
                return {"x": rng.choice(tested)}
        if bound and rng.random() < .65:
            return {"x": rng.choice(bound)}
        return {"v": rng.choice(PV)}

    def slots(names, f, lo, hi):
        return {s: f() for s in subset(rng, names, lo, hi)}
    if plain or rng.random() < .92:
        p = {"s": {"v": CTRL[idx % 3] if plain or rng.random() < .7 else rng.choice(CTRL)}}
        if rng.random() < .07:
            p = {"s": {"nv": [rng.choice(CTRL)]}}
        if rng.random() < .6:
            p.update(slots(["a", "b"], lambda: con(rng.choice(["im", "im", "retrieval"])), 1, 2))
        lhs["=g"] = {"t": "go", "s": p}
    else:
        lhs["?g"] = {"buffer": rng.choice(["full", "empty", "empty"])}
    if "im" in buffers and not plain and rng.random() < .5:
        k = pick(rng, (5, "test"), (3, "empty"), (1, "full"), (2, "free"), (2, "busy"))
        if k == "test":
            lhs["?im"] = {"state": "free"}
            lhs["=im"] = {"t": "img", "s": slots(["a", "c"], lambda: con("g"), 0, 2)}
        elif k in ("empty", "full"):
            lhs["?im"] = {"buffer": k, "state": "free"} if rng.random() < .3 else {"buffer": k}
        else:
            lhs["?im"] = {"state": k}
    if "retrieval" in buffers and not plain and rng.random() < .5:
        k = pick(rng, (5, "test"), (2, "error"), (2, "free"), (2, "busy"), (1, "empty"), (1, "full"))
        if k == "test":
            lhs["?retrieval"] = {"state": "free"}
            lhs["=retrieval"] = {"t": "fact", "s": slots(["a", "b"], con, 0, 2)}
        elif k in ("empty", "full"):
            lhs["?retrieval"] = {"buffer": k, "state": "free"}
        else:
            lhs["?retrieval"] = {"state": k}
    for key in list(lhs):      # a variable that names a buffer only makes sense with a test of that buffer
        if key[0] == "=" and rng.random() < .9:
            for c in lhs[key]["s"].values():
                for b in (c.get("x"), *c.get("nx", ())):
                    if b in buffers and "=" + b not in lhs:
                        lhs["=" + b] = {"t": "img" if b == "im" else "go" if b == "g" else "fact", "s": {}}
                        if b != "g":
                            lhs["?" + b] = {"state": "free"}
    if rng.random() < .3:      # the order in which conditions are written
        items = list(lhs.items())
        rng.shuffle(items)
        lhs = dict(items)
    # actions
    nxt = CTRL[(idx + 1) % 3] if rng.random() < .7 else rng.choice(CTRL)
    if "=g" in lhs:
        k = pick(rng, (14, "="), (1, "+"), (1, "@"), (1, "~"), (.5, "@~"), (.5, "~@"), (.3, "=~"), (.3, "~+"), (1, "none")) if "goalset" in feats else pick(rng, (20, "="), (1, "none"))
        for k in k if k != "none" else ():
            rhs[k + "g"] = None if k == "~" else {"t": "go", "s": {"s": {"v": nxt}, **slots(["a", "b"], fill, 0, 2)}}
    elif rng.random() < .7:
        rhs["+g"] = {"t": "go", "s": {"s": {"v": nxt}, **slots(["a", "b"], fill, 1, 2)}}
    if "im" in buffers:
        free = lhs.get("?im", {}).get("state") == "free"
        full = "=im" in lhs
        opts = [(4, ""), (4, "+")]
        if free:
            opts += [(2, "~"), (.5, "~+"), (2, "@"), (.5, "~@"), (.5, "@~")]
        if full:
            opts += [(4, "="), (1, "=~"), (1, "=+")]
            if not buffers["im"] and "star" in feats:
                opts += [(3, "*")]
        for c in pick(rng, *opts):
            rhs[c + "im"] = None if c == "~" else {"t": "img", "s": slots(["a", "c"], fill, 1, 2)}
    if "retrieval" in buffers:
        free = lhs.get("?retrieval", {}).get("state") == "free"
        k = pick(rng, (4, ""), (4, "+"), (1 if free else 0, "~"))
        if k == "~":
            rhs["~retrieval"] = None
        elif k == "+":
            def rc():
                z = pick(rng, (4, "x"), (4, "v"), (1, "nv"), (1, "nx"))
                if z == "x" and bound:
                    return {"x": rng.choice(bound)}
                if z == "nv":
                    return {"nv": subset(rng, PV, 1, 2)}
                if z == "nx" and bound and "nx" in feats:
                    return {"nx": [rng.choice(bound)]}
                return {"v": rng.choice(PV)}
            rhs["+retrieval"] = {"t": "fact", "s": slots(["a", "b", "c"], rc, 1, 2)}
            if "finst" in feats and rng.random() < .5:
                rhs["?retrieval"] = {"recently_retrieved": rng.choice(["False", "True"])}
    if "extra" in feats:      # actions that mention a buffer but change nothing in it
        for b in buffers:
            if rng.random() < .07 and (b == "g" or lhs.get("?" + b, {}).get("state") == "free"):
                rhs["?" + b] = {"attended" if b != "retrieval" else "recently_retrieved": "False"}
            if rng.random() < .05 and (b == "g" or lhs.get("?" + b, {}).get("state") == "free"):
                rhs["!" + b] = ["show", rng.choice("abz")]
    if not rhs:
        if "=g" in lhs:
            rhs["=g"] = {"t": "go", "s": {"s": {"v": nxt}}}
        else:
            rhs["~g"] = None
    if rng.random() < .3:
        items = list(rhs.items())
        rng.shuffle(items)
        rhs = dict(items)
    return {"lhs": lhs, "rhs": rhs}


def gen_model(rng, feats=FEATS, min_rules=2, max_rules=6, params=None, utils=(0,), rewards=(None,)):
    feats = set(feats)
    buffers = {"g": 0}
    g = {"t": "go", "s": {"s": "s0", "a": rng.choice(PV)}}
    if rng.random() < .7:
        g["s"]["b"] = rng.choice(PV)
    goals = [["g", 0, g]]
    same = "bufvar" in feats and rng.random() < .15
    if "im" in feats and rng.random() < .7:
        d = rng.choice([0, 0, 0.0231, 0.0731, 0.137, 0.2223])
        buffers["im"] = d
        goals.append(["im", d, {"t": "img", "s": {"a": rng.choice(PV), "c": rng.choice(PV)}} if same or rng.random() < .5 else None])
        if same:
            g["s"][rng.choice("ab")] = goals[1][2]
    if "retrieval" in feats:
        buffers["retrieval"] = 0
    dm, seen = [], set()
    for _ in range(rng.randint(0, 5)):
        s = {k: rng.choice(PV) for k in subset(rng, ["a", "b", "c"], 1, 3)}
        if repr(sorted(s.items())) not in seen:
            seen.add(repr(sorted(s.items())))
            dm.append([{"t": "fact", "s": s}, sorted(subset(rng, [-10.0, -3.5, -1.0, -0.2], 1, 2))])
    rules = []
    for i in range(rng.choice(range(min_rules, max_rules + 1))):
        r = gen_rule(rng, feats, buffers, i)
        rules.append({"n": "rule%d" % i, "u": rng.choice(utils), "r": rng.choice(rewards), **r})
    rng.shuffle(rules)
    par = dict(params or {})
    if "strict" in feats:
        par["strict_harvesting"] = rng.random() < .35
    return {"params": par, "goals": goals, "dm": dm, "rules": rules, "start": 0, "finst": rng.randint(0, 2) if "finst" in feats else 0}


def shrink_model(spec):
    """Smaller model specs."""
    for key in ("rules", "dm"):
        for i in range(len(spec[key])):
            yield {**spec, key: spec[key][:i] + spec[key][i + 1:]}
    used = {k[1:] for r in spec["rules"] for side in ("lhs", "rhs") for k in r[side]}
    for i, (n, d, c) in enumerate(spec["goals"]):
        if n not in used and n != "g":
            yield {**spec, "goals": spec["goals"][:i] + spec["goals"][i + 1:]}
        if d:
            yield {**spec, "goals": spec["goals"][:i] + [[n, 0, c]] + spec["goals"][i + 1:]}
        if c is not None and n != "g":
            yield {**spec, "goals": spec["goals"][:i] + [[n, d, None]] + spec["goals"][i + 1:]}
    for p in spec["params"]:
        if spec["params"][p] is True:
            yield {**spec, "params": {**spec["params"], p: False}}
    for i, r in enumerate(spec["rules"]):
        for side in ("lhs", "rhs"):
            for k in r[side]:
                if len(r[side]) > 1:
                    nr = {**r, side: {a: b for a, b in r[side].items() if a != k}}
                    if valid_rule(nr):
                        yield {**spec, "rules": spec["rules"][:i] + [nr] + spec["rules"][i + 1:]}
                v = r[side][k]
                if v and k[0] not in "?!":
                    for s in v["s"]:
                        if len(v["s"]) > 1 and s not in ("cmd", "key", "screen_pos"):
                            nv = {"t": v["t"], "s": {a: b for a, b in v["s"].items() if a != s}}
                            nr = {**r, side: {**r[side], k: nv}}
                            if valid_rule(nr):
                                yield {**spec, "rules": spec["rules"][:i] + [nr] + spec["rules"][i + 1:]}
        if r["u"]:
            yield {**spec, "rules": spec["rules"][:i] + [{**r, "u": 0}] + spec["rules"][i + 1:]}
        if r["r"] is not None:
            yield {**spec, "rules": spec["rules"][:i] + [{**r, "r": None}] + spec["rules"][i + 1:]}


def valid_rule(r):
    bound = {c["x"] for k, v in r["lhs"].items() if k[0] == "=" for c in v["s"].values() if c.get("x")}
    bound |= {k[1:] for k in r["lhs"] if k[0] == "="}
    for k, v in r["rhs"].items():
        if v and k[0] not in "?!":
            for c in v["s"].values():
                if c.get("x") and c["x"] not in bound or any(x not in bound for x in c.get("nx", ())):
                    return False
            if k[0] in "=*" and "=" + k[1:] not in r["lhs"]:
                return False
    if r["lhs"].get("=retrieval") and r["lhs"].get("?retrieval", {}).get("state") != "free":
        return False
    if r["lhs"].get("=im") and r["lhs"].get("?im", {}).get("state") != "free":
        return False
    if "~im" in r["rhs"] and r["lhs"].get("?im", {}).get("state") != "free":
        return False
    if "~retrieval" in r["rhs"] and r["lhs"].get("?retrieval", {}).get("state") != "free":
        return False
    for b in ("im", "retrieval"):
        if ("!" + b in r["rhs"] or "?" + b in r["rhs"] and "+" + b not in r["rhs"]) and r["lhs"].get("?" + b, {}).get("state") != "free":
            return False
    return True


def shrink_field(field):
    """Shrinker of cases that carry a model in case[field]."""
    def f(case):
        for x in shrink_model(case[field]):
            yield {**case, field: x}
    return f


def rule_text(rule, gap=" "):
    """The rule in string notation."""
    out = []
    for side in ("lhs", "rhs"):
        if side == "rhs":
            out.append("==>")
        for key, val in rule[side].items():
            out.append(key + ">")
            if val is None:
                continue
            if key[0] == "!":
                out.append(" ".join(val))
            elif key[0] == "?":
                out += ["%s %s" % kv for kv in val.items()]
            else:
                out.append(pattern_text(val))
    return gap.join(out)


def rule_func(rule, route="varval", probe=None):
    """The rule as a generator function; probe(name, "lhs"|"rhs") is called whenever that side is asked for."""
    def side(d):
        return {k: (None if v is None else dict(v) if k[0] == "?" else [list(v)] if k[0] == "!" else real_pattern(v, route)) for k, v in d.items()}
    def get(which):
        if probe is not None:
            probe(rule["n"], which)
        return side(rule[which])
    return make_rule(rule["n"], lambda: get("lhs"), lambda: get("rhs"), rule["u"], rule["r"])


def build(spec, form="func", probe=None):
    """The real model of a spec."""
    m = new_model(**spec["params"])
    for name, delay, chunk in spec["goals"]:
        g = m.goals["g"] if name == "g" else m.set_goal(name, delay)
        if chunk is not None:
            g.add(real_chunk(chunk))
    for chunk, ts in spec["dm"]:
        m.decmem.add(real_chunk(chunk), list(ts))
    if spec.get("finst"):
        m.retrieval.finst = spec["finst"]
    add_rules(m, spec["rules"], form, probe)
    return m


def add_rules(m, rules, form="func", probe=None):
    if form == "func":
        m.set_productions(*[rule_func(r, probe=probe) for r in rules])
    elif form == "marked":
        m.set_productions(*[rule_func(r, "marked", probe) for r in rules])
    else:
        for r in rules:
            m.productionstring(name=r["n"], string=rule_text(r, form), utility=r["u"], reward=r["r"])


def buffers_of(m):
    out = dict(m.goals)
    out.update(m.retrievals)
    return out


def snapshot(m):
    """Observable state of buffers: content and module state."""
    return {n: (buf_canon(b), b.state) for n, b in sorted(buffers_of(m).items())}


def ref_lhs(lhs, snap, full=None):
    """Does a left-hand side hold?  snap: name -> (canonical content or None, state).  Returns (ok, positive bindings)."""
    pos, neg = {}, {}
    for key, val in lhs.items():
        content, state = snap[key[1:]]
        if key[0] == "=":
            if content is None:
                return False, None
            b = key[1:]
            if pos.get(b, content) != content or content in neg.get(b, ()):      # =im in another buffer stands for the chunk in im
                return False, None
            ok, pos, neg = ref_match(val, dict(content[1]), pos, neg)
            if not ok or pos.get(b, content) != content or content in neg.get(b, ()):
                return False, None
            pos[b] = content
        else:
            for q, want in val.items():
                if q == "buffer":
                    if (content is not None) != (want == "full"):
                        return False, None
                elif q == "state":
                    if state != want:
                        return False, None
                else:
                    raise HarnessError("query " + q)
    return True, pos
