"""C14 Conflict resolution selects a matching rule of maximal utility."""
from ..core import Sub, need
from ..lib import *
from .. import models as M
from .. import worlds as W


def gen(rng):
    return {"model": M.gen_model(rng, M.FEATS + ("bufvar",), utils=[0, 0, 1, 1, 2.5, -3, 10]), "form": rng.choice(["func", "func", " ", "marked"]),
            "subsymbolic": rng.random() < .5, "firing": rng.choice([0.05, 0.05, 0.03, 0.11])}


def check(case, ctx):
    spec = case["model"]
    spec["params"]["subsymbolic"] = case["subsymbolic"]
    spec["params"].update(retrieval_threshold=-20)
    firing = spec["params"]["rule_firing"] = case["firing"]
    rules = {r["n"]: r for r in spec["rules"]}
    util = {r["n"]: r["u"] for r in spec["rules"]}
    stt = {"sel": None, "n": 0, "decided": 0}
    seen = {}      # snapshots when sides of rules were asked for

    def probe(name, side):
        seen[name, side] = M.snapshot(m)
    m = M.build(spec, case["form"], probe)
    probing = case["form"] in ("func", "marked")
    sim = new_sim(m)

    def on(ev):
        t, proc, act = ev
        snap = M.snapshot(m)
        if proc != "PROCEDURAL":
            return None
        if len(repr(snap)) > 4000:
            return False      # chunks nested in chunks grow exponentially
        if act == "CONFLICT RESOLUTION":
            stt["cr"] = snap
        elif act == "NO RULE FOUND":
            holds = [n for n, r in rules.items() if M.ref_lhs(r["lhs"], stt["cr"])[0]]
            need(not holds, "at %s no rule was found although %s hold in %s", t, holds, stt["cr"])
            ctx.label("none")
        elif act.startswith("RULE SELECTED: "):
            name = act[len("RULE SELECTED: "):]
            holds = [n for n, r in rules.items() if M.ref_lhs(r["lhs"], stt["cr"])[0]]
            need(name in holds, "at %s rule %s was selected, but the rules that hold are %s in %s", t, name, holds, stt["cr"])
            best = max(util[n] for n in holds)
            need(util[name] == best, "at %s rule %s with utility %s was selected, but %s have %s", t, name, util[name], holds, [util[n] for n in holds])
            stt["sel"] = (name, t)
            stt["n"] += 1
            stt["decided"] += len({util[n] for n in holds}) > 1
            if len(holds) < len(rules):
                ctx.label("some-rules-fail")
        elif act.startswith("RULE FIRED: ") or act.startswith("RULE STOPPED FROM FIRING: "):
            stopped = "STOPPED" in act
            need(stt["sel"] is not None, "%s at %s although no rule was selected", act, t)
            name, t0 = stt["sel"]
            need(act.split(": ")[1] == name, "%s selected, then %s", name, act)
            need(tclose(t, t0 + firing), "%s selected at %s, then at %s %s", name, t0, t, act)
            ctx.label("stopped" if stopped else "fired")
            if probing:
                then = seen[name, "lhs"]
                ok = M.ref_lhs(rules[name]["lhs"], then)[0]
                need(ok != stopped, "%s at %s although its left-hand side %s in %s", act, t, "holds" if ok else "does not hold", then)
            stt["sel"] = None
    before = M.snapshot(m)
    drive(sim, 120, on_event=on)
    need(not probing or seen, "no rule was ever tested")
    # whatever was seen while testing at time 0 is the initial state: selection changes nothing
    ctx.nontrivial(stt["n"] >= 2 and len(rules) > 1)
    if stt["decided"]:
        ctx.label("utility-decides")
    if stt["n"] >= 5:
        ctx.label("long")


# ------------------------------------------------------------------ all modules

STATES = {"manual": ("state", "preparation", "processor", "execution"), "visual": ("state", "preparation", "processor", "execution"), "visual_location": ("state",), "retrieval": ("state",), "g": ("state",)}


def gen_query(rng, names):
    out = {}
    for b in rng.sample(names, rng.choice([1, 1, 2])):
        q = {s: rng.choice(["free", "busy", "error"] if b in ("retrieval", "visual_location") else ["free", "busy"]) for s in rng.sample(STATES[b], min(len(STATES[b]), rng.choice([1, 1, 2])))}
        if b not in ("manual",) and rng.random() < .4:
            if rng.random() < .4:
                q = {}
            q["buffer"] = rng.choice(["full", "empty"])
        out["?" + b] = q
    return out


def gen_modules(rng):
    spec = W.gen_world(rng, utils=[0, 0, 1, 2, 5])
    names = ["manual", "retrieval", "g"] + (["visual", "visual_location"] * 2 if spec["env"] else [])
    for i in range(rng.randint(2, 5)):
        lhs = gen_query(rng, sorted(set(names)))
        if rng.random() < .3:
            lhs["=g"] = {"t": "go", "s": {}}
        rhs = {} if rng.random() < .6 else {"=g": {"t": "go", "s": {"s": {"v": rng.choice(["s0", "s1", "s2"])}}}}
        if not rhs:
            rhs = {"?g": {}}
        spec["rules"].append({"n": "look%d" % i, "u": rng.choice([-1, -2, -3, 0]), "r": None, "lhs": lhs, "rhs": rhs})
    rng.shuffle(spec["rules"])
    return {"model": spec, "seed": rng.randint(0, 9999)}


def check_modules(case, ctx):
    spec = case["model"]
    rules = {r["n"]: r for r in spec["rules"]}
    util = {r["n"]: r["u"] for r in spec["rules"]}
    learning = spec["params"].get("utility_learning") or spec["params"].get("production_compilation")
    noise = spec["params"].get("utility_noise") and spec["params"].get("subsymbolic")
    stt = {"look": None, "model": None}

    def probe(name, side):     # rules are looked at during conflict resolution; nothing else happens meanwhile
        if stt["model"] is not None:
            stt["look"] = W.snapshot(stt["model"])
    m, env = W.build(spec, probe=probe)
    stt["model"] = m
    sim = W.simulate(spec, m, env)
    np.random.seed(case["seed"])
    asked, n = set(), 0

    def on(ev):
        nonlocal n
        t, proc, act = ev
        if proc != "PROCEDURAL":
            return None
        if act == "CONFLICT RESOLUTION":
            stt["look"] = W.snapshot(m)
        elif act == "NO RULE FOUND" or act.startswith("RULE SELECTED: "):
            look = stt["look"]
            holds = [x for x, r in rules.items() if W.ref_lhs(r["lhs"], look)]
            for x, r in rules.items():
                for key, val in r["lhs"].items():
                    if key[0] == "?":
                        asked.update((key[1:], s, v, W.ref_lhs({key: {s: v}}, look)) for s, v in val.items())
            if act == "NO RULE FOUND":
                need(not holds, "at %s no rule was found although %s hold in %s", t, holds, look)
            else:
                n += 1
                name = act[len("RULE SELECTED: "):]
                if name in rules:
                    need(name in holds, "at %s rule %s was selected, but the rules that hold are %s in %s", t, name, holds, look)
                    if not noise and not learning:
                        best = max(util[x] for x in holds)
                        need(util[name] == best, "at %s rule %s with utility %s was selected, but %s have %s", t, name, util[name], holds, [util[x] for x in holds])
        return None
    try:
        drive(sim, 160, on_event=on)
    except ACTRError:
        ctx.label("rejected")
    ctx.label(*{"%s %s" % (a, b) for a, b, c, d in asked if d and c != "free"})
    ctx.nontrivial(n >= 3 and any(d and c != "free" for a, b, c, d in asked))


SUBS = [Sub("selection", gen, check, 1800, 30000,
            "random production systems over goal, second goal (with delay) and retrieval with random utilities, rule notation; at every conflict resolution the selected rule is compared with the rules that hold in the observed buffers; non-trivial: at least two selections and two rules", shards=8, shrink=M.shrink_field("model")),
        Sub("modules", gen_modules, check_modules, 800, 20000,
            "random models of all modules with further rules that only query buffers and modules (several at once); at every conflict resolution the selected rule is compared with the rules that hold in the observed buffers and module states; non-trivial: at least three selections and a state other than free that was asked for and held", shards=8, shrink=W.shrink_field("model"))]
