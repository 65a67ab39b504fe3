"""C31 No wake-up is lost: a quiescent model has no applicable rule."""
from ..core import Sub, need, Violation
from ..lib import *
from .. import worlds as W

DONE = {"manual": "MOVEMENT FINISHED", "visual_location": "ENCODED LOCATION", "im": ("CREATED A CHUNK", "MODIFIED"), "g": ("CREATED A CHUNK", "MODIFIED"),
        "retrieval": "RETRIEVED: "}


def gen(rng):
    spec = W.gen_world(rng, utils=[0, 0, 1, 2])
    spec["start"] = rng.choice([0, 0, 0, 1.5])
    # screens that change when rules fire or modules finish
    if spec["env"] and rng.random() < .5:
        f = spec["params"]["rule_firing"]
        spec["env"]["times"] = [rng.choice([f, 2 * f, f + 0.085, .25, .3]) for _ in spec["env"]["times"]]
    return {"model": spec, "seed": rng.randint(0, 9999)}


def finished(req, key, act):
    """Does the event finish the request?"""
    name = key[1:]
    if name == "visual":
        cmd = req["s"].get("cmd", {}).get("v")
        return act.startswith("VISUAL STOPPED") if cmd == "clear" else act.startswith("SHIFT COMPLETE")
    return act.startswith(DONE[name])


def check(case, ctx):
    spec = case["model"]
    rules = {r["n"]: r for r in spec["rules"]}
    m, env = W.build(spec)
    sim = W.simulate(spec, m, env)
    np.random.seed(case["seed"])
    try:
        tr = drive(sim, 160)
    except ACTRError:
        ctx.label("rejected")
        return
    # every change is followed by a conflict resolution
    state, due = "rule", None
    for t, proc, act in tr.events:
        if due is not None and t > due[0] and state == "idle":
            raise Violation("%s of %s at %s is followed by no conflict resolution" % (due[2], due[1], due[0]))
        if proc != "PROCEDURAL":
            due = (t, proc, act)
        elif act == "CONFLICT RESOLUTION":
            state, due = "rule", None
        elif act == "NO RULE FOUND":
            state = "idle"
    if tr.ended and due is not None:
        raise Violation("%s of %s at %s is followed by no conflict resolution" % (due[2], due[1], due[0]))
    last = {}
    for t, proc, act in tr.events:
        for key in list(last):
            if proc == key[1:] and finished(last[key][1], key, act):
                del last[key]
        if proc == "ENVIRONMENT":
            last.pop("+visual", None)       # a change of the screen interrupts the preparation of a shift
        if proc == "PROCEDURAL" and act.startswith("RULE FIRED: "):
            for key, val in rules[act[12:]]["rhs"].items():
                if key[0] in "+*":
                    last.pop("+" + key[1:], None)
                    last.pop("*" + key[1:], None)
                    last[key] = (t, val)
                elif key[0] == "~":     # clearing is no request, but a cleared retrieval or goal stays as it is
                    pass
    if tr.ended:
        need(not last, "the run ends although the requests %s never complete", {k: v[0] for k, v in last.items()})
        for name, (content, attrs) in W.snapshot(m).items():
            busy = [a for a, v in attrs.items() if v == "busy"]
            need(not busy, "the run has ended but %s is %s", name, " and ".join("%s busy" % b for b in busy))
    # the same run again, looked at between any two moments at which something happens
    m2, env2 = W.build(spec)
    sim2 = W.simulate(spec, m2, env2)
    np.random.seed(case["seed"])
    idle, looks, waits = False, 0, 0
    for i, (t, proc, act) in enumerate(tr.events):
        if proc == "PROCEDURAL":
            idle = act == "NO RULE FOUND"
        nxt = tr.events[i + 1][0] if i + 1 < len(tr.events) else t + 1 if tr.ended else None
        if nxt is None or nxt - t < 2e-4 or not idle:
            continue
        sim2.run((t + nxt) / 2)
        snap = W.snapshot(m2)
        looks += 1
        for n, r in rules.items():
            need(not W.ref_lhs(r["lhs"], snap), "after %s nothing happens until %s, but rule %s could fire: %s", t, nxt if i + 1 < len(tr.events) else "the end", n, snap)
        waits += i + 1 < len(tr.events)
    ctx.label("ended" if tr.ended else "cut")
    if waits:
        ctx.label("waits")
    ctx.nontrivial(looks and len({p for _, p, _ in tr.events}) >= 2)


SUBS = [Sub("quiescence", gen, check, 1600, 60000,
            "random models of all modules; whenever no rule is in progress and time passes, and at the end, no rule may hold in the observed buffers and states; non-trivial: at least one such moment and a module besides the procedural one", shards=8, shrink=W.shrink_field("model"))]
