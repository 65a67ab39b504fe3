"""Random models that use every module: buffers, memory, keyboard, vision and an environment.

world spec = model spec (see models.py) plus
  env      None or {"stimuli": [{name: {"text":, "position": [x, y], ...}}, ...], "triggers": [key, ...], "times": [..], "focus": [x, y]}
Rules are those of models.py with conditions and actions on manual, visual and visual_location added.
"""
from .lib import *
from . import models as M

KEYS = ["a", "J", "x", "5", "space", "p", "q"]
TRIG = ["A", "J", "X", "5", "SPACE", "P"]


def gen_stimulus(rng, size=(640, 360)):
    s = {"text": rng.choice(["hi", "yo", "up", "p", "q"]), "position": [rng.randint(0, size[0] - 1), rng.randint(0, size[1] - 1)]}
    if rng.random() < .3:
        s["position"] = [rng.choice([310, 320, 330]), rng.choice([175, 180])]
    if rng.random() < .3:
        s["vis_delay"] = rng.choice([1, 5, 20, 40])
    if rng.random() < .2:
        s["color"] = rng.choice(["red", "blue"])
    return s


def gen_env(rng):
    n = rng.randint(1, 4)
    stim = [{"st%d" % j: gen_stimulus(rng) for j in range(rng.randint(1, 3))} for _ in range(n)]
    return {"stimuli": stim, "triggers": [rng.choice(TRIG) for _ in range(n)], "times": [rng.choice([0.1, 0.25, 0.5, 1, 0.37]) for _ in range(n)],
            "focus": rng.choice([None, None, [0, 0], [320, 180], [600, 20]])}


def add_vision(rng, r):
    lhs, rhs = r["lhs"], r["rhs"]
    k = rng.random()
    if k < .35:
        lhs["?visual_location"] = rng.choice([{"buffer": "empty"}, {"buffer": "full"}, {"state": "free"}, {"state": "error"}])
        if rng.random() < .7:
            s = {}
            if rng.random() < .4:
                s["value"] = {"v": rng.choice(["hi", "yo", "p"])}
            s[rng.choice(["screen_x", "screen_y"])] = {"v": rng.choice(["lowest", "highest", "closest", "onewayclosest"])}
            rhs["+visual_location"] = {"t": "_visuallocation", "s": s}
            if rng.random() < .6:
                rhs["?visual_location"] = {"attended": rng.choice(["False", "False", "True"])}
    elif k < .75:
        lhs["=visual_location"] = {"t": "_visuallocation", "s": {}}
        if rng.random() < .8:
            lhs["?visual"] = {rng.choice(["state", "preparation", "processor", "execution"]): rng.choice(["free", "free", "busy"])}
        rhs["+visual"] = {"t": "_visual", "s": {"cmd": {"v": "move_attention"}, "screen_pos": {"x": "visual_location"}}}
        if rng.random() < .4:
            rhs["~visual_location"] = None
    elif k < .9:
        lhs["=visual"] = {"t": "_visual", "s": {"value": {"x": "vv"}}}
        if rng.random() < .6:
            rhs["~visual"] = None
    else:
        rhs["+visual"] = {"t": "_visual", "s": {"cmd": {"v": "clear"}}}


def add_motor(rng, r):
    if rng.random() < .6:
        r["lhs"]["?manual"] = {rng.choice(["state", "preparation", "processor", "execution"]): rng.choice(["free", "free", "free", "busy"])}
    if rng.random() < .7:
        xs = [c["x"] for k, v in r["lhs"].items() if k == "=g" for c in v["s"].values() if c.get("x")]
        key = {"x": rng.choice(xs)} if xs and rng.random() < .3 else {"v": rng.choice(KEYS)}
        r["rhs"]["+manual"] = {"t": "_manual", "s": {"cmd": {"v": "press_key"}, "key": key}}


def gen_world(rng, env=None, motor=None, feats=("im", "retrieval", "goalset", "star", "strict"), **kw):
    spec = M.gen_model(rng, feats, **kw)
    spec["env"] = gen_env(rng) if env or (env is None and rng.random() < .6) else None
    motor = rng.random() < .7 if motor is None else motor
    vision = bool(spec["env"]) and rng.random() < .8
    for r in spec["rules"]:
        if motor and rng.random() < .5:
            add_motor(rng, r)
        if vision and rng.random() < .5:
            add_vision(rng, r)
    p = spec["params"]
    p.update(emma=rng.random() < .8, emma_noise=rng.random() < .3, automatic_visual_search=rng.random() < .8, motor_prepared=rng.random() < .3,
             rule_firing=rng.choice([.05, .05, .05, .03, .1]))
    if rng.random() < .3:
        p.update(subsymbolic=True, retrieval_threshold=rng.choice([-3, 0]), latency_factor=rng.choice([.1, .05]))
        if rng.random() < .4:
            p.update(instantaneous_noise=.3, utility_noise=rng.choice([0, .5]))
    return spec


def make_env(e):
    kw = {}
    if e["focus"]:
        kw["focus_position"] = tuple(e["focus"])
    return pyactr.Environment(**kw)


def stimuli_of(e):
    return [{n: {**s, "position": tuple(s["position"])} for n, s in screen.items()} for screen in e["stimuli"]]


def declare(spec):
    """Declares all chunk types, so that a run does not depend on chunks made before it."""
    for t, slots in (("go", "abs"), ("img", "ac"), ("fact", "abc")):
        pyactr.chunktype(t, " ".join(slots))
    for t in ("_visual", "_visuallocation"):
        pyactr.makechunk("", t, color="red")


def build(spec, form="func", probe=None):
    """Returns (model, environment or None)."""
    declare(spec)
    env = make_env(spec["env"]) if spec["env"] else None
    m = new_model(environment=env, **spec["params"])
    for name, delay, chunk in spec["goals"]:
        g = m.goals["g"] if name == "g" else m.set_goal(name, delay)
        if chunk is not None:
            g.add(real_chunk(chunk))
    for chunk, ts in spec["dm"]:
        m.decmem.add(real_chunk(chunk), list(ts))
    if spec.get("finst"):
        m.retrieval.finst = spec["finst"]
    M.add_rules(m, spec["rules"], form, probe)
    return m, env


def simulate(spec, m, env, start=None, **kw):
    start = spec["start"] if start is None else start
    if env is not None:
        e = spec["env"]
        kw.update(environment_process=env.environment_process, stimuli=stimuli_of(e), triggers=list(e["triggers"]), times=list(e["times"]))
    return new_sim(m, initial_time=start, **kw)


def shrink_world(spec):
    for x in M.shrink_model(spec):
        yield x
    if spec["env"]:
        e = spec["env"]
        for i in range(len(e["stimuli"])):
            if len(e["stimuli"]) > 1:
                yield {**spec, "env": {**e, **{k: e[k][:i] + e[k][i + 1:] for k in ("stimuli", "triggers", "times")}}}
            for n in e["stimuli"][i]:
                if len(e["stimuli"][i]) > 1:
                    yield {**spec, "env": {**e, "stimuli": [({a: b for a, b in s.items() if a != n} if j == i else s) for j, s in enumerate(e["stimuli"])]}}


def shrink_field(field):
    def f(case):
        for x in shrink_world(case[field]):
            yield {**case, field: x}
    return f

STATES = ("state", "preparation", "processor", "execution", "autoattending")


def all_buffers(m):
    """Buffers by name, those made by simulation() included."""
    for d in vars(m).values():
        if isinstance(d, dict) and "manual" in d and all(hasattr(b, "test_buffer") for b in d.values()):
            return dict(d)
    out = M.buffers_of(m)
    out.update(getattr(m, "visbuffers", {}))
    return out


def snapshot(m):
    """name -> (canonical content or None, {state name: value}) of every buffer."""
    return {n: (buf_canon(b), {a: getattr(b, a) for a in STATES if hasattr(b, a)}) for n, b in sorted(all_buffers(m).items())}


def ref_lhs(lhs, snap):
    """Does a left-hand side hold in a snapshot?"""
    pos, neg = {}, {}
    for key, val in lhs.items():
        content, attrs = snap[key[1:]]
        if key[0] == "=":
            if content is None:
                return False
            ok, pos, neg = ref_match(val, dict(content[1]), pos, neg)
            if not ok:
                return False
        else:
            for q, want in val.items():
                if q == "buffer":
                    if (content is not None) != (want == "full"):
                        return False
                elif attrs[q] != want:
                    return False
    return True


def memories(m):
    return {n: {show(c): [round(t, 6) for t in ts] for c, ts in dm_canon(dm).items()} for n, dm in m.decmems.items()}


def state_of(m):
    """Everything observable about a model that has run, as text."""
    return {"buffers": {n: [None if c is None else show(c), a] for n, (c, a) in snapshot(m).items()},
            "memories": memories(m),
            "utilities": {n: m.productions[n]["utility"] for n in m.productions}}


def observe(spec, seed=0, form="func", limit=160, start=None):
    """Step a new model; returns (events, final state)."""
    m, env = build(spec, form)
    sim = simulate(spec, m, env, start)
    np.random.seed(seed)
    events, end = [], "cut"
    try:
        while len(events) < limit:
            sim.step()
            e = sim.current_event
            events.append([e.time, e.proc, e.action])
    except simpy.core.EmptySchedule:
        end = "ended"
    except ACTRError as e:
        end = "error " + str(e)[:60]
    return events, state_of(m), end


def collapse(xs):
    """Without immediate repetitions."""
    return [x for i, x in enumerate(xs) if not i or xs[i - 1] != x]
