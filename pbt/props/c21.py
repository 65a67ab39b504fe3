"""C21 The environment shows each stimulus for its time or until its trigger."""
import copy
from ..core import Sub, need
from ..lib import *
from .. import models as M, worlds as W
from . import c19

POOL = ["A", "J", "Q", "5", "SPACE", "P"]


def gen(rng):
    n = rng.randint(1, 5) if rng.random() < .95 else rng.randint(6, 20)
    how = {"stimuli": rng.choice(["list", "list", "list", "tuple"]), "triggers": rng.choice(["list", "list", "list", "single"]), "times": rng.choice(["list", "list", "single"])}
    screens = []
    for i in range(n):
        if rng.random() < .15:
            screens.append("word%d" % i)
        else:
            screens.append({"st%d_%d" % (i, j): W.gen_stimulus(rng) for j in range(rng.randint(1, 2))})
    if n == 1 or rng.random() < .1:
        how["stimuli"] = "single"
        screens = screens[:1]
    trig = []
    for _ in range(n):
        k = rng.random()
        if k < .6:
            trig.append(rng.choice(POOL))
        elif k < .8:
            trig.append(rng.sample(POOL, 2))
        else:
            trig.append("".join(rng.sample(["A", "J", "Q", "5", "P"], 2)))
        if rng.random() < .4:
            trig[-1] = trig[-1].lower() if isinstance(trig[-1], str) else [x.lower() for x in trig[-1]]
    case = {"screens": screens, "triggers": trig, "times": [rng.choice([.3, .5, .8, 1, 1.5, 3, .2501, 10]) for _ in range(n)], "how": how, "start": rng.choice([0, 0, 2.5, 0.0123, -4]),
            "f": rng.choice([0.05, 0.0507, 0.11]), "prepared": False, "vision": rng.random() < .5}
    if rng.random() < .25:
        case["begin"] = rng.choice([case["start"] + rng.choice([.2, .7302, 2]), case["start"], case["start"] / 2, 1, 3.3])
    case["steps"] = [{"key": rng.choice(POOL) if rng.random() < .7 else None, "if": {"state": "free"} if rng.random() < .7 else {}} for _ in range(rng.randint(0, 8))]
    return case


def full(case):
    """Screens, trigger sets and times, one for each screen that is shown."""
    n = max(len(case["screens"]), len(case["triggers"]) if case["how"]["triggers"] != "single" else 1)
    screens = [{s: {"position": (320, 180)}} if isinstance(s, str) else {k: {**v, "position": tuple(v["position"])} for k, v in s.items()} for s in case["screens"]]
    if len(screens) == 1:
        screens *= n
    trig = [({"SPACE"} if t.upper() == "SPACE" else set(t.upper())) if isinstance(t, str) else {x.upper() for x in t} for t in case["triggers"]]
    if case["how"]["triggers"] == "single":
        trig = trig[:1] * n
    times = case["times"][:1] * n if case["how"]["times"] == "single" else case["times"]
    return screens, trig, times


def arguments(case):
    stim = [s if isinstance(s, str) else {k: {**v, "position": tuple(v["position"])} for k, v in s.items()} for s in case["screens"]]
    stim = stim[0] if case["how"]["stimuli"] == "single" else tuple(stim) if case["how"]["stimuli"] == "tuple" else stim
    trig = [t if isinstance(t, str) else tuple(t) for t in case["triggers"]]
    if case["how"]["triggers"] == "single":
        trig = trig[0] if isinstance(trig[0], str) else trig[:1]
    return {"stimuli": stim, "triggers": trig, "times": case["times"][0] if case["how"]["times"] == "single" else list(case["times"])}


def check(case, ctx):
    screens, trig, times = full(case)
    if not len(screens) == len(trig) == len(times):
        return
    start = max(case["start"], case.get("begin", case["start"]))    # of the environment

    def begin():
        env = pyactr.Environment()
        m = new_model(environment=env, rule_firing=case["f"], automatic_visual_search=case["vision"])
        m.goals["g"].add(real_chunk({"t": "go", "s": {"s": "k0"}}))
        rules = []
        for i, s in enumerate(case["steps"]):
            rules.append({"n": "r%d" % i, "u": 0, "r": None, "lhs": {"=g": {"t": "go", "s": {"s": {"v": "k%d" % i}}}, **({"?manual": s["if"]} if s["if"] else {})},
                          "rhs": {"=g": {"t": "go", "s": {"s": {"v": "k%d" % (i + 1)}}}, **({"+manual": {"t": "_manual", "s": {"cmd": {"v": "press_key"}, "key": {"v": s["key"]}}}} if s["key"] else {})}})
        M.add_rules(m, rules)
        args = arguments(case)
        if "begin" in case:
            args["start_time"] = case["begin"]
        before = copy.deepcopy(args)
        sim = new_sim(m, initial_time=case["start"], environment_process=env.environment_process, **args)
        return env, sim, args, before
    env, sim, args, before = begin()
    tr = drive(sim, 400)
    need(args == before, "the arguments given to the environment were %s and are %s after the run", before, args)
    presses = [(e[0], e[2][13:]) for e in tr.events if e[2].startswith("KEY PRESSED: ")]
    # reference timeline
    shown, at, planned, ran_out = [], start, start, []
    cut = float("inf")
    for screen, keys, t in zip(screens, trig, times):
        planned += t
        pressed = [u for u, k in presses if k in keys and at + 2e-4 < u < planned + 2e-4]
        if any(abs(u - planned) < 3e-4 or abs(u - at) < 3e-4 for u, _ in presses):
            cut = min(cut, planned - 3e-4, *[u for u in pressed], at)
        end = min(pressed + [planned])
        if not pressed:
            ran_out.append(planned)
        shown.append((at, end, screen))
        at = end
    shown[-1] = (shown[-1][0], float("inf"), shown[-1][2])
    # between any two events
    env2, sim2, _, _ = begin()
    marks = sorted({e[0] for e in tr.events} | {s[0] for s in shown})
    looks = set()
    for a, b in zip(marks, marks[1:] + [marks[-1] + 1]):
        if b - a < 4e-4 or (a + b) / 2 > cut or not tr.ended and b > tr.events[-1][0]:
            continue
        now = (a + b) / 2
        if now <= sim2.show_time():
            continue
        sim2.run(now)
        want = [i for i, (u, v, _) in enumerate(shown) if u <= now < v]
        if now < start:
            need(not env2.stimulus and not env2.trigger, "at %s the screen is %s with triggers %s, but nothing is due before %s", now, env2.stimulus, env2.trigger, start)
            looks.add(None)
            continue
        need(want and env2.stimulus == shown[want[0]][2], "at %s the screen is %s, expected %s; screens are due %s, presses are %s", now, env2.stimulus, want and shown[want[0]][2],
             [(u, v, t) for (u, v, _), t in zip(shown, map(sorted, trig))], presses)
        need(env2.trigger == trig[want[0]], "at %s the triggers are %s, expected %s", now, env2.trigger, trig[want[0]])
        looks.add(want[0])
    # a screen that was ended by a key does not end once more
    if cut == float("inf") and tr.ended:
        _, sim3, _, _ = begin()
        marks = []
        for _ in range(len(tr.events) + 2 * len(shown) + 5):
            try:
                sim3.step()
            except simpy.core.EmptySchedule:
                break
            if sim3.current_event.proc == "ENVIRONMENT" and (not marks or marks[-1] != tuple(sim3.current_event)):
                marks.append(tuple(sim3.current_event))
        due = [start] + ran_out
        need(len(marks) == len(due) and all(tclose(a[0], b) for a, b in zip(marks, due)), "events of the environment: %s; screens run out at %s, presses are %s", marks, due[1:], presses)
    early = sum(v < start + sum(times[:i + 1]) - 1e-3 for i, (_, v, _) in enumerate(shown[:-1]))
    ctx.label(*(["early"] if early else []), *(["cut"] if cut < 1e9 else []), *(["ignored"] if len(presses) > early else []), "%d screens" % len(shown), *(["late"] if start > case["start"] else []))
    ctx.nontrivial(len(looks) >= 2 and presses)


# ------------------------------------------------------------------ rejected arguments

def gen_bad(rng):
    n = rng.randint(2, 4)
    stim = [{"s%d" % i: {"text": "x", "position": (10, 10)}} for i in range(n)]
    trig, times = ["A"] * n, [1] * n
    kind = rng.choice(["triggers", "stimuli", "times", "flat", "trigger None", "trigger number"])
    k = rng.choice([x for x in (2, 3, 4, 5, 6) if x != n])
    return {"kind": kind, "n": n, "k": k, "at": rng.randrange(n)}


def check_bad(case, ctx):
    n, k, at = case["n"], case["k"], case["at"]
    stim = [{"s%d" % i: {"text": "x", "position": (10, 10)}} for i in range(n)]
    trig, times = ["A"] * n, [1] * n
    if case["kind"] == "triggers":
        trig = ["A"] * k
    elif case["kind"] == "stimuli":
        stim = (stim * 3)[:k]
    elif case["kind"] == "times":
        times = [1] * k
    elif case["kind"] == "flat":
        stim[at] = {"text": "x", "position": (10, 10)}
    elif case["kind"] == "trigger None":
        trig[at] = None
    elif case["kind"] == "trigger number":
        trig[at] = 5
    env = pyactr.Environment()
    m = new_model(environment=env)

    def go():
        new_sim(m, environment_process=env.environment_process, stimuli=stim, triggers=trig, times=times).run(0.5)
    expect_error(go, ACTRError, "environment with stimuli %s, triggers %s, times %s" % (stim, trig, times))
    need(env.stimulus is None, "a rejected environment shows %s", env.stimulus)
    ctx.label(case["kind"])
    ctx.nontrivial(True)


# ------------------------------------------------------------------ before the first stimulus

def gen_early(rng):
    return {"start": rng.choice([0, 0, 2.5, -3]), "by": rng.choice([.4, 1.03]), "f": rng.choice([.05, .08]), "what": rng.choice(["search", "search", "shift"]), "focus": [rng.randint(0, 600), rng.randint(0, 300)],
            "stim": {"st%d" % j: W.gen_stimulus(rng) for j in range(rng.randint(1, 2))}, "crit": rng.choice([{}, {"screen_x": "lowest"}, {"value": "hi"}, {"screen_y": "~100"}]), "auto": rng.random() < .5}


def check_early(case, ctx):
    """Nothing is found before anything is on the screen."""
    pyactr.chunktype("go", "s loc")
    env = pyactr.Environment(focus_position=tuple(case["focus"]))
    m = new_model(environment=env, rule_firing=case["f"], automatic_visual_search=case["auto"])
    stim = {k: {**v, "position": tuple(v["position"])} for k, v in case["stim"].items()}
    x, y = stim["st0"]["position"]
    m.goals["g"].add(Chunk("go", s="k0", loc=Chunk("_visuallocation", screen_x=x, screen_y=y)))
    if case["what"] == "search":
        ask = {"+visual_location": lambda: Chunk("_visuallocation", **case["crit"])}
    else:
        ask = {"+visual": lambda: real_pattern({"t": "_visual", "s": {"cmd": {"v": "move_attention"}, "screen_pos": {"x": "l"}}})}
    m.set_productions(make_rule("r0", lambda: {"=g": real_pattern({"t": "go", "s": {"s": {"v": "k0"}, "loc": {"x": "l"}}})}, lambda: {"=g": Chunk("go", s="k1"), **{k: f() for k, f in ask.items()}}))
    begin = case["start"] + case["by"]
    sim = new_sim(m, initial_time=case["start"], environment_process=env.environment_process, stimuli=[stim], triggers="X", times=2, start_time=begin)
    if case["what"] == "shift":
        expect_error(lambda: sim.run(begin - .05), ACTRError, "a shift of attention before the first stimulus")
        ctx.nontrivial()
        return
    sim.run(begin - .05)
    vl = W.all_buffers(m)["visual_location"]
    need(not vl and vl.state == "error", "a search before the first stimulus leads to %s, state %s", buf_canon(vl), vl.state)
    sim.run(begin + .2)
    need(env.stimulus == stim, "the screen is %s instead of %s", env.stimulus, stim)
    need(bool(vl) == case["auto"], "after the first stimulus appeared the location is %s", buf_canon(vl))
    ctx.nontrivial()


# ------------------------------------------------------------------ models that look around

def gen_looking(rng):
    while True:
        spec = W.gen_world(rng, env=True)
        if any("+visual" in r["rhs"] for r in spec["rules"]):
            return {"model": spec}


def check_looking(case, ctx):
    """What the model does changes nothing in what it was given to see."""
    spec = case["model"]
    m, env = W.build(spec)
    args = {"stimuli": W.stimuli_of(spec["env"]), "triggers": list(spec["env"]["triggers"]), "times": list(spec["env"]["times"])}
    before = copy.deepcopy(args)
    sim = new_sim(m, initial_time=spec["start"], environment_process=env.environment_process, **args)
    shifts = 0
    for _ in range(160):
        try:
            sim.step()
        except (simpy.core.EmptySchedule, ACTRError):
            break
        shifts += sim.current_event.action.startswith(("SHIFT COMPLETE", "ENCODED VIS"))
        need(args == before, "at %s the stimuli are %s, they were given as %s", sim.current_event, args, before)
        need(env.stimulus is None or env.stimulus in args["stimuli"], "at %s the screen is %s, which is none of %s", sim.current_event, env.stimulus, args["stimuli"])
    ctx.nontrivial(shifts)


SUBS = [Sub("timeline", gen, check, 1500, 60000,
            "up to five screens with triggers and times in all accepted forms while rules press keys; the screen between any two events is compared with a reference timeline; non-trivial: at least two screens seen and a key pressed", shards=7),
        Sub("early", gen_early, check_early, 60, 2000,
            "searches and shifts of attention before the first stimulus of an environment that starts late; all cases count", shards=1),
        Sub("looking", gen_looking, check_looking, 300, 15000,
            "random models that search and attend; the stimuli stay as they were given; non-trivial: attention was shifted", shards=4, shrink=W.shrink_field("model")),
        Sub("rejected", gen_bad, check_bad, 200, 4000,
            "arguments with irreconcilable lengths or malformed stimuli and triggers; all cases count", shards=1)]
