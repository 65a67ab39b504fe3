"""C23 Shifting visual attention encodes the attended object with EMMA timing."""
import math
from ..core import Sub, need
from ..lib import *
from .. import vision as V, worlds as W
from .c22 import XS, YS


def gen_objects(rng, size, n):
    out, taken = {}, set()
    for i in range(n):
        p = [rng.choice(XS), rng.choice(YS)] if rng.random() < .4 else [rng.randint(0, size[0] - 1), rng.randint(0, size[1] - 1)]
        if tuple(p) in taken:
            continue
        taken.add(tuple(p))
        if rng.random() < .1:
            p = [p[0] + .4, p[1] + .9]
        s = {"text": rng.choice(["A", "B", "cc", "7", "don't", ""]), "position": p}
        if rng.random() < .1:
            s.pop("text")
        if rng.random() < .8:
            s["vis_delay"] = rng.choice([1, 5, 9, 13, 15, 19, 22, 30, 60])
        if rng.random() < .4:
            s["color"] = rng.choice(["red", "blue"])
            s["externally_visible"] = rng.choice([[], ["color"]])
        if rng.random() < .25:
            s.update(shape=rng.choice(["box", "ring"]), visual_typename="thing", visual_location_typename="place", externally_visible=rng.choice([[], ["color"], ["shape"], ["color", "shape"]]))
        out["o%d" % i] = s
    return out


def gen_base(rng, n):
    size = rng.choice([[640, 360], [640, 360], [1366, 768], [800, 600]])
    objects = gen_objects(rng, size, n)
    env = {"size": size, "focus": rng.choice([[0, 0], [320, 180], [100, 90], [639, 359]])}
    if rng.random() < .4:
        env.update(screen=rng.choice([[50, 28], [40, 30], [60.5, 34]]), distance=rng.choice([50, 60, 35.5]))
    return {"objects": objects, "env": env, "emma": rng.random() < .8, "K": rng.choice([None, .01, .02, .006]), "k": rng.choice([None, 1, .5, 3]), "form": rng.choice(["func", "text"]),
            "auto": rng.random() < .3, "rule_firing": rng.choice([.05, .05, .03, .0701])}


def gen(rng):
    case = gen_base(rng, rng.randint(1, 5))
    names = sorted(case["objects"])
    case["targets"] = [rng.choice(names) for _ in range(rng.randint(1, 5))]
    case["how"] = [rng.choice(["found", "goal"]) for _ in case["targets"]]
    return case


def gen_overlap(rng):
    case = gen_base(rng, rng.randint(2, 4))
    names = sorted(case["objects"])
    case["targets"] = [rng.choice(names) for _ in range(rng.randint(2, 4))]
    case["how"] = ["goal" for _ in case["targets"]]
    case["waits"] = [rng.randint(0, 5) for _ in case["targets"]]
    case["rule_firing"] = rng.choice([.05, .05, .03, .0701, .0201])
    if rng.random() < .3:       # a request to stop buffering instead of a shift
        i = rng.randrange(len(case["targets"]) - 1)
        case["how"][i] = "clear"
    return case


def make_env(case):
    e = case["env"]
    kw = {"focus_position": tuple(e["focus"]), "size": tuple(e["size"])}
    if "screen" in e:
        kw.update(simulated_screen_size=tuple(e["screen"]), viewing_distance=e["distance"])
    return pyactr.Environment(**kw)


def objects_of(case):
    return {k: {**s, "position": tuple(s["position"])} for k, s in case["objects"].items()}


def build(case, env, wait=True):
    """Goal go(s=k0, loc0=<location>, ...); rule i attends target i and goes on to step i+1."""
    V.declare()
    pyactr.chunktype("go", ["s"] + ["loc%d" % i for i in range(len(case["targets"]))])
    params = {"automatic_visual_search": case["auto"], "emma": case["emma"], "emma_noise": False, "rule_firing": case["rule_firing"]}
    if case["K"] is not None:
        params["eye_mvt_scaling_parameter"] = case["K"]
    if case["k"] is not None:
        params["eye_mvt_angle_parameter"] = case["k"]
    m = new_model(environment=env, **params)
    objs = case["objects"]
    m.goals["g"].add(Chunk("go", s="k0", **{"loc%d" % i: Chunk("_visuallocation", screen_x=V.pos(objs[t])[0], screen_y=V.pos(objs[t])[1]) for i, t in enumerate(case["targets"])}))
    rules, k = [], 0

    def step(lhs, rhs):
        nonlocal k
        rules.append(("r%d" % k, {"=g": {"t": "go", "s": {"s": {"v": "k%d" % k}, **lhs.pop("g", {})}}, **lhs}, {"=g": {"t": "go", "s": {"s": {"v": "k%d" % (k + 1)}}}, **rhs}))
        k += 1
    for i, (t, how) in enumerate(zip(case["targets"], case["how"])):
        x, y = V.pos(objs[t])
        free = {"?visual": {"processor": "free"}} if wait else {}
        if not wait:
            for _ in range(case["waits"][i]):
                step({}, {})
        if how == "clear":
            step({}, {"+visual": {"t": "_visual", "s": {"cmd": {"v": "clear"}}}})
        elif how == "found":
            s = objs[t]
            step({}, {"+visual_location": {"t": s.get("visual_location_typename", "_visuallocation"), "s": {"screen_x": {"v": str(x)}, "screen_y": {"v": str(y)}, **{f: {"v": v} for f, v in V.visible(s).items()}}}})
            step({"=visual_location": {"t": s.get("visual_location_typename", "_visuallocation"), "s": {}}, **free}, {"+visual": {"t": "_visual", "s": {"cmd": {"v": "move_attention"}, "screen_pos": {"x": "visual_location"}}}})
        else:
            step({"g": {"loc%d" % i: {"x": "l"}}, **free}, {"+visual": {"t": "_visual", "s": {"cmd": {"v": "move_attention"}, "screen_pos": {"x": "l"}}}})
    if case["form"] == "text":
        for n, lhs, rhs in rules:
            m.productionstring(name=n, string=M_text(lhs, rhs))
    else:
        def func(side):
            return {k: (dict(v) if k[0] == "?" else real_pattern(v)) for k, v in side.items()}
        m.set_productions(*[make_rule(n, lambda l=lhs: func(l), lambda r=rhs: func(r)) for n, lhs, rhs in rules])
    asks = {n: i for i, n in enumerate(n for n, _, rhs in rules if "+visual" in rhs)}
    return m, asks


def M_text(lhs, rhs):
    from .. import models as M
    return M.rule_text({"lhs": lhs, "rhs": rhs}, "\n")


def times(case, focus, obj):
    """(encoding, preparation, execution)"""
    if not case["emma"]:
        return .085, 0, .085
    e = case["env"]
    size, screen, d = e["size"], e.get("screen", [50, 28]), e.get("distance", 50)
    angle = math.atan2(V.dist(focus, V.pos(obj)) / (float(size[0]) / screen[0]), d)
    K, k = .01 if case["K"] is None else case["K"], 1 if case["k"] is None else case["k"]
    return K * obj.get("vis_delay", 0) * math.exp(k * angle), .135, .07 + .002 * math.degrees(angle)


def timeline(case, focus, obj):
    """Events of a shift that nothing interferes with: [(time after the request, kind)]; and the three times."""
    e, p, x = times(case, focus, obj)
    enc = e
    if e > p + x:       # finished from the new position of the eyes
        enc = p + x + (1 - (p + x) / e) * times(case, V.pos(obj), obj)[0]
    return sorted([(0, 0, "start"), (p, 1, "prepared"), (enc, 2 if e > p else .5, "encoded"), (p + x, 3 if e <= p + x else 1.5, "moved")]), (e, p, x)


KIND = {"PREPARATION TO SHIFT VISUAL ATTENTION STARTED": "start", "PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED": "prepared"}


def kind_of(action):
    return KIND.get(action) or ("encoded" if action.startswith("ENCODED VIS OBJECT") else "moved" if action.startswith("SHIFT COMPLETE") else None)


def object_in(content):
    """(features, location) of the content of the visual buffer."""
    d = dict(content[1])
    d.pop("cmd", None)
    return {k: v for k, v in d.items() if k != "screen_pos"}, d.get("screen_pos")


def expected_object(obj):
    feats = {k: str(v) for k, v in obj.items() if k not in ("text", "position", "vis_delay", "externally_visible", "visual_typename", "visual_location_typename")}
    if "text" in obj:
        feats["value"] = obj["text"]
    else:
        feats["value"] = ""
    return feats, V.location_of(obj)


def compare_object(got, obj, what):
    need(got is not None, "%s: the visual buffer is empty", what)
    feats, loc = object_in(got)
    wf, wl = expected_object(obj)
    if not wf["value"]:
        feats, wf = {k: v for k, v in feats.items() if k != "value" or v}, {k: v for k, v in wf.items() if k != "value"}
    need(feats == wf and loc == wl, "%s: the visual buffer has %s at %s, expected %s at %s", what, feats, show(loc), wf, show(wl))


def follow(case, m, env, sim, asks, limit=500):
    """Runs; yields ("ask", i, t, focus) and ("visual", kind, t, content, focus)."""
    out, focus = [], None
    for _ in range(limit):
        focus = list(env.current_focus)
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            return out, True
        e = sim.current_event
        if e.proc == "PROCEDURAL" and e.action.startswith("RULE FIRED: ") and e.action[12:] in asks:
            out.append(("ask", asks[e.action[12:]], e.time, focus))
        elif e.proc == "visual" and kind_of(e.action):
            out.append(("visual", kind_of(e.action), e.time, buf_canon(W.all_buffers(m)["visual"]), list(env.current_focus)))
        elif e.action == "CONFLICT RESOLUTION":
            out.append(("state", None, e.time, W.snapshot(m)["visual"][1]))
    return out, False


def simulate(case, m, env):
    return new_sim(m, environment_process=env.environment_process, stimuli=[objects_of(case)], triggers="none", times=[1000])


def check(case, ctx):
    if not case["targets"] or any(t not in case["objects"] for t in case["targets"]) or len(case["how"]) != len(case["targets"]):
        return      # (only while a failure is shrunk)
    env = make_env(case)
    m, asks = build(case, env)
    sim = simulate(case, m, env)
    out, ended = follow(case, m, env, sim, asks)
    need(ended, "attention shifts to %d objects take more than %d events", len(case["targets"]), 500)
    need([x[1] for x in out if x[0] == "ask"] == list(range(len(case["targets"]))), "the attention shifts asked for are %s of %d: %s", [x[1:3] for x in out if x[0] == "ask"], len(case["targets"]), out)
    cur, moved = None, 0
    for x in [x for x in out if x[0] != "state"] + [("ask", None, None, None)]:
        if x[0] == "ask":
            if cur is not None:
                i, t, focus, seen = cur
                obj = case["objects"][case["targets"][i]]
                want, (e, p, d) = timeline(case, focus, obj)
                what = "shift %d, from %s to %s with vis_delay %s requested at %s (encoding %.4f, preparation %.4f, movement %.4f)" % (i, focus, obj["position"], obj.get("vis_delay"), t, e, p, d)
                need(sorted(k for k, *_ in seen) == sorted(k for _, _, k in want), "%s: events are %s, expected %s", what, [s[:2] for s in seen], want)
                at = {k: (u, c, f) for k, u, c, f in seen}
                for u, _, k in want:
                    need(tclose(at[k][0], t + u, 2.1e-4), "%s: %s at %s, expected at %.4f", what, k, at[k][0], t + u)
                order = [k for k, *_ in seen]
                for (u1, _, k1), (u2, _, k2) in zip(want, want[1:]):
                    need(order.index(k1) < order.index(k2) or u2 - u1 < 1e-9, "%s: order of events is %s, expected %s", what, order, [w[2] for w in want])
                compare_object(at["encoded"][1], obj, what)
                need([float(v) for v in at["moved"][2]] == [float(v) for v in V.pos(obj)], "%s: the eyes are at %s", what, at["moved"][2])
                ctx.label("encoded during preparation" if e <= p else "encoded during movement" if e <= p + d else "encoded later")
                moved += V.pos(obj) != tuple(focus)
            cur = (x[1], x[2], x[3], [])
        elif cur is not None:
            cur[3].append(x[1:])
    need(W.all_buffers(m)["visual"].state == "free", "the visual module is %s in the end", W.all_buffers(m)["visual"].state)
    ctx.label("emma" if case["emma"] else "no emma")
    ctx.nontrivial(moved >= 1)


def check_overlap(case, ctx):
    if len(case["targets"]) < 2 or any(t not in case["objects"] for t in case["targets"]) or not len(case["how"]) == len(case["targets"]) == len(case["waits"]):
        return      # (only while a failure is shrunk)
    env = make_env(case)
    m, asks = build(case, env, wait=False)
    sim = simulate(case, m, env)
    out, ended = follow(case, m, env, sim, asks)
    need(ended, "attention shifts to %d objects take more than %d events", len(case["targets"]), 500)
    # every shift whose preparation was completed moves the eyes; every object whose encoding was completed was encoded
    moved, encoded, end = [], [], 0
    busy = {"preparation": [], "execution": []}     # when these states are known to be busy
    open_ = []      # when objects are encoded after the movement
    story = [x[:3] for x in out if x[0] != "state"]
    asks = [x for x in out if x[0] == "ask"]
    for j, (_, i, t, focus) in enumerate(asks):
        if case["how"][i] == "clear":
            continue
        u = asks[j + 1][2] if j + 1 < len(asks) else float("inf")
        v = min([a[2] for a in asks[j + 1:] if case["how"][a[1]] != "clear"] + [float("inf")])      # the next shift
        obj = case["objects"][case["targets"][i]]
        e, p, d = times(case, focus, obj)
        begun = t + p < u
        busy["preparation"].append((t, min(t + p, u)))
        if begun:
            start, end = end, max(t + p, end) + d
            busy["execution"].append((t + p, end))
            if abs(end - u) < 4e-4 or abs(start - t) < 4e-4 or abs(end - v) < 4e-4:
                ctx.label("tie")
                return
        done = t + e if e <= p + d else end + (1 - (p + d) / e) * times(case, V.pos(obj), obj)[0] if begun else float("inf")
        if abs(t + p - u) < 4e-4 or abs(done - u) < 4e-4 or abs(done - v) < 4e-4 or any(abs(end - w[2]) < 4e-4 for w in asks):
            ctx.label("tie")
            return
        if begun:
            moved.append((end, obj))
            if done > end:
                open_.append((end, done))
        if done < (v if begun else u):
            encoded.append((done, obj))
    for t, states in [x[2:] for x in out if x[0] == "state"]:
        now = {k: any(a < t < b for a, b in busy[k]) for k in busy}
        for k in busy:
            if any(abs(t - w) < 4e-4 for span in busy[k] + open_ for w in span):
                now[k] = False      # (known only before and after that moment)
                continue
            if k == "execution" and not now[k] and any(a < t < b for a, b in open_):
                continue        # the object is still encoded
            need(states[k] == ("busy" if now[k] else "free"), "at %s %s is %s; it should be busy %s; events are %s", t, k, states[k], [[round(w, 4) for w in span] for span in busy[k]], story)
        if any(now.values()):
            need(states["processor"] == "busy", "at %s the processor is %s while %s is busy; events are %s", t, states["processor"], [k for k in now if now[k]], story)
    got = [x for x in out if x[1] == "moved"]
    need(len(got) == len(moved), "eye movements are due %s; events are %s", [(round(t, 4), o["position"]) for t, o in moved], story)
    for x, (t, obj) in zip(got, moved):
        need(tclose(x[2], t, 4e-4) and [float(v) for v in x[4]] == [float(v) for v in V.pos(obj)], "the eyes moved to %s at %s, expected %s at %.4f; events are %s", x[4], x[2], obj["position"], t, story)
    got = [x for x in out if x[1] == "encoded"]
    encoded.sort(key=lambda z: z[0])
    need(len(got) == len(encoded), "encoding is due %s; events are %s", [(round(t, 4), o["position"]) for t, o in encoded], story)
    for x, (t, obj) in zip(got, encoded):
        need(tclose(x[2], t, 4e-4), "encoded at %s, expected at %.4f; events are %s", x[2], t, story)
        compare_object(x[3], obj, "encoded at %s" % x[2])
    last = max(i for i, x in enumerate(out) if x[0] == "ask")
    _, i, t, focus = out[last]
    need(i == len(case["targets"]) - 1, "the last shift was not asked for: %s", out)
    obj = case["objects"][case["targets"][i]]
    want, (e, p, d) = timeline(case, focus, obj)
    what = "shift from %s to %s with vis_delay %s requested at %s (encoding %.4f, preparation %.4f, movement %.4f) after %s" % (focus, obj["position"], obj.get("vis_delay"), t, e, p, d, [x[:3] for x in out[:last] if x[0] != "state"])
    buf = W.all_buffers(m)["visual"]
    compare_object(buf_canon(buf), obj, what + ": in the end")
    need([float(v) for v in env.current_focus] == [float(v) for v in V.pos(obj)], "%s: the eyes are at %s in the end", what, env.current_focus)
    need(buf.state == "free" and buf.preparation == "free" and buf.execution == "free", "%s: the visual module is %s in the end", what, W.snapshot(m)["visual"][1])
    overlapped = t < [x for x in out if x[0] == "ask"][-2][2] + .2
    ctx.nontrivial(overlapped)


SUBS = [Sub("shift", gen, check, 1300, 60000,
            "one to five shifts, one after the other, on a screen with up to five objects; screens of different sizes, EMMA parameters and visual delays; non-trivial: an eye movement to another position", shards=6),
        Sub("overlap", gen_overlap, check_overlap, 300, 20000,
            "shifts requested at any moment of the former ones: prepared movements are executed, unfinished encoding is given up, the last shift is carried out; non-trivial: the last one overlaps with the one before", shards=2)]


# ------------------------------------------------------------------ rejected requests

BAD = ["no object", "no location", "location is a word", "location without coordinates", "unknown command", "no command", "command is a chunk"]


def gen_bad(rng):
    case = gen_base(rng, rng.randint(1, 3))
    case.update(kind=rng.choice(BAD), cmd=rng.choice(["move", "moveattention", "look", "MOVE", "press_key", "clearing"]), after=rng.random() < .6, targets=[], how=[])
    return case


def check_bad(case, ctx):
    V.declare()
    if not case["objects"]:
        return      # (only while a failure is shrunk)
    taken = {V.pos(o) for o in case["objects"].values()}
    first = sorted(case["objects"])[0]
    obj = case["objects"][first]
    free = next((x, y) for x in (11, 12, 13) for y in (17, 18, 19) if (x, y) not in taken)
    good = {"cmd": "move_attention", "screen_pos": Chunk("_visuallocation", screen_x=V.pos(obj)[0], screen_y=V.pos(obj)[1])}
    bad = dict(good)
    if case["kind"] == "no object":
        bad["screen_pos"] = Chunk("_visuallocation", screen_x=free[0], screen_y=free[1])
    elif case["kind"] == "no location":
        del bad["screen_pos"]
    elif case["kind"] == "location is a word":
        bad["screen_pos"] = "there"
    elif case["kind"] == "location without coordinates":
        bad["screen_pos"] = Chunk("_visuallocation", color="red")
    elif case["kind"] == "unknown command":
        bad["cmd"] = case["cmd"]
    elif case["kind"] == "no command":
        del bad["cmd"]
    elif case["kind"] == "command is a chunk":
        bad["cmd"] = good["screen_pos"]
    env = make_env(case)
    m = new_model(environment=env, automatic_visual_search=False, emma=case["emma"], emma_noise=False, rule_firing=case["rule_firing"])
    m.goals["g"].add(Chunk("go", s="k0" if case["after"] else "k1"))

    def go(v):
        return Chunk("go", s=v)
    m.set_productions(make_rule("fine", lambda: {"=g": go("k0"), "?visual": {"processor": "free"}}, lambda: {"=g": go("k1"), "+visual": Chunk("_visual", **good)}),
                      make_rule("wrong", lambda: {"=g": go("k1"), "?visual": {"processor": "free"}}, lambda: {"=g": go("k2"), "+visual": Chunk("_visual", **bad)}))
    sim = simulate(case, m, env)
    before = None
    try:
        for _ in range(200):
            focus = list(env.current_focus)
            before = buf_canon(W.all_buffers(m)["visual"])
            sim.step()
            e = sim.current_event
            if e.proc == "PROCEDURAL" and e.action == "RULE FIRED: wrong":
                fired = before
                at = focus
    except ACTRError:
        pass
    except simpy.core.EmptySchedule:
        need(False, "attending with %s (%s) was accepted", case["kind"], {k: str(v) for k, v in bad.items()})
    need(buf_canon(W.all_buffers(m)["visual"]) == fired, "a rejected request (%s) changed the visual buffer from %s to %s", case["kind"], fired and show(fired), buf_canon(W.all_buffers(m)["visual"]))
    need(list(env.current_focus) == at, "a rejected request (%s) moved the eyes from %s to %s", case["kind"], at, env.current_focus)
    ctx.label(case["kind"])
    ctx.nontrivial(True)


SUBS.append(Sub("rejected", gen_bad, check_bad, 150, 5000, "requests without an object at the location, without a location or with an unknown command; all cases count", shards=1))
