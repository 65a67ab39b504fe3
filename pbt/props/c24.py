"""C24 Newly shown stimuli are noticed and foveal objects are buffered automatically."""
import math
from ..core import Sub, need
from ..lib import *
from .. import vision as V, worlds as W
from . import c23


def near(rng, focus, d):
    k = rng.random()
    r = .3 * d if k < .4 else d - .7 if k < .55 else d + .7 if k < .75 else 2 * d if k < .85 else 8 * d
    a = rng.uniform(0, 2 * math.pi)
    if rng.random() < .4:
        a = rng.choice([0, .5, 1, 1.5]) * math.pi
    x, y = focus[0] + r * math.cos(a), focus[1] + r * math.sin(a)
    return [int(round(x)), int(round(y))]


def gen_screen(rng, old, tag, focus, d, wide, size):
    out, taken = {}, set()
    for k, s in (old or {}).items():
        if rng.random() < .5:
            out[k] = s
            taken.add(V.pos(s))
    gone = [s["position"] for k, s in (old or {}).items() if k not in out]
    for i in range(rng.randint(0 if out else 1, 4)):
        p = list(rng.choice(gone)) if gone and rng.random() < .2 else near(rng, rng.choice(focus), d) if rng.random() < .6 else [rng.randint(0, size[0] - 1), rng.randint(0, size[1] - 1)]
        if tuple(p) in taken or min(p) < 0:
            continue
        taken.add(tuple(p))
        s = {"text": rng.choice(["A", "B", "cc", "7"]) + rng.choice(["", tag]), "position": p}
        if rng.random() < .1:
            s.pop("text")
        if rng.random() < .5:
            s["vis_delay"] = rng.choice([1, 5, 12, 30])
        if rng.random() < .4:
            s["color"] = rng.choice(["red", "blue"])
            s["externally_visible"] = rng.choice([[], ["color"]])
        if wide and rng.random() < .5:
            s.update(shape=rng.choice(["box", "ring"]), visual_typename="thing", visual_location_typename="place", externally_visible=rng.choice([[], ["shape"], ["color", "shape"]]))
        out["%s%d" % (tag, i)] = s
    return out or {tag: {"text": "only", "position": [1, 1]}}


def radius(case_env):
    size, screen, d = case_env["size"], case_env.get("screen", [50, 28]), case_env.get("distance", 50)
    return float(size[0]) / screen[0] * math.tan(math.radians(1)) * d


def gen(rng):
    base = c23.gen_base(rng, 1)
    env = base["env"]
    d = radius(env)
    focus = [env["focus"], [200, 100]]
    wide = rng.random() < .3
    screens, old = [], None
    for i in range(rng.randint(1, 5)):
        old = gen_screen(rng, old, "abcde"[i], focus, d, wide, env["size"])
        screens.append(old)
    case = {k: base[k] for k in ("env", "emma", "K", "k", "rule_firing")}
    steps = []
    for _ in range(rng.randint(0, 10)):
        k = rng.random()
        steps.append("wait" if k < .45 else "attend" if k < .7 else "clear" if k < .82 else "drop" if k < .91 else "forget")
    case.update(screens=screens, times=[rng.choice([.1637, .3137, .4237, .6119, 1.017]) for _ in screens], steps=steps, auto=rng.random() < .75, finst=rng.choice([None, 0, 1, 2, 4]))
    return case


def build(case, env):
    V.declare()
    params = {"automatic_visual_search": case["auto"], "emma": case["emma"], "emma_noise": False, "rule_firing": case["rule_firing"]}
    if case["K"] is not None:
        params["eye_mvt_scaling_parameter"] = case["K"]
    if case["k"] is not None:
        params["eye_mvt_angle_parameter"] = case["k"]
    m = new_model(environment=env, **params)
    if case["finst"] is not None:
        m.visualBuffer("visual", "visual_location", m.decmem, finst=case["finst"])
    m.goals["g"].add(Chunk("go", s="k0"))
    rules = []
    for i, s in enumerate(case["steps"]):
        lhs, rhs = {}, {}
        skip = None
        if s == "attend":       # the object whose location is in visual_location
            lhs = {"=visual_location": "_visuallocation", "?visual": {"processor": "free"}}
            rhs = {"+visual": "move"}
            skip = {"?visual_location": {"buffer": "empty"}}
        elif s == "clear":
            lhs = {"?visual": {"processor": "free"}}
            rhs = {"+visual": "clear"}
        elif s == "drop":
            rhs = {"~visual": None}
        elif s == "forget":
            rhs = {"~visual_location": None}

        def left(i=i, lhs=lhs):
            return {"=g": Chunk("go", s="k%d" % i), **{k: (dict(v) if isinstance(v, dict) else Chunk(v)) for k, v in lhs.items()}}

        def right(i=i, rhs=rhs):
            d = {"=g": Chunk("go", s="k%d" % (i + 1))}
            for k, v in rhs.items():
                d[k] = {"move": pyactr.makechunk("", "_visual", cmd="move_attention", screen_pos="=visual_location"), "clear": pyactr.makechunk("", "_visual", cmd="clear"), None: None}[v]
            return d
        rules.append(make_rule("r%d" % i, left, right))
        if skip:
            rules.append(make_rule("skip%d" % i, lambda i=i, skip=skip: {"=g": Chunk("go", s="k%d" % i), **{k: dict(v) for k, v in skip.items()}}, lambda i=i: {"=g": Chunk("go", s="k%d" % (i + 1))}))
    if rules:
        m.set_productions(*rules)
    else:
        m.set_productions(make_rule("none", lambda: {"=g": Chunk("go", s="never")}, lambda: {"=g": Chunk("go", s="x")}))
    return m


def check(case, ctx):
    if len(case["screens"]) != len(case["times"]) or not all(case["screens"]):
        return      # (only while a failure is shrunk)
    env = c23.make_env(case)
    screens = [{k: {**s, "position": tuple(s["position"])} for k, s in sc.items()} for sc in case["screens"]]
    m = build(case, env)
    sim = new_sim(m, environment_process=env.environment_process, stimuli=screens, triggers="none", times=list(case["times"]))
    onset, t = [], 0
    for x in case["times"]:
        onset.append(round(t, 4))
        t += x
    onset = [o for o in onset if o < 5]
    d = radius(case["env"])
    finst = 4 if case["finst"] is None else case["finst"]
    recent = []
    # one pass; what is in the buffers after every event
    log = []
    for _ in range(700):
        focus = list(env.current_focus)
        bufs = None
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            break
        except ACTRError as e:
            need("here is no object" in str(e), "the model ended with %s", e)
            ctx.label("no object")
            break
        e = sim.current_event
        bufs = W.all_buffers(m)
        log.append((e.time, e.proc, e.action, buf_canon(bufs["visual_location"]), buf_canon(bufs["visual"]), list(env.current_focus)))
    last = log[-1][0] if log else 0
    # ---- memory: only cleared chunks end up there
    stored = sum(len(v) for v in dm_canon(m.decmem).values())
    cleared = [x for x in log if x[2] == "CLEARED"]
    need(stored <= len(cleared), "%s chunks are in memory although only %s buffers were cleared (at %s)", stored, len(cleared), [x[0] for x in cleared])
    starts = [(o, s) for o, s in zip(onset, screens) if o <= last]
    # ---- visual_location: changes other than clearing happen exactly when a screen appears
    noticed = 0
    wasloc, wasvis, focus = None, None, list(case["env"]["focus"])
    k = 0

    def at(o):
        return [x for x in log if abs(x[0] - o) < 6e-5]
    loc_events = [x for x in log if x[1] == "visual_location" and "ENCODED LOCATION" in x[2]]
    for o, screen in starts:
        before = [x for x in log if x[0] < o - 6e-5]
        now = at(o)
        focus = before[-1][5] if before else list(case["env"]["focus"])
        if any(x[1] == "PROCEDURAL" and x[2].startswith("RULE FIRED") or x[2].startswith("SHIFT") for x in now if o > 0):
            ctx.label("tie")
            return
        wasloc = before[-1][3] if before else None
        fresh = [s for s in screen.values() if s not in recent]
        found = [x for x in loc_events if abs(x[0] - o) < 6e-5]
        what = "screen %s appears at %s, focus %s, attended were %s" % (screen, o, focus, recent)
        if not case["auto"] or not fresh:
            need(not found and all(x[3] == wasloc for x in now), "%s: found %s automatically (search %s)", what, [x[2] for x in found], "on" if case["auto"] else "off")
            ctx.label("nothing new" if case["auto"] else "search off")
        else:
            best = V.best(fresh, ("both", "closest"), focus)
            need(len(found) == 1, "%s: found %s automatically", what, [x[2] for x in found])
            ok = [s for s in best if V.location_of(s) == found[0][3]]
            need(ok, "%s: found %s, expected one of %s", what, found[0][3] and show(found[0][3]), [show(V.location_of(s)) for s in best])
            if finst:
                recent.append(ok[0])
                del recent[:-finst]
            noticed += 1
            ctx.label("noticed")
    need(len(loc_events) == sum(any(abs(x[0] - o) < 6e-5 for o, _ in starts) for x in loc_events), "locations are found although no screen appears: %s", [x[:3] for x in loc_events])
    # ---- visual: automatic buffering
    K, kk = .01 if case["K"] is None else case["K"], 1 if case["k"] is None else case["k"]
    buffered = 0
    stopped = False                     # automatic buffering was stopped
    cur = None                          # the screen on show
    steps = sorted([(x[0], 1, "event", i) for i, x in enumerate(log)] + [(o - 1e-5, 0, "screen", j) for j, (o, _) in enumerate(starts)])
    moving = 0          # shifts of attention that were started and are not completed
    attended = None     # where attention is, if the eyes are not there yet
    pending = False     # a shift was started whose object is not encoded yet
    for t, _, kind, i in steps:
        if kind == "screen":
            o, screen = starts[i]
            before = [x for x in log if x[0] < o - 6e-5]
            focus = before[-1][5] if before else list(case["env"]["focus"])
            vis = before[-1][4] if before else None
            text = None if vis is None else dict(vis[1]).get("value", "")
            foci = [focus] + ([attended] if moving and attended else [])
            inside = [s for s in screen.values() if any(all(abs(s["position"][a] - float(f[a])) < d for a in (0, 1)) for f in foci)]
            new = [s for s in inside if s.get("text", "") != text]
            cur = [o, inside, foci, not stopped or moving or pending]
            if not moving and not pending and not stopped and new:
                due = o + max(K * s.get("vis_delay", 0) * math.exp(2 * kk * math.radians(1.5)) for s in new) + 2e-3
                nxt = [u for u, _ in starts if u > o] + [x[0] for x in log if x[0] > o and x[1] == "PROCEDURAL" and x[2].startswith("RULE FIRED: r") and case["steps"][int(x[2][13:])] in ("attend", "clear")] + [last]
                if due < min(nxt):
                    got = [x for x in log if o - 1e-6 <= x[0] <= due and x[2].startswith("AUTOMATIC BUFFERING")]
                    need(got, "%s appears at %s with the focus on %s (foveal region %.2f): no object is buffered until %.4f; expected one of %s; the visual buffer had %s", screen, o, focus, d, due, new, vis and show(vis))
                    ctx.label("must be buffered")
            elif stopped and inside:
                ctx.label("stopped")
            continue
        x = log[i]
        if x[1] == "PROCEDURAL" and x[2].startswith("RULE FIRED: r"):
            if case["steps"][int(x[2][13:])] == "clear":
                stopped = True
        elif x[1] == "visual":
            if x[2].startswith("PREPARATION") and x[2].endswith("STARTED"):
                moving, pending = moving + 1, True
            elif x[2].startswith("SHIFT COMPLETE"):
                moving, attended = max(moving - 1, 0), None
                stopped = stopped and pending
            elif x[2].startswith("ENCODED VIS"):
                pending = False
                stopped = stopped and moving
                loc = dict(c23.object_in(x[4])[1][1])
                attended = [float(loc["screen_x"]), float(loc["screen_y"])]
            elif x[2].startswith("AUTOMATIC BUFFERING"):
                need(cur is not None, "automatic buffering before a screen appears: %s", x[:3])
                o, inside, foci, maybe = cur
                need(maybe, "at %s: %s although automatic buffering was stopped", x[0], x[2])
                ok = []
                for s in inside:
                    feats, loc = c23.object_in(x[4])
                    wf, wl = c23.expected_object(s)
                    if {a: b for a, b in feats.items() if b} == {a: b for a, b in wf.items() if b} and loc == wl:
                        ok.append(s)
                need(ok, "at %s %s: the visual buffer has %s; in the foveal region (%.2f around %s) of the screen of %s are %s", x[0], x[2], show(x[4]), d, foci, o, inside)
                buffered += 1
                ctx.label("buffered")
    ctx.nontrivial(noticed or buffered)


# ------------------------------------------------------------------ a screen appears at the moment at which rules fire

def gen_ties(rng):
    fire = rng.choice([.05, .05, .1])
    steps = [rng.choice(["wait", "retrieval", "retrieval", "im", "im0", "manual", "modify", "write", "forget", "drop"]) for _ in range(rng.randint(2, 8))]
    for i, s in enumerate(steps):
        if s == "manual" and "manual" in steps[:i]:
            steps[i] = "wait"
    durations = [rng.choice([1, 1, 2, 2, 3, 4]) for _ in range(rng.randint(1, 5))]
    screens = []
    for i in range(len(durations) + 1):
        screens.append([[rng.randint(-200, 200), rng.randint(-120, 120)] if rng.random() < .6 else [rng.randint(-5, 5), rng.randint(-5, 5)] for _ in range(rng.randint(1, 3))])
    return {"fire": fire, "steps": steps, "durations": durations, "screens": screens, "focus": [320, 180], "emma": rng.random() < .7, "off": rng.choice([0, 0, 0, 0, .011]), "sub": rng.random() < .3}


def check_ties(case, ctx):
    if len(case["screens"]) != len(case["durations"]) + 1 or not case["steps"]:
        return
    V.declare()
    fire, fx, fy = case["fire"], *case["focus"]
    env = pyactr.Environment(focus_position=(fx, fy))
    m = new_model(environment=env, rule_firing=fire, emma=case["emma"], emma_noise=False, automatic_visual_search=True, subsymbolic=case["sub"], motor_prepared=True)
    pyactr.chunktype("fact", "a")
    m.decmem.add(Chunk("fact", a="there"), -1)
    m.set_goal("im", .23)
    m.set_goal("im0", 0)
    m.goals["g"].add(Chunk("go", s="k0"))
    acts = {"retrieval": ("+retrieval", lambda i: Chunk("fact", a="there" if i % 2 else "not")), "im": ("+im", lambda i: Chunk("go", s="n%d" % i)), "im0": ("+im0", lambda i: Chunk("go", s="n%d" % i)),
            "manual": ("+manual", lambda i: pyactr.makechunk("", "_manual", cmd="press_key", key="A")), "write": ("@im0", lambda i: Chunk("go", s="w%d" % i)), "forget": ("~visual_location", lambda i: None), "drop": ("~visual", lambda i: None)}

    def rule(i, s):
        def right():
            d = {"=g": Chunk("go", s="k%d" % (i + 1))}
            if s in acts:
                d[acts[s][0]] = acts[s][1](i)
            return d
        return make_rule("r%d" % i, lambda: {"=g": Chunk("go", s="k%d" % i)}, right)
    m.set_productions(*[rule(i, s) for i, s in enumerate(case["steps"])])
    times = [round(x * fire + (case["off"] if j == 0 else 0), 4) for j, x in enumerate(case["durations"])] + [1]
    screens = [{"s%d_%d" % (i, j): {"text": "w%d_%d" % (i, j), "position": (fx + dx, fy + dy)} for j, (dx, dy) in enumerate(sc)} for i, sc in enumerate(case["screens"])]
    sim = new_sim(m, environment_process=env.environment_process, stimuli=screens, triggers="none", times=times)
    onset = [0]
    for t in times[:-1]:
        onset.append(round(onset[-1] + t, 4))
    log = []

    def on(e):
        bufs = W.all_buffers(m)
        log.append((*e, buf_canon(bufs["visual_location"]), buf_canon(bufs["visual"])))
    drive(sim, 600, on_event=on)
    fired = [x for x in log if x[2].startswith("RULE FIRED")]
    need([x[2] for x in fired] == ["RULE FIRED: r%d" % i for i in range(len(case["steps"]))] and all(tclose(x[0], (i + 1) * fire) for i, x in enumerate(fired)), "rules fire at %s", [x[:3] for x in fired])
    d = float(640) / 50 * math.tan(math.radians(1)) * 50
    ties = 0
    for i, (o, sc) in enumerate(zip(onset, screens)):
        busy = [case["steps"][int(x[2][13:])] for x in fired if tclose(x[0], o)]
        best = V.best(list(sc.values()), ("both", "closest"), (fx, fy))
        found = [x for x in log if tclose(x[0], o) and x[1] == "visual_location" and x[2].startswith("ENCODED LOCATION")]
        what = "%s appears at %s, when %s" % (sc, o, ["rule %s fires" % b for b in busy] or "nothing happens")
        if "forget" in busy:
            continue
        need(len(found) == 1, "%s: found automatically: %s", what, [x[2] for x in found])
        need(any(V.location_of(s) == found[0][3] for s in best), "%s: found %s", what, found[0][3] and show(found[0][3]))
        end = onset[i + 1] if i + 1 < len(onset) else o + 1
        inside = [s for s in sc.values() if abs(s["position"][0] - fx) < d and abs(s["position"][1] - fy) < d]
        got = [x for x in log if o - 1e-6 <= x[0] < end - 1e-6 and x[2].startswith("AUTOMATIC BUFFERING")]
        if inside and end - o > .03 and not any(o <= x[0] < end and case["steps"][int(x[2][13:])] == "drop" for x in fired):
            need(got and got[-1][4] is not None and dict(got[-1][4][1]).get("value") in {s["text"] for s in inside}, "%s: buffered automatically: %s; in the foveal region are %s", what, [x[:3] for x in got], inside)
            ctx.label("buffered")
        if not inside:
            need(not got, "%s: buffered automatically: %s; in the foveal region is nothing", what, [x[:3] for x in got])
        if busy:
            ties += 1
            ctx.label("with " + busy[0])
    ctx.nontrivial(ties)


SUBS = [Sub("screens", gen, check, 3000, 120000,
            "up to five screens with objects inside, at the border of and outside the foveal region, some of which stay for several screens, while rules shift attention, stop automatic buffering and clear buffers; "
            "non-trivial: a stimulus was noticed or an object buffered automatically", shards=8),
        Sub("ties", gen_ties, check_ties, 1200, 40000,
            "screens of new objects that appear at the very moment at which a rule fires that makes requests of other modules, or clears visual buffers; non-trivial: a screen appears when a rule fires", shards=8)]
