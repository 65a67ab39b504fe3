"""C22 Visual search returns a stimulus that satisfies every search criterion."""
from ..core import Sub, need
from ..lib import *
from .. import vision as V

TEXTS = ["A", "B", "B", "cc", "7", "don't"]
XS = [0, 5, 100, 100, 320, 500, 639]
YS = [0, 7, 90, 180, 180, 300]


def gen_screen(rng, old=None, tag="", wide=False):
    out, taken = {}, set()
    for k, s in (old or {}).items():
        if rng.random() < .4:
            out[k] = s
            taken.add((int(s["position"][0]), int(s["position"][1])))
    gone = [s["position"] for k, s in (old or {}).items() if k not in out]
    for i in range(rng.randint(0 if out else 1, 5)):
        p = list(rng.choice(gone)) if gone and rng.random() < .2 else [rng.choice(XS), rng.choice(YS)] if rng.random() < .7 else [rng.randint(0, 639), rng.randint(0, 359)]
        if rng.random() < .12:
            p = [int(p[0]) + rng.choice([.1, .4, .5, .6, .9]), int(p[1]) + rng.choice([.1, .4, .5, .6, .9])]
        if (int(p[0]), int(p[1])) in taken:
            continue
        taken.add((int(p[0]), int(p[1])))
        s = {"text": rng.choice(TEXTS), "position": p}
        if rng.random() < .15:
            s.pop("text")
        if rng.random() < .35:
            s["color"] = rng.choice(["red", "blue"])
            s["externally_visible"] = rng.choice([[], ["color"]])
        if wide and rng.random() < .8:
            s["shape"] = rng.choice(["box", "ring"])
            s["visual_typename"] = "thing"
            s["visual_location_typename"] = "place"
            s["externally_visible"] = rng.choice([[], ["color"], ["shape"], ["color", "shape"]])
        if rng.random() < .2:
            s["vis_delay"] = rng.choice([1, 10])
        out["%s%d" % (tag, i)] = s
    return out


def gen_crit(rng, wide):
    crit = {}
    k = rng.random()
    if k < .3:
        crit["value"] = {"v": rng.choice(TEXTS)}
    elif k < .36:
        crit["value"] = {"nv": rng.sample(sorted(set(TEXTS)), rng.choice([1, 1, 2, 3]))}
        if rng.random() < .15:
            crit["value"]["nx"] = ["vt"]
    elif k < .42:
        crit["value"] = {"x": "vt"}
    elif k < .45:
        crit["value"] = {"nx": ["vt"]}
    for slot, vals in (("screen_x", XS), ("screen_y", YS)):
        k = rng.random()
        if k < .2:
            crit[slot] = {"v": rng.choice(V.EXTREME)}
        elif k < .27:
            crit[slot] = {"v": str(rng.choice(vals))}
        elif k < .42:
            crit[slot] = {"rel": [rng.choice("<>"), rng.choice(vals)]}
        elif k < .47:
            crit[slot] = {"rel": [rng.choice("<>"), rng.choice(["vx", "vy", "vn"])]}
        elif k < .53:
            crit[slot] = {"x": {"screen_x": "vx", "screen_y": "vy"}[slot] if rng.random() < .7 else "vn"}
        elif k < .57:
            crit[slot] = {"nv": rng.sample(sorted({str(v) for v in vals}), rng.choice([1, 1, 2, 3]))}
            if rng.random() < .15:
                crit[slot]["nx"] = [rng.choice(["vx", "vy", "vn"])]
        elif k < .6:
            crit[slot] = {"nx": [rng.choice(["vx", "vy", "vn"])]}
    if rng.random() < .25:
        crit["color"] = {"v": rng.choice(["red", "blue"])}
    if wide and rng.random() < .4:
        crit["shape"] = {"v": rng.choice(["box", "ring"])}
    return crit


def gen(rng):
    screens, old, wide = [], None, rng.random() < .3
    for i in range(rng.randint(1, 3)):
        old = gen_screen(rng, old, "s%d_" % i, wide)
        screens.append(old)
    steps = []
    for _ in range(rng.randint(1, 8)):
        k = rng.random()
        if k < .82:
            steps.append({"kind": "search", "crit": gen_crit(rng, wide), "attended": rng.choice([None, None, False, False, True])})
        elif k < .9:
            steps.append({"kind": "attend"})
        elif k < .95:
            steps.append({"kind": "mark"})
        else:
            steps.append({"kind": "drop"})
    return {"wide": wide, "screens": screens, "times": [rng.choice([.1637, .3137, .4237, 1.017, 5]) for _ in screens], "steps": steps, "focus": [rng.choice([0, 100, 320, 640]), rng.choice([0, 180, 360])],
            "finst": rng.choice([None, 0, 1, 2, 3, 4, 7]), "auto": rng.random() < .4, "goal": {"p": rng.choice(TEXTS), "n": rng.choice(XS + YS)}, "form": rng.choice(["func", "text"]),
            "names": rng.choice([["visual", "visual_location"], ["visual", "visual_location"], ["see", "look"]]), "strict": rng.random() < .2}


def needs_location(crit):
    return any("vx" in str(c) or "vy" in str(c) for c in crit.values())


def request_parts(crit):
    """slot -> (constraint for the functional notation, text)."""
    out = {}
    for slot, c in crit.items():
        if c.get("rel"):
            sign, b = c["rel"]
            if isinstance(b, str):
                out[slot] = ({"v": sign, "x": b}, "%s %s=%s" % (slot, sign, b))
            else:
                out[slot] = ({"v": "%s%d" % (sign, b)}, "%s %s%d" % (slot, sign, b))
        else:
            t = constraint_text(slot, c)
            if "'" in str(c):
                t = t.replace("don't", '"don\'t"')
            out[slot] = (c, t)
    return out


def build(case, env):
    """The model; for every step one rule, and for those that need a location one that skips the step."""
    V.declare()
    m = new_model(environment=env, automatic_visual_search=case["auto"], emma=False, strict_harvesting=case["strict"])
    vis, loc = case["names"]
    if case["finst"] is not None or vis != "visual":
        m.visualBuffer(vis, loc, m.decmem, **({} if case["finst"] is None else {"finst": case["finst"]}))
    m.goals["g"].add(Chunk("go", s="k0", **{k: v for k, v in case["goal"].items()}))
    rules = []
    for i, s in enumerate(case["steps"]):
        goal = {"t": "go", "s": {"s": {"v": "k%d" % i}, "p": {"x": "vt"}, "n": {"x": "vn"}}}
        nxt = {"t": "go", "s": {"s": {"v": "k%d" % (i + 1)}}}
        lhs, rhs, texts = {"=g": goal}, {"=g": nxt}, {}
        place = {"t": "_visuallocation", "s": {"screen_x": {"x": "vx"}, "screen_y": {"x": "vy"}}}
        skip = False
        if s["kind"] == "search":
            if needs_location(s["crit"]):
                lhs["=" + loc] = place
                skip = True
            parts = request_parts(s["crit"])
            if s["attended"] is not None:
                rhs["?" + loc] = {"attended": str(s["attended"])}
            rhs["+" + loc] = {"t": "place" if case["wide"] else "_visuallocation", "s": {k: p[0] for k, p in parts.items()}}
            texts["+" + loc] = "isa %s " % rhs["+" + loc]["t"] + " ".join(p[1] for p in parts.values())
        elif s["kind"] == "attend":
            lhs["=" + loc] = place
            lhs["?" + vis] = {"state": "free"}
            rhs["+" + vis] = {"t": "_visual", "s": {"cmd": {"v": "move_attention"}, "screen_pos": {"x": loc}}}
            skip = True
        elif s["kind"] == "mark":       # the rule modifies the location
            lhs["=" + loc] = place
            rhs["=" + loc] = {"t": "place" if case["wide"] else "_visuallocation", "s": {"value": {"x": "vt"}, "color": {"v": "green"}}}
            skip = True
        else:
            lhs["=" + loc] = place
            rhs["~" + loc] = None
            skip = True
        rules.append(("r%d" % i, lhs, rhs, texts))
        if skip:
            rules.append(("skip%d" % i, {"=g": goal, "?" + loc: {"buffer": "empty"}}, {"=g": nxt}, {}))

    def text(side, texts):
        out = []
        for k, v in side.items():
            out.append(k + ">")
            out.append(texts[k] if k in texts else "" if v is None else " ".join("%s %s" % kv for kv in v.items()) if k[0] == "?" else pattern_text(v))
        return "\n".join(out)

    def func(side):
        return {k: (None if v is None else dict(v) if k[0] == "?" else real_pattern(v)) for k, v in side.items()}
    if case["form"] == "text":
        for n, lhs, rhs, texts in rules:
            m.productionstring(name=n, string=text(lhs, {}) + "\n==>\n" + text(rhs, texts))
    else:
        m.set_productions(*[make_rule(n, lambda l=lhs: func(l), lambda r=rhs: func(r)) for n, lhs, rhs, _ in rules])
    return m


def resolve(crit, bound):
    """Replace the variables of a request."""
    out = {}
    for slot, c in crit.items():
        d = {"v": c.get("v"), "nv": list(c.get("nv", ()))}
        if c.get("x"):
            d["v"] = bound[c["x"]]
        d["nv"] += [bound[x] for x in c.get("nx", ())]
        if c.get("rel"):
            sign, b = c["rel"]
            d["rel"] = [sign, int(bound[b]) if isinstance(b, str) else b]
        out[slot] = d
    return out


def screens_of(case):
    return [{k: {**s, "position": tuple(s["position"])} for k, s in sc.items()} for sc in case["screens"]]


def check(case, ctx):
    env = pyactr.Environment(focus_position=tuple(case["focus"]))
    m = build(case, env)
    sim = new_sim(m, environment_process=env.environment_process, stimuli=screens_of(case), triggers="none", times=list(case["times"]))
    if not all(case["screens"]):
        return      # (only while a failure is shrunk)
    finst = 4 if case["finst"] is None else case["finst"]
    recent, pending, n_real, done, before = [], None, 0, False, None
    vis, loc = case["names"]

    def push(s):
        if finst:
            recent.append(s)
            del recent[:-finst]
    buffers = None
    for _ in range(600):
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            done = True
            break
        except ACTRError as e:
            need("here is no object" in str(e), "the model ended with %s", e)
            ctx.label("no object")
            return
        if buffers is None:
            from .. import worlds as W
            buffers = W.all_buffers(m)
        e = sim.current_event
        lb = buffers[loc]
        if e.proc == loc and "ENCODED LOCATION" in e.action:
            got = buf_canon(lb)
            screen = env.stimulus
            if pending is None:     # found automatically
                s = [x for x in screen.values() if dict(got[1]).get("screen_x") == str(V.pos(x)[0]) and dict(got[1]).get("screen_y") == str(V.pos(x)[1])]
                need(len(s) == 1, "at %s the location %s was found automatically; the screen is %s", e.time, show(got), screen)
                push(s[0])
            else:
                step, bound, at = pending
                pending = None
                need(e.time == at, "a search requested at %s ends at %s", at, e.time)
                crit = resolve(step["crit"], bound)
                fine, sat = V.search(screen, crit, step["attended"], recent, finst, env.current_focus)
                what = "at %s a search for %s, attended %s, focus %s, screen %s, attended were %s" % (at, {k: {a: b for a, b in c.items() if b not in (None, [])} for k, c in crit.items()}, step["attended"], env.current_focus, screen, recent)
                if not sat:
                    need(lb.state == "error" or str(lb.state) == "error", "%s: the buffer state is %s, expected error; nothing satisfies the request", what, lb.state)
                    need(e.action.endswith("'None'"), "%s: %s although nothing satisfies the request", what, e.action)
                    ctx.label("failed")
                else:
                    need(str(lb.state) == "free" and got is not None, "%s: state is %s, buffer %s; expected one of %s", what, lb.state, got and show(got), fine)
                    ok = [s for s in fine if V.location_of(s) == got]
                    need(ok, "%s: found %s, expected one of %s", what, show(got), [show(V.location_of(s)) for s in fine])
                    if ok[0].get("visual_location_typename"):
                        need(buf_chunk(lb).typename == "place", "%s: the location has type %s instead of place", what, buf_chunk(lb).typename)
                    elif all(not s.get("visual_location_typename") for s in ok):
                        need(buf_chunk(lb).typename == "_visuallocation", "%s: the location has type %s", what, buf_chunk(lb).typename)
                    vals = {k: parts(v)[0] for k, v in buf_chunk(lb)}
                    need(type(vals["screen_x"]) is int or str(vals["screen_x"]).isdigit(), "%s: coordinates %s", what, vals)
                    push(ok[0])
                    ctx.label("found")
                    ctx.label(*[k for _, k in V.extremes(crit)])
                if step["attended"] is not None:
                    ctx.label("attended %s" % step["attended"])
                if 0 < len(fine) < len(screen):
                    n_real += 1
        elif e.proc == "PROCEDURAL" and e.action.startswith("RULE FIRED: r"):
            step = case["steps"][int(e.action[13:])]
            if step["kind"] == "search":
                need(pending is None, "the search requested at %s has no result at %s", pending and pending[2], e.time)
                bound = {"vt": case["goal"]["p"], "vn": case["goal"]["n"]}
                if needs_location(step["crit"]):
                    bound.update(vx=before["screen_x"], vy=before["screen_y"])
                pending = (step, bound, e.time)
        elif e.proc == "PROCEDURAL" and e.action.startswith("RULE SELECTED"):
            pass
        c = buf_canon(lb)
        if pending is None:
            before = None if c is None else dict(c[1])
    if done:
        need(pending is None, "the search requested at %s has no result", pending and pending[2])
    ctx.nontrivial(n_real >= 2)


SUBS = [Sub("search", gen, check, 1900, 90000,
            "up to three screens with up to five stimuli each; chains of searches by text, exact, negated and relative position, extremes, visible features and attendedness, mixed with attention shifts; "
            "non-trivial: at least two searches satisfied by some but not all stimuli", shards=8)]
