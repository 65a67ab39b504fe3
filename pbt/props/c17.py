"""C17 Simulation traces are well formed and time never runs backwards."""
import io
import sys
from ..core import Sub, need, Violation
from ..lib import *
from .. import models as M, worlds as W


def gen(rng):
    spec = W.gen_world(rng, utils=[0, 0, 1, 2])
    spec["start"] = rng.choice([0, 0, 0, 1.5, 0.0123])
    if rng.random() < .2:
        spec["params"]["production_compilation"] = True
    return {"model": spec, "form": rng.choice(["func", " "])}


def rejected(e):
    """The library's own error, raised while a model runs: the run ends there."""
    return isinstance(e, ACTRError)


def check_grammar(events, firing, ended):
    """Grammar of the procedural module's events; returns the number of rules selected."""
    state, sel = "start", None
    n = 0
    last = None
    for t, proc, act in events:
        need(last is None or t >= last, "time runs backwards: %s at %s after %s", act, t, last)
        last = t
        if proc != "PROCEDURAL":
            continue
        if act == "CONFLICT RESOLUTION":
            need(state in ("start", "idle"), "a conflict resolution starts at %s while %s", t, "rule %s is in progress" % (sel,) if state == "sel" else "the former one has no outcome")
            state, crt = "cr", t
        elif act == "NO RULE FOUND":
            need(state == "cr" and t == crt, "%s at %s in state %s", act, t, state)
            state = "idle"
        elif act.startswith("RULE SELECTED: "):
            need(state == "cr" and t == crt, "%s at %s in state %s", act, t, state)
            state, sel = "sel", (act[15:], t)
            n += 1
        elif act.startswith(("RULE FIRED: ", "RULE STOPPED FROM FIRING: ")):
            need(state == "sel", "%s at %s although no rule was selected", act, t)
            need(act.split(": ", 1)[1] == sel[0], "%s at %s although %s was selected", act, t, sel[0])
            need(tclose(t, sel[1] + firing), "%s at %s, selected at %s, rule firing takes %s", act, t, sel[1], firing)
            state = "idle"
        elif act.startswith(("RULE CREATED: ", "RULE RE-CREATED: ")):
            need(state == "sel" and tclose(t, sel[1] + firing), "%s at %s in state %s", act, t, state)
        else:
            raise Violation("unknown event of the procedural module: %s at %s" % (act, t))
    if ended:
        need(state == "idle", "the run ends while %s", "rule %s is in progress" % (sel,) if state == "sel" else "conflict resolution has no outcome")
    return n


def collapse(xs):
    return [x for i, x in enumerate(xs) if not i or xs[i - 1] != x]


def check(case, ctx):
    spec = case["model"]
    firing = spec["params"]["rule_firing"]
    m, env = W.build(spec, case["form"])
    sim = W.simulate(spec, m, env)
    tr, lines = Trace(), []
    err = None
    np.random.seed(7)
    out, old = io.StringIO(), sys.stdout
    sys.stdout = out
    try:
        while len(tr.events) < 250:
            try:
                sim.step()
            except simpy.core.EmptySchedule:
                tr.ended = True
                break
            e = sim.current_event
            t = sim.show_time()
            need(abs(e.time - round(e.time, 4)) < 1e-9, "the time of %s is %r, not rounded to tenths of a millisecond", e.action, e.time)
            need(abs(e.time - t) < 5.1e-5, "%s of %s is reported for %s when the clock shows %s", e.action, e.proc, e.time, t)
            tr.events.append((e.time, e.proc, e.action))
            lines.append(repr(tuple(e)[:3]))
    except ACTRError as e:
        err = str(e)
    finally:
        sys.stdout = old
    need(not [x for x in out.getvalue().splitlines() if x.startswith("(")], "events are printed although the trace is switched off: %s", out.getvalue()[:200])
    need(tr.events and tclose(tr.events[0][0], spec["start"], 1e-9), "the run starts at %s instead of %s", tr.events[:1], spec["start"])
    n = check_grammar(tr.events, firing, tr.ended)
    # the printed trace of an identical model lists the same events
    m2, env2 = W.build(spec, case["form"])
    sim2 = W.simulate(spec, m2, env2, trace=True)
    np.random.seed(7)
    out, old = io.StringIO(), sys.stdout
    sys.stdout = out
    err2 = None
    try:
        if tr.ended or err:
            sim2.run(spec["start"] + 10000)
        else:
            sim2.run(tr.events[-1][0] + 0.01)
    except ACTRError as e:
        err2 = str(e)
    finally:
        sys.stdout = old
    printed = [x for x in out.getvalue().splitlines() if x.startswith("(")]
    want = [x for x, (t, p, a) in zip(lines, tr.events) if p != "ENVIRONMENT"]
    need((err is None) == (err2 is None) or not (tr.ended or err), "stepping ends with %s, running with %s", err, err2)
    a, b = collapse(printed), collapse(want)
    if not (tr.ended or err):
        a = a[:len(b)]
    need(a == b, "printed trace and stepping differ: %s", next(((i, x, y) for i, (x, y) in enumerate(zip(a + [None] * len(b), b + [None] * len(a))) if x != y), None))
    procs = {p for _, p, _ in tr.events}
    ctx.label("ended" if tr.ended else "error" if err else "cut", *["module:" + p for p in procs if p in ("manual", "visual", "visual_location", "retrieval", "im", "ENVIRONMENT")])
    ctx.nontrivial(n >= 2 and len(procs) >= 2)


SUBS = [Sub("traces", gen, check, 1500, 60000,
            "random models of all modules, stepped and run; non-trivial: at least two rules selected and another module active", shards=8, shrink=W.shrink_field("model"))]
