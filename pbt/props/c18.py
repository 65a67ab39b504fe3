"""C18 Runs are reproducible and independent of how the simulation is driven."""
import ast
import io
import json
import os
import subprocess
import sys
from ..core import Sub, need, VERIF
from ..lib import *
from .. import worlds as W


def model(rng, **kw):
    spec = W.gen_world(rng, utils=[0, 0, 1, 2], rewards=[None, None, 3, 10], **kw)
    spec["start"] = rng.choice([0, 0, 0, 1.5, 0.0123])
    p = spec["params"]
    p["utility_learning"] = rng.random() < .3
    p["production_compilation"] = rng.random() < .25
    return spec


def same(a, b, what):
    (ea, sa, xa), (eb, sb, xb) = a, b
    for i, (x, y) in enumerate(zip(ea + [None], eb + [None])):
        need(x == y, "%s: event %d is %s in one run and %s in the other", what, i, x, y)
        if x is None:
            break
    need(xa == xb and len(ea) == len(eb), "%s: one run %s after %d events, the other %s after %d", what, xa, len(ea), xb, len(eb))
    for k in sa:
        need(sa[k] == sb[k], "%s: the final %s differ: %s and %s", what, k, sa[k], sb[k])


def gen_repeat(rng):
    return {"model": model(rng), "seed": rng.randint(0, 999), "form": rng.choice(["func", "func", " "])}


def check_repeat(case, ctx):
    a = W.observe(case["model"], case["seed"], case["form"])
    b = W.observe(case["model"], case["seed"], case["form"])
    same(a, b, "the same model run twice")
    ctx.label(a[2][:5])
    ctx.nontrivial(len(a[0]) >= 8)


# ------------------------------------------------------------------ driving

def gen_drive(rng):
    return {"model": model(rng), "seed": rng.randint(0, 999), "cuts": sorted(rng.choice([.05, .1, .15, .2, .3, .25, .5, .03, .06]) + rng.choice([0, 0, 0.3, 1]) for _ in range(rng.randint(1, 4))),
            "end": rng.choice([1, 1.3, 2]), "by": rng.choice([1, 1, 2, 3, 7])}


def printed(fn):
    out, old = io.StringIO(), sys.stdout
    sys.stdout = out
    err = None
    try:
        fn()
    except ACTRError as e:
        err = str(e)[:60]
    finally:
        sys.stdout = old
    ev = []
    for line in out.getvalue().splitlines():
        if line.startswith("("):
            ev.append(list(ast.literal_eval(line)))
        elif line.startswith("****Environment"):
            ev.append([line])
    return ev, err


def check_drive(case, ctx):
    spec, start = case["model"], case["model"]["start"]
    end = start + case["end"]
    cuts = sorted({round(start + c, 6) for c in case["cuts"] if c < case["end"]})

    def begin(trace=True):
        m, env = W.build(spec)
        sim = W.simulate(spec, m, env, trace=trace)
        np.random.seed(case["seed"])
        return m, sim
    m1, s1 = begin()
    ev1, err1 = printed(lambda: s1.run(end))
    m2, s2 = begin()
    parts = []

    def stretches():
        for c in cuts + [end]:
            s2.run(c)
            parts.append(c)
    ev2, err2 = printed(stretches)
    what = "run(%s) and run in stretches up to %s" % (end, cuts + [end])
    need(ev1 == ev2, "%s: traces differ: %s", what, next(((x, y) for x, y in zip(ev1 + [None], ev2 + [None]) if x != y), None))
    need(err1 == err2, "%s end with %s and %s", what, err1, err2)
    st1, st2 = W.state_of(m1), W.state_of(m2)
    for k in st1:
        need(st1[k] == st2[k], "%s: the final %s differ: %s and %s", what, k, st1[k], st2[k])
    # a shorter run is a prefix of a longer one
    if cuts:
        m3, s3 = begin()
        ev3, _ = printed(lambda: s3.run(cuts[0]))
        need(ev3 == ev1[:len(ev3)], "the trace of run(%s) is no prefix of the trace of run(%s)", cuts[0], end)
        rest = [e for e in ev1[len(ev3):] if len(e) == 3]
        need(not rest or rest[0][0] >= cuts[0] - 5.1e-5, "run(%s) does not contain %s", cuts[0], rest[:1])
        need(all(len(e) == 1 or e[0] <= cuts[0] + 5.1e-5 for e in ev3), "run(%s) goes on to %s", cuts[0], ev3[-1])
    # step by step
    m4, s4 = begin(False)
    np.random.seed(case["seed"])
    steps, err4, over = [], None, False
    try:
        while len(steps) < 3000:
            s4.step()
            e = s4.current_event
            if s4.show_time() >= end:
                over = True
                break
            steps.append([e.time, e.proc, e.action])
    except simpy.core.EmptySchedule:
        over = s4.show_time() >= end    # (a request that was replaced leaves its timer behind, so nothing may happen between the last event and the end)
    except ACTRError as e:
        err4 = str(e)[:60]
        over = s4.show_time() >= end
    a = W.collapse([e for e in ev1 if len(e) == 3])
    b = W.collapse([e for e in steps if e[1] != "ENVIRONMENT"])
    if len(steps) < 3000:
        need(W.collapse([e[:2] for e in a]) == W.collapse([e[:2] for e in b]), "running and stepping differ: %s", next(((x, y) for x, y in zip(a + [None], b + [None]) if x != y), None))
        need(over or err1 == err4, "running ends with %s, stepping with %s", err1, err4)
        if not over and err1 is None:
            st4 = W.state_of(m4)
            for k in st1:
                need(st1[k] == st4[k], "running and stepping: the final %s differ: %s and %s", k, st1[k], st4[k])
            ctx.label("ended")
    # several steps at once
    by = case.get("by", 1)
    if by > 1 and len(steps) < 3000:
        m5, s5 = begin(False)
        np.random.seed(case["seed"])
        for i in range(by, min(len(steps), 200) + 1, by):
            s5.steps(by)
            e = s5.current_event
            need([e.time, e.proc, e.action] == steps[i - 1], "steps(%s) leads to %s, %s single steps to %s", by, e, by, steps[i - 1])
        ctx.label("steps")
    ctx.nontrivial(len(ev1) >= 8 and cuts)


# ------------------------------------------------------------------ shifted start

def gen_shift(rng):
    spec = model(rng)
    spec["params"].update(subsymbolic=False, emma_noise=False)
    spec["start"] = 0
    return {"model": spec, "by": rng.choice([1, 2, 3, 7, 12, 100, 1000, 86400]), "past": rng.random() < .5}


def check_shift(case, ctx):
    spec, by = case["model"], case["by"]
    if not case["past"]:
        spec["dm"] = []
    later = {**spec, "start": by, "dm": [[c, [t + by for t in ts]] for c, ts in spec["dm"]]}
    ea, sa, xa = W.observe(spec, 1)
    eb, sb, xb = W.observe(later, 1)
    for i, (x, y) in enumerate(zip(ea + [None], eb + [None])):
        need((x is None) == (y is None), "starting at %s instead of 0: event %d is %s instead of %s", by, i, y, x)
        if x is None:
            break
        if x[1:] != y[1:] and any(e[1:] == y[1:] and tclose(e[0] + by, y[0], 1.6e-4) for e in ea[i:i + 12]) and any(e[1:] == x[1:] and tclose(x[0] + by, e[0], 1.6e-4) for e in eb[i:i + 12]):
            ctx.label("tie")    # two independent events at the same time: floating-point rounding decides which comes first
            return
        need(x[1:] == y[1:] and tclose(x[0] + by, y[0], 1.6e-4), "starting at %s instead of 0: event %d is %s instead of %s", by, i, y, x)
    need(xa == xb and len(ea) == len(eb), "starting at %s instead of 0: %s after %d events instead of %s after %d", by, xb, len(eb), xa, len(ea))
    need(sa["buffers"] == sb["buffers"] and sa["utilities"] == sb["utilities"], "starting at %s instead of 0: final buffers %s instead of %s", by, sb["buffers"], sa["buffers"])
    for n in sa["memories"]:
        need(set(sa["memories"][n]) == set(sb["memories"][n]), "starting at %s: memory %s instead of %s", by, sb["memories"][n], sa["memories"][n])
        for c, ts in sa["memories"][n].items():
            us = sb["memories"][n][c]
            need(len(us) == len(ts) and all(tclose(t + by, u, 1.6e-4) for t, u in zip(ts, us)), "starting at %s: %s stored at %s instead of %s", by, c, us, ts)
    ctx.label(xa[:5])
    ctx.nontrivial(len(ea) >= 8)


# ------------------------------------------------------------------ real time

def gen_real(rng):
    return {"model": model(rng), "seed": rng.randint(0, 999), "start": rng.choice([0, 0, 1.5]), "end": rng.choice([.06, .11, .16])}


def check_real(case, ctx):
    spec = dict(case["model"], start=case["start"])
    out = []
    for kw in ({}, {"realtime": True}):
        m, env = W.build(spec)
        sim = W.simulate(spec, m, env, trace=True, **kw)
        np.random.seed(case["seed"])
        try:
            ev, err = printed(lambda: sim.run(case["start"] + case["end"]))
        except RuntimeError as e:
            need("too slow" in str(e), "the run crashed with %s", e)
            return ctx.label("too slow")
        out.append((ev, err, W.state_of(m)))
    a, b = out
    need(a[0] == b[0] and a[1] == b[1], "the run in real time differs: %s", next(((x, y) for x, y in zip(a[0] + [a[1]], b[0] + [b[1]]) if x != y), None))
    need(a[2] == b[2], "the state after the run in real time is %s instead of %s", b[2], a[2])
    ctx.nontrivial(len(a[0]) >= 4)


# ------------------------------------------------------------------ hash seeds

def gen_hash(rng):
    return {"models": [model(rng) for _ in range(25)], "seeds": rng.sample(range(1, 10000), 2)}


def child(models, hashseed):
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-m", "pbt.hashrun"], cwd=VERIF, env=env, input=json.dumps(models), capture_output=True, text=True, timeout=700)
    if r.returncode:
        raise HarnessError("hashrun: " + r.stderr[-2000:])
    return json.loads(r.stdout.splitlines()[-1])


def check_hash(case, ctx):
    a, b = (child(case["models"], s) for s in case["seeds"])
    for spec, x, y in zip(case["models"], a, b):
        same(x, y, "hash seeds %s" % case["seeds"])
        need(x[2] in ("ended", "cut") or x[2].startswith("error"), "the run crashed with %s", x[2])
    ctx.label("batch")
    ctx.nontrivial(sum(len(x[0]) >= 8 for x in a) >= 1)


def shrink_hash(case):
    ms = case["models"]
    n = len(ms)
    k = n // 2
    while k:
        for i in range(0, n, k):
            yield {**case, "models": ms[i:i + k]}
        k //= 2
    if n == 1:
        for x in W.shrink_world(ms[0]):
            yield {**case, "models": [x]}


SUBS = [Sub("repeat", gen_repeat, check_repeat, 450, 30000,
            "random models of all modules run twice from the same state and random seed; non-trivial: at least 8 events", shards=4, shrink=W.shrink_field("model")),
        Sub("driving", gen_drive, check_drive, 500, 30000,
            "the same model run in one go, in stretches (cuts at, between and before event times) and stepwise; non-trivial: at least 8 events and a cut inside", shards=5, shrink=W.shrink_field("model")),
        Sub("shifted", gen_shift, check_shift, 350, 20000,
            "the same model started at 0 and at a later time, stored presentation times shifted along; non-trivial: at least 8 events", shards=3, shrink=W.shrink_field("model")),
        Sub("realtime", gen_real, check_real, 24, 600,
            "the same model run for up to 160 ms of real time; non-trivial: at least 4 events", shards=2, shrink=W.shrink_field("model")),
        Sub("hashseeds", gen_hash, check_hash, 12, 400,
            "batches of 25 random models, each run in two interpreters with different hash seeds; non-trivial: a run of at least 8 events in the batch", shards=4, shrink=shrink_hash)]
