"""C07 Buffers hold at most one chunk and clearing harvests it exactly once."""
from ..core import Sub, need
from ..lib import *
from pyactr import declarative, goals, vision
from .. import worlds as W
import re

small = st.sampled_from(["p", "q", 1, None])
spec = chunk_specs(0, slots=["a", "b", "c"], vals=small, max_slots=3)
times = st.sampled_from([0, 0.05, 0.1, 1, 2.5, 3.12345])
BUFS = ["g", "g2", "r", "r2", "v", "vl"]
# which memory each buffer harvests into
HOME = {"g": 0, "g2": 1, "r": 0, "r2": 1, "v": 0, "vl": 1}


def ops():
    b = st.sampled_from(BUFS)
    add = st.builds(lambda b, c, t, h: {"op": "add", "b": b, "c": c, "t": t, "h": h}, b, spec, times, st.sampled_from([None, None, 0, 1]))
    clear = st.builds(lambda b, t, h: {"op": "clear", "b": b, "t": t, "h": h}, b, times, st.sampled_from([None, None, 0, 1]))
    modify = st.builds(lambda b, c: {"op": "modify", "b": b, "c": c}, b, spec)
    create = st.builds(lambda b, c: {"op": "create", "b": b, "c": c}, st.sampled_from(["g", "g2"]), spec)
    discard = st.builds(lambda b, c: {"op": "discard", "b": b, "c": c}, b, st.one_of(st.none(), spec))
    move = st.builds(lambda b, d, t: {"op": "move", "b": b, "d": d, "t": t}, b, b, times)
    bad = st.builds(lambda b, k: {"op": "bad", "b": b, "kind": k}, b, st.sampled_from(["addstr", "adddm"]))
    return st.tuples(st.lists(add, min_size=2, max_size=5),
                     st.lists(weighted((8, add), (7, clear), (2, modify), (1, create), (1, discard), (1, move), (1, bad)), min_size=3, max_size=16)).map(lambda z: z[0] + z[1])


def check(case, ctx):
    env = pyactr.Environment()
    dms = [declarative.DecMem(), declarative.DecMem()]
    bufs = {"g": goals.Goal(None, dms[0]), "g2": goals.Goal(None, dms[1]),
            "r": declarative.DecMemBuffer(dms[0]), "r2": declarative.DecMemBuffer(dms[1]),
            "v": vision.Visual(env, dms[0]), "vl": vision.VisualLocation(env, dms[1])}
    content = {b: None for b in BUFS}
    mems = [{}, {}]
    harvested = 0

    def harvest(b, t, h):
        nonlocal harvested
        if content[b] is not None:
            mems[h].setdefault(content[b], []).append(round(float(t), 4))
            content[b] = None
            harvested += 1
    for i, op in enumerate(case):
        b, o = op["b"], op["op"]
        buf = bufs[b]
        what = "step %d (%s on %s)" % (i, o, b)
        if o == "add":
            c = real_chunk(op["c"])
            h = HOME[b] if op["h"] is None else op["h"]
            kw = {} if op["h"] is None else {"harvest": dms[h]}
            if b in ("g", "g2"):
                buf.add(c, op["t"], **kw)
            elif b in ("r", "r2"):
                harvest(b, op["t"], HOME[b])
                buf.add(c, op["t"])
            elif b == "v":
                harvest(b, op["t"], h)
                buf.add(c, op["t"], **kw)
            else:
                harvest(b, op["t"], h)
                buf.add(c, None, op["t"], **kw)
            content[b] = canon_spec(op["c"])
        elif o == "clear":
            h = HOME[b]
            if op["h"] is not None and b not in ("r", "r2"):
                h = op["h"]
                buf.clear(op["t"], dms[h])
            else:
                buf.clear(op["t"])
            ctx.label("clear-empty" if content[b] is None else "clear-full")
            harvest(b, op["t"], h)
        elif o == "modify":
            if content[b] is None:
                continue
            c = real_chunk(op["c"], "make")
            if b == "vl":
                buf.modify(c, None)
            else:
                buf.modify(c)
            new = dict(content[b][1])
            for s, v in op["c"]["s"].items():
                new[s] = canon_value(v)
            content[b] = ("chunk", frozenset((s, v) for s, v in new.items() if v is not None))
        elif o == "create":
            if not op["c"]["s"]:
                continue
            buf.create(real_chunk(op["c"], "make"), dms[0], {})
            content[b] = canon_spec(op["c"])
        elif o == "discard":
            c = buf_chunk(buf) if op["c"] is None else real_chunk(op["c"])
            if c is not None:
                buf.discard(c)
                if canon_chunk(c) == content[b]:
                    content[b] = None
        elif o == "move":    # the same chunk object in two buffers
            c = buf_chunk(buf)
            if c is not None and op["d"] != b and op["d"] in ("g", "g2"):
                bufs[op["d"]].add(c, op["t"])
                content[op["d"]] = content[b]
        elif o == "bad":
            args = {"r": (0,), "r2": (0,), "v": (0,), "vl": (None, 0)}.get(b, ())
            if b in ("g", "g2"):   # goal chunks are replaced, not harvested: emptying on a bad chunk is not specified
                continue
            if content[b] is not None:
                continue
            expect_error(lambda: buf.add("word" if op["kind"] == "addstr" else dms[0], *args), (TypeError, ACTRError), what + ": adding a non-chunk")
        for name in BUFS:
            got = buf_canon(bufs[name])
            need(got == content[name], "%s: buffer %s holds %s, expected %s", what, name, show(got), show(content[name]))
            full = bool(bufs[name].test_buffer("full"))
            empty = bool(bufs[name].test_buffer("empty"))
            need(full == (content[name] is not None) and empty == (content[name] is None),
                 "%s: buffer %s with content %s: full=%s empty=%s", what, name, show(got), full, empty)
        for j in (0, 1):
            got = dm_canon(dms[j])
            need(got == mems[j], "%s: memory %d is %s, expected %s", what, j,
                 {show(k): v for k, v in got.items()}, {show(k): v for k, v in mems[j].items()})
    ctx.label("harvests=%d" % min(harvested, 4))
    ctx.nontrivial(harvested)


# ------------------------------------------------------------------ runs of models

LAYOUTS = ("one", "one", "novis", "vis", "two", "two-empty", "trivial")


def gen(rng):
    spec = W.gen_world(rng, utils=[0, 0, 1, 2])
    if rng.random() < .35:
        spec["params"]["strict_harvesting"] = True
    if rng.random() < .4:
        spec["params"]["automatic_visual_search"] = False
    return {"model": spec, "layout": rng.choice(LAYOUTS), "own": rng.random() < .5, "seed": rng.randint(0, 9999)}


def lay_out(case, m, env):
    """Gives the model its memories; returns name of a buffer -> name of the memory it is cleared into (buffers in whose case it is open are missing)."""
    layout = case["layout"]
    main, other = m.decmem, declarative.DecMem()
    names = [n for n, _, _ in case["model"]["goals"]] + ["retrieval"]
    home = {n: "decmem" for n in names}
    goal = m.goals[case["model"]["goals"][-1][0]]
    last = case["model"]["goals"][-1][0]
    if layout in ("novis", "vis", "one"):
        if env is not None:
            home.update(visual="decmem", visual_location="decmem")
            if layout != "one":
                m.visualBuffer("visual", "visual_location", main if layout == "vis" else None)
        return home
    m.decmems["other"] = other
    goal.default_harvest = other      # its own memory
    home[last] = "other"
    if layout == "two":               # several memories with chunks: all buffers say what they use
        other.add(real_chunk({"t": "fact", "s": {"a": "p", "b": "q"}}), 0)
        m.retrieval.dm = main
        for n, _, _ in case["model"]["goals"][:-1]:
            m.goals[n].default_harvest = main
    elif layout == "two-empty":       # the own memory of the goal is empty: the other buffers use the one that is not
        if not len(main):
            main.add(real_chunk({"t": "fact", "s": {"a": "p", "b": "q"}}), 0)
    else:                             # memories without a buffer of their own that are empty change nothing
        del m.decmems["other"]
        if not len(main):
            main.add(real_chunk({"t": "fact", "s": {"a": "p", "b": "q"}}), 0)
        m.decmems["other"] = declarative.DecMem()
        goal.default_harvest = None
        home[last] = "decmem"
    if env is not None:
        m.visualBuffer("visual", "visual_location", main)
        home.update(visual="decmem", visual_location="decmem")
    return home


def presentations(m):
    return {n: dm_canon(dm) for n, dm in m.decmems.items()}


def content_text(chunk):
    """How a chunk is written, without types and empty slots."""
    return sorted(x for x in re.findall(r"[^(,]+= [^ ,)]+|[()]", re.sub(r"\w+\(", "(", str(chunk))) if not x.endswith("= None"))


def check_run(case, ctx):
    spec = case["model"]
    m, env = W.build(spec)
    home = lay_out(case, m, env)
    sim = W.simulate(spec, m, env)
    np.random.seed(case["seed"])
    ctx.label("layout " + case["layout"])

    def contents():
        out = {}
        for n, b in W.all_buffers(m).items():
            out[n] = c = buf_canon(b)
            full, empty = bool(b.test_buffer("full")), bool(b.test_buffer("empty"))
            need(full == (c is not None) and empty == (c is None), "buffer %s with content %s: full=%s empty=%s", n, show(c), full, empty)
        return out
    # stimuli that appear are buffered at once and replace what was there, possibly at the moment when a buffer is cleared
    sudden = spec["env"] and spec["params"]["automatic_visual_search"]
    old, mem, before, n, harvested, shared, replaced = contents(), presentations(m), float(spec["start"]), 0, 0, 0, 0
    while n < 160:
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            break
        except ACTRError as e:
            need("memory" not in str(e), "the run stops: %s", e)
            ctx.label("rejected")
            break
        n += 1
        now = float(sim.show_time())
        what = "step %d, at %s (%s)" % (n, now, sim.current_event.action)
        new, mem2 = contents(), presentations(m)
        e = sim.current_event
        if e.action.startswith("WROTE A CHUNK: ") and e.proc in home and new[e.proc] is None:      # written and cleared by the same rule
            d = m.decmems[home[e.proc]]
            written = [canon_chunk(ch) for ch in d if content_text(ch) == content_text(e.action[15:])]
            need(written, "%s: the chunk was cleared and is not in memory %s", what, home[e.proc])
            old[e.proc] = written[0]
        emptied = {}
        for b in old:
            if old[b] is not None and new.get(b) is None and b in home:
                emptied.setdefault((home[b], old[b]), []).append(b)
            elif e.proc == b and e.action.startswith(("CLEARED", "ENCODED", "RETRIEVED")) and b in home and None not in (old[b], new.get(b)) and old[b] != new[b] and not (sudden and b in ("visual", "visual_location")):
                emptied.setdefault((home[b], old[b]), []).append(b)      # another chunk took its place right away
                replaced += 1
        for d in mem:
            for c, ts in mem[d].items():
                need(mem2[d].get(c, [])[:len(ts)] == ts, "%s: presentations of %s in memory %s were %s and are %s", what, show(c), d, ts, mem2[d].get(c))
            for c, ts in mem2[d].items():
                if sudden and {"screen_x", "screen_y"} & {x for x, _ in c[1]}:
                    continue
                added = ts[len(mem[d].get(c, ())):]
                held = [b for b in old if old[b] == c and home.get(b, d) == d]
                need(len(added) <= len(held), "%s: memory %s gets %d presentations of %s, which was in %s", what, d, len(added), show(c), held or "no buffer cleared into that memory")
                for t in added:
                    need(before - 1e-3 <= t <= now + 1e-3, "%s: %s is stored with time %s, the clock went from %s to %s", what, show(c), t, before, now)
                    harvested += 1
                must = emptied.get((d, c), ())
                need(len(added) >= len(must), "%s: %s lost %s, of which memory %s got %d presentations", what, must, show(c), d, len(added))
                shared += len(must) > 1
        for (d, c), bs in emptied.items():
            if sudden and {"screen_x", "screen_y"} & {x for x, _ in c[1]}:
                continue
            need(c in mem2[d], "%s: %s lost %s, which is not in memory %s", what, bs, show(c), d)
        old, mem, before = new, mem2, now
    ctx.label("harvests=%d" % min(harvested, 4))
    if replaced:
        ctx.label("replaced at once")
    if shared:
        ctx.label("the same chunk cleared from two buffers at once")
    ctx.nontrivial(harvested)


SUBS = [Sub("history", ops(), check, 1600, 50000,
            "operation sequences on two goals, two retrieval buffers, a visual and a visual-location buffer over two memories, compared after every step with a one-slot model; non-trivial: something was harvested", shards=6),
        Sub("runs", gen, check_run, 4000, 100000,
            "steps of random models with one or several memories: what leaves a buffer is in the memory of that buffer at that time, once, and nothing else gets there; non-trivial: something was harvested",
            shards=8, shrink=W.shrink_field("model"))]
