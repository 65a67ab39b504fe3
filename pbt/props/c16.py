"""C16 Production systems execute with the documented semantics."""
import contextlib
import io

from ..core import Sub, need
from ..lib import *
from .. import models as M, refsim as R

FEATS = ("im", "retrieval", "goalset", "star", "strict", "nx", "finst", "bufvar", "extra")


def gen(rng):
    spec = M.gen_model(rng, FEATS, utils=[0, 0, 1, 2])
    spec["params"]["rule_firing"] = rng.choice([0.05, 0.05, 0.05, 0.031, 0.1]) if rng.random() < .98 else 0
    spec["start"] = rng.choice([0, 0, 0, 2.5, 0.0123])
    if rng.random() < .35:      # retrievals take time
        spec["params"].update(subsymbolic=True, baselevel_learning=False, latency_factor=rng.choice([.0207, .0513, .1211, .2903]), retrieval_threshold=rng.choice([-.5, -1]))
        spec["finst"] = 0
    return {"model": spec, "form": rng.choice(["func", "func", " ", "marked"])}


def check(case, ctx):
    spec = case["model"]
    m = M.build(spec, case["form"])
    sim = new_sim(m, initial_time=spec["start"])
    with contextlib.redirect_stdout(io.StringIO()):
        obs = R.observe(m, sim, 150)
    ref = R.Ref(spec, obs)
    ref.run(len(obs.proc))
    R.compare(spec, m, obs, ref)
    for k, v in ref.stats.items():
        if v:
            ctx.label(k)
    ctx.label("ended" if obs.ended else "cut", "strict" if ref.strict else "-")
    ctx.nontrivial(ref.stats["fired"] >= 2)


# ------------------------------------------------------------------ commands

CSLOTS = ["a", "ab", "arg1", "number", "ending"]


def gen_commands(rng):
    def chunk():
        return {x: rng.choice(["p", "two", 12, None, {"t": "inn", "s": {"k": "v"}}]) for x in rng.sample(CSLOTS, rng.randint(1, 4))}
    rules = []
    for i in range(rng.randint(1, 4)):
        rules.append({"show": {b: [rng.choice(CSLOTS + ["none_such"]) for _ in range(rng.randint(1, 3))] for b in rng.sample(["g", "im", "retrieval"], rng.randint(1, 2))},
                      "set": {b: {rng.choice(CSLOTS): rng.choice(["p", "new", "3"])} for b in ("im", "retrieval") if rng.random() < .4}, "form": rng.choice(["text", "plain", "list", "tuple"])})
    return {"g": chunk(), "im": chunk() if rng.random() < .8 else None, "retrieval": chunk() if rng.random() < .5 else None, "rules": rules, "strict": rng.random() < .3}


def check_commands(case, ctx):
    pyactr.chunktype("inn", "k")
    pyactr.chunktype("all", CSLOTS + ["step"])
    m = new_model(strict_harvesting=case["strict"])
    im = m.set_goal("im")
    bufs = {"g": m.goals["g"], "im": im, "retrieval": m.retrieval}
    now = {}
    for b, buf in bufs.items():
        now[b] = None
        if case[b] is not None:
            spec = {"t": "all", "s": {**case[b], **({"step": "k0"} if b == "g" else {})}}
            buf.add(real_chunk(spec))
            now[b] = dict(case[b])
    want, funcs = [], []
    for i, r in enumerate(case["rules"]):
        name = "r%d" % i
        sets = {b: s for b, s in r["set"].items() if now[b] is not None}
        if r["form"] == "text":
            lhs = "=g>\nisa all\nstep k%d" % i
            rhs = ["=%s>\nisa all\n%s" % (b, "\n".join("%s %s" % x for x in s.items())) for b, s in sets.items()] + ["=g>\nisa all\nstep k%d" % (i + 1)]
            rhs += ["!%s>\n%s" % (b, "\n".join("show " + x for x in xs)) for b, xs in r["show"].items()]
            funcs.append((name, "%s\n==>\n%s" % (lhs, "\n".join(rhs))))
        else:
            def rhs(r=r, i=i, sets=sets):
                wrap = {"plain": lambda x: x, "list": lambda x: [x], "tuple": lambda x: (x,)}[r["form"]]
                return {**{"=" + b: Chunk("all", **s) for b, s in sets.items()}, "=g": Chunk("all", step="k%d" % (i + 1)), **{"!" + b: [["show", wrap(x)] for x in xs] for b, xs in r["show"].items()}}
            funcs.append((name, make_rule(name, lambda i=i: {"=g": Chunk("all", step="k%d" % i)}, rhs)))
        lines = {}
        for b, xs in r["show"].items():      # commands come before what the rule changes
            lines[b] = [x if now[b] is None or x not in CSLOTS else "%s %s" % (x, "None" if now[b].get(x) is None else real_value(now[b][x])) for x in xs]
        want.append(lines)
        for b, s in sets.items():
            now[b].update(s)
    for name, f in funcs:
        if isinstance(f, str):
            m.productionstring(name=name, string=f)
        else:
            m.productions[name] = {"rule": f, "utility": 0, "reward": None}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sim = new_sim(m)
        tr = drive(sim, 200)
    fired = [e[2][12:] for e in tr.events if e[2].startswith("RULE FIRED")]
    need(fired == ["r%d" % i for i in range(len(want))], "rules fire: %s", fired)
    got = out.getvalue().splitlines()
    pos = 0
    for i, lines in enumerate(want):
        n = sum(map(len, lines.values()))
        part = got[pos:pos + n]
        orders = [sum((lines[b] for b in o), []) for o in (list(lines), list(lines)[::-1])]
        need(part in orders, "rule %d should print %s, the output is %s", i, orders[0], got[pos:])
        pos += n
    need(pos == len(got), "more is printed: %s", got[pos:])
    for b, buf in bufs.items():
        content = buf_canon(buf)
        need((content is None) == (now[b] is None), "buffer %s is %s", b, show(content))
        if content is not None:
            d = dict(content[1])
            need({k: canon_value(v) for k, v in now[b].items() if v is not None} == {k: v for k, v in d.items() if k != "step"}, "buffer %s is %s, expected %s", b, show(content), now[b])
    ctx.label(*{r["form"] for r in case["rules"]})
    ctx.nontrivial(any(b in r["show"] and now[b] is not None for r in case["rules"] for b in bufs))


SUBS = [Sub("differential", gen, check, 5000, 80000,
            "random production systems over goal, second goal (with delay), retrieval, run and compared event by event with a reference interpreter; non-trivial: at least two rules fired", shards=8, shrink=M.shrink_field("model")),
        Sub("commands", gen_commands, check_commands, 700, 20000,
            "rules with up to six commands to show slots, in all notations, next to actions; what is printed, in what order, and that commands change nothing; non-trivial: some buffer that was shown has a chunk", shards=4)]
