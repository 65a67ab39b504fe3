"""C04 String notation and programmatic notation mean the same."""
import random
import re

from ..core import Sub, need, reset_globals, quiet
from ..lib import *
from .. import models as M, worlds as W

BARE = ["p", "q", "1", "10", "1.5", "-3", "a_b", "p:q", "p|q", "x.y", "a,b", "5%", "a&b", "$9", "`c`", "p*", "x-ray", "s", "None", "isa", "P", "p1", "c1", "c2", "_", ".", "busy"]
WORD = ["p", "q", "10", "a_b", "x9", "P", "c1", "c2", "_z", "None"]     # what may follow a sign
VARNAMES = ["x", "y", "xy", "x1", "X", "_v", "c1", "p"]
QUOTED = ["p", "c1", "c2", "two words", "=x", "~p", "~=x", ">5", "<5", "a!b", "!p", "isa", "1,5 #(2)", "p ==> q", "don't", 'say "hi"', "\\n", "None", " p", "é", "=", "~"]
SLOTN = ["a", "b", "ab", "isaac", "c_", "A", "s1", "B2"]
CNAMES = ["c1", "c2", "p", "new", "10"]


def gen_pair(rng):
    k = M.pick(rng, (8, "bare"), (5, "quoted"), (3, "var"), (3, "neg"), (2, "negquoted"), (2, "negvar"), (1, "cmp"), (1, "cmpvar"))
    slot = rng.choice(SLOTN)
    if k == "bare":
        return [slot, k, rng.choice(BARE), ""]
    if k == "quoted":
        v = rng.choice(QUOTED)
        return [slot, k, v, rng.choice([c for c in "\"'" if c not in v])]
    if k in ("var", "negvar"):
        return [slot, k, rng.choice(VARNAMES), ""]
    if k == "neg":
        return [slot, k, rng.choice(WORD), ""]
    if k == "negquoted":
        return [slot, k, rng.choice(WORD), rng.choice("\"'")]
    if k == "cmp":
        return [slot, k, rng.choice("<>") + rng.choice(["5", "120", "x"]), ""]
    return [slot, k, rng.choice("<>"), rng.choice(VARNAMES)]


def pair_text(p):
    slot, k, v, q = p
    if k in ("bare", "cmp"):
        t = v
    elif k == "quoted":
        t = q + v + q
    elif k == "var":
        t = "=" + v
    elif k == "neg":
        t = "~" + v
    elif k == "negquoted":
        t = "~" + q + v + q
    elif k == "negvar":
        t = "~=" + v
    else:
        t = v + "=" + q
    return slot + " " + t


def gen_defs(rng):
    defs = []
    for _ in range(rng.randint(1, 4)):
        pairs = [gen_pair(rng) for _ in range(rng.randint(1, 5))]
        if rng.random() < .5:        # mostly chunks without constraints
            pairs = [p for p in pairs if p[1] in ("bare", "quoted")] or [["a", "bare", "p", ""]]
        if rng.random() < .25:
            p = rng.choice(pairs)
            pairs.insert(rng.randint(0, len(pairs)), [p[0]] + gen_pair(rng)[1:])
        defs.append({"name": rng.choice(CNAMES + [""]), "t": rng.choice(["t1", "t2", "_t", "T3", "c1", None]), "isa": rng.choice(["isa", "isa", "ISA", "Isa"]), "at": rng.randint(0, 5),
                     "pairs": pairs, "via": rng.choice(["string", "string", "make"]), "gap": rng.choice([" ", "\n", "\n    ", "\t", "  "])})
    return {"defs": defs}


def meaning(pairs, named):
    """slot -> (values, variables, negvalues, negvariables) as lists without repetition; values are text or ("chunk", ..)."""
    out = {}
    for slot, k, v, q in pairs:
        c = out.setdefault(slot, ([], [], [], []))

        def put(i, x):
            if x not in c[i]:
                c[i].append(x)
        if k in ("bare", "neg"):
            put(0 if k == "bare" else 2, ("named", v) if v in named else v)
        elif k in ("quoted", "cmp"):
            put(0, v)
        elif k == "negquoted":
            put(2, v)
        elif k == "var":
            put(1, v)
        elif k == "negvar":
            put(3, v)
        else:
            put(0, v)
            put(1, q)
    return out


def def_text(d):
    bits = [pair_text(p) for p in d["pairs"]]
    if d["t"]:
        bits.insert(min(d["at"], len(bits)), d["isa"] + " " + d["t"])
    return d["gap"].join(b.replace(" ", d["gap"], 1) for b in bits)


def check_chunks(case, ctx):
    reset_globals(1)
    named = {}      # name -> canonical content
    objs = {}
    used = set()
    for d in case["defs"]:
        mean = meaning(d["pairs"], named)
        text = def_text(d)
        bad = [s for s, c in mean.items() if len(c[0]) > 1 or len(c[1]) > 1]
        if bad:
            expect_error(lambda: pyactr.chunkstring(d["name"], text), ACTRError, "chunk %r with two values or variables in slot %s" % (text, bad[0]))
            ctx.label("clash")
            continue

        def val(x):
            return objs[x[1]] if isinstance(x, tuple) else x

        def can(x):
            return named[x[1]] if isinstance(x, tuple) else None if x == "None" else x
        keys = {s: Varval(values=val(c[0][0]) if c[0] else None, variables=c[1][0] if c[1] else None, negvalues=tuple(map(val, c[2])), negvariables=tuple(c[3])) for s, c in mean.items()}
        plain = all(not (c[1] or c[2] or c[3]) for c in mean.values())
        twin = Chunk(d["t"] or "twin", **keys)
        # order of the pairs does not matter
        again = pyactr.chunkstring("other", def_text({**d, "pairs": d["pairs"][::-1], "isa": "isa", "at": 9, "gap": " "}))
        need(again == twin, "%r backwards gives %s, not %s", text, again, twin)
        if d["via"] == "make" and d["name"]:
            ch = pyactr.makechunk(d["name"], d["t"] or "", **dict(keys))
        else:
            ch = pyactr.chunkstring(d["name"], text)
        need(ch == twin and hash(ch) == hash(twin), "%r gives %s, the keyword notation %s", text, ch, twin)
        if d["t"]:
            need(ch.typename == d["t"], "%r gives a chunk of type %s", text, ch.typename)
        else:
            need({s for s, _ in ch} == set(mean), "%r without a type has slots %s", text, [s for s, _ in ch])
        want = {}
        for s, c in mean.items():
            w = (can(c[0][0]) if c[0] else None, c[1][0] if c[1] else None, frozenset(can(x) if can(x) is not None else "None" for x in c[2]), frozenset(c[3]))
            if w != NOCON:
                want[s] = w
        got = {}
        for s, v in ch:
            v, x, nv, nx = parts(v)
            w = (canon_value(v), x, frozenset(canon_value(n) if canon_value(n) is not None else "None" for n in nv), frozenset(nx))
            if w != NOCON:
                got[s] = w
        need(got == want, "%r gives %s, it says %s", text, got, want)
        if plain:
            simple = {s: val(c[0][0]) for s, c in mean.items()}
            if not any(isinstance(v, str) and re.search("[=!~]", v) for v in simple.values()):
                k2 = Chunk(d["t"] or "twin", **simple)
                need(ch == k2 and hash(ch) == hash(k2), "%r gives %s, keyword values %s", text, ch, k2)
                if d["t"]:
                    m2 = pyactr.makechunk("other", d["t"], **simple)
                    need(ch == m2, "%r gives %s, makechunk %s", text, ch, m2)
            if d["name"]:
                named[d["name"]] = canon_chunk(ch)
                objs[d["name"]] = ch
        elif d["name"]:     # patterns used as values are left out
            Chunk._chunks.pop(d["name"], None)
            named.pop(d["name"], None)
        if any(isinstance(x, tuple) for c in mean.values() for x in c[0] + c[2]):
            used.add("named")
        used |= {p[1] for p in d["pairs"]}
        if len(mean) < len(d["pairs"]):
            used.add("repeated-slot")
    Chunk._chunks.pop("other", None)
    ctx.label(*sorted(used))
    ctx.nontrivial(len(used) > 1)


# ------------------------------------------------------------------ matching through strings

def gen_match(rng):
    """A chunk and a pattern, both also as text, with a named chunk among the values."""
    vals = ["p", "q", "10", "c1", "c2", "'c1'", '"p"', "'c2'"]
    chunk = {s: rng.choice(vals) for s in M.subset(rng, ["a", "b", "ab"], 1, 3)}
    pat = []
    for _ in range(rng.randint(1, 4)):
        s = rng.choice(["a", "b", "ab"])
        k = M.pick(rng, (3, "val"), (3, "neg"), (3, "var"), (2, "negvar"))
        v = (chunk.get(s) or rng.choice(vals)) if rng.random() < .5 else rng.choice(vals)
        pat.append([s, {"val": "", "neg": "~", "var": "=", "negvar": "~="}[k] + (v if k in ("val", "neg") else rng.choice("xy"))])
    return {"c1": rng.choice([{"n": "p"}, {"n": "q"}, {"n": "'c2'"}]), "c2": rng.choice([{"n": "p"}, {"n": "c1"}, {"m": "p"}]), "chunk": chunk, "pat": pat}


def check_match(case, ctx):
    reset_globals(1)
    names = {}

    def can(t):
        if t[0] in "'\"":
            return t[1:-1]
        return names.get(t, t)
    for n in ("c1", "c2"):
        pyactr.chunkstring(n, "isa col " + " ".join("%s %s" % kv for kv in case[n].items()))
        names[n] = ("chunk", frozenset((k, can(v)) for k, v in case[n].items()))
    text = "isa obj " + " ".join("%s %s" % kv for kv in case["chunk"].items())
    ch = pyactr.chunkstring("", text)
    ptext = "isa obj " + " ".join("%s %s" % tuple(kv) for kv in case["pat"])
    try:
        p = pyactr.chunkstring("", ptext)
    except ACTRError:
        ctx.label("clash")
        return
    content = {k: can(v) for k, v in case["chunk"].items()}
    P, N, ok = {}, {}, True
    for s, c in case["pat"]:
        v = content.get(s)
        if c.startswith("~="):
            N.setdefault(c[2:], set()).add(v)
        elif c.startswith("="):
            P.setdefault(c[1:], set()).add(v)
        elif c.startswith("~"):
            ok = ok and v != can(c[1:])
        else:
            ok = ok and v == can(c)
    ok = ok and all(len(P[x]) == 1 and not P[x] & N.get(x, set()) for x in P)
    need(bool(p <= ch) == ok, "pattern %r on chunk %r: %s", ptext, text, "no match" if ok else "match")
    ctx.label("match" if ok else "no match")
    ctx.nontrivial(any(c.lstrip("~") in ("c1", "c2", "'c1'", "'c2'") for _, c in case["pat"]))


# ------------------------------------------------------------------ rules

def gen_rules(rng):
    spec = W.gen_world(rng, utils=[0, 0, 1, 2, 1.5], rewards=(None, None, None, 5, 0, -2))
    spec["start"] = 0
    if rng.random() < .3:
        spec["params"]["utility_learning"] = True
    if rng.random() < .25:
        spec["params"]["production_compilation"] = True
    if rng.random() < .4:
        for r in spec["rules"]:
            if "=g" in r["lhs"] and rng.random() < .5:
                r["show"] = [M.subset(rng, ["a", "b", "s"], 1, 2), rng.randint(0, 3)]
    return {"model": spec, "style": [rng.choice([" ", "\n", "\n    ", "\t"]), rng.choice(["isa", "ISA"]), rng.randint(0, 10 ** 6)]}


def text_of(rule, style):
    """The rule as text; the pairs of a chunk in random order, constants sometimes quoted."""
    gap, isa, seed = style
    rng = random.Random("%s/%s" % (seed, rule["n"]))
    out = []
    for side in ("lhs", "rhs"):
        if side == "rhs":
            out.append("==>")
        items = list(rule[side].items())
        if side == "rhs" and rule.get("show"):
            items.insert(rule["show"][1], ("!g", ["show " + s for s in rule["show"][0]]))
        for key, val in items:
            out.append(key + rng.choice([">", " >", "  >"]))
            if val is None:
                continue
            if key[0] == "!":
                out += val
            elif key[0] == "?":
                out += ["%s %s" % kv for kv in val.items()]
            else:
                bits = [isa + " " + val["t"]] if val["t"] else []
                for s, c in val["s"].items():
                    if c.get("v") is not None:
                        v = str(c["v"])
                        if rng.random() < .3 or not re.match(r"^[<>]?[A-Za-z0-9_:|.,%&$`*-]+$", v):
                            q = rng.choice("\"'")
                            v = q + v + q
                        bits.append("%s %s" % (s, v))
                    if c.get("x"):
                        bits.append("%s =%s" % (s, c["x"]))
                    bits += ["%s ~%s" % (s, v) for v in c.get("nv", ())] + ["%s ~=%s" % (s, x) for x in c.get("nx", ())]
                rng.shuffle(bits)
                out += bits
    return gap.join(b.replace(" ", gap, 1) if rng.random() < .3 else b for b in out)


def side_form(side):
    """Content of one side of a real rule, comparable."""
    out = []
    for k, v in side.items():
        if isinstance(v, Chunk):
            out.append([k, v.typename, show(canon_chunk(v))])
        elif v is None:
            out.append([k, None])
        elif k[0] == "!":
            out.append([k, [list(x) for x in v]])
        else:
            out.append([k, sorted((str(a), str(b)) for a, b in dict(v).items())])
    return out


def live(spec, how, style=None):
    reset_globals(1)
    m, env = W.build({**spec, "rules": []})
    probes = []
    if how == "text":
        for r in spec["rules"]:
            m.productionstring(name=r["n"], string=text_of(r, style), utility=r["u"], reward=r["r"])
    else:
        route = "marked" if how == "marked" else "varval"

        def make(r):
            def shown(d):
                items = list(d.items())
                if r.get("show"):
                    items.insert(r["show"][1], ("!g", [["show", s] for s in r["show"][0]]))
                return dict(items)
            return make_rule(r["n"], lambda: {k: dict(v) if k[0] == "?" else real_pattern(v, route) for k, v in r["lhs"].items()},
                             lambda: shown({k: None if v is None else dict(v) if k[0] == "?" else real_pattern(v, route) for k, v in r["rhs"].items()}), r["u"], r["r"])
        m.set_productions(*[make(r) for r in spec["rules"]])
    sides = {n: [sorted(side_form(s), key=repr) for s in m.productions[n]["rule"]()] for n in m.productions}
    facts = {n: (m.productions[n]["utility"], m.productions[n]["reward"]) for n in m.productions}
    sim = W.simulate(spec, m, env, 0)
    events, printed, end = [], [], "cut"
    gone = None
    try:
        while len(events) < 150:
            before = gone
            gone = buf_chunk(m.goals["g"])
            with quiet() as out:
                sim.step()
            e = sim.current_event
            events.append([e.time, e.proc, e.action])
            if out.getvalue():
                printed.append([len(events), out.getvalue().split("\n"), None if gone is None else {s: v for s, v in slots_of(gone).items()}])
    except simpy.core.EmptySchedule:
        end = "ended"
    except ACTRError as e:
        end = "error " + str(e)[:60]
    return {"rules": list(m.productions), "facts": facts, "sides": sides, "events": events, "printed": printed, "end": end, "state": W.state_of(m)}


def check_rules(case, ctx):
    spec = case["model"]
    a = live(spec, "varval")
    for r in spec["rules"]:
        need(a["facts"][r["n"]] == (r["u"], r["r"]), "rule %s has utility and reward %s", r["n"], a["facts"][r["n"]])
    for how in ("text", "marked"):
        b = live(spec, how, case["style"])
        need(a["rules"] == b["rules"], "rules %s as functions, %s as %s", a["rules"], b["rules"], how)
        need(a["facts"] == b["facts"], "utilities and rewards %s as functions, %s as %s", a["facts"], b["facts"], how)
        for n in a["sides"]:
            need(a["sides"][n] == b["sides"][n], "rule %s as function: %s\nas %s: %s", n, a["sides"][n], how, b["sides"][n])
        for x, y in zip(a["events"], b["events"]):
            need(x == y, "event %s with functions, %s with rules as %s", x, y, how)
        for k in ("end", "state", "printed"):
            need(a[k] == b[k], "%s with functions: %s\nas %s: %s", k, a[k], how, b[k])
        need(len(a["events"]) == len(b["events"]), "%d events with functions, %d as %s", len(a["events"]), len(b["events"]), how)
    for n, lines, content in a["printed"]:
        for line in lines:
            if line.startswith(("a ", "b ", "s ")):
                s, v = line.split(" ", 1)
                need(content is not None and (content.get(s) or "None") == v, "show %s prints %s, the goal is %s", s, line, content)
    fired = [e for e in a["events"] if str(e[2]).startswith("RULE FIRED")]
    ctx.label("fired>=3" if len(fired) >= 3 else "few", a["end"].split()[0], *["shown" for _ in a["printed"][:1]])
    ctx.nontrivial(len(fired) >= 2)


SUBS = [
    Sub("chunks", gen_defs, check_chunks, 6000, 150000,
        "sequences of 1-4 named chunk definitions with values as bare words, quoted literals, variables, negations and comparisons, slots repeated, the isa anywhere; later ones use earlier names; against the meaning of the pairs and the keyword notation; non-trivial: at least two kinds of values", shards=4),
    Sub("matching", gen_match, check_match, 4000, 100000,
        "patterns and chunks written as strings, with quoted words and bare words that name chunks, matched; against the declarative meaning; non-trivial: the pattern has a name of a chunk, bare or quoted", shards=4),
    Sub("rules", gen_rules, check_rules, 500, 15000,
        "random models (all buffers, environment, learning, compilation) with rules as generator functions, as strings with random layout, order of pairs and quoting, and with marked-up values: same sides, utilities, rewards, events, printed output and final state; non-trivial: at least two rules fire", shards=8, shrink=W.shrink_field("model")),
]
