"""C05 Chunk types, inheritance and chunk views are coherent."""
from ..core import Sub, need
from ..lib import *

NAMES = ["alpha", "beta", "gamma", "delta"]
MORE = ["aa", "B", "a_", "b__", "values"]
slotset = st.lists(st.sampled_from(SLOTS + MORE), max_size=4, unique=True)


def ops():
    declare = st.builds(lambda n, s, inc, form: {"op": "declare", "name": n, "slots": s, "include": inc, "form": form},
                        st.sampled_from(NAMES), slotset.filter(bool), st.lists(st.sampled_from(NAMES + ["_visual"]), max_size=2, unique=True),
                        st.sampled_from(["string", "comma", "list", "tuple"]))
    create = st.builds(lambda n, s, r: {"op": "create", "name": n, "slots": s, "route": r},
                       st.sampled_from(NAMES + ["", "_visual"]), st.dictionaries(st.sampled_from(SLOTS + MORE), values(1), max_size=4),
                       st.sampled_from(["Chunk", "make", "string"]))
    bad = st.builds(lambda k, s: {"op": "bad", "kind": k, "slots": s}, st.sampled_from(["parent", "builtin", "isa"]), slotset)
    return st.lists(weighted((4, declare), (6, create), (1, bad)), min_size=3, max_size=12)


def check_views(ch, typename, slots, given):
    """ch must present exactly slots, with the canonical values given."""
    seen = [s for s, _ in ch]
    need(sorted(seen) == sorted(slots), "slots of %s are %s, expected %s", ch, seen, sorted(slots))
    need(seen == sorted(seen, key=lambda s: s + "_"), "slots of %s are not in a fixed order: %s", ch, seen)
    need(len(ch) == len(slots), "len(%s) = %d", ch, len(ch))
    by_iter = dict((s, v) for s, v in ch)
    d = ch._asdict()
    need(sorted(d) == sorted(slots), "_asdict of %s has keys %s", ch, sorted(d))
    bits = []
    for i, (s, v) in enumerate(ch):
        want = given.get(s)
        got = canon_value(parts(v)[0])
        need(got == want, "slot %s of %s holds %s, expected %s", s, ch, show(got), show(want))
        need(canon_value(parts(getattr(ch, s))[0]) == want, "attribute %s of %s is %s, expected %s", s, ch, getattr(ch, s), show(want))
        need(ch[i][0] == s and canon_value(parts(ch[i][1])[0]) == want, "item %d of %s is %s", i, ch, ch[i])
        need(canon_value(parts(d[s])[0]) == want, "_asdict of %s gives %s for %s", ch, d[s], s)
        raw = parts(v)[0]
        bits.append("%s= %s" % (s, "" if raw is None or type(raw).__name__ == "EmptyValue" else raw))
    need(repr(ch) == "%s(%s)" % (typename, ", ".join(bits)), "printed as %r, expected %s(%s)", repr(ch), typename, ", ".join(bits))
    need(ch.typename == typename, "type of %s is %s", ch, ch.typename)
    try:
        ch.nosuchslot
    except AttributeError:
        pass
    else:
        raise Violation("a slot that does not exist can be read")


def check(case, ctx):
    types = {"_visual": {"cmd", "value", "color", "screen_pos"}}
    made = []
    for op in case:
        if op["op"] == "declare":
            form = op["form"]
            f = {"string": " ".join, "comma": ", ".join, "list": list, "tuple": tuple}[form](op["slots"])
            inc = op["include"]
            arg = {}
            if inc:
                arg["include"] = inc[0] if len(inc) == 1 and form == "string" else list(inc)
            missing = [p for p in inc if p not in types]
            if missing:
                expect_error(lambda: pyactr.chunktype(op["name"], f, **arg), ACTRError, "including unknown type %s" % missing)
                ctx.label("unknown-parent")
            else:
                pyactr.chunktype(op["name"], f, **arg)
                types[op["name"]] = set(op["slots"]).union(*[types[p] for p in inc]) if inc else set(op["slots"])
                if inc:
                    ctx.label("include")
        elif op["op"] == "create":
            spec = {"t": op["name"], "s": op["slots"]}
            route = op["route"]
            name = op["name"]
            if name == "_visual":
                spec["s"] = {k: v for k, v in zip(["value", "color", "cmd"], op["slots"].values())}
            if route == "string" and (not spec["s"] or any(v is None for v in spec["s"].values())):
                route = "make"
            if route == "Chunk" and not name:
                route = "make"
            ch = real_chunk(spec, route, "thing%d" % len(made))
            given = {s: canon_value(v) for s, v in spec["s"].items()}
            if not name:
                name = ch.typename
                need(name.startswith("undefined"), "chunk without a type gets type %s", name)
                need(name not in types, "two untyped chunks share the type %s", name)
                types[name] = set(given)
            elif name in types:
                if not set(given) <= types[name]:
                    ctx.label("extended")
                types[name] = types[name] | set(given)
            else:
                types[name] = set(given)
                ctx.label("auto-type")
            made.append((ch, name, set(types[name]), given))
        else:
            if op["kind"] == "parent":
                expect_error(lambda: pyactr.chunktype("fresh", " ".join(op["slots"]), include="nosuchtype"), ACTRError, "unknown parent type")
            elif op["kind"] == "builtin":
                for t in ("_visual", "_visuallocation", "_manual"):
                    expect_error(lambda: pyactr.chunktype(t, " ".join(op["slots"])), ACTRError, "redefining " + t)
            else:
                expect_error(lambda: pyactr.chunktype("fresh", op["slots"] + ["isa"]), ACTRError, "a slot called isa")
            ctx.label("bad-" + op["kind"])
        for m in made:     # earlier chunks unchanged
            check_views(*m)
    # a chunk created now shows what the registry holds
    for name in sorted(set(types) & set(NAMES)):
        ch = Chunk(name)
        check_views(ch, name, types[name], {})
    ctx.nontrivial(len(made) >= 2 and len(types) >= 2)


def default_cases():
    return st.fixed_dictionaries({"slots": st.lists(st.sampled_from(SLOTS), min_size=1, max_size=3, unique=True).map(sorted),
                                  "n": st.integers(1, 2), "given": st.booleans()})


def check_defaults(case, ctx):
    """Slots left out of a chunk have the default declared for them (names in alphabetical order, so 'last' is unambiguous)."""
    if ctx.exclude("KF-defaults"):
        return
    n = min(case["n"], len(case["slots"]))
    ds = ["d%d" % i for i in range(n)]
    pyactr.chunktype("withdef", case["slots"], defaults=ds)
    want = dict(zip(case["slots"][len(case["slots"]) - n:], ds))
    given = {}
    if case["given"]:
        given[case["slots"][-1]] = "q"
    ch = real_chunk({"t": "withdef", "s": given}, "make")
    want.update(given)
    ctx.nontrivial()
    need({s: v for s, v in slots_of(ch).items() if v} == want, "defaults %s for the last slots of %s: a chunk made with %s is %s", ds, case["slots"], given, ch)


def check_shadow(case, ctx):
    """Attribute access works for every slot name."""
    if ctx.exclude("KF-shadowed-slots", case["slot"] in ("count", "index", "typename", "boundvars", "match")):
        return
    ch = real_chunk({"t": "sh", "s": {case["slot"]: "p"}}, "make")
    ctx.nontrivial()
    got = getattr(ch, case["slot"])
    need(canon_value(getattr(got, "values", None)) == "p", "slot %s read as attribute gives %s", case["slot"], type(got).__name__)
    g = pyactr.ACTRModel().goal
    g.add(ch)
    import io, contextlib
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g.show(case["slot"])
    need(out.getvalue().split() == [case["slot"], "p"], "showing slot %s prints %r", case["slot"], out.getvalue())


shadow_cases = st.fixed_dictionaries({"slot": st.sampled_from(["start", "count", "index", "value", "values", "variables", "typename", "boundvars", "first", "match", "keys", "cmd"])})

SUBS = [Sub("history", ops(), check, 1600, 40000,
            "sequences of type declarations (with includes), chunk creations by three routes, and rejected declarations; every chunk re-inspected after every step; non-trivial: at least two chunks and two types", shards=6),
    Sub("defaults", default_cases(), check_defaults, 60, 200, "types with default values; non-trivial: always", shards=1),
    Sub("attributes", shadow_cases, check_shadow, 60, 100, "slot names that coincide with other attributes; non-trivial: always", shards=1),
]
