"""C06 Declarative memory keeps the exact presentation history of every chunk."""
from ..core import Sub, need
from ..lib import *
from pyactr import declarative, goals, vision

DecMem = declarative.DecMem
small = st.sampled_from(["p", "q", 1, None, {"t": "t2", "s": {"a": "p"}}])
spec = chunk_specs(0, slots=["a", "b", "c"], vals=small, max_slots=3)
times = st.one_of(st.integers(0, 9), st.floats(0, 20, allow_nan=False, width=32).map(lambda f: round(f, 6)),
                  st.sampled_from([0, 0.00004, 0.00006, 1.23456, -0.5, 2.5, 100000.12345]))


def ops():
    which = st.integers(0, 2)
    many = st.lists(spec, min_size=1, max_size=4)
    init = st.builds(lambda c, k, t: {"op": "init", "chunks": c, "form": k, "times": t}, many,
                     st.sampled_from(["list", "set", "dict", "dict_lists", "tuple"]), st.lists(times, min_size=4, max_size=4))
    add = st.builds(lambda w, c, t, as_np: {"op": "add", "w": w, "c": c, "t": t, "as": as_np}, which, spec, times, st.sampled_from(["float", "np", "str"]))
    addl = st.builds(lambda w, c, t, f: {"op": "add_times", "w": w, "c": c, "t": t, "as": f}, which, spec, st.lists(times, max_size=3), st.sampled_from(["list", "tuple", "array"]))
    addm = st.builds(lambda w, c, t, f: {"op": "add_many", "w": w, "cs": c, "t": t, "form": f}, which, many, st.one_of(times, st.lists(times, max_size=2)), st.sampled_from(["list", "set", "tuple", "dict", "generator"]))
    seti = st.builds(lambda w, c, t: {"op": "set", "w": w, "c": c, "t": t}, which, spec, st.one_of(times, st.lists(times, min_size=1, max_size=3)))
    dele = st.builds(lambda w, i: {"op": "del", "w": w, "i": i}, which, st.integers(0, 5))
    copy = st.builds(lambda w: {"op": "copy", "w": w}, which)
    harvest = st.builds(lambda w, c, t, b, h: {"op": "harvest", "w": w, "c": c, "t": t, "b": b, "how": h}, which, spec, times,
                        st.sampled_from(["goal", "retrieval", "visual", "visual_location"]), st.sampled_from(["own", "given", "replaced"]))
    bad = st.builds(lambda w, k: {"op": "bad", "w": w, "kind": k}, which, st.sampled_from(["str", "none", "num", "delmissing", "getmissing"]))
    read = st.builds(lambda w, c: {"op": "probe", "w": w, "c": c}, which, spec)
    return st.tuples(init, st.lists(weighted((4, add), (2, addl), (3, addm), (2, seti), (1, dele), (2, copy), (2, harvest), (1, bad), (1, read)), min_size=2, max_size=14)).map(lambda z: [z[0]] + z[1])


def r4(t):
    return round(float(t), 4)


def as_time(t, form):
    return {"float": float(t), "np": np.float64(t), "str": t}[form]


def compare(real, model, what):
    need(len(real) == len(model), "%s: memory has %d entries, expected %d", what, len(real), len(model))
    got = dm_canon(real)
    need(set(got) == set(model), "%s: memory holds %s, expected %s", what, [show(k) for k in got], [show(k) for k in model])
    need([canon_chunk(c) for c in real] == list(model), "%s: order of entries changed", what)
    for k in model:
        need(len(got[k]) == len(model[k]) and all(a == b for a, b in zip(got[k], model[k])),
             "%s: times of %s are %s, expected %s", what, show(k), got[k], model[k])


def check(case, ctx):
    mems = []
    for i, op in enumerate(case):
        o = op["op"]
        what = "step %d (%s)" % (i, o)
        if o == "init":
            cs = [real_chunk(c) for c in op["chunks"]]
            model = {}
            if op["form"] in ("dict", "dict_lists"):
                data = {}
                for c, t in zip(cs, op["times"]):
                    data[c] = t if op["form"] == "dict" else [t, t + 1]
                for c in data:
                    model[canon_chunk(c)] = [r4(data[c])] if op["form"] == "dict" else [float(x) for x in data[c]]
            else:
                data = {"list": list, "set": set, "tuple": tuple, "generator": list}[op["form"]](cs)
                for c in data:
                    model[canon_chunk(c)] = [0.0]
            mems.append((DecMem(data), model))
            ctx.label("init-" + op["form"])
        else:
            w = op["w"] % len(mems)
            dm, model = mems[w]
        if o == "add":
            c = real_chunk(op["c"])
            k = canon_spec(op["c"])
            ctx.label("re-add" if k in model else "new")
            if op["t"] == 0 and op["as"] == "float":
                dm.add(c)
            else:
                dm.add(c, as_time(op["t"], op["as"]))
            model.setdefault(k, []).append(r4(op["t"]))
        elif o == "add_times":
            f = {"list": list, "tuple": tuple, "array": np.array}[op["as"]]
            dm.add(real_chunk(op["c"]), f(op["t"]))
            model.setdefault(canon_spec(op["c"]), []).extend(float(t) for t in op["t"])
        elif o == "add_many":
            cs = [real_chunk(c) for c in op["cs"]]
            if op["form"] == "dict":
                arg = dict.fromkeys(cs)
            else:
                arg = {"list": list, "set": set, "tuple": tuple, "generator": list}[op["form"]](cs)
            dm.add((c for c in cs) if op["form"] == "generator" else arg, op["t"])
            for c in arg:
                if isinstance(op["t"], list):
                    model.setdefault(canon_chunk(c), []).extend(float(t) for t in op["t"])
                else:
                    model.setdefault(canon_chunk(c), []).append(r4(op["t"]))
        elif o == "harvest":
            c, b, how = real_chunk(op["c"]), op["b"], op["how"]
            own = None if how == "given" and b != "retrieval" else dm
            buf = (goals.Goal(None, own) if b == "goal" else declarative.DecMemBuffer(own) if b == "retrieval" else
                   (vision.Visual if b == "visual" else vision.VisualLocation)(pyactr.Environment(), own))
            args = (None,) if b == "visual_location" else ()
            buf.add(c, *args)
            if how == "replaced" and b != "goal":
                buf.add(real_chunk({"t": "ghost", "s": {"g": "other"}}), *args, op["t"])
            elif own is None:
                buf.clear(op["t"], dm)
            else:
                buf.clear(op["t"])
            model.setdefault(canon_spec(op["c"]), []).append(r4(op["t"]))
            ctx.label("harvest")
        elif o == "set":
            dm[real_chunk(op["c"])] = op["t"]
            model[canon_spec(op["c"])] = [float(t) for t in op["t"]] if isinstance(op["t"], list) else [r4(op["t"])]
        elif o == "del":
            if model:
                k = list(model)[op["i"] % len(model)]
                victim = [c for c in dm if canon_chunk(c) == k]
                need(victim, "%s: %s is not in memory", what, show(k))
                del dm[victim[0]]
                del model[k]
        elif o == "copy":
            if len(mems) < 3:
                mems.append((dm.copy(), {k: list(v) for k, v in model.items()}))
                ctx.label("copy")
        elif o == "bad":
            if op["kind"] in ("str", "none", "num"):
                v = {"str": "word", "none": None, "num": 5}[op["kind"]]
                expect_error(lambda: dm.__setitem__(v, 0), ACTRError, "storing %r in memory" % (v,))
                expect_error(lambda: dm.add(v, 0), (ACTRError, TypeError), "adding %r to memory" % (v,))
            else:
                ghost = real_chunk({"t": "ghost", "s": {"g": "ghost"}})
                expect_error((lambda: dm.__delitem__(ghost)) if op["kind"] == "delmissing" else (lambda: dm[ghost]), KeyError, "using a chunk that is not in memory")
                expect_error(lambda: dm.add_activation(ghost, 1), (AttributeError, ACTRError), "activation of a chunk that is not in memory")
        elif o == "probe":
            c = real_chunk(op["c"], "varval")
            need((c in dm) == (canon_spec(op["c"]) in model), "%s: membership of %s is %s", what, c, c in dm)
            if c in dm:
                need([float(t) for t in dm[c]] == model[canon_spec(op["c"])], "%s: history of %s is %s", what, c, dm[c])
        for j, (d, mo) in enumerate(mems):
            compare(d, mo, what + (", memory %d" % j))
    ctx.nontrivial(any(len(v) > 1 for _, m in mems for v in m.values()))


SUBS = [Sub("history", ops(), check, 1600, 50000,
            "histories of initialisation, single/batch additions with scalar/list times, harvests from buffers, assignment, deletion, copies on up to 3 memories against dict-of-lists models, compared after every step; non-trivial: some chunk has several presentations", shards=6)]
