"""C27 Ill-formed input is rejected with an error and leaves state unchanged."""
import copy
import random
import pyparsing

from ..core import Sub, need, reset_globals, Violation
from ..lib import *
from .. import models as M, worlds as W

# ------------------------------------------------------------------ texts


def pairs_of(key, val):
    if val is None:
        return []
    if key[0] == "?":
        return ["%s %s" % kv for kv in val.items()]
    out = ["isa " + val["t"]] if val["t"] else []
    for s, c in val["s"].items():
        if c.get("v") is not None:
            out.append("%s %s" % (s, c["v"]))
        if c.get("x"):
            out.append("%s =%s" % (s, c["x"]))
        out += ["%s ~%s" % (s, v) for v in c.get("nv", ())] + ["%s ~=%s" % (s, x) for x in c.get("nx", ())]
    return out

RULE_FAULTS = ["noarrow", "wrongarrow", "twoarrows", "nolhs", "norhs", "nosign", "badsign", "action-on-lhs", "noend", "lone-slot", "lone-value", "quote", "junk", "nobuffer", "badbuffer"]
CHUNK_FAULTS = ["lone-slot", "lone-value", "quote", "junk", "empty", "sign", "badslot"]


def break_rule(sections, fault, rng):
    """sections: [[side, sign, buffer, [pairs]]]; returns the text with one fault."""
    s = [[a, b, c, list(d), ">"] for a, b, c, d in sections]
    arrow, pre, post = "==>", "", ""
    i = rng.randrange(len(s))
    if fault == "noarrow":
        arrow = ""
    elif fault == "wrongarrow":
        arrow = rng.choice(["=>", "==", "-->", "= = >", "<=="])
    elif fault == "twoarrows":
        arrow = "==> ==>" if rng.random() < .5 else arrow
        post = "" if arrow != "==>" else "==>" + (" =g> a p" if rng.random() < .5 else "")
    elif fault == "nolhs":
        s = [x for x in s if x[0] == "rhs"]
    elif fault == "norhs":
        s = [x for x in s if x[0] == "lhs"]
    elif fault == "nosign":
        i = rng.choice([0, min(j for j in range(len(s)) if s[j][0] == "rhs")])
        s[i][1] = ""
    elif fault == "badsign":
        s[i][1] = rng.choice("#%^&$/")
    elif fault == "action-on-lhs":
        i = rng.choice([j for j in range(len(s)) if s[j][0] == "lhs"])
        s[i][1] = rng.choice("+~@*!")
    elif fault == "noend":
        s[i][4] = ""
    elif fault == "lone-slot":
        s[i][3].append(rng.choice(["a", "zz"]))
    elif fault == "lone-value":
        s[i][3].insert(rng.randint(0, len(s[i][3])), rng.choice(['"lit"', "5", "~p", "'x y'"]))
    elif fault == "quote":
        s[i][3].insert(rng.randint(0, len(s[i][3])), rng.choice(['a "p', "a 'p", "b p\""]))
    elif fault == "junk":
        if rng.random() < .5:
            post = rng.choice([")", ";", "}", "!", "=", "word"])
        else:
            pre = rng.choice(["(p", "rule", "{", "5", "=g"])
    elif fault == "nobuffer":
        s[i][2] = ""
    elif fault == "badbuffer":
        s[i][2] = rng.choice(["1g", "g-1", "g 1", "'g'"])
    bits = [pre]
    for side in ("lhs", "rhs"):
        if side == "rhs":
            bits.append(arrow)
        for x in s:
            if x[0] == side:
                bits += [x[1] + x[2] + x[4]] + x[3]
    return " ".join(bits + [post])


def gen_texts(rng):
    spec = M.gen_model(rng)
    cases = []
    for r in spec["rules"]:
        sections = [[side, k[0], k[1:], pairs_of(k, v)] for side in ("lhs", "rhs") for k, v in r[side].items()]
        cases.append(["rule", r["n"], sections, rng.choice(RULE_FAULTS), rng.randint(0, 999), rng.random() < .3])
    for _ in range(3):
        pairs = ["%s %s" % (s, rng.choice(["p", "=x", "~q", "'a b'", "~=y"])) for s in M.subset(rng, ["a", "b", "c"], 1, 3)]
        cases.append(["chunk", rng.choice(["nm1", "nm2", ""]), ["isa fact"] * (rng.random() < .7) + pairs, rng.choice(CHUNK_FAULTS), rng.randint(0, 999), True])
    return {"cases": cases}


def break_chunk(pairs, fault, rng):
    pairs = list(pairs)
    i = rng.randint(0, len(pairs))
    if fault == "lone-slot":
        pairs.append("zz")
    elif fault == "lone-value":
        pairs.insert(i, rng.choice(['"lit"', "5", "~p", "=x"]))
    elif fault == "quote":
        pairs.append(rng.choice(['a "p', "a 'p"]))
    elif fault == "junk":
        pairs.insert(i, rng.choice([")", "}", ";", "==>", "a b>"]))
    elif fault == "empty":
        pairs = [rng.choice(["", " ", "\n"])]
    elif fault == "sign":
        pairs.append("a " + rng.choice(["+p", "!p", "@p", "?p", "#p", "==x", "~~p", "~ =x y"]))
    elif fault == "badslot":
        pairs.insert(i, rng.choice(["1a p", "a-b p", "=x p", "'a' p", "é p"]))
    return " ".join(pairs)


def registry():
    """The shared registers of chunk types and named chunks."""
    return {k: t._fields for k, t in Chunk._chunktypes.items()}, {k: show(canon_chunk(c)) for k, c in Chunk._chunks.items() if k != "unnamedchunk"}


def check_texts(case, ctx):
    reset_globals(1)
    W.declare(None)
    m = new_model()
    n = 0
    for kind, name, what, fault, seed, again in case["cases"]:
        rng = random.Random(seed)
        if kind == "rule":
            good = " ".join(x for side in ("lhs", "rhs") for x in (["==>"] * (side == "rhs") + [" ".join([b + c + ">"] + d) for a, b, c, d in what if a == side]))
            bad = break_rule(what, fault, rng)
            if again:
                m.productionstring(name=name, string=good, utility=3)
            before = {k: (id(m.productions[k]), m.productions[k]["utility"]) for k in m.productions}
            reg = registry()
            expect_error(lambda: m.productionstring(name=name, string=bad, utility=7), ACTRError, "rule %r (%s)" % (bad, fault))
            after = {k: (id(m.productions[k]), m.productions[k]["utility"]) for k in m.productions}
            need(before == after, "the rejected rule %r changes the rules: %s to %s", bad, list(before), list(after))
            need(reg == registry(), "the rejected rule %r changes chunk types or chunks", bad)
            if not again:
                m.productionstring(name=name, string=good)
            need(name in m.productions, "rule %r is not registered", good)
        else:
            good, bad = " ".join(what), break_chunk(what, fault, rng)
            reg = registry()
            expect_error(lambda: pyactr.chunkstring(name, bad), (ACTRError, pyparsing.ParseBaseException), "chunk %r (%s)" % (bad, fault))
            need(reg == registry(), "the rejected chunk %r changes chunk types or chunks", bad)
            pyactr.chunkstring(name, good)
        n += 1
        ctx.label(fault)
    ctx.nontrivial(n >= 2)

# ------------------------------------------------------------------ operations

NONCHUNKS = [5, None, "go", ["a", "b"], {"s": "s0"}, 2.5, "", []]


def unbound_patterns(rng):
    """A pattern that no action may have, with bindings."""
    k = rng.randrange(5)
    if k == 0:
        return {"a": {"x": "nobody"}}, {}
    if k == 1:
        return {"a": {"v": "p"}, "b": {"x": "nobody"}}, {"z": "q"}
    if k == 2:
        return {"a": {"v": "p", "x": "z"}}, {"z": "q"}
    if k == 3:
        return {"b": {"nv": ["p"]}}, {}
    return {"a": {"x": "z"}, "b": {"nx": ["z"]}}, {"z": "q"}


FAULTS = ["dm_add", "dm_add_part", "dm_time", "dm_set", "dm_activation", "buf_add", "manual_add", "modify", "modify_type", "create", "goal_retrieve", "retrieve", "delay", "finst", "harvest", "name", "set_decmem",
          "param", "similarity", "production", "prodkey", "rulestring", "chunkvalue", "chunkclash", "makechunk", "chunkstring", "chunktype", "env", "focus", "steps", "visfinst"]


def gen_fault(rng):
    k = rng.choice(FAULTS)
    a = None
    if k in ("dm_add", "dm_set"):
        a = rng.choice([x for x in NONCHUNKS if x != []])
    elif k == "dm_add_part":
        a = [rng.choice(M.PV), rng.choice([5, None, "x"]), rng.randint(0, 1)]
    elif k == "dm_time":
        a = [rng.choice(M.PV + ["new"]), rng.choice(["abc", None, [0, "a"], [[0, 1], [2]], {"a": 1}])]
    elif k == "dm_activation":
        a = rng.choice([1.5, -2])
    elif k == "buf_add":
        a = [rng.choice(["g", "im", "retrieval", "visual", "visual_location"]), rng.choice(NONCHUNKS)]
    elif k in ("modify", "create", "retrieve"):
        a = [rng.choice(["g", "im", "retrieval"]), *unbound_patterns(rng)]
    elif k == "modify_type":
        a = [rng.choice(["g", "im", "retrieval"]), rng.choice(["_visual", "_manual", "_visuallocation"])]
    elif k == "delay":
        a = [rng.choice(["g", "im"]), rng.choice([-0.05, -1, "x", None])]
    elif k == "finst":
        a = rng.choice([-1, -5, "x"])
    elif k == "harvest":
        a = [rng.choice(["dm", "harvest", "decmem"]), rng.choice([5, "x", [1]])]
    elif k == "name":
        a = [rng.choice(["set_goal", "set_retrieval", "goal", "retrieval", "delay"]), rng.choice([5, None, ["g"], 1.5])]
    elif k == "set_decmem":
        a = rng.choice([5, ["x"], {"x": 0}, [None]])
    elif k == "param":
        a = rng.choice(["subsymbolics", "rule_fire", "Subsymbolic", "utility", "gui"])
    elif k == "similarity":
        a = [rng.choice(M.PV), rng.choice(M.PV), rng.choice([0.1, 1, 5])]
    elif k == "production":
        a = rng.choice(["noutility", "extra", "notcallable"])
    elif k == "rulestring":
        a = rng.choice(["", "=g> isa go", "=g> ==> =g>", "=g> isa go s s0 ==> =g> a", "rule"])
        if a == "=g> ==> =g>":      # (this one is fine)
            a = "==> =g>"
    elif k == "chunkvalue":
        a = [rng.choice(["a", "znew"]), rng.choice([[1], {"a": 1}, ["set"], []])]
    elif k in ("chunkclash", "makechunk"):
        a = [rng.choice(["a", "znew"]), rng.choice(["=x=y", "!p!q", "=x~!p=y", "=x!p!q"])]
    elif k == "chunkstring":
        a = rng.choice(["isa go znew", "isa go znew p znew q", "isa go znew =x znew =y", "go", "isa go a (p)"])
    elif k == "chunktype":
        a = rng.choice([["newtype", "isa x", None], ["newtype", "a ISA".replace("ISA", "isa"), None], ["_visual", "foo", None], ["_manual", "cmd", None], ["newtype", "x", "nosuch"], ["go", "x", "nosuch"], ["go", "isa", None]])
    elif k == "env":
        a = rng.choice([[1], 5, [1, 2, 3], "abc"])
    elif k == "focus":
        a = rng.choice([[1], 5, [1, 2, 3], None])
    elif k == "visfinst":
        a = rng.choice([["finst", -1], ["harvest", 5], ["harvest", "x"]])
    elif k == "steps":
        a = rng.choice([0, -1, -10])
    return [k, a]


def gen_ops(rng):
    spec = W.gen_world(rng, utils=[0, 0, 1], env=rng.random() < .3)
    p = spec["params"]
    p.update(emma_noise=False)
    if rng.random() < .4:
        p.update(subsymbolic=True, retrieval_threshold=-5, strength_of_association=2, buffer_spreading_activation={"g": 1}, spreading_activation_restricted=rng.random() < .5, association_only_from_chunks=False)
    if rng.random() < .2:
        p["production_compilation"] = True
    if rng.random() < .2:
        p["utility_learning"] = True
    n = rng.randint(1, 8)
    return {"model": spec, "faults": sorted([[rng.choice([0, 1, 2, 3, 3, 3]), rng.randint(0, 40), gen_fault(rng)] for _ in range(n)], key=lambda f: (f[0], f[1]))}


def buffer_named(m, name):
    return W.all_buffers(m).get(name)


def commit(fault, m, env, sim):
    """Performs an ill-formed operation; returns (function, exceptions) or None if it does not apply now."""
    k, a = fault
    fact = lambda v, **kw: Chunk("fact", a=v, **kw)
    if k == "dm_add":
        return lambda: m.decmem.add(copy.copy(a), 0), (ACTRError, TypeError)
    if k == "dm_add_part":
        items = [fact(a[0], c="part"), a[1]]
        return lambda: m.decmem.add(items[::-1] if a[2] else items, 0), (ACTRError, TypeError)
    if k == "dm_time":
        return lambda: m.decmem.add(fact(a[0]), a[1]), (ACTRError, TypeError, ValueError)
    if k == "dm_set":
        return lambda: m.decmem.__setitem__(tuple(a) if isinstance(a, list) else None if isinstance(a, dict) else a, 0), (ACTRError, TypeError)
    if k == "dm_activation":
        return lambda: m.decmem.add_activation(fact("nowhere"), a), AttributeError
    if k == "buf_add":
        b = buffer_named(m, a[0])
        if b is None:
            return None
        return (lambda: b.add(a[1], None)) if a[0] == "visual_location" else (lambda: b.add(a[1])), TypeError
    if k == "manual_add":
        b = buffer_named(m, "manual")
        return None if b is None else (lambda: b.add(fact("p")), AttributeError)
    if k in ("modify", "create", "retrieve"):
        b = buffer_named(m, a[0])
        if b is None or (k == "create" and a[0] == "retrieval"):
            return None
        pat, bind = real_pattern({"t": "fact", "s": a[1]}), {"=" + x: v for x, v in a[2].items()}
        if k == "modify":
            return lambda: b.modify(pat, bind), ACTRError
        if k == "create":
            return lambda: b.create(pat, None, bind), ACTRError
        if any(c.get("nv") or c.get("nx") for c in a[1].values()):
            return None     # negations are fine there
        return lambda: m.retrieval.retrieve(1, pat, bind, {}, {}, m.model_parameters), ACTRError
    if k == "modify_type":
        b = buffer_named(m, a[0])
        if b is None or (len(b) and not {s for s, v in slots_of(buf_chunk(b)).items()} - {"cmd", "key", "value", "color", "screen_pos", "screen_x", "screen_y"}):
            return None
        return lambda: b.modify(Chunk(a[1]), {}), ACTRError
    if k == "goal_retrieve":
        return lambda: m.goals["g"].retrieve(fact("p")), ACTRError
    if k == "delay":
        return None if a[0] not in m.goals else (lambda: setattr(m.goals[a[0]], "delay", a[1]), (ValueError, TypeError))
    if k == "finst":
        return lambda: setattr(m.retrieval, "finst", a), (ValueError, TypeError)
    if k == "harvest":
        if a[0] == "decmem":
            return lambda: setattr(m.retrieval, "decmem", a[1]), ACTRError
        return lambda: setattr(m.goals["g"], {"dm": "dm", "harvest": "default_harvest"}[a[0]], a[1]), ValueError if a[0] == "dm" else ACTRError
    if k == "name":
        if a[0] in ("goal", "retrieval"):
            return lambda: setattr(m, a[0], a[1]), ValueError
        if a[0] == "delay":
            return lambda: m.set_goal("newgoal", -1), ValueError
        return lambda: getattr(m, a[0])(a[1]), ValueError
    if k == "set_decmem":
        return lambda: m.set_decmem(copy.copy(a)), (ACTRError, TypeError, ValueError)
    if k == "param":
        return lambda: pyactr.ACTRModel(**{a: 1}), ACTRError
    if k == "similarity":
        return lambda: m.set_similarities(*a), ACTRError
    if k == "production":
        def f():
            yield {}
            yield {}
        bad = {"noutility": {"rule": f}, "extra": {"rule": f, "utility": 0, "reward": None, "foo": 1}, "notcallable": 5}[a]
        return lambda: m.productions.__setitem__("newrule", bad), (TypeError, ACTRError, KeyError)
    if k == "prodkey":
        r = [m.productions[n] for n in m.productions]
        return None if not r else (lambda: r[0].__setitem__("utilities", 5), AssertionError)
    if k == "rulestring":
        return lambda: m.productionstring(name=next(iter(m.productions), "rule0"), string=a), ACTRError
    if k == "chunkvalue":
        v = {1} if a[1] == ["set"] else () if a[1] == [] else a[1]
        return lambda: Chunk("go", **{a[0]: v}), ValueError
    if k == "chunkclash":
        return lambda: Chunk("go", **{a[0]: a[1]}), ACTRError
    if k == "makechunk":
        return lambda: pyactr.makechunk("somename", "go", **{a[0]: a[1]}), ACTRError
    if k == "chunkstring":
        return lambda: pyactr.chunkstring("somename", a), (ACTRError, pyparsing.ParseBaseException)
    if k == "chunktype":
        return lambda: pyactr.chunktype(a[0], a[1], **({} if a[2] is None else {"include": a[2]})), ACTRError
    if k == "env":
        return lambda: pyactr.Environment(focus_position=a), ACTRError
    if k == "focus":
        return None if env is None else (lambda: setattr(env, "current_focus", a), ValueError)
    if k == "visfinst":
        if env is None:
            return None
        if a[0] == "finst":
            return lambda: m.visualBuffer("vis2", "visloc2", finst=a[1]), ValueError
        return lambda: m.visualBuffer("vis2", "visloc2", default_harvest=a[1]), (ValueError, ACTRError)
    if k == "steps":
        return None if sim is None else (lambda: sim.steps(a), AssertionError)
    raise HarnessError(k)


def whole(m, env):
    """Everything observable."""
    out = W.state_of(m)
    out["goals"] = {n: g.delay for n, g in m.goals.items()}
    out["other"] = [sorted(m.retrievals), sorted(m.decmems), sorted(m.visbuffers), list(m.productions), {n: r.finst for n, r in m.retrievals.items()}, [len(r.recent) for r in m.retrievals.values()]]
    out["rewards"] = {n: m.productions[n]["reward"] for n in m.productions}
    out["params"] = {k: repr(v) for k, v in m.model_parameters.items()}
    out["activations"] = [len(d.activations) for d in m.decmems.values()]
    out["registry"] = registry()
    if env is not None:
        out["focus"] = [float(x) for x in env.current_focus]
    return out


def life(case, faults, ctx=None):
    spec = case["model"]
    reset_globals(3)
    W.declare(None)
    env = W.make_env(spec["env"]) if spec["env"] else None
    m = new_model(environment=env, **copy.deepcopy(spec["params"]))
    sim, log, done = None, [], 0

    def strike(stage, pos, last=False):
        nonlocal done
        for st_, p, f in case["faults"]:
            if st_ == stage and (p == pos or last and p > pos) and faults:
                act = commit(f, m, env, sim)
                if act is None:
                    continue
                before = whole(m, env)
                expect_error(*act, "%s %s" % tuple(f))
                after = whole(m, env)
                for key in before:
                    need(before[key] == after[key], "%s %s is rejected and yet changes %s: %s\nto %s", f[0], f[1], key, before[key], after[key])
                done += 1
                ctx.label(f[0])
    strike(0, 0, True)
    for name, delay, chunk in spec["goals"]:
        g = m.goals["g"] if name == "g" else m.set_goal(name, delay)
        if chunk is not None:
            g.add(real_chunk(chunk))
    for chunk, ts in spec["dm"]:
        m.decmem.add(real_chunk(chunk), list(ts))
    strike(1, 0, True)
    M.add_rules(m, spec["rules"], " ")
    strike(2, 0, True)
    sim = W.simulate(spec, m, env, 0)
    try:
        for i in range(60):
            strike(3, i)
            sim.step()
            e = sim.current_event
            log.append([e.time, e.proc, e.action])
        log.append("cut")
    except simpy.core.EmptySchedule:
        log.append("ended")
    except ACTRError as e:
        log.append("error " + str(e)[:50])
    log.append(whole(m, env))
    return log, done


def check_ops(case, ctx):
    a, _ = life(case, False)
    b, n = life(case, True, ctx)
    for x, y in zip(a, b):
        need(x == y, "after rejected operations %s: %s\nwithout them: %s", [f[2] for f in case["faults"]], y, x)
    need(len(a) == len(b), "%d events after rejected operations, %d without them", len(b), len(a))
    ctx.nontrivial(n >= 1)


def shrink_ops(case):
    for i in range(len(case["faults"])):
        if len(case["faults"]) > 1:
            yield {**case, "faults": case["faults"][:i] + case["faults"][i + 1:]}
    for x in W.shrink_world(case["model"]):
        yield {**case, "model": x}

# ------------------------------------------------------------------ rules in use


def gen_use(rng):
    """Two good steps and then a rule with one ill-formed part, or its well-formed variation."""
    target = rng.choice(["=im", "+im", "@im", "*im", "+retrieval", "+manual", "+visual", "=g", "+g", "=empty", "~im", "lhs", "+visual_location"])
    bound = rng.choice(M.PV)
    other = rng.choice([v for v in M.PV if v != bound])
    kinds = {"unbound": {"a": {"x": "nobody"}}, "unbound2": {"a": {"v": "p"}, "b": {"x": "nobody"}}, "clash": {"a": {"v": other, "x": "x"}}, "neg": {"a": {"nv": ["p"]}}, "negvar": {"a": {"nx": ["x"]}, "b": {"v": "p"}}}
    good = {"same": {"a": {"v": bound, "x": "x"}}, "bound": {"a": {"x": "x"}, "b": {"v": "q"}}, "plain": {"b": {"v": "p"}}}
    manual = {"nocmd": {"key": {"v": "a"}}, "badcmd": {"cmd": {"v": rng.choice(["press", "move_attention", "PRESS_KEY", "clear"])}, "key": {"v": "a"}}, "nokey": {"cmd": {"v": "press_key"}, **rng.choice([{}, {"hand": {"v": "left"}}, {"hand": {"v": "left"}, "finger": {"v": "index"}}])}, "badkey": {"cmd": {"v": "press_key"}, "key": {"v": rng.choice(["ab", "F13", "enterr", "10"])}},
              "unbound": {"cmd": {"v": "press_key"}, "key": {"x": "nobody"}}}
    visual = {"nocmd": {"color": {"v": "red"}}, "badcmd": {"cmd": {"v": rng.choice(["press_key", "move", "MOVE_ATTENTION"])}}, "unbound": {"cmd": {"v": "move_attention"}, "screen_pos": {"x": "nobody"}}}
    ok = rng.random() < .25
    if target in ("=im", "+im", "@im", "*im", "=g", "+g"):
        k = rng.choice(sorted(good if ok else kinds))
        pat = (good if ok else kinds)[k]
        if target in ("*im",) and not ok and k in ("neg", "negvar"):
            k, pat = "unbound", kinds["unbound"]
    elif target == "+retrieval":
        k = rng.choice(["same", "bound", "plain", "neg", "negvar"] if ok else ["unbound", "unbound2", "clash", "nobodyneg"])
        pat = {**good, **kinds, "nobodyneg": {"a": {"nx": ["nobody"]}}}[k]
    elif target == "+manual":
        k = "plain" if ok else rng.choice(sorted(manual))
        pat = {"cmd": {"v": "press_key"}, "key": {"v": rng.choice(["a", "SPACE", "Q"])}} if ok else manual[k]
    elif target == "+visual":
        k = "plain" if ok else rng.choice(sorted(visual))
        pat = {"cmd": {"v": "clear"}} if ok else visual[k]
    elif target == "+visual_location":
        k = "plain" if ok else rng.choice(["unbound", "negunbound"])
        pat = {"color": {"v": "red"}} if ok else {"color": {"x": "nobody"}} if k == "unbound" else {"color": {"nx": ["nobody"]}}
    elif target == "=empty":
        k, pat, ok = "empty", good[rng.choice(sorted(good))], False
    else:
        k, pat, ok = rng.choice(["#", "%", "^", ""]) if target == "~im" else rng.choice(["+", "~", "@", "!", "#"]), None, False
    return {"target": target, "kind": k, "pat": pat, "ok": ok, "bound": bound, "delay": rng.choice([0, 0, .1, .3]), "n": rng.randint(0, 2), "form": rng.choice(["func", "text"]), "dm": [[rng.choice(M.PV), rng.choice(M.PV)] for _ in range(rng.randint(0, 3))],
            "strict": rng.random() < .3, "sub": rng.random() < .3}


def check_use(case, ctx):
    reset_globals(3)
    W.declare(None)
    t, k = case["target"], case["kind"]
    vis = t in ("+visual", "+visual_location")
    env = pyactr.Environment() if vis or t == "+manual" else None
    m = new_model(environment=env, strict_harvesting=case["strict"], subsymbolic=case["sub"], retrieval_threshold=-5)
    im = m.set_goal("im", 0 if t in ("@im", "*im") else case["delay"])
    empty = m.set_goal("void")
    m.goals["g"].add(Chunk("go", s="n0", a=case["bound"]))
    im.add(Chunk("img", a="z", c="c"))
    for i, (a, b) in enumerate(case["dm"]):
        m.decmem.add(Chunk("fact", a=a, b=b), -1 - i)
    rules = []
    for i in range(case["n"]):
        rules.append({"n": "step%d" % i, "u": 0, "r": None, "lhs": {"=g": {"t": "go", "s": {"s": {"v": "n%d" % i}}}, "=im": {"t": "img", "s": {}}}, "rhs": {"=g": {"t": "go", "s": {"s": {"v": "n%d" % (i + 1)}}}, "=im": {"t": "img", "s": {}}}})
    at = "n%d" % case["n"]
    lhs = {"=g": {"t": "go", "s": {"s": {"v": at}, "a": {"x": "x"}}}, "=im": {"t": "img", "s": {}}}
    rhs = {"=g": {"t": "go", "s": {"s": {"v": "end"}}}}
    if t == "=empty":
        rhs["=void"] = {"t": "img", "s": case["pat"]}
        goal = empty
    elif t == "~im":
        rhs[k + "im"] = {"t": "img", "s": {}}
        goal = im
    elif t == "lhs":
        lhs[k + "im"] = {"t": "img", "s": {}}
        goal = im
    else:
        name = t[1:]
        if name == "g":
            rhs = {}
            case_pat = {**case["pat"], "s": {"v": "end"}}
        else:
            case_pat = case["pat"]
        rhs[t] = {"t": {"g": "go", "im": "img", "retrieval": "fact", "manual": "_manual", "visual": "_visual", "visual_location": "_visuallocation"}[name], "s": case_pat}
        goal = None
    rules.append({"n": "last", "u": 0, "r": None, "lhs": lhs, "rhs": rhs})
    form = case["form"] if t not in ("~im", "lhs") else "func"
    M.add_rules(m, rules, "func" if form == "func" else "\n")
    kw = {}
    if env is not None:
        kw = dict(environment_process=env.environment_process, stimuli=[{"s1": {"text": "A", "position": (100, 100), "color": "red"}}], triggers=["Z"], times=[9])
    sim = new_sim(m, **kw)
    if goal is None:
        goal = W.all_buffers(m)[t[1:]]
    fire = .05 * (case["n"] + 1)
    err, fired = None, None
    dm0 = dm_canon(m.decmem)
    before = None
    try:
        for _ in range(120):
            if fired is None:
                before = (buf_canon(goal), dm_canon(m.decmem))
            sim.step()
            e = sim.current_event
            if e.action == "RULE FIRED: last":
                fired = e.time
                before = (buf_canon(goal), dm_canon(m.decmem))
    except simpy.core.EmptySchedule:
        pass
    except ACTRError as e:
        err = e
    what = "%s with %s %s" % (t, k, case["pat"])
    if case["ok"]:
        need(err is None, "%s is rejected: %s", what, err)
        need(fired is not None, "%s: the rule does not fire", what)
    else:
        need(err is not None, "%s is accepted", what)
        if t == "lhs":
            need(fired is None, "a rule with condition sign %s fires", k)
        else:
            need(fired is not None and tclose(fired, fire), "%s: rejected although the rule did not fire (%s)", what, err)
            need(sim.show_time() <= fire + case["delay"] + 1e-6 or env is not None, "%s is rejected at %s", what, sim.show_time())
        if not case["strict"] and t != "=g":
            now = buf_canon(goal)
            if t in ("+g",):
                need(now is None or dict(now[1]).get("s") != "end", "%s: rejected, and yet the buffer has %s", what, show(now))
            else:
                need(now == before[0] or t in ("+im", "+retrieval", "+visual_location") and now is None, "%s: the buffer had %s, after the rejection %s", what, before[0], now)
        if t not in ("+im", "+g", "+retrieval", "+visual_location", "=g") and not case["strict"]:
            need(dm_canon(m.decmem) == dm0, "%s: rejected, and the memory changes", what)
    ctx.label("accepted" if case["ok"] else "rejected", t)
    ctx.nontrivial()


SUBS = [
    Sub("texts", gen_texts, check_texts, 1500, 60000,
        "rules and chunks written as strings with one fault each (arrow, signs, missing or lone parts, quotes, junk, names): each rejected, rules, chunk types and named chunks unchanged, and the text without the fault accepted; non-trivial: at least two texts", shards=4),
    Sub("operations", gen_ops, check_ops, 700, 25000,
        "a random model built and stepped with 1-8 ill-formed operations in between (memories, buffers, names, parameters, similarities, rules, chunks, types, environment): each rejected without changing anything observable, and the run the same as without them; non-trivial: at least one of them applies", shards=8, shrink=shrink_ops),
    Sub("rules", gen_use, check_use, 1500, 60000,
        "rules with one ill-formed action or condition (unbound variable, negation, clash, command, key, sign, empty buffer) or their well-formed variation, as functions and strings: rejected when the rule fires, with buffer and memory as before, or accepted; every case is non-trivial", shards=4),
]
