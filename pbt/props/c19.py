"""C19 Key presses take the documented motor time and never overlap."""
from ..core import Sub, need
from ..lib import *
from .. import models as M, worlds as W

PRESSING = {"A", "S", "D", "F", "J", "K", "L", "SPACE"}
LEFT = {"1", "2", "3", "4", "5", "Q", "W", "E", "R", "T", "A", "S", "D", "F", "G", "Z", "X", "C", "V", "B", "SPACE"}
KEYS = sorted(LEFT | {"6", "7", "8", "9", "0", "Y", "U", "I", "O", "P", "H", "J", "K", "L", "N", "M"})
STATES = ("state", "preparation", "processor", "execution")


def durations(key):
    """preparation, initiation, execution, finishing"""
    if key in PRESSING:
        return 0.15, 0.05, 0.01, 0.09
    return (0.25, 0.05, 0.11, 0.16) if key in "56" else (0.25, 0.05, 0.1, 0.15)


def gen(rng):
    pool = rng.sample(KEYS, rng.randint(1, 4)) + rng.sample(sorted(PRESSING), 2) + rng.choice([[], ["5"], ["6", "5"]])
    steps = []
    for _ in range(rng.randint(1, 9)):
        q = {}
        for s in rng.sample(STATES, M.pick(rng, (4, 0), (4, 1), (1, 2))):
            q[s] = rng.choice(["free", "free", "free", "busy"])
        key = rng.choice(pool) if rng.random() < .8 else None
        if key and rng.random() < .4:
            key = key.lower()
        steps.append({"key": key, "if": q})
    return {"steps": steps, "f": rng.choice([0.05, 0.05, 0.0507, 0.0123, 0.2, 0.083]), "prepared": rng.random() < .3, "start": rng.choice([0, 0, 2.5, 0.0123])}


def busy(presses, t):
    """{state: busy?} just after t"""
    out = {}
    for s, a, b in (("preparation", "req", "prep"), ("processor", "req", "init"), ("execution", "prep", "fin"), ("state", "req", "fin")):
        out[s] = any((p[a] if a == "req" or not p["gone"] else 9e9) <= t + 1e-7 < (p["gone"] or p[b]) for p in presses)
    return out


def changes(presses):
    for p in presses:
        if p["gone"]:
            yield p["gone"]
        else:
            for k in ("prep", "init", "fin"):
                yield p[k]


def reference(case):
    """(rules fired [(time, number)], presses, time up to which this is certain)"""
    f, t = case["f"], case["start"]
    presses, fired, prepared = [], [], case["prepared"]
    k, until = 0, float("inf")
    steps = case["steps"]
    while k < len(steps):
        def holds(t):
            b = busy(presses, t)
            return all(b[s] == (v == "busy") for s, v in steps[k]["if"].items())
        if not holds(t):
            later = [c for c in list(changes(presses)) + [p["press"] for p in presses if not p["gone"]] if c > t + 1e-7]
            if not later:
                break
            t = min(later)
            continue
        t += f
        if any(abs(c - t) < 2e-4 for c in changes(presses)):
            until = t - 1e-3       # a phase ends when a rule fires: either may come first
            break
        if not holds(t):
            continue
        fired.append((t, k))
        key = steps[k]["key"]
        k += 1
        if not key:
            continue
        key = key.upper()
        prep, init, execution, finish = durations(key)
        last = None
        for p in presses:
            if t < p["prep"] and not p["gone"]:
                p["gone"] = t
            elif not p["gone"]:
                last = p
        if prepared or last and last["key"] == key:
            prep = 0
        elif last and (last["key"] in PRESSING) == (key in PRESSING):
            prep -= 0.1 if (last["key"] in LEFT) == (key in LEFT) else 0.05
        prepared = False
        p = {"key": key, "req": t, "prep": t + prep, "gone": None}
        begin = max([p["prep"]] + [x["fin"] for x in presses if not x["gone"]])
        p.update(init=begin + init, press=begin + init + execution, fin=begin + init + execution + finish)
        presses.append(p)
    return fired, presses, until


def model(case):
    m = new_model(rule_firing=case["f"], motor_prepared=case["prepared"])
    m.goals["g"].add(real_chunk({"t": "go", "s": {"s": "k0"}}))
    rules = []
    for i, s in enumerate(case["steps"]):
        lhs = {"=g": {"t": "go", "s": {"s": {"v": "k%d" % i}}}}
        if s["if"]:
            lhs["?manual"] = s["if"]
        rhs = {"=g": {"t": "go", "s": {"s": {"v": "k%d" % (i + 1)}}}}
        if s["key"]:
            rhs["+manual"] = {"t": "_manual", "s": {"cmd": {"v": "press_key"}, "key": {"v": s["key"]}}}
        rules.append({"n": "r%d" % i, "u": 0, "r": None, "lhs": lhs, "rhs": rhs})
    M.add_rules(m, rules, "func")
    return m


def check(case, ctx):
    fired, presses, until = reference(case)
    m = model(case)
    sim = new_sim(m, initial_time=case["start"])
    tr = drive(sim, 400)
    want = [(t, "PROCEDURAL", "RULE FIRED: r%d" % k) for t, k in fired]
    for p in presses:
        if p["gone"]:
            want.append((p["req"], "manual", "COMMAND: press_key"))
        else:
            want += [(p["req"], "manual", "COMMAND: press_key"), (p["prep"], "manual", "PREPARATION COMPLETE"), (p["init"], "manual", "INITIATION COMPLETE"),
                     (p["press"], "manual", "KEY PRESSED: " + p["key"]), (p["fin"], "manual", "MOVEMENT FINISHED")]
    for proc in ("PROCEDURAL", "manual"):
        acts = {}
        for which, events in ((0, tr.events), (1, want)):
            for t, pr, act in events:
                if pr == proc and t < until and (proc == "manual" or act.startswith("RULE FIRED")):
                    acts.setdefault(act, ([], []))[which].append(t)
        for act, (a, b) in acts.items():
            need(len(a) == len(b) and all(tclose(x, y, 1.6e-4) for x, y in zip(sorted(a), sorted(b))), "%s happens at %s, expected at %s; key presses should be %s", act, a, b, presses)
    # presses are reported in the order in which they were requested
    a = [e[2][13:] for e in tr.events if e[2].startswith("KEY PRESSED") and e[0] < until]
    need(a == [p["key"] for p in presses if not p["gone"] and p["press"] < until], "keys are pressed in the order %s", a)
    # states between the events
    m2 = model(case)
    sim2 = new_sim(m2, initial_time=case["start"])
    times = sorted({e[0] for e in tr.events if e[0] < until})
    for t, u in zip(times, times[1:]):
        if u - t < 4e-4:
            continue
        sim2.run((t + u) / 2)
        b = W.all_buffers(m2)["manual"]
        for s, v in busy(presses, (t + u) / 2).items():
            need(getattr(b, s) == ("busy" if v else "free"), "between %s and %s the motor module is %s %s, key presses are %s", t, u, s, getattr(b, s), presses)
    done = [p for p in presses if not p["gone"]]
    ctx.label(*(["cut"] if until < 9e9 else []), *(["replaced"] if len(done) < len(presses) else []),
              *(["queued"] if any(p["init"] - p["prep"] > .0501 for p in done) else []), *(["queue of 3"] if any(sum(q["prep"] <= p["prep"] < q["fin"] for q in done) > 2 for p in done) else []),
              *(["same"] if any(p["req"] == p["prep"] for p in done) else []))
    ctx.nontrivial(len(done) >= 2)


SUBS = [Sub("timeline", gen, check, 2500, 100000,
            "sequences of up to nine rules, with or without a key press, that fire one after the other or wait for motor states; every motor event and the states between events are compared with a reference timeline; non-trivial: at least two keys pressed", shards=8)]
