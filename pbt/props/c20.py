"""C20 Motor commands are validated and pressed keys are reported in upper case."""
import re
from ..core import Sub, need
from ..lib import *
from .. import models as M, worlds as W
from .c19 import KEYS, durations

GOOD = set(KEYS)


def cased(rng, s):
    return "".join(rng.choice([c.upper(), c.lower()]) for c in s)


def gen_keys(rng):
    keys = [cased(rng, rng.choice(KEYS)) for _ in range(rng.randint(1, 4))]
    return {"keys": keys, "how": [rng.choice(["value", "quoted", "variable", "number"]) for _ in keys], "cmd": "press_key",
            "trigger": [rng.choice([k.lower(), k.upper(), k]) if rng.random() < .7 else rng.choice(KEYS) for k in keys], "form": rng.choice(["func", " "])}


def rules_for(case):
    """One rule per key; each waits until the motor module is free."""
    rules = []
    for i, (key, how) in enumerate(zip(case["keys"], case["how"])):
        lhs = {"=g": {"t": "go", "s": {"s": {"v": "k%d" % i}}}, "?manual": {"state": "free"}}
        c = {"v": key}
        if how == "variable":
            lhs["=g"]["s"]["k%d" % i] = {"x": "key"}
            c = {"x": "key"}
        rules.append({"n": "r%d" % i, "u": 0, "r": None, "lhs": lhs, "how": how,
                      "rhs": {"=g": {"t": "go", "s": {"s": {"v": "k%d" % (i + 1)}}}, "+manual": {"t": "_manual", "s": {"cmd": {"v": case["cmd"]}, "key": c}}}})
    return rules


def build(case, env):
    m = new_model(environment=env)
    m.goals["g"].add(chunks.Chunk("go", s="k0", **{"k%d" % i: k for i, k in enumerate(case["keys"])}))
    rules = rules_for(case)
    for r in rules:
        if case["form"] == "func":
            key = r["rhs"]["+manual"]["s"]["key"]
            if r["how"] == "number" and "v" in key and key["v"].isdigit():
                key["v"] = int(key["v"])
        else:
            text = M.rule_text(r)
            if r["how"] == "quoted":
                k = r["rhs"]["+manual"]["s"]["key"]["v"]
                text = re.sub(r" key %s$" % k, ' key "%s"' % k, text.rstrip())
            m.productionstring(name=r["n"], string=text)
    if case["form"] == "func":
        M.add_rules(m, rules, "func")
    return m


def check_keys(case, ctx):
    if not len(case["keys"]) == len(case["how"]) == len(case["trigger"]):
        return      # (only while a failure is shrunk)
    env = pyactr.Environment()
    m = build(case, env)
    n = len(case["keys"])
    # one screen per key and one more; each stays until its trigger is pressed
    stim = [{"st%d" % i: {"text": "t%d" % i, "position": (600, 300)}} for i in range(n + 1)]
    sim = new_sim(m, environment_process=env.environment_process, stimuli=stim, triggers=case["trigger"] + ["1"], times=[1000] * (n + 1))
    presses, shown = [], []

    def on(ev):
        if ev[2].startswith("KEY PRESSED: "):
            presses.append((ev[0], ev[2][13:]))
        shown.append((ev[0], None if env.stimulus is None else list(env.stimulus)[0]))
    tr = Trace()
    while len(tr.events) < 150 and (not tr.events or tr.events[-1][0] < 900):
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            break
        e = sim.current_event
        ev = (e.time, e.proc, e.action)
        tr.events.append(ev)
        if e.time < 900:
            on(ev)
    need([k for _, k in presses] == [k.upper() for k in case["keys"]], "the keys %s are requested, pressed are %s", case["keys"], presses)
    # which screen is shown after every press
    at = 0
    for i, (t, k) in enumerate(presses):
        if case["trigger"][at].upper() == k if at < n else k == "1":
            if at < n:
                at += 1
        later = [s for u, s in shown if u > t and (i + 1 == len(presses) or u < presses[i + 1][0])]
        need(later and all(s == "st%d" % at for s in later), "after %s was pressed at %s the screen is %s, expected st%d (triggers %s)", k, t, later, at, case["trigger"])
    ctx.label(*case["how"])
    ctx.nontrivial(any(k != k.upper() for k in case["keys"]) or "variable" in case["how"])


# ------------------------------------------------------------------ rejection

BADKEYS = ["enter", "left", "aa", "ab", "10", "56", "-", ".", "none", "spac", "spacee", "shift", "f1", "qw", "é", "ß", "ä", 11, -1, 1.5, "ap", "sdf", "yu"]
BADCMDS = ["press", "presskey", "press-key", "click", "move", "point_hand", "release", "PRESS_KEY", "Press_key", "key", "punch", "move_attention", "clear"]


def gen_bad(rng):
    good = [cased(rng, rng.choice(KEYS)) for _ in range(rng.randint(0, 2))]
    bad = M.pick(rng, (3, "key"), (2, "cmd"), (1, "nokey"), (1, "nocmd"))
    return {"good": good, "bad": bad, "key": rng.choice(BADKEYS) if bad == "key" else rng.choice(KEYS), "cmd": rng.choice(BADCMDS) if bad == "cmd" else "press_key",
            "var": rng.random() < .4}


def check_bad(case, ctx):
    n = len(case["good"])
    s = {"cmd": {"v": case["cmd"]}, "key": {"v": case["key"]}}
    if case["bad"] == "nokey":
        del s["key"]
    if case["bad"] == "nocmd":
        del s["cmd"]
    lhs = {"=g": {"t": "go", "s": {"s": {"v": "k%d" % n}}}, "?manual": {"state": "free"}}
    goal = {"s": "k0"}
    if case["var"] and "key" in s:
        lhs["=g"]["s"]["bad"] = {"x": "key"}
        s["key"] = {"x": "key"}
        goal["bad"] = case["key"]
    m = new_model()
    m.goals["g"].add(chunks.Chunk("go", **goal))
    rules = rules_for({"keys": case["good"], "how": ["value"] * n, "cmd": "press_key"})
    rules.append({"n": "bad", "u": 0, "r": None, "lhs": lhs, "rhs": {"=g": {"t": "go", "s": {"s": {"v": "x"}}}, "+manual": {"t": "_manual", "s": s}}})
    M.add_rules(m, rules, "func")
    sim = new_sim(m)
    tr, err = Trace(), None
    try:
        while len(tr.events) < 100:
            sim.step()
            e = sim.current_event
            tr.events.append((e.time, e.proc, e.action))
    except simpy.core.EmptySchedule:
        pass
    except ACTRError as e:
        err = e
    pressed = [a[13:] for _, _, a in tr.events if a.startswith("KEY PRESSED: ")]
    need(err is not None, "the command %s with key %r is not rejected; pressed: %s", s, case["key"], pressed)
    need(pressed == [k.upper() for k in case["good"]], "rejecting the command %s with key %r, pressed before that: %s, requested %s", s, case["key"], pressed, case["good"])
    need(any(a == "RULE FIRED: bad" for _, _, a in tr.events), "the request is rejected before its rule fires: %s", tr.events[-3:])
    ctx.label(case["bad"])
    ctx.nontrivial(True)


# ------------------------------------------------------------------ the buffer itself

def gen_direct(rng):
    return {"key": cased(rng, rng.choice(KEYS)) if rng.random() < .6 else rng.choice(BADKEYS), "cmd": "press_key" if rng.random() < .8 else rng.choice(BADCMDS), "var": rng.random() < .4}


def check_direct(case, ctx):
    from pyactr import motor
    b = motor.Motor()
    c = real_pattern({"t": "_manual", "s": {"cmd": {"v": case["cmd"]}, "key": {"x": "k"} if case["var"] else {"v": case["key"]}}})
    ok = case["cmd"] == "press_key" and str(case["key"]).upper() in GOOD
    binds = {"=k": case["key"]} if case["var"] else {}
    if ok:
        made = b.create(c, binds)
        need(canon_chunk(made)[1] == frozenset({("cmd", "press_key"), ("key", case["key"].upper())}), "asked to press %r the motor module makes %s", case["key"], made)
    else:
        expect_error(lambda: b.create(c, binds), ACTRError, "command %s, key %r" % (case["cmd"], case["key"]))
    for chunk in (chunks.Chunk("_manual", cmd="press_key", key="A"), chunks.Chunk("any", a=1), 1):
        expect_error(lambda: b.add(chunk), Exception, "adding %s to the motor buffer" % chunk)
        need(len(b) == 0, "the motor buffer holds %s", list(b))
    ctx.label("ok" if ok else "rejected")
    ctx.nontrivial(True)


SUBS = [Sub("keys", gen_keys, check_keys, 900, 40000,
            "sequences of up to four keys in random letter case, given as value, quoted, number or variable, with an environment whose screens wait for keys; non-trivial: a lower-case key or a variable", shards=6),
        Sub("rejected", gen_bad, check_bad, 700, 30000,
            "up to two good key presses followed by a request with a wrong or missing key or command; all cases count", shards=4),
        Sub("buffer", gen_direct, check_direct, 900, 30000,
            "requests given to a motor buffer directly; all cases count", shards=2)]
