"""Reference interpreter of production systems over goal-type and retrieval buffers (no noise; symbolic retrieval, or subsymbolic with equal activations).

Written from the documented step semantics; the two choices the documentation leaves open (which of several
applicable rules of equal utility, which of several matching chunks) are adopted from the observed run
after checking that they are allowed.
"""
import heapq
import math

from .lib import *
from . import models as M


class Observed:
    """What is recorded from the real run."""

    def __init__(self):
        self.proc = []        # (time, action) of the procedural module
        self.snaps = []       # (time, {buffer: content}) at conflict resolutions
        self.retrieved = []   # (time, buffer, content or None) at the end of retrievals
        self.events = []
        self.ended = False


def observe(m, sim, max_events):
    obs = Observed()
    rets = set(m.retrievals)

    def on(ev):
        t, proc, act = ev
        obs.events.append(ev)
        if proc == "PROCEDURAL":
            obs.proc.append((t, act))
            if act == "CONFLICT RESOLUTION":
                obs.snaps.append((t, M.snapshot(m)))
                if len(repr(obs.snaps[-1])) > 4000:
                    return False      # chunks nested in chunks grow exponentially
        elif proc in rets and act.startswith("RETRIEVED: "):
            obs.retrieved.append((t, proc, None if act == "RETRIEVED: None" else buf_canon(m.retrievals[proc])))
    tr = drive(sim, max_events, on_event=on)
    obs.ended = tr.ended
    return obs


class Ref:
    def __init__(self, spec, obs):
        self.spec, self.obs = spec, obs
        self.firing = spec["params"].get("rule_firing", 0.05)
        self.strict = spec["params"].get("strict_harvesting", False)
        self.delay = {n: d for n, d, _ in spec["goals"]}
        self.buf = {n: [None if c is None else canon_spec(c), "free"] for n, d, c in spec["goals"]}
        self.buf["retrieval"] = [None, "free"]
        self.dm = {}
        for c, ts in spec["dm"]:
            self.dm.setdefault(canon_spec(c), []).extend(round(t, 4) for t in ts)
        self.rules = {r["n"]: r for r in spec["rules"]}
        self.q = []
        self.seq = 0
        self.pending = {}     # buffer -> id of the request being carried out
        self.proc, self.snaps = [], []
        self.ret_used = 0
        self.sel_used = 0
        self.picked = [a[len("RULE SELECTED: "):] for _, a in obs.proc if a.startswith("RULE SELECTED: ")]
        self.found = [r for r in obs.retrieved if r[2] is not None]
        self.stats = {"fired": 0, "stopped": 0, "retrieved": 0, "failed": 0, "harvested": 0, "interrupted": 0, "created": 0, "delayed": 0}
        self.recent = []

    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.q, (round(t, 4), self.seq, fn))

    def snap(self):
        return {n: tuple(b) for n, b in self.buf.items()}

    def harvest(self, name):
        b = self.buf[name]
        if b[0] is not None:
            self.dm.setdefault(b[0], []).append(self.now)
            b[0] = None
            self.stats["harvested"] += 1

    def run(self, limit):
        """limit: number of procedural events to produce."""
        self.now = round(self.spec["start"], 4)
        self.cr_due = True
        while True:
            if self.cr_due:
                self.resolve()
            if len(self.proc) >= limit or not self.q:
                return
            t = self.q[0][0]
            self.now = t
            while self.q and self.q[0][0] == t:    # everything scheduled for this time, in order of scheduling
                heapq.heappop(self.q)[2]()

    def resolve(self):
        self.cr_due = False
        self.proc.append((self.now, "CONFLICT RESOLUTION"))
        snap = self.snap()
        self.snaps.append((self.now, snap))
        holds = [n for n, r in self.rules.items() if M.ref_lhs(r["lhs"], snap)[0]]
        if not holds:
            self.proc.append((self.now, "NO RULE FOUND"))
            self.waiting = True
            return
        self.waiting = False
        best = max(self.rules[n]["u"] for n in holds)
        holds = [n for n in holds if self.rules[n]["u"] == best]
        if len(holds) > 1 and self.sel_used < len(self.picked) and self.picked[self.sel_used] in holds:
            name = self.picked[self.sel_used]
        else:
            name = holds[0]
        self.sel_used += 1
        self.proc.append((self.now, "RULE SELECTED: " + name))
        self.at(self.now + self.firing, lambda: self.fire(name))

    def wake(self):
        if self.waiting:
            self.cr_due = True

    def fire(self, name):
        r = self.rules[name]
        snap = self.snap()
        ok, pos = M.ref_lhs(r["lhs"], snap)
        self.cr_due = True
        if not ok:
            self.stats["stopped"] += 1
            self.proc.append((self.now, "RULE STOPPED FROM FIRING: " + name))
            return
        self.stats["fired"] += 1
        self.proc.append((self.now, "RULE FIRED: " + name))
        pos = dict(pos)
        for k in r["lhs"]:
            if k[0] == "=":
                pos[k[1:]] = snap[k[1:]][0]
        rhs = r["rhs"]
        self.perform(r, sorted(rhs, key=lambda k: "!?=@~*+".find(k[0])), pos)

    def perform(self, r, actions, pos):
        """The actions in their order; what follows an overwriting of a buffer with a delay follows it in time, too."""
        rhs = r["rhs"]
        for i, k in enumerate(actions):
            n = k[1:]
            if k[0] in "!?":
                self.buf[n][1] = "free"
            elif k[0] == "@":
                self.buf[n][1] = "busy"

                def write(n=n, k=k):
                    self.buf[n][0], self.buf[n][1] = self.made(rhs[k], pos), "free"
                if self.delay[n]:
                    self.cr_due = False
                    self.stats["delayed"] += 1
                    self.at(self.now + self.delay[n], lambda: (write(), setattr(self, "cr_due", True), self.perform(r, actions[i + 1:], pos)))
                    return
                write()
            elif k[0] in "=~":
                if k[0] == "~":
                    self.harvest(n)
                else:
                    self.modify(n, rhs[k], pos)
                self.buf[n][1] = "free"
        for k in rhs:
            if k[0] in "+*":
                self.request(k, rhs[k], pos, rhs.get("?" + k[1:]))
        if self.strict:
            for k in r["lhs"]:
                if k[0] == "=" and k[1:] not in {x[1:] for x in rhs}:
                    self.harvest(k[1:])

    def value(self, c, pos):
        """Set of values a right-hand-side constraint stands for."""
        out = set()
        if c.get("v") is not None:
            out.add(canon_value(c["v"]))
        if c.get("x"):
            out.add(pos[c["x"]])
        if len(out) > 1:
            raise HarnessError("two values")
        return out

    def made(self, p, pos):
        d = {}
        for s, c in p["s"].items():
            for v in self.value(c, pos):
                if v is not None:
                    d[s] = v
        return ("chunk", frozenset(d.items()))

    def modify(self, n, p, pos):
        d = dict(self.buf[n][0][1])
        for s, c in p["s"].items():
            for v in self.value(c, pos):
                if v is None:
                    d.pop(s, None)
                else:
                    d[s] = v
        self.buf[n][0] = ("chunk", frozenset(d.items()))

    def request(self, key, p, pos, tests):
        n = key[1:]
        b = self.buf[n]
        b[1] = "busy"
        if n in self.pending:
            self.stats["interrupted"] += 1
        ident = object()
        self.pending[n] = ident

        def finish(fn):
            def go():
                if self.pending.get(n) is ident:
                    del self.pending[n]
                    fn()
                    self.wake()
            return go
        if key[0] == "*":
            finish(lambda: (self.modify(n, p, pos), b.__setitem__(1, "free")))()
        elif n != "retrieval":
            self.harvest(n)
            new = self.made(p, pos)

            def create():
                b[0], b[1] = new, "free"
                self.stats["created"] += 1
            if self.delay[n]:
                self.at(self.now + self.delay[n], finish(create))
            else:
                finish(create)()
        else:
            req = {"t": p["t"], "s": {}}
            for s, c in p["s"].items():
                rc = {"nv": []}
                for v in self.value(c, pos):
                    rc["v"] = "None" if v is None else v
                rc["nv"] = [canon_value(v) for v in c.get("nv", ())] + [pos[x] for x in c.get("nx", ())]
                req["s"][s] = rc
            if self.spec["params"].get("subsymbolic"):      # all activations are 0, retrieval takes time
                F = self.spec["params"]["latency_factor"]
                start = self.now
                got = [None]

                def success():
                    self.harvest(n)
                    b[0], b[1] = got[0], "free"
                    self.stats["retrieved"] += 1

                def failure():
                    b[1] = "error"
                    self.stats["failed"] += 1

                def search():
                    allowed = [k for k in self.dm if match_canon(req, dict(k[1]))]
                    old = [k for k in allowed if self.dm[k][0] != start]
                    got[0] = next((c for t, _, c in self.found if tclose(t, start + F) and c in allowed), None)
                    if got[0] is None and old:
                        got[0] = old[0]
                    # a chunk stored at this very moment may or may not be found
                    if got[0] is not None:
                        self.at(start + F, finish(success))
                    else:
                        self.at(start + F * math.exp(-self.spec["params"]["retrieval_threshold"]), finish(failure))
                self.at(self.now, search)
                return
            allowed = [k for k, ts in self.dm.items() if ts[0] != self.now and match_canon(req, dict(k[1]))]
            finst = self.spec.get("finst")
            if tests and finst:
                want = tests["recently_retrieved"] == "True"
                allowed = [k for k in allowed if (k in self.recent) == want]
            got = None
            if allowed:
                got = allowed[-1]
                if self.ret_used < len(self.found):
                    t, _, content = self.found[self.ret_used]
                    if tclose(t, self.now) and content in allowed:
                        got = content
                self.ret_used += 1
            if finst:
                self.recent = (self.recent + [got])[-finst:]

            def success():
                self.harvest(n)
                b[0], b[1] = got, "free"
                self.stats["retrieved"] += 1

            def failure():
                b[1] = "error"
                self.stats["failed"] += 1
            if got is not None:
                finish(success)()
            else:
                self.at(self.now + self.firing, finish(failure))


def match_canon(req, chunk):
    """req with canonical values (no variables left) against slot -> canonical value."""
    for s, c in req["s"].items():
        v = chunk.get(s)
        if "v" in c and (None if c["v"] == "None" else c["v"]) != v:
            return False
        if v in c["nv"]:
            return False
    return True


def collapse(proc, snaps):
    """Repeated conflict resolutions at one time without any change count once."""
    out, i = [], 0
    it = iter(snaps)
    last = None
    for t, a in proc:
        if a == "CONFLICT RESOLUTION":
            s = next(it, None)
            if last is not None and out and out[-1][1] == "NO RULE FOUND" and out[-1][0] == t and last == s:
                out.pop()
                out.pop()
            last = s
        out.append((t, a))
    return out


def compare(spec, m, obs, ref):
    """Raise Violation at the first difference."""
    a, b = obs.proc, ref.proc
    ai = bi = 0
    for i in range(min(len(a), len(b))):
        (t1, x1), (t2, x2) = a[i], b[i]
        need(tclose(t1, t2) and x1 == x2, "procedural event %d is %s at %s, expected %s at %s; before that: %s", i, x1, t1, x2, t2, a[max(0, i - 4):i])
    if obs.ended:
        need(len(a) >= len(b), "run ends after %d procedural events, expected to continue with %s", len(a), b[len(a):len(a) + 3])
    need(len(a) <= len(b), "run goes on with %s where the reference ends", a[len(b):len(b) + 3])
    for (t1, s1), (t2, s2) in zip(obs.snaps, ref.snaps):
        for n in s2:
            need(s1[n][0] == s2[n][0], "at conflict resolution %s buffer %s holds %s, expected %s", t1, n, show(s1[n][0]), show(s2[n][0]))
            need(s1[n][1] == s2[n][1], "at conflict resolution %s the state of %s is %s, expected %s", t1, n, s1[n][1], s2[n][1])
    if obs.ended:
        snap = M.snapshot(m)
        for n in ref.buf:
            need(snap[n][0] == ref.buf[n][0], "in the end buffer %s holds %s, expected %s", n, show(snap[n][0]), show(ref.buf[n][0]))
            need(snap[n][1] == ref.buf[n][1], "in the end the state of %s is %s, expected %s", n, snap[n][1], ref.buf[n][1])
        got = dm_canon(m.decmem)
        need(set(got) == set(ref.dm), "in the end memory holds %s, expected %s", sorted(map(show, got)), sorted(map(show, ref.dm)))
        for k in got:
            need(len(got[k]) == len(ref.dm[k]) and all(tclose(x, y) for x, y in zip(got[k], ref.dm[k])),
                 "in the end %s has presentation times %s, expected %s", show(k), got[k], ref.dm[k])
