"""Builders, canonical forms, reference matching and simulation driving shared by the checks.

Specs (JSON):
  value      None | str | int | float | {"t": type, "s": {slot: value}}     (a nested chunk)
  constraint {"v": value, "x": var, "nv": [values], "nx": [vars]}  (all keys optional)
  chunk      {"t": type, "s": {slot: value}}
  pattern    {"t": type, "s": {slot: constraint}}
"""
import re
import zlib

from .core import st, need, Violation, HarnessError, simpy, pyactr, ACTRError, np  # noqa: F401
from pyactr import chunks, utilities

Chunk = chunks.Chunk
Varval = utilities.VarvalClass

# ------------------------------------------------------------------ canonical forms


def is_empty(v):
    return v is None or (isinstance(v, str) and v == "None") or type(v).__name__ == "EmptyValue"


def canon_value(v):
    """Canonical form of a value spec or of a real value found in a chunk."""
    if is_empty(v):
        return None
    if isinstance(v, dict):
        return canon_spec(v)
    if isinstance(v, Chunk):
        return canon_chunk(v)
    return str(v)


def canon_spec(spec):
    return ("chunk", frozenset((s, canon_value(v)) for s, v in spec["s"].items() if canon_value(v) is not None))


def canon_constraint(c):
    return (canon_value(c.get("v")), c.get("x"), frozenset(canon_value(v) for v in c.get("nv", ())), frozenset(c.get("nx", ())))


NOCON = (None, None, frozenset(), frozenset())


def canon_pattern(p):
    return ("pattern", frozenset((s, canon_constraint(c)) for s, c in p["s"].items() if canon_constraint(c) != NOCON))


def parts(val):
    """(value, variable, negvalues, negvariables) of a slot content of a real chunk."""
    if val is None or type(val).__name__ == "EmptyValue":
        return None, None, (), ()
    return val.values, val.variables, val.negvalues, val.negvariables


def canon_chunk(ch):
    """Content of a real chunk as seen by iterating over it."""
    out = set()
    for slot, val in ch:
        v, x, nv, nx = parts(val)
        v = canon_value(v)
        if x or nv or nx:
            out.add((slot, (v, x, frozenset(canon_value(n) for n in nv), frozenset(nx))))
        elif v is not None:
            out.add((slot, v))
    return ("chunk", frozenset(out))


def slots_of(ch):
    """dict slot -> canonical value (None for empty) of a real chunk, all slots."""
    return {slot: canon_value(parts(val)[0]) for slot, val in ch}


def show(c):
    """Readable rendering of canonical forms for messages."""
    if isinstance(c, tuple) and len(c) == 2 and c[0] in ("chunk", "pattern"):
        return "{" + ", ".join("%s=%s" % (s, show(v)) for s, v in sorted(c[1], key=lambda z: z[0])) + "}"
    if isinstance(c, frozenset):
        return "{" + ",".join(sorted(map(show, c))) + "}"
    if isinstance(c, tuple):
        return "(" + ",".join(map(show, c)) + ")"
    return repr(c)

# ------------------------------------------------------------------ builders


def real_value(v):
    return real_chunk(v) if isinstance(v, dict) else v


def real_chunk(spec, route="Chunk", name=""):
    s = spec["s"]
    if route == "Chunk":
        return Chunk(spec["t"], **{k: real_value(v) for k, v in s.items()})
    if route == "Chunk_rev":
        return Chunk(spec["t"], **{k: real_value(s[k]) for k in reversed(list(s))})
    if route == "make":
        return pyactr.makechunk(name, spec["t"], **{k: real_value(v) for k, v in s.items()})
    if route == "varval":
        return Chunk(spec["t"], **{k: (real_value(v) if v is None or isinstance(v, dict) else
                                       Varval(values=str(v), variables=None, negvalues=(), negvariables=()))
                                   for k, v in s.items()})
    if route == "string":
        return pyactr.chunkstring(name or "z_unnamed", chunk_text(spec))
    raise HarnessError("route " + route)


_bare = re.compile(r"^[A-Za-z0-9_.]+$")
_nest = [0]


def atom_text(v, quote=False):
    """Text of a value in the string notation; nested chunks are named first."""
    if isinstance(v, dict):
        _nest[0] += 1
        nm = "nestedchunk%d" % _nest[0]
        real_chunk(v, "make", nm)
        return nm
    if quote:
        return '"%s"' % v
    return str(v)


def chunk_text(spec, quote=()):
    bits = []
    if spec["t"]:
        bits.append("isa %s" % spec["t"])
    for k, v in spec["s"].items():
        bits.append("%s %s" % (k, atom_text(v, k in quote)))
    return " ".join(bits)


def constraint_varval(c):
    return Varval(values=real_value(c["v"]) if isinstance(c.get("v"), dict) else (None if c.get("v") is None else str(c["v"])),
                  variables=c.get("x"),
                  negvalues=tuple(real_value(v) if isinstance(v, dict) else str(v) for v in c.get("nv", ())),
                  negvariables=tuple(c.get("nx", ())))


def constraint_marked(c):
    """Old style text: =x~=y!v~!w ; only for plain string values."""
    out = ""
    if c.get("x"):
        out += "=" + c["x"]
    for n in c.get("nx", ()):
        out += "~=" + n
    for n in c.get("nv", ()):
        out += "~!" + str(n)
    if c.get("v") is not None:
        out += "!" + str(c["v"]) if out else str(c["v"])
    return out


def constraint_text(slot, c):
    """String notation: one 'slot value' pair per constraint."""
    out = []
    if c.get("v") is not None:
        out.append("%s %s" % (slot, atom_text(c["v"])))
    if c.get("x"):
        out.append("%s =%s" % (slot, c["x"]))
    for v in c.get("nv", ()):
        out.append("%s ~%s" % (slot, atom_text(v)))
    for x in c.get("nx", ()):
        out.append("%s ~=%s" % (slot, x))
    return " ".join(out)


def has_chunk_value(c):
    return isinstance(c.get("v"), dict) or any(isinstance(v, dict) for v in c.get("nv", ()))


def pattern_text(p):
    bits = ["isa %s" % p["t"]] if p["t"] else []
    bits += [constraint_text(s, c) for s, c in p["s"].items() if constraint_text(s, c)]
    return " ".join(bits)


def real_pattern(p, route="varval"):
    if route == "varval":
        return Chunk(p["t"], **{s: constraint_varval(c) for s, c in p["s"].items()})
    if route == "make":
        return pyactr.makechunk("", p["t"], **{s: constraint_varval(c) for s, c in p["s"].items()})
    if route == "marked":
        return pyactr.makechunk("", p["t"], **{s: (constraint_varval(c) if has_chunk_value(c) else constraint_marked(c) or None)
                                               for s, c in p["s"].items()})
    if route == "string":
        return pyactr.chunkstring("z_pattern", pattern_text(p))
    raise HarnessError("route " + route)

# ------------------------------------------------------------------ reference matching


def ref_match(p, chunk, pos=None, neg=None):
    """p: pattern spec; chunk: dict slot -> canonical value (missing = None).

    pos: {var: canonical value}, neg: {var: set of canonical values}.
    Returns (ok, pos, neg)."""
    P = {x: {v} for x, v in (pos or {}).items()}
    N = {x: set(v) for x, v in (neg or {}).items()}
    ok = True
    for slot, c in p["s"].items():
        cv = chunk.get(slot)
        if "v" in c and c["v"] is not None and canon_value(c["v"]) != cv:
            ok = False
        if any(canon_value(n) == cv for n in c.get("nv", ())):
            ok = False
        if c.get("x"):
            P.setdefault(c["x"], set()).add(cv)
        for x in c.get("nx", ()):
            N.setdefault(x, set()).add(cv)
    for x in P:
        if len(P[x]) > 1 or P[x] & N.get(x, set()):
            ok = False
    if not ok:
        return False, None, None
    return True, {x: next(iter(v)) for x, v in P.items()}, N


def bindings_of(real):
    """Positive bindings of a real pattern after a match, canonical."""
    return {k[1:]: canon_value(v) for k, v in real.boundvars.items() if k.startswith("=")}

# ------------------------------------------------------------------ strategies

TYPES = ["t1", "t2", "t3"]
SLOTS = ["a", "b", "c", "dd", "e_f", "z9"]
ATOMS = ["p", "q", "r", "s"]
VARS = ["x", "y", "xy", "yx"]

atoms = st.sampled_from(ATOMS)
plain = st.one_of(atoms, atoms, atoms, st.sampled_from([1, 2, 10, 2.5, "7", "True", "None"]))


def values(depth=1, none=True):
    base = [plain, plain]
    if none:
        base.append(st.none())
    if depth > 0:
        base.append(chunk_specs(depth - 1, max_slots=3))
    return st.one_of(*base)


def chunk_specs(depth=1, max_slots=5, min_slots=1, slots=tuple(SLOTS), types=tuple(TYPES), vals=None):
    return st.builds(lambda t, d: {"t": t, "s": d}, st.sampled_from(list(types)),
                     st.dictionaries(st.sampled_from(list(slots)), vals or values(depth), min_size=min_slots, max_size=max_slots))


def _drop(d):
    return {k: v for k, v in d.items() if v not in (None, [], ())}


def constraints(depth=0, allow_none=True, vals=None):
    v = vals or values(depth, none=False)
    return st.builds(lambda **k: _drop(k),
                     v=st.one_of(st.none(), st.none(), v, *( [st.just("None")] if allow_none else [])),
                     x=st.one_of(st.none(), st.none(), st.sampled_from(VARS)),
                     nv=st.one_of(st.just([]), st.just([]), st.lists(v, max_size=3, unique_by=lambda q: repr(canon_value(q)))),
                     nx=st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(VARS), max_size=2, unique=True)))


def pattern_specs(depth=0, max_slots=4, min_slots=1, slots=tuple(SLOTS), types=tuple(TYPES), vals=None, allow_none=True):
    return st.builds(lambda t, d: {"t": t, "s": d}, st.sampled_from(list(types)),
                     st.dictionaries(st.sampled_from(list(slots)), constraints(depth, allow_none, vals), min_size=min_slots, max_size=max_slots))


def weighted(*pairs):
    """one_of with integer weights."""
    out = []
    for w, s in pairs:
        out += [s] * w
    return st.one_of(*out)

# ------------------------------------------------------------------ simulation


class Trace:
    def __init__(self):
        self.events = []      # (time, proc, action)
        self.ended = False    # ran out of events
        self.clock = []       # show_time at each event


def drive(sim, max_events=400, until=None, on_event=None):
    """Step through a simulation; returns a Trace."""
    tr = Trace()
    while len(tr.events) < max_events:
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            tr.ended = True
            break
        e = sim.current_event
        ev = (e.time, e.proc, e.action)
        if until is not None and e.time > until:
            break
        tr.events.append(ev)
        tr.clock.append(sim.show_time())
        if on_event is not None:
            if on_event(ev) is False:
                break
    return tr


def buf_chunk(buf):
    """The chunk in a buffer or None; complains when there is more than one."""
    xs = list(buf)
    need(len(xs) <= 1, "buffer holds %d chunks", len(xs))
    need(len(buf) == len(xs), "len of buffer is %s but it has %d chunks", len(buf), len(xs))
    return xs[0] if xs else None


def buf_canon(buf):
    c = buf_chunk(buf)
    return None if c is None else canon_chunk(c)


def dm_canon(dm):
    """dict canonical chunk -> list of times (checks one entry per content)."""
    out = {}
    for ch in dm:
        k = canon_chunk(ch)
        need(k not in out, "memory has two entries for the same chunk %s", show(k))
        out[k] = [float(t) for t in dm[ch]]
    return out


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def tclose(a, b, tol=1.01e-4):
    return abs(a - b) <= tol


def expect_error(fn, kinds, what):
    """fn must raise one of kinds."""
    try:
        fn()
    except kinds:
        return
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raise Violation("%s: expected %s, got %s: %s" % (what, [k.__name__ for k in (kinds if isinstance(kinds, tuple) else (kinds,))], type(e).__name__, e))
    raise Violation("%s: accepted without an error" % what)

# ------------------------------------------------------------------ models


def make_rule(name, lhs, rhs, utility=0, reward=None):
    """A production as a generator function; lhs/rhs are functions returning fresh dicts. The parameters of the function vary with its name: in either order, only those that are needed, or among others."""
    form = zlib.crc32(name.encode()) % 4
    if form == 0:
        def rule(utility=utility, reward=reward):
            yield lhs()
            yield rhs()
    elif form == 1:
        def rule(reward=reward, utility=utility):
            yield lhs()
            yield rhs()
    elif form == 2:
        def rule(first=1, utility=utility, second=2, reward=reward, third=3):
            yield lhs()
            yield rhs()
    elif reward is not None and utility:
        def rule(reward=reward, first=1, utility=utility, second=2):
            yield lhs()
            yield rhs()
    elif reward is not None:
        def rule(reward=reward):
            yield lhs()
            yield rhs()
    elif utility:
        def rule(utility=utility):
            yield lhs()
            yield rhs()
    else:
        def rule():
            yield lhs()
            yield rhs()
    rule.__name__ = name
    return rule


#documented default values of model parameters
DEFAULTS = {"subsymbolic": False, "rule_firing": 0.05, "latency_factor": 0.1, "latency_exponent": 1.0, "decay": 0.5, "baselevel_learning": True, "optimized_learning": False,
            "instantaneous_noise": 0, "retrieval_threshold": 0, "buffer_spreading_activation": {}, "spreading_activation_restricted": False, "strength_of_association": 0,
            "association_only_from_chunks": True, "partial_matching": False, "mismatch_penalty": 1, "activation_trace": False, "utility_noise": 0, "utility_learning": False,
            "utility_alpha": 0.2, "motor_prepared": False, "strict_harvesting": False, "production_compilation": False, "automatic_visual_search": True, "emma": True,
            "emma_noise": True, "emma_landing_site_noise": False, "eye_mvt_angle_parameter": 1, "eye_mvt_scaling_parameter": 0.01}


def new_model(environment=None, **params):
    if zlib.crc32(repr(sorted(params.items(), key=lambda x: x[0])).encode()) & 1:      # documented default values need not be given
        params = {k: v for k, v in params.items() if k not in DEFAULTS or DEFAULTS[k] != v}
    if environment is not None:
        return pyactr.ACTRModel(environment=environment, **params)
    return pyactr.ACTRModel(**params)


def new_sim(m, **kw):
    kw.setdefault("trace", False)
    kw.setdefault("gui", False)
    return m.simulation(**kw)


def request_once(m, request, start=None, extra=None, bind=None):
    """Give m one rule that fires once (goal 'go') and sends request to retrieval.

    request: function returning the request chunk; bind: pattern spec for the goal test."""
    goal = start or {"t": "go", "s": {"go": "yes"}}
    m.goal.add(real_chunk(goal))
    test = bind or {"t": "go", "s": {"go": {"v": "yes"}}}

    def lhs():
        return {"=g": real_pattern(test)}

    def rhs():
        d = {"=g": pyactr.makechunk("", "go", go="no"), "+retrieval": request()}
        if extra:
            d["?retrieval"] = dict(extra)
        return d
    m.set_productions(make_rule("ask", lhs, rhs))


def retrieval_outcome(tr):
    """(time, canonical text or None) of the first RETRIEVED event after START RETRIEVAL."""
    started = None
    for t, proc, act in tr.events:
        if act == "START RETRIEVAL" and started is None:
            started = t
        elif started is not None and act.startswith("RETRIEVED: "):
            return started, t, act[len("RETRIEVED: "):]
    return started, None, None
