"""Property-based testing engine of /verif.

A property module (pbt/props/cNN.py) exports SUBS, a list of Sub objects.  A Sub has a
Hypothesis strategy producing plain JSON-able cases and a check(case, ctx) that runs
/repo's pyactr on the case and compares with an oracle; it raises Violation when the
property does not hold.  run.py splits the subs into shards and runs every shard in its
own process (own PYTHONHASHSEED), everything derived from VERIF_SEED.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if REPO not in sys.path:
    sys.path.insert(0, REPO)
if SITE not in sys.path:
    sys.path.append(SITE)

warnings.simplefilter("ignore")

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings, strategies as st  # noqa: E402,F401
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

_engine.MAX_SHRINKING_SECONDS = 45

import numpy as np  # noqa: E402
import simpy  # noqa: E402
import pyactr  # noqa: E402
from pyactr import chunks as _chunks  # noqa: E402

if not os.path.realpath(pyactr.__file__).startswith(REPO + "/"):
    print("harness error: pyactr imported from", pyactr.__file__)
    sys.exit(2)

ACTRError = pyactr.utilities.ACTRError


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """Something in the machinery itself is wrong."""


class HangSuspect(BaseException):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# ------------------------------------------------------------------ global state

_CLS = _chunks.Chunk
_SNAP = {}


def _mutable_class_attrs():
    for k, v in vars(_CLS).items():
        if isinstance(v, dict) or (isinstance(v, int) and not isinstance(v, bool)):
            yield k, v


for _k, _v in list(_mutable_class_attrs()):
    _SNAP[_k] = dict(_v) if isinstance(_v, dict) else _v
_PARAMS = pyactr.ACTRModel.MODEL_PARAMETERS
_SNAP_PARAMS = {k: (dict(v) if isinstance(v, dict) else v) for k, v in _PARAMS.items()}


def reset_globals(seed=0):
    """Bring module-level state of pyactr back to what it was after import."""
    for k, v in list(_mutable_class_attrs()):
        if k in _SNAP:
            s = _SNAP[k]
            setattr(_CLS, k, dict(s) if isinstance(s, dict) else s)
    _PARAMS.clear()
    _PARAMS.update({k: (dict(v) if isinstance(v, dict) else v) for k, v in _SNAP_PARAMS.items()})
    np.random.seed(seed % (2**32))
    random.seed(seed)


# ------------------------------------------------------------------ context

class Ctx:
    """What a check reports about the current case."""

    def __init__(self, findings=()):
        self.labels = []
        self.nontriv = False
        self.excluded_by = None
        self.findings = findings  # ids of open known findings: their input class is skipped

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        self.nontriv = self.nontriv or bool(cond)

    def exclude(self, kf, cond=True):
        """True when the case belongs to the class of open known finding kf."""
        if cond and kf in self.findings:
            self.excluded_by = kf
            return True
        return False


class Sub:
    """strategy: a Hypothesis strategy, or a function of a random.Random giving a case.

    Cases of the second kind are shrunk with shrink(case), which yields smaller candidates."""

    def __init__(self, name, strategy, check, quick, thorough, rule, shards=2, shrink=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards
        self.shrink = shrink or shrink_json


def canon_json(case):
    """One text for equal values, whatever the order of their keys."""
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def case_json(case):
    """The text of a case: the order of keys is part of it (notation order of rule sections and slots)."""
    return json.dumps(case, ensure_ascii=True)


def case_seed(case):
    return int.from_bytes(hashlib.sha256(canon_json(case).encode()).digest()[:4], "big")


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    old = sys.stdout
    sys.stdout = buf
    try:
        yield buf
    finally:
        sys.stdout = old


def _repo_frame(tb):
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + "/"):
            return fr
    return None


ALARM_S = 40
LINE_BUDGET = 6_000_000


def _alarm(signum, frame):
    raise HangSuspect()


def _traced(fn):
    """Run fn under a line budget; True if the budget was exceeded."""
    n = [0]

    class Over(BaseException):
        pass

    def tracer(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] > LINE_BUDGET:
                raise Over()
        return tracer
    sys.settrace(tracer)
    try:
        fn()
    except Over:
        return True
    except Exception:
        return False
    finally:
        sys.settrace(None)
    return False


def evaluate(sub, case, findings):
    """Run one case. Returns (ctx, None) or (ctx, message); raises HarnessError."""
    ctx = Ctx(findings)
    # replay exactly what is saved: through JSON
    case = json.loads(case_json(case))

    def go(c):
        reset_globals(case_seed(case))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with quiet():
                sub.check(case, c)

    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(ALARM_S)
    try:
        go(ctx)
        return ctx, None
    except HangSuspect:
        signal.alarm(0)
        if _traced(lambda: go(Ctx(findings))):
            return ctx, "HANG: the operation does not terminate (more than %d lines executed)" % LINE_BUDGET
        raise HarnessError("case slow but terminating: %s" % case_json(case)[:500])
    except Violation as e:
        return ctx, str(e)
    except (HarnessError, hypothesis.errors.HypothesisException):
        raise
    except Exception as e:
        root = e        # simpy raises a failed process's exception anew, with the original as its cause
        while type(root.__cause__) is type(e) and root.__cause__.__traceback__ is not None:
            root = root.__cause__
        fr = _repo_frame(root.__traceback__)
        last = traceback.extract_tb(root.__traceback__)[-1]
        where = "%s:%s in %s" % (os.path.relpath(last.filename, REPO) if last.filename.startswith(REPO) else last.filename, last.lineno, last.name)
        if fr is None:
            if isinstance(e, (ImportError, NameError, SyntaxError)) and last.filename.startswith(VERIF):
                raise HarnessError("".join(traceback.format_exception(e)))
            return ctx, "observing the result failed: %s: %s (%s)" % (type(e).__name__, e, where)
        return ctx, "unexpected exception %s: %s (%s)" % (type(e).__name__, e, where)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


# ------------------------------------------------------------------ worker

def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "big")


class _Stop(BaseException):
    pass


def shrink_json(x):
    """Smaller variants of a JSON value: elements dropped from lists, then changes inside."""
    if isinstance(x, list):
        n = len(x)
        k = n // 2 if len({type(y) for y in x}) == 1 else 0     # lists of mixed types are records
        while k >= 1:
            for i in range(0, n, k):
                yield x[:i] + x[i + k:]
            k //= 2
        for i, y in enumerate(x):
            for z in shrink_json(y):
                yield x[:i] + [z] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            for z in shrink_json(x[k]):
                yield {**x, k: z}


def msg_class(msg):
    """Failure messages that differ only in numbers and quoted content count as the same failure."""
    if msg.startswith(("observing", "unexpected")):
        return msg[-60:]
    return re.sub(r"[^A-Za-z ]+", "#", msg)[:24]


def run_shard_gen(cid, sub, shard, n, seed, findings, body, state, res):
    rng = random.Random(derive(seed, cid, sub.name, shard))
    for _ in range(n):
        case = sub.strategy(random.Random(rng.getrandbits(64)))
        try:
            body(case)
        except Violation:
            break
    if state["fail"] is None:
        return
    case, msg = state["fail"]
    cls = msg_class(msg)
    deadline = time.time() + _engine.MAX_SHRINKING_SECONDS
    progress, tried = True, set()
    while progress and time.time() < deadline:
        progress = False
        for cand in sub.shrink(case):
            if time.time() > deadline:
                break
            cj = case_json(cand)
            if cj in tried:
                continue
            tried.add(cj)
            try:
                ctx, m = evaluate(sub, cand, findings)
            except HarnessError:
                continue
            if m is not None and not ctx.excluded_by and msg_class(m) == cls:
                case, msg = json.loads(cj), m
                progress = True
                break
    # must fail again, alone
    try:
        ctx, m = evaluate(sub, case, findings)
    except HarnessError:
        m = None
    if m is None:
        case, msg = state["first"]
        res["violation"] = {"case": case, "message": msg + " [does not reproduce in isolation: depends on earlier cases of the shard]", "shard_replay": True}
    else:
        res["violation"] = {"case": case, "message": m}


def run_shard(cid, sub, shard, n, seed, findings, deadline=None):
    """Generate n cases; returns a result dict."""
    res = {"sub": sub.name, "shard": shard, "evaluations": 0, "excluded": 0, "labels": {},
           "nontrivial": [], "samples": [], "violation": None, "error": None}
    seen = set()
    state = {"fail": None, "first": None, "log": []}

    def body(case):
        if state["fail"] is None:
            res["evaluations"] += 1
        ctx, msg = evaluate(sub, case, findings)
        if ctx.excluded_by:
            res["excluded"] += 1
            return
        if state["fail"] is None:
            for l in set(ctx.labels):
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if ctx.nontriv:
                cj = case_json(case)
                h = hashlib.sha256(cj.encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(res["samples"]) < 2 or (len(res["samples"]) < 4 and res["evaluations"] % 97 == 0):
                        if len(cj) < 3000:
                            res["samples"].append(json.loads(cj))
        if msg is not None:
            if state["first"] is None:
                state["first"] = (json.loads(case_json(case)), msg)
            state["fail"] = (json.loads(case_json(case)), msg)
            if msg.startswith("HANG"):
                raise _Stop()
            raise Violation(msg)

    if not isinstance(sub.strategy, st.SearchStrategy):
        try:
            run_shard_gen(cid, sub, shard, n, seed, findings, body, state, res)
        except _Stop:
            case, msg = state["fail"]
            res["violation"] = {"case": case, "message": msg}
        except HarnessError as e:
            res["error"] = str(e)
        except Exception as e:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
        res["nontrivial"] = sorted(seen)
        return res
    test = given(sub.strategy)(body)
    test = settings(max_examples=n, deadline=None, database=None, print_blob=False,
                    report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(derive(seed, cid, sub.name, shard))(test)
    try:
        with open(os.devnull, "w") as dn, contextlib.redirect_stderr(dn):
            test()
    except Violation:
        case, msg = state["fail"]
        res["violation"] = {"case": case, "message": msg}
    except _Stop:
        case, msg = state["fail"]
        res["violation"] = {"case": case, "message": msg}
    except hypothesis.errors.Flaky:
        case, msg = state["first"]
        res["violation"] = {"case": case, "message": msg + " [does not reproduce in isolation: depends on earlier cases of the shard]",
                            "shard_replay": True}
    except HarnessError as e:
        res["error"] = str(e)
    except BaseException as e:  # hypothesis internals, generator errors
        if state["fail"] is not None and isinstance(e, BaseExceptionGroup):
            case, msg = state["first"]
            res["violation"] = {"case": case, "message": msg, "shard_replay": True}
        else:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    res["nontrivial"] = sorted(seen)
    return res
