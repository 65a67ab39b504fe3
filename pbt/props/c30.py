"""C30 Noise is centred, scaled as configured, and absent at zero."""
import math

from ..core import Sub, need, reset_globals, case_seed, Violation
from ..lib import *
from .. import worlds as W

SURE = 1e-9      # probability of a false alarm that every single test is allowed


def ks_bound(n):
    """The empirical distribution of n draws is off by more than this with a probability of at most SURE (DKW inequality)."""
    return math.sqrt(math.log(2 / SURE) / (2 * n))


def ks(xs, cdf):
    xs = sorted(xs)
    n = len(xs)
    return max(max(cdf(x) - i / n, (i + 1) / n - cdf(x)) for i, x in enumerate(xs))


def logistic_cdf(x, s):
    z = x / s
    return 1 / (1 + math.exp(-z)) if z > 0 else math.exp(z) / (1 + math.exp(z))


def gamma9_cdf(x, mean):
    """shape 9"""
    if x <= 0:
        return 0
    z = 9 * x / mean
    term, total = 1.0, 1.0
    for k in range(1, 9):
        term *= z / k
        total += term
    return 1 - math.exp(-z) * total


def need_dist(xs, cdf, what, missing=0):
    d = ks(xs, cdf)
    need(d <= ks_bound(len(xs)) + missing, "%s: %d draws differ from the expected distribution by %.3f (allowed %.3f); their mean is %s and standard deviation %s", what, len(xs), d, ks_bound(len(xs)) + missing, np.mean(xs), np.std(xs))


def need_freq(k, n, p, what):
    """k of n, each with probability p"""
    q, p = k / n, min(max(p, 1e-12), 1 - 1e-12)
    kl = (q * math.log(q / p) if q else 0) + ((1 - q) * math.log((1 - q) / (1 - p)) if q < 1 else 0)
    need(n * kl <= math.log(2 / SURE), "%s: %d of %d, the expected probability is %.4f", what, k, n, p)


def win_probabilities(means, s):
    """P(i has the highest sum of mean and logistic noise)"""
    grid = np.linspace(min(means) - 40 * s, max(means) + 40 * s, 200001)
    def cdf(m):
        return 1 / (1 + np.exp(-np.clip((grid - m) / s, -700, 700)))
    cdfs = [cdf(m) for m in means]
    out = []
    for i, c in enumerate(cdfs):
        others = np.prod([x for j, x in enumerate(cdfs) if j != i], axis=0) if len(means) > 1 else np.ones_like(grid)
        out.append(float(np.sum(np.diff(c) * (others[1:] + others[:-1]) / 2)))
    return out


def requests(m, n, pattern):
    """Loop of a rule that requests pattern; [(chunk retrieved or None, latency)]"""
    m.set_productions(make_rule("ask", lambda: {"=g": Chunk("go", s="k0"), "?retrieval": {"state": "free"}}, lambda: {"=g": Chunk("go", s="k0"), "+retrieval": real_pattern(pattern)}),
                      make_rule("again", lambda: {"=g": Chunk("go", s="k0"), "?retrieval": {"state": "error"}}, lambda: {"=g": Chunk("go", s="k0"), "+retrieval": real_pattern(pattern)}))
    sim = new_sim(m)
    out, start = [], None
    while len(out) < n:
        sim.step()
        e = sim.current_event
        if e.action == "START RETRIEVAL":
            start = e.time
        elif e.action.startswith("RETRIEVED: "):
            out.append((e.action[11:] if e.action != "RETRIEVED: None" else None, e.time - start))
    return out


# ------------------------------------------------------------------ activation noise

def gen_activation(rng):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    return {"s": rng.choice([.1, .25, .5, 1, 1.7]), "acts": [rng.choice([-1, 0, 0, .3, .7, 1, 2]) for _ in range(n)], "f": rng.choice([1, 1, .5]), "F": rng.choice([100, 1000]), "cut": rng.choice([None, None, 0, .5, 1]),
            "own": rng.random() < .3, "u": rng.choice([0, 2])}


def model_of(case):
    pyactr.chunktype("go", "s")
    pyactr.chunktype("fct", "k l")
    own = {"instantaneous_noise": case["s"]}
    m = new_model(subsymbolic=True, baselevel_learning=False, latency_factor=case["F"], latency_exponent=case["f"], retrieval_threshold=-1e6 if case["cut"] is None else case["cut"], utility_noise=case["u"], **({} if case["own"] else own))
    if case["own"]:
        m.retrieval.model_parameters = own
    m.goals["g"].add(Chunk("go", s="k0"))
    for i, a in enumerate(case["acts"]):
        c = Chunk("fct", k="v", l="v%d" % i)
        m.decmem.add(c, -5)
        m.decmem.activations.update({c: a})
    return m


def check_activation(case, ctx):
    np.random.seed(case_seed(case))
    m = model_of(case)
    n = 500
    means = [math.log(1 + math.exp(a)) for a in case["acts"]]
    got = requests(m, n, {"t": "fct", "s": {"k": {"v": "v"}}})
    names = [next((i for i in range(len(means)) if r and "l= v%d" % i in r), None) for r, _ in got]
    s, th = case["s"], case["cut"]
    what = "activations %s, noise %s" % (means, s)
    if th is not None:
        fail = math.prod(logistic_cdf(th - a, s) for a in means)
        need_freq(names.count(None), n, fail, what + ": retrievals fail below threshold %s" % th)
        # failures take F*e^(-f*threshold)
        need(all(close(t, case["F"] * math.exp(-case["f"] * th), 2e-6) or abs(t - case["F"] * math.exp(-case["f"] * th)) < 2e-4 for (r, t) in got if r is None), "a failed retrieval does not take the time of the threshold")
    else:
        need(None not in names, "a retrieval fails")
        for i, p in enumerate(win_probabilities(means, s)):
            if len(means) > 1:
                need_freq(names.count(i), n, p, what + ": retrievals of chunk %d" % i)
        if len(means) > 1:
            p = sum(x * x for x in win_probabilities(means, s))
            need_freq(sum(a == b for a, b in zip(names, names[1:])), n - 1, p, what + ": same chunk twice in a row")
        # the highest activation determines the time
        tops = [-math.log(t / case["F"]) / case["f"] for _, t in got if t > 0]
        need_dist(tops, lambda x: math.prod(logistic_cdf(x - a, s) for a in means), what + ": highest activation")
        ups = sum(b > a for a, b in zip(tops[::2], tops[1::2]))
        need_freq(ups, len(tops) // 2, .5, what + ": later activation is higher")
    ctx.label("%d chunks" % len(means), "threshold" if th is not None else "no threshold", *(["own parameters"] if case["own"] else []))
    ctx.nontrivial()


# ------------------------------------------------------------------ shape

def gen_shape(rng):
    return {"s": rng.choice([.1, .25, .5, 1, 1.7]), "act": rng.choice([-1, 0, .7, 2])}


def log_logistic(x, s):
    z = np.abs(x) / s
    return -z - np.log(s) - 2 * np.log1p(np.exp(-z))


def check_shape(case, ctx):
    """Many draws; no other distribution may explain them better, by so much that logistic noise would do so with a probability of at most SURE."""
    np.random.seed(case_seed(case))
    s, n = case["s"], 5000
    pyactr.chunktype("fct", "k")
    c = Chunk("fct", k="v")
    dm = pyactr.declarative.DecMem({c: -5})
    dm.add_activation(c, case["act"])
    buf = pyactr.declarative.DecMemBuffer(dm)
    par = {**new_model(subsymbolic=True, baselevel_learning=False, instantaneous_noise=s, retrieval_threshold=-1e6, latency_factor=1e3).model_parameters}
    base = math.log(1 + math.exp(case["act"]))
    xs = []
    for _ in range(n):
        got, t = buf.retrieve(0, Chunk("fct", k="v"), {}, {}, {}, par)
        need(got == c, "the retrieval fails")
        xs.append(-math.log(t / 1e3) - base)
    xs = np.array(xs)
    need_dist(list(xs), lambda x: logistic_cdf(x, s), "activation noise %s" % s)
    ll = float(np.sum(log_logistic(xs, s)))
    sd = s * math.pi / math.sqrt(3)
    rivals = {"normal": float(np.sum(-.5 * (xs / sd) ** 2 - math.log(sd * math.sqrt(2 * math.pi)))),
              "Laplace": float(np.sum(-np.abs(xs) / (sd / math.sqrt(2)) - math.log(2 * sd / math.sqrt(2)))),
              "uniform": float(n * -math.log(2 * sd * math.sqrt(3))) if np.max(np.abs(xs)) <= sd * math.sqrt(3) else -math.inf,
              **{"logistic with scale %s times as high" % f: float(np.sum(log_logistic(xs, s * f))) for f in (.9, 1.1)},
              **{"logistic with mean %s" % d: float(np.sum(log_logistic(xs - d * s, s))) for d in (-.15, .15)}}
    for name, other in rivals.items():     # P(likelihood ratio >= 1/SURE) <= SURE under the expected distribution
        need(other - ll < math.log(1 / SURE), "activation noise %s: the %d draws are by a factor of e^%.0f more likely %s", s, n, other - ll, name)
    ctx.nontrivial()


# ------------------------------------------------------------------ utility noise

def gen_utility(rng):
    n = rng.choice([2, 2, 3, 4])
    return {"s": rng.choice([.001, .1, .25, .5, 1, 3]), "utils": [rng.choice([0, 0, .2, .5, 1, 2]) for _ in range(n)], "holds": [rng.random() < .85 for _ in range(n)], "act": rng.choice([0, 1])}


def check_utility(case, ctx):
    np.random.seed(case_seed(case))
    pyactr.chunktype("go", "s")
    m = new_model(subsymbolic=True, utility_noise=case["s"], instantaneous_noise=case["act"])
    m.goals["g"].add(Chunk("go", s="k0"))
    holds = [i for i, h in enumerate(case["holds"]) if h]
    m.set_productions(*[make_rule("r%d" % i, lambda h=h: {"=g": Chunk("go", s="k0" if h else "k1")}, lambda: {"=g": Chunk("go", s="k0")}, utility=u) for i, (u, h) in enumerate(zip(case["utils"], case["holds"]))])
    sim = new_sim(m)
    n = 700
    got = []
    while len(got) < n:
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            break
        if sim.current_event.action.startswith("RULE SELECTED: "):
            got.append(int(sim.current_event.action[16:]))
    need(len(got) == (n if holds else 0), "%d rules are selected, those that hold are %s", len(got), holds)
    if not holds:
        return
    what = "utilities %s, noise %s" % ([case["utils"][i] for i in holds], case["s"])
    ps = win_probabilities([case["utils"][i] for i in holds], case["s"])
    for i, p in zip(holds, ps):
        if len(holds) > 1:
            need_freq(got.count(i), n, p, what + ": selections of rule %d" % i)
    if len(holds) > 1:
        need_freq(sum(a == b for a, b in zip(got, got[1:])), n - 1, sum(p * p for p in ps), what + ": same rule twice in a row")
    need([m.productions["r%d" % i]["utility"] for i in range(len(case["utils"]))] == case["utils"], "noise changes utilities")
    ctx.label("%d rules" % len(holds))
    ctx.nontrivial(len(holds) > 1)


# ------------------------------------------------------------------ eye movements

def gen_eye(rng):
    a, b = [rng.randint(20, 300), rng.randint(20, 340)], [rng.randint(340, 620), rng.randint(20, 340)]
    if rng.random() < .4:
        b = [a[0] + rng.randint(2, 12), a[1] + rng.randint(-8, 8)]      # about one degree
    return {"pos": [a, b], "delay": rng.choice([0, .5, 1, 2]), "k": rng.choice([1, .5]), "landing": rng.random() < .3}


def check_eye(case, ctx):
    np.random.seed(case_seed(case))
    pyactr.chunktype("go", "s loc0 loc1")
    env = pyactr.Environment(focus_position=tuple(case["pos"][1]))
    m = new_model(env, automatic_visual_search=False, emma_landing_site_noise=case["landing"], eye_mvt_angle_parameter=case["k"])
    m.goals["g"].add(Chunk("go", s="k0", **{"loc%d" % i: Chunk("_visuallocation", screen_x=p[0], screen_y=p[1]) for i, p in enumerate(case["pos"])}))
    m.set_productions(*[make_rule("r%d" % i, lambda i=i: {"=g": real_pattern({"t": "go", "s": {"s": {"v": "k%d" % i}, "loc%d" % i: {"x": "l"}}}), "?visual": {"processor": "free", "state": "free", "execution": "free"}},
                                  lambda i=i: {"=g": Chunk("go", s="k%d" % (1 - i)), "+visual": real_pattern({"t": "_visual", "s": {"cmd": {"v": "move_attention"}, "screen_pos": {"x": "l"}}})}) for i in (0, 1)])
    stim = {"st%d" % i: {"text": "ab"[i], "position": tuple(p), **({"vis_delay": case["delay"]} if case["delay"] else {})} for i, p in enumerate(case["pos"])}
    sim = new_sim(m, environment_process=env.environment_process, stimuli=[stim], triggers="X", times=1e5)
    n = 250
    seen = {"enc": [], "prep": [], "exec": []}
    t0 = prep = None
    landed = []
    for _ in range(30 * n):
        sim.step()
        e = sim.current_event
        if e.action.startswith("RULE FIRED"):
            t0, prep = e.time, None
        elif e.proc == "visual" and e.action.endswith("ATTENTION COMPLETED"):
            prep = e.time
            seen["prep"].append(e.time - t0)
        elif e.proc == "visual" and e.action.startswith("ENCODED"):
            if prep is None:
                seen["enc"].append(e.time - t0)
        elif e.proc == "visual" and e.action.startswith("SHIFT COMPLETE"):
            seen["exec"].append(e.time - prep)
            target = case["pos"][(len(seen["exec"]) - 1) % 2]
            eye = env.current_focus
            if case["landing"]:
                landed.append([int(float(x) >= t) for x, t in zip(eye, target)] + [list(eye) != list(target)])
            else:
                need(list(eye) == list(target), "the eyes move to %s instead of %s", eye, target)
        if len(seen["exec"]) >= n:
            break
    need(len(seen["exec"]) == n, "only %d eye movements: %s", len(seen["exec"]), {k: len(v) for k, v in seen.items()})
    # noiseless values
    angle = visual_angle(env, *case["pos"])
    if landed:
        for i in (0, 1):
            need_freq(sum(x[i] for x in landed), n, .5, "eyes land not before the target (%s)" % "xy"[i])
        need_freq(sum(x[0] == x[1] for x in landed), n, .5, "eyes land on the same side in both directions")
        need(any(x[2] for x in landed), "the landing site has no noise")
        return ctx.nontrivial()
    means = {"prep": .135, "exec": .07 + .002 * math.degrees(angle)}
    enc = .01 * case["delay"] * math.exp(case["k"] * angle)
    if case["delay"]:
        means["enc"] = enc
        need(len(seen["enc"]) >= .95 * n, "only %d of %d objects are encoded before the eyes move, which is expected at %s", len(seen["enc"]), n, enc)
    else:
        need(all(t == 0 for t in seen["enc"]) and len(seen["enc"]) >= n, "encoding takes time without a delay: %s", sorted(seen["enc"])[-3:])
    for k, mean in means.items():
        need_dist([t + np.random.uniform(-5e-5, 5e-5) for t in seen[k]], lambda x: gamma9_cdf(x, mean), "duration of %s, expected mean %s" % (k, mean), max(0, 1 - len(seen[k]) / n))
        xs = seen[k]
        need_freq(sum(b > a for a, b in zip(xs[::2], xs[1::2]) if a != b), sum(a != b for a, b in zip(xs[::2], xs[1::2])), .5, "later %s is longer" % k)
    need_freq(sum((a > means["prep"]) == (b > means["exec"]) for a, b in zip(seen["prep"], seen["exec"])), n, (lambda p, q: p * q + (1 - p) * (1 - q))(1 - gamma9_cdf(1, 1), 1 - gamma9_cdf(1, 1)), "preparation and execution are long together")
    ctx.label("delay" if case["delay"] else "no delay")
    ctx.nontrivial()


def visual_angle(env, a, b):
    """Angle between two points on the screen, in radians."""
    w, h = env.size
    sw, sh = env.simulated_screen_size
    return math.atan2(math.dist(((a[0]) * sw / w, a[1] * sh / h), (b[0] * sw / w, b[1] * sh / h)), env.viewing_distance)


# ------------------------------------------------------------------ no noise

def gen_zero(rng):
    spec = W.gen_world(rng, utils=[0, 0, 1, 2])
    spec["start"] = 0
    inert = rng.random() < .5
    spec["params"].update(emma_noise=False, instantaneous_noise=0, utility_noise=0, emma_landing_site_noise=False)
    if inert:
        spec["params"].pop("subsymbolic", None)
    return {"model": spec, "inert": inert, "seeds": [rng.randint(0, 999), rng.randint(1000, 9999)], "noise": [rng.choice([0, .3, 5]), rng.choice([0, .3, 5])]}


def check_zero(case, ctx):
    spec = case["model"]
    reset_globals(1)
    a = W.observe(spec, case["seeds"][0])
    reset_globals(1)
    other = spec
    if case["inert"]:       # without subsymbolic processing there is nothing noise could change; without vision eye movements have no noise
        other = {**spec, "params": {**spec["params"], "instantaneous_noise": case["noise"][0], "utility_noise": case["noise"][1], "emma_noise": not spec["env"]}}
    b = W.observe(other, case["seeds"][1])
    need(a[0] == b[0], "two runs differ in %s", [(x, y) for x, y in zip(a[0], b[0]) if x != y][:1] or "length")
    need(a[1:] == b[1:], "two runs end in %s and %s", a[1:], b[1:])
    ctx.label("inert noise" if case["inert"] else "no noise")
    ctx.nontrivial(any(e[2].startswith("RULE FIRED") for e in a[0]))


# ------------------------------------------------------------------ negative noise

def gen_negative(rng):
    return {"s": -rng.choice([.001, .5, 1, 3]), "kind": rng.choice(["activation", "own", "utility"])}


def check_negative(case, ctx):
    pyactr.chunktype("go", "s")
    pyactr.chunktype("fct", "k")
    kw = {"utility_noise": case["s"]} if case["kind"] == "utility" else {"instantaneous_noise": case["s"]} if case["kind"] == "activation" else {}
    m = new_model(subsymbolic=True, **kw)
    if case["kind"] == "own":
        m.retrieval.model_parameters = {"instantaneous_noise": case["s"]}
    m.decmem.add(Chunk("fct", k="v"), -1)
    m.goals["g"].add(Chunk("go", s="k0"))
    m.set_productions(make_rule("ask", lambda: {"=g": Chunk("go", s="k0")}, lambda: {"=g": Chunk("go", s="k1"), "+retrieval": Chunk("fct", k="v")}))
    sim = new_sim(m)
    try:
        tr = drive(sim, 30)
    except Exception:
        ctx.nontrivial()
        return
    raise Violation("negative noise %s (%s) is accepted: %s" % (case["s"], case["kind"], tr.events[-3:]))


SUBS = [
    Sub("activation", gen_activation, check_activation, 64, 1500,
        "500 noisy retrievals from one to four chunks; latencies, frequencies of the chunks and of failures, and independence of successive draws are tested against logistic noise; every test has a false-alarm probability below 1e-9", shards=8),
    Sub("shape", gen_shape, check_shape, 8, 200, "5000 noisy retrievals of one chunk; Kolmogorov-Smirnov test, and likelihood-ratio tests against other distributions of the same mean and variance and against slightly shifted or scaled ones", shards=8),
    Sub("utility", gen_utility, check_utility, 64, 1500, "700 conflict resolutions with noisy utilities; frequencies and independence of selections tested against logistic noise; non-trivial: at least two rules compete", shards=8),
    Sub("eye", gen_eye, check_eye, 32, 800, "250 eye movements between two objects; durations of preparation, execution and encoding tested against gamma distributions with the noiseless means; landing sites with noise tested to be centred on the target, and without it to be the target", shards=8),
    Sub("zero", gen_zero, check_zero, 300, 10000, "random models without noise, or with noise where nothing is noised, run with two seeds; non-trivial: a rule fires", shards=4, shrink=W.shrink_field("model")),
    Sub("negative", gen_negative, check_negative, 30, 200, "negative noise parameters have to be rejected when noise is drawn", shards=1),
]
