#!/opt/venv/bin/python
"""Run the check of one property.

  run.py C01 [--tier quick|thorough] [--replay FILE] [--sub NAME] [--scale X]

Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; exit 2: error.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def load_findings(cid):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        allf = json.load(f)["findings"]
    return [x for x in allf if x["property"] == cid]


def child_env(hashseed, scratch):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    return env


def worker(args):
    sys.path.insert(0, HERE)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    job = json.loads(args.worker)
    from pbt import core
    import importlib
    mod = importlib.import_module("pbt.props." + job["cid"].lower())
    sub = {s.name: s for s in mod.SUBS}[job["sub"]]
    if "case" in job:
        try:
            ctx, msg = core.evaluate(sub, job["case"], ())
            out = {"message": msg, "labels": ctx.labels}
        except core.HarnessError as e:
            out = {"error": str(e)}
    else:
        out = core.run_shard(job["cid"], sub, job["shard"], job["n"], job["seed"], job["findings"])
    with open(job["out"], "w") as f:
        json.dump(out, f)


def run_job(job, hashseed, scratch, timeout):
    fd, out = tempfile.mkstemp(dir=scratch, suffix=".json")
    os.close(fd)
    os.unlink(out)
    job = dict(job, out=out)
    try:
        p = subprocess.run([PY, os.path.join(HERE, "run.py"), job["cid"], "--worker", json.dumps(job)],
                           env=child_env(hashseed, scratch), cwd=HERE, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"error": "worker timed out after %ds: %s" % (timeout, {k: job[k] for k in job if k != "case"})}
    if not os.path.exists(out):
        return {"error": "worker died rc=%s: %s" % (p.returncode, (p.stdout + p.stderr)[-3000:])}
    with open(out) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--worker")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    if args.worker:
        return worker(args)
    cid, tier = args.cid, ("thorough" if args.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, HERE)
    scratch = tempfile.mkdtemp(prefix="pbt_")
    try:
        return check(args, cid, tier, seed, t0, scratch)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


def list_subs(cid, scratch):
    code = ("import sys,json;sys.path.insert(0,%r);from pbt import core;import importlib;"
            "m=importlib.import_module('pbt.props.%s');"
            "print('@@'+json.dumps([[s.name,s.quick,s.thorough,s.rule,s.shards] for s in m.SUBS]))" % (HERE, cid.lower()))
    p = subprocess.run([PY, "-c", code], env=child_env(0, scratch), cwd=HERE, capture_output=True, text=True)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    return (p.stdout + p.stderr)[-4000:]


def import_broken(scratch):
    """pyactr itself does not import or build its basic objects."""
    code = "import sys;sys.path.insert(0,'/repo');import pyactr;pyactr.ACTRModel()"
    p = subprocess.run([PY, "-c", code], env=child_env(0, scratch), cwd="/", capture_output=True, text=True)
    return p.returncode != 0


def check(args, cid, tier, seed, t0, scratch):
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        if r.get("shard_replay"):
            out = run_job({"cid": cid, "sub": r["sub"], "shard": r["shard"], "n": r["n"], "seed": r["seed"],
                           "findings": r["findings"]}, r["hashseed"], scratch, 800)
            bad = out.get("violation") and out["violation"]["message"]
        else:
            out = run_job({"cid": cid, "sub": r["sub"], "case": r["case"]}, r["hashseed"], scratch, 300)
            bad = out.get("message")
        if out.get("error"):
            print("harness error:", out["error"])
            return 2
        if bad:
            print("replay fails:", bad)
            print("VIOLATION property=%s replay=%s" % (cid, args.replay))
            return 1
        print("replay passes")
        return 0

    subs = list_subs(cid, scratch)
    if isinstance(subs, str):
        if import_broken(scratch):
            path = os.path.join(replays, cid + "-import.json")
            with open(path, "w") as f:
                json.dump({"property": cid, "import": True, "output": subs}, f)
            print("pyactr cannot be imported:\n" + subs)
            print("VIOLATION property=%s replay=%s" % (cid, path))
            return 1
        print("harness error:\n" + subs)
        return 2
    findings = load_findings(cid)
    open_ids = [x["id"] for x in findings if x["status"] == "open"]

    from concurrent.futures import as_completed
    import hashlib
    jobs = []
    for name, quick, thorough, rule, shards in subs:
        if args.sub and name != args.sub:
            continue
        n = int((thorough if tier == "thorough" else quick) * args.scale)
        k = max(1, min(shards if tier == "quick" else 8, n))
        for sh in range(k):
            hs = int.from_bytes(hashlib.sha256(repr((seed, cid, name, sh)).encode()).digest()[:4], "big")
            jobs.append(({"cid": cid, "sub": name, "shard": sh, "n": max(1, n // k), "seed": seed, "findings": open_ids}, hs))
    kf_jobs = [(x, {"cid": cid, "sub": x["sub"], "case": x["case"]}, x.get("hashseed", 0)) for x in findings if "case" in x]
    timeout = 840 if tier == "quick" else 6 * 3600
    ncpu = int(os.environ.get("PBT_JOBS", "8"))
    with ThreadPoolExecutor(ncpu) as ex:
        kf_f = [(x, ex.submit(run_job, j, hs, scratch, 200)) for x, j, hs in kf_jobs]
        futs = [(j, hs, ex.submit(run_job, j, hs, scratch, timeout)) for j, hs in jobs]
        kf_r = [(x, f.result()) for x, f in kf_f]
        results = [(j, hs, f.result()) for j, hs, f in futs]

    rc, errors, viol = 0, [], []
    for x, r in kf_r:
        if r.get("error"):
            errors.append(r["error"])
        elif x["status"] == "open":
            if r["message"]:
                print("KNOWN-FINDING: property=%s %s: %s" % (cid, x["id"], x["what"]))
            else:
                print("note: known finding %s no longer fails" % x["id"])
        elif r["message"]:   # a repaired defect is back
            viol.append((x["sub"], x.get("hashseed", 0), {"case": x["case"], "message": "[%s returned] %s" % (x["id"], r["message"])}, None))
    ev, excl, labels, nontriv, samples = 0, 0, {}, set(), []
    per_sub = {}
    for j, hs, r in results:
        if r.get("error"):
            errors.append("%s/%s: %s" % (j["sub"], j["shard"], r["error"]))
            continue
        ev += r["evaluations"]
        excl += r["excluded"]
        ps = per_sub.setdefault(j["sub"], {"evaluations": 0, "nontrivial": 0, "labels": {}})
        ps["evaluations"] += r["evaluations"]
        new = set("%s:%s" % (j["sub"], h) for h in r["nontrivial"])
        ps["nontrivial"] += len(new - nontriv)
        nontriv |= new
        for l, c in r["labels"].items():
            ps["labels"][l] = ps["labels"].get(l, 0) + c
        samples.extend({"sub": j["sub"], "case": c} for c in r["samples"][:1])
        if r["violation"]:
            viol.append((j["sub"], hs, r["violation"], j))
    seen_subs, shown = set(), []
    for s in samples:
        if s["sub"] not in seen_subs and len(shown) < 8:
            seen_subs.add(s["sub"])
            shown.append(s)
    for i, (sub, hs, v, j) in enumerate(viol):
        path = os.path.join(replays, "%s-%s-%d.json" % (cid, sub, i))
        rep = {"property": cid, "sub": sub, "hashseed": hs, "case": v["case"], "message": v["message"]}
        if v.get("shard_replay"):
            rep.update(shard_replay=True, shard=j["shard"], n=j["n"], seed=j["seed"], findings=j["findings"])
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        print("%s: %s" % (sub, v["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (cid, path))
        rc = 1
    for e in errors[:5]:
        print("harness error:", e[:3000])
    if errors and not viol:
        rc = 2
    rules = "; ".join("%s: %s" % (n, r) for n, _, _, r, _ in subs)
    evd = {"property": cid, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": ev, "distinct_nontrivial": len(nontriv), "rule": rules,
                        "samples": shown, "per_sub": per_sub, "excluded_by_known_findings": excl,
                        "known_finding_replays": len(kf_jobs)},
           "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d excluded, %d violations, %.1fs" % (
        cid, tier, ev, len(nontriv), excl, len(viol), time.time() - t0))
    if args.verbose:
        print(json.dumps(per_sub, indent=1))
    return rc


if __name__ == "__main__":
    sys.exit(main())
