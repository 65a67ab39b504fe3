"""Development aid: random mutants of pyactr that pass its tests, run against the checks in private copies.

  mutate.py OUT.jsonl [--n 200] [--seed 1] [--jobs 8] [--files a.py,b.py] [--base /tmp/mut]
  mutate.py --show OUT.jsonl        the mutants nothing detected

No check reads anything of this."""
import argparse
import ast
import concurrent.futures as cf
import copy
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import time

PY = "/opt/venv/bin/python"
FILES = ["buffers.py", "chunks.py", "declarative.py", "environment.py", "goals.py", "model.py", "motor.py", "productions.py", "simulation.py", "utilities.py", "vision.py"]
FIRST = {
    "buffers.py": ["C07", "C08", "C27", "C29", "C16"],
    "chunks.py": ["C01", "C02", "C03", "C04", "C05", "C14", "C09", "C16"],
    "declarative.py": ["C06", "C09", "C10", "C13", "C11", "C12", "C29", "C27"],
    "environment.py": ["C21", "C22", "C27", "C18"],
    "goals.py": ["C07", "C08", "C16", "C29", "C27"],
    "model.py": ["C28", "C04", "C27", "C16", "C18", "C22", "C29"],
    "motor.py": ["C19", "C20", "C27", "C21"],
    "productions.py": ["C16", "C14", "C15", "C25", "C26", "C19", "C23", "C22", "C24", "C31", "C17"],
    "simulation.py": ["C18", "C17", "C31", "C21", "C24", "C16"],
    "utilities.py": ["C04", "C08", "C10", "C11", "C12", "C15", "C22", "C23", "C24", "C25", "C26", "C30", "C02"],
    "vision.py": ["C22", "C23", "C24", "C21", "C07", "C08"],
}
ALL = ["C%02d" % i for i in range(1, 34)]
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}


def mutations(tree):
    """Functions that change one place of the tree; each takes a fresh copy's node list."""
    nodes = list(ast.walk(tree))
    docs = {id(n.body[0].value) for n in nodes if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr)}
    inerr = set()
    for n in nodes:
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("ACTRError", "ValueError", "print", "warn", "import_module"):
            inerr |= {id(x) for x in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.JoinedStr):
            inerr |= {id(x) for x in ast.walk(n)}
    out = []
    for i, n in enumerate(nodes):
        if id(n) in inerr:
            continue
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    out.append((i, "cmp", (j, new)))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool", None))
            for j in range(len(n.values)):
                out.append((i, "boolpart", j))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((i, "not", None))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((i, "usub", None))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            for new in BIN[type(n.op)]:
                out.append((i, "bin", new))
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                out.append((i, "const", not n.value))
            elif isinstance(n.value, (int, float)):
                out += [(i, "const", n.value + 1), (i, "const", n.value * 2 if n.value else -1)]
            elif n.value is None:
                pass
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out += [(i, "cond", "neg"), (i, "cond", True), (i, "cond", False)] if not isinstance(n, ast.While) else [(i, "cond", False)]
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append((i, "ret", None))
        elif isinstance(n, ast.Continue):
            out.append((i, "jump", ast.Break))
        elif isinstance(n, ast.Break):
            out.append((i, "jump", ast.Continue))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and id(n.value) not in docs:
            out.append((i, "drop", None))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append((i, "swapargs", None))
        if isinstance(n, ast.Call) and getattr(n.func, "attr", "") in ("copy", "deepcopy"):
            out.append((i, "uncopy", None))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("sorted", "list", "set", "dict", "str", "tuple"):
            out.append((i, "unwrap", None))
    return out


def apply(tree, mut):
    tree = copy.deepcopy(tree)
    nodes = list(ast.walk(tree))
    i, kind, a = mut
    n = nodes[i]
    line = getattr(n, "lineno", 0)
    parents = {id(c): p for p in nodes for c in ast.iter_child_nodes(p)}

    def replace(old, new):
        p = parents[id(old)]
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
                return
            if isinstance(v, list) and any(x is old for x in v):
                setattr(p, f, [new if x is old else x for x in v])
                return
    if kind == "cmp":
        n.ops[a[0]] = a[1]()
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "boolpart":
        n.values.pop(a)
        if len(n.values) == 1:
            replace(n, n.values[0])
    elif kind in ("not", "usub"):
        replace(n, n.operand)
    elif kind == "bin":
        n.op = a()
    elif kind == "const":
        n.value = a
    elif kind == "cond":
        n.test = ast.UnaryOp(ast.Not(), n.test) if a == "neg" else ast.Constant(a)
    elif kind == "ret":
        n.value = ast.Constant(None)
    elif kind == "jump":
        replace(n, a())
    elif kind == "drop":
        replace(n, ast.Pass())
    elif kind == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "uncopy":
        replace(n, n.func.value if not n.args else n.args[0])
    elif kind == "unwrap":
        if len(n.args) != 1:
            return None, line
        replace(n, n.args[0])
    return ast.unparse(ast.fix_missing_locations(tree)), line


def run(cmd, cwd, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_TIER="quick", PBT_JOBS="2", VERIF_SEED="1")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def worker_dir(base, k):
    d = os.path.join(base, "w%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("cp -a /repo %s/repo && mkdir %s/verif && cd /verif && git archive HEAD | tar x -C %s/verif --exclude=seeded" % (d, d, d), shell=True, check=True)
    for f in ("pbt/core.py", "run.py"):
        p = os.path.join(d, "verif", f)
        s = open(p).read().replace('"/repo"', '"%s/repo"' % d).replace("'/repo'", "'%s/repo'" % d)
        open(p, "w").write(s)
    return d


def one(d, f, src, order, limit):
    path = os.path.join(d, "repo", "pyactr", f)
    orig = open(path).read()
    try:
        open(path, "w").write(src)
        rc, out = run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=15", "-o", "python_files=tests.py", "pyactr"], os.path.join(d, "repo"), 120)
        if rc != 0:
            return {"tests": "fail"}
        tried = []
        for c in order:
            t = time.time()
            rc, out = run([PY, "run.py", c], os.path.join(d, "verif"), 400)
            tried.append([c, rc, round(time.time() - t, 1)])
            if rc == 1 and "VIOLATION property=" + c in out:
                return {"tests": "pass", "caught": c, "tried": tried, "msg": out[:300]}
            if rc not in (0, 1):
                return {"tests": "pass", "caught": None, "noanswer": c, "tried": tried, "msg": out[-600:]}
        return {"tests": "pass", "caught": None, "tried": tried}
    finally:
        open(path, "w").write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=200)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--files", default=",".join(FILES))
    ap.add_argument("--base", default="/tmp/mut")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--full", action="store_true", help="try all checks, not only the likely ones")
    a = ap.parse_args()
    if a.show:
        for line in open(a.out):
            r = json.loads(line)
            if r["tests"] == "pass" and not r["caught"]:
                print("=== %s:%s %s %s" % (r["file"], r["line"], r["mut"], r.get("noanswer", "")))
                print(r["diff"])
        return
    muts = []
    for f in a.files.split(","):
        tree = ast.parse(open("/repo/pyactr/" + f).read())
        base = ast.unparse(tree)
        for m in mutations(tree):
            muts.append((f, tree, base, m))
    random.Random(a.seed).shuffle(muts)
    print(len(muts), "mutants possible")
    import queue
    q = queue.Queue()
    for k in range(a.jobs):
        q.put(worker_dir(a.base, k))
    done = set()
    if os.path.exists(a.out):
        done = {(json.loads(x)["file"], json.loads(x)["id"]) for x in open(a.out)}

    def job(t):
        f, tree, base, m = t
        d = q.get()
        try:
            ident = "%s/%s/%s" % (m[0], m[1], m[2])
            if (f, ident) in done:
                return None
            src, line = apply(tree, m)
            if src is None or src == base:
                return None
            order = FIRST[f] + ([c for c in ALL if c not in FIRST[f]] if a.full else [])
            r = one(d, f, src, order, 400)
            r.update(file=f, line=line, mut=m[1], id=ident, diff="\n".join(x for x in difflib.unified_diff(base.splitlines(), src.splitlines(), lineterm="", n=2) if not x.startswith(("---", "+++"))))
            return r
        finally:
            q.put(d)
    stat = {}
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as o:
        for r in ex.map(job, muts[:a.n]):
            if r is None:
                continue
            o.write(json.dumps(r) + "\n")
            o.flush()
            k = "killed by tests" if r["tests"] == "fail" else "caught" if r["caught"] else "no answer" if r.get("noanswer") else "SURVIVES"
            stat[k] = stat.get(k, 0) + 1
            print(k, r["file"], r["line"], r["mut"], r.get("caught") or "", flush=True)
    print(stat)


if __name__ == "__main__":
    main()
