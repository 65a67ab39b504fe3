#!/opt/venv/bin/python
"""Turn a bug description into /verif/seeded/<id>/ after confirming it in a scratch copy of /repo.

  plant.py FILE.py ...     each FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO (python text)
  plant.py --check [ID..]  re-validates existing planted bugs
  plant.py --run [ID..]    applies each bug to a scratch copy and reports which checks of its property catch it
"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif/seeded"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def scratch():
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s/ && cp -a /repo/.git %s/" % (d, d), shell=True, check=True)
    return d


def tests(d):
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rf", "--timeout=15", "-o", "python_files=tests.py test_*.py *_test.py", "pyactr"], d)
    assert "passed" in r.stdout, r.stdout
    return sorted(l.split()[1] for l in r.stdout.splitlines() if l.startswith("FAILED")), r.stdout[-300:]


def demo(d, folder):
    r = sh(["bash", os.path.join(folder, "demo.sh")], d)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def validate(bid, base_fail):
    folder = os.path.join(V, bid)
    d = scratch()
    try:
        rc0, o0 = demo(d, folder)
        r = sh(["git", "apply", os.path.join(folder, "patch.diff")], d)
        if r.returncode:
            return "patch does not apply: " + r.stderr
        rc1, o1 = demo(d, folder)
        fails, out = tests(d)
        if rc0 != 0:
            return "demo fails on unchanged tree: " + o0
        if rc1 == 0:
            return "demo passes with the patch"
        if fails != base_fail:
            return "tests: %s vs %s %s" % (fails, base_fail, out)
        print("   demo says:", o1.strip().splitlines()[-1][:200] if o1.strip() else "")
        return None
    finally:
        shutil.rmtree(d)


def run(bids, allc):
    for bid in bids or sorted(os.listdir(V)):
        folder = os.path.join(V, bid)
        prop = json.load(open(folder + "/meta.json"))["property"]
        cids = [prop]
        if allc:
            cids = [c["property_id"] if "property_id" in c else c["id"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
        r = sh(["git", "-C", "/repo", "apply", folder + "/patch.diff"], "/repo")
        if r.returncode:
            print(bid, "DOES NOT APPLY", r.stderr)
            continue
        try:
            got = []
            for c in cids:
                r = subprocess.run(["/verif/run.py", c], capture_output=True, text=True, cwd="/verif")
                if r.returncode == 1:
                    got.append(c)
                elif r.returncode:
                    got.append(c + "(rc %d)" % r.returncode)
            print("%-32s %s %s" % (bid, prop, "caught by " + " ".join(got) if got else "MISSED"), flush=True)
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."], "/repo")


def main():
    if sys.argv[1] in ("--run", "--runall"):
        return run(sys.argv[2:], sys.argv[1] == "--runall")
    d = scratch()
    base_fail, _ = tests(d)
    if sys.argv[1] == "--check":
        for bid in sys.argv[2:] or sorted(os.listdir(V)):
            print(bid, validate(bid, base_fail) or "ok", flush=True)
    else:
        for f in sys.argv[1:]:
            blocks = open(f).read().split("#####\n")
            for text in blocks:
                if not text.strip():
                    continue
                ns = {}
                exec(text, ns)
                bid = ns["ID"]
                folder = os.path.join(V, bid)
                os.makedirs(folder, exist_ok=True)
                ok = True
                for fn, old, new in ns["EDITS"]:
                    p = os.path.join(d, fn)
                    s = open(p).read()
                    if s.count(old) != 1:
                        print(bid, "EDIT matches %d times: %r" % (s.count(old), old))
                        ok = False
                        break
                    open(p, "w").write(s.replace(old, new))
                diff = sh(["git", "diff"], d).stdout
                sh(["git", "checkout", "--", "."], d)
                if not ok:
                    shutil.rmtree(folder)
                    continue
                open(folder + "/patch.diff", "w").write(diff)
                open(folder + "/demo.py", "w").write("import os, sys, io, contextlib\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport warnings\nwarnings.simplefilter('ignore')\nimport pyactr\n" + ns["DEMO"].lstrip("\n"))
                open(folder + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(folder + "/meta.json", "w"), indent=1)
                e = validate(bid, base_fail)
                print(bid, e or "ok", flush=True)
                if e:
                    print("   REJECTED (files kept for inspection in %s)" % folder)
    shutil.rmtree(d)


main()
