"""Build and validate planted bugs: python3 tools/plant/plant.py [-c] NAME...

Reads tools/plant/bugs/NAME.py: PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (source of demo.py) and
HELPERS (files of this folder to put beside it). Everything runs in a scratch copy that a private mount namespace
shows as /repo. Writes seeded/NAME only if the bug builds, passes the stable tests and its demo tells it apart.
-c: run the property's quick check on it too (or those named in CHECKS)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
OLD = ("/repo/src/infi/asi",)

def ns(scratch, script):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (scratch, script)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

def tests(scratch, out):
    r = ns(scratch, "bash /opt/vp/build.sh && bash /opt/vp/test.sh %s" % out)
    try:
        return set(json.load(open(out))["passed"]), r.stdout.decode()
    except Exception:
        return set(), r.stdout.decode()

def main():
    args = sys.argv[1:]
    check = "-c" in args
    names = [a for a in args if a != "-c"]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for name in names:
        g = {}
        exec(open(os.path.join(HERE, "bugs", name + ".py")).read(), g)
        tmp = tempfile.mkdtemp(prefix="plant")
        try:
            one(name, g, tmp, stable, check)
        finally:
            shutil.rmtree(tmp)

def one(name, g, tmp, stable, check):
    scratch = tmp + "/r"
    subprocess.check_call(["cp", "-a", "/repo", scratch])
    demo = tmp + "/demo"
    os.mkdir(demo)
    for h in g.get("HELPERS", ["fakesg.py"]):
        shutil.copy(os.path.join(HERE, h), demo)
    open(demo + "/demo.py", "w").write(g["DEMO"].lstrip())
    open(demo + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                       'exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    subprocess.run(["git", "-C", scratch, "checkout", "-q", "--", "."])
    r = ns(scratch, "bash %s/demo.sh" % demo)
    if r.returncode:
        print(name, "DEMO FAILS ON THE CLEAN TREE", r.stdout.decode()[-1500:]); return
    for f, old, new in g["EDITS"]:
        p = scratch + "/src/infi/asi/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(name, "text found %d times in %s: %r" % (s.count(old), f, old)); return
        open(p, "w").write(s.replace(old, new))
        mine = subprocess.run(["git", "-C", "/repo", "blame", "-s", "src/infi/asi/" + f], stdout=subprocess.PIPE).stdout.decode().splitlines()
    diff = subprocess.run(["git", "-C", scratch, "diff"], stdout=subprocess.PIPE).stdout.decode()
    for f, old, new in g["EDITS"]:
        blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "src/infi/asi/" + f], stdout=subprocess.PIPE).stdout.decode().splitlines()
        src = open("/repo/src/infi/asi/" + f).read().splitlines()
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        for i, l in enumerate(src):
            if l in removed and l.strip() and not blame[i].startswith("^"):
                print(name, "warning: perhaps not an original line:", l)
    passed, out = tests(scratch, tmp + "/out.json")
    if not stable <= passed:
        print(name, "TESTS FAIL", sorted(stable - passed)[:5], out[-600:]); return
    r = ns(scratch, "bash %s/demo.sh" % demo)
    if r.returncode == 0:
        print(name, "DEMO PASSES WITH THE BUG", r.stdout.decode()[-500:]); return
    said = (r.stdout.decode().strip().splitlines() or [""])[-1][:160]
    target = VERIF + "/seeded/" + name
    if os.path.isdir(target):
        shutil.rmtree(target)
    shutil.copytree(demo, target)
    if os.path.isdir(target + "/__pycache__"):
        shutil.rmtree(target + "/__pycache__")
    open(target + "/patch.diff", "w").write(diff)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(target + "/meta.json", "w"), indent=1)
    print(name, "ok; demo says:", said, flush=True)
    if check:
        for prop in g.get("CHECKS", [g["PROPERTY"]]):
            r = ns(scratch, "cd %s && VERIF_SEED=1 VERIF_TIER=quick ./check --property %s" % (VERIF, prop))
            lines = r.stdout.decode().strip().splitlines()
            v = [l for l in lines if l.startswith("VIOLATION")]
            print("   ", prop, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", (lines or [""])[0][:200], flush=True)

main()
