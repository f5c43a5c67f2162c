"""Make and validate one planted bug.  usage: seed.py SPEC.py   (development aid; works in /repo and undoes the change)
SPEC.py defines ID, PROP, FILE, EDITS=[(old,new),..], DEMO (python source, exits nonzero on the bug), NEEDS, BREAKS
usage: seed.py --recheck [ID ...]   re-run demo and check for existing seeds"""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def validate(sid, tests=True):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo dirty"
    out = []
    rc, o = demo(d)
    out.append("demo clean rc=%d" % rc)
    if rc:
        print(o)
    r = sh("git -C %s apply %s/patch.diff" % (R, d))
    if r.returncode:
        print(sid, "PATCH DOES NOT APPLY", r.stderr)
        return
    try:
        rc, o = demo(d)
        out.append("demo bug rc=%d" % rc)
        if not rc:
            print(o)
        if tests:
            r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_out.json")
            out.append("tests: " + [l for l in (r.stdout + r.stderr).splitlines() if "passed" in l][-1:][0])
        r = sh("./check %s" % meta["property"], cwd=V)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append("check rc=%d %s" % (r.returncode, v[0] if v else "NOT CAUGHT"))
    finally:
        sh("git -C %s checkout -- ." % R)
    print(sid, "|", " | ".join(out), flush=True)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    p = os.path.join(R, ns["FILE"])
    s = open(p, encoding="utf-8", newline="").read()
    for old, new in ns["EDITS"]:
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (s.count(old), old)
        s = s.replace(old, new)
    try:
        open(p, "w", encoding="utf-8", newline="").write(s)
        r = subprocess.run("git -C %s diff" % R, shell=True, capture_output=True)
        open(d + "/patch.diff", "wb").write(r.stdout)
    finally:
        sh("git -C %s checkout -- ." % R)
    open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg PROJECT_DIR_FRM="$PWD" PYTHONPATH="$PWD" PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    validate(ns["ID"])


if sys.argv[1] == "--recheck":
    for sid in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
        validate(sid, tests=False)
else:
    for s in sys.argv[1:]:
        make(s)
