#!/usr/bin/env python3
"""mkseed.py SPEC.py: creates and validates a planted bug in /verif/seeded.

SPEC.py defines id, property, pkg, needs, breaks, edits [(file, old, new)],
demo (source of a test file whose test is TestDemo)."""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
BASE = "f28e04a"
w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
shutil.copy("/verif/known-findings.txt", w)
repo = os.path.join(w, "repo")
subprocess.check_call(["cp", "-a", "/repo", repo])
def run(*a, cwd=repo, env=None):
    p = subprocess.run(a, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return p.returncode, p.stdout
ok = True
def need(c, msg, out=""):
    global ok
    if not c:
        ok = False
        print("FAIL", spec["id"], msg, out[-1500:])
try:
    d = os.path.join("/verif/seeded", spec["id"])
    tmpd = os.path.join(w, "d"); os.makedirs(tmpd)
    demo = os.path.join(tmpd, "demo.sh")
    open(os.path.join(tmpd, "demo_test.go.txt"), "w").write(spec["demo"])
    pkg = spec["pkg"]
    open(demo, "w").write("""#!/bin/sh
# Runs demo_test.go.txt, which lies beside this file, as a test of ./%s.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$D" >"$T/o.json"
go test -count=1 -timeout 200s %s -overlay "$T/o.json" -run '^TestDemo$' ./%s
""" % (pkg, pkg, spec.get("flags", ""), pkg))
    rc, out = run("sh", demo)
    need(rc == 0, "demo fails on the unchanged tree", out)
    for f, old, new in spec["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            need(False, "%s: %d matches of %r" % (f, s.count(old), old)); continue
        open(p, "w").write(s.replace(old, new))
    rc, diff = run("git", "diff")
    # The changed lines are original ones.
    orig = False
    for f in {e[0] for e in spec["edits"]}:
        _, bl = run("git", "blame", "-l", "-s", "HEAD", "--", f)
        lines = bl.split("\n")
        _, ud = run("git", "diff", "-U0", "--", f)
        for h in [l for l in ud.split("\n") if l.startswith("@@")]:
            a = h.split()[1][1:].split(",")
            st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            for i in range(st, st + n):
                c = lines[i - 1].split(" ")[0].lstrip("^")
                rc2, _ = run("git", "merge-base", "--is-ancestor", c, BASE)
                if rc2 == 0: orig = True
    need(orig, "no original line is changed")
    rc, out = run("go", "build", "./...")
    need(rc == 0, "doesn't build", out)
    rc, out = run("go", "vet", "./...")
    if rc: print("vet:", out[-300:])
    rc, out = run("go", "test", "-count=1", "./...")
    need(rc == 0, "tests fail", out)
    rc, out = run("sh", demo)
    need(rc != 0, "demo passes with the change", out)
    if "-v" in sys.argv: print(out[-800:])
    if ok:
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        for f in ("demo.sh", "demo_test.go.txt"):
            shutil.copy(os.path.join(tmpd, f), os.path.join(d, f))
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local")
        if os.path.exists("/tmp/w/gck"):
            rc, out = run("timeout", "400", "/tmp/w/gck", "-repo", repo, "-verif", w, "-check", spec["property"], env=env)
            print(spec["id"], "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, "\n".join("   " + l[:220] for l in out.strip().split("\n")[-4:]))
        else: print(spec["id"], "ok")
finally:
    shutil.rmtree(w)
sys.exit(0 if ok else 1)
