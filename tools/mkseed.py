#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG FILE NEEDS BREAKS  < JSON {"edits": [[file, old, new], ...], "demo": go test source}
Makes /verif/seeded/ID after confirming everything in a scratch copy."""
import json, os, subprocess, sys, shutil, tempfile
spec = json.load(sys.stdin) if len(sys.argv) < 2 else eval(open(sys.argv[1]).read())
sid, prop, pkg = spec["id"], spec["property"], spec["pkg"]
w = tempfile.mkdtemp(prefix="seed-")
repo = w + "/repo"
shutil.copytree("/repo", repo, symlinks=True)
def sh(cmd, cwd=repo):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
try:
    for f, old, new in spec["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print("edit of", f, "matches", n, "times"); sys.exit(1)
        open(p, "w").write(s.replace(old, new))
    d = w + "/seed"
    os.makedirs(d)
    rc, diff = sh("git diff")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.go.txt", "w").write(spec["demo"])
    race = spec.get("flags", "")
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# Runs the test demo.go.txt inside package %s.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%s/zz_demo_test.go\\": \\"$d/demo.go.txt\\"}}" > "$t/o.json"
timeout 120 go test -count=1 %s -overlay "$t/o.json" -run TestSeededDemo ./%s
''' % (pkg, pkg, race, pkg))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = sh("go build ./...")
    if rc: print("does not build:", o); sys.exit(1)
    rc, o = sh("bash " + d + "/demo.sh")
    if rc == 0: print("demo passes with the change:", o); sys.exit(1)
    print(o[-600:])
    rc, o = sh("go test ./... 2>&1 | grep -v 'no test files'")
    bad = [l for l in o.splitlines() if l.startswith("--- FAIL") and "Example_currentyear" not in l or "    --- FAIL" in l]
    if bad: print("tests fail:", "\n".join(bad[:10])); print(o[-1500:]); sys.exit(1)
    sh("git checkout -- .")
    rc, o = sh("bash " + d + "/demo.sh")
    if rc: print("demo fails unchanged:", o); sys.exit(1)
    dst = "/verif/seeded/" + sid
    if os.path.exists(dst): shutil.rmtree(dst)
    shutil.copytree(d, dst)
    print("made", dst)
finally:
    shutil.rmtree(w)
