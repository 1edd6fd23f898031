#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec file (a python file defining BUGS)."""
import os, subprocess, sys, json, shutil, tempfile
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    d = os.path.join(R, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w"], check=True)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(t, "w", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        files = sorted({f for f, _, _ in b["edits"]})
        subprocess.run(["gofmt", "-l"] + files, cwd=t + "/w", check=True)
        diff = subprocess.run(["git", "diff"], cwd=t + "/w", check=True, stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t, ignore_errors=True)
    open(d + "/patch.diff", "wb").write(diff)
    shutil.copy(os.path.join(R, "tools/demolib/demo.sh"), d)
    pkg = b.get("pkg", "clustering")
    open(d + "/pkg", "w").write(pkg + "\n")
    if b.get("helper", "helper_test.go" if pkg == "clustering" else ""):
        shutil.copy(os.path.join(R, "tools/demolib", b.get("helper", "helper_test.go")), d)
    open(d + "/demo_test.go", "w").write(b["demo"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(b["id"])
