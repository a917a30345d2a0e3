#!/usr/bin/env python3
"""mkbug.py FILE...: reads planted bugs (python files defining `bugs`), builds each in a
scratch copy of /repo, confirms it (builds, stable tests pass, demo passes without and
fails with it) and writes /verif/seeded/<id>/."""
import sys, os, subprocess, json, shutil, tempfile, runpy
V = "/verif"
DEMO = '''#!/bin/bash
# exit 0 when the demonstrated behaviour is right; run with the repository as cwd
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
export GOFLAGS= CGO_ENABLED=1 GOPROXY=off GOTOOLCHAIN=local
unset GODEBUG GOMAXPROCS
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$(pwd)" "$D" >"$T/o.json"
go test%(race)s -count=1 -timeout 100s -overlay "$T/o.json" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, timeout=400):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr
def confirm(d, wt, reps=2):
    pass
def main():
    only = os.environ.get("ONLY", "").split()
    for f in sys.argv[1:]:
        for b in runpy.run_path(f)["bugs"]:
            if only and b["id"] not in only: continue
            wt = tempfile.mkdtemp(prefix="wt-", dir="/tmp")
            try:
                one(b, wt)
            except AssertionError as e:
                print("REJECTED", b["id"], str(e)[-1500:])
            finally:
                shutil.rmtree(wt)
def one(b, wt):
    rp = wt + "/repo"
    sh(f"cp -a /repo {rp}", "/")
    sh("git checkout -q -- . && git clean -fdq", rp)
    for file, old, new in b["edits"]:
        p = os.path.join(rp, file)
        s = open(p).read()
        n = 1
        if isinstance(old, tuple): old, k = old   # k-th occurrence
        else: k = None
        if k is None:
            assert s.count(old) == 1, f"{file}: {s.count(old)} occurrences of {old!r}"
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            assert len(parts) > k, "occurrence"
            s = old.join(parts[:k]) + new + old.join(parts[k:])
        open(p, "w").write(s)
    rc, out = sh("gofmt -w . ; go vet ./...", rp)
    assert out.strip() == "" or b.get("vet"), "fmt/vet: " + out
    rc, out = sh("git diff", rp)
    patch = out
    assert patch
    # demo
    dd = wt + "/demo"
    os.makedirs(dd)
    open(dd + "/demo_test.go", "w").write(b["demo"])
    open(dd + "/demo.sh", "w").write(DEMO % {"pkg": b["pkg"], "race": " -race" if b.get("race") else ""})
    os.chmod(dd + "/demo.sh", 0o755)
    for i in range(3):
        rc, out = sh(dd + "/demo.sh", rp)
        assert rc != 0, f"demo passes with the bug: {out}"
        assert "build failed" not in out and "setup failed" not in out, out
    # stable tests
    rc, out = sh("go test -count=1 ./...", rp)
    assert rc == 0, "tests fail: " + out
    sh("git checkout -q -- .", rp)
    for i in range(5):
        rc, out = sh(dd + "/demo.sh", rp)
        assert rc == 0, f"demo fails without the bug: {out}"
    t = f"{V}/seeded/{b['id']}"
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    open(t + "/patch.diff", "w").write(patch)
    for n in ("demo_test.go", "demo.sh"):
        shutil.copy(dd + "/" + n, t + "/" + n)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(t + "/meta.json", "w"), indent=1)
    print("KEPT", b["id"])
main()
