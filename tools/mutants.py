#!/usr/bin/env python3
"""mutants.py MUTANTS.jsonl OUT.jsonl [-w workers] [-d div]: applies each mutant (from
tools/mutate) to a scratch copy of /repo and runs short versions of the checks of its
package until one of them reports a violation. For mutants none reports, the repository's
tests are run. Development tool; no check uses it."""
import json, os, subprocess, sys, tempfile, threading, queue, shutil, argparse
ap = argparse.ArgumentParser(); ap.add_argument("muts"); ap.add_argument("out"); ap.add_argument("-w", type=int, default=3); ap.add_argument("-d", type=int, default=6)
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = lambda s: ["C%02d" % int(x) for x in s.split()]
pipe = P("17 36 26 27 28 22 25 24 23 21 20 32 31 29 30 18 19 35")
ORDER = {"parallel": P("1 2 4 3 5 9 8 7 6 33 31 35"), "speculative": P("1 2 4 3 5 9 8 7 33 31 35"), "internal": P("14 1 2 4 3 5 9 8 7"),
  "psort": P("10 11 12 13 34 33"), "gsync": P("15 16 33"), "pipeline": pipe}
FIRST = {"pipeline/source.go": P("23 17 24 25"), "pipeline/filters.go": P("26 27 22"), "pipeline/pipeline.go": P("17 24 32 25"), "pipeline/transformnode.go": P("28 17 22"),
  "pipeline/lparnode.go": P("17 21 20 25 31"), "pipeline/seqnode.go": P("17 20 25"), "pipeline/strictordnode.go": P("17 20 25 31"), "pipeline/filter.go": P("26 17 22")}
env = dict(os.environ, GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        r = json.loads(l); done.add((r["file"], r["off"], r["len"], r["new"]))
q = queue.Queue(); lock = threading.Lock(); out = open(a.out, "a")
for l in open(a.muts):
    m = json.loads(l)
    if (m["file"], m["off"], m["len"], m["new"]) not in done: q.put(m)
def worker():
    w = tempfile.mkdtemp(prefix="mutants-")
    try:
        subprocess.run("git -C /repo archive --prefix=repo/ HEAD | tar -x -C %s; mkdir %s/tmp %s/v; cp -r %s/harness %s/h; sed -i 's|=> /repo|=> %s/repo|' %s/h/go.mod" % (w, w, w, V, w, w, w), shell=True, check=True)
        e = dict(env, TMPDIR=w + "/tmp")
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            f = os.path.join(w, "repo", m["file"]); src = open(f, "rb").read()
            open(f, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["off"] + m["len"]:])
            try:
                pkg = m["file"].split("/")[0]; res = "nocompile"; by = None; msg = ""
                if subprocess.run(["go", "build", "./..."], cwd=w + "/repo", env=e, capture_output=True).returncode == 0:
                    subprocess.run(["go", "build", "-o", w + "/hb", "."], cwd=w + "/h", env=e, check=True, capture_output=True)
                    res = "SURVIVED"; errs = []
                    order = FIRST.get(m["file"], []); order = order + [p for p in ORDER[pkg] if p not in order]
                    for p in order:
                        try:
                            r = subprocess.run(["timeout", "-k", "2", "120", w + "/hb", "drive", "-prop", p, "-tier", "quick", "-div", str(a.d), "-verif", w + "/v"], env=e, capture_output=True, text=True, cwd=w)
                        except Exception as x:
                            errs.append(p + str(x)); continue
                        if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                            res, by, msg = "caught", p, r.stdout[:200]; break
                        if r.returncode != 0: errs.append("%s rc=%d %s" % (p, r.returncode, (r.stdout + r.stderr)[-300:]))
                    if res == "SURVIVED":
                        t = subprocess.run(["timeout", "-k", "2", "180", "go", "test", "./" + pkg], cwd=w + "/repo", env=e, capture_output=True, text=True)
                        if t.returncode != 0: res = "tests"
                    m["errs"] = errs
                m["res"], m["by"], m["msg"] = res, by, msg
            finally:
                open(f, "wb").write(src)
            subprocess.run(["rm", "-rf", w + "/tmp"]); os.mkdir(w + "/tmp")
            with lock:
                out.write(json.dumps(m) + "\n"); out.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=worker) for _ in range(a.w)]
[t.start() for t in ts]; [t.join() for t in ts]
