#!/usr/bin/env python3
"""plant.py BUGS.py [id...]: makes and confirms planted bugs.

BUGS.py defines BUGS: list of dicts {id, property, edits: [(file, old, new)], needs, breaks, demo (Go
source of the tests), pkg (optional: package the demo is laid over, else the demo package with the
helper)}.  Each is applied to a scratch copy of /repo and kept in /verif/seeded/<id> when it builds,
passes the stable tests, and the demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
seeded = os.path.join(os.path.dirname(os.path.dirname(here)), "seeded")
W = "/tmp/plant/repo"
env = dict(os.environ)
env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
pre = ". /opt/vp/env.sh >/dev/null 2>&1; cd %s; " % W
def sh(c, **k): return subprocess.run(["bash", "-c", pre + c], capture_output=True, text=True, env=env, **k)
def tests():
    sh("go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -vx 'github.com/fdymylja/tmos/testapp/module') > /tmp/plant/log.json")
    r = sh("python3 /opt/vp/results.py /tmp/plant/out.json gojson:/tmp/plant/log.json")
    d = json.load(open("/tmp/plant/out.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(d.get("passed", []))
    return sorted(stable - passed)
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
os.makedirs("/tmp/plant", exist_ok=True)
if os.path.isdir(W): shutil.rmtree(W)
subprocess.run(["cp", "-a", "/repo", W], check=True)
for b in ns["BUGS"]:
    if want and b["id"] not in want: continue
    d = os.path.join(seeded, b["id"])
    if os.path.isdir(d) and not want: continue
    sh("git checkout -q -- .")
    t = "/tmp/plant/demo"
    if os.path.isdir(t): shutil.rmtree(t)
    os.makedirs(t)
    shutil.copy(here + "/demo.sh", t)
    if b.get("pkg"):
        open(t + "/PKG", "w").write(b["pkg"])
    else:
        shutil.copy(here + "/helper_test.go", t)
    open(t + "/demo_test.go", "w").write(b["demo"].lstrip())
    r = sh("bash %s/demo.sh" % t)
    if r.returncode != 0:
        print(b["id"], "REJECTED: demo fails on the unchanged tree\n", r.stdout[-3000:]); continue
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "REJECTED: %d matches in %s" % (s.count(old), f)); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    r = sh("gofmt -l " + " ".join(f for f, _, _ in b["edits"]))
    if r.stdout.strip(): print(b["id"], "note: gofmt", r.stdout.strip())
    r = sh("go build ./...")
    if r.returncode != 0:
        print(b["id"], "REJECTED: does not build\n", r.stderr[-2000:]); continue
    r = sh("bash %s/demo.sh" % t)
    if r.returncode == 0 or "build failed" in r.stdout:
        print(b["id"], "REJECTED: demo passes with the patch", r.stdout[-1500:]); continue
    demo_out = r.stdout
    lost = tests()
    if lost:
        print(b["id"], "REJECTED: tests fail", lost); continue
    if os.path.isdir(d): shutil.rmtree(d)
    shutil.copytree(t, d)
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(b["id"], "kept;", [l for l in demo_out.splitlines() if "demo_test" in l or "panic" in l][:2])
sh("git checkout -q -- .")
