#!/usr/bin/env python3
"""bugs.py FILE.py [ids]: screens hand-written changes (FILE.py calls B(id, props, [(file, old, new)...])):
applies each to a scratch copy of /repo, runs the quick checks of its properties and the stable tests."""
import os, sys, subprocess, tempfile, shutil, json, time
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(os.path.dirname(here))
BS = []
def B(id, props, edits): BS.append((id, props.split(), edits))
src = os.path.abspath(sys.argv[1]); exec(compile(open(src).read(), src, "exec"))
ids = sys.argv[2:]
S = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
pre = ". /opt/vp/env.sh >/dev/null 2>&1; export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off; cd %s/repo; " % S
def sh(c, t=900):
    try: return subprocess.run(["bash", "-c", pre + c], capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "", "timeout")
subprocess.run(["cp", "-a", "/repo", S + "/repo"], check=True)
os.makedirs(S + "/verif"); subprocess.run(["cp", "-a", verif + "/mc", S + "/verif/mc"], check=True)
shutil.copy(verif + "/known-findings.jsonl", S + "/verif/")
open(S + "/go.mod", "w").write(open(verif + "/mc/go.mod").read().replace("=> /repo", "=> " + S + "/repo"))
shutil.copy(verif + "/mc/go.sum", S + "/go.sum")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def check(p):
    args = ""; extra = ""
    if p in ("C21", "C30", "C34"):
        sh("cd %s/verif/mc && ./rt/make.sh %s %s" % (S, S, "small" if p == "C34" else "")); args = "-overlay %s/overlay.json -tags mcrt" % S
    if p == "C34":
        sh("cd %s/verif/mc && go build -race %s -gcflags='github.com/btcsuite/btcd/...=-race=false' -gcflags='math/big=-race=false' -modfile=%s/go.mod -o %s/mcrace ." % (S, args, S, S)); extra = "MC_RACEBIN=%s/mcrace " % S
    r = sh("cd %s/verif/mc && go build %s -modfile=%s/go.mod -o %s/mc ." % (S, args, S, S))
    if r.returncode != 0: return "build", r.stderr
    r = sh(extra + "VERIF_SEED=1 VERIF_TIER=quick GOFLAGS='-mod=mod -modfile=%s/go.mod' VERIF_REPO=%s/repo timeout 800 %s/mc -prop %s -tier quick -verif %s/verif" % (S, S, S, p, S))
    return {0: "quiet", 1: "caught"}.get(r.returncode, "noanswer%d" % r.returncode), r.stdout + r.stderr
def tests():
    sh("go test -json -vet=off -count=1 -timeout 5m $(go list -e ./... | grep -vx 'github.com/fdymylja/tmos/testapp/module') > %s/log.json; python3 /opt/vp/results.py %s/out.json gojson:%s/log.json" % (S, S, S))
    d = json.load(open(S + "/out.json")); return sorted(stable - set(d.get("passed", [])))
try:
    for id, props, edits in BS:
        if ids and id not in ids: continue
        sh("git checkout -q -- ."); t = time.time(); ok = True
        for f, old, new in edits:
            p = S + "/repo/" + f; s = open(p).read()
            if s.count(old) != 1: print(id, "BAD EDIT", f, s.count(old), repr(old[:50])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        r = sh("go build ./...")
        if r.returncode: print(id, "BUILD", r.stderr[:600]); continue
        lost = tests(); out = []
        for c in props:
            v, o = check(c); line = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            i = o.find("VIOLATION"); out.append("%s:%s %s" % (c, v, o[i:i+260].replace("\n", " | ") if v == "caught" else o[-400:] if v != "quiet" else ""))
        print(id, "tests lost %s" % lost[:3] if lost else "tests ok", "; ".join(out), "%ds" % (time.time() - t), flush=True)
finally:
    shutil.rmtree(S)
