#!/usr/bin/env python3
"""screen.py OUT.jsonl [k/n]: mutates the files below in a scratch copy of /repo, runs the quick checks
mapped to the file until one catches the mutant, and the stable tests for those none catches.
Survivors of both need a look: equivalent, outside the properties, or a hole in a check."""
import json, os, subprocess, sys, tempfile, shutil, hashlib, fcntl
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
MAP = [l.split() for l in """
runtime/kv/badger.go C04 C01 C02
runtime/kv/journal.go C11
runtime/orm/store.go C01 C02 C05
runtime/orm/objects/store.go C01 C05
runtime/orm/indexes/list.go C02
runtime/orm/indexes/store.go C02
runtime/orm/indexes/types.go C02
runtime/orm/iterator.go C02
runtime/orm/schema/indexer.go C02 C05 C20
runtime/orm/schema/registry.go C05 C19 C01 C07
runtime/orm/schema/schema.go C05 C01 C02 C19
runtime/query.go C19 C17
runtime/abci.go C11 C18 C32 C17 C16 C31
runtime/runtime.go C06 C11 C08 C32 C07 C01
runtime/router.go C07 C06 C32
runtime/builder.go C07 C06 C09 C27
runtime/services.go C27
runtime/client.go C06 C26 C08 C38
runtime/client/orm.go C26 C20 C06
runtime/client/client.go C06 C26 C20 C38
runtime/module/builder.go C07 C09 C06
runtime/module/descriptor.go C07 C09
runtime/module/services.go C27
runtime/authentication/user/user.go C28
runtime/authorization/default.go C07 C08
runtime/errors/errors.go C17 C11 C19
runtime/statetransition/admission.go C32 C06
runtime/statetransition/execution.go C06
core/rbac/authorizer.go C08
core/rbac/ctrl_bind.go C08
core/rbac/ctrl_create_role.go C08
core/rbac/module.go C08 C09
core/rbac/rbac_applier.go C09 C08
core/rbac/v1alpha1/rbac.go C09 C08
core/abci/handlers.go C18
core/abci/genesis.go C18
core/abci/module.go C18
core/abci/tendermint/abci/types.go C18
core/coin/v1alpha1/coin.go C29 C14
core/meta/meta.go C01 C19
core/meta/state.go C01
core/apiserver/router/server.go C20 C17
core/apiserver/router/types.go C20
core/apiserver/router/openapi.go C30
core/apiserver/module.go C27
core/runtime/module.go C07 C08
x/authn/extensions.go C13 C12 C31 C16
x/authn/ctrl_admission.go C22
x/authn/ctrl_state_transition.go C22
x/authn/module.go C22 C13 C31
x/authn/genesis.go C22 C31
x/authn/authenticator.go C13 C12
x/authn/tx/tx.go C13 C23
x/authn/tx/decoder.go C23 C13
x/authn/tx/decode_unknowns.go C23
x/authn/crypto/crypto.go C23 C24
x/authn/crypto/types.go C24
x/authn/crypto/secp256k1/secp256k1.go C24
x/authn/crypto/secp256k1/secp256k1_nocgo.go C24
x/authn/v1alpha1/client.go C26
x/bank/handler.go C14 C16 C22
x/bank/module.go C14 C15
x/bank/genesis.go C14
x/distribution/extensions.go C16
x/distribution/module.go C16
pkg/client/client.go C33
pkg/spfcli/clicontext.go C33
pkg/spfcli/config.go C33
pkg/spfcli/get.go C33
pkg/spfcli/resources.go C33
pkg/spfcli/spfctl.go C33
pkg/conv/string.go C01
pkg/modulecodegen/codegen.go C26
pkg/modulecodegen/util.go C26
pkg/modulecodegen/schema.go C26
pkg/modulecodegen/api_definition.go C26
pkg/protoutils/desc/desc.go C25
pkg/protoutils/forge/list.go C20
pkg/protoutils/kindencoder/kindencoder.go C03
pkg/protoutils/kindencoder/xx_to_support.go C03
pkg/protoutils/oas3schema/oas3schema.go C30
""".strip().splitlines()]
out = sys.argv[1]
only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
k, n = map(int, (sys.argv[2] if len(sys.argv) > 2 else "0/1").split("/"))
S = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
pre = ". /opt/vp/env.sh >/dev/null 2>&1; export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off; cd %s/repo; " % S
def sh(c, t=900):
    try: return subprocess.run(["bash", "-c", pre + c], capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "", "timeout")
subprocess.run(["cp", "-a", "/repo", S + "/repo"], check=True)
os.makedirs(S + "/verif"); subprocess.run(["cp", "-a", verif + "/mc", S + "/verif/mc"], check=True)
shutil.copy(verif + "/known-findings.jsonl", S + "/verif/")
g = open(verif + "/mc/go.mod").read().replace("=> /repo", "=> " + S + "/repo"); open(S + "/go.mod", "w").write(g)
shutil.copy(verif + "/mc/go.sum", S + "/go.sum")
sh("go build -o %s/mutate %s/main.go" % (S, here))
done = set()
if os.path.exists(out):
    for l in open(out): done.add(json.loads(l)["id"])
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def check(p):
    args = "-tags verif"
    args = ""
    if p in ("C21", "C30"):
        sh("cd %s/verif/mc && ./rt/make.sh %s" % (S, S)); args = "-overlay %s/overlay.json -tags mcrt" % S
    r = sh("cd %s/verif/mc && go build %s -modfile=%s/go.mod -o %s/mc ." % (S, args, S, S))
    if r.returncode != 0: return "build"
    r = sh("cd %s/verif/mc && VERIF_SEED=1 VERIF_TIER=quick GOFLAGS='-mod=mod -modfile=%s/go.mod' VERIF_REPO=%s/repo timeout 600 %s/mc -prop %s -tier quick -verif %s/verif" % (S, S, S, S, p, S))
    return {0: "quiet", 1: "caught"}.get(r.returncode, "noanswer%d" % r.returncode)
def tests():
    r = sh("go test -json -vet=off -count=1 -timeout 5m $(go list -e ./... | grep -vx 'github.com/fdymylja/tmos/testapp/module') > %s/log.json; python3 /opt/vp/results.py %s/out.json gojson:%s/log.json" % (S, S, S))
    d = json.load(open(S + "/out.json")); return sorted(stable - set(d.get("passed", [])))
try:
    for f, *props in MAP:
        if only and not any(o in f for o in only): continue
        ms = [json.loads(l) for l in sh("%s/mutate %s" % (S, f)).stdout.splitlines()]
        p = S + "/repo/" + f; src = open(p, "rb").read()
        for m in ms:
            i = "%s:%d:%s:%s:%s" % (f, m["From"], m["Op"], m["New"][:20], hashlib.sha1(m["Old"].encode()).hexdigest()[:6])
            if i in done or int(hashlib.sha1(i.encode()).hexdigest(), 16) % n != k: continue
            open(p, "wb").write(src[:m["From"]] + m["New"].encode() + src[m["To"]:])
            res = "build"
            if sh("go build ./...").returncode == 0:
                rs = {}
                for c in props:
                    rs[c] = check(c)
                    if rs[c] == "caught": break
                res = "caught" if "caught" in rs.values() else "survived" if not tests() else "tests"
            else: rs = {}
            open(p, "wb").write(src)
            if res == "build": r = dict(id=i, res=res)
            else: r = dict(id=i, line=m["Line"], op=m["Op"], old=m["Old"], new=m["New"], checks=rs, res=res)
            open(out, "a").write(json.dumps(r) + "\n")
finally:
    shutil.rmtree(S)
