#!/bin/bash
# tryseeds.sh [id...]: applies each planted bug to a scratch copy of /repo and runs its
# property's quick check built against that copy. (vcheck does it on /repo itself.)
cd /verif || exit 1
S=$(mktemp -d /tmp/tryseeds.XXXXXX)
trap 'rm -rf "$S"' EXIT
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir "$S/verif"; cp -a /verif/mc "$S/verif/mc"
cp -a /repo "$S/repo"
sed "s#=> /repo#=> $S/repo#" /verif/mc/go.mod > "$S/go.mod"; cp /verif/mc/go.sum "$S/go.sum"
ids=${*:-$(ls /verif/seeded)}
cd "$S/verif/mc" || exit 1
for id in $ids; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  prop=${PROP:-$prop}
  git -C "$S/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  cp /verif/known-findings.jsonl "$S/verif/"
  args=()
  case $prop in C21|C30) ./rt/make.sh "$S" && args=(-overlay "$S/overlay.json" -tags mcrt);;
    C34) ./rt/make.sh "$S" small && args=(-overlay "$S/overlay.json" -tags mcrt) && export MC_RACEBIN="$S/mcrace" &&
      go build -race "${args[@]}" -gcflags='github.com/btcsuite/btcd/...=-race=false' -gcflags='math/big=-race=false' -modfile="$S/go.mod" -o "$MC_RACEBIN" . ;; esac
  out=$(go build "${args[@]}" -modfile="$S/go.mod" -o "$S/mc" . 2>&1) && { out=$(VERIF_SEED=1 VERIF_TIER=quick GOFLAGS="-mod=mod -modfile=$S/go.mod" VERIF_REPO="$S/repo" timeout 900 "$S/mc" -prop "$prop" -tier quick -verif "$S/verif" 2>&1); rc=$?; } || rc=2
  git -C "$S/repo" checkout -q -- .
  v=$(echo "$out" | grep -A1 VIOLATION | tail -1 | cut -c1-100)
  case $rc in 1) r=caught;; 0) r=MISSED;; *) r="NOANSWER($rc) $(echo "$out" | tail -30 | cut -c1-600)";; esac
  echo "$id $prop $r $(( $(date +%s) - s ))s $v"
done
