#!/bin/bash
# check.sh <property> <quick|thorough>: decides one property on /repo's current working tree.
prop=$1; tier=${2:-quick}
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 0
trap 'rm -rf "$work"' EXIT
mkdir -p "$here/evidence"
inconclusive() {
  echo "INCONCLUSIVE $prop: $1"
  python3 - "$here/evidence/$prop.json" "$prop" "$tier" "$1" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"tier":sys.argv[3],"seed":1,"level":"other","coverage":{"explanation":"nothing was decided: "+sys.argv[4],"obligations":0,"discharged":0},"wall_s":0,"violations":0},open(sys.argv[1],"w"))
P
  exit 0
}
engine=$here/.build/engine
if ! (cd "$here/engine" && go build -o "$work/engine" . ) >"$work/log" 2>&1; then
  inconclusive "the engine does not build: $(tail -3 "$work/log" | tr '\n' ' ')"
fi
case $prop in
C17|C18|C19) . "$here/tools/lr_targets.sh" ;;
*)
  # a private copy of the harness module, so that the run never writes in /verif
  cp -r "$here/harness" "$work/harness"
  if ! (cd "$work/harness" && go build -o "$work/replay" ./cmd/replay) >"$work/log" 2>&1; then
    inconclusive "the harness does not build against /repo: $(grep -v '^#' "$work/log" | head -3 | tr '\n' ' ')"
  fi
  targets="repo=$work/harness=./props=$work/replay" ;;
esac
"$work/engine" -check "$prop" -tiername "$tier" -evidence "$here/evidence" -known "$here/known_findings.json" -bounds "$here/bounds.json" -targets "$targets"
rc=$?
[ $rc = 1 ] && exit 1
[ $rc = 0 ] || inconclusive "the engine ended with status $rc"
exit 0
