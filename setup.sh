#!/bin/bash
# builds the engine and the harness once, so that the checks find a warm build cache
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
mkdir -p "$here/.build"
(cd "$here/engine" && go build -o "$here/.build/engine" .) || exit 1
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
cp -r "$here/harness" "$work/harness"
(cd "$work/harness" && go build -o "$work/replay" ./cmd/replay) || exit 1
exit 0
