#!/bin/bash
# regenerates harness/props/registry.go from the harness names
cd "$(dirname "$0")/../harness/props" || exit 1
{
  echo "package props"
  echo
  echo "// Registry lists the harnesses for native replay (generated by tools/gen_registry.sh)."
  echo "var Registry = map[string]func(){"
  grep -hoE '^func C[0-9]{2}_[A-Za-z0-9_]+\(\)' *.go | sed -E 's/^func (.*)\(\)/\1/' | LC_ALL=C sort | while read -r n; do printf '\t"%s": %s,\n' "$n" "$n"; done
  echo "}"
} > registry.go.tmp
gofmt registry.go.tmp > registry.go && rm -f registry.go.tmp
