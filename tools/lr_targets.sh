# sourced by check.sh: one analysis target per training program. Each is a module of its own in which the program's source,
# renamed to a package, is compiled with the harness of the property and with the ideal evaluator of lr/fake.
targets=
for lrp in lr lr_minibatch lr_minibatch_toy lr_toy; do
  src=/repo/lr/$lrp.go
  [ -f "$src" ] || inconclusive "$src is missing"
  d=$work/$lrp
  mkdir -p "$d/props" "$d/cmd"
  cp -r "$here/harness/vp" "$d/vp"
  cp -r "$here/harness/cmd/replay" "$d/cmd/replay"
  cp -r "$here/lr/fake" "$d/fake"
  sed 's/^package main\b.*$/package lrprog/' "$src" > "$d/props/program.go"
  cp "$here/lr/harness/common.go" "$here/lr/harness/adapt_$lrp.go" "$d/props/"
  hs="c17.go"
  case $prop in C18) hs="c17.go c18.go" ;; C19) hs="c17.go c19.go" ;; esac
  for h in $hs; do cp "$here/lr/harness/$h" "$d/props/"; done
  {
    echo "package lrprog"
    echo "var Registry = map[string]func(){"
    (cd "$d/props" && grep -hoE '^func C[0-9]{2}_[A-Za-z0-9_]+\(\)' c*.go) | sed -E 's/^func (.*)\(\)/\1/' | LC_ALL=C sort | while read -r n; do printf '\t"%s": %s,\n' "$n" "$n"; done
    echo "}"
  } > "$d/props/registry.go"
  cat > "$d/go.mod" <<'M'
module verifharness

go 1.17

require (
	github.com/ldsec/lattigo/v2 v2.3.0
	mk-lr v0.0.0
)

replace github.com/ldsec/lattigo/v2 => ./fake/lattigo

replace mk-lr => ./fake/mklr
M
  sed -i 's#"verifharness/props"#props "verifharness/props"#' "$d/cmd/replay/"*.go
  if ! (cd "$d" && go build -o "$d/replay" ./cmd/replay) >"$work/log" 2>&1; then
    inconclusive "the harness does not build with lr/$lrp.go: $(grep -v '^#' "$work/log" | head -3 | tr '\n' ' ')"
  fi
  targets="$targets${targets:+,}$lrp=$d=./props=$d/replay"
done
