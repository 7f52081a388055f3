package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func loadProgram(dir string, env []string, patterns ...string) (*ssa.Program, []*ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir: dir,
		Env: append(os.Environ(), env...),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, nil, fmt.Errorf("%v", p.Errors[0])
		}
	}
	prog, ps := ssautil.AllPackages(pkgs, 0)
	for _, p := range prog.AllPackages() {
		if encodedPkg(p.Pkg.Path()) {
			p.Build()
		}
	}
	for i, p := range ps {
		if p == nil {
			return nil, nil, fmt.Errorf("package %s has no SSA", pkgs[i].PkgPath)
		}
	}
	return prog, ps, nil
}

func encodedPkg(p string) bool {
	switch p {
	case "errors", "sort", "strings", "unicode/utf8", "encoding/binary", "math/cmplx", "bytes", "slices", "cmp", "iter", "bufio", "encoding/csv", "io":
		return true
	}
	return strings.HasPrefix(p, "mk-lr") || strings.HasPrefix(p, "github.com/ldsec/lattigo") || strings.HasPrefix(p, "verifharness") || strings.HasPrefix(p, "lrsim")
}
