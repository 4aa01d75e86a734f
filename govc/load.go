package main

import (
	"fmt"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"os"
	"path/filepath"
	"strings"
)

// clientFiles are small clients of the real code (added through an overlay) whose contracts state
// properties of sequences of calls.
var clientFiles []string

func loadProgram(dir string) (*ssa.Program, []*ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	cfg.Overlay = map[string][]byte{}
	for _, f := range clientFiles {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		pkg := "memcache"
		base := filepath.Base(f)
		for _, p := range []string{"stats", "netconn"} {
			if strings.HasPrefix(base, p+"_") {
				pkg = "memcache/" + p
			}
		}
		cfg.Overlay[filepath.Join(dir, pkg, "zz_verif_"+base)] = b
	}
	pkgs, err := packages.Load(cfg, "./memcache/...")
	if err != nil {
		return nil, nil, err
	}
	if n := packages.PrintErrors(pkgs); n > 0 {
		return nil, nil, fmt.Errorf("%d package errors", n)
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return prog, ps, nil
}
