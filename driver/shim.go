package main

import (
	"bytes"
	"fmt"
	"go/ast"
	gobuild "go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// shims generates, for every package under sim/shim, the declarations that
// forward every exported identifier of the base package which the shim does
// not replace itself. A shim names its base in a comment "//shim:base net/http".
func shims(overlay map[string]string) {
	root := filepath.Join(verif, "sim", "shim")
	dirs, _ := os.ReadDir(root)
	for _, d := range dirs {
		if !d.IsDir() {
			continue
		}
		dir := filepath.Join(root, d.Name())
		own := map[string]bool{}
		base, pkg := "", ""
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range files {
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			pkg = af.Name.Name
			for _, cg := range af.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//shim:base ") {
						base = strings.TrimSpace(strings.TrimPrefix(c.Text, "//shim:base "))
					}
				}
			}
			exported(af, func(name, kind string, generic bool) { own[name] = true })
		}
		if base == "" {
			continue
		}
		ctx := gobuild.Default
		ctx.Dir = repo
		bp, err := ctx.Import(base, repo, 0)
		if err != nil {
			die("shim %s: %v", base, err)
		}
		kinds := map[string]string{}
		for _, f := range bp.GoFiles {
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, filepath.Join(bp.Dir, f), nil, 0)
			if err != nil {
				die("%v", err)
			}
			exported(af, func(name, kind string, generic bool) {
				if !generic && !own[name] {
					kinds[name] = kind
				}
			})
		}
		for _, f := range bp.CgoFiles {
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, filepath.Join(bp.Dir, f), nil, 0)
			if err == nil {
				exported(af, func(name, kind string, generic bool) {
					if !generic && !own[name] {
						kinds[name] = kind
					}
				})
			}
		}
		var names []string
		for n := range kinds {
			names = append(names, n)
		}
		sort.Strings(names)
		var b bytes.Buffer
		fmt.Fprintf(&b, "//go:build go1.25\n\npackage %s\n\nimport base %q\n\n", pkg, base)
		for _, n := range names {
			switch kinds[n] {
			case "type":
				fmt.Fprintf(&b, "type %s = base.%s\n", n, n)
			case "const":
				fmt.Fprintf(&b, "const %s = base.%s\n", n, n)
			default:
				fmt.Fprintf(&b, "var %s = base.%s\n", n, n)
			}
		}
		out := filepath.Join(scratch, "shim_"+d.Name()+".go")
		os.WriteFile(out, b.Bytes(), 0644)
		overlay[filepath.Join(repo, "zzverif", "shim", d.Name(), "zz_forward.go")] = out
	}
}

func exported(f *ast.File, fn func(name, kind string, generic bool)) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.IsExported() {
				fn(d.Name.Name, "func", d.Type.TypeParams != nil)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					if s.Name.IsExported() {
						fn(s.Name.Name, "type", s.TypeParams != nil)
					}
				case *ast.ValueSpec:
					for _, n := range s.Names {
						if n.IsExported() {
							k := "var"
							if d.Tok == token.CONST {
								k = "const"
							}
							fn(n.Name, k, false)
						}
					}
				}
			}
		}
	}
}
