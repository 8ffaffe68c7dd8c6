package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// A specification that does not type-check against the repository is cut out,
// with whatever refers to it, so that only the properties that need it are
// undecided.

// located splits the position of a type error.
func located(e packages.Error) (file string, line int) {
	p := strings.Split(e.Pos, ":")
	if len(p) < 2 {
		return "", 0
	}
	for i := len(p) - 1; i >= 1 && i >= len(p)-2; i-- {
		n, err := strconv.Atoi(p[i])
		if err != nil {
			break
		}
		file, line = strings.Join(p[:i], ":"), n
	}
	return
}

// optional: specifications marked as going beyond the interface of the program.
func optional(d *ast.FuncDecl) bool {
	return d.Doc != nil && strings.Contains(d.Doc.Text(), "Optional:")
}

// cut blanks the declarations of an overlay file that contain one of the lines.
// It reports the specifications that are lost, optional ones with an empty reason.
func cut(src []byte, file string, why map[int]string, lost map[string]string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	out := append([]byte(nil), src...)
	at := func(n ast.Node) (int, int, string) {
		a, b := fset.Position(n.Pos()), fset.Position(n.End())
		for l := a.Line; l <= b.Line; l++ {
			if w, ok := why[l]; ok {
				return a.Offset, b.Offset, w
			}
		}
		return 0, 0, ""
	}
	n := 0
	blank := func(a, b int) {
		n++
		for i := a; i < b; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	for _, d := range f.Decls {
		a, b, w := at(d)
		if w == "" {
			continue
		}
		switch d := d.(type) {
		case *ast.FuncDecl:
			if optional(d) {
				lost[d.Name.Name] = ""
			} else {
				lost[d.Name.Name] = w
			}
			blank(a, b)
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				blank(a, b)
				continue
			}
			// an import that is no longer used
			for _, s := range d.Specs {
				if a, b, w := at(s); w != "" {
					if !strings.Contains(w, "imported and not used") {
						return nil, fmt.Errorf("%s", w)
					}
					blank(a, b)
				}
			}
		}
	}
	if n == 0 {
		return nil, fmt.Errorf("no declaration found")
	}
	return out, nil
}
