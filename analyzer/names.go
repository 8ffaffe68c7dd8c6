package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The specifications of the main package reach its unexported operations
// through zz_verif_names.go. When that file does not type-check, because an
// operation was renamed, became a method or returns other things besides, it
// is written anew from the types that the package declares.

const namesFile = "zz_verif_names.go"

type operation struct {
	name    string   // of the wrapper
	params  []string // types
	results string   // type of the first result
	fails   bool     // the wrapper returns an error, too
}

var operations = []operation{
	{"specSetup", []string{"group.Group"}, "PublicParameters", true},
	{"specCast", []string{"PublicParameters"}, "BallotData", false},
	{"specCount", []string{"BallotData", "voteproof.ProofParams"}, "bool", false},
}

// rename writes the file anew; ok is false if an operation is not found or ambiguous.
func rename(p *packages.Package) (src string, ok bool) {
	qual := func(q *types.Package) string {
		if q == p.Types {
			return ""
		}
		return q.Name()
	}
	text := func(t types.Type) string { return types.TypeString(t, qual) }
	own := func(o types.Object) bool {
		return !strings.HasPrefix(filepath.Base(p.Fset.Position(o.Pos()).Filename), "zz_verif_")
	}
	var fs []*types.Func
	sc := p.Types.Scope()
	names := sc.Names()
	sort.Strings(names)
	for _, n := range names {
		o := sc.Lookup(n)
		if !own(o) {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			fs = append(fs, o)
		case *types.TypeName:
			if t, isNamed := o.Type().(*types.Named); isNamed {
				for i := 0; i < t.NumMethods(); i++ {
					fs = append(fs, t.Method(i))
				}
			}
		}
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"github.com/takakv/msc-poc/group\"\n\t\"github.com/takakv/msc-poc/voteproof\"\n)\n\n")
	for _, op := range operations {
		var calls []string
		for _, f := range fs {
			if c, fits := op.call(f, text); fits {
				calls = append(calls, c)
			}
		}
		if len(calls) != 1 {
			return "", false
		}
		var ps []string
		for i, t := range op.params {
			ps = append(ps, fmt.Sprintf("a%d %s", i, t))
		}
		res := "(r " + op.results + ")"
		if op.fails {
			res = "(r " + op.results + ", err error)"
		}
		fmt.Fprintf(&b, "func %s(%s) %s {\n\t%s\n\treturn\n}\n\n", op.name, strings.Join(ps, ", "), res, calls[0])
	}
	var bounds []string
	if o, isType := sc.Lookup("PublicParameters").(*types.TypeName); isType {
		if st, isStruct := o.Type().Underlying().(*types.Struct); isStruct {
			for i := 0; i < st.NumFields(); i++ {
				if text(st.Field(i).Type()) == "uint16" {
					bounds = append(bounds, st.Field(i).Name())
				}
			}
		}
	}
	if len(bounds) != 2 {
		return "", false
	}
	fmt.Fprintf(&b, "func specSetCandidates(pp *PublicParameters, lo, hi uint16) {\n\tpp.%s, pp.%s = lo, hi\n}\n\n", bounds[0], bounds[1])
	fmt.Fprintf(&b, "func specCandidates(pp PublicParameters) (uint16, uint16) {\n\treturn pp.%s, pp.%s\n}\n", bounds[0], bounds[1])
	return b.String(), true
}

// call is the statement that performs the operation by f.
func (op operation) call(f *types.Func, text func(types.Type) string) (string, bool) {
	sig := f.Type().(*types.Signature)
	if sig.Variadic() || sig.TypeParams() != nil || sig.RecvTypeParams() != nil {
		return "", false
	}
	var ins []types.Type
	if r := sig.Recv(); r != nil {
		ins = append(ins, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ins = append(ins, sig.Params().At(i).Type())
	}
	if len(ins) != len(op.params) {
		return "", false
	}
	used := map[int]bool{}
	var args []string
	for _, t := range ins {
		amp := ""
		if q, isPtr := t.(*types.Pointer); isPtr {
			t, amp = q.Elem(), "&"
		}
		found := false
		for i, want := range op.params {
			if !used[i] && text(t) == want {
				used[i], found = true, true
				args = append(args, fmt.Sprintf("%sa%d", amp, i))
				break
			}
		}
		if !found {
			return "", false
		}
	}
	out := sig.Results()
	if out.Len() == 0 {
		return "", false
	}
	first, deref := out.At(0).Type(), ""
	if q, isPtr := first.(*types.Pointer); isPtr {
		first, deref = q.Elem(), "*"
	}
	if text(first) != op.results {
		return "", false
	}
	fn := f.Name()
	if sig.Recv() != nil {
		fn = strings.TrimPrefix(args[0], "&") + "." + fn
		args = args[1:]
	}
	lhs := []string{"x"}
	for i := 1; i < out.Len(); i++ {
		if op.fails && i == out.Len()-1 && text(out.At(i).Type()) == "error" {
			lhs = append(lhs, "e")
		} else {
			lhs = append(lhs, "_")
		}
	}
	s := fmt.Sprintf("%s := %s(%s)\n\tr = %sx", strings.Join(lhs, ", "), fn, strings.Join(args, ", "), deref)
	if lhs[len(lhs)-1] == "e" {
		s += "\n\terr = e"
		if deref != "" {
			s = strings.Replace(s, "\tr = *x", "\tif x != nil {\n\t\tr = *x\n\t}", 1)
		}
	}
	return s, true
}
