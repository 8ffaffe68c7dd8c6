package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Node is one value number. Nodes are interned: two abstract values are equal
// (in the theory the constructors normalise by) exactly if the pointers are.
type Kind uint8

const (
	KInt    Kind = iota // polynomial over Int atoms
	KBool               // reduced ordered BDD over Bool atoms
	KElem               // linear combination of group elements
	KBytes              // concatenation of byte segments
	KAtom               // application of an operator, of some sort
	KVar                // variable: loop counter, loop state, random instance, bound variable
	KRoot               // heap root
	KRef                // address: root and access path
	KNil                // nil pointer/interface/func/map
	KStruct             // struct value
	KSlice              // slice value: args = base ref, off, len
	KIface              // interface holding a concrete type
	KTuple              // results
	KFunc               // function value with captured bindings
	KMT                 // decision on a Bool atom: args = atom, hi, lo
	KUndef              // no value (unreachable, uninitialised family member)
	KErr                // error value; args[0] Bool: non-nil
)

type Sort uint8

const (
	SNone Sort = iota
	SInt
	SBool
	SElem
	SBytes
	SGroup
	SErr
	SOther
)

type Node struct {
	id   int
	kind Kind
	sort Sort
	op   string
	args []*Node
	aux  any // payload outside hashing (types, functions, positions)

	poly []pterm
	lin  *linear
	b    *bdd
	segs []*Node

	vars []*Node // free KVar nodes, sorted by id
	key  string
}

var (
	table  = map[string]*Node{}
	nextID = 1
)

func intern(key string, mk func() *Node) *Node {
	if n, ok := table[key]; ok {
		return n
	}
	n := mk()
	n.key = key
	n.id = nextID
	nextID++
	table[key] = n
	return n
}

func mergeVars(ns ...*Node) []*Node {
	switch len(ns) {
	case 0:
		return nil
	case 1:
		return ns[0].vars
	}
	var out []*Node
	seen := map[*Node]bool{}
	for _, n := range ns {
		for _, v := range n.vars {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func hasVar(n *Node, v *Node) bool {
	for _, x := range n.vars {
		if x == v {
			return true
		}
	}
	return false
}

func hasAnyVar(n *Node, vs map[*Node]bool) bool {
	for _, x := range n.vars {
		if vs[x] {
			return true
		}
	}
	return false
}

func idsKey(args []*Node) string {
	var sb strings.Builder
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	return sb.String()
}

// rawAtom interns an operator application without any rewriting.
func rawAtom(sort Sort, op string, args ...*Node) *Node {
	key := "a" + strconv.Itoa(int(sort)) + ":" + op + "(" + idsKey(args) + ")"
	return intern(key, func() *Node {
		return &Node{kind: KAtom, sort: sort, op: op, args: append([]*Node(nil), args...), vars: mergeVars(args...)}
	})
}

func rawKind(k Kind, op string, args ...*Node) *Node {
	key := "k" + strconv.Itoa(int(k)) + ":" + op + "(" + idsKey(args) + ")"
	return intern(key, func() *Node {
		return &Node{kind: k, op: op, args: append([]*Node(nil), args...), vars: mergeVars(args...)}
	})
}

var varCount int

// mkVar makes a variable of the given sort. Named variables are shared.
func mkVar(sort Sort, name string) *Node {
	key := "v" + strconv.Itoa(int(sort)) + ":" + name
	n := intern(key, func() *Node {
		return &Node{kind: KVar, sort: sort, op: name}
	})
	if n.vars == nil {
		n.vars = []*Node{n}
	}
	return n
}

func freshVar(sort Sort, prefix string) *Node {
	varCount++
	return mkVar(sort, fmt.Sprintf("%s#%d", prefix, varCount))
}

// wrap turns an atom or variable into a value of its sort.
func wrap(a *Node) *Node {
	switch a.kind {
	case KAtom, KVar:
		switch a.sort {
		case SInt:
			return asInt(a)
		case SBool:
			return mkBool(bddVar(a))
		case SElem:
			return a // turned into a combination where the group is known
		case SBytes:
			return bytesOf(a)
		}
	}
	return a
}

// subst replaces variables or atoms by values and renormalises.
type substCtx struct {
	m        map[*Node]*Node
	memo     map[*Node]*Node
	varsOnly bool
	keyVars  map[*Node]bool
}

func subst(n *Node, m map[*Node]*Node) *Node {
	c := &substCtx{m: m, memo: map[*Node]*Node{}, varsOnly: true, keyVars: map[*Node]bool{}}
	for k := range m {
		if k.kind == KVar {
			c.keyVars[k] = true
		} else {
			c.varsOnly = false
		}
	}
	return c.do(n)
}

func (c *substCtx) do(n *Node) *Node {
	if n == nil {
		return nil
	}
	if c.varsOnly && !hasAnyVar(n, c.keyVars) {
		return n
	}
	if r, ok := c.m[n]; ok {
		return r
	}
	if r, ok := c.memo[n]; ok {
		return r
	}
	r := c.rebuild(n)
	c.memo[n] = r
	return r
}

func (c *substCtx) doAll(ns []*Node) ([]*Node, bool) {
	out := make([]*Node, len(ns))
	ch := false
	for i, a := range ns {
		out[i] = c.do(a)
		if out[i] != a {
			ch = true
		}
	}
	return out, ch
}

func (c *substCtx) rebuild(n *Node) *Node {
	switch n.kind {
	case KInt:
		acc := newAcc()
		for _, t := range n.poly {
			p := ratNode(t.c)
			for _, f := range t.fac {
				p = mulInt(p, powInt(c.atomInt(f.a), c.do(f.e)))
			}
			acc.add(p)
		}
		return acc.node()
	case KBool:
		return mkBool(c.bdd(n.b))
	case KElem:
		return c.elem(n)
	case KBytes:
		var out []*Node
		for _, s := range n.segs {
			r := c.do(s)
			if r.kind == KBytes {
				out = append(out, r.segs...)
			} else {
				out = append(out, r)
			}
		}
		return mkBytes(out)
	case KVar:
		return n
	case KAtom:
		args, ch := c.doAll(n.args)
		if !ch {
			return n
		}
		return mkAtom(n.sort, n.op, args...)
	case KMT:
		a := c.do(n.args[0])
		hi := c.do(n.args[1])
		lo := c.do(n.args[2])
		return iteV(toBool(a), hi, lo)
	case KRoot:
		return n
	default:
		args, ch := c.doAll(n.args)
		if !ch {
			return n
		}
		return rebuildKind(n, args)
	}
}

// atomInt gives the Int value an Int atom or variable is replaced by.
func (c *substCtx) atomInt(a *Node) *Node {
	r := c.do(a)
	return asInt(r)
}

func (c *substCtx) bdd(b *bdd) *bdd {
	memo := map[*bdd]*bdd{}
	var rec func(b *bdd) *bdd
	rec = func(b *bdd) *bdd {
		if b == bddT || b == bddF {
			return b
		}
		if r, ok := memo[b]; ok {
			return r
		}
		r := bddIte(toBool(c.do(b.v)), rec(b.hi), rec(b.lo))
		memo[b] = r
		return r
	}
	return rec(b)
}

func rebuildKind(n *Node, args []*Node) *Node {
	switch n.kind {
	case KRef:
		return rawKind(KRef, "", args...)
	case KErr:
		return mkErr(toBool(args[0]))
	case KSlice:
		return mkSlice(args[0], args[1], args[2], args[3])
	}
	r := rawKind(n.kind, n.op, args...)
	if r.aux == nil {
		r.aux = n.aux
	}
	r.sort = n.sort
	return r
}

func mkErr(b *bdd) *Node { return rawKind(KErr, "", mkBool(b)) }

func mkStruct(name string, fields ...*Node) *Node { return rawKind(KStruct, name, fields...) }

func mkTuple(args ...*Node) *Node { return rawKind(KTuple, "", args...) }

var nilNode = rawKind(KNil, "")
var undef = rawKind(KUndef, "")

// ---------------------------------------------------------------- printing

func show(n *Node) string { return showD(n, 7) }

func showD(n *Node, d int) string {
	if n == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	list := func(ns []*Node) string {
		var s []string
		for _, a := range ns {
			s = append(s, showD(a, d-1))
		}
		return strings.Join(s, ", ")
	}
	switch n.kind {
	case KInt:
		if len(n.poly) == 0 {
			return "0"
		}
		var s []string
		for _, t := range n.poly {
			var fs []string
			if t.c.Cmp(big.NewRat(1, 1)) != 0 || len(t.fac) == 0 {
				cs := t.c.RatString()
				if len(cs) > 24 {
					cs = cs[:10] + "…" + cs[len(cs)-8:]
				}
				fs = append(fs, cs)
			}
			for _, f := range t.fac {
				x := showD(f.a, d-1)
				if e, ok := constOf(f.e); !ok || e.Cmp(big.NewInt(1)) != 0 {
					x += "^(" + showD(f.e, d-1) + ")"
				}
				fs = append(fs, x)
			}
			s = append(s, strings.Join(fs, "·"))
		}
		return strings.Join(s, " + ")
	case KBool:
		return showBdd(n.b, d)
	case KElem:
		if len(n.lin.ents) == 0 {
			return "O"
		}
		var s []string
		for _, e := range n.lin.ents {
			x := "(" + showD(e.coef, d-1) + ")*" + showD(e.base, d-1)
			s = append(s, x)
		}
		return "[" + strings.Join(s, " ⊕ ") + "]"
	case KBytes:
		return "‹" + list(n.segs) + "›"
	case KAtom:
		if len(n.args) == 0 {
			return n.op
		}
		return n.op + "(" + list(n.args) + ")"
	case KVar:
		return n.op
	case KRoot:
		return "@" + n.op
	case KRef:
		return "&" + list(n.args)
	case KNil:
		return "nil"
	case KStruct:
		return n.op + "{" + list(n.args) + "}"
	case KSlice:
		return "slice(" + list(n.args) + ")"
	case KIface:
		return "iface:" + n.op + "(" + list(n.args) + ")"
	case KTuple:
		return "(" + list(n.args) + ")"
	case KFunc:
		return "func:" + n.op
	case KMT:
		return "if(" + showD(n.args[0], d-1) + " ? " + showD(n.args[1], d-1) + " : " + showD(n.args[2], d-1) + ")"
	case KUndef:
		return "undef"
	case KErr:
		return "err(" + list(n.args) + ")"
	}
	return "?"
}
