package main

import (
	"fmt"
	"sort"
	"strings"
)

func fail(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

// mtMk makes a decision node (the atom precedes those of the branches).
func mtMk(v *Node, hi, lo *Node) *Node {
	if hi == lo {
		return hi
	}
	return rawKind(KMT, "", v, hi, lo)
}

// mtIte is if-then-else over multi-terminal decision diagrams.
func mtIte(c *bdd, a, b *Node) *Node {
	if c == bddT {
		return a
	}
	if c == bddF {
		return b
	}
	if a == b {
		return a
	}
	key := [3]int{c.id, a.id, b.id}
	if r, ok := mtMemo[key]; ok {
		return r
	}
	top := c.v
	for _, x := range []*Node{a, b} {
		if x.kind == KMT && x.args[0].id < top.id {
			top = x.args[0]
		}
	}
	cofN := func(x *Node, hi bool) *Node {
		if x.kind != KMT || x.args[0] != top {
			return x
		}
		if hi {
			return x.args[1]
		}
		return x.args[2]
	}
	ch, cl := c, c
	if c.v == top {
		ch, cl = c.hi, c.lo
	}
	r := mtMk(top, mtIte(ch, cofN(a, true), cofN(b, true)), mtIte(cl, cofN(a, false), cofN(b, false)))
	mtMemo[key] = r
	return r
}

var mtMemo = map[[3]int]*Node{}

// iteV merges two values: a where c holds, b elsewhere.
func iteV(c *bdd, a, b *Node) *Node {
	if c == bddT || a == b {
		return a
	}
	if c == bddF {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.kind == KUndef {
		return b
	}
	if b.kind == KUndef {
		return a
	}
	switch {
	case a.sort == SInt && b.sort == SInt && a.kind != KMT && b.kind != KMT:
		a, b = asInt(a), asInt(b)
		if z, ok := coordSame(a, b); ok {
			if !feasible(bddAnd(c, bddNot(z))) {
				return b
			}
			if !feasible(bddAnd(bddNot(c), bddNot(z))) {
				return a
			}
		}
		return addInt(b, mulInt(indOf(c), subInt(a, b)))
	case a.sort == SBool && b.sort == SBool && a.kind != KMT && b.kind != KMT:
		return mkBool(bddIte(c, toBool(a), toBool(b)))
	case a.kind == KElem && b.kind == KElem && a.lin.grp == b.lin.grp:
		d := elemSub(a, b)
		z := elemIsZero(d)
		if !feasible(bddAnd(c, bddNot(z))) { // equal wherever a would be taken
			return b
		}
		if !feasible(bddAnd(bddNot(c), bddNot(z))) {
			return a
		}
		return elemAdd(b, elemScale(d, indOf(c)))
	case a.kind == KBytes && b.kind == KBytes:
		// zeroes are the encoding of zero
		if z, ok := zeroEnc(a, b); ok && !feasible(bddAnd(c, bddNot(z))) {
			return b
		}
		if z, ok := zeroEnc(b, a); ok && !feasible(bddAnd(bddNot(c), bddNot(z))) {
			return a
		}
	case a.kind == KErr && b.kind == KErr:
		return mkErr(bddIte(c, toBool(a.args[0]), toBool(b.args[0])))
	case a.kind == KErr && b.kind == KNil:
		return mkErr(bddAnd(c, toBool(a.args[0])))
	case a.kind == KNil && b.kind == KErr:
		return mkErr(bddAnd(bddNot(c), toBool(b.args[0])))
	case a.kind == b.kind && a.op == b.op && len(a.args) == len(b.args):
		switch a.kind {
		case KStruct, KTuple, KIface:
			args := make([]*Node, len(a.args))
			for i := range args {
				args[i] = iteV(c, a.args[i], b.args[i])
			}
			return rawKind(a.kind, a.op, args...)
		case KSlice:
			if a.args[0] == b.args[0] {
				return rawKind(KSlice, "", a.args[0], iteV(c, a.args[1], b.args[1]), iteV(c, a.args[2], b.args[2]), iteV(c, a.args[3], b.args[3]))
			}
		}
	}
	return mtIte(c, a, b)
}

// zeroEnc: a is constant and b has encodings of numbers in places of zeroes
// of a; the two agree where those numbers are zero.
func zeroEnc(a, b *Node) (*bdd, bool) {
	t, ok := constBytes(a)
	if !ok {
		return nil, false
	}
	z := bddT
	for _, s := range b.segs {
		n, ok := constI(segLen(s))
		if !ok || n > int64(len(t)) {
			return nil, false
		}
		part := t[:n]
		t = t[n:]
		if u, ok := isStr(s); ok {
			if u != part {
				return nil, false
			}
			continue
		}
		if s.op != "be" || strings.Trim(part, "\x00") != "" {
			return nil, false
		}
		z = bddAnd(z, eq0(s.args[0]))
	}
	return z, t == ""
}

// mtMap applies f to the leaves of a decision diagram and merges the results.
func mtMap(n *Node, f func(*Node) *Node) *Node {
	if n.kind != KMT {
		return f(n)
	}
	ls := leaves(bddT, n)
	cs, vs := make([]*bdd, len(ls)), make([]*Node, len(ls))
	for i, l := range ls {
		cs[i], vs[i] = l.c, f(l.n)
	}
	return iteN(cs, vs)
}

// leaf is one case of a decision diagram.
type leaf struct {
	c *bdd
	n *Node
}

// leaves lists the cases that are possible under path.
func leaves(path *bdd, n *Node) []leaf {
	if n.kind != KMT {
		if bddAnd(path, axioms) == bddF {
			return nil
		}
		return []leaf{{path, n}}
	}
	// conditions are collected from the root down, in the order of decisions
	var nodes, ends []*Node
	seen := map[*Node]bool{}
	var visit func(n *Node)
	visit = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.kind != KMT {
			ends = append(ends, n)
			return
		}
		nodes = append(nodes, n)
		visit(n.args[1])
		visit(n.args[2])
	}
	visit(n)
	sort.SliceStable(nodes, func(i, j int) bool { return nodes[i].args[0].id < nodes[j].args[0].id })
	cond := map[*Node]*bdd{n: path}
	give := func(n *Node, c *bdd) {
		if o := cond[n]; o != nil {
			c = bddOr(o, c)
		}
		cond[n] = c
	}
	for _, m := range nodes {
		c := cond[m]
		if c == nil || bddAnd(c, axioms) == bddF {
			continue
		}
		v := toBool(m.args[0])
		give(m.args[1], bddAnd(c, v))
		give(m.args[2], bddAnd(c, bddNot(v)))
	}
	var out []leaf
	for _, e := range ends {
		if c := cond[e]; c != nil && bddAnd(c, axioms) != bddF {
			out = append(out, leaf{c, e})
		}
	}
	return out
}

// lift applies an operation on byte strings (or other leaves) to decision diagrams.
func lift(f func(xs []*Node) *Node, xs ...*Node) *Node {
	mt := false
	for _, x := range xs {
		mt = mt || x.kind == KMT
	}
	if !mt {
		return f(xs)
	}
	type combo struct {
		c  *bdd
		xs []*Node
	}
	all := []combo{{bddT, nil}}
	for _, x := range xs {
		var next []combo
		for _, k := range all {
			for _, l := range leaves(k.c, x) {
				next = append(next, combo{l.c, append(append([]*Node(nil), k.xs...), l.n)})
			}
		}
		all = next
	}
	var cs []*bdd
	var vs []*Node
	for _, k := range all {
		cs, vs = append(cs, k.c), append(vs, f(k.xs))
	}
	return iteN(cs, vs)
}

// axioms are facts about the atoms made so far.
var axioms = bddT

func addAxiom(b *bdd) { axioms = bddAnd(axioms, b) }

// feasible tells whether a path condition can hold.
func feasible(c *bdd) bool { return c != bddF && bddAnd(c, axioms) != bddF }

func mkRef(root *Node, path ...*Node) *Node {
	return rawKind(KRef, "", append([]*Node{root}, path...)...)
}

var rootCount int

func newRoot() *Node {
	rootCount++
	return rawKind(KRoot, fmt.Sprint(rootCount))
}

// mkSlice: base reference, offset, length, capacity.
func mkSlice(base, off, ln, cp *Node) *Node { return rawKind(KSlice, "", base, off, ln, cp) }

// ---------------------------------------------------------------- persistent maps

const trieBits = 5

type trie struct {
	kids [1 << trieBits]*trie
	val  *Node
}

type pmap struct {
	root  *trie
	depth int
}

func (m pmap) get(k int) *Node {
	if m.root == nil || k>>(uint(m.depth)*trieBits) != 0 {
		return nil
	}
	t := m.root
	for d := m.depth - 1; d >= 0; d-- {
		t = t.kids[(k>>(uint(d)*trieBits))&(1<<trieBits-1)]
		if t == nil {
			return nil
		}
	}
	return t.val
}

func (m pmap) set(k int, v *Node) pmap {
	for m.root == nil || k>>(uint(m.depth)*trieBits) != 0 {
		if m.root == nil {
			d := 1
			for k>>(uint(d)*trieBits) != 0 {
				d++
			}
			m = pmap{&trie{}, d}
			continue
		}
		r := &trie{}
		r.kids[0] = m.root
		m = pmap{r, m.depth + 1}
	}
	var rec func(t *trie, d int) *trie
	rec = func(t *trie, d int) *trie {
		n := &trie{}
		if t != nil {
			*n = *t
		}
		if d < 0 {
			n.val = v
			return n
		}
		i := (k >> (uint(d) * trieBits)) & (1<<trieBits - 1)
		n.kids[i] = rec(n.kids[i], d-1)
		return n
	}
	return pmap{rec(m.root, m.depth-1), m.depth}
}

func (m pmap) deepen(d int) pmap {
	if m.root == nil {
		return pmap{nil, d}
	}
	for m.depth < d {
		r := &trie{}
		r.kids[0] = m.root
		m = pmap{r, m.depth + 1}
	}
	return m
}

// merge combines two maps; f is called for keys whose values differ (nil if absent).
func (m pmap) merge(o pmap, f func(k int, a, b *Node) *Node) pmap {
	d := m.depth
	if o.depth > d {
		d = o.depth
	}
	if d == 0 {
		return m
	}
	m, o = m.deepen(d), o.deepen(d)
	var rec func(a, b *trie, d, k int) *trie
	rec = func(a, b *trie, d, k int) *trie {
		if a == b {
			return a
		}
		if d < 0 {
			var x, y *Node
			if a != nil {
				x = a.val
			}
			if b != nil {
				y = b.val
			}
			if x == y {
				return a
			}
			v := f(k, x, y)
			if v == nil {
				return nil
			}
			return &trie{val: v}
		}
		n := &trie{}
		for i := 0; i < 1<<trieBits; i++ {
			var x, y *trie
			if a != nil {
				x = a.kids[i]
			}
			if b != nil {
				y = b.kids[i]
			}
			if x == nil && y == nil {
				continue
			}
			n.kids[i] = rec(x, y, d-1, k<<trieBits|i)
		}
		return n
	}
	return pmap{rec(m.root, o.root, d-1, 0), d}
}

// each visits all entries.
func (m pmap) each(f func(k int, v *Node)) {
	var rec func(t *trie, d, k int)
	rec = func(t *trie, d, k int) {
		if t == nil {
			return
		}
		if d < 0 {
			if t.val != nil {
				f(k, t.val)
			}
			return
		}
		for i, c := range t.kids {
			if c != nil {
				rec(c, d-1, k<<trieBits|i)
			}
		}
	}
	rec(m.root, m.depth-1, 0)
}
