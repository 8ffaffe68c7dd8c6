package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// checkRec is one obligation.
type checkRec struct {
	label  string
	ok     bool
	detail string
}

const symPkg = "github.com/takakv/msc-poc/verifspec/sym."

// obligation records whether c holds wherever st is reached.
func (in *interp) obligation(st *state, label string, c *bdd, extra string) {
	bad := bddAnd(bddAnd(st.cond, axioms), bddNot(c))
	r := &checkRec{label: label, ok: bad == bddF || refuted(bad)}
	if !r.ok {
		r.detail = "does not hold when " + cubeText(bad)
		if c == bddF {
			r.detail = "does not hold"
			if bad != bddAnd(st.cond, axioms) || st.cond != bddT {
				r.detail += " (reached when " + cubeText(bad) + ")"
			}
		}
		if in.lastAPI != "" {
			r.detail += "; decided by " + in.lastAPI
		}
		r.detail += in.note + extra
	}
	in.note = ""
	in.checks = append(in.checks, r)
}

func init() {
	S := func(n string, f func(*call) *Node) { lib[symPkg+n] = f }
	bigAtom := func(c *call, lo, up *big.Int, hi *Node) *Node {
		a := rawAtom(SInt, "in:"+c.constStr(0))
		if lo != nil {
			atomLo[a] = lo
		}
		if up != nil {
			atomUp[a] = up
		}
		if hi != nil {
			atomHi[a] = hi
		}
		return asInt(a)
	}
	S("Int", func(c *call) *Node { return c.newBig(bigAtom(c, nil, nil, nil)) })
	S("Nat", func(c *call) *Node {
		up := new(big.Int).Lsh(bigOne, uint(c.constInt(1)))
		return c.newBig(bigAtom(c, new(big.Int), up.Sub(up, bigOne), nil))
	})
	S("Scalar", func(c *call) *Node {
		n := c.big(1)
		var up *big.Int
		if k, ok := constOf(n); ok {
			up = new(big.Int).Sub(k, bigOne)
		}
		return c.newBig(bigAtom(c, new(big.Int), up, n))
	})
	S("Bits", func(c *call) *Node {
		ac := newAcc()
		for i := int64(0); i < c.constInt(1); i++ {
			a := rawAtom(SInt, "bit", strNode(c.constStr(0)), intNode(i))
			ac.addScaled(asInt(a), new(big.Rat).SetInt(new(big.Int).Lsh(bigOne, uint(i))))
		}
		return c.newBig(ac.node())
	})
	mach := func(n, typ string) {
		S(n, func(c *call) *Node {
			lo, hi := typeRange(typ)
			return bigAtom(c, lo, hi, nil)
		})
	}
	mach("Uint8", "uint8")
	mach("Uint16", "uint16")
	S("Range", func(c *call) *Node {
		return bigAtom(c, big.NewInt(c.constInt(1)), big.NewInt(c.constInt(2)), nil)
	})
	S("Bool", func(c *call) *Node { return mkBool(bddVar(rawAtom(SBool, "in:"+c.constStr(0)))) })
	S("Str", func(c *call) *Node { return bytesOf(rawAtom(SBytes, "in:"+c.constStr(0))) })
	S("Bytes", func(c *call) *Node {
		return c.in.bytesAsSlice(c.st, bytesOf(rawAtom(SBytes, "in:"+c.constStr(0))))
	})
	S("BytesN", func(c *call) *Node {
		n := c.constInt(1)
		if n == 0 {
			return c.in.bytesAsSlice(c.st, emptyBytes)
		}
		return c.in.bytesAsSlice(c.st, bytesOf(rawAtom(SBytes, "inN:"+c.constStr(0), intNode(n))))
	})
	S("Group", func(c *call) *Node { return c.in.mkGroup(c.st, c.constStr(0), nil, nil, false) })
	S("GroupN", func(c *call) *Node {
		hex := func(i int) *Node {
			s := c.constStr(i)
			if s == "" {
				return nil
			}
			v, ok := new(big.Int).SetString(s, 16)
			if !ok {
				c.fail("bad number")
			}
			return bigNode(v)
		}
		return c.in.mkGroup(c.st, c.constStr(0), hex(1), hex(2), c.args[3] == tt)
	})
	elemIn := func(op string) func(c *call) *Node {
		return func(c *call) *Node {
			g := c.args[0]
			if g.kind != KIface || g.op != "!group" {
				c.fail("not an abstract group")
			}
			return mkElem(c, elemAtom(g.args[0], rawAtom(SElem, op+c.constStr(1), g.args[0])))
		}
	}
	S("Elem", elemIn("in:"))
	S("NZ", func(c *call) *Node {
		g := c.args[0]
		return mkElem(c, elemAtom(g.args[0], rawAtom(SElem, "nz", g.args[0], strNode(c.constStr(1)))))
	})
	S("ModP", func(c *call) *Node {
		p, ok := new(big.Int).SetString(strings.Join(strings.Fields(c.constStr(0)), ""), 16)
		g, ok2 := new(big.Int).SetString(c.constStr(1), 16)
		if !ok || !ok2 {
			c.fail("bad number")
		}
		registerModp(p, g)
		return mkTuple()
	})
	S("ModPElem", func(c *call) *Node {
		p, _ := new(big.Int).SetString(strings.Join(strings.Fields(c.constStr(0)), ""), 16)
		g := modpGroups[p.String()]
		if g == nil {
			c.fail("group not registered")
		}
		return c.newBig(elInt(g, elemAtom(g.grp, rawAtom(SElem, "in:"+c.constStr(1), g.grp))))
	})
	S("ListLen", func(c *call) *Node {
		c.in.shapes[strings.ToLower(c.constStr(0))] = int(c.constInt(1))
		return mkTuple()
	})
	S("Stub", func(c *call) *Node {
		f := c.args[1]
		if f.kind == KIface {
			f = f.args[0]
		}
		if f.kind != KFunc {
			c.fail("stub is not a function")
		}
		c.in.stubs[c.constStr(0)] = f
		return mkTuple()
	})
	S("Unstub", func(c *call) *Node { delete(c.in.stubs, c.constStr(0)); return mkTuple() })
	S("Assume", func(c *call) *Node {
		b := toBool(c.args[0])
		c.st.cond = bddAnd(c.st.cond, b)
		return mkTuple()
	})
	S("Check", func(c *call) *Node {
		c.in.obligation(c.st, c.constStr(0), toBool(c.args[1]), "")
		return mkTuple()
	})
	S("Debug", func(c *call) *Node {
		for _, r := range append([]*Node{c.args[0]}, c.in.reach(c.st, c.args[0])...) {
			v := r
			if r.kind == KRoot {
				v = c.st.heap.get(rootKey(r))
			}
			println("DEBUG", showD(r, 12), "=", showD(v, 14))
		}
		println("  cond", showBdd(c.st.cond, 14))
		return mkTuple()
	})
	S("Reach", func(c *call) *Node {
		c.in.obligation(c.st, c.constStr(0), bddT, "")
		return mkTuple()
	})
	S("Eq", func(c *call) *Node {
		e := &deepEq{in: c.in, st: c.st, seen: map[[2]*Node]bool{}}
		return mkBool(e.eq(unface(c.args[0]), unface(c.args[1])))
	})
	S("Panics", func(c *call) *Node {
		before := c.st.copy()
		n := len(c.in.panics)
		c.in.callValue(c.st, c.args[0], nil, c.pos)
		p := bddF
		for _, r := range c.in.panics[n:] {
			p = bddOr(p, r.cond)
		}
		c.in.panics = c.in.panics[:n]
		if !feasible(c.st.cond) {
			c.st.heap = before.heap
		}
		c.st.cond = before.cond
		return mkBool(p)
	})
	S("Freeze", func(c *call) *Node {
		c.in.frozen = append(c.in.frozen, snapshot{c.st.heap, rootCount})
		c.in.writes, c.in.bareReads = nil, nil
		return mkTuple()
	})
	S("Unwritten", func(c *call) *Node {
		if len(c.in.frozen) == 0 {
			c.fail("nothing is frozen")
		}
		ok := bddT
		for _, w := range c.in.writes {
			if w.bare || !w.once && c.in.bareReads[w.key] {
				ok = bddAnd(ok, bddNot(w.cond))
				if feasible(w.cond) && !strings.Contains(c.in.note, w.where) {
					c.in.note += "; shared memory is written at " + w.where
				}
			}
		}
		return mkBool(ok)
	})
	S("Intact", func(c *call) *Node {
		if len(c.in.frozen) == 0 {
			c.fail("nothing is frozen")
		}
		s := c.in.frozen[len(c.in.frozen)-1]
		ok := bddT
		s.heap.merge(c.st.heap, func(k int, a, b *Node) *Node {
			if a == nil || b == nil || k > s.next || c.in.exempt[k] {
				return a
			}
			e := &deepEq{in: c.in, st: c.st, seen: map[[2]*Node]bool{}, shallow: true}
			ok = bddAnd(ok, e.eq(a, b))
			return a
		})
		return mkBool(ok)
	})
	S("Mutate", func(c *call) *Node {
		cells := c.in.reach(c.st, c.args[0])
		vars := map[*Node]bool{}
		for _, r := range cells {
			v := c.st.heap.get(rootKey(r))
			if w := scramble(v, vars); w != v {
				c.st.heap = c.st.heap.set(rootKey(r), w)
			}
		}
		return mkTuple()
	})
	S("Shared", func(c *call) *Node {
		a, b := map[*Node]bool{}, c.in.reach(c.st, c.args[1])
		for _, r := range c.in.reach(c.st, c.args[0]) {
			a[r] = true
		}
		for _, r := range b {
			if a[r] && scalarCell(c.st.heap.get(rootKey(r))) {
				return tt
			}
		}
		return ff
	})
	S("Coef", func(c *call) *Node {
		e, b := c.elem(0, nil), c.elem(1, nil)
		if e == nil || b == nil || len(b.lin.ents) != 1 || b.lin.ents[0].coef != one {
			c.fail("not a base element")
		}
		for _, x := range e.lin.ents {
			if x.base == b.lin.ents[0].base {
				return c.newBig(x.coef)
			}
		}
		return c.newBig(zero)
	})
	S("Uniform", func(c *call) *Node {
		x, n := c.big(0), c.big(1)
		return boolNode(c.in.isUniform(x, n))
	})
	S("SameDraw", func(c *call) *Node {
		a := map[*Node]bool{}
		c.in.draws(c.st, c.args[0], a)
		b := map[*Node]bool{}
		c.in.draws(c.st, c.args[1], b)
		for d := range a {
			if b[d] {
				return tt
			}
		}
		return ff
	})
	S("Draw", func(c *call) *Node {
		i, ok := constI(c.args[0])
		if !ok || i < 0 || i >= int64(len(c.in.randIDs)) {
			c.fail("no such draw")
		}
		return c.newBig(asInt(c.in.randIDs[i]))
	})
	S("Faults", func(c *call) *Node { c.in.faults, c.in.failed = true, bddF; return mkTuple() })
	S("Failed", func(c *call) *Node { return mkBool(c.in.failed) })
	S("Draws", func(c *call) *Node { return intNode(int64(c.in.randN)) })
	S("DependsOn", func(c *call) *Node {
		on := map[*Node]bool{}
		c.in.leavesOf(c.st, c.args[1], on)
		all := map[*Node]bool{}
		c.in.leavesOf(c.st, c.args[0], all)
		for x := range on {
			if all[x] {
				return tt
			}
		}
		return ff
	})
	S("Printed", func(c *call) *Node {
		on := map[*Node]bool{}
		c.in.leavesOf(c.st, c.args[0], on)
		for _, p := range c.in.prints {
			if !feasible(p.cond) {
				continue
			}
			all := map[*Node]bool{}
			for _, a := range p.args {
				c.in.leavesOf(c.st, a, all)
			}
			for x := range on {
				if all[x] {
					return tt
				}
			}
		}
		return ff
	})
}

func boolNode(b bool) *Node {
	if b {
		return tt
	}
	return ff
}

// isUniform: x is (a draw below n) or 1 + (a draw below n-1), up to a fixed multiple modulo n.
func (in *interp) isUniform(x, n *Node) bool {
	a, k, ok := affine1(x)
	if !ok || a.kind != KAtom {
		return false
	}
	if a.op == "mod" && a.args[1] == n {
		return in.isUniform(a.args[0], n)
	}
	if a.op != "rand" {
		return false
	}
	if k.Sign() == 0 {
		return a.args[1] == n || a.args[1] == subInt(n, one)
	}
	return k.Cmp(bigOne) == 0 && a.args[1] == subInt(n, one)
}

func unface(n *Node) *Node {
	if n.kind == KIface && n.op[0] != '!' {
		return n.args[0]
	}
	return n
}

// deepEq compares values through pointers.
type deepEq struct {
	in      *interp
	st      *state
	seen    map[[2]*Node]bool
	shallow bool
}

func (e *deepEq) eq(a, b *Node) *bdd {
	if a == b {
		return bddT
	}
	if a.kind == KMT || b.kind == KMT {
		return toBool(lift(func(xs []*Node) *Node { return mkBool(e.eq(xs[0], xs[1])) }, a, b))
	}
	if a.kind == KUndef || b.kind == KUndef {
		return bddF
	}
	isEmpty := func(n *Node) bool {
		return n.kind == KNil || n.kind == KSlice && n.args[2] == zero
	}
	if isEmpty(a) && isEmpty(b) {
		return bddT
	}
	if a.kind == KNil && b.kind == KSlice {
		return eq0(b.args[2])
	}
	if b.kind == KNil && a.kind == KSlice {
		return eq0(a.args[2])
	}
	if a.kind == KErr || b.kind == KErr {
		nn := func(n *Node) *bdd {
			if n.kind == KErr {
				return toBool(n.args[0])
			}
			if n.kind == KNil {
				return bddF
			}
			return bddT
		}
		return bddNot(bddXor(nn(a), nn(b)))
	}
	switch {
	case a.sort == SInt && b.sort == SInt:
		return eq0(subInt(a, b))
	case a.sort == SBool && b.sort == SBool:
		return bddNot(bddXor(toBool(a), toBool(b)))
	}
	if a.kind != b.kind {
		return bddF
	}
	switch a.kind {
	case KElem:
		if a.lin.grp != b.lin.grp {
			return bddF
		}
		return elemIsZero(elemSub(a, b))
	case KBytes:
		return bytesEq(a, b)
	case KStruct, KTuple:
		if a.op != b.op || len(a.args) != len(b.args) {
			return bddF
		}
		r := bddT
		for i := range a.args {
			r = bddAnd(r, e.eq(a.args[i], b.args[i]))
		}
		return r
	case KIface:
		if a.op != b.op {
			return bddF
		}
		if a.op == "!group" {
			return bddF
		}
		r := bddT
		for i := range a.args {
			r = bddAnd(r, e.eq(a.args[i], b.args[i]))
		}
		return r
	case KSlice:
		if e.shallow {
			return e.in.eqVals(e.st, mkTupleArgs(a), mkTupleArgs(b))
		}
		n := eq0(subInt(a.args[2], b.args[2]))
		if n == bddF {
			return bddF
		}
		ca, cb := e.in.loadLeaf(e.st, a.args[0]), e.in.loadLeaf(e.st, b.args[0])
		if isBytesCell(ca) || isBytesCell(cb) {
			return bddAnd(n, toBool(lift(func(xs []*Node) *Node { return mkBool(bytesEq(xs[0], xs[1])) }, e.in.sliceBytes(e.st, a), e.in.sliceBytes(e.st, b))))
		}
		k, ok := constI(a.args[2])
		if !ok || n != bddT {
			fail("comparison of slices of unknown length")
		}
		c := &call{in: e.in, st: e.st}
		xs, ys := c.list(a), c.list(b)
		for i := int64(0); i < k; i++ {
			n = bddAnd(n, e.eq(xs[i], ys[i]))
		}
		return n
	case KRef:
		if e.shallow {
			return bddF
		}
		k := [2]*Node{a, b}
		if e.seen[k] {
			return bddT
		}
		e.seen[k] = true
		r := e.eq(e.in.loadLeaf(e.st, a), e.in.loadLeaf(e.st, b))
		delete(e.seen, k)
		return r
	case KAtom, KVar:
		return sameNode(a, b)
	}
	return bddF
}

func mkTupleArgs(n *Node) *Node { return mkStruct("slice", n.args...) }

func isBytesCell(c *Node) bool {
	if c.kind == KMT {
		return isBytesCell(c.args[1])
	}
	return c.kind == KBytes
}

// reach lists the heap cells reachable from a value.
func (in *interp) reach(st *state, v *Node) []*Node {
	seen := map[*Node]bool{}
	var out []*Node
	var rec func(n *Node)
	visited := map[*Node]bool{}
	rec = func(n *Node) {
		if n == nil || visited[n] {
			return
		}
		visited[n] = true
		switch n.kind {
		case KRef:
			r := n.args[0]
			if !seen[r] {
				seen[r] = true
				out = append(out, r)
				rec(st.heap.get(rootKey(r)))
			}
		case KIface:
			if n.op == "!group" || n.op == "!xgroup" {
				return
			}
			for _, a := range n.args {
				rec(a)
			}
		case KStruct, KTuple, KMT, KSlice, KFunc:
			for _, a := range n.args {
				rec(a)
			}
		}
	}
	rec(v)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// scalarCell: cells that hold a value which can be changed in place.
func scalarCell(c *Node) bool {
	if c == nil {
		return false
	}
	switch c.kind {
	case KInt, KElem:
		return true
	case KBytes:
		return len(c.segs) > 0
	case KMT:
		return scalarCell(c.args[1]) || scalarCell(c.args[2])
	case KStruct:
		return c.op == "array" && len(c.args) > 0
	}
	return false
}

func scramble(n *Node, vars map[*Node]bool) *Node {
	switch n.kind {
	case KInt, KElem, KBytes, KBool:
		if n.kind == KBytes && len(n.segs) == 0 {
			return n
		}
		return havocNode(n, vars)
	case KStruct:
		args := make([]*Node, len(n.args))
		for i, a := range n.args {
			args[i] = scramble(a, vars)
		}
		return rawKind(KStruct, n.op, args...)
	}
	return n
}

// leavesOf collects the input and random atoms a value is computed from.
func (in *interp) leavesOf(st *state, v *Node, out map[*Node]bool) {
	seen := map[*Node]bool{}
	var rec func(n *Node)
	recB := func(b *bdd) {
		at := map[*Node]bool{}
		bddAtoms(b, at)
		for a := range at {
			rec(a)
		}
	}
	rec = func(n *Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		switch n.kind {
		case KInt:
			for _, t := range n.poly {
				for _, f := range t.fac {
					rec(f.a)
					rec(f.e)
				}
			}
		case KBool:
			recB(n.b)
		case KElem:
			for _, e := range n.lin.ents {
				rec(e.base)
				rec(e.coef)
			}
		case KBytes:
			for _, s := range n.segs {
				rec(s)
			}
		case KAtom, KVar:
			if n.op == "rand" || strings.HasPrefix(n.op, "in:") || n.op == "bit" || strings.HasPrefix(n.op, "inN:") {
				out[n] = true
			}
			if n.op == "rand" {
				return
			}
			for _, a := range n.args {
				rec(a)
			}
		case KRef:
			if c := st.heap.get(rootKey(n.args[0])); c != nil {
				rec(getPath(c, n.args[1:]))
			}
		case KSlice:
			c := st.heap.get(rootKey(n.args[0].args[0]))
			if c != nil {
				rec(c)
			}
		case KIface:
			if n.op == "!group" || n.op == "!xgroup" {
				return
			}
			for _, a := range n.args {
				rec(a)
			}
		default:
			for _, a := range n.args {
				rec(a)
			}
		}
	}
	rec(v)
}

// draws collects the random draws a value is computed from.
func (in *interp) draws(st *state, v *Node, out map[*Node]bool) {
	all := map[*Node]bool{}
	in.leavesOf(st, v, all)
	for a := range all {
		if a.op == "rand" {
			out[a] = true
		}
	}
}

var _ = types.Typ
