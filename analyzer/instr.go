package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// instr evaluates one instruction that is not a terminator.
func (fr *frame) instr(st *state, ins ssa.Instruction) {
	in := fr.in
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.set(st, x, in.alloc(st, zeroValue(x.Type().Underlying().(*types.Pointer).Elem())))
	case *ssa.BinOp:
		fr.set(st, x, in.binop(st, x.Op, fr.val(st, x.X), fr.val(st, x.Y), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.UnOp:
		v := fr.val(st, x.X)
		switch x.Op {
		case token.MUL:
			fr.set(st, x, in.load(st, v, x.Pos()))
		case token.NOT:
			fr.set(st, x, mkBool(bddNot(toBool(v))))
		case token.SUB:
			if f, ok := floatOf(v); ok {
				fr.set(st, x, floatNode(-f))
				return
			}
			fr.set(st, x, wrapInt(normIntName(intTypeName(x.Type())), negInt(v)))
		case token.XOR:
			t := normIntName(intTypeName(x.Type()))
			fr.set(st, x, wrapInt(t, subInt(intNode(-1), v)))
		default:
			fail("operator %s at %s", x.Op, in.pos(x.Pos()))
		}
	case *ssa.Call:
		v := fr.callCommon(st, x.Common(), x.Pos())
		if !feasible(st.cond) {
			return
		}
		fr.set(st, x, v)
	case *ssa.ChangeInterface:
		fr.set(st, x, fr.val(st, x.X))
	case *ssa.ChangeType:
		fr.set(st, x, fr.val(st, x.X))
	case *ssa.Convert:
		fr.set(st, x, in.convert(st, fr.val(st, x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.MultiConvert:
		fr.set(st, x, in.convert(st, fr.val(st, x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.Extract:
		t := fr.val(st, x.Tuple)
		fr.set(st, x, mtMap(t, func(t *Node) *Node {
			if t.kind == KUndef {
				return undef
			}
			return t.args[x.Index]
		}))
	case *ssa.Field:
		fr.set(st, x, getPath(fr.val(st, x.X), []*Node{intNode(int64(x.Field))}))
	case *ssa.FieldAddr:
		fr.set(st, x, in.subRef(st, fr.val(st, x.X), intNode(int64(x.Field)), x.Pos()))
	case *ssa.Index:
		c, i := fr.val(st, x.X), asInt(fr.val(st, x.Index))
		switch t := x.X.Type().Underlying().(type) {
		case *types.Array:
			in.panicIf(st, outside(i, intNode(t.Len())), x.Pos(), "index out of range")
		default:
			in.panicIf(st, outside(i, liftLen(c)), x.Pos(), "index out of range")
		}
		if !feasible(st.cond) {
			return
		}
		fr.set(st, x, in.indexVal(c, i))
	case *ssa.IndexAddr:
		fr.set(st, x, in.indexAddr(st, fr.val(st, x.X), asInt(fr.val(st, x.Index)), x.X.Type(), x.Pos()))
	case *ssa.Lookup:
		fr.lookup(st, x)
	case *ssa.MapUpdate:
		in.mapUpdate(st, fr.val(st, x.Map), fr.val(st, x.Key), fr.val(st, x.Value), x.Pos())
	case *ssa.MakeMap:
		fr.set(st, x, in.alloc(st, mkStruct("map")))
	case *ssa.MakeClosure:
		var bind []*Node
		for _, b := range x.Bindings {
			bind = append(bind, fr.val(st, b))
		}
		fr.set(st, x, in.funcNode(x.Fn.(*ssa.Function), bind))
	case *ssa.MakeInterface:
		fr.set(st, x, mkIface(x.X.Type(), fr.val(st, x.X)))
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		fr.set(st, x, in.makeSlice(st, el, asInt(fr.val(st, x.Len)), asInt(fr.val(st, x.Cap)), x.Pos()))
	case *ssa.Slice:
		fr.set(st, x, fr.slice(st, x))
	case *ssa.SliceToArrayPointer:
		s := fr.val(st, x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if s.kind == KSlice && s.args[1] == zero {
			in.panicIf(st, pos(subInt(intNode(n), s.args[2])), x.Pos(), "slice shorter than array")
			fr.set(st, x, s.args[0])
			return
		}
		fail("slice to array conversion at %s", in.pos(x.Pos()))
	case *ssa.Store:
		in.store(st, fr.val(st, x.Addr), fr.val(st, x.Val), x.Pos())
	case *ssa.TypeAssert:
		fr.set(st, x, in.typeAssert(st, fr.val(st, x.X), x.AssertedType, x.CommaOk, x.Pos()))
	case *ssa.Defer:
		call := *x.Common()
		args, fnv, recv := fr.callArgs(st, &call)
		cond := st.cond
		fr.defers = append(fr.defers, deferRec{cond, func(s *state) {
			fr.dispatch(s, &call, args, fnv, recv, x.Pos())
		}})
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			hi := bddAnd(st.cond, d.cond)
			if !feasible(hi) {
				continue
			}
			s := st.copy()
			s.cond = hi
			d.run(s)
			lo := st.copy()
			lo.cond = bddAnd(st.cond, bddNot(d.cond))
			var l []*state
			for _, y := range []*state{s, lo} {
				if feasible(y.cond) {
					l = append(l, y)
				}
			}
			if len(l) == 0 {
				st.cond = bddF
				return
			}
			*st = *joinStates(l)
		}
	case *ssa.Range:
		fr.set(st, x, fr.rangeStart(st, x))
	case *ssa.Next:
		fr.set(st, x, fr.rangeNext(st, x))
	default:
		fail("%T at %s in %s", ins, in.pos(ins.Pos()), fr.fn)
	}
}

type deferRec struct {
	cond *bdd
	run  func(*state)
}

func mkIface(t types.Type, v *Node) *Node {
	return rawKind(KIface, typeKey(t), v)
}

// outside: i < 0 or i >= n.
func outside(i, n *Node) *bdd {
	return bddOr(pos(negInt(i)), pos(addInt(subInt(i, n), one)))
}

func liftLen(c *Node) *Node {
	return lift(func(xs []*Node) *Node { return bytesLen(xs[0]) }, c)
}

func (in *interp) indexVal(c, i *Node) *Node {
	if k, ok := splitIndex(i); ok {
		return iteV(k.c, in.indexVal(c, k.hi), in.indexVal(c, k.lo))
	}
	return getPath(c, []*Node{i})
}

type split struct {
	c      *bdd
	hi, lo *Node
}

// byInd: a number with finitely many values, told apart by conditions.
func byInd(n *Node) bool {
	found := false
	for _, t := range n.poly {
		for _, f := range t.fac {
			if f.a.kind != KAtom || f.a.op != "ind" {
				return false
			}
			found = true
		}
	}
	return found
}

// signCases writes a sign as the indicators of its two cases.
func signCases(n *Node) *Node {
	var m map[*Node]*Node
	for _, t := range n.poly {
		for _, f := range t.fac {
			if f.a.kind != KAtom || (f.a.op != "sgn" && f.a.op != "ind") {
				return n
			}
			if f.a.op == "sgn" {
				if m == nil {
					m = map[*Node]*Node{}
				}
				m[f.a] = subInt(indOf(pos(f.a.args[0])), indOf(pos(negInt(f.a.args[0]))))
			}
		}
	}
	if m == nil {
		return n
	}
	return subst(n, m)
}

// splitIndex takes cases on an indicator inside an index.
func splitIndex(i *Node) (split, bool) {
	for _, t := range i.poly {
		for _, f := range t.fac {
			if f.a.kind == KAtom && f.a.op == "ind" {
				return split{toBool(f.a.args[0]), subst(i, map[*Node]*Node{f.a: one}), subst(i, map[*Node]*Node{f.a: zero})}, true
			}
		}
	}
	return split{}, false
}

// subRef extends a reference by one step.
func (in *interp) subRef(st *state, ref, step *Node, p token.Pos) *Node {
	var out *Node
	care := st.cond
	for _, lf := range leaves(st.cond, ref) {
		var r *Node
		switch lf.n.kind {
		case KNil:
			in.panicIf(st, bddRestrict(lf.c, care), p, "nil pointer dereference")
			continue
		case KRef:
			r = rawKind(KRef, "", append(append([]*Node(nil), lf.n.args...), step)...)
		default:
			fail("address inside %s", show(lf.n))
		}
		if out == nil {
			out = r
		} else {
			out = iteV(bddRestrict(lf.c, care), r, out)
		}
	}
	if out == nil {
		return undef
	}
	return out
}

func (in *interp) indexAddr(st *state, v, i *Node, t types.Type, p token.Pos) *Node {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		n := pt.Elem().Underlying().(*types.Array).Len()
		in.panicIf(st, outside(i, intNode(n)), p, "index out of range")
		if !feasible(st.cond) {
			return undef
		}
		return in.splitRef(st, v, i, p)
	}
	var out *Node
	care := st.cond
	for _, lf := range leaves(st.cond, v) {
		var r *Node
		c := bddRestrict(lf.c, care)
		switch lf.n.kind {
		case KNil:
			in.panicIf(st, c, p, "index out of range")
			continue
		case KSlice:
			in.panicIf(st, bddAnd(c, outside(i, lf.n.args[2])), p, "index out of range")
			if !feasible(bddAnd(st.cond, c)) {
				continue
			}
			r = in.splitRef(st, lf.n.args[0], addInt(lf.n.args[1], i), p)
		default:
			fail("index of %s at %s", show(lf.n), in.pos(p))
		}
		if out == nil {
			out = r
		} else {
			out = iteV(c, r, out)
		}
	}
	if out == nil {
		return undef
	}
	return out
}

func (in *interp) splitRef(st *state, ref, i *Node, p token.Pos) *Node {
	if k, ok := splitIndex(i); ok {
		return iteV(k.c, in.splitRef(st, ref, k.hi, p), in.splitRef(st, ref, k.lo, p))
	}
	return in.subRef(st, ref, i, p)
}

func (in *interp) makeSlice(st *state, el types.Type, n, c *Node, p token.Pos) *Node {
	in.panicIf(st, pos(negInt(n)), p, "negative slice length")
	in.panicIf(st, pos(subInt(n, c)), p, "slice length larger than capacity")
	if !feasible(st.cond) {
		return undef
	}
	if isByteElem(el) {
		r := in.alloc(st, mkBytes([]*Node{rawAtom(SBytes, "zero", c)}))
		return mkSlice(r, zero, n, c)
	}
	k, ok := constI(c)
	if !ok {
		if m := settle(st, c); m != c {
			return in.makeSlice(st, el, settle(st, n), m, p)
		}
		if _, split := splitIndex(c); split {
			return in.cases(st, []*Node{n, c}, func(s *state, v []*Node) *Node { return in.makeSlice(s, el, v[0], v[1], p) })
		}
		fail("slice length not fixed by the shape of the data: %s at %s", show(c), in.pos(p))
	}
	r := in.alloc(st, zeroArray(el, k))
	return mkSlice(r, zero, n, c)
}

// bytesAsSlice makes a fresh byte slice with the given content.
func (in *interp) bytesAsSlice(st *state, b *Node) *Node {
	n := liftLen(b)
	return mkSlice(in.alloc(st, b), zero, n, n)
}

// sliceBytes is the content of a byte slice.
func (in *interp) sliceBytes(st *state, s *Node) *Node {
	return mtMap(s, func(s *Node) *Node {
		switch s.kind {
		case KNil:
			return emptyBytes
		case KUndef:
			return undef
		case KSlice:
			c := in.loadLeaf(st, s.args[0])
			if s.args[1] == zero && s.args[2] == liftLen(c) {
				return c
			}
			return in.cutBytes(st, c, s.args[1], s.args[2])
		case KBytes:
			return s
		}
		fail("not a byte slice: %s", show(s))
		return nil
	})
}

// cutBytes is c[off:off+n] where st is reached.
func (in *interp) cutBytes(st *state, c, off, n *Node) *Node {
	off, n = settle(st, off), settle(st, n)
	for _, x := range []*Node{off, n} {
		if k, ok := splitIndex(x); ok {
			s1, s2 := *st, *st
			s1.cond, s2.cond = bddAnd(st.cond, k.c), bddAnd(st.cond, bddNot(k.c))
			return iteV(k.c, in.cutBytes(&s1, c, off, n), in.cutBytes(&s2, c, off, n))
		}
	}
	var out *Node
	for _, lf := range leaves(st.cond, c) {
		r := subBytes(lf.n, off, addInt(off, n))
		if out == nil {
			out = r
		} else {
			out = iteV(bddRestrict(lf.c, st.cond), r, out)
		}
	}
	if out == nil {
		return emptyBytes
	}
	return out
}

func (fr *frame) slice(st *state, x *ssa.Slice) *Node {
	in := fr.in
	v := fr.val(st, x.X)
	opt := func(y ssa.Value) *Node {
		if y == nil {
			return nil
		}
		return settle(st, asInt(fr.val(st, y)))
	}
	lo, hi, max := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = zero
	}
	check := func(c *bdd, ln, cp *Node) {
		b := pos(negInt(lo))
		b = bddOr(b, pos(subInt(lo, hi)))
		b = bddOr(b, pos(subInt(hi, cp)))
		if max != nil {
			b = bddOr(b, pos(subInt(max, cp)))
			b = bddOr(b, pos(subInt(hi, max)))
		}
		in.panicIf(st, bddAnd(c, b), x.Pos(), "slice bounds out of range")
	}
	var out *Node
	care := st.cond
	hi0 := hi
	for _, lf := range leaves(st.cond, v) {
		c := bddRestrict(lf.c, care)
		hi = hi0
		var r *Node
		switch t := x.X.Type().Underlying().(type) {
		case *types.Basic: // string
			n := bytesLen(lf.n)
			if hi == nil {
				hi = n
			}
			check(c, n, n)
			if !feasible(bddAnd(st.cond, c)) {
				continue
			}
			r = subBytes(lf.n, lo, hi)
		case *types.Pointer:
			n := intNode(t.Elem().Underlying().(*types.Array).Len())
			if hi == nil {
				hi = n
			}
			check(c, n, n)
			cp := n
			if max != nil {
				cp = max
			}
			r = mkSlice(lf.n, lo, subInt(hi, lo), subInt(cp, lo))
		default:
			if lf.n.kind == KNil {
				if hi == nil {
					hi = zero
				}
				check(c, zero, zero)
				r = nilNode
				break
			}
			if lf.n.kind != KSlice {
				fail("slicing %s", show(lf.n))
			}
			if hi == nil {
				hi = settle(st, lf.n.args[2])
			}
			check(c, lf.n.args[2], lf.n.args[3])
			cp := lf.n.args[3]
			if max != nil {
				cp = max
			}
			r = mkSlice(lf.n.args[0], addInt(lf.n.args[1], lo), subInt(hi, lo), subInt(cp, lo))
		}
		if out == nil {
			out = r
		} else {
			out = iteV(c, r, out)
		}
	}
	if out == nil {
		return undef
	}
	return out
}

// ---------------------------------------------------------------- operators

func (in *interp) binop(st *state, op token.Token, a, b *Node, xt, rt types.Type, p token.Pos) *Node {
	if a.kind == KUndef || b.kind == KUndef {
		if op == token.EQL || op == token.NEQ {
			return ff
		}
		return undef
	}
	switch op {
	case token.EQL:
		return mkBool(in.eqVals(st, a, b))
	case token.NEQ:
		return mkBool(bddNot(in.eqVals(st, a, b)))
	}
	bt, ok := xt.Underlying().(*types.Basic)
	if !ok {
		fail("operator %s on %s", op, xt)
	}
	if bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return mkBool(bddAnd(toBool(a), toBool(b)))
		case token.OR, token.LOR:
			return mkBool(bddOr(toBool(a), toBool(b)))
		case token.XOR:
			return mkBool(bddXor(toBool(a), toBool(b)))
		}
	}
	if bt.Info()&types.IsString != 0 {
		if op == token.ADD {
			return lift(func(xs []*Node) *Node { return concat(xs[0], xs[1]) }, a, b)
		}
		fail("operator %s on strings at %s", op, in.pos(p))
	}
	if bt.Info()&types.IsFloat != 0 {
		f, ok1 := floatOf(a)
		g, ok2 := floatOf(b)
		if !ok1 || !ok2 {
			fail("arithmetic on floating point values at %s", in.pos(p))
		}
		tb := func(x bool) *Node {
			if x {
				return tt
			}
			return ff
		}
		switch op {
		case token.ADD:
			return floatNode(f + g)
		case token.SUB:
			return floatNode(f - g)
		case token.MUL:
			return floatNode(f * g)
		case token.QUO:
			return floatNode(f / g)
		case token.LSS:
			return tb(f < g)
		case token.LEQ:
			return tb(f <= g)
		case token.GTR:
			return tb(f > g)
		case token.GEQ:
			return tb(f >= g)
		}
		fail("operator %s on floats", op)
	}
	if a.kind == KAtom && a.op == "time" || b.kind == KAtom && b.op == "time" {
		return rawAtom(SInt, "time")
	}
	a, b = asInt(a), asInt(b)
	switch op {
	case token.LSS:
		return mkBool(pos(subInt(b, a)))
	case token.GTR:
		return mkBool(pos(subInt(a, b)))
	case token.LEQ:
		return mkBool(bddNot(pos(subInt(a, b))))
	case token.GEQ:
		return mkBool(bddNot(pos(subInt(b, a))))
	}
	tn := normIntName(intTypeName(rt))
	w := func(n *Node) *Node { return wrapInt(tn, n) }
	switch op {
	case token.QUO, token.REM, token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT:
		a, b = signCases(a), signCases(b)
		if byInd(a) || byInd(b) {
			return in.cases(st, []*Node{a, b}, func(s *state, v []*Node) *Node { return in.binop(s, op, v[0], v[1], xt, rt, p) })
		}
	}
	switch op {
	case token.ADD:
		return w(addInt(a, b))
	case token.SUB:
		return w(subInt(a, b))
	case token.MUL:
		return w(mulInt(a, b))
	case token.QUO, token.REM:
		in.panicIf(st, eq0(b), p, "division by zero")
		if !feasible(st.cond) {
			return undef
		}
		q := truncDiv(a, b)
		if op == token.QUO {
			return w(q)
		}
		if nonNeg(a) && nonNeg(b) {
			return w(modInt(a, b))
		}
		return w(subInt(a, mulInt(b, q)))
	case token.SHL:
		in.panicIf(st, pos(negInt(b)), p, "negative shift")
		if k, ok := constI(b); ok && k >= 64 {
			return zero
		}
		return w(mulInt(a, powInt(two, b)))
	case token.SHR:
		in.panicIf(st, pos(negInt(b)), p, "negative shift")
		return w(divInt(a, powInt(two, b)))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		ca, ok1 := constOf(a)
		cb, ok2 := constOf(b)
		if ok1 && ok2 {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(ca, cb)
			case token.OR:
				r.Or(ca, cb)
			case token.XOR:
				r.Xor(ca, cb)
			default:
				r.AndNot(ca, cb)
			}
			return w(bigNode(r))
		}
		if op == token.AND {
			if ok1 {
				a, b, cb, ok2 = b, a, ca, true
			}
			if ok2 && cb.Sign() >= 0 {
				m := new(big.Int).Add(cb, big.NewInt(1))
				if _, ok := ilog(m, 2); ok {
					return w(modInt(a, bigNode(m)))
				}
			}
		}
		if a.id > b.id && op != token.AND_NOT {
			a, b = b, a
		}
		r := rawAtom(SInt, "bits"+op.String(), a, b)
		if nonNeg(a) && nonNeg(b) {
			atomLo[r] = new(big.Int)
			_, hi := typeRange(tn)
			atomUp[r] = hi
		}
		return w(asInt(r))
	}
	fail("operator %s at %s", op, in.pos(p))
	return nil
}

// truncDiv is division truncated towards zero.
func truncDiv(a, b *Node) *Node {
	if nonNeg(a) && nonNeg(b) {
		return divInt(a, b)
	}
	if ca, ok := constOf(a); ok {
		if cb, ok := constOf(b); ok {
			return bigNode(new(big.Int).Quo(ca, cb))
		}
	}
	return asInt(rawAtom(SInt, "quo", a, b))
}

// eqVals is equality of two values of one type.
func (in *interp) eqVals(st *state, a, b *Node) *bdd {
	if a == b {
		return bddT
	}
	if a.kind == KUndef || b.kind == KUndef {
		return bddF
	}
	if a.kind == KMT || b.kind == KMT {
		return toBool(lift(func(xs []*Node) *Node { return mkBool(in.eqVals(st, xs[0], xs[1])) }, a, b))
	}
	if a.kind == KErr && b.kind == KNil {
		return bddNot(toBool(a.args[0]))
	}
	if b.kind == KErr && a.kind == KNil {
		return bddNot(toBool(b.args[0]))
	}
	if a.kind == KErr && b.kind == KErr {
		// distinct error values are never identical; both may be nil
		return bddAnd(bddNot(toBool(a.args[0])), bddNot(toBool(b.args[0])))
	}
	if a.kind == KNil || b.kind == KNil {
		return bddF
	}
	switch {
	case a.sort == SInt && b.sort == SInt:
		return eq0(subInt(a, b))
	case a.sort == SBool && b.sort == SBool:
		return bddNot(bddXor(toBool(a), toBool(b)))
	case a.kind == KBytes && b.kind == KBytes:
		return bytesEq(a, b)
	}
	if f, ok := floatOf(a); ok {
		if g, ok := floatOf(b); ok {
			if f == g {
				return bddT
			}
			return bddF
		}
	}
	if a.kind != b.kind {
		return bddF
	}
	switch a.kind {
	case KRef:
		if len(a.args) != len(b.args) {
			return bddF
		}
		if a.args[0] != b.args[0] {
			return bddF
		}
		r := bddT
		for i := 1; i < len(a.args); i++ {
			r = bddAnd(r, eq0(subInt(a.args[i], b.args[i])))
		}
		return r
	case KIface:
		if a.op != b.op {
			return bddF
		}
		return in.eqVals(st, a.args[0], b.args[0])
	case KStruct:
		if len(a.args) != len(b.args) {
			return bddF
		}
		r := bddT
		for i := range a.args {
			r = bddAnd(r, in.eqVals(st, a.args[i], b.args[i]))
		}
		return r
	case KAtom:
		return sameNode(a, b)
	case KFunc:
		return bddF
	}
	fail("comparison of %s and %s", show(a), show(b))
	return nil
}

func (in *interp) convert(st *state, v *Node, from, to types.Type, p token.Pos) *Node {
	if v.kind == KUndef {
		return v
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return wrapInt(normIntName(intTypeName(to)), v)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			if c, ok := constOf(v); ok {
				f, _ := new(big.Float).SetInt(c).Float64()
				return floatNode(f)
			}
			return rawAtom(SOther, "float", v)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			if f, ok := floatOf(v); ok {
				if f != f || f > 9e18 || f < -9e18 { // NaN and out of range: implementation specific
					return asInt(rawAtom(SInt, "floatconv"))
				}
				return wrapInt(normIntName(intTypeName(to)), intNode(int64(f)))
			}
			fail("conversion of a floating point value at %s", in.pos(p))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return v
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if c, ok := constOf(v); ok {
				return strNode(string(rune(c.Int64())))
			}
		}
		fail("conversion %s to %s at %s", from, to, in.pos(p))
	}
	if ts, ok := tu.(*types.Slice); ok && fok && isByteElem(ts.Elem()) {
		return mtMap(v, func(x *Node) *Node { return in.bytesAsSlice(st, x) })
	}
	if fs, ok := fu.(*types.Slice); ok && tok && isByteElem(fs.Elem()) {
		return in.sliceBytes(st, v)
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	fail("conversion %s to %s at %s", from, to, in.pos(p))
	return nil
}

func (in *interp) typeAssert(st *state, v *Node, t types.Type, commaOk bool, p token.Pos) *Node {
	zv := zeroValue(t)
	_, toIface := t.Underlying().(*types.Interface)
	match := func(n *Node) (*Node, bool) {
		switch n.kind {
		case KNil, KUndef:
			return zv, false
		case KErr:
			if toIface && types.Implements(errorType, t.Underlying().(*types.Interface)) {
				return n, true
			}
			return zv, false
		case KIface:
			if toIface {
				if n.op[0] == '!' {
					return n, builtinImplements(n.op, t)
				}
				ct := typeReg[n.op]
				return n, types.Implements(ct, t.Underlying().(*types.Interface))
			}
			if n.op == typeKey(t) {
				return n.args[0], true
			}
			return zv, false
		}
		fail("type assertion on %s", show(n))
		return nil, false
	}
	var out *Node
	okc := bddF
	care := st.cond
	for _, lf := range leaves(st.cond, v) {
		c := bddRestrict(lf.c, care)
		r, ok := match(lf.n)
		if !ok && lf.n.kind == KIface && toIface {
			r = zv
		}
		if lf.n.kind == KErr && ok {
			// a non-nil error
			nn := toBool(lf.n.args[0])
			okc = bddOr(okc, bddAnd(c, nn))
			if !commaOk {
				in.panicIf(st, bddAnd(c, bddNot(nn)), p, "type assertion on nil")
			}
		} else if ok {
			okc = bddOr(okc, c)
		} else if !commaOk {
			in.panicIf(st, c, p, "failed type assertion")
			continue
		}
		if out == nil {
			out = r
		} else {
			out = iteV(c, r, out)
		}
	}
	if out == nil {
		out = zv
	}
	if commaOk {
		return mkTuple(out, mkBool(okc))
	}
	return out
}

var errorType = types.Universe.Lookup("error").Type()

func builtinImplements(op string, t types.Type) bool {
	it := t.Underlying().(*types.Interface)
	want := map[string][]string{
		"!elem":   {"Add", "Subtract", "Negate", "Scale", "BaseScale", "Set", "SetBytes", "MapToGroup", "IsEqual", "IsIdentity", "GroupOrder", "FieldOrder", "String", "MarshalBinary", "UnmarshalBinary", "MarshalJSON", "UnmarshalJSON"},
		"!group":  {"Name", "Element", "Generator", "Identity", "Random", "P", "N", "MarshalJSON"},
		"!xelem":  {"Add", "Neg", "IsEqual", "IsIdentity", "Set", "Mul", "MulGen", "MarshalBinary", "UnmarshalBinary", "MarshalBinaryCompress", "String", "Copy", "Dbl", "CMov", "CSelect", "Group"},
		"!hash":   {"Write", "Sum", "Reset", "Size", "BlockSize"},
		"!reader": {"Read"},
		"!multi":  {"Write"},
	}[op]
	for i := 0; i < it.NumMethods(); i++ {
		found := false
		for _, m := range want {
			if m == it.Method(i).Name() {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- maps and ranges

func (fr *frame) lookup(st *state, x *ssa.Lookup) {
	in := fr.in
	c, k := fr.val(st, x.X), fr.val(st, x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
		i := asInt(k)
		in.panicIf(st, outside(i, liftLen(c)), x.Pos(), "index out of range")
		if !feasible(st.cond) {
			return
		}
		fr.set(st, x, in.indexVal(c, i))
		return
	}
	mt := x.X.Type().Underlying().(*types.Map)
	out, ok := zeroValue(mt.Elem()), bddF
	for _, lf := range leaves(st.cond, c) {
		if lf.n.kind == KNil {
			continue
		}
		for _, ml := range leaves(bddAnd(st.cond, lf.c), in.loadLeaf(st, lf.n)) {
			if ml.n.kind != KStruct {
				fail("map not fixed by the shape of the data at %s", in.pos(x.Pos()))
			}
			v, found := in.mapGet(st, ml.n, k, zeroValue(mt.Elem()))
			c := bddAnd(lf.c, ml.c)
			out = iteV(c, v, out)
			ok = bddOr(ok, bddAnd(c, found))
		}
	}
	if x.CommaOk {
		fr.set(st, x, mkTuple(out, mkBool(ok)))
		return
	}
	fr.set(st, x, out)
}

// mapGet looks a key up. Later entries hide earlier ones whose key may be the
// same.
func (in *interp) mapGet(st *state, m, k, none *Node) (*Node, *bdd) {
	out, ok := none, bddF
	for i := 0; i < len(m.args); i += 2 {
		e := in.eqVals(st, m.args[i], k)
		out = iteV(e, m.args[i+1], out)
		ok = bddOr(ok, e)
	}
	return out, ok
}

// mapPut adds an entry. An entry whose key may or may not be the same stays
// and is hidden.
func (in *interp) mapPut(st *state, m, k, v *Node) *Node {
	var args []*Node
	for i := 0; i < len(m.args); i += 2 {
		if in.eqVals(st, m.args[i], k) != bddT {
			args = append(args, m.args[i], m.args[i+1])
		} else if i == len(m.args)-2 {
			return mkStruct("map", append(args, m.args[i], v)...)
		}
	}
	return mkStruct("map", append(args, k, v)...)
}

// distinct: no two keys of a map can be the same.
func (in *interp) distinct(st *state, m *Node) bool {
	for i := 0; i < len(m.args); i += 2 {
		for j := 0; j < i; j += 2 {
			if in.eqVals(st, m.args[i], m.args[j]) != bddF {
				return false
			}
		}
	}
	return true
}

func (in *interp) mapUpdate(st *state, mp, k, v *Node, p token.Pos) {
	if mp.kind == KMT {
		in.split(st, mp, func(s *state, n *Node) *Node {
			in.mapUpdate(s, n, k, v, p)
			return nilNode
		})
		return
	}
	if mp.kind == KNil {
		in.panicIf(st, bddT, p, "assignment to entry in nil map")
		return
	}
	if mp.kind != KRef {
		fail("write to map %s at %s", show(mp), in.pos(p))
	}
	in.store(st, mp, mtMap(in.loadLeaf(st, mp), func(m *Node) *Node {
		if m.kind != KStruct {
			fail("map not fixed by the shape of the data at %s", in.pos(p))
		}
		return in.mapPut(st, m, k, v)
	}), p)
}

var mapRanged, mapReverse bool

func (fr *frame) rangeStart(st *state, x *ssa.Range) *Node {
	in := fr.in
	v := fr.val(st, x.X)
	var content *Node
	if _, ok := x.X.Type().Underlying().(*types.Map); ok {
		if v.kind == KNil {
			content = mkStruct("map")
		} else {
			content = in.load(st, v, x.Pos())
			if content.kind == KStruct && !in.distinct(st, content) {
				fail("range over a map whose keys are not fixed by the shape of the data")
			}
			if content.kind == KStruct && len(content.args) > 2 {
				// the order of a map is not fixed: decide with it and with its reverse
				mapRanged = true
				if mapReverse {
					var args []*Node
					for i := len(content.args) - 2; i >= 0; i -= 2 {
						args = append(args, content.args[i], content.args[i+1])
					}
					content = mkStruct("map", args...)
				}
			}
		}
	} else {
		content = v
	}
	return in.alloc(st, mkStruct("range", content, zero))
}

func (fr *frame) rangeNext(st *state, x *ssa.Next) *Node {
	in := fr.in
	r := fr.val(st, x.Iter)
	c := in.loadLeaf(st, r)
	content, i := c.args[0], c.args[1]
	k, ok := constI(i)
	if !ok {
		fail("range over a string or map not fixed by the shape of the data")
	}
	tup := x.Type().(*types.Tuple)
	done := func() *Node {
		zk, zv := rawKind(KUndef, ""), rawKind(KUndef, "")
		_ = tup
		return mkTuple(ff, zk, zv)
	}
	if x.IsString {
		s, ok := constBytes(content)
		if !ok {
			fail("range over a string not fixed by the shape of the data")
		}
		for j, r2 := range s {
			if int64(j) >= k {
				next := len(s)
				for jj := range s {
					if jj > j {
						next = jj
						break
					}
				}
				in.store(st, r, mkStruct("range", content, intNode(int64(next))), x.Pos())
				return mkTuple(tt, intNode(int64(j)), intNode(int64(r2)))
			}
		}
		return done()
	}
	if content.kind != KStruct {
		fail("range over a map not fixed by the shape of the data")
	}
	if int(k)*2 >= len(content.args) {
		return done()
	}
	in.store(st, r, mkStruct("range", content, intNode(k+1)), x.Pos())
	return mkTuple(tt, content.args[2*k], content.args[2*k+1])
}
