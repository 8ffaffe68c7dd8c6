package main

import (
	"math/big"
	"strings"
)

// The curve libraries: their elements are linear combinations over a group of
// known prime order, with the aliasing behaviour of the real implementations.

type curveInfo struct {
	name       string
	p, n       *big.Int
	gx, gy     *big.Int
	width      int
	share      bool // results of Set and Neg are written into the receiver's coordinates
	nilIsIdent bool
}

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(strings.ReplaceAll(s, " ", ""), 16)
	if !ok {
		panic(s)
	}
	return v
}

var curves = map[string]*curveInfo{
	"P-256": {name: "P-256", width: 32, share: true, nilIsIdent: true,
		p:  hexInt("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
		n:  hexInt("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
		gx: hexInt("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
		gy: hexInt("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")},
	"P-384": {name: "P-384", width: 48, share: true, nilIsIdent: true,
		p:  hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
		n:  hexInt("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
		gx: hexInt("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
		gy: hexInt("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f")},
	"P-521": {name: "P-521", width: 66, share: true, nilIsIdent: true,
		p:  hexInt("01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"),
		n:  hexInt("01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"),
		gx: hexInt("00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66"),
		gy: hexInt("011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650")},
	"ristretto255": {name: "ristretto255", width: 32,
		p: hexInt("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"),
		n: hexInt("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")},
	"secp256k1": {name: "secp256k1", width: 32,
		p:  hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
		n:  hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
		gx: hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
		gy: hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")},
}

func curveGrp(name string) *Node {
	g := rawAtom(SGroup, "x:"+name)
	if _, ok := groupOrders[g]; !ok {
		ci := curves[name]
		groupOrders[g] = bigNode(ci.n)
		fieldOrders[g.op] = ci.p
	}
	return g
}

func curveOf(grp *Node) *curveInfo { return curves[strings.TrimPrefix(grp.op, "x:")] }

// ---------------------------------------------------------------- coordinates

var coordDone = map[*Node]bool{}
var coordBusy int

func resetExt() {
	coordDone = map[*Node]bool{}
	coordBusy = 0
	thr = map[*Node][]*Node{}
	modRes = map[*Node][]*Node{}
	congr = map[*Node][]*Node{}
}

func isCoord(a *Node) bool { return a.kind == KAtom && (a.op == "xc0" || a.op == "yc0") }

// coord is a coordinate of E: zero for the identity, whatever it is elsewhere.
func coord(op string, E *Node) *Node {
	ci := curveOf(E.lin.grp)
	if len(E.lin.ents) == 0 {
		return zero
	}
	if ci.gx != nil && E == elemGen(E.lin.grp) {
		if op == "xc0" {
			return bigNode(ci.gx)
		}
		return bigNode(ci.gy)
	}
	// a point that was given by its coordinates
	if len(E.lin.ents) == 1 && E.lin.ents[0].coef == one && E.lin.ents[0].base.op == "pt" {
		if op == "xc0" {
			return E.lin.ents[0].base.args[1]
		}
		return E.lin.ents[0].base.args[2]
	}
	// take cases on indicators, so that the cases keep simple coordinates
	for _, e := range E.lin.ents {
		if k, ok := splitIndex(e.coef); ok {
			_ = k
			for _, t := range e.coef.poly {
				for _, f := range t.fac {
					if f.a.kind == KAtom && f.a.op == "ind" {
						hi := subst(E, map[*Node]*Node{f.a: one})
						lo := subst(E, map[*Node]*Node{f.a: zero})
						return iteV(toBool(f.a.args[0]), coord(op, hi), coord(op, lo))
					}
				}
			}
		}
	}
	return asInt(rawAtom(SInt, op, E))
}

// pointOf is the element with the given coordinates, and the condition that
// they are those of a point of the curve (the identity does not count).
func pointOf(grp, x, y *Node) (*Node, *bdd) {
	ci := curveOf(grp)
	for _, v := range []*Node{x, y} {
		for _, t := range v.poly {
			for _, f := range t.fac {
				if f.a.kind == KAtom && f.a.op == "ind" {
					m1, m0 := map[*Node]*Node{f.a: one}, map[*Node]*Node{f.a: zero}
					hi, hv := pointOf(grp, subst(x, m1), subst(y, m1))
					lo, lv := pointOf(grp, subst(x, m0), subst(y, m0))
					c := toBool(f.a.args[0])
					return iteV(c, hi, lo), bddIte(c, hv, lv)
				}
			}
		}
	}
	P := bigNode(ci.p)
	xm, ym := modInt(x, P), modInt(y, P)
	inField := bddT
	if xm != x {
		inField = bddAnd(inField, eq0(subInt(x, xm)))
	}
	if ym != y {
		inField = bddAnd(inField, eq0(subInt(y, ym)))
	}
	if x == zero && y == zero {
		return elemZero(grp), bddF
	}
	if cx, ok := constOf(x); ok && cx.Cmp(ci.gx) == 0 {
		if cy, ok := constOf(y); ok && cy.Cmp(ci.gy) == 0 {
			return elemGen(grp), bddT
		}
	}
	if ax := atomOf(x); ax != nil && ax.op == "xc0" && ax.args[0].lin.grp == grp {
		E := ax.args[0]
		nz := bddNot(elemIsZero(E))
		if ay := atomOf(y); ay != nil && ay.op == "yc0" && ay.args[0] == E {
			return E, nz
		}
		// the negated ordinate
		yc := asInt(rawAtom(SInt, "yc0", E))
		if y == subInt(P, yc) || y == modInt(negInt(yc), P) {
			return elemNeg(E), nz
		}
	}
	a := rawAtom(SElem, "pt", grp, x, y)
	E := elemAtom(grp, a)
	on := bddVar(rawAtom(SBool, "oncurve", grp, x, y))
	if on != bddF && !coordDone[a] {
		coordDone[a] = true
		// a point is not the identity, and has these coordinates
		addAxiom(bddOr(bddNot(on), bddNot(elemIsZero(E))))
	}
	return E, bddAnd(on, inField)
}

// coordSame: a and b are coordinates of the same kind; they agree if the points do.
func coordSame(a, b *Node) (*bdd, bool) {
	x, y := atomOf(a), atomOf(b)
	if x != nil && !isCoord(x) || y != nil && !isCoord(y) || x == nil && y == nil || x == nil && a != zero || y == nil && b != zero {
		return nil, false
	}
	switch {
	case x == nil:
		return elemIsZero(y.args[0]), true
	case y == nil:
		return elemIsZero(x.args[0]), true
	case x.op != y.op || x.args[0].lin.grp != y.args[0].lin.grp:
		return nil, false
	}
	return elemIsZero(elemSub(x.args[0], y.args[0])), true
}

// coordEq decides an equation between coordinates, as far as the curve does.
// The coordinates of the identity are zero. No other element has a zero
// ordinate (the order is odd); on secp256k1 none has a zero abscissa either.
func coordEq(p *Node) (*bdd, bool) {
	if len(p.poly) == 0 || len(p.poly) > 2 {
		return nil, false
	}
	var as []*Node
	for _, t := range p.poly {
		if len(t.fac) != 1 || !isConst(t.fac[0].e, 1) || !isCoord(t.fac[0].a) {
			return nil, false
		}
		as = append(as, t.fac[0].a)
	}
	E := as[0].args[0]
	noZero := func(op string) bool { return op == "yc0" || curveOf(E.lin.grp).name == "secp256k1" }
	if len(as) == 1 {
		zE := elemIsZero(E)
		if noZero(as[0].op) {
			return zE, true
		}
		v := rawAtom(SBool, "eq0", asInt(as[0]))
		if !coordDone[v] {
			coordDone[v] = true
			addAxiom(bddOr(bddNot(zE), bddVar(v)))
		}
		return bddVar(v), true
	}
	a, b := as[0], as[1]
	if a.op != b.op || new(big.Rat).Add(p.poly[0].c, p.poly[1].c).Sign() != 0 || a.args[0].lin.grp != b.args[0].lin.grp {
		return nil, false
	}
	F := b.args[0]
	same, opp := elemIsZero(elemSub(E, F)), elemIsZero(elemAdd(E, F))
	if a.op == "xc0" && noZero("xc0") {
		return bddOr(same, opp), true
	}
	v := rawAtom(SBool, "eq0", p)
	if !coordDone[v] {
		coordDone[v] = true
		e := bddVar(v)
		zE, zF := elemIsZero(E), elemIsZero(F)
		addAxiom(bddOr(bddNot(same), e))
		addAxiom(bddNot(bddAnd(bddAnd(zE, zF), bddNot(same))))
		addAxiom(bddNot(bddAnd(bddAnd(zE, same), bddNot(zF))))
		addAxiom(bddNot(bddAnd(bddAnd(zF, same), bddNot(zE))))
		if a.op == "xc0" {
			addAxiom(bddOr(bddNot(opp), e))
			addAxiom(bddOr(bddOr(bddNot(e), bddOr(zE, zF)), bddOr(same, opp)))
			if x0, ok := coordEq(asInt(a)); ok {
				addAxiom(bddOr(bddNot(bddAnd(zF, e)), x0))
				addAxiom(bddOr(bddNot(bddAnd(zF, x0)), e))
			}
			if x0, ok := coordEq(asInt(b)); ok {
				addAxiom(bddOr(bddNot(bddAnd(zE, e)), x0))
				addAxiom(bddOr(bddNot(bddAnd(zE, x0)), e))
			}
		} else {
			// opposite points with one ordinate are the identity
			addAxiom(bddOr(bddNot(bddAnd(e, opp)), same))
			addAxiom(bddNot(bddAnd(bddAnd(zE, e), bddNot(zF))))
			addAxiom(bddNot(bddAnd(bddAnd(zF, e), bddNot(zE))))
		}
	}
	return bddVar(v), true
}

// thr lists the threshold atoms of one quantity, to relate them.
var thr = map[*Node][]*Node{}

// thresholdAxioms relates pos(q+c) and eq0(q+c) for one non-constant q.
func thresholdAxioms(v *Node, p *Node) {
	if coordDone[v] {
		return
	}
	coordDone[v] = true
	split := func(p *Node) (*Node, *big.Int) {
		c := new(big.Int)
		for _, t := range p.poly {
			if len(t.fac) == 0 && t.c.IsInt() {
				c.Set(t.c.Num())
			}
		}
		q := subInt(p, bigNode(c))
		return q, c
	}
	q, c := split(p)
	if q == zero {
		return
	}
	neg := leadNeg(q)
	if neg {
		q = negInt(q)
	}
	for _, o := range thr[q] {
		po := o.args[0]
		qo, d := split(po)
		negO := leadNeg(qo)
		// v: q' + c, o: q' + d with q' = ±q
		rel := func(opA string, nA bool, cA *big.Int, vA *bdd, opB string, nB bool, cB *big.Int, vB *bdd) {
			// intervals of q where A holds
			loA, hiA := interval(opA, nA, cA)
			loB, hiB := interval(opB, nB, cB)
			sub := func(l1, h1, l2, h2 *big.Int) bool { // [l1,h1] ⊆ [l2,h2]
				return (l2 == nil || l1 != nil && l1.Cmp(l2) >= 0) && (h2 == nil || h1 != nil && h1.Cmp(h2) <= 0)
			}
			dis := func(l1, h1, l2, h2 *big.Int) bool {
				return h1 != nil && l2 != nil && h1.Cmp(l2) < 0 || h2 != nil && l1 != nil && h2.Cmp(l1) < 0
			}
			if sub(loA, hiA, loB, hiB) {
				addAxiom(bddOr(bddNot(vA), vB))
			}
			if sub(loB, hiB, loA, hiA) {
				addAxiom(bddOr(bddNot(vB), vA))
			}
			if dis(loA, hiA, loB, hiB) {
				addAxiom(bddNot(bddAnd(vA, vB)))
			}
			// the two cover everything
			if loA == nil && hiA != nil && hiB == nil && loB != nil && new(big.Int).Add(hiA, bigOne).Cmp(loB) >= 0 ||
				loB == nil && hiB != nil && hiA == nil && loA != nil && new(big.Int).Add(hiB, bigOne).Cmp(loA) >= 0 {
				addAxiom(bddOr(vA, vB))
			}
		}
		rel(v.op, neg, c, bddVar(v), o.op, negO, d, bddVar(o))
	}
	// complements of thresholds that meet: q ≤ k, q = k+1, q ≥ k+2 cover everything
	thr[q] = append(thr[q], v)
	for _, a := range thr[q] {
		for _, b := range thr[q] {
			for _, e := range []*Node{v} {
				cover3(a, b, e, q)
				cover3(a, e, b, q)
				cover3(e, a, b, q)
			}
		}
	}
}

// cover3: a says q ≤ k, b says q = k+1, e says q ≥ k+2 (or weaker).
func cover3(a, b, e *Node, q *Node) {
	if a == b || b == e || a == e {
		return
	}
	iv := func(v *Node) (*big.Int, *big.Int) {
		p := v.args[0]
		c := new(big.Int)
		for _, t := range p.poly {
			if len(t.fac) == 0 && t.c.IsInt() {
				c.Set(t.c.Num())
			}
		}
		return interval(v.op, leadNeg(subInt(p, bigNode(c))), c)
	}
	la, ha := iv(a)
	lb, hb := iv(b)
	le, he := iv(e)
	if la == nil && ha != nil && lb != nil && hb != nil && le != nil && he == nil {
		if new(big.Int).Add(ha, bigOne).Cmp(lb) >= 0 && new(big.Int).Add(hb, bigOne).Cmp(le) >= 0 {
			addAxiom(bddOr(bddVar(a), bddOr(bddVar(b), bddVar(e))))
		}
	}
	// both pos atoms in the same direction: not(q>k) or q=k+1 or q>k+1
	if lb != nil && hb != nil && la != nil && ha == nil && le != nil && he == nil {
		if la.Cmp(lb) >= 0 && new(big.Int).Add(hb, bigOne).Cmp(le) >= 0 {
			addAxiom(bddOr(bddNot(bddVar(a)), bddOr(bddVar(b), bddVar(e))))
		}
	}
	if lb != nil && hb != nil && la == nil && ha != nil && le == nil && he != nil {
		if ha.Cmp(hb) <= 0 && new(big.Int).Sub(lb, bigOne).Cmp(he) <= 0 {
			addAxiom(bddOr(bddNot(bddVar(a)), bddOr(bddVar(b), bddVar(e))))
		}
	}
}

// interval of q in which the atom over ±q + c holds.
func interval(op string, neg bool, c *big.Int) (lo, hi *big.Int) {
	switch {
	case op == "eq0" && !neg:
		k := new(big.Int).Neg(c)
		return k, k
	case op == "eq0":
		return c, c
	case !neg: // q + c > 0
		return new(big.Int).Sub(bigOne, c), nil
	default: // c - q > 0
		return nil, new(big.Int).Sub(c, bigOne)
	}
}

// ---------------------------------------------------------------- circl

func xgroup(in *interp, st *state, name string) *Node {
	g := curveGrp(name)
	return rawKind(KIface, "!xgroup", mkStruct("xg:"+name, in.alloc(st, elemGen(g))))
}

func (c *call) xname() string { return strings.TrimPrefix(c.args[0].args[0].op, "xg:") }

func (c *call) newX(name string, E *Node) *Node {
	cell := c.in.alloc(c.st, E)
	return rawKind(KIface, "!xelem", c.in.alloc(c.st, mkStruct("xe:"+name, cell)))
}

// xrecv gives the curve and the struct of the receiver.
func (c *call) xrecv() (*curveInfo, *Node) {
	s := c.in.load(c.st, c.args[0].args[0], c.pos)
	if s.kind != KStruct {
		c.fail("curve element not in normal form")
	}
	return curves[strings.TrimPrefix(s.op, "xe:")], s
}

func (c *call) xval(s *Node) *Node {
	v := c.in.load(c.st, s.args[0], c.pos)
	if v.kind != KElem {
		c.fail("curve element not in normal form: %s", show(v))
	}
	return v
}

// xarg reads an operand of a curve operation.
func (c *call) xarg(i int, ci *curveInfo) *Node {
	var out *Node
	care := c.st.cond
	for _, lf := range leaves(c.st.cond, c.args[i]) {
		cond := bddRestrict(lf.c, care)
		var v *Node
		switch {
		case lf.n.kind == KNil && ci.nilIsIdent:
			v = elemZero(curveGrp(ci.name))
		case lf.n.kind == KIface && lf.n.op == "!xelem":
			s := c.in.load(c.st, lf.n.args[0], c.pos)
			if s.kind == KStruct && s.op == "xe:"+ci.name {
				v = c.xval(s)
			}
		}
		if v == nil {
			c.in.panicIf(c.st, cond, c.pos, "curve operation on an element of another type")
			continue
		}
		if out == nil {
			out = v
		} else {
			out = iteV(cond, v, out)
		}
	}
	return out
}

// xset stores the result: in the receiver's coordinates, or in fresh ones.
func (c *call) xset(ci *curveInfo, s *Node, E *Node, inPlace bool) *Node {
	if E == nil || !feasible(c.st.cond) {
		return undef
	}
	if inPlace || !ci.share {
		c.in.store(c.st, s.args[0], E, c.pos)
	} else {
		c.in.store(c.st, c.args[0].args[0], mkStruct(s.op, c.in.alloc(c.st, E)), c.pos)
	}
	return c.args[0]
}

func (c *call) xscalar(i int, ci *curveInfo) *Node {
	n := c.args[i]
	if n.kind == KIface && n.op == "!xscalar" {
		return asInt(c.in.load(c.st, n.args[0], c.pos))
	}
	c.in.panicIf(c.st, bddT, c.pos, "curve operation on a scalar of another type")
	return zero
}

func init() {
	G := func(n string, f func(c *call, ci *curveInfo) *Node) {
		lib["!xgroup."+n] = func(c *call) *Node { return f(c, curves[c.xname()]) }
	}
	fresh := func(c *call, ci *curveInfo) *Node { return c.newX(ci.name, elemZero(curveGrp(ci.name))) }
	G("NewElement", fresh)
	G("Identity", fresh)
	G("Generator", func(c *call, ci *curveInfo) *Node {
		if !ci.share {
			return c.newX(ci.name, elemGen(curveGrp(ci.name)))
		}
		// the coordinates are those of the curve's parameters, not copies
		return rawKind(KIface, "!xelem", c.in.alloc(c.st, mkStruct("xe:"+ci.name, c.args[0].args[0].args[0])))
	})
	G("NewScalar", func(c *call, ci *curveInfo) *Node {
		return rawKind(KIface, "!xscalar", c.in.alloc(c.st, zero), strNode(ci.name))
	})
	G("RandomElement", func(c *call, ci *curveInfo) *Node {
		if !isCryptoReader(c.args[1]) {
			c.fail("random element drawn from something other than the system's generator")
		}
		g := curveGrp(ci.name)
		c.in.panicIf(c.st, c.in.drawFails(c.st), c.pos, "the source of randomness fails")
		return c.newX(ci.name, elemScale(elemGen(g), c.in.freshRand(orderOf(g))))
	})
	rs := func(c *call, ci *curveInfo) *Node {
		if !isCryptoReader(c.args[1]) {
			c.fail("random scalar drawn from something other than the system's generator")
		}
		c.in.panicIf(c.st, c.in.drawFails(c.st), c.pos, "the source of randomness fails")
		return rawKind(KIface, "!xscalar", c.in.alloc(c.st, c.in.freshRand(bigNode(ci.n))), strNode(ci.name))
	}
	G("RandomScalar", rs)
	G("RandomNonZeroScalar", rs)
	G("HashToElement", func(c *call, ci *curveInfo) *Node {
		msg, dst := c.in.sliceBytes(c.st, c.args[1]), c.in.sliceBytes(c.st, c.args[2])
		g := curveGrp(ci.name)
		return c.newX(ci.name, elemAtom(g, rawAtom(SElem, "h2c", g, msg, dst)))
	})
	G("HashToElementNonUniform", func(c *call, ci *curveInfo) *Node {
		msg, dst := c.in.sliceBytes(c.st, c.args[1]), c.in.sliceBytes(c.st, c.args[2])
		g := curveGrp(ci.name)
		return c.newX(ci.name, elemAtom(g, rawAtom(SElem, "h2cNonUniform", g, msg, dst)))
	})
	S := func(n string, f func(c *call, ci *curveInfo) *Node) {
		lib["!xscalar."+n] = func(c *call) *Node {
			s, _ := constBytes(c.args[0].args[1])
			return f(c, curves[s])
		}
	}
	set := func(c *call, v *Node) *Node {
		if !feasible(c.st.cond) {
			return undef
		}
		c.in.store(c.st, c.args[0].args[0], v, c.pos)
		return c.args[0]
	}
	S("SetBigInt", func(c *call, ci *curveInfo) *Node {
		// the libraries reduce by Mod, so that negative integers are allowed
		return set(c, modInt(c.big(1), bigNode(ci.n)))
	})
	S("SetUint64", func(c *call, ci *curveInfo) *Node { return set(c, modInt(c.int(1), bigNode(ci.n))) })
	S("Set", func(c *call, ci *curveInfo) *Node { return set(c, c.xscalar(1, ci)) })
	S("Neg", func(c *call, ci *curveInfo) *Node { return set(c, modInt(negInt(c.xscalar(1, ci)), bigNode(ci.n))) })
	S("Add", func(c *call, ci *curveInfo) *Node {
		return set(c, modInt(addInt(c.xscalar(1, ci), c.xscalar(2, ci)), bigNode(ci.n)))
	})
	S("Sub", func(c *call, ci *curveInfo) *Node {
		return set(c, modInt(subInt(c.xscalar(1, ci), c.xscalar(2, ci)), bigNode(ci.n)))
	})
	S("Mul", func(c *call, ci *curveInfo) *Node {
		return set(c, modInt(mulInt(c.xscalar(1, ci), c.xscalar(2, ci)), bigNode(ci.n)))
	})
	S("Inv", func(c *call, ci *curveInfo) *Node { return set(c, invMod(c.xscalar(1, ci), bigNode(ci.n))) })
	S("Copy", func(c *call, ci *curveInfo) *Node {
		return rawKind(KIface, "!xscalar", c.in.alloc(c.st, c.xscalar(0, ci)), c.args[0].args[1])
	})
	S("IsZero", func(c *call, ci *curveInfo) *Node { return mkBool(eq0(c.xscalar(0, ci))) })
	S("IsEqual", func(c *call, ci *curveInfo) *Node { return mkBool(eq0(subInt(c.xscalar(0, ci), c.xscalar(1, ci)))) })

	E := func(n string, f func(c *call, ci *curveInfo, s *Node) *Node) {
		lib["!xelem."+n] = func(c *call) *Node {
			ci, s := c.xrecv()
			return f(c, ci, s)
		}
	}
	E("Add", func(c *call, ci *curveInfo, s *Node) *Node {
		a, b := c.xarg(1, ci), c.xarg(2, ci)
		if a == nil || b == nil {
			return undef
		}
		return c.xset(ci, s, elemAdd(a, b), false)
	})
	E("Dbl", func(c *call, ci *curveInfo, s *Node) *Node {
		a := c.xarg(1, ci)
		if a == nil {
			return undef
		}
		return c.xset(ci, s, elemScale(a, two), false)
	})
	E("Neg", func(c *call, ci *curveInfo, s *Node) *Node {
		a := c.xarg(1, ci)
		if a == nil {
			return undef
		}
		return c.xset(ci, s, elemNeg(a), true)
	})
	E("Set", func(c *call, ci *curveInfo, s *Node) *Node { return c.xset(ci, s, c.xarg(1, ci), true) })
	E("Mul", func(c *call, ci *curveInfo, s *Node) *Node {
		a := c.xarg(1, ci)
		k := c.xscalar(2, ci)
		if a == nil {
			return undef
		}
		return c.xset(ci, s, elemScale(a, k), false)
	})
	E("MulGen", func(c *call, ci *curveInfo, s *Node) *Node {
		k := c.xscalar(1, ci)
		return c.xset(ci, s, elemScale(elemGen(curveGrp(ci.name)), k), false)
	})
	E("Copy", func(c *call, ci *curveInfo, s *Node) *Node { return c.newX(ci.name, c.xval(s)) })
	E("IsEqual", func(c *call, ci *curveInfo, s *Node) *Node {
		a := c.xarg(1, ci)
		if a == nil {
			return undef
		}
		return mkBool(elemIsZero(elemSub(c.xval(s), a)))
	})
	E("IsIdentity", func(c *call, ci *curveInfo, s *Node) *Node { return mkBool(elemIsZero(c.xval(s))) })
	E("CMov", func(c *call, ci *curveInfo, s *Node) *Node {
		a := c.xarg(2, ci)
		if a == nil {
			return undef
		}
		v := c.int(1)
		c.in.panicIf(c.st, bddNot(bddOr(eq0(v), eq0(subInt(v, one)))), c.pos, "selector out of range")
		return c.xset(ci, s, iteV(eq0(v), c.xval(s), a), true)
	})
	E("CSelect", func(c *call, ci *curveInfo, s *Node) *Node {
		a, b := c.xarg(2, ci), c.xarg(3, ci)
		if a == nil || b == nil {
			return undef
		}
		v := c.int(1)
		c.in.panicIf(c.st, bddNot(bddOr(eq0(v), eq0(subInt(v, one)))), c.pos, "selector out of range")
		return c.xset(ci, s, iteV(eq0(v), b, a), true)
	})
	E("Group", func(c *call, ci *curveInfo, s *Node) *Node { c.fail("Group of a curve element"); return nil })
	text := func(c *call, ci *curveInfo, s *Node) *Node {
		return bytesOf(rawAtom(SBytes, "xtext", c.xval(s)))
	}
	E("String", text)
	bin := func(E *Node, ci *curveInfo, compress bool) *Node {
		if ci.gx == nil {
			return bytesOf(rawAtom(SBytes, "r255b", E))
		}
		if compress {
			return iteV(elemIsZero(E), strNode("\x00"), bytesOf(rawAtom(SBytes, "xcomp", E)))
		}
		if E == elemZero(E.lin.grp) {
			return strNode("\x00")
		}
		w := intNode(int64(ci.width))
		enc := lift(func(xs []*Node) *Node { return concat(xs[0], xs[1], xs[2]) }, strNode("\x04"), beBytes(coord("xc0", E), w), beBytes(coord("yc0", E), w))
		return iteV(elemIsZero(E), strNode("\x00"), enc)
	}
	// encoding reduces the coordinates in place: the value stays, but it is written
	reduce := func(c *call, ci *curveInfo, s *Node) {
		if v := c.xval(s); ci.gx != nil && feasible(bddAnd(c.st.cond, bddNot(elemIsZero(v)))) {
			c.in.store(c.st, s.args[0], v, c.pos)
		}
	}
	E("MarshalBinary", func(c *call, ci *curveInfo, s *Node) *Node {
		reduce(c, ci, s)
		return tuple(c.in.bytesAsSlice(c.st, bin(c.xval(s), ci, false)), nilNode)
	})
	E("MarshalBinaryCompress", func(c *call, ci *curveInfo, s *Node) *Node {
		reduce(c, ci, s)
		return tuple(c.in.bytesAsSlice(c.st, bin(c.xval(s), ci, ci.gx != nil)), nilNode)
	})
	E("UnmarshalBinary", func(c *call, ci *curveInfo, s0 *Node) *Node {
		b := c.in.sliceBytes(c.st, c.args[1])
		return c.in.split(c.st, b, func(st *state, b *Node) *Node {
			cc := &call{in: c.in, st: st, args: c.args, pos: c.pos}
			_, s := cc.xrecv()
			g := curveGrp(ci.name)
			cur := cc.xval(s)
			if ci.gx == nil {
				if len(b.segs) == 1 && b.segs[0].op == "r255b" {
					cc.xset(ci, s, b.segs[0].args[0], true)
					return nilNode
				}
				// anything else is decoded if it is the canonical encoding of an element
				n := bytesLen(b)
				er := bddOr(bddNot(eq0(subInt(n, intNode(32)))), bddVar(rawAtom(SBool, "xbinerr", g, b)))
				if er == bddT {
					return mkErr(bddT)
				}
				E := elemAtom(g, rawAtom(SElem, "xfrombin", g, b))
				cc.xset(ci, s, iteV(er, cur, E), true)
				return mkErr(er)
			}
			if k, ok := constBytes(b); ok && k == "\x00" {
				cc.xset(ci, s, elemZero(g), true)
				return nilNode
			}
			n := bytesLen(b)
			w := int64(ci.width)
			// a single zero byte: the identity, written in place
			isInf := bddAnd(eq0(subInt(n, one)), bddF)
			if eq0(subInt(n, one)) != bddF {
				if _, ok := constBytes(b); !ok {
					isInf = bddAnd(eq0(subInt(n, one)), eq0(byteAt(b, zero)))
				}
			}
			unc := bddF
			var E *Node
			valid := bddF
			if e := eq0(subInt(n, intNode(1+2*w))); e != bddF {
				unc = bddAnd(e, eq0(subInt(byteAt(b, zero), intNode(4))))
				x := fromBytes(subBytes(b, one, intNode(1+w)))
				y := fromBytes(subBytes(b, intNode(1+w), intNode(1+2*w)))
				E, valid = pointOf(g, x, y)
			}
			comp := bddF
			if e := eq0(subInt(n, intNode(1+w))); e != bddF {
				tag := byteAt(b, zero)
				comp = bddAnd(e, bddOr(eq0(subInt(tag, two)), eq0(subInt(tag, intNode(3)))))
			}
			var E2 *Node
			v2 := bddF
			if comp != bddF {
				if len(b.segs) == 1 && b.segs[0].op == "xcomp" {
					E2, v2 = b.segs[0].args[0], bddT
				} else {
					E2 = elemAtom(g, rawAtom(SElem, "xfrombin", g, b))
					v2 = bddNot(bddVar(rawAtom(SBool, "xbinerr", g, b)))
				}
			}
			okc := bddOr(isInf, bddOr(bddAnd(unc, valid), bddAnd(comp, v2)))
			if isInf != bddF {
				cc.xset(ci, s, iteV(isInf, elemZero(g), cur), true)
			}
			if E != nil || E2 != nil {
				nw := cur
				if E2 != nil {
					nw = iteV(bddAnd(comp, v2), E2, nw)
				}
				if E != nil {
					nw = iteV(bddAnd(unc, valid), E, nw)
				}
				cell := c.in.alloc(st, nw)
				take := bddOr(bddAnd(unc, valid), bddAnd(comp, v2))
				c.in.store(st, c.args[0].args[0], mkStruct(s.op, iteV(take, cell, s.args[0])), c.pos)
			}
			return mkErr(bddNot(okc))
		})
	})

	// ---- secp256k1: the primitives below ing-bank's wrapper
	sg := func() *Node { return curveGrp("secp256k1") }
	out := func(c *call, E *Node, mayNil bool) *Node {
		x, y := c.newBig(coord("xc0", E)), c.newBig(coord("yc0", E))
		if mayNil {
			// depending on the build, the identity has no coordinates at all
			n := bddAnd(elemIsZero(E), bddVar(rawAtom(SBool, "in:cgo")))
			return tuple(iteV(n, nilNode, x), iteV(n, nilNode, y))
		}
		return tuple(x, y)
	}
	for _, t := range []string{"(*github.com/ing-bank/zkrp/crypto/p256.MyBitCurve).", "(*github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve)."} {
		own := strings.Contains(t, "MyBit")
		lib[t+"Add"] = func(c *call) *Node {
			g := sg()
			x1, y1, x2, y2 := c.big(1), c.big(2), c.big(3), c.big(4)
			if !feasible(c.st.cond) {
				return undef
			}
			A, _ := pointOf(g, x1, y1)
			B, _ := pointOf(g, x2, y2)
			R := elemAdd(A, B)
			if own {
				// the formula is wrong for equal points and for the identity
				same := elemIsZero(elemSub(A, B))
				R = iteV(bddAnd(c.st.cond, same), elemZero(g), R)
				bad := bddAnd(c.st.cond, bddOr(elemIsZero(A), elemIsZero(B)))
				if feasible(bad) {
					R = iteV(bad, elemAtom(g, rawAtom(SElem, "garbage", A, B)), R)
				}
			}
			return out(c, R, false)
		}
		lib[t+"Double"] = func(c *call) *Node {
			x, y := c.big(1), c.big(2)
			if !feasible(c.st.cond) {
				return undef
			}
			A, _ := pointOf(sg(), x, y)
			return out(c, elemScale(A, two), false)
		}
		lib[t+"ScalarMult"] = func(c *call) *Node {
			x, y := c.big(1), c.big(2)
			k := c.in.sliceBytes(c.st, c.args[3])
			if !feasible(c.st.cond) {
				return undef
			}
			A, _ := pointOf(sg(), x, y)
			s := lift(func(xs []*Node) *Node { return fromBytes(xs[0]) }, k)
			return out(c, elemScale(A, asInt(s)), true)
		}
		lib[t+"ScalarBaseMult"] = func(c *call) *Node {
			k := c.in.sliceBytes(c.st, c.args[1])
			s := lift(func(xs []*Node) *Node { return fromBytes(xs[0]) }, k)
			return out(c, elemScale(elemGen(sg()), asInt(s)), true)
		}
		lib[t+"IsOnCurve"] = func(c *call) *Node {
			x, y := c.big(1), c.big(2)
			if !feasible(c.st.cond) {
				return undef
			}
			_, v := pointOf(sg(), x, y)
			return mkBool(v)
		}
	}
	p := "github.com/ing-bank/zkrp/crypto/p256."
	lib["(*"+p+"P256).IsOnCurve"] = func(c *call) *Node {
		s := c.in.load(c.st, c.args[0], c.pos)
		if s.kind != KStruct {
			c.fail("point not in normal form")
		}
		cc := &call{in: c.in, st: c.st, args: []*Node{s.args[0], s.args[1]}, pos: c.pos}
		x, y := cc.big(0), cc.big(1)
		if !feasible(c.st.cond) {
			return undef
		}
		_, v := pointOf(sg(), x, y)
		return mkBool(v)
	}
	lib[p+"MapToGroup"] = func(c *call) *Node {
		g := sg()
		return lift(func(xs []*Node) *Node {
			// a hashed point is never the identity
			E := elemAtom(g, rawAtom(SElem, "nz", g, xs[0], strNode("hashed")))
			x, y := c.newBig(coord("xc0", E)), c.newBig(coord("yc0", E))
			return tuple(c.in.alloc(c.st, mkStruct("", x, y)), nilNode)
		}, c.args[0])
	}
}
