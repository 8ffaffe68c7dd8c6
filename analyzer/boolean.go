package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Reduced ordered BDDs over Bool atoms, ordered by node id.
type bdd struct {
	id     int
	v      *Node
	hi, lo *bdd
}

var (
	bddT     = &bdd{id: 1}
	bddF     = &bdd{id: 0}
	bddTable = map[[3]int]*bdd{}
	bddNext  = 2
	iteMemo  = map[[3]int]*bdd{}
)

func bddMk(v *Node, hi, lo *bdd) *bdd {
	if hi == lo {
		return hi
	}
	k := [3]int{v.id, hi.id, lo.id}
	if r, ok := bddTable[k]; ok {
		return r
	}
	r := &bdd{id: bddNext, v: v, hi: hi, lo: lo}
	bddNext++
	bddTable[k] = r
	return r
}

func bddVar(v *Node) *bdd { return bddMk(v, bddT, bddF) }

func bddIte(c, a, b *bdd) *bdd {
	if c == bddT {
		return a
	}
	if c == bddF {
		return b
	}
	if a == b {
		return a
	}
	if a == bddT && b == bddF {
		return c
	}
	k := [3]int{c.id, a.id, b.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	top := c.v
	for _, x := range []*bdd{a, b} {
		if x.v != nil && x.v.id < top.id {
			top = x.v
		}
	}
	cof := func(x *bdd, hi bool) *bdd {
		if x.v != top {
			return x
		}
		if hi {
			return x.hi
		}
		return x.lo
	}
	r := bddMk(top, bddIte(cof(c, true), cof(a, true), cof(b, true)), bddIte(cof(c, false), cof(a, false), cof(b, false)))
	iteMemo[k] = r
	return r
}

func bddNot(a *bdd) *bdd    { return bddIte(a, bddF, bddT) }
func bddAnd(a, b *bdd) *bdd { return bddIte(a, b, bddF) }
func bddOr(a, b *bdd) *bdd  { return bddIte(a, bddT, b) }
func bddXor(a, b *bdd) *bdd { return bddIte(a, bddNot(b), b) }
func bddImp(a, b *bdd) bool { return bddAnd(a, bddNot(b)) == bddF }

func bddAtoms(b *bdd, out map[*Node]bool) {
	seen := map[*bdd]bool{}
	var rec func(b *bdd)
	rec = func(b *bdd) {
		if b.v == nil || seen[b] {
			return
		}
		seen[b] = true
		out[b.v] = true
		rec(b.hi)
		rec(b.lo)
	}
	rec(b)
}

func sortedAtoms(m map[*Node]bool) []*Node {
	var out []*Node
	for a := range m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// implied literals: atoms whose value is fixed by c.
func impliedLits(c *bdd) map[*Node]bool {
	out := map[*Node]bool{}
	if c == bddF {
		return out
	}
	at := map[*Node]bool{}
	bddAtoms(c, at)
	for a := range at {
		if bddAnd(c, bddVar(a)) == bddF {
			out[a] = false
		} else if bddAnd(c, bddNot(bddVar(a))) == bddF {
			out[a] = true
		}
	}
	return out
}

func mkBool(b *bdd) *Node {
	return intern(fmt.Sprintf("b%d", b.id), func() *Node {
		n := &Node{kind: KBool, sort: SBool, b: b}
		at := map[*Node]bool{}
		bddAtoms(b, at)
		l := sortedAtoms(at)
		n.vars = mergeVars(l...)
		return n
	})
}

var tt, ff = mkBool(bddT), mkBool(bddF)

func toBool(n *Node) *bdd {
	switch n.kind {
	case KBool:
		return n.b
	case KAtom, KVar:
		if n.sort == SBool {
			return bddVar(n)
		}
	case KMT:
		return bddIte(toBool(n.args[0]), toBool(n.args[1]), toBool(n.args[2]))
	case KUndef:
		return bddF
	}
	fail("not a boolean: %s", show(n))
	return nil
}

// ---- atoms

// firstNeg tells whether the leading coefficient is negative.
func leadNeg(p *Node) bool {
	if len(p.poly) == 0 {
		return false
	}
	// leading term: the first non constant term
	for _, t := range p.poly {
		if len(t.fac) > 0 {
			return t.c.Sign() < 0
		}
	}
	return p.poly[0].c.Sign() < 0
}

// primitive divides by the content of the non-constant part, if all coefficients allow it.
func eq0(p *Node) *bdd {
	p = asInt(p)
	if a, _, ok := affine1(p); !ok || !isIdem(a) {
		if a, _, ok := affine1(negInt(p)); !ok || !isIdem(a) {
			p = rewriteAll(p)
		}
	}
	if len(p.poly) == 0 {
		return bddT
	}
	if _, ok := constOf(p); ok {
		return bddF
	}
	if leadNeg(p) {
		p = negInt(p)
	}
	// divide by the gcd of the coefficients
	g := new(big.Int)
	allInt := true
	for _, t := range p.poly {
		if !t.c.IsInt() {
			allInt = false
			break
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c.Num()))
	}
	if allInt && g.Cmp(big.NewInt(1)) > 0 {
		p = scaleRat(p, new(big.Rat).SetFrac(big.NewInt(1), g))
	}
	// sgn(x) compared with a constant
	if a, c, ok := affine1(p); ok {
		if a.kind == KAtom && a.op == "sgn" {
			x := a.args[0]
			switch c.Cmp(big.NewInt(0)) {
			case 0:
				return eq0(x)
			case -1: // sgn + c = 0, c = -1 -> sgn = 1
				if c.Cmp(big.NewInt(-1)) == 0 {
					return pos(x)
				}
				return bddF
			default:
				if c.Cmp(big.NewInt(1)) == 0 {
					return pos(negInt(x))
				}
				return bddF
			}
		}
		if isIdem(a) {
			if a.op == "ind" {
				if c.Sign() == 0 {
					return bddNot(toBool(a.args[0]))
				}
				if c.Cmp(big.NewInt(-1)) == 0 {
					return toBool(a.args[0])
				}
				return bddF
			}
			if c.Sign() == 0 {
				return bddVar(rawAtom(SBool, "eq0", p))
			}
			if c.Cmp(big.NewInt(-1)) == 0 {
				return bddNot(bddVar(rawAtom(SBool, "eq0", asInt(a))))
			}
			return bddF
		}
	}
	// 2^e = 1 iff e = 0 ; 2^e = 2^f
	if e, ok := powEq(p); ok {
		return eq0(e)
	}
	// counter facts
	switch signOf(p) {
	case 1, -1:
		return bddF
	}
	// decide with indicators: split on an indicator atom
	if b, ok := splitInd(p, eq0); ok {
		return b
	}
	// integers that stand for group elements
	if b, ok := elEq(p); ok {
		return b
	}
	if a, c, ok := affine1(p); ok && a.kind == KAtom && (a.op == "bitlen" || a.op == "bytelen") {
		// bitlen = k  <=>  bitlen > k-1 and not bitlen > k
		if c.Sign() == 0 {
			return eq0(asInt(a.args[0]))
		}
		if c.Sign() > 0 {
			return bddF
		}
		if c.IsInt64() && c.Int64() > -1<<16 {
			x := asInt(a)
			return bddAnd(pos(addInt(x, bigNode(new(big.Int).Add(c, bigOne)))), bddNot(pos(addInt(x, bigNode(c)))))
		}
	}
	if b, ok := coordEq(p); ok {
		return b
	}
	// numbers read from texts of one length are equal exactly if these are
	if len(p.poly) == 2 {
		t, u := p.poly[0], p.poly[1]
		if len(t.fac) == 1 && len(u.fac) == 1 && isConst(t.fac[0].e, 1) && isConst(u.fac[0].e, 1) && new(big.Rat).Add(t.c, u.c).Sign() == 0 {
			a, b := t.fac[0].a, u.fac[0].a
			if a.kind == KAtom && b.kind == KAtom && a.op == "frombytes" && b.op == "frombytes" {
				n, okn := constI(bytesLen(a.args[0]))
				m, okm := constI(bytesLen(b.args[0]))
				if okn && okm && n == m {
					return bytesEq(a.args[0], b.args[0])
				}
			}
		}
	}
	// a residue is the value itself if that is in range
	if len(p.poly) >= 2 {
		for _, t := range p.poly {
			if len(t.fac) == 1 && isConst(t.fac[0].e, 1) && t.fac[0].a.kind == KAtom && (t.fac[0].a.op == "mod" || t.fac[0].a.op == "clip") && t.c.IsInt() && t.c.Num().CmpAbs(bigOne) == 0 {
				a := t.fac[0].a
				rest := subInt(asInt(a), p)
				if t.c.Sign() < 0 {
					rest = addInt(asInt(a), p)
				}
				if a.op == "clip" {
					if rest == a.args[0] {
						return bddAnd(bddNot(pos(negInt(rest))), pos(subInt(powInt(two, a.args[1]), rest)))
					}
					continue
				}
				if rest == a.args[0] && nonNeg(subInt(a.args[1], one)) {
					return bddAnd(bddNot(pos(negInt(rest))), pos(subInt(a.args[1], rest)))
				}
			}
		}
	}
	if b, ok := congruence(p); ok {
		return b
	}
	if len(p.poly) == 1 && len(p.poly[0].fac) > 1 {
		// a product vanishes exactly if one of its factors does
		ok, r := true, bddF
		for _, f := range p.poly[0].fac {
			if k, c := constI(f.e); !c || k < 1 {
				ok = false
			}
		}
		if ok {
			for _, f := range p.poly[0].fac {
				r = bddOr(r, eq0(asInt(f.a)))
			}
			return r
		}
	}
	v := rawAtom(SBool, "eq0", p)
	thresholdAxioms(v, p)
	modAxioms(v, p)
	readAxioms(v, p)
	return bddVar(v)
}

// reads lists, for a value, the numbers read from texts it was compared with.
var reads = map[*Node][][2]*Node{}

// readAxioms: two texts that read as the same value read as the same number.
func readAxioms(v, p *Node) {
	if refuting {
		return // the equations are used for rewriting there
	}
	for _, t := range p.poly {
		if len(t.fac) != 1 || !isConst(t.fac[0].e, 1) || !t.c.IsInt() || t.c.Num().CmpAbs(bigOne) != 0 {
			continue
		}
		a := t.fac[0].a
		if a.kind != KAtom || a.op != "frombytes" {
			continue
		}
		rest := subInt(asInt(a), p)
		if t.c.Sign() < 0 {
			rest = addInt(asInt(a), p)
		}
		for _, o := range reads[rest] {
			if o[0] == v {
				return
			}
		}
		old := reads[rest]
		reads[rest] = append(old[:len(old):len(old)], [2]*Node{v, a})
		for _, o := range old {
			addAxiom(bddOr(bddNot(bddAnd(bddVar(v), bddVar(o[0]))), eq0(subInt(asInt(a), asInt(o[1])))))
		}
	}
}

var primes = map[string]bool{}

func isPrime(m *big.Int) bool {
	k := m.String()
	r, ok := primes[k]
	if !ok {
		r = m.ProbablyPrime(20)
		primes[k] = r
	}
	return r
}

// congruence decides x ≡ 0 modulo a known prime by cases on the factors of x.
func congruence(p *Node) (*bdd, bool) {
	a := atomOf(p)
	if a == nil || a.op != "mod" {
		return nil, false
	}
	m, ok := constOf(a.args[1])
	if !ok || m.BitLen() < 64 || !isPrime(m) {
		return nil, false
	}
	x := a.args[0]
	g := new(big.Int)
	for _, t := range x.poly {
		if !t.c.IsInt() {
			return nil, false
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c.Num()))
	}
	if g.Cmp(bigOne) > 0 && new(big.Int).GCD(nil, nil, g, m).Cmp(bigOne) == 0 {
		return eq0(modInt(scaleRat(x, new(big.Rat).SetFrac(bigOne, g)), a.args[1])), true
	}
	if len(x.poly) == 0 {
		return nil, false
	}
	for _, f := range x.poly[0].fac {
		if k, ok := constI(f.e); !ok || k < 1 || len(x.poly) == 1 && len(x.poly[0].fac) == 1 && k == 1 {
			continue
		}
		in := true
		q := newAcc()
		for _, t := range x.poly {
			var rest []fac
			found := false
			for _, h := range t.fac {
				if h.a == f.a {
					if k, ok := constI(h.e); ok && k >= 1 {
						found = true
						if k > 1 {
							rest = append(rest, fac{h.a, intNode(k - 1)})
						}
						continue
					}
				}
				rest = append(rest, h)
			}
			if !found {
				in = false
				break
			}
			q.addTerm(t.c, rest)
		}
		if in {
			return bddOr(eq0(modInt(asInt(f.a), a.args[1])), eq0(modInt(q.node(), a.args[1]))), true
		}
	}
	return nil, false
}

// dependent adds what follows from linear dependencies between congruences.
var congr = map[*Node][]*Node{}

func dependent(v *Node, a *Node) {
	m, ok := constOf(a.args[1])
	if !ok || m.BitLen() < 64 || !isPrime(m) || len(a.args[0].poly) > 6 {
		return
	}
	l := congr[a.args[1]]
	if len(l) > 40 {
		return
	}
	poly := func(v *Node) *Node { return atomOf(v.args[0]).args[0] }
	for i, u := range l {
		for _, w := range l[:i] {
			if rankTwo(poly(u), poly(w), a.args[0], m) {
				U, W, V := bddVar(u), bddVar(w), bddVar(v)
				addAxiom(bddNot(bddAnd(bddAnd(U, W), bddNot(V))))
				addAxiom(bddNot(bddAnd(bddAnd(U, V), bddNot(W))))
				addAxiom(bddNot(bddAnd(bddAnd(V, W), bddNot(U))))
			}
		}
	}
	congr[a.args[1]] = append(l, v)
}

// rankTwo tells whether three polynomials, pairwise independent, are linearly dependent modulo m.
func rankTwo(a, b, c *Node, m *big.Int) bool {
	row := func(p *Node) map[string]*big.Int {
		r := map[string]*big.Int{}
		for _, t := range p.poly {
			if !t.c.IsInt() {
				return nil
			}
			r[facKey(t.fac)] = new(big.Int).Mod(t.c.Num(), m)
		}
		return r
	}
	x, y, z := row(a), row(b), row(c)
	if x == nil || y == nil || z == nil {
		return false
	}
	elim := func(p map[string]*big.Int, key string, by map[string]*big.Int) {
		v := p[key]
		if v == nil || v.Sign() == 0 {
			return
		}
		f := new(big.Int).ModInverse(by[key], m)
		f.Mul(f, v).Mod(f, m)
		for k, w := range by {
			o := p[k]
			if o == nil {
				o = new(big.Int)
			}
			p[k] = new(big.Int).Mod(new(big.Int).Sub(o, new(big.Int).Mul(f, w)), m)
		}
	}
	pivot := func(p map[string]*big.Int) string {
		best := ""
		for k, v := range p {
			if v.Sign() != 0 && (best == "" || k < best) {
				best = k
			}
		}
		return best
	}
	k := pivot(x)
	if k == "" {
		return false
	}
	elim(y, k, x)
	elim(z, k, x)
	k = pivot(y)
	if k == "" || pivot(z) == "" {
		return false
	}
	elim(z, k, y)
	return pivot(z) == ""
}

// modRes lists the residues of one quantity that were compared with zero.
var modRes = map[*Node][]*Node{}

// modAxioms: what is zero has zero residues.
func modAxioms(v, p *Node) {
	if coordDone[rawAtom(SBool, "modax", v)] {
		return
	}
	coordDone[rawAtom(SBool, "modax", v)] = true
	key := p
	if a := atomOf(p); a != nil && a.op == "mod" {
		key = a.args[0]
		if leadNeg(key) {
			key = negInt(key)
		}
		if z := rawAtom(SBool, "eq0", key); coordDone[rawAtom(SBool, "modax", z)] {
			addAxiom(bddOr(bddNot(bddVar(z)), bddVar(v)))
		}
		modRes[key] = append(modRes[key], v)
		dependent(v, a)
		return
	}
	for _, r := range modRes[key] {
		addAxiom(bddOr(bddNot(bddVar(v)), bddVar(r)))
	}
}

// elEq decides an equation between integers that represent group elements.
func elEq(p *Node) (*bdd, bool) {
	if len(p.poly) > 2 {
		return nil, false
	}
	var g *modpGroup
	for _, t := range p.poly {
		for _, f := range t.fac {
			if f.a.kind == KAtom && f.a.op == "el" {
				for _, x := range modpGroups {
					if x.grp == f.a.args[0].lin.grp {
						g = x
					}
				}
			}
		}
	}
	if g == nil {
		return nil, false
	}
	var es []*Node
	signs := 0
	for _, t := range p.poly {
		signs += t.c.Sign()
		u := termNode(pterm{c: new(big.Rat).Abs(t.c), fac: t.fac})
		if a := atomOf(u); a == nil || a.op != "el" {
			if c, ok := constOf(u); !ok || c.Cmp(g.p) >= 0 {
				return nil, false
			} else if modpElem(u, g) == nil {
				return nil, false
			}
		}
		es = append(es, modpElem(u, g))
	}
	if len(es) == 1 {
		return bddF, true // representatives are not zero
	}
	if signs != 0 {
		return nil, false
	}
	return elemIsZero(elemSub(es[0], es[1])), true
}

// affine1 recognises a + c (coefficient of a is one).
func affine1(p *Node) (*Node, *big.Int, bool) {
	var a *Node
	c := new(big.Int)
	for _, t := range p.poly {
		if len(t.fac) == 0 {
			if !t.c.IsInt() {
				return nil, nil, false
			}
			c.Set(t.c.Num())
			continue
		}
		if a != nil || len(t.fac) != 1 || !isConst(t.fac[0].e, 1) || t.c.Cmp(big.NewRat(1, 1)) != 0 {
			return nil, nil, false
		}
		a = t.fac[0].a
	}
	if a == nil {
		return nil, nil, false
	}
	return a, c, true
}

// powEq recognises 2^e - 1 and 2^e - 2^f up to sign.
func powEq(p *Node) (*Node, bool) {
	if len(p.poly) != 2 {
		return nil, false
	}
	var es []*Node
	signs := 0
	for _, t := range p.poly {
		signs += t.c.Sign()
		u := pterm{c: new(big.Rat).Abs(t.c), fac: t.fac}
		e, ok := pow2Exp(termNode(u))
		if !ok {
			return nil, false
		}
		es = append(es, e)
	}
	if signs != 0 {
		return nil, false
	}
	return subInt(es[0], es[1]), true
}

func pow2Exp(n *Node) (*Node, bool) {
	if len(n.poly) != 1 {
		return nil, false
	}
	t := n.poly[0]
	var k int64
	if t.c.IsInt() {
		kk, ok := ilog(t.c.Num(), 2)
		if !ok {
			return nil, false
		}
		k = kk
	} else {
		if t.c.Num().Cmp(big.NewInt(1)) != 0 {
			return nil, false
		}
		kk, ok := ilog(t.c.Denom(), 2)
		if !ok {
			return nil, false
		}
		k = -kk
	}
	e := intNode(k)
	for _, f := range t.fac {
		if f.a.op != "cb" || !isConst(f.a.args[0], 2) {
			return nil, false
		}
		e = addInt(e, f.e)
	}
	return e, true
}

func nonNeg(p *Node) bool {
	lo, _, ok := bounds(p)
	return ok && lo != nil && lo.Sign() >= 0
}

// signOf decides the sign: 1 positive, -1 negative, 2 non-negative, -2 non-positive, 0 unknown.
func signOf(p *Node) int {
	lo, hi, ok := bounds(p)
	if !ok {
		return 0
	}
	switch {
	case lo != nil && lo.Sign() > 0:
		return 1
	case hi != nil && hi.Sign() < 0:
		return -1
	case lo != nil && lo.Sign() == 0:
		return 2
	case hi != nil && hi.Sign() == 0:
		return -2
	}
	return 0
}

// pos is p > 0 over the integers.
func pos(p *Node) *bdd {
	p = asInt(p)
	if c, ok := constOf(p); ok {
		if c.Sign() > 0 {
			return bddT
		}
		return bddF
	}
	switch signOf(p) {
	case 1:
		return bddT
	case -1:
		return bddF
	}
	if signOf(p) == -2 {
		return bddF
	}
	if symLess(p) {
		return bddT
	}
	if symLess(subInt(one, p)) { // p <= 0
		return bddF
	}
	if a, c, ok := affine1(p); ok && a.kind == KAtom && a.op == "sgn" {
		return sgnPos(a.args[0], c)
	}
	if a, c, ok := affine1(negInt(p)); ok && a.kind == KAtom && a.op == "sgn" {
		// -(sgn + c) > 0  <=> sgn + c < 0 <=> not (sgn + c + 1 > 0)
		return bddNot(sgnPos(a.args[0], new(big.Int).Add(c, big.NewInt(1))))
	}
	if len(p.poly) == 1 {
		t := p.poly[0]
		if t.c.Sign() > 0 && t.c.Cmp(big.NewRat(1, 1)) != 0 {
			return pos(scaleRat(p, new(big.Rat).Inv(t.c)))
		}
		// non-negative product: positive iff not zero
		if nonNeg(p) {
			return bddNot(eq0(p))
		}
		if nonNeg(negInt(p)) {
			return bddF
		}
	}
	// 2^e > 1 iff e > 0
	if e, ok := powGt(p); ok {
		return pos(e)
	}
	if b, ok := splitInd(p, pos); ok {
		return b
	}
	// lengths in bits are thresholds of the value
	if a, c, ok := affine1(p); ok && a.kind == KAtom && a.op == "bitlen" && c.Sign() <= 0 && c.IsInt64() && c.Int64() > -1<<16 {
		// bitlen(x) > k  <=> |x| >= 2^k
		x, k := asInt(a.args[0]), uint(-c.Int64())
		l := bigNode(new(big.Int).Sub(new(big.Int).Lsh(bigOne, k), bigOne))
		if nonNeg(x) {
			return pos(subInt(x, l))
		}
		return bddOr(pos(subInt(x, l)), pos(subInt(negInt(x), l)))
	}
	if a, c, ok := affine1(negInt(p)); ok && a.kind == KAtom && a.op == "bitlen" {
		return bddNot(pos(addInt(asInt(a), bigNode(new(big.Int).Add(c, big.NewInt(1))))))
	}
	// lengths in bytes against whole byte counts
	if a, c, ok := affine1(p); ok && a.kind == KAtom && a.op == "bytelen" {
		// bytelen(x) > -c  <=> bitlen(x) > 8*(-c)
		return pos(addInt(asInt(rawAtom(SInt, "bitlen", a.args[0])), bigNode(new(big.Int).Mul(c, big.NewInt(8)))))
	}
	if a, c, ok := affine1(negInt(p)); ok && a.kind == KAtom && a.op == "bytelen" {
		return bddNot(pos(addInt(asInt(a), bigNode(new(big.Int).Add(c, big.NewInt(1))))))
	}
	// 1 - a > 0 <=> a = 0 for a >= 0
	if q := subInt(one, p); nonNeg(q) {
		return eq0(q)
	}
	if nonNeg(p) {
		e := eq0(p)
		if len(p.poly) > 1 && rewriteAll(p) != p {
			// the equation is stated about digits: relate it to the other
			// thresholds of the value itself
			v := rawAtom(SBool, "pos", p)
			addAxiom(bddXor(bddVar(v), e))
			thresholdAxioms(v, p)
		}
		return bddNot(e)
	}
	if leadNeg(p) {
		return bddNot(pos(subInt(one, p)))
	}
	v := rawAtom(SBool, "pos", p)
	thresholdAxioms(v, p)
	return bddVar(v)
}

func powGt(p *Node) (*Node, bool) {
	if len(p.poly) != 2 {
		return nil, false
	}
	var pe, ne *Node
	for _, t := range p.poly {
		u := pterm{c: new(big.Rat).Abs(t.c), fac: t.fac}
		e, ok := pow2Exp(termNode(u))
		if !ok {
			return nil, false
		}
		if t.c.Sign() > 0 {
			pe = e
		} else {
			ne = e
		}
	}
	if pe == nil || ne == nil {
		return nil, false
	}
	return subInt(pe, ne), true
}

func sgnPos(x *Node, c *big.Int) *bdd {
	// sgn(x) + c > 0
	if !c.IsInt64() {
		return bddVar(rawAtom(SBool, "pos", addInt(asInt(rawAtom(SInt, "sgn", x)), bigNode(c))))
	}
	switch k := c.Int64(); {
	case k >= 2:
		return bddT
	case k == 1: // sgn >= 0
		return bddNot(pos(negInt(x)))
	case k == 0:
		return pos(x)
	default:
		return bddF
	}
}

func sgnInt(x *Node) *Node {
	if c, ok := constOf(x); ok {
		return intNode(int64(c.Sign()))
	}
	if len(x.poly) > 0 && x.poly[0].c.Sign() < 0 {
		return negInt(asInt(rawAtom(SInt, "sgn", negInt(x))))
	}
	return asInt(rawAtom(SInt, "sgn", x))
}

// splitInd decides a predicate by cases on one indicator atom.
func splitInd(p *Node, f func(*Node) *bdd) (*bdd, bool) {
	for _, t := range p.poly {
		for _, x := range t.fac {
			if x.a.kind == KAtom && x.a.op == "ind" {
				hi := subst(p, map[*Node]*Node{x.a: one})
				lo := subst(p, map[*Node]*Node{x.a: zero})
				return bddIte(toBool(x.a.args[0]), f(hi), f(lo)), true
			}
		}
	}
	return nil, false
}

// indOf is the Int 1 if b holds and 0 otherwise, multilinear in the atoms of b.
func indOf(b *bdd) *Node {
	if b == bddT {
		return one
	}
	if b == bddF {
		return zero
	}
	if bddLarge(b, maxInd) {
		return asInt(rawAtom(SInt, "ind", mkBool(b)))
	}
	a := indAtom(b.v)
	h, l := indOf(b.hi), indOf(b.lo)
	return addInt(l, mulInt(a, subInt(h, l)))
}

// maxInd is the number of decisions up to which conditions are multiplied out.
const maxInd = 12

func bddLarge(b *bdd, max int) bool {
	seen := map[*bdd]bool{}
	var rec func(b *bdd)
	rec = func(b *bdd) {
		if b == bddT || b == bddF || seen[b] || len(seen) > max {
			return
		}
		seen[b] = true
		rec(b.hi)
		rec(b.lo)
	}
	rec(b)
	return len(seen) > max
}

func indAtom(a *Node) *Node {
	if a.op == "eq0" {
		if t := atomOf(a.args[0]); t != nil && isIdem(t) {
			return subInt(one, asInt(t))
		}
	}
	return asInt(rawAtom(SInt, "ind", mkBool(bddVar(a))))
}

// symLess recognises hi - a - c for an atom with a symbolic exclusive upper bound hi and c < 1.
func symLess(p *Node) bool {
	for _, t := range p.poly {
		if len(t.fac) != 1 || t.c.Cmp(big.NewRat(-1, 1)) != 0 || !isConst(t.fac[0].e, 1) {
			continue
		}
		a := t.fac[0].a
		hi := atomHi[a]
		if hi == nil && a.kind == KAtom && (a.op == "rand" || a.op == "mod") {
			hi = a.args[1]
		}
		if hi == nil {
			continue
		}
		// p = hi - a + rest with rest >= 0
		rest := addInt(subInt(p, hi), asInt(a))
		if lo, _, ok := bounds(rest); ok && lo != nil && lo.Sign() >= 0 {
			return true
		}
	}
	return false
}

// bddRestrict simplifies f to any function that agrees with it where care holds.
func bddRestrict(f, care *bdd) *bdd {
	memo := map[[2]int]*bdd{}
	var rec func(f, c *bdd) *bdd
	rec = func(f, c *bdd) *bdd {
		if c == bddT || f == bddT || f == bddF {
			return f
		}
		if c == bddF {
			return bddF
		}
		if f == c {
			return bddT
		}
		k := [2]int{f.id, c.id}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *bdd
		switch {
		case c.v.id < f.v.id:
			r = rec(f, bddOr(c.hi, c.lo))
		case c.v == f.v:
			switch {
			case c.hi == bddF:
				r = rec(f.lo, c.lo)
			case c.lo == bddF:
				r = rec(f.hi, c.hi)
			default:
				r = bddMk(f.v, rec(f.hi, c.hi), rec(f.lo, c.lo))
			}
		default:
			r = bddMk(f.v, rec(f.hi, c), rec(f.lo, c))
		}
		memo[k] = r
		return r
	}
	return rec(f, care)
}

func showBdd(b *bdd, d int) string {
	if b == bddT {
		return "true"
	}
	if b == bddF {
		return "false"
	}
	var cubes []string
	var rec func(b *bdd, pre []string)
	rec = func(b *bdd, pre []string) {
		if len(cubes) > 6 {
			return
		}
		if b == bddF {
			return
		}
		if b == bddT {
			cubes = append(cubes, strings.Join(pre, "∧"))
			return
		}
		s := showD(b.v, d-1)
		rec(b.hi, append(append([]string(nil), pre...), s))
		rec(b.lo, append(append([]string(nil), pre...), "¬"+s))
	}
	rec(b, nil)
	return "{" + strings.Join(cubes, " | ") + "}"
}
