package checks

import (
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/util"
	"github.com/takakv/msc-poc/verifspec/sym"
	vp "github.com/takakv/msc-poc/voteproof"
)

// Results are about the values operands have when they are used, also when the
// same objects had other values in an earlier call.

func changedOperands(g group.Group) {
	s, A, B := new(big.Int), g.Element(), g.Element()
	var a, b, v []*big.Int
	var As, Bs []group.Element
	for _, t := range []string{"1", "2", "3"} {
		a, b, v = append(a, sym.Int("a"+t)), append(b, sym.Int("b"+t)), append(v, sym.Int("s"+t))
		As, Bs = append(As, at(g, sym.Int("a"+t))), append(Bs, at(g, sym.Int("b"+t)))
	}
	// no other call comes between those of one operation
	each := func(what string, op func() group.Element, want func(i int) *big.Int) {
		var r []group.Element
		for i := range a {
			s.Set(v[i])
			A.Set(As[i])
			B.Set(Bs[i])
			r = append(r, g.Element().Set(op()))
		}
		for i := range a {
			sym.Check(what, r[i].IsEqual(at(g, want(i))))
		}
	}
	r := g.Element()
	each("multiple of the generator", func() group.Element { return g.Element().BaseScale(s) }, func(i int) *big.Int { return v[i] })
	each("multiple of an element", func() group.Element { return g.Element().Scale(A, s) }, func(i int) *big.Int { return prod(a[i], v[i]) })
	each("sum", func() group.Element { return g.Element().Add(A, B) }, func(i int) *big.Int { return add(a[i], b[i]) })
	each("difference", func() group.Element { return g.Element().Subtract(A, B) }, func(i int) *big.Int { return minus(a[i], b[i]) })
	each("negation", func() group.Element { return g.Element().Negate(A) }, func(i int) *big.Int { return neg(a[i]) })
	each("multiple of the generator in the same receiver", func() group.Element { return r.BaseScale(s) }, func(i int) *big.Int { return v[i] })
	each("multiple in the same receiver", func() group.Element { return r.Scale(A, s) }, func(i int) *big.Int { return prod(a[i], v[i]) })
	each("multiple in place", func() group.Element { return A.Scale(A, s) }, func(i int) *big.Int { return prod(a[i], v[i]) })
	each("sum in the same receiver", func() group.Element { return r.Add(A, B) }, func(i int) *big.Int { return add(a[i], b[i]) })
	for i := range a {
		A.Set(As[i])
		B.Set(Bs[i])
		sym.Check("equality", A.IsEqual(B) == As[i].IsEqual(Bs[i]))
		sym.Check("identity", A.IsIdentity() == As[i].IsEqual(g.Identity()))
	}
}

func C10_changed_p256()      { changedOperands(group.P256()) }
func C10_changed_p384()      { changedOperands(group.P384()) }
func C10_changed_secp256k1() { changedOperands(group.SecP256k1()) }
func C10_changed_r255()      { changedOperands(group.Ristretto255()) }
func C10_changed_modp()      { changedOperands(modp()) }
func C10_changed_modp65()    { changedOperands(modp65()) }

func setAll(xs, ys []*big.Int) {
	for i := range xs {
		xs[i].Set(ys[i])
	}
}

func setElems(xs, ys []group.Element) {
	for i := range xs {
		xs[i].Set(ys[i])
	}
}

func copyElems(g group.Group, xs []group.Element) []group.Element {
	var r []group.Element
	for _, x := range xs {
		r = append(r, g.Element().Set(x))
	}
	return r
}

func copyInt(x *big.Int) *big.Int { return new(big.Int).Set(x) }

// a proof of objects of its own
func copyIP(g group.Group, p bp.InnerProductProof) bp.InnerProductProof {
	p.P, p.Cc, p.A, p.B = g.Element().Set(p.P), copyInt(p.Cc), copyInt(p.A), copyInt(p.B)
	p.L, p.R = copyElems(g, p.L), copyElems(g, p.R)
	p.Params.Gg, p.Params.Hh, p.Params.Uu = copyElems(g, p.Params.Gg), copyElems(g, p.Params.Hh), g.Element().Set(p.Params.Uu)
	return p
}

func setIP(p *bp.InnerProductProof, q bp.InnerProductProof, part int) {
	if part == 0 {
		setAll([]*big.Int{p.Cc, p.A, p.B}, []*big.Int{q.Cc, q.A, q.B})
		return
	}
	p.P.Set(q.P)
	setElems(p.L, q.L)
	setElems(p.R, q.R)
	p.Params.Uu.Set(q.Params.Uu)
}

func copyRange(g group.Group, p bp.BulletProof) bp.BulletProof {
	p.V, p.A, p.S, p.T1, p.T2 = g.Element().Set(p.V), g.Element().Set(p.A), g.Element().Set(p.S), g.Element().Set(p.T1), g.Element().Set(p.T2)
	p.Taux, p.Mu, p.Tprime = copyInt(p.Taux), copyInt(p.Mu), copyInt(p.Tprime)
	p.InnerProductProof = copyIP(g, p.InnerProductProof)
	p.Params.Gg, p.Params.Hh, p.Params.H = copyElems(g, p.Params.Gg), copyElems(g, p.Params.Hh), g.Element().Set(p.Params.H)
	return p
}

func changedRange(n int) {
	g := sym.Group("G")
	p := copyRange(g, rangeProof(g, n, log2(n)))
	q := RangeProof("q", g, n, others(g, n))
	rangeDecides(p)
	setAll([]*big.Int{p.Taux, p.Mu, p.Tprime}, []*big.Int{q.Taux, q.Mu, q.Tprime})
	rangeDecides(p)
	setIP(&p.InnerProductProof, q.InnerProductProof, 0)
	rangeDecides(p)
	setIP(&p.InnerProductProof, q.InnerProductProof, 1)
	rangeDecides(p)
	setElems([]group.Element{p.V, p.A, p.S, p.T1, p.T2}, []group.Element{q.V, q.A, q.S, q.T1, q.T2})
	rangeDecides(p)
	p.Params.H.Set(q.Params.H)
	rangeDecides(p)
	setElems(p.Params.Gg, q.Params.Gg)
	rangeDecides(p)
	setElems(p.Params.Hh, q.Params.Hh)
	rangeDecides(p)
}

func C02_changed_1() { changedRange(1) }
func C02_changed_2() { changedRange(2) }
func C02_changed_4() { changedRange(4) }

func changedIP(k int) {
	g := sym.Group("G")
	p := copyIP(g, ipProof(g, k))
	q := RangeProof("q", g, 1<<k, others(g, 1<<k)).InnerProductProof
	ipDecides(p)
	for i := 0; i < 2; i++ {
		setIP(&p, q, i)
		ipDecides(p)
	}
	setElems(p.Params.Gg, q.Params.Gg)
	ipDecides(p)
	setElems(p.Params.Hh, q.Params.Hh)
	ipDecides(p)
}

func C03_changed_1() { changedIP(0) }
func C03_changed_2() { changedIP(1) }
func C03_changed_4() { changedIP(2) }

func changedMulti(n, m int) {
	g := sym.Group("G")
	p := multiProof(g, n, m, log2(n))
	p.Vs, p.InnerProductProof = copyElems(g, p.Vs), copyIP(g, p.InnerProductProof)
	p.A, p.S, p.T1, p.T2 = g.Element().Set(p.A), g.Element().Set(p.S), g.Element().Set(p.T1), g.Element().Set(p.T2)
	p.Taux, p.Mu, p.Tprime = copyInt(p.Taux), copyInt(p.Mu), copyInt(p.Tprime)
	q := multiOf("q", g, n, m, others(g, n))
	multiDecides(p)
	setAll([]*big.Int{p.Taux, p.Mu, p.Tprime}, []*big.Int{q.Taux, q.Mu, q.Tprime})
	multiDecides(p)
	for i := 0; i < 2; i++ {
		setIP(&p.InnerProductProof, q.InnerProductProof, i)
		multiDecides(p)
	}
	setElems(p.Vs, q.Vs)
	multiDecides(p)
	setElems([]group.Element{p.A, p.S, p.T1, p.T2}, []group.Element{q.A, q.S, q.T1, q.T2})
	multiDecides(p)
}

func C16_changed_2_2() { changedMulti(2, 2) }

func changedVote(order string, bg int) {
	p := voteParams(order, 16, 224, uint16(bg))
	ff, ec := p.GFF.I, p.GEC.I
	pr, c := voteProof(p), statement(p)
	pr.W, pr.Kp, pr.Kq1, pr.Kq2 = ff.Element().Set(pr.W), ff.Element().Set(pr.Kp), ec.Element().Set(pr.Kq1), ec.Element().Set(pr.Kq2)
	pr.Challenge, pr.Z, pr.Sp, pr.Sq1, pr.Sq2 = copyInt(pr.Challenge), copyInt(pr.Z), copyInt(pr.Sp), copyInt(pr.Sq1), copyInt(pr.Sq2)
	c = vp.VerCommitments{Y: ff.Element().Set(c.Y), Xp: ff.Element().Set(c.Xp), Xq1: ec.Element().Set(c.Xq1), Xq2: ec.Element().Set(c.Xq2)}
	q, d := voteOther(p)
	voteDecides(pr, c, p, 16, 224, bg)
	setAll([]*big.Int{pr.Z, pr.Sp, pr.Sq1, pr.Sq2}, []*big.Int{q.Z, q.Sp, q.Sq1, q.Sq2})
	voteDecides(pr, c, p, 16, 224, bg)
	setElems([]group.Element{c.Y, c.Xp, c.Xq1, c.Xq2}, []group.Element{d.Y, d.Xp, d.Xq1, d.Xq2})
	voteDecides(pr, c, p, 16, 224, bg)
	setElems([]group.Element{pr.W, pr.Kp, pr.Kq1, pr.Kq2}, []group.Element{q.W, q.Kp, q.Kq1, q.Kq2})
	voteDecides(pr, c, p, 16, 224, bg)
	pr.Challenge.Set(q.Challenge)
	voteDecides(pr, c, p, 16, 224, bg)
}

func C04_changed_p256() { changedVote(p256N, 256) }
func C04_changed_r255() { changedVote(r255N, 253) }

func C05_changed() {
	g := sym.Group("G")
	a, b := g.Element(), g.Element()
	es := []group.Element{a, b}
	for _, t := range []string{"1", "2", "3"} {
		a.Set(sym.Elem(g, "A"+t))
		b.Set(sym.Elem(g, "B"+t))
		x, z, _ := bp.HashBP(es...)
		sym.Check("first challenge is the digest of all elements in order", same(x, digest(a.String()+b.String())))
		sym.Check("second challenge is the digest of that and the first", same(z, digest(a.String()+b.String()+x.String())))
	}
}

func C06_changed() {
	g := sym.Group("G")
	s := new(big.Int)
	p := params(g, 2)
	p.H, p.Gg, p.Hh = g.Element().Set(p.H), copyElems(g, p.Gg), copyElems(g, p.Hh)
	for _, t := range []string{"1", "2"} {
		s.Set(sym.Bits("v"+t, 2))
		completeFor(p, s)
		p.H.Set(sym.Elem(g, "H"+t))
		setElems(p.Gg, elems(g, "G"+t, 2))
		setElems(p.Hh, elems(g, "Hh"+t, 2))
		completeFor(p, s)
	}
}

func C07_changed() {
	s := new(big.Int)
	p := voteParams(p256N, 16, 224, 256)
	for _, t := range []string{"1", "2"} {
		s.Set(sym.Nat("m"+t, 16))
		voteCompleteFor(p, s, 16, 224, 256)
	}
}

func changedEncodings(g group.Group, encode func(e group.Element) ([]byte, error), decode func(e group.Element, d []byte) error) {
	A, B, M := g.Element(), g.Element(), g.Element()
	for _, t := range []string{"1", "2"} {
		a := sym.Int("a" + t)
		A.Set(at(g, a))
		d, err := encode(A)
		sym.Check("changed elements have an encoding", err == nil)
		sym.Check("decoding restores the element", decode(B, d) == nil && B.IsEqual(at(g, a)))
		A.Scale(A, sym.Int("s"+t))
		d, err = encode(A)
		sym.Check("multiples in place have an encoding", err == nil)
		sym.Check("decoding restores the multiple", decode(B, d) == nil && B.IsEqual(at(g, prod(a, sym.Int("s"+t)))))
		M.BaseScale(a)
		d, _ = encode(M)
		sym.Check("decoding restores the multiple of the generator", decode(B, d) == nil && B.IsEqual(at(g, a)))
		M.Add(M, B)
		d, _ = encode(M)
		sym.Check("decoding restores the sum in place", decode(B, d) == nil && B.IsEqual(at(g, add(a, a))))
		M.Negate(M)
		d, _ = encode(M)
		sym.Check("decoding restores the negation in place", decode(B, d) == nil && B.IsEqual(at(g, neg(add(a, a)))))
		M.Subtract(M, at(g, sym.Int("c"+t)))
		d, _ = encode(M)
		sym.Check("decoding restores the difference in place", decode(B, d) == nil && B.IsEqual(at(g, minus(neg(add(a, a)), sym.Int("c"+t)))))
		d, _ = encode(A)
		sym.Check("a changed element is decoded into one that was encoded", decode(M, d) == nil && M.IsEqual(A))
		e, _ := encode(M)
		sym.Check("decoded elements have the encoding they came from", string(e) == string(d))
		M.Set(at(g, a))
		M.Set(g.Identity())
		e, _ = encode(M)
		sym.Check("decoding restores the identity", decode(B, e) == nil && B.IsIdentity())
	}
}

// the text of an element is that of its value
func changedText(g group.Group) {
	a, b, s := sym.Int("a"), sym.Int("b"), sym.Int("s")
	A, B, C := at(g, a), at(g, b), at(g, b)
	is := func(what string, v *big.Int) {
		e := at(g, v)
		sym.Check(what, A.String() == e.String())
	}
	is("text", a)
	A.Negate(A)
	is("text of the negation in place", neg(a))
	A.Add(A, B)
	is("text of the sum in place", minus(b, a))
	A.Subtract(A, B)
	is("text of the difference in place", neg(a))
	A.Scale(A, s)
	is("text of the multiple in place", neg(prod(a, s)))
	A.BaseScale(s)
	is("text of the multiple of the generator", s)
	A.Set(B)
	is("text of the copy", b)
	d, _ := at(g, a).MarshalBinary()
	A.UnmarshalBinary(d)
	is("text of the decoded element", a)
	d, _ = at(g, s).MarshalJSON()
	A.UnmarshalJSON(d)
	is("text of the element decoded from JSON", s)
	sym.Check("text of the original", B.String() == C.String())
	B.Add(B, A)
	is("text of a copied element", s)
}

func C05_changed_text_p256() { changedText(group.P256()) }
func C05_changed_text_p384() { changedText(group.P384()) }
func C05_changed_text_r255() { changedText(group.Ristretto255()) }
func C05_changed_text_modp() { changedText(modp()) }

func changedJSON(g group.Group) {
	changedEncodings(g, group.Element.MarshalJSON, group.Element.UnmarshalJSON)
}

func changedBinary(g group.Group) {
	changedEncodings(g, group.Element.MarshalBinary, group.Element.UnmarshalBinary)
}

func C12_changed_p256()      { changedJSON(group.P256()) }
func C12_changed_p384()      { changedJSON(group.P384()) }
func C12_changed_secp256k1() { changedJSON(group.SecP256k1()) }
func C12_changed_r255()      { changedJSON(group.Ristretto255()) }
func C12_changed_modp()      { changedJSON(modp()) }
func C19_changed_p256()      { changedBinary(group.P256()) }
func C19_changed_p384()      { changedBinary(group.P384()) }
func C19_changed_secp256k1() { changedBinary(group.SecP256k1()) }
func C19_changed_r255()      { changedBinary(group.Ristretto255()) }
func C19_changed_modp()      { changedBinary(modp()) }

func C17_changed() {
	g := sym.Group("G")
	N := g.N()
	a, b, c := ints("a0", 2), ints("b0", 2), new(big.Int)
	a[0], a[1], b[0], b[1] = new(big.Int), new(big.Int), new(big.Int), new(big.Int)
	A, B := []group.Element{g.Element(), g.Element()}, []group.Element{g.Element(), g.Element()}
	for _, t := range []string{"1", "2", "3"} {
		setAll(a, ints("a"+t, 2))
		setAll(b, ints("b"+t, 2))
		c.Set(sym.Int("c" + t))
		setElems(A, elems(g, "A"+t, 2))
		setElems(B, elems(g, "B"+t, 2))
		w, W := new(big.Int), g.Identity()
		for i := range a {
			w.Add(w, prod(a[i], b[i]))
			W = g.Element().Add(W, g.Element().Scale(A[i], b[i]))
		}
		s, _ := bp.ScalarProduct(a, b, g)
		sym.Check("scalar product", congruent(s, w, N))
		sym.Check("inner product", congruent(bp.VectorInnerProduct(a, b, N), w, N))
		E, _ := bp.VectorExp(A, b, g)
		sym.Check("linear combination", E.IsEqual(W))
		S, _ := bp.VectorECAdd(A, B, g)
		sum, _ := bp.VectorAdd(a, b, N)
		diff, _ := bp.VectorSub(a, b, N)
		mult, _ := bp.VectorScalarMul(a, c, N)
		for i := range a {
			sym.Check("sum of elements", S[i].IsEqual(g.Element().Add(A[i], B[i])))
			sym.Check("sum", congruent(sum[i], add(a[i], b[i]), N))
			sym.Check("difference", congruent(diff[i], minus(a[i], b[i]), N))
			sym.Check("multiple", congruent(mult[i], prod(a[i], c), N))
		}
		sym.Check("commitment", util.PedersenCommit(a[0], b[0], A[0], g).IsEqual(g.Element().Add(g.Element().BaseScale(a[0]), g.Element().Scale(A[0], b[0]))))
	}
	v := new(big.Int)
	for _, t := range []string{"1", "2"} {
		x := sym.Bits("v"+t, 4)
		v.Set(x)
		y := new(big.Int)
		for i, bit := range util.Decompose(v, 2, 4) {
			y.Add(y, prod(big.NewInt(bit), big.NewInt(1<<i)))
		}
		sym.Check("digits", same(x, y))
	}
}
