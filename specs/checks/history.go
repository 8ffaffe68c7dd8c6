package checks

import (
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"
	vp "github.com/takakv/msc-poc/voteproof"
)

// What was computed before in the same process has no influence: the
// specifications of single calls, after calls with the same, with similar and
// with other operands, parameters and groups.

// others are parameters that differ from those of params.
func others(g group.Group, n int) bp.BulletProofSetupParams {
	p := params(g, n)
	p.H, p.Gg, p.Hh = sym.Elem(g, "other H"), elems(g, "other G", n), elems(g, "other Hh", n)
	return p
}

// ---------------------------------------------------------------- verification

func rangeHistory(n int) {
	g, g2 := sym.Group("G"), sym.Group("G2")
	rangeDecides(RangeProof("q", g, 2*n, others(g, 2*n)))
	rangeDecides(rangeProof(g, n, log2(n)))
	o := rangeProof(g, n, log2(n))
	o.Taux, o.Mu, o.Tprime, o.InnerProductProof = sym.Int("taux2"), sym.Int("mu2"), sym.Int("t2"), RangeProof("o", g, n, o.Params).InnerProductProof
	rangeDecides(o)
	for i := 0; i < 4; i++ {
		q := rangeProof(g, n, log2(n))
		switch i {
		case 0:
			q.Taux = sym.Int("taux3")
		case 1:
			q.Mu = sym.Int("mu3")
		case 2:
			q.InnerProductProof.A = sym.Int("ipa3")
		case 3:
			q.Params = others(g, n)
		}
		rangeDecides(q)
	}
	rangeDecides(RangeProof("p", g, n, others(g, n)))
	rangeDecides(RangeProof("h", g, 1, params(g, 1)))
	rangeDecides(RangeProof("g", g2, n, params(g2, n)))
}

func C02_history_1() { rangeHistory(1) }
func C02_history_2() { rangeHistory(2) }
func C02_history_4() { rangeHistory(4) }

func ipHistory(k int) {
	g, g2 := sym.Group("G"), sym.Group("G2")
	other := func(tag string, g group.Group, n int) bp.InnerProductProof {
		return RangeProof(tag, g, n, others(g, n)).InnerProductProof
	}
	ipDecides(other("q", g, 2<<k))
	ipDecides(ipProof(g, k))
	for i := 0; i < 6; i++ {
		o, q := ipProof(g, k), other("o", g, 1<<k)
		switch i {
		case 0:
			o.A, o.B, o.L, o.R = q.A, q.B, q.L, q.R
		case 1:
			o.A = q.A
		case 2:
			o.P = q.P
		case 3:
			o.Cc = q.Cc
		case 4:
			o.Params = q.Params
		case 5:
			o.Params.Uu = q.Params.Uu
		}
		ipDecides(o)
	}
	ipDecides(other("p", g, 1<<k))
	ipDecides(other("h", g, 1))
	ipDecides(other("g", g2, 1<<k))
}

func C03_history_1() { ipHistory(0) }
func C03_history_2() { ipHistory(1) }
func C03_history_4() { ipHistory(2) }

func multiOf(tag string, g group.Group, n, m int, p bp.BulletProofSetupParams) bp.MultiBulletProof {
	r := RangeProof(tag, g, n, p)
	return bp.MultiBulletProof{Vs: elems(g, tag+"V", m), A: r.A, S: r.S, T1: r.T1, T2: r.T2, Taux: r.Taux, Mu: r.Mu, Tprime: r.Tprime, InnerProductProof: r.InnerProductProof, Params: p}
}

func multiHistory(n, m int) {
	g, g2 := sym.Group("G"), sym.Group("G2")
	multiDecides(multiOf("q", g, 2*n, m, others(g, 2*n)))
	multiDecides(multiProof(g, n, m, log2(n)))
	for i := 0; i < 5; i++ {
		o, q := multiProof(g, n, m, log2(n)), multiOf("o", g, n, m, others(g, n))
		switch i {
		case 0:
			o.Taux, o.Mu, o.Tprime, o.InnerProductProof = q.Taux, q.Mu, q.Tprime, q.InnerProductProof
		case 1:
			o.Mu = q.Mu
		case 2:
			o.Params = q.Params
		case 3:
			o.Vs[0] = q.Vs[0]
		case 4:
			o.InnerProductProof.A = q.InnerProductProof.A
		}
		multiDecides(o)
	}
	multiDecides(multiOf("p", g, n, n, params(g, n)))
	multiDecides(multiOf("h", g, n, 1, params(g, n)))
	multiDecides(multiOf("g", g2, n, m, params(g2, n)))
}

func C16_history_2_2() { multiHistory(2, 2) }
func C16_history_4_2() { multiHistory(4, 2) }

// voteOther differs from voteProof in everything but the parameters.
func voteOther(p vp.ProofParams) (vp.SigmaProof, vp.VerCommitments) {
	ff, ec := p.GFF.I, p.GEC.I
	pr := voteProof(p)
	pr.W, pr.Kp = sym.Elem(ff, "other W"), sym.Elem(ff, "other Kp")
	pr.Kq1, pr.Kq2 = sym.Elem(ec, "other Kq1"), sym.Elem(ec, "other Kq2")
	pr.Challenge, pr.Z = sym.Int("other c"), sym.Int("other z")
	pr.Sp, pr.Sq1, pr.Sq2 = sym.Int("other sp"), sym.Int("other sq1"), sym.Int("other sq2")
	c := vp.VerCommitments{Y: sym.Elem(ff, "other Y"), Xp: sym.Elem(ff, "other Xp"), Xq1: sym.Elem(ec, "other Xq1"), Xq2: sym.Elem(ec, "other Xq2")}
	return pr, c
}

func voteHistory(order, order2 string, bg, bg2 int) {
	p, p2 := voteParams(order, 16, 224, uint16(bg)), voteParams(order2, 8, 64, uint16(bg2))
	voteDecides(voteProof(p), statement(p), p, 16, 224, bg)
	q, d := voteOther(p)
	voteDecides(q, d, p, 16, 224, bg)
	for i := 0; i < 4; i++ {
		o, c := voteProof(p), statement(p)
		switch i {
		case 0:
			o.Z, o.Sp, o.Sq1, o.Sq2 = q.Z, q.Sp, q.Sq1, q.Sq2
		case 1:
			o.Sq2 = q.Sq2
		case 2:
			c.Xq2 = d.Xq2
		case 3:
			o.Params.GFF.H, o.Params.GEC.H = sym.Elem(p.GFF.I, "other pk"), sym.Elem(p.GEC.I, "other h")
		}
		voteDecides(o, c, o.Params, 16, 224, bg)
	}
	voteDecides(voteProof(p2), statement(p2), p2, 8, 64, bg2)
	q, d = voteOther(p2)
	voteDecides(q, d, p2, 8, 64, bg2)
}

func C04_history_p256_p384() { voteHistory(p256N, p384N, 256, 384) }
func C04_history_p384_r255() { voteHistory(p384N, r255N, 384, 253) }

// ---------------------------------------------------------------- proving

func C06_history() {
	g, g2 := sym.Group("G"), sym.Group("G2")
	complete(2)
	completeFor(params(g, 2), sym.Bits("w", 2))
	completeFor(others(g, 2), sym.Bits("w", 2))
	complete(4)
	complete(1)
	completeFor(params(g2, 4), sym.Bits("v", 4))
}

func C16_history_complete() {
	g, g2 := sym.Group("G"), sym.Group("G2")
	multiComplete(4, 2)
	multiCompleteFor(params(g, 4), "w", 2)
	multiCompleteFor(params(g, 4), "w", 4)
	multiCompleteFor(others(g, 4), "w", 1)
	multiComplete(2, 2)
	multiCompleteFor(params(g2, 4), "v", 2)
}

func C07_history() {
	voteComplete(p256N, 16, 224, 256)
	voteCompleteFor(voteParams(p256N, 16, 224, 256), sym.Nat("w", 16), 16, 224, 256)
	p := voteParams(p256N, 16, 128, 256)
	p.GFF.H, p.GEC.H = sym.Elem(p.GFF.I, "other pk"), sym.Elem(p.GEC.I, "other h")
	voteCompleteFor(p, sym.Nat("w", 16), 16, 128, 256)
	voteComplete(p384N, 16, 224, 384)
}

// ---------------------------------------------------------------- parameters and helpers

func C15_history() {
	g, g2 := sym.Group("G"), sym.Group("G2")
	for _, n := range []int{16, 4, 2, 16, 32, 1, 8} {
		p, err := bp.Setup(int64(1)<<n, g)
		sym.Check("accepts the range", err == nil)
		checkParams(g, p, n)
	}
	for _, n := range []int{4, 8} {
		p, err := bp.Setup(int64(1)<<n, g2)
		sym.Check("accepts the range", err == nil)
		checkParams(g2, p, n)
	}
	for _, g := range []group.Group{group.P256(), group.P384(), group.SecP256k1(), group.Ristretto255(), group.P256()} {
		p, err := bp.Setup(16, g)
		sym.Check("accepts the range", err == nil)
		checkParams(g, p, 4)
	}
	ff := groupParams(fieldGroup(), "pk")
	for i, o := range []string{p384N, p256N} {
		ap := vp.AlgebraicParameters{GFF: ff, GEC: groupParams(curveGroup(o), "h")}
		p, err := vp.Setup(16, uint16(64+i), 256, uint16(5-i), uint16(100+i), ap)
		sym.Check("accepts the lengths", err == nil)
		sym.Check("lengths", p.Bx == 16 && int(p.Bc) == 64+i && p.Bg == 256 && p.Bb == 175-i)
		sym.Check("range", int(p.RangeLo) == 5-i && int(p.RangeHi) == 100+i)
		sym.Check("groups", sym.Eq(p.AlgebraicParameters, ap))
	}
}

func C17_history() {
	g, g2 := sym.Group("G"), sym.Group("G2")
	vectorsOf(g, "", 2)
	vectorsOf(g, "x", 2)
	vectorsOf(g, "x", 4)
	vectorsOf(g2, "", 4)
	vectorsOf(g2, "", 1)
	decomposeOf("v", 4)
	decomposeOf("w", 4)
	decomposeOf("w", 8)
	decomposeOf("v", 2)
}

// groups keep their parameters whatever other groups exist
func C18_history() {
	a := group.NewModPGroup("field", "17", "4")
	b := group.NewModPGroup("field", "2F", "2")
	c := group.NewModPGroup("field", "17", "3")
	for i := 0; i < 2; i++ {
		for j, g := range []group.Group{a, b, c} {
			p, gen := []int64{0x17, 0x2F, 0x17}[j], []int64{4, 2, 3}[j]
			sym.Check("name", g.Name() == "field")
			sym.Check("field", same(g.P(), big.NewInt(p)))
			sym.Check("order", same(g.N(), big.NewInt((p-1)/2)))
			d, _ := g.Generator().MarshalBinary()
			sym.Check("generator", same(new(big.Int).SetBytes(d), big.NewInt(gen)))
			d, _ = g.Element().BaseScale(big.NewInt(2)).MarshalBinary()
			sym.Check("multiples of the generator", same(new(big.Int).SetBytes(d), big.NewInt(gen*gen%p)))
		}
	}
	for i := 0; i < 2; i++ {
		for j, g := range []group.Group{group.P256(), group.P384(), group.SecP256k1(), group.Ristretto255()} {
			n := []string{p256N, p384N, k1N, r255N}[j]
			sym.Check("order", same(g.N(), hex(n)))
			sym.Check("generator", mul(g, g.Generator(), g.N()).IsIdentity() && g.Generator().IsEqual(g.Element().BaseScale(big.NewInt(1))))
		}
	}
}
