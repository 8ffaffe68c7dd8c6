package checks

import (
	"encoding/json"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"
	vp "github.com/takakv/msc-poc/voteproof"
)

// ---------------------------------------------------------------- C20 effects on shared memory

// alone: f writes nothing that another call could be using
func alone(label string, f func()) {
	sym.Freeze()
	f()
	sym.Check(label, sym.Unwritten())
}

func parallelRange(n int) {
	g := sym.Group("G")
	p := params(g, n)
	v := sym.Bits("v", n)
	alone("proving", func() { _, _, _ = bp.Prove(v, p) })
	pr := rangeProof(g, n, log2(n))
	alone("verifying", func() { _, _ = pr.Verify() })
	if n <= 4 {
		d, _ := json.Marshal(pr)
		alone("encoding", func() { _, _ = json.Marshal(pr) })
		alone("decoding", func() { _, _ = bp.BulletProofUnmarshalJSON(d, pr.Params) })
	}
}

func C20_range_1()  { parallelRange(1) }
func C20_range_2()  { parallelRange(2) }
func C20_range_4()  { parallelRange(4) }
func C20_range_8()  { parallelRange(8) }
func C20_range_16() { parallelRange(16) }
func C20_range_32() { parallelRange(32) }

func parallelMulti(n, m int) {
	g := sym.Group("G")
	p := params(g, n)
	vs := make([]*big.Int, m)
	for j := range vs {
		vs[j] = sym.Bits(num("v", j), n/m)
	}
	alone("proving", func() { _, _, _ = bp.MultiProve(vs, p) })
	pr := multiProof(g, n, m, log2(n))
	alone("verifying", func() { _, _ = pr.Verify() })
}

func C20_multi_1_1()   { parallelMulti(1, 1) }
func C20_multi_2_2()   { parallelMulti(2, 2) }
func C20_multi_4_2()   { parallelMulti(4, 2) }
func C20_multi_8_4()   { parallelMulti(8, 4) }
func C20_multi_16_4()  { parallelMulti(16, 4) }
func C20_multi_16_16() { parallelMulti(16, 16) }

func parallelArgument(rounds int) {
	pr := ipProof(sym.Group("G"), rounds)
	alone("verifying", func() { _, _ = pr.Verify() })
}

func C20_argument_0() { parallelArgument(0) }
func C20_argument_1() { parallelArgument(1) }
func C20_argument_3() { parallelArgument(3) }

func parallelVote(order string, bg uint16) {
	p := voteParams(order, 16, 224, bg)
	v := sym.Nat("v", 16)
	rp, r1, r2 := sym.Scalar("rp", p.GFF.N), sym.Scalar("r1", p.GEC.N), sym.Scalar("r2", p.GEC.N)
	alone("proving", func() { _ = vp.Prove(v, rp, r1, r2, p) })
	pr, c := voteProof(p), statement(p)
	alone("verifying", func() { _ = pr.Verify(c) })
	d, _ := json.Marshal(pr)
	alone("encoding", func() { _, _ = json.Marshal(pr) })
	alone("decoding", func() { _, _ = vp.ProofUnmarshalJSON(d, p.GFF.I, p.GEC.I) })
}

func C20_vote_p256() { parallelVote(p256N, 256) }
func C20_vote_p384() { parallelVote(p384N, 384) }
func C20_vote_r255() { parallelVote(r255N, 253) }

// operations write to their receiver only
func parallelGroup(g group.Group) {
	A, B, s := at(g, sym.Int("a")), at(g, sym.Int("b")), sym.Int("s")
	t := sym.Str("text")
	d, _ := A.MarshalBinary()
	j, _ := A.MarshalJSON()
	alone("making elements", func() {
		_, _, _ = g.Element(), g.Generator(), g.Identity()
		_ = g.Random()
	})
	alone("describing", func() {
		_, _, _ = g.N(), g.P(), g.Name()
		_, _ = g.MarshalJSON()
		_, _ = A.GroupOrder(), A.FieldOrder()
	})
	alone("computing", func() {
		g.Element().Add(A, B)
		g.Element().Subtract(A, B)
		g.Element().Negate(A)
		g.Element().Scale(A, s)
		g.Element().BaseScale(s)
		g.Element().Set(B)
	})
	alone("comparing", func() { _, _ = A.IsEqual(B), A.IsIdentity() })
	alone("encoding", func() {
		_, _ = A.MarshalBinary()
		_, _ = A.MarshalJSON()
		_ = A.String()
	})
	alone("decoding", func() {
		_ = g.Element().UnmarshalBinary(d)
		_ = g.Element().UnmarshalJSON(j)
		_ = g.Element().SetBytes(d)
	})
	if g.Name() != modp().Name() {
		alone("hashing", func() { _, _ = g.Element().MapToGroup(t) })
	}
}

func C20_group_p256()      { parallelGroup(group.P256()) }
func C20_group_p384()      { parallelGroup(group.P384()) }
func C20_group_secp256k1() { parallelGroup(group.SecP256k1()) }
func C20_group_r255()      { parallelGroup(group.Ristretto255()) }
func C20_group_modp()      { parallelGroup(modp()) }

func C20_setup() {
	g := sym.Group("G")
	alone("range proof setup", func() { _, _ = bp.Setup(256, g) })
	p := voteParams(p384N, 16, 224, 384)
	a := vp.AlgebraicParameters{GFF: p.GFF, GEC: p.GEC}
	alone("vote proof setup", func() { _, _ = vp.Setup(16, 224, 384, 1, 100, a) })
	alone("groups", func() {
		_, _, _, _ = group.P256(), group.P384(), group.SecP256k1(), group.Ristretto255()
	})
}
