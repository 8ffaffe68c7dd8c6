package checks

import (
	"encoding/json"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"
	vp "github.com/takakv/msc-poc/voteproof"
)

// ---------------------------------------------------------------- C14 effects

// pure: f neither changes anything that exists nor draws random numbers
func pure(f func() bool) {
	k := sym.Draws()
	sym.Freeze()
	a := f()
	sym.Check("changes nothing", sym.Intact())
	b := f()
	sym.Check("second verdict is the first", a == b)
	sym.Check("changes nothing the second time", sym.Intact())
	sym.Check("draws no random numbers", sym.Draws() == k)
}

func verifyRange(n int) {
	g := sym.Group("G")
	pr := rangeProof(g, n, log2(n))
	pure(func() bool { ok, _ := pr.Verify(); return ok })
}

func C14_verify_range_1()  { verifyRange(1) }
func C14_verify_range_4()  { verifyRange(4) }
func C14_verify_range_2()  { verifyRange(2) }
func C14_verify_range_8()  { verifyRange(8) }
func C14_verify_range_16() { verifyRange(16) }
func C14_verify_range_32() { verifyRange(32) }

func verifyMulti(n, m int) {
	g := sym.Group("G")
	pr := multiProof(g, n, m, log2(n))
	pure(func() bool { ok, _ := pr.Verify(); return ok })
}

func C14_verify_multi_1_1()   { verifyMulti(1, 1) }
func C14_verify_multi_2_1()   { verifyMulti(2, 1) }
func C14_verify_multi_2_2()   { verifyMulti(2, 2) }
func C14_verify_multi_4_1()   { verifyMulti(4, 1) }
func C14_verify_multi_4_2()   { verifyMulti(4, 2) }
func C14_verify_multi_4_4()   { verifyMulti(4, 4) }
func C14_verify_multi_8_1()   { verifyMulti(8, 1) }
func C14_verify_multi_8_2()   { verifyMulti(8, 2) }
func C14_verify_multi_8_4()   { verifyMulti(8, 4) }
func C14_verify_multi_8_8()   { verifyMulti(8, 8) }
func C14_verify_multi_16_1()  { verifyMulti(16, 1) }
func C14_verify_multi_16_2()  { verifyMulti(16, 2) }
func C14_verify_multi_16_4()  { verifyMulti(16, 4) }
func C14_verify_multi_16_8()  { verifyMulti(16, 8) }
func C14_verify_multi_16_16() { verifyMulti(16, 16) }
func C14_verify_multi_32_1()  { verifyMulti(32, 1) }
func C14_verify_multi_32_2()  { verifyMulti(32, 2) }
func C14_verify_multi_32_4()  { verifyMulti(32, 4) }
func C14_verify_multi_32_8()  { verifyMulti(32, 8) }
func C14_verify_multi_32_16() { verifyMulti(32, 16) }
func C14_verify_multi_32_32() { verifyMulti(32, 32) }

func verifyArgument(rounds int) {
	g := sym.Group("G")
	pr := ipProof(g, rounds)
	pure(func() bool { ok, _ := pr.Verify(); return ok })
}

func C14_verify_argument_0() { verifyArgument(0) }
func C14_verify_argument_1() { verifyArgument(1) }
func C14_verify_argument_2() { verifyArgument(2) }
func C14_verify_argument_3() { verifyArgument(3) }
func C14_verify_argument_5() { verifyArgument(5) }

func verifyVote(order string, bg uint16) {
	p := voteParams(order, 16, 224, bg)
	pr, c := voteProof(p), statement(p)
	pure(func() bool { return pr.Verify(c) })
}

func C14_verify_vote_p256() { verifyVote(p256N, 256) }
func C14_verify_vote_p384() { verifyVote(p384N, 384) }
func C14_verify_vote_r255() { verifyVote(r255N, 253) }

// proving keeps the secret and the parameters
func proveRange(n int) {
	g := sym.Group("G")
	p := params(g, n)
	v := sym.Bits("v", n)
	sym.Freeze()
	pr, gamma, _ := bp.Prove(v, p)
	sym.Check("proving keeps the secret and the parameters", sym.Intact())
	sym.Freeze()
	q, _, _ := bp.Prove(v, p)
	sym.Check("a later proof keeps the earlier one", sym.Intact())
	_, _ = q.Verify()
	sym.Check("verifying another proof keeps the earlier one", sym.Intact())
	_, _, _ = gamma, pr, q
}

func C14_prove_range_1()  { proveRange(1) }
func C14_prove_range_2()  { proveRange(2) }
func C14_prove_range_4()  { proveRange(4) }
func C14_prove_range_8()  { proveRange(8) }
func C14_prove_range_16() { proveRange(16) }
func C14_prove_range_32() { proveRange(32) }

func proveMulti(n, m int) {
	g := sym.Group("G")
	p := params(g, n)
	vs := make([]*big.Int, m)
	for j := range vs {
		vs[j] = sym.Bits(num("v", j), n/m)
	}
	sym.Freeze()
	pr, gammas, _ := bp.MultiProve(vs, p)
	sym.Check("proving keeps the secrets and the parameters", sym.Intact())
	sym.Freeze()
	_, _, _ = bp.MultiProve(vs, p)
	sym.Check("a later proof keeps the earlier one", sym.Intact())
	_, _ = pr, gammas
}

func C14_prove_multi_1_1()   { proveMulti(1, 1) }
func C14_prove_multi_2_1()   { proveMulti(2, 1) }
func C14_prove_multi_2_2()   { proveMulti(2, 2) }
func C14_prove_multi_4_1()   { proveMulti(4, 1) }
func C14_prove_multi_4_2()   { proveMulti(4, 2) }
func C14_prove_multi_4_4()   { proveMulti(4, 4) }
func C14_prove_multi_8_1()   { proveMulti(8, 1) }
func C14_prove_multi_8_2()   { proveMulti(8, 2) }
func C14_prove_multi_8_4()   { proveMulti(8, 4) }
func C14_prove_multi_8_8()   { proveMulti(8, 8) }
func C14_prove_multi_16_1()  { proveMulti(16, 1) }
func C14_prove_multi_16_2()  { proveMulti(16, 2) }
func C14_prove_multi_16_4()  { proveMulti(16, 4) }
func C14_prove_multi_16_8()  { proveMulti(16, 8) }
func C14_prove_multi_16_16() { proveMulti(16, 16) }

func C14_prove_vote() {
	p := voteParams(p384N, 16, 224, 384)
	v := sym.Nat("v", 16)
	rp, r1, r2 := sym.Scalar("rp", p.GFF.N), sym.Scalar("r1", p.GEC.N), sym.Scalar("r2", p.GEC.N)
	sym.Freeze()
	pr := vp.Prove(v, rp, r1, r2, p)
	sym.Check("proving keeps the secrets and the parameters", sym.Intact())
	sym.Freeze()
	_ = vp.Prove(v, rp, r1, r2, p)
	sym.Check("a later proof keeps the earlier one", sym.Intact())
	_ = pr
}

// encoding and decoding keep what they are given
func C14_encode() {
	g := sym.Group("G")
	pr := rangeProof(g, 4, 2)
	p := voteParams(p384N, 16, 224, 384)
	w := voteProof(p)
	sym.Freeze()
	d, _ := json.Marshal(pr)
	e, _ := json.Marshal(w)
	sym.Check("encoding keeps the proof", sym.Intact())
	sym.Freeze()
	_, _ = bp.BulletProofUnmarshalJSON(d, pr.Params)
	_, _ = vp.ProofUnmarshalJSON(e, p.GFF.I, p.GEC.I)
	sym.Check("decoding keeps the text and the parameters", sym.Intact())
}

// elements of a group: no operation changes the group
func keepsGroup(g group.Group) {
	A, B, s := at(g, sym.Int("a")), at(g, sym.Int("b")), sym.Int("s")
	sym.Freeze()
	R := g.Element()
	R.Add(A, B)
	R.Subtract(A, B)
	R.Negate(A)
	R.Scale(A, s)
	R.BaseScale(s)
	R.Set(B)
	d, _ := A.MarshalBinary()
	_ = R.UnmarshalBinary(d)
	j, _ := A.MarshalJSON()
	_ = R.UnmarshalJSON(j)
	_ = A.String()
	_ = A.IsEqual(B)
	_ = A.IsIdentity()
	_ = g.Generator()
	_ = g.Identity()
	sym.Check("operations change nothing but the receiver", sym.Intact())
}

func C14_group_p256()      { keepsGroup(group.P256()) }
func C14_group_p384()      { keepsGroup(group.P384()) }
func C14_group_secp256k1() { keepsGroup(group.SecP256k1()) }
func C14_group_r255()      { keepsGroup(group.Ristretto255()) }
func C14_group_modp()      { keepsGroup(modp()) }
func C14_group_modp65()    { keepsGroup(modp65()) }
func C14_group_modp129()   { keepsGroup(modp129()) }
