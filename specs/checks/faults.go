package checks

import (
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"
	vp "github.com/takakv/msc-poc/voteproof"
)

// ---------------------------------------------------------------- C21 failing entropy

// FailsClosed: f gives nothing (it returns false or panics) if the source of
// randomness fails at any of its draws.
func FailsClosed(label string, f func() bool) {
	sym.Faults()
	given := false
	panicked := sym.Panics(func() { given = f() })
	sym.Check(label, !sym.Failed() || panicked || !given)
}

func faultyRange(n int) {
	p := params(sym.Group("G"), n)
	v := sym.Bits("v", n)
	FailsClosed("no range proof without randomness", func() bool {
		_, _, err := bp.Prove(v, p)
		return err == nil
	})
}

func C21_range_1()           { faultyRange(1) }
func C21_range_2()           { faultyRange(2) }
func C21_range_4()           { faultyRange(4) }
func C21_range_8()           { faultyRange(8) }
func C21_range_16()          { faultyRange(16) }
func C21_range_32_thorough() { faultyRange(32) }

func faultyMulti(n, m int) {
	p := params(sym.Group("G"), n)
	vs := make([]*big.Int, m)
	for j := range vs {
		vs[j] = sym.Bits(num("v", j), n/m)
	}
	FailsClosed("no aggregated proof without randomness", func() bool {
		_, _, err := bp.MultiProve(vs, p)
		return err == nil
	})
}

func C21_multi_1_1()           { faultyMulti(1, 1) }
func C21_multi_2_2()           { faultyMulti(2, 2) }
func C21_multi_4_2()           { faultyMulti(4, 2) }
func C21_multi_8_4()           { faultyMulti(8, 4) }
func C21_multi_8_8()           { faultyMulti(8, 8) }
func C21_multi_16_16()         { faultyMulti(16, 16) }
func C21_multi_32_2_thorough() { faultyMulti(32, 2) }

func faultyVote(order string, bg uint16) {
	p := voteParams(order, 16, 224, bg)
	v := sym.Nat("v", 16)
	rp, r1, r2 := sym.Scalar("rp", p.GFF.N), sym.Scalar("r1", p.GEC.N), sym.Scalar("r2", p.GEC.N)
	FailsClosed("no vote proof without randomness", func() bool {
		_ = vp.Prove(v, rp, r1, r2, p)
		return true
	})
}

func C21_vote_p256() { faultyVote(p256N, 256) }
func C21_vote_p384() { faultyVote(p384N, 384) }
func C21_vote_r255() { faultyVote(r255N, 253) }

func faultyElement(g group.Group) {
	FailsClosed("no random element without randomness", func() bool {
		_ = g.Random()
		return true
	})
}

func C21_element_p256()      { faultyElement(group.P256()) }
func C21_element_p384()      { faultyElement(group.P384()) }
func C21_element_secp256k1() { faultyElement(group.SecP256k1()) }
func C21_element_r255()      { faultyElement(group.Ristretto255()) }
func C21_element_modp()      { faultyElement(modp()) }
func C21_element_modp65()    { faultyElement(modp65()) }
func C21_element_modp129()   { faultyElement(modp129()) }
