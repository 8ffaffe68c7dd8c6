package checks

import (
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"
	vp "github.com/takakv/msc-poc/voteproof"
)

// ---------------------------------------------------------------- C08 randomness

// independent: all values are drawn uniformly below n, apart from each other
func independent(n *big.Int, xs ...*big.Int) {
	for i, x := range xs {
		sym.Check("uniform below the group order", sym.Uniform(x, n))
		for _, y := range xs[:i] {
			sym.Check("drawn separately", !sym.SameDraw(x, y))
		}
	}
}

func rangeRandom(n int) {
	g := sym.Group("G")
	p := params(g, n)
	v := sym.Bits("v", n)
	pr, gamma, _ := bp.Prove(v, p)
	draws := []*big.Int{gamma, sym.Coef(pr.A, p.H), sym.Coef(pr.S, p.H), sym.Coef(pr.T1, p.H), sym.Coef(pr.T2, p.H)}
	for i := range p.Gg {
		draws = append(draws, sym.Coef(pr.S, p.Gg[i]), sym.Coef(pr.S, p.Hh[i]))
	}
	independent(g.N(), draws...)
	for _, d := range draws {
		sym.Check("does not depend on the secret", !sym.DependsOn(d, v))
		sym.Check("the blinding is not printed", !sym.Printed(d))
	}
	sym.Check("the secret is not printed", !sym.Printed(v))
	responsesReduced(g.N(), pr.Taux, pr.Mu, pr.Tprime, pr.InnerProductProof.A, pr.InnerProductProof.B)
	if n > 16 {
		return
	}
	again, gamma2, _ := bp.Prove(v, p)
	sym.Check("every proof has its own opening", !sym.SameDraw(gamma, gamma2))
	for _, e := range []group.Element{again.V, again.A, again.S} {
		for _, d := range draws {
			sym.Check("proofs share no randomness", !sym.SameDraw(e, d))
		}
	}
}

func responsesReduced(n *big.Int, rs ...*big.Int) {
	for _, r := range rs {
		sym.Check("responses are reduced", reduced(r, n))
	}
}

func C08_range_1()  { rangeRandom(1) }
func C08_range_2()  { rangeRandom(2) }
func C08_range_4()  { rangeRandom(4) }
func C08_range_8()  { rangeRandom(8) }
func C08_range_16() { rangeRandom(16) }
func C08_range_32() { rangeRandom(32) }

func multiRandom(n, m int) {
	g := sym.Group("G")
	p := params(g, n)
	vs := make([]*big.Int, m)
	for j := range vs {
		vs[j] = sym.Bits(num("v", j), n/m)
	}
	pr, gammas, _ := bp.MultiProve(vs, p)
	draws := append([]*big.Int{}, gammas...)
	draws = append(draws, sym.Coef(pr.A, p.H), sym.Coef(pr.S, p.H), sym.Coef(pr.T1, p.H), sym.Coef(pr.T2, p.H))
	for i := range p.Gg {
		draws = append(draws, sym.Coef(pr.S, p.Gg[i]), sym.Coef(pr.S, p.Hh[i]))
	}
	independent(g.N(), draws...)
	for j := range vs {
		sym.Check("the secret is not printed", !sym.Printed(vs[j]))
		for _, d := range draws {
			sym.Check("does not depend on the secret", !sym.DependsOn(d, vs[j]))
		}
	}
	for _, d := range draws {
		sym.Check("the blinding is not printed", !sym.Printed(d))
	}
	responsesReduced(g.N(), pr.Taux, pr.Mu, pr.Tprime, pr.InnerProductProof.A, pr.InnerProductProof.B)
	if n > 16 {
		return
	}
	again, _, _ := bp.MultiProve(vs, p)
	for _, e := range append([]group.Element{again.A, again.S}, again.Vs...) {
		for _, d := range draws {
			sym.Check("proofs share no randomness", !sym.SameDraw(e, d))
		}
	}
}

func C08_multi_1_1()            { multiRandom(1, 1) }
func C08_multi_2_1()            { multiRandom(2, 1) }
func C08_multi_2_2()            { multiRandom(2, 2) }
func C08_multi_4_1()            { multiRandom(4, 1) }
func C08_multi_4_2()            { multiRandom(4, 2) }
func C08_multi_4_4()            { multiRandom(4, 4) }
func C08_multi_8_1()            { multiRandom(8, 1) }
func C08_multi_8_2()            { multiRandom(8, 2) }
func C08_multi_8_4()            { multiRandom(8, 4) }
func C08_multi_8_8()            { multiRandom(8, 8) }
func C08_multi_16_1()           { multiRandom(16, 1) }
func C08_multi_16_2()           { multiRandom(16, 2) }
func C08_multi_16_4()           { multiRandom(16, 4) }
func C08_multi_16_8()           { multiRandom(16, 8) }
func C08_multi_16_16()          { multiRandom(16, 16) }
func C08_multi_32_1_thorough()  { multiRandom(32, 1) }
func C08_multi_32_2_thorough()  { multiRandom(32, 2) }
func C08_multi_32_4()           { multiRandom(32, 4) }
func C08_multi_32_8_thorough()  { multiRandom(32, 8) }
func C08_multi_32_16_thorough() { multiRandom(32, 16) }
func C08_multi_32_32_thorough() { multiRandom(32, 32) }

func voteRandom(order string, bx, bc, bg int) {
	p := voteParams(order, uint8(bx), uint16(bc), uint16(bg))
	ff, ec := p.GFF, p.GEC
	v := sym.Nat("v", bx)
	rp, r1, r2 := sym.Scalar("rp", ff.N), sym.Scalar("r1", ec.N), sym.Scalar("r2", ec.N)
	pr := vp.Prove(v, rp, r1, r2, p)
	again := vp.Prove(v, rp, r1, r2, p)
	tp := sym.Coef(pr.W, ff.I.Generator())
	t1, t2 := sym.Coef(pr.Kq1, ec.H), sym.Coef(pr.Kq2, ec.H)
	independent(ff.N, tp)
	independent(ec.N, t1, t2)
	sym.Check("one exponent in both parts of the ciphertext", congruent(tp, sym.Coef(pr.Kp, ff.H), ff.N))
	sym.Check("drawn separately", !sym.SameDraw(tp, t1) && !sym.SameDraw(tp, t2))
	k := minus(pr.Z, prod(pr.Challenge, v))
	sym.Check("mask covers the whole response interval", sym.Uniform(k, twoTo(bg-1)))
	sym.Check("mask is drawn separately", !sym.SameDraw(k, tp) && !sym.SameDraw(k, t1) && !sym.SameDraw(k, t2))
	sym.Check("response is in the interval that leaks nothing", pr.Z.Cmp(twoTo(bx+bc)) >= 0 && pr.Z.Cmp(twoTo(bg-1)) < 0)
	sym.Check("secrets are not printed", !sym.Printed(v) && !sym.Printed(rp) && !sym.Printed(r1) && !sym.Printed(r2) && !sym.Printed(k) && !sym.Printed(tp))
	for _, d := range []*big.Int{tp, t1, t2, k} {
		sym.Check("the blinding is not printed", !sym.Printed(d))
		for _, e := range []any{again.W, again.Kp, again.Kq1, again.Kq2} {
			sym.Check("proofs share no randomness", !sym.SameDraw(e, d))
		}
		sym.Check("does not depend on the secrets", !sym.DependsOn(d, v) && !sym.DependsOn(d, rp) && !sym.DependsOn(d, r1) && !sym.DependsOn(d, r2))
	}
	for _, s := range []*big.Int{pr.Sp, pr.Sq1, pr.Sq2} {
		sym.Check("responses are reduced", s.Sign() >= 0)
	}
	sym.Check("response for the ciphertext", congruent(pr.Sp, add(tp, prod(pr.Challenge, rp)), ff.N) && pr.Sp.Cmp(ff.N) < 0)
	sym.Check("responses for the commitments", congruent(pr.Sq1, add(t1, prod(pr.Challenge, r1)), ec.N) && congruent(pr.Sq2, add(t2, prod(pr.Challenge, r2)), ec.N) && pr.Sq1.Cmp(ec.N) < 0 && pr.Sq2.Cmp(ec.N) < 0)
}

func C08_vote_p256() { voteRandom(p256N, 16, 224, 256) }
func C08_vote_p384() { voteRandom(p384N, 16, 224, 384) }
func C08_vote_r255() { voteRandom(r255N, 16, 224, 253) }

func C08_vote_short_challenge() { voteRandom(p256N, 8, 128, 256) }
func C08_vote_long_secret()     { voteRandom(p384N, 64, 256, 384) }

func random(g group.Group) {
	A := g.Random()
	k := sym.Draws()
	B := g.Random()
	first, second := false, false
	for i := 0; i < sym.Draws(); i++ {
		if r := sym.Draw(i); sym.Uniform(r, g.N()) {
			first = first || i < k && A.IsEqual(at(g, r))
			second = second || i >= k && B.IsEqual(at(g, r))
		}
	}
	sym.Check("is a uniform multiple of the generator", first && second)
	sym.Check("is drawn anew", !sym.SameDraw(A, B))
}

func C08_random_p256()      { random(group.P256()) }
func C08_random_p384()      { random(group.P384()) }
func C08_random_secp256k1() { random(group.SecP256k1()) }
func C08_random_r255()      { random(group.Ristretto255()) }
func C08_random_modp()      { random(modp()) }
func C08_random_modp65()    { random(modp65()) }
func C08_random_modp129()   { random(modp129()) }
