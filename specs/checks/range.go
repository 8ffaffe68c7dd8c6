package checks

import (
	"crypto/sha256"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"

	"github.com/ing-bank/zkrp/util/byteconversion"
)

// ---------------------------------------------------------------- inputs

// num is the i-th name of a family.
func num(name string, i int) string {
	return name + string(rune('a'+i/10)) + string(rune('0'+i%10))
}

func elems(g group.Group, name string, n int) []group.Element {
	l := make([]group.Element, n)
	for i := range l {
		l[i] = sym.Elem(g, num(name, i))
	}
	return l
}

func ints(name string, n int) []*big.Int {
	l := make([]*big.Int, n)
	for i := range l {
		l[i] = sym.Int(num(name, i))
	}
	return l
}

// params are arbitrary parameters of a range proof of n bits: independent
// generators of an arbitrary group.
func params(g group.Group, n int) bp.BulletProofSetupParams {
	p := bp.BulletProofSetupParams{N: int64(n), G: g.Generator(), H: sym.Elem(g, "H"), GP: g}
	p.Gg = elems(g, "G", n)
	p.Hh = elems(g, "Hh", n)
	return p
}

// ipProof is an arbitrary inner product proof of k rounds. What it claims
// about the generators is arbitrary, too.
func ipProof(g group.Group, k int) bp.InnerProductProof {
	return bp.InnerProductProof{
		P: sym.Elem(g, "ipP"), Cc: sym.Int("ipC"), A: sym.Int("ipa"), B: sym.Int("ipb"),
		L: elems(g, "L", k), R: elems(g, "R", k),
		Params: bp.InnerProductParams{Gg: elems(g, "cG", 1<<k), Hh: elems(g, "cH", 1<<k), Uu: sym.Elem(g, "cU"), GP: g},
	}
}

func rangeProof(g group.Group, n, k int) bp.BulletProof {
	return bp.BulletProof{
		V: sym.Elem(g, "V"), A: sym.Elem(g, "A"), S: sym.Elem(g, "S"), T1: sym.Elem(g, "T1"), T2: sym.Elem(g, "T2"),
		Taux: sym.Int("taux"), Mu: sym.Int("mu"), Tprime: sym.Int("t"),
		InnerProductProof: ipProof(g, k), Params: params(g, n),
	}
}

func multiProof(g group.Group, n, m, k int) bp.MultiBulletProof {
	return bp.MultiBulletProof{
		Vs: elems(g, "V", m), A: sym.Elem(g, "A"), S: sym.Elem(g, "S"), T1: sym.Elem(g, "T1"), T2: sym.Elem(g, "T2"),
		Taux: sym.Int("taux"), Mu: sym.Int("mu"), Tprime: sym.Int("t"),
		InnerProductProof: ipProof(g, k), Params: params(g, n),
	}
}

// ---------------------------------------------------------------- arithmetic of the specifications

func mul(g group.Group, e group.Element, s *big.Int) group.Element { return g.Element().Scale(e, s) }
func sum(g group.Group, es ...group.Element) group.Element {
	r := g.Identity()
	for _, e := range es {
		r = g.Element().Add(r, e)
	}
	return r
}
func pedersen(g group.Group, h group.Element, x, r *big.Int) group.Element {
	return sum(g, g.Element().BaseScale(x), mul(g, h, r))
}
func prod(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r = new(big.Int).Mul(r, x)
	}
	return r
}
func add(xs ...*big.Int) *big.Int {
	r := big.NewInt(0)
	for _, x := range xs {
		r = new(big.Int).Add(r, x)
	}
	return r
}
func neg(x *big.Int) *big.Int    { return new(big.Int).Neg(x) }
func inv(x, n *big.Int) *big.Int { return new(big.Int).ModInverse(x, n) }
func pow(x *big.Int, i int) *big.Int {
	r := big.NewInt(1)
	for ; i > 0; i-- {
		r = new(big.Int).Mul(r, x)
	}
	return r
}
func same(a, b *big.Int) bool { return a.Cmp(b) == 0 }

// ---------------------------------------------------------------- challenges

// challenge is the digest of the transcript, read as an integer.
func challenge(es ...group.Element) *big.Int {
	x, _, _ := bp.HashBP(es...)
	return x
}

func challenges(es ...group.Element) (*big.Int, *big.Int) {
	y, z, _ := bp.HashBP(es...)
	return y, z
}

// ipChallenge binds the statement of the inner product argument.
func ipChallenge(gs, hs []group.Element, P group.Element, c *big.Int) *big.Int {
	s := P.String()
	for i := range gs {
		s += gs[i].String() + hs[i].String()
	}
	s += c.String()
	d := sha256.Sum256([]byte(s))
	x, _ := byteconversion.FromByteArray(d[:])
	return x
}

// ---------------------------------------------------------------- acceptance

// acceptsIP is the predicate the inner product argument decides (protocols 1
// and 2 of the Bulletproofs paper).
func acceptsIP(g group.Group, gs, hs []group.Element, u, P group.Element, c, a, b *big.Int, L, R []group.Element) bool {
	N := g.N()
	x := ipChallenge(gs, hs, P, c)
	ux := mul(g, u, x)
	PP := sum(g, P, mul(g, ux, c))
	for i := range L {
		n := len(gs) / 2
		w := challenge(PP, L[i], R[i])
		wi := inv(w, N)
		var g2, h2 []group.Element
		for j := 0; j < n; j++ {
			g2 = append(g2, sum(g, mul(g, gs[j], wi), mul(g, gs[n+j], w)))
			h2 = append(h2, sum(g, mul(g, hs[j], w), mul(g, hs[n+j], wi)))
		}
		gs, hs = g2, h2
		PP = sum(g, mul(g, L[i], prod(w, w)), PP, mul(g, R[i], prod(wi, wi)))
	}
	return PP.IsEqual(sum(g, mul(g, gs[0], a), mul(g, hs[0], b), mul(g, ux, prod(a, b))))
}

// acceptsRange is the predicate the verifier of (aggregated) range proofs decides.
func acceptsRange(p bp.BulletProofSetupParams, Vs []group.Element, A, S, T1, T2 group.Element, taux, mu, t *big.Int, ip bp.InnerProductProof) bool {
	g, N := p.GP, p.GP.N()
	n, m := len(p.Gg), len(Vs)
	per := n / m
	tr := append(append([]group.Element(nil), Vs...), A, S)
	y, z := challenges(tr...)
	x := challenge(append(tr, T1, T2)...)
	yi := inv(y, N)
	h := make([]group.Element, n)
	for i := range h {
		h[i] = mul(g, p.Hh[i], pow(yi, i))
	}
	// t(x) is what T1, T2 and the commitments to the values say
	sy := big.NewInt(0)
	for i := 0; i < n; i++ {
		sy = add(sy, pow(y, i))
	}
	delta := prod(add(z, neg(prod(z, z))), sy)
	two := big.NewInt(int64(1)<<per - 1)
	rhs := g.Identity()
	for j := 0; j < m; j++ {
		delta = add(delta, neg(prod(pow(z, j+3), two)))
		rhs = sum(g, rhs, mul(g, Vs[j], pow(z, j+2)))
	}
	rhs = sum(g, rhs, g.Element().BaseScale(delta), mul(g, T1, x), mul(g, T2, prod(x, x)))
	poly := pedersen(g, p.H, t, taux).IsEqual(rhs)
	// the commitment of the inner product argument is to l(x) and r(x)
	P := sum(g, A, mul(g, S, x), mul(g, p.H, neg(mu)))
	for i := 0; i < n; i++ {
		c := add(prod(z, pow(y, i)), prod(pow(z, i/per+2), big.NewInt(int64(1)<<(i%per))))
		P = sum(g, P, mul(g, p.Gg[i], neg(z)), mul(g, h[i], c))
	}
	vec := P.IsEqual(ip.P)
	u, _ := g.Element().MapToGroup(bp.SEEDU)
	rounds := len(ip.L) == len(ip.R) && 1<<len(ip.L) == n
	return poly && vec && same(ip.Cc, t) && rounds && acceptsIP(g, p.Gg, h, u, ip.P, ip.Cc, ip.A, ip.B, ip.L, ip.R)
}

func log2(n int) int {
	k := 0
	for 1<<k < n {
		k++
	}
	return k
}

// ---------------------------------------------------------------- C02 range proof verification

func rangeAccept(n int) { rangeDecides(rangeProof(sym.Group("G"), n, log2(n))) }

func rangeDecides(pr bp.BulletProof) {
	want := acceptsRange(pr.Params, []group.Element{pr.V}, pr.A, pr.S, pr.T1, pr.T2, pr.Taux, pr.Mu, pr.Tprime, pr.InnerProductProof)
	ok, err := pr.Verify()
	sym.Check("accepts exactly the valid proofs", ok == want)
	sym.Check("accepts without error", !ok || err == nil)
}

func C02_accept_1()           { rangeAccept(1) }
func C02_accept_2()           { rangeAccept(2) }
func C02_accept_4()           { rangeAccept(4) }
func C02_accept_8()           { rangeAccept(8) }
func C02_accept_16()          { rangeAccept(16) }
func C02_accept_32()          { rangeAccept(32) }
func C02_accept_64_thorough() { rangeAccept(64) }

// proofs of the wrong number of rounds are rejected
func rangeRounds(n int) {
	g := sym.Group("G")
	k := log2(n)
	for l := 0; l <= 7; l++ {
		for r := 0; r <= 7; r++ {
			if l == k && r == k {
				continue
			}
			pr := rangeProof(g, n, k)
			pr.InnerProductProof.L = elems(g, "L", l)
			pr.InnerProductProof.R = elems(g, "R", r)
			ok, _ := pr.Verify()
			sym.Check("wrong number of rounds is rejected", !ok)
		}
	}
}

func C02_rounds_1()  { rangeRounds(1) }
func C02_rounds_2()  { rangeRounds(2) }
func C02_rounds_4()  { rangeRounds(4) }
func C02_rounds_8()  { rangeRounds(8) }
func C02_rounds_16() { rangeRounds(16) }
func C02_rounds_32() { rangeRounds(32) }

// ---------------------------------------------------------------- C06 honest range proofs

func complete(n int) { completeFor(params(sym.Group("G"), n), sym.Bits("v", n)) }

func completeFor(p bp.BulletProofSetupParams, v *big.Int) {
	g := p.GP
	proof, gamma, err := bp.Prove(v, p)
	sym.Check("no error", err == nil)
	sym.Check("commitment opens to the secret", proof.V.IsEqual(pedersen(g, p.H, v, gamma)))
	ok, err := proof.Verify()
	sym.Check("honest proof verifies", ok)
	sym.Check("verifier reports no error", err == nil)
}

func C06_complete_1()  { complete(1) }
func C06_complete_2()  { complete(2) }
func C06_complete_4()  { complete(4) }
func C06_complete_8()  { complete(8) }
func C06_complete_16() { complete(16) }
func C06_complete_32() { complete(32) }

// what the prover sends is what the protocol prescribes, whatever the verifier makes of it
func meetsPredicate(n int) {
	g := sym.Group("G")
	p := params(g, n)
	v := sym.Bits("v", n)
	pr, _, _ := bp.Prove(v, p)
	sym.Check("meets the verification equations", acceptsRange(p, []group.Element{pr.V}, pr.A, pr.S, pr.T1, pr.T2, pr.Taux, pr.Mu, pr.Tprime, pr.InnerProductProof))
	sym.Check("carries the parameters", sym.Eq(pr.Params, p))
}

func C06_meets_predicate_1()  { meetsPredicate(1) }
func C06_meets_predicate_2()  { meetsPredicate(2) }
func C06_meets_predicate_4()  { meetsPredicate(4) }
func C06_meets_predicate_8()  { meetsPredicate(8) }
func C06_meets_predicate_16() { meetsPredicate(16) }
func C06_meets_predicate_32() { meetsPredicate(32) }

// ---------------------------------------------------------------- C16 aggregated range proofs

func multiAccept(n, m int) { multiDecides(multiProof(sym.Group("G"), n, m, log2(n))) }

func multiDecides(pr bp.MultiBulletProof) {
	want := acceptsRange(pr.Params, pr.Vs, pr.A, pr.S, pr.T1, pr.T2, pr.Taux, pr.Mu, pr.Tprime, pr.InnerProductProof)
	ok, err := pr.Verify()
	sym.Check("accepts exactly the valid proofs", ok == want)
	sym.Check("accepts without error", !ok || err == nil)
}

func C16_accept_1_1()   { multiAccept(1, 1) }
func C16_accept_2_1()   { multiAccept(2, 1) }
func C16_accept_2_2()   { multiAccept(2, 2) }
func C16_accept_4_1()   { multiAccept(4, 1) }
func C16_accept_4_2()   { multiAccept(4, 2) }
func C16_accept_4_4()   { multiAccept(4, 4) }
func C16_accept_8_1()   { multiAccept(8, 1) }
func C16_accept_8_2()   { multiAccept(8, 2) }
func C16_accept_8_4()   { multiAccept(8, 4) }
func C16_accept_8_8()   { multiAccept(8, 8) }
func C16_accept_16_1()  { multiAccept(16, 1) }
func C16_accept_16_2()  { multiAccept(16, 2) }
func C16_accept_16_4()  { multiAccept(16, 4) }
func C16_accept_16_8()  { multiAccept(16, 8) }
func C16_accept_16_16() { multiAccept(16, 16) }
func C16_accept_32_1()  { multiAccept(32, 1) }
func C16_accept_32_2()  { multiAccept(32, 2) }
func C16_accept_32_4()  { multiAccept(32, 4) }
func C16_accept_32_8()  { multiAccept(32, 8) }
func C16_accept_32_16() { multiAccept(32, 16) }
func C16_accept_32_32() { multiAccept(32, 32) }

func multiComplete(n, m int) { multiCompleteFor(params(sym.Group("G"), n), "v", m) }

func multiCompleteFor(p bp.BulletProofSetupParams, name string, m int) {
	g := p.GP
	vs := make([]*big.Int, m)
	for j := range vs {
		vs[j] = sym.Bits(num(name, j), int(p.N)/m)
	}
	pr, gammas, err := bp.MultiProve(vs, p)
	sym.Check("no error", err == nil)
	sym.Check("one opening per value", len(gammas) == m && len(pr.Vs) == m)
	for j := range vs {
		sym.Check("commitment opens to the secret", pr.Vs[j].IsEqual(pedersen(g, p.H, vs[j], gammas[j])))
	}
	ok, err := pr.Verify()
	sym.Check("honest proof verifies", ok)
	sym.Check("verifier reports no error", err == nil)
}

func C16_complete_1_1()            { multiComplete(1, 1) }
func C16_complete_2_1()            { multiComplete(2, 1) }
func C16_complete_2_2()            { multiComplete(2, 2) }
func C16_complete_4_1()            { multiComplete(4, 1) }
func C16_complete_4_2()            { multiComplete(4, 2) }
func C16_complete_4_4()            { multiComplete(4, 4) }
func C16_complete_8_1()            { multiComplete(8, 1) }
func C16_complete_8_2()            { multiComplete(8, 2) }
func C16_complete_8_4()            { multiComplete(8, 4) }
func C16_complete_8_8()            { multiComplete(8, 8) }
func C16_complete_16_1()           { multiComplete(16, 1) }
func C16_complete_16_2()           { multiComplete(16, 2) }
func C16_complete_16_4()           { multiComplete(16, 4) }
func C16_complete_16_8()           { multiComplete(16, 8) }
func C16_complete_16_16()          { multiComplete(16, 16) }
func C16_complete_32_1_thorough()  { multiComplete(32, 1) }
func C16_complete_32_2()           { multiComplete(32, 2) }
func C16_complete_32_4_thorough()  { multiComplete(32, 4) }
func C16_complete_32_8_thorough()  { multiComplete(32, 8) }
func C16_complete_32_16_thorough() { multiComplete(32, 16) }
func C16_complete_32_32()          { multiComplete(32, 32) }

func multiRejects(n, m int) {
	g := sym.Group("G")
	pr := multiProof(g, n, m, log2(n))
	ok, err := pr.Verify()
	sym.Check("rejected", !ok)
	sym.Check("with an error", err != nil)
	vs := make([]*big.Int, m)
	for j := range vs {
		vs[j] = sym.Bits(num("v", j), 1)
	}
	_, _, err = bp.MultiProve(vs, params(g, n))
	sym.Check("nothing to prove is refused", err != nil)
}

func C16_all_unusable_counts() {
	for n := 1; n <= 32; n *= 2 {
		for m := 0; m <= 40; m++ {
			if m == 0 || n%m != 0 {
				multiRejects(n, m)
			}
		}
	}
}

func multiRounds(n, m int) {
	g := sym.Group("G")
	k := log2(n)
	for l := 0; l <= 7; l++ {
		for r := 0; r <= 7; r++ {
			if l == k && r == k {
				continue
			}
			pr := multiProof(g, n, m, k)
			pr.InnerProductProof.L = elems(g, "L", l)
			pr.InnerProductProof.R = elems(g, "R", r)
			ok, _ := pr.Verify()
			sym.Check("wrong number of rounds is rejected", !ok)
		}
	}
}

func C16_rounds_1()  { multiRounds(1, 1) }
func C16_rounds_4()  { multiRounds(4, 2) }
func C16_rounds_16() { multiRounds(16, 4) }
func C16_rounds_32() { multiRounds(32, 2) }

// ---------------------------------------------------------------- C03 inner product verification

func ipAccept(k int) { ipDecides(ipProof(sym.Group("G"), k)) }

func ipDecides(pr bp.InnerProductProof) {
	q := pr.Params
	want := acceptsIP(q.GP, q.Gg, q.Hh, q.Uu, pr.P, pr.Cc, pr.A, pr.B, pr.L, pr.R)
	ok, err := pr.Verify()
	sym.Check("accepts exactly the valid proofs", ok == want)
	sym.Check("accepts without error", !ok || err == nil)
}

func C03_accept_1()            { ipAccept(0) }
func C03_accept_2()            { ipAccept(1) }
func C03_accept_4()            { ipAccept(2) }
func C03_accept_8()            { ipAccept(3) }
func C03_accept_16()           { ipAccept(4) }
func C03_accept_32()           { ipAccept(5) }
func C03_accept_64()           { ipAccept(6) }
func C03_accept_128_thorough() { ipAccept(7) }
func C03_accept_256_thorough() { ipAccept(8) }

func ipShape(gs, hs, l, r int) {
	g := sym.Group("G")
	pr := ipProof(g, 0)
	pr.Params.Gg = elems(g, "cG", gs)
	pr.Params.Hh = elems(g, "cH", hs)
	pr.L = elems(g, "L", l)
	pr.R = elems(g, "R", r)
	ok, _ := pr.Verify()
	sym.Check("inconsistent sizes are rejected", !ok)
}

// sizes: every combination that is not one of a valid argument
func ipShapes(gs, hs int) {
	for _, l := range []int{0, 1, 2, 3, 4, 5, 63, 64, 65} {
		for _, r := range []int{0, 1, 2, 3, 4, 5, 63, 64, 65} {
			if gs == hs && l == r && l < 8 && gs == 1<<l {
				continue
			}
			if l > 8 && r > 8 && l != r {
				continue
			}
			ipShape(gs, hs, l, r)
		}
	}
}

func C03_shape_0_0()   { ipShapes(0, 0) }
func C03_shape_0_1()   { ipShapes(0, 1) }
func C03_shape_1_0()   { ipShapes(1, 0) }
func C03_shape_1_1()   { ipShapes(1, 1) }
func C03_shape_1_2()   { ipShapes(1, 2) }
func C03_shape_2_1()   { ipShapes(2, 1) }
func C03_shape_2_2()   { ipShapes(2, 2) }
func C03_shape_2_4()   { ipShapes(2, 4) }
func C03_shape_3_3()   { ipShapes(3, 3) }
func C03_shape_4_2()   { ipShapes(4, 2) }
func C03_shape_4_3()   { ipShapes(4, 3) }
func C03_shape_4_4()   { ipShapes(4, 4) }
func C03_shape_4_5()   { ipShapes(4, 5) }
func C03_shape_5_5()   { ipShapes(5, 5) }
func C03_shape_6_6()   { ipShapes(6, 6) }
func C03_shape_8_8()   { ipShapes(8, 8) }
func C03_shape_12_12() { ipShapes(12, 12) }
func C03_shape_16_16() { ipShapes(16, 16) }
func C03_shape_32_32() { ipShapes(32, 32) }
