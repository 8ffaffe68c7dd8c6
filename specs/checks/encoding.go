package checks

import (
	"encoding/json"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"
	vp "github.com/takakv/msc-poc/voteproof"
)

// ---------------------------------------------------------------- C19 binary encoding

func binary(g group.Group) {
	a, b := sym.Int("a"), sym.Int("b")
	A, R := at(g, a), at(g, b)
	C := g.Element().Set(R)
	sym.Freeze()
	d, err := A.MarshalBinary()
	sym.Check("every element has an encoding", err == nil)
	sym.Check("encoding changes nothing", sym.Intact())
	S := g.Element().SetBytes(d)
	sym.Check("SetBytes restores the element", S.IsEqual(A))
	err = R.UnmarshalBinary(d)
	sym.Check("the encoding is accepted", err == nil)
	sym.Check("the element is restored", R.IsEqual(A))
	sym.Check("other elements keep their value", C.IsEqual(at(g, b)) && A.IsEqual(at(g, a)))
	d2, _ := R.MarshalBinary()
	sym.Check("the encoding is canonical", string(d) == string(d2))
	N := g.Element()
	sym.Check("decodes into a new element", N.UnmarshalBinary(d) == nil && N.IsEqual(A))
	// over whatever the receiver was before
	for _, o := range []group.Element{at(g, b), g.Generator(), g.Identity(), C, g.Element().Set(A), g.Element().Subtract(A, A)} {
		sym.Check("SetBytes overwrites", o.SetBytes(d).IsEqual(A) && o.IsEqual(A))
	}
	for _, o := range []group.Element{at(g, b), g.Generator(), g.Identity(), g.Element().Set(A), g.Element().Subtract(A, A)} {
		sym.Check("decoding overwrites", o.UnmarshalBinary(d) == nil && o.IsEqual(A))
	}
	// what was encoded and decoded is apart
	A.Add(A, A)
	sym.Check("bytes do not follow the element", string(d) == string(d2) && S.IsEqual(N) && S.IsEqual(at(g, a)))
	if len(d) > 0 {
		d[len(d)-1] ^= 1
	}
	sym.Check("elements do not follow the bytes", S.IsEqual(at(g, a)) && N.IsEqual(S) && R.IsEqual(S))
}

// the encoding is that of the element, however it was computed
func canonical(g group.Group) {
	a, b := sym.Int("a"), sym.Int("b")
	A, B := at(g, a), at(g, b)
	d, _ := A.MarshalBinary()
	N := g.Element()
	sym.Check("decodes", N.UnmarshalBinary(d) == nil)
	S := at(g, b).SetBytes(d)
	for _, o := range []group.Element{
		g.Element().Subtract(g.Element().Add(A, B), B), g.Element().Add(g.Identity(), A), g.Element().Add(A, g.Element().Subtract(B, B)),
		g.Element().Negate(g.Element().Negate(A)), g.Element().Scale(A, big.NewInt(1)), g.Element().Scale(A, add(g.N(), big.NewInt(1))), g.Element().Set(A), N, S,
	} {
		e, err := o.MarshalBinary()
		sym.Check("equal elements have the same bytes", err == nil && string(e) == string(d))
	}
	e, _ := B.MarshalBinary()
	sym.Check("different elements have different bytes", (string(d) == string(e)) == A.IsEqual(B))
}

func C19_binary_p256()      { binary(group.P256()) }
func C19_binary_p384()      { binary(group.P384()) }
func C19_binary_secp256k1() { binary(group.SecP256k1()) }
func C19_binary_r255()      { binary(group.Ristretto255()) }
func C19_binary_modp()      { binary(modp()) }
func C19_binary_modp65()    { binary(modp65()) }
func C19_binary_modp129()   { binary(modp129()) }

func C19_canonical_p256()      { canonical(group.P256()) }
func C19_canonical_p384()      { canonical(group.P384()) }
func C19_canonical_secp256k1() { canonical(group.SecP256k1()) }
func C19_canonical_r255()      { canonical(group.Ristretto255()) }
func C19_canonical_modp()      { canonical(modp()) }
func C19_canonical_modp65()    { canonical(modp65()) }
func C19_canonical_modp129()   { canonical(modp129()) }

// ---------------------------------------------------------------- C12 JSON

func jsonElement(g group.Group) {
	a, b := sym.Int("a"), sym.Int("b")
	A, R := at(g, a), at(g, b)
	C := g.Element().Set(R)
	sym.Freeze()
	d, err := A.MarshalJSON()
	sym.Check("every element has an encoding", err == nil)
	sym.Check("encoding changes nothing", sym.Intact())
	err = R.UnmarshalJSON(d)
	sym.Check("the encoding is accepted", err == nil)
	sym.Check("the element is restored", R.IsEqual(A))
	sym.Check("other elements keep their value", C.IsEqual(at(g, b)) && A.IsEqual(at(g, a)))
	N := g.Element()
	sym.Check("decodes into a new element", N.UnmarshalJSON(d) == nil && N.IsEqual(A))
}

func C12_element_p256()      { jsonElement(group.P256()) }
func C12_element_p384()      { jsonElement(group.P384()) }
func C12_element_secp256k1() { jsonElement(group.SecP256k1()) }
func C12_element_r255()      { jsonElement(group.Ristretto255()) }
func C12_element_modp()      { jsonElement(modp()) }
func C12_element_modp65()    { jsonElement(modp65()) }
func C12_element_modp129()   { jsonElement(modp129()) }

// ---------------------------------------------------------------- C13 malformed input

// member: whatever was decoded without an error is an element of the group
func member(g group.Group, R group.Element) bool {
	return g.Element().Scale(R, g.N()).IsIdentity() && g.Element().Add(R, g.Identity()).IsEqual(R)
}

func anyBinary(g group.Group) {
	b := sym.Int("b")
	R := at(g, b)
	C := g.Element().Set(R)
	d := sym.Bytes("input")
	err := R.UnmarshalBinary(d)
	if err == nil {
		sym.Check("decoded values are elements", member(g, R))
	} else {
		sym.Check("nothing is decoded along with an error", R.IsEqual(at(g, b)))
	}
	sym.Check("other elements keep their value", C.IsEqual(at(g, b)))
}

func C13_binary_p256()      { anyBinary(group.P256()) }
func C13_binary_p384()      { anyBinary(group.P384()) }
func C13_binary_secp256k1() { anyBinary(group.SecP256k1()) }
func C13_binary_r255()      { anyBinary(group.Ristretto255()) }
func C13_binary_modp()      { anyBinary(modp()) }
func C13_binary_modp65()    { anyBinary(modp65()) }
func C13_binary_modp129()   { anyBinary(modp129()) }

func anyJSON(g group.Group, point, modp bool) {
	b := sym.Int("b")
	R := at(g, b)
	C := g.Element().Set(R)
	d := sym.Bytes("input")
	err := R.UnmarshalJSON(d)
	if err == nil {
		sym.Check("decoded values are elements", member(g, R))
		back, err := R.MarshalJSON()
		sym.Check("decoded values have an encoding", err == nil)
		var x, y numbers
		if modp {
			x.X, y.X = new(big.Int), new(big.Int)
			sym.Check("input is a number", x.X.UnmarshalJSON(d) == nil && y.X.UnmarshalJSON(back) == nil)
			sym.Check("the number is the element", same(x.X, y.X))
		} else if point {
			json.Unmarshal(d, &x)
			json.Unmarshal(back, &y)
			if x.X != nil && x.Y != nil && !R.IsIdentity() {
				sym.Check("the coordinates are those of the element", same(x.X, y.X) && same(x.Y, y.Y))
			}
		}
	} else {
		sym.Check("nothing is decoded along with an error", R.IsEqual(at(g, b)))
	}
	sym.Check("other elements keep their value", C.IsEqual(at(g, b)))
}

type numbers struct{ X, Y *big.Int }

func C13_json_p256()      { anyJSON(group.P256(), true, false) }
func C13_json_p384()      { anyJSON(group.P384(), true, false) }
func C13_json_secp256k1() { anyJSON(group.SecP256k1(), true, false) }
func C13_json_r255()      { anyJSON(group.Ristretto255(), false, false) }
func C13_json_modp()      { anyJSON(modp(), false, true) }
func C13_json_modp65()    { anyJSON(modp65(), false, true) }
func C13_json_modp129()   { anyJSON(modp129(), false, true) }

// ---------------------------------------------------------------- proofs

func jsonRange(n int) {
	g := sym.Group("G")
	pr := rangeProof(g, n, log2(n))
	sym.Freeze()
	d, err := json.Marshal(pr)
	sym.Check("every proof has an encoding", err == nil)
	sym.Check("encoding changes nothing", sym.Intact())
	back, err := bp.BulletProofUnmarshalJSON(d, pr.Params)
	sym.Check("the encoding is accepted", err == nil)
	sym.Check("the proof is restored", sym.Eq(back, pr))
	sym.Check("decoding changes nothing", sym.Intact())
	d2, err := json.Marshal(&pr)
	sym.Check("a pointer encodes alike", err == nil && string(d) == string(d2))
}

func C12_range_1()  { jsonRange(1) }
func C12_range_2()  { jsonRange(2) }
func C12_range_4()  { jsonRange(4) }
func C12_range_8()  { jsonRange(8) }
func C12_range_32() { jsonRange(32) }
func C12_range_16() { jsonRange(16) }

func jsonVote(order string, bx uint8, bc, bg uint16) {
	p := voteParams(order, bx, bc, bg)
	p.RangeLo, p.RangeHi = sym.Uint16("lo"), sym.Uint16("hi")
	pr := voteProof(p)
	sym.Freeze()
	d, err := json.Marshal(pr)
	sym.Check("every proof has an encoding", err == nil)
	sym.Check("encoding changes nothing", sym.Intact())
	back, err := vp.ProofUnmarshalJSON(d, p.GFF.I, p.GEC.I)
	sym.Check("the encoding is accepted", err == nil)
	sym.Check("the proof is restored", sym.Eq(back, pr))
}

func C12_vote()              { jsonVote(p384N, 16, 224, 256) }
func C12_vote_r255()         { jsonVote(r255N, 16, 224, 253) }
func C12_vote_long()         { jsonVote(p384N, 64, 256, 384) }
func C12_vote_short()        { jsonVote(p256N, 1, 1, 4) }
func C12_vote_no_challenge() { jsonVote(p256N, 0, 0, 2) }
func C12_vote_longest()      { jsonVote(p384N, 255, 256, 65535) }

// arbitrary input never panics
func anyRange(n, l, r, gs, hs int) {
	g := sym.Group("G")
	for _, f := range []string{"L", "R", "Gg", "Hh"} {
		sym.ListLen(f, 0)
	}
	sym.ListLen("L", l)
	sym.ListLen("R", r)
	sym.ListLen("Gg", gs)
	sym.ListLen("Hh", hs)
	p := params(g, n)
	pr, err := bp.BulletProofUnmarshalJSON(sym.Bytes("input"), p)
	if err == nil {
		ip := pr.InnerProductProof
		for _, x := range []*big.Int{pr.Taux, pr.Mu, pr.Tprime, ip.Cc, ip.A, ip.B} {
			sym.Check("no number is missing", x != nil)
		}
		for _, l := range [][]group.Element{{pr.V, pr.A, pr.S, pr.T1, pr.T2, ip.P, ip.Params.Uu}, ip.L, ip.R, ip.Params.Gg, ip.Params.Hh} {
			for _, x := range l {
				sym.Check("elements of the group", x != nil && member(g, x))
			}
		}
		ok, _ := pr.Verify()
		sym.Check("only proofs with the right number of rounds are accepted", !ok || len(pr.InnerProductProof.L) == log2(n) && len(pr.InnerProductProof.R) == log2(n))
		sym.Check("parameters are the given ones", sym.Eq(pr.Params, p))
	}
}

func C13_range_4()          { anyRange(4, 2, 2, 4, 4) }
func C13_range_1()          { anyRange(1, 0, 0, 1, 1) }
func C13_range_empty()      { anyRange(4, 0, 0, 0, 0) }
func C13_range_l_short()    { anyRange(4, 1, 2, 4, 4) }
func C13_range_r_short()    { anyRange(4, 2, 1, 4, 4) }
func C13_range_both_short() { anyRange(4, 1, 1, 4, 4) }
func C13_range_long()       { anyRange(4, 3, 3, 8, 8) }
func C13_range_g_short()    { anyRange(4, 2, 2, 3, 4) }
func C13_range_h_short()    { anyRange(4, 2, 2, 4, 3) }
func C13_range_few_gens()   { anyRange(4, 2, 2, 2, 2) }

// whatever is decoded has all its parts, in the right groups
func voteParts() {
	p := voteParams(p384N, 16, 224, 384)
	pr, err := vp.ProofUnmarshalJSON(sym.Bytes("input"), p.GFF.I, p.GEC.I)
	if err == nil {
		for _, x := range []*big.Int{pr.Challenge, pr.Z, pr.Sp, pr.Sq1, pr.Sq2, pr.Params.GFF.N, pr.Params.GFF.F, pr.Params.GEC.N, pr.Params.GEC.F} {
			sym.Check("no number is missing", x != nil)
		}
		for _, x := range []group.Element{pr.W, pr.Kp, pr.Params.GFF.G, pr.Params.GFF.H} {
			sym.Check("elements of the field group", x != nil && member(p.GFF.I, x))
		}
		for _, x := range []group.Element{pr.Kq1, pr.Kq2, pr.Params.GEC.G, pr.Params.GEC.H} {
			sym.Check("elements of the curve group", x != nil && member(p.GEC.I, x))
		}
		sym.Check("groups are the given ones", pr.Params.GFF.I == p.GFF.I && pr.Params.GEC.I == p.GEC.I)
	}
}

func C13_vote_parts() { voteParts() }

// the challenge is cut from a digest and the bounds of the response are powers
// of two, so verifying needs lengths such as Setup accepts
func C13_vote_lengths() {
	p := voteParams(p384N, 16, 224, 384)
	pr, err := vp.ProofUnmarshalJSON(sym.Bytes("input"), p.GFF.I, p.GEC.I)
	if err == nil {
		d := pr.Params
		sym.Check("the challenge fits into a digest", d.Bc <= 256)
		sym.Check("the mask is what the lengths leave", d.Bb == int(d.Bg)-1-int(d.Bx)-int(d.Bc))
		sym.Check("there is a mask", int(d.Bg)-1-int(d.Bx)-int(d.Bc) >= 1)
	}
}

func anyVote() {
	p := voteParams(p384N, 16, 224, 384)
	pr, err := vp.ProofUnmarshalJSON(sym.Bytes("input"), p.GFF.I, p.GEC.I)
	if err == nil {
		c := statement(p)
		pr.Params = p
		want := acceptsVote(c, pr, p, 16, 224, 143)
		sym.Check("decoded proofs are decided like any other", pr.Verify(c) == want)
	}
}

func C13_vote() { anyVote() }
