package checks

import (
	"encoding/json"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"
	vp "github.com/takakv/msc-poc/voteproof"
)

// ---------------------------------------------------------------- C15 setup

// point is the generator with a label
func point(g group.Group, label string) group.Element {
	e, err := g.Element().MapToGroup(label)
	sym.Check("label maps to an element", err == nil)
	return e
}

func digits(i int) string {
	if i >= 10 {
		return digits(i/10) + digits(i%10)
	}
	return string(rune('0' + i))
}

// parameters of a range proof of n bits have the generators of their labels
func checkParams(g group.Group, p bp.BulletProofSetupParams, n int) {
	sym.Check("bit length", p.N == int64(n))
	sym.Check("one generator per bit", len(p.Gg) == n && len(p.Hh) == n)
	sym.Check("group", p.GP == g)
	sym.Check("base is the generator of the group", p.G.IsEqual(g.Generator()))
	sym.Check("blinding base has its own label", p.H.IsEqual(point(g, bp.SEEDH)))
	for i := 0; i < n; i++ {
		sym.Check("left generators have their own labels", p.Gg[i].IsEqual(point(g, bp.SEEDH+"g"+digits(i))))
		sym.Check("right generators have their own labels", p.Hh[i].IsEqual(point(g, bp.SEEDH+"h"+digits(i))))
	}
}

func rangeSetup(g group.Group, n int) {
	sym.Freeze()
	p, err := bp.Setup(int64(1)<<n, g)
	sym.Check("accepts the range", err == nil)
	sym.Check("draws nothing", sym.Draws() == 0)
	sym.Check("changes nothing", sym.Intact())
	checkParams(g, p, n)
	q, _ := bp.Setup(int64(1)<<n, g)
	sym.Check("can be repeated", sym.Eq(p, q))
}

func C15_range_1()  { rangeSetup(sym.Group("G"), 1) }
func C15_range_2()  { rangeSetup(sym.Group("G"), 2) }
func C15_range_4()  { rangeSetup(sym.Group("G"), 4) }
func C15_range_8()  { rangeSetup(sym.Group("G"), 8) }
func C15_range_16() { rangeSetup(sym.Group("G"), 16) }
func C15_range_32() { rangeSetup(sym.Group("G"), 32) }

func C15_range_p256()      { rangeSetup(group.P256(), 16) }
func C15_range_p384()      { rangeSetup(group.P384(), 16) }
func C15_range_secp256k1() { rangeSetup(group.SecP256k1(), 16) }
func C15_range_r255()      { rangeSetup(group.Ristretto255(), 16) }

// labels of different generators differ
func C15_labels() {
	sym.Check("the two seeds differ", bp.SEEDH != bp.SEEDU)
	sym.Check("seeds are not empty", bp.SEEDH != "" && bp.SEEDU != "")
	for i := 0; i < 64; i++ {
		sym.Check("no label is used twice", bp.SEEDH+"g"+digits(i) != bp.SEEDU && bp.SEEDH+"h"+digits(i) != bp.SEEDU)
	}
}

// other ranges are refused
func C15_refuses() {
	g := sym.Group("G")
	refuse := func(b int64) {
		_, err := bp.Setup(b, g)
		sym.Check("refuses ranges that are not supported", err != nil)
	}
	for b := int64(-9); b < 300; b++ {
		if b != 2 && b != 4 && b != 16 && b != 256 {
			refuse(b)
		}
	}
	for k := 8; k < 63; k++ {
		b := int64(1) << k
		refuse(b - 1)
		refuse(b + 1)
		refuse(-b)
		refuse(3 * b)
		if k != 8 && k != 16 && k != 32 {
			refuse(b)
		}
	}
	refuse(-1 << 63)
	for i := 1; i < 62; i++ {
		for j := 0; j < i; j++ {
			refuse(int64(1)<<i + int64(1)<<j)
		}
	}
}

// parameters of the vote proof: any lengths, any range
func C15_vote() {
	bx, bc, bg := sym.Uint8("bx"), sym.Uint16("bc"), sym.Uint16("bg")
	lo, hi := sym.Uint16("lo"), sym.Uint16("hi")
	ap := vp.AlgebraicParameters{GFF: groupParams(fieldGroup(), "pk"), GEC: groupParams(curveGroup(p256N), "h")}
	sym.Freeze()
	p, err := vp.Setup(bx, bc, bg, lo, hi, ap)
	bb := int(bg) - 1 - int(bx) - int(bc)
	sym.Check("lengths are accepted exactly if masks fit and the challenge is a digest", (err == nil) == (bb >= 1 && bc <= 256))
	sym.Check("changes nothing", sym.Intact())
	sym.Assume(err == nil)
	sym.Check("lengths", p.Bx == bx && p.Bc == bc && p.Bg == bg && p.Bb == bb)
	sym.Check("range", p.RangeLo == lo && p.RangeHi == hi)
	sym.Check("groups", sym.Eq(p.AlgebraicParameters, ap))
	sym.Check("masks are shorter than the order", int(p.Bx)+int(p.Bc)+p.Bb+1 == int(p.Bg))
}

// ---------------------------------------------------------------- C18 groups

func hex(s string) *big.Int {
	n, _ := new(big.Int).SetString(s, 16)
	return n
}

func describe(g group.Group, name, n, p string) {
	sym.Freeze()
	sym.Check("name", g.Name() == name)
	sym.Check("order", same(g.N(), hex(n)))
	sym.Check("field", same(g.P(), hex(p)))
	j, err := g.MarshalJSON()
	var id struct {
		Name string `json:"group"`
	}
	sym.Check("description", err == nil && json.Unmarshal(j, &id) == nil && id.Name == name)
	G, O := g.Generator(), g.Identity()
	sym.Check("identity is neutral", O.IsIdentity() && !G.IsIdentity())
	sym.Check("order of the generator", mul(g, G, g.N()).IsIdentity())
	for _, e := range []group.Element{G, O, g.Element()} {
		sym.Check("elements know the order", same(e.GroupOrder(), hex(n)))
		sym.Check("elements know the field", same(e.FieldOrder(), hex(p)))
	}
	sym.Check("nothing changes", sym.Intact())
}

// a generator, an identity or any other element that was handed out can be
// changed in every way without changing the group
func anew(g group.Group) {
	one, three := g.Element().BaseScale(big.NewInt(1)), g.Element().BaseScale(big.NewInt(3))
	A := at(g, sym.Int("a"))
	d, _ := three.MarshalBinary()
	j, _ := three.MarshalJSON()
	for _, change := range []func(e group.Element){
		func(e group.Element) { e.Add(e, e) },
		func(e group.Element) { e.Add(e, A) },
		func(e group.Element) { e.Add(A, e) },
		func(e group.Element) { e.Subtract(e, A) },
		func(e group.Element) { e.Negate(e) },
		func(e group.Element) { e.Scale(e, big.NewInt(5)) },
		func(e group.Element) { e.BaseScale(big.NewInt(7)) },
		func(e group.Element) { e.Set(three) },
		func(e group.Element) { e.SetBytes(d) },
		func(e group.Element) { _ = e.UnmarshalBinary(d) },
		func(e group.Element) { _ = e.UnmarshalJSON(j) },
	} {
		G, O, E := g.Generator(), g.Identity(), g.Element()
		sym.Check("generator", G.IsEqual(one))
		sym.Check("identity", O.IsIdentity())
		E.BaseScale(big.NewInt(2))
		change(G)
		change(O)
		change(E)
		sym.Check("generator is made anew", g.Generator().IsEqual(one))
		sym.Check("identity is made anew", g.Identity().IsIdentity() && !one.IsIdentity())
		sym.Check("multiples are taken of the generator", g.Element().BaseScale(big.NewInt(3)).IsEqual(three))
		sym.Check("an element that was changed is not another one", G == g.Generator() == false && O == g.Identity() == false)
	}
	n, p := new(big.Int).Set(g.N()), new(big.Int).Set(g.P())
	R := g.Random()
	sym.Check("random element is a member", g.Element().Scale(R, g.N()).IsIdentity())
	sym.Check("random element is drawn", sym.Draws() == 1 && R.IsEqual(at(g, sym.Draw(0))) && sym.Uniform(sym.Draw(0), g.N()))
	sym.Check("orders stay", same(g.N(), n) && same(g.P(), p))
	S := g.Random()
	sym.Check("drawn again", sym.Draws() == 2 && S.IsEqual(at(g, sym.Draw(1))))
}

func C18_anew_p256()      { anew(group.P256()) }
func C18_anew_p384()      { anew(group.P384()) }
func C18_anew_secp256k1() { anew(group.SecP256k1()) }
func C18_anew_r255()      { anew(group.Ristretto255()) }
func C18_anew_modp()      { anew(modp()) }
func C18_anew_modp65()    { anew(modp65()) }
func C18_anew_modp129()   { anew(modp129()) }

// hashing to a group depends on the message only, and gives a member
func hashing(g group.Group) {
	a := sym.Int("a")
	A := at(g, a)
	R := g.Element()
	sym.Freeze()
	X, err := g.Element().MapToGroup("some text")
	sym.Check("hashes", err == nil)
	Y, _ := g.Identity().MapToGroup("some text")
	Z, _ := g.Generator().MapToGroup("some text")
	W, _ := g.Element().MapToGroup("some other text")
	sym.Check("same text, same element", X.IsEqual(Y) && X.IsEqual(Z))
	sym.Check("nothing changes", sym.Intact())
	sym.Check("draws nothing", sym.Draws() == 0)
	sym.Check("element has the order of the group", mul(g, X, g.N()).IsIdentity())
	sym.Check("element depends on the text", sym.Eq(X.String(), W.String()) == X.IsEqual(W))
	_, _ = R.MapToGroup("third text")
	sym.Check("elements are apart", X.IsEqual(point(g, "some text")) && A.IsEqual(at(g, a)))
	t, u := sym.Str("t"), sym.Str("u")
	T, err := g.Element().MapToGroup(t)
	sym.Check("hashes every text", err == nil)
	U, _ := A.MapToGroup(u)
	sym.Check("all of the text is hashed", T.IsEqual(U) == (t == u))
	V, _ := g.Element().MapToGroup(t + "x")
	sym.Check("longer texts are different", !T.IsEqual(V))
	d, err := X.MarshalBinary()
	sym.Check("encodes", err == nil)
	sym.Check("hashed element is a member", g.Element().UnmarshalBinary(d) == nil)
}

const (
	p256P = "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"
	p384P = "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"
	k1P   = "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"
	r255P = "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"
)

func C18_describe_p256()      { describe(group.P256(), "P-256", p256N, p256P) }
func C18_describe_p384()      { describe(group.P384(), "P-384", p384N, p384P) }
func C18_describe_secp256k1() { describe(group.SecP256k1(), "secp256k1", k1N, k1P) }
func C18_describe_r255()      { describe(group.Ristretto255(), "ristretto255", r255N, r255P) }
func C18_describe_modp() {
	n := new(big.Int).Rsh(hex(modpP), 1)
	describe(group.NewModPGroup("F", modpP, "2"), "F", n.Text(16), modpP)
}

func C18_hashing_p256()      { hashing(group.P256()) }
func C18_hashing_p384()      { hashing(group.P384()) }
func C18_hashing_secp256k1() { hashing(group.SecP256k1()) }
func C18_hashing_r255()      { hashing(group.Ristretto255()) }
