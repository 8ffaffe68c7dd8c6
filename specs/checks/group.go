package checks

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"
)

// The groups of the repository. An arbitrary element is an arbitrary multiple
// of the generator.

func modp() group.Group {
	sym.ModP(modpP, "2")
	return group.NewModPGroup("ModP", modpP, "2")
}

// Groups modulo safe primes whose order has fewer bytes than their elements.

func modp65() group.Group {
	sym.ModP("10000000000000c1f", "2")
	return group.NewModPGroup("ModP65", "10000000000000c1f", "2")
}

func modp129() group.Group {
	sym.ModP("1000000000000000000000000000035d7", "4")
	return group.NewModPGroup("ModP129", "10000000000000000 00000000000035d7", "4")
}

// at is the element s·G, computed by the group itself.
func at(g group.Group, s *big.Int) group.Element { return g.Element().BaseScale(s) }

func minus(a, b *big.Int) *big.Int { return add(a, neg(b)) }

func congruent(a, b, n *big.Int) bool {
	return new(big.Int).Mod(minus(a, b), n).Sign() == 0
}

// ---------------------------------------------------------------- C10 group operations

func law(g group.Group) {
	a, b, s := sym.Int("a"), sym.Int("b"), sym.Int("s")
	A, B := at(g, a), at(g, b)
	gen := g.Generator()
	sym.Freeze()
	sym.Check("sum", g.Element().Add(A, B).IsEqual(at(g, add(a, b))))
	sym.Check("difference", g.Element().Subtract(A, B).IsEqual(at(g, minus(a, b))))
	sym.Check("negation", g.Element().Negate(A).IsEqual(at(g, neg(a))))
	sym.Check("multiple", g.Element().Scale(A, s).IsEqual(at(g, prod(a, s))))
	sym.Check("copy", g.Element().Set(A).IsEqual(A))
	sym.Check("generator", gen.IsEqual(at(g, big.NewInt(1))))
	sym.Check("identity", g.Identity().IsEqual(at(g, big.NewInt(0))))
	sym.Check("neutral left", g.Element().Add(g.Identity(), A).IsEqual(A))
	sym.Check("neutral right", g.Element().Add(A, g.Identity()).IsEqual(A))
	sym.Check("inverse", g.Element().Subtract(A, A).IsIdentity())
	sym.Check("double", g.Element().Add(A, A).IsEqual(at(g, prod(a, big.NewInt(2)))))
	sym.Check("order annihilates", g.Element().Scale(A, g.N()).IsIdentity())
	sym.Check("operands are left alone", sym.Intact())
}

// operations whose receiver is an operand
func aliased(g group.Group) {
	a, b, s := sym.Int("a"), sym.Int("b"), sym.Int("s")
	is := func(what string, e group.Element, v *big.Int) { sym.Check(what, e.IsEqual(at(g, v))) }
	{
		A, B := at(g, a), at(g, b)
		r := A.Add(A, B)
		is("sum into the first operand", A, add(a, b))
		is("is returned", r, add(a, b))
		is("second operand kept", B, b)
	}
	{
		A, B := at(g, a), at(g, b)
		B.Add(A, B)
		is("sum into the second operand", B, add(a, b))
		is("first operand kept", A, a)
	}
	{
		A := at(g, a)
		A.Add(A, A)
		is("doubling in place", A, prod(a, big.NewInt(2)))
	}
	{
		A, B := at(g, a), at(g, b)
		A.Subtract(A, B)
		is("difference into the first operand", A, minus(a, b))
		is("second operand kept", B, b)
	}
	{
		A, B := at(g, a), at(g, b)
		B.Subtract(A, B)
		is("difference into the second operand", B, minus(a, b))
		is("first operand kept", A, a)
	}
	{
		A := at(g, a)
		A.Subtract(A, A)
		sym.Check("cancelling in place", A.IsIdentity())
	}
	{
		A := at(g, a)
		A.Negate(A)
		is("negation in place", A, neg(a))
	}
	{
		A := at(g, a)
		A.Scale(A, s)
		is("multiple in place", A, prod(a, s))
	}
	{
		A, B := at(g, a), at(g, b)
		A.Set(B)
		A.Add(A, B)
		A.Negate(A)
		is("a copy is separate from the original", B, b)
		A.Set(B)
		B.Negate(B)
		B.Add(B, B)
		is("the original is separate from a copy", A, b)
	}
	{
		A := g.Generator()
		A.Negate(A)
		A.Add(A, A)
		I := g.Identity()
		I.Negate(I)
		I.Add(I, A)
		is("generator is constant", g.Generator(), big.NewInt(1))
		sym.Check("identity is constant", g.Identity().IsIdentity())
		is("changed generator", A, big.NewInt(-2))
	}
	{
		A := at(g, a)
		A.BaseScale(s)
		is("receiver of BaseScale is overwritten", A, s)
	}
}

// results do not share state with their operands
func separate(g group.Group) {
	a, b, s := sym.Int("a"), sym.Int("b"), sym.Int("s")
	A, B := at(g, a), at(g, b)
	for i, r := range []group.Element{
		g.Element().Add(A, B), g.Element().Subtract(A, B), g.Element().Negate(A), g.Element().Scale(A, s), g.Element().Set(A), g.Element().BaseScale(s),
	} {
		_ = i
		r.Negate(r)
		r.Add(r, A)
		r.Scale(r, s)
		r.BaseScale(big.NewInt(7))
	}
	sym.Check("operands survive changes of results", A.IsEqual(at(g, a)) && B.IsEqual(at(g, b)))
	sym.Check("scalars survive", same(s, sym.Int("s")) && same(a, sym.Int("a")))
	sym.Check("order is not changed", same(g.N(), g.Identity().GroupOrder()))
}

func C10_law_p256()        { law(group.P256()) }
func C10_law_p384()        { law(group.P384()) }
func C10_law_secp256k1()   { law(group.SecP256k1()) }
func C10_law_r255()        { law(group.Ristretto255()) }
func C10_law_modp()        { law(modp()) }
func C10_law_modp65()      { law(modp65()) }
func C10_law_modp129()     { law(modp129()) }
func C10_alias_p256()      { aliased(group.P256()) }
func C10_alias_p384()      { aliased(group.P384()) }
func C10_alias_secp256k1() { aliased(group.SecP256k1()) }
func C10_alias_r255()      { aliased(group.Ristretto255()) }
func C10_alias_modp()      { aliased(modp()) }
func C10_alias_modp65()    { aliased(modp65()) }
func C10_alias_modp129()   { aliased(modp129()) }
func C10_apart_p256()      { separate(group.P256()) }
func C10_apart_p384()      { separate(group.P384()) }
func C10_apart_secp256k1() { separate(group.SecP256k1()) }
func C10_apart_r255()      { separate(group.Ristretto255()) }
func C10_apart_modp()      { separate(modp()) }
func C10_apart_modp65()    { separate(modp65()) }
func C10_apart_modp129()   { separate(modp129()) }

// ---------------------------------------------------------------- C11 equality and identity

func equality(g group.Group) {
	a, b := sym.Int("a"), sym.Int("b")
	A, B := at(g, a), at(g, b)
	eq := congruent(a, b, g.N())
	sym.Freeze()
	sym.Check("equal exactly if the same element", A.IsEqual(B) == eq)
	sym.Check("symmetric", B.IsEqual(A) == eq)
	sym.Check("reflexive", A.IsEqual(A))
	sym.Check("identity exactly if zero", A.IsIdentity() == congruent(a, big.NewInt(0), g.N()))
	D := g.Element().Subtract(A, B)
	sym.Check("differences vanish exactly for equal elements", D.IsIdentity() == eq)
	sym.Check("equal to the identity exactly if identity", A.IsEqual(g.Identity()) == A.IsIdentity() && g.Identity().IsEqual(A) == A.IsIdentity())
	sym.Check("identity is the identity", g.Identity().IsIdentity())
	sym.Check("generator is not the identity", !g.Generator().IsIdentity())
	sym.Check("comparison changes nothing", sym.Intact())
}

func C11_equal_p256()      { equality(group.P256()) }
func C11_equal_p384()      { equality(group.P384()) }
func C11_equal_secp256k1() { equality(group.SecP256k1()) }
func C11_equal_r255()      { equality(group.Ristretto255()) }
func C11_equal_modp()      { equality(modp()) }
func C11_equal_modp65()    { equality(modp65()) }
func C11_equal_modp129()   { equality(modp129()) }

// all ways of making the identity
func identities(g group.Group) {
	a := sym.Int("a")
	A := at(g, a)
	ids := []group.Element{
		g.Identity(), at(g, big.NewInt(0)), at(g, g.N()), g.Element().Subtract(A, A), g.Element().Negate(g.Identity()),
		g.Element().Add(g.Identity(), g.Identity()), g.Element().Scale(g.Identity(), a), g.Element().Scale(A, big.NewInt(0)), g.Element().Set(g.Identity()),
	}
	for _, x := range ids {
		sym.Check("is the identity", x.IsIdentity())
		for _, y := range ids {
			sym.Check("identities are equal", x.IsEqual(y))
		}
		sym.Check("is neutral", g.Element().Add(A, x).IsEqual(A) && g.Element().Add(x, A).IsEqual(A) && g.Element().Subtract(A, x).IsEqual(A))
	}
}

func C11_identity_p256()      { identities(group.P256()) }
func C11_identity_p384()      { identities(group.P384()) }
func C11_identity_secp256k1() { identities(group.SecP256k1()) }
func C11_identity_r255()      { identities(group.Ristretto255()) }
func C11_identity_modp()      { identities(modp()) }
func C11_identity_modp65()    { identities(modp65()) }
func C11_identity_modp129()   { identities(modp129()) }

// elements of other groups are refused
func foreign(g, h group.Group) {
	A, X := g.Generator(), h.Generator()
	s := sym.Int("s")
	ops := []func(){
		func() { g.Element().Add(A, X) }, func() { g.Element().Add(X, A) },
		func() { g.Element().Subtract(A, X) }, func() { g.Element().Subtract(X, A) },
		func() { g.Element().Negate(X) }, func() { g.Element().Scale(X, s) }, func() { g.Element().Set(X) },
		func() { A.IsEqual(X) },
	}
	for _, op := range ops {
		sym.Check("foreign operand is refused", sym.Panics(op))
	}
}

func otherModp() group.Group {
	// the safe prime of the 2048-bit group
	return group.NewModPGroup("ModP", modpP2048, "2")
}

func C11_foreign_p256()         { foreign(group.P256(), group.P384()) }
func C11_foreign_p384()         { foreign(group.P384(), group.P256()) }
func C11_foreign_p256_modp()    { foreign(group.P256(), modp()) }
func C11_foreign_p256_modp65()  { foreign(group.P256(), modp65()) }
func C11_foreign_p256_modp129() { foreign(group.P256(), modp129()) }
func C11_foreign_secp256k1()    { foreign(group.SecP256k1(), group.P256()) }
func C11_foreign_p256_k1()      { foreign(group.P256(), group.SecP256k1()) }
func C11_foreign_r255()         { foreign(group.Ristretto255(), group.SecP256k1()) }
func C11_foreign_p384_r255()    { foreign(group.P384(), group.Ristretto255()) }
func C11_foreign_modp_p256()    { foreign(modp(), group.P256()) }
func C11_foreign_modp_other()   { foreign(modp(), otherModp()) }

const modpP2048 = "FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AACAA68FFFFFFFFFFFFFFFF"
