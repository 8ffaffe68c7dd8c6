package checks

import (
	"crypto/sha256"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"
	vp "github.com/takakv/msc-poc/voteproof"
)

// Orders of the groups of an election.
const (
	modpP = "FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AAAC42DAD33170D04507A33A85521ABDF1CBA64ECFB850458DBEF0A8AEA71575D060C7DB3970F85A6E1E4C7ABF5AE8CDB0933D71E8C94E04A25619DCEE3D2261AD2EE6BF12FFA06D98A0864D87602733EC86A64521F2B18177B200CBBE117577A615D6C770988C0BAD946E208E24FA074E5AB3143DB5BFCE0FD108E4B82D120A93AD2CAFFFFFFFFFFFFFFFF"
	p256N = "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"
	p384N = "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"
	k1N   = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"
	r255N = "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"
)

// fieldGroup is an arbitrary group of the order of the ElGamal group.
func fieldGroup() group.Group {
	n, _ := new(big.Int).SetString(modpP, 16)
	n = new(big.Int).Rsh(n, 1)
	return sym.GroupN("FF", n.Text(16), modpP, true)
}

func curveGroup(order string) group.Group { return sym.GroupN("EC", order, "", false) }

func groupParams(g group.Group, h string) vp.GroupParameters {
	return vp.GroupParameters{G: g.Generator(), H: sym.Elem(g, h), N: g.N(), F: g.P(), I: g}
}

// voteParams are parameters of the vote proof for two arbitrary groups.
func voteParams(order string, bx uint8, bc uint16, bg uint16) vp.ProofParams {
	p, _ := vp.Setup(bx, bc, bg, 101, 2000, vp.AlgebraicParameters{GFF: groupParams(fieldGroup(), "pk"), GEC: groupParams(curveGroup(order), "h")})
	return p
}

// voteChallenge is the digest of the statement and of the commitments.
func voteChallenge(c vp.VerCommitments, s vp.SigmaCommit, bits int) *big.Int {
	t := ""
	for _, e := range []group.Element{c.Y, c.Xp, c.Xq1, c.Xq2, s.W, s.Kp, s.Kq1, s.Kq2} {
		t += e.String()
	}
	d := sha256.Sum256([]byte(t))
	n := (bits + 7) / 8
	return new(big.Int).Rsh(new(big.Int).SetBytes(d[:n]), uint(8*n-bits))
}

func twoTo(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

// acceptsVote is the predicate the verifier of vote proofs decides.
func acceptsVote(c vp.VerCommitments, pr vp.SigmaProof, p vp.ProofParams, bx, bc, bb int) bool {
	ff, ec := p.GFF, p.GEC
	opens := func(gp vp.GroupParameters, s *big.Int, k, x group.Element) bool {
		return pedersen(gp.I, gp.H, pr.Z, s).IsEqual(sum(gp.I, k, mul(gp.I, x, pr.Challenge)))
	}
	small := pr.Z.Cmp(twoTo(bx+bc)) >= 0 && pr.Z.Cmp(twoTo(bx+bc+bb)) < 0
	hash := same(pr.Challenge, voteChallenge(c, pr.SigmaCommit, bc))
	dlog := ff.I.Element().BaseScale(pr.Sp).IsEqual(sum(ff.I, pr.W, mul(ff.I, c.Y, pr.Challenge)))
	return small && hash && dlog && opens(ff, pr.Sp, pr.Kp, c.Xp) && opens(ec, pr.Sq1, pr.Kq1, c.Xq1) && opens(ec, pr.Sq2, pr.Kq2, c.Xq2)
}

// voteProof is an arbitrary vote proof.
func voteProof(p vp.ProofParams) vp.SigmaProof {
	ff, ec := p.GFF.I, p.GEC.I
	var pr vp.SigmaProof
	pr.W, pr.Kp = sym.Elem(ff, "W"), sym.Elem(ff, "Kp")
	pr.Kq1, pr.Kq2 = sym.Elem(ec, "Kq1"), sym.Elem(ec, "Kq2")
	pr.Challenge, pr.Z = sym.Int("c"), sym.Int("z")
	pr.Sp, pr.Sq1, pr.Sq2 = sym.Int("sp"), sym.Int("sq1"), sym.Int("sq2")
	pr.Params = p
	return pr
}

func statement(p vp.ProofParams) vp.VerCommitments {
	ff, ec := p.GFF.I, p.GEC.I
	return vp.VerCommitments{Y: sym.Elem(ff, "Y"), Xp: sym.Elem(ff, "Xp"), Xq1: sym.Elem(ec, "Xq1"), Xq2: sym.Elem(ec, "Xq2")}
}

func voteAccept(order string, bx, bc, bg int) {
	p := voteParams(order, uint8(bx), uint16(bc), uint16(bg))
	voteDecides(voteProof(p), statement(p), p, bx, bc, bg)
}

func voteDecides(pr vp.SigmaProof, c vp.VerCommitments, p vp.ProofParams, bx, bc, bg int) {
	want := acceptsVote(c, pr, p, bx, bc, bg-1-bx-bc)
	sym.Check("accepts exactly the valid proofs", pr.Verify(c) == want)
}

func C04_accept_p256()              { voteAccept(p256N, 16, 224, 256) }
func C04_accept_p384()              { voteAccept(p384N, 16, 224, 384) }
func C04_accept_r255()              { voteAccept(r255N, 16, 224, 253) }
func C04_accept_256_bit_challenge() { voteAccept(p384N, 16, 256, 384) }
func C04_accept_128_bit_challenge() { voteAccept(p256N, 32, 128, 256) }
func C04_accept_12_bit_challenge()  { voteAccept(p256N, 16, 12, 256) }
func C04_accept_1_bit_challenge()   { voteAccept(p256N, 8, 1, 256) }
func C04_accept_255_bit_challenge() { voteAccept(p384N, 16, 255, 384) }
func C04_accept_no_challenge()      { voteAccept(p256N, 16, 0, 256) }
func C04_accept_long_lengths()      { voteAccept(p384N, 127, 255, 384) }
func C04_accept_long_secret()       { voteAccept(p384N, 120, 192, 384) }

// ---------------------------------------------------------------- C07 honest vote proofs

func voteComplete(order string, bx, bc, bg int) {
	voteCompleteFor(voteParams(order, uint8(bx), uint16(bc), uint16(bg)), sym.Nat("v", bx), bx, bc, bg)
}

func voteCompleteFor(p vp.ProofParams, v *big.Int, bx, bc, bg int) {
	ff, ec := p.GFF, p.GEC
	rp, r1, r2 := sym.Scalar("rp", ff.N), sym.Scalar("r1", ec.N), sym.Scalar("r2", ec.N)
	pr := vp.Prove(v, rp, r1, r2, p)
	c := vp.VerCommitments{
		Y:   ff.I.Element().BaseScale(rp),
		Xp:  pedersen(ff.I, ff.H, v, rp),
		Xq1: pedersen(ec.I, ec.H, v, r1),
		Xq2: pedersen(ec.I, ec.H, v, r2),
	}
	sym.Check("honest proof verifies", pr.Verify(c))
	sym.Check("meets the verification equations", acceptsVote(c, pr, p, bx, bc, bg-1-bx-bc))
	sym.Check("carries the parameters", sym.Eq(pr.Params, p))
	// the response is only released inside the range that hides the secret
	sym.Check("response is long enough", pr.Z.Cmp(twoTo(bx+bc)) >= 0)
	sym.Check("response is short enough", pr.Z.Cmp(twoTo(bg-1)) < 0)
}

func C07_complete_p256()              { voteComplete(p256N, 16, 224, 256) }
func C07_complete_p384()              { voteComplete(p384N, 16, 224, 384) }
func C07_complete_r255()              { voteComplete(r255N, 16, 224, 253) }
func C07_complete_secp256k1()         { voteComplete(k1N, 16, 224, 256) }
func C07_complete_12_bit_challenge()  { voteComplete(p256N, 16, 12, 256) }
func C07_complete_255_bit_challenge() { voteComplete(p384N, 16, 255, 384) }
func C07_complete_one_bit_mask()      { voteComplete(p256N, 31, 223, 256) }
func C07_complete_long_secret()       { voteComplete(p384N, 250, 128, 384) }
func C07_complete_256_bit_challenge() { voteComplete(p384N, 16, 256, 384) }

// ---------------------------------------------------------------- for the specifications of the ballots

const (
	P256N = p256N
	P384N = p384N
	K1N   = k1N
	R255N = r255N
)

func FieldGroup() group.Group                               { return fieldGroup() }
func CurveGroup(order string) group.Group                   { return curveGroup(order) }
func VoteProof(p vp.ProofParams) vp.SigmaProof              { return voteProof(p) }
func Params(g group.Group, n int) bp.BulletProofSetupParams { return params(g, n) }
func AcceptsVote(c vp.VerCommitments, pr vp.SigmaProof, p vp.ProofParams, bx, bc, bb int) bool {
	return acceptsVote(c, pr, p, bx, bc, bb)
}
func AcceptsOne(p bp.BulletProofSetupParams, pr bp.BulletProof) bool {
	return acceptsRange(p, []group.Element{pr.V}, pr.A, pr.S, pr.T1, pr.T2, pr.Taux, pr.Mu, pr.Tprime, pr.InnerProductProof)
}

// RangeProof is an arbitrary range proof; tag tells it from others.
func RangeProof(tag string, g group.Group, n int, p bp.BulletProofSetupParams) bp.BulletProof {
	k := log2(n)
	e := func(s string) group.Element { return sym.Elem(g, tag+s) }
	i := func(s string) *big.Int { return sym.Int(tag + s) }
	return bp.BulletProof{
		V: e("V"), A: e("A"), S: e("S"), T1: e("T1"), T2: e("T2"), Taux: i("taux"), Mu: i("mu"), Tprime: i("t"),
		InnerProductProof: bp.InnerProductProof{
			P: e("ipP"), Cc: i("ipC"), A: i("ipa"), B: i("ipb"), L: elems(g, tag+"L", k), R: elems(g, tag+"R", k),
			Params: bp.InnerProductParams{Gg: elems(g, tag+"cG", n), Hh: elems(g, tag+"cH", n), Uu: e("cU"), GP: g},
		},
		Params: p,
	}
}
