package main

import (
	"crypto/sha256"
	"encoding/json"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/checks"
	"github.com/takakv/msc-poc/verifspec/sym"
	"github.com/takakv/msc-poc/voteproof"
)

// electionParams are the public parameters of an election of which the group
// of the range proofs is arbitrary; the length of ranges is n bits.
func electionParams(order string, n int, bg int) PublicParameters {
	ff := checks.FieldGroup()
	ec := checks.CurveGroup(order)
	bpp := checks.Params(ec, n)
	var pp PublicParameters
	pp.FFGroupParams = voteproof.GroupParameters{G: ff.Generator(), H: sym.Elem(ff, "pk"), N: ff.N(), F: ff.P(), I: ff}
	pp.ECGroupParams = voteproof.GroupParameters{G: ec.Generator(), H: bpp.H, N: ec.N(), F: ff.P(), I: ec}
	pp.EGPK = pp.FFGroupParams.H
	specSetCandidates(&pp, 101, 2000)
	pp.BPParams = bpp
	pp.RPParams, _ = voteproof.Setup(16, 224, uint16(bg), 101, 2000, voteproof.AlgebraicParameters{GFF: pp.FFGroupParams, GEC: pp.ECGroupParams})
	return pp
}

// anyBallot is an arbitrary ballot. The parameters its vote proof claims are
// arbitrary, too, except that its lengths are such as Setup derives: a proof
// with other lengths has no verdict, and need not be decoded.
func anyBallot(pp PublicParameters, n int) BallotData {
	ff, ec := pp.FFGroupParams.I, pp.ECGroupParams.I
	lo := checks.RangeProof("lo", ec, n, pp.BPParams)
	hi := checks.RangeProof("hi", ec, n, pp.BPParams)
	vp := checks.VoteProof(pp.RPParams)
	vp.Params.Bx, vp.Params.Bc, vp.Params.Bg, vp.Params.Bb = 200, 8, 999, 999-1-200-8
	vp.Params.RangeLo, vp.Params.RangeHi = 1, 60000
	vp.Params.GFF.G, vp.Params.GFF.H = sym.Elem(ff, "claimedG"), sym.Elem(ff, "claimedH")
	vp.Params.GEC.G, vp.Params.GEC.H = sym.Elem(ec, "claimedg"), sym.Elem(ec, "claimedh")
	vp.Params.GFF.N, vp.Params.GEC.N = sym.Int("claimedN"), sym.Int("claimedn")
	return BallotData{Ballot: ElGamalCiphertext{U: sym.Elem(ff, "U"), V: sym.Elem(ff, "V")}, BpLower: lo, BpUpper: hi, VoteProof: vp}
}

// accepts is the predicate the server decides about a ballot.
func accepts(pp PublicParameters, b BallotData, bb int) bool {
	ec := pp.ECGroupParams.I
	lo := ec.Element().Add(ec.Element().BaseScale(big.NewInt(int64(pp.RPParams.RangeLo))), b.BpLower.V)
	hi := ec.Element().Subtract(ec.Element().BaseScale(big.NewInt(int64(pp.RPParams.RangeHi))), b.BpUpper.V)
	c := voteproof.VerCommitments{Y: b.Ballot.U, Xp: b.Ballot.V, Xq1: lo, Xq2: hi}
	return checks.AcceptsOne(pp.BPParams, b.BpLower) && checks.AcceptsOne(pp.BPParams, b.BpUpper) && checks.AcceptsVote(c, b.VoteProof, pp.RPParams, 16, 224, bb)
}

func ballotAccept(order string, n, bg int) {
	pp := electionParams(order, n, bg)
	b := anyBallot(pp, n)
	want := accepts(pp, b, bg-1-16-224)
	ok := specCount(b, pp.RPParams)
	sym.Check("counts exactly the valid ballots", ok == want)
}

func C01_accept_p256()      { ballotAccept(checks.P256N, 16, 256) }
func C01_accept_p384()      { ballotAccept(checks.P384N, 16, 384) }
func C01_accept_secp256k1() { ballotAccept(checks.K1N, 16, 256) }
func C01_accept_r255()      { ballotAccept(checks.R255N, 16, 253) }

// the range is the election's, whatever it is
func C01_any_range() {
	pp := electionParams(checks.P384N, 4, 384)
	pp.RPParams.RangeLo, pp.RPParams.RangeHi = sym.Uint16("lo"), sym.Uint16("hi")
	b := anyBallot(pp, 4)
	want := accepts(pp, b, 143)
	ok := specCount(b, pp.RPParams)
	sym.Check("counts exactly the valid ballots", ok == want)
}

// what was counted before has no influence: two elections over the same
// groups, and one over others
func C01_history() {
	pp := electionParams(checks.P384N, 4, 384)
	b := anyBallot(pp, 4)
	decides := func(b BallotData, pp PublicParameters, bb int) {
		want := accepts(pp, b, bb)
		ok := specCount(b, pp.RPParams)
		sym.Check("counts exactly the valid ballots after others", ok == want)
	}
	decides(b, pp, 143)
	o := pp
	o.RPParams.RangeLo, o.RPParams.RangeHi = 7, 900
	decides(b, o, 143)
	o.RPParams.GFF.H = sym.Elem(o.RPParams.GFF.I, "another key")
	decides(b, o, 143)
	c := b
	c.BpLower, c.BpUpper = b.BpUpper, b.BpLower
	decides(c, pp, 143)
	c = b
	c.VoteProof.Sq2 = sym.Int("another response")
	decides(c, pp, 143)
	c = b
	c.BpUpper.Mu = sym.Int("another mu")
	decides(c, pp, 143)
	c = b
	c.Ballot.V = sym.Elem(pp.FFGroupParams.I, "another V")
	decides(c, pp, 143)
	q := electionParams(checks.P256N, 4, 256)
	decides(anyBallot(q, 4), q, 15)
}

// ---------------------------------------------------------------- C07 honest ballots

func ballotComplete(order string, n, bg int) {
	pp := electionParams(order, n, bg)
	b := specCast(pp)
	ok := specCount(b, pp.RPParams)
	sym.Check("honest ballot is counted", ok)
	sym.Check("honest ballot meets the equations", accepts(pp, b, bg-1-16-224))
}

func C07_ballot_p256()      { ballotComplete(checks.P256N, 16, 256) }
func C07_ballot_p384()      { ballotComplete(checks.P384N, 16, 384) }
func C07_ballot_secp256k1() { ballotComplete(checks.K1N, 16, 256) }
func C07_ballot_r255()      { ballotComplete(checks.R255N, 16, 253) }

// ballots of several elections
func C07_history_ballots() {
	cast := func(pp PublicParameters, bb int) {
		specSetCandidates(&pp, 101, 116)
		pp.RPParams.RangeLo, pp.RPParams.RangeHi = 101, 116
		b := specCast(pp)
		sym.Check("honest ballot meets the equations", accepts(pp, b, bb))
		ok := specCount(b, pp.RPParams)
		sym.Check("honest ballot is counted", ok)
	}
	pp := electionParams(checks.P384N, 4, 384)
	cast(pp, 143)
	cast(pp, 143)
	cast(electionParams(checks.P256N, 4, 256), 15)
}

// ---------------------------------------------------------------- C09 encryption

// Optional: the encryption of a ballot, in the form the program has
func C09_encryption() {
	ff := checks.FieldGroup()
	pk := sym.Elem(ff, "pk")
	m := sym.Uint16("m")
	c, r := encryptVote(m, pk, ff)
	sym.Check("first component", c.U.IsEqual(ff.Element().BaseScale(r)))
	sym.Check("second component", c.V.IsEqual(ff.Element().Add(ff.Element().BaseScale(big.NewInt(int64(m))), ff.Element().Scale(pk, r))))
	sym.Check("randomness is not zero", r.Sign() > 0)
	sym.Check("randomness is reduced", r.Cmp(ff.N()) < 0)
	sym.Check("randomness is uniform", sym.Uniform(r, ff.N()))
	sym.Check("randomness does not depend on the message", !sym.DependsOn(r, sym.Int("m")))
	c2, r2 := encryptVote(m, pk, ff)
	sym.Check("randomness is fresh", !sym.SameDraw(r, r2))
	_ = c2
}

// Optional: decryption by the holder of the key recovers the vote
func C09_decryption() {
	ff := checks.FieldGroup()
	sk := sym.Scalar("sk", ff.N())
	pk := ff.Element().BaseScale(sk)
	m := sym.Uint16("m")
	c, _ := encryptVote(m, pk, ff)
	d := ff.Element().Subtract(c.V, ff.Element().Scale(c.U, sk))
	sym.Check("decrypts to the vote", d.IsEqual(ff.Element().BaseScale(big.NewInt(int64(m)))))
}

// the ciphertext in a ballot is an encryption under the election's key with
// randomness of its own, and ballots do not share it
func C09_ballot_is_encrypted() {
	pp := electionParams(checks.P384N, 4, 384)
	ff := pp.FFGroupParams.I
	b := specCast(pp)
	r := sym.Coef(b.Ballot.U, ff.Generator())
	sym.Check("first component", b.Ballot.U.IsEqual(ff.Element().BaseScale(r)))
	m := sym.Coef(b.Ballot.V, ff.Generator())
	sym.Check("second component", b.Ballot.V.IsEqual(ff.Element().Add(ff.Element().BaseScale(m), ff.Element().Scale(pp.EGPK, r))))
	sym.Check("randomness is not zero", r.Sign() > 0)
	sym.Check("randomness is reduced", r.Cmp(ff.N()) < 0)
	sym.Check("randomness is uniform", sym.Uniform(r, ff.N()))
	sym.Check("randomness is not the choice", !sym.SameDraw(r, m))
	another := specCast(pp)
	sym.Check("randomness is fresh", !sym.SameDraw(r, sym.Coef(another.Ballot.U, ff.Generator())))
}

// the ciphertext of a ballot encrypts a candidate, under the public key, and
// the two range commitments are to its distance from the bounds
func C09_ballot_encrypts_a_candidate() {
	pp := electionParams(checks.P384N, 16, 384)
	ff := pp.FFGroupParams.I
	sk := sym.Scalar("sk", ff.N())
	pp.EGPK = ff.Element().BaseScale(sk)
	pp.FFGroupParams.H, pp.RPParams.GFF.H = pp.EGPK, pp.EGPK
	b := specCast(pp)
	d := ff.Element().Subtract(b.Ballot.V, ff.Element().Scale(b.Ballot.U, sk))
	m := sym.Coef(d, ff.Generator())
	sym.Check("decrypts to a number", d.IsEqual(ff.Element().BaseScale(m)))
	sym.Check("at least the first candidate", m.Cmp(big.NewInt(101)) >= 0)
	sym.Check("at most the last candidate", m.Cmp(big.NewInt(2000)) <= 0)
	ec := pp.ECGroupParams.I
	sym.Check("lower bound commitment", sym.Coef(b.BpLower.V, ec.Generator()).Cmp(new(big.Int).Sub(m, big.NewInt(101))) == 0)
	sym.Check("upper bound commitment", sym.Coef(b.BpUpper.V, ec.Generator()).Cmp(new(big.Int).Sub(big.NewInt(2000), m)) == 0)
}

// ---------------------------------------------------------------- encodings

// the server's verdict on a transported ballot is about the election's
// parameters, whatever the ballot says
func transported(order string, n, bg int) {
	pp := electionParams(order, n, bg)
	b := anyBallot(pp, n)
	want := accepts(pp, b, bg-1-16-224)
	own := checks.Params(pp.ECGroupParams.I, 2*n)
	own.H = sym.Elem(pp.ECGroupParams.I, "claimed H")
	own.G = sym.Elem(pp.ECGroupParams.I, "claimed G")
	own.Gg[0] = sym.Elem(pp.ECGroupParams.I, "claimed g")
	b.BpLower.Params, b.BpUpper.Params = own, own
	d, err := json.Marshal(b)
	sym.Check("ballot is encoded", err == nil)
	back, err := BallotDataUnmarshalJSON(d, pp)
	sym.Check("ballot is decoded", err == nil)
	ok := specCount(back, pp.RPParams)
	sym.Check("counts exactly the valid ballots", ok == want)
}

func C01_transported_4()  { transported(checks.P384N, 4, 384) }
func C01_transported_16() { transported(checks.R255N, 16, 253) }

func C12_ballot() {
	ff := checks.FieldGroup()
	c := ElGamalCiphertext{U: sym.Elem(ff, "U"), V: sym.Elem(ff, "V")}
	sym.Freeze()
	d, err := json.Marshal(c)
	sym.Check("every ciphertext has an encoding", err == nil)
	back, err := BallotUnmarshalJSON(d, ff)
	sym.Check("the encoding is accepted", err == nil)
	sym.Check("the ciphertext is restored", back.U.IsEqual(c.U) && back.V.IsEqual(c.V))
	sym.Check("nothing changes", sym.Intact())
}

func C12_ballot_data() {
	pp := electionParams(checks.P384N, 4, 384)
	b := anyBallot(pp, 4)
	sym.Freeze()
	d, err := json.Marshal(b)
	sym.Check("every ballot has an encoding", err == nil)
	back, err := BallotDataUnmarshalJSON(d, pp)
	sym.Check("the encoding is accepted", err == nil)
	sym.Check("the ballot is restored", sym.Eq(back.Ballot, b.Ballot))
	sym.Check("the lower range proof is restored", sym.Eq(back.BpLower, b.BpLower))
	sym.Check("the upper range proof is restored", sym.Eq(back.BpUpper, b.BpUpper))
	sym.Check("the vote proof is restored", sym.Eq(back.VoteProof, b.VoteProof))
	sym.Check("nothing changes", sym.Intact())
}

func C13_ballot() {
	ff := checks.FieldGroup()
	c, err := BallotUnmarshalJSON(sym.Bytes("input"), ff)
	if err == nil {
		sym.Check("both components are elements", ff.Element().Subtract(c.U, c.U).IsIdentity() && ff.Element().Subtract(c.V, c.V).IsIdentity())
	}
}

func C13_ballot_data() {
	pp := electionParams(checks.P384N, 4, 384)
	sym.ListLen("L", 2)
	sym.ListLen("R", 2)
	sym.ListLen("Gg", 4)
	sym.ListLen("Hh", 4)
	b, err := BallotDataUnmarshalJSON(sym.Bytes("input"), pp)
	if err == nil {
		sym.Check("range proofs are about the election's parameters", sym.Eq(b.BpLower.Params, pp.BPParams) && sym.Eq(b.BpUpper.Params, pp.BPParams))
		for _, x := range []*big.Int{b.BpLower.Taux, b.BpLower.Mu, b.BpLower.Tprime, b.BpUpper.Taux, b.BpUpper.Mu, b.BpUpper.Tprime,
			b.BpLower.InnerProductProof.Cc, b.BpLower.InnerProductProof.A, b.BpLower.InnerProductProof.B,
			b.BpUpper.InnerProductProof.Cc, b.BpUpper.InnerProductProof.A, b.BpUpper.InnerProductProof.B,
			b.VoteProof.Challenge, b.VoteProof.Z, b.VoteProof.Sp, b.VoteProof.Sq1, b.VoteProof.Sq2} {
			sym.Check("nothing is missing", x != nil)
		}
		for _, x := range []group.Element{b.Ballot.U, b.Ballot.V, b.VoteProof.W, b.VoteProof.Kp} {
			sym.Check("elements of the field group", x != nil && pp.FFGroupParams.I.Element().Subtract(x, x).IsIdentity())
		}
		for _, x := range []group.Element{b.BpLower.V, b.BpUpper.V, b.BpLower.A, b.BpUpper.A, b.VoteProof.Kq1, b.VoteProof.Kq2} {
			sym.Check("elements of the curve group", x != nil && pp.ECGroupParams.I.Element().Subtract(x, x).IsIdentity())
		}
	}
}

var _ = sha256.New
var _ bulletproofs.BulletProof
var _ group.Group

// the verdict is about what a ballot contains when it is counted, also when it
// contained something else before
func changedBallot(order string, n, bg int) {
	pp := electionParams(order, n, bg)
	b, o := anyBallot(pp, n), anyBallot(pp, n)
	ff, ec := pp.FFGroupParams.I, pp.ECGroupParams.I
	q := checks.RangeProof("q", ec, n, pp.BPParams)
	b.Ballot.U, b.Ballot.V = ff.Element().Set(b.Ballot.U), ff.Element().Set(b.Ballot.V)
	b.BpLower.V, b.BpLower.Taux, b.BpLower.A = ec.Element().Set(b.BpLower.V), new(big.Int).Set(b.BpLower.Taux), ec.Element().Set(b.BpLower.A)
	b.VoteProof.Z, b.VoteProof.Challenge = new(big.Int).Set(b.VoteProof.Z), new(big.Int).Set(b.VoteProof.Challenge)
	decide := func() {
		want := accepts(pp, b, bg-1-16-224)
		sym.Check("counts exactly the valid ballots", specCount(b, pp.RPParams) == want)
	}
	decide()
	b.BpLower.Taux.Set(q.Taux)
	decide()
	b.BpLower.A.Set(q.A)
	decide()
	b.BpLower.V.Set(q.V)
	decide()
	b.VoteProof.Z.Set(sym.Int("other z"))
	decide()
	b.VoteProof.Challenge.Set(sym.Int("other c"))
	decide()
	b.Ballot.U.Set(sym.Elem(ff, "other U"))
	decide()
	b.Ballot.V.Set(sym.Elem(ff, "other V"))
	decide()
	o.BpUpper = b.BpLower
	b = o
	decide()
}

func C01_changed() { changedBallot(checks.P384N, 4, 384) }

// ---------------------------------------------------------------- C14 effects

func C14_count() {
	pp := electionParams(checks.P384N, 4, 384)
	b := anyBallot(pp, 4)
	sym.Freeze()
	ok := specCount(b, pp.RPParams)
	sym.Check("counting keeps the ballot and the parameters", sym.Intact())
	again := specCount(b, pp.RPParams)
	sym.Check("second verdict is the first", ok == again)
	sym.Check("counting draws no random numbers", sym.Draws() == 0)
}

func C14_cast() {
	pp := electionParams(checks.P384N, 4, 384)
	sym.Freeze()
	b := specCast(pp)
	sym.Check("casting keeps the parameters", sym.Intact())
	sym.Freeze()
	_ = specCast(pp)
	sym.Check("another vote keeps the earlier ballot", sym.Intact())
	_ = b
}

// the verdict on a ballot does not depend on what was counted or cast before
func C14_history() {
	pp := electionParams(checks.P384N, 4, 384)
	b := anyBallot(pp, 4)
	before := specCount(b, pp.RPParams)
	_ = specCast(pp)
	other := b
	other.Ballot.U = sym.Elem(pp.FFGroupParams.I, "otherU")
	_ = specCount(other, pp.RPParams)
	after := specCount(b, pp.RPParams)
	sym.Check("the verdict does not depend on other ballots", before == after)
}

// ---------------------------------------------------------------- C20 effects on shared memory

func alone(label string, f func()) {
	sym.Freeze()
	f()
	sym.Check(label, sym.Unwritten())
}

func parallelBallots(order string, bits int) {
	pp := electionParams(order, 4, bits)
	b := anyBallot(pp, 4)
	alone("casting", func() { _ = specCast(pp) })
	alone("counting", func() { _ = specCount(b, pp.RPParams) })
}

func C20_ballots_p256() { parallelBallots(checks.P256N, 256) }
func C20_ballots_p384() { parallelBallots(checks.P384N, 384) }

// ---------------------------------------------------------------- C21 failing entropy

func faultyBallot(order string, n, bits int) {
	pp := electionParams(order, n, bits)
	checks.FailsClosed("no ballot without randomness", func() bool {
		_ = specCast(pp)
		return true
	})
}

func C21_ballot_p256() { faultyBallot(checks.P256N, 4, 256) }
func C21_ballot_p384() { faultyBallot(checks.P384N, 4, 384) }

// ---------------------------------------------------------------- C15 setup

func electionSetup(g group.Group, bits int) {
	sym.Freeze()
	pp, err := specSetup(g)
	sym.Check("the group is usable", err == nil)
	sym.Check("changes nothing", sym.Intact())
	ff := pp.FFGroupParams
	ec := pp.ECGroupParams
	sym.Check("groups", ec.I == g && ec.N.Cmp(g.N()) == 0 && ff.N.Cmp(ff.I.N()) == 0)
	sym.Check("generators", ff.G.IsEqual(ff.I.Generator()) && ec.G.IsEqual(g.Generator()))
	sym.Check("the ciphertext group is a safe prime group", ff.I.P().Cmp(new(big.Int).Add(new(big.Int).Lsh(ff.I.N(), 1), big.NewInt(1))) == 0)
	sym.Check("key", pp.EGPK.IsEqual(ff.H) && !pp.EGPK.IsIdentity())
	h, _ := g.Element().MapToGroup(bulletproofs.SEEDH)
	sym.Check("one blinding base in all commitments", ec.H.IsEqual(pp.BPParams.H) && pp.BPParams.H.IsEqual(h))
	lo, hi := specCandidates(pp)
	sym.Check("candidates", lo == 101 && hi == 2000)
	rp := pp.RPParams
	sym.Check("one candidate range everywhere", rp.RangeLo == lo && rp.RangeHi == hi)
	sym.Check("length of votes", rp.Bx == 16 && pp.BPParams.N == int64(rp.Bx) && len(pp.BPParams.Gg) == 16 && len(pp.BPParams.Hh) == 16)
	sym.Check("length of the challenge", rp.Bc == 224)
	sym.Check("length of the order", int(rp.Bg) == bits && rp.Bb == bits-1-16-224)
	sym.Check("vote proof is about the groups of the election", sym.Eq(rp.GFF, ff) && sym.Eq(rp.GEC, ec))
	sym.Check("range proofs are about the group of the election", pp.BPParams.GP == g)
	sym.Check("draws nothing", sym.Draws() == 0)
}

func C15_election_p256()      { electionSetup(group.P256(), 256) }
func C15_election_p384()      { electionSetup(group.P384(), 384) }
func C15_election_secp256k1() { electionSetup(group.SecP256k1(), 256) }
func C15_election_r255()      { electionSetup(group.Ristretto255(), 253) }
