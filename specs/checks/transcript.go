package checks

import (
	"crypto/sha256"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/verifspec/sym"
	vp "github.com/takakv/msc-poc/voteproof"
)

// ---------------------------------------------------------------- C05 challenges

func digest(s string) *big.Int {
	d := sha256.Sum256([]byte(s))
	return new(big.Int).SetBytes(d[:])
}

// the challenges of a range proof are the digest of everything sent so far
func transcript(n int) {
	g := sym.Group("G")
	es := elems(g, "E", n)
	text := ""
	for _, e := range es {
		text += e.String()
	}
	sym.Freeze()
	x, z, err := bp.HashBP(es...)
	sym.Check("no error", err == nil)
	sym.Check("first challenge is the digest of all elements in order", same(x, digest(text)))
	sym.Check("second challenge is the digest of that and the first", same(z, digest(text+x.String())))
	sym.Check("nothing changes", sym.Intact())
	for i := range es {
		fs := make([]group.Element, n)
		copy(fs, es)
		fs[i] = sym.Elem(g, "other")
		x2, _, _ := bp.HashBP(fs...)
		eq := es[i].IsEqual(fs[i])
		sym.Check("first challenge depends on every element", same(x, x2) == eq)
	}
}

func C05_transcript_1()  { transcript(1) }
func C05_transcript_2()  { transcript(2) }
func C05_transcript_3()  { transcript(3) }
func C05_transcript_4()  { transcript(4) }
func C05_transcript_5()  { transcript(5) }
func C05_transcript_6()  { transcript(6) }
func C05_transcript_7()  { transcript(7) }
func C05_transcript_8()  { transcript(8) }
func C05_transcript_10() { transcript(10) }
func C05_transcript_12() { transcript(12) }
func C05_transcript_18() { transcript(18) }
func C05_transcript_20() { transcript(20) }
func C05_transcript_34() { transcript(34) }
func C05_transcript_36() { transcript(36) }

// the text of an element that goes into a transcript identifies the element
func text(g group.Group, identity bool) {
	a, b := sym.Int("a"), sym.Int("b")
	A, B := at(g, a), at(g, b)
	if !identity {
		sym.Assume(!A.IsIdentity() && !B.IsIdentity())
	}
	sym.Freeze()
	sym.Check("same text exactly for the same element", (A.String() == B.String()) == A.IsEqual(B))
	sym.Check("sums have the text of their value", g.Element().Add(A, B).String() == at(g, add(a, b)).String() || !identity)
	sym.Check("copies have the same text", g.Element().Set(A).String() == A.String())
	d, _ := A.MarshalBinary()
	R := g.Element()
	sym.Check("decodes", R.UnmarshalBinary(d) == nil)
	sym.Check("transported elements have the same text", R.String() == A.String())
	sym.Check("nothing changes", sym.Intact())
	j, _ := A.MarshalJSON()
	J := g.Element()
	sym.Check("decodes from JSON", J.UnmarshalJSON(j) == nil)
	sym.Check("elements transported as JSON have the same text", J.String() == A.String())
}

func C05_text_p256()      { text(group.P256(), true) }
func C05_text_p384()      { text(group.P384(), true) }
func C05_text_secp256k1() { text(group.SecP256k1(), false) }
func C05_text_r255()      { text(group.Ristretto255(), true) }
func C05_text_modp()      { text(modp(), true) }

// one response cannot serve two transcripts: if a vote proof is accepted for
// two statements, or with two commitments, then these are equal
func C05_vote_binds() {
	p := voteParams(p384N, 16, 224, 384)
	ff, ec := p.GFF.I, p.GEC.I
	pr, c := voteProof(p), statement(p)
	ok := pr.Verify(c)
	cases := []struct {
		g group.Group
		f func(*vp.SigmaProof, *vp.VerCommitments) *group.Element
	}{
		{ff, func(p *vp.SigmaProof, c *vp.VerCommitments) *group.Element { return &c.Y }},
		{ff, func(p *vp.SigmaProof, c *vp.VerCommitments) *group.Element { return &c.Xp }},
		{ec, func(p *vp.SigmaProof, c *vp.VerCommitments) *group.Element { return &c.Xq1 }},
		{ec, func(p *vp.SigmaProof, c *vp.VerCommitments) *group.Element { return &c.Xq2 }},
		{ff, func(p *vp.SigmaProof, c *vp.VerCommitments) *group.Element { return &p.W }},
		{ff, func(p *vp.SigmaProof, c *vp.VerCommitments) *group.Element { return &p.Kp }},
		{ec, func(p *vp.SigmaProof, c *vp.VerCommitments) *group.Element { return &p.Kq1 }},
		{ec, func(p *vp.SigmaProof, c *vp.VerCommitments) *group.Element { return &p.Kq2 }},
	}
	for _, k := range cases {
		pr2, c2 := pr, c
		e := k.f(&pr2, &c2)
		old := *e
		*e = sym.Elem(k.g, "other")
		sym.Check("challenge is bound to every commitment and to the statement", !(ok && pr2.Verify(c2)) || old.IsEqual(*e))
	}
}

// the challenges a prover uses are those of the transcript it publishes
func C05_prover_transcript_1()  { proverTranscript(1) }
func C05_prover_transcript_2()  { proverTranscript(2) }
func C05_prover_transcript_4()  { proverTranscript(4) }
func C05_prover_transcript_8()  { proverTranscript(8) }
func C05_prover_transcript_16() { proverTranscript(16) }
func C05_prover_transcript_32() { proverTranscript(32) }

func proverTranscript(n int) {
	g := sym.Group("G")
	p := params(g, n)
	pr, gamma, _ := bp.Prove(sym.Bits("v", n), p)
	N := g.N()
	y, z := digestPair(pr.V, pr.A, pr.S)
	x, _ := digestPair(pr.V, pr.A, pr.S, pr.T1, pr.T2)
	_ = y
	// the blinding of the first part and of the polynomial, opened with the challenges of the transcript
	alpha, rho := sym.Coef(pr.A, p.H), sym.Coef(pr.S, p.H)
	t1, t2 := sym.Coef(pr.T1, p.H), sym.Coef(pr.T2, p.H)
	sym.Check("blinding opened with the challenge of the transcript", congruent(pr.Mu, add(alpha, prod(rho, x)), N))
	sym.Check("polynomial opened with the challenges of the transcript", congruent(pr.Taux, add(prod(t1, x), prod(t2, x, x), prod(z, z, gamma)), N))
}

func digestPair(es ...group.Element) (*big.Int, *big.Int) {
	s := ""
	for _, e := range es {
		s += e.String()
	}
	x := digest(s)
	return x, digest(s + x.String())
}
