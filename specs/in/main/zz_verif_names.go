package main

import (
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// The operations of the program, under the names it has for them today. If one
// of these does not type-check, the analyser looks for the operation by its
// types (analyzer/names.go).

func specSetup(g group.Group) (PublicParameters, error) {
	p, err := setup(g)
	return p, err
}

func specCast(pp PublicParameters) BallotData {
	b, _ := castVote(pp)
	return b
}

func specCount(b BallotData, rp voteproof.ProofParams) bool {
	ok, _ := verifyVote(b, rp)
	return ok
}

func specSetCandidates(pp *PublicParameters, lo, hi uint16) {
	pp.candidateMin, pp.candidateMax = lo, hi
}

func specCandidates(pp PublicParameters) (uint16, uint16) {
	return pp.candidateMin, pp.candidateMax
}
