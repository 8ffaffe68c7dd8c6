package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Linear combinations of group elements with coefficients modulo the group order.
type lent struct {
	base *Node
	coef *Node
}

type linear struct {
	grp  *Node
	ents []lent
}

// groupOrders holds orders given as values; the order of any other group is an atom.
var groupOrders = map[*Node]*Node{}

func orderOf(grp *Node) *Node {
	if o, ok := groupOrders[grp]; ok {
		return o
	}
	return asInt(rawAtom(SInt, "N", grp))
}

type linAcc struct {
	grp *Node
	m   map[*Node]*Node
}

func newLin(grp *Node) *linAcc { return &linAcc{grp: grp, m: map[*Node]*Node{}} }

func (l *linAcc) addEnt(base, coef *Node) {
	if o, ok := l.m[base]; ok {
		l.m[base] = addInt(o, coef)
		return
	}
	l.m[base] = coef
}

func (l *linAcc) add(n *Node) {
	for _, e := range n.lin.ents {
		l.addEnt(e.base, e.coef)
	}
}

func (l *linAcc) node() *Node {
	N := orderOf(l.grp)
	var es []lent
	for b, c := range l.m {
		c = stripMod(c, N)
		if c == zero {
			continue
		}
		es = append(es, lent{b, c})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].base.id < es[j].base.id })
	var sb strings.Builder
	fmt.Fprintf(&sb, "e%d:", l.grp.id)
	for _, e := range es {
		fmt.Fprintf(&sb, "%d*%d+", e.base.id, e.coef.id)
	}
	return intern(sb.String(), func() *Node {
		n := &Node{kind: KElem, sort: SElem, lin: &linear{l.grp, es}}
		sub := []*Node{l.grp}
		for _, e := range es {
			sub = append(sub, e.base, e.coef)
		}
		n.vars = mergeVars(sub...)
		return n
	})
}

func elemAtom(grp, a *Node) *Node {
	l := newLin(grp)
	l.addEnt(a, one)
	return l.node()
}

func elemZero(grp *Node) *Node { return newLin(grp).node() }

func elemGen(grp *Node) *Node { return elemAtom(grp, rawAtom(SElem, "gen", grp)) }

// asElem accepts an element value or a bare atom.
func asElem(n, grp *Node) *Node {
	if n.kind == KElem {
		return n
	}
	if n.sort == SElem {
		return elemAtom(grp, n)
	}
	fail("not a group element: %s", show(n))
	return nil
}

func elemAdd(a, b *Node) *Node {
	if a.lin.grp != b.lin.grp {
		fail("sum of elements of different groups")
	}
	l := newLin(a.lin.grp)
	l.add(a)
	l.add(b)
	return l.node()
}

func elemScale(a, c *Node) *Node {
	c = asInt(c)
	if c == one {
		return a
	}
	l := newLin(a.lin.grp)
	for _, e := range a.lin.ents {
		l.addEnt(e.base, mulInt(e.coef, c))
	}
	return l.node()
}

func elemNeg(a *Node) *Node    { return elemScale(a, intNode(-1)) }
func elemSub(a, b *Node) *Node { return elemAdd(a, elemNeg(b)) }

func (c *substCtx) elem(n *Node) *Node {
	grp := c.do(n.lin.grp)
	l := newLin(grp)
	for _, e := range n.lin.ents {
		x := elemScale(asElem(c.do(e.base), grp), c.do(e.coef))
		l.add(x)
	}
	return l.node()
}

// elemIsZero is the proposition that E is the identity.
func elemIsZero(E *Node) *bdd {
	E = rewriteElem(E)
	if len(E.lin.ents) == 0 {
		return bddT
	}
	// split on indicators first, so that cases are decided separately
	for _, e := range E.lin.ents {
		for _, t := range e.coef.poly {
			for _, f := range t.fac {
				if f.a.kind == KAtom && f.a.op == "ind" {
					hi := subst(E, map[*Node]*Node{f.a: one})
					lo := subst(E, map[*Node]*Node{f.a: zero})
					return bddIte(toBool(f.a.args[0]), elemIsZero(hi), elemIsZero(lo))
				}
			}
		}
	}
	if c := E.lin.ents[0].coef.poly[0].c; c.Sign() < 0 {
		E = elemNeg(E)
	}
	if len(E.lin.ents) == 1 {
		e := E.lin.ents[0]
		if e.base.op == "gen" {
			// a multiple of the generator vanishes iff the order divides the scalar
			return eq0(modInt(e.coef, orderOf(E.lin.grp)))
		}
		if k, ok := constOf(e.coef); ok && new(big.Int).Abs(k).Cmp(big.NewInt(1)) == 0 && e.base.op == "nz" {
			return bddF
		}
	}
	if es := E.lin.ents; len(es) == 2 && elemSum(es[0].coef, es[1].coef) {
		// hashing to the group is taken to be collision free
		if t, ok := hashedText(es[0].base); ok {
			if u, ok := hashedText(es[1].base); ok && es[0].base.op == es[1].base.op {
				r := bddT
				for i := range t {
					r = bddAnd(r, bytesEq(t[i], u[i]))
				}
				return r
			}
		}
	}
	return bddVar(rawAtom(SBool, "ez", E))
}

// elemSum tells whether two coefficients are 1 and -1
func elemSum(a, b *Node) bool {
	k, ok := constOf(a)
	l, ok2 := constOf(b)
	return ok && ok2 && k.CmpAbs(big.NewInt(1)) == 0 && new(big.Int).Add(k, l).Sign() == 0
}

// hashedText gives what a hashed element is the hash of
func hashedText(a *Node) ([]*Node, bool) {
	switch {
	case a.op == "h2c", a.op == "h2cNonUniform":
		return a.args[1:3], a.args[1].kind == KBytes && a.args[2].kind == KBytes
	case a.op == "mtg", a.op == "nz" && len(a.args) == 3:
		return a.args[1:2], a.args[1].kind == KBytes
	}
	return nil, false
}
