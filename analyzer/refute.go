package main

import "math/big"

// A condition is also unsatisfiable if assuming one of the equations in it,
// and rewriting everything else with that equation, leaves nothing, and so
// does assuming its negation. This only ever turns "unknown" into "holds".

// occurs tells whether x is part of n.
func occurs(x, n *Node, seen map[*Node]bool) bool {
	if n == nil {
		return false
	}
	if x == n {
		return true
	}
	if seen[n] {
		return false
	}
	seen[n] = true
	for _, a := range n.args {
		if occurs(x, a, seen) {
			return true
		}
	}
	for _, s := range n.segs {
		if occurs(x, s, seen) {
			return true
		}
	}
	for _, t := range n.poly {
		for _, f := range t.fac {
			if occurs(x, f.a, seen) || occurs(x, f.e, seen) {
				return true
			}
		}
	}
	if n.lin != nil {
		if occurs(x, n.lin.grp, seen) {
			return true
		}
		for _, e := range n.lin.ents {
			if occurs(x, e.base, seen) || occurs(x, e.coef, seen) {
				return true
			}
		}
	}
	if n.b != nil {
		at := map[*Node]bool{}
		bddAtoms(n.b, at)
		for a := range at {
			if occurs(x, a, seen) {
				return true
			}
		}
	}
	return false
}

// solved lists the replacements an equation justifies: an atom, and the value
// it has when the equation holds.
func solved(v *Node) [][2]*Node {
	var out [][2]*Node
	if v.kind != KAtom || len(v.args) == 0 {
		return nil
	}
	switch v.op {
	case "eq0":
		p := asInt(v.args[0])
		if len(p.poly) > 600 {
			return nil
		}
		for _, t := range p.poly {
			if len(t.fac) != 1 || t.fac[0].e != one || !t.c.IsInt() || t.c.Num().CmpAbs(bigOne) != 0 {
				continue
			}
			x := t.fac[0].a
			if x.kind != KAtom && x.kind != KVar {
				continue
			}
			// c*x + rest = 0, so x = -c*rest
			rest := scaleRat(subInt(p, scaleRat(asInt(x), t.c)), new(big.Rat).Neg(t.c))
			if !occurs(x, rest, map[*Node]bool{}) {
				out = append(out, [2]*Node{x, rest})
			}
		}
	case "ez":
		E := v.args[0]
		for _, e := range E.lin.ents {
			k, ok := constOf(e.coef)
			if !ok || k.CmpAbs(bigOne) != 0 || e.base.op == "gen" {
				continue
			}
			rest := elemSub(E, elemScale(elemAtom(E.lin.grp, e.base), e.coef))
			if k.Sign() > 0 {
				rest = elemNeg(rest)
			}
			if !occurs(e.base, rest, map[*Node]bool{}) {
				out = append(out, [2]*Node{e.base, rest})
			}
		}
	case "beq":
		for i := 0; i < 2; i++ {
			a, b := toBytes(v.args[i]), toBytes(v.args[1-i])
			if len(a.segs) == 1 && a.segs[0].kind == KAtom && !occurs(a.segs[0], b, map[*Node]bool{}) {
				out = append(out, [2]*Node{a.segs[0], b})
			}
		}
	}
	return out
}

// cofactor gives f with the variable v fixed.
func cofactor(f *bdd, v *Node, val bool) *bdd {
	memo := map[*bdd]*bdd{}
	var rec func(f *bdd) *bdd
	rec = func(f *bdd) *bdd {
		if f.v == nil || f.v.id > v.id {
			return f
		}
		if f.v == v {
			if val {
				return f.hi
			}
			return f.lo
		}
		if r, ok := memo[f]; ok {
			return r
		}
		r := bddMk(f.v, rec(f.hi), rec(f.lo))
		memo[f] = r
		return r
	}
	return rec(f)
}

type refuter struct {
	left  int // substitutions allowed
	limit int // size allowed for the facts about conditions
}

func refuted(bad *bdd) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(failure); !is {
				panic(r)
			}
			ok = false
		}
	}()
	if bddAnd(bad, axioms) == bddF {
		return true
	}
	before := axioms
	refuting = true
	defer func() { refuting = false }()
	size := 1000
	for bddLarge(axioms, size) {
		size *= 2
	}
	if !(&refuter{left: 60, limit: 4*size + 20000}).run(bad, 4) {
		// what was learned about the new conditions only costs time now
		axioms = before
		return false
	}
	return true
}

func (r *refuter) run(bad *bdd, depth int) bool {
	if bddLarge(axioms, r.limit) {
		return false
	}
	bad = bddAnd(bad, axioms)
	if bad == bddF {
		return true
	}
	if depth == 0 || bddLarge(bad, 20000) {
		return false
	}
	// what is certain is used inside the other conditions as well
	for i := 0; i < 3; i++ {
		known := map[*Node]*Node{}
		rest := bad
		for v, val := range impliedLits(bad) {
			if v.op == "eq0" || v.op == "ez" || v.op == "beq" {
				continue // kept for the step below
			}
			known[v] = ff
			if val {
				known[v] = tt
			}
			rest = cofactor(rest, v, val)
		}
		next := bddAnd((&substCtx{m: known, memo: map[*Node]*Node{}}).bdd(rest), axioms)
		if next == bddF {
			return true
		}
		if next == bad || next == rest {
			break
		}
		bad = next
	}
	// equations that hold wherever the condition does come first
	at := map[*Node]bool{}
	bddAtoms(bad, at)
	fixed := impliedLits(bad)
	for _, forced := range []bool{true, false} {
		for _, v := range sortedAtoms(at) {
			val, isFixed := fixed[v]
			if isFixed != forced || isFixed && !val {
				continue
			}
			for _, s := range solved(v) {
				if r.left--; r.left < 0 {
					return false
				}
				// the value is renormalised as everything it replaces is
				rest := (&substCtx{m: map[*Node]*Node{}, memo: map[*Node]*Node{}}).do(s[1])
				c := &substCtx{m: map[*Node]*Node{s[0]: rest}, memo: map[*Node]*Node{}}
				hi := cofactor(bad, v, true)
				next := c.bdd(hi)
				if next == hi {
					continue // nothing gained
				}
				if !r.run(next, depth-1) {
					continue
				}
				if forced {
					return true
				}
				return r.run(cofactor(bad, v, false), depth-1)
			}
		}
	}
	return false
}

// refuting is set while conditions are rewritten with their equations.
var refuting bool
