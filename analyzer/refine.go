package main

import (
	"math/big"
)

// What the path condition says about a value. All rewritings here are
// equalities on the path they are made on.

// decided tells what the path condition says about b: 1, -1, or 0 for nothing.
func decided(st *state, b *bdd) int {
	if b == bddT {
		return 1
	}
	if b == bddF {
		return -1
	}
	if !feasible(bddAnd(st.cond, bddNot(b))) {
		return 1
	}
	if !feasible(bddAnd(st.cond, b)) {
		return -1
	}
	return 0
}

// settle replaces indicators the path condition decides.
func settle(st *state, n *Node) *Node {
	if n.kind != KInt {
		return n
	}
	for {
		seen := map[*Node]bool{}
		done := true
		for _, t := range n.poly {
			for _, f := range t.fac {
				if f.a.kind != KAtom || f.a.op != "ind" || seen[f.a] {
					continue
				}
				seen[f.a] = true
				switch decided(st, toBool(f.a.args[0])) {
				case 1:
					n = subst(n, map[*Node]*Node{f.a: one})
					done = false
				case -1:
					n = subst(n, map[*Node]*Node{f.a: zero})
					done = false
				}
			}
		}
		if done {
			return n
		}
	}
}

// cases runs f in states in which the given integers have no indicators left.
func (in *interp) cases(st *state, ns []*Node, f func(s *state, ns []*Node) *Node) *Node {
	out := make([]*Node, len(ns))
	for i, n := range ns {
		out[i] = settle(st, n)
		if k, ok := splitIndex(out[i]); ok && n.kind == KInt {
			var rets []retRec
			for _, c := range []*bdd{k.c, bddNot(k.c)} {
				s := st.copy()
				s.cond = bddAnd(s.cond, c)
				r := in.cases(s, ns, f)
				rets = append(rets, retRec{s, r})
			}
			env := st.env
			r := finishRets(st, rets)
			st.env = env
			return r
		}
	}
	return f(st, out)
}

// cmpCases runs f where a ≤ b is known to hold or not.
func (in *interp) cmpCases(st *state, a, b *Node, f func(s *state, le bool) *Node) *Node {
	switch le(a, b) {
	case 1:
		return f(st, true)
	case -1:
		return f(st, false)
	}
	c := pos(addInt(subInt(b, a), one))
	switch decided(st, c) {
	case 1:
		return f(st, true)
	case -1:
		return f(st, false)
	}
	var rets []retRec
	for i, c := range []*bdd{c, bddNot(c)} {
		s := st.copy()
		s.cond = bddAnd(s.cond, c)
		r := f(s, i == 0)
		rets = append(rets, retRec{s, r})
	}
	env := st.env
	r := finishRets(st, rets)
	st.env = env
	return r
}

// pathBounds collects what the path condition says about the range of x.
func pathBounds(st *state, x *Node) (lo, hi *big.Int) {
	lo, hi, _ = bounds(x)
	q, neg := x, leadNeg(x)
	if neg {
		q = negInt(x)
	}
	better := func(l, h *big.Int) {
		if neg {
			l, h = negBig(h), negBig(l)
		}
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	for _, v := range thr[q] {
		p := v.args[0]
		c := new(big.Int)
		for _, t := range p.poly {
			if len(t.fac) == 0 && t.c.IsInt() {
				c.Set(t.c.Num())
			}
		}
		l, h := interval(v.op, leadNeg(subInt(p, bigNode(c))), c)
		switch decided(st, bddVar(v)) {
		case 1:
			better(l, h)
		case -1:
			if l != nil && h == nil {
				better(nil, new(big.Int).Sub(l, bigOne))
			} else if l == nil && h != nil {
				better(new(big.Int).Add(h, bigOne), nil)
			}
		}
	}
	return lo, hi
}

func negBig(x *big.Int) *big.Int {
	if x == nil {
		return nil
	}
	return new(big.Int).Neg(x)
}

// narrow bounds x by what the path says: clip(x, k) is x for 0 ≤ x < 2^k, and 0 elsewhere.
func narrow(st *state, x *Node) *Node {
	x = settle(st, x)
	if _, ok := constOf(x); ok {
		return x
	}
	lo, hi, _ := bounds(x)
	if lo != nil && lo.Sign() >= 0 && hi != nil {
		return x
	}
	l, h := pathBounds(st, x)
	if l == nil || h == nil || l.Sign() < 0 {
		return x
	}
	k := (h.BitLen() + 7) / 8 * 8
	if k == 0 {
		return zero
	}
	a := rawAtom(SInt, "clip", x, intNode(int64(k)))
	atomLo[a] = new(big.Int)
	atomUp[a] = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(k)), bigOne)
	r := asInt(a)
	return r
}

// settler rewrites values by what one path condition decides.
type settler struct {
	st   *state
	memo map[*Node]*Node
	dec  map[*Node]int
}

func newSettler(st *state) *settler {
	return &settler{st, map[*Node]*Node{}, map[*Node]int{}}
}

func (s *settler) decided(cond *Node) int {
	if d, ok := s.dec[cond]; ok {
		return d
	}
	d := decided(s.st, toBool(cond))
	s.dec[cond] = d
	return d
}

// do replaces the choices inside n that the path condition has made.
func (s *settler) do(n *Node) *Node {
	if n == nil {
		return nil
	}
	if r, ok := s.memo[n]; ok {
		return r
	}
	s.memo[n] = n
	r := n
	switch n.kind {
	case KMT:
		c := mkBool(bddVar(n.args[0]))
		switch s.decided(c) {
		case 1:
			r = s.do(n.args[1])
		case -1:
			r = s.do(n.args[2])
		default:
			r = iteV(toBool(c), s.do(n.args[1]), s.do(n.args[2]))
		}
	case KInt, KElem, KBytes, KAtom:
		for {
			m := map[*Node]*Node{}
			s.inds(r, m, map[*Node]bool{})
			if len(m) == 0 {
				break
			}
			r = subst(r, m)
		}
	case KBool:
		switch s.decided(n) {
		case 1:
			r = mkBool(bddT)
		case -1:
			r = mkBool(bddF)
		default:
			r = mkBool(bddRestrict(n.b, s.st.cond))
		}
	case KErr:
		r = mkErr(toBool(s.do(n.args[0])))
	case KStruct, KTuple, KRef, KSlice, KIface:
		args := make([]*Node, len(n.args))
		ch := false
		for i, a := range n.args {
			args[i] = s.do(a)
			ch = ch || args[i] != a
		}
		if ch {
			r = rawKind(n.kind, n.op, args...)
		}
	}
	s.memo[n] = r
	return r
}

func (s *settler) inds(n *Node, m map[*Node]*Node, seen map[*Node]bool) {
	if n == nil || seen[n] {
		return
	}
	seen[n] = true
	switch n.kind {
	case KInt:
		for _, t := range n.poly {
			for _, f := range t.fac {
				s.inds(f.a, m, seen)
			}
		}
	case KElem:
		for _, e := range n.lin.ents {
			s.inds(e.base, m, seen)
			s.inds(e.coef, m, seen)
		}
	case KBytes:
		for _, x := range n.segs {
			s.inds(x, m, seen)
		}
	case KAtom:
		if n.op == "ind" {
			switch s.decided(n.args[0]) {
			case 1:
				m[n] = one
				return
			case -1:
				m[n] = zero
				return
			}
		}
		for _, a := range n.args {
			s.inds(a, m, seen)
		}
	}
}

// settleState settles the given registers and the cells in which st differs from base.
func settleState(st, base *state, live map[int]bool) *state {
	s := newSettler(st)
	out := st.copy()
	for k, ok := range live {
		if v := st.env.get(k); ok && v != nil {
			out.env = out.env.set(k, s.do(v))
		}
	}
	base.heap.merge(st.heap, func(k int, x, y *Node) *Node {
		if y != nil && x != y {
			out.heap = out.heap.set(k, s.do(y))
		}
		return x
	})
	return out
}
