package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sameExits tells whether two lists of exits describe the same concrete
// states: they are equal once the random draws of the one are renamed to
// those of the other, cells apart that nothing can reach any more.
func (fr *frame) sameExits(l *loopInfo, ex0 []edge, rets0 []retRec, ex1 []edge, rets1 []retRec) bool {
	if len(ex0) != len(ex1) || len(rets0) != len(rets1) {
		return false
	}
	p := &pairing{roots: map[*Node]*Node{}, back: map[*Node]*Node{}, seen: map[[2]*Node]bool{}, s: map[[2]*Node]bool{}}
	for i := range ex0 {
		a, b := ex0[i], ex1[i]
		if a.from != b.from || a.to != b.to {
			return false
		}
		keys := map[int]bool{}
		for k, ok := range fr.info.live[a.to] {
			if ok {
				keys[k] = true
			}
		}
		var extra [][2]*Node
		for pi, q := range a.to.Preds {
			if q != a.from {
				continue
			}
			for _, ins := range a.to.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				delete(keys, fr.info.idx[phi])
				extra = append(extra, [2]*Node{fr.val(a.st, phi.Edges[pi]), fr.val(b.st, phi.Edges[pi])})
			}
		}
		if !p.states(a.st, b.st) {
			return false
		}
		for k := range keys {
			if !p.val(a.st.env.get(k), b.st.env.get(k)) {
				return false
			}
		}
		for _, x := range extra {
			if !p.val(x[0], x[1]) {
				return false
			}
		}
		if !p.heap() {
			return false
		}
	}
	for i := range rets0 {
		if !p.states(rets0[i].st, rets1[i].st) || !p.val(rets0[i].val, rets1[i].val) || !p.heap() {
			return false
		}
	}
	return p.decide()
}

// pairing relates two states by a renaming of roots and of random draws.
type pairing struct {
	a, b   *state
	roots  map[*Node]*Node // of the first state to those of the second
	back   map[*Node]*Node
	queue  [][2]*Node
	seen   map[[2]*Node]bool
	s      map[[2]*Node]bool // pairs without references
	leaves [][2]*Node
}

func (p *pairing) states(a, b *state) bool {
	p.a, p.b = a, b
	p.leaf(mkBool(a.cond), mkBool(b.cond))
	// cells that both states have keep their names
	var both []int
	a.heap.each(func(k int, _ *Node) {
		if b.heap.get(k) != nil {
			both = append(both, k)
		}
	})
	for _, k := range both {
		if x, y := a.heap.get(k), b.heap.get(k); x != y && !p.val(x, y) {
			return false
		}
	}
	return true
}

func (p *pairing) leaf(x, y *Node) {
	k := [2]*Node{x, y}
	if !p.s[k] {
		p.s[k] = true
		p.leaves = append(p.leaves, k)
	}
}

func (p *pairing) val(x, y *Node) bool {
	if x == nil || y == nil {
		return x == y
	}
	if x.kind != y.kind {
		return false
	}
	switch x.kind {
	case KInt, KBool, KElem, KBytes, KAtom, KVar, KErr:
		p.leaf(x, y)
		return true
	case KRoot:
		if r, ok := p.roots[x]; ok {
			return r == y
		}
		if _, ok := p.back[y]; ok {
			return false
		}
		p.roots[x], p.back[y] = y, x
		p.queue = append(p.queue, [2]*Node{x, y})
		return true
	}
	if x.op != y.op || len(x.args) != len(y.args) {
		return false
	}
	k := [2]*Node{x, y}
	if p.seen[k] {
		return true
	}
	p.seen[k] = true
	for i := range x.args {
		if !p.val(x.args[i], y.args[i]) {
			return false
		}
	}
	return true
}

func (p *pairing) heap() bool {
	for len(p.queue) > 0 {
		q := p.queue[0]
		p.queue = p.queue[1:]
		if !p.val(p.a.heap.get(rootKey(q[0])), p.b.heap.get(rootKey(q[1]))) {
			return false
		}
	}
	return true
}

func (p *pairing) decide() bool {
	va, vb := map[*Node]bool{}, map[*Node]bool{}
	for _, q := range p.leaves {
		for _, v := range q[0].vars {
			va[v] = true
		}
		for _, v := range q[1].vars {
			vb[v] = true
		}
	}
	only := func(a, b map[*Node]bool) []*Node {
		var out []*Node
		for v := range a {
			if !b[v] {
				out = append(out, v)
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
		return out
	}
	la, lb := only(va, vb), only(vb, va)
	if len(la) != len(lb) {
		return false
	}
	m := map[*Node]*Node{}
	for i := range la {
		if la[i].sort != lb[i].sort || !strings.HasPrefix(la[i].op, "draw") || !strings.HasPrefix(lb[i].op, "draw") {
			return false
		}
		m[la[i]] = lb[i]
	}
	for _, q := range p.leaves {
		if subst(q[0], m) != q[1] {
			return false
		}
	}
	return true
}
