package main

import (
	"strings"
)

// Byte strings: concatenations of segments (Bytes atoms).

func strAtom(s string) *Node { return rawAtom(SBytes, "str:"+s) }

func isStr(n *Node) (string, bool) {
	if n.kind == KAtom && n.sort == SBytes && strings.HasPrefix(n.op, "str:") {
		return n.op[4:], true
	}
	return "", false
}

func mkBytes(segs []*Node) *Node {
	var out []*Node
	for _, s := range segs {
		if s.kind == KBytes {
			for _, x := range s.segs {
				out = appendSeg(out, x)
			}
			continue
		}
		out = appendSeg(out, s)
	}
	key := "y:" + idsKey(out)
	return intern(key, func() *Node {
		return &Node{kind: KBytes, sort: SBytes, segs: out, vars: mergeVars(out...)}
	})
}

func appendSeg(out []*Node, s *Node) []*Node {
	if t, ok := isStr(s); ok {
		if t == "" {
			return out
		}
		if n := len(out); n > 0 {
			if p, ok := isStr(out[n-1]); ok {
				return append(append([]*Node(nil), out[:n-1]...), strAtom(p+t))
			}
		}
	}
	if s.op == "zero" {
		if s.args[0] == zero {
			return out
		}
		if k, ok := constI(s.args[0]); ok && k <= 4096 {
			return appendSeg(out, strAtom(strings.Repeat("\x00", int(k))))
		}
	}
	if s.op == "byte" {
		if k, ok := constI(s.args[0]); ok && k >= 0 && k < 256 {
			return appendSeg(out, strAtom(string([]byte{byte(k)})))
		}
	}
	// rejoin adjacent pieces of one string
	if s.op == "sub" && len(out) > 0 {
		p := out[len(out)-1]
		if p.op == "sub" && p.args[0] == s.args[0] && addInt(p.args[1], p.args[2]) == s.args[1] {
			j := subSeg(p.args[0].segs[0], p.args[1], addInt(p.args[2], s.args[2]))
			return append(append([]*Node(nil), out[:len(out)-1]...), j)
		}
	}
	// zero padding before a minimal encoding
	if s.op == "minb" && len(out) > 0 {
		p := out[len(out)-1]
		if p.op == "zero" {
			w := addInt(p.args[0], segLen(s))
			return append(append([]*Node(nil), out[:len(out)-1]...), rawAtom(SBytes, "be", s.args[0], w))
		}
	}
	return append(append([]*Node(nil), out...), s)
}

func bytesOf(a *Node) *Node { return mkBytes([]*Node{a}) }

func strNode(s string) *Node { return mkBytes([]*Node{strAtom(s)}) }

var emptyBytes = strNode("")

func concat(ns ...*Node) *Node {
	var segs []*Node
	for _, n := range ns {
		segs = append(segs, toBytes(n).segs...)
	}
	return mkBytes(segs)
}

func toBytes(n *Node) *Node {
	switch {
	case n.kind == KBytes:
		return n
	case (n.kind == KAtom || n.kind == KVar) && n.sort == SBytes:
		return bytesOf(n)
	case n.kind == KMT:
		return bytesOf(rawAtom(SBytes, "mt", n))
	}
	fail("not a byte string: %s", show(n))
	return nil
}

func segLen(s *Node) *Node {
	if t, ok := isStr(s); ok {
		return intNode(int64(len(t)))
	}
	if strings.HasPrefix(s.op, "inN:") {
		return s.args[0]
	}
	switch s.op {
	case "sha", "r255b":
		return intNode(32)
	case "be":
		return s.args[1]
	case "minb":
		return asInt(rawAtom(SInt, "bytelen", s.args[0]))
	case "zero":
		return s.args[0]
	case "byte":
		return one
	case "sub":
		return s.args[2]
	}
	return asInt(rawAtom(SInt, "blen", bytesOf(s)))
}

func bytesLen(n *Node) *Node {
	r := zero
	for _, s := range toBytes(n).segs {
		r = addInt(r, segLen(s))
	}
	return r
}

func subSeg(s, lo, ln *Node) *Node {
	if lo == zero && ln == segLen(s) {
		return s
	}
	if t, ok := isStr(s); ok {
		a, ok1 := constI(lo)
		l, ok2 := constI(ln)
		if ok1 && ok2 && a >= 0 && a+l <= int64(len(t)) {
			return strAtom(t[a : a+l])
		}
	}
	if s.op == "zero" {
		return rawAtom(SBytes, "zero", ln)
	}
	if s.op == "sub" {
		return subSeg(s.args[0].segs[0], addInt(s.args[1], lo), ln)
	}
	return rawAtom(SBytes, "sub", bytesOf(s), lo, ln)
}

// le decides a <= b: 1 yes, -1 no (a > b), 0 unknown.
func le(a, b *Node) int {
	d := subInt(b, a)
	if c, ok := constOf(d); ok {
		if c.Sign() >= 0 {
			return 1
		}
		return -1
	}
	p := pos(addInt(d, one))
	if p == bddT {
		return 1
	}
	if p == bddF {
		return -1
	}
	return 0
}

// subBytes is n[lo:hi].
func subBytes(n, lo, hi *Node) *Node {
	n = toBytes(n)
	if lo == hi {
		return emptyBytes
	}
	if lo == zero && hi == bytesLen(n) {
		return n
	}
	segs := n.segs
	_, c1 := constI(lo)
	_, c2 := constI(hi)
	if !c1 || !c2 {
		segs = splitRuns(segs)
	}
	offs := []*Node{zero}
	for _, s := range segs {
		offs = append(offs, addInt(offs[len(offs)-1], segLen(s)))
	}
	var out []*Node
	for i, s := range segs {
		a, b := offs[i], offs[i+1]
		// overlap of [a,b) with [lo,hi)
		if le(b, lo) == 1 || le(hi, a) == 1 {
			continue
		}
		l, h := a, b
		switch {
		case le(lo, a) == 1:
		case le(a, lo) == 1:
			l = lo
		default:
			if len(segs) > 1 {
				return bytesOf(rawAtom(SBytes, "slice", n, lo, hi))
			}
			l = lo
		}
		switch {
		case le(b, hi) == 1:
		case le(hi, b) == 1:
			h = hi
		default:
			if len(segs) > 1 {
				return bytesOf(rawAtom(SBytes, "slice", n, lo, hi))
			}
			h = hi
		}
		if len(segs) > 1 && le(l, h) != 1 {
			return bytesOf(rawAtom(SBytes, "slice", n, lo, hi))
		}
		out = append(out, subSeg(s, subInt(l, a), subInt(h, l)))
	}
	return mkBytes(out)
}

// splitRuns cuts constant segments into runs of zeroes and the rest.
func splitRuns(segs []*Node) []*Node {
	var out []*Node
	for _, s := range segs {
		t, ok := isStr(s)
		if !ok {
			out = append(out, s)
			continue
		}
		for i := 0; i < len(t); {
			j := i
			z := t[i] == 0
			for j < len(t) && (t[j] == 0) == z {
				j++
			}
			if z {
				out = append(out, rawAtom(SBytes, "zero", intNode(int64(j-i))))
			} else {
				out = append(out, strAtom(t[i:j]))
			}
			i = j
		}
	}
	return out
}

// replaceBytes overwrites n[lo:lo+len(x)] by x.
func replaceBytes(n, lo, x *Node) *Node {
	hi := addInt(lo, bytesLen(x))
	return concat(subBytes(n, zero, lo), x, subBytes(n, hi, bytesLen(n)))
}

// byteAt is n[i].
func byteAt(n, i *Node) *Node {
	s := subBytes(n, i, addInt(i, one))
	if len(s.segs) == 1 {
		if t, ok := isStr(s.segs[0]); ok && len(t) == 1 {
			return intNode(int64(t[0]))
		}
		if s.segs[0].op == "byte" {
			return s.segs[0].args[0]
		}
	}
	return asInt(rawAtom(SInt, "uint", s))
}

// fromBytes is the big-endian unsigned integer.
func fromBytes(n *Node) *Node {
	n = toBytes(n)
	if len(n.segs) == 0 {
		return zero
	}
	if len(n.segs) == 1 {
		s := n.segs[0]
		if s.op == "minb" || s.op == "be" {
			return s.args[0]
		}
		if t, ok := isStr(s); ok {
			return bigFromBytes(t)
		}
	}
	return asInt(rawAtom(SInt, "frombytes", n))
}
