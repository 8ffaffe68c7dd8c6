package main

import (
	"math/big"
	"strings"
)

func bigFromBytes(s string) *Node { return bigNode(new(big.Int).SetBytes([]byte(s))) }

type failure struct{ msg string }

// mkAtom applies an operator with its rewrite rules (used when rebuilding).
// The result is an atom, or a value of the sort.
func mkAtom(sort Sort, op string, args ...*Node) *Node {
	switch op {
	case "mod":
		return modInt(args[0], args[1])
	case "div":
		return divInt(args[0], args[1])
	case "digit":
		k, _ := constI(args[1])
		return modInt(divInt(args[0], bigNode(new(big.Int).Lsh(big.NewInt(1), uint(k)))), two)
	case "pow":
		return powInt(args[0], args[1])
	case "base":
		if len(args[0].poly) == 1 {
			return args[0]
		}
	case "sgn":
		return sgnInt(args[0])
	case "ind":
		return indOf(toBool(args[0]))
	case "eq0":
		return mkBool(eq0(args[0]))
	case "pos":
		return mkBool(pos(args[0]))
	case "ez":
		return mkBool(elemIsZero(args[0]))
	case "beq":
		return mkBool(bytesEq(args[0], args[1]))
	case "same":
		return mkBool(sameNode(args[0], args[1]))
	case "sub":
		return subBytes(args[0], args[1], addInt(args[1], args[2]))
	case "slice":
		return subBytes(args[0], args[1], args[2])
	case "frombytes":
		return fromBytes(args[0])
	case "uint":
		return byteAt(args[0], zero)
	case "blen":
		return bytesLen(args[0])
	case "bitlen", "bytelen":
		if k, ok := splitIndex(args[0]); ok {
			return iteV(k.c, asInt(mkAtom(SInt, op, k.hi)), asInt(mkAtom(SInt, op, k.lo)))
		}
		if c, ok := constOf(args[0]); ok {
			if op == "bitlen" {
				return intNode(int64(c.BitLen()))
			}
			return intNode(int64((c.BitLen() + 7) / 8))
		}
	case "xc0", "yc0":
		return coord(op, args[0])
	case "clip":
		if lo, hi, ok := bounds(args[0]); ok && lo != nil && hi != nil && lo.Sign() >= 0 {
			if k, ok := constI(args[1]); ok && int64(hi.BitLen()) <= k {
				return args[0]
			}
		}
	case "jacobi":
		return jacobi(args[0], args[1])
	case "dec", "minb":
		return decStr(args[0])
	case "conv":
		return rawAtom(sort, op, args...)
	case "mt":
		if args[0].kind != KMT {
			return args[0]
		}
	}
	if strings.HasPrefix(op, "wrap:") {
		return wrapInt(op[5:], args[0])
	}
	return rawAtom(sort, op, args...)
}

func decStr(x *Node) *Node {
	x = asInt(x)
	if c, ok := constOf(x); ok {
		return strNode(c.String())
	}
	return bytesOf(rawAtom(SBytes, "dec", x))
}

func bytesEq(a, b *Node) *bdd {
	if a == b {
		return bddT
	}
	a, b = toBytes(a), toBytes(b)
	sa, oka := constBytes(a)
	sb, okb := constBytes(b)
	if oka && okb {
		if sa == sb {
			return bddT
		}
		return bddF
	}
	if a.id > b.id {
		a, b = b, a
	}
	// what both start or end with does not matter
	x, y := a.segs, b.segs
	for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
		x, y = x[1:], y[1:]
	}
	for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	if len(x) < len(a.segs) {
		return bytesEq(mkBytes(x), mkBytes(y))
	}
	if n, ok := constI(bytesLen(a)); ok {
		if m, ok := constI(bytesLen(b)); ok && n != m {
			return bddF
		}
	}
	if r, ok := constSegEq(x, y); ok {
		return r
	}
	if r, ok := constSegEq(y, x); ok {
		return r
	}
	if r, ok := segsEq(x, y); ok {
		return r
	}
	return bddVar(rawAtom(SBool, "beq", a, b))
}

// constSegEq compares a constant at the start of x with a number of fixed
// width at the start of y, or a constant with digits.
func constSegEq(x, y []*Node) (*bdd, bool) {
	if len(x) == 0 || len(y) == 0 {
		return nil, false
	}
	s, ok := isStr(x[0])
	if !ok {
		// a first part of the same fixed length, if something follows
		n, okn := constI(segLen(x[0]))
		m, okm := constI(segLen(y[0]))
		if okn && okm && n == m && x[0].op == "be" && y[0].op == "be" && len(x)+len(y) > 2 {
			if e, ok := segEq(x[0], y[0]); ok {
				if e == bddF {
					return bddF, true
				}
				return bddAnd(e, bytesEq(mkBytes(x[1:]), mkBytes(y[1:]))), true
			}
		}
		return nil, false
	}
	switch y[0].op {
	case "be":
		n, ok := constI(y[0].args[1])
		if !ok || int64(len(s)) < n {
			return nil, false
		}
		v := new(big.Int).SetBytes([]byte(s[:n]))
		rest := x[1:]
		if int64(len(s)) > n {
			rest = append([]*Node{strAtom(s[n:])}, rest...)
		}
		e := eq0(subInt(y[0].args[0], bigNode(v)))
		if e == bddF {
			return bddF, true
		}
		return bddAnd(e, bytesEq(mkBytes(rest), mkBytes(y[1:]))), true
	case "dec":
		if len(x) != 1 || len(y) != 1 {
			return nil, false
		}
		v, ok := new(big.Int).SetString(s, 10)
		if !ok || v.String() != s {
			return bddF, true
		}
		return eq0(subInt(y[0].args[0], bigNode(v))), true
	}
	return nil, false
}

// segsEq compares texts of the same form part by part, if the form tells
// where each part ends.
func segsEq(x, y []*Node) (*bdd, bool) {
	if len(x) != len(y) {
		return nil, false
	}
	r := bddT
	for i := range x {
		sx, okx := isStr(x[i])
		sy, oky := isStr(y[i])
		if okx != oky {
			return nil, false
		}
		if okx {
			if len(sx) != len(sy) && len(x) > 1 {
				return nil, false
			}
			if sx != sy {
				return bddF, true
			}
			continue
		}
		e, ok := segEq(x[i], y[i])
		if !ok {
			return nil, false
		}
		if i < len(x)-1 {
			// the part must be of fixed length, or end where digits end
			n, okn := constI(segLen(x[i]))
			m, okm := constI(segLen(y[i]))
			if !(okn && okm && n == m) {
				s, ok := isStr(x[i+1])
				if x[i].op != "dec" || !ok || s == "" || s[0] >= '0' && s[0] <= '9' {
					return nil, false
				}
			}
		}
		r = bddAnd(r, e)
	}
	return r, true
}

// segEq: injective encodings. Digests of different texts are taken to differ,
// also when they are cut to 128 bits or more.
func segEq(x, y *Node) (*bdd, bool) {
	if x == y {
		return bddT, true
	}
	if x.op != y.op || len(x.args) != len(y.args) {
		return nil, false
	}
	switch x.op {
	case "estr", "ebin", "r255b":
		if x.args[0].kind == KElem && y.args[0].kind == KElem && x.args[0].lin.grp == y.args[0].lin.grp {
			return elemIsZero(elemSub(x.args[0], y.args[0])), true
		}
	case "dec", "minb":
		return eq0(subInt(x.args[0], y.args[0])), true
	case "be":
		if x.args[1] == y.args[1] {
			return eq0(subInt(x.args[0], y.args[0])), true
		}
	case "sha":
		return bytesEq(x.args[0], y.args[0]), true
	case "sub":
		if x.args[1] == y.args[1] && x.args[2] == y.args[2] {
			if n, ok := constI(x.args[2]); ok && n >= 16 && x.args[0].kind == y.args[0].kind {
				if a, b := toBytes(x.args[0]), toBytes(y.args[0]); len(a.segs) == 1 && len(b.segs) == 1 && a.segs[0].op == "sha" && b.segs[0].op == "sha" {
					return bytesEq(a, b), true
				}
			}
		}
	}
	return nil, false
}

func constBytes(n *Node) (string, bool) {
	if len(n.segs) == 0 {
		return "", true
	}
	if len(n.segs) == 1 {
		return isStr(n.segs[0])
	}
	return "", false
}

// sameNode: identity of opaque values.
func sameNode(a, b *Node) *bdd {
	if a == b {
		return bddT
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bddVar(rawAtom(SBool, "same", a, b))
}

func typeRange(typ string) (*big.Int, *big.Int) {
	bits := map[string]uint{"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "uint": 64, "uintptr": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "int": 64}[typ]
	if bits == 0 {
		return nil, nil
	}
	if strings.HasPrefix(typ, "uint") {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
	}
	h := new(big.Int).Lsh(big.NewInt(1), bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
}

// wrapInt narrows an integer to a machine type.
func wrapInt(typ string, x *Node) *Node {
	x = asInt(x)
	lo, hi := typeRange(typ)
	if lo == nil {
		fail("not an integer type: %s", typ)
	}
	if l, h, ok := bounds(x); ok && l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return x
	}
	if c, ok := constOf(x); ok {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(c, lo)
		r.Mod(r, m)
		return bigNode(r.Add(r, lo))
	}
	if a := atomOf(x); a != nil && a.op == "wrap:"+typ {
		return x
	}
	return asInt(rawAtom(SInt, "wrap:"+typ, x))
}
