package main

import "math/big"

// Binary digits of bounded integers. A value x with 0 <= x < 2^k has k digit
// atoms; x = sum 2^i digit(x,i) is kept as a rewrite rule that is applied when
// values are compared.

type rewrite struct{ pivot, by *Node }

var (
	digitsOf = map[*Node][]*Node{}
	rewrites []rewrite
)

func resetBits() {
	digitsOf, rewrites = map[*Node][]*Node{}, nil
}

const maxDigits = 64

// digits gives the binary digits of p (least significant first) if it is bounded.
func digits(p *Node) []*Node {
	if d, ok := digitsOf[p]; ok {
		return d
	}
	lo, hi, ok := bounds(p)
	if !ok || lo == nil || hi == nil || lo.Sign() < 0 || hi.BitLen() > maxDigits || hi.Sign() == 0 {
		return nil
	}
	if _, c := constOf(p); c {
		return nil
	}
	n := hi.BitLen()
	if n == 1 {
		return nil
	}
	var ds []*Node
	ac := newAcc()
	bytewise := byteDigits(p)
	for i := 0; i < n; i++ {
		d := asInt(rawAtom(SInt, "digit", p, intNode(int64(i))))
		if bytewise != nil {
			d = bytewise[i]
		}
		ds = append(ds, d)
		ac.addScaled(d, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(i))))
	}
	digitsOf[p] = ds
	// p - sum = 0
	rel := rewriteAll(subInt(p, ac.node()))
	var pivot, by *Node
	for _, t := range rel.poly {
		if len(t.fac) != 1 || !isConst(t.fac[0].e, 1) || !t.c.IsInt() || new(big.Int).Abs(t.c.Num()).Cmp(big.NewInt(1)) != 0 {
			continue
		}
		a := t.fac[0].a
		if !soleTerm(rel, a) {
			continue
		}
		if pivot == nil || pivot.op == "digit" && (a.op != "digit" || a.id > pivot.id) {
			pivot = a
			rest := subInt(rel, termNode(t))
			if t.c.Sign() > 0 {
				rest = negInt(rest)
			}
			by = rest
		}
	}
	if pivot != nil {
		rewrites = append(rewrites, rewrite{pivot, by})
	}
	return ds
}

// byteDigits gives the digits of a number that was read from several bytes:
// those of its bytes.
func byteDigits(p *Node) []*Node {
	a := atomOf(p)
	if a == nil || a.kind != KAtom || a.op != "frombytes" {
		return nil
	}
	n, ok := constI(bytesLen(a.args[0]))
	if !ok || n < 2 {
		return nil
	}
	var ds []*Node
	for i := n - 1; i >= 0; i-- {
		b := fromBytes(subBytes(a.args[0], intNode(i), intNode(i+1)))
		d := digits(b)
		if len(d) != 8 {
			return nil
		}
		ds = append(ds, d...)
	}
	return ds
}

// soleTerm: a occurs in one term of p only.
func soleTerm(p, a *Node) bool {
	n := 0
	for _, t := range p.poly {
		for _, f := range t.fac {
			if f.a == a {
				n++
			}
		}
	}
	return n == 1
}

// rewriteAll applies the rewrite rules to the atoms of p and under reductions.
func rewriteAll(p *Node) *Node {
	if len(rewrites) == 0 {
		return p
	}
	for round := 0; round < 64; round++ {
		q := mapAtoms(p, func(a *Node) *Node {
			for _, r := range rewrites {
				if r.pivot == a {
					return r.by
				}
			}
			if a.kind == KAtom && a.op == "mod" {
				x := rewriteAll(a.args[0])
				if x != a.args[0] {
					return modInt(x, a.args[1])
				}
			}
			return nil
		})
		if q == p {
			return p
		}
		p = q
	}
	return p
}

func rewriteElem(E *Node) *Node {
	if len(rewrites) == 0 {
		return E
	}
	ch := false
	l := newLin(E.lin.grp)
	for _, e := range E.lin.ents {
		c := rewriteAll(e.coef)
		if c != e.coef {
			ch = true
		}
		l.addEnt(e.base, c)
	}
	if !ch {
		return E
	}
	return l.node()
}

// pow2 gives k if d is the constant 2^k with k > 0.
func pow2(d *Node) (int, bool) {
	c, ok := constOf(d)
	if !ok || c.Sign() <= 0 {
		return 0, false
	}
	k := c.BitLen() - 1
	if k == 0 || k > maxDigits || c.TrailingZeroBits() != uint(k) {
		return 0, false
	}
	return k, true
}

func sumDigits(ds []*Node) *Node {
	ac := newAcc()
	for i, d := range ds {
		ac.addScaled(d, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(i))))
	}
	return ac.node()
}
