package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Polynomials over Int atoms with rational coefficients and Int exponents.
type fac struct{ a, e *Node }

type pterm struct {
	c   *big.Rat
	fac []fac
	key string
}

func facKey(fs []fac) string {
	var sb strings.Builder
	for i, f := range fs {
		if i > 0 {
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(f.a.id))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(f.e.id))
	}
	return sb.String()
}

type acc struct{ m map[string]*pterm }

func newAcc() *acc { return &acc{m: map[string]*pterm{}} }

func (a *acc) addTerm(c *big.Rat, fs []fac) {
	k := facKey(fs)
	if t, ok := a.m[k]; ok {
		t.c = new(big.Rat).Add(t.c, c)
		return
	}
	a.m[k] = &pterm{c: new(big.Rat).Set(c), fac: fs, key: k}
}

func (a *acc) add(n *Node) {
	for _, t := range n.poly {
		a.addTerm(t.c, t.fac)
	}
}

func (a *acc) addScaled(n *Node, s *big.Rat) {
	for _, t := range n.poly {
		a.addTerm(new(big.Rat).Mul(t.c, s), t.fac)
	}
}

func (a *acc) node() *Node {
	var ts []pterm
	for _, t := range a.m {
		if t.c.Sign() != 0 {
			ts = append(ts, *t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].key < ts[j].key })
	var sb strings.Builder
	sb.WriteString("p:")
	for _, t := range ts {
		sb.WriteString(t.c.RatString())
		sb.WriteByte('.')
		sb.WriteString(t.key)
		sb.WriteByte('+')
	}
	return intern(sb.String(), func() *Node {
		n := &Node{kind: KInt, sort: SInt, poly: ts}
		var sub []*Node
		for _, t := range ts {
			for _, f := range t.fac {
				sub = append(sub, f.a, f.e)
			}
		}
		n.vars = mergeVars(sub...)
		return n
	})
}

func ratNode(r *big.Rat) *Node {
	a := newAcc()
	a.addTerm(r, nil)
	return a.node()
}

func bigNode(x *big.Int) *Node { return ratNode(new(big.Rat).SetInt(x)) }
func intNode(x int64) *Node    { return ratNode(new(big.Rat).SetInt64(x)) }

var (
	zero = intNode(0)
	one  = intNode(1)
	two  = intNode(2)
)

// constOf returns the integer value of a constant.
func constOf(n *Node) (*big.Int, bool) {
	if n == nil || n.kind != KInt {
		return nil, false
	}
	if len(n.poly) == 0 {
		return new(big.Int), true
	}
	if len(n.poly) == 1 && len(n.poly[0].fac) == 0 && n.poly[0].c.IsInt() {
		return new(big.Int).Set(n.poly[0].c.Num()), true
	}
	return nil, false
}

func constI(n *Node) (int64, bool) {
	c, ok := constOf(n)
	if !ok || !c.IsInt64() {
		return 0, false
	}
	return c.Int64(), true
}

func isConst(n *Node, k int64) bool {
	c, ok := constI(n)
	return ok && c == k
}

// asInt makes an Int value from an atom.
func asInt(a *Node) *Node {
	if a.kind == KInt {
		return a
	}
	if a.kind == KBool {
		return indOf(a.b)
	}
	if a.kind != KAtom && a.kind != KVar {
		fail("not an integer: %s", show(a))
	}
	if a.sort != SInt {
		fail("not an integer atom: %s", show(a))
	}
	ac := newAcc()
	ac.addTerm(big.NewRat(1, 1), []fac{{a, one}})
	return ac.node()
}

// atomOf returns the atom of a value that is exactly one atom.
func atomOf(n *Node) *Node {
	if n.kind == KInt && len(n.poly) == 1 {
		t := n.poly[0]
		if len(t.fac) == 1 && t.c.Cmp(big.NewRat(1, 1)) == 0 && isConst(t.fac[0].e, 1) {
			return t.fac[0].a
		}
	}
	return nil
}

func addInt(a, b *Node) *Node {
	ac := newAcc()
	ac.add(asInt(a))
	ac.add(asInt(b))
	return ac.node()
}

func subInt(a, b *Node) *Node {
	ac := newAcc()
	ac.add(asInt(a))
	ac.addScaled(asInt(b), big.NewRat(-1, 1))
	return ac.node()
}

func negInt(a *Node) *Node { return subInt(zero, a) }

func scaleRat(a *Node, r *big.Rat) *Node {
	ac := newAcc()
	ac.addScaled(a, r)
	return ac.node()
}

// isIdem: atoms that only take the values 0 and 1.
func isIdem(a *Node) bool {
	if a.kind != KAtom {
		return false
	}
	if a.op == "ind" {
		return true
	}
	return a.op == "bit" || a.op == "digit" || a.op == "mod" && isConst(a.args[1], 2)
}

func mulFacs(x, y []fac) (*big.Rat, []fac, bool) {
	c := big.NewRat(1, 1)
	exps := map[*Node]*Node{}
	var order []*Node
	for _, f := range append(append([]fac(nil), x...), y...) {
		if e, ok := exps[f.a]; ok {
			exps[f.a] = addInt(e, f.e)
		} else {
			exps[f.a] = f.e
			order = append(order, f.a)
		}
	}
	var out []fac
	for _, a := range order {
		e := exps[a]
		if e == zero {
			continue
		}
		if isIdem(a) {
			if k, ok := constI(e); ok && k > 0 {
				e = one
			}
		}
		if a.op == "cb" { // constant base: take out the constant part of the exponent
			base, _ := constOf(a.args[0])
			rest, k := splitConst(e)
			if k != 0 {
				p := new(big.Int).Exp(base, big.NewInt(abs64(k)), nil)
				if k > 0 {
					c.Mul(c, new(big.Rat).SetInt(p))
				} else {
					c.Quo(c, new(big.Rat).SetInt(p))
				}
			}
			e = rest
			if e == zero {
				continue
			}
		}
		out = append(out, fac{a, e})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].a.id < out[j].a.id })
	// complementary indicator atoms
	return c, out, false
}

func abs64(k int64) int64 {
	if k < 0 {
		return -k
	}
	return k
}

func splitConst(e *Node) (*Node, int64) {
	for _, t := range e.poly {
		if len(t.fac) == 0 && t.c.IsInt() && t.c.Num().IsInt64() && abs64(t.c.Num().Int64()) < 100000 {
			k := t.c.Num().Int64()
			return subInt(e, intNode(k)), k
		}
	}
	return e, 0
}

func mulInt(a, b *Node) *Node {
	a, b = asInt(a), asInt(b)
	if a == one {
		return b
	}
	if b == one {
		return a
	}
	if len(a.poly)*len(b.poly) > 20000 {
		fail("polynomial too large: %d × %d: %.200s × %.200s", len(a.poly), len(b.poly), show(a), show(b))
	}
	ac := newAcc()
	for _, s := range a.poly {
		for _, t := range b.poly {
			c, fs, _ := mulFacs(s.fac, t.fac)
			c.Mul(c, s.c)
			c.Mul(c, t.c)
			ac.addTerm(c, fs)
		}
	}
	return ac.node()
}

// powInt is b^e for an exponent of any form.
func powInt(b, e *Node) *Node {
	b, e = asInt(b), asInt(e)
	if e == zero {
		return one
	}
	if e == one {
		return b
	}
	if b == one || b == zero {
		return b
	}
	k, isK := constI(e)
	if len(b.poly) == 1 {
		t := b.poly[0]
		var fs []fac
		for _, f := range t.fac {
			fs = append(fs, fac{f.a, mulInt(f.e, e)})
		}
		c, fs, _ := mulFacs(fs, nil)
		if t.c.Cmp(big.NewRat(1, 1)) != 0 {
			if isK && abs64(k) < 5000 {
				p := big.NewRat(1, 1)
				base := t.c
				if k < 0 {
					base = new(big.Rat).Inv(base)
				}
				num := new(big.Int).Exp(base.Num(), big.NewInt(abs64(k)), nil)
				den := new(big.Int).Exp(base.Denom(), big.NewInt(abs64(k)), nil)
				p.SetFrac(num, den)
				c.Mul(c, p)
			} else if t.c.IsInt() && t.c.Sign() > 0 {
				cc, fs2, _ := mulFacs(fs, []fac{{constBase(t.c.Num()), e}})
				c.Mul(c, cc)
				fs = fs2
			} else {
				return asInt(rawAtom(SInt, "pow", b, e))
			}
		}
		ac := newAcc()
		ac.addTerm(c, fs)
		return ac.node()
	}
	if isK && k > 0 && k <= 8 {
		r := b
		for i := int64(1); i < k; i++ {
			r = mulInt(r, b)
		}
		return r
	}
	ac := newAcc()
	ac.addTerm(big.NewRat(1, 1), []fac{{rawAtom(SInt, "base", b), e}})
	return ac.node()
}

func constBase(x *big.Int) *Node {
	// perfect powers of two share the base 2
	return rawAtom(SInt, "cb", bigNode(x))
}

// mapAtoms rebuilds a polynomial with every atom replaced by f(atom).
func mapAtoms(n *Node, f func(*Node) *Node) *Node {
	ch := false
	ac := newAcc()
	for _, t := range n.poly {
		tch := false
		p := ratNode(t.c)
		for _, x := range t.fac {
			r := f(x.a)
			if r == nil {
				p = mulInt(p, powInt(asInt(x.a), x.e))
				continue
			}
			tch = true
			p = mulInt(p, powInt(r, x.e))
		}
		if tch {
			ch = true
			ac.add(p)
		} else {
			ac.addTerm(t.c, t.fac)
		}
	}
	if !ch {
		return n
	}
	return ac.node()
}

// stripMod removes reductions modulo m that do not matter to the value modulo m.
func stripMod(p, m *Node) *Node {
	p = asInt(p)
	k := [2]int{p.id, m.id}
	if r, ok := stripMemo[k]; ok {
		return r
	}
	r := stripMod1(p, m)
	stripMemo[k] = r
	stripMemo[[2]int{r.id, m.id}] = r
	return r
}

var stripMemo = map[[2]int]*Node{}

func stripMod1(p, m *Node) *Node {
	ma := atomOf(m)
	for round := 0; round < 50; round++ {
		q := p
		if ma != nil {
			// multiples of the modulus vanish
			ac := newAcc()
			for _, t := range q.poly {
				drop := false
				if t.c.IsInt() {
					for _, f := range t.fac {
						if f.a == ma {
							if k, ok := constI(f.e); ok && k > 0 {
								drop = true
							}
						}
					}
				}
				if !drop {
					ac.addTerm(t.c, t.fac)
				}
			}
			q = ac.node()
		}
		q = mapAtoms(q, func(a *Node) *Node {
			if a.kind != KAtom {
				return nil
			}
			switch a.op {
			case "mod":
				if a.args[1] == m {
					return a.args[0]
				}
			case "base":
				b2 := stripMod(a.args[0], m)
				if b2 != a.args[0] {
					if len(b2.poly) == 1 {
						return b2
					}
					return asInt(rawAtom(SInt, "base", b2))
				}
			}
			return nil
		})
		if q == p {
			break
		}
		p = q
	}
	if mc, ok := constOf(m); ok && mc.Sign() > 0 {
		half := new(big.Int).Rsh(mc, 1)
		ac := newAcc()
		for _, t := range p.poly {
			if t.c.IsInt() {
				r := new(big.Int).Mod(t.c.Num(), mc)
				if r.Cmp(half) > 0 { // symmetric residues, so that negation keeps its shape
					r.Sub(r, mc)
				}
				ac.addTerm(new(big.Rat).SetInt(r), t.fac)
			} else {
				ac.addTerm(t.c, t.fac)
			}
		}
		p = ac.node()
	}
	return p
}

func modInt(p, m *Node) *Node {
	p, m = asInt(p), asInt(m)
	if within(p, zero, m) {
		return p
	}
	p0 := p
	p = stripMod(p, m)
	if g := modpOf(m); g != nil {
		if _, isC := constOf(p); !isC {
			if e := modpElem(p, g); e != nil {
				return elInt(g, e)
			}
		}
	}
	if c, ok := constOf(p); ok {
		if mc, ok := constOf(m); ok && mc.Sign() > 0 {
			return bigNode(new(big.Int).Mod(c, mc))
		}
		if c.Sign() == 0 || c.Cmp(big.NewInt(1)) == 0 {
			return p
		}
	}
	if within(p, zero, m) {
		return p
	}
	if _, lo, ok := splitBytes(p0, m); ok {
		return lo
	}
	if k, ok := pow2(m); ok {
		if ds := digits(p0); ds != nil {
			return sumDigits(ds[:min(k, len(ds))])
		}
	}
	return asInt(rawAtom(SInt, "mod", p, m))
}

// within tells whether lo <= p < hi is known.
func within(p, lo, hi *Node) bool {
	if p == lo {
		return true
	}
	if a := atomOf(p); a != nil && a.kind == KAtom && lo == zero {
		if a.op == "rand" && a.args[1] == hi {
			return true
		}
		if a.op == "mod" && a.args[1] == hi {
			return true
		}
		if b := atomHi[a]; b != nil && b == hi {
			return true
		}
	}
	l, h, ok := bounds(p)
	if !ok || l == nil || h == nil {
		return false
	}
	ll, lh, ok := bounds(lo)
	_ = ll
	if !ok || lh == nil || l.Cmp(lh) < 0 {
		return false
	}
	hl, _, ok := bounds(hi)
	if !ok || hl == nil {
		return false
	}
	return h.Cmp(hl) < 0
}

// atomHi: symbolic exclusive upper bounds of input atoms.
var atomHi = map[*Node]*Node{}

// atomLo, atomUp: constant bounds (inclusive) of input atoms.
var atomLo, atomUp = map[*Node]*big.Int{}, map[*Node]*big.Int{}

func atomBounds(a *Node) (lo, hi *big.Int) {
	if l, ok := atomLo[a]; ok {
		lo = l
	}
	if h, ok := atomUp[a]; ok {
		hi = h
	}
	if lo != nil || hi != nil {
		return
	}
	if a.kind != KAtom {
		return nil, nil
	}
	z := new(big.Int)
	switch a.op {
	case "ind", "bit", "digit":
		return z, big.NewInt(1)
	case "mod", "rand":
		_, h, ok := bounds(a.args[1])
		if ok && h != nil {
			return z, new(big.Int).Sub(h, big.NewInt(1))
		}
		return z, nil
	case "frombytes":
		_, h, ok := bounds(bytesLen(a.args[0]))
		if ok && h != nil && h.IsInt64() && h.Int64() < 1<<20 {
			return z, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*h.Int64())), big.NewInt(1))
		}
		return z, nil
	case "uint":
		return z, big.NewInt(255)
	case "xc0", "yc0":
		if fp, ok := fieldOrders[a.args[0].lin.grp.op]; ok {
			return z, new(big.Int).Sub(fp, big.NewInt(1))
		}
		return z, nil
	case "N", "P":
		return big.NewInt(2), nil
	case "bitlen", "bytelen":
		l, h, ok := bounds(a.args[0])
		if ok && h != nil && (l == nil || h.CmpAbs(l) >= 0) {
			n := int64(h.BitLen())
			if a.op == "bytelen" {
				n = (n + 7) / 8
			}
			return z, big.NewInt(n)
		}
		return z, nil
	case "len", "blen", "fabs":
		return z, nil
	case "sgn":
		return big.NewInt(-1), big.NewInt(1)
	case "div":
		l, h, ok := bounds(a.args[0])
		dl, _, dok := bounds(a.args[1])
		if ok && dok && l != nil && l.Sign() >= 0 && dl != nil && dl.Sign() > 0 {
			if h != nil {
				return z, new(big.Int).Div(h, dl)
			}
			return z, nil
		}
	}
	if strings.HasPrefix(a.op, "wrap:") {
		return typeRange(a.op[5:])
	}
	return nil, nil
}

var fieldOrders = map[string]*big.Int{}

type bnd struct {
	lo, hi *big.Int
	ok     bool
}

var boundMemo = map[*Node]bnd{}

// bounds gives constant bounds (inclusive, nil if unbounded) of an Int value.
func bounds(p *Node) (lo, hi *big.Int, ok bool) {
	p = asInt(p)
	if b, ok := boundMemo[p]; ok {
		return b.lo, b.hi, b.ok
	}
	lo, hi, ok = bounds1(p)
	if ind := fewInds(p); ind != nil {
		// cases on an indicator are tighter than the sum of the extremes
		l1, h1, ok1 := bounds(subst(p, map[*Node]*Node{ind: one}))
		l0, h0, ok0 := bounds(subst(p, map[*Node]*Node{ind: zero}))
		if ok1 && ok0 {
			ok, lo, hi = true, nil, nil
			if l1 != nil && l0 != nil {
				lo = l1
				if l0.Cmp(l1) < 0 {
					lo = l0
				}
			}
			if h1 != nil && h0 != nil {
				hi = h1
				if h0.Cmp(h1) > 0 {
					hi = h0
				}
			}
		}
	}
	boundMemo[p] = bnd{lo, hi, ok}
	return
}

// fewInds gives an indicator of p if it has only a few.
func fewInds(p *Node) *Node {
	if len(p.poly) > 24 {
		return nil
	}
	set := map[*Node]bool{}
	var first *Node
	prod := false
	for _, t := range p.poly {
		for _, f := range t.fac {
			if f.a.kind == KAtom && f.a.op == "ind" {
				if first == nil || f.a.id < first.id {
					first = f.a
				}
				set[f.a] = true
				if len(t.fac) > 1 {
					prod = true
				}
			}
		}
	}
	if !prod || len(set) > 4 {
		return nil
	}
	return first
}

func bounds1(p *Node) (*big.Int, *big.Int, bool) {
	lo, hi := new(big.Int), new(big.Int)
	for _, t := range p.poly {
		if !t.c.IsInt() {
			return nil, nil, false
		}
		// product of the factors
		tl, th := big.NewInt(1), big.NewInt(1)
		for _, f := range t.fac {
			e, ok := constI(f.e)
			var fl, fh *big.Int
			if f.a.op == "cb" {
				el, eh, eok := bounds(f.e)
				if !eok || el == nil || el.Sign() < 0 || !el.IsInt64() || el.Int64() > 20000 {
					return nil, nil, false
				}
				base, _ := constOf(f.a.args[0])
				fl = new(big.Int).Exp(base, el, nil)
				if eh != nil && eh.IsInt64() && eh.Int64() < 20000 {
					fh = new(big.Int).Exp(base, eh, nil)
				}
			} else {
				if !ok || e <= 0 || e > 64 {
					return nil, nil, false
				}
				fl, fh = atomBounds(f.a)
				if fl == nil && fh == nil {
					return nil, nil, false
				}
				if e > 1 {
					if fl == nil || fl.Sign() < 0 {
						return nil, nil, false
					}
					fl = new(big.Int).Exp(fl, big.NewInt(e), nil)
					if fh != nil {
						fh = new(big.Int).Exp(fh, big.NewInt(e), nil)
					}
				}
			}
			if tl != nil && tl.Sign() >= 0 && fl != nil && fl.Sign() >= 0 {
				tl = new(big.Int).Mul(tl, fl)
				if th != nil && fh != nil {
					th = new(big.Int).Mul(th, fh)
				} else {
					th = nil
				}
				continue
			}
			// signed products: all four corners
			if tl == nil || th == nil || fl == nil || fh == nil {
				return nil, nil, false
			}
			c := []*big.Int{new(big.Int).Mul(tl, fl), new(big.Int).Mul(tl, fh), new(big.Int).Mul(th, fl), new(big.Int).Mul(th, fh)}
			tl, th = c[0], c[0]
			for _, x := range c[1:] {
				if x.Cmp(tl) < 0 {
					tl = x
				}
				if x.Cmp(th) > 0 {
					th = x
				}
			}
		}
		k := t.c.Num()
		sl, sh := tl, th
		if sl != nil {
			sl = new(big.Int).Mul(sl, k)
		}
		if sh != nil {
			sh = new(big.Int).Mul(sh, k)
		}
		if k.Sign() < 0 {
			sl, sh = sh, sl
		}
		if lo != nil && sl != nil {
			lo = new(big.Int).Add(lo, sl)
		} else {
			lo = nil
		}
		if hi != nil && sh != nil {
			hi = new(big.Int).Add(hi, sh)
		} else {
			hi = nil
		}
	}
	return lo, hi, true
}

func termNode(t pterm) *Node {
	ac := newAcc()
	ac.addTerm(t.c, t.fac)
	return ac.node()
}

// exactDiv divides by a monomial if the result is a polynomial with integer coefficients.
func exactDiv(p, m *Node) (*Node, bool) {
	if len(m.poly) != 1 {
		return nil, false
	}
	ac := newAcc()
	for _, t := range p.poly {
		c := new(big.Rat).Quo(t.c, m.poly[0].c)
		if !c.IsInt() {
			return nil, false
		}
		var inv []fac
		for _, f := range m.poly[0].fac {
			inv = append(inv, fac{f.a, negInt(f.e)})
			found := false
			for _, g := range t.fac {
				if g.a == f.a {
					found = true
				}
			}
			if !found {
				return nil, false
			}
		}
		cc, fs, _ := mulFacs(t.fac, inv)
		cc.Mul(cc, c)
		for _, g := range fs {
			if k, ok := constI(g.e); ok && k < 0 {
				return nil, false
			}
		}
		ac.addTerm(cc, fs)
	}
	return ac.node(), true
}

// divInt is floor division (Euclidean for positive divisors).
func divInt(p, d *Node) *Node {
	p, d = asInt(p), asInt(d)
	if d == one {
		return p
	}
	if pc, ok := constOf(p); ok {
		if dc, ok := constOf(d); ok && dc.Sign() != 0 {
			return bigNode(new(big.Int).Div(pc, dc))
		}
		if pc.Sign() == 0 {
			return zero
		}
	}
	if p == d {
		return one
	}
	if dc, ok := constOf(d); ok && dc.Sign() > 0 {
		q, r := newAcc(), newAcc()
		for _, t := range p.poly {
			if t.c.IsInt() && new(big.Int).Mod(t.c.Num(), dc).Sign() == 0 {
				q.addTerm(new(big.Rat).SetInt(new(big.Int).Div(t.c.Num(), dc)), t.fac)
			} else {
				r.addTerm(t.c, t.fac)
			}
		}
		rn := r.node()
		if within(rn, zero, d) {
			return q.node()
		}
		if len(rn.poly) < len(p.poly) {
			return addInt(q.node(), divInt(rn, d))
		}
	} else if q, ok := exactDiv(p, d); ok {
		return q
	}
	if within(p, zero, d) {
		return zero
	}
	// (x/a)/b = x/(a*b)
	if a := atomOf(p); a != nil && a.kind == KAtom && a.op == "div" {
		return divInt(a.args[0], mulInt(a.args[1], d))
	}
	if hi, _, ok := splitBytes(p, d); ok {
		return hi
	}
	if c, ok := constOf(d); ok && c.BitLen() > 8 && c.TrailingZeroBits() == uint(c.BitLen()-1) {
		// leave out whole bytes first
		k := uint(c.BitLen() - 1)
		if hi, _, ok := splitBytes(p, bigNode(new(big.Int).Lsh(big.NewInt(1), k-k%8))); ok {
			return divInt(hi, bigNode(new(big.Int).Lsh(big.NewInt(1), k%8)))
		}
	}
	if k, ok := pow2(d); ok {
		if ds := digits(p); ds != nil {
			return sumDigits(ds[min(k, len(ds)):])
		}
	}
	return asInt(rawAtom(SInt, "div", p, d))
}

// splitBytes splits a number read from a byte string of known length at a
// byte boundary.
func splitBytes(p, d *Node) (hi, lo *Node, ok bool) {
	a := atomOf(p)
	if a == nil || a.kind != KAtom || a.op != "frombytes" {
		return nil, nil, false
	}
	c, isC := constOf(d)
	if !isC || c.Sign() <= 0 {
		return nil, nil, false
	}
	k := c.BitLen() - 1
	if k%8 != 0 || c.TrailingZeroBits() != uint(k) {
		return nil, nil, false
	}
	n, isN := constI(bytesLen(a.args[0]))
	if !isN || n <= int64(k/8) {
		return nil, nil, false
	}
	at := intNode(n - int64(k/8))
	return fromBytes(subBytes(a.args[0], zero, at)), fromBytes(subBytes(a.args[0], at, intNode(n))), true
}

func ilog(x *big.Int, base int64) (int64, bool) {
	if x.Sign() <= 0 {
		return 0, false
	}
	y := new(big.Int).Set(x)
	b := big.NewInt(base)
	r := new(big.Int)
	var k int64
	for y.Cmp(big.NewInt(1)) != 0 {
		y.QuoRem(y, b, r)
		if r.Sign() != 0 {
			return 0, false
		}
		k++
	}
	return k, true
}

func invMod(x, m *Node) *Node { return modInt(powInt(stripMod(x, m), intNode(-1)), m) }
