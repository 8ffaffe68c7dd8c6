package main

import (
	"go/token"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call is one call of a modelled library function.
type call struct {
	in   *interp
	st   *state
	fn   *ssa.Function
	args []*Node
	pos  token.Pos
}

// lib holds the meaning of library functions, keyed by their full name.
var lib = map[string]func(*call) *Node{}

func (c *call) big(i int) *Node {
	v := c.in.load(c.st, c.args[i], c.pos)
	if v.kind == KUndef {
		return zero
	}
	return settle(c.st, asInt(v))
}

func (c *call) ret(i int, v *Node) *Node {
	if !feasible(c.st.cond) {
		return undef
	}
	c.in.store(c.st, c.args[i], v, c.pos)
	return c.args[i]
}

func (c *call) newBig(v *Node) *Node { return c.in.alloc(c.st, asInt(v)) }

func (c *call) int(i int) *Node { return asInt(c.args[i]) }

func (c *call) fail(f string, a ...any) {
	fail(f+" (at %s)", append(a, c.in.pos(c.pos))...)
}

// euclid gives Go's big.Int Div and Mod (Euclidean division).
func euclidMod(a, m *Node) *Node {
	if nonNeg(m) {
		return modInt(a, m)
	}
	if cm, ok := constOf(m); ok && cm.Sign() < 0 {
		return modInt(a, negInt(m))
	}
	return asInt(rawAtom(SInt, "emod", a, m))
}

func euclidDiv(a, m *Node) *Node {
	if nonNeg(m) {
		return divInt(a, m)
	}
	if cm, ok := constOf(m); ok && cm.Sign() < 0 {
		return negInt(divInt(a, negInt(m)))
	}
	return asInt(rawAtom(SInt, "ediv", a, m))
}

// signMod: m is known positive, possibly because it was assumed.
func (c *call) divisor(i int) *Node {
	m := c.big(i)
	c.in.panicIf(c.st, eq0(m), c.pos, "division by zero")
	return m
}

func expInt(c *call, x, y, m *Node) *Node {
	if m == nil || m == zero {
		if k, ok := constI(y); ok {
			if k <= 0 {
				return one
			}
			if len(x.poly) == 1 || k <= 64 {
				return powInt(x, y)
			}
		}
		if nonNeg(y) {
			return powInt(x, y)
		}
		return iteV(pos(negInt(y)), one, powInt(x, y))
	}
	if g := modpOf(m); g != nil {
		if e := modpElem(x, g); e != nil {
			return elInt(g, elemScale(e, y))
		}
	}
	if k, ok := constI(y); ok {
		if k == 0 {
			return modInt(one, m)
		}
		if k > 0 && (k <= 64 || len(x.poly) == 1) {
			return powModN(x, k, m)
		}
		if k < 0 && k >= -64 {
			return invMod(powModN(x, -k, m), m)
		}
	}
	if cx, ok := constOf(x); ok {
		if cy, ok := constOf(y); ok && cy.Sign() >= 0 {
			if cm, ok := constOf(m); ok && cm.Sign() > 0 {
				return bigNode(new(big.Int).Exp(cx, cy, cm))
			}
		}
	}
	if g := modpOf(m); g != nil && y == orderOf(g.grp) {
		// Euler's criterion
		j := jacobi(x, m)
		return addInt(j, mulInt(m, indOf(pos(negInt(j)))))
	}
	return asInt(rawAtom(SInt, "expmod", stripMod(x, m), y, m))
}

// powModN computes x^k mod m by repeated multiplication of residues.
func powModN(x *Node, k int64, m *Node) *Node {
	x = stripMod(x, m)
	if len(x.poly) <= 1 {
		return modInt(powInt(x, intNode(k)), m)
	}
	r := one
	for i := int64(0); i < k; i++ {
		r = stripMod(mulInt(r, x), m)
	}
	return modInt(r, m)
}

// ---- integers that represent elements of a safe-prime group

type modpGroup struct {
	grp *Node
	p   *big.Int
	gen *big.Int
}

var modpGroups = map[string]*modpGroup{}

func registerModp(p, gen *big.Int) *modpGroup {
	if g, ok := modpGroups[p.String()]; ok {
		return g
	}
	g := &modpGroup{grp: rawAtom(SGroup, "modp:"+p.Text(16)), p: p, gen: gen}
	q := new(big.Int).Rsh(new(big.Int).Sub(p, bigOne), 1)
	groupOrders[g.grp] = bigNode(q)
	modpGroups[p.String()] = g
	return g
}

func modpOf(m *Node) *modpGroup {
	c, ok := constOf(m)
	if !ok || c.BitLen() < 64 || len(modpGroups) == 0 {
		return nil
	}
	return modpGroups[c.String()]
}

// elInt is the integer that represents an element.
func elInt(g *modpGroup, E *Node) *Node {
	if len(E.lin.ents) == 0 {
		return one
	}
	if len(E.lin.ents) == 1 && E.lin.ents[0].base.op == "gen" {
		if k, ok := constOf(E.lin.ents[0].coef); ok && k.Sign() > 0 && k.BitLen() < 16 {
			v := new(big.Int).Exp(g.gen, k, nil)
			if v.Cmp(g.p) < 0 {
				return bigNode(v)
			}
		}
	}
	a := rawAtom(SInt, "el", E)
	atomLo[a] = bigOne
	atomUp[a] = new(big.Int).Sub(g.p, bigOne)
	return asInt(a)
}

// modpElem reads a product of represented elements back.
func modpElem(x *Node, g *modpGroup) *Node {
	if len(x.poly) != 1 {
		return nil
	}
	t := x.poly[0]
	if !t.c.IsInt() || t.c.Sign() <= 0 {
		return nil
	}
	E := elemZero(g.grp)
	if t.c.Num().Cmp(bigOne) != 0 {
		k, ok := ilogBig(t.c.Num(), g.gen)
		if !ok {
			return nil
		}
		E = elemScale(elemGen(g.grp), intNode(k))
	}
	for _, f := range t.fac {
		if f.a.kind != KAtom || f.a.op != "el" || f.a.args[0].lin.grp != g.grp {
			return nil
		}
		E = elemAdd(E, elemScale(f.a.args[0], f.e))
	}
	return E
}

func ilogBig(x, base *big.Int) (int64, bool) {
	if base.Cmp(bigOne) <= 0 {
		return 0, false
	}
	y := new(big.Int).Set(x)
	r := new(big.Int)
	var k int64
	for y.Cmp(bigOne) != 0 {
		y.QuoRem(y, base, r)
		if r.Sign() != 0 {
			return 0, false
		}
		k++
	}
	return k, true
}

// invInt is the modular inverse; a non-invertible argument is excluded by assumption.
func inverse(c *call, x, m *Node) *Node {
	if g := modpOf(m); g != nil {
		if e := modpElem(x, g); e != nil {
			return elInt(g, elemNeg(e))
		}
	}
	if cx, ok := constOf(x); ok {
		if cm, ok := constOf(m); ok {
			r := new(big.Int).ModInverse(cx, cm)
			if r == nil {
				c.fail("no inverse of %s", show(x))
			}
			return bigNode(r)
		}
	}
	return invMod(x, m)
}

func nilErr() *Node { return nilNode }

func init() {
	bin := func(f func(a, b *Node) *Node) func(*call) *Node {
		return func(c *call) *Node { return c.ret(0, f(c.big(1), c.big(2))) }
	}
	un := func(f func(a *Node) *Node) func(*call) *Node {
		return func(c *call) *Node { return c.ret(0, f(c.big(1))) }
	}
	L := func(n string, f func(*call) *Node) { lib["(*math/big.Int)."+n] = f }
	lib["math/big.NewInt"] = func(c *call) *Node { return c.newBig(c.int(0)) }
	L("Add", bin(addInt))
	L("Sub", bin(subInt))
	L("Mul", bin(mulInt))
	L("Set", un(func(a *Node) *Node { return a }))
	L("Neg", un(negInt))
	L("Abs", un(absInt))
	L("SetInt64", func(c *call) *Node { return c.ret(0, c.int(1)) })
	L("SetUint64", func(c *call) *Node { return c.ret(0, c.int(1)) })
	L("SetBytes", func(c *call) *Node {
		b := c.in.sliceBytes(c.st, c.args[1])
		return c.ret(0, lift(func(xs []*Node) *Node { return fromBytes(xs[0]) }, b))
	})
	// parse reads a number: its own text, a text fixed by the shape of the
	// data, or an unknown text that may or may not be a number.
	parse := func(c *call, text *Node, base int64) *Node {
		return c.in.split(c.st, text, func(st *state, text *Node) *Node {
			text = toBytes(text)
			set := func(v *Node) *Node {
				c.in.store(st, c.args[0], v, c.pos)
				return tuple(c.args[0], tt)
			}
			if s, ok := constBytes(text); ok {
				v, ok := new(big.Int).SetString(s, int(base))
				if !ok {
					return tuple(nilNode, ff)
				}
				return set(bigNode(v))
			}
			if len(text.segs) == 1 {
				t := text.segs[0]
				if t.op == "dec" && (base == 10 || base == 0) {
					return set(t.args[0])
				}
				if t.op == "text" && isConst(t.args[1], base) {
					return set(t.args[0])
				}
			}
			isNum := bddVar(rawAtom(SBool, "isnum", text, intNode(base)))
			v := asInt(rawAtom(SInt, "parsed", text, intNode(base)))
			set(v)
			return tuple(iteV(isNum, c.args[0], nilNode), mkBool(isNum))
		})
	}
	L("SetString", func(c *call) *Node { return parse(c, c.args[1], c.constInt(2)) })
	L("UnmarshalText", func(c *call) *Node {
		r := parse(c, c.in.sliceBytes(c.st, c.args[1]), 0)
		return mtMap(r, func(r *Node) *Node {
			if r.kind != KTuple {
				return r
			}
			return mkErr(bddNot(toBool(r.args[1])))
		})
	})
	L("Mod", func(c *call) *Node { x := c.big(1); m := c.divisor(2); return c.ret(0, euclidMod(x, m)) })
	L("Div", func(c *call) *Node { x := c.big(1); m := c.divisor(2); return c.ret(0, euclidDiv(x, m)) })
	L("Quo", func(c *call) *Node { x := c.big(1); m := c.divisor(2); return c.ret(0, truncDiv(x, m)) })
	L("Rem", func(c *call) *Node {
		x := c.big(1)
		m := c.divisor(2)
		if nonNeg(x) && nonNeg(m) {
			return c.ret(0, modInt(x, m))
		}
		return c.ret(0, subInt(x, mulInt(m, truncDiv(x, m))))
	})
	L("DivMod", func(c *call) *Node {
		x := c.big(1)
		m := c.divisor(2)
		q := c.ret(0, euclidDiv(x, m))
		return tuple(q, c.ret(3, euclidMod(x, m)))
	})
	L("QuoRem", func(c *call) *Node {
		x := c.big(1)
		m := c.divisor(2)
		var r *Node
		if nonNeg(x) && nonNeg(m) {
			r = modInt(x, m)
		} else {
			r = subInt(x, mulInt(m, truncDiv(x, m)))
		}
		q := c.ret(0, truncDiv(x, m))
		return tuple(q, c.ret(3, r))
	})
	L("Exp", func(c *call) *Node {
		x, y := c.big(1), c.big(2)
		var m *Node
		if c.args[3].kind == KNil {
			m = nil
		} else {
			m = c.big(3)
		}
		return c.ret(0, expInt(c, x, y, m))
	})
	L("ModInverse", func(c *call) *Node {
		x, m := c.big(1), c.big(2)
		return c.ret(0, inverse(c, x, m))
	})
	L("ModSqrt", func(c *call) *Node {
		x, m := c.big(1), c.big(2)
		ok := bddVar(rawAtom(SBool, "issquare", x, m))
		r := c.ret(0, asInt(rawAtom(SInt, "sqrt", x, m)))
		return iteV(ok, r, nilNode)
	})
	lib["math/big.Jacobi"] = func(c *call) *Node {
		x, m := c.big(0), c.big(1)
		if g := modpOf(m); g != nil {
			if modpElem(x, g) != nil {
				return one
			}
		}
		return jacobi(x, m)
	}
	L("Cmp", func(c *call) *Node { return sgnInt(subInt(c.big(0), c.big(1))) })
	L("CmpAbs", func(c *call) *Node { return sgnInt(subInt(absInt(c.big(0)), absInt(c.big(1)))) })
	L("Sign", func(c *call) *Node { return sgnInt(c.big(0)) })
	L("BitLen", func(c *call) *Node { return asInt(mkAtom(SInt, "bitlen", absInt(c.big(0)))) })
	L("Bit", func(c *call) *Node {
		x := c.big(0)
		i := c.int(1)
		return modInt(divInt(x, powInt(two, i)), two)
	})
	L("Lsh", func(c *call) *Node { return c.ret(0, mulInt(c.big(1), powInt(two, c.int(2)))) })
	L("Rsh", func(c *call) *Node { return c.ret(0, divInt(c.big(1), powInt(two, c.int(2)))) })
	L("SetBit", func(c *call) *Node {
		x := c.big(1)
		w := powInt(two, c.int(2))
		bit := modInt(divInt(x, w), two)
		return c.ret(0, addInt(x, mulInt(w, subInt(asInt(c.args[3]), bit))))
	})
	L("Not", func(c *call) *Node { return c.ret(0, subInt(intNode(-1), c.big(1))) })
	L("Sqrt", func(c *call) *Node {
		k, ok := constOf(c.big(1))
		if !ok || k.Sign() < 0 {
			c.fail("square root of a value not fixed by the shape of the data")
		}
		return c.ret(0, bigNode(new(big.Int).Sqrt(k)))
	})
	L("TrailingZeroBits", func(c *call) *Node {
		k, ok := constOf(c.big(0))
		if !ok {
			c.fail("trailing zeroes of a value not fixed by the shape of the data")
		}
		return intNode(int64(k.TrailingZeroBits()))
	})
	bitop := func(op token.Token) func(*call) *Node {
		return func(c *call) *Node {
			a, b := c.big(1), c.big(2)
			ca, ok1 := constOf(a)
			cb, ok2 := constOf(b)
			if ok1 && ok2 {
				r := new(big.Int)
				switch op {
				case token.AND:
					r.And(ca, cb)
				case token.OR:
					r.Or(ca, cb)
				default:
					r.Xor(ca, cb)
				}
				return c.ret(0, bigNode(r))
			}
			if op == token.AND {
				if ok1 {
					a, cb, ok2 = b, ca, true
				}
				if ok2 && cb.Sign() >= 0 {
					m := new(big.Int).Add(cb, bigOne)
					if _, ok := ilog(m, 2); ok {
						return c.ret(0, modInt(a, bigNode(m)))
					}
				}
			}
			if a.id > b.id {
				a, b = b, a
			}
			return c.ret(0, asInt(rawAtom(SInt, "bits"+op.String(), a, b)))
		}
	}
	L("And", bitop(token.AND))
	L("Or", bitop(token.OR))
	L("Xor", bitop(token.XOR))
	L("Bytes", func(c *call) *Node { return c.in.bytesAsSlice(c.st, minBytes(absInt(narrow(c.st, c.big(0))))) })
	L("FillBytes", func(c *call) *Node {
		x := absInt(narrow(c.st, c.big(0)))
		s := c.args[1]
		if s.kind == KNil {
			c.in.panicIf(c.st, bddNot(eq0(x)), c.pos, "math/big: buffer too small")
			return s
		}
		if s.kind != KSlice {
			c.fail("FillBytes into %s", show(s))
		}
		n := s.args[2]
		k, ok := constI(n)
		if !ok {
			c.fail("FillBytes into a buffer of unknown size")
		}
		lim := new(big.Int).Lsh(bigOne, uint(8*k))
		c.in.panicIf(c.st, bddNot(pos(subInt(bigNode(lim), x))), c.pos, "math/big: buffer too small")
		if !feasible(c.st.cond) {
			return undef
		}
		cur := c.in.loadLeaf(c.st, s.args[0])
		nw := lift(func(xs []*Node) *Node { return replaceBytes(xs[0], s.args[1], beBytes(x, n)) }, cur)
		c.in.store(c.st, s.args[0], nw, c.pos)
		return s
	})
	L("String", func(c *call) *Node {
		return c.in.split(c.st, c.args[0], func(s *state, n *Node) *Node {
			if n.kind == KNil {
				return strNode("<nil>")
			}
			return decStr(asInt(c.in.load(s, n, c.pos)))
		})
	})
	L("Text", func(c *call) *Node {
		if isConst(c.args[1], 10) {
			return decStr(c.big(0))
		}
		x := c.big(0)
		if cx, ok := constOf(x); ok {
			if b, ok := constI(c.args[1]); ok {
				return strNode(cx.Text(int(b)))
			}
		}
		return bytesOf(rawAtom(SBytes, "text", x, c.args[1]))
	})
	L("Append", func(c *call) *Node {
		if !isConst(c.args[2], 10) {
			c.fail("digits in a base other than ten")
		}
		b := cat(c.in.sliceBytes(c.st, c.args[1]), decStr(c.big(0)))
		return c.in.bytesAsSlice(c.st, b)
	})
	L("Int64", func(c *call) *Node { return wrapInt("int64", c.big(0)) })
	L("Uint64", func(c *call) *Node { return wrapInt("uint64", c.big(0)) })
	isIn := func(t string) func(*call) *Node {
		return func(c *call) *Node {
			lo, hi := typeRange(t)
			x := c.big(0)
			return mkBool(bddAnd(bddNot(pos(subInt(bigNode(lo), x))), bddNot(pos(subInt(x, bigNode(hi))))))
		}
	}
	L("IsInt64", isIn("int64"))
	L("IsUint64", isIn("uint64"))
	L("ProbablyPrime", func(c *call) *Node {
		if x, ok := constOf(c.big(0)); ok {
			if x.ProbablyPrime(20) {
				return tt
			}
			return ff
		}
		return mkBool(bddVar(rawAtom(SBool, "prime", c.big(0))))
	})
	L("MarshalJSON", func(c *call) *Node {
		return c.in.split(c.st, c.args[0], func(s *state, n *Node) *Node {
			if n.kind == KNil {
				return tuple(c.in.bytesAsSlice(s, jsonBytes(jNull)), nilNode)
			}
			return tuple(c.in.bytesAsSlice(s, jsonBytes(mkStruct("jnum", asInt(c.in.load(s, n, c.pos))))), nilNode)
		})
	})
	L("UnmarshalJSON", func(c *call) *Node {
		b := c.in.sliceBytes(c.st, c.args[1])
		return c.in.split(c.st, b, func(s *state, n *Node) *Node {
			t := jsonTree(n)
			return c.in.split(s, t, func(s *state, t *Node) *Node {
				cc := &call{in: c.in, st: s, args: c.args, pos: c.pos}
				switch {
				case t.kind == KStruct && t.op == "jnum":
					cc.ret(0, t.args[0])
					return nilNode
				case t == jNull:
					return nilNode
				case t.kind == KStruct && t.op == "jraw":
					src := t.args[0]
					e := bddVar(rawAtom(SBool, "jnumerr", src))
					cur := cc.big(0)
					nul := bddVar(rawAtom(SBool, "jnull", src))
					cc.ret(0, iteV(bddOr(e, nul), cur, asInt(rawAtom(SInt, "jint", src))))
					return mkErr(e)
				}
				return mkErr(bddT)
			})
		})
	})
	L("GCD", func(c *call) *Node {
		a, ok := constOf(c.big(3))
		b, ok2 := constOf(c.big(4))
		if !ok || !ok2 || c.args[1].kind != KNil || c.args[2].kind != KNil {
			c.fail("greatest common divisor of values not fixed by the shape of the data")
		}
		return c.ret(0, bigNode(new(big.Int).GCD(nil, nil, a, b)))
	})
}

func absInt(x *Node) *Node {
	if nonNeg(x) {
		return x
	}
	if cx, ok := constOf(x); ok {
		return bigNode(new(big.Int).Abs(cx))
	}
	return iteV(pos(negInt(x)), negInt(x), x)
}

// minBytes is the minimal big-endian encoding.
func minBytes(x *Node) *Node {
	if cx, ok := constOf(x); ok {
		return strNode(string(cx.Bytes()))
	}
	if k, ok := splitIndex(x); ok {
		return iteV(k.c, minBytes(k.hi), minBytes(k.lo))
	}
	return bytesOf(rawAtom(SBytes, "minb", x))
}

// beBytes is the big-endian encoding of fixed width.
func beBytes(x, n *Node) *Node {
	if cx, ok := constOf(x); ok {
		if k, ok := constI(n); ok && (cx.BitLen()+7)/8 <= int(k) {
			return strNode(strings.Repeat("\x00", int(k)-len(cx.Bytes())) + string(cx.Bytes()))
		}
	}
	if k, ok := splitIndex(x); ok {
		return iteV(k.c, beBytes(k.hi, n), beBytes(k.lo, n))
	}
	return bytesOf(rawAtom(SBytes, "be", x, n))
}

// jacobi is the Jacobi symbol.
func jacobi(x, m *Node) *Node {
	if k, ok := splitIndex(x); ok {
		return iteV(k.c, jacobi(k.hi, m), jacobi(k.lo, m))
	}
	if cx, ok := constOf(x); ok {
		if cm, ok := constOf(m); ok && cm.Bit(0) == 1 {
			return intNode(int64(big.Jacobi(cx, cm)))
		}
	}
	a := rawAtom(SInt, "jacobi", stripMod(x, m), m)
	atomLo[a], atomUp[a] = big.NewInt(-1), bigOne
	return asInt(a)
}
