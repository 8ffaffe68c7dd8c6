package main

import (
	"math/big"
)

// Abstract groups: a group known only through its interface. Elements are
// linear combinations of atoms over the ring of integers modulo the order.

// mkGroup makes a group value. Curve-like groups start new elements at the identity.
func (in *interp) mkGroup(st *state, name string, order, field *Node, ff bool) *Node {
	op := "g:" + name
	if ff {
		op = "f:" + name
	}
	grp := rawAtom(SGroup, op)
	if g, ok := in.groups[grp]; ok {
		return g
	}
	if order != nil {
		groupOrders[grp] = order
	}
	if field == nil {
		field = asInt(rawAtom(SInt, "P", grp))
	}
	g := rawKind(KIface, "!group", grp, in.alloc(st, orderOf(grp)), in.alloc(st, field))
	in.groups[grp] = g
	return g
}

func mkElem(c *call, E *Node) *Node { return rawKind(KIface, "!elem", c.in.alloc(c.st, E)) }

// elem reads an element operand; a foreign one makes the operation panic.
func (c *call) elem(i int, grp *Node) *Node {
	var out *Node
	care := c.st.cond
	for _, lf := range leaves(c.st.cond, c.args[i]) {
		cond := bddRestrict(lf.c, care)
		var v *Node
		if lf.n.kind == KIface && lf.n.op == "!elem" {
			v = c.in.load(c.st, lf.n.args[0], c.pos)
		}
		if v != nil && v.kind == KMT {
			c.fail("element not in normal form")
		}
		if v == nil || v.kind != KElem || grp != nil && v.lin.grp != grp {
			c.in.panicIf(c.st, cond, c.pos, "incompatible group element")
			continue
		}
		if out == nil {
			out = v
		} else {
			out = iteV(cond, v, out)
		}
	}
	return out
}

func (c *call) self() (*Node, *Node) {
	E := c.elem(0, nil)
	if E == nil {
		return nil, nil
	}
	return E, E.lin.grp
}

func (c *call) setElem(E *Node) *Node {
	if E == nil || !feasible(c.st.cond) {
		return undef
	}
	c.in.store(c.st, c.args[0].args[0], E, c.pos)
	return c.args[0]
}

func init() {
	G := func(n string, f func(c *call, grp *Node) *Node) {
		lib["!group."+n] = func(c *call) *Node { return f(c, c.args[0].args[0]) }
	}
	G("Name", func(c *call, g *Node) *Node { return strNode(g.op[2:]) })
	G("Element", func(c *call, g *Node) *Node {
		if g.op[0] == 'f' {
			return mkElem(c, elemAtom(g, freshVar(SElem, "uninitialised")))
		}
		return mkElem(c, elemZero(g))
	})
	G("Generator", func(c *call, g *Node) *Node { return mkElem(c, elemGen(g)) })
	G("Identity", func(c *call, g *Node) *Node { return mkElem(c, elemZero(g)) })
	G("Random", func(c *call, g *Node) *Node {
		c.in.panicIf(c.st, c.in.drawFails(c.st), c.pos, "the source of randomness fails")
		return mkElem(c, elemScale(elemGen(g), c.in.freshRand(orderOf(g))))
	})
	G("N", func(c *call, g *Node) *Node { return c.args[0].args[1] })
	G("P", func(c *call, g *Node) *Node { return c.args[0].args[2] })
	G("MarshalJSON", func(c *call, g *Node) *Node {
		return tuple(c.in.bytesAsSlice(c.st, jsonBytes(mkStruct("jobj", strNode("group"), mkStruct("jstr", strNode(g.op[2:]))))), nilNode)
	})

	E := func(n string, f func(c *call, e, grp *Node) *Node) {
		lib["!elem."+n] = func(c *call) *Node {
			e, g := c.self()
			if e == nil {
				return undef
			}
			return f(c, e, g)
		}
	}
	E("Add", func(c *call, e, g *Node) *Node {
		a, b := c.elem(1, g), c.elem(2, g)
		if a == nil || b == nil {
			return undef
		}
		return c.setElem(elemAdd(a, b))
	})
	E("Subtract", func(c *call, e, g *Node) *Node {
		a, b := c.elem(1, g), c.elem(2, g)
		if a == nil || b == nil {
			return undef
		}
		return c.setElem(elemSub(a, b))
	})
	E("Negate", func(c *call, e, g *Node) *Node {
		a := c.elem(1, g)
		if a == nil {
			return undef
		}
		return c.setElem(elemNeg(a))
	})
	E("Scale", func(c *call, e, g *Node) *Node {
		a := c.elem(1, g)
		s := c.big(2)
		if a == nil || !feasible(c.st.cond) {
			return undef
		}
		return c.setElem(elemScale(a, s))
	})
	E("BaseScale", func(c *call, e, g *Node) *Node {
		s := c.big(1)
		if !feasible(c.st.cond) {
			return undef
		}
		return c.setElem(elemScale(elemGen(g), s))
	})
	E("Set", func(c *call, e, g *Node) *Node { return c.setElem(c.elem(1, g)) })
	E("SetBytes", func(c *call, e, g *Node) *Node {
		b := c.in.sliceBytes(c.st, c.args[1])
		return c.setElem(lift(func(xs []*Node) *Node {
			if len(xs[0].segs) == 1 && xs[0].segs[0].op == "ebin" && xs[0].segs[0].args[0].lin.grp == g {
				return xs[0].segs[0].args[0]
			}
			return elemAtom(g, rawAtom(SElem, "frombin", g, xs[0]))
		}, b))
	})
	E("MapToGroup", func(c *call, e, g *Node) *Node {
		r := lift(func(xs []*Node) *Node { return elemAtom(g, rawAtom(SElem, "mtg", g, xs[0])) }, c.args[1])
		// implementations differ in whether they also change the receiver
		c.setElem(elemAtom(g, freshVar(SElem, "receiver")))
		return tuple(mkElem(c, r), nilNode)
	})
	E("IsEqual", func(c *call, e, g *Node) *Node {
		a := c.elem(1, g)
		if a == nil {
			return undef
		}
		return mkBool(elemIsZero(elemSub(e, a)))
	})
	E("IsIdentity", func(c *call, e, g *Node) *Node { return mkBool(elemIsZero(e)) })
	E("GroupOrder", func(c *call, e, g *Node) *Node { return c.in.groups[g].args[1] })
	E("FieldOrder", func(c *call, e, g *Node) *Node { return c.in.groups[g].args[2] })
	E("String", func(c *call, e, g *Node) *Node { return bytesOf(rawAtom(SBytes, "estr", e)) })
	E("MarshalBinary", func(c *call, e, g *Node) *Node {
		return tuple(c.in.bytesAsSlice(c.st, bytesOf(rawAtom(SBytes, "ebin", e))), nilNode)
	})
	E("UnmarshalBinary", func(c *call, e, g *Node) *Node {
		b := c.in.sliceBytes(c.st, c.args[1])
		return c.in.split(c.st, b, func(s *state, b *Node) *Node {
			cc := &call{in: c.in, st: s, args: c.args, pos: c.pos}
			if len(b.segs) == 1 && b.segs[0].op == "ebin" && b.segs[0].args[0].lin.grp == g {
				cc.setElem(b.segs[0].args[0])
				return nilNode
			}
			er := bddVar(rawAtom(SBool, "ebinerr", g, b))
			cc.setElem(iteV(er, e, elemAtom(g, rawAtom(SElem, "frombin", g, b))))
			return mkErr(er)
		})
	})
	E("MarshalJSON", func(c *call, e, g *Node) *Node {
		return tuple(c.in.bytesAsSlice(c.st, jsonBytes(mkStruct("jelem", e))), nilNode)
	})
	E("UnmarshalJSON", func(c *call, e, g *Node) *Node {
		b := c.in.sliceBytes(c.st, c.args[1])
		return c.in.split(c.st, b, func(s *state, b *Node) *Node {
			return c.in.split(s, jsonTree(b), func(s *state, t *Node) *Node {
				cc := &call{in: c.in, st: s, args: c.args, pos: c.pos}
				switch {
				case t.op == "jelem" && t.args[0].lin.grp == g:
					cc.setElem(t.args[0])
					return nilNode
				case t.op == "jraw":
					er := bddVar(rawAtom(SBool, "ejsonerr", g, t.args[0]))
					cc.setElem(iteV(er, e, elemAtom(g, rawAtom(SElem, "fromjson", g, t.args[0]))))
					return mkErr(er)
				}
				return mkErr(bddT)
			})
		})
	})
}

var _ = big.NewInt
