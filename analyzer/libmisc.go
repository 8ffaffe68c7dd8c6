package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"
)

// list gives the elements of a slice whose length is fixed.
func (c *call) list(s *Node) []*Node {
	switch s.kind {
	case KNil:
		return nil
	case KSlice:
		k, ok := constI(s.args[2])
		if !ok {
			c.fail("slice of unknown length")
		}
		var out []*Node
		for i := int64(0); i < k; i++ {
			out = append(out, c.in.loadLeaf(c.st, rawKind(KRef, "", append(append([]*Node(nil), s.args[0].args...), addInt(s.args[1], intNode(i)))...)))
		}
		return out
	}
	c.fail("not a slice: %s", show(s))
	return nil
}

func (c *call) constStr(i int) string {
	s, ok := constBytes(toBytes(c.args[i]))
	if !ok {
		c.fail("string is not a constant: %s", show(c.args[i]))
	}
	return s
}

func (c *call) constInt(i int) int64 {
	k, ok := constI(asInt(c.args[i]))
	if !ok {
		c.fail("integer is not a constant: %s", show(c.args[i]))
	}
	return k
}

// format gives the text of a value in the way fmt's %v does.
func (c *call) format(v *Node, verb byte) *Node {
	return c.in.split(c.st, v, func(st *state, v *Node) *Node {
		cc := &call{in: c.in, st: st, pos: c.pos}
		switch v.kind {
		case KNil:
			return strNode("<nil>")
		case KErr:
			return bytesOf(rawAtom(SBytes, "errtext", v))
		case KIface:
			if v.op[0] == '!' {
				if f, ok := lib[v.op+".String"]; ok {
					cc.args = []*Node{v}
					return f(cc)
				}
				return bytesOf(rawAtom(SBytes, "text", v))
			}
			t := typeReg[v.op]
			for _, name := range []string{"Error", "String"} {
				if v.op == "*math/big.Int" || verb == 'd' || verb == 'x' {
					break
				}
				if sel := c.in.prog.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
					if sg, ok := sel.Type().(*types.Signature); ok && sg.Params().Len() == 0 && sg.Results().Len() == 1 {
						return c.in.callFn(st, c.in.prog.MethodValue(sel), []*Node{v.args[0]}, nil, c.pos)
					}
				}
			}
			if v.op == "*math/big.Int" {
				x := c.in.load(st, v.args[0], c.pos)
				if verb == 'x' {
					return bytesOf(rawAtom(SBytes, "text", asInt(x), intNode(16)))
				}
				return decStr(asInt(x))
			}
			switch u := t.Underlying().(type) {
			case *types.Basic:
				switch {
				case u.Info()&types.IsString != 0:
					if verb == 'x' {
						return bytesOf(rawAtom(SBytes, "hex", v.args[0]))
					}
					return v.args[0]
				case u.Info()&types.IsInteger != 0:
					if verb == 'x' {
						return bytesOf(rawAtom(SBytes, "text", asInt(v.args[0]), intNode(16)))
					}
					return decStr(asInt(v.args[0]))
				case u.Info()&types.IsBoolean != 0:
					return iteV(toBool(v.args[0]), strNode("true"), strNode("false"))
				}
			case *types.Slice:
				if isByteElem(u.Elem()) && verb == 'x' {
					return bytesOf(rawAtom(SBytes, "hex", c.in.sliceBytes(st, v.args[0])))
				}
				if isByteElem(u.Elem()) && verb == 's' {
					return c.in.sliceBytes(st, v.args[0])
				}
			case *types.Array:
				if isByteElem(u.Elem()) && verb == 'x' {
					r := c.in.alloc(st, v.args[0])
					n := intNode(u.Len())
					return bytesOf(rawAtom(SBytes, "hex", c.in.sliceBytes(st, mkSlice(r, zero, n, n))))
				}
			}
			return bytesOf(rawAtom(SBytes, "fmt:"+string(verb), v))
		}
		return bytesOf(rawAtom(SBytes, "fmt:"+string(verb), v))
	})
}

func cat(a, b *Node) *Node {
	return lift(func(xs []*Node) *Node { return concat(xs[0], xs[1]) }, a, b)
}

func isStringIface(v *Node) bool {
	if v.kind != KIface || v.op[0] == '!' {
		return false
	}
	b, ok := typeReg[v.op].Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (c *call) sprint(vs []*Node) *Node {
	out := emptyBytes
	for i, v := range vs {
		if i > 0 && !isStringIface(v) && !isStringIface(vs[i-1]) {
			out = cat(out, strNode(" "))
		}
		out = cat(out, c.format(v, 'v'))
	}
	return out
}

func (c *call) sprintln(vs []*Node) *Node {
	out := emptyBytes
	for i, v := range vs {
		if i > 0 {
			out = cat(out, strNode(" "))
		}
		out = cat(out, c.format(v, 'v'))
	}
	return cat(out, strNode("\n"))
}

func isWriter(w *Node) bool {
	if w.kind != KIface {
		return false
	}
	switch w.op {
	case "!hash", "*bytes.Buffer", "*strings.Builder", "!multi":
		return true
	}
	return false
}

func (c *call) sprintf(f string, vs []*Node) *Node {
	out := emptyBytes
	lit := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			lit += "%"
			continue
		}
		if i >= len(f) || n >= len(vs) {
			c.fail("format string %q", f)
		}
		if !strings.ContainsRune("vdsxw", rune(f[i])) {
			// other verbs: some text that depends on the value
			j := i
			for j < len(f) && !strings.ContainsRune("vdsxwqtTXcbgfe", rune(f[j])) {
				j++
			}
			if j >= len(f) {
				c.fail("format string %q", f)
			}
			out = cat(out, strNode(lit))
			lit = ""
			out = cat(out, bytesOf(rawAtom(SBytes, "fmt:"+f[i:j+1], vs[n])))
			n++
			i = j
			continue
		}
		out = cat(out, strNode(lit))
		lit = ""
		verb := f[i]
		if verb == 'w' {
			verb = 'v'
		}
		out = cat(out, c.format(vs[n], verb))
		n++
	}
	return cat(out, strNode(lit))
}

// ---- randomness

func (in *interp) freshRand(max *Node) *Node {
	in.randN++
	id := mkVar(SOther, fmt.Sprintf("draw%d", in.randN))
	a := rawAtom(SInt, "rand", id, max)
	in.randIDs = append(in.randIDs, a)
	return asInt(a)
}

// drawFails is the condition under which the source of randomness fails now.
func (in *interp) drawFails(st *state) *bdd {
	if !in.faults {
		return bddF
	}
	v := bddVar(rawAtom(SBool, fmt.Sprintf("in:entropy fails before draw %d", in.randN+1)))
	in.failed = bddOr(in.failed, bddAnd(st.cond, v))
	return v
}

func isCryptoReader(n *Node) bool { return n.kind == KIface && n.op == "!reader" }

func init() {
	lib["crypto/rand.Int"] = func(c *call) *Node {
		if !isCryptoReader(c.args[0]) {
			c.fail("random numbers drawn from something other than the system's generator: %s", show(c.args[0]))
		}
		m := c.big(1)
		c.in.panicIf(c.st, bddNot(pos(m)), c.pos, "crypto/rand: argument to Int is <= 0")
		if !feasible(c.st.cond) {
			return undef
		}
		f := c.in.drawFails(c.st)
		return tuple(iteV(f, nilNode, c.newBig(c.in.freshRand(m))), mkErr(f))
	}
	fill := func(c *call, s *Node) *Node {
		f := c.in.drawFails(c.st)
		n := c.in.split(c.st, s, func(st *state, s *Node) *Node {
			if s.kind == KNil {
				return zero
			}
			c.in.randN++
			b := bytesOf(rawAtom(SBytes, "randb", mkVar(SOther, fmt.Sprintf("draw%d", c.in.randN)), s.args[2]))
			cur := c.in.loadLeaf(st, s.args[0])
			c.in.store(st, s.args[0], iteV(f, cur, lift(func(xs []*Node) *Node { return replaceBytes(xs[0], s.args[1], b) }, cur)), c.pos)
			return s.args[2]
		})
		return tuple(iteV(f, zero, n), mkErr(f))
	}
	lib["crypto/rand.Read"] = func(c *call) *Node { return fill(c, c.args[0]) }
	lib["!reader.Read"] = func(c *call) *Node { return fill(c, c.args[1]) }
	lib["io.ReadFull"] = func(c *call) *Node {
		if !isCryptoReader(c.args[0]) {
			c.fail("io.ReadFull from %s", show(c.args[0]))
		}
		return fill(c, c.args[1])
	}

	// ---- hashing
	newHash := func(c *call) *Node { return rawKind(KIface, "!hash", c.in.alloc(c.st, emptyBytes)) }
	lib["crypto/sha256.New"] = newHash
	hwrite := func(c *call, b *Node) *Node {
		cell := c.args[0].args[0]
		c.in.store(c.st, cell, cat(c.in.loadLeaf(c.st, cell), b), c.pos)
		return tuple(liftLen(b), nilNode)
	}
	lib["!hash.Write"] = func(c *call) *Node { return hwrite(c, c.in.sliceBytes(c.st, c.args[1])) }
	lib["io.MultiWriter"] = func(c *call) *Node {
		return rawKind(KIface, "!multi", c.list(c.args[0])...)
	}
	lib["!multi.Write"] = func(c *call) *Node {
		b := c.in.sliceBytes(c.st, c.args[1])
		lib["io.WriteString"](&call{in: c.in, st: c.st, args: []*Node{c.args[0], b}, pos: c.pos})
		return tuple(liftLen(b), nilNode)
	}
	lib["io.WriteString"] = func(c *call) *Node {
		if c.args[0].kind == KIface && c.args[0].op == "!multi" {
			for _, w := range c.args[0].args {
				lib["io.WriteString"](&call{in: c.in, st: c.st, args: []*Node{w, c.args[1]}, pos: c.pos})
			}
			return tuple(liftLen(c.args[1]), nilNode)
		}
		if c.args[0].kind == KIface && c.args[0].op == "!hash" {
			return hwrite(c, c.args[1])
		}
		if c.args[0].kind == KIface && (c.args[0].op == "*bytes.Buffer" || c.args[0].op == "*strings.Builder") {
			cell := c.args[0].args[0]
			c.in.store(c.st, cell, cat(c.in.load(c.st, cell, c.pos), c.args[1]), c.pos)
			return tuple(liftLen(c.args[1]), nilNode)
		}
		c.fail("io.WriteString to %s", show(c.args[0]))
		return nil
	}
	sha := func(b *Node) *Node {
		return lift(func(xs []*Node) *Node { return bytesOf(rawAtom(SBytes, "sha", xs[0])) }, b)
	}
	lib["!hash.Sum"] = func(c *call) *Node {
		d := sha(c.in.loadLeaf(c.st, c.args[0].args[0]))
		if c.args[1].kind == KNil {
			return c.in.bytesAsSlice(c.st, d)
		}
		return c.in.appendSlice(c.st, c.args[1], d, types.NewSlice(types.Typ[types.Byte]), c.pos)
	}
	lib["!hash.Reset"] = func(c *call) *Node {
		c.in.store(c.st, c.args[0].args[0], emptyBytes, c.pos)
		return tuple()
	}
	lib["!hash.Size"] = func(c *call) *Node { return intNode(32) }
	lib["!hash.BlockSize"] = func(c *call) *Node { return intNode(64) }
	lib["crypto/sha256.Sum256"] = func(c *call) *Node { return sha(c.in.sliceBytes(c.st, c.args[0])) }
	lib["github.com/ing-bank/zkrp/util/byteconversion.FromByteArray"] = func(c *call) *Node {
		b := c.in.sliceBytes(c.st, c.args[0])
		v := lift(func(xs []*Node) *Node { return asInt(rawAtom(SInt, "fromsigned", xs[0])) }, b)
		return tuple(c.newBig(v), nilNode)
	}

	// ---- buffers
	for _, t := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		t := t
		app := func(c *call, b *Node) {
			c.in.store(c.st, c.args[0], cat(c.in.load(c.st, c.args[0], c.pos), b), c.pos)
		}
		lib[t+"Write"] = func(c *call) *Node {
			b := c.in.sliceBytes(c.st, c.args[1])
			app(c, b)
			return tuple(liftLen(b), nilNode)
		}
		lib[t+"WriteString"] = func(c *call) *Node { app(c, c.args[1]); return tuple(liftLen(c.args[1]), nilNode) }
		lib[t+"WriteByte"] = func(c *call) *Node {
			app(c, bytesOf(rawAtom(SBytes, "byte", asInt(c.args[1]))))
			return nilNode
		}
		lib[t+"String"] = func(c *call) *Node { return c.in.load(c.st, c.args[0], c.pos) }
		lib[t+"Len"] = func(c *call) *Node { return liftLen(c.in.load(c.st, c.args[0], c.pos)) }
		lib[t+"Reset"] = func(c *call) *Node { c.in.store(c.st, c.args[0], emptyBytes, c.pos); return tuple() }
		lib[t+"Grow"] = func(c *call) *Node { return tuple() }
		lib[t+"Bytes"] = func(c *call) *Node {
			return c.in.bytesAsSlice(c.st, c.in.load(c.st, c.args[0], c.pos))
		}
	}
	lib["bytes.NewBuffer"] = func(c *call) *Node { return c.in.alloc(c.st, c.in.sliceBytes(c.st, c.args[0])) }
	lib["bytes.NewBufferString"] = func(c *call) *Node { return c.in.alloc(c.st, c.args[0]) }
	lib["bytes.Equal"] = func(c *call) *Node {
		a, b := c.in.sliceBytes(c.st, c.args[0]), c.in.sliceBytes(c.st, c.args[1])
		return lift(func(xs []*Node) *Node { return mkBool(bytesEq(xs[0], xs[1])) }, a, b)
	}
	lib["bytes.Clone"] = func(c *call) *Node {
		if c.args[0].kind == KNil {
			return nilNode
		}
		return c.in.bytesAsSlice(c.st, c.in.sliceBytes(c.st, c.args[0]))
	}
	lib["bytes.Join"] = func(c *call) *Node {
		out := emptyBytes
		sep := c.in.sliceBytes(c.st, c.args[1])
		for i, x := range c.list(c.args[0]) {
			if i > 0 {
				out = cat(out, sep)
			}
			out = cat(out, c.in.sliceBytes(c.st, x))
		}
		return c.in.bytesAsSlice(c.st, out)
	}

	// ---- sync
	for _, t := range []string{"Mutex", "RWMutex"} {
		lib["(*sync."+t+").Lock"] = func(c *call) *Node { c.in.locked++; return tuple() }
		lib["(*sync."+t+").Unlock"] = func(c *call) *Node { c.in.locked--; return tuple() }
		lib["(*sync."+t+").RLock"] = func(c *call) *Node { c.in.locked++; c.in.shared++; return tuple() }
		lib["(*sync."+t+").RUnlock"] = func(c *call) *Node { c.in.locked--; c.in.shared--; return tuple() }
	}
	// operations of these types hold a lock of their own
	sync := func(name string, f func(c *call) *Node) {
		lib[name] = func(c *call) *Node {
			c.in.locked++
			defer func() { c.in.locked-- }()
			return f(c)
		}
	}
	content := func(c *call, f func(m *Node) *Node) *Node { return mtMap(c.in.load(c.st, c.args[0], c.pos), f) }
	get := func(c *call) (*Node, *bdd) {
		out, ok := nilNode, bddF
		for _, lf := range leaves(c.st.cond, c.in.load(c.st, c.args[0], c.pos)) {
			v, found := c.in.mapGet(c.st, lf.n, c.args[1], nilNode)
			out, ok = iteV(lf.c, v, out), bddOr(ok, bddAnd(lf.c, found))
		}
		return out, ok
	}
	put := func(c *call, k, v *Node) {
		c.in.store(c.st, c.args[0], content(c, func(m *Node) *Node { return c.in.mapPut(c.st, m, k, v) }), c.pos)
	}
	drop := func(c *call) {
		c.in.store(c.st, c.args[0], content(c, func(m *Node) *Node { return c.in.mapDel(c.st, m, c.args[1], c.pos) }), c.pos)
	}
	const sm = "(*sync.Map)."
	sync(sm+"Load", func(c *call) *Node { v, ok := get(c); return mkTuple(v, mkBool(ok)) })
	sync(sm+"Store", func(c *call) *Node { put(c, c.args[1], c.args[2]); return tuple() })
	sync(sm+"LoadOrStore", func(c *call) *Node {
		v, ok := get(c)
		v = iteV(ok, v, c.args[2])
		put(c, c.args[1], v)
		return mkTuple(v, mkBool(ok))
	})
	sync(sm+"Swap", func(c *call) *Node { v, ok := get(c); put(c, c.args[1], c.args[2]); return mkTuple(v, mkBool(ok)) })
	sync(sm+"Delete", func(c *call) *Node { drop(c); return tuple() })
	sync(sm+"LoadAndDelete", func(c *call) *Node { v, ok := get(c); drop(c); return mkTuple(v, mkBool(ok)) })
	sync(sm+"Clear", func(c *call) *Node { c.in.store(c.st, c.args[0], mkStruct("map"), c.pos); return tuple() })

	value := func(c *call, i int) *Node { return c.args[i] }
	for _, t := range []string{"Value", "Pointer[T]", "Bool", "Int32", "Int64", "Uint32", "Uint64"} {
		m := "(*sync/atomic." + t + ")."
		sync(m+"Load", func(c *call) *Node { return c.in.load(c.st, c.args[0], c.pos) })
		sync(m+"Store", func(c *call) *Node { c.in.store(c.st, c.args[0], value(c, 1), c.pos); return tuple() })
		sync(m+"Swap", func(c *call) *Node {
			old := c.in.load(c.st, c.args[0], c.pos)
			c.in.store(c.st, c.args[0], value(c, 1), c.pos)
			return old
		})
		sync(m+"CompareAndSwap", func(c *call) *Node {
			old := c.in.load(c.st, c.args[0], c.pos)
			e := c.in.eqVals(c.st, old, value(c, 1))
			c.in.store(c.st, c.args[0], iteV(e, value(c, 2), old), c.pos)
			return mkBool(e)
		})
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		sync("(*sync/atomic."+t+").Add", func(c *call) *Node {
			v := wrapInt(strings.ToLower(t), addInt(asInt(c.in.load(c.st, c.args[0], c.pos)), asInt(c.args[1])))
			c.in.store(c.st, c.args[0], v, c.pos)
			return v
		})
	}
	// a pool gives what was put there last; others cannot have it then
	pooled := func(c *call) *Node {
		return mkRef(c.args[0].args[0], append(append([]*Node(nil), c.args[0].args[1:]...), one)...)
	}
	sync("(*sync.Pool).Put", func(c *call) *Node {
		r := pooled(c)
		c.in.store(c.st, r, mtMap(c.in.load(c.st, r, c.pos), func(l *Node) *Node {
			if l.op != "pool" {
				return mkStruct("pool", c.args[1])
			}
			return mkStruct("pool", append(append([]*Node(nil), l.args...), c.args[1])...)
		}), c.pos)
		return tuple()
	})
	lib["(*sync.Pool).Get"] = func(c *call) *Node {
		r := pooled(c)
		c.in.locked++
		had := c.in.load(c.st, r, c.pos)
		c.in.locked--
		return c.in.split(c.st, had, func(st *state, l *Node) *Node {
			if n := len(l.args); l.op == "pool" && n > 0 {
				c.in.locked++
				c.in.store(st, r, mkStruct("pool", l.args[:n-1]...), c.pos)
				c.in.locked--
				x := unface(l.args[n-1])
				if x.kind == KSlice {
					x = x.args[0]
				}
				if x.kind == KRef {
					k := rootKey(x.args[0])
					if c.in.owned == nil {
						c.in.owned, c.in.exempt = map[int]bool{}, nonNil(c.in.exempt)
					}
					c.in.owned[k], c.in.exempt[k] = true, true
				}
				return l.args[n-1]
			}
			c.in.locked++
			p := c.in.load(st, c.args[0], c.pos)
			c.in.locked--
			f := p.args[len(p.args)-1]
			if f.kind == KNil {
				return nilNode
			}
			return c.in.callValue(st, f, nil, c.pos)
		})
	}
	lib["(*sync.Once).Do"] = func(c *call) *Node {
		ref := c.args[0]
		c.in.split(c.st, c.in.load(c.st, ref, c.pos), func(st *state, v *Node) *Node {
			if v.op == "done" {
				return nilNode
			}
			c.in.locked++
			c.in.once++
			c.in.store(st, ref, mkStruct("done"), c.pos)
			c.in.callValue(st, c.args[1], nil, c.pos)
			c.in.locked--
			c.in.once--
			return nilNode
		})
		return tuple()
	}

	// ---- strings
	lib["strings.Fields"] = func(c *call) *Node {
		var out []*Node
		for _, f := range strings.Fields(c.constStr(0)) {
			out = append(out, strNode(f))
		}
		n := intNode(int64(len(out)))
		return mkSlice(c.in.alloc(c.st, mkStruct("array", out...)), zero, n, n)
	}
	lib["strings.Join"] = func(c *call) *Node {
		out := emptyBytes
		for i, x := range c.list(c.args[0]) {
			if i > 0 {
				out = cat(out, c.args[1])
			}
			out = cat(out, x)
		}
		return out
	}
	lib["strings.Repeat"] = func(c *call) *Node { return strNode(strings.Repeat(c.constStr(0), int(c.constInt(1)))) }
	str2 := func(f func(a, b string) string) func(*call) *Node {
		return func(c *call) *Node { return strNode(f(c.constStr(0), c.constStr(1))) }
	}
	lib["strings.ReplaceAll"] = func(c *call) *Node {
		return strNode(strings.ReplaceAll(c.constStr(0), c.constStr(1), c.constStr(2)))
	}
	lib["strings.Replace"] = func(c *call) *Node {
		return strNode(strings.Replace(c.constStr(0), c.constStr(1), c.constStr(2), int(c.constInt(3))))
	}
	lib["strings.NewReplacer"] = func(c *call) *Node {
		return rawKind(KTuple, "replacer", c.list(c.args[0])...)
	}
	lib["(*strings.Replacer).Replace"] = func(c *call) *Node {
		if c.args[0].op != "replacer" {
			c.fail("strings.Replacer")
		}
		var pairs []string
		for _, a := range c.args[0].args {
			s, ok := constBytes(toBytes(a))
			if !ok {
				c.fail("strings.Replacer with unknown strings")
			}
			pairs = append(pairs, s)
		}
		return strNode(strings.NewReplacer(pairs...).Replace(c.constStr(1)))
	}
	lib["strings.TrimSpace"] = func(c *call) *Node { return strNode(strings.TrimSpace(c.constStr(0))) }
	lib["strings.ToLower"] = func(c *call) *Node { return strNode(strings.ToLower(c.constStr(0))) }
	lib["strings.ToUpper"] = func(c *call) *Node { return strNode(strings.ToUpper(c.constStr(0))) }
	lib["strings.TrimPrefix"] = str2(strings.TrimPrefix)
	lib["strings.TrimSuffix"] = str2(strings.TrimSuffix)
	lib["strings.Split"] = func(c *call) *Node {
		var out []*Node
		for _, f := range strings.Split(c.constStr(0), c.constStr(1)) {
			out = append(out, strNode(f))
		}
		n := intNode(int64(len(out)))
		return mkSlice(c.in.alloc(c.st, mkStruct("array", out...)), zero, n, n)
	}
	lib["strings.Map"] = func(c *call) *Node {
		var out strings.Builder
		for _, r := range c.constStr(1) {
			v := c.in.callValue(c.st, c.args[0], []*Node{intNode(int64(r))}, c.pos)
			k, ok := constI(v)
			if !ok {
				c.fail("strings.Map")
			}
			if k >= 0 {
				out.WriteRune(rune(k))
			}
		}
		return strNode(out.String())
	}
	lib["unicode.IsSpace"] = func(c *call) *Node {
		if strings.TrimSpace(string(rune(c.constInt(0)))) == "" {
			return tt
		}
		return ff
	}

	// ---- fmt, errors, strconv
	lib["fmt.Sprint"] = func(c *call) *Node { return c.sprint(c.list(c.args[0])) }
	lib["fmt.Sprintf"] = func(c *call) *Node { return c.sprintf(c.constStr(0), c.list(c.args[1])) }
	pr := func(k int) func(*call) *Node {
		return func(c *call) *Node {
			var vs []*Node
			if k > 0 {
				vs = append(vs, c.args[:k]...)
			}
			vs = append(vs, c.list(c.args[len(c.args)-1])...)
			c.in.prints = append(c.in.prints, printRec{c.st.cond, vs, c.in.pos(c.pos)})
			return tuple(zero, nilNode)
		}
	}
	lib["fmt.Println"] = pr(0)
	lib["fmt.Print"] = pr(0)
	lib["fmt.Printf"] = pr(1)
	// printing to a hash, a buffer or several of them writes the text there
	toWriter := func(text func(c *call) *Node, k int) func(*call) *Node {
		return func(c *call) *Node {
			if w := c.args[0]; isWriter(w) {
				return lib["io.WriteString"](&call{in: c.in, st: c.st, args: []*Node{w, text(c)}, pos: c.pos})
			}
			c.in.prints = append(c.in.prints, printRec{c.st.cond, c.list(c.args[k]), c.in.pos(c.pos)})
			return tuple(zero, nilNode)
		}
	}
	lib["fmt.Sprintln"] = func(c *call) *Node { return c.sprintln(c.list(c.args[0])) }
	lib["fmt.Fprintln"] = toWriter(func(c *call) *Node { return c.sprintln(c.list(c.args[1])) }, 1)
	lib["fmt.Fprint"] = toWriter(func(c *call) *Node { return c.sprint(c.list(c.args[1])) }, 1)
	lib["fmt.Fprintf"] = toWriter(func(c *call) *Node { return c.sprintf(c.constStr(1), c.list(c.args[2])) }, 2)
	for _, n := range []string{"log.Println", "log.Print", "log.Printf"} {
		f := lib["fmt."+n[4:]]
		lib[n] = func(c *call) *Node { f(c); return tuple() }
	}
	lib["fmt.Errorf"] = func(c *call) *Node { return mkErr(bddT) }
	lib["errors.New"] = func(c *call) *Node { return mkErr(bddT) }
	lib["errors.Join"] = func(c *call) *Node {
		r := bddF
		for _, e := range c.list(c.args[0]) {
			r = bddOr(r, bddNot(c.in.eqVals(c.st, e, nilNode)))
		}
		return mkErr(r)
	}
	lib["strconv.Itoa"] = func(c *call) *Node { return decStr(asInt(c.args[0])) }
	lib["strconv.FormatInt"] = func(c *call) *Node {
		if k, ok := constOf(asInt(c.args[0])); ok {
			return strNode(k.Text(int(c.constInt(1))))
		}
		if c.constInt(1) != 10 {
			return bytesOf(rawAtom(SBytes, "text", asInt(c.args[0]), c.args[1]))
		}
		return decStr(asInt(c.args[0]))
	}
	lib["strconv.FormatUint"] = lib["strconv.FormatInt"]

	// ---- numbers
	fl := func(f func(float64) float64) func(*call) *Node {
		return func(c *call) *Node {
			x, ok := floatOf(c.args[0])
			if !ok {
				c.fail("floating point value not fixed by the shape of the data")
			}
			return floatNode(f(x))
		}
	}
	lib["math.Log2"] = fl(math.Log2)
	lib["math.Log"] = fl(math.Log)
	lib["math.Log10"] = fl(math.Log10)
	lib["math.Floor"] = fl(math.Floor)
	lib["math.Ceil"] = fl(math.Ceil)
	lib["math.Round"] = fl(math.Round)
	lib["math.Sqrt"] = fl(math.Sqrt)
	lib["math.Pow"] = func(c *call) *Node {
		x, ok := floatOf(c.args[0])
		y, ok2 := floatOf(c.args[1])
		if !ok || !ok2 {
			c.fail("floating point value not fixed by the shape of the data")
		}
		return floatNode(math.Pow(x, y))
	}
	// ---- time
	dur := func(c *call) *Node {
		a := rawAtom(SInt, "duration")
		atomLo[a], atomUp[a] = new(big.Int), big.NewInt(1<<40)
		return asInt(a)
	}
	lib["time.Now"] = func(c *call) *Node { return rawAtom(SOther, "time0") }
	lib["time.Since"] = dur
	lib["(time.Time).Sub"] = dur
	lib["(time.Duration).String"] = func(c *call) *Node { return bytesOf(rawAtom(SBytes, "durtext")) }
	lib["runtime.KeepAlive"] = func(c *call) *Node { return tuple() }
}

func nonNil(m map[int]bool) map[int]bool {
	if m == nil {
		m = map[int]bool{}
	}
	return m
}
