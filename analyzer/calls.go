package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) callArgs(st *state, c *ssa.CallCommon) (args []*Node, fnv, recv *Node) {
	for _, a := range c.Args {
		args = append(args, fr.val(st, a))
	}
	if c.IsInvoke() {
		recv = fr.val(st, c.Value)
		return
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return
	}
	if c.StaticCallee() == nil {
		fnv = fr.val(st, c.Value)
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		fnv = fr.val(st, mc)
	}
	return
}

func (fr *frame) callCommon(st *state, c *ssa.CallCommon, p token.Pos) *Node {
	args, fnv, recv := fr.callArgs(st, c)
	return fr.dispatch(st, c, args, fnv, recv, p)
}

func (fr *frame) dispatch(st *state, c *ssa.CallCommon, args []*Node, fnv, recv *Node, p token.Pos) *Node {
	in := fr.in
	in.caller = fr.fn
	if c.IsInvoke() {
		return in.invoke(st, recv, c.Method, args, p)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var ats []types.Type
		for _, a := range c.Args {
			ats = append(ats, a.Type())
		}
		return in.builtin(st, b.Name(), args, ats, p)
	}
	if fnv != nil {
		return in.callValue(st, fnv, args, p)
	}
	return in.callFn(st, c.StaticCallee(), args, nil, p)
}

func (in *interp) mapDel(st *state, m, k *Node, p token.Pos) *Node {
	var out []*Node
	for i := 0; i < len(m.args); i += 2 {
		e := in.eqVals(st, m.args[i], k)
		if e == bddT {
			continue
		}
		if e != bddF {
			fail("map key not fixed by the shape of the data at %s", in.pos(p))
		}
		out = append(out, m.args[i], m.args[i+1])
	}
	return mkStruct("map", out...)
}

// split runs f on every case of a value and merges the results.
func (in *interp) split(st *state, v *Node, f func(s *state, n *Node) *Node) *Node {
	ls := leaves(st.cond, v)
	if len(ls) == 1 {
		return f(st, ls[0].n)
	}
	var rets []retRec
	for _, lf := range ls {
		s := st.copy()
		s.cond = lf.c
		r := f(s, lf.n)
		rets = append(rets, retRec{s, r})
	}
	env := st.env
	r := finishRets(st, rets)
	st.env = env
	return r
}

func (in *interp) callValue(st *state, fnv *Node, args []*Node, p token.Pos) *Node {
	return in.split(st, fnv, func(s *state, n *Node) *Node {
		switch n.kind {
		case KNil:
			in.panicIf(s, bddT, p, "call of nil function")
			return undef
		case KFunc:
			return in.callFn(s, n.aux.(*ssa.Function), args, n.args, p)
		}
		fail("call of %s at %s", show(n), in.pos(p))
		return nil
	})
}

func (in *interp) callFn(st *state, fn *ssa.Function, args, bind []*Node, p token.Pos) *Node {
	name := fn.RelString(nil)
	if o := fn.Origin(); o != nil {
		name = o.RelString(nil)
	}
	if in.caller != nil && isSpec(in, in.caller) && in.inRepo(fn) {
		in.lastAPI = name + " (" + in.pos(fn.Pos()) + ")"
	}
	if s, ok := in.stubs[name]; ok {
		// the stub may itself call the function it replaces
		delete(in.stubs, name)
		in.edges[in.pos(p)+"→"+name] = true
		r := in.callValue(st, s, args, p)
		in.stubs[name] = s
		return r
	}
	if f, ok := lib[name]; ok {
		c := &call{in: in, st: st, fn: fn, args: args, pos: p}
		return f(c)
	}
	if f, ok := native[name]; ok {
		if r, ok := in.callNative(f, &call{in: in, st: st, fn: fn, args: args, pos: p}); ok {
			return r
		}
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Synthetic == "package initializer" && in.depth > 0 {
		return mkTuple()
	}
	return in.call(st, fn, args, bind, p)
}

// invoke calls a method of an interface value.
func (in *interp) invoke(st *state, recv *Node, m *types.Func, args []*Node, p token.Pos) *Node {
	return in.split(st, recv, func(s *state, n *Node) *Node {
		switch n.kind {
		case KNil, KUndef:
			in.panicIf(s, bddT, p, "method call on nil interface")
			return undef
		case KErr:
			in.panicIf(s, bddNot(toBool(n.args[0])), p, "method call on nil error")
			if m.Name() == "Error" {
				return bytesOf(rawAtom(SBytes, "errtext", n))
			}
		case KIface:
			if n.op[0] == '!' {
				f, ok := lib[n.op+"."+m.Name()]
				if !ok {
					fail("no model of %s.%s (called at %s)", n.op, m.Name(), in.pos(p))
				}
				return f(&call{in: in, st: s, args: append([]*Node{n}, args...), pos: p})
			}
			t := typeReg[n.op]
			fn := in.prog.LookupMethod(t, m.Pkg(), m.Name())
			if fn == nil {
				fail("no method %s on %s", m.Name(), n.op)
			}
			return in.callFn(s, fn, append([]*Node{n.args[0]}, args...), nil, p)
		}
		fail("method %s of %s at %s", m.Name(), show(n), in.pos(p))
		return nil
	})
}

func tuple(ns ...*Node) *Node { return mkTuple(ns...) }

func (in *interp) builtin(st *state, name string, args []*Node, ats []types.Type, p token.Pos) *Node {
	switch name {
	case "len", "cap":
		return mtMap(args[0], func(v *Node) *Node {
			switch v.kind {
			case KNil:
				return zero
			case KUndef:
				return undef
			case KSlice:
				if name == "cap" {
					return v.args[3]
				}
				return v.args[2]
			case KBytes:
				return bytesLen(v)
			case KStruct:
				return intNode(int64(len(v.args)))
			case KRef:
				c := in.loadLeaf(st, v)
				if _, isMap := ats[0].Underlying().(*types.Map); isMap {
					return mtMap(c, func(m *Node) *Node {
						if m.kind != KStruct || !in.distinct(st, m) {
							fail("length of a map whose keys are not fixed by the shape of the data at %s", in.pos(p))
						}
						return intNode(int64(len(m.args) / 2))
					})
				}
				if pt, ok := ats[0].Underlying().(*types.Pointer); ok {
					return intNode(pt.Elem().Underlying().(*types.Array).Len())
				}
			}
			fail("len of %s", show(v))
			return nil
		})
	case "append":
		return in.appendSlice(st, args[0], args[1], ats[0], p)
	case "copy":
		return in.copySlice(st, args[0], args[1], ats, p)
	case "min", "max":
		r := asInt(args[0])
		for _, a := range args[1:] {
			a = asInt(a)
			if name == "min" {
				r = iteV(pos(subInt(r, a)), a, r)
			} else {
				r = iteV(pos(subInt(a, r)), a, r)
			}
		}
		return r
	case "print", "println":
		in.prints = append(in.prints, printRec{st.cond, args, in.pos(p)})
		return mkTuple()
	case "recover":
		return nilNode
	case "ssa:wrapnilchk":
		return in.split(st, args[0], func(s *state, n *Node) *Node {
			if n.kind == KNil {
				in.panicIf(s, bddT, p, "value method called with nil pointer")
				return undef
			}
			return n
		})
	case "clear":
		return in.split(st, args[0], func(s *state, n *Node) *Node {
			if n.kind == KSlice {
				k, ok := constI(n.args[2])
				if !ok {
					fail("clear of a slice of unknown length")
				}
				el := ats[0].Underlying().(*types.Slice).Elem()
				for i := int64(0); i < k; i++ {
					in.store(s, in.subRef(s, n.args[0], addInt(n.args[1], intNode(i)), p), zeroValue(el), p)
				}
			} else if n.kind == KRef {
				in.store(s, n, mkStruct("map"), p)
			}
			return mkTuple()
		})
	case "delete":
		if args[0].kind == KNil {
			return mkTuple()
		}
		in.store(st, args[0], mtMap(in.loadLeaf(st, args[0]), func(m *Node) *Node { return in.mapDel(st, m, args[1], p) }), p)
		return mkTuple()
	}
	fail("builtin %s at %s", name, in.pos(p))
	return nil
}

var stdSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap is the capacity the Go runtime gives a slice that append reallocates.
func growCap(oldCap, newLen, elem int64) int64 {
	nc := oldCap
	if d := oldCap + oldCap; newLen > d {
		nc = newLen
	} else if oldCap < 256 {
		nc = d
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if elem == 0 {
		return newLen
	}
	sz := nc * elem
	for _, c := range sizeClasses {
		if c >= sz {
			return c / elem
		}
	}
	return (sz + 8191) / 8192 * 8192 / elem
}

func (in *interp) appendSlice(st *state, s, t *Node, typ types.Type, p token.Pos) *Node {
	el := typ.Underlying().(*types.Slice).Elem()
	bytes := isByteElem(el)
	return in.split(st, s, func(st *state, s *Node) *Node {
		return in.split(st, t, func(st *state, t *Node) *Node {
			if t.kind == KUndef || s.kind == KUndef {
				return undef
			}
			tl := zero
			switch t.kind {
			case KSlice:
				tl = t.args[2]
			case KBytes:
				tl = bytesLen(t)
			case KNil:
			default:
				fail("append of %s", show(t))
			}
			if tl == zero {
				return s
			}
			sl, sc := zero, zero
			if s.kind == KSlice {
				sl, sc = s.args[2], s.args[3]
			}
			nl := addInt(sl, tl)
			fits := s.kind == KSlice && le(nl, sc) == 1
			if bytes {
				tb := t
				if t.kind == KSlice {
					tb = in.sliceBytes(st, t)
				}
				if fits {
					c := in.loadLeaf(st, s.args[0])
					c2 := lift(func(xs []*Node) *Node { return replaceBytes(xs[0], addInt(s.args[1], sl), xs[1]) }, c, tb)
					in.store(st, s.args[0], c2, p)
					return mkSlice(s.args[0], s.args[1], nl, sc)
				}
				sb := emptyBytes
				if s.kind == KSlice {
					sb = in.sliceBytes(st, s)
				}
				body := lift(func(xs []*Node) *Node { return concat(xs[0], xs[1]) }, sb, tb)
				nc := nl
				if a, ok := constI(sc); ok {
					if b, ok := constI(nl); ok {
						nc = intNode(growCap(a, b, 1))
						if nc != nl {
							body = lift(func(xs []*Node) *Node {
								return concat(xs[0], bytesOf(rawAtom(SBytes, "zero", subInt(nc, nl))))
							}, body)
						}
					}
				}
				return mkSlice(in.alloc(st, body), zero, nl, nc)
			}
			get := func(x *Node, i int64) *Node {
				return in.loadLeaf(st, rawKind(KRef, "", append(append([]*Node(nil), x.args[0].args...), addInt(x.args[1], intNode(i)))...))
			}
			ts, ok := constI(tl)
			ss, ok2 := constI(sl)
			cs, ok3 := constI(sc)
			if !ok || !ok2 || !ok3 {
				fail("append to a slice whose length is not fixed by the shape of the data at %s", in.pos(p))
			}
			var vals []*Node
			for i := int64(0); i < ts; i++ {
				vals = append(vals, get(t, i))
			}
			if fits {
				for i, v := range vals {
					in.store(st, rawKind(KRef, "", append(append([]*Node(nil), s.args[0].args...), addInt(s.args[1], intNode(ss+int64(i))))...), v, p)
				}
				return mkSlice(s.args[0], s.args[1], nl, sc)
			}
			var all []*Node
			for i := int64(0); i < ss; i++ {
				all = append(all, get(s, i))
			}
			all = append(all, vals...)
			nc := growCap(cs, ss+ts, stdSizes.Sizeof(el))
			z := zeroValue(el)
			for int64(len(all)) < nc {
				all = append(all, z)
			}
			return mkSlice(in.alloc(st, mkStruct("array", all...)), zero, nl, intNode(nc))
		})
	})
}

func (in *interp) copySlice(st *state, d, s *Node, ats []types.Type, p token.Pos) *Node {
	return in.split(st, d, func(st *state, d *Node) *Node {
		return in.split(st, s, func(st *state, s *Node) *Node {
			if d.kind == KNil || s.kind == KNil {
				return zero
			}
			sl := zero
			if s.kind == KSlice {
				sl = s.args[2]
			} else {
				sl = liftLen(s)
			}
			return in.cases(st, []*Node{sl, d.args[2], d.args[1]}, func(st *state, ns []*Node) *Node {
				return in.cmpCases(st, ns[0], ns[1], func(st *state, le bool) *Node {
					n := ns[1]
					if le {
						n = ns[0]
					}
					return in.copyN(st, d, s, ns[2], n, ats, p)
				})
			})
		})
	})
}

// copyN copies n elements to d, at offset off of its array.
func (in *interp) copyN(st *state, d, s, off, n *Node, ats []types.Type, p token.Pos) *Node {
	if isByteElem(ats[0].Underlying().(*types.Slice).Elem()) {
		sb := s
		if s.kind == KSlice {
			sb = in.sliceBytes(st, s)
		}
		c := in.loadLeaf(st, d.args[0])
		var c2 *Node
		for _, x := range leaves(st.cond, c) {
			for _, y := range leaves(x.c, sb) {
				r := replaceBytes(x.n, off, subBytes(y.n, zero, n))
				if c2 == nil {
					c2 = r
				} else {
					c2 = iteV(bddRestrict(y.c, st.cond), r, c2)
				}
			}
		}
		if c2 == nil {
			return n
		}
		in.store(st, d.args[0], c2, p)
		return n
	}
	k, ok := constI(n)
	if !ok {
		fail("copy of unknown length at %s", in.pos(p))
	}
	var vals []*Node
	at := func(x, off *Node, i int64) *Node {
		return rawKind(KRef, "", append(append([]*Node(nil), x.args[0].args...), addInt(off, intNode(i)))...)
	}
	for i := int64(0); i < k; i++ {
		vals = append(vals, in.loadLeaf(st, at(s, s.args[1], i)))
	}
	for i, v := range vals {
		in.store(st, at(d, off, int64(i)), v, p)
	}
	return n
}

// ---------------------------------------------------------------- globals

// specialGlobals are library variables with a known meaning.
var specialGlobals = map[string]func(in *interp, st *state) *Node{
	"crypto/rand.Reader":                             func(in *interp, st *state) *Node { return rawKind(KIface, "!reader", rawAtom(SOther, "cryptorand")) },
	"github.com/cloudflare/circl/group.P256":         func(in *interp, st *state) *Node { return xgroup(in, st, "P-256") },
	"github.com/cloudflare/circl/group.P384":         func(in *interp, st *state) *Node { return xgroup(in, st, "P-384") },
	"github.com/cloudflare/circl/group.P521":         func(in *interp, st *state) *Node { return xgroup(in, st, "P-521") },
	"github.com/cloudflare/circl/group.Ristretto255": func(in *interp, st *state) *Node { return xgroup(in, st, "ristretto255") },
	"encoding/base64.StdEncoding":                    func(in *interp, st *state) *Node { return rawAtom(SOther, "b64std") },
	"encoding/base64.RawStdEncoding":                 func(in *interp, st *state) *Node { return rawAtom(SOther, "b64rawstd") },
	"encoding/base64.URLEncoding":                    func(in *interp, st *state) *Node { return rawAtom(SOther, "b64url") },
	"encoding/base64.RawURLEncoding":                 func(in *interp, st *state) *Node { return rawAtom(SOther, "b64rawurl") },
	"io.EOF":                                         func(in *interp, st *state) *Node { return mkErr(bddT) },
	"io.ErrUnexpectedEOF":                            func(in *interp, st *state) *Node { return mkErr(bddT) },
	"os.Stdout":                                      func(in *interp, st *state) *Node { return rawAtom(SOther, "stdout") },
	"os.Stderr":                                      func(in *interp, st *state) *Node { return rawAtom(SOther, "stderr") },
}

func (in *interp) global(st *state, g *ssa.Global) *Node {
	if r, ok := in.globals[g]; ok {
		return r
	}
	fail("global variable %s is not modelled", g.RelString(nil))
	return nil
}

// initGlobals evaluates the package initialisers of the analysed packages.
func (in *interp) initGlobals(st *state, pkgs []*ssa.Package) {
	for _, p := range in.prog.AllPackages() {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			if f, ok := specialGlobals[g.RelString(nil)]; ok {
				in.globals[g] = in.alloc(st, f(in, st))
			}
		}
	}
	for _, p := range pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				in.globals[g] = in.alloc(st, zeroValue(g.Type().Underlying().(*types.Pointer).Elem()))
			}
		}
	}
	for _, p := range pkgs {
		p.Build()
		in.depth = 0
		in.call(st, p.Func("init"), nil, nil, token.NoPos)
	}
	in.depth = 0
}

var bigOne = big.NewInt(1)
