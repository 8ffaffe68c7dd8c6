package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// JSON texts are kept as trees: jobj(key,value,...), jarr(...), jnum(int),
// jstr(bytes), jb64(bytes), jbool(bool), jelem(element), jnull, jbad (not
// JSON) and jraw(text) for a text nothing is known about.

var (
	jNull = mkStruct("jnull")
	jBad  = mkStruct("jbad")
)

func jsonBytes(t *Node) *Node {
	return mtMap(t, func(t *Node) *Node {
		if t.op == "jraw" {
			return t.args[0]
		}
		return bytesOf(rawAtom(SBytes, "json", t))
	})
}

func jsonTree(b *Node) *Node {
	return mtMap(b, func(b *Node) *Node {
		b = toBytes(b)
		if len(b.segs) == 1 && b.segs[0].op == "json" {
			return b.segs[0].args[0]
		}
		if s, ok := constBytes(b); ok {
			return parseTree(s)
		}
		for _, s := range b.segs {
			if s.op == "json" {
				// more text around a JSON text
				return mkStruct("jraw", b)
			}
		}
		return mkStruct("jraw", b)
	})
}

func parseTree(s string) *Node {
	if !json.Valid([]byte(s)) {
		return jBad
	}
	d := json.NewDecoder(bytes.NewReader([]byte(s)))
	d.UseNumber()
	var val func() *Node
	val = func() *Node {
		t, err := d.Token()
		if err != nil {
			return jBad
		}
		switch x := t.(type) {
		case nil:
			return jNull
		case bool:
			return mkStruct("jbool", boolNode(x))
		case string:
			return mkStruct("jstr", strNode(x))
		case json.Number:
			b, ok := new(big.Int).SetString(string(x), 10)
			if !ok {
				return mkStruct("jfloat")
			}
			return mkStruct("jnum", bigNode(b))
		case json.Delim:
			var args []*Node
			if x == '[' {
				for d.More() {
					args = append(args, val())
				}
				d.Token()
				return mkStruct("jarr", args...)
			}
			for d.More() {
				k, _ := d.Token()
				args = append(args, strNode(k.(string)), val())
			}
			d.Token()
			return mkStruct("jobj", args...)
		}
		return jBad
	}
	return val()
}

// ---- fields of structures, with the rules of encoding/json

type jfieldInfo struct {
	name   string
	index  []int
	typ    types.Type
	tagged bool
	omit   bool
}

func jsonFields(t *types.Struct) []jfieldInfo {
	type item struct {
		st    *types.Struct
		index []int
	}
	var all []jfieldInfo
	depthOf := map[string]int{}
	level := []item{{t, nil}}
	seen := map[*types.Struct]bool{}
	for depth := 0; len(level) > 0; depth++ {
		var next []item
		for _, it := range level {
			if seen[it.st] {
				continue
			}
			seen[it.st] = true
			for i := 0; i < it.st.NumFields(); i++ {
				f := it.st.Field(i)
				ft := f.Type()
				if f.Embedded() {
					b := ft
					if p, ok := b.Underlying().(*types.Pointer); ok {
						b = p.Elem()
					}
					if _, isStruct := b.Underlying().(*types.Struct); !f.Exported() && !isStruct {
						continue
					}
				} else if !f.Exported() {
					continue
				}
				tag := reflect.StructTag(it.st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				omit := false
				for _, o := range strings.Split(opts, ",") {
					switch o {
					case "omitempty", "omitzero":
						omit = true
					case "string":
						fail("json option string")
					}
				}
				idx := append(append([]int(nil), it.index...), i)
				if name == "" && f.Embedded() {
					if st, ok := ft.Underlying().(*types.Struct); ok && !hasMethod(ft, "MarshalJSON") {
						next = append(next, item{st, idx})
						continue
					}
					if _, ok := ft.Underlying().(*types.Pointer); ok {
						fail("embedded pointer in a JSON structure")
					}
				}
				tagged := name != ""
				if !tagged {
					name = f.Name()
				}
				all = append(all, jfieldInfo{name, idx, ft, tagged, omit})
				if _, ok := depthOf[name]; !ok {
					depthOf[name] = depth
				}
			}
		}
		level = next
	}
	// dominant fields
	var out []jfieldInfo
	for i, f := range all {
		keep := true
		for k, g := range all {
			if k == i || g.name != f.name {
				continue
			}
			if len(g.index) < len(f.index) || len(g.index) == len(f.index) && (g.tagged && !f.tagged || g.tagged == f.tagged) {
				keep = false
			}
		}
		if keep {
			out = append(out, f)
		}
	}
	// in the order of the index
	for i := range out {
		for k := i; k > 0 && lessIndex(out[k].index, out[k-1].index); k-- {
			out[k], out[k-1] = out[k-1], out[k]
		}
	}
	return out
}

func lessIndex(a, b []int) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name && ms.At(i).Obj().Exported() {
			return true
		}
	}
	return false
}

func (in *interp) method(t types.Type, name string) *ssa.Function {
	if !hasMethod(t, name) {
		return nil
	}
	return in.prog.LookupMethod(t, nil, name)
}

func isRawMessage(t types.Type) bool {
	return types.TypeString(types.Unalias(t), nil) == "encoding/json.RawMessage" || types.TypeString(types.Unalias(t), nil) == "encoding/json/jsontext.Value"
}

// ---- encoding

type jenc struct {
	in  *interp
	pos token.Pos
	err *bdd
}

func (j *jenc) viaMethod(st *state, r *Node) *Node {
	// r is the result of a MarshalJSON method
	e := mtMap(r, func(r *Node) *Node {
		if r.kind != KTuple {
			return ff
		}
		return mkBool(bddNot(j.in.eqVals(st, r.args[1], nilNode)))
	})
	j.err = bddOr(j.err, bddAnd(st.cond, toBool(e)))
	b := mtMap(r, func(r *Node) *Node {
		if r.kind != KTuple {
			return undef
		}
		return r.args[0]
	})
	return mtMap(jsonTree(j.in.sliceBytes(st, b)), func(t *Node) *Node {
		if t == jBad {
			fail("MarshalJSON gives something that is not JSON")
		}
		return t
	})
}

func jsonText(s *Node) *Node {
	return mtMap(s, func(s *Node) *Node {
		s = toBytes(s)
		if t, ok := constBytes(s); ok && utf8.ValidString(t) {
			return s
		}
		if len(s.segs) == 1 && (s.segs[0].op == "dec" || s.segs[0].op == "hex" || s.segs[0].op == "text" || s.segs[0].op == "b64") {
			return s
		}
		return bytesOf(rawAtom(SBytes, "utf8", s))
	})
}

func (j *jenc) enc(st *state, v *Node, t types.Type, addr *Node) *Node {
	in := j.in
	if v.kind == KMT {
		return in.split(st, v, func(s *state, v *Node) *Node { return j.enc(s, v, t, nil) })
	}
	if v.kind == KUndef {
		return undef
	}
	if isRawMessage(t) {
		if v.kind == KNil {
			return jNull
		}
		return jsonTree(in.sliceBytes(st, v))
	}
	switch t.Underlying().(type) {
	case *types.Interface:
		switch v.kind {
		case KNil:
			return jNull
		case KIface:
			if v.op[0] == '!' {
				f, ok := lib[v.op+".MarshalJSON"]
				if !ok {
					fail("JSON encoding of %s", v.op)
				}
				return j.viaMethod(st, f(&call{in: in, st: st, args: []*Node{v}, pos: j.pos}))
			}
			return j.enc(st, v.args[0], typeReg[v.op], nil)
		}
		fail("JSON encoding of %s", show(v))
	case *types.Pointer:
		if v.kind == KNil {
			return jNull
		}
	}
	if fn := in.method(t, "MarshalJSON"); fn != nil {
		return j.viaMethod(st, in.callFn(st, fn, []*Node{v}, nil, j.pos))
	}
	if addr != nil {
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
			if fn := in.method(types.NewPointer(t), "MarshalJSON"); fn != nil {
				return j.viaMethod(st, in.callFn(st, fn, []*Node{addr}, nil, j.pos))
			}
		}
	}
	if hasMethod(t, "MarshalText") {
		fail("JSON encoding through MarshalText of %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return j.enc(st, in.load(st, v, j.pos), u.Elem(), v)
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkStruct("jbool", mkBool(toBool(v)))
		case u.Info()&types.IsString != 0:
			t := jsonText(v)
			if t.kind == KBytes && len(t.segs) == 1 && t.segs[0].op == "b64" {
				return mkStruct("jb64", t.segs[0].args[0])
			}
			return mkStruct("jstr", t)
		case u.Info()&types.IsInteger != 0:
			return mkStruct("jnum", asInt(v))
		}
	case *types.Struct:
		var args []*Node
		for _, f := range jsonFields(u) {
			x := v
			a := addr
			for _, i := range f.index {
				if x.kind != KStruct {
					fail("JSON encoding of %s", show(x))
				}
				x = x.args[i]
				if a != nil {
					a = in.subRef(st, a, intNode(int64(i)), j.pos)
				}
			}
			if f.omit {
				fail("JSON option omitempty")
			}
			args = append(args, strNode(f.name), j.enc(st, x, f.typ, a))
		}
		return mkStruct("jobj", args...)
	case *types.Slice:
		if v.kind == KNil {
			return jNull
		}
		if isByteElem(u.Elem()) {
			return mkStruct("jb64", in.sliceBytes(st, v))
		}
		k, ok := constI(v.args[2])
		if !ok {
			fail("JSON encoding of a slice of unknown length")
		}
		var args []*Node
		for i := int64(0); i < k; i++ {
			r := rawKind(KRef, "", append(append([]*Node(nil), v.args[0].args...), addInt(v.args[1], intNode(i)))...)
			args = append(args, j.enc(st, in.loadLeaf(st, r), u.Elem(), r))
		}
		return mkStruct("jarr", args...)
	case *types.Array:
		if v.kind == KStruct {
			var args []*Node
			for _, x := range v.args {
				args = append(args, j.enc(st, x, u.Elem(), nil))
			}
			return mkStruct("jarr", args...)
		}
	}
	if u, ok := t.Underlying().(*types.Map); ok {
		if v.kind == KNil {
			return jNull
		}
		m := in.load(st, v, j.pos)
		var keys []string
		vals := map[string]*Node{}
		for i := 0; m.kind == KStruct && m.op == "map" && i < len(m.args); i += 2 {
			k, ok := constBytes(toBytes(m.args[i]))
			if b, isB := u.Key().Underlying().(*types.Basic); !ok || !isB || b.Info()&types.IsString == 0 {
				fail("JSON encoding of type %s", t)
			}
			keys = append(keys, k)
			vals[k] = m.args[i+1]
		}
		sort.Strings(keys)
		var args []*Node
		for _, k := range keys {
			args = append(args, strNode(k), j.enc(st, vals[k], u.Elem(), nil))
		}
		return mkStruct("jobj", args...)
	}
	fail("JSON encoding of type %s", t)
	return nil
}

// ---- decoding

type jdec struct {
	in  *interp
	pos token.Pos
}

func jsrc(t *Node) *Node { return t.args[0] }

func jbool(op string, src *Node) *bdd { return bddVar(rawAtom(SBool, op, src)) }

// dec stores a JSON value at an address and gives the condition under which it fails.
func (j *jdec) dec(st *state, tree, addr *Node, t types.Type) *bdd {
	in := j.in
	if tree.kind == KMT {
		return toBool(in.split(st, tree, func(s *state, tr *Node) *Node { return mkBool(j.dec(s, tr, addr, t)) }))
	}
	if tree.op == "jabsent" || tree.kind == KUndef {
		return bddF
	}
	pt := types.NewPointer(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return j.nullOr(st, tree, func(s *state) { in.store(s, addr, nilNode, j.pos) }, func(s *state, tr *Node) *bdd {
			p := in.load(s, addr, j.pos)
			return toBool(in.split(s, p, func(s *state, p *Node) *Node {
				if p.kind == KNil {
					p = in.alloc(s, zeroValue(u.Elem()))
					in.store(s, addr, p, j.pos)
				}
				return mkBool(j.dec(s, tr, p, u.Elem()))
			}))
		})
	case *types.Interface:
		v := in.load(st, addr, j.pos)
		return toBool(in.split(st, v, func(s *state, v *Node) *Node {
			return mkBool(j.nullOr(s, tree, func(s *state) { in.store(s, addr, nilNode, j.pos) }, func(s *state, tr *Node) *bdd {
				if v.kind == KIface && v.op == "!elem" {
					r := lib["!elem.UnmarshalJSON"](&call{in: in, st: s, args: []*Node{v, in.bytesAsSlice(s, jsonBytes(tr))}, pos: j.pos})
					return bddNot(in.eqVals(s, r, nilNode))
				}
				if v.kind == KIface && v.op[0] != '!' {
					if p, ok := typeReg[v.op].Underlying().(*types.Pointer); ok && v.args[0].kind == KRef {
						return j.dec(s, tr, v.args[0], p.Elem())
					}
				}
				if u.NumMethods() > 0 {
					return bddT
				}
				fail("JSON value decoded into an interface")
				return nil
			}))
		}))
	}
	if isRawMessage(t) {
		in.store(st, addr, in.bytesAsSlice(st, jsonBytes(tree)), j.pos)
		return bddF
	}
	if fn := in.method(pt, "UnmarshalJSON"); fn != nil {
		r := in.callFn(st, fn, []*Node{addr, in.bytesAsSlice(st, jsonBytes(tree))}, nil, j.pos)
		if !feasible(st.cond) {
			return bddF
		}
		return bddNot(in.eqVals(st, r, nilNode))
	}
	if hasMethod(pt, "UnmarshalText") {
		fail("JSON decoding through UnmarshalText of %s", t)
	}
	none := func(*state) {}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return j.nullOr(st, tree, none, func(s *state, tr *Node) *bdd { return j.basic(s, tr, addr, u) })
	case *types.Struct:
		return j.nullOr(st, tree, none, func(s *state, tr *Node) *bdd { return j.object(s, tr, addr, u) })
	case *types.Slice:
		return j.nullOr(st, tree, func(s *state) { in.store(s, addr, nilNode, j.pos) }, func(s *state, tr *Node) *bdd { return j.array(s, tr, addr, u) })
	}
	fail("JSON decoding into %s", t)
	return nil
}

// nullOr separates the null value from the others.
func (j *jdec) nullOr(st *state, tree *Node, null func(*state), other func(*state, *Node) *bdd) *bdd {
	if tree.kind == KMT {
		return toBool(j.in.split(st, tree, func(s *state, tr *Node) *Node { return mkBool(j.nullOr(s, tr, null, other)) }))
	}
	switch {
	case tree == jNull:
		null(st)
		return bddF
	case tree.op == "jraw":
		c := iteV(jbool("jnull", jsrc(tree)), jNull, mkStruct("jsome", tree))
		return toBool(j.in.split(st, c, func(s *state, tr *Node) *Node {
			if tr == jNull {
				null(s)
				return ff
			}
			return mkBool(other(s, tree))
		}))
	}
	return other(st, tree)
}

func (j *jdec) basic(st *state, tree, addr *Node, u *types.Basic) *bdd {
	in := j.in
	put := func(bad *bdd, v *Node) *bdd {
		cur := in.load(st, addr, j.pos)
		in.store(st, addr, iteV(bad, cur, v), j.pos)
		return bad
	}
	switch {
	case u.Info()&types.IsInteger != 0:
		name := normIntName(u.Name())
		lo, hi := typeRange(name)
		switch tree.op {
		case "jnum":
			x := tree.args[0]
			bad := bddOr(pos(subInt(bigNode(lo), x)), pos(subInt(x, bigNode(hi))))
			return put(bad, x)
		case "jraw":
			a := rawAtom(SInt, "jint:"+name, jsrc(tree))
			atomLo[a], atomUp[a] = lo, hi
			return put(jbool("jinterr:"+name, jsrc(tree)), asInt(a))
		}
		return bddT
	case u.Info()&types.IsString != 0:
		switch tree.op {
		case "jstr":
			return put(bddF, tree.args[0])
		case "jb64":
			b := mtMap(tree.args[0], func(b *Node) *Node {
				if s, ok := constBytes(toBytes(b)); ok {
					return strNode(base64.StdEncoding.EncodeToString([]byte(s)))
				}
				return bytesOf(rawAtom(SBytes, "b64", b))
			})
			return put(bddF, b)
		case "jraw":
			return put(jbool("jstrerr", jsrc(tree)), bytesOf(rawAtom(SBytes, "jstrval", jsrc(tree))))
		}
		return bddT
	case u.Info()&types.IsBoolean != 0:
		switch tree.op {
		case "jbool":
			return put(bddF, tree.args[0])
		case "jraw":
			return put(jbool("jboolerr", jsrc(tree)), mkBool(jbool("jboolval", jsrc(tree))))
		}
		return bddT
	}
	fail("JSON decoding into %s", u)
	return nil
}

func (j *jdec) object(st *state, tree, addr *Node, u *types.Struct) *bdd {
	in := j.in
	fields := jsonFields(u)
	at := func(f jfieldInfo, s *state) *Node {
		a := addr
		for _, i := range f.index {
			a = in.subRef(s, a, intNode(int64(i)), j.pos)
		}
		return a
	}
	switch tree.op {
	case "jobj":
		bad := bddF
		for i := 0; i+1 < len(tree.args); i += 2 {
			k, ok := constBytes(tree.args[i])
			if !ok {
				fail("JSON object with a computed key")
			}
			var hit *jfieldInfo
			for n := range fields {
				if fields[n].name == k {
					hit = &fields[n]
				}
			}
			for n := range fields {
				if hit == nil && strings.EqualFold(fields[n].name, k) {
					hit = &fields[n]
				}
			}
			if hit == nil {
				continue
			}
			bad = bddOr(bad, j.dec(st, tree.args[i+1], at(*hit, st), hit.typ))
		}
		return bad
	case "jraw":
		src := jsrc(tree)
		notObj := jbool("jobjerr", src)
		c := iteV(notObj, mkStruct("jabsent"), mkStruct("jsome", tree))
		return toBool(in.split(st, c, func(s *state, c *Node) *Node {
			if c.op == "jabsent" {
				return tt
			}
			bad := bddF
			for _, f := range fields {
				// keys are matched without regard to case
				key := strNode(strings.ToLower(f.name))
				sub := bytesOf(rawAtom(SBytes, "jfield", src, key))
				tr := iteV(bddVar(rawAtom(SBool, "jmissing", src, key)), mkStruct("jabsent"), mkStruct("jraw", sub))
				bad = bddOr(bad, j.dec(s, tr, at(f, s), f.typ))
			}
			return mkBool(bad)
		}))
	}
	return bddT
}

func (j *jdec) array(st *state, tree, addr *Node, u *types.Slice) *bdd {
	in := j.in
	if isByteElem(u.Elem()) {
		switch tree.op {
		case "jb64":
			in.store(st, addr, in.bytesAsSlice(st, tree.args[0]), j.pos)
			return bddF
		case "jstr":
			s, ok := constBytes(toBytes(tree.args[0]))
			if !ok {
				if b := toBytes(tree.args[0]); len(b.segs) == 1 && b.segs[0].op == "b64" {
					in.store(st, addr, in.bytesAsSlice(st, b.segs[0].args[0]), j.pos)
					return bddF
				}
				fail("base64 decoding of %s", show(tree))
			}
			d, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				return bddT
			}
			in.store(st, addr, in.bytesAsSlice(st, strNode(string(d))), j.pos)
			return bddF
		case "jraw":
			e := jbool("jb64err", jsrc(tree))
			cur := in.load(st, addr, j.pos)
			in.store(st, addr, iteV(e, cur, in.bytesAsSlice(st, bytesOf(rawAtom(SBytes, "jb64v", jsrc(tree))))), j.pos)
			return e
		}
		return bddT
	}
	var elems []*Node
	bad := bddF
	switch tree.op {
	case "jarr":
		elems = tree.args
	case "jraw":
		src := jsrc(tree)
		name := ""
		if len(src.segs) == 1 && src.segs[0].op == "jfield" {
			name, _ = constBytes(src.segs[0].args[1])
		}
		n, ok := in.shapes[name]
		if !ok {
			fail("JSON list %q of unknown length", name)
		}
		bad = jbool("jarrerr", src)
		for i := 0; i < n; i++ {
			elems = append(elems, mkStruct("jraw", bytesOf(rawAtom(SBytes, "jitem", src, intNode(int64(i))))))
		}
	default:
		return bddT
	}
	k := intNode(int64(len(elems)))
	root := in.alloc(st, zeroArray(u.Elem(), int64(len(elems))))
	in.store(st, addr, mkSlice(root, zero, k, k), j.pos)
	for i, e := range elems {
		bad = bddOr(bad, j.dec(st, e, in.subRef(st, root, intNode(int64(i)), j.pos), u.Elem()))
	}
	return bad
}

func init() {
	marshal := func(c *call) *Node {
		j := &jenc{in: c.in, pos: c.pos, err: bddF}
		any := types.NewInterfaceType(nil, nil)
		t := j.enc(c.st, c.args[0], any, nil)
		if !feasible(c.st.cond) {
			return undef
		}
		s := c.in.bytesAsSlice(c.st, jsonBytes(t))
		return tuple(iteV(j.err, nilNode, s), mkErr(bddRestrict(j.err, c.st.cond)))
	}
	lib["encoding/json.Marshal"] = marshal
	lib["encoding/json.MarshalIndent"] = marshal
	unmarshal := func(c *call, b, v *Node) *Node {
		return c.in.split(c.st, v, func(s *state, v *Node) *Node {
			return c.in.split(s, jsonTree(b), func(s *state, tree *Node) *Node {
				if v.kind != KIface || v.op[0] == '!' && v.op != "!elem" {
					return mkErr(bddT)
				}
				if tree == jBad {
					return mkErr(bddT)
				}
				j := &jdec{c.in, c.pos}
				run := func(s *state) *bdd {
					if v.op == "!elem" {
						r := lib["!elem.UnmarshalJSON"](&call{in: c.in, st: s, args: []*Node{v, c.in.bytesAsSlice(s, jsonBytes(tree))}, pos: c.pos})
						return bddNot(c.in.eqVals(s, r, nilNode))
					}
					p, ok := typeReg[v.op].Underlying().(*types.Pointer)
					if !ok || v.args[0].kind == KNil {
						return bddT
					}
					return j.dec(s, tree, v.args[0], p.Elem())
				}
				if tree.op == "jraw" {
					bad := iteV(jbool("jsyntax", jsrc(tree)), mkStruct("jabsent"), mkStruct("jsome"))
					return mkErr(toBool(c.in.split(s, bad, func(s *state, x *Node) *Node {
						if x.op == "jabsent" {
							return tt
						}
						return mkBool(run(s))
					})))
				}
				return mkErr(run(s))
			})
		})
	}
	lib["encoding/json.Unmarshal"] = func(c *call) *Node {
		return unmarshal(c, c.in.sliceBytes(c.st, c.args[0]), c.args[1])
	}
	lib["encoding/json.Valid"] = func(c *call) *Node {
		return mtMap(jsonTree(c.in.sliceBytes(c.st, c.args[0])), func(t *Node) *Node {
			switch {
			case t == jBad:
				return ff
			case t.op == "jraw":
				return mkBool(bddNot(jbool("jsyntax", jsrc(t))))
			}
			return tt
		})
	}
	// an encoder over a buffer or a hash
	lib["encoding/json.NewEncoder"] = func(c *call) *Node {
		return c.in.alloc(c.st, mkStruct("jsonenc", c.args[0]))
	}
	lib["(*encoding/json.Encoder).Encode"] = func(c *call) *Node {
		w := c.in.load(c.st, c.args[0], c.pos).args[0]
		r := marshal(&call{in: c.in, st: c.st, args: c.args[1:], pos: c.pos})
		return c.in.split(c.st, r, func(st *state, r *Node) *Node {
			if r.kind != KTuple {
				return r
			}
			return c.in.split(st, r.args[1], func(st *state, e *Node) *Node {
				if c.in.eqVals(st, e, nilNode) != bddT {
					return e
				}
				b := cat(c.in.sliceBytes(st, r.args[0]), strNode("\n"))
				lib["io.WriteString"](&call{in: c.in, st: st, args: []*Node{w, b}, pos: c.pos})
				return nilNode
			})
		})
	}
	lib["(*encoding/json.Encoder).SetIndent"] = func(c *call) *Node { return tuple() }
	// a decoder over a buffer
	lib["encoding/json.NewDecoder"] = func(c *call) *Node {
		r := c.args[0]
		if r.kind != KIface || (r.op != "*bytes.Reader" && r.op != "*bytes.Buffer" && r.op != "*strings.Reader") {
			c.fail("JSON decoder over %s", show(r))
		}
		return r.args[0]
	}
	lib["(*encoding/json.Decoder).Decode"] = func(c *call) *Node {
		return unmarshal(c, c.in.load(c.st, c.args[0], c.pos), c.args[1])
	}
	lib["(*encoding/json.Decoder).UseNumber"] = func(c *call) *Node { return tuple() }
	lib["bytes.NewReader"] = func(c *call) *Node { return c.in.alloc(c.st, c.in.sliceBytes(c.st, c.args[0])) }
	lib["strings.NewReader"] = func(c *call) *Node { return c.in.alloc(c.st, c.args[0]) }
	lib["(encoding/json.RawMessage).MarshalJSON"] = func(c *call) *Node {
		return c.in.split(c.st, c.args[0], func(s *state, n *Node) *Node {
			if n.kind == KNil {
				return tuple(c.in.bytesAsSlice(s, jsonBytes(jNull)), nilNode)
			}
			return tuple(n, nilNode)
		})
	}
	// the standard encoding is the one of []byte in JSON
	b64op := func(c *call) string {
		switch c.args[0].op {
		case "b64std":
			return "b64"
		case "b64rawstd", "b64url", "b64rawurl":
			return c.args[0].op
		}
		c.fail("base64 encoding")
		return ""
	}
	lib["(*encoding/base64.Encoding).EncodeToString"] = func(c *call) *Node {
		op := b64op(c)
		return mtMap(c.in.sliceBytes(c.st, c.args[1]), func(b *Node) *Node {
			if s, ok := constBytes(toBytes(b)); ok && op == "b64" {
				return strNode(base64.StdEncoding.EncodeToString([]byte(s)))
			}
			return bytesOf(rawAtom(SBytes, op, b))
		})
	}
	lib["(*encoding/base64.Encoding).DecodeString"] = func(c *call) *Node {
		op := b64op(c)
		return c.in.split(c.st, c.args[1], func(s *state, b *Node) *Node {
			b = toBytes(b)
			if len(b.segs) == 1 && b.segs[0].op == op {
				return tuple(c.in.bytesAsSlice(s, b.segs[0].args[0]), nilNode)
			}
			if t, ok := constBytes(b); ok && op == "b64" {
				d, err := base64.StdEncoding.DecodeString(t)
				if err == nil {
					return tuple(c.in.bytesAsSlice(s, strNode(string(d))), nilNode)
				}
			}
			return tuple(c.in.bytesAsSlice(s, bytesOf(rawAtom(SBytes, "un"+op, b))), mkErr(bddVar(rawAtom(SBool, op+"err", b))))
		})
	}
	lib["encoding/hex.EncodeToString"] = func(c *call) *Node {
		return mtMap(c.in.sliceBytes(c.st, c.args[0]), func(b *Node) *Node {
			if s, ok := constBytes(toBytes(b)); ok {
				return strNode(hex.EncodeToString([]byte(s)))
			}
			return bytesOf(rawAtom(SBytes, "hex", b))
		})
	}
	lib["encoding/hex.DecodeString"] = func(c *call) *Node {
		return c.in.split(c.st, c.args[0], func(s *state, b *Node) *Node {
			b = toBytes(b)
			if len(b.segs) == 1 && b.segs[0].op == "hex" {
				return tuple(c.in.bytesAsSlice(s, b.segs[0].args[0]), nilNode)
			}
			if t, ok := constBytes(b); ok {
				d, err := hex.DecodeString(t)
				if err != nil {
					return tuple(c.in.bytesAsSlice(s, strNode(string(d))), mkErr(bddT))
				}
				return tuple(c.in.bytesAsSlice(s, strNode(string(d))), nilNode)
			}
			return tuple(c.in.bytesAsSlice(s, bytesOf(rawAtom(SBytes, "unhex", b))), mkErr(bddVar(rawAtom(SBool, "hexerr", b))))
		})
	}
}
