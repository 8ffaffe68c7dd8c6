package main

import (
	"bytes"
	"html"
	"math"
	"math/big"
	"math/bits"
	"path"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// native lists library functions that depend on nothing but their arguments.
// A call whose arguments are fixed by the shape of the data is replaced by
// its value; any other call is interpreted from its source, if there is one.
var native = map[string]any{
	"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
	"strings.Count": strings.Count, "strings.EqualFold": strings.EqualFold, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Index": strings.Index, "strings.IndexAny": strings.IndexAny, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte, "strings.Title": strings.ToTitle,
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter, "strings.Compare": strings.Compare, "strings.Clone": strings.Clone,
	"strings.ToTitle": strings.ToTitle, "strings.ToValidUTF8": strings.ToValidUTF8,
	"bytes.HasPrefix": bytes.HasPrefix, "bytes.HasSuffix": bytes.HasSuffix, "bytes.Contains": bytes.Contains, "bytes.Index": bytes.Index,
	"bytes.IndexByte": bytes.IndexByte, "bytes.Compare": bytes.Compare, "bytes.Count": bytes.Count, "bytes.TrimLeft": bytes.TrimLeft,
	"bytes.TrimRight": bytes.TrimRight, "bytes.Trim": bytes.Trim, "bytes.TrimSpace": bytes.TrimSpace, "bytes.ToUpper": bytes.ToUpper,
	"bytes.ToLower": bytes.ToLower, "bytes.Repeat": bytes.Repeat, "bytes.TrimPrefix": bytes.TrimPrefix, "bytes.TrimSuffix": bytes.TrimSuffix,
	"bytes.ReplaceAll": bytes.ReplaceAll,
	"strconv.Atoi":     strconv.Atoi, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.ParseBool": strconv.ParseBool,
	"strconv.Quote": strconv.Quote, "strconv.FormatBool": strconv.FormatBool, "strconv.AppendInt": strconv.AppendInt, "strconv.Unquote": strconv.Unquote,
	"strconv.AppendUint": strconv.AppendUint, "strconv.AppendQuote": strconv.AppendQuote,
	"math.Exp2": math.Exp2, "math.Exp": math.Exp, "math.Abs": math.Abs, "math.Trunc": math.Trunc, "math.Cbrt": math.Cbrt, "math.Ilogb": math.Ilogb,
	"math.Logb": math.Logb, "math.Max": math.Max, "math.Min": math.Min, "math.Mod": math.Mod, "math.Frexp": math.Frexp, "math.Ldexp": math.Ldexp,
	"math.Modf": math.Modf, "math.RoundToEven": math.RoundToEven, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Inf": math.Inf,
	"math.Log1p": math.Log1p, "math.Hypot": math.Hypot, "math.Float64bits": math.Float64bits, "math.Signbit": math.Signbit, "math.Pow10": math.Pow10,
	"math/bits.Len": func(x uint64) int { return bits.Len64(x) }, "math/bits.Len8": bits.Len8, "math/bits.Len16": bits.Len16,
	"math/bits.Len32": bits.Len32, "math/bits.Len64": bits.Len64,
	"math/bits.LeadingZeros": func(x uint64) int { return bits.LeadingZeros64(x) }, "math/bits.LeadingZeros8": bits.LeadingZeros8,
	"math/bits.LeadingZeros16": bits.LeadingZeros16, "math/bits.LeadingZeros32": bits.LeadingZeros32, "math/bits.LeadingZeros64": bits.LeadingZeros64,
	"math/bits.TrailingZeros": func(x uint64) int {
		if x == 0 {
			return 64
		}
		return bits.TrailingZeros64(x)
	}, "math/bits.TrailingZeros8": bits.TrailingZeros8, "math/bits.TrailingZeros16": bits.TrailingZeros16,
	"math/bits.TrailingZeros32": bits.TrailingZeros32, "math/bits.TrailingZeros64": bits.TrailingZeros64,
	"math/bits.OnesCount": func(x uint64) int { return bits.OnesCount64(x) }, "math/bits.OnesCount8": bits.OnesCount8,
	"math/bits.OnesCount16": bits.OnesCount16, "math/bits.OnesCount32": bits.OnesCount32, "math/bits.OnesCount64": bits.OnesCount64,
	"math/bits.Reverse8": bits.Reverse8, "math/bits.Reverse16": bits.Reverse16, "math/bits.Reverse32": bits.Reverse32, "math/bits.Reverse64": bits.Reverse64,
	"math/bits.ReverseBytes32": bits.ReverseBytes32, "math/bits.ReverseBytes64": bits.ReverseBytes64,
	"math/bits.RotateLeft8": bits.RotateLeft8, "math/bits.RotateLeft32": bits.RotateLeft32, "math/bits.RotateLeft64": bits.RotateLeft64,
	"unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"html.EscapeString": html.EscapeString, "path.Base": path.Base, "path.Join": path.Join,
	"internal/bytealg.IndexByteString": strings.IndexByte, "internal/bytealg.IndexByte": bytes.IndexByte, "internal/bytealg.CountString": func(s string, b byte) int { return strings.Count(s, string(b)) },
	"internal/bytealg.IndexString": strings.Index, "internal/stringslite.Index": strings.Index, "internal/stringslite.IndexByte": strings.IndexByte,
	"internal/stringslite.HasPrefix": strings.HasPrefix, "internal/stringslite.HasSuffix": strings.HasSuffix, "internal/stringslite.Cut": strings.Cut,
}

// goValue gives the Go value of an argument fixed by the shape of the data.
func (c *call) goValue(n *Node, t reflect.Type) (v reflect.Value, ok bool) {
	v = reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		if n.kind == KMT || n.kind == KUndef {
			return v, false
		}
		s, ok := constBytes(toBytes(n))
		v.SetString(s)
		return v, ok
	case reflect.Bool:
		b := toBool(n)
		v.SetBool(b == bddT)
		return v, b == bddT || b == bddF
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		k, ok := constOf(asInt(n))
		if !ok || !k.IsInt64() || v.OverflowInt(k.Int64()) {
			return v, false
		}
		v.SetInt(k.Int64())
		return v, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		k, ok := constOf(asInt(n))
		if !ok || !k.IsUint64() || v.OverflowUint(k.Uint64()) {
			return v, false
		}
		v.SetUint(k.Uint64())
		return v, true
	case reflect.Float64:
		f, ok := floatOf(n)
		v.SetFloat(f)
		return v, ok
	case reflect.Slice:
		if n.kind != KSlice && n.kind != KNil {
			return v, false
		}
		if t.Elem().Kind() == reflect.Uint8 {
			s, ok := constBytes(toBytes(c.in.sliceBytes(c.st, n)))
			if n.kind != KNil {
				v.SetBytes([]byte(s))
			}
			return v, ok
		}
		if n.kind == KSlice {
			if _, ok := constI(n.args[2]); !ok {
				return v, false
			}
		}
		for _, x := range c.list(n) {
			e, ok := c.goValue(x, t.Elem())
			if !ok {
				return v, false
			}
			v = reflect.Append(v, e)
		}
		return v, true
	}
	return v, false
}

func (c *call) nodeOf(v reflect.Value) *Node {
	switch v.Kind() {
	case reflect.String:
		return strNode(v.String())
	case reflect.Bool:
		if v.Bool() {
			return tt
		}
		return ff
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return intNode(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return bigNode(new(big.Int).SetUint64(v.Uint()))
	case reflect.Float64:
		return floatNode(v.Float())
	case reflect.Interface: // an error
		if v.IsNil() {
			return nilNode
		}
		return mkErr(bddT)
	case reflect.Slice:
		if v.IsNil() {
			return nilNode
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return c.in.bytesAsSlice(c.st, strNode(string(v.Bytes())))
		}
		var out []*Node
		for i := 0; i < v.Len(); i++ {
			out = append(out, c.nodeOf(v.Index(i)))
		}
		n := intNode(int64(len(out)))
		return mkSlice(c.in.alloc(c.st, mkStruct("array", out...)), zero, n, n)
	}
	c.fail("library result of type %s", v.Type())
	return nil
}

// callNative replaces a call by its value where that is known.
func (in *interp) callNative(f any, c *call) (*Node, bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	if ft.NumIn() != len(c.args) {
		return nil, false
	}
	var args []reflect.Value
	for i, a := range c.args {
		v, ok := c.goValue(a, ft.In(i))
		if !ok {
			return nil, false
		}
		args = append(args, v)
	}
	var rs []reflect.Value
	if ft.IsVariadic() {
		rs = fv.CallSlice(args)
	} else {
		rs = fv.Call(args)
	}
	if len(rs) == 1 {
		return c.nodeOf(rs[0]), true
	}
	var out []*Node
	for _, r := range rs {
		out = append(out, c.nodeOf(r))
	}
	return tuple(out...), true
}

func init() {
	// an error found in another's chain: some property of the two, and none
	// of a nil error
	lib["errors.Is"] = func(c *call) *Node {
		e, t := c.args[0], c.args[1]
		none := c.in.eqVals(c.st, e, nilNode)
		tnil := c.in.eqVals(c.st, t, nilNode)
		same := bddF
		if e == t {
			same = bddT
		} else {
			same = bddVar(rawAtom(SBool, "errIs", e, t))
		}
		return mkBool(bddOr(bddAnd(none, tnil), bddAnd(bddNot(none), bddAnd(bddNot(tnil), same))))
	}
	lib["errors.Unwrap"] = func(c *call) *Node {
		none := c.in.eqVals(c.st, c.args[0], nilNode)
		return mkErr(bddAnd(bddNot(none), bddVar(rawAtom(SBool, "wraps", c.args[0]))))
	}
	// copies of overlapping parts of one array are not followed
	lib["slices.overlaps"] = func(c *call) *Node {
		a, b := c.args[0], c.args[1]
		if a.kind == KNil || b.kind == KNil {
			return ff
		}
		if a.kind != KSlice || b.kind != KSlice || a.args[0] == b.args[0] {
			c.fail("slices that may overlap")
		}
		return ff
	}
	lib["maps.Clone"] = func(c *call) *Node {
		return c.in.split(c.st, c.args[0], func(st *state, m *Node) *Node {
			if m.kind == KNil {
				return nilNode
			}
			return c.in.alloc(st, c.in.load(st, m, c.pos))
		})
	}
	lib["strings.Clone"] = func(c *call) *Node { return c.args[0] }
	lib["maps.clone"] = lib["maps.Clone"]
	lib["strings.FieldsFunc"] = func(c *call) *Node {
		var out []*Node
		for _, f := range strings.FieldsFunc(c.constStr(0), func(r rune) bool {
			b := toBool(c.in.callValue(c.st, c.args[1], []*Node{intNode(int64(r))}, c.pos))
			if b != bddT && b != bddF {
				c.fail("strings.FieldsFunc")
			}
			return b == bddT
		}) {
			out = append(out, strNode(f))
		}
		n := intNode(int64(len(out)))
		return mkSlice(c.in.alloc(c.st, mkStruct("array", out...)), zero, n, n)
	}
	for _, f := range []string{"sort.Slice", "sort.SliceStable"} {
		lib[f] = func(c *call) *Node { return c.sortSlice() }
	}
	lib["cmp.Compare"] = func(c *call) *Node {
		a, b := c.args[0], c.args[1]
		if x, ok := constOf(asInt(a)); ok {
			if y, ok := constOf(asInt(b)); ok {
				return intNode(int64(x.Cmp(y)))
			}
		}
		return c.in.call(c.st, c.fn, c.args, nil, c.pos)
	}
	for _, b := range []string{"BigEndian", "LittleEndian"} {
		specialGlobals["encoding/binary."+b] = func(in *interp, st *state) *Node { return mkStruct("") }
	}
}

// sortSlice sorts a slice in place by comparisons fixed by the shape of the
// data.
func (c *call) sortSlice() *Node {
	s := c.args[0]
	if s.kind == KIface {
		s = s.args[0]
	}
	if s.kind == KNil {
		return tuple()
	}
	n, ok := constI(s.args[2])
	if s.kind != KSlice || !ok {
		c.fail("sorting a slice of unknown length")
	}
	ref := func(i int64) *Node {
		return rawKind(KRef, "", append(append([]*Node(nil), s.args[0].args...), addInt(s.args[1], intNode(i)))...)
	}
	for i := int64(1); i < n; i++ {
		for j := i; j > 0; j-- {
			b := toBool(c.in.callValue(c.st, c.args[1], []*Node{intNode(j), intNode(j - 1)}, c.pos))
			if b == bddF {
				break
			}
			if b != bddT {
				c.fail("sorting by a comparison not fixed by the shape of the data")
			}
			x, y := c.in.loadLeaf(c.st, ref(j)), c.in.loadLeaf(c.st, ref(j-1))
			c.in.store(c.st, ref(j), y, c.pos)
			c.in.store(c.st, ref(j-1), x, c.pos)
		}
	}
	return tuple()
}
