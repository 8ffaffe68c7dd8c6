package checks

import (
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/util"
	"github.com/takakv/msc-poc/verifspec/sym"
)

// ---------------------------------------------------------------- C17 vectors

func reduced(x, n *big.Int) bool { return x.Sign() >= 0 && x.Cmp(n) < 0 }

func vectors(n int) { vectorsOf(sym.Group("G"), "", n) }

func vectorsOf(g group.Group, tag string, n int) {
	N := g.N()
	a, b := ints(tag+"a", n), ints(tag+"b", n)
	c := sym.Int(tag + "c")
	A, B := elems(g, tag+"A", n), elems(g, tag+"B", n)
	sym.Freeze()
	check := func(label string, r []*big.Int, err error, want func(i int) *big.Int) {
		sym.Check(label+": no error", err == nil)
		sym.Check(label+": length", len(r) == n)
		for i := range r {
			sym.Check(label+": value", congruent(r[i], want(i), N))
			sym.Check(label+": reduced", reduced(r[i], N))
		}
	}
	r, err := bp.VectorAdd(a, b, N)
	check("sum", r, err, func(i int) *big.Int { return add(a[i], b[i]) })
	r, err = bp.VectorSub(a, b, N)
	check("difference", r, err, func(i int) *big.Int { return minus(a[i], b[i]) })
	r, err = bp.VectorMul(a, b, N)
	check("product", r, err, func(i int) *big.Int { return prod(a[i], b[i]) })
	r, err = bp.VectorScalarMul(a, c, N)
	check("multiple", r, err, func(i int) *big.Int { return prod(a[i], c) })
	r = bp.VectorAddConst(a, c, N)
	check("shift", r, nil, func(i int) *big.Int { return add(a[i], c) })
	r, err = bp.VectorCopy(c, int64(n))
	sym.Check("copies", err == nil && len(r) == n)
	for i := range r {
		sym.Check("copies of the value", same(r[i], c))
	}
	w := new(big.Int)
	W := g.Identity()
	for i := range a {
		w.Add(w, prod(a[i], b[i]))
		W = g.Element().Add(W, g.Element().Scale(A[i], b[i]))
	}
	s, err := bp.ScalarProduct(a, b, g)
	sym.Check("scalar product", err == nil && congruent(s, w, N) && reduced(s, N))
	s = bp.VectorInnerProduct(a, b, N)
	sym.Check("inner product", congruent(s, w, N) && reduced(s, N))
	E, err := bp.VectorExp(A, b, g)
	sym.Check("linear combination", err == nil && E.IsEqual(W))
	S, err := bp.VectorECAdd(A, B, g)
	sym.Check("sums of elements", err == nil && len(S) == n)
	for i := range S {
		sym.Check("sum of elements", S[i].IsEqual(g.Element().Add(A[i], B[i])))
	}
	sym.Check("operands are kept", sym.Intact())
}

func C17_vectors_0()   { vectors(0) }
func C17_vectors_1()   { vectors(1) }
func C17_vectors_2()   { vectors(2) }
func C17_vectors_3()   { vectors(3) }
func C17_vectors_4()   { vectors(4) }
func C17_vectors_5()   { vectors(5) }
func C17_vectors_6()   { vectors(6) }
func C17_vectors_7()   { vectors(7) }
func C17_vectors_8()   { vectors(8) }
func C17_vectors_16()  { vectors(16) }
func C17_vectors_32()  { vectors(32) }
func C17_vectors_9()   { vectors(9) }
func C17_vectors_10()  { vectors(10) }
func C17_vectors_11()  { vectors(11) }
func C17_vectors_12()  { vectors(12) }
func C17_vectors_13()  { vectors(13) }
func C17_vectors_14()  { vectors(14) }
func C17_vectors_15()  { vectors(15) }
func C17_vectors_17()  { vectors(17) }
func C17_vectors_31()  { vectors(31) }
func C17_vectors_33()  { vectors(33) }
func C17_vectors_63()  { vectors(63) }
func C17_vectors_64()  { vectors(64) }
func C17_vectors_65()  { vectors(65) }
func C17_vectors_128() { vectors(128) }

// operands that are the same vector, and vectors of which all entries are the same object
func vectorsShared(n int) {
	g := sym.Group("G")
	N := g.N()
	a, c := ints("a", n), sym.Int("c")
	A, C := elems(g, "A", n), sym.Elem(g, "C")
	k := make([]*big.Int, n)
	K := make([]group.Element, n)
	for i := range k {
		k[i], K[i] = c, C
	}
	sym.Freeze()
	check := func(label string, r []*big.Int, err error, want func(i int) *big.Int) {
		sym.Check(label+": no error", err == nil && len(r) == n)
		for i := range r {
			sym.Check(label+": value", congruent(r[i], want(i), N) && reduced(r[i], N))
		}
	}
	for _, v := range [][]*big.Int{a, k} {
		r, err := bp.VectorAdd(v, v, N)
		check("sum with itself", r, err, func(i int) *big.Int { return add(v[i], v[i]) })
		r, err = bp.VectorSub(v, v, N)
		check("difference from itself", r, err, func(i int) *big.Int { return big.NewInt(0) })
		r, err = bp.VectorMul(v, v, N)
		check("product with itself", r, err, func(i int) *big.Int { return prod(v[i], v[i]) })
		r, err = bp.VectorAdd(v, k, N)
		check("sum with copies", r, err, func(i int) *big.Int { return add(v[i], c) })
		r, err = bp.VectorMul(k, v, N)
		check("product with copies", r, err, func(i int) *big.Int { return prod(v[i], c) })
		r, err = bp.VectorScalarMul(v, c, N)
		check("multiple of copies", r, err, func(i int) *big.Int { return prod(v[i], c) })
		check("shift of copies", bp.VectorAddConst(v, c, N), nil, func(i int) *big.Int { return add(v[i], c) })
		w, u := new(big.Int), new(big.Int)
		W, U := g.Identity(), g.Identity()
		for i := range v {
			w.Add(w, prod(v[i], v[i]))
			u.Add(u, prod(v[i], c))
			W = g.Element().Add(W, g.Element().Scale(A[i], v[i]))
			U = g.Element().Add(U, g.Element().Scale(C, v[i]))
		}
		s, err := bp.ScalarProduct(v, v, g)
		sym.Check("scalar square", err == nil && congruent(s, w, N) && reduced(s, N))
		sym.Check("inner square", congruent(bp.VectorInnerProduct(v, v, N), w, N))
		s, err = bp.ScalarProduct(v, k, g)
		sym.Check("scalar product with copies", err == nil && congruent(s, u, N) && reduced(s, N))
		sym.Check("inner product with copies", congruent(bp.VectorInnerProduct(k, v, N), u, N))
		E, err := bp.VectorExp(A, v, g)
		sym.Check("linear combination", err == nil && E.IsEqual(W))
		E, err = bp.VectorExp(K, v, g)
		sym.Check("linear combination of copies", err == nil && E.IsEqual(U))
	}
	for _, V := range [][]group.Element{A, K} {
		S, err := bp.VectorECAdd(V, V, g)
		sym.Check("elements doubled", err == nil && len(S) == n)
		for i := range S {
			sym.Check("element doubled", S[i].IsEqual(g.Element().Add(V[i], V[i])))
		}
		S, err = bp.VectorECAdd(V, K, g)
		for i := range S {
			sym.Check("sums with copies", err == nil && S[i].IsEqual(g.Element().Add(V[i], C)))
		}
	}
	sym.Check("operands are kept", sym.Intact())
}

func C17_shared_1()  { vectorsShared(1) }
func C17_shared_2()  { vectorsShared(2) }
func C17_shared_4()  { vectorsShared(4) }
func C17_shared_5()  { vectorsShared(5) }
func C17_shared_16() { vectorsShared(16) }

// digits of numbers shorter than the number of digits, and conversion of any small numbers
func C17_short() {
	for n := 1; n <= 32; n++ {
		v := sym.Bits(num("v", n), (n+1)/2)
		d := util.Decompose(v, 2, int64(n))
		sym.Check("number of digits", len(d) == n)
		s := new(big.Int)
		for i := range d {
			sym.Check("digit", d[i] == 0 || d[i] == 1)
			s.Add(s, prod(big.NewInt(d[i]), twoTo(i)))
		}
		sym.Check("digits of the value", same(s, v))
	}
	x := []int64{0, 1, -1, 2, -2, 255, 256, -256, 1<<31 - 1, 1 << 31, -1 << 31, 1 << 32, 1<<53 + 1, -1<<53 - 1, 1<<62 + 1, 1<<63 - 1, -1 << 63, -1<<63 + 1}
	b, err := bp.VectorConvertToBig(x, int64(len(x)))
	sym.Check("conversion", err == nil && len(b) == len(x))
	for i := range b {
		sym.Check("converted number", same(b[i], big.NewInt(x[i])))
	}
}

// vectors of different lengths are refused
func mismatch(n, m int) {
	g := sym.Group("G")
	a, b := ints("a", n), ints("b", m)
	A, B := elems(g, "A", n), elems(g, "B", m)
	_, e1 := bp.VectorAdd(a, b, g.N())
	_, e2 := bp.VectorSub(a, b, g.N())
	_, e3 := bp.VectorMul(a, b, g.N())
	_, e4 := bp.ScalarProduct(a, b, g)
	_, e5 := bp.VectorExp(A, b, g)
	_, e6 := bp.VectorECAdd(A, B, g)
	sym.Check("vectors of different lengths are refused", e1 != nil && e2 != nil && e3 != nil && e4 != nil && e5 != nil && e6 != nil)
}

func C17_mismatch() {
	for n := 0; n <= 4; n++ {
		for m := 0; m <= 4; m++ {
			if n != m {
				mismatch(n, m)
			}
		}
	}
	for _, n := range []int{7, 8, 15, 16, 31, 32} {
		mismatch(n, n+1)
		mismatch(n+1, n)
		mismatch(n, 0)
		mismatch(0, n)
		mismatch(n, 2*n)
		mismatch(2*n, n)
	}
}

// digits of numbers that have them
func decompose(n int) { decomposeOf("v", n) }

func decomposeOf(name string, n int) {
	v := sym.Bits(name, n)
	sym.Freeze()
	d := util.Decompose(v, 2, int64(n))
	sym.Check("number of digits", len(d) == n)
	s := new(big.Int)
	for i := range d {
		sym.Check("digit", d[i] == 0 || d[i] == 1)
		s.Add(s, prod(big.NewInt(d[i]), twoTo(i)))
	}
	sym.Check("digits of the value", same(s, v))
	b, err := bp.VectorConvertToBig(d, int64(n))
	sym.Check("conversion", err == nil && len(b) == n)
	for i := range b {
		sym.Check("converted digit", same(b[i], big.NewInt(d[i])))
	}
	sym.Check("the value is kept", sym.Intact())
}

func C17_decompose_1()   { decompose(1) }
func C17_decompose_2()   { decompose(2) }
func C17_decompose_3()   { decompose(3) }
func C17_decompose_4()   { decompose(4) }
func C17_decompose_5()   { decompose(5) }
func C17_decompose_6()   { decompose(6) }
func C17_decompose_7()   { decompose(7) }
func C17_decompose_8()   { decompose(8) }
func C17_decompose_9()   { decompose(9) }
func C17_decompose_10()  { decompose(10) }
func C17_decompose_11()  { decompose(11) }
func C17_decompose_12()  { decompose(12) }
func C17_decompose_13()  { decompose(13) }
func C17_decompose_14()  { decompose(14) }
func C17_decompose_15()  { decompose(15) }
func C17_decompose_16()  { decompose(16) }
func C17_decompose_17()  { decompose(17) }
func C17_decompose_18()  { decompose(18) }
func C17_decompose_19()  { decompose(19) }
func C17_decompose_20()  { decompose(20) }
func C17_decompose_21()  { decompose(21) }
func C17_decompose_22()  { decompose(22) }
func C17_decompose_23()  { decompose(23) }
func C17_decompose_24()  { decompose(24) }
func C17_decompose_25()  { decompose(25) }
func C17_decompose_26()  { decompose(26) }
func C17_decompose_27()  { decompose(27) }
func C17_decompose_28()  { decompose(28) }
func C17_decompose_29()  { decompose(29) }
func C17_decompose_30()  { decompose(30) }
func C17_decompose_31()  { decompose(31) }
func C17_decompose_32()  { decompose(32) }
func C17_decompose_33()  { decompose(33) }
func C17_decompose_63()  { decompose(63) }
func C17_decompose_64()  { decompose(64) }
func C17_decompose_100() { decompose(100) }

func C17_commit() {
	g := sym.Group("G")
	x, r, h := sym.Int("x"), sym.Int("r"), sym.Elem(g, "h")
	sym.Freeze()
	sym.Check("commitment", util.PedersenCommit(x, r, h, g).IsEqual(pedersen(g, h, x, r)))
	sym.Check("operands are kept", sym.Intact())
}

func C17_power_of_two() {
	p := int64(1)
	for x := int64(-20); x <= 1100; x++ {
		if p < x {
			p *= 2
		}
		sym.Check("powers of two are recognised", bp.IsPowerOfTwo(x) == (x == p))
	}
	for k := 2; k < 63; k++ {
		b := int64(1) << k
		sym.Check("powers of two are recognised", bp.IsPowerOfTwo(b) && !bp.IsPowerOfTwo(b-1) && !bp.IsPowerOfTwo(b+1) && !bp.IsPowerOfTwo(-b) && !bp.IsPowerOfTwo(b+2) && !bp.IsPowerOfTwo(3*(b/4)+b))
	}
	for k := 0; k < 63; k++ {
		for j := 0; j < 63; j++ {
			x := int64(1)<<k + int64(1)<<j // -2^63 at the top
			sym.Check("two bits", bp.IsPowerOfTwo(int64(1)<<k|int64(1)<<j) == (j == k))
			sym.Check("sums of two powers", bp.IsPowerOfTwo(x) == (j == k && k < 62))
			sym.Check("complements", !bp.IsPowerOfTwo(^(int64(1)<<k | int64(1)<<j)))
		}
	}
	sym.Check("the least integer is no power of two", !bp.IsPowerOfTwo(-1<<63))
}
