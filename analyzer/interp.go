package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// state is the abstract state at a program point: the condition under which
// the point is reached, the heap and the registers.
type state struct {
	cond *bdd
	heap pmap
	env  pmap
}

func (s *state) copy() *state { c := *s; return &c }

type panicRec struct {
	cond *bdd
	pos  string
	why  string
}

type interp struct {
	prog    *ssa.Program
	mod     string // module path of the analysed repository
	globals map[*ssa.Global]*Node
	initing map[*ssa.Package]bool
	stubs   map[string]*Node
	panics  []panicRec
	depth   int
	stack   []string

	// measured coverage
	funcs  map[string]string // repository function -> position
	blocks int
	instrs int
	calls  int
	edges  map[string]bool // call sites inside the repository
	joins  int

	prints    []printRec
	randIDs   []*Node
	checks    []*checkRec
	frozen    []snapshot
	lastAPI   string // last repository function called from a specification
	shapes    map[string]int
	jsonNil   map[string]bool
	numInfo   map[*ssa.Function]*fnInfo
	caller    *ssa.Function
	groups    map[*Node]*Node // abstract group -> interface value
	randN     int
	faults    bool // the source of randomness may fail
	failed    *bdd // where it does
	loopsOpen int
	loopsExp  int
	specRun   string
	locked    int          // locks held, sync.Once included
	exempt    map[int]bool // cells written under a lock
	owned     map[int]bool // cells taken from a pool
	shared    int          // read locks held
	once      int          // sync.Once functions entered
	writes    []access     // since the last Freeze, to cells older than it
	note      string       // what the next obligation is about
	bareReads map[int]bool // cells read without a lock since then
}

// access is a write to memory that others may use.
type access struct {
	key   int
	cond  *bdd
	bare  bool // no lock was held
	once  bool
	where string
}

type printRec struct {
	cond *bdd
	args []*Node
	pos  string
}

type snapshot struct {
	heap pmap
	next int
}

type fnInfo struct {
	idx   map[ssa.Value]int
	def   map[int]*ssa.BasicBlock // defining block of a register
	order []*ssa.BasicBlock       // reverse postorder
	loops map[*ssa.BasicBlock]*loopInfo
	inner map[*ssa.BasicBlock]*loopInfo    // innermost loop of a block
	live  map[*ssa.BasicBlock]map[int]bool // registers used in or after a block, its phis included
}

// liveness of the registers at the start of each block.
func (fi *fnInfo) liveness() {
	fi.live = map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range fi.order {
		fi.live[b] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.order) - 1; i >= 0; i-- {
			b := fi.order[i]
			l := map[int]bool{}
			for _, s := range b.Succs {
				for k := range fi.live[s] {
					l[k] = true
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(l, fi.idx[phi])
				}
			}
			for _, s := range b.Succs {
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for j, p := range s.Preds {
						if p == b {
							if k, ok := fi.idx[phi.Edges[j]]; ok {
								l[k] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if _, ok := ins.(*ssa.Phi); ok {
					l[fi.idx[ins.(ssa.Value)]] = true
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(l, fi.idx[v])
				}
				for _, o := range ins.Operands(nil) {
					if *o != nil {
						if k, ok := fi.idx[*o]; ok {
							l[k] = true
						}
					}
				}
			}
			if len(l) != len(fi.live[b]) {
				fi.live[b] = l
				changed = true
			}
		}
	}
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	order  []*ssa.BasicBlock
}

type frame struct {
	in     *interp
	fn     *ssa.Function
	info   *fnInfo
	rets   []retRec
	bind   []*Node
	defers []deferRec

	// whether an exit test of the loop under evaluation was decided by constants
	decided bool
}

type retRec struct {
	st  *state
	val *Node
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *state
}

func (in *interp) info(fn *ssa.Function) *fnInfo {
	if i, ok := in.numInfo[fn]; ok {
		return i
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, def: map[int]*ssa.BasicBlock{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}}
	n := 0
	add := func(v ssa.Value) { fi.idx[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				fi.def[n] = b
				add(v)
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.order = append(fi.order, post[i])
	}
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// an order in which every block comes after its forward predecessors
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range fi.order {
		pos[b] = i
	}
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if pos[s] <= pos[b] && !s.Dominates(b) {
				fail("irreducible control flow in %s", fn)
			}
		}
	}
	for _, l := range fi.loops {
		for _, b := range fi.order {
			if l.body[b] {
				l.order = append(l.order, b)
			}
		}
		for b := range l.body {
			if o := fi.inner[b]; o == nil || len(l.body) < len(o.body) {
				fi.inner[b] = l
			}
		}
	}
	fi.liveness()
	in.numInfo[fn] = fi
	return fi
}

func (in *interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := in.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", trimRepo(q.Filename), q.Line)
}

func trimRepo(f string) string {
	return strings.TrimPrefix(strings.TrimPrefix(f, repoDir), "/")
}

func (in *interp) panicIf(st *state, c *bdd, p token.Pos, why string) {
	if c == bddF {
		return
	}
	pc := bddAnd(st.cond, c)
	if feasible(pc) {
		w := in.pos(p)
		if w == "?" && len(in.stack) > 0 {
			w = "in " + in.stack[len(in.stack)-1]
		}
		in.panics = append(in.panics, panicRec{pc, w, why})
	}
	st.cond = bddAnd(st.cond, bddNot(c))
}

// ---------------------------------------------------------------- merging

func joinStates(list []*state) *state { return joinLive(list, nil) }

// joinLive joins states; registers that are not live are dropped, not merged.
func joinLive(list []*state, live func(k int) bool) *state {
	if len(list) == 1 {
		return list[0].copy()
	}
	care := bddF
	for _, s := range list {
		care = bddOr(care, s.cond)
	}
	r := list[len(list)-1].copy()
	heapKeys, envKeys := map[int]bool{}, map[int]bool{}
	var hk, ek []int
	for _, s := range list[:len(list)-1] {
		r.heap = s.heap.merge(r.heap, func(k int, a, b *Node) *Node {
			if !heapKeys[k] {
				heapKeys[k] = true
				hk = append(hk, k)
			}
			if b != nil {
				return b
			}
			return a
		})
		r.env = s.env.merge(r.env, func(k int, a, b *Node) *Node {
			if live != nil && !live(k) {
				return nil
			}
			if !envKeys[k] {
				envKeys[k] = true
				ek = append(ek, k)
			}
			if b != nil {
				return b
			}
			return a
		})
	}
	r.cond = care
	cs := make([]*bdd, len(list))
	for i, s := range list {
		cs[i] = s.cond
	}
	vals := make([]*Node, len(list))
	for _, k := range hk {
		for i, s := range list {
			vals[i] = s.heap.get(k)
		}
		r.heap = r.heap.set(k, iteN(cs, vals))
	}
	for _, k := range ek {
		for i, s := range list {
			vals[i] = s.env.get(k)
		}
		r.env = r.env.set(k, iteN(cs, vals))
	}
	return r
}

// iteN merges values that are taken under conditions which exclude each other.
// Equal values are taken together first.
func iteN(cs []*bdd, vals []*Node) *Node {
	var gc []*bdd
	var gv []*Node
	at := map[*Node]int{}
	for i, v := range vals {
		if v == nil || v.kind == KUndef {
			continue
		}
		if j, ok := at[v]; ok {
			gc[j] = bddOr(gc[j], cs[i])
			continue
		}
		at[v] = len(gv)
		gc, gv = append(gc, cs[i]), append(gv, v)
	}
	switch len(gv) {
	case 0:
		return undef
	case 1:
		return gv[0]
	}
	if len(gv) > 2 {
		a := gv[0]
		alike := a.kind == KStruct || a.kind == KTuple || a.kind == KIface
		for _, b := range gv {
			alike = alike && a.kind == b.kind && a.op == b.op && len(a.args) == len(b.args)
		}
		if alike {
			args := make([]*Node, len(a.args))
			part := make([]*Node, len(gv))
			for i := range args {
				for j, b := range gv {
					part[j] = b.args[i]
				}
				args[i] = iteN(gc, part)
			}
			return rawKind(a.kind, a.op, args...)
		}
	}
	last := len(gv) - 1
	r, rc := gv[last], gc[last]
	for i := last - 1; i >= 0; i-- {
		all := bddOr(gc[i], rc)
		r = iteV(bddRestrict(gc[i], all), gv[i], r)
		rc = all
	}
	return r
}

// ---------------------------------------------------------------- functions

const maxDepth = 400

// call evaluates a function body in the given state.
func (in *interp) call(st *state, fn *ssa.Function, args, bind []*Node, p token.Pos) *Node {
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if fn.Blocks == nil {
			fail("no source for %s (called at %s)", fn, in.pos(p))
		}
	}
	in.depth++
	if in.depth > maxDepth {
		fail("calls nested too deeply at %s", fn)
	}
	name := fn.RelString(nil)
	in.stack = append(in.stack, name)
	if in.inRepo(fn) {
		in.funcs[name] = in.pos(fn.Pos())
		in.edges[in.pos(p)+"→"+name] = true
	}
	in.calls++
	fr := &frame{in: in, fn: fn, info: in.info(fn), bind: bind}
	inner := &state{cond: st.cond, heap: st.heap}
	for i, v := range fn.Params {
		inner.env = inner.env.set(fr.info.idx[v], args[i])
	}
	for i, v := range fn.FreeVars {
		inner.env = inner.env.set(fr.info.idx[v], bind[i])
	}
	exits, _ := fr.region(nil, fr.info.order, []edge{{nil, fn.Blocks[0], inner}})
	if len(exits) != 0 {
		fail("control leaves %s", fn)
	}
	in.depth--
	in.stack = in.stack[:len(in.stack)-1]
	return finishRets(st, fr.rets)
}

func finishRets(st *state, rets []retRec) *Node {
	var live []retRec
	for _, r := range rets {
		if feasible(r.st.cond) {
			live = append(live, r)
		}
	}
	if len(live) == 0 {
		st.cond = bddF
		return undef
	}
	var sts []*state
	for i := range live {
		s := live[i].st.copy()
		s.env = pmap{}.set(0, live[i].val)
		sts = append(sts, s)
	}
	j := joinStates(sts)
	st.cond, st.heap = j.cond, j.heap
	return j.env.get(0)
}

// region evaluates the blocks of a loop body (or of a function) once.
// It returns the edges that leave it and the edges back to its header.
func (fr *frame) region(l *loopInfo, order []*ssa.BasicBlock, entry []edge) (exits, back []edge) {
	inc := map[*ssa.BasicBlock][]edge{}
	for _, e := range entry {
		inc[e.to] = append(inc[e.to], e)
	}
	var header *ssa.BasicBlock
	if l != nil {
		header = l.header
	}
	emit := func(e edge) {
		if !feasible(e.st.cond) {
			return
		}
		switch {
		case l != nil && e.to == header:
			back = append(back, e)
		case l == nil || l.body[e.to]:
			inc[e.to] = append(inc[e.to], e)
		default:
			exits = append(exits, e)
		}
	}
	for _, b := range order {
		es := inc[b]
		if len(es) == 0 {
			continue
		}
		if nl := fr.info.loops[b]; nl != nil && nl != l {
			for _, e := range fr.loop(nl, es) {
				emit(e)
			}
			continue
		}
		st := fr.enter(b, es)
		for _, e := range fr.block(b, st, l) {
			emit(e)
		}
	}
	return
}

// enter joins the incoming states of a block and evaluates its phis.
func (fr *frame) enter(b *ssa.BasicBlock, es []edge) *state {
	fr.in.blocks++
	if len(es) > 1 {
		fr.in.joins++
	}
	var sts []*state
	for _, e := range es {
		s := e.st.copy()
		if e.from != nil {
			pi := -1
			for i, p := range b.Preds {
				if p == e.from {
					pi = i
				}
			}
			var vals []*Node
			var keys []int
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				vals = append(vals, fr.val(s, phi.Edges[pi]))
				keys = append(keys, fr.info.idx[phi])
			}
			for i := range vals {
				s.env = s.env.set(keys[i], vals[i])
			}
		}
		sts = append(sts, s)
	}
	live := fr.info.live[b]
	return joinLive(sts, func(k int) bool { return live[k] })
}

const maxIter = 5000

// loop evaluates a loop whose exits are decided by the shape of the data
// iteration by iteration, and any other loop by forgetting what it carries.
func (fr *frame) loop(l *loopInfo, entry []edge) []edge {
	var exits []edge
	cur := entry
	outer := fr.decided
	defer func() { fr.decided = outer }()
	nrets := len(fr.rets)
	var first []edge
	firstRets := nrets
	for it := 0; ; it++ {
		if it > maxIter {
			fail("loop without a bound in %s at %s", fr.fn, fr.in.pos(l.header.Instrs[0].Pos()))
		}
		fr.decided = false
		ex, back := fr.region(l, l.order, cur)
		if it == 0 {
			first, firstRets = ex, len(fr.rets)
		}
		if len(back) == 0 {
			return append(exits, ex...)
		}
		if !fr.decided || !fr.progress(l, cur, back) {
			// nothing about the exits is known from the shape of the data
			return fr.openLoop(l, entry, first, fr.rets[nrets:firstRets], nrets, back)
		}
		exits = append(exits, ex...)
		cur = back
	}
}

// progress tells whether an iteration changed anything the next one can see.
func (fr *frame) progress(l *loopInfo, cur, back []edge) bool {
	a := fr.enter(l.header, cur)
	b := fr.enter(l.header, back)
	for _, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		k := fr.info.idx[phi]
		if a.env.get(k) != b.env.get(k) {
			return true
		}
	}
	changed := false
	a.heap.merge(b.heap, func(k int, x, y *Node) *Node {
		if x != nil && x != y {
			changed = true
		}
		return x
	})
	return changed
}

// openLoop summarises a loop whose number of iterations is not fixed: what
// an iteration may change is forgotten, and the exits of one arbitrary
// iteration stand for those of all.
//
// The exits of the first iteration are kept apart: they are taken from the
// state at the entry. Every later iteration starts from a state that some
// iteration has left.
func (fr *frame) openLoop(l *loopInfo, entry, exFirst []edge, retFirst []retRec, nrets int, back []edge) []edge {
	var ex0 []edge
	var rets0 []retRec
	for _, e := range exFirst {
		if feasible(e.st.cond) {
			ex0 = append(ex0, e)
		}
	}
	for _, r := range retFirst {
		if feasible(r.st.cond) {
			rets0 = append(rets0, r)
		}
	}
	start := fr.enter(l.header, entry)
	outer := start.cond
	havocVars := map[*Node]bool{}
	changedPhi := map[int]bool{}
	changedCell := map[int]bool{}
	mark := func(back []edge, from *state) bool {
		b := fr.enter(l.header, back)
		more := false
		for _, ins := range l.header.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			k := fr.info.idx[phi]
			if b.env.get(k) != from.env.get(k) && !changedPhi[k] {
				changedPhi[k] = true
				more = true
			}
		}
		from.heap.merge(b.heap, func(k int, x, y *Node) *Node {
			if x != nil && x != y && !changedCell[k] {
				changedCell[k] = true
				more = true
			}
			return x
		})
		return more
	}
	mark(back, start)
	havoc := func() *state {
		h := start.copy()
		for k := range changedPhi {
			h.env = h.env.set(k, havocNode(h.env.get(k), havocVars))
		}
		for k := range changedCell {
			h.heap = h.heap.set(k, havocNode(h.heap.get(k), havocVars))
		}
		return h
	}
	var h *state
	var exH, backH []edge
	var retH []retRec
	for round := 0; ; round++ {
		if round > 8 {
			fail("loop state does not stabilise in %s", fr.fn)
		}
		h = havoc()
		fr.rets = fr.rets[:nrets]
		exH, backH = fr.iterate(l, h)
		retH = append([]retRec(nil), fr.rets[nrets:]...)
		if len(backH) == 0 || !mark(backH, h) {
			break
		}
	}
	fr.rets = fr.rets[:nrets]
	dep := func(n *Node) bool { return n != nil && hasAnyVar(n, havocVars) }
	indep := true
	chk := func(s *state) {
		if dep(mkBool(s.cond)) {
			indep = false
		}
		h.heap.merge(s.heap, func(k int, x, y *Node) *Node {
			if x != y && dep(y) {
				indep = false
			}
			return x
		})
	}
	for _, e := range exH {
		chk(e.st)
		for _, b := range []*ssa.BasicBlock{e.to} {
			_ = b
		}
		h.env.merge(e.st.env, func(k int, x, y *Node) *Node {
			if x != y && dep(y) {
				indep = false
			}
			return x
		})
	}
	for _, r := range retH {
		chk(r.st)
		if dep(r.val) {
			indep = false
		}
	}
	if len(exH)+len(retH) > 0 && indep {
		fr.rets = append(fr.rets, retH...)
		return exH
	}
	// the state after an arbitrary iteration, then one more
	if len(backH) == 0 {
		fr.rets = append(fr.rets, rets0...)
		return ex0
	}
	for i, e := range backH {
		// what the iteration was decided by holds for what it leaves behind,
		// such as a flag it was entered with
		live := map[int]bool{}
		for k := range fr.info.live[l.header] {
			live[k] = true
		}
		for k := range changedPhi {
			live[k] = true
		}
		for _, ins := range l.header.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for _, v := range phi.Edges {
				if k, ok := fr.info.idx[v]; ok {
					live[k] = true
				}
			}
		}
		backH[i].st = settleState(e.st, start, live)
	}
	s1 := fr.enter(l.header, backH)
	s1.cond = outer
	ex1, _ := fr.iterate(l, s1)
	ret1 := append([]retRec(nil), fr.rets[nrets:]...)
	fr.rets = fr.rets[:nrets]
	for _, exs := range [][]edge{ex0, ex1} {
		for i := range exs {
			live := map[int]bool{}
			for k := range fr.info.live[exs[i].to] {
				live[k] = true
			}
			for k := range changedPhi {
				live[k] = true
			}
			exs[i].st = settleState(exs[i].st, start, live)
		}
	}
	for _, rets := range [][]retRec{rets0, ret1} {
		for i, r := range rets {
			s := newSettler(r.st)
			rets[i] = retRec{settleState(r.st, start, nil), s.do(r.val)}
		}
	}
	if len(ex0)+len(rets0) == 0 || fr.sameExits(l, ex0, rets0, ex1, ret1) {
		fr.rets = append(fr.rets, ret1...)
		return ex1
	}
	// early iterations behave differently: keep them apart
	first := mkBoolVar(freshVar(SBool, "firstiter"))
	for i := range ex1 {
		ex1[i].st = ex1[i].st.copy()
		ex1[i].st.cond = bddAnd(ex1[i].st.cond, bddNot(first))
	}
	for i := range ret1 {
		ret1[i].st = ret1[i].st.copy()
		ret1[i].st.cond = bddAnd(ret1[i].st.cond, bddNot(first))
	}
	for i := range ex0 {
		ex0[i].st = ex0[i].st.copy()
		ex0[i].st.cond = bddAnd(ex0[i].st.cond, first)
	}
	for i := range rets0 {
		rets0[i].st = rets0[i].st.copy()
		rets0[i].st.cond = bddAnd(rets0[i].st.cond, first)
	}
	fr.rets = append(fr.rets, rets0...)
	fr.rets = append(fr.rets, ret1...)
	return append(ex0, ex1...)
}

func mkBoolVar(v *Node) *bdd { return bddVar(v) }

// iterate runs one iteration from a state at the header (phis already set).
func (fr *frame) iterate(l *loopInfo, st *state) (exits, back []edge) {
	return fr.region(l, l.order, []edge{{nil, l.header, st}})
}

// havocNode replaces a value by an unknown of the same shape.
func havocNode(n *Node, vars map[*Node]bool) *Node {
	if n == nil {
		return nil
	}
	nv := func(s Sort) *Node {
		v := freshVar(s, "stale")
		vars[v] = true
		return v
	}
	switch n.kind {
	case KInt:
		return asInt(nv(SInt))
	case KBool:
		return mkBool(bddVar(nv(SBool)))
	case KElem:
		return elemAtom(n.lin.grp, nv(SElem))
	case KBytes:
		return bytesOf(nv(SBytes))
	case KErr:
		return mkErr(bddVar(nv(SBool)))
	case KStruct, KTuple:
		args := make([]*Node, len(n.args))
		for i, a := range n.args {
			args[i] = havocNode(a, vars)
		}
		return rawKind(n.kind, n.op, args...)
	}
	return rawAtom(SOther, "stale", nv(SOther))
}

// ---------------------------------------------------------------- blocks

func (fr *frame) block(b *ssa.BasicBlock, st *state, l *loopInfo) []edge {
	in := fr.in
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		in.instrs++
		switch x := ins.(type) {
		case *ssa.If:
			c := toBool(fr.val(st, x.Cond))
			if l != nil {
				leaves0, leaves1 := !l.body[b.Succs[0]], !l.body[b.Succs[1]]
				if leaves0 != leaves1 && (c == bddT || c == bddF || decided(st, c) != 0 || fr.byCases(st, x.Cond)) {
					fr.decided = true
				}
			}
			s0, s1 := st, st.copy()
			s0.cond, s1.cond = bddAnd(st.cond, c), bddAnd(st.cond, bddNot(c))
			return []edge{{b, b.Succs[0], s0}, {b, b.Succs[1], s1}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var v *Node
			switch len(x.Results) {
			case 0:
				v = mkTuple()
			case 1:
				v = fr.val(st, x.Results[0])
			default:
				var vs []*Node
				for _, r := range x.Results {
					vs = append(vs, fr.val(st, r))
				}
				v = mkTuple(vs...)
			}
			fr.rets = append(fr.rets, retRec{st, v})
			return nil
		case *ssa.Panic:
			in.panicIf(st, bddT, x.Pos(), "panic")
			return nil
		default:
			fr.instr(st, ins)
			if !feasible(st.cond) {
				return nil
			}
		}
	}
	fail("block without terminator in %s", fr.fn)
	return nil
}

// byCases: a comparison of numbers that have one of finitely many known values.
func (fr *frame) byCases(st *state, v ssa.Value) bool {
	cmp, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{cmp.X, cmp.Y} {
		n := fr.val(st, o)
		if n.kind != KInt {
			return false
		}
		for _, t := range n.poly {
			for _, f := range t.fac {
				if f.a.kind != KAtom || f.a.op != "ind" {
					return false
				}
			}
		}
	}
	return true
}

func (fr *frame) set(st *state, v ssa.Value, n *Node) {
	if n == nil {
		fail("no value for %s in %s", v, fr.fn)
	}
	st.env = st.env.set(fr.info.idx[v], n)
}

// val is the abstract value of an operand.
func (fr *frame) val(st *state, v ssa.Value) *Node {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.in.constant(x)
	case *ssa.Function:
		return fr.in.funcNode(x, nil)
	case *ssa.Global:
		return fr.in.global(st, x)
	case *ssa.Builtin:
		fail("builtin %s used as a value", x.Name())
	}
	i, ok := fr.info.idx[v]
	if !ok {
		fail("unknown operand %s", v)
	}
	n := st.env.get(i)
	if n == nil {
		return undef
	}
	return n
}

func (in *interp) funcNode(f *ssa.Function, bind []*Node) *Node {
	n := rawKind(KFunc, f.RelString(nil)+"@"+in.pos(f.Pos()), bind...)
	n.aux = f
	return n
}

func (in *interp) constant(c *ssa.Const) *Node {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	switch t := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			if constant.BoolVal(c.Value) {
				return tt
			}
			return ff
		case t.Info()&types.IsString != 0:
			return strNode(constant.StringVal(c.Value))
		case t.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			return bigNode(b)
		case t.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return floatNode(f)
		}
	}
	fail("constant of type %s", c.Type())
	return nil
}

func floatNode(f float64) *Node { return rawAtom(SOther, "float:"+strconv.FormatFloat(f, 'g', -1, 64)) }

func floatOf(n *Node) (float64, bool) {
	if n.kind == KAtom && strings.HasPrefix(n.op, "float:") {
		f, err := strconv.ParseFloat(n.op[6:], 64)
		return f, err == nil
	}
	return 0, false
}

// ---------------------------------------------------------------- heap

func (in *interp) alloc(st *state, content *Node) *Node {
	r := newRoot()
	st.heap = st.heap.set(rootKey(r), content)
	return mkRef(r)
}

func rootKey(r *Node) int {
	k, err := strconv.Atoi(r.op)
	if err != nil {
		panic("bad root " + r.op)
	}
	return k
}

func getPath(c *Node, path []*Node) *Node {
	if len(path) == 0 || c.kind == KUndef {
		return c
	}
	switch c.kind {
	case KStruct:
		i, ok := constI(path[0])
		if !ok {
			fail("index not fixed by the shape of the data: %s", show(path[0]))
		}
		if i < 0 || int(i) >= len(c.args) {
			fail("index %d out of %d", i, len(c.args))
		}
		return getPath(c.args[i], path[1:])
	case KBytes:
		return byteAt(c, path[0])
	case KMT:
		return mtMap(c, func(x *Node) *Node { return getPath(x, path) })
	}
	fail("cannot look inside %s", show(c))
	return nil
}

func setPath(c *Node, path []*Node, v *Node) *Node {
	if len(path) == 0 {
		return v
	}
	switch c.kind {
	case KStruct:
		i, ok := constI(path[0])
		if !ok {
			fail("index not fixed by the shape of the data: %s", show(path[0]))
		}
		args := append([]*Node(nil), c.args...)
		args[i] = setPath(args[i], path[1:], v)
		return rawKind(KStruct, c.op, args...)
	case KBytes:
		return replaceBytes(c, path[0], bytesOf(rawAtom(SBytes, "byte", asInt(v))))
	case KMT:
		return mtMap(c, func(x *Node) *Node { return setPath(x, path, v) })
	}
	fail("cannot store inside %s", show(c))
	return nil
}

func (in *interp) load(st *state, ref *Node, p token.Pos) *Node {
	ls := leaves(st.cond, ref)
	var out *Node
	care := st.cond
	for i := len(ls) - 1; i >= 0; i-- {
		lf := ls[i]
		if lf.n.kind == KNil || lf.n.kind == KUndef && false {
			in.panicIf(st, bddRestrict(lf.c, care), p, "nil pointer dereference")
			continue
		}
		v := in.loadLeaf(st, lf.n)
		if out == nil {
			out = v
		} else {
			out = iteV(bddRestrict(lf.c, care), v, out)
		}
	}
	if out == nil {
		return undef
	}
	return out
}

func (in *interp) loadLeaf(st *state, r *Node) *Node {
	if r.kind != KRef {
		fail("load from %s", show(r))
	}
	k := rootKey(r.args[0])
	c := st.heap.get(k)
	if c == nil {
		fail("load from unknown cell %s", show(r))
	}
	if n := len(in.frozen); n > 0 && in.locked == 0 && k <= in.frozen[n-1].next {
		if in.bareReads == nil {
			in.bareReads = map[int]bool{}
		}
		in.bareReads[k] = true
	}
	return getPath(c, r.args[1:])
}

func (in *interp) store(st *state, ref, v *Node, p token.Pos) {
	ls := leaves(st.cond, ref)
	care := st.cond
	for _, lf := range ls {
		if lf.n.kind == KNil {
			in.panicIf(st, bddRestrict(lf.c, care), p, "nil pointer dereference")
			continue
		}
		if lf.n.kind != KRef {
			fail("store to %s", show(lf.n))
		}
		k := rootKey(lf.n.args[0])
		old := st.heap.get(k)
		nw := setPath(old, lf.n.args[1:], v)
		if len(ls) > 1 {
			nw = iteV(bddRestrict(lf.c, care), nw, old)
		}
		st.heap = st.heap.set(k, nw)
		in.guarded(k)
		in.wrote(k, st.cond, lf.c, p)
	}
}

func (in *interp) wrote(k int, path, c *bdd, p token.Pos) {
	if n := len(in.frozen); n == 0 || k > in.frozen[n-1].next || in.owned[k] {
		return
	}
	at := ""
	if p.IsValid() {
		at = in.pos(p)
	}
	in.writes = append(in.writes, access{k, bddAnd(path, c), in.locked == 0 || in.shared == in.locked, in.once > 0, at})
}

// guarded: cells written under a lock are caches for the purpose of Intact;
// whether they change a verdict is another question.
func (in *interp) guarded(k int) {
	if in.locked > 0 {
		if in.exempt == nil {
			in.exempt = map[int]bool{}
		}
		in.exempt[k] = true
	}
}

// ---------------------------------------------------------------- types

var typeReg = map[string]types.Type{}

func typeKey(t types.Type) string {
	k := types.TypeString(t, nil)
	if _, ok := typeReg[k]; !ok {
		typeReg[k] = t
	}
	return k
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func primCell(t types.Type) *Node {
	switch types.TypeString(t, nil) {
	case "math/big.Int":
		return zero
	case "bytes.Buffer", "strings.Builder":
		return emptyBytes
	case "time.Time":
		return rawAtom(SOther, "time0")
	case "sync.Map":
		return mkStruct("map")
	case "sync/atomic.Value":
		return nilNode
	case "sync/atomic.Bool":
		return ff
	case "sync/atomic.Int32", "sync/atomic.Int64", "sync/atomic.Uint32", "sync/atomic.Uint64":
		return zero
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && n.Obj().Name() == "Pointer" {
		return nilNode
	}
	return nil
}

func zeroValue(t types.Type) *Node {
	if p := primCell(types.Unalias(t)); p != nil {
		return p
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return nilNode
		case u.Info()&types.IsBoolean != 0:
			return ff
		case u.Info()&types.IsString != 0:
			return emptyBytes
		case u.Info()&types.IsInteger != 0:
			return zero
		case u.Info()&types.IsFloat != 0:
			return floatNode(0)
		case u.Kind() == types.UnsafePointer:
			return nilNode
		}
	case *types.Struct:
		var fs []*Node
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroValue(u.Field(i).Type()))
		}
		return mkStruct("", fs...)
	case *types.Array:
		return zeroArray(u.Elem(), u.Len())
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan, *types.Slice:
		return nilNode
	case *types.Tuple:
		var fs []*Node
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, zeroValue(u.At(i).Type()))
		}
		return mkTuple(fs...)
	}
	fail("zero value of %s", t)
	return nil
}

func zeroArray(el types.Type, n int64) *Node {
	if isByteElem(el) {
		return mkBytes([]*Node{rawAtom(SBytes, "zero", intNode(n))})
	}
	if n > 1<<16 {
		fail("array too long: %d", n)
	}
	z := zeroValue(el)
	args := make([]*Node, n)
	for i := range args {
		args[i] = z
	}
	return mkStruct("array", args...)
}

func intTypeName(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return ""
	}
	switch b.Kind() {
	case types.UntypedInt:
		return "int"
	case types.UntypedRune:
		return "int32"
	}
	return b.Name()
}

func normIntName(s string) string {
	switch s {
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	}
	return s
}
