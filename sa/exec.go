package main

// The abstract interpreter: one pass over the SSA form of a function in weak
// topological order, joining states where control flow joins.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// E is one analysis (one partition of the inputs of one operation).
type E struct {
	inst bool // symbolic pointers, slices and maps are memory of their own
	W    *World
	b    *BDD

	terms   []*Term
	termKey map[string]*Term
	apps    map[string][]*App
	gapEnd  map[int32]int32

	codes    map[string]int
	codeList []string

	objs    []*ObjInfo
	globals map[*ssa.Global]int

	initPhase bool
	initHeap  *hnode

	Events   []*Event
	onAccess func(st *State, obj int, path []int, write bool)
	onDep    func(kind string, g Ref, v Value) // what decides which instruction runs or which memory is used

	opaque     map[string]bool // functions treated as boundaries
	errTerms   map[*Term]bool  // identities of unknown error values
	depth      int
	stack      []*ssa.Function
	steps      int
	pooled     map[int]Ref // memory given to a sync.Pool
	maxSteps   int
	curPos     token.Pos
	Funcs      map[*ssa.Function]bool // functions interpreted
	Sites      map[ssa.Instruction]bool
	natives    map[string]*types.Named
	epoch      int
	onAcquire  func(st *State, addr string, w bool)
	goroutines []goStart
	http       *httpModel
	inGo       int   // the goroutine that is interpreted, 0 for the one of main
	goParent   []int // of goroutine i+1: the one that started it
	flags      map[string]*flagInfo
	flagList   []string
	flagVal    map[string]Value // flags whose value the partition fixes
	envTerms   map[string]*Term
	lazyGlob   map[*ssa.Global]bool
	muteEvents bool
	specDepth  int
	intConsts  map[int64]bool
}

type goStart struct {
	Ev  *Event
	Fn  Value
	Arg []Value
}

// Event is something an operation does besides computing values.
type Event struct {
	Kind  string
	Name  string
	G     Ref
	Pos   string
	Fn    string
	Stack string
	Args  []Value
	Err   Ref // guard under which the called operation failed
	Res   Value
	Res0  types.Type
	Locks []lockEnt
	St    *State
	InGo  int
	Spec  bool
	Term  *Term // the term of the call
	Sel   Ref   // for a receive in a select statement: where this channel was chosen
}

func (e *E) event(st *State, kind, name string, args ...Value) *Event {
	ev := &Event{Kind: kind, Name: name, G: st.g, Args: args, Err: False, Sel: True, InGo: e.inGo, Spec: e.specDepth > 0}
	ev.Pos = e.W.pos(e.curPos)
	if len(e.stack) > 0 {
		ev.Fn = e.stack[len(e.stack)-1].String()
	}
	var p []string
	for _, f := range e.stack {
		p = append(p, f.Name())
	}
	ev.Stack = strings.Join(p, " > ")
	ev.Locks = append([]lockEnt(nil), st.locks...)
	if !e.muteEvents {
		e.Events = append(e.Events, ev)
	}
	return ev
}

func newE(w *World, maxNode int) *E {
	e := &E{W: w, b: NewBDD(maxNode), termKey: map[string]*Term{}, apps: map[string][]*App{}, gapEnd: map[int32]int32{},
		codes: map[string]int{}, globals: map[*ssa.Global]int{}, opaque: map[string]bool{}, errTerms: map[*Term]bool{}, maxSteps: 60_000_000,
		Funcs: map[*ssa.Function]bool{}, Sites: map[ssa.Instruction]bool{}, natives: map[string]*types.Named{},
		flags: map[string]*flagInfo{}, envTerms: map[string]*Term{}, lazyGlob: map[*ssa.Global]bool{}, intConsts: map[int64]bool{}}
	e.strCode("")
	return e
}

// ---- function structure

type wtoElem struct {
	b    *ssa.BasicBlock
	body []wtoElem // component headed by b when loop
	loop bool
}

type fnInfo struct {
	num map[ssa.Value]int
	n   int
	wto []wtoElem
	// dead registers at the entry of each block, and when a panic is recovered
	dead    [][]int
	deadRec []int
}

// liveness finds the registers that no path from a block's entry reads.
func (fi *fnInfo) liveness(fn *ssa.Function) {
	nb := len(fn.Blocks)
	live := make([]map[int]bool, nb)
	for i := range live {
		live[i] = map[int]bool{}
	}
	// a phi is defined at the entry of its block, its edges are read at the end of the predecessors
	atEntry := func(b *ssa.BasicBlock) map[int]bool {
		out := map[int]bool{}
		for _, s := range b.Succs {
			phis := map[int]bool{}
			for _, in := range s.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					phis[fi.num[p]] = true
				}
			}
			for n := range live[s.Index] {
				if !phis[n] {
					out[n] = true
				}
			}
		}
		for _, s := range b.Succs {
			for _, in := range s.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, q := range s.Preds {
					if q == b {
						if n, ok := fi.num[p.Edges[i]]; ok {
							out[n] = true
						}
					}
				}
			}
		}
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				delete(out, fi.num[v])
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					if n, ok := fi.num[*op]; ok {
						out[n] = true
					}
				}
			}
		}
		// the phis themselves hold their values from the entry on, for as long as they are read
		return out
	}
	for changed := true; changed; {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			n := atEntry(fn.Blocks[i])
			if len(n) != len(live[i]) {
				live[i] = n
				changed = true
			}
		}
	}
	rec := map[int]bool{}
	if fn.Recover != nil {
		rec = live[fn.Recover.Index]
	}
	for i := 0; i < fi.n; i++ {
		if !rec[i] {
			fi.deadRec = append(fi.deadRec, i)
		}
	}
	for _, l := range live {
		var d []int
		for i := 0; i < fi.n; i++ {
			if !l[i] && !rec[i] {
				d = append(d, i)
			}
		}
		fi.dead = append(fi.dead, d)
	}
}

var fnInfos sync.Map
var fnInfoMu sync.Mutex

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos.Load(fn); ok {
		return i.(*fnInfo)
	}
	fnInfoMu.Lock()
	defer fnInfoMu.Unlock()
	if i, ok := fnInfos.Load(fn); ok {
		return i.(*fnInfo)
	}
	fi := &fnInfo{num: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// Bourdoncle's weak topological order
	dfn := map[*ssa.BasicBlock]int{}
	num := 0
	var stk []*ssa.BasicBlock
	const inf = 1 << 30
	var visit func(b *ssa.BasicBlock, part *[]wtoElem) int
	var component func(b *ssa.BasicBlock) []wtoElem
	visit = func(b *ssa.BasicBlock, part *[]wtoElem) int {
		stk = append(stk, b)
		num++
		dfn[b] = num
		head := num
		loop := false
		for _, s := range b.Succs {
			var m int
			if dfn[s] == 0 {
				m = visit(s, part)
			} else {
				m = dfn[s]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[b] {
			dfn[b] = inf
			el := stk[len(stk)-1]
			stk = stk[:len(stk)-1]
			if loop {
				for el != b {
					dfn[el] = 0
					el = stk[len(stk)-1]
					stk = stk[:len(stk)-1]
				}
				*part = append([]wtoElem{{b: b, body: component(b), loop: true}}, *part...)
			} else {
				*part = append([]wtoElem{{b: b}}, *part...)
			}
		}
		return head
	}
	component = func(b *ssa.BasicBlock) []wtoElem {
		var part []wtoElem
		for _, s := range b.Succs {
			if dfn[s] == 0 {
				visit(s, &part)
			}
		}
		return part
	}
	if len(fn.Blocks) > 0 {
		visit(fn.Blocks[0], &fi.wto)
	}
	fi.liveness(fn)
	fnInfos.Store(fn, fi)
	return fi
}

// ---- frames

type deferEnt struct {
	g    Ref
	call *ssa.CallCommon
	fv   Value
	args []Value
	pos  token.Pos
}

type fstate struct {
	st     *State
	env    []Value
	defers []*deferEnt
}

func (fs *fstate) clone() *fstate {
	return &fstate{st: fs.st.clone(), env: append([]Value(nil), fs.env...), defers: fs.defers}
}

type frame struct {
	e       *E
	fn      *ssa.Function
	fi      *fnInfo
	bind    []Value
	pending []*fstate
	cur     *fstate
	pan     *fstate // merged panicking state
	ret     *State
	retv    Value
	isDefer bool
}

func (e *E) mergeF(a, b *fstate) *fstate {
	if a == nil || a.st.g == False {
		return b
	}
	if b == nil || b.st.g == False {
		return a
	}
	r := &fstate{st: e.mergeState(a.st, b.st)}
	r.env = make([]Value, len(a.env))
	for i := range a.env {
		x, y := a.env[i], b.env[i]
		switch {
		case x == nil:
			r.env[i] = y
		case y == nil:
			r.env[i] = x
		default:
			if sameGo(x, y) {
				r.env[i] = x
			} else {
				r.env[i] = e.ite(a.st.g, x, y)
			}
		}
	}
	n := 0
	for n < len(a.defers) && n < len(b.defers) && a.defers[n] == b.defers[n] {
		n++
	}
	if n == len(a.defers) && n == len(b.defers) {
		r.defers = a.defers
	} else {
		r.defers = append(r.defers, a.defers[:n]...)
		for _, d := range a.defers[n:] {
			c := *d
			c.g = e.b.And(c.g, a.st.g)
			r.defers = append(r.defers, &c)
		}
		for _, d := range b.defers[n:] {
			c := *d
			c.g = e.b.And(c.g, b.st.g)
			r.defers = append(r.defers, &c)
		}
	}
	return r
}

// call interprets a function: result, state after a normal return (nil if none),
// state when it ends with a panic (nil if none).
func (e *E) call(fn *ssa.Function, args, bind []Value, st *State, isDefer bool) (Value, *State, *State) {
	if len(fn.Blocks) == 0 {
		e.W.build(fn)
	}
	if len(fn.Blocks) == 0 {
		unsup("no source for %s (called from %s)", fn, e.where())
	}
	if e.depth > 250 {
		unsup("recursion too deep in %s", fn)
	}
	e.depth++
	e.stack = append(e.stack, fn)
	isSpec := e.W.isSpec(fn)
	if isSpec {
		e.specDepth++
	} else if e.specDepth == 0 {
		e.Funcs[fn] = true
	}
	savePos := e.curPos
	defer func() {
		e.depth--
		e.stack = e.stack[:len(e.stack)-1]
		if isSpec {
			e.specDepth--
		}
		e.curPos = savePos
	}()
	fi := infoOf(fn)
	f := &frame{e: e, fn: fn, fi: fi, bind: bind, isDefer: isDefer}
	f.pending = make([]*fstate, len(fn.Blocks))
	env := make([]Value, fi.n)
	if len(args) != len(fn.Params) {
		unsup("call of %s with %d arguments", fn, len(args))
	}
	for i, p := range fn.Params {
		env[fi.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[fi.num[p]] = bind[i]
	}
	f.pending[0] = &fstate{st: st.clone(), env: env}
	f.run(fi.wto)
	if f.pan != nil && f.pan.st.g != False {
		f.unwind()
	}
	var pst *State
	if f.pan != nil && f.pan.st.g != False {
		pst = f.pan.st
	}
	return f.retv, f.ret, pst
}

func (f *frame) run(elems []wtoElem) {
	for _, el := range elems {
		if !el.loop {
			f.block(el.b)
			continue
		}
		var snap *loopSnap
		for n := 0; f.pending[el.b.Index] != nil; n++ {
			if f.pending[el.b.Index].st.g == False {
				f.pending[el.b.Index] = nil
				break
			}
			if n >= 64 {
				if n&(n-1) == 0 {
					snap = f.snapshot(f.pending[el.b.Index])
				} else if f.stuck(snap, el.b) || f.cycles(snap, el) {
					continue
				}
			}
			if n > 200000 {
				unsup("loop at %s does not reach a fixpoint", f.e.W.pos(blockPos(el.b)))
			}
			f.block(el.b)
			f.run(el.body)
		}
	}
}

// loopSnap is the state with which an iteration of a loop began.
type loopSnap struct {
	env   []Value
	heap  *hnode
	vars  int
	evs   int
	locks []lockEnt
	g     Ref

	asked, pure bool
	phis, lens  []int
}

func (f *frame) snapshot(fs *fstate) *loopSnap {
	return &loopSnap{env: append([]Value(nil), fs.env...), heap: fs.st.heap, vars: len(f.e.b.label), evs: len(f.e.Events), locks: fs.st.locks, g: fs.st.g}
}

// stuck finds the inputs for which an iteration begins in the very state of an earlier one: the loop never ends for
// them, which is kept like a panic (it never returns). The state counts as new when anything but words has changed.
func (f *frame) stuck(s *loopSnap, b *ssa.BasicBlock) bool {
	e, fs := f.e, f.pending[b.Index]
	if s == nil || s.vars != len(e.b.label) || s.evs != len(e.Events) || s.heap != fs.st.heap || len(s.locks) != len(fs.st.locks) {
		return false
	}
	g := fs.st.g
	for i, v := range fs.env {
		w := s.env[i]
		if sameGo(v, w) || v != nil && w != nil && identical(v, w) {
			continue
		}
		switch x := v.(type) {
		case *BV:
			y, ok := w.(*BV)
			if !ok || y.W != x.W {
				return false
			}
			for k := 0; k < x.W && g != False; k++ {
				g = e.b.And(g, Not(e.b.Xor(x.bit(k), y.bit(k))))
			}
		case BoolV:
			y, ok := w.(BoolV)
			if !ok {
				return false
			}
			g = e.b.And(g, Not(e.b.Xor(Ref(x), Ref(y))))
		default:
			return false
		}
		if g == False {
			return false
		}
	}
	f.cur = fs
	f.panicIf(g, "the loop at "+e.W.pos(blockPos(b))+" never ends", nil)
	return true
}

// cycles looks, after many iterations, at the words that decide about leaving the loop: it never ends either when
// they come back and nothing has left it in the meantime. The result of a call is taken to be the same again.
func (f *frame) cycles(s *loopSnap, el wtoElem) bool {
	fs := f.pending[el.b.Index]
	if s.g != fs.st.g {
		return false
	}
	if !s.asked {
		s.asked = true
		s.phis, s.lens, s.pure = f.control(el)
	}
	if !s.pure {
		return false
	}
	same := func(n int, length bool) bool {
		v, w := fs.env[n], s.env[n]
		if length {
			x, ok := v.(*SliceV)
			y, ok2 := w.(*SliceV)
			return ok && ok2 && identical(x.Len, y.Len)
		}
		return v != nil && w != nil && identical(v, w)
	}
	for _, n := range s.phis {
		if !same(n, false) {
			return false
		}
	}
	for _, n := range s.lens {
		if !same(n, true) {
			return false
		}
	}
	f.cur = fs
	f.panicIf(True, "the loop at "+f.e.W.pos(blockPos(el.b))+" never ends", nil)
	return true
}

// control is the backward slice of the branches of a loop: the words, and the slices whose length, at its head that
// decide how it goes on. It is not pure when memory decides.
func (f *frame) control(el wtoElem) (phis, lens []int, pure bool) {
	in := map[*ssa.BasicBlock]bool{}
	var blocks func(el wtoElem)
	blocks = func(el wtoElem) {
		in[el.b] = true
		for _, x := range el.body {
			blocks(x)
		}
	}
	blocks(el)
	type item struct {
		v   ssa.Value
		phi bool // carried over from one iteration to the next
	}
	seen := map[item]bool{}
	var work []item
	for b := range in {
		if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			work = append(work, item{c.Cond, false})
		}
	}
	var ops [8]*ssa.Value
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		i, ok := w.v.(ssa.Instruction)
		if !ok || seen[w] || !in[i.Block()] {
			continue
		}
		seen[w] = true
		switch x := w.v.(type) {
		case *ssa.Phi:
			if x.Block() == el.b {
				if _, ok := x.Type().Underlying().(*types.Basic); !ok {
					return nil, nil, false
				}
				phis = append(phis, f.fi.num[x])
			}
			w.phi = true
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType:
		case *ssa.UnOp:
			if x.Op == token.MUL || x.Op == token.ARROW {
				return nil, nil, false
			}
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.Call); !ok || w.phi {
				return nil, nil, false
			}
			continue
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if p, ok := x.Call.Args[0].(*ssa.Phi); ok && p.Block() == el.b {
					lens = append(lens, f.fi.num[p])
				} else if k, ok := x.Call.Args[0].(ssa.Instruction); ok && in[k.Block()] {
					return nil, nil, false
				}
			} else if w.phi {
				return nil, nil, false
			}
			continue
		default:
			return nil, nil, false
		}
		for _, o := range i.Operands(ops[:0]) {
			work = append(work, item{*o, w.phi})
		}
	}
	return phis, lens, len(phis) > 0
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos() != token.NoPos {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

func (f *frame) block(b *ssa.BasicBlock) {
	fs := f.pending[b.Index]
	if fs == nil {
		return
	}
	f.pending[b.Index] = nil
	if fs.st.g == False {
		return
	}
	f.cur = fs
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		f.e.steps++
		if f.e.steps > f.e.maxSteps {
			unsup("step budget exceeded")
		}
		if f.e.steps&(1<<16-1) == 0 {
			checkTime()
		}
		if in.Pos() != token.NoPos {
			f.e.curPos = in.Pos()
		}
		if f.e.specDepth == 0 && !f.e.initPhase {
			f.e.Sites[in] = true
		}
		f.instr(in)
		if f.cur == nil || f.cur.st.g == False {
			return
		}
	}
}

// push sends the current state along an edge.
func (f *frame) push(from *ssa.BasicBlock, si int, fs *fstate) {
	to := from.Succs[si]
	pi := -1
	skip := 0
	if si == 1 && from.Succs[0] == to {
		skip = 1
	}
	for i, p := range to.Preds {
		if p == from {
			if skip > 0 {
				skip--
				continue
			}
			pi = i
			break
		}
	}
	var nums []int
	var vals []Value
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nums = append(nums, f.fi.num[phi])
		save := f.cur
		f.cur = fs
		vals = append(vals, f.get(phi.Edges[pi]))
		f.cur = save
	}
	for i, n := range nums {
		fs.env[n] = vals[i]
	}
	for _, n := range f.fi.dead[to.Index] {
		fs.env[n] = nil
	}
	f.pending[to.Index] = f.e.mergeF(f.pending[to.Index], fs)
}

func (f *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return f.e.constant(v)
	case *ssa.Global:
		return &PtrV{Obj: f.e.globalObj(f.cur.st, v)}
	case *ssa.Function:
		return &FuncV{Fn: v}
	case *ssa.Builtin:
		return &FuncV{B: v}
	}
	n, ok := f.fi.num[v]
	if !ok {
		unsup("value %s of %s", v.Name(), f.fn)
	}
	x := f.cur.env[n]
	if x == nil {
		unsup("undefined value %s in %s at %s", v.Name(), f.fn, f.e.W.pos(v.Pos()))
	}
	return x
}

func (f *frame) set(v ssa.Value, x Value) { f.cur.env[f.fi.num[v]] = x }

// fork runs do once per alternative of v and joins the outcomes.
func (f *frame) fork(v Value, do func(v Value) Value) Value {
	alts := f.e.alts(f.cur.st.g, v)
	if len(alts) == 1 && f.e.b.And(f.cur.st.g, Not(alts[0].G)) == False {
		return do(alts[0].V)
	}
	base := f.cur
	var acc *State
	var res Value
	for _, a := range alts {
		st := base.st.clone()
		st.g = a.G
		f.cur = &fstate{st: st, env: base.env, defers: base.defers}
		r := do(a.V)
		if f.cur == nil || f.cur.st.g == False {
			continue
		}
		if acc == nil {
			acc, res = f.cur.st, r
		} else {
			g := f.cur.st.g
			acc = f.e.mergeState(f.cur.st, acc)
			if r != nil && res != nil {
				res = f.e.ite(g, r, res)
			} else if res == nil {
				res = r
			}
		}
	}
	f.cur = base
	if acc == nil {
		f.cur.st = base.st.clone()
		f.cur.st.g = False
		return nil
	}
	f.cur.st = acc
	return res
}

// panicIf ends the paths on which cond holds with a run-time panic.
func (f *frame) panicIf(cond Ref, msg string, v Value) {
	e := f.e
	g := e.b.And(f.cur.st.g, cond)
	if g == False {
		return
	}
	p := f.cur.clone()
	p.st.g = g
	if v == nil {
		v = &IfaceV{T: e.nativeType("runtime.Error"), V: cStr(msg)}
	}
	p.st.pv = v
	e.event(p.st, "panic", msg)
	f.dropDead(p)
	f.pan = e.mergeF(f.pan, p)
	f.cur.st.g = e.b.And(f.cur.st.g, Not(cond))
}

// dropDead forgets what a panicking path's registers hold.
func (f *frame) dropDead(p *fstate) {
	if f.fi == nil {
		return
	}
	for _, n := range f.fi.deadRec {
		p.env[n] = nil
	}
}

func (f *frame) addPanic(st *State) {
	if st == nil || st.g == False {
		return
	}
	p := f.cur.clone()
	p.st = st
	f.dropDead(p)
	f.pan = f.e.mergeF(f.pan, p)
}

// unwind runs the deferred calls of panicking paths.
func (f *frame) unwind() {
	e := f.e
	for rounds := 0; rounds < 10; rounds++ {
		p := f.pan
		if p == nil || len(p.defers) == 0 {
			return
		}
		f.pan = nil
		f.cur = p
		defers := p.defers
		p.defers = nil
		f.runDefers(defers, true)
		if f.cur.st.g == False {
			continue
		}
		// recovered?
		pv := f.cur.st.pv
		rec := False
		for _, a := range e.alts(f.cur.st.g, pv) {
			if i, ok := a.V.(*IfaceV); !ok || i.T == nil {
				rec = e.b.Or(rec, a.G)
			}
		}
		still := f.cur.clone()
		still.st.g = e.b.And(still.st.g, Not(rec))
		if rec != False {
			f.cur.st.g = rec
			f.cur.st.pv = nil
			if f.fn.Recover != nil {
				f.pending[f.fn.Recover.Index] = f.cur
				f.block(f.fn.Recover)
			} else {
				f.doReturn(nil)
			}
		}
		f.pan = e.mergeF(f.pan, still)
		if f.pan != nil {
			f.pan.defers = nil
		}
		return
	}
}

func (f *frame) doReturn(vals []Value) {
	var r Value
	if len(vals) == 0 {
		if f.fn.Signature.Results().Len() > 0 {
			r = f.e.zero(f.fn.Signature.Results())
			if f.fn.Signature.Results().Len() == 1 {
				r = r.(TupleV)[0]
			}
		} else {
			r = TupleV{}
		}
	} else if len(vals) == 1 {
		r = vals[0]
	} else {
		r = TupleV(vals)
	}
	st := f.cur.st
	if f.ret == nil {
		f.ret, f.retv = st, r
	} else {
		f.retv = f.e.ite(st.g, r, f.retv)
		f.ret = f.e.mergeState(st, f.ret)
	}
}

func (f *frame) runDefers(ds []*deferEnt, panicking bool) {
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		if f.cur.st.g == False {
			return
		}
		h := f.e.b.And(f.cur.st.g, d.g)
		if h == False {
			continue
		}
		f.fork(f.e.choice2(d.g), func(v Value) Value {
			if v.(BoolV) == BoolV(True) {
				f.e.curPos = d.pos
				f.callValue(d.call, d.fv, d.args, d.pos, true)
			}
			return TupleV{}
		})
	}
}

// choice2 is a two-way choice usable with fork.
func (e *E) choice2(g Ref) Value {
	if g == True {
		return BoolV(True)
	}
	if g == False {
		return BoolV(False)
	}
	return &ChoiceV{A: []Alt{{g, BoolV(True)}, {Not(g), BoolV(False)}}}
}

func (e *E) where() string {
	s := e.W.pos(e.curPos)
	if len(e.stack) > 0 {
		s += " in " + e.stack[len(e.stack)-1].String()
	}
	return s
}

func (f *frame) instr(in ssa.Instruction) {
	e := f.e
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := e.newObj(f.cur.st, "local", x.Comment, t, e.zero(t))
		f.set(x, &PtrV{Obj: id})
	case *ssa.BinOp:
		f.set(x, f.binop(x.Op, f.get(x.X), f.get(x.Y), x.X.Type(), x.Y.Type(), x.Type()))
	case *ssa.UnOp:
		f.unop(x)
	case *ssa.Call:
		r := f.callCommon(&x.Call, x.Pos(), false)
		if f.cur.st.g != False {
			if r == nil {
				r = TupleV{}
			}
			f.set(x, r)
		}
	case *ssa.ChangeInterface:
		f.set(x, f.get(x.X))
	case *ssa.ChangeType:
		f.set(x, f.get(x.X))
	case *ssa.Convert:
		f.set(x, f.convert(f.get(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		f.set(x, f.convert(f.get(x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		f.set(x, f.fork(f.get(x.X), func(v Value) Value {
			s := v.(*SliceV)
			f.panicIf(f.less(s.Len, constBV(64, uint64(n)), false), "slice too short for array conversion", nil)
			if s.Obj < 0 {
				return nilPtr
			}
			if s.Off != 0 {
				unsup("array pointer into a slice")
			}
			return &PtrV{Obj: s.Obj, Path: s.Path}
		}))
	case *ssa.Defer:
		fv, args := f.callee(&x.Call)
		d := &deferEnt{g: f.cur.st.g, call: &x.Call, fv: fv, args: args, pos: x.Pos()}
		f.cur.defers = append(append([]*deferEnt(nil), f.cur.defers...), d)
	case *ssa.RunDefers:
		ds := f.cur.defers
		f.cur.defers = nil
		f.runDefers(ds, false)
	case *ssa.Extract:
		v := f.get(x.Tuple)
		f.set(x, e.map1(True, v, func(_ Ref, v Value) Value { return v.(TupleV)[x.Index] }))
	case *ssa.Field:
		f.set(x, e.map1(True, f.get(x.X), func(_ Ref, v Value) Value {
			s, ok := v.(StructV)
			if !ok {
				unsup("field of %T at %s", v, e.where())
			}
			return s[x.Field]
		}))
	case *ssa.FieldAddr:
		f.set(x, f.ptrOp(f.get(x.X), func(p *PtrV) Value {
			return &PtrV{Obj: p.Obj, Path: appendPath(p.Path, x.Field)}
		}))
	case *ssa.Go:
		f.goStmt(x)
	case *ssa.If:
		f.branch(x)
	case *ssa.Jump:
		b := x.Block()
		f.push(b, 0, f.cur)
		f.cur = nil
	case *ssa.Index:
		f.set(x, f.index(f.get(x.X), f.get(x.Index).(*BV), x.Index.Type()))
	case *ssa.IndexAddr:
		f.indexAddr(x)
	case *ssa.Lookup:
		f.lookup(x)
	case *ssa.MakeChan:
		f.set(x, &ChanV{Obj: e.newObj(f.cur.st, "local", "chan", x.Type(), StructV{f.get(x.Size)})})
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, f.get(v))
		}
		f.set(x, &FuncV{Fn: x.Fn.(*ssa.Function), Bind: b})
	case *ssa.MakeInterface:
		v := f.get(x.X)
		t := x.X.Type()
		f.set(x, e.map1(True, v, func(_ Ref, v Value) Value {
			if n, ok := v.(*NativeV); ok && n.Kind == "opaque" {
				return &IfaceV{T: t, V: v}
			}
			return &IfaceV{T: t, V: v}
		}))
	case *ssa.MakeMap:
		id := e.newObj(f.cur.st, "local", "map", x.Type(), &MapObj{ET: x.Type().Underlying().(*types.Map).Elem()})
		f.set(x, &MapV{Obj: id})
	case *ssa.MakeSlice:
		f.makeSlice(x)
	case *ssa.MapUpdate:
		k, v := f.get(x.Key), f.get(x.Value)
		f.fork(f.get(x.Map), func(m Value) Value {
			f.mapUpdate(m.(*MapV), k, v)
			return TupleV{}
		})
	case *ssa.Next:
		f.next(x)
	case *ssa.Range:
		f.set(x, f.rangeStart(x))
	case *ssa.Panic:
		v := f.get(x.X)
		f.panicIf(True, "explicit panic: "+show(v), v)
	case *ssa.Return:
		var vals []Value
		for _, r := range x.Results {
			vals = append(vals, f.get(r))
		}
		f.doReturn(vals)
		f.cur = nil
	case *ssa.Send:
		e.event(f.cur.st, "send", "", f.get(x.Chan), f.get(x.X))
	case *ssa.Select:
		f.selectStmt(x)
	case *ssa.Slice:
		f.slice(x)
	case *ssa.Store:
		v := f.get(x.Val)
		f.store(f.get(x.Addr), v)
	case *ssa.TypeAssert:
		f.typeAssert(x)
	default:
		unsup("instruction %T at %s", in, e.where())
	}
}

func appendPath(p []int, i ...int) []int {
	return append(append(make([]int, 0, len(p)+len(i)), p...), i...)
}

func (f *frame) branch(x *ssa.If) {
	e := f.e
	b := x.Block()
	var c Ref
	switch v := f.get(x.Cond).(type) {
	case BoolV:
		c = Ref(v)
	case *ChoiceV:
		c = e.boolOf(f.cur.st.g, v)
	default:
		unsup("branch on %T", v)
	}
	g := f.cur.st.g
	gt := e.b.And(g, c)
	gf := e.b.And(g, Not(c))
	cur := f.cur
	f.cur = nil
	switch {
	case gf == False:
		f.push(b, 0, cur)
	case gt == False:
		f.push(b, 1, cur)
	default:
		if e.onDep != nil {
			e.onDep("branch", g, BoolV(c))
		}
		o := cur.clone()
		cur.st.g = gt
		o.st.g = gf
		f.push(b, 0, cur)
		f.push(b, 1, o)
	}
}

func (e *E) boolOf(g Ref, v Value) Ref {
	switch v := v.(type) {
	case BoolV:
		return Ref(v)
	case *ChoiceV:
		r := False
		for _, a := range v.A {
			r = e.b.Or(r, e.b.And(a.G, e.boolOf(g, a.V)))
		}
		return r
	}
	unsup("bool of %T", v)
	return False
}

// ptrOp applies op to every non-nil alternative of a pointer; nil dereferences panic.
func (f *frame) ptrOp(v Value, op func(p *PtrV) Value) Value {
	var out []Alt
	for _, a := range f.e.alts(f.cur.st.g, v) {
		switch p := a.V.(type) {
		case *PtrV:
			if p.Obj < 0 {
				f.panicIf(a.G, "nil pointer dereference", nil)
				continue
			}
			out = append(out, Alt{a.G, op(p)})
		case *NativeV:
			unsup("dereference of %s at %s", show(p), f.e.where())
		default:
			unsup("dereference of %T at %s", a.V, f.e.where())
		}
	}
	if len(out) == 0 {
		return nilPtr
	}
	if len(out) == 1 {
		return out[0].V
	}
	return f.e.choice(out)
}

func (f *frame) load(addr Value) Value {
	e := f.e
	alts := e.alts(f.cur.st.g, addr)
	if len(alts) == 1 {
		if p, ok := alts[0].V.(*PtrV); ok && p.Obj >= 0 {
			if e.b.And(f.cur.st.g, Not(alts[0].G)) == False {
				return e.loadObj(f.cur.st, p.Obj, p.Path)
			}
		}
	}
	var out []Alt
	for _, a := range alts {
		p, ok := a.V.(*PtrV)
		if !ok {
			unsup("load through %s at %s", show(a.V), e.where())
		}
		if p.Obj < 0 {
			f.panicIf(a.G, "nil pointer dereference", nil)
			continue
		}
		st := f.cur.st
		if e.onAccess != nil {
			st = st.clone()
			st.g = a.G
		}
		out = append(out, Alt{a.G, e.loadObj(st, p.Obj, p.Path)})
	}
	if len(out) == 0 {
		return nil
	}
	return e.choice(out)
}

func (f *frame) store(addr, v Value) {
	e := f.e
	alts := e.alts(f.cur.st.g, addr)
	for _, a := range alts {
		p, ok := a.V.(*PtrV)
		if !ok {
			unsup("store through %s at %s", show(a.V), e.where())
		}
		if p.Obj < 0 {
			f.panicIf(a.G, "nil pointer dereference", nil)
			continue
		}
		if len(alts) == 1 && e.b.And(f.cur.st.g, Not(a.G)) == False {
			e.storeObj(f.cur.st, p.Obj, p.Path, v)
			continue
		}
		save := f.cur.st.g
		f.cur.st.g = a.G
		old := e.getPath(hget(f.cur.st.heap, p.Obj), p.Path)
		e.storeObj(f.cur.st, p.Obj, p.Path, e.ite(a.G, v, old))
		f.cur.st.g = save
	}
}

func (f *frame) unop(x *ssa.UnOp) {
	e := f.e
	switch x.Op {
	case token.MUL:
		v := f.load(f.get(x.X))
		if f.cur.st.g == False {
			return
		}
		f.set(x, v)
	case token.NOT:
		f.set(x, BoolV(Not(e.boolOf(f.cur.st.g, f.get(x.X)))))
	case token.SUB:
		switch v := f.get(x.X).(type) {
		case *BV:
			f.set(x, e.bvNeg(v))
		case FloatV:
			f.set(x, FloatV{-v.F})
		default:
			unsup("negation of %T", v)
		}
	case token.XOR:
		v := f.get(x.X).(*BV)
		f.set(x, e.bvNot(v))
	case token.ARROW:
		rev := e.event(f.cur.st, "recv", "", f.get(x.X))
		t := x.Type()
		if x.CommaOk {
			t = t.(*types.Tuple).At(0).Type()
		}
		v := e.symOf(f.cur.st, t, e.freshTerm("received"))
		rev.Res, rev.Res0 = v, t
		if x.CommaOk {
			v = TupleV{v, BoolV(e.termBool(e.freshTerm("open"), True))}
		}
		f.set(x, v)
	}
}

// selectStmt: any of the channels may be the one that is ready.
func (f *frame) selectStmt(x *ssa.Select) {
	e := f.e
	n := len(x.States)
	if !x.Blocking {
		n++
	}
	res := TupleV{nil, BoolV(e.termBool(e.freshTerm("open"), True))}
	t := e.freshTerm("selected")
	idx := constBV(64, uint64(n-1))
	if !x.Blocking {
		idx = constBV(64, ^uint64(0))
	}
	rest := True
	for i, s := range x.States {
		g := rest
		if i < n-1 {
			g = e.b.And(rest, e.termBool(e.newTerm("SELECT", t, constBV(64, uint64(i))), True))
		}
		rest = e.b.And(rest, Not(g))
		idx = e.ite(g, constBV(64, uint64(i)), idx).(*BV)
		if s.Dir == types.SendOnly {
			// a send that is given up when nobody receives yet, unless there is room in the channel
			ev := e.event(f.cur.st, "send", "", f.get(s.Chan), f.get(s.Send))
			if !x.Blocking && !f.buffered(f.get(s.Chan)) {
				ev.G = e.b.And(ev.G, g)
			}
			continue
		}
		ev := e.event(f.cur.st, "recv", "", f.get(s.Chan))
		ev.Sel = g
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		v := e.symOf(f.cur.st, et, e.freshTerm("received"))
		ev.Res, ev.Res0 = v, et
		if !x.Blocking {
			ev.G = e.b.And(ev.G, g)
			ev.Sel = True
		}
		res = append(res, e.ite(g, v, e.zero(et)))
	}
	res[0] = idx
	f.set(x, res)
}

// buffered: the channel has room for at least one value.
func (f *frame) buffered(v Value) bool {
	c, ok := v.(*ChanV)
	if !ok || c.Obj < 0 {
		return false
	}
	s, ok := f.e.loadObj(f.cur.st, c.Obj, nil).(StructV)
	if !ok || len(s) != 1 {
		return false
	}
	n, ok := s[0].(*BV)
	return ok && n.C && n.V > 0
}

func (f *frame) callee(c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		fv := f.get(c.Value)
		for _, a := range c.Args {
			args = append(args, f.get(a))
		}
		return fv, args
	}
	fv := f.get(c.Value)
	for _, a := range c.Args {
		args = append(args, f.get(a))
	}
	return fv, args
}

func (f *frame) callCommon(c *ssa.CallCommon, pos token.Pos, isDefer bool) Value {
	fv, args := f.callee(c)
	return f.callValue(c, fv, args, pos, isDefer)
}

func (f *frame) callValue(c *ssa.CallCommon, fv Value, args []Value, pos token.Pos, isDefer bool) Value {
	e := f.e
	if c != nil && c.IsInvoke() {
		return f.fork(fv, func(v Value) Value {
			i, ok := v.(*IfaceV)
			if !ok {
				unsup("method call on %T at %s", v, e.where())
			}
			if i.T == nil {
				f.panicIf(True, "nil pointer dereference (method call on nil interface)", nil)
				return nil
			}
			if _, ok := i.V.(*ChoiceV); ok {
				return f.fork(i.V, func(w Value) Value { return f.invoke(c, &IfaceV{T: i.T, V: w}, args, pos, isDefer) })
			}
			return f.invoke(c, i, args, pos, isDefer)
		})
	}
	return f.fork(fv, func(v Value) Value {
		fn, ok := v.(*FuncV)
		if !ok {
			unsup("call of %T at %s", v, e.where())
		}
		switch {
		case fn.B != nil:
			return f.builtin(fn.B.Name(), args, c)
		case fn.N != "":
			return f.nativeFunc(fn, args)
		case fn.Fn == nil:
			f.panicIf(True, "call of nil function", nil)
			return nil
		}
		return f.callFn(fn.Fn, args, fn.Bind, pos, isDefer)
	})
}

func (f *frame) invoke(c *ssa.CallCommon, i *IfaceV, args []Value, pos token.Pos, isDefer bool) Value {
	e := f.e
	if n, ok := i.V.(*NativeV); ok {
		return f.nativeMethod(n, c.Method, args)
	}
	ms := e.W.prog.MethodSets.MethodSet(i.T)
	sel := ms.Lookup(c.Method.Pkg(), c.Method.Name())
	if sel == nil {
		unsup("no method %s on %s", c.Method.Name(), i.T)
	}
	fn := e.W.prog.MethodValue(sel)
	return f.callFn(fn, append([]Value{i.V}, args...), nil, pos, isDefer)
}

func (f *frame) callFn(fn *ssa.Function, args, bind []Value, pos token.Pos, isDefer bool) Value {
	e := f.e
	if o := fn.Origin(); o != nil && o != fn {
		if in, ok := intrinsics[o.String()]; ok {
			return f.callIntrinsic(in, fn, args)
		}
	}
	name := fn.String()
	if e.opaque[name] {
		if r, ok := f.boundary(fn, name, args); ok {
			return r
		}
	}
	if in, ok := intrinsics[name]; ok {
		return f.callIntrinsic(in, fn, args)
	}
	if in, ok := condIntrinsics[name]; ok {
		if _, split := args[0].(*ChoiceV); split {
			return f.fork(args[0], func(v Value) Value {
				return f.callFn(fn, append([]Value{v}, args[1:]...), bind, pos, isDefer)
			})
		}
		if r, ok := in(&Ctx{f: f, e: e, fn: fn, name: name}, args); ok {
			return r
		}
	}
	if fn.Pkg != nil && e.W.noInline(fn) {
		if in := f.defaultModel(fn, name, args); in != nil {
			return in()
		}
		unsup("call of %s, which has no model (at %s)", name, e.where())
	}
	res, ret, pan := e.call(fn, args, bind, f.cur.st, isDefer)
	f.addPanic(pan)
	if ret == nil {
		f.cur.st = f.cur.st.clone()
		f.cur.st.g = False
		return nil
	}
	f.cur.st = ret
	return res
}

// callIntrinsic splits gated arguments before running a model.
func (f *frame) callIntrinsic(in Intrinsic, fn *ssa.Function, args []Value) Value {
	if !in.raw {
		if i, ok := readsOnly[fn.String()]; ok {
			n := append([]Value(nil), args...)
			for _, k := range i {
				n[k] = f.readOnly(n[k])
			}
			args = n
		}
		for i, a := range args {
			if _, ok := a.(*ChoiceV); ok {
				return f.fork(a, func(v Value) Value {
					n := append([]Value(nil), args...)
					n[i] = v
					return f.callIntrinsic(in, fn, n)
				})
			}
		}
	}
	return in.f(&Ctx{f: f, e: f.e, fn: fn, name: fn.String()}, args)
}

func (f *frame) typeAssert(x *ssa.TypeAssert) {
	e := f.e
	v := f.get(x.X)
	isI := types.IsInterface(x.AssertedType)
	r := f.fork(v, func(v Value) Value {
		i, ok := v.(*IfaceV)
		if !ok {
			unsup("type assertion on %T", v)
		}
		var okR Ref = False
		var out Value
		if i.T != nil {
			if n, isN := i.V.(*NativeV); isN && isI {
				okR = e.nativeImplements(n, x.AssertedType)
				out = i
			} else if isI {
				if types.Implements(i.T, x.AssertedType.Underlying().(*types.Interface)) {
					okR = True
				}
				out = i
			} else if types.Identical(i.T, x.AssertedType) {
				okR = True
				out = i.V
			} else if r, v := f.ofLibraryType(i, x.AssertedType); v != nil {
				okR, out = r, v
			}
		}
		if !x.CommaOk {
			f.panicIf(Not(okR), "interface conversion failed", nil)
			if f.cur.st.g == False {
				return nil
			}
			return out
		}
		z := e.zero(x.AssertedType)
		if out == nil {
			out = z
		}
		return TupleV{e.ite(okR, out, z), BoolV(okR)}
	})
	if f.cur.st.g != False {
		f.set(x, r)
	}
}

func (f *frame) goStmt(x *ssa.Go) {
	fv, args := f.callee(&x.Call)
	e := f.e
	ev := e.event(f.cur.st, "go", "")
	ev.St = f.cur.st.clone()
	e.goroutines = append(e.goroutines, goStart{ev, fv, args})
	// the body is interpreted from the state of its start; its writes are not joined back
	save := f.cur
	savePan := f.pan
	f.cur = &fstate{st: save.st.clone(), env: save.env}
	f.cur.st.locks = nil // what the starting goroutine holds, this one does not
	f.pan = nil
	parent := e.inGo
	e.goParent = append(e.goParent, parent)
	e.inGo = len(e.goParent)
	f.callValue(&x.Call, fv, args, x.Pos(), false)
	e.inGo = parent
	f.cur = save
	f.pan = savePan
}

func (w *World) pos(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := w.prog.Fset.Position(p)
	fn := q.Filename
	fn = strings.TrimPrefix(fn, w.repo+"/")
	if i := strings.Index(fn, "/pkg/mod/"); i >= 0 {
		fn = fn[i+9:]
	}
	if i := strings.Index(fn, "/go/src/"); i >= 0 {
		fn = fn[i+8:]
	}
	return fmt.Sprintf("%s:%d", fn, q.Line)
}
