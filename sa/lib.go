package main

// Checks of the library packages: key derivation, ciphers, serial numbers, hexadecimal.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pAes = modPath + "/pkg/aes"
	pDes = modPath + "/pkg/des"
	pPkg = modPath + "/pkg"
	pEnc = modPath + "/encryption"
	pSrv = modPath + "/pkg/server"
)

// PV is one parameter of a partition of the inputs.
type PV struct {
	k     byte // b bytes, y string of n bytes, c constant, o any other string, t any string, i any integer
	n     int
	spare int
	nilp  bool
	s     string
	flip  int    // bit flip-1 is inverted
	fix   []fix8 // bytes of which some bits are constant
}

// fix8: in byte i the bits of mask have the value val.
type fix8 struct {
	i         int
	mask, val byte
}

func B(n int) PV         { return PV{k: 'b', n: n} }
func Y(n int) PV         { return PV{k: 'y', n: n} }
func S(s string) PV      { return PV{k: 'c', s: s} }
func (p PV) sp(n int) PV { p.spare = n; return p }

var OTH = PV{k: 'o'}
var ANY = PV{k: 't'}
var NIL = PV{k: 'b', nilp: true}

func (p PV) String() string {
	switch p.k {
	case 'b':
		if p.nilp {
			return "nil"
		}
		if p.spare > 0 {
			return fmt.Sprintf("%d+%d bytes", p.n, p.spare)
		}
		if p.flip > 0 {
			return fmt.Sprintf("%d bytes, bit %d inverted", p.n, p.flip-1)
		}
		if p.fix != nil {
			x := ""
			for _, f := range p.fix {
				x += fmt.Sprintf(" [%d]&%02x=%02x", f.i, f.mask, f.val)
			}
			return fmt.Sprintf("%d bytes with%s", p.n, x)
		}
		return fmt.Sprintf("%d bytes", p.n)
	case 'y':
		return fmt.Sprintf("string of %d", p.n)
	case 'c':
		return fmt.Sprintf("%q", p.s)
	case 'o':
		return "any other string"
	case 'i':
		return "any integer"
	}
	return "any string"
}

// content: the bytes of an argument. Of very long ones only those near the ends and near the places where
// 16-bit counters wrap are unknown, the others are fixed: what such an argument is for is its length.
func (e *E) content(t *Term, n int) []Value {
	if n <= veryLong {
		return e.termBytes(t, n, True)
	}
	out := make([]Value, n)
	var free []int
	for i := range out {
		d := i % 65536
		if i < 40 || i >= n-40 || d < 24 || d >= 65536-24 {
			free = append(free, i)
			continue
		}
		out[i] = constBV(8, uint64(uint32(i)*2654435761>>24))
	}
	for j, b := range e.termBytes(t, len(free), True) {
		out[free[j]] = b
	}
	return out
}

const veryLong = 20000

func (e *E) param(st *State, name string, p PV) Value {
	switch p.k {
	case 'b':
		if p.nilp {
			return nilSlice
		}
		t := e.newTerm(name)
		bs := ArrayV(e.content(t, p.n))
		for _, f := range p.fix {
			bits := append([]Ref(nil), bs[f.i].(*BV).bits()...)
			for k := range bits {
				if f.mask>>uint(k)&1 == 1 {
					bits[k] = False
					if f.val>>uint(k)&1 == 1 {
						bits[k] = True
					}
				}
			}
			bs[f.i] = mkBV(bits)
		}
		if p.flip > 0 {
			i, k := (p.flip-1)/8, (p.flip-1)%8
			bits := append([]Ref(nil), bs[i].(*BV).bits()...)
			bits[k] = Not(bits[k])
			bs[i] = mkBV(bits)
		}
		if p.spare > 0 {
			bs = append(append(ArrayV{}, bs...), e.termBytes(e.newTerm(name+"+cap"), p.spare, True)...)
		}
		id := e.newObj(st, "param", name, byteSlice, bs)
		return &SliceV{Obj: id, Len: constBV(64, uint64(p.n)), Cap: p.n + p.spare}
	case 'y':
		var b []*BV
		for i, x := range e.content(e.newTerm(name), p.n) {
			v := x.(*BV)
			if p.flip > 0 && i == (p.flip-1)/8 {
				bits := append([]Ref(nil), v.bits()...)
				bits[(p.flip-1)%8] = Not(bits[(p.flip-1)%8])
				v = mkBV(bits)
			}
			b = append(b, v)
		}
		return bStr(b)
	case 'c':
		return cStr(p.s)
	case 'o':
		return tStr(e.newTerm("OTHER", cStr(name)))
	case 'i':
		return e.termBV(e.newTerm(name), 64, True)
	}
	return tStr(e.newTerm(name))
}

// Op is an analysed function.
type Op struct {
	pkg, name string
	params    []string
}

func (o Op) String() string { return o.pkg[strings.LastIndex(o.pkg, "/")+1:] + "." + o.name }

// Res is the outcome of interpreting one function.
type Res struct {
	t      *T
	e      *E
	fn     *ssa.Function
	args   []Value
	st0    *State
	st     *State
	raw    []Value
	ret    []Value // contents
	ok     Ref     // it returns, without an error
	err    Ref     // it returns an error
	pan    Ref     // it panics
	hasErr bool
	ev0    int
	ev     []*Event
}

func (r *Res) where() string { return r.t.W.pos(r.fn.Pos()) + " " + shortFn(r.fn) }

func shortFn(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

func (t *T) fresh(pkgs ...string) *State {
	n := t.maxN
	if n == 0 {
		n = 6_000_000
	}
	t.e = newE(t.W, n)
	t.secretSrc = map[*Term]bool{}
	if t.run != nil && t.run.deps {
		t.recordDeps()
	}
	return t.e.initState(pkgs...)
}

// invoke interprets fn on values and classifies its outcome.
func (t *T) invoke(fn *ssa.Function, args []Value, st *State) *Res {
	e := t.e
	r := &Res{t: t, e: e, fn: fn, args: args, st0: st, ok: False, err: False, pan: False, ev0: len(e.Events)}
	res, ret, pan := e.call(fn, args, nil, st, false)
	r.ev = e.Events[r.ev0:]
	if pan != nil {
		r.pan = pan.g
	}
	n := fn.Signature.Results().Len()
	if n > 0 && isErr(fn.Signature.Results().At(n-1).Type()) {
		r.hasErr = true
	}
	if ret == nil {
		r.st = &State{g: False, heap: st.heap}
		return r
	}
	r.st = ret
	switch {
	case n == 0:
	case n == 1:
		r.raw = []Value{res}
	default:
		for i := 0; i < n; i++ {
			i := i
			r.raw = append(r.raw, e.map1(True, res, func(_ Ref, v Value) Value { return v.(TupleV)[i] }))
		}
	}
	for _, v := range r.raw {
		r.ret = append(r.ret, e.snap(ret, v))
	}
	r.ok = ret.g
	if r.hasErr {
		g := e.b.And(ret.g, Ref(e.isNilErr(r.raw[n-1]).(BoolV)))
		r.ok = g
		r.err = e.b.And(ret.g, Not(g))
	}
	return r
}

func (t *T) runOp(o Op, part []PV) *Res {
	fn := t.W.fn(o.pkg, o.name)
	if fn == nil {
		unsup("function %s not found", o)
	}
	st := t.fresh(o.pkg)
	t.markSecrets(o)
	var args []Value
	for i, p := range t.roomy(o, part) {
		args = append(args, t.e.param(st, o.params[i], p))
	}
	return t.invoke(fn, args, st)
}

// roomy gives the slices of every other partition capacity beyond their length, with unknown bytes in it:
// what an operation returns must not depend on it.
func (t *T) roomy(o Op, part []PV) []PV {
	switch t.run.prop {
	case "P11", "P12", "P34", "P40":
		return part
	}
	h := fnv.New32a()
	fmt.Fprint(h, o.name, part)
	if h.Sum32()>>7&1 == 0 {
		return part
	}
	out := append([]PV(nil), part...)
	for i, p := range out {
		if p.k == 'b' && !p.nilp && p.spare == 0 {
			out[i] = p.sp(40)
		}
	}
	return out
}

// spec interprets a reference function on contents (arrays become slices) and returns its results' contents.
func (t *T) spec(g Ref, name string, args ...Value) []Value {
	e := t.e
	fn := t.W.fn(specPath, name)
	if fn == nil {
		panic("no spec function " + name)
	}
	st := &State{g: g, heap: e.initHeap}
	var in []Value
	for _, a := range args {
		if x, ok := a.(ArrayV); ok {
			in = append(in, e.newSlice(st, byteSlice, x))
			continue
		}
		in = append(in, a)
	}
	save := e.muteEvents
	e.muteEvents = true
	defer func() { e.muteEvents = save }()
	res, ret, pan := e.call(fn, in, nil, st, false)
	if pan != nil && pan.g != False {
		unsup("specification %s panics", name)
	}
	if ret == nil {
		unsup("specification %s does not return", name)
	}
	if fn.Signature.Results().Len() == 1 {
		return []Value{e.snap(ret, res)}
	}
	var out []Value
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		i := i
		out = append(out, e.snap(ret, e.map1(True, res, func(_ Ref, v Value) Value { return v.(TupleV)[i] })))
	}
	return out
}

func (r *Res) arr(i int) Value {
	v := r.args[i]
	if s, ok := v.(*Str); ok {
		var a ArrayV
		for k := 0; k < s.clen(); k++ {
			a = append(a, s.byteAt(k))
		}
		return a
	}
	x := r.e.snap(r.st0, v)
	if a, ok := x.(ArrayV); ok && a == nil {
		return ArrayV{}
	}
	return x
}

// asBytes views a string result as bytes.
func asBytes(v Value) Value {
	if s, ok := v.(*Str); ok && s.K != 't' {
		a := ArrayV{}
		for k := 0; k < s.clen(); k++ {
			a = append(a, s.byteAt(k))
		}
		return a
	}
	return v
}

func (e *E) strV(v Value) Value {
	a := v.(ArrayV)
	var b []*BV
	for _, x := range a {
		b = append(b, x.(*BV))
	}
	return bStr(b)
}

// differ is a guard, within g, under which two contents differ (False when they never do).
// sameKey: where two arrays of bytes are equal, whatever the ciphers give. Two outputs of ciphers
// that are equal by chance only count as different where the exact comparison would be too large.
func (e *E) sameKey(g Ref, a, b ArrayV) Ref {
	r := False
	if e.b.Limited(20000, func() { r = e.eqv(g, a, b) }) {
		return r
	}
	if len(a) != len(b) {
		return False
	}
	inG := map[int32]bool{}
	for v := range e.b.Support(g) {
		inG[v] = true
	}
	r = True
	for i := range a {
		x, y := a[i].(*BV), b[i].(*BV)
		for k := 0; k < x.W; k++ {
			eq := Not(e.b.Xor(x.bit(k), y.bit(k)))
			vars := map[int32]bool{}
			for v := range e.b.Support(eq) {
				if o, ok := e.b.owner[v].(*VarOwner); ok && o.T != nil && o.Aspect == "bytes" && (len(o.T.Args) > 0 || !inG[v]) {
					vars[v] = true
				}
			}
			if r = e.b.And(r, e.b.Forall(eq, vars)); r == False {
				return r
			}
		}
	}
	return r
}

func (e *E) differ(g Ref, a, b Value) Ref {
	if g == False || identical(a, b) {
		return False
	}
	seq := func(x, y []Value) Ref {
		if len(x) != len(y) {
			return g
		}
		for i := range x {
			if d := e.differ(g, x[i], y[i]); d != False {
				return d
			}
		}
		return False
	}
	switch x := a.(type) {
	case *BV:
		if y, ok := b.(*BV); ok && x.W == y.W {
			for i := 0; i < x.W; i++ {
				if d := e.b.Xor(x.bit(i), y.bit(i)); d != False {
					if d = e.b.And(g, d); d != False {
						if w, sure := e.genuine(d); !sure || w != False {
							return d
						}
					}
				}
			}
			return False
		}
	case ArrayV:
		if y, ok := b.(ArrayV); ok {
			return seq(x, y)
		}
	case TupleV:
		if y, ok := b.(TupleV); ok {
			return seq(x, y)
		}
	case StructV:
		if y, ok := b.(StructV); ok {
			return seq(x, y)
		}
	case *ChoiceV:
		for _, al := range x.A {
			if h := e.b.And(g, al.G); h != False {
				if d := e.differ(h, al.V, b); d != False {
					return d
				}
			}
		}
		return False
	case *Str:
		if y, ok := b.(*Str); ok && x.K != 't' && y.K != 't' && x.clen() == y.clen() {
			for i := 0; i < x.clen(); i++ {
				if d := e.differ(g, x.byteAt(i), y.byteAt(i)); d != False {
					return d
				}
			}
			return False
		}
	}
	if _, ok := b.(*ChoiceV); ok {
		return e.differ(g, b, a)
	}
	return e.b.And(g, Not(e.eqv(g, a, b)))
}

// ---- sets of partitions

var aesTypes = map[int]string{16: "AES128", 24: "AES192", 32: "AES256"}
var hmacTypes = map[int]string{16: "HMAC128", 24: "HMAC192", 32: "HMAC256"}
var keyLens = []int{16, 24, 32}

var typeStrings = []PV{S("AES128"), S("AES192"), S("AES256"), S("HMAC128"), S("HMAC192"), S("HMAC256"),
	S("TDES2"), S("TDES3"), S("aes128"), S("hmac256"), S("AES"), S(""), OTH}
var actions = []PV{S("request"), S("response"), S(""), S("Response"), S("RESPONSE"), S("Request"), OTH}

// lenConsts are the integer constants the code compares or computes with.
// wraps16: a length at which a 16-bit number of blocks wraps, where the code has such numbers.
func (r *Run) wraps16(o Op) int {
	if !r.W.narrows(r.W.fn(o.pkg, o.name)) {
		return 0
	}
	if o.pkg == pDes {
		return 8*65536 + 5
	}
	return 16*65536 + 5
}

// narrows: does the code convert a count to 16 bits?
func (w *World) narrows(fn *ssa.Function) bool {
	found := false
	w.repoInstrs(fn, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Convert)
		if !ok {
			return
		}
		from, ok1 := c.X.Type().Underlying().(*types.Basic)
		to, ok2 := c.Type().Underlying().(*types.Basic)
		if ok1 && ok2 && (from.Kind() == types.Int || from.Kind() == types.Int64 || from.Kind() == types.Uint) && (to.Kind() == types.Uint16 || to.Kind() == types.Int16) {
			found = true
		}
	})
	return found
}

// repoInstrs visits the instructions of a function and of the repository's functions it mentions.
func (w *World) repoInstrs(fn *ssa.Function, f func(ssa.Instruction)) {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		q := fn
		for q.Pkg == nil && q.Parent() != nil {
			q = q.Parent()
		}
		if q.Pkg == nil || !isRepoPath(q.Pkg.Pkg.Path()) {
			return
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(in)
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
}

func (w *World) lenConsts(fn *ssa.Function, max int) []int {
	seen := map[*ssa.Function]bool{}
	set := map[int]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Pkg == nil && fn.Origin() == nil && fn.Parent() == nil {
			return
		}
		seen[fn] = true
		p := fn.Pkg
		for q := fn; p == nil && q.Parent() != nil; {
			q = q.Parent()
			p = q.Pkg
		}
		if p == nil || !isRepoPath(p.Pkg.Path()) {
			return
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var vs []ssa.Value
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT:
					default:
						vs = []ssa.Value{x.X, x.Y}
					}
				case *ssa.Slice:
					vs = []ssa.Value{x.Low, x.High, x.Max}
				case *ssa.Call:
					vs = x.Call.Args
				case *ssa.Phi:
					vs = x.Edges
				case *ssa.MakeSlice:
					vs = []ssa.Value{x.Len, x.Cap}
				case *ssa.Return:
					vs = x.Results
				case *ssa.Alloc:
					if p, ok := x.Type().Underlying().(*types.Pointer); ok {
						if a, ok := p.Elem().Underlying().(*types.Array); ok && a.Len() >= 2 && a.Len() <= int64(max) {
							set[int(a.Len())] = true
						}
					}
				}
				for _, v := range vs {
					c, ok := v.(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
						continue
					}
					if bt, ok := c.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 || bt.Kind() == types.Uint8 {
						continue
					}
					if n := c.Int64(); n >= 2 && n <= int64(max) {
						set[int(n)] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						visit(f)
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// lens: every length up to lo, and around the constants of the code.
func (r *Run) lens(o Op, lo, max int) []int {
	set := map[int]bool{}
	for i := 0; i <= lo; i++ {
		set[i] = true
	}
	for _, c := range r.W.lenConsts(r.W.fn(o.pkg, o.name), max) {
		for d := -1; d <= 1; d++ {
			set[c+d] = true
		}
		if 8*c <= 256 {
			set[8*c] = true
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// bigLens: lengths around the constants of the code and their multiples by the block sizes, and
// around the places where counters of bytes or blocks outgrow narrow types.
func (r *Run) bigLens(o Op, lo int) []int {
	max := r.pick(8300, 16500)
	set := map[int]bool{}
	add := func(n int) {
		for _, d := range []int{-1, 0, 1, 5, 8, 16, 17} {
			if n+d > lo && n+d <= max {
				set[n+d] = true
			}
		}
	}
	for _, n := range []int{65535, 65536, 65541, 262149} {
		set[n] = true
	}
	if n := r.wraps16(o); n > 0 {
		set[n] = true
	}
	if r.deep() {
		set[524293], set[1048581] = true, true
	}
	for _, c := range r.W.lenConsts(r.W.fn(o.pkg, o.name), 1<<20) {
		if c > max {
			set[c-1], set[c], set[c+1] = true, true, true
		}
	}
	fixed := []int{64, 128, 256, 512, 1024, 2048, 4096}
	if r.deep() {
		fixed = append(fixed, 8192, 16384)
	}
	for _, c := range fixed {
		add(c)
	}
	for _, c := range r.W.lenConsts(r.W.fn(o.pkg, o.name), max) {
		if c > 16 {
			add(c)
			add(8 * c)
			add(16 * c)
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func (r *Run) deep() bool { return r.tier == "thorough" }

func (r *Run) pick(q, d int) int {
	if r.deep() {
		return d
	}
	return q
}

func partName(o Op, p []PV) string {
	var s []string
	for i, x := range p {
		s = append(s, o.params[i]+"="+x.String())
	}
	return o.String() + "(" + strings.Join(s, ", ") + ")"
}

// opTask interprets an operation on one partition.
func (r *Run) opTask(o Op, p []PV, f func(t *T, res *Res)) {
	r.task(partName(o, p), func(t *T) { f(t, t.runOp(o, p)) })
}

// before lists calls that differ from the given one in one argument.
func (r *Run) before(p []PV) [][]PV {
	var out [][]PV
	for i, v := range p {
		var vs []PV
		switch v.k {
		case 'b', 'y':
			if v.nilp {
				vs = append(vs, B(8))
				break
			}
			for k := 1; k <= 8*v.n; k++ {
				if r.deep() || v.n == 12 || v.n == 10 || k%8 == k/8%8 {
					w := v
					w.flip = k
					vs = append(vs, w)
				}
			}
			if n := v.n; v.fix == nil && (v.k == 'y' || n != 12 && n != 16 && n != 24 && n != 32) {
				for _, m := range []int{0, n - 1, n + 1, n + 16, 2 * n, 100} {
					w := v
					w.n = m
					if m >= 0 && m != n {
						vs = append(vs, w)
					}
				}
			}
		case 'c':
			switch {
			case v.s == "request" || v.s == "response":
				vs = []PV{S("request"), S("response"), OTH}
			case strings.HasPrefix(v.s, "ISO"):
				vs = []PV{S("ISO-1"), S("ISO-3"), OTH}
			default:
				vs = typeStrings[:6]
			}
		case 't':
			vs = []PV{S("1234"), S("4111111111111111")}
		}
		for _, w := range vs {
			if w.String() == v.String() {
				continue
			}
			q := append([]PV(nil), p...)
			q[i] = w
			out = append(out, q)
		}
	}
	return out
}

// after interprets an operation in the state that another call of it has left behind.
func (r *Run) after(o Op, p []PV, f func(t *T, x *Res)) {
	for _, q := range r.before(p) {
		q := q
		r.task(partName(o, p)+" after "+partName(o, q), func(t *T) {
			y := t.runOp(o, q)
			if y.st.g == False {
				return
			}
			st := y.st.clone()
			var args []Value
			for i, v := range p {
				args = append(args, t.e.param(st, o.params[i], v))
			}
			x := t.invoke(y.fn, args, st)
			f(t, x)
		})
	}
}

func dedup(ps [][]PV) [][]PV {
	seen := map[string]bool{}
	var out [][]PV
	for _, p := range ps {
		k := fmt.Sprint(p)
		if !seen[k] {
			seen[k] = true
			out = append(out, p)
		}
	}
	return out
}

var (
	opAesIK   = Op{pAes, "DerivationOfInitialKey", []string{"bdk", "ksn"}}
	opAesTK   = Op{pAes, "DeriveCurrentTransactionKey", []string{"ik", "ksn"}}
	opAesEP   = Op{pAes, "EncryptPin", []string{"currentKey", "ksn", "pin", "pan", "keyType"}}
	opAesDP   = Op{pAes, "DecryptPin", []string{"currentKey", "ksn", "ciphertext", "pan", "keyType"}}
	opAesCmac = Op{pAes, "GenerateCMAC", []string{"currentKey", "ksn", "plaintext", "keyType", "action"}}
	opAesHmac = Op{pAes, "GenerateHMAC", []string{"currentKey", "ksn", "plaintext", "keyType", "action"}}
	opAesED   = Op{pAes, "EncryptData", []string{"currentKey", "ksn", "iv", "plaintext", "keyType", "action"}}
	opAesDD   = Op{pAes, "DecryptData", []string{"currentKey", "ksn", "ciphertext", "iv", "keyType", "action"}}
	opDesIK   = Op{pDes, "DerivationOfInitialKey", []string{"bdk", "ksn"}}
	opDesTK   = Op{pDes, "DeriveCurrentTransactionKey", []string{"ik", "ksn"}}
	opDesEP   = Op{pDes, "EncryptPin", []string{"currentKey", "pin", "pan", "format"}}
	opDesDP   = Op{pDes, "DecryptPin", []string{"currentKey", "ciphertext", "pan", "format"}}
	opDesMac  = Op{pDes, "GenerateMac", []string{"currentKey", "plaintext", "action"}}
	opDesED   = Op{pDes, "EncryptData", []string{"currentKey", "iv", "plaintext", "action"}}
	opDesDD   = Op{pDes, "DecryptData", []string{"currentKey", "ciphertext", "iv", "action"}}
)

func init() {
	checks["P01"] = checkDef{"the derivation functions and the reference are interpreted over symbolic bytes for every partition; the results must be the same term", func(r *Run) {
		ksn := []int{8, 9, 10, 11, 12, 13, 16, 20}
		for _, k := range keyLens {
			for _, n := range ksn {
				r.opTask(opAesIK, []PV{B(k), B(n)}, func(t *T, x *Res) { t.mustEqual(x, "AesIK", x.arr(0), x.arr(1)) })
			}
			tk := func(t *T, x *Res) { t.mustEqual(x, "AesTK", x.arr(0), x.arr(1)) }
			r.derivation(opAesTK, []PV{B(k), B(12)}, 8, 0, tk)
			r.after(opAesTK, []PV{B(k), counterOf(12, 0x00010203)}, tk)
			r.after(opAesIK, []PV{B(k), B(12)}, func(t *T, x *Res) { t.mustEqual(x, "AesIK", x.arr(0), x.arr(1)) })
		}
	}}
	checks["P04"] = checkDef{"as P01, for the TDES derivation functions", func(r *Run) {
		for n := 0; n <= 10; n++ {
			r.opTask(opDesIK, []PV{B(16), B(n)}, func(t *T, x *Res) { t.mustEqual(x, "TdesIK", x.arr(0), x.arr(1)) })
			tk := func(t *T, x *Res) { t.mustEqual(x, "TdesTK", x.arr(0), x.arr(1)) }
			if n < 3 {
				r.opTask(opDesTK, []PV{B(16), B(n)}, tk)
				continue
			}
			r.derivation(opDesTK, []PV{B(16), B(n)}, n-3, 3, tk)
			if n == 10 {
				r.after(opDesTK, []PV{B(16), counterOf(10, 0x010203)}, tk)
				r.after(opDesIK, []PV{B(16), B(n)}, func(t *T, x *Res) { t.mustEqual(x, "TdesIK", x.arr(0), x.arr(1)) })
			}
		}
	}}
}

// counterOf is a serial number of n bytes with a constant 32-bit (TDES: 21-bit) counter.
func counterOf(n int, c uint32) PV {
	p := B(n)
	if n == 12 {
		for i := 0; i < 4; i++ {
			p.fix = append(p.fix, fix8{8 + i, 0xFF, byte(c >> uint(24-8*i))})
		}
		return p
	}
	m := []byte{0x1F, 0xFF, 0xFF}
	for i := 0; i < 3; i++ {
		p.fix = append(p.fix, fix8{n - 3 + i, m[i], byte(c>>uint(16-8*i)) & m[i]})
	}
	return p
}

// derivation interprets the derivation of a transaction key with every counter at once. Where that is
// too much for the decision diagrams, counters are taken apart: of one bit, of two, of runs of bits.
func (r *Run) derivation(o Op, p []PV, at, skip int, f func(t *T, x *Res)) {
	bits := 8*(p[1].n-at) - skip
	var cs []uint32
	for i := 0; i < bits; i++ {
		cs = append(cs, 1<<uint(i), 1<<uint(bits-1)|1<<uint(i)|1)
		for j := i + 1; j < bits; j++ {
			cs = append(cs, 1<<uint(i)|1<<uint(j))
			if j-i < 10 {
				cs = append(cs, (1<<uint(j+1)-1)&^(1<<uint(i)-1))
			}
		}
	}
	r.apart(o, p, 1, cs, f)
}

// nearLimit lists counters of the given width around which the search for the next valid one with at
// most max one bits has to skip: runs of ones, a full number of ones above a gap, the last counters.
func nearLimit(bits, max int) []uint32 {
	all := uint32(1<<uint(bits) - 1)
	if bits == 32 {
		all = 0xFFFFFFFF
	}
	top := all &^ (1<<uint(bits-max) - 1)
	cs := []uint32{0, 1, all, all - 1, top, top + 1, top - 1, top - 2, top &^ (1 << uint(bits-max)), top | 1}
	for i := 0; i < bits; i++ {
		for w := 1; i+w <= bits; w++ {
			run := uint32(1<<uint(w)-1) << uint(i)
			if w >= max-2 && w <= max+2 || i == 0 || i+w == bits {
				cs = append(cs, run, run-1, run+1&all)
			}
		}
	}
	x := uint32(2463534242)
	for n := 0; n < 256; {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		c := x & all
		for k := 0; k < n%3; k++ {
			c |= x >> uint(k+3) & all
		}
		if o := onesCount(c); o >= max-2 && o <= max+2 {
			cs = append(cs, c)
		}
		n++
	}
	return cs
}

func onesCount(c uint32) (n int) {
	for ; c != 0; c &= c - 1 {
		n++
	}
	return
}

// apart interprets the operation with every counter of its serial number (parameter ki) at once. Where
// that is too much for the decision diagrams, the given counters are taken one by one, everything else
// about the arguments staying unknown.
func (r *Run) apart(o Op, p []PV, ki int, cs []uint32, f func(t *T, x *Res)) {
	r.task(partName(o, p), func(t *T) {
		big := func() (big bool) {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case bddOverflow:
					big = true
				case unsupported:
					if x.msg == "out of time" {
						panic(x)
					}
					big = true
				default:
					panic(x)
				}
			}()
			t.maxN = 3_000_000
			f(t, t.runOp(o, p))
			big = len(t.unaligned) > 0 && len(t.viols) == 0
			t.unaligned = nil
			return big
		}()
		if !big {
			return
		}
		n := p[ki].n
		decided := 0
		for _, c := range cs {
			q := append([]PV(nil), p...)
			q[ki] = counterOf(n, c)
			func() {
				defer func() {
					switch x := recover().(type) {
					case nil:
						decided++
					case bddOverflow:
						if os.Getenv("SA_TRACE") != "" {
							fmt.Fprintf(os.Stderr, "%s: counter %x [%s] %s\n", t.name, c, t.e.where(), "")
						}
					case unsupported:
						if x.msg == "out of time" {
							panic(x)
						}
					default:
						panic(x)
					}
				}()
				f(t, t.runOp(o, q))
			}()
			if len(t.viols) > 0 {
				return
			}
		}
		unsup("too large as a whole; %d of %d counters taken alone decided", decided, len(cs))
	})
}

// mustEqual: the operation always succeeds and returns what the reference returns.
func (t *T) mustEqual(x *Res, spec string, args ...Value) {
	t.never("total", t.e.b.And(x.st0.g, Not(x.ok)), x.where(), "does not return a result for a valid input")
	want := t.spec(x.ok, spec, args...)
	t.never("result", t.e.differ(x.ok, x.ret[0], want[0]), x.where(), "the result differs from the reference "+spec)
}
