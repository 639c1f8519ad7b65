package main

// The value domain: gated values (guarded alternatives) over bit-level integers,
// hash-consed uninterpreted terms and abstract memory addresses.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// BV is an integer of W bits, constant (C) or a vector of BDD bits (least significant first).
type BV struct {
	W int
	C bool
	V uint64
	B []Ref
}

type BoolV Ref

// Str is a string: constant, a vector of bytes of known length, or an opaque term.
type Str struct {
	K byte // 'c', 'b', 't'
	S string
	B []*BV
	T *Term
}

type PtrV struct {
	Obj  int // -1 nil
	Path []int
}

type SliceV struct {
	Obj      int // -1 nil
	Path     []int
	Off      int
	Len      *BV
	Cap      int  // meaningful when Len is constant
	NilEmpty bool // equal to nil exactly when its length is zero
}

type IfaceV struct {
	T types.Type // nil interface when nil
	V Value
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	B    *ssa.Builtin
	N    string // native function
	NV   []Value
}

type MapV struct{ Obj int }
type ChanV struct{ Obj int }

type StructV []Value
type ArrayV []Value
type TupleV []Value

// NativeV is an object of the models (ciphers, hashes, opaque interfaces ...).
type NativeV struct {
	Kind string
	Obj  int   // heap object holding its state, -1 if none
	T    *Term // opaque identity
	V    []Value
}

// SymArr is the backing array of a byte term of unknown length.
type SymArr struct {
	T    *Term
	Over map[int]Value
}

type MapEnt struct {
	K, V Value
	P    Ref
}
type MapObj struct {
	Ents []MapEnt
	Base *Term // further, opaque content
	ET   types.Type
}

type FloatV struct{ F float64 }

type Alt struct {
	G Ref
	V Value
}
type ChoiceV struct{ A []Alt }

// Term is a hash-consed uninterpreted term.
type Term struct {
	ID       int
	Op       string
	Args     []Value
	bits     map[string][]Ref
	nonEmpty bool
	secret   bool
	public   bool
	world    bool
}

func (t *Term) String() string {
	if len(t.Args) == 0 {
		return t.Op
	}
	var p []string
	for _, a := range t.Args {
		s := show(a)
		if len(s) > 120 {
			s = s[:117] + "..."
		}
		p = append(p, s)
	}
	return t.Op + "(" + strings.Join(p, ", ") + ")"
}

func constBV(w int, v uint64) *BV {
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	return &BV{W: w, C: true, V: v}
}

func mkBV(b []Ref) *BV {
	var v uint64
	for i, r := range b {
		switch r {
		case True:
			v |= 1 << uint(i)
		case False:
		default:
			return &BV{W: len(b), B: b}
		}
	}
	return &BV{W: len(b), C: true, V: v}
}

func (b *BV) bit(i int) Ref {
	if b.C {
		if b.V>>uint(i)&1 != 0 {
			return True
		}
		return False
	}
	return b.B[i]
}

func (b *BV) bits() []Ref {
	if !b.C {
		return b.B
	}
	r := make([]Ref, b.W)
	for i := range r {
		r[i] = b.bit(i)
	}
	return r
}

// signed value of a constant
func (b *BV) sval() int64 {
	return int64(b.V<<uint(64-b.W)) >> uint(64-b.W)
}

func cStr(s string) *Str { return &Str{K: 'c', S: s} }

func bStr(b []*BV) *Str {
	all := true
	for _, x := range b {
		if !x.C {
			all = false
		}
	}
	if all {
		s := make([]byte, len(b))
		for i, x := range b {
			s[i] = byte(x.V)
		}
		return cStr(string(s))
	}
	return &Str{K: 'b', B: b}
}
func tStr(t *Term) *Str { return &Str{K: 't', T: t} }

func (s *Str) byteAt(i int) *BV {
	if s.K == 'c' {
		return constBV(8, uint64(s.S[i]))
	}
	return s.B[i]
}
func (s *Str) clen() int {
	if s.K == 'c' {
		return len(s.S)
	}
	return len(s.B)
}

var nilPtr = &PtrV{Obj: -1}
var nilSlice = &SliceV{Obj: -1, Len: constBV(64, 0)}
var nilIface = &IfaceV{}
var nilFunc = &FuncV{}
var nilMap = &MapV{Obj: -1}
var nilChan = &ChanV{Obj: -1}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- keys: structural identity

func pathKey(p []int) string {
	var sb strings.Builder
	for _, i := range p {
		fmt.Fprintf(&sb, ".%d", i)
	}
	return sb.String()
}

func key(v Value) string {
	var sb strings.Builder
	keyTo(&sb, v)
	return sb.String()
}

func keyTo(sb *strings.Builder, v Value) {
	switch v := v.(type) {
	case nil:
		sb.WriteString("_")
	case *BV:
		if v.C {
			fmt.Fprintf(sb, "i%d:%d", v.W, v.V)
		} else {
			fmt.Fprintf(sb, "b%d:", v.W)
			for _, r := range v.B {
				fmt.Fprintf(sb, "%x,", uint32(r))
			}
		}
	case BoolV:
		fmt.Fprintf(sb, "B%x", uint32(v))
	case *Str:
		switch v.K {
		case 'c':
			fmt.Fprintf(sb, "%q", v.S)
		case 't':
			fmt.Fprintf(sb, "s%d", v.T.ID)
		default:
			sb.WriteString("sb[")
			for _, b := range v.B {
				keyTo(sb, b)
				sb.WriteString(";")
			}
			sb.WriteString("]")
		}
	case *PtrV:
		fmt.Fprintf(sb, "p%d%s", v.Obj, pathKey(v.Path))
	case *SliceV:
		if v.Obj < 0 {
			sb.WriteString("Snil")
		} else {
			fmt.Fprintf(sb, "S%d%s@%d:%v:%d", v.Obj, pathKey(v.Path), v.Off, key(v.Len), v.Cap)
		}
	case *IfaceV:
		if v.T == nil {
			sb.WriteString("Inil")
		} else {
			sb.WriteString("I<" + v.T.String() + ">")
			keyTo(sb, v.V)
		}
	case *FuncV:
		if v.Fn != nil {
			fmt.Fprintf(sb, "F%p", v.Fn)
		} else if v.B != nil {
			sb.WriteString("FB" + v.B.Name())
		} else {
			sb.WriteString("FN" + v.N)
		}
		for _, b := range v.Bind {
			sb.WriteString("|")
			keyTo(sb, b)
		}
		for _, b := range v.NV {
			sb.WriteString("|")
			keyTo(sb, b)
		}
	case *MapV:
		fmt.Fprintf(sb, "M%d", v.Obj)
	case *ChanV:
		fmt.Fprintf(sb, "C%d", v.Obj)
	case StructV:
		sb.WriteString("{")
		for _, x := range v {
			keyTo(sb, x)
			sb.WriteString(",")
		}
		sb.WriteString("}")
	case ArrayV:
		sb.WriteString("[")
		for _, x := range v {
			keyTo(sb, x)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case TupleV:
		sb.WriteString("(")
		for _, x := range v {
			keyTo(sb, x)
			sb.WriteString(",")
		}
		sb.WriteString(")")
	case *NativeV:
		sb.WriteString("N" + v.Kind)
		fmt.Fprintf(sb, ":%d", v.Obj)
		if v.T != nil {
			fmt.Fprintf(sb, "t%d", v.T.ID)
		}
		for _, x := range v.V {
			sb.WriteString("|")
			keyTo(sb, x)
		}
	case *Term:
		fmt.Fprintf(sb, "t%d", v.ID)
	case *SymArr:
		fmt.Fprintf(sb, "A%d", v.T.ID)
		if len(v.Over) > 0 {
			var ks []int
			for k := range v.Over {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				fmt.Fprintf(sb, "+%d=", k)
				keyTo(sb, v.Over[k])
			}
		}
	case *MapObj:
		sb.WriteString("mo{")
		for _, en := range v.Ents {
			keyTo(sb, en.K)
			sb.WriteString("=")
			keyTo(sb, en.V)
			fmt.Fprintf(sb, "?%x;", uint32(en.P))
		}
		if v.Base != nil {
			fmt.Fprintf(sb, "base%d", v.Base.ID)
		}
		sb.WriteString("}")
	case *ChoiceV:
		sb.WriteString("<")
		for _, a := range v.A {
			fmt.Fprintf(sb, "%x?", uint32(a.G))
			keyTo(sb, a.V)
			sb.WriteString("|")
		}
		sb.WriteString(">")
	case FloatV:
		fmt.Fprintf(sb, "f%v", v.F)
	case string:
		sb.WriteString("go:" + v)
	default:
		panic(fmt.Sprintf("key: %T", v))
	}
}

// ---- printing

func show(v Value) string {
	switch v := v.(type) {
	case nil:
		return "_"
	case *BV:
		if v.C {
			return fmt.Sprintf("%d", v.V)
		}
		return fmt.Sprintf("bits%d", v.W)
	case BoolV:
		if Ref(v) == True {
			return "true"
		} else if Ref(v) == False {
			return "false"
		}
		return "bool?"
	case *Str:
		switch v.K {
		case 'c':
			return fmt.Sprintf("%q", v.S)
		case 't':
			return v.T.String()
		}
		return fmt.Sprintf("string[%d]", len(v.B))
	case *PtrV:
		if v.Obj < 0 {
			return "nil"
		}
		return fmt.Sprintf("&obj%d%s", v.Obj, pathKey(v.Path))
	case *SliceV:
		if v.Obj < 0 {
			return "nil"
		}
		return fmt.Sprintf("obj%d[%d:+%s]", v.Obj, v.Off, show(v.Len))
	case *IfaceV:
		if v.T == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", v.T, show(v.V))
	case *Term:
		return v.String()
	case *ChoiceV:
		var p []string
		for _, a := range v.A {
			p = append(p, show(a.V))
		}
		return "{" + strings.Join(p, " | ") + "}"
	case ArrayV:
		return showList("[", v, "]")
	case StructV:
		return showList("{", v, "}")
	case TupleV:
		return showList("(", v, ")")
	case *NativeV:
		if v.T != nil {
			return v.Kind + ":" + v.T.String()
		}
		return "<" + v.Kind + ">" + showList("(", v.V, ")")
	case *FuncV:
		if v.Fn != nil {
			return v.Fn.String()
		}
		return "func:" + v.N
	case string:
		return v
	}
	return fmt.Sprintf("%T", v)
}

func showList(o string, l []Value, c string) string {
	// runs of bytes are abbreviated
	nb := 0
	for _, x := range l {
		if b, ok := x.(*BV); ok && !b.C {
			nb++
		}
	}
	if nb > 4 && nb == len(l) {
		return fmt.Sprintf("%s%d symbolic bytes%s", o, nb, c)
	}
	var p []string
	for _, x := range l {
		p = append(p, show(x))
	}
	return o + strings.Join(p, " ") + c
}

// ---- gating

func (e *E) iteBV(g Ref, a, b *BV) *BV {
	if a == b || g == True {
		return a
	}
	if g == False {
		return b
	}
	if a.C && b.C && a.V == b.V && a.W == b.W {
		return a
	}
	if a.W != b.W {
		unsup("ite of different widths %d %d", a.W, b.W)
	}
	r := make([]Ref, a.W)
	for i := range r {
		r[i] = e.b.Ite(g, a.bit(i), b.bit(i))
	}
	return mkBV(r)
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// identical is a cheap, sound identity test.
func identical(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *BV:
		y, ok := b.(*BV)
		if !ok || x.W != y.W || x.C != y.C {
			return false
		}
		if x == y {
			return true
		}
		if x.C {
			return x.V == y.V
		}
		for i := range x.B {
			if x.B[i] != y.B[i] {
				return false
			}
		}
		return true
	case BoolV:
		y, ok := b.(BoolV)
		return ok && x == y
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && (x == y || x.Obj == y.Obj && samePath(x.Path, y.Path))
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x) != len(y) {
			return false
		}
		if len(x) > 0 && &x[0] == &y[0] {
			return true
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	case ArrayV:
		y, ok := b.(ArrayV)
		if !ok || len(x) != len(y) {
			return false
		}
		if len(x) > 0 && &x[0] == &y[0] {
			return true
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.K != y.K {
			return false
		}
		switch x.K {
		case 'c':
			return x.S == y.S
		case 't':
			return x.T == y.T
		}
		return key(x) == key(y)
	}
	if sameGo(a, b) {
		return true
	}
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return false
	}
	return key(a) == key(b)
}

func sameGo(a, b Value) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return a == b
}

// ite joins two values: g ? a : b.
func (e *E) ite(g Ref, a, b Value) Value {
	if g == True {
		return a
	}
	if g == False {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if identical(a, b) {
		return a
	}
	switch x := a.(type) {
	case *BV:
		if y, ok := b.(*BV); ok && x.W == y.W {
			return e.iteBV(g, x, y)
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			return BoolV(e.b.Ite(g, Ref(x), Ref(y)))
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x) == len(y) {
			r := make(StructV, len(x))
			for i := range x {
				r[i] = e.ite(g, x[i], y[i])
			}
			return r
		}
	case ArrayV:
		if y, ok := b.(ArrayV); ok && len(x) == len(y) {
			r := make(ArrayV, len(x))
			for i := range x {
				r[i] = e.ite(g, x[i], y[i])
			}
			return r
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			r := make(TupleV, len(x))
			for i := range x {
				r[i] = e.ite(g, x[i], y[i])
			}
			return r
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
			switch x.V.(type) {
			case *BV, BoolV, StructV, *Str, *ChoiceV:
				return &IfaceV{T: x.T, V: e.ite(g, x.V, y.V)}
			}
		}
	case *MapObj:
		if y, ok := b.(*MapObj); ok {
			return e.iteMap(g, x, y)
		}
	case *SymArr:
		if y, ok := b.(*SymArr); ok && x.T == y.T {
			r := &SymArr{T: x.T, Over: map[int]Value{}}
			for i := range x.Over {
				r.Over[i] = e.ite(g, x.Over[i], e.symAt(y, i))
			}
			for i := range y.Over {
				if _, ok := r.Over[i]; !ok {
					r.Over[i] = e.ite(g, e.symAt(x, i), y.Over[i])
				}
			}
			return r
		}
	}
	var alts []Alt
	add := func(g Ref, v Value) {
		if c, ok := v.(*ChoiceV); ok {
			for _, a := range c.A {
				if h := e.b.And(g, a.G); h != False {
					alts = append(alts, Alt{h, a.V})
				}
			}
			return
		}
		if g != False {
			alts = append(alts, Alt{g, v})
		}
	}
	add(g, a)
	add(Not(g), b)
	return e.choice(alts)
}

// choice builds a gated value; alternatives have disjoint guards.
func (e *E) choice(alts []Alt) Value {
	var out []Alt
	for _, a := range alts {
		if a.G == False {
			continue
		}
		if c, ok := a.V.(*ChoiceV); ok {
			for _, x := range c.A {
				if h := e.b.And(a.G, x.G); h != False {
					out = e.addAlt(out, Alt{h, x.V})
				}
			}
			continue
		}
		out = e.addAlt(out, a)
	}
	if len(out) == 0 {
		return nil
	}
	if len(out) == 1 {
		return out[0].V
	}
	if len(out) > 5000 {
		unsup("too many alternatives")
	}
	return &ChoiceV{A: out}
}

func (e *E) addAlt(out []Alt, a Alt) []Alt {
	for i := range out {
		if identical(out[i].V, a.V) {
			out[i] = Alt{e.b.Or(out[i].G, a.G), out[i].V}
			return out
		}
		m := false
		switch x := a.V.(type) {
		case *BV:
			y, ok := out[i].V.(*BV)
			m = ok && x.W == y.W
		case BoolV:
			_, m = out[i].V.(BoolV)
		case StructV:
			y, ok := out[i].V.(StructV)
			m = ok && len(x) == len(y)
		case ArrayV:
			y, ok := out[i].V.(ArrayV)
			m = ok && len(x) == len(y)
		case TupleV:
			y, ok := out[i].V.(TupleV)
			m = ok && len(x) == len(y)
		case *MapObj:
			_, m = out[i].V.(*MapObj)
		case *IfaceV:
			if y, ok := out[i].V.(*IfaceV); ok && x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
				switch x.V.(type) {
				case *BV, BoolV, StructV, *Str, *ChoiceV:
					m = true
				}
			}
		}
		if m {
			out[i] = Alt{e.b.Or(out[i].G, a.G), e.ite(a.G, a.V, out[i].V)}
			return out
		}
	}
	return append(out, a)
}

// alts lists the alternatives of v that are possible under guard g.
func (e *E) alts(g Ref, v Value) []Alt {
	c, ok := v.(*ChoiceV)
	if !ok {
		return []Alt{{g, v}}
	}
	var r []Alt
	for _, a := range c.A {
		if h := e.b.And(g, a.G); h != False {
			r = append(r, Alt{h, a.V})
		}
	}
	return r
}

// map1 applies f to every alternative.
func (e *E) map1(g Ref, v Value, f func(g Ref, v Value) Value) Value {
	c, ok := v.(*ChoiceV)
	if !ok {
		return f(g, v)
	}
	var out []Alt
	for _, a := range c.A {
		h := e.b.And(g, a.G)
		if h == False {
			continue
		}
		out = append(out, Alt{a.G, f(h, a.V)})
	}
	return e.choice(out)
}

func (e *E) map2(g Ref, v, w Value, f func(g Ref, v, w Value) Value) Value {
	return e.map1(g, v, func(g Ref, v Value) Value {
		return e.map1(g, w, func(g Ref, w Value) Value { return f(g, v, w) })
	})
}

// sub keeps only the alternatives possible under g.
func (e *E) sub(g Ref, v Value) Value {
	c, ok := v.(*ChoiceV)
	if !ok {
		return v
	}
	var out []Alt
	for _, a := range c.A {
		if e.b.And(g, a.G) != False {
			out = append(out, a)
		}
	}
	if len(out) == 1 {
		return out[0].V
	}
	if len(out) == len(c.A) {
		return v
	}
	return &ChoiceV{A: out}
}

// constUnder returns the constant value of x under guard g, if it has one.
func (e *E) constUnder(g Ref, x *BV) *BV {
	if x.C {
		return x
	}
	var v uint64
	for i, r := range x.B {
		if r == True || e.b.And(g, Not(r)) == False {
			v |= 1 << uint(i)
		} else if r == False || e.b.And(g, r) == False {
		} else {
			return nil
		}
	}
	return constBV(x.W, v)
}

// splitConst enumerates the values x can have under g (at most max).
func (e *E) splitConst(g Ref, x *BV, max int) []Alt {
	if c := e.constUnder(g, x); c != nil {
		return []Alt{{g, c}}
	}
	var out []Alt
	var rec func(g Ref, i int, v uint64) bool
	rec = func(g Ref, i int, v uint64) bool {
		if g == False {
			return true
		}
		if i < 0 {
			if len(out) >= max {
				return false
			}
			out = append(out, Alt{g, constBV(x.W, v)})
			return true
		}
		return rec(e.b.And(g, Not(x.bit(i))), i-1, v) && rec(e.b.And(g, x.bit(i)), i-1, v|1<<uint(i))
	}
	if !rec(g, x.W-1, 0) {
		return nil
	}
	return out
}
