package main

// Uninterpreted terms, equality, and the string/byte term theory.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// App is an application of an uninterpreted function.
type App struct {
	Args []Value
	Res  Value
	T    *Term
	G    Ref
}

func (e *E) newTerm(op string, args ...Value) *Term {
	k := op + "#" + key(TupleV(args))
	if t, ok := e.termKey[k]; ok {
		return t
	}
	t := &Term{ID: len(e.terms), Op: op, Args: args, bits: map[string][]Ref{}}
	e.terms = append(e.terms, t)
	e.termKey[k] = t
	return t
}

// freshTerm makes a term different from every other one.
func (e *E) freshTerm(op string) *Term {
	t := &Term{ID: len(e.terms), Op: op, bits: map[string][]Ref{}}
	e.terms = append(e.terms, t)
	return t
}

// varBits returns (creating them once) n boolean variables that stand for an aspect of a term.
func (e *E) varBits(t *Term, aspect string, n int, g Ref) []Ref {
	if r, ok := t.bits[aspect]; ok {
		return r
	}
	after := e.b.tail
	if g != True {
		// keep the variables of a conditional application next to its condition
		if d := e.b.deepest(g); d >= 0 {
			after = d
			if l, ok := e.gapEnd[d]; ok {
				after = l
			}
			r := make([]Ref, n)
			for i := range r {
				r[i] = e.b.newVarAfter(after, &VarOwner{t, aspect, i})
				after = e.b.top(r[i])
			}
			e.gapEnd[d] = after
			t.bits[aspect] = r
			return r
		}
	}
	r := make([]Ref, n)
	for j := range r {
		i := j
		if aspect == "bytes" && n > 64 && n <= 256 && n%64 == 0 {
			// the 8-byte parts of a key or block lie side by side, so that comparing them stays small
			m := n / 64
			i = j%m*64 + j/m
		}
		r[i] = e.b.newVarAfter(after, &VarOwner{t, aspect, i})
		after = e.b.top(r[i])
	}
	t.bits[aspect] = r
	return r
}

type VarOwner struct {
	T      *Term
	Aspect string
	I      int
}

// plainBytes: only arrays of words.
func plainBytes(args []Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case *BV:
		case ArrayV:
			for _, b := range x {
				if _, ok := b.(*BV); !ok {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// uf applies an uninterpreted function: equal arguments (under the path guard) give the same term.
func (e *E) uf(g Ref, op string, args ...Value) *Term {
	k := op + "#" + key(TupleV(args))
	if t, ok := e.termKey[k]; ok {
		return t
	}
	apps := e.apps[op]
	if g == True && len(apps) > 8 && plainBytes(args) {
		apps = nil // bytes that are equal for every input have the same normal form, and so the same key
	}
	for _, a := range apps {
		if len(a.Args) != len(args) {
			continue
		}
		same := true
		for i := range args {
			if !e.eqUnder(g, a.Args[i], args[i]) {
				same = false
				break
			}
		}
		if same {
			return a.T
		}
	}
	t := &Term{ID: len(e.terms), Op: op, Args: args, bits: map[string][]Ref{}}
	e.terms = append(e.terms, t)
	e.termKey[k] = t
	e.apps[op] = append(e.apps[op], &App{Args: args, T: t, G: g})
	return t
}

// termBytes gives the n bytes of a term of fixed size.
func (e *E) termBytes(t *Term, n int, g Ref) []Value {
	bits := e.varBits(t, "bytes", n*8, g)
	for i := len(bits); i < n*8; i++ {
		bits = append(bits, e.b.newVarAfter(e.b.tail, &VarOwner{t, "bytes", i}))
		t.bits["bytes"] = bits
	}
	r := make([]Value, n)
	for i := range r {
		r[i] = mkBV(bits[i*8 : i*8+8])
	}
	return r
}

func (e *E) termBV(t *Term, w int, g Ref) *BV {
	return mkBV(e.varBits(t, fmt.Sprintf("int%d", w), w, g))
}

func (e *E) termBool(t *Term, g Ref) Ref { return e.varBits(t, "bool", 1, g)[0] }

const codeBits = 10

func (e *E) strCode(s string) int {
	if c, ok := e.codes[s]; ok {
		return c
	}
	c := len(e.codes)
	if c >= 1<<codeBits-1 {
		unsup("too many string constants")
	}
	e.codes[s] = c
	e.codeList = append(e.codeList, s)
	return c
}

// termEqConst: the string term equals a constant.
func (e *E) termEqConst(t *Term, s string) Ref {
	if t.nonEmpty && s == "" {
		return False
	}
	if t.Op == "OTHER" {
		return False // a string different from every constant
	}
	if t.Op == "ToUpper" || t.Op == "ToLower" {
		if a, ok := t.Args[0].(*Str); ok && a.K == 't' {
			if a.T.Op == "OTHER" {
				return False
			}
			if s == "" {
				return e.termEqConst(a.T, "")
			}
			if t.Op == "ToUpper" && strings.ToUpper(s) != s || t.Op == "ToLower" && strings.ToLower(s) != s {
				return False
			}
		}
	}
	c := e.strCode(s)
	code := e.varBits(t, "code", codeBits, True)
	r := True
	for i := codeBits - 1; i >= 0; i-- {
		l := code[i]
		if c>>uint(i)&1 == 0 {
			l = Not(l)
		}
		r = e.b.And(r, l)
	}
	return r
}

// termLen: the length of a string or byte term (64-bit).
func (e *E) termLen(t *Term) *BV {
	if t.Op == "BYTES" || t.Op == "STR" {
		switch a := t.Args[0].(type) {
		case *Str:
			return e.strLen(a)
		case *Term:
			return e.termLen(a)
		}
	}
	raw := e.varBits(t, "len", 12, True)
	empty := False
	if !t.nonEmpty {
		empty = e.termEmpty(t)
	}
	zero := True
	for _, r := range raw {
		zero = e.b.And(zero, Not(r))
	}
	b := make([]Ref, 64)
	for i := range b {
		b[i] = False
		if i < len(raw) {
			x := raw[i]
			if i == 0 {
				x = e.b.Or(x, zero) // a non-empty term has a length of at least one
			}
			b[i] = e.b.And(Not(empty), x)
		}
	}
	return mkBV(b)
}

func (e *E) termEmpty(t *Term) Ref {
	if t.nonEmpty || t.Op == "OTHER" {
		return False
	}
	switch t.Op {
	case "BYTES", "STR":
		switch a := t.Args[0].(type) {
		case *Str:
			return e.strEqConst(a, "")
		case *Term:
			return e.termEmpty(a)
		}
	case "HexDecode":
		// nothing is returned for the empty and for a malformed string only
		if a, ok := t.Args[0].(*Str); ok {
			return e.b.Or(e.strEqConst(a, ""), Not(e.hexOK(a)))
		}
	case "HexEncode":
		if a, ok := t.Args[0].(*Term); ok {
			return e.termEmpty(a)
		}
	case "CONCAT":
		r := True
		for _, a := range t.Args {
			r = e.b.And(r, e.strEqConst(a.(*Str), ""))
		}
		return r
	}
	return e.termEqConst(t, "")
}

// hexOK: a string term is well-formed hexadecimal.
func (e *E) hexOK(s *Str) Ref {
	t := e.newTerm("HexOK", s)
	return e.b.Or(e.strEqConst(s, ""), e.termBool(t, True))
}

func (e *E) strLen(s *Str) *BV {
	if s.K == 't' {
		return e.termLen(s.T)
	}
	return constBV(64, uint64(s.clen()))
}

func (e *E) strEqConst(s *Str, c string) Ref {
	switch s.K {
	case 'c':
		if s.S == c {
			return True
		}
		return False
	case 't':
		if c == "" {
			switch s.T.Op {
			case "BYTES", "STR", "HexDecode", "HexEncode", "CONCAT":
				return e.termEmpty(s.T)
			}
		}
		return e.termEqConst(s.T, c)
	}
	return e.strEq(s, cStr(c))
}

func (e *E) bvEq(a, b *BV) Ref {
	if a.C && b.C {
		if a.V == b.V {
			return True
		}
		return False
	}
	r := True
	for i := 0; i < a.W; i++ {
		r = e.b.And(r, Not(e.b.Xor(a.bit(i), b.bit(i))))
		if r == False {
			return False
		}
	}
	return r
}

func (e *E) strEq(a, b *Str) Ref {
	if a.K == 'c' && b.K == 'c' {
		if a.S == b.S {
			return True
		}
		return False
	}
	if a.K == 't' && b.K == 'c' {
		return e.strEqConst(a, b.S)
	}
	if b.K == 't' && a.K == 'c' {
		return e.strEqConst(b, a.S)
	}
	if a.K != 't' && b.K != 't' {
		if a.clen() != b.clen() {
			return False
		}
		r := True
		for i := a.clen() - 1; i >= 0; i-- {
			r = e.b.And(e.bvEq(a.byteAt(i), b.byteAt(i)), r)
		}
		return r
	}
	if a.K == 't' && b.K == 't' && a.T == b.T {
		return True
	}
	if a.K == 't' && b.K == 't' {
		if a.T.Op == "OTHER" && b.T.Op == "OTHER" {
			// fallthrough to an atom
		}
		if a.T.ID > b.T.ID {
			a, b = b, a
		}
	} else if b.K == 't' {
		a, b = b, a
	}
	if b.K == 'b' && b.clen() == 0 {
		return e.strEqConst(a, "")
	}
	return e.termBool(e.newTerm("STREQ", a, b), True)
}

// eqv: two (snapshot) values are equal.
func (e *E) eqv(g Ref, a, b Value) Ref {
	if identical(a, b) {
		return True
	}
	if ca, ok := a.(*ChoiceV); ok {
		r := False
		for _, x := range ca.A {
			h := e.b.And(g, x.G)
			if h == False {
				continue
			}
			r = e.b.Or(r, e.b.And(x.G, e.eqv(h, x.V, b)))
		}
		return r
	}
	if _, ok := b.(*ChoiceV); ok {
		return e.eqv(g, b, a)
	}
	and := func(xs, ys []Value) Ref {
		if len(xs) != len(ys) {
			return False
		}
		r := True
		for i := range xs {
			r = e.b.And(r, e.eqv(g, xs[i], ys[i]))
			if e.b.And(r, g) == False {
				return False
			}
		}
		return r
	}
	switch x := a.(type) {
	case *BV:
		if y, ok := b.(*BV); ok && x.W == y.W {
			return e.bvEq(x, y)
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			return Not(e.b.Xor(Ref(x), Ref(y)))
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			return e.strEq(x, y)
		}
	case StructV:
		if y, ok := b.(StructV); ok {
			return and(x, y)
		}
	case ArrayV:
		if y, ok := b.(ArrayV); ok {
			return and(x, y)
		}
		if y, ok := b.(*Term); ok && len(x) == 0 {
			return e.termEmpty(y)
		}
	case TupleV:
		if y, ok := b.(TupleV); ok {
			return and(x, y)
		}
	case *Term:
		switch y := b.(type) {
		case ArrayV:
			if len(y) == 0 {
				return e.termEmpty(x)
			}
		case *Term:
			if x == y {
				return True
			}
		}
		return False
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.T == nil || y.T == nil {
				if x.T == nil && y.T == nil {
					return True
				}
				return False
			}
			if !types.Identical(x.T, y.T) {
				return False
			}
			return e.eqv(g, x.V, y.V)
		}
	case *NativeV:
		if y, ok := b.(*NativeV); ok && x.Kind == y.Kind && x.Obj == y.Obj && x.T == y.T {
			return and(x.V, y.V)
		}
	}
	return False
}

// eqUnder: a and b are equal whenever g holds.
func (e *E) eqUnder(g Ref, a, b Value) bool {
	if g == False || identical(a, b) {
		return true
	}
	switch x := a.(type) {
	case *BV:
		if y, ok := b.(*BV); ok {
			if x.W != y.W {
				return false
			}
			for i := 0; i < x.W; i++ {
				if x.bit(i) == y.bit(i) {
					continue
				}
				if g == True || x.bit(i) == Not(y.bit(i)) {
					return false
				}
				if d := e.b.Xor(x.bit(i), y.bit(i)); d != False && e.b.And(g, d) != False {
					return false
				}
			}
			return true
		}
	case ArrayV:
		if y, ok := b.(ArrayV); ok {
			if len(x) != len(y) {
				return false
			}
			for i := range x {
				if !e.eqUnder(g, x[i], y[i]) {
					return false
				}
			}
			return true
		}
	case *Str:
		if y, ok := b.(*Str); ok && x.K != 't' && y.K != 't' {
			if x.clen() != y.clen() {
				return false
			}
			for i := 0; i < x.clen(); i++ {
				if !e.eqUnder(g, x.byteAt(i), y.byteAt(i)) {
					return false
				}
			}
			return true
		}
	case TupleV:
		if y, ok := b.(TupleV); ok {
			if len(x) != len(y) {
				return false
			}
			for i := range x {
				if !e.eqUnder(g, x[i], y[i]) {
					return false
				}
			}
			return true
		}
	case StructV:
		if y, ok := b.(StructV); ok {
			if len(x) != len(y) {
				return false
			}
			for i := range x {
				if !e.eqUnder(g, x[i], y[i]) {
					return false
				}
			}
			return true
		}
	}
	return e.b.And(g, Not(e.eqv(g, a, b))) == False
}

// describe gives one assignment of the inputs under which r holds.
func (e *E) describe(r Ref) string {
	m := e.b.Sat(r)
	if m == nil {
		return "unreachable"
	}
	type kv struct {
		t *Term
		a string
	}
	by := map[kv]map[int]bool{}
	for v, val := range m {
		o, ok := e.b.owner[v].(*VarOwner)
		if !ok {
			continue
		}
		k := kv{o.T, o.Aspect}
		if by[k] == nil {
			by[k] = map[int]bool{}
		}
		by[k][o.I] = val
	}
	var out []string
	for k, bits := range by {
		name := k.t.String()
		if len(name) > 160 {
			name = name[:157] + "..."
		}
		switch {
		case k.a == "bool":
			out = append(out, fmt.Sprintf("%s=%v", name, bits[0]))
		case k.a == "code":
			c := 0
			for i := 0; i < codeBits; i++ {
				if bits[i] {
					c |= 1 << uint(i)
				}
			}
			if c < len(e.codeList) {
				out = append(out, fmt.Sprintf("%s=%q", name, e.codeList[c]))
			} else {
				out = append(out, fmt.Sprintf("%s=<another string>", name))
			}
		default:
			n := len(k.t.bits[k.a])
			s := ""
			for i := n/8 - 1; i >= 0 && n%8 == 0 && n > 0; i-- {
			}
			if n%8 == 0 {
				for i := 0; i < n/8; i++ {
					c := 0
					for j := 0; j < 8; j++ {
						if bits[i*8+j] {
							c |= 1 << uint(j)
						}
					}
					s += fmt.Sprintf("%02x", c)
				}
			}
			if k.t.Op == "DES_E" || k.t.Op == "DES_D" || k.t.Op == "AES_E" || k.t.Op == "AES_D" {
				continue
			}
			out = append(out, fmt.Sprintf("%s.%s=%s", name, k.a, s))
		}
	}
	sort.Strings(out)
	s := strings.Join(out, " ")
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	if s == "" {
		s = "always"
	}
	return s
}
