package main

// Transfer functions of the SSA operators.

import (
	"go/constant"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (e *E) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		unsup("constant of type %s", c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		if constant.BoolVal(c.Value) {
			return BoolV(True)
		}
		return BoolV(False)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return cStr(constant.StringVal(c.Value))
		}
		return cStr(string(rune(c.Int64())))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return FloatV{f}
	}
	w := width(c.Type())
	v := constant.ToInt(c.Value)
	if i, ok := constant.Int64Val(v); ok {
		if e.specDepth == 0 && !e.initPhase {
			e.intConsts[i] = true
		}
		return constBV(w, uint64(i))
	}
	u, _ := constant.Uint64Val(v)
	return constBV(w, u)
}

func (e *E) bvNot(a *BV) *BV {
	if a.C {
		return constBV(a.W, ^a.V)
	}
	r := make([]Ref, a.W)
	for i := range r {
		r[i] = Not(a.B[i])
	}
	return mkBV(r)
}

func (e *E) bvAddC(a, b *BV, cin Ref) *BV {
	if a.C && b.C && (cin == True || cin == False) {
		v := a.V + b.V
		if cin == True {
			v++
		}
		return constBV(a.W, v)
	}
	r := make([]Ref, a.W)
	c := cin
	for i := range r {
		x, y := a.bit(i), b.bit(i)
		xy := e.b.Xor(x, y)
		r[i] = e.b.Xor(xy, c)
		c = e.b.Or(e.b.And(x, y), e.b.And(c, xy))
	}
	return mkBV(r)
}

func (e *E) bvAdd(a, b *BV) *BV { return e.bvAddC(a, b, False) }
func (e *E) bvSub(a, b *BV) *BV { return e.bvAddC(a, e.bvNot(b), True) }
func (e *E) bvNeg(a *BV) *BV    { return e.bvSub(constBV(a.W, 0), a) }

func (e *E) bvBit(op token.Token, a, b *BV) *BV {
	if a.C && b.C {
		switch op {
		case token.AND:
			return constBV(a.W, a.V&b.V)
		case token.OR:
			return constBV(a.W, a.V|b.V)
		case token.XOR:
			return constBV(a.W, a.V^b.V)
		case token.AND_NOT:
			return constBV(a.W, a.V&^b.V)
		}
	}
	r := make([]Ref, a.W)
	for i := range r {
		x, y := a.bit(i), b.bit(i)
		switch op {
		case token.AND:
			r[i] = e.b.And(x, y)
		case token.OR:
			r[i] = e.b.Or(x, y)
		case token.XOR:
			r[i] = e.b.Xor(x, y)
		case token.AND_NOT:
			r[i] = e.b.And(x, Not(y))
		}
	}
	return mkBV(r)
}

func (e *E) bvShl(a *BV, n int) *BV {
	if n >= a.W {
		return constBV(a.W, 0)
	}
	if a.C {
		return constBV(a.W, a.V<<uint(n))
	}
	r := make([]Ref, a.W)
	for i := range r {
		r[i] = False
		if i >= n {
			r[i] = a.B[i-n]
		}
	}
	return mkBV(r)
}

func (e *E) bvShr(a *BV, n int, sgn bool) *BV {
	fill := False
	if sgn {
		fill = a.bit(a.W - 1)
	}
	r := make([]Ref, a.W)
	for i := range r {
		r[i] = fill
		if i+n < a.W {
			r[i] = a.bit(i + n)
		}
	}
	return mkBV(r)
}

func (e *E) bvMul(a, b *BV) *BV {
	if a.C && b.C {
		return constBV(a.W, a.V*b.V)
	}
	if a.C {
		a, b = b, a
	}
	r := constBV(a.W, 0)
	for i := 0; i < b.W; i++ {
		c := b.bit(i)
		if c == False {
			continue
		}
		r = e.iteBV(c, e.bvAdd(r, e.bvShl(a, i)), r)
	}
	return r
}

// unsigned division by restoring division
func (e *E) bvDivU(a, b *BV) (q, r *BV) {
	if a.C && b.C {
		return constBV(a.W, a.V/b.V), constBV(a.W, a.V%b.V)
	}
	if b.C && b.V&(b.V-1) == 0 {
		n := 0
		for b.V>>uint(n) != 1 {
			n++
		}
		return e.bvShr(a, n, false), e.bvBit(token.AND, a, constBV(a.W, b.V-1))
	}
	w := a.W
	rem := constBV(w, 0)
	qb := make([]Ref, w)
	for i := w - 1; i >= 0; i-- {
		rem = e.bvShl(rem, 1)
		bits := append([]Ref(nil), rem.bits()...)
		bits[0] = a.bit(i)
		rem = mkBV(bits)
		ge := Not(e.ult(rem, b))
		qb[i] = ge
		rem = e.iteBV(ge, e.bvSub(rem, b), rem)
	}
	return mkBV(qb), rem
}

func (e *E) ult(a, b *BV) Ref {
	if a.C && b.C {
		if a.V < b.V {
			return True
		}
		return False
	}
	r := False
	for i := 0; i < a.W; i++ {
		x, y := a.bit(i), b.bit(i)
		// r = y>x or (equal and r)
		r = e.b.Ite(e.b.Xor(x, y), y, r)
	}
	return r
}

func (e *E) slt(a, b *BV) Ref {
	if a.C && b.C {
		if a.sval() < b.sval() {
			return True
		}
		return False
	}
	fl := func(x *BV) *BV {
		bits := append([]Ref(nil), x.bits()...)
		bits[x.W-1] = Not(bits[x.W-1])
		return mkBV(bits)
	}
	return e.ult(fl(a), fl(b))
}

func (f *frame) less(a, b *BV, sgn bool) Ref {
	if sgn {
		return f.e.slt(a, b)
	}
	return f.e.ult(a, b)
}

func (e *E) resize(a *BV, w int, sgn bool) *BV {
	if a.W == w {
		return a
	}
	if a.C {
		if sgn {
			return constBV(w, uint64(a.sval()))
		}
		return constBV(w, a.V)
	}
	r := make([]Ref, w)
	for i := range r {
		switch {
		case i < a.W:
			r[i] = a.B[i]
		case sgn:
			r[i] = a.B[a.W-1]
		default:
			r[i] = False
		}
	}
	return mkBV(r)
}

func (f *frame) binop(op token.Token, x, y Value, xt, yt, rt types.Type) Value {
	e := f.e
	switch op {
	case token.EQL:
		return BoolV(f.equal(x, y, xt))
	case token.NEQ:
		return BoolV(Not(f.equal(x, y, xt)))
	}
	_, cx := x.(*ChoiceV)
	_, cy := y.(*ChoiceV)
	if cx || cy {
		return e.map2(f.cur.st.g, x, y, func(_ Ref, x, y Value) Value { return f.binop(op, x, y, xt, yt, rt) })
	}
	switch a := x.(type) {
	case *BV:
		b := y.(*BV)
		sgn := signed(xt)
		switch op {
		case token.ADD:
			return e.bvAdd(a, b)
		case token.SUB:
			return e.bvSub(a, b)
		case token.MUL:
			return e.bvMul(a, b)
		case token.QUO, token.REM:
			f.panicIf(e.bvEq(b, constBV(b.W, 0)), "integer divide by zero", nil)
			if f.cur.st.g == False {
				return constBV(a.W, 0)
			}
			if a.C && b.C && b.V != 0 && sgn {
				if op == token.QUO {
					return constBV(a.W, uint64(a.sval()/b.sval()))
				}
				return constBV(a.W, uint64(a.sval()%b.sval()))
			}
			if sgn {
				neg := e.b.Or(a.bit(a.W-1), b.bit(b.W-1))
				if e.b.And(f.cur.st.g, neg) != False {
					t := e.uf(f.cur.st.g, "SDIV"+op.String(), a, b)
					return e.termBV(t, a.W, f.cur.st.g)
				}
			}
			if b.C && b.V == 0 {
				return constBV(a.W, 0)
			}
			q, r := e.bvDivU(a, b)
			if op == token.QUO {
				return q
			}
			return r
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return e.bvBit(op, a, b)
		case token.SHL, token.SHR:
			if signed(yt) {
				f.panicIf(b.bit(b.W-1), "negative shift amount", nil)
			}
			sh := func(n uint64) *BV {
				if op == token.SHL {
					if n >= uint64(a.W) {
						return constBV(a.W, 0)
					}
					return e.bvShl(a, int(n))
				}
				if n > uint64(a.W) {
					n = uint64(a.W)
				}
				return e.bvShr(a, int(n), sgn)
			}
			if b.C {
				return sh(b.V)
			}
			var r *BV = sh(uint64(a.W))
			for n := a.W - 1; n >= 0; n-- {
				r = e.iteBV(e.bvEq(b, constBV(b.W, uint64(n))), sh(uint64(n)), r)
			}
			return r
		case token.LSS:
			return BoolV(f.less(a, b, sgn))
		case token.GTR:
			return BoolV(f.less(b, a, sgn))
		case token.LEQ:
			return BoolV(Not(f.less(b, a, sgn)))
		case token.GEQ:
			return BoolV(Not(f.less(a, b, sgn)))
		}
	case BoolV:
		b := y.(BoolV)
		switch op {
		case token.AND:
			return BoolV(e.b.And(Ref(a), Ref(b)))
		case token.OR:
			return BoolV(e.b.Or(Ref(a), Ref(b)))
		}
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return e.concat(a, b)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if a.K != 't' && b.K != 't' {
				lt, eq := e.strLess(a, b)
				switch op {
				case token.LSS:
					return BoolV(lt)
				case token.LEQ:
					return BoolV(e.b.Or(lt, eq))
				case token.GTR:
					return BoolV(Not(e.b.Or(lt, eq)))
				}
				return BoolV(Not(lt))
			}
			t := e.newTerm("STRCMP"+op.String(), a, b)
			return BoolV(e.termBool(t, True))
		}
	case FloatV:
		b := y.(FloatV)
		switch op {
		case token.ADD:
			return FloatV{a.F + b.F}
		case token.SUB:
			return FloatV{a.F - b.F}
		case token.MUL:
			return FloatV{a.F * b.F}
		case token.QUO:
			return FloatV{a.F / b.F}
		case token.LSS:
			return e.cbool(a.F < b.F)
		case token.GTR:
			return e.cbool(a.F > b.F)
		case token.LEQ:
			return e.cbool(a.F <= b.F)
		case token.GEQ:
			return e.cbool(a.F >= b.F)
		}
	}
	unsup("operator %s on %T at %s", op, x, e.where())
	return nil
}

func (e *E) cbool(b bool) BoolV {
	if b {
		return BoolV(True)
	}
	return BoolV(False)
}

func (e *E) strLess(a, b *Str) (lt, eq Ref) {
	lt, eq = False, True
	n := a.clen()
	if b.clen() < n {
		n = b.clen()
	}
	for i := 0; i < n; i++ {
		x, y := a.byteAt(i), b.byteAt(i)
		lt = e.b.Or(lt, e.b.And(eq, e.ult(x, y)))
		eq = e.b.And(eq, e.bvEq(x, y))
	}
	if a.clen() < b.clen() {
		lt = e.b.Or(lt, eq)
	}
	if a.clen() != b.clen() {
		eq = False
	}
	return
}

func (e *E) concat(a, b *Str) Value {
	if a.K == 'c' && a.S == "" {
		return b
	}
	if b.K == 'c' && b.S == "" {
		return a
	}
	if a.K != 't' && b.K != 't' {
		if a.K == 'c' && b.K == 'c' {
			return cStr(a.S + b.S)
		}
		var r []*BV
		for i := 0; i < a.clen(); i++ {
			r = append(r, a.byteAt(i))
		}
		for i := 0; i < b.clen(); i++ {
			r = append(r, b.byteAt(i))
		}
		return bStr(r)
	}
	var parts []Value
	add := func(s *Str) {
		if s.K == 't' && s.T.Op == "CONCAT" {
			parts = append(parts, s.T.Args...)
			return
		}
		if n := len(parts); n > 0 && s.K == 'c' {
			if l := parts[n-1].(*Str); l.K == 'c' {
				parts[n-1] = cStr(l.S + s.S)
				return
			}
		}
		parts = append(parts, s)
	}
	add(a)
	add(b)
	return tStr(e.newTerm("CONCAT", parts...))
}

// equal is the Go == operator.
func (f *frame) equal(x, y Value, t types.Type) Ref {
	e := f.e
	if cx, ok := x.(*ChoiceV); ok {
		r := False
		for _, a := range cx.A {
			h := e.b.And(f.cur.st.g, a.G)
			if h == False {
				continue
			}
			r = e.b.Or(r, e.b.And(a.G, f.equal(a.V, y, t)))
		}
		return r
	}
	if _, ok := y.(*ChoiceV); ok {
		return f.equal(y, x, t)
	}
	cb := func(b bool) Ref {
		if b {
			return True
		}
		return False
	}
	switch a := x.(type) {
	case *BV:
		return e.bvEq(a, y.(*BV))
	case BoolV:
		return Not(e.b.Xor(Ref(a), Ref(y.(BoolV))))
	case *Str:
		return e.strEq(a, y.(*Str))
	case FloatV:
		return cb(a.F == y.(FloatV).F)
	case *PtrV:
		if b, ok := y.(*PtrV); ok {
			return cb(a.Obj == b.Obj && (a.Obj < 0 || samePath(a.Path, b.Path)))
		}
		return False
	case *SliceV:
		b := y.(*SliceV)
		if a.Obj >= 0 && b.Obj >= 0 {
			unsup("slice comparison")
		}
		if a.Obj < 0 {
			a, b = b, a
		}
		if a.Obj < 0 {
			return True
		}
		if a.NilEmpty {
			return e.bvEq(a.Len, constBV(64, 0))
		}
		return False
	case *MapV:
		return cb(a.Obj < 0 && y.(*MapV).Obj < 0)
	case *ChanV:
		return cb(a.Obj == y.(*ChanV).Obj)
	case *FuncV:
		b := y.(*FuncV)
		isNil := func(v *FuncV) bool { return v.Fn == nil && v.B == nil && v.N == "" }
		return cb(isNil(a) && isNil(b))
	case StructV:
		b := y.(StructV)
		st := t.Underlying().(*types.Struct)
		r := True
		for i := range a {
			r = e.b.And(r, f.equal(a[i], b[i], st.Field(i).Type()))
		}
		return r
	case ArrayV:
		b := y.(ArrayV)
		at := t.Underlying().(*types.Array)
		r := True
		for i := range a {
			r = e.b.And(r, f.equal(a[i], b[i], at.Elem()))
		}
		return r
	case *NativeV:
		if b, ok := y.(*NativeV); ok {
			if key(a) == key(b) {
				return True
			}
			if a.Kind == "opaque" && b.Kind == "opaque" {
				return e.termBool(e.newTerm("SAME", a.T, b.T), True)
			}
		}
		return False
	case *IfaceV:
		b, ok := y.(*IfaceV)
		if !ok {
			unsup("interface compared with %T", y)
		}
		if a.T == nil || b.T == nil {
			return cb(a.T == nil && b.T == nil)
		}
		na, oka := a.V.(*NativeV)
		nb, okb := b.V.(*NativeV)
		if oka || okb {
			if oka && okb {
				return f.equal(na, nb, nil)
			}
			n, o := na, b
			if !oka {
				n, o = nb, a
			}
			if n.Kind == "opaque" {
				// an opaque error may be any sentinel
				return e.termBool(e.newTerm("IDENT", n.T, o.V), True)
			}
			return False
		}
		if !types.Identical(a.T, b.T) {
			return False
		}
		if !types.Comparable(a.T) {
			f.panicIf(True, "comparing uncomparable type", nil)
			return False
		}
		return f.equal(a.V, b.V, a.T)
	}
	unsup("comparison of %T at %s", x, e.where())
	return False
}

func (f *frame) convert(v Value, from, to types.Type) Value {
	e := f.e
	if _, ok := v.(*ChoiceV); ok {
		return f.e.map1(f.cur.st.g, v, func(_ Ref, v Value) Value { return f.convert(v, from, to) })
	}
	ut, uf := to.Underlying(), from.Underlying()
	if tp, ok := ut.(*types.TypeParam); ok {
		_ = tp
		unsup("conversion to a type parameter")
	}
	switch x := v.(type) {
	case *BV:
		if b, ok := ut.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				return e.resize(x, width(to), signed(from))
			case b.Info()&types.IsString != 0:
				if x.C {
					return cStr(string(rune(x.sval())))
				}
				return tStr(e.newTerm("RUNE", x))
			case b.Info()&types.IsFloat != 0:
				if x.C {
					return FloatV{float64(x.sval())}
				}
			}
		}
	case FloatV:
		if b, ok := ut.(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				return constBV(width(to), uint64(int64(x.F)))
			}
			return x
		}
	case *Str:
		switch t := ut.(type) {
		case *types.Basic:
			return x
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return e.strBytes(f.cur.st, x, t)
			}
			if x.K == 'c' {
				var arr ArrayV
				for _, r := range x.S {
					arr = append(arr, constBV(32, uint64(r)))
				}
				return e.newSlice(f.cur.st, t, arr)
			}
			if x.K == 'b' && e.allASCII(f.cur.st.g, x) {
				var arr ArrayV
				for _, b := range x.B {
					arr = append(arr, e.resize(b, 32, false))
				}
				return e.newSlice(f.cur.st, t, arr)
			}
		}
	case *SliceV:
		if b, ok := ut.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if s, ok := uf.(*types.Slice); ok {
				if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
					return e.bytesStr(f.cur.st, x)
				}
				// []rune
				n := e.constUnder(f.cur.st.g, x.Len)
				if n != nil {
					s := ""
					for i := 0; i < int(n.V); i++ {
						r := e.getPath(hget(f.cur.st.heap, x.Obj), appendPath(x.Path, x.Off+i)).(*BV)
						if !r.C {
							unsup("string of symbolic runes")
						}
						s += string(rune(r.V))
					}
					return cStr(s)
				}
			}
		}
		return x
	case *PtrV:
		return x
	case *FuncV, *MapV, *IfaceV, StructV, ArrayV, *ChanV:
		return x
	}
	unsup("conversion of %T from %s to %s at %s", v, from, to, e.where())
	return nil
}

func (e *E) allASCII(g Ref, s *Str) bool {
	for i := 0; i < s.clen(); i++ {
		if e.b.And(g, s.byteAt(i).bit(7)) != False {
			return false
		}
	}
	return true
}

// newSlice allocates a slice with the given elements.
func (e *E) newSlice(st *State, t types.Type, arr ArrayV) *SliceV {
	id := e.newObj(st, "local", "slice", t, arr)
	return &SliceV{Obj: id, Len: constBV(64, uint64(len(arr))), Cap: len(arr)}
}

var byteSlice = types.NewSlice(types.Typ[types.Uint8])

func (e *E) newBytes(st *State, b []*BV) *SliceV {
	arr := make(ArrayV, len(b))
	for i := range b {
		arr[i] = b[i]
	}
	return e.newSlice(st, byteSlice, arr)
}

func (e *E) strBytes(st *State, s *Str, t types.Type) Value {
	if s.K != 't' {
		n := s.clen()
		arr := make(ArrayV, n)
		for i := range arr {
			arr[i] = s.byteAt(i)
		}
		return e.newSlice(st, t, arr)
	}
	var bt *Term
	if s.T.Op == "STR" {
		bt = s.T.Args[0].(*Term)
	} else {
		bt = e.newTerm("BYTES", s)
	}
	return e.symBytes(st, bt)
}

// symBytes allocates a byte slice with the content of a term.
func (e *E) symBytes(st *State, t *Term) *SliceV {
	id := e.newObj(st, "local", "bytes", byteSlice, &SymArr{T: t})
	return &SliceV{Obj: id, Len: e.termLen(t), Cap: -1}
}

func (e *E) bytesStr(st *State, s *SliceV) Value {
	if s.Obj < 0 {
		return cStr("")
	}
	c := e.getPath(hget(st.heap, s.Obj), s.Path)
	n := e.constUnder(st.g, s.Len)
	if n == nil {
		if a, ok := c.(*SymArr); ok && len(a.Over) == 0 && s.Off == 0 && identical(s.Len, e.termLen(a.T)) {
			if a.T.Op == "BYTES" {
				return a.T.Args[0]
			}
			return tStr(e.newTerm("STR", a.T))
		}
		alts := e.splitConst(st.g, s.Len, 64)
		if alts == nil {
			unsup("string of a slice of unknown length at %s", e.where())
		}
		var out []Alt
		for _, a := range alts {
			out = append(out, Alt{a.G, e.bytesStr(st, &SliceV{Obj: s.Obj, Path: s.Path, Off: s.Off, Len: a.V.(*BV), Cap: s.Cap})})
		}
		return e.choice(out)
	}
	if a, ok := c.(*SymArr); ok && len(a.Over) == 0 && s.Off == 0 && a.T.Op == "BYTES" && identical(s.Len, e.termLen(a.T)) {
		return a.T.Args[0]
	}
	r := make([]*BV, n.V)
	for i := range r {
		v := e.getPath(c, []int{s.Off + i})
		b, ok := v.(*BV)
		if !ok {
			unsup("byte %T", v)
		}
		r[i] = b
	}
	if e.onAccess != nil {
		e.onAccess(st, s.Obj, s.Path, false)
	}
	return bStr(r)
}

func (f *frame) index(v Value, idx *BV, it types.Type) Value {
	e := f.e
	f.dep("index", idx)
	return f.fork(v, func(v Value) Value {
		switch x := v.(type) {
		case *Str:
			n := e.strLen(x)
			i64 := e.resize(idx, 64, signed(it))
			f.panicIf(Not(e.ult(i64, n)), "index out of range", nil)
			if f.cur.st.g == False {
				return nil
			}
			if x.K == 't' {
				ci := e.constUnder(f.cur.st.g, i64)
				if ci == nil {
					unsup("symbolic index of an opaque string")
				}
				return mkBV(e.varBits(e.newTerm("BYTES", x), "at"+itoa(int(ci.V)), 8, True))
			}
			if ci := e.constUnder(f.cur.st.g, i64); ci != nil {
				return x.byteAt(int(ci.V))
			}
			return e.muxBytes(x.clen(), i64, func(i int) *BV { return x.byteAt(i) })
		case ArrayV:
			i64 := e.resize(idx, 64, signed(it))
			f.panicIf(Not(e.ult(i64, constBV(64, uint64(len(x))))), "index out of range", nil)
			if f.cur.st.g == False {
				return nil
			}
			alts := e.splitConst(f.cur.st.g, i64, 4096)
			if alts == nil {
				unsup("index")
			}
			var out []Alt
			for _, a := range alts {
				out = append(out, Alt{a.G, x[a.V.(*BV).V]})
			}
			return e.choice(out)
		}
		unsup("index of %T", v)
		return nil
	})
}

// muxBytes selects element idx by a decision over the bits of idx.
func (e *E) muxBytes(n int, idx *BV, at func(i int) *BV) *BV {
	nb := 0
	for 1<<uint(nb) < n {
		nb++
	}
	var rec func(bit, base int) *BV
	rec = func(bit, base int) *BV {
		if base >= n {
			return at(n - 1)
		}
		if bit < 0 {
			return at(base)
		}
		c := idx.bit(bit)
		switch c {
		case True:
			return rec(bit-1, base|1<<uint(bit))
		case False:
			return rec(bit-1, base)
		}
		return e.iteBV(c, rec(bit-1, base|1<<uint(bit)), rec(bit-1, base))
	}
	return rec(nb-1, 0)
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

func (f *frame) indexAddr(x *ssa.IndexAddr) {
	e := f.e
	idx := e.resize(f.get(x.Index).(*BV), 64, signed(x.Index.Type()))
	f.dep("index", idx)
	r := f.fork(f.get(x.X), func(v Value) Value {
		var obj, off int
		var path []int
		var n *BV
		switch s := v.(type) {
		case *SliceV:
			obj, path, off, n = s.Obj, s.Path, s.Off, s.Len
		case *PtrV:
			if s.Obj < 0 {
				f.panicIf(True, "nil pointer dereference", nil)
				return nil
			}
			obj, path = s.Obj, s.Path
			n = constBV(64, uint64(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		default:
			unsup("element address of %T at %s", v, e.where())
		}
		f.panicIf(Not(e.ult(idx, n)), "index out of range", nil)
		if f.cur.st.g == False {
			return nil
		}
		if c := e.constUnder(f.cur.st.g, idx); c != nil {
			return &PtrV{Obj: obj, Path: appendPath(path, off+int(c.V))}
		}
		alts := e.splitConst(f.cur.st.g, idx, 4096)
		if alts == nil {
			unsup("unbounded symbolic index at %s", e.where())
		}
		var out []Alt
		for _, a := range alts {
			out = append(out, Alt{a.G, &PtrV{Obj: obj, Path: appendPath(path, off+int(a.V.(*BV).V))}})
		}
		return &ChoiceV{A: out}
	})
	if f.cur.st.g != False {
		f.set(x, r)
	}
}

func (f *frame) constLen(v *BV, what string) int {
	c := f.e.constUnder(f.cur.st.g, v)
	if c == nil {
		unsup("%s is not constant at %s", what, f.e.where())
	}
	return int(c.sval())
}

// forkInt runs do for every value of an integer.
func (f *frame) forkInt(v *BV, what string, do func(n int) Value) Value {
	if c := f.e.constUnder(f.cur.st.g, v); c != nil {
		return do(int(c.sval()))
	}
	alts := f.e.splitConst(f.cur.st.g, v, 80)
	if alts == nil {
		unsup("%s is unbounded at %s", what, f.e.where())
	}
	return f.fork(&ChoiceV{A: alts}, func(v Value) Value { return do(int(v.(*BV).sval())) })
}

func (f *frame) makeSlice(x *ssa.MakeSlice) {
	e := f.e
	ln := e.resize(f.get(x.Len).(*BV), 64, signed(x.Len.Type()))
	cp := e.resize(f.get(x.Cap).(*BV), 64, signed(x.Cap.Type()))
	f.dep("size", ln)
	f.dep("size", cp)
	f.panicIf(e.b.Or(e.slt(ln, constBV(64, 0)), e.slt(cp, ln)), "makeslice: len out of range", nil)
	if f.cur.st.g == False {
		return
	}
	et := x.Type().Underlying().(*types.Slice).Elem()
	r := f.forkInt(cp, "slice capacity", func(c int) Value {
		if c > 1<<21 {
			unsup("slice of %d elements", c)
		}
		return f.forkInt(ln, "slice length", func(n int) Value {
			arr := make(ArrayV, c)
			z := e.zero(et)
			for i := range arr {
				arr[i] = z
			}
			s := e.newSlice(f.cur.st, x.Type(), arr)
			s.Len = constBV(64, uint64(n))
			return s
		})
	})
	f.set(x, r)
}

func (f *frame) slice(x *ssa.Slice) {
	e := f.e
	bound := func(v ssa.Value) *BV {
		if v == nil {
			return nil
		}
		n := e.resize(f.get(v).(*BV), 64, signed(v.Type()))
		f.dep("slice bound", n)
		return n
	}
	lo, hi, max := bound(x.Low), bound(x.High), bound(x.Max)
	r := f.fork(f.get(x.X), func(v Value) Value {
		switch s := v.(type) {
		case *Str:
			n := e.strLen(s)
			l, h := lo, hi
			if l == nil {
				l = constBV(64, 0)
			}
			if h == nil {
				h = n
			}
			f.panicIf(e.b.Or(e.ult(n, h), e.ult(h, l)), "slice bounds out of range", nil)
			if f.cur.st.g == False {
				return nil
			}
			if s.K == 't' {
				if lc := e.constUnder(f.cur.st.g, l); lc != nil && lc.V == 0 && identical(h, n) {
					return s
				}
				return tStr(e.newTerm("SUBSTR", s, l, h))
			}
			return f.forkInt(l, "low bound", func(l int) Value {
				return f.forkInt(h, "high bound", func(h int) Value {
					if s.K == 'c' {
						return cStr(s.S[l:h])
					}
					return bStr(s.B[l:h])
				})
			})
		case *PtrV: // *array
			if s.Obj < 0 {
				f.panicIf(True, "nil pointer dereference", nil)
				return nil
			}
			n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			return f.sliceOf(&SliceV{Obj: s.Obj, Path: s.Path, Len: constBV(64, uint64(n)), Cap: n}, lo, hi, max)
		case *SliceV:
			return f.sliceOf(s, lo, hi, max)
		}
		unsup("slice of %T", v)
		return nil
	})
	if f.cur.st.g != False {
		f.set(x, r)
	}
}

func (f *frame) sliceOf(s *SliceV, lo, hi, max *BV) Value {
	e := f.e
	cp := s.Len
	if s.Cap >= 0 {
		cp = constBV(64, uint64(s.Cap))
	}
	l, h, m := lo, hi, max
	if l == nil {
		l = constBV(64, 0)
	}
	if h == nil {
		h = s.Len
	}
	if m == nil {
		m = cp
	}
	f.panicIf(e.b.Or(e.b.Or(e.ult(cp, m), e.ult(m, h)), e.ult(h, l)), "slice bounds out of range", nil)
	if f.cur.st.g == False {
		return nil
	}
	if s.Obj < 0 {
		return s
	}
	return f.forkInt(l, "low bound", func(lc int) Value {
		nl := e.bvSub(h, l)
		if c := e.constUnder(f.cur.st.g, nl); c != nil {
			nl = c
		}
		nc := -1
		if c := e.constUnder(f.cur.st.g, m); c != nil {
			nc = int(c.V) - lc
		}
		if lc == 0 && identical(nl, s.Len) && nc == s.Cap {
			return s
		}
		return &SliceV{Obj: s.Obj, Path: s.Path, Off: s.Off + lc, Len: nl, Cap: nc}
	})
}

// ---- maps

func (f *frame) keyEq(a, b Value) Ref { return f.equal(a, b, nil) }

func (f *frame) mapObj(m *MapV, write bool) *MapObj {
	v := hget(f.cur.st.heap, m.Obj)
	o, ok := v.(*MapObj)
	if !ok {
		unsup("map content %T", v)
	}
	if f.e.onAccess != nil {
		f.e.onAccess(f.cur.st, m.Obj, nil, write)
	}
	return o
}

func (f *frame) mapGet(m *MapV, k Value, et types.Type) (Value, Ref) {
	e := f.e
	if m.Obj < 0 {
		return e.zero(et), False
	}
	o := f.mapObj(m, false)
	var val Value = e.zero(et)
	ok := False
	if o.Base != nil {
		t := e.newTerm("ENTRY", o.Base, k)
		ok = e.termBool(e.newTerm("HAS", o.Base, k), True)
		val = e.ite(ok, e.symOf(f.cur.st, et, t), val)
	}
	for i := 0; i < len(o.Ents); i++ {
		en := o.Ents[i]
		c := e.b.And(en.P, f.keyEq(en.K, k))
		if e.b.And(f.cur.st.g, c) == False {
			continue
		}
		val = e.ite(c, en.V, val)
		ok = e.b.Or(ok, c)
	}
	return val, ok
}

// dep notes a value that selects the memory used.
func (f *frame) dep(kind string, v Value) {
	if f.e.onDep == nil || v == nil {
		return
	}
	if b, ok := v.(*BV); ok && b.C {
		return
	}
	f.e.onDep(kind, f.cur.st.g, v)
}

func (f *frame) lookup(x *ssa.Lookup) {
	e := f.e
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		f.set(x, f.index(f.get(x.X), f.get(x.Index).(*BV), x.Index.Type()))
		return
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	k := f.get(x.Index)
	f.dep("map key", k)
	r := f.fork(f.get(x.X), func(v Value) Value {
		val, ok := f.mapGet(v.(*MapV), k, et)
		if x.CommaOk {
			return TupleV{val, BoolV(ok)}
		}
		return val
	})
	_ = e
	if f.cur.st.g != False {
		f.set(x, r)
	}
}

func (f *frame) mapUpdate(m *MapV, k, v Value) {
	e := f.e
	if m.Obj < 0 {
		f.panicIf(True, "assignment to entry in nil map", nil)
		return
	}
	f.dep("map key", k)
	o := f.mapObj(m, true)
	e.noteWrite(f.cur.st, m.Obj, nil)
	n := &MapObj{Base: o.Base, ET: o.ET}
	hit := False
	exact := -1
	for i, en := range o.Ents {
		c := f.keyEq(en.K, k)
		if c == True {
			exact = i
		}
		hc := e.b.And(c, en.P)
		if e.b.And(f.cur.st.g, c) != False && c != True {
			en.V = e.ite(c, v, en.V)
			hit = e.b.Or(hit, hc)
		}
		n.Ents = append(n.Ents, en)
	}
	if exact >= 0 {
		n.Ents[exact].V = v
		n.Ents[exact].P = Not(hit)
		if e.b.And(f.cur.st.g, hit) == False {
			n.Ents[exact].P = True
		}
	} else {
		p := Not(hit)
		if e.b.And(f.cur.st.g, hit) == False {
			p = True
		}
		if e.b.And(f.cur.st.g, p) != False {
			n.Ents = append(n.Ents, MapEnt{k, v, p})
		}
	}
	f.cur.st.heap = hset(f.cur.st.heap, m.Obj, n)
}

func (f *frame) mapDelete(m *MapV, k Value) {
	e := f.e
	if m.Obj < 0 {
		return
	}
	o := f.mapObj(m, true)
	e.noteWrite(f.cur.st, m.Obj, nil)
	if o.Base != nil {
		unsup("delete from an opaque map")
	}
	n := &MapObj{ET: o.ET}
	for _, en := range o.Ents {
		c := f.keyEq(en.K, k)
		en.P = e.b.And(en.P, Not(c))
		if e.b.And(f.cur.st.g, en.P) != False {
			n.Ents = append(n.Ents, en)
		}
	}
	f.cur.st.heap = hset(f.cur.st.heap, m.Obj, n)
}

func (f *frame) rangeStart(x *ssa.Range) Value {
	e := f.e
	v := f.get(x.X)
	id := e.newObj(f.cur.st, "local", "iterator", x.X.Type(), constBV(32, 0))
	switch v.(type) {
	case *Str:
		return &NativeV{Kind: "striter", Obj: id, V: []Value{v}}
	}
	if _, ok := v.(*ChoiceV); ok {
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			return &NativeV{Kind: "striter", Obj: id, V: []Value{v}}
		}
		v = f.fork(v, func(v Value) Value { return v })
		if _, still := v.(*ChoiceV); still {
			// iterate over the joined entries
			var ents []MapEnt
			for _, a := range e.alts(f.cur.st.g, v) {
				m := a.V.(*MapV)
				if m.Obj < 0 {
					continue
				}
				for _, en := range f.mapObj(m, false).Ents {
					en.P = e.b.And(en.P, a.G)
					ents = append(ents, en)
				}
			}
			return &NativeV{Kind: "mapiter", Obj: id, V: []Value{&MapObj{Ents: ents}}}
		}
	}
	m := v.(*MapV)
	mo := &MapObj{}
	if m.Obj >= 0 {
		mo = f.mapObj(m, false)
	}
	if mo.Base != nil {
		unsup("iteration over an opaque map at %s", e.where())
	}
	return &NativeV{Kind: "mapiter", Obj: id, V: []Value{mo, m}}
}

func (f *frame) next(x *ssa.Next) {
	e := f.e
	it := f.get(x.Iter).(*NativeV)
	tt := x.Type().(*types.Tuple)
	pos := hget(f.cur.st.heap, it.Obj).(*BV)
	if it.Kind == "striter" {
		r := f.fork(it.V[0], func(v Value) Value {
			s := v.(*Str)
			if s.K == 't' {
				unsup("iteration over an opaque string at %s", e.where())
			}
			return f.forkInt(pos, "iterator", func(p int) Value {
				if p >= s.clen() {
					return TupleV{BoolV(False), constBV(64, 0), constBV(32, 0)}
				}
				if s.K == 'c' {
					r, n := utf8.DecodeRuneInString(s.S[p:])
					f.cur.st.heap = hset(f.cur.st.heap, it.Obj, constBV(32, uint64(p+n)))
					return TupleV{BoolV(True), constBV(64, uint64(p)), constBV(32, uint64(r))}
				}
				b := s.byteAt(p)
				if e.b.And(f.cur.st.g, b.bit(7)) != False {
					// only the ASCII case is followed precisely
					t := e.newTerm("RUNEAT", s, constBV(32, uint64(p)))
					f.cur.st.heap = hset(f.cur.st.heap, it.Obj, constBV(32, uint64(p+1)))
					return TupleV{BoolV(True), constBV(64, uint64(p)), e.iteBV(b.bit(7), e.termBV(t, 32, True), e.resize(b, 32, false))}
				}
				f.cur.st.heap = hset(f.cur.st.heap, it.Obj, constBV(32, uint64(p+1)))
				return TupleV{BoolV(True), constBV(64, uint64(p)), e.resize(b, 32, false)}
			})
		})
		f.set(x, r)
		return
	}
	mo := it.V[0].(*MapObj)
	if len(it.V) > 1 && it.V[1].(*MapV).Obj >= 0 {
		f.mapObj(it.V[1].(*MapV), false)
	}
	zk, zv := e.zeroOr(tt.At(1).Type()), e.zeroOr(tt.At(2).Type())
	ok := False
	var k, v Value = zk, zv
	np := constBV(32, uint64(len(mo.Ents)))
	// first present entry at or after pos
	rem := True
	for i, en := range mo.Ents {
		here := e.b.And(rem, e.b.And(en.P, Not(e.ult(constBV(32, uint64(i)), pos))))
		if e.b.And(f.cur.st.g, here) == False {
			continue
		}
		val := en.V
		if len(it.V) > 1 {
			// the current value
			if cur, p := f.mapGet(it.V[1].(*MapV), en.K, tt.At(2).Type()); p != False {
				val = cur
			}
		}
		k, v = e.ite(here, en.K, k), e.ite(here, val, v)
		np = e.iteBV(here, constBV(32, uint64(i+1)), np)
		ok = e.b.Or(ok, here)
		rem = e.b.And(rem, Not(here))
	}
	f.cur.st.heap = hset(f.cur.st.heap, it.Obj, np)
	f.set(x, TupleV{BoolV(ok), k, v})
}

func (e *E) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return TupleV{}
	}
	return e.zero(t)
}
