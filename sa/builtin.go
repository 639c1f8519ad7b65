package main

// Go built-in functions.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap is the capacity append gives a slice of the given capacity grown to n elements.
func growCap(oldCap, n, size int) int {
	c := n
	if n <= 2*oldCap {
		if oldCap < 256 {
			c = 2 * oldCap
		} else {
			c = oldCap
			for c < n {
				c += (c + 3*256) >> 2
			}
		}
	}
	if size <= 0 {
		return c
	}
	b := c * size
	for _, s := range sizeClasses {
		if s >= b {
			return s / size
		}
	}
	b = (b + 8191) / 8192 * 8192
	return b / size
}

var sizes64 = types.SizesFor("gc", "amd64")

func sizeOf(t types.Type) (n int) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	return int(sizes64.Sizeof(t))
}

func (e *E) capOf(g Ref, s *SliceV) *BV {
	if s.Obj < 0 {
		return constBV(64, 0)
	}
	if s.Cap >= 0 {
		return constBV(64, uint64(s.Cap))
	}
	return s.Len
}

// elems reads the n first elements of a slice.
func (e *E) elems(st *State, s *SliceV, n int) []Value {
	if n == 0 || s.Obj < 0 {
		return nil
	}
	if e.onAccess != nil {
		e.onAccess(st, s.Obj, s.Path, false)
	}
	c := e.getPath(hget(st.heap, s.Obj), s.Path)
	out := make([]Value, n)
	for i := range out {
		out[i] = e.getPath(c, []int{s.Off + i})
	}
	return out
}

// setElems writes elements in place.
func (e *E) setElems(st *State, s *SliceV, from int, v []Value) {
	if len(v) == 0 {
		return
	}
	if e.onAccess != nil {
		e.onAccess(st, s.Obj, s.Path, true)
	}
	e.noteWrite(st, s.Obj, s.Path)
	c := hget(st.heap, s.Obj)
	arr := e.getPath(c, s.Path)
	switch a := arr.(type) {
	case ArrayV:
		n := append(ArrayV(nil), a...)
		for i, x := range v {
			if s.Off+from+i >= len(n) {
				unsup("write beyond an array")
			}
			n[s.Off+from+i] = x
		}
		st.heap = hset(st.heap, s.Obj, e.setPath(c, s.Path, n))
	default:
		for i, x := range v {
			arr = e.setPath(arr, []int{s.Off + from + i}, x)
		}
		st.heap = hset(st.heap, s.Obj, e.setPath(c, s.Path, arr))
	}
}

// fullTerm returns the term whose bytes a slice holds as a whole.
func (e *E) fullTerm(st *State, s *SliceV) *Term {
	if s.Obj < 0 {
		return nil
	}
	a, ok := e.getPath(hget(st.heap, s.Obj), s.Path).(*SymArr)
	if ok && len(a.Over) == 0 && s.Off == 0 && identical(s.Len, e.termLen(a.T)) {
		return a.T
	}
	return nil
}

// unknownLen: a length with no bound that could be enumerated.
func (e *E) unknownLen(g Ref, n *BV) bool {
	return e.constUnder(g, n) == nil && e.splitConst(g, n, 64) == nil
}

// textOf is the content of a byte slice or string as text, where it is one value.
func (e *E) textOf(st *State, v Value) *Str {
	switch x := v.(type) {
	case *Str:
		return x
	case *SliceV:
		if x.Obj >= 0 && e.unknownLen(st.g, x.Len) && e.fullTerm(st, x) == nil {
			return nil
		}
		s, _ := e.bytesStr(st, x).(*Str)
		return s
	}
	return nil
}

func (f *frame) appendTo(s *SliceV, src Value, st types.Type) Value {
	e := f.e
	et := st.Underlying().(*types.Slice).Elem()
	cur := f.cur.st
	var srcLen *BV
	switch x := src.(type) {
	case *Str:
		srcLen = e.strLen(x)
	case *SliceV:
		srcLen = x.Len
	default:
		unsup("append of %T", src)
	}
	if c := e.constUnder(cur.g, srcLen); c == nil {
		// a whole byte term appended to nothing
		if dl := e.constUnder(cur.g, s.Len); dl != nil && dl.V == 0 && (s.Obj < 0 || s.Cap == 0) {
			switch x := src.(type) {
			case *Str:
				r := e.strBytes(cur, x, st).(*SliceV)
				r.NilEmpty = s.Obj < 0
				return r
			case *SliceV:
				if t := e.fullTerm(cur, x); t != nil {
					r := e.symBytes(cur, t)
					r.NilEmpty = s.Obj < 0
					return r
				}
			}
		}
	}
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (e.unknownLen(cur.g, srcLen) || e.unknownLen(cur.g, s.Len)) {
		if a, b := e.textOf(cur, s), e.textOf(cur, src); a != nil && b != nil {
			return e.strBytes(cur, e.concat(a, b).(*Str), byteSlice)
		}
	}
	return f.forkInt(srcLen, "appended length", func(n int) Value {
		cur := f.cur.st
		if n == 0 {
			return s
		}
		var add []Value
		switch x := src.(type) {
		case *Str:
			if x.K == 't' {
				x2 := e.strBytes(cur, x, types.NewSlice(types.Typ[types.Uint8])).(*SliceV)
				add = e.elems(cur, x2, n)
				break
			}
			for i := 0; i < n; i++ {
				add = append(add, x.byteAt(i))
			}
		case *SliceV:
			add = e.elems(cur, x, n)
		}
		return f.forkInt(s.Len, "slice length", func(dl int) Value {
			cur := f.cur.st
			cp := s.Cap
			if s.Obj < 0 {
				cp = 0
			} else if cp < 0 {
				cp = dl
			}
			if dl+n <= cp {
				e.setElems(cur, s, dl, add)
				return &SliceV{Obj: s.Obj, Path: s.Path, Off: s.Off, Len: constBV(64, uint64(dl+n)), Cap: cp}
			}
			nc := growCap(cp, dl+n, sizeOf(et))
			if nc > 1<<21 {
				unsup("slice of %d elements", nc)
			}
			arr := make(ArrayV, 0, nc)
			arr = append(arr, e.elems(cur, s, dl)...)
			arr = append(arr, add...)
			if len(arr) < nc {
				z := e.zero(et)
				for len(arr) < nc {
					arr = append(arr, z)
				}
			}
			r := e.newSlice(cur, st, arr)
			r.Len = constBV(64, uint64(dl+n))
			return r
		})
	})
}

func (f *frame) copyTo(dst *SliceV, src Value) Value {
	e := f.e
	g := f.cur.st.g
	var sl *BV
	switch x := src.(type) {
	case *Str:
		sl = e.strLen(x)
	case *SliceV:
		sl = x.Len
	}
	dl := dst.Len
	n := e.iteBV(e.ult(sl, dl), sl, dl)
	if c := e.constUnder(g, n); c != nil {
		n = c
	}
	if n.C {
		if n.V == 0 || dst.Obj < 0 {
			return constBV(64, 0)
		}
		var v []Value
		switch x := src.(type) {
		case *Str:
			if x.K == 't' {
				v = e.elems(f.cur.st, e.strBytes(f.cur.st, x, byteSlice).(*SliceV), int(n.V))
			} else {
				for i := 0; i < int(n.V); i++ {
					v = append(v, x.byteAt(i))
				}
			}
		case *SliceV:
			v = e.elems(f.cur.st, x, int(n.V))
		}
		e.setElems(f.cur.st, dst, 0, v)
		return n
	}
	// whole term copied into a fresh slice of the same symbolic length
	d := e.constUnder(g, dl)
	if d == nil {
		unsup("copy into a slice of unknown length at %s", e.where())
	}
	var srcS *SliceV
	switch x := src.(type) {
	case *Str:
		srcS = e.strBytes(f.cur.st, x, byteSlice).(*SliceV)
	case *SliceV:
		srcS = x
	}
	old := e.elems(f.cur.st, dst, int(d.V))
	var v []Value
	for i := 0; i < int(d.V); i++ {
		in := e.ult(constBV(64, uint64(i)), sl)
		if e.b.And(g, in) == False {
			v = append(v, old[i])
			continue
		}
		v = append(v, e.ite(in, e.getPath(hget(f.cur.st.heap, srcS.Obj), appendPath(srcS.Path, srcS.Off+i)), old[i]))
	}
	e.setElems(f.cur.st, dst, 0, v)
	return n
}

func (f *frame) lenOf(v Value) *BV {
	e := f.e
	r := e.map1(f.cur.st.g, v, func(g Ref, v Value) Value {
		switch x := v.(type) {
		case *Str:
			return e.strLen(x)
		case *SliceV:
			return x.Len
		case ArrayV:
			return constBV(64, uint64(len(x)))
		case *PtrV:
			if a, ok := e.getPath(hget(f.cur.st.heap, x.Obj), x.Path).(ArrayV); ok {
				return constBV(64, uint64(len(a)))
			}
		case *MapV:
			if x.Obj < 0 {
				return constBV(64, 0)
			}
			o := f.mapObj(x, false)
			if o.Base != nil {
				t := e.newTerm("MAPLEN", o.Base)
				return e.termBV(t, 64, True)
			}
			n := constBV(64, 0)
			for _, en := range o.Ents {
				n = e.iteBV(en.P, e.bvAdd(n, constBV(64, 1)), n)
			}
			return n
		case *ChanV:
			return e.termBV(e.freshTerm("chanlen"), 64, True)
		}
		unsup("len of %T at %s", v, e.where())
		return nil
	})
	if r == nil {
		return constBV(64, 0)
	}
	return r.(*BV)
}

func (f *frame) builtin(name string, args []Value, call *ssa.CallCommon) Value {
	e := f.e
	switch name {
	case "len":
		return f.lenOf(args[0])
	case "cap":
		return e.map1(f.cur.st.g, args[0], func(g Ref, v Value) Value {
			switch x := v.(type) {
			case *SliceV:
				return e.capOf(g, x)
			case ArrayV:
				return constBV(64, uint64(len(x)))
			}
			unsup("cap of %T", v)
			return nil
		})
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		st := call.Args[0].Type()
		return f.fork(f.readOnly(args[1]), func(src Value) Value {
			return f.fork(args[0], func(d Value) Value {
				return f.appendTo(d.(*SliceV), src, st)
			})
		})
	case "copy":
		return f.fork(f.readOnly(args[1]), func(src Value) Value {
			return f.fork(args[0], func(d Value) Value {
				return f.copyTo(d.(*SliceV), src)
			})
		})
	case "delete":
		return f.fork(args[0], func(m Value) Value {
			f.mapDelete(m.(*MapV), args[1])
			return TupleV{}
		})
	case "clear":
		return f.fork(args[0], func(m Value) Value {
			switch x := m.(type) {
			case *MapV:
				if x.Obj >= 0 {
					o := f.mapObj(x, true)
					e.noteWrite(f.cur.st, x.Obj, nil)
					f.cur.st.heap = hset(f.cur.st.heap, x.Obj, &MapObj{ET: o.ET})
				}
			case *SliceV:
				n := f.constLen(x.Len, "length")
				if n > 0 {
					z := e.zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
					v := make([]Value, n)
					for i := range v {
						v[i] = z
					}
					e.setElems(f.cur.st, x, 0, v)
				}
			}
			return TupleV{}
		})
	case "panic":
		f.panicIf(True, "explicit panic", args[0])
		return nil
	case "recover":
		pv := f.cur.st.pv
		if pv == nil || !f.isDefer {
			return nilIface
		}
		f.cur.st.pv = nilIface
		return pv
	case "print", "println":
		var parts []Value
		for _, a := range args {
			parts = append(parts, e.snap(f.cur.st, a))
		}
		e.event(f.cur.st, "print", "stderr", parts...)
		return TupleV{}
	case "close":
		e.event(f.cur.st, "close", "", args...)
		return TupleV{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := r.(*BV), a.(*BV)
			lt := f.less(x, y, signed(call.Args[0].Type()))
			if name == "max" {
				lt = Not(lt)
			}
			r = e.iteBV(lt, x, y)
		}
		return r
	case "ssa:wrapnilchk":
		f.ptrOp(args[0], func(p *PtrV) Value { return p })
		return args[0]
	}
	unsup("builtin %s at %s", name, e.where())
	return nil
}

// readOnly joins gated slices of one length into a single fresh slice, for uses that only read it.
func (f *frame) readOnly(v Value) Value {
	e := f.e
	if _, ok := v.(*ChoiceV); !ok {
		return v
	}
	alts := e.alts(f.cur.st.g, v)
	n := -1
	for _, a := range alts {
		s, ok := a.V.(*SliceV)
		if !ok || s.Obj < 0 {
			return v
		}
		c := e.constUnder(a.G, s.Len)
		if c == nil || n >= 0 && int(c.V) != n {
			return v
		}
		n = int(c.V)
		if _, ok := e.getPath(hget(f.cur.st.heap, s.Obj), s.Path).(ArrayV); !ok {
			return v
		}
	}
	if len(alts) < 2 || n == 0 {
		return v
	}
	arr := make(ArrayV, n)
	for k := len(alts) - 1; k >= 0; k-- {
		st := f.cur.st.clone()
		st.g = alts[k].G
		for i, x := range e.elems(st, alts[k].V.(*SliceV), n) {
			if arr[i] == nil {
				arr[i] = x
			} else {
				arr[i] = e.ite(alts[k].G, x, arr[i])
			}
		}
	}
	return e.newSlice(f.cur.st, byteSlice, arr)
}
