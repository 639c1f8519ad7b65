package main

// Models of sync.Map, sync.Pool, sync.Once, sync/atomic and of the trimming functions.

import (
	"go/types"
	"strings"
)

// fieldNo is the index of a field of a type of another package.
func (c *Ctx) fieldNo(pkg, typ, field string) int {
	t := c.e.W.pkgs[pkg].Members[typ].Type().Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == field {
			return i
		}
	}
	unsup("%s.%s has no field %s", pkg, typ, field)
	return 0
}

func (c *Ctx) ptr(v Value) *PtrV {
	p, ok := v.(*PtrV)
	if !ok {
		unsup("receiver %T", v)
	}
	if p.Obj < 0 {
		c.f.panicIf(True, "nil pointer dereference", nil)
	}
	return p
}

// peek and poke read and write memory without reporting a (racy) access.
func (c *Ctx) peek(p *PtrV, field int) Value {
	return c.e.getPath(hget(c.st().heap, p.Obj), appendPath(p.Path, field))
}

func (c *Ctx) poke(p *PtrV, field int, v Value) {
	c.e.noteWrite(c.st(), p.Obj, p.Path)
	c.pokeQuiet(p, field, v)
}

func (c *Ctx) pokeQuiet(p *PtrV, field int, v Value) {
	st := c.st()
	st.heap = hset(st.heap, p.Obj, c.e.setPath(hget(st.heap, p.Obj), appendPath(p.Path, field), v))
}

// ---- sync.Map: its second field holds the entries

func (c *Ctx) smap(p *PtrV) *MapObj {
	var r *MapObj
	for _, a := range c.e.alts(c.st().g, c.peek(p, 1)) {
		m, ok := a.V.(*MapObj)
		if !ok {
			m = &MapObj{}
		}
		if r == nil {
			r = m
		} else {
			x := c.e.iteMap(a.G, m, r).(*MapObj)
			r = x
		}
	}
	if r == nil {
		return &MapObj{}
	}
	return r
}

// withMap runs f on the map as an ordinary map object.
func (c *Ctx) withMap(p *PtrV, write bool, f func(m *MapV) Value) Value {
	id := c.e.newObj(c.st(), "local", "sync.Map", types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil)), c.smap(p))
	save := c.e.onAccess
	c.e.onAccess = nil
	r := f(&MapV{Obj: id})
	c.e.onAccess = save
	if write && c.st().g != False {
		c.poke(p, 1, hget(c.st().heap, id))
	}
	return r
}

func (c *Ctx) poolList(p *PtrV, f int) []Alt {
	var out []Alt
	for _, a := range c.e.alts(c.st().g, c.peek(p, f)) {
		if t, ok := a.V.(TupleV); ok {
			for _, v := range t {
				out = append(out, Alt{a.G, v})
			}
		}
	}
	return out
}

func init() {
	// sync.Map
	get := func(c *Ctx, p *PtrV, k Value) (Value, Ref) {
		var v Value = nilIface
		ok := False
		c.withMap(p, false, func(m *MapV) Value { v, ok = c.f.mapGet(m, k, anyType); return nil })
		return v, ok
	}
	reg("(*sync.Map).Load", func(c *Ctx, a []Value) Value {
		v, ok := get(c, c.ptr(a[0]), a[1])
		return TupleV{v, BoolV(ok)}
	})
	reg("(*sync.Map).Store", func(c *Ctx, a []Value) Value {
		c.withMap(c.ptr(a[0]), true, func(m *MapV) Value { c.f.mapUpdate(m, a[1], a[2]); return nil })
		return TupleV{}
	})
	reg("(*sync.Map).Swap", func(c *Ctx, a []Value) Value {
		v, ok := get(c, c.ptr(a[0]), a[1])
		c.withMap(c.ptr(a[0]), true, func(m *MapV) Value { c.f.mapUpdate(m, a[1], a[2]); return nil })
		return TupleV{v, BoolV(ok)}
	})
	reg("(*sync.Map).LoadOrStore", func(c *Ctx, a []Value) Value {
		v, ok := get(c, c.ptr(a[0]), a[1])
		n := c.e.ite(ok, v, a[2])
		c.withMap(c.ptr(a[0]), true, func(m *MapV) Value { c.f.mapUpdate(m, a[1], n); return nil })
		return TupleV{n, BoolV(ok)}
	})
	reg("(*sync.Map).Delete", func(c *Ctx, a []Value) Value {
		c.withMap(c.ptr(a[0]), true, func(m *MapV) Value { c.f.mapDelete(m, a[1]); return nil })
		return TupleV{}
	})
	reg("(*sync.Map).LoadAndDelete", func(c *Ctx, a []Value) Value {
		v, ok := get(c, c.ptr(a[0]), a[1])
		c.withMap(c.ptr(a[0]), true, func(m *MapV) Value { c.f.mapDelete(m, a[1]); return nil })
		return TupleV{v, BoolV(ok)}
	})
	reg("(*sync.Map).Clear", func(c *Ctx, a []Value) Value {
		c.poke(c.ptr(a[0]), 1, &MapObj{})
		return TupleV{}
	})
	reg("(*sync.Map).Range", func(c *Ctx, a []Value) Value {
		going := True
		for _, en := range c.smap(c.ptr(a[0])).Ents {
			g := c.e.b.And(en.P, going)
			c.f.fork(c.e.ite(g, BoolV(True), BoolV(False)), func(v Value) Value { return v })
			if c.e.b.And(c.st().g, g) == False {
				continue
			}
			if c.e.b.And(c.st().g, Not(g)) != False {
				unsup("ranging over a sync.Map of unknown content")
			}
			r := c.f.callValue(nil, a[1], []Value{en.K, en.V}, 0, false)
			if c.st().g == False {
				return nil
			}
			going = e2b(c.e, c.st().g, r)
		}
		return TupleV{}
	})

	// sync.Pool: its first field holds what was put; Get gives any of it, or something new
	reg("(*sync.Pool).Put", func(c *Ctx, a []Value) Value {
		p := c.ptr(a[0])
		var all TupleV
		for _, x := range c.poolList(p, 0) {
			all = append(all, x.V)
		}
		if i, ok := a[1].(*IfaceV); ok {
			if i.T == nil {
				return TupleV{}
			}
			for _, x := range c.e.alts(c.st().g, i.V) {
				switch y := x.V.(type) {
				case *PtrV:
					c.e.pool(y.Obj, x.G)
					if y.Obj >= 0 {
						for _, z := range c.e.alts(x.G, c.e.getPath(hget(c.st().heap, y.Obj), y.Path)) {
							if s, ok := z.V.(*SliceV); ok {
								c.e.pool(s.Obj, z.G)
							}
						}
					}
				case *SliceV:
					c.e.pool(y.Obj, x.G)
				}
			}
		}
		c.pokeQuiet(p, 0, append(all, a[1]))
		return TupleV{}
	})
	reg("(*sync.Pool).Get", func(c *Ctx, a []Value) Value {
		p := c.ptr(a[0])
		var r Value = nilIface
		nf := c.fieldNo("sync", "Pool", "New")
		fv := c.peek(p, nf)
		r = c.f.fork(fv, func(v Value) Value {
			if x, ok := v.(*FuncV); ok && x.Fn == nil && x.N == "" && x.B == nil {
				return nilIface
			}
			return c.f.callValue(nil, v, nil, 0, false)
		})
		if c.st().g == False {
			return nil
		}
		for _, x := range c.poolList(p, 0) {
			r = c.e.ite(c.e.b.And(x.G, c.e.termBool(c.e.freshTerm("POOL"), True)), x.V, r)
		}
		return r
	})

	// sync.Once: its done field
	reg("(*sync.Once).Do", func(c *Ctx, a []Value) Value {
		p := c.ptr(a[0])
		f := c.fieldNo("sync", "Once", "done")
		done := False
		for _, x := range c.e.alts(c.st().g, c.peek(p, f)) {
			if b, ok := x.V.(BoolV); ok {
				done = c.e.b.Or(done, c.e.b.And(x.G, Ref(b)))
			}
		}
		c.f.fork(c.e.ite(done, cStr("done"), cStr("")), func(v Value) Value {
			if s, _ := c.cstr(v); s == "done" {
				return TupleV{}
			}
			c.pokeQuiet(p, f, BoolV(True))
			// the body runs once, before every later use: its writes are initialization
			save := c.e.initPhase
			c.e.initPhase = true
			c.f.callValue(nil, a[1], nil, 0, false)
			c.e.initPhase = save
			return TupleV{}
		})
		return TupleV{}
	})

	// sync/atomic
	type atom struct {
		typ  string
		get  func(c *Ctx, p Value) (Value, func(v Value))
		zero func(c *Ctx) Value
	}
	deref := func(c *Ctx, a Value) (Value, func(v Value)) {
		p := c.ptr(a)
		set := func(v Value) {
			c.e.noteWrite(c.st(), p.Obj, p.Path)
			c.st().heap = hset(c.st().heap, p.Obj, c.e.setPath(hget(c.st().heap, p.Obj), p.Path, v))
		}
		return c.e.getPath(hget(c.st().heap, p.Obj), p.Path), set
	}
	field := func(typ string) func(c *Ctx, a Value) (Value, func(v Value)) {
		return func(c *Ctx, a Value) (Value, func(v Value)) {
			p := c.ptr(a)
			f := c.fieldNo("sync/atomic", typ, "v")
			return c.peek(p, f), func(v Value) { c.poke(p, f, v) }
		}
	}
	ops := func(load, store, swap, add, cas string, cell func(c *Ctx, a Value) (Value, func(v Value)), norm func(c *Ctx, v Value) Value) {
		reg(load, func(c *Ctx, a []Value) Value { v, _ := cell(c, a[0]); return norm(c, v) })
		reg(store, func(c *Ctx, a []Value) Value { _, set := cell(c, a[0]); set(a[1]); return TupleV{} })
		reg(swap, func(c *Ctx, a []Value) Value { v, set := cell(c, a[0]); set(a[1]); return norm(c, v) })
		reg(cas, func(c *Ctx, a []Value) Value {
			v, set := cell(c, a[0])
			v = norm(c, v)
			eq := c.f.equal(v, a[1], nil)
			set(c.e.ite(eq, a[2], v))
			return BoolV(eq)
		})
		if add != "" {
			reg(add, func(c *Ctx, a []Value) Value {
				v, set := cell(c, a[0])
				n := c.e.bvAdd(norm(c, v).(*BV), a[1].(*BV))
				set(n)
				return n
			})
		}
	}
	same := func(c *Ctx, v Value) Value { return v }
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		m := func(n string) string { return "(*sync/atomic." + t + ")." + n }
		ops(m("Load"), m("Store"), m("Swap"), m("Add"), m("CompareAndSwap"), field(t), same)
		g := func(n string) string { return "sync/atomic." + n + t }
		ops(g("Load"), g("Store"), g("Swap"), g("Add"), g("CompareAndSwap"), deref, same)
	}
	pm := func(n string) string { return "(*sync/atomic.Pointer[T])." + n }
	ops(pm("Load"), pm("Store"), pm("Swap"), "", pm("CompareAndSwap"), field("Pointer"), func(c *Ctx, v Value) Value {
		return c.e.map1(c.st().g, v, func(_ Ref, v Value) Value {
			if _, ok := v.(*PtrV); ok {
				return v
			}
			return &PtrV{Obj: -1}
		})
	})
	vm := func(n string) string { return "(*sync/atomic.Value)." + n }
	ops(vm("Load"), vm("Store"), vm("Swap"), "", vm("CompareAndSwap"), field("Value"), same)
	boolV := func(c *Ctx, v Value) Value {
		return c.e.map1(c.st().g, v, func(_ Ref, v Value) Value {
			if b, ok := v.(*BV); ok {
				return BoolV(Not(c.e.bvEq(b, constBV(b.W, 0))))
			}
			return v
		})
	}
	bm := func(n string) string { return "(*sync/atomic.Bool)." + n }
	ops(bm("Load"), bm("Store"), bm("Swap"), "", bm("CompareAndSwap"), field("Bool"), boolV)

	// trimming of strings and byte slices of known length, and of string terms
	trim := func(name string, left, right bool, fn func(s, cut string) string) {
		space := name == "TrimSpace"
		cutOf := func(c *Ctx, a []Value) (string, bool) {
			if space {
				return " \t\n\v\f\r", true
			}
			s, ok := c.cstr(a[1])
			for i := 0; ok && i < len(s); i++ {
				if s[i] >= 0x80 {
					return "", false
				}
			}
			return s, ok
		}
		in := func(c *Ctx, b *BV, cut string) Ref {
			r := False
			for i := 0; i < len(cut); i++ {
				r = c.e.b.Or(r, c.e.bvEq(b, constBV(8, uint64(cut[i]))))
			}
			return r
		}
		// ranges gives, for every way to cut, its guard
		ranges := func(c *Ctx, bs []*BV, cut string, f func(i, j int) Value) Value {
			e := c.e
			n := len(bs)
			if n > 64 {
				unsup("trimming %d bytes", n)
			}
			cuts := make([]Ref, n)
			for i, b := range bs {
				cuts[i] = in(c, b, cut)
			}
			var out []Alt
			pre := True
			for i := 0; i <= n; i++ {
				if i > 0 && !left {
					break
				}
				g := pre // everything before i is cut
				if left {
					if i < n {
						g = e.b.And(pre, Not(cuts[i]))
						pre = e.b.And(pre, cuts[i])
					}
				}
				suf := g
				for j := n; j >= i; j-- {
					h := suf
					if right && j > i {
						h = e.b.And(suf, Not(cuts[j-1]))
						suf = e.b.And(suf, cuts[j-1])
					}
					if h = e.b.And(c.st().g, h); h != False {
						out = append(out, Alt{h, f(i, j)})
					}
					if !right {
						break
					}
				}
			}
			return e.choice(out)
		}
		reg("strings."+name, func(c *Ctx, a []Value) Value {
			cut, ok := cutOf(c, a)
			s := a[0].(*Str)
			if x, is := c.cstr(s); is && ok {
				return cStr(fn(x, cut))
			}
			if ok && s.K == 'b' && s.clen() <= 64 {
				return ranges(c, s.B, cut, func(i, j int) Value { return bStr(s.B[i:j]) })
			}
			if s.K == 't' && s.T.Op == "strings."+name && (space || identical(s.T.Args[1], a[1])) {
				return s
			}
			return tStr(c.e.newTerm("strings."+name, a...))
		})
		reg("bytes."+name, func(c *Ctx, a []Value) Value {
			cut, ok := cutOf(c, a)
			s := a[0].(*SliceV)
			if s.Obj < 0 {
				return s
			}
			n := c.f.constLen(s.Len, "length")
			if !ok {
				unsup("trimming with an unknown set")
			}
			var bs []*BV
			for _, v := range c.e.elems(c.st(), s, n) {
				b, ok := v.(*BV)
				if !ok {
					unsup("trimming gated bytes")
				}
				bs = append(bs, b)
			}
			return ranges(c, bs, cut, func(i, j int) Value {
				if i == j && left {
					return nilSlice
				}
				cp := s.Cap
				if cp >= 0 {
					cp -= i
				}
				return &SliceV{Obj: s.Obj, Path: s.Path, Off: s.Off + i, Len: constBV(64, uint64(j-i)), Cap: cp}
			})
		})
	}
	trim("TrimSpace", true, true, func(s, _ string) string { return strings.TrimSpace(s) })
	trim("Trim", true, true, strings.Trim)
	trim("TrimLeft", true, false, strings.TrimLeft)
	trim("TrimRight", false, true, strings.TrimRight)
	affix := func(name string, fn func(s, x string) string) {
		reg("strings."+name, func(c *Ctx, a []Value) Value {
			x, ok1 := c.cstr(a[0])
			y, ok2 := c.cstr(a[1])
			if ok1 && ok2 {
				return cStr(fn(x, y))
			}
			s, p := a[0].(*Str), a[1].(*Str)
			if s.K != 't' && p.K != 't' {
				n, k := s.clen(), p.clen()
				if k > n {
					return s
				}
				off := 0
				if name == "TrimSuffix" {
					off = n - k
				}
				eq := True
				for i := 0; i < k; i++ {
					eq = c.e.b.And(eq, c.e.bvEq(s.byteAt(off+i), p.byteAt(i)))
				}
				var rest []*BV
				for i := 0; i < n; i++ {
					if i < off || i >= off+k {
						rest = append(rest, s.byteAt(i))
					}
				}
				return c.e.ite(eq, bStr(rest), s)
			}
			return tStr(c.e.newTerm("strings."+name, a...))
		})
	}
	affix("TrimPrefix", strings.TrimPrefix)
	affix("TrimSuffix", strings.TrimSuffix)
}

// e2b is a (possibly gated) boolean.
func e2b(e *E, g Ref, v Value) Ref {
	r := False
	for _, a := range e.alts(g, v) {
		r = e.b.Or(r, e.b.And(a.G, Ref(a.V.(BoolV))))
	}
	return r
}

// pool marks memory that was given to a pool.
func (e *E) pool(obj int, g Ref) {
	if obj < 0 || e.initPhase {
		return
	}
	if e.pooled == nil {
		e.pooled = map[int]Ref{}
	}
	if o, ok := e.pooled[obj]; ok {
		g = e.b.Or(o, g)
	}
	e.pooled[obj] = g
}

// ---- bytes.Buffer and readers over content of unknown length; with known lengths the library's own code is interpreted

func bufField(p Value) (*PtrV, []int, bool) {
	q, ok := p.(*PtrV)
	if !ok || q.Obj < 0 {
		return nil, nil, false
	}
	return q, appendPath(q.Path, 0), true
}

// bufText is the text of a buffer: as kept by this model, or the bytes of its memory when force is set.
func (c *Ctx) bufText(p Value, force bool) (*Str, bool) {
	q, f, ok := bufField(p)
	if !ok {
		return nil, false
	}
	switch x := c.e.loadObj(c.st(), q.Obj, f).(type) {
	case *Str:
		return x, true
	case *SliceV:
		if !force {
			return nil, false
		}
		off, ok := c.e.loadObj(c.st(), q.Obj, appendPath(q.Path, 1)).(*BV)
		if !ok || !off.C || off.V != 0 {
			return nil, false
		}
		s := c.e.textOf(c.st(), x)
		return s, s != nil
	}
	return nil, false
}

func init() {
	add := func(name string) {
		condIntrinsics["(*bytes.Buffer)."+name] = func(c *Ctx, a []Value) (Value, bool) {
			var txt *Str
			var n *BV
			force := false
			switch x := a[1].(type) {
			case *Str:
				txt, n = x, c.e.strLen(x)
			case *SliceV:
				n = x.Len
				txt = c.e.textOf(c.st(), x)
			case *BV:
				n = constBV(64, 1)
				txt = bStr([]*BV{x})
			default:
				return nil, false
			}
			if txt == nil {
				return nil, false
			}
			force = c.e.unknownLen(c.st().g, n)
			cur, ok := c.bufText(a[0], force)
			if !ok {
				return nil, false
			}
			q, f, _ := bufField(a[0])
			c.e.storeObj(c.st(), q.Obj, f, c.e.concat(cur, txt))
			if name == "WriteByte" {
				return nilIface, true
			}
			return TupleV{n, nilIface}, true
		}
	}
	add("Write")
	add("WriteString")
	add("WriteByte")
	get := func(name string, f func(c *Ctx, s *Str) Value) {
		condIntrinsics["(*bytes.Buffer)."+name] = func(c *Ctx, a []Value) (Value, bool) {
			s, ok := c.bufText(a[0], false)
			if !ok {
				return nil, false
			}
			return f(c, s), true
		}
	}
	get("Bytes", func(c *Ctx, s *Str) Value { return c.e.strBytes(c.st(), s, byteSlice) })
	get("String", func(c *Ctx, s *Str) Value { return s })
	get("Len", func(c *Ctx, s *Str) Value { return c.e.strLen(s) })
	condIntrinsics["(*bytes.Buffer).Reset"] = func(c *Ctx, a []Value) (Value, bool) {
		if _, ok := c.bufText(a[0], false); !ok {
			return nil, false
		}
		q, f, _ := bufField(a[0])
		c.e.storeObj(c.st(), q.Obj, f, nilSlice)
		return TupleV{}, true
	}
	drain := func(c *Ctx, p, w Value) (Value, bool) {
		s, ok := c.bufText(p, true)
		if !ok {
			return nil, false
		}
		q, f, _ := bufField(p)
		c.e.storeObj(c.st(), q.Obj, f, nilSlice)
		return c.f.writeTo(w, s), true
	}
	condIntrinsics["(*bytes.Buffer).WriteTo"] = func(c *Ctx, a []Value) (Value, bool) { return drain(c, a[0], a[1]) }
	condIntrinsics["io.Copy"] = func(c *Ctx, a []Value) (Value, bool) {
		if i, ok := a[1].(*IfaceV); ok && i.T != nil && i.T.String() == "*bytes.Buffer" {
			return drain(c, i.V, a[0])
		}
		return nil, false
	}
}

// readerContent is what a reader over bytes or text in memory holds.
func (c *Ctx) readerContent(r Value) (Value, bool) {
	i, ok := r.(*IfaceV)
	if !ok || i.T == nil {
		return nil, false
	}
	switch i.T.String() {
	case "*bytes.Reader", "*bytes.Buffer":
		q, f, ok := bufField(i.V)
		if !ok {
			return nil, false
		}
		switch x := c.e.loadObj(c.st(), q.Obj, f).(type) {
		case *SliceV:
			return x, true
		case *Str:
			return c.e.strBytes(c.st(), x, byteSlice), true
		}
	case "*strings.Reader":
		q, f, ok := bufField(i.V)
		if !ok {
			return nil, false
		}
		if s, ok := c.e.loadObj(c.st(), q.Obj, f).(*Str); ok {
			return c.e.strBytes(c.st(), s, byteSlice), true
		}
	}
	return nil, false
}
