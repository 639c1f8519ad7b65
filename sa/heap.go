package main

// Persistent abstract memory and path states.

import (
	"fmt"
	"go/types"
)

const hfan = 16
const hdepth = 5

type hnode struct {
	kid [hfan]*hnode
	val [hfan]Value
}

func hget(n *hnode, id int) Value {
	for d := hdepth - 1; d > 0; d-- {
		if n == nil {
			return nil
		}
		n = n.kid[id>>(4*uint(d))&15]
	}
	if n == nil {
		return nil
	}
	return n.val[id&15]
}

func hset(n *hnode, id int, v Value) *hnode { return hsetd(n, id, v, hdepth-1) }

func hsetd(n *hnode, id int, v Value, d int) *hnode {
	c := &hnode{}
	if n != nil {
		*c = *n
	}
	if d == 0 {
		c.val[id&15] = v
		return c
	}
	i := id >> (4 * uint(d)) & 15
	c.kid[i] = hsetd(c.kid[i], id, v, d-1)
	return c
}

// hmerge joins two memories, f is called where they differ.
func hmerge(a, b *hnode, d int, f func(a, b Value) Value) *hnode {
	if a == b || b == nil {
		return a
	}
	if a == nil {
		return b
	}
	c := &hnode{}
	if d == 0 {
		for i := range c.val {
			x, y := a.val[i], b.val[i]
			switch {
			case x == nil:
				c.val[i] = y
			case y == nil:
				c.val[i] = x
			case sameGo(x, y):
				c.val[i] = x
			default:
				c.val[i] = f(x, y)
			}
		}
		return c
	}
	for i := range c.kid {
		c.kid[i] = hmerge(a.kid[i], b.kid[i], d-1, f)
	}
	return c
}

// lockEnt is a lock held under guard G.
type lockEnt struct {
	Addr  string
	Name  string
	Class string // type and field of the lock
	Pos   string // where it was taken
	W     bool
	Epoch int
	G     Ref
}

// State is the abstract state of a path: its guard and memory.
type State struct {
	g     Ref
	heap  *hnode
	locks []lockEnt
	pv    Value // value of the panic in flight
}

func (s *State) clone() *State {
	c := *s
	c.locks = append([]lockEnt(nil), s.locks...)
	return &c
}

func (e *E) mergeState(a, b *State) *State {
	if a == nil || a.g == False {
		return b
	}
	if b == nil || b.g == False {
		return a
	}
	r := &State{g: e.b.Or(a.g, b.g)}
	r.heap = hmerge(a.heap, b.heap, hdepth-1, func(x, y Value) Value { return e.ite(a.g, x, y) })
	if a.pv != nil || b.pv != nil {
		x, y := a.pv, b.pv
		if x == nil {
			x = nilIface
		}
		if y == nil {
			y = nilIface
		}
		r.pv = e.ite(a.g, x, y)
	}
	for _, l := range a.locks {
		if h := e.b.And(l.G, a.g); h != False {
			l.G = h
			r.locks = append(r.locks, l)
		}
	}
	for _, l := range b.locks {
		h := e.b.And(l.G, b.g)
		if h == False {
			continue
		}
		l.G = h
		found := false
		for i := range r.locks {
			if r.locks[i].Addr == l.Addr && r.locks[i].W == l.W && r.locks[i].Epoch == l.Epoch {
				r.locks[i].G = e.b.Or(r.locks[i].G, h)
				found = true
			}
		}
		if !found {
			r.locks = append(r.locks, l)
		}
	}
	return r
}

// ObjInfo describes an abstract object (an allocation).
type ObjInfo struct {
	Kind string // "param", "global", "init", "local", "shared"
	Name string
	T    types.Type
	Pos  string
}

func (e *E) newObj(st *State, kind, name string, t types.Type, content Value) int {
	id := len(e.objs)
	if id >= 1<<(4*hdepth) {
		unsup("too many objects")
	}
	if e.initPhase && kind == "local" {
		kind = "init"
	}
	e.objs = append(e.objs, &ObjInfo{Kind: kind, Name: name, T: t})
	st.heap = hset(st.heap, id, content)
	return id
}

// zero is the zero value of a type.
func (e *E) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV(False)
		case u.Info()&types.IsString != 0:
			return cStr("")
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return FloatV{0}
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Kind() == types.UntypedNil:
			return nilPtr
		}
		return constBV(width(t), 0)
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Interface:
		return nilIface
	case *types.Signature:
		return nilFunc
	case *types.Map:
		return nilMap
	case *types.Chan:
		return nilChan
	case *types.Struct:
		r := make(StructV, u.NumFields())
		for i := range r {
			r[i] = e.zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		n := int(u.Len())
		if n > 1<<21 {
			unsup("array of %d elements", n)
		}
		r := make(ArrayV, n)
		z := e.zero(u.Elem())
		for i := range r {
			r[i] = z
		}
		return r
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = e.zero(u.At(i).Type())
		}
		return r
	}
	unsup("zero value of %s", t)
	return nil
}

func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("integer width of %s", t)
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func signed(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

// symAt is element i of an opaque array.
func (e *E) symAt(a *SymArr, i int) Value {
	if v, ok := a.Over[i]; ok {
		return v
	}
	return mkBV(e.varBits(a.T, fmt.Sprintf("at%d", i), 8, True))
}

// getPath reads below a content value.
func (e *E) getPath(v Value, path []int) Value {
	for k, i := range path {
		switch x := v.(type) {
		case StructV:
			v = x[i]
		case ArrayV:
			if i < 0 || i >= len(x) {
				unsup("element %d of array of %d", i, len(x))
			}
			v = x[i]
		case *SymArr:
			v = e.symAt(x, i)
		case *ChoiceV:
			rest := path[k:]
			return e.map1(True, x, func(_ Ref, y Value) Value { return e.getPath(y, rest) })
		default:
			unsup("path into %T", v)
		}
	}
	return v
}

func (e *E) setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	i := path[0]
	switch x := v.(type) {
	case StructV:
		r := append(StructV(nil), x...)
		r[i] = e.setPath(x[i], path[1:], nv)
		return r
	case ArrayV:
		r := append(ArrayV(nil), x...)
		r[i] = e.setPath(x[i], path[1:], nv)
		return r
	case *SymArr:
		r := &SymArr{T: x.T, Over: map[int]Value{}}
		for k, w := range x.Over {
			r.Over[k] = w
		}
		r.Over[i] = nv
		return r
	case *ChoiceV:
		return e.map1(True, x, func(_ Ref, y Value) Value { return e.setPath(y, path, nv) })
	}
	unsup("path into %T", v)
	return nil
}

func (e *E) loadObj(st *State, obj int, path []int) Value {
	c := hget(st.heap, obj)
	if c == nil {
		unsup("object %d has no content", obj)
	}
	if e.onAccess != nil {
		e.onAccess(st, obj, path, false)
	}
	return e.getPath(c, path)
}

func (e *E) storeObj(st *State, obj int, path []int, v Value) {
	c := hget(st.heap, obj)
	if c == nil {
		unsup("object %d has no content", obj)
	}
	if e.onAccess != nil {
		e.onAccess(st, obj, path, true)
	}
	e.noteWrite(st, obj, path)
	st.heap = hset(st.heap, obj, e.setPath(c, path, v))
}

// noteWrite records writes to memory that does not belong to the operation.
func (e *E) noteWrite(st *State, obj int, path []int) {
	k := e.objs[obj].Kind
	if e.initPhase || k == "local" || k == "shared" {
		return
	}
	e.event(st, "write", e.objs[obj].Kind+" "+e.objs[obj].Name+pathKey(path))
}

func (e *E) iteMap(g Ref, x, y *MapObj) Value {
	r := &MapObj{Base: x.Base, ET: x.ET}
	used := map[int]bool{}
	for _, a := range x.Ents {
		m := -1
		for j, b := range y.Ents {
			if !used[j] && identical(a.K, b.K) {
				m = j
				break
			}
		}
		if m >= 0 {
			used[m] = true
			b := y.Ents[m]
			r.Ents = append(r.Ents, MapEnt{a.K, e.ite(g, a.V, b.V), e.b.Ite(g, a.P, b.P)})
		} else {
			r.Ents = append(r.Ents, MapEnt{a.K, a.V, e.b.And(g, a.P)})
		}
	}
	for j, b := range y.Ents {
		if !used[j] {
			r.Ents = append(r.Ents, MapEnt{b.K, b.V, e.b.And(Not(g), b.P)})
		}
	}
	return r
}

// pathClass names a location by the type of its object and the fields that lead to it.
func pathClass(t types.Type, path []int) string {
	name := shortName(types.TypeString(t, nil))
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			name += "." + u.Field(i).Name()
			t = u.Field(i).Type()
		case *types.Array:
			name += "[]"
			t = u.Elem()
		case *types.Slice:
			name += "[]"
			t = u.Elem()
		default:
			return name
		}
	}
	return name
}
