package main

// Models of net/http, gorilla/mux, encoding/json, context and reflect: what a handler
// does to a request and a response, as events and terms.

import (
	"go/types"
	"net/textproto"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type muxRoute struct {
	router  int
	methods []string
	path    string
	hasPath bool
	prefix  bool
	handler Value
	bad     string // a matcher that is not modelled
	g       Ref
	sub     int // subrouter object, -1 if none
}

type muxRouter struct {
	routes  []int
	mw      []Value
	prefix  string
	encoded bool
}

type httpModel struct {
	routers map[int]*muxRouter
	routes  map[int]*muxRoute
	hdr     int // response header map object
	nlist   int // machines a list operation returns
	depth   int
}

type flagInfo struct {
	Name string
	Cell *PtrV
	T    types.Type
	Def  Value
}

func (e *E) htmodel() *httpModel {
	if e.http == nil {
		e.http = &httpModel{routers: map[int]*muxRouter{}, routes: map[int]*muxRoute{}, hdr: -1}
	}
	return e.http
}

func (e *E) pkgType(pkg, name string) types.Type {
	p := e.W.pkgs[pkg]
	if p == nil {
		unsup("package %s is not part of the program", pkg)
	}
	m := p.Members[name]
	if m == nil {
		unsup("no %s.%s", pkg, name)
	}
	return m.Type()
}

func fieldIndex(t types.Type, name string) int {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	unsup("no field %s in %s", name, t)
	return -1
}

// ---- response writer and other native objects

func (f *frame) httpMethod(n *NativeV, name string, m *types.Func, args []Value) (Value, bool) {
	e := f.e
	switch n.Kind {
	case "rw":
		switch name {
		case "Header":
			return &MapV{Obj: e.htmodel().hdr}, true
		case "WriteHeader":
			e.event(f.cur.st, "status", "", args[0], e.snap(f.cur.st, &MapV{Obj: e.htmodel().hdr}))
			return TupleV{}, true
		case "Write", "WriteString":
			txt := args[0]
			if s, ok := txt.(*SliceV); ok {
				txt = e.bytesStr(f.cur.st, s)
			}
			e.event(f.cur.st, "body", "", txt, e.snap(f.cur.st, &MapV{Obj: e.htmodel().hdr}))
			return TupleV{f.lenOf(txt), nilIface}, true
		}
	case "body":
		switch name {
		case "Close":
			return nilIface, true
		case "Read":
			unsup("piecewise reading of a request body")
		}
	case "svc":
		return f.svcCall(n, name, m, args), true
	case "rtype":
		t := n.V[0].(*IfaceV).T
		switch name {
		case "Field":
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				f.panicIf(True, "reflect: Field of non-struct type", nil)
				return nil, true
			}
			i := f.constLen(args[0].(*BV), "field number")
			if i < 0 || i >= st.NumFields() {
				f.panicIf(True, "reflect: Field index out of bounds", nil)
				return nil, true
			}
			sf := e.pkgType("reflect", "StructField")
			v := e.zero(sf).(StructV)
			v[fieldIndex(sf, "Name")] = cStr(st.Field(i).Name())
			v[fieldIndex(sf, "Tag")] = cStr(st.Tag(i))
			v[fieldIndex(sf, "Type")] = e.rtype(st.Field(i).Type())
			v[fieldIndex(sf, "Anonymous")] = e.cbool(st.Field(i).Embedded())
			if !st.Field(i).Exported() {
				v[fieldIndex(sf, "PkgPath")] = cStr(st.Field(i).Pkg().Path())
			}
			return v, true
		case "NumField":
			return constBV(64, uint64(structOf(t).NumFields())), true
		case "Name":
			if nt, ok := t.(*types.Named); ok {
				return cStr(nt.Obj().Name()), true
			}
			return cStr(""), true
		case "String":
			return cStr(t.String()), true
		case "Kind":
			return constBV(64, uint64(kindOf(t))), true
		case "Elem":
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return e.rtype(p.Elem()), true
			}
		}
	}
	return nil, false
}

func (e *E) rtype(t types.Type) Value {
	return e.iface(&NativeV{Kind: "rtype", Obj: -1, V: []Value{&IfaceV{T: t, V: cStr("")}}})
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Array:
		return reflect.Array
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return reflect.String
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Uint8:
			return reflect.Uint8
		}
	}
	unsup("reflect kind of %s", t)
	return 0
}

// svcCall is a call of the service behind the handler: an event, an unknown result.
func (f *frame) svcCall(n *NativeV, name string, m *types.Func, args []Value) Value {
	e := f.e
	for i, a := range args {
		if c, ok := a.(*ChoiceV); ok {
			if _, isP := c.A[0].V.(*PtrV); isP {
				return f.fork(a, func(v Value) Value {
					na := append([]Value(nil), args...)
					na[i] = v
					return f.svcCall(n, name, m, na)
				})
			}
		}
	}
	var snaps []Value
	for _, a := range args {
		snaps = append(snaps, e.snap(f.cur.st, a))
	}
	ev := e.event(f.cur.st, "svc", name, snaps...)
	t := e.freshTerm("svc." + name)
	t.Args = snaps
	ev.Term = t
	var res *types.Tuple
	if m != nil {
		res = m.Type().(*types.Signature).Results()
	} else {
		unsup("method value of the service")
	}
	failed := False
	nr := res.Len()
	if nr > 0 && isErr(res.At(nr-1).Type()) {
		failed = e.termBool(e.newTerm("FAILS", t), True)
	}
	ev.Err = failed
	// a machine handed in is completed
	for i, a := range args {
		p, ok := a.(*PtrV)
		if !ok || p.Obj < 0 {
			continue
		}
		mt := e.objs[p.Obj].T
		if _, ok := mt.Underlying().(*types.Struct); !ok {
			continue
		}
		for _, fn := range []string{"InitialKey", "CurrentKSN", "TransactionKey"} {
			k := fieldIndex(mt, fn)
			e.storeObj(f.cur.st, p.Obj, appendPath(p.Path, k), tStr(e.newTerm("MADE."+fn, t, constBV(8, uint64(i)))))
		}
	}
	out := make(TupleV, nr)
	for i := 0; i < nr; i++ {
		rt := res.At(i).Type()
		if i == nr-1 && isErr(rt) {
			out[i] = e.choice([]Alt{{failed, &IfaceV{T: e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: e.newTerm("ERR", t)}}}, {Not(failed), nilIface}})
			continue
		}
		rn := e.newTerm("RES"+strconv.Itoa(i), t)
		var v Value
		if sl, ok := rt.Underlying().(*types.Slice); ok {
			if _, ok := sl.Elem().Underlying().(*types.Pointer); ok {
				k := e.htmodel().nlist
				if k == 0 {
					v = nilSlice
				} else {
					arr := make(ArrayV, k)
					for j := range arr {
						arr[j] = e.symOf(f.cur.st, sl.Elem(), e.newTerm("ELEM"+strconv.Itoa(j), rn))
					}
					v = e.newSlice(f.cur.st, rt, arr)
				}
			}
		}
		if v == nil {
			v = e.symOf(f.cur.st, rt, rn)
		}
		out[i] = e.ite(failed, e.zero(rt), v)
	}
	var r Value = out
	if len(out) == 1 {
		r = out[0]
	}
	ev.Res = r
	return r
}

func (f *frame) httpFunc(fn *FuncV, args []Value) (Value, bool) {
	switch fn.N {
	case "noop":
		return TupleV{}, true
	case "cancel":
		f.e.event(f.cur.st, "ctxend", "", fn.NV[0])
		return TupleV{}, true
	case "flag.Usage":
		f.e.event(f.cur.st, "print", "stderr", cStr("usage"))
		return TupleV{}, true
	}
	return nil, false
}

// ctxValue looks a key up in a context chain.
func (f *frame) ctxValue(n *NativeV, k Value) Value {
	e := f.e
	if len(n.V) == 0 {
		return nilIface
	}
	rest := f.fork(n.V[0], func(v Value) Value {
		i, ok := v.(*IfaceV)
		if !ok || i.T == nil {
			return nilIface
		}
		p, ok := i.V.(*NativeV)
		if !ok {
			unsup("context %T", i.V)
		}
		if p.Kind != "ctx" {
			return f.callMethod(i, "Value", []Value{k})
		}
		return f.ctxValue(p, k)
	})
	if f.cur.st.g == False {
		return nilIface
	}
	if len(n.V) < 3 {
		return rest
	}
	return e.ite(f.equal(n.V[1], k, nil), n.V[2], rest)
}

// ---- JSON

const jsonNull = "null"

// json is the JSON text of a value, as a term: objects JSONOBJ(key, present, value, ...), lists JSONLIST.
func (c *Ctx) json(v Value, t types.Type, d int) Value {
	e := c.e
	if d > 16 {
		unsup("JSON text of a deep value")
	}
	if ch, ok := v.(*ChoiceV); ok {
		return e.map1(c.st().g, ch, func(_ Ref, v Value) Value { return c.json(v, t, d+1) })
	}
	null := Value(e.newTerm(jsonNull))
	if _, ok := t.Underlying().(*types.Interface); ok {
		i, ok := v.(*IfaceV)
		if !ok {
			unsup("JSON text of %T", v)
		}
		if i.T == nil {
			return null
		}
		if n, ok := i.V.(*NativeV); ok {
			switch n.Kind {
			case "fmterr":
				return e.newTerm("JSONOBJ")
			case "opaque":
				return e.newTerm("JSONOF", n.T)
			}
			unsup("JSON text of a %s", n.Kind)
		}
		return c.json(i.V, i.T, d+1)
	}
	if t.String() == "time.Time" {
		return e.newTerm("JSONTIME", e.snap(c.st(), v))
	}
	ms := e.W.prog.MethodSets.MethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		switch ms.At(k).Obj().Name() {
		case "MarshalJSON", "MarshalText":
			if p, ok := v.(*PtrV); ok && p.Obj < 0 {
				return null
			}
			if !isRepoPath(ms.At(k).Obj().Pkg().Path()) {
				return e.newTerm("JSONBY:"+t.String(), e.snap(c.st(), v))
			}
			r := c.f.callMethod(&IfaceV{T: t, V: v}, ms.At(k).Obj().Name(), nil)
			if c.st().g == False {
				return null
			}
			return e.newTerm("JSONRAW", e.snap(c.st(), r.(TupleV)[0]))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(*PtrV)
		if !ok {
			unsup("JSON text of %T", v)
		}
		if p.Obj < 0 {
			return null
		}
		return c.json(e.loadObj(c.st(), p.Obj, p.Path), u.Elem(), d+1)
	case *types.Struct:
		s, ok := v.(StructV)
		if !ok {
			unsup("JSON text of %T", v)
		}
		var args []Value
		c.jsonFields(s, u, &args, d)
		return e.newTerm("JSONOBJ", args...)
	case *types.Map:
		m, ok := v.(*MapV)
		if !ok {
			unsup("JSON text of %T", v)
		}
		if m.Obj < 0 {
			return null
		}
		o := c.f.mapObj(m, false)
		if o.Base != nil {
			return e.newTerm("JSONMAP", o.Base)
		}
		type ent struct {
			k string
			p Ref
			v Value
		}
		var es []ent
		for _, en := range o.Ents {
			p := e.b.And(c.st().g, en.P)
			if p == False {
				continue
			}
			ks, ok := c.cstr(en.K)
			if !ok {
				unsup("JSON object with computed keys")
			}
			g := en.P
			if e.b.And(c.st().g, Not(g)) == False {
				g = True
			}
			es = append(es, ent{ks, g, c.json(en.V, u.Elem(), d+1)})
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].k < es[j].k })
		var args []Value
		for _, x := range es {
			args = append(args, cStr(x.k), BoolV(x.p), x.v)
		}
		return e.newTerm("JSONOBJ", args...)
	case *types.Slice:
		s, ok := v.(*SliceV)
		if !ok {
			if n, ok := v.(*NativeV); ok && n.T != nil {
				return e.newTerm("JSONOF", n.T)
			}
			unsup("JSON text of %T", v)
		}
		if s.Obj < 0 {
			return null
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return e.newTerm("JSONBASE64", e.snap(c.st(), s))
		}
		n := c.f.constLen(s.Len, "length of a list")
		var args []Value
		for _, x := range e.elems(c.st(), s, n) {
			args = append(args, c.json(x, u.Elem(), d+1))
		}
		return e.newTerm("JSONLIST", args...)
	case *types.Basic:
		switch x := v.(type) {
		case *Str, BoolV:
			return x
		case *BV:
			return tStr(e.newTerm("NUMBER", c.itoa(x, signed(t), 10)))
		}
	}
	unsup("JSON text of a %s", t)
	return nil
}

func jsonTag(st *types.Struct, i int) (name string, omit, skip bool) {
	tag, ok := reflect.StructTag(st.Tag(i)).Lookup("json")
	name = st.Field(i).Name()
	if !ok {
		return
	}
	if tag == "-" {
		return name, false, true
	}
	p := strings.Split(tag, ",")
	if p[0] != "" {
		name = p[0]
	}
	for _, o := range p[1:] {
		if o == "omitempty" || o == "omitzero" {
			omit = true
		}
		if o == "string" {
			unsup("json string option")
		}
	}
	return
}

func (c *Ctx) jsonFields(s StructV, u *types.Struct, args *[]Value, d int) {
	e := c.e
	for i := range s {
		f := u.Field(i)
		name, omit, skip := jsonTag(u, i)
		if skip {
			continue
		}
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		if f.Embedded() && (tag == "" || strings.HasPrefix(tag, ",")) {
			ft := f.Type()
			fv := s[i]
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				pv, ok := fv.(*PtrV)
				if !ok {
					unsup("JSON text of an embedded pointer")
				}
				if pv.Obj < 0 {
					continue
				}
				ft, fv = p.Elem(), e.loadObj(c.st(), pv.Obj, pv.Path)
			}
			if es, ok := ft.Underlying().(*types.Struct); ok {
				c.jsonFields(fv.(StructV), es, args, d+1)
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		g := True
		if omit {
			g = e.nonEmptyVal(c.st().g, s[i])
		}
		if g == False {
			continue
		}
		*args = append(*args, cStr(name), BoolV(g), c.json(s[i], f.Type(), d+1))
	}
}

// nonEmptyVal: where a value is not the zero value (for omitempty).
func (e *E) nonEmptyVal(g Ref, v Value) Ref {
	r := False
	for _, a := range e.alts(g, v) {
		x := True
		switch y := a.V.(type) {
		case *Str:
			x = Not(e.strEqConst(y, ""))
		case *PtrV:
			x = e.cref(y.Obj >= 0)
		case *SliceV:
			if y.Obj < 0 {
				x = False
			} else {
				x = Not(e.bvEq(y.Len, constBV(64, 0)))
			}
		case *MapV:
			x = e.cref(y.Obj >= 0)
		case *IfaceV:
			x = e.cref(y.T != nil)
		case BoolV:
			x = Ref(y)
		case *BV:
			x = Not(e.bvEq(y, constBV(y.W, 0)))
		}
		r = e.b.Or(r, e.b.And(a.G, x))
	}
	return r
}

// unjson fills a value from JSON text src.
func (c *Ctx) unjson(p *PtrV, t types.Type, src *Term, strict bool) {
	e := c.e
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name, _, skip := jsonTag(u, i)
			if skip {
				continue
			}
			q := &PtrV{Obj: p.Obj, Path: appendPath(p.Path, i)}
			if f.Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
				if _, ok := f.Type().Underlying().(*types.Struct); ok {
					c.unjson(q, f.Type(), src, strict)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			c.unjson(q, f.Type(), e.newTerm("FIELD", src, cStr(strings.ToLower(name))), strict)
		}
	case *types.Basic:
		old := e.loadObj(c.st(), p.Obj, p.Path)
		var v Value
		if s, ok := old.(*Str); ok && s.K == 'c' && s.S == "" {
			v = tStr(src)
		} else {
			v = e.ite(e.termBool(e.newTerm("HAS", src), True), e.symOf(c.st(), t, src), old)
		}
		e.storeObj(c.st(), p.Obj, p.Path, v)
	case *types.Pointer:
		unsup("JSON decoding into a pointer")
	case *types.Map:
		id := e.newObj(c.st(), "local", "json", t, &MapObj{Base: e.newTerm("JSONMAP", src), ET: u.Elem()})
		e.storeObj(c.st(), p.Obj, p.Path, &MapV{Obj: id})
	default:
		e.storeObj(c.st(), p.Obj, p.Path, e.symOf(c.st(), t, src))
	}
}

// decodeInto: v is an interface holding a pointer; the error of decoding.
func (c *Ctx) decodeInto(src *Term, v Value, more ...Value) Value {
	e := c.e
	fails := e.newTerm("FAILS", append([]Value{cStr("JSON"), src}, more...)...)
	g := e.b.Or(e.termBool(fails, True), e.bvEq(e.termLen(src), constBV(64, 0))) // nothing is not JSON
	ev := e.event(c.st(), "decode", "json", src)
	ev.Err = g
	return c.f.fork(v, func(v Value) Value {
		i, ok := v.(*IfaceV)
		if !ok || i.T == nil {
			return c.e.errVal(c.f, cStr("json: Unmarshal(nil)"))
		}
		pt, ok := i.T.Underlying().(*types.Pointer)
		p, ok2 := i.V.(*PtrV)
		if !ok || !ok2 || p.Obj < 0 {
			unsup("JSON decoding into %s", i.T)
		}
		c.unjson(p, pt.Elem(), src, false)
		err := &IfaceV{T: e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: e.newTerm("ERR", fails)}}
		return e.ite(g, err, nilIface)
	})
}

// readBody takes the content of a reader: the request's body once, nothing afterwards.
func (c *Ctx) readBody(r Value) (src *Term, empty Ref, fails Ref) {
	e := c.e
	i, ok := r.(*IfaceV)
	if !ok || i.T == nil {
		unsup("reading %s", show(r))
	}
	n, ok := i.V.(*NativeV)
	if !ok || n.Kind != "body" {
		unsup("reading a %s", i.T)
	}
	empty = Ref(hget(c.st().heap, n.Obj).(BoolV))
	c.st().heap = hset(c.st().heap, n.Obj, BoolV(True))
	return n.T, empty, e.termBool(e.newTerm("FAILS", cStr("READ"), n.T), True)
}

func canonHeader(c *Ctx, k Value) string {
	s, ok := c.cstr(k)
	if !ok {
		unsup("computed header name")
	}
	return textproto.CanonicalMIMEHeaderKey(s)
}

// ---- mux

func (c *Ctx) muxRouterOf(v Value) (*muxRouter, int) {
	p, ok := v.(*PtrV)
	if !ok || p.Obj < 0 {
		unsup("router %s", show(v))
	}
	r := c.e.htmodel().routers[p.Obj]
	if r == nil {
		unsup("router made in another way than NewRouter")
	}
	return r, p.Obj
}

func (c *Ctx) muxRouteOf(v Value) *muxRoute {
	p, ok := v.(*PtrV)
	if !ok || p.Obj < 0 {
		unsup("route %s", show(v))
	}
	r := c.e.htmodel().routes[p.Obj]
	if r == nil {
		unsup("unknown route")
	}
	return r
}

func (c *Ctx) newRoute(router int) Value {
	e := c.e
	t := e.pkgType("github.com/gorilla/mux", "Route")
	id := e.newObj(c.st(), "local", "route", t, e.zero(t))
	h := e.htmodel()
	h.routes[id] = &muxRoute{router: router, g: c.st().g, sub: -1}
	h.routers[router].routes = append(h.routers[router].routes, id)
	return &PtrV{Obj: id}
}

func (c *Ctx) strList(v Value) []string {
	s := v.(*SliceV)
	if s.Obj < 0 {
		return nil
	}
	var out []string
	for _, x := range c.e.elems(c.st(), s, c.f.constLen(s.Len, "number of arguments")) {
		k, ok := c.cstr(x)
		if !ok {
			unsup("computed route")
		}
		out = append(out, k)
	}
	return out
}

// pathMatch: whether path (segments; *Term segments are unknown non-empty texts without slashes) matches a template.
func (c *Ctx) pathMatch(tpl string, prefix bool, segs []Value) (Ref, []MapEnt) {
	e := c.e
	ts := strings.Split(strings.TrimPrefix(tpl, "/"), "/")
	last := ts[len(ts)-1]
	rest := strings.HasSuffix(last, ":.+}") || strings.HasSuffix(last, ":.*}") // takes all segments that are left
	if len(ts) > len(segs) || !prefix && !rest && len(ts) != len(segs) {
		return False, nil
	}
	g := True
	var vars []MapEnt
	for i, s := range ts {
		if strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") {
			name, re, has := strings.Cut(s[1:len(s)-1], ":")
			v := segs[i]
			if has && re != "[^/]+" && re != "[^/]*" {
				rx, err := regexp.Compile("^(?:" + re + ")$")
				if err != nil || strings.Contains(re, "/") {
					unsup("route pattern %s", s)
				}
				if i == len(ts)-1 && rest {
					for _, x := range segs[i+1:] {
						v = e.concat(e.concat(v.(*Str), cStr("/")).(*Str), x.(*Str))
					}
				} else if re == ".+" || re == ".*" {
					unsup("route pattern %s", s)
				}
				if x := v.(*Str); x.K == 'c' {
					if !rx.MatchString(x.S) {
						return False, nil
					}
				} else if re != ".+" && re != ".*" {
					g = e.b.And(g, e.termBool(e.newTerm("MATCHES", cStr(re), x), True))
				}
			}
			if x := v.(*Str); (!has || re == "[^/]+" || re == ".+") && x.K == 'c' && x.S == "" {
				return False, nil
			}
			vars = append(vars, MapEnt{cStr(name), v, True})
			continue
		}
		if strings.ContainsAny(s, "{}") {
			unsup("route pattern %s", s)
		}
		if prefix && i == len(ts)-1 && s == "" {
			continue
		}
		g = e.b.And(g, e.strEqConst(segs[i].(*Str), s))
		if g == False {
			return False, nil
		}
	}
	return g, vars
}

func isStr(v Value) bool { _, ok := v.(*Str); return ok }

func (c *Ctx) muxServe(router int, base string, w, req Value, rest Ref, vars []MapEnt) (left Ref) {
	e, f := c.e, c.f
	h := e.htmodel()
	R := h.routers[router]
	p := req.(*PtrV)
	rt := e.objs[p.Obj].T
	// a method or path that was replaced on some paths only
	mp := appendPath(p.Path, fieldIndex(rt, "Method"))
	if v := e.loadObj(c.st(), p.Obj, mp); !isStr(v) {
		left = False
		f.fork(v, func(v Value) Value {
			e.storeObj(c.st(), p.Obj, mp, v)
			left = e.b.Or(left, c.muxServe(router, base, w, req, e.b.And(rest, c.st().g), vars))
			return nil
		})
		return left
	}
	method := e.loadObj(c.st(), p.Obj, mp).(*Str)
	up := e.loadObj(c.st(), p.Obj, appendPath(p.Path, fieldIndex(rt, "URL"))).(*PtrV)
	ut := e.objs[up.Obj].T
	path := e.loadObj(c.st(), up.Obj, appendPath(up.Path, fieldIndex(ut, "Path"))).(*Str)
	segs := pathSegs(path)
	for _, id := range R.routes {
		r := h.routes[id]
		if r.handler == nil && r.sub < 0 {
			continue
		}
		m := True
		if len(r.methods) > 0 {
			m = False
			for _, x := range r.methods {
				m = e.b.Or(m, e.strEqConst(method, strings.ToUpper(x)))
			}
		}
		g, vs := True, []MapEnt(nil)
		if r.hasPath {
			g, vs = c.pathMatch(base+r.path, r.prefix, segs)
		}
		g = e.b.And(e.b.And(g, m), r.g)
		if e.b.And(e.b.And(c.st().g, rest), g) == False {
			continue
		}
		if r.bad != "" {
			unsup("route matcher %s", r.bad)
		}
		all := append(append([]MapEnt(nil), vars...), vs...)
		take := e.b.And(rest, g)
		if r.sub >= 0 {
			l := c.muxServe(r.sub, base+r.path, w, req, take, all)
			rest = e.b.Or(e.b.And(rest, Not(g)), l)
			continue
		}
		rest = e.b.And(rest, Not(g))
		f.under(take, func() {
			nreq := c.withCtxValue(req, "mux.vars", &NativeV{Kind: "vars", Obj: -1, V: entValues(all)})
			hd := r.handler
			var chain []int
			for x := router; ; {
				chain = append(chain, x)
				up := -1
				for rid, q := range h.routes {
					if q.sub == x {
						up = h.routes[rid].router
					}
				}
				if up < 0 {
					break
				}
				x = up
			}
			for _, x := range chain {
				mw := h.routers[x].mw
				for k := len(mw) - 1; k >= 0; k-- {
					hd = f.callValue(nil, mw[k], []Value{hd}, 0, false)
					if c.st().g == False {
						return
					}
				}
			}
			f.fork(hd, func(v Value) Value {
				i, ok := v.(*IfaceV)
				if !ok || i.T == nil {
					f.panicIf(True, "nil handler", nil)
					return nil
				}
				return f.callMethod(i, "ServeHTTP", []Value{w, nreq})
			})
		})
	}
	return rest
}

func entValues(es []MapEnt) []Value {
	var out []Value
	for _, x := range es {
		out = append(out, x.K, x.V)
	}
	return out
}

func pathSegs(path *Str) []Value {
	parts := []Value{}
	add := func(s string) {
		for _, x := range strings.Split(s, "/") {
			parts = append(parts, cStr(x))
		}
	}
	switch {
	case path.K == 'c':
		add(strings.TrimPrefix(path.S, "/"))
	case path.K == 't' && path.T.Op == "CONCAT":
		first := true
		for _, a := range path.T.Args {
			s := a.(*Str)
			if s.K == 'c' {
				txt := s.S
				if first {
					txt = strings.TrimPrefix(txt, "/")
				}
				segs := strings.Split(txt, "/")
				if !first && len(parts) > 0 {
					segs = segs[1:]
				}
				for _, x := range segs {
					parts = append(parts, cStr(x))
				}
			} else {
				// replaces the empty segment opened by the text before it
				parts[len(parts)-1] = s
			}
			first = false
		}
	default:
		parts = append(parts, path)
	}
	return parts
}

// under runs do where g holds, and joins its state back.
func (f *frame) under(g Ref, do func()) {
	f.fork(f.e.choice2(g), func(v Value) Value {
		if v.(BoolV) == BoolV(True) {
			do()
		}
		return TupleV{}
	})
}

// withCtxValue is a copy of a request with one more context value.
func (c *Ctx) withCtxValue(req Value, k string, v Value) Value {
	ctx := c.reqCtx(req)
	return c.withCtx(req, c.e.iface(&NativeV{Kind: "ctx", Obj: -1, V: []Value{ctx, &IfaceV{T: c.e.nativeType(k), V: StructV{}}, &IfaceV{T: c.e.nativeType("vars"), V: v}}}))
}

func (c *Ctx) reqCtx(req Value) Value {
	e := c.e
	p := req.(*PtrV)
	if p.Obj < 0 {
		c.f.panicIf(True, "nil request", nil)
		return nilIface
	}
	k := fieldIndex(e.objs[p.Obj].T, "ctx")
	v := e.loadObj(c.st(), p.Obj, appendPath(p.Path, k))
	if i, ok := v.(*IfaceV); ok && i.T == nil {
		return e.bgctx()
	}
	return v
}

func (e *E) bgctx() Value { return e.iface(&NativeV{Kind: "ctx", Obj: -1}) }

func (c *Ctx) withCtx(req, ctx Value) Value {
	e := c.e
	p := req.(*PtrV)
	s := e.loadObj(c.st(), p.Obj, p.Path).(StructV)
	n := append(StructV(nil), s...)
	t := e.objs[p.Obj].T
	n[fieldIndex(t, "ctx")] = ctx
	return &PtrV{Obj: e.newObj(c.st(), "local", "request", t, n)}
}

func init() {
	nativeMethods["ctx"] = []string{"Deadline", "Done", "Err", "Value"}
	nativeMethods["rtype"] = []string{"Field", "NumField", "Name", "Kind", "String", "Elem"}
	const mx = "github.com/gorilla/mux."
	reg(mx+"NewRouter", func(c *Ctx, a []Value) Value {
		t := c.e.pkgType("github.com/gorilla/mux", "Router")
		id := c.e.newObj(c.st(), "local", "router", t, c.e.zero(t))
		c.e.htmodel().routers[id] = &muxRouter{}
		return &PtrV{Obj: id}
	})
	rt := "(*" + mx + "Router)."
	ro := "(*" + mx + "Route)."
	reg(rt+"NewRoute", func(c *Ctx, a []Value) Value { _, id := c.muxRouterOf(a[0]); return c.newRoute(id) })
	for _, n := range []string{"StrictSlash", "SkipClean"} {
		reg(rt+n, func(c *Ctx, a []Value) Value { return a[0] })
	}
	reg(rt+"UseEncodedPath", func(c *Ctx, a []Value) Value { r, _ := c.muxRouterOf(a[0]); r.encoded = true; return a[0] })
	reg(rt+"Use", func(c *Ctx, a []Value) Value {
		r, _ := c.muxRouterOf(a[0])
		s := a[1].(*SliceV)
		if c.st().g != True {
			unsup("conditional middleware")
		}
		r.mw = append(r.mw, c.e.elems(c.st(), s, c.f.constLen(s.Len, "number of arguments"))...)
		return TupleV{}
	})
	set := map[string]func(c *Ctx, r *muxRoute, a []Value){
		"Methods":    func(c *Ctx, r *muxRoute, a []Value) { r.methods = c.strList(a[0]) },
		"Path":       func(c *Ctx, r *muxRoute, a []Value) { c.setPath(r, a[0], false) },
		"PathPrefix": func(c *Ctx, r *muxRoute, a []Value) { c.setPath(r, a[0], true) },
		"Handler":    func(c *Ctx, r *muxRoute, a []Value) { r.handler = a[0] },
		"HandlerFunc": func(c *Ctx, r *muxRoute, a []Value) {
			r.handler = &IfaceV{T: c.e.pkgType("net/http", "HandlerFunc"), V: a[0]}
		},
		"Name":        func(c *Ctx, r *muxRoute, a []Value) {},
		"Headers":     func(c *Ctx, r *muxRoute, a []Value) { r.bad = "Headers" },
		"Queries":     func(c *Ctx, r *muxRoute, a []Value) { r.bad = "Queries" },
		"Schemes":     func(c *Ctx, r *muxRoute, a []Value) { r.bad = "Schemes" },
		"Host":        func(c *Ctx, r *muxRoute, a []Value) { r.bad = "Host" },
		"MatcherFunc": func(c *Ctx, r *muxRoute, a []Value) { r.bad = "MatcherFunc" },
	}
	for n, fn := range set {
		fn := fn
		reg(ro+n, func(c *Ctx, a []Value) Value { fn(c, c.muxRouteOf(a[0]), a[1:]); return a[0] })
		if n == "Handler" || n == "HandlerFunc" {
			continue
		}
		reg(rt+n, func(c *Ctx, a []Value) Value {
			_, id := c.muxRouterOf(a[0])
			r := c.newRoute(id)
			fn(c, c.muxRouteOf(r), a[1:])
			return r
		})
	}
	reg(rt+"Handle", func(c *Ctx, a []Value) Value {
		_, id := c.muxRouterOf(a[0])
		r := c.newRoute(id)
		c.setPath(c.muxRouteOf(r), a[1], false)
		c.muxRouteOf(r).handler = a[2]
		return r
	})
	reg(rt+"HandleFunc", func(c *Ctx, a []Value) Value {
		_, id := c.muxRouterOf(a[0])
		r := c.newRoute(id)
		c.setPath(c.muxRouteOf(r), a[1], false)
		c.muxRouteOf(r).handler = &IfaceV{T: c.e.pkgType("net/http", "HandlerFunc"), V: a[2]}
		return r
	})
	reg(ro+"Subrouter", func(c *Ctx, a []Value) Value {
		r := c.muxRouteOf(a[0])
		t := c.e.pkgType("github.com/gorilla/mux", "Router")
		id := c.e.newObj(c.st(), "local", "router", t, c.e.zero(t))
		c.e.htmodel().routers[id] = &muxRouter{}
		r.sub = id
		return &PtrV{Obj: id}
	})
	reg(ro+"GetError", func(c *Ctx, a []Value) Value { return nilIface })
	reg(rt+"ServeHTTP", func(c *Ctx, a []Value) Value {
		_, id := c.muxRouterOf(a[0])
		left := c.muxServe(id, "", a[1], a[2], True, nil)
		if c.e.b.And(c.st().g, left) != False {
			c.f.under(left, func() {
				c.e.event(c.st(), "unrouted", "")
				c.f.callMethod(a[1].(*IfaceV), "WriteHeader", []Value{constBV(64, 404)})
			})
		}
		return TupleV{}
	})
	reg(mx+"Vars", func(c *Ctx, a []Value) Value {
		e := c.e
		mt := types.NewMap(types.Typ[types.String], types.Typ[types.String])
		v := c.f.fork(c.reqCtx(a[0]), func(v Value) Value {
			i := v.(*IfaceV)
			return c.f.callMethod(i, "Value", []Value{&IfaceV{T: e.nativeType("mux.vars"), V: StructV{}}})
		})
		if c.st().g == False {
			return nilMap
		}
		return c.f.fork(v, func(v Value) Value {
			i := v.(*IfaceV)
			if i.T == nil {
				return nilMap
			}
			o := &MapObj{ET: types.Typ[types.String]}
			vs := i.V.(*NativeV).V
			for k := 0; k < len(vs); k += 2 {
				o.Ents = append(o.Ents, MapEnt{vs[k], vs[k+1], True})
			}
			return &MapV{Obj: e.newObj(c.st(), "local", "vars", mt, o)}
		})
	})
	// net/http
	reg("(net/http.HandlerFunc).ServeHTTP", func(c *Ctx, a []Value) Value { return c.f.callValue(nil, a[0], a[1:], 0, false) })
	reg("(*net/http.Request).Context", func(c *Ctx, a []Value) Value { return c.reqCtx(a[0]) })
	reg("(*net/http.Request).WithContext", func(c *Ctx, a []Value) Value { return c.withCtx(a[0], a[1]) })
	reg("(*net/http.Request).Clone", func(c *Ctx, a []Value) Value { return c.withCtx(a[0], a[1]) })
	reg("(net/http.Header).Get", func(c *Ctx, a []Value) Value {
		k := canonHeader(c, a[1])
		m := a[0].(*MapV)
		if m.Obj < 0 {
			return cStr("")
		}
		if o := c.f.mapObj(m, false); o.Base != nil {
			return tStr(c.e.newTerm("HEADER", o.Base, cStr(k)))
		}
		v, _ := c.f.mapGet(m, cStr(k), strSlice)
		return c.e.map1(c.st().g, v, func(_ Ref, v Value) Value {
			s := v.(*SliceV)
			if s.Obj < 0 || c.f.constLen(s.Len, "header values") == 0 {
				return cStr("")
			}
			return c.e.elems(c.st(), s, 1)[0]
		})
	})
	reg("(net/http.Header).Set", func(c *Ctx, a []Value) Value {
		c.f.mapUpdate(a[0].(*MapV), cStr(canonHeader(c, a[1])), c.e.newSlice(c.st(), strSlice, ArrayV{a[2]}))
		return TupleV{}
	})
	reg("(net/http.Header).Add", func(c *Ctx, a []Value) Value {
		k := cStr(canonHeader(c, a[1]))
		old, _ := c.f.mapGet(a[0].(*MapV), k, strSlice)
		nv := c.e.map1(c.st().g, old, func(_ Ref, v Value) Value {
			s := v.(*SliceV)
			var l []Value
			if s.Obj >= 0 {
				l = c.e.elems(c.st(), s, c.f.constLen(s.Len, "header values"))
			}
			return c.e.newSlice(c.st(), strSlice, append(append(ArrayV{}, l...), a[2]))
		})
		c.f.mapUpdate(a[0].(*MapV), k, nv)
		return TupleV{}
	})
	reg("(net/http.Header).Del", func(c *Ctx, a []Value) Value {
		c.f.mapDelete(a[0].(*MapV), cStr(canonHeader(c, a[1])))
		return TupleV{}
	})
	reg("net/http.Error", func(c *Ctx, a []Value) Value {
		i := a[0].(*IfaceV)
		h := c.f.callMethod(i, "Header", nil).(*MapV)
		c.f.mapUpdate(h, cStr("Content-Type"), c.e.newSlice(c.st(), strSlice, ArrayV{cStr("text/plain; charset=utf-8")}))
		c.f.callMethod(i, "WriteHeader", []Value{a[2]})
		return c.f.writeTo(i, c.catV(a[1], cStr("\n")))
	})
	reg("net/http.StatusText", func(c *Ctx, a []Value) Value { return tStr(c.e.newTerm("STATUSTEXT", a[0])) })
	reg("net/http.MaxBytesReader", func(c *Ctx, a []Value) Value { return a[1] })
	reg("net/http.NotFoundHandler", func(c *Ctx, a []Value) Value { unsup("NotFoundHandler"); return nil })
	// contexts
	reg("context.Background", func(c *Ctx, a []Value) Value { return c.e.bgctx() })
	reg("context.TODO", func(c *Ctx, a []Value) Value { return c.e.bgctx() })
	reg("context.WithValue", func(c *Ctx, a []Value) Value {
		return c.e.iface(&NativeV{Kind: "ctx", Obj: -1, V: []Value{a[0], a[1], a[2]}})
	})
	for _, n := range []string{"WithTimeout", "WithCancel", "WithDeadline"} {
		reg("context."+n, func(c *Ctx, a []Value) Value {
			ctx := c.e.iface(&NativeV{Kind: "ctx", Obj: -1, T: c.e.freshTerm("CTX"), V: []Value{a[0]}})
			if bv, ok := a[len(a)-1].(*BV); ok && n == "WithTimeout" && bv.C && int64(bv.V) <= 0 {
				c.e.event(c.st(), "ctxend", "", ctx)
			}
			return TupleV{ctx, &FuncV{N: "cancel", NV: []Value{ctx}}}
		})
	}
	reg("os/signal.NotifyContext", func(c *Ctx, a []Value) Value {
		ch := &ChanV{Obj: c.e.newObj(c.st(), "local", "chan", types.NewChan(types.RecvOnly, types.NewStruct(nil, nil)), StructV{})}
		c.e.event(c.st(), "call", "os/signal.NotifyContext", ch, c.e.snap(c.st(), a[1]))
		ctx := c.e.iface(&NativeV{Kind: "ctx", Obj: -1, T: c.e.freshTerm("CTX"), V: []Value{a[0], ch}})
		return TupleV{ctx, &FuncV{N: "cancel", NV: []Value{ctx}}}
	})
	// encoding/json
	reg("encoding/json.NewEncoder", func(c *Ctx, a []Value) Value { return &NativeV{Kind: "jsonenc", Obj: -1, V: []Value{a[0]}} })
	reg("(*encoding/json.Encoder).SetIndent", func(c *Ctx, a []Value) Value { return TupleV{} })
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(c *Ctx, a []Value) Value { return TupleV{} })
	reg("(*encoding/json.Encoder).Encode", func(c *Ctx, a []Value) Value {
		j := c.json(a[1], anyType, 0)
		return c.f.fork(j, func(j Value) Value {
			r := c.f.writeTo(a[0].(*NativeV).V[0], tStr(c.e.newTerm("JSONTEXT", j)))
			if t, ok := r.(TupleV); ok {
				return t[1]
			}
			return nilIface
		})
	})
	marshal := func(c *Ctx, a []Value) Value {
		j := c.json(a[0], anyType, 0)
		return c.f.fork(j, func(j Value) Value {
			return TupleV{c.e.symBytes(c.st(), c.e.newTerm("BYTES", tStr(c.e.newTerm("JSONTEXT", j)))), nilIface}
		})
	}
	reg("encoding/json.Marshal", marshal)
	reg("encoding/json.MarshalIndent", marshal)
	reg("encoding/json.NewDecoder", func(c *Ctx, a []Value) Value { return &NativeV{Kind: "jsondec", Obj: -1, V: []Value{a[0]}} })
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(c *Ctx, a []Value) Value { return TupleV{} })
	reg("(*encoding/json.Decoder).UseNumber", func(c *Ctx, a []Value) Value { return TupleV{} })
	unmarshal := func(c *Ctx, a []Value) Value {
		return c.f.fork(a[0], func(v Value) Value {
			s, ok := v.(*SliceV)
			if !ok {
				unsup("JSON decoding of %T", v)
			}
			if s.Obj < 0 {
				return c.noBody()
			}
			src := c.e.fullTerm(c.st(), s)
			if src == nil {
				unsup("JSON decoding of computed text")
			}
			return c.decodeInto(src, a[1])
		})
	}
	regRaw("encoding/json.Unmarshal", unmarshal)
	regRaw("(*encoding/json.Decoder).Decode", func(c *Ctx, a []Value) Value {
		if b, ok := c.readerContent(a[0].(*NativeV).V[0]); ok {
			return unmarshal(c, []Value{b, a[1]})
		}
		src, empty, _ := c.readBody(a[0].(*NativeV).V[0])
		return c.f.fork(c.e.choice2(empty), func(v Value) Value {
			if v.(BoolV) == BoolV(True) {
				return c.noBody()
			}
			return c.decodeInto(src, a[1])
		})
	})
	regRaw("encoding/json.Valid", func(c *Ctx, a []Value) Value {
		return c.f.fork(a[0], func(v Value) Value {
			s, ok := v.(*SliceV)
			if !ok {
				unsup("JSON validation of %T", v)
			}
			if s.Obj < 0 {
				return BoolV(False)
			}
			src := c.e.fullTerm(c.st(), s)
			if src == nil {
				unsup("JSON validation of computed text")
			}
			bad := c.e.b.Or(c.e.termBool(c.e.newTerm("FAILS", cStr("JSON"), src), True), c.e.bvEq(c.e.termLen(src), constBV(64, 0)))
			// text that is not JSON fails to decode, wherever that is tried
			c.e.event(c.st(), "decode", "valid", src).Err = bad
			return BoolV(Not(bad))
		})
	})
	readAll := func(c *Ctx, a []Value) Value {
		src, empty, fails := c.readBody(a[0])
		return c.f.fork(c.e.choice2(empty), func(v Value) Value {
			if v.(BoolV) == BoolV(True) {
				return TupleV{nilSlice, nilIface}
			}
			ev := c.e.event(c.st(), "decode", "read", src)
			ev.Err = fails
			err := &IfaceV{T: c.e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: c.e.newTerm("ERR", c.e.newTerm("READ", src))}}
			return TupleV{c.e.symBytes(c.st(), src), c.e.ite(fails, err, nilIface)}
		})
	}
	reg("io.ReadAll", readAll)
	reg("io/ioutil.ReadAll", readAll)
	reg("io.LimitReader", func(c *Ctx, a []Value) Value { return a[0] })
	reg("io.NopCloser", func(c *Ctx, a []Value) Value { return a[0] })
	// reflect
	reg("reflect.ValueOf", func(c *Ctx, a []Value) Value { return &NativeV{Kind: "rvalue", Obj: -1, V: []Value{a[0]}} })
	reg("reflect.TypeOf", func(c *Ctx, a []Value) Value {
		if a[0].(*IfaceV).T == nil {
			return nilIface
		}
		return c.e.rtype(a[0].(*IfaceV).T)
	})
	rv := func(n string, f func(c *Ctx, i *IfaceV, a []Value) Value) {
		reg("(reflect.Value)."+n, func(c *Ctx, a []Value) Value {
			nv, ok := a[0].(*NativeV)
			if !ok || nv.Kind != "rvalue" {
				unsup("reflect.Value")
			}
			return c.f.fork(nv.V[0], func(v Value) Value { return f(c, v.(*IfaceV), a[1:]) })
		})
	}
	mk := func(t types.Type, v Value) Value {
		return &NativeV{Kind: "rvalue", Obj: -1, V: []Value{&IfaceV{T: t, V: v}}}
	}
	rv("NumField", func(c *Ctx, i *IfaceV, a []Value) Value {
		if i.T == nil {
			c.f.panicIf(True, "reflect: NumField of zero Value", nil)
			return nil
		}
		st, ok := i.T.Underlying().(*types.Struct)
		if !ok {
			c.f.panicIf(True, "reflect: NumField of non-struct type", nil)
			return nil
		}
		return constBV(64, uint64(st.NumFields()))
	})
	rv("Type", func(c *Ctx, i *IfaceV, a []Value) Value { return c.e.rtype(i.T) })
	rv("Kind", func(c *Ctx, i *IfaceV, a []Value) Value {
		if i.T == nil {
			return constBV(64, 0)
		}
		return constBV(64, uint64(kindOf(i.T)))
	})
	rv("Field", func(c *Ctx, i *IfaceV, a []Value) Value {
		st, ok := i.T.Underlying().(*types.Struct)
		if !ok {
			c.f.panicIf(True, "reflect: Field of non-struct type", nil)
			return nil
		}
		k := c.f.constLen(a[0].(*BV), "field number")
		if k < 0 || k >= st.NumFields() {
			c.f.panicIf(True, "reflect: Field index out of range", nil)
			return nil
		}
		return &NativeV{Kind: "rvalue", Obj: -1, V: []Value{&IfaceV{T: st.Field(k).Type(), V: i.V.(StructV)[k]}, c.e.cbool(st.Field(k).Exported())}}
	})
	rv("CanInterface", func(c *Ctx, i *IfaceV, a []Value) Value { return BoolV(True) })
	reg("(reflect.Value).Interface", func(c *Ctx, a []Value) Value {
		nv := a[0].(*NativeV)
		if len(nv.V) > 1 && nv.V[1].(BoolV) == BoolV(False) {
			c.f.panicIf(True, "reflect: Interface of an unexported field", nil)
			return nil
		}
		i := nv.V[0].(*IfaceV)
		if i.T != nil && types.IsInterface(i.T) {
			return i.V
		}
		return i
	})
	rv("IsNil", func(c *Ctx, i *IfaceV, a []Value) Value {
		return BoolV(Not(c.e.nonEmptyVal(c.st().g, i.V)))
	})
	rv("IsZero", func(c *Ctx, i *IfaceV, a []Value) Value {
		return BoolV(Not(c.e.nonEmptyVal(c.st().g, i.V)))
	})
	rv("String", func(c *Ctx, i *IfaceV, a []Value) Value {
		if s, ok := i.V.(*Str); ok {
			return s
		}
		unsup("reflect string of %s", i.T)
		return nil
	})
	rv("Elem", func(c *Ctx, i *IfaceV, a []Value) Value {
		if pt, ok := i.T.Underlying().(*types.Pointer); ok {
			if p, ok := i.V.(*PtrV); ok && p.Obj >= 0 {
				return mk(pt.Elem(), c.e.loadObj(c.st(), p.Obj, p.Path))
			}
		}
		if types.IsInterface(i.T) {
			if x, ok := i.V.(*IfaceV); ok {
				return &NativeV{Kind: "rvalue", Obj: -1, V: []Value{x}}
			}
		}
		unsup("reflect element of %s", i.T)
		return nil
	})
	reg("(reflect.StructTag).Get", func(c *Ctx, a []Value) Value {
		t, ok1 := c.cstr(a[0])
		k, ok2 := c.cstr(a[1])
		if !ok1 || !ok2 {
			unsup("computed struct tag")
		}
		return cStr(reflect.StructTag(t).Get(k))
	})
}

func (c *Ctx) noBody() Value {
	ev := c.e.event(c.st(), "decode", "json")
	ev.Err = True
	return c.e.errVal(c.f, cStr("unexpected end of JSON input"))
}

func (c *Ctx) setPath(r *muxRoute, v Value, prefix bool) {
	s, ok := c.cstr(v)
	if !ok {
		unsup("computed route")
	}
	if r.hasPath && r.path != "" {
		s = r.path + s
	}
	r.path, r.hasPath, r.prefix = s, true, prefix
}

var strSlice types.Type = types.NewSlice(types.Typ[types.String])
var anyType types.Type = types.Universe.Lookup("any").Type()
