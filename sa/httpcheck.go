package main

// Checks of the HTTP interface: P26 and P27.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hroute is a documented route: the service operation it names, where its arguments come from
// ("ik" is the path variable, anything else a field of the JSON body) and its result field.
type hroute struct {
	method, path string
	op           string
	args         []string
	result       string
	nlist        int
}

func (h hroute) String() string {
	s := h.method + " " + h.path
	if h.op == "GetMachines" {
		s += fmt.Sprintf(", %d machines", h.nlist)
	}
	return s
}

// body: the operation has parameters in the JSON body.
func (h hroute) body() bool { return h.op == "CreateMachine" || len(h.args) > 1 }

var hroutes = []hroute{
	{"GET", "/machines", "GetMachines", nil, "machines", 0},
	{"GET", "/machines", "GetMachines", nil, "machines", 1},
	{"GET", "/machines", "GetMachines", nil, "machines", 3},
	{"GET", "/machine/", "GetMachine", []string{"ik"}, "machine", 0},
	{"POST", "/machine", "CreateMachine", nil, "machine", 0},
	{"POST", "/generate_ksn/", "MakeNextKSN", []string{"ik"}, "ksn", 0},
	{"POST", "/encrypt_pin/", "EncryptPin", []string{"ik", "pin", "pan", "format"}, "encrypted", 0},
	{"POST", "/decrypt_pin/", "DecryptPin", []string{"ik", "encrypted", "pan", "format"}, "decrypted", 0},
	{"POST", "/generate_mac/", "GenerateMac", []string{"ik", "data", "action", "mactype"}, "generated", 0},
	{"POST", "/encrypt_data/", "EncryptData", []string{"ik", "data", "action", "iv"}, "encrypted", 0},
	{"POST", "/decrypt_data/", "DecryptData", []string{"ik", "data", "action", "iv"}, "data", 0},
}

// hres is the answer to a request.
type hres struct {
	t       *T
	e       *E
	fn      *ssa.Function
	st      *State // after the handler returned
	pan     Ref
	g       Ref // where the handler returned
	ev      []*Event
	status  Value // effective status
	body    Value // text written
	bodies  Ref   // where more than one body was written
	written Ref
	hdr     Value // headers in force
	cx      *Ctx
	body0   *Term
	ik      Value
}

func (r *hres) where() string { return r.t.W.pos(r.fn.Pos()) + " " + shortFn(r.fn) }

// serve interprets the handler on a request.
func (t *T) serve(method, path Value, nlist int, prep func(e *E) Ref) *hres {
	fn := t.W.fn(pSrv, "MakeHTTPHandler")
	if fn == nil {
		unsup("function server.MakeHTTPHandler not found")
	}
	st := t.fresh(pSrv)
	e := t.e
	if prep != nil {
		st.g = e.b.And(st.g, prep(e))
	}
	h := e.htmodel()
	h.nlist = nlist
	svcI := e.iface(&NativeV{Kind: "svc", Obj: -1, T: e.newTerm("SERVICE")})
	var args []Value
	for _, p := range fn.Params {
		if it, ok := p.Type().Underlying().(*types.Interface); ok {
			is := false
			for i := 0; i < it.NumMethods(); i++ {
				is = is || it.Method(i).Name() == "MakeNextKSN"
			}
			if is {
				args = append(args, svcI)
				continue
			}
		}
		args = append(args, e.symOf(st, p.Type(), e.newTerm(p.Name())))
	}
	x := t.invoke(fn, args, st)
	hd := t.ifaceResult(x)
	st = x.st
	if t.prior != nil {
		st = t.serveFirst(hd, st)
	}
	// the request
	mark := len(e.objs)
	body := e.newTerm("BODY")
	reqp := t.request(st, method, path, "REQUEST", body)
	h.hdr = e.newObj(st, "param", "response header", e.pkgType("net/http", "Header"), &MapObj{ET: strSlice})
	w := e.iface(&NativeV{Kind: "rw", Obj: -1})
	n0 := len(e.Events)
	f := &frame{e: e, fn: fn, cur: &fstate{st: st.clone()}}
	e.stack = append(e.stack, fn)
	if t.watch {
		accs, stop := t.watchShared(mark)
		defer func() { t.shared = *accs }()
		defer stop()
	}
	f.callMethod(hd, "ServeHTTP", []Value{w, reqp})
	e.stack = e.stack[:len(e.stack)-1]
	r := &hres{t: t, e: e, fn: fn, st: f.cur.st, g: f.cur.st.g, pan: False, ev: e.Events[n0:], bodies: False, body0: body}
	if f.pan != nil {
		r.pan = f.pan.st.g
	}
	r.cx = &Ctx{f: &frame{e: e, fn: fn, cur: &fstate{st: r.st.clone()}}, e: e, fn: fn}
	// the answer that results from what was written
	status := Value(constBV(64, 200))
	txt := Value(cStr(""))
	var hdr Value = &MapObj{}
	wrote, sent := False, False
	for _, ev := range r.ev {
		switch ev.Kind {
		case "status", "body":
			first := e.b.And(ev.G, Not(sent))
			if first != False {
				code := Value(constBV(64, 200))
				if ev.Kind == "status" {
					code = ev.Args[0]
				}
				status = e.ite(first, code, status)
				hdr = e.choice(append([]Alt{{first, ev.Args[1]}}, e.alts(Not(first), hdr)...))
				sent = e.b.Or(sent, ev.G)
			}
			if ev.Kind == "body" {
				r.bodies = e.b.Or(r.bodies, e.b.And(ev.G, wrote))
				wrote = e.b.Or(wrote, ev.G)
				txt = e.map2(True, txt, e.ite(ev.G, ev.Args[0], cStr("")), func(_ Ref, x, y Value) Value { return e.concat(x.(*Str), y.(*Str)) })
			}
		}
	}
	if Not(sent) != False {
		last := e.snap(r.st, &MapV{Obj: h.hdr})
		hdr = e.choice(append([]Alt{{Not(sent), last}}, e.alts(sent, hdr)...))
	}
	r.status, r.body, r.hdr, r.written = status, txt, hdr, wrote
	return r
}

// request makes a request; the names of its headers' and its body's terms are given.
func (t *T) request(st *State, method, path Value, name string, body *Term) *PtrV {
	e := t.e
	rt, ut := e.pkgType("net/http", "Request"), e.pkgType("net/url", "URL")
	req := e.zero(rt).(StructV)
	url := e.zero(ut).(StructV)
	url[fieldIndex(ut, "Path")] = path
	req[fieldIndex(rt, "Method")] = method
	req[fieldIndex(rt, "URL")] = &PtrV{Obj: e.newObj(st, "param", "url", ut, url)}
	req[fieldIndex(rt, "Header")] = &MapV{Obj: e.newObj(st, "param", "request header", e.pkgType("net/http", "Header"), &MapObj{Base: e.newTerm(name), ET: strSlice})}
	bid := e.newObj(st, "param", "body", types.Typ[types.Bool], BoolV(False))
	req[fieldIndex(rt, "Body")] = e.iface(&NativeV{Kind: "body", Obj: bid, T: body})
	return &PtrV{Obj: e.newObj(st, "param", "request", rt, req)}
}

// serveFirst has the handler answer the request t.prior, which came before; its answer is of no interest.
func (t *T) serveFirst(hd *IfaceV, st *State) *State {
	e := t.e
	p := t.prior
	path := cStr(p.path)
	if strings.HasSuffix(p.path, "/") {
		ik := tStr(e.newTerm("IK0"))
		path = e.concat(path, ik).(*Str)
		st.g = e.b.And(st.g, Not(e.strEqConst(ik, "")))
	}
	req := t.request(st, cStr(p.method), path, "REQUEST0", e.newTerm("BODY0"))
	e.htmodel().hdr = e.newObj(st, "param", "response header", e.pkgType("net/http", "Header"), &MapObj{ET: strSlice})
	fn := t.W.fn(pSrv, "MakeHTTPHandler")
	f := &frame{e: e, fn: fn, cur: &fstate{st: st.clone()}}
	e.stack = append(e.stack, fn)
	f.callMethod(hd, "ServeHTTP", []Value{e.iface(&NativeV{Kind: "rw", Obj: -1}), req})
	e.stack = e.stack[:len(e.stack)-1]
	return f.cur.st.clone()
}

// afterOther runs a check of a route's requests once more after every kind of other request.
func (r *Run) afterOther(f func(t *T, h hroute)) {
	all := append([]hroute{{"OPTIONS", "/machine/", "", nil, "", 0}, {"GET", "/ping", "", nil, "", 0}, {"DELETE", "/machine/", "", nil, "", 0}}, hroutes...)
	for _, h := range hroutes {
		for _, p := range all {
			if p.op == "GetMachines" && p.nlist != 1 || h.op == "GetMachines" && h.nlist != 1 {
				continue
			}
			h, p := h, p
			r.task(h.String()+" after "+p.method+" "+p.path, func(t *T) {
				t.prior = &p
				f(t, h)
			})
		}
	}
}

// jsonBody views a text as a JSON value (nil if it is none).
func jsonBody(v Value) Value {
	s, ok := v.(*Str)
	if !ok || s.K != 't' {
		return nil
	}
	tm := s.T
	if tm.Op == "CONCAT" {
		for i, a := range tm.Args {
			x := a.(*Str)
			if i == 0 {
				if x.K != 't' {
					return nil
				}
				tm = x.T
				continue
			}
			if x.K != 'c' || strings.TrimSpace(x.S) != "" {
				return nil
			}
		}
	}
	if tm.Op != "JSONTEXT" {
		return nil
	}
	return tm.Args[0]
}

// eachJSON calls f with every JSON object the body can be within g, and the rest.
func (r *hres) eachJSON(g Ref, f func(g Ref, obj *Term)) (other Ref) {
	e := r.e
	other = False
	for _, a := range e.alts(g, r.body) {
		j := jsonBody(a.V)
		if j == nil {
			other = e.b.Or(other, a.G)
			continue
		}
		for _, b := range e.alts(a.G, j) {
			o, ok := b.V.(*Term)
			if !ok || o.Op != "JSONOBJ" {
				other = e.b.Or(other, b.G)
				continue
			}
			f(b.G, o)
		}
	}
	return other
}

// field of a JSON object, null where it is absent.
func (r *hres) field(g Ref, o *Term, name string) Value {
	e := r.e
	var v Value = e.newTerm(jsonNull)
	for i := 0; i+2 < len(o.Args); i += 3 {
		if o.Args[i].(*Str).S == name {
			v = e.ite(Ref(o.Args[i+1].(BoolV)), o.Args[i+2], v)
		}
	}
	return v
}

// holds: where a JSON value is something other than null, "" and an empty list.
func (r *hres) holds(g Ref, v Value) Ref {
	e := r.e
	out := False
	for _, a := range e.alts(g, v) {
		switch x := a.V.(type) {
		case *Term:
			if x.Op == jsonNull || x.Op == "JSONLIST" && len(x.Args) == 0 {
				continue
			}
			if x.Op == "JSONOBJ" {
				for i := 0; i+2 < len(x.Args); i += 3 {
					out = e.b.Or(out, r.holds(e.b.And(a.G, Ref(x.Args[i+1].(BoolV))), x.Args[i+2]))
				}
				continue
			}
			out = e.b.Or(out, a.G)
		case *Str:
			out = e.b.Or(out, e.b.And(a.G, Not(e.strEqConst(x, ""))))
		case BoolV:
			out = e.b.Or(out, e.b.And(a.G, Ref(x)))
		default:
			out = e.b.Or(out, a.G)
		}
	}
	return out
}

func (t *T) route(h hroute) *hres {
	var ik Value
	hasIK := strings.HasSuffix(h.path, "/")
	var path Value = cStr(h.path)
	var r *hres
	r = t.serve(cStr(h.method), path, h.nlist, func(e *E) Ref { return True })
	if !hasIK {
		return r
	}
	r = t.serveIK(h)
	_ = ik
	return r
}

func (t *T) serveIK(h hroute) *hres {
	// the path variable is any text without slashes, but not an empty one
	var ik *Str
	var r *hres
	path := &Str{}
	r = t.serve(cStr(h.method), path, h.nlist, func(e *E) Ref {
		tm := e.newTerm("IK")
		ik = tStr(tm)
		*path = *(e.concat(cStr(h.path), ik).(*Str))
		return Not(e.strEqConst(ik, ""))
	})
	r.ik = ik
	return r
}

// arg is the value an argument of the operation must have.
func (r *hres) arg(name string) Value {
	if name == "ik" {
		return r.ik
	}
	return tStr(r.e.newTerm("FIELD", r.body0, cStr(name)))
}

// decodeFails: where the request could not be decoded.
func (r *hres) decodeFails() Ref {
	g := False
	for _, ev := range r.ev {
		if ev.Kind == "decode" {
			g = r.e.b.Or(g, r.e.b.And(ev.G, ev.Err))
		}
	}
	return g
}

// noBody: where there is no body that could be decoded, whether the code tries or not.
func (r *hres) noBody(h hroute) Ref {
	if !h.body() {
		return False
	}
	e := r.e
	return e.b.Or(e.bvEq(e.termLen(r.body0), constBV(64, 0)), e.termBool(e.newTerm("FAILS", cStr("READ"), r.body0), True))
}

func (r *hres) calls() (evs []*Event) {
	for _, ev := range r.ev {
		if ev.Kind == "svc" {
			evs = append(evs, ev)
		}
	}
	return
}

func evWhere(ev *Event) string { return ev.Pos + " " + shortName(ev.Fn) }

func (r *hres) jsonOf(v Value, t types.Type) Value {
	r.cx.f.cur.st = r.st.clone()
	return r.cx.json(v, t, 0)
}

var mutating = map[string]bool{"CreateMachine": true, "DeleteMachine": true, "MakeNextKSN": true}

func (r *Run) httpTasks() {
	for _, h := range hroutes {
		h := h
		r.task(h.String(), func(t *T) { t.checkRoute(h) })
	}
	r.task("GET /ping", func(t *T) {
		x := t.serve(cStr("GET"), cStr("/ping"), 0, nil)
		e := t.e
		t.never("ping", Not(x.g), x.where(), "GET /ping is not answered")
		t.never("ping", e.differ(x.g, x.status, constBV(64, 200)), x.where(), "GET /ping is not answered with status 200")
		t.never("ping", e.differ(x.g, x.body, cStr("PONG")), x.where(), "GET /ping is not answered with PONG")
		for _, ev := range x.calls() {
			t.never("ping", ev.G, evWhere(ev), "GET /ping calls "+ev.Name)
		}
	})
	for _, p := range append(probes("GET", "HEAD", "OPTIONS", "POST"), probes("")...) {
		p := p
		r.task(p.String(), func(t *T) { t.checkOutside(p) })
	}
	// requests of methods that promise to change nothing
	for _, m := range []string{"GET", "HEAD", "OPTIONS"} {
		for _, h := range hroutes {
			if h.nlist != 0 || m == h.method {
				continue
			}
			m, h := m, h
			r.task(m+" "+h.path, func(t *T) {
				var x *hres
				h.method = m
				if strings.HasSuffix(h.path, "/") {
					x = t.serveIK(h)
				} else {
					x = t.serve(cStr(m), cStr(h.path), 1, nil)
				}
				t.obs++
				for _, ev := range x.calls() {
					if mutating[ev.Name] {
						t.never("safe", ev.G, evWhere(ev), m+" "+h.path+" calls "+ev.Name)
					}
				}
			})
		}
	}
}

func (t *T) runRoute(h hroute) *hres {
	if strings.HasSuffix(h.path, "/") {
		return t.serveIK(h)
	}
	return t.serve(cStr(h.method), cStr(h.path), h.nlist, nil)
}

func (t *T) checkRoute(h hroute) {
	x := t.runRoute(h)
	e := t.e
	dec := x.decodeFails()
	calls := x.calls()
	want := e.b.And(e.b.And(x.g, Not(dec)), Not(x.noBody(h)))
	did := False
	for _, ev := range calls {
		t.never("operation", e.b.And(ev.G, e.cref(ev.Name != h.op)), evWhere(ev), h.String()+" calls "+ev.Name)
		t.never("operation", e.b.And(ev.G, did), evWhere(ev), h.String()+" calls the service twice")
		t.never("decoded", e.b.And(ev.G, dec), evWhere(ev), h.String()+" calls "+ev.Name+" for a request that could not be decoded")
		did = e.b.Or(did, ev.G)
	}
	t.never("operation", e.b.And(want, Not(did)), x.where(), h.String()+" does not call "+h.op)
	for _, ev := range calls {
		if ev.Name != h.op {
			continue
		}
		if h.op == "CreateMachine" {
			for _, n := range baseFields {
				for _, a := range e.alts(ev.G, ev.Args[0]) {
					p, ok := a.V.(TupleV)
					if !ok || len(p) != 1 {
						t.never("arguments", a.G, evWhere(ev), "no machine is given to CreateMachine")
						continue
					}
					for _, b := range e.alts(a.G, p[0]) {
						got := e.getPath(b.V, fieldPath((&svc{t: t, e: e}).machineType(), n))
						t.never("arguments", e.differ(b.G, got, x.arg(strings.ToLower(n))), evWhere(ev), "CreateMachine is not given the "+n+" of the request")
					}
				}
			}
		} else {
			if len(ev.Args) != len(h.args) {
				unsup("%s takes %d arguments", ev.Name, len(ev.Args))
			}
			for i, n := range h.args {
				t.never("arguments", e.differ(ev.G, ev.Args[i], x.arg(n)), evWhere(ev), fmt.Sprintf("argument %d of %s is not the %s of the request", i+1, ev.Name, n))
			}
		}
		ok := e.b.And(e.b.And(ev.G, x.g), Not(ev.Err))
		if ok == False {
			continue
		}
		exp := map[string]Value{}
		switch h.op {
		case "GetMachines":
			exp["machines"] = x.jsonOf(ev.Res, x.resType(ev, 0))
		case "GetMachine":
			exp["machine"] = x.jsonOf(ev.Res.(TupleV)[0], x.resType(ev, 0))
		case "CreateMachine":
			for _, fn := range []string{"InitialKey"} {
				exp["ik"] = tStr(x.made(fn))
			}
		case "MakeNextKSN":
			m := e.map1(ok, ev.Res.(TupleV)[0], func(_ Ref, v Value) Value {
				p := v.(*PtrV)
				if p.Obj < 0 {
					return cStr("")
				}
				return e.loadObj(x.st, p.Obj, appendPath(p.Path, fieldPath((&svc{t: t, e: e}).machineType(), "CurrentKSN")...))
			})
			exp["ksn"] = m
		default:
			exp[h.result] = ev.Res.(TupleV)[0]
		}
		oth := x.eachJSON(ok, func(g Ref, o *Term) {
			for k, v := range exp {
				got := x.field(g, o, k)
				d := e.differ(g, got, v)
				if n, is := v.(*Term); is && n.Op == jsonNull {
					d = x.holds(g, got)
				}
				t.never("result", d, evWhere(ev), h.String()+" does not answer "+k+" with what "+h.op+" gave")
			}
			if h.op == "CreateMachine" {
				for _, b := range e.alts(g, x.field(g, o, "machine")) {
					m, is := b.V.(*Term)
					if !is || m.Op != "JSONOBJ" {
						t.never("result", b.G, evWhere(ev), h.String()+" does not answer with the machine")
						continue
					}
					for _, fn := range keyFields {
						t.never("result", e.differ(b.G, x.field(b.G, m, fn), tStr(x.made(fn))), evWhere(ev), h.String()+" does not answer with the machine's "+fn)
					}
				}
			}
		})
		t.never("result", oth, evWhere(ev), h.String()+" does not answer with a JSON object")
		t.never("result", e.b.And(ok, x.bodies), evWhere(ev), h.String()+" writes more than one body")
	}
}

func (r *hres) made(field string) *Term {
	for _, ev := range r.calls() {
		if ev.Name == "CreateMachine" {
			for _, t := range r.e.terms {
				if t.Op == "MADE."+field && t.Args[0] == Value(ev.Term) {
					return t
				}
			}
		}
	}
	unsup("no machine made")
	return nil
}

func (r *hres) resType(ev *Event, i int) types.Type {
	for _, m := range r.t.run.ifaceMethods("Service") {
		if m.Name() == ev.Name {
			return m.Type().(*types.Signature).Results().At(i).Type()
		}
	}
	unsup("no method %s", ev.Name)
	return nil
}

// failing: P27 for one route.
func (t *T) checkFailures(h hroute) {
	x := t.runRoute(h)
	e := t.e
	t.never("panic", x.pan, x.where(), h.String()+" can panic")
	dec := e.b.And(x.g, x.decodeFails())
	fail := False
	type fl struct {
		g    Ref
		what string
		ev   *Event
	}
	var fs []fl
	for _, ev := range x.ev {
		if (ev.Kind == "svc" || ev.Kind == "decode") && ev.Err != False {
			g := e.b.And(e.b.And(ev.G, ev.Err), x.g)
			what := "its request cannot be decoded"
			if ev.Kind == "svc" {
				g = e.b.And(g, Not(dec))
				what = ev.Name + " fails"
			}
			fail = e.b.Or(fail, g)
			if g != False {
				fs = append(fs, fl{g, what, ev})
			}
		}
	}
	code := func(g Ref, f func(c uint64) bool) Ref {
		bad := False
		for _, a := range e.alts(g, x.status) {
			bv := a.V.(*BV)
			if c := e.constUnder(a.G, bv); c != nil {
				if !f(c.V) {
					bad = e.b.Or(bad, a.G)
				}
				continue
			}
			parts := e.splitConst(a.G, bv, 64)
			if parts == nil {
				unsup("status %s", show(bv))
			}
			for _, p := range parts {
				if !f(p.V.(*BV).V) {
					bad = e.b.Or(bad, p.G)
				}
			}
		}
		return bad
	}
	ctype := func(g Ref) Ref {
		bad := False
		for _, a := range e.alts(g, x.hdr) {
			m, ok := a.V.(*MapObj)
			if !ok {
				unsup("headers %T", a.V)
			}
			have := False
			for _, en := range m.Ents {
				if k, ok := en.K.(*Str); ok && k.K == 'c' && k.S == "Content-Type" {
					for _, b := range e.alts(e.b.And(a.G, en.P), en.V) {
						if l, ok := b.V.(ArrayV); ok && len(l) > 0 {
							for _, c := range e.alts(b.G, l[0]) {
								if s, ok := c.V.(*Str); ok && s.K == 'c' && strings.HasPrefix(s.S, "application/json") {
									have = e.b.Or(have, c.G)
								}
							}
						}
					}
				}
			}
			bad = e.b.Or(bad, e.b.And(a.G, Not(have)))
		}
		return bad
	}
	s := &svc{t: t, e: e}
	if h.body() {
		// without a JSON value there is nothing to carry out
		decoded := False
		for _, ev := range x.ev {
			if ev.Kind == "decode" && ev.Name == "json" {
				decoded = e.b.Or(decoded, e.b.And(ev.G, Not(ev.Err)))
			}
		}
		t.never("undecoded", code(e.b.And(x.g, Not(decoded)), func(c uint64) bool { return c >= 400 && c < 600 }), x.where(), h.String()+" is not answered with an error status when its body holds no JSON value")
		for _, ev := range x.calls() {
			t.never("undecoded", e.b.And(ev.G, Not(decoded)), evWhere(ev), h.String()+" calls "+ev.Name+" when its body holds no JSON value")
		}
	}
	for _, f := range fs {
		where := evWhere(f.ev)
		t.never("status", code(f.g, func(c uint64) bool { return c >= 400 && c < 600 }), where, h.String()+" is not answered with an error status when "+f.what)
		var errv Value
		if f.ev.Kind == "svc" {
			r := f.ev.Res
			if tv, ok := r.(TupleV); ok {
				r = tv[len(tv)-1]
			}
			errv = r
			nf := s.isErrOf(x.st, f.g, "IsNotFound", errv)
			ex := s.isErrOf(x.st, f.g, "IsExists", errv)
			t.never("status", code(e.b.And(e.b.And(f.g, nf), Not(ex)), func(c uint64) bool { return c == 404 }), where, h.String()+" is not answered with 404 when the machine is unknown")
			t.never("status", code(e.b.And(e.b.And(f.g, ex), Not(nf)), func(c uint64) bool { return c == 400 }), where, h.String()+" is not answered with 400 when the machine exists already")
			t.never("status", code(e.b.And(e.b.And(f.g, Not(ex)), Not(nf)), func(c uint64) bool { return c != 404 }), where, h.String()+" is answered with 404 although the machine is not unknown")
		}
		oth := x.eachJSON(f.g, func(g Ref, o *Term) {
			ev := x.field(g, o, "error")
			bad := False
			for _, a := range e.alts(g, ev) {
				sv, ok := a.V.(*Str)
				if !ok {
					bad = e.b.Or(bad, a.G)
					continue
				}
				if sv.K == 'c' && sv.S == "" || !x.mentions(sv, f.ev) {
					bad = e.b.Or(bad, a.G)
				}
			}
			t.never("error", bad, where, h.String()+" is not answered with the text of the error when "+f.what)
			for i := 0; i+2 < len(o.Args); i += 3 {
				k := o.Args[i].(*Str).S
				if k == "error" {
					continue
				}
				t.never("empty", x.holds(e.b.And(g, Ref(o.Args[i+1].(BoolV))), o.Args[i+2]), where, h.String()+" is answered with "+k+" when "+f.what)
			}
		})
		t.never("error", oth, where, h.String()+" is not answered with a JSON object when "+f.what)
		t.never("error", e.b.And(f.g, x.bodies), where, h.String()+" is answered with more than one body when "+f.what)
		t.never("type", ctype(f.g), where, h.String()+" is not answered as JSON when "+f.what)
	}
	good := e.b.And(e.b.And(x.g, Not(fail)), Not(x.noBody(h)))
	t.never("success", code(good, func(c uint64) bool { return c == 200 }), x.where(), h.String()+" is not answered with 200 when it succeeds")
	t.never("type", ctype(good), x.where(), h.String()+" is not answered as JSON when it succeeds")
	x.eachJSON(good, func(g Ref, o *Term) {
		t.never("success", x.holds(g, x.field(g, o, "error")), x.where(), h.String()+" is answered with an error when it succeeds")
	})
}

// mentions: the text carries that of the error of a failed call.
func (r *hres) mentions(s *Str, ev *Event) bool {
	if ev.Kind == "decode" {
		return true
	}
	want := map[*Term]bool{}
	rv := ev.Res
	if tv, ok := rv.(TupleV); ok {
		rv = tv[len(tv)-1]
	}
	for _, a := range r.e.alts(True, rv) {
		if i, ok := a.V.(*IfaceV); ok && i.T != nil {
			want[i.V.(*NativeV).T] = true
		}
	}
	seen := map[*Term]bool{}
	var in func(v Value) bool
	in = func(v Value) bool {
		switch x := v.(type) {
		case *Str:
			if x.K == 't' {
				return in(x.T)
			}
		case *Term:
			if want[x] {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, a := range x.Args {
				if in(a) {
					return true
				}
			}
		case *ChoiceV:
			for _, a := range x.A {
				if in(a.V) {
					return true
				}
			}
		case TupleV:
			for _, a := range x {
				if in(a) {
					return true
				}
			}
		case *IfaceV:
			return in(x.V)
		case *NativeV:
			if x.T != nil {
				return in(x.T)
			}
		}
		return false
	}
	return in(s)
}

func init() {
	checks["P26"] = checkDef{"the handler is built and interpreted on a request of every documented method and path, with any path variable, headers and JSON body and an unknown service behind it; the calls to the service are events, whose operation, arguments and result must be those of the route, and the text written must be a JSON object with the result in the route's field", func(r *Run) {
		r.httpTasks()
		r.afterOther(func(t *T, h hroute) { t.checkRoute(h) })
	}}
	checks["P27"] = checkDef{"as P26; every decoding and service call that can fail is tracked as a guard, under which the status, header and body finally written must be those of an error, and outside which those of a success", func(r *Run) {
		for _, h := range hroutes {
			h := h
			r.task(h.String(), func(t *T) { t.checkFailures(h) })
		}
		r.afterOther(func(t *T, h hroute) { t.checkFailures(h) })
	}}
}
