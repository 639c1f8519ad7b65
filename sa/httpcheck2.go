package main

// Checks of the HTTP interface, second part: P37 (cross-origin access), P38 (independence of
// requests) and the requests outside the interface (P26).

import (
	"fmt"
	"go/types"
	"strings"
)

// probe is a request: a method and the segments of a path, "" standing for any text.
type probe struct {
	name   string
	method string // "" is any method
	segs   []string
}

func (p probe) String() string { return p.name }

// probes are requests of every shape of path up to four segments, and of any method.
func probes(methods ...string) []probe {
	var out []probe
	for _, m := range methods {
		name := m
		if m == "" {
			name = "any method"
		}
		out = append(out, probe{name + " /", m, []string{}})
		for n := 1; n <= 4; n++ {
			out = append(out, probe{fmt.Sprintf("%s, any path of %d segments", name, n), m, make([]string, n)})
		}
	}
	return out
}

// serveProbe interprets the handler on such a request.
func (t *T) serveProbe(p probe) (*hres, *Str, []*Str) {
	method, path := &Str{}, &Str{}
	var segs []*Str
	x := t.serve(method, path, 1, func(e *E) Ref {
		g := True
		*method = *cStr(p.method)
		if p.method == "" {
			*method = *tStr(e.newTerm("METHOD"))
		}
		cur := cStr("/")
		segs = nil
		for i, s := range p.segs {
			if i > 0 {
				cur = e.concat(cur, cStr("/")).(*Str)
			}
			v := cStr(s)
			if s == "" {
				v = tStr(e.newTerm(fmt.Sprintf("SEG%d", i)))
				g = e.b.And(g, Not(e.strEqConst(v, "")))
			}
			segs = append(segs, v)
			cur = e.concat(cur, v).(*Str)
		}
		*path = *cur
		return g
	})
	return x, method, segs
}

// documented is where such a request is one of the interface's.
func (x *hres) documented(method *Str, segs []*Str) Ref {
	e := x.e
	out := False
	for _, h := range hroutes {
		want := strings.Split(strings.TrimPrefix(h.path, "/"), "/")
		if len(want) != len(segs) {
			continue
		}
		g := e.strEqConst(method, h.method)
		for i, w := range want {
			if w != "" {
				g = e.b.And(g, e.strEqConst(segs[i], w))
			}
		}
		out = e.b.Or(out, g)
	}
	return out
}

// outside: a request that is not of the interface reaches no operation.
func (t *T) checkOutside(p probe) {
	x, m, segs := t.serveProbe(p)
	e := t.e
	in := x.documented(m, segs)
	t.obs++
	for _, ev := range x.calls() {
		t.never("outside", e.b.And(ev.G, Not(in)), evWhere(ev), "a request outside the interface ("+p.String()+") calls "+ev.Name)
		if mutating[ev.Name] {
			for _, safe := range []string{"GET", "HEAD", "OPTIONS"} {
				t.never("safe", e.b.And(ev.G, e.strEqConst(m, safe)), evWhere(ev), "a "+safe+" request calls "+ev.Name)
			}
		}
	}
}

// headerVals are the values a header has in the answer, with their guards, and where it is set.
func (x *hres) headerVals(g Ref, name string, f func(g Ref, v Value)) (set Ref) {
	e := x.e
	set = False
	for _, a := range e.alts(g, x.hdr) {
		m, ok := a.V.(*MapObj)
		if !ok {
			unsup("headers %T", a.V)
		}
		for _, en := range m.Ents {
			k, ok := en.K.(*Str)
			if !ok || k.K != 'c' {
				unsup("computed header name")
			}
			if k.S != name {
				continue
			}
			for _, b := range e.alts(e.b.And(a.G, en.P), en.V) {
				switch l := b.V.(type) {
				case ArrayV:
					for _, v := range l {
						f(b.G, v)
					}
					if len(l) > 0 {
						set = e.b.Or(set, b.G)
					}
				default:
					unsup("header values %T", b.V)
				}
			}
		}
	}
	return set
}

// checkOrigin: P37 for one kind of request; must tells where the origin has to be let in.
func (t *T) checkOrigin(x *hres, what string, must Ref) {
	e := t.e
	origin := tStr(e.newTerm("HEADER", e.newTerm("REQUEST"), cStr("Origin")))
	pre := func(s string) Ref { return e.termBool(e.newTerm("strings.HasPrefix", origin, cStr(s)), True) }
	// a text that starts with one of them is not empty, and does not start with the other
	world := Not(e.b.And(pre("https://"), pre("http://localhost:")))
	world = e.b.And(world, e.b.Or(Not(e.strEqConst(origin, "")), Not(e.b.Or(pre("https://"), pre("http://localhost:")))))
	page := e.b.Or(pre("https://"), pre("http://localhost:"))
	g := e.b.And(x.g, world)
	const allow = "Access-Control-Allow-Origin"
	own := False
	x.headerVals(g, allow, func(g Ref, v Value) {
		for _, a := range e.alts(g, v) {
			d := e.differ(a.G, a.V, origin)
			t.never("origin", d, x.where(), what+" lets in another origin than the request's")
			t.never("page", e.b.And(e.b.And(a.G, Not(d)), Not(page)), x.where(), what+" lets in an origin that is neither https nor http://localhost")
			own = e.b.Or(own, e.b.And(a.G, Not(d)))
		}
	})
	t.never("allowed", e.b.And(e.b.And(g, must), e.b.And(page, Not(own))), x.where(), what+" does not let the request's own https or localhost origin in")
	cred := False
	x.headerVals(g, "Access-Control-Allow-Credentials", func(g Ref, v Value) {
		for _, a := range e.alts(g, v) {
			cred = e.b.Or(cred, a.G)
		}
	})
	t.never("credentials", e.b.And(cred, Not(own)), x.where(), what+" allows credentials without naming the origin")
}

func (r *Run) originTasks() {
	for _, h := range hroutes {
		h := h
		r.task(h.String(), func(t *T) {
			x := t.runRoute(h)
			must := t.e.b.And(Not(x.decodeFails()), Not(x.noBody(h)))
			t.checkOrigin(x, h.String(), must)
		})
	}
	r.afterOther(func(t *T, h hroute) {
		x := t.runRoute(h)
		must := t.e.b.And(Not(x.decodeFails()), Not(x.noBody(h)))
		t.checkOrigin(x, h.String(), must)
	})
	r.task("GET /ping", func(t *T) {
		t.checkOrigin(t.serve(cStr("GET"), cStr("/ping"), 0, nil), "GET /ping", True)
	})
	for _, p := range probes("OPTIONS") {
		p := p
		r.task(p.String(), func(t *T) {
			x, _, _ := t.serveProbe(p)
			t.checkOrigin(x, p.String(), True)
			for _, ev := range x.calls() {
				t.never("preflight", ev.G, evWhere(ev), "a pre-flight request calls "+ev.Name)
			}
		})
	}
	for _, p := range probes("") {
		p := p
		r.task(p.String(), func(t *T) {
			x, _, _ := t.serveProbe(p)
			t.checkOrigin(x, p.String(), False)
		})
	}
}

// sharedAcc is an access, while a request is handled, to memory that outlives it.
type sharedAcc struct {
	g      Ref
	where  string
	class  string
	write  bool
	locked bool
}

// watchShared records accesses to what existed before the request (and to package variables).
func (t *T) watchShared(mark int) (*map[string][]sharedAcc, func()) {
	e := t.e
	accs := map[string][]sharedAcc{}
	save := e.onAccess
	e.onAccess = func(st *State, obj int, path []int, write bool) {
		if save != nil {
			save(st, obj, path, write)
		}
		if obj < 0 {
			return
		}
		o := e.objs[obj]
		if o.Kind != "global" && obj >= mark {
			return
		}
		if st.g == False || e.initPhase {
			return
		}
		ty := o.T
		for _, i := range path {
			if inSync(ty) {
				return
			}
			switch u := ty.Underlying().(type) {
			case *types.Struct:
				ty = u.Field(i).Type()
			case *types.Array:
				ty = u.Elem()
			}
		}
		if inSync(ty) {
			return
		}
		k := fmt.Sprint(obj)
		if len(path) > 0 {
			k += fmt.Sprint(".", path[0])
		}
		where := e.W.pos(e.curPos)
		if len(e.stack) > 0 {
			where += " " + shortFn(e.stack[len(e.stack)-1])
		}
		accs[k] = append(accs[k], sharedAcc{st.g, where, pathClass(o.T, path), write, len(st.locks) > 0})
	}
	return &accs, func() { e.onAccess = save }
}

func inSync(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// checkShared: P38 for one kind of request.
func (t *T) checkShared(what string, run func()) {
	t.watch = true
	run()
	t.watch = false
	n := 0
	for _, k := range sortedAccs(t.shared) {
		l := t.shared[k]
		n += len(l)
		w, unlocked := -1, False
		for i, a := range l {
			if a.write && w < 0 {
				w = i
			}
			if !a.locked {
				unlocked = t.e.b.Or(unlocked, a.g)
			}
		}
		if w < 0 {
			t.obs++
			continue
		}
		t.never("shared", unlocked, l[w].where, what+" writes "+l[w].class+", which other requests use at the same time, without a lock")
		for _, a := range l {
			if !a.write && a.locked {
				unsup("state kept between requests (%s)", a.class)
			}
		}
	}
	t.obs++
}

func sortedAccs(m map[string][]sharedAcc) []string {
	k := map[string]string{}
	for n := range m {
		k[n] = n
	}
	return sortedKeys(k)
}

func init() {
	checks["P37"] = checkDef{"the handler is interpreted on every documented request, on pre-flight requests and on requests of any method and any path of up to four segments, with any Origin header; the guards and values of the Access-Control headers in force when the answer is sent are compared with the request's origin", func(r *Run) {
		r.originTasks()
	}}
	checks["P38"] = checkDef{"as P37, recording every access to memory that existed before the request (variables captured by handlers, package variables): effect analysis, a write needs a lock held by every access", func(r *Run) {
		for _, h := range hroutes {
			h := h
			r.task(h.String(), func(t *T) { t.checkShared(h.String(), func() { t.runRoute(h) }) })
		}
		r.task("GET /ping", func(t *T) {
			t.checkShared("GET /ping", func() { t.serve(cStr("GET"), cStr("/ping"), 0, nil) })
		})
		for _, p := range append(probes("OPTIONS"), probes("")...) {
			p := p
			r.task(p.String(), func(t *T) { t.checkShared(p.String(), func() { t.serveProbe(p) }) })
		}
	}}
}
