package main

// Check of the server process: P32, and the models it needs.

import (
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const pMain = modPath + "/cmd/server"

func init() {
	reg("time.ParseDuration", func(c *Ctx, a []Value) Value {
		s, ok := c.cstr(a[0])
		if !ok {
			t := c.e.newTerm("DURATION", a[0])
			fails := c.e.termBool(c.e.newTerm("FAILS", t), True)
			err := &IfaceV{T: c.e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: c.e.newTerm("ERR", t)}}
			return TupleV{c.e.ite(fails, constBV(64, 0), c.e.termBV(t, 64, True)), c.e.choice([]Alt{{fails, err}, {Not(fails), nilIface}})}
		}
		d, err := time.ParseDuration(s)
		if err != nil {
			return TupleV{constBV(64, 0), c.e.errVal(c.f, cStr(err.Error()))}
		}
		return TupleV{constBV(64, uint64(d)), nilIface}
	})
	listen := func(kind string) func(c *Ctx, a []Value) Value {
		return func(c *Ctx, a []Value) Value {
			e := c.e
			p, ok := a[0].(*PtrV)
			if !ok || p.Obj < 0 {
				c.f.panicIf(True, "nil server", nil)
				return nil
			}
			args := append([]Value{p, e.loadObj(c.st(), p.Obj, p.Path)}, a[1:]...)
			return c.listening(kind, args)
		}
	}
	reg("(*net/http.Server).ListenAndServe", listen("plain"))
	reg("(*net/http.Server).ListenAndServeTLS", listen("tls"))
	fn := func(kind string, h int) func(c *Ctx, a []Value) Value {
		return func(c *Ctx, a []Value) Value {
			e := c.e
			t := e.pkgType("net/http", "Server")
			s := e.zero(t).(StructV)
			s[fieldIndex(t, "Addr")], s[fieldIndex(t, "Handler")] = a[0], a[h]
			return c.listening(kind, append([]Value{&PtrV{Obj: -1}, s}, a[1:h]...))
		}
	}
	reg("net/http.ListenAndServe", fn("plain", 1))
	reg("net/http.ListenAndServeTLS", fn("tls", 3))
	for _, n := range []string{"Shutdown", "Close"} {
		n := n
		reg("(*net/http.Server)."+n, func(c *Ctx, a []Value) Value {
			e := c.e
			ev := e.event(c.st(), "srv"+n, "", a...)
			t := e.freshTerm(n)
			fails := e.termBool(e.newTerm("FAILS", t), True)
			ev.Err = fails
			err := &IfaceV{T: e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: e.newTerm("ERR", t)}}
			return e.choice([]Alt{{fails, err}, {Not(fails), nilIface}})
		})
	}
	// the admin server: nil when it cannot be made, and then only some of its methods can be called
	reg("github.com/moov-io/base/admin.New", func(c *Ctx, a []Value) Value {
		e := c.e
		ev := e.event(c.st(), "admin", "", e.snap(c.st(), a[0]))
		t := e.freshTerm("ADMIN")
		fails := e.termBool(e.newTerm("FAILS", t), True)
		err := &IfaceV{T: e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: e.newTerm("ERR", t)}}
		srv := &NativeV{Kind: "opaque", Obj: -1, T: t}
		ev.Err, ev.Res = fails, err
		return TupleV{e.choice([]Alt{{fails, &PtrV{Obj: -1}}, {Not(fails), srv}}), e.choice([]Alt{{fails, err}, {Not(fails), nilIface}})}
	})
	for _, n := range []string{"AddHandler", "AddVersionHandler", "AddLivenessCheck", "AddReadinessCheck", "Subrouter"} {
		n := n
		name := "(*github.com/moov-io/base/admin.Server)." + n
		reg(name, func(c *Ctx, a []Value) Value {
			if p, ok := a[0].(*PtrV); ok && p.Obj < 0 {
				c.f.panicIf(True, "nil pointer dereference (admin server)", nil)
				return nil
			}
			return c.f.external(name, c.fn.Signature.Results(), a, false)
		})
	}
}

func (c *Ctx) listening(kind string, args []Value) Value {
	e := c.e
	ev := e.event(c.st(), "listen", kind, args...)
	ev.St = c.st().clone()
	t := e.freshTerm("LISTEN")
	// it returns only when it failed or was shut down
	err := &IfaceV{T: e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: e.newTerm("ERR", t)}}
	ev.Res = err
	return err
}

type procRun struct {
	t  *T
	e  *E
	fn *ssa.Function
	x  *Res
}

func (t *T) process(fix map[string]Value) *procRun {
	fn := t.W.fn(pMain, "main")
	if fn == nil {
		unsup("function main of the server not found")
	}
	st := t.fresh(pMain)
	e := t.e
	e.flagVal = fix
	for _, n := range []string{"MakeHTTPHandler", "NewService", "NewRepositoryInMemory"} {
		if t.W.fn(pSrv, n) == nil {
			unsup("function server.%s not found", n)
		}
		e.opaque[pSrv+"."+n] = true
	}
	return &procRun{t: t, e: e, fn: fn, x: t.invoke(fn, nil, st)}
}

func (r *procRun) where() string { return r.t.W.pos(r.fn.Pos()) + " " + shortFn(r.fn) }

func (r *procRun) env(n string) Value { return tStr(r.e.newTerm("ENV", cStr(n))) }

func (r *procRun) field(g Ref, s Value, name string) Value {
	t := r.e.pkgType("net/http", "Server")
	return r.e.map1(g, s, func(_ Ref, v Value) Value { return v.(StructV)[fieldIndex(t, name)] })
}

func (r *procRun) events(kind string) (out []*Event) {
	for _, ev := range r.x.ev {
		if ev.Kind == kind {
			out = append(out, ev)
		}
	}
	return
}

func (r *procRun) calls(name string) (out []*Event) {
	for _, ev := range r.x.ev {
		if (ev.Kind == "call" || ev.Kind == "ext") && ev.Name == name {
			out = append(out, ev)
		}
	}
	return
}

// check: P32
func (r *procRun) check() {
	t, e := r.t, r.e
	t.never("panic", r.x.pan, r.where(), "the process panics at start")
	listens := r.events("listen")
	cert, key := r.env("HTTPS_CERT_FILE"), r.env("HTTPS_KEY_FILE")
	empty := func(v Value) Ref { return e.eqv(True, v, cStr("")) }
	tls := e.b.And(Not(empty(cert)), Not(empty(key)))
	addr := e.ite(empty(r.env("HTTP_BIND_ADDRESS")), e.flagValue(r.x.st0, "http.addr"), r.env("HTTP_BIND_ADDRESS"))
	handlers := r.calls(pSrv + ".MakeHTTPHandler")
	services := r.calls(pSrv + ".NewService")
	for i, a := range services {
		for _, b := range services[:i] {
			t.never("service", e.b.And(a.G, b.G), evWhere(a), "a second service is made")
		}
	}
	reached := False
	for i, l := range listens {
		where := evWhere(l)
		reached = e.b.Or(reached, l.G)
		for _, k := range listens[:i] {
			t.never("once", e.b.And(l.G, k.G), where, "the API is served twice")
		}
		srv := l.Args[1]
		if l.Name == "plain" {
			t.never("tls", e.b.And(l.G, tls), where, "plain HTTP is served although a certificate and a key file are configured")
		} else {
			t.never("tls", e.b.And(l.G, Not(tls)), where, "TLS is served without a certificate and a key file")
			t.never("tls", e.differ(l.G, l.Args[2], cert), where, "the certificate file is not HTTPS_CERT_FILE")
			t.never("tls", e.differ(l.G, l.Args[3], key), where, "the key file is not HTTPS_KEY_FILE")
			r.tlsVersion(l, srv, where)
		}
		t.never("address", e.differ(l.G, r.field(l.G, srv, "Addr"), addr), where, "the address is not the configured one")
		// handler
		for _, a := range e.alts(l.G, r.field(l.G, srv, "Handler")) {
			ok := False
			for _, h := range handlers {
				for _, b := range e.alts(a.G, h.Res) {
					if identical(a.V, b.V) {
						for _, s := range services {
							for _, c := range e.alts(b.G, s.Res) {
								for _, d := range e.alts(c.G, h.Args[0]) {
									if identical(c.V, d.V) {
										ok = e.b.Or(ok, e.b.And(d.G, e.b.And(h.G, s.G)))
									}
								}
							}
						}
					}
				}
			}
			g := e.b.And(a.G, Not(ok))
			if g != False {
				strip := mentionsTerm(a.V, func(t *Term) bool {
					if !strings.Contains(t.Op, "net/http.StripPrefix") || len(t.Args) == 0 {
						return false
					}
					s, ok := t.Args[0].(*Str)
					return ok && s.K == 'c' && s.S != ""
				})
				if i, is := a.V.(*IfaceV); is && i.T != nil && !strip {
					if n, is := i.V.(*NativeV); !is || n.Kind != "opaque" || mentionsTerm(a.V, func(t *Term) bool { return t.Op == "RES0" }) {
						unsup("handler %s", show(a.V))
					}
				}
			}
			t.never("handler", g, where, "what is served is not the HTTP API of the service")
		}
		dur := func(names ...string) {
			g := l.G
			for _, n := range names {
				for _, a := range e.alts(l.G, r.field(l.G, srv, n)) {
					bv := a.V.(*BV)
					pos := e.b.And(Not(e.bvEq(bv, constBV(64, 0))), Not(bv.bit(63)))
					g = e.b.And(g, Not(e.b.And(a.G, pos)))
				}
			}
			t.never("timeout", g, where, "no "+names[0]+" is set")
		}
		dur("ReadTimeout")
		dur("ReadHeaderTimeout", "ReadTimeout")
		dur("WriteTimeout")
		dur("IdleTimeout", "ReadTimeout")
	}
	ends := r.x.ok
	t.never("serve", e.b.And(ends, Not(reached)), r.where(), "the API is not served")
	r.admin()
	r.termination(listens)
}

// admin: the admin server listens where it is told to, and when it cannot the process says so and fails.
func (r *procRun) admin() {
	t, e := r.t, r.e
	made := r.events("admin")
	reached := False
	env := r.env("HTTP_ADMIN_BIND_ADDRESS")
	addr := e.ite(e.eqv(True, env, cStr("")), e.flagValue(r.x.st0, "admin.addr"), env)
	ot := e.pkgType("github.com/moov-io/base/admin", "Opts")
	for _, a := range made {
		reached = e.b.Or(reached, a.G)
		got := e.map1(a.G, a.Args[0], func(_ Ref, v Value) Value { return v.(StructV)[fieldIndex(ot, "Addr")] })
		t.never("adminaddr", e.differ(a.G, got, addr), evWhere(a), "the address of the admin server is not the configured one")
		failed := e.b.And(a.G, a.Err)
		said := False
		for _, ev := range r.x.ev {
			if r.index(ev) < r.index(a) {
				continue
			}
			if (ev.Kind == "print" || ev.Kind == "ext") && mentionsErr(ev, a.Res) {
				said = e.b.Or(said, ev.G)
			}
			if ev.Kind == "exit" {
				t.never("adminerror", e.b.And(e.b.And(failed, ev.G), Not(said)), evWhere(ev), "the failure of the admin server is not reported")
				for _, s := range e.alts(e.b.And(failed, ev.G), ev.Args[0]) {
					bv := s.V.(*BV)
					t.never("adminerror", e.b.And(s.G, e.bvEq(bv, constBV(bv.W, 0))), evWhere(ev), "the process ends with status zero although the admin server failed")
				}
			}
		}
		t.never("adminerror", e.b.And(e.b.And(failed, r.x.ok), Not(said)), evWhere(a), "the failure of the admin server is not reported")
	}
}

// mentionsErr: an argument of the event carries the error.
func mentionsErr(ev *Event, err Value) bool {
	for _, a := range ev.Args {
		if mentionsTerm(a, func(t *Term) bool {
			return t.Op == "ERR" && mentionsTerm(err, func(u *Term) bool { return u.Op == "ERR" && (u == t || identical(u, t)) })
		}) {
			return true
		}
	}
	return false
}

func (r *procRun) tlsVersion(l *Event, srv Value, where string) {
	t, e := r.t, r.e
	ct := e.pkgType("crypto/tls", "Config")
	for _, a := range e.alts(l.G, r.field(l.G, srv, "TLSConfig")) {
		p, ok := a.V.(*PtrV)
		if !ok {
			unsup("TLS configuration %s", show(a.V))
		}
		if p.Obj < 0 {
			t.obs++ // the default is TLS 1.2 for this module's language version
			continue
		}
		cfg := e.loadObj(l.St, p.Obj, p.Path)
		for _, c := range e.alts(a.G, cfg) {
			s := c.V.(StructV)
			for _, m := range e.alts(c.G, s[fieldIndex(ct, "MinVersion")]) {
				v := m.V.(*BV)
				low := e.b.And(e.ult(v, constBV(v.W, 0x0303)), Not(e.bvEq(v, constBV(v.W, 0))))
				t.never("tlsversion", e.b.And(m.G, low), where, "TLS versions below 1.2 are accepted")
			}
			for _, m := range e.alts(c.G, s[fieldIndex(ct, "MaxVersion")]) {
				v := m.V.(*BV)
				low := e.b.And(e.ult(v, constBV(v.W, 0x0303)), Not(e.bvEq(v, constBV(v.W, 0))))
				t.never("tlsversion", e.b.And(m.G, low), where, "TLS 1.2 and later are not offered")
			}
		}
	}
}

func chanOf(v Value) int {
	if c, ok := v.(*ChanV); ok {
		return c.Obj
	}
	return -2
}

// index of an event in the order of interpretation.
func (r *procRun) index(ev *Event) int {
	for i, x := range r.x.ev {
		if x == ev {
			return i
		}
	}
	return -1
}

// ended: the guard under which a context is over when it is used by the event: it was cancelled, its time was up at
// once, or it ends with the signal that brought the process here.
func (r *procRun) ended(at *Event, ctx Value) Ref {
	e := r.e
	g := False
	for _, a := range e.alts(True, ctx) {
		i, ok := a.V.(*IfaceV)
		if !ok || i.T == nil {
			continue
		}
		n, ok := i.V.(*NativeV)
		if !ok || n.Kind != "ctx" || len(n.V) == 0 {
			continue
		}
		if len(n.V) == 2 {
			for _, ev := range r.events("recv") {
				if chanOf(ev.Args[0]) == chanOf(n.V[1]) && r.index(ev) < r.index(at) {
					g = e.b.Or(g, e.b.And(a.G, e.b.And(ev.G, ev.Sel)))
				}
			}
			g = e.b.Or(g, e.b.And(a.G, r.alsoSignal(at, n.V[1])))
		}
		for _, ev := range r.events("ctxend") {
			if len(ev.Args) == 1 && identical(ev.Args[0], a.V) && r.index(ev) < r.index(at) && ev.InGo == 0 {
				g = e.b.Or(g, e.b.And(a.G, ev.G))
			}
		}
		g = e.b.Or(g, e.b.And(a.G, r.ended(at, n.V[0])))
	}
	return g
}

// alsoSignal: the guard under which the signals that end the context of the channel, made before the process waits,
// are those that another channel received on the way to the event.
func (r *procRun) alsoSignal(at *Event, ch Value) Ref {
	g := False
	for _, n := range r.calls("os/signal.NotifyContext") {
		if chanOf(n.Args[0]) != chanOf(ch) {
			continue
		}
		early := false
		for _, w := range r.events("recv") {
			early = early || w.InGo == 0 && r.index(n) < r.index(w) && r.index(w) < r.index(at)
		}
		if !early {
			continue
		}
		for _, o := range append(r.calls("os/signal.Notify"), r.calls("os/signal.NotifyContext")...) {
			if o == n || len(o.Args) != 2 || !overlap(n.Args[1], o.Args[1]) {
				continue
			}
			for _, ev := range r.events("recv") {
				if chanOf(ev.Args[0]) == chanOf(o.Args[0]) && r.index(ev) < r.index(at) {
					g = r.e.b.Or(g, r.e.b.And(ev.G, ev.Sel))
				}
			}
		}
	}
	return g
}

// overlap: two lists of signals, of which an empty one is all, have one in common.
func overlap(a, b Value) bool {
	x, ok := a.(ArrayV)
	y, ok2 := b.(ArrayV)
	if !ok || !ok2 || len(x) == 0 || len(y) == 0 {
		return ok && ok2
	}
	for _, v := range x {
		for _, w := range y {
			i, ok := v.(*IfaceV)
			j, ok2 := w.(*IfaceV)
			if ok && ok2 && i.T != nil && j.T != nil && identical(i.V, j.V) {
				return true
			}
		}
	}
	return false
}

// within: goroutine i is j or was started by it.
func (e *E) within(i, j int) bool {
	for i != j && i > 0 {
		i = e.goParent[i-1]
	}
	return i == j
}

// termination: a signal or a failed listener reaches the wait in main, and that shuts the server down.
func (r *procRun) termination(listens []*Event) {
	t, e := r.t, r.e
	// the wait in main
	var waits []*Event
	waited := False
	for _, ev := range r.events("recv") {
		if ev.InGo == 0 {
			waits = append(waits, ev)
			waited = e.b.Or(waited, ev.G)
		}
	}
	t.never("wait", e.b.And(r.x.ok, Not(waited)), r.where(), "the process ends without waiting for a signal or a failed listener")
	isWait := func(v Value) bool {
		for _, w := range waits {
			if chanOf(w.Args[0]) == chanOf(v) {
				return true
			}
		}
		return false
	}
	sentAfter := func(from *Event) Ref {
		g := False
		seen := false
		for _, ev := range r.x.ev {
			if ev == from {
				seen = true
				continue
			}
			if seen && ev.Kind == "send" && e.within(ev.InGo, from.InGo) && isWait(ev.Args[0]) {
				g = e.b.Or(g, e.b.And(ev.G, Not(Ref(e.isNilErr(ev.Args[1]).(BoolV)))))
			}
		}
		return g
	}
	for _, l := range listens {
		if l.InGo == 0 {
			unsup("the API is served in main itself")
		}
		closed := False
		if g := r.t.W.pkgs["net/http"].Members["ErrServerClosed"]; g != nil {
			f := &frame{e: e, fn: r.fn, cur: &fstate{st: l.St.clone()}}
			closed = f.errIs(l.G, l.Res, e.loadObj(l.St, e.globalObj(l.St, g.(*ssa.Global)), nil), 0)
		}
		t.never("listener", e.b.And(e.b.And(l.G, Not(closed)), Not(sentAfter(l))), evWhere(l), "the failure of the listener does not end the process")
	}
	for _, l := range r.calls("(*github.com/moov-io/base/admin.Server).Listen") {
		if l.InGo == 0 || l.Res == nil {
			unsup("the admin server is served in main itself")
		}
		t.never("listener", e.b.And(e.b.And(l.G, Not(Ref(e.isNilErr(l.Res).(BoolV)))), Not(sentAfter(l))), evWhere(l), "the failure of the admin listener does not end the process")
	}
	// the signals
	both := False
	nots := append(r.calls("os/signal.Notify"), r.calls("os/signal.NotifyContext")...)
	for _, n := range nots {
		if len(n.Args) != 2 {
			unsup("arguments of signal.Notify")
		}
		list, ok := n.Args[1].(ArrayV)
		if !ok {
			unsup("signals %s", show(n.Args[1]))
		}
		have := map[uint64]bool{}
		for _, s := range list {
			if i, ok := s.(*IfaceV); ok && i.T != nil {
				if bv, ok := i.V.(*BV); ok {
					if c := e.constUnder(n.G, bv); c != nil {
						have[c.V] = true
						continue
					}
				}
			}
			unsup("signal %s", show(s))
		}
		if len(list) > 0 && !(have[2] && have[15]) {
			continue
		}
		// it is received and passed on
		passed := False
		for _, ev := range r.events("recv") {
			if chanOf(ev.Args[0]) == chanOf(n.Args[0]) && r.index(ev) > r.index(n) {
				if isWait(ev.Args[0]) && ev.InGo == 0 {
					passed = e.b.Or(passed, ev.G)
				} else {
					passed = e.b.Or(passed, e.b.And(ev.G, sentAfter(ev)))
				}
			}
		}
		both = e.b.Or(both, e.b.And(n.G, passed))
	}
	t.never("signal", e.b.And(waited, Not(both)), r.where(), "SIGINT and SIGTERM do not both end the process gracefully")
	// nothing takes the signals away again
	for _, n := range append(r.calls("os/signal.Ignore"), append(r.calls("os/signal.Reset"), r.calls("os/signal.Stop")...)...) {
		for _, w := range waits {
			if r.index(n) < r.index(w) {
				t.never("signal", n.G, evWhere(n), "the signals are no longer received while the process serves")
			}
		}
	}
	// the admin server stays up while the process serves
	for _, n := range r.calls("(*github.com/moov-io/base/admin.Server).Shutdown") {
		for _, w := range waits {
			if n.InGo == 0 && r.index(n) < r.index(w) {
				t.never("admin", e.b.And(n.G, w.G), evWhere(n), "the admin server is shut down before the process ends")
			}
		}
	}
	// the shutdown
	shut := False
	last := 0
	for _, w := range waits {
		if i := r.index(w); i > last {
			last = i
		}
	}
	for _, s := range r.events("srvShutdown") {
		for _, l := range listens {
			p, q := s.Args[0], l.Args[0]
			if identical(p, q) && r.index(s) > last && s.InGo == 0 {
				shut = e.b.Or(shut, s.G)
				if len(s.Args) > 1 {
					t.never("graceful", e.b.And(s.G, r.ended(s, s.Args[1])), evWhere(s), "the shutdown does not wait for requests in progress: its context has ended before")
				}
			}
		}
	}
	for _, w := range waits {
		isNil := False
		if w.Res != nil && isErr(w.Res0) {
			isNil = e.b.And(w.Sel, Ref(e.isNilErr(w.Res).(BoolV)))
		}
		t.never("shutdown", e.b.And(e.b.And(w.G, Not(isNil)), Not(shut)), evWhere(w), "the process ends without shutting the server down")
	}
	for _, s := range r.events("srvClose") {
		t.never("shutdown", s.G, evWhere(s), "the server is closed instead of shut down")
	}
	started := False
	for _, ev := range r.x.ev {
		switch {
		case ev.Kind == "listen":
			started = e.b.Or(started, ev.G)
		case ev.Kind == "exit":
			t.never("exit", e.b.And(e.b.And(ev.G, started), Not(shut)), evWhere(ev), "the process exits without shutting the server down")
		}
	}
}

func init() {
	checks["P32"] = checkDef{"the server's main function is interpreted with every flag and environment variable unknown, goroutine bodies from the state they start in; the guards and arguments of listening, signal, channel and shutdown events are compared with the configuration", func(r *Run) {
		r.task("server process", func(t *T) { t.process(nil).check() })
		for _, f := range []string{"json", ""} {
			f := f
			r.task("server process, log format "+f, func(t *T) { t.process(map[string]Value{"log.format": cStr(f)}).check() })
		}
	}}
}
