package main

// P39: no request and no command line crashes the program.

import "go/types"

func (t *T) httpNoPanic(x *hres, what string) {
	t.noExit(x.ev, "the handling of "+what)
	if x.pan != False {
		for i := len(x.ev) - 1; i >= 0; i-- {
			if ev := x.ev[i]; ev.Kind == "panic" {
				if g := t.e.b.And(ev.G, x.pan); g != False {
					t.never("no-panic", g, evWhere(ev), "the handling of "+what+" can panic: "+ev.Name)
					return
				}
			}
		}
	}
	t.never("no-panic", x.pan, x.where(), "the handling of "+what+" can panic")
}

func init() {
	checks["P39"] = checkDef{"the unified operations, the service on symbolic stores, the HTTP handlers on documented and other requests, and the main functions of the two commands are interpreted; the guards of indexing, slicing, conversion, nil dereference, type assertion, division, map write, explicit panic and endless loop must be false", func(r *Run) {
		r.unifiedTasks(func(t *T, u uop, x *Res, p StructV, typ types.Type, alg string) { t.noPanic(x) })
		states := []svcState{{"", nil}, {"C", []string{"aes"}}, {"C", []string{"des"}}, {"CC", []string{"aes", "des"}}, {"Ca", []string{"aes"}}, {"Cd", []string{"des"}}, {"CD", []string{"aes"}}}
		for _, d := range states {
			for _, m := range r.ifaceMethods("Service") {
				for _, hit := range []bool{false, true} {
					d, m, hit := d, m, hit
					if hit && d.script == "" {
						continue
					}
					how := ", any name"
					if hit {
						how = ", the machine's name"
					}
					r.task("service."+m.Name()+" "+d.String()+how, func(t *T) {
						s := t.newSvc()
						s.script(d.script, d.algs)
						if s.st.g == False {
							return
						}
						args := s.callArgs(m, "")
						if hit {
							if !firstIsStr(args) {
								return
							}
							args[0] = s.iks[0]
						}
						t.noPanic(s.do(m.Name(), args...))
					})
				}
			}
		}
		for _, h := range hroutes {
			h := h
			r.task(h.String(), func(t *T) { t.httpNoPanic(t.runRoute(h), h.String()) })
		}
		for _, p := range append(probes("OPTIONS", "GET", "POST"), probes("")...) {
			p := p
			r.task(p.name, func(t *T) {
				x, _, _ := t.serveProbe(p)
				t.httpNoPanic(x, p.name)
			})
		}
		r.cliTasks(func(t *T, x *cliRun) { t.panics(x.x) })
		r.task("server process", func(t *T) { t.panics(t.process(nil).x) })
	}}
}
