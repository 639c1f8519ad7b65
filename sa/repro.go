package main

// P40: results depend on the arguments (and the stored machines) only, and nothing outside is touched.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// worldly are calls whose result is not determined by their arguments.
func worldly(name string) bool {
	for _, p := range []string{"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewT", "math/rand", "(*math/rand", "(math/rand", "crypto/rand.", "os.", "(*os.", "os/",
		"(*os/", "net.", "(*net.", "(net.", "net/http.", "(*net/http.", "(net/http.", "runtime.", "syscall.", "io.ReadFull", "io.ReadAtLeast"} {
		if strings.HasPrefix(name, p) {
			return !strings.HasPrefix(name, "net/http.StatusText") && !strings.HasPrefix(name, "net.ParseIP") && !strings.HasPrefix(name, "net.ParseCIDR") && !strings.HasPrefix(name, "net.JoinHostPort") &&
				!strings.HasPrefix(name, "net.SplitHostPort") && !strings.HasPrefix(name, "os.Is") && !strings.HasPrefix(name, "runtime.KeepAlive")
		}
	}
	return false
}

// outside are calls that act on something outside the program's memory.
func outside(name string) bool {
	for _, p := range []string{"os.Chdir", "os.Chmod", "os.Chown", "os.Chtimes", "os.Lchown", "os.Clearenv", "os.Setenv", "os.Unsetenv", "os.Create", "os.WriteFile", "os.Mkdir", "os.Remove", "os.Rename",
		"os.Symlink", "os.Link", "os.Truncate", "os.OpenFile", "os.StartProcess", "os.CopyFS", "(*os.File).Write", "(*os.File).Trunc", "(*os.Process)", "os/exec.", "(*os/exec.",
		"net.Dial", "net.Listen", "(*net.Dialer)", "net.FileListener", "net/http.Get", "net/http.Post", "net/http.Head", "net/http.ListenAndServe", "net/http.Serve", "(*net/http.Client)", "(*net/http.Server)",
		"(*net/http.Transport)", "syscall.", "os/signal.", "io/ioutil.WriteFile", "io/ioutil.Temp", "(net.Conn).Write", "net/smtp.", "log/syslog.", "(*log/syslog"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// worldOf finds something outside the arguments that a value is computed from, under guard g.
func (e *E) worldOf(g Ref, v Value) *Term {
	seenT := map[*Term]bool{}
	seenV := map[int32]bool{}
	var in func(v Value) *Term
	list := func(l []Value) *Term {
		for _, a := range l {
			if t := in(a); t != nil {
				return t
			}
		}
		return nil
	}
	bits := func(rs ...Ref) *Term {
		for i := range rs {
			if g != True {
				// only what can be seen under g
				a, b := e.b.And(g, rs[i]), e.b.And(g, Not(rs[i]))
				if a == False || b == False {
					rs[i] = True
				}
			}
		}
		for v := range e.b.Support(rs...) {
			if seenV[v] {
				continue
			}
			seenV[v] = true
			if o, ok := e.b.owner[v].(*VarOwner); ok && o.T != nil {
				if t := in(o.T); t != nil {
					return t
				}
			}
		}
		return nil
	}
	in = func(v Value) *Term {
		switch x := v.(type) {
		case *BV:
			if !x.C {
				return bits(append([]Ref(nil), x.bits()...)...)
			}
		case BoolV:
			return bits(Ref(x))
		case *Str:
			if x.K == 't' {
				return in(x.T)
			}
			for _, b := range x.B {
				if t := in(b); t != nil {
					return t
				}
			}
		case *Term:
			if seenT[x] {
				return nil
			}
			seenT[x] = true
			if x.world || x.Op == "ENV" || x.Op == "ENVSET" || x.Op == "POOL" || x.Op == "trylock" || x.Op == "stdin" {
				return x
			}
			return list(x.Args)
		case *ChoiceV:
			for _, a := range x.A {
				if t := bits(a.G); t != nil {
					return t
				}
				if t := in(a.V); t != nil {
					return t
				}
			}
		case TupleV:
			return list(x)
		case ArrayV:
			return list(x)
		case StructV:
			return list(x)
		case *SliceV:
			if x.Len != nil {
				return in(x.Len)
			}
		case *MapObj:
			for _, en := range x.Ents {
				if t := list([]Value{en.K, en.V}); t != nil {
					return t
				}
			}
		case *SymArr:
			return in(x.T)
		case *IfaceV:
			if x.T != nil {
				return in(x.V)
			}
		case *NativeV:
			if x.T != nil {
				if t := in(x.T); t != nil {
					return t
				}
			}
			return list(x.V)
		}
		return nil
	}
	return in(v)
}

// reproducible: neither the outcome nor the stored state depends on anything but the arguments,
// and nothing outside is acted on.
func (t *T) reproducible(x *Res, roots ...Value) {
	e := t.e
	bad := func(what string, w *Term, g Ref) {
		n := ""
		if w != nil {
			n = w.Op
		}
		t.ob("reproducible", w == nil, x.where(), what+" of "+x.fn.Name()+" depends on "+strings.TrimSuffix(n, "()")+", which is no argument", g)
	}
	bad("the outcome", e.worldOf(True, BoolV(x.ok)), x.st0.g)
	for _, v := range x.ret {
		if x.st.g != False {
			bad("the result", e.worldOf(x.st.g, v), x.st.g)
		}
	}
	if len(roots) > 0 && x.st.g != False {
		out := map[int]bool{}
		for _, r := range roots {
			e.reach(x.st, r, out)
		}
		for id := 0; id < len(e.objs); id++ {
			if !out[id] {
				continue
			}
			if c := hget(x.st.heap, id); c != nil {
				if w := e.worldOf(x.st.g, untimed(e.objs[id].T, c)); w != nil {
					bad("the stored state ("+e.objs[id].Name+")", w, x.st.g)
					break
				}
			}
		}
	}
	n := 0
	for _, ev := range x.ev {
		switch {
		case ev.G == False:
		case ev.Kind == "ext" && outside(ev.Name):
			n++
			t.never("outside", ev.G, evWhere(ev), x.fn.Name()+" acts on something outside the program: "+ev.Name)
		case ev.Kind == "print" && ev.Name == "stdout":
			n++
			t.never("outside", ev.G, evWhere(ev), x.fn.Name()+" prints to the standard output")
		case ev.Kind == "exit":
			n++
			t.never("outside", ev.G, evWhere(ev), x.fn.Name()+" ends the program")
		}
	}
	if n == 0 {
		t.never("outside", False, x.where(), "")
	}
}

// untimed leaves out fields of type time.Time: a machine's creation time is a time.
func untimed(typ types.Type, v Value) Value {
	if typ == nil {
		return v
	}
	st, ok := typ.Underlying().(*types.Struct)
	s, isS := v.(StructV)
	if !ok || !isS || st.NumFields() != len(s) {
		return v
	}
	out := make(StructV, len(s))
	for i := range s {
		out[i] = untimed(st.Field(i).Type(), s[i])
		if st.Field(i).Type().String() == "time.Time" {
			out[i] = StructV{}
		}
	}
	return out
}

// noExit: the program is not ended.
func (t *T) noExit(evs []*Event, what string) {
	for _, ev := range evs {
		if ev.Kind == "exit" && ev.G != False {
			t.never("no-exit", ev.G, evWhere(ev), what+" ends the program")
			return
		}
	}
}

// again interprets a call in a fresh state and after another call: the outcomes must be the same.
func (t *T) again(st *State, fn *ssa.Function, args []Value, earlier *ssa.Function, eargs []Value) {
	e := t.e
	x0 := t.invoke(fn, args, st.clone())
	y := t.invoke(earlier, eargs, st.clone())
	if y.st.g == False {
		return
	}
	// what the earlier call left behind
	x := t.invoke(fn, args, y.st.clone())
	g := e.b.And(y.st.g, Not(x0.pan))
	msg := fmt.Sprintf(" of %s is another one after a call of %s", fn.Name(), earlier.Name())
	if !t.never("again", e.b.And(g, e.b.Xor(x0.ok, e.b.And(x.ok, g))), x.where(), "the outcome"+msg) {
		return
	}
	g = e.b.And(g, e.b.And(x0.ok, x.ok))
	for i := range x.ret {
		if x.hasErr && i == len(x.ret)-1 {
			continue
		}
		t.never("again", e.differ(g, x.ret[i], x0.ret[i]), x.where(), "the result"+msg)
	}
}

// unifiedAfter interprets a unified operation in the state that another one has left behind.
func (r *Run) unifiedAfter(f func(t *T, u uop, x *Res, p StructV, typ types.Type, alg string)) {
	for _, u := range uops {
		for _, alg := range []string{"aes", "des"} {
			for _, v := range uops {
				for _, alg2 := range []string{"aes", "des"} {
					u, v, alg, alg2 := u, v, alg, alg2
					if v.name != u.name && alg2 != alg {
						continue
					}
					r.task("server."+u.name+"("+alg+") after server."+v.name+"("+alg2+")", func(t *T) {
						fn, fn2 := t.W.fn(pSrv, u.name), t.W.fn(pSrv, v.name)
						if fn == nil || fn2 == nil || len(fn.Params) != 1 || len(fn2.Params) != 1 {
							unsup("function server.%s not found", u.name)
						}
						st := t.fresh(pSrv)
						t.libOpaque()
						typ := fn.Params[0].Type()
						q := t.paramsOf(typ, t.earlier(typ, alg2))
						p := t.paramsOf(typ, map[string]Value{"Algorithm": cStr(alg), "AlgorithmKey": cStr("AES128"), "MacType": cStr("cmac")})
						if f == nil {
							t.again(st, fn, []Value{p}, fn2, []Value{q})
							return
						}
						y := t.invoke(fn2, []Value{q}, st)
						if y.st.g == False {
							return
						}
						f(t, u, t.invoke(fn, []Value{p}, y.st.clone()), p, typ, alg)
					})
				}
			}
		}
	}
}

func (t *T) earlier(typ types.Type, alg string) map[string]Value {
	st := structOf(typ)
	m := map[string]Value{"Algorithm": cStr(alg), "AlgorithmKey": cStr("AES128"), "MacType": cStr("cmac")}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && m[n] == nil && b.Info()&types.IsString != 0 {
			m[n] = tStr(t.e.newTerm("earlier " + n))
		}
	}
	return m
}

func init() {
	checks["P40"] = checkDef{"the outcome, the result and the stored state of every operation are traced back to what they are computed from: only arguments and stored machines are allowed; calls that act outside are violations; each operation is compared with itself after every other one", func(r *Run) {
		type base struct {
			fn *ssa.Function
			o  Op
			p  []PV
		}
		var bases []base
		for _, fn := range r.W.exportedFuncs(pAes, pDes, pPkg) {
			fn := fn
			o, parts := r.variations(fn, r.pick(18, 40))
			for _, p := range parts {
				r.opTask(o, p, func(t *T, x *Res) { t.reproducible(x) })
			}
			if len(parts) > 0 {
				bases = append(bases, base{fn, o, parts[0]})
			}
		}
		for _, b := range bases {
			for _, c := range bases {
				if b.o.pkg != c.o.pkg {
					continue
				}
				b, c := b, c
				qs := [][]PV{c.p}
				if !r.deep() && b.o.pkg == pPkg {
					qs = nil
				}
				for _, q := range qs {
					q := q
					r.task(partName(b.o, b.p)+" after "+partName(c.o, q), func(t *T) {
						st := t.fresh(b.o.pkg)
						var args, eargs []Value
						for i, v := range b.p {
							args = append(args, t.e.param(st, b.o.params[i], v))
						}
						for i, v := range q {
							eargs = append(eargs, t.e.param(st, "earlier "+c.o.params[i], v))
						}
						t.again(st, b.fn, args, c.fn, eargs)
					})
				}
			}
		}
		r.cipherTasks(func(t *T, x *Res, c cipherCase) { t.reproducible(x) })
		r.unifiedTasks(func(t *T, u uop, x *Res, p StructV, typ types.Type, alg string) { t.reproducible(x) })
		r.unifiedAfter(nil)
		depth := 2
		if r.tier == "thorough" {
			depth = 3
		}
		for _, d := range r.svcStatesTo(depth) {
			for _, m := range r.ifaceMethods("Service") {
				d, m := d, m
				r.task("service."+m.Name()+" "+d.String(), func(t *T) {
					s := t.newSvc()
					s.script(d.script, d.algs)
					if s.st.g == False {
						return
					}
					x := s.do(m.Name(), s.callArgs(m, "")...)
					t.reproducible(x, s.root.V)
				})
			}
		}
	}}
}
