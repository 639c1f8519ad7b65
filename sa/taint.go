package main

// P30: secrets must not reach error texts, logs or printed output.

import (
	"fmt"
	"go/types"
	"strings"
)

// quiet terms stand for outcomes of calls that are checked on their own: the text of their errors.
var quietTerms = map[string]bool{"ERR": true, "ERRTEXT": true, "FAILS": true, "UNWRAP": true, "WRAPS": true}

// taint finds a secret that a value's content is computed from (guards do not count).
func (e *E) taint(v Value, secret func(t *Term) bool, allowed map[*Term]bool) *Term {
	seenT := map[*Term]bool{}
	seenV := map[int32]bool{}
	var in func(v Value) *Term
	list := func(l []Value) *Term {
		for _, a := range l {
			if t := in(a); t != nil {
				return t
			}
		}
		return nil
	}
	bits := func(rs []Ref) *Term {
		for v := range e.b.Support(rs...) {
			if seenV[v] {
				continue
			}
			seenV[v] = true
			o, ok := e.b.owner[v].(*VarOwner)
			if !ok || o.T == nil {
				continue
			}
			if o.Aspect == "len" || o.Aspect == "code" || o.Aspect == "bool" {
				continue
			}
			if t := in(o.T); t != nil {
				return t
			}
		}
		return nil
	}
	in = func(v Value) *Term {
		switch x := v.(type) {
		case *BV:
			if !x.C {
				return bits(x.bits())
			}
		case *Str:
			if x.K == 't' {
				return in(x.T)
			}
			if x.K == 'b' {
				for _, b := range x.B {
					if t := in(b); t != nil {
						return t
					}
				}
			}
		case *Term:
			if seenT[x] || quietTerms[x.Op] || allowed[x] {
				return nil
			}
			seenT[x] = true
			if secret(x) {
				return x
			}
			return list(x.Args)
		case *ChoiceV:
			for _, a := range x.A {
				if t := in(a.V); t != nil {
					return t
				}
			}
		case TupleV:
			return list(x)
		case ArrayV:
			return list(x)
		case StructV:
			return list(x)
		case *IfaceV:
			if x.T != nil {
				return in(x.V)
			}
		case *NativeV:
			if x.T != nil {
				if t := in(x.T); t != nil {
					return t
				}
			}
			return list(x.V)
		case *MapObj:
			for _, en := range x.Ents {
				if t := list([]Value{en.K, en.V}); t != nil {
					return t
				}
			}
			if x.Base != nil {
				return in(x.Base)
			}
		}
		return nil
	}
	return in(v)
}

// harmless are calls of unknown code that do not put their arguments out.
func harmless(name string) bool {
	for _, p := range []string{"context.", "path.", "path/filepath.", "runtime.", "time.", "(time.", "(*time.", "crypto/rand.", "math/rand."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// leaks checks everything that is put out: printed text, arguments of unknown code such as
// loggers, debug writers, and (given its guard) the text of an error.
func (t *T) leaks(evs []*Event, secret func(*Term) bool, allowed map[*Term]bool) {
	e := t.e
	for _, ev := range evs {
		switch ev.Kind {
		case "print", "ext":
			if ev.Kind == "ext" && harmless(ev.Name) {
				continue
			}
			var bad *Term
			for _, a := range ev.Args {
				for _, x := range e.alts(ev.G, a) {
					if s := e.taint(x.V, secret, allowed); s != nil {
						bad = s
					}
				}
			}
			what := ev.Name
			if ev.Kind == "print" {
				what = "output to " + ev.Name
			}
			t.ob("sink", bad == nil, evWhere(ev), "a secret ("+termName(bad)+") reaches "+what, ev.G)
		case "debugwriter":
			on := False
			for _, a := range ev.Args {
				for _, x := range e.alts(ev.G, a) {
					if i, ok := x.V.(*IfaceV); ok && i.T != nil {
						on = e.b.Or(on, x.G)
					}
				}
			}
			t.never("debug", on, evWhere(ev), "the PIN block encoder writes PINs and blocks to a debug writer")
		}
	}
}

func termName(t *Term) string {
	if t == nil {
		return ""
	}
	return strings.TrimPrefix(t.Op, ".")
}

// errorText checks the text of a returned error.
func (t *T) errorText(x *Res, secret func(*Term) bool, allowed map[*Term]bool) {
	e := t.e
	if !x.hasErr || x.err == False {
		t.obs++
		return
	}
	st := x.st.clone()
	st.g = x.err
	f := &frame{e: e, fn: x.fn, cur: &fstate{st: st}}
	c := &Ctx{f: f, e: e, fn: x.fn}
	save := e.muteEvents
	e.muteEvents = true
	txt := c.text(x.raw[len(x.raw)-1], 'v')
	e.muteEvents = save
	if txt == nil {
		unsup("text of the error of %s", x.fn)
	}
	for _, a := range e.alts(x.err, txt) {
		s := e.taint(a.V, secret, allowed)
		t.ob("errortext", s == nil, x.where(), fmt.Sprintf("the text of an error of %s contains a secret (%s)", x.fn.Name(), termName(s)), a.G)
	}
}

// positions of the secret arguments
var secretArgs = map[string][]int{
	"aes.DerivationOfInitialKey": {0}, "aes.DeriveCurrentTransactionKey": {0}, "aes.EncryptPin": {0, 2, 3}, "aes.DecryptPin": {0, 3},
	"aes.GenerateCMAC": {0, 2}, "aes.GenerateHMAC": {0, 2}, "aes.EncryptData": {0, 3}, "aes.DecryptData": {0},
	"des.DerivationOfInitialKey": {0}, "des.DeriveCurrentTransactionKey": {0}, "des.EncryptPin": {0, 1, 2}, "des.DecryptPin": {0, 2},
	"des.GenerateMac": {0, 1}, "des.EncryptData": {0, 2}, "des.DecryptData": {0}, "pkg.HexDecode": {0}, "pkg.HexEncode": {0},
}

var secretParams = map[string][]string{
	"InitialKey": {"BKD"}, "TransactionKey": {"IK"}, "EncryptPin": {"TK", "PIN", "PAN"}, "DecryptPin": {"TK", "PAN"},
	"GenerateMac": {"TK", "Plaintext"}, "EncryptData": {"TK", "Plaintext"}, "DecryptData": {"TK"},
}

var secretSvcArgs = map[string][]int{"EncryptPin": {1, 2}, "DecryptPin": {2}, "GenerateMac": {1}, "EncryptData": {1}}

var secretFields = map[string]bool{".BaseDerivativeKey": true, ".InitialKey": true, ".TransactionKey": true}

// termsOf are the identities of an argument.
func (e *E) termsOf(st *State, v Value, out map[*Term]bool) {
	switch x := v.(type) {
	case *Str:
		if x.K == 't' {
			out[x.T] = true
		}
		for _, b := range x.B {
			e.termsOf(st, b, out)
		}
	case *BV:
		if !x.C {
			for v := range e.b.Support(x.bits()...) {
				if o, ok := e.b.owner[v].(*VarOwner); ok && o.T != nil {
					out[o.T] = true
				}
			}
		}
	case *SliceV:
		if x.Obj >= 0 {
			e.termsOf(st, e.snap(st, x), out)
		}
	case ArrayV:
		for _, y := range x {
			e.termsOf(st, y, out)
		}
	case *Term:
		out[x] = true
	}
}

func firstIsStr(args []Value) bool {
	if len(args) == 0 {
		return false
	}
	_, ok := args[0].(*Str)
	return ok
}

// secrets among the fields of a request
var secretBody = map[string]map[string]bool{
	"CreateMachine": {"basederivativekey": true}, "EncryptPin": {"pin": true, "pan": true}, "DecryptPin": {"pan": true},
	"GenerateMac": {"data": true}, "EncryptData": {"data": true},
}

// httpLeaks checks the logs of a request and the body of a failed one.
func (t *T) httpLeaks(h hroute) {
	x := t.runRoute(h)
	e := t.e
	names := secretBody[h.op]
	res := map[*Term]bool{}
	fail := False
	for _, ev := range x.ev {
		if ev.Kind != "svc" && ev.Kind != "decode" {
			continue
		}
		fail = e.b.Or(fail, e.b.And(ev.G, ev.Err))
		if ev.Kind == "svc" && (ev.Name == "DecryptPin" || ev.Name == "DecryptData") {
			if tv, ok := ev.Res.(TupleV); ok {
				e.termsOf(x.st, tv[0], res)
			}
		}
	}
	sec := func(s *Term) bool {
		if s.Op == "FIELD" && len(s.Args) == 2 && s.Args[0] == Value(x.body0) {
			n, ok := s.Args[1].(*Str)
			return ok && names[n.S]
		}
		return res[s] || s == x.body0 && len(names) > 0 || secretFields[s.Op] || strings.HasPrefix(s.Op, "MADE.") && secretFields["."+s.Op[5:]]
	}
	t.leaks(x.ev, sec, nil)
	for _, a := range e.alts(e.b.And(x.g, fail), x.body) {
		if a.G == False {
			continue
		}
		s := e.taint(a.V, sec, nil)
		t.ob("answer", s == nil, x.where(), "the answer to a failed "+h.String()+" contains a secret ("+termName(s)+")", a.G)
	}
}

var secretFlags = map[string]bool{"ik.bdk": true, "tk.ik": true, "ep.tk": true, "ep.pin": true, "ep.pan": true, "dp.tk": true, "dp.pan": true,
	"gm.tk": true, "gm.data": true, "en.tk": true, "en.data": true, "de.tk": true}

// leaks checks what the tool prints besides its result.
func (r *cliRun) leaks() {
	t := r.t
	sec := func(s *Term) bool {
		if s.Op == "FLAG" {
			n, ok := s.Args[0].(*Str)
			return ok && secretFlags[n.S]
		}
		return s.Op == "RES0"
	}
	result := map[*Term]bool{}
	for _, ev := range r.calls {
		if res := r.resTerm(ev); res != nil {
			result[res] = true
		}
	}
	var out, rest []*Event
	for _, ev := range r.x.ev {
		if ev.Kind == "print" && ev.Name == "stdout" {
			out = append(out, ev)
		} else {
			rest = append(rest, ev)
		}
	}
	t.leaks(out, sec, result)
	t.leaks(rest, sec, nil)
}

func init() {
	checks["P30"] = checkDef{"keys, PINs, account numbers and plaintext are marked at their sources; the content of every error text, printed line, debug writer and argument of a logger or other unknown code is traced back through the computed values, and must not reach a mark", func(r *Run) {
		// libraries
		for _, fn := range r.W.exportedFuncs(pAes, pDes, pPkg) {
			o, parts := r.variations(fn, r.pick(34, 50))
			idx := secretArgs[o.String()]
			for _, p := range parts {
				r.opTask(o, p, func(t *T, x *Res) {
					src := map[*Term]bool{}
					for _, i := range idx {
						if i < len(x.args) {
							t.e.termsOf(x.st0, x.args[i], src)
						}
					}
					sec := func(s *Term) bool { return src[s] }
					t.leaks(x.ev, sec, nil)
					t.errorText(x, sec, nil)
				})
			}
		}
		r.cipherTasks(func(t *T, x *Res, c cipherCase) {
			src := map[*Term]bool{}
			for _, a := range x.args {
				t.e.termsOf(x.st0, a, src)
			}
			if c.keyV != nil {
				t.e.termsOf(x.st0, c.keyV, src)
			}
			sec := func(s *Term) bool { return src[s] }
			t.leaks(x.ev, sec, nil)
			t.errorText(x, sec, nil)
		})
		// unified operations
		r.unifiedTasks(func(t *T, u uop, x *Res, p StructV, typ types.Type, alg string) {
			src := map[*Term]bool{}
			for _, n := range secretParams[u.name] {
				t.e.termsOf(x.st0, fieldOf(typ, p, n), src)
			}
			sec := func(s *Term) bool { return src[s] }
			t.leaks(x.ev, sec, nil)
			t.errorText(x, sec, nil)
		})
		// service and store
		for _, d := range []svcState{{"C", []string{"aes"}}, {"C", []string{"des"}}, {"", nil}, {"Ca", []string{"aes"}}} {
			for _, m := range r.ifaceMethods("Service") {
				for _, hit := range []bool{false, true} {
					d, m, hit := d, m, hit
					if hit && d.script == "" {
						continue
					}
					how := ", any name"
					if hit {
						how = ", the machine's name"
					}
					r.task("service."+m.Name()+" "+d.String()+how, func(t *T) {
						s := t.newSvc()
						s.script(d.script, d.algs)
						if s.st.g == False {
							return
						}
						args := s.callArgs(m, "")
						allowed := map[*Term]bool{}
						if firstIsStr(args) {
							if hit {
								args[0] = s.iks[0]
							}
							t.e.termsOf(s.st, args[0], allowed)
						} else if hit {
							return
						}
						src := map[*Term]bool{}
						for _, i := range secretSvcArgs[m.Name()] {
							if i < len(args) {
								t.e.termsOf(s.st, args[i], src)
							}
						}
						x := s.do(m.Name(), args...)
						ok := func(y *Term) bool { return src[y] || secretFields[y.Op] }
						t.leaks(x.ev, ok, allowed)
						t.errorText(x, ok, allowed)
					})
				}
			}
		}
		// HTTP
		for _, h := range hroutes {
			h := h
			r.task(h.String(), func(t *T) { t.httpLeaks(h) })
		}
		// command line
		r.cliTasks(func(t *T, x *cliRun) { x.leaks() })
	}}
}
