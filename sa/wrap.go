package main

// Checks of the unified operations: P15, P16, and P17's library and unified layers.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// libOpaque makes the operations of the libraries boundaries: they are checked on their own.
func (t *T) libOpaque() {
	e := t.e
	for _, f := range t.W.exportedFuncs(pAes, pDes) {
		e.opaque[f.String()] = true
	}
	for _, n := range []string{"HexDecode", "HexEncode", "GenerateNextAesKsn", "GenerateNextDesKsn"} {
		e.opaque[pPkg+"."+n] = true
	}
}

// fields of a struct value by name.
func structOf(t types.Type) *types.Struct { return t.Underlying().(*types.Struct) }

// uop is a unified operation.
type uop struct {
	name string
	aes  []string // hexadecimal parameters it uses with AES
	des  []string
}

var uops = []uop{
	{"InitialKey", []string{"BKD", "KSN"}, []string{"BKD", "KSN"}},
	{"TransactionKey", []string{"IK", "KSN"}, []string{"IK", "KSN"}},
	{"EncryptPin", []string{"TK", "KSN"}, []string{"TK"}},
	{"DecryptPin", []string{"TK", "KSN", "PIN"}, []string{"TK", "PIN"}},
	{"GenerateMac", []string{"TK", "KSN"}, []string{"TK"}},
	{"EncryptData", []string{"TK", "KSN", "IV"}, []string{"TK", "IV"}},
	{"DecryptData", []string{"TK", "KSN", "Ciphertext", "IV"}, []string{"TK", "Ciphertext", "IV"}},
}

// paramsOf builds the parameter struct, every field not set being any string.
func (t *T) paramsOf(typ types.Type, set map[string]Value) StructV {
	st := structOf(typ)
	out := make(StructV, st.NumFields())
	for i := range out {
		n := st.Field(i).Name()
		if v, ok := set[n]; ok {
			out[i] = v
			continue
		}
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			out[i] = tStr(t.e.newTerm(n))
			continue
		}
		out[i] = t.e.symOf(&State{g: True, heap: t.e.initHeap}, st.Field(i).Type(), t.e.newTerm(n))
	}
	return out
}

func fieldOf(typ types.Type, v StructV, name string) Value {
	st := structOf(typ)
	for i := range v {
		if st.Field(i).Name() == name {
			return v[i]
		}
	}
	unsup("no field %s", name)
	return nil
}

func (t *T) malformed(v Value) Ref { return Ref(t.spec(True, "Malformed", v)[0].(BoolV)) }

// unified interprets a unified operation on unknown parameters.
func (t *T) unified(u uop, set map[string]Value) (*Res, StructV, types.Type) {
	fn := t.W.fn(pSrv, u.name)
	if fn == nil || len(fn.Params) != 1 {
		unsup("function server.%s not found", u.name)
	}
	st := t.fresh(pSrv)
	t.libOpaque()
	typ := fn.Params[0].Type()
	p := t.paramsOf(typ, set)
	return t.invoke(fn, []Value{p}, st), p, typ
}

func (r *Run) unifiedTasks(f func(t *T, u uop, x *Res, p StructV, typ types.Type, alg string)) {
	for _, u := range uops {
		for _, alg := range []string{"aes", "des"} {
			u, alg := u, alg
			part := func(name string, set map[string]Value) {
				r.task("server."+u.name+"("+alg+name+")", func(t *T) {
					set := set
					m := map[string]Value{"Algorithm": cStr(alg)}
					for k, v := range set {
						m[k] = v
					}
					x, p, typ := t.unified(u, m)
					f(t, u, x, p, typ, alg)
				})
			}
			if u.name != "GenerateMac" {
				for _, k := range []string{"AES128", "AES192", "AES256", ""} {
					part(", key type "+k, map[string]Value{"AlgorithmKey": cStr(k)})
				}
				part("", nil)
				continue
			}
			for _, m := range []string{"cmac", "hmac", "", "CMAC", "other"} {
				for _, k := range []string{"AES128", "AES192", "AES256"} {
					part(", "+m+", key type "+k, map[string]Value{"MacType": cStr(m), "AlgorithmKey": cStr(k)})
				}
				if m != "hmac" || alg == "des" {
					part(", "+m, map[string]Value{"MacType": cStr(m)})
				}
			}
			part(", any MAC type", map[string]Value{"AlgorithmKey": cStr("AES128")})
		}
	}
}

func (t *T) anyMalformed(p StructV, typ types.Type, names []string) Ref {
	bad := False
	for _, n := range names {
		bad = t.e.b.Or(bad, t.malformed(fieldOf(typ, p, n)))
	}
	return bad
}

// failures: when an operation that was called fails, so does the caller, with an empty result.
func (t *T) failures(x *Res) {
	e := t.e
	n := 0
	for _, ev := range x.ev {
		if ev.Kind != "call" || ev.Err == False {
			continue
		}
		n++
		g := e.b.And(e.b.And(ev.G, ev.Err), Not(x.err))
		if x.hasErr {
			t.never("failure", e.b.And(g, Not(x.pan)), ev.Pos+" "+shortName(ev.Fn), "the failure of "+shortName(ev.Name)+" is not reported by "+x.fn.Name())
		}
	}
	if !x.hasErr || x.err == False {
		t.obs++
		return
	}
	for i := 0; i < len(x.raw)-1; i++ {
		t.never("empty", e.nonEmpty(x.err, x.raw[i]), x.where(), "a result is returned along with an error")
	}
}

func init() {
	checks["P15"] = checkDef{"the hexadecimal conversions are compared with the reference for every length; the unified operations are interpreted on unknown strings and must refuse whenever one they use is malformed", func(r *Run) {
		for _, n := range r.lens(opHexDec, r.pick(70, 200), r.pick(300, 1024)) {
			r.opTask(opHexDec, []PV{Y(n)}, func(t *T, x *Res) {
				e := t.e
				want := t.spec(True, "HexDec", x.args[0])
				ok := Ref(want[1].(BoolV))
				t.never("decode", Not(x.ok), x.where(), "does not return")
				t.never("decode", e.differ(ok, x.ret[0], want[0]), x.where(), "wrong bytes for a hexadecimal string")
				t.never("malformed", e.nonEmpty(Not(ok), x.raw[0]), x.where(), "bytes for a string that is not hexadecimal")
			})
		}
		for _, n := range r.lens(opHexEnc, r.pick(70, 200), r.pick(300, 1024)) {
			r.opTask(opHexEnc, []PV{B(n)}, func(t *T, x *Res) {
				want := t.spec(True, "HexEnc", x.arr(0))
				t.never("encode", Not(x.ok), x.where(), "does not return")
				t.never("encode", t.e.differ(x.ok, x.ret[0], want[0]), x.where(), "not the lower-case hexadecimal string of the bytes")
			})
		}
		r.unifiedTasks(func(t *T, u uop, x *Res, p StructV, typ types.Type, alg string) {
			names := u.aes
			if alg == "des" {
				names = u.des
			}
			for _, n := range names {
				bad := t.malformed(fieldOf(typ, p, n))
				if !t.never("malformed", t.e.b.And(bad, Not(x.err)), x.where(), "a malformed "+n+" is not refused") {
					continue
				}
				for i := 0; i < len(x.raw)-1; i++ {
					t.never("empty", t.e.nonEmpty(t.e.b.And(bad, x.err), x.raw[i]), x.where(), "a result is returned for a malformed "+n)
				}
			}
		})
	}}
	checks["P16"] = checkDef{"each unified operation is interpreted with the library operations as unknown functions; its outcome must be the reference's, which calls the operation of the same name of the selected algorithm with every parameter in its place", func(r *Run) {
		f := func(t *T, u uop, x *Res, p StructV, typ types.Type, alg string) {
			e := t.e
			want := t.spec(True, "U"+u.name, p)
			ok := Ref(want[1].(BoolV))
			valid := Not(t.anyMalformed(p, typ, []string{"BKD", "KSN", "IK", "TK", "IV", "Ciphertext"}))
			if u.name == "DecryptPin" {
				valid = e.b.And(valid, Not(t.malformed(fieldOf(typ, p, "PIN"))))
			}
			t.never("dispatch", e.b.And(valid, e.b.And(ok, Not(x.ok))), x.where(), "no result where the selected operation gives one")
			t.never("dispatch", e.b.And(valid, e.b.And(Not(ok), x.ok)), x.where(), "a result where the selected operation gives none")
			t.never("dispatch", e.differ(e.b.And(valid, e.b.And(ok, x.ok)), x.ret[0], want[0]), x.where(), "not the result of the selected operation on the given parameters"+t.called(x))
		}
		r.unifiedTasks(f)
		r.unifiedAfter(f)
		// an HMAC with a key type that is not one of the three: refused or as asked for, nothing else
		r.task("server.GenerateMac(aes, hmac, any key type)", func(t *T) {
			u := uop{}
			for _, x := range uops {
				if x.name == "GenerateMac" {
					u = x
				}
			}
			x, p, _ := t.unified(u, map[string]Value{"Algorithm": cStr("aes"), "MacType": cStr("hmac")})
			e := t.e
			want := t.spec(True, "U"+u.name, p)
			ok := Ref(want[1].(BoolV))
			t.never("key type", e.b.And(x.ok, Not(ok)), x.where(), "an HMAC where the selected operation gives none")
			t.never("key type", e.differ(e.b.And(x.ok, ok), x.ret[0], want[0]), x.where(), "not the HMAC with the HMAC key type of the given AES key type"+t.called(x))
		})
	}}
	checks["P17"] = checkDef{"every call of an operation that can fail is tracked as a guard; no state in which it failed may reach a return without an error, and no result may accompany an error", func(r *Run) {
		for _, fn := range r.W.exportedFuncs(pAes, pDes, pPkg) {
			o, parts := r.variations(fn, r.pick(34, 50))
			for _, p := range parts {
				r.opTask(o, p, func(t *T, x *Res) { t.failures(x) })
			}
		}
		r.unifiedTasks(func(t *T, u uop, x *Res, p StructV, typ types.Type, alg string) { t.failures(x) })
		r.serviceFailures()
	}}
}

func (t *T) called(x *Res) string {
	set := map[string]bool{}
	for _, ev := range x.ev {
		if ev.Kind == "call" {
			set[shortName(ev.Name)] = true
		}
	}
	var l []string
	for n := range set {
		l = append(l, n)
	}
	sort.Strings(l)
	if len(l) == 0 {
		return ""
	}
	return fmt.Sprintf(" (called: %s)", strings.Join(l, ", "))
}
