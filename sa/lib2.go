package main

// Checks of the operations with working keys: P02, P03, P05 to P12.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// keyedOp is a partition of an operation with a working key.
type keyedOp struct {
	o       Op
	part    []PV
	des     bool
	purpose string // pin, mac, data
	kind    string // AES or HMAC
	n       int    // key length
	resp    bool
	dec     bool
}

func isResp(p PV) bool { return p.k == 'c' && p.s == "response" }

// aesKeyed lists partitions of the AES operations with valid keys.
func aesKeyed(texts, ivs []int, acts []PV, purposes string) []keyedOp {
	var out []keyedOp
	for _, k := range keyLens {
		ty := S(aesTypes[k])
		if strings.Contains(purposes, "pin") {
			out = append(out, keyedOp{o: opAesEP, part: []PV{B(k), B(12), ANY, ANY, ty}, purpose: "pin", kind: "AES", n: k})
			out = append(out, keyedOp{o: opAesDP, part: []PV{B(k), B(12), B(16), ANY, ty}, purpose: "pin", kind: "AES", n: k, dec: true})
		}
		for _, a := range acts {
			r := isResp(a)
			if strings.Contains(purposes, "mac") {
				for _, n := range texts {
					out = append(out, keyedOp{o: opAesCmac, part: []PV{B(k), B(12), Y(n), ty, a}, purpose: "mac", kind: "AES", n: k, resp: r})
					out = append(out, keyedOp{o: opAesHmac, part: []PV{B(k), B(12), Y(n), S(hmacTypes[k]), a}, purpose: "mac", kind: "HMAC", n: k, resp: r})
				}
			}
			if strings.Contains(purposes, "data") {
				for _, n := range texts {
					for _, iv := range ivs {
						v := B(iv)
						if iv < 0 {
							v = NIL
						}
						out = append(out, keyedOp{o: opAesED, part: []PV{B(k), B(12), v, Y(n), ty, a}, purpose: "data", kind: "AES", n: k, resp: r})
						out = append(out, keyedOp{o: opAesDD, part: []PV{B(k), B(12), B(n), v, ty, a}, purpose: "data", kind: "AES", n: k, resp: r, dec: true})
					}
				}
			}
		}
	}
	return out
}

var pinFormats = []PV{S("ISO-0"), S("iso-0"), S("ISO-1"), S("ISO-2"), S("ISO-3"), S("ISO-4"), S("ANSI"), S("ansi"), S("ECI1"), S("ECI2"), S("eci3"), S("ECI4"),
	S("VISA1"), S("VISA2"), S("visa3"), S("VISA4"), S("Visa4"), S("ISO0"), S("ISO"), S(""), OTH}

func desKeyed(texts, ivs []int, acts []PV, formats []PV, purposes string) []keyedOp {
	var out []keyedOp
	if strings.Contains(purposes, "pin") {
		for _, f := range formats {
			out = append(out, keyedOp{o: opDesEP, part: []PV{B(16), ANY, ANY, f}, des: true, purpose: "pin", n: 16})
			out = append(out, keyedOp{o: opDesDP, part: []PV{B(16), B(8), ANY, f}, des: true, purpose: "pin", n: 16, dec: true})
		}
	}
	for _, a := range acts {
		r := isResp(a)
		if strings.Contains(purposes, "mac") {
			for _, n := range texts {
				out = append(out, keyedOp{o: opDesMac, part: []PV{B(16), Y(n), a}, des: true, purpose: "mac", n: 16, resp: r})
			}
		}
		if strings.Contains(purposes, "data") {
			for _, n := range texts {
				for _, iv := range ivs {
					v := B(iv)
					if iv < 0 {
						v = NIL
					}
					out = append(out, keyedOp{o: opDesED, part: []PV{B(16), v, Y(n), a}, des: true, purpose: "data", n: 16, resp: r})
					out = append(out, keyedOp{o: opDesDD, part: []PV{B(16), B(n), v, a}, des: true, purpose: "data", n: 16, resp: r, dec: true})
				}
			}
		}
	}
	return out
}

func (r *Run) keyed(ks []keyedOp, f func(t *T, x *Res, k keyedOp)) {
	for _, k := range ks {
		k := k
		r.opTask(k.o, k.part, func(t *T, x *Res) { f(t, x, k) })
	}
}

var bigTasks = make(chan bool, 4)

// keyedAfter interprets the operations in the state that other calls of them leave behind.
func (r *Run) keyedAfter(ks []keyedOp, f func(t *T, x *Res, k keyedOp)) {
	for _, k := range ks {
		k := k
		r.after(k.o, k.part, func(t *T, x *Res) { f(t, x, k) })
	}
}

// big interprets an operation on a long message.
func (r *Run) big(k keyedOp, f func(t *T, x *Res, k keyedOp)) {
	r.task(partName(k.o, k.part), func(t *T) {
		bigTasks <- true
		defer func() { <-bigTasks }()
		t.maxN = 30_000_000
		f(t, t.runOp(k.o, k.part), k)
	})
}

// workingKey is the reference working key.
func (t *T) workingKey(x *Res, k keyedOp) Value {
	if k.des {
		return t.spec(True, "TdesWorkingKey", x.arr(0), cStr(k.purpose), t.e.cbool(k.resp))[0]
	}
	return t.spec(True, "AesWorkingKey", x.arr(0), x.arr(1), cStr(k.purpose), cStr(k.kind), constBV(64, uint64(k.n)), t.e.cbool(k.resp))[0]
}

// refOut is the reference result of the operation under a working key, and when there is one.
func (t *T) refOut(x *Res, k keyedOp, key Value) (Value, Ref) {
	bo := func(v []Value) (Value, Ref) { return v[0], Ref(v[1].(BoolV)) }
	one := func(v []Value) (Value, Ref) { return v[0], True }
	switch k.o.String() {
	case "aes.EncryptPin":
		return bo(t.spec(True, "AesPinEnc", key, x.args[2], x.args[3]))
	case "aes.DecryptPin":
		return bo(t.spec(True, "AesPinDec", key, x.arr(2), x.args[3]))
	case "aes.GenerateCMAC":
		return one(t.spec(True, "AesCmac", key, x.arr(2)))
	case "aes.GenerateHMAC":
		return one(t.spec(True, "HmacSha256", key, x.arr(2)))
	case "aes.EncryptData":
		return one(t.spec(True, "AesCbcEnc", key, x.arr(2), x.arr(3)))
	case "aes.DecryptData":
		return one(t.spec(True, "AesCbcDec", key, x.arr(3), x.arr(2)))
	case "des.EncryptPin":
		return bo(t.spec(True, "TdesPinEnc", key, x.args[1], x.args[2], x.args[3]))
	case "des.DecryptPin":
		return bo(t.spec(True, "TdesPinDec", key, x.arr(1), x.args[2], x.args[3]))
	case "des.GenerateMac":
		return one(t.spec(True, "TdesMac", key, x.arr(1)))
	case "des.EncryptData":
		return one(t.spec(True, "TdesCbcEnc", key, x.arr(1), x.arr(2)))
	case "des.DecryptData":
		return one(t.spec(True, "TdesCbcDec", key, x.arr(2), x.arr(1)))
	}
	panic("no reference for " + k.o.String())
}

// deviates is a guard under which the operation does not do what the reference does with that key.
func (t *T) deviates(x *Res, k keyedOp, key Value) (Ref, string) {
	e := t.e
	want, ok := t.refOut(x, k, key)
	if d := e.b.And(x.st0.g, e.b.And(ok, Not(x.ok))); d != False {
		return d, "it does not return a result"
	}
	if d := e.b.And(x.ok, Not(ok)); d != False {
		return d, "it returns a result where there must be an error"
	}
	return e.differ(x.ok, asBytes(x.ret[0]), asBytes(want)), "its result differs from the reference"
}

// cipherKeys are the keys ciphers and MACs were keyed with.
type usedKey struct {
	kind string
	key  ArrayV
	g    Ref
	pos  string
	fn   string
}

func (x *Res) cipherKeys() []usedKey {
	var out []usedKey
	for _, ev := range x.ev {
		if ev.Kind != "cipher" || ev.Spec {
			continue
		}
		if a, ok := ev.Args[0].(ArrayV); ok {
			out = append(out, usedKey{ev.Name, a, ev.G, ev.Pos, ev.Fn})
		}
	}
	return out
}

// candidates are the working keys the operation may have used instead of the reference one.
func (t *T) candidates(x *Res, k keyedOp) []Value {
	var out []Value
	add := func(v ArrayV) {
		for _, o := range out {
			if identical(o, v) {
				return
			}
		}
		out = append(out, v)
	}
	if v, ok := x.arr(0).(ArrayV); ok {
		add(v)
	}
	var halves []ArrayV
	for _, u := range x.cipherKeys() {
		switch u.kind {
		case "tdesblock":
			if identical(ArrayV(u.key[:8]), ArrayV(u.key[16:])) {
				add(u.key[:16])
			} else {
				add(u.key)
			}
		case "desblock":
			halves = append(halves, u.key)
		default:
			add(u.key)
		}
	}
	for _, a := range halves {
		for _, b := range halves {
			if len(halves) <= 6 {
				add(append(append(ArrayV{}, a...), b...))
			}
		}
	}
	return out
}

// checkOutput: the operation computes the reference function of its input under the working key it uses.
func (t *T) checkOutput(x *Res, k keyedOp, what string) {
	bad, how := t.deviates(x, k, t.workingKey(x, k))
	if bad == False {
		t.never("output", bad, x.where(), "")
		return
	}
	for _, c := range t.candidates(x, k) {
		if d, _ := t.deviates(x, k, c); d == False {
			t.never("output", False, x.where(), "") // another working key, but the same function of the input
			return
		}
	}
	t.never("output", bad, x.where(), what+": "+how)
}

// mirror: PIN encryption and decryption work with the same key.
func (t *T) mirror(enc, dec keyedOp) {
	x := t.runOp(enc.o, enc.part)
	st := x.st0.clone()
	st.g = True
	var args []Value
	for i, p := range dec.part {
		args = append(args, t.e.param(st, dec.o.params[i], p))
	}
	y := t.invoke(t.W.fn(dec.o.pkg, dec.o.name), args, st)
	if x.ok == False || y.ok == False {
		t.never("mirror", False, x.where(), "")
		return
	}
	works := func(x *Res, k keyedOp) []Value {
		var out []Value
		for _, c := range append([]Value{t.workingKey(x, k)}, t.candidates(x, k)...) {
			if d, _ := t.deviates(x, k, c); d == False {
				out = append(out, c)
			}
		}
		return out
	}
	a, b := works(x, enc), works(y, dec)
	if len(a) == 0 || len(b) == 0 {
		return // reported on its own
	}
	for _, k := range a {
		for _, l := range b {
			if t.e.eqUnder(t.e.b.And(x.ok, y.ok), k, l) {
				t.never("mirror", False, x.where(), "")
				return
			}
		}
	}
	t.never("mirror", t.e.b.And(x.ok, y.ok), y.where(), "decrypts with another key than "+enc.o.String()+" encrypts with")
}

// units splits keys into the pieces that ciphers are keyed with.
func (t *T) units(k keyedOp, v Value) []ArrayV {
	a, ok := v.(ArrayV)
	if !ok {
		unsup("key of unknown length")
	}
	if !k.des {
		return []ArrayV{a}
	}
	var out []ArrayV
	for i := 0; i+8 <= len(a); i += 8 {
		out = append(out, t.e.desKey(a[i:i+8]))
	}
	return out
}

// checkKeys: the working key is the reference one.
func (t *T) checkKeys(x *Res, k keyedOp) {
	e := t.e
	want := t.workingKey(x, k)
	bad, _ := t.deviates(x, k, want)
	if bad == False {
		t.never("working-key", False, x.where(), "")
		return
	}
	if x.ok == False {
		t.never("working-key", False, x.where(), "")
		return
	}
	var allowed []ArrayV
	exp := t.units(k, want)
	allowed = append(allowed, exp...)
	if k.des && k.purpose == "data" {
		// the variant itself is used to derive the data key
		allowed = append(allowed, t.units(k, t.spec(True, "TdesVariant", x.arr(0), cStr(k.purpose), e.cbool(k.resp))[0])...)
	}
	if !k.des {
		allowed = append(allowed, x.arr(0).(ArrayV))
	}
	covered := make([]Ref, len(exp))
	for i := range covered {
		covered[i] = False
	}
	for _, u := range x.cipherKeys() {
		g := e.b.And(u.g, x.ok)
		if g == False {
			continue
		}
		parts := []ArrayV{u.key}
		if k.des {
			parts = nil
			for i := 0; i+8 <= len(u.key); i += 8 {
				parts = append(parts, ArrayV(u.key[i:i+8]))
			}
		}
		for _, p := range parts {
			rest := g
			for i, a := range allowed {
				if len(a) != len(p) {
					continue
				}
				eq := e.b.And(g, e.sameKey(g, p, a))
				rest = e.b.And(rest, Not(eq))
				if i < len(exp) {
					covered[i] = e.b.Or(covered[i], eq)
				}
			}
			t.never("working-key", rest, u.pos+" "+shortName(u.fn), fmt.Sprintf("%s keys a cipher with something other than the %s working key", k.o, k.purpose))
		}
	}
	text := 1
	for i, n := range k.o.params {
		if n == "plaintext" || n == "ciphertext" {
			text = k.part[i].n
		}
	}
	if text > 0 || k.purpose != "data" {
		for i := range exp {
			t.never("working-key", e.b.And(x.ok, Not(covered[i])), x.where(), "the "+k.purpose+" working key is not used")
		}
	}
	if v := x.arr(0); k.purpose != "data" || text > 0 {
		if d, _ := t.deviates(x, k, v); d == False {
			t.never("working-key", x.ok, x.where(), "works with the transaction key itself")
		}
	}
}

func shortName(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

// nonEmpty is a guard under which a result carries something.
func (e *E) nonEmpty(g Ref, v Value) Ref {
	switch x := v.(type) {
	case ArrayV:
		if len(x) == 0 {
			return False
		}
		return g
	case *Str:
		return e.b.And(g, Not(Ref(e.bvEq(e.strLen(x), constBV(64, 0)))))
	case TupleV:
		r := False
		for _, y := range x {
			r = e.b.Or(r, e.nonEmpty(g, y))
		}
		return r
	case *ChoiceV:
		r := False
		for _, a := range x.A {
			r = e.b.Or(r, e.nonEmpty(e.b.And(g, a.G), a.V))
		}
		return r
	case *SliceV:
		return e.b.And(g, Not(Ref(e.bvEq(x.Len, constBV(64, 0)))))
	case *PtrV:
		if x.Obj < 0 {
			return False
		}
		return g
	case *IfaceV:
		if x.T == nil {
			return False
		}
		return g
	case BoolV:
		return e.b.And(g, Ref(x))
	case *BV:
		return e.b.And(g, Not(Ref(e.bvEq(x, constBV(x.W, 0)))))
	}
	return g
}

// refused: the operation returns an error and an empty result.
func (t *T) refused(x *Res, when string) {
	e := t.e
	if !t.never("refused", Not(x.err), x.where(), when+", but the operation does not return an error") {
		return
	}
	for i := 0; i < len(x.raw)-1; i++ {
		t.never("empty", e.nonEmpty(x.err, x.raw[i]), x.where(), when+", and a result is returned along with the error")
	}
}

// exportedFuncs are the exported functions of the library packages, by package path.
func (w *World) exportedFuncs(paths ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, p := range paths {
		pkg := w.prog.ImportedPackage(p)
		if pkg == nil {
			continue
		}
		var names []string
		for n := range pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if f, ok := pkg.Members[n].(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() {
				out = append(out, f)
			}
		}
	}
	return out
}

// known bases of the operations for the checks that vary one parameter at a time.
func libBases() map[string][][]PV {
	m := map[string][][]PV{}
	add := func(o Op, p ...PV) { m[o.pkg+"."+o.name] = append(m[o.pkg+"."+o.name], p) }
	for _, k := range keyLens {
		ty := S(aesTypes[k])
		add(opAesIK, B(k), B(12))
		add(opAesTK, B(k), B(12))
		add(opAesEP, B(k), B(12), ANY, ANY, ty)
		add(opAesDP, B(k), B(12), B(16), ANY, ty)
		add(opAesCmac, B(k), B(12), Y(5), ty, S("request"))
		add(opAesHmac, B(k), B(12), Y(5), S(hmacTypes[k]), S("request"))
		add(opAesED, B(k), B(12), B(16), Y(5), ty, S("request"))
		add(opAesDD, B(k), B(12), B(16), B(16), ty, S("request"))
	}
	add(opDesIK, B(16), B(10))
	add(opDesTK, B(16), B(10))
	add(opDesEP, B(16), ANY, ANY, S("ISO-0"))
	add(opDesDP, B(16), B(8), ANY, S("ISO-0"))
	add(opDesMac, B(16), Y(5), S("request"))
	add(opDesED, B(16), B(8), Y(5), S("request"))
	add(opDesDD, B(16), B(8), B(8), S("request"))
	for _, n := range []string{"GenerateNextAesKsn", "GetAesTcFromKsn", "IsValidAesKsn"} {
		add(Op{pkg: pPkg, name: n}, B(12))
	}
	for _, n := range []string{"GenerateNextDesKsn", "GetDesTcFromKsn"} {
		add(Op{pkg: pPkg, name: n}, B(10))
	}
	return m
}

// opOf describes a function that is not among the known ones by its signature.
func opOf(fn *ssa.Function) Op {
	o := Op{pkg: fn.Pkg.Pkg.Path(), name: fn.Name()}
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		o.params = append(o.params, n)
	}
	return o
}

// variations of a function's arguments: one (thorough: two) parameters at a time around each base.
func (r *Run) variations(fn *ssa.Function, hi int) (Op, [][]PV) {
	o := opOf(fn)
	bases := libBases()[o.pkg+"."+o.name]
	if bases != nil && len(bases[0]) != len(fn.Params) {
		bases = nil
	}
	if bases == nil {
		var b []PV
		for _, p := range fn.Params {
			switch u := p.Type().Underlying().(type) {
			case *types.Slice:
				if bt, ok := u.Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Uint8 {
					return o, nil
				}
				b = append(b, B(16))
			case *types.Basic:
				switch {
				case u.Info()&types.IsString != 0:
					b = append(b, Y(16))
				case u.Info()&types.IsInteger != 0:
					b = append(b, PV{k: 'i'})
				default:
					return o, nil
				}
			default:
				return o, nil
			}
		}
		bases = [][]PV{b}
	}
	lens := r.lens(o, hi, r.pick(300, 2048))
	var out [][]PV
	for _, b := range bases {
		out = append(out, b)
		for i, p := range b {
			var vs []PV
			switch p.k {
			case 'b':
				vs = append(vs, NIL)
				for _, n := range lens {
					vs = append(vs, B(n))
				}
			case 'y':
				for _, n := range lens {
					vs = append(vs, Y(n))
				}
			case 'c':
				switch {
				case p.s == "request":
					vs = actions
				case strings.HasPrefix(p.s, "ISO"):
					vs = pinFormats
				default:
					vs = typeStrings
				}
			}
			for _, v := range vs {
				q := append([]PV(nil), b...)
				q[i] = v
				out = append(out, q)
			}
		}
		// two at a time, on few values
		few := func(p PV) []PV {
			switch p.k {
			case 'b':
				return []PV{NIL, B(0), B(1), B(3), B(7), B(8), B(9), B(11), B(15), B(16), B(17), B(24), B(32), B(33)}
			case 'y':
				return []PV{Y(0), Y(1), Y(8), Y(16), Y(17)}
			case 'c':
				switch {
				case p.s == "request":
					return []PV{S("response"), OTH}
				case strings.HasPrefix(p.s, "ISO"):
					return []PV{S("ISO-4"), OTH}
				}
				return []PV{S("AES128"), S("AES256"), S("HMAC192"), OTH}
			}
			return nil
		}
		for i := range b {
			for j := i + 1; j < len(b); j++ {
				if !r.deep() && b[i].k != 'b' {
					continue
				}
				for _, v := range few(b[i]) {
					for _, w := range few(b[j]) {
						q := append([]PV(nil), b...)
						q[i], q[j] = v, w
						out = append(out, q)
					}
				}
			}
		}
	}
	return o, dedup(out)
}

func (t *T) noPanic(x *Res) {
	t.noExit(x.ev, x.fn.Name())
	t.panics(x)
}

func (t *T) panics(x *Res) {
	if x.pan == False {
		t.never("no-panic", False, x.where(), "")
		return
	}
	for i := len(x.ev) - 1; i >= 0; i-- {
		ev := x.ev[i]
		if ev.Kind == "panic" {
			if g := t.e.b.And(ev.G, x.pan); g != False {
				t.never("no-panic", g, ev.Pos+" "+shortName(ev.Fn), x.fn.Name()+" can panic: "+ev.Name)
				return
			}
		}
	}
	t.never("no-panic", x.pan, x.where(), "can panic")
}

// untouched: no writes to memory that is not the operation's own, and no result that shares it.
func (t *T) untouched(x *Res) {
	bad := 0
	for _, ev := range x.ev {
		if ev.Kind == "write" && ev.G != False {
			bad++
			t.never("no-write", ev.G, ev.Pos+" "+shortName(ev.Fn), x.fn.Name()+" writes to "+ev.Name)
		}
	}
	if bad == 0 {
		t.never("no-write", False, x.where(), "")
	}
	for _, v := range x.raw {
		for _, a := range t.e.alts(x.st.g, v) {
			s, ok := a.V.(*SliceV)
			if !ok || s.Obj < 0 || s.Cap == 0 && identical(s.Len, constBV(64, 0)) {
				continue
			}
			k := t.e.objs[s.Obj]
			if pg, ok := t.e.pooled[s.Obj]; ok {
				t.never("fresh-result", t.e.b.And(a.G, pg), x.where(), "the result shares memory with a buffer put back in a pool")
			}
			t.never("fresh-result", t.e.b.And(a.G, t.e.cref(k.Kind != "local")), x.where(), "the result shares memory with "+k.Kind+" "+k.Name)
		}
	}
}

func init() {
	texts := []int{1, 16, 19}
	checks["P02"] = checkDef{"every AES operation is interpreted on symbolic keys, serial numbers and data for every key type and action; what it computes must be the reference operation under the reference working key, and the keys that reach a cipher must be that key or the transaction key", func(r *Run) {
		r.keyed(aesKeyed(texts, []int{16}, actions, "pin mac data"), func(t *T, x *Res, k keyedOp) { t.checkKeys(x, k) })
		r.keyedAfter(aesKeyed([]int{5}, []int{16}, []PV{S("request")}, "pin mac data"), func(t *T, x *Res, k keyedOp) { t.checkKeys(x, k) })
	}}
	checks["P05"] = checkDef{"as P02, for the TDES operations and the variants of table A-1", func(r *Run) {
		r.keyed(desKeyed([]int{1, 8, 11}, []int{8}, actions, []PV{S("ISO-0"), S("ISO-1"), OTH}, "pin mac data"), func(t *T, x *Res, k keyedOp) { t.checkKeys(x, k) })
		r.keyedAfter(desKeyed([]int{5}, []int{8}, []PV{S("request")}, []PV{S("ISO-0")}, "pin mac data"), func(t *T, x *Res, k keyedOp) { t.checkKeys(x, k) })
	}}
	checks["P03"] = checkDef{"the lengths of derived keys and of every key that reaches a cipher or MAC, for every key length and type name", func(r *Run) {
		for _, k := range keyLens {
			for _, n := range []int{8, 10, 12, 16} {
				k := k
				r.opTask(opAesIK, []PV{B(k), B(n)}, func(t *T, x *Res) { t.keyLength(x, k) })
			}
			r.opTask(opAesTK, []PV{B(k), B(12)}, func(t *T, x *Res) { t.keyLength(x, k) })
		}
		for _, cur := range keyLens {
			for _, k := range keyLens {
				for _, ks := range [][]keyedOp{aesKeyed([]int{5}, []int{16}, []PV{S("request"), S("response"), OTH}, "pin mac data")} {
					for _, q := range ks {
						if q.n != k {
							continue
						}
						q := q
						part := append([]PV(nil), q.part...)
						part[0] = B(cur)
						r.opTask(q.o, part, func(t *T, x *Res) {
							t.obs++
							for _, u := range x.cipherKeys() {
								if u.kind == "aesblock" && t.e.eqUnder(u.g, u.key, x.arr(0)) {
									continue
								}
								t.ob("key-length", len(u.key) == q.n, u.pos+" "+shortName(u.fn), fmt.Sprintf("a working key of %d bytes is used for a key type of %d bytes", len(u.key), q.n), u.g)
							}
						})
					}
				}
			}
		}
	}}
	checks["P06"] = checkDef{"the MAC of every message length is compared, as a term over symbolic message bytes, with the reference MAC under the key the operation uses", func(r *Run) {
		acts := []PV{S("request"), S("response"), OTH}
		for _, o := range []Op{opAesCmac, opAesHmac} {
			o := o
			r.keyed(aesKeyed(r.lens(o, r.pick(40, 100), r.pick(300, 2048)), nil, acts, "mac"), func(t *T, x *Res, k keyedOp) {
				if k.o.name == o.name {
					t.checkOutput(x, k, "the MAC is not that of the message")
				}
			})
		}
		f := func(t *T, x *Res, k keyedOp) { t.checkOutput(x, k, "the MAC is not that of the message") }
		r.keyed(desKeyed(r.lens(opDesMac, r.pick(40, 100), r.pick(300, 2048)), nil, acts, nil, "mac"), f)
		one := []PV{S("request")}
		for _, o := range []Op{opAesCmac, opAesHmac} {
			for _, k := range aesKeyed(r.bigLens(o, r.pick(40, 100)), nil, one, "mac") {
				if k.o.name == o.name && (r.deep() || k.n == 16) {
					r.big(k, f)
				}
			}
		}
		r.keyedAfter(aesKeyed([]int{5, 16, 21}, nil, one, "mac"), f)
		r.keyedAfter(desKeyed([]int{5, 8, 21}, nil, one, nil, "mac"), f)
		for _, k := range desKeyed(r.bigLens(opDesMac, r.pick(40, 100)), nil, one, nil, "mac") {
			r.big(k, f)
		}
	}}
	checks["P08"] = checkDef{"ciphertext and plaintext of every data and initial vector length are compared with the reference CBC under the key the operation uses", func(r *Run) {
		f := func(t *T, x *Res, k keyedOp) { t.checkOutput(x, k, "not the CBC of the padded data") }
		acts := []PV{S("request"), S("response")}
		ivs := []int{-1}
		for i := 0; i <= r.pick(36, 64); i++ {
			ivs = append(ivs, i)
		}
		r.keyed(aesKeyed([]int{0, 5, 32}, ivs, acts, "data"), f)
		r.keyed(desKeyed([]int{0, 5, 16}, ivs, acts, nil, "data"), f)
		r.keyed(aesKeyed(r.lens(opAesED, r.pick(40, 100), r.pick(300, 2048)), []int{-1, 16}, acts, "data"), f)
		r.keyed(desKeyed(r.lens(opDesED, r.pick(40, 100), r.pick(300, 2048)), []int{-1, 8}, acts, nil, "data"), f)
		one := []PV{S("request")}
		r.keyedAfter(aesKeyed([]int{5, 16}, []int{-1, 5, 16}, one, "data"), f)
		r.keyedAfter(desKeyed([]int{5, 8}, []int{-1, 5, 8}, one, nil, "data"), f)
		for _, k := range aesKeyed(r.bigLens(opAesED, r.pick(40, 100)), []int{16}, one, "data") {
			if r.deep() || k.n == 16 {
				r.big(k, f)
			}
		}
		for _, k := range desKeyed(r.bigLens(opDesED, r.pick(40, 100)), []int{8}, one, nil, "data") {
			r.big(k, f)
		}
	}}
	checks["P09"] = checkDef{"PIN encryption and decryption are compared with the reference over unknown PIN block functions, for every format name and ciphertext length", func(r *Run) {
		f := func(t *T, x *Res, k keyedOp) {
			t.checkOutput(x, k, "not the encryption or decryption of the PIN block of the given format, PIN and account number")
		}
		var ks []keyedOp
		ks = append(ks, aesKeyed(nil, nil, nil, "pin")...)
		ks = append(ks, desKeyed(nil, nil, nil, pinFormats, "pin")...)
		for n := 0; n <= 40; n++ {
			ks = append(ks, keyedOp{o: opDesDP, part: []PV{B(16), B(n), ANY, S("ISO-0")}, des: true, purpose: "pin", n: 16, dec: true})
			for _, k := range keyLens {
				ks = append(ks, keyedOp{o: opAesDP, part: []PV{B(k), B(12), B(n), ANY, S(aesTypes[k])}, purpose: "pin", kind: "AES", n: k, dec: true})
			}
		}
		r.keyed(ks, f)
		for i := 0; i+1 < len(ks) && i < 2*len(keyLens)+2*len(pinFormats); i += 2 {
			enc, dec := ks[i], ks[i+1]
			r.task(partName(enc.o, enc.part)+" against "+dec.o.name, func(t *T) { t.mirror(enc, dec) })
		}
		r.keyedAfter(aesKeyed(nil, nil, nil, "pin"), f)
		r.keyedAfter(desKeyed(nil, nil, nil, []PV{S("ISO-0")}, "pin"), f)
	}}
	checks["P07"] = checkDef{"decryption is interpreted on the term that encryption returned, with the same arguments; the result must be the padded plaintext", func(r *Run) {
		for _, k := range append(aesKeyed(r.lens(opAesED, r.pick(34, 100), r.pick(300, 2048)), []int{-1, 3, 16, 20}, []PV{S("request"), S("response"), OTH}, "data"),
			desKeyed(r.lens(opDesED, r.pick(34, 100), r.pick(300, 2048)), []int{-1, 3, 8, 12}, []PV{S("request"), S("response"), OTH}, nil, "data")...) {
			k := k
			if k.dec {
				continue
			}
			r.opTask(k.o, k.part, func(t *T, x *Res) { t.roundTrip(x, k) })
		}
		for _, k := range append(aesKeyed(r.bigLens(opAesED, r.pick(34, 100)), []int{16}, []PV{S("request")}, "data"),
			desKeyed(r.bigLens(opDesED, r.pick(34, 100)), []int{8}, []PV{S("request")}, nil, "data")...) {
			if !k.dec && (r.deep() || k.n == 16) {
				r.big(k, func(t *T, x *Res, k keyedOp) { t.roundTrip(x, k) })
			}
		}
	}}
	checks["P10"] = checkDef{"every operation is interpreted with a key of every length and with every key type name; where the two do not fit it must return an error and nothing else", func(r *Run) {
		for _, o := range []Op{opAesIK, opAesTK} {
			for n := 0; n <= r.pick(48, 130); n++ {
				if n != 16 && n != 24 && n != 32 {
					r.opTask(o, []PV{B(n), B(12)}, func(t *T, x *Res) { t.refused(x, "the key has no AES key length") })
				}
			}
		}
		for _, o := range []Op{opDesIK, opDesTK} {
			for n := 0; n <= r.pick(48, 130); n++ {
				if n != 16 {
					r.opTask(o, []PV{B(n), B(10)}, func(t *T, x *Res) { t.refused(x, "the key is not a 16-byte key") })
				}
			}
		}
		for _, ks := range desKeyed([]int{0, 5}, []int{8}, []PV{S("request"), S("response")}, []PV{S("ISO-0"), S("ISO-3")}, "pin mac data") {
			for n := 0; n <= r.pick(48, 130); n++ {
				if n != 16 {
					p := append([]PV(nil), ks.part...)
					p[0] = B(n)
					r.opTask(ks.o, p, func(t *T, x *Res) { t.refused(x, "the key is not a 16-byte key") })
				}
			}
		}
		for _, ks := range aesKeyed([]int{0, 5}, []int{16}, []PV{S("request"), S("response")}, "pin mac data") {
			if ks.n != 16 {
				continue
			}
			names := aesTypes
			if ks.kind == "HMAC" {
				names = hmacTypes
			}
			ti := 4
			if ks.o.name == "GenerateCMAC" || ks.o.name == "GenerateHMAC" {
				ti = 3
			}
			for n := 0; n <= r.pick(48, 130); n++ {
				for _, ty := range typeStrings {
					if ty.k == 'c' && names[n] == ty.s {
						continue
					}
					if !r.deep() && n != 16 && n != 24 && n != 32 && (ty.k == 'o' || !strings.HasPrefix(ty.s, names[16][:3])) {
						continue
					}
					p := append([]PV(nil), ks.part...)
					p[0], p[ti] = B(n), ty
					r.opTask(ks.o, p, func(t *T, x *Res) { t.refused(x, "the key does not fit the key type") })
				}
			}
		}
	}}
	checks["P11"] = checkDef{"every exported function of the library packages is interpreted on symbolic arguments of every length around each valid base; no panicking path may be satisfiable", func(r *Run) {
		for _, fn := range r.W.exportedFuncs(pAes, pDes, pPkg) {
			o, parts := r.variations(fn, r.pick(40, 80))
			if parts == nil {
				r.notes = append(r.notes, "not varied (parameter types): "+o.String())
			}
			for _, p := range parts {
				r.opTask(o, p, func(t *T, x *Res) { t.noPanic(x) })
			}
			for _, p := range r.longVariations(o, parts) {
				r.big(keyedOp{o: o, part: p}, func(t *T, x *Res, k keyedOp) { t.noPanic(x) })
			}
		}
		r.cipherTasks(func(t *T, x *Res, c cipherCase) { t.noPanic(x) })
	}}
	checks["P12"] = checkDef{"the writes of every exported function of the library packages are tracked to the object they hit: none may be an argument's backing array (including spare capacity) or package-level state, and no result may be backed by one", func(r *Run) {
		for _, fn := range r.W.exportedFuncs(pAes, pDes, pPkg) {
			o, parts := r.variations(fn, r.pick(18, 40))
			for _, p := range parts {
				q := append([]PV(nil), p...)
				for i := range q {
					if q[i].k == 'b' && !q[i].nilp {
						q[i] = q[i].sp(48)
					}
				}
				r.opTask(o, q, func(t *T, x *Res) { t.untouched(x) })
			}
		}
		r.cipherTasks(func(t *T, x *Res, c cipherCase) { t.untouched(x) })
	}}
}

// longVariations: the first partition with each argument in turn long enough for narrow counters to wrap.
func (r *Run) longVariations(o Op, parts [][]PV) (out [][]PV) {
	if parts == nil {
		return
	}
	lens := []int{256, 257, 2056, 4096 + 8}
	if n := r.wraps16(o); n > 0 {
		lens = append(lens, n)
	}
	if r.deep() {
		lens = append(lens, 255, 511, 512, 513, 2047, 2048, 8200, 16400, 65535, 65541)
	}
	for i, p := range parts[0] {
		for _, n := range lens {
			if strings.HasPrefix(o.name, "Hex") && (!r.deep() || n > 300) {
				continue
			}
			q := append([]PV(nil), parts[0]...)
			switch p.k {
			case 'b':
				q[i] = B(n)
			case 'y':
				q[i] = Y(n)
			default:
				continue
			}
			out = append(out, q)
		}
	}
	return
}

func (t *T) keyLength(x *Res, n int) {
	for _, v := range x.ret[:1] {
		for _, a := range t.e.alts(x.ok, v) {
			b, ok := a.V.(ArrayV)
			if !ok {
				unsup("derived key of unknown length")
			}
			t.ob("key-length", len(b) == n, x.where(), fmt.Sprintf("the derived key has %d bytes instead of %d", len(b), n), a.G)
		}
	}
	for _, u := range x.cipherKeys() {
		t.ob("key-length", len(u.key) == n, u.pos+" "+shortName(u.fn), fmt.Sprintf("a key of %d bytes is used where keys have %d", len(u.key), n), u.g)
	}
}

func (t *T) roundTrip(x *Res, k keyedOp) {
	e := t.e
	if x.ok == False {
		t.never("round-trip", False, x.where(), "")
		return
	}
	st := x.st.clone()
	st.g = x.ok
	var dec Op
	var args []Value
	a := x.args
	bs := 16
	if k.des {
		dec, bs = opDesDD, 8
		args = []Value{a[0], x.raw[0], a[1], a[3]}
	} else {
		dec = opAesDD
		args = []Value{a[0], a[1], x.raw[0], a[2], a[4], a[5]}
	}
	fn := t.W.fn(dec.pkg, dec.name)
	if fn == nil {
		unsup("function %s not found", dec)
	}
	pi := 3
	if k.des {
		pi = 2
	}
	y := t.invoke(fn, args, st)
	want := t.spec(x.ok, "Padded", x.arr(pi), constBV(64, uint64(bs)))[0]
	t.never("round-trip", e.b.And(x.ok, Not(y.ok)), y.where(), "does not decrypt what "+k.o.String()+" returned")
	if y.ok != False {
		t.never("round-trip", e.differ(y.ok, asBytes(y.ret[0]), want), y.where(), "decrypting what "+k.o.String()+" returned does not give the plaintext")
	}
}

// cipherCase is a call of the encryption package.
type cipherCase struct {
	ctor, method string
	key, data    int // data < 0: the constructor itself
	keyV         Value
}

// cipherTasks interprets the block cipher package: its constructors and methods.
func (r *Run) cipherTasks(f func(t *T, x *Res, c cipherCase)) {
	hi := r.pick(40, 80)
	for _, c := range r.W.exportedFuncs(pEnc) {
		o := opOf(c)
		if len(o.params) != 1 {
			r.notes = append(r.notes, "not varied: "+o.String())
			continue
		}
		for _, n := range append(r.lens(o, hi, 300), -1) {
			p := B(n).sp(48)
			if n < 0 {
				p = NIL
			}
			n := n
			if n < 0 {
				n = 0
			}
			r.opTask(o, []PV{p}, func(t *T, x *Res) { f(t, x, cipherCase{ctor: o.name, key: n, data: -1}) })
		}
		recv := c.Signature.Results().At(0).Type()
		ms := types.NewMethodSet(recv)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i)
			if !m.Obj().Exported() {
				continue
			}
			sig := m.Type().(*types.Signature)
			mf := r.W.prog.MethodValue(m)
			if mf == nil || sig.Params().Len() > 1 {
				continue
			}
			keys := []int{16, 24, 32}
			if strings.Contains(o.name, "Des") {
				keys = []int{8, 16, 24}
			}
			for _, k := range keys {
				lens := []int{0}
				if sig.Params().Len() == 1 {
					lens = append(r.lens(Op{pEnc, o.name, nil}, hi, 300), -1)
				}
				for _, n := range lens {
					k, n := k, n
					name := fmt.Sprintf("%s(%d bytes).%s(%d bytes)", o, k, m.Obj().Name(), n)
					r.task(name, func(t *T) {
						x := t.runOp(o, []PV{B(k)})
						if x.ok == False {
							return
						}
						st := x.st.clone()
						st.g = x.ok
						args := []Value{x.raw[0]}
						if sig.Params().Len() == 1 {
							p := B(n).sp(48)
							if n < 0 {
								p = NIL
							}
							args = append(args, t.e.param(st, "data", p))
						}
						y := t.invoke(mf, args, st)
						y.st0 = st
						y.args = args
						f(t, y, cipherCase{o.name, m.Obj().Name(), k, maxInt(n, 0), x.arr(0)})
					})
				}
			}
		}
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
