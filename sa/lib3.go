package main

// Checks of serial numbers, hexadecimal and block ciphers: P13, P14, P15 (conversions), P31.

import "fmt"

var (
	opNextAes  = Op{pPkg, "GenerateNextAesKsn", []string{"ksn"}}
	opNextDes  = Op{pPkg, "GenerateNextDesKsn", []string{"ksn"}}
	opTcAes    = Op{pPkg, "GetAesTcFromKsn", []string{"ksn"}}
	opTcDes    = Op{pPkg, "GetDesTcFromKsn", []string{"ksn"}}
	opValidAes = Op{pPkg, "IsValidAesKsn", []string{"ksn"}}
	opHexDec   = Op{pPkg, "HexDecode", []string{"data"}}
	opHexEnc   = Op{pPkg, "HexEncode", []string{"data"}}
)

// limits lists the counters taken alone where all at once are too many.
func limits(n int) []uint32 {
	if n == 12 {
		return nearLimit(32, 16)
	}
	return nearLimit(21, 10)
}

func init() {
	checks["P13"] = checkDef{"the successor of a symbolic serial number is compared bit by bit, as Boolean functions of its bits, with the reference successor", func(r *Run) {
		next := func(o Op, n int, ref string) {
			f := func(t *T, x *Res) {
				e := t.e
				want := t.spec(True, ref, x.arr(0))
				has := e.b.And(x.st0.g, Ref(want[1].(BoolV)))
				t.never("next", e.b.And(has, Not(x.ok)), x.where(), "no serial number is returned although there is a next one")
				t.never("next", e.differ(e.b.And(has, x.ok), x.ret[0], want[0]), x.where(), "not the serial number with the next valid counter")
			}
			r.apart(o, []PV{B(n)}, 0, limits(n), f)
			if n >= 10 {
				r.after(o, []PV{B(n)}, f)
			}
		}
		next(opNextAes, 12, "NextAes")
		for n := 4; n <= 10; n++ {
			next(opNextDes, n, "NextTdes")
			r.opTask(opTcDes, []PV{B(n)}, func(t *T, x *Res) { t.mustEqual(x, "TdesCounter", x.arr(0)) })
		}
		r.opTask(opTcAes, []PV{B(12)}, func(t *T, x *Res) { t.mustEqual(x, "AesCounter", x.arr(0)) })
		r.apart(opValidAes, []PV{B(12)}, 0, limits(12), func(t *T, x *Res) { t.mustEqual(x, "ValidAes", x.arr(0)) })
	}}
	checks["P14"] = checkDef{"where the reference successor does not exist, or the serial number has a length that cannot be used, the operation must return an error and nothing else", func(r *Run) {
		exhausted := func(o Op, n int, ref string) {
			r.apart(o, []PV{B(n)}, 0, limits(n), func(t *T, x *Res) {
				e := t.e
				want := t.spec(True, ref, x.arr(0))
				none := Not(Ref(want[1].(BoolV)))
				t.never("exhausted", e.b.And(none, Not(x.err)), x.where(), "no error for an exhausted counter")
				t.never("empty", e.nonEmpty(x.err, x.raw[0]), x.where(), "a serial number is returned along with the error")
				// whatever is returned: no wrap-around, nothing spilled outside the counter
				if x.ok != False {
					t.never("in-range", t.outOfRange(x, n), x.where(), "the counter wraps around, exceeds its maximum or spills into the other bits")
				}
			})
		}
		exhausted(opNextAes, 12, "NextAes")
		for n := 4; n <= 10; n++ {
			exhausted(opNextDes, n, "NextTdes")
		}
		bad := func(o Op, p []PV) {
			r.opTask(o, p, func(t *T, x *Res) { t.refused(x, "the serial number has a length that cannot be used") })
		}
		for n := -1; n <= r.pick(48, 300); n++ {
			p := B(n)
			if n < 0 {
				p = NIL
			}
			if n != 12 {
				bad(opNextAes, []PV{p})
				for _, k := range keyLens {
					bad(opAesTK, []PV{B(k), p})
					ty := S(aesTypes[k])
					bad(opAesEP, []PV{B(k), p, ANY, ANY, ty})
					bad(opAesDP, []PV{B(k), p, B(16), ANY, ty})
					bad(opAesCmac, []PV{B(k), p, Y(5), ty, S("request")})
					bad(opAesHmac, []PV{B(k), p, Y(5), S(hmacTypes[k]), S("response")})
					bad(opAesED, []PV{B(k), p, B(16), Y(5), ty, S("request")})
					bad(opAesDD, []PV{B(k), p, B(16), B(16), ty, S("response")})
				}
			}
			if n < 8 {
				for _, k := range keyLens {
					bad(opAesIK, []PV{B(k), p})
				}
			}
			if n <= 3 || n > 10 {
				bad(opNextDes, []PV{p})
			}
			if n > 10 {
				bad(opDesIK, []PV{B(16), p})
				bad(opDesTK, []PV{B(16), p})
			}
		}
	}}
	checks["P31"] = checkDef{"the block cipher types are interpreted for every key and block length and compared with the primitive under the key given", func(r *Run) {
		r.cipherTasks(func(t *T, x *Res, c cipherCase) { t.blockCipher(x, c) })
		// ciphers are independent of the ones made before
		for _, c := range []struct {
			name string
			n    []int
			bs   int
		}{{"NewAesECB", []int{16, 24, 32}, 16}, {"NewDesECB", []int{8}, 8}, {"NewTripleDesECB", []int{16, 24}, 8}} {
			c := c
			fn := r.W.fn(pEnc, c.name)
			if fn == nil {
				continue
			}
			o := opOf(fn)
			for _, n := range c.n {
				for k := 1; k <= 8*n; k++ {
					if !r.deep() && k%8 != k/8%8 {
						continue
					}
					for _, m := range []string{"Encrypt", "Decrypt"} {
						n, m, w := n, m, B(n)
						w.flip = k
						r.task(fmt.Sprintf("%s(%s).%s after %s(%s)", o, B(n), m, o, w), func(t *T) {
							y := t.runOp(o, []PV{w})
							if y.ok == False {
								return
							}
							call := func(x *Res) *Res {
								st := x.st.clone()
								st.g = x.ok
								mt := fn.Signature.Results().At(0).Type()
								sel := t.W.prog.MethodSets.MethodSet(mt).Lookup(fn.Pkg.Pkg, m)
								if sel == nil {
									unsup("no method %s", m)
								}
								return t.invoke(t.W.prog.MethodValue(sel), []Value{x.raw[0], t.e.param(st, "data", B(c.bs))}, st)
							}
							z := call(y)
							st := z.st.clone()
							x := t.invoke(y.fn, []Value{t.e.param(st, o.params[0], B(n))}, st)
							if x.ok == False {
								return
							}
							u := call(x)
							t.blockCipher(u, cipherCase{c.name, m, n, c.bs, x.arr(0)})
						})
					}
				}
			}
		}
	}}
}

// outOfRange: a returned serial number that is not a strict successor within the counter's bits.
func (t *T) outOfRange(x *Res, n int) Ref {
	e := t.e
	bad := False
	in := x.arr(0).(ArrayV)
	for _, a := range e.alts(x.ok, x.ret[0]) {
		out, ok := a.V.(ArrayV)
		if !ok || len(out) != n {
			bad = e.b.Or(bad, a.G)
			continue
		}
		var oc, ic *BV
		same := ArrayV{}
		orig := ArrayV{}
		max := uint64(0xFFFF0000)
		if x.fn.Name() == opNextAes.name {
			same, orig = out[:8], in[:8]
			oc, ic = cat32(out[8:12]), cat32(in[8:12])
		} else {
			max = 0x1FF800
			mask := func(b Value) Value {
				return mkBV(append(append([]Ref{}, False, False, False, False, False), b.(*BV).bits()[5:]...))
			}
			low := func(b Value) Value {
				return mkBV(append(append([]Ref{}, b.(*BV).bits()[:5]...), False, False, False))
			}
			same = append(append(same, out[:n-3]...), mask(out[n-3]))
			orig = append(append(orig, in[:n-3]...), mask(in[n-3]))
			oc = cat32(ArrayV{constBV(8, 0), low(out[n-3]), out[n-2], out[n-1]})
			ic = cat32(ArrayV{constBV(8, 0), low(in[n-3]), in[n-2], in[n-1]})
		}
		g := e.differ(a.G, same, orig)
		g = e.b.Or(g, e.b.And(a.G, e.ult(constBV(32, max), oc)))
		g = e.b.Or(g, e.b.And(a.G, Not(e.ult(ic, oc))))
		bad = e.b.Or(bad, g)
	}
	return bad
}

// cat32 joins four bytes, most significant first.
func cat32(b []Value) *BV {
	var bits []Ref
	for i := 3; i >= 0; i-- {
		bits = append(bits, b[i].(*BV).bits()...)
	}
	return mkBV(bits)
}

// blockCipher checks one call of the block cipher types.
func (t *T) blockCipher(x *Res, c cipherCase) {
	e := t.e
	var sizes map[int]bool
	bs, enc, dec := 8, "", ""
	switch c.ctor {
	case "NewAesECB":
		sizes, bs, enc, dec = map[int]bool{16: true, 24: true, 32: true}, 16, "AesE", "AesD"
	case "NewDesECB":
		sizes, enc, dec = map[int]bool{8: true}, "DesE", "DesD"
	case "NewTripleDesECB":
		sizes, enc, dec = map[int]bool{16: true, 24: true}, "TdesE", "TdesD"
	default:
		return
	}
	if c.data < 0 {
		if sizes[c.key] {
			t.never("key-size", Not(x.ok), x.where(), "refuses a key of its algorithm's size")
		} else {
			t.refused(x, fmt.Sprintf("a key of %d bytes", c.key))
		}
		return
	}
	if !sizes[c.key] {
		return
	}
	ref := enc
	switch c.method {
	case "Encrypt":
	case "Decrypt":
		ref = dec
	default:
		return
	}
	if c.data != bs {
		t.refused(x, fmt.Sprintf("a block of %d bytes", c.data))
		return
	}
	want := t.spec(True, ref, c.keyV, x.arr(1))[0]
	t.never("block", e.b.And(x.st0.g, Not(x.ok)), x.where(), "does not transform a block")
	t.never("block", e.differ(x.ok, x.ret[0], want), x.where(), "is not the block cipher under the given key")
	t.never("block-input", e.differ(x.ok, e.snap(x.st, x.args[1]), x.arr(1)), x.where(), "changes its input")
	t.untouched(x)
}
