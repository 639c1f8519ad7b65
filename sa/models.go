package main

// Models of functions outside the analysed source.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Ctx struct {
	f    *frame
	e    *E
	fn   *ssa.Function
	name string
}

type Intrinsic struct {
	f   func(c *Ctx, a []Value) Value
	raw bool // handles gated arguments itself
}

// readsOnly are slice parameters that models only read.
var readsOnly = map[string][]int{"crypto/aes.NewCipher": {0}, "crypto/des.NewCipher": {0}, "crypto/des.NewTripleDESCipher": {0},
	"crypto/cipher.NewCBCEncrypter": {1}, "crypto/cipher.NewCBCDecrypter": {1}, "crypto/hmac.New": {1}, "bytes.Clone": {0},
	"crypto/subtle.XORBytes": {1, 2}, "crypto/sha256.Sum256": {0}}

var intrinsics = map[string]Intrinsic{}
var condIntrinsics = map[string]func(c *Ctx, a []Value) (Value, bool){}

func (c *Ctx) st() *State { return c.f.cur.st }

func reg(name string, f func(c *Ctx, a []Value) Value) { intrinsics[name] = Intrinsic{f: f} }
func regRaw(name string, f func(c *Ctx, a []Value) Value) {
	intrinsics[name] = Intrinsic{f: f, raw: true}
}

func (c *Ctx) cstr(v Value) (string, bool) {
	s, ok := v.(*Str)
	if ok && s.K == 'c' {
		return s.S, true
	}
	return "", false
}

// bytesOf gives the content of a byte slice of constant length.
func (c *Ctx) bytesOf(v Value) []Value {
	s := v.(*SliceV)
	if s.Obj < 0 {
		return nil
	}
	n := c.f.constLen(s.Len, "length of a byte slice")
	return c.e.elems(c.st(), s, n)
}

func (c *Ctx) writeBytes(v Value, b []Value) { c.e.setElems(c.st(), v.(*SliceV), 0, b) }

func (e *E) errVal(f *frame, text Value, wrapped ...Value) Value {
	id := e.newObj(f.cur.st, "local", "error", types.Typ[types.Int], constBV(8, 0))
	return e.iface(&NativeV{Kind: "fmterr", Obj: id, V: append([]Value{text}, wrapped...)})
}

func xorV(e *E, a, b []Value) []Value {
	r := make([]Value, len(a))
	for i := range a {
		x, y := a[i].(*BV), b[i].(*BV)
		bits := make([]Ref, 8)
		for j := range bits {
			bits[j] = e.b.Xor(x.bit(j), y.bit(j))
		}
		r[i] = mkBV(bits)
	}
	return r
}

// ---- ciphers

func (e *E) desKey(k []Value) ArrayV {
	r := make(ArrayV, len(k))
	for i := range k {
		b := append([]Ref(nil), k[i].(*BV).bits()...)
		b[0] = False // parity
		r[i] = mkBV(b)
	}
	return r
}

// block applies a block cipher primitive; a decryption undoes an encryption under the same key.
func (e *E) prim(g Ref, op string, key ArrayV, data []Value) []Value {
	n := len(data)
	inv := map[string]string{"AES_E": "AES_D", "AES_D": "AES_E", "DES_E": "DES_D", "DES_D": "DES_E"}[op]
	d := ArrayV(append([]Value(nil), data...))
	apps := e.apps[inv]
	if g == True && len(apps) > 8 && plainBytes([]Value{key, d}) {
		// only what the variables themselves stand for can be equal to them for every input
		apps = nil
		if b := d[0].(*BV); !b.C && n > 0 && b.bit(0) > 1 {
			if o, ok := e.b.owner[e.b.top(b.bit(0))].(*VarOwner); ok && o.T != nil && o.T.Op == inv && len(o.T.Args) == 2 {
				apps = []*App{{Args: o.T.Args, T: o.T, G: True}}
			}
		}
	}
	for _, a := range apps {
		if len(a.Args) == 2 && e.eqUnder(g, a.Args[0], key) {
			if e.eqUnder(g, ArrayV(e.termBytes(a.T, n, a.G)), d) {
				return a.Args[1].(ArrayV)
			}
		}
	}
	t := e.uf(g, op, key, d)
	return e.termBytes(t, n, g)
}

func (e *E) blockOp(g Ref, n *NativeV, enc bool, data []Value) []Value {
	k := n.V[0].(ArrayV)
	E, D := "_E", "_D"
	if !enc {
		E, D = D, E
	}
	switch n.Kind {
	case "aesblock":
		return e.prim(g, "AES"+E, k, data)
	case "desblock":
		return e.prim(g, "DES"+E, k, data)
	case "tdesblock":
		k1, k2, k3 := k[:8], k[8:16], k[16:]
		if !enc {
			k1, k3 = k3, k1
		}
		x := e.prim(g, "DES"+E, k1, data)
		x = e.prim(g, "DES"+D, k2, x)
		return e.prim(g, "DES"+E, k3, x)
	}
	unsup("cipher %s", n.Kind)
	return nil
}

func blockSize(n *NativeV) int {
	if n.Kind == "aesblock" {
		return 16
	}
	return 8
}

func newBlock(kind, errType string, sizes ...int) func(c *Ctx, a []Value) Value {
	return func(c *Ctx, a []Value) Value {
		e := c.e
		s := a[0].(*SliceV)
		return c.f.forkInt(s.Len, "key length", func(n int) Value {
			for _, z := range sizes {
				if n == z {
					k := ArrayV(e.elems(c.st(), s, n))
					if kind != "aesblock" {
						k = e.desKey(k)
					}
					c.e.event(c.st(), "cipher", kind, k)
					return TupleV{e.iface(&NativeV{Kind: kind, Obj: -1, V: []Value{k}}), nilIface}
				}
			}
			return TupleV{nilIface, e.errVal(c.f, cStr(fmt.Sprintf("crypto/%s: invalid key size %d", errType, n)))}
		})
	}
}

func (f *frame) overlap(d, s *SliceV, n int) bool {
	if d.Obj < 0 || d.Obj != s.Obj || !samePath(d.Path, s.Path) || d.Off == s.Off {
		return false
	}
	return d.Off < s.Off+n && s.Off < d.Off+n
}

// cipherCall runs Encrypt or Decrypt of any cipher.Block on one block of values.
func (f *frame) cipherCall(blk Value, enc bool, data []Value) []Value {
	e := f.e
	i := blk.(*IfaceV)
	if i.T == nil {
		f.panicIf(True, "nil pointer dereference (nil cipher)", nil)
		return data
	}
	if n, ok := i.V.(*NativeV); ok {
		return e.blockOp(f.cur.st.g, n, enc, data)
	}
	src := e.newSlice(f.cur.st, byteSlice, append(ArrayV(nil), data...))
	z := make(ArrayV, len(data))
	for j := range z {
		z[j] = constBV(8, 0)
	}
	dst := e.newSlice(f.cur.st, byteSlice, z)
	name := "Encrypt"
	if !enc {
		name = "Decrypt"
	}
	f.callMethod(i, name, []Value{dst, src})
	if f.cur.st.g == False {
		return data
	}
	return e.elems(f.cur.st, dst, len(data))
}

// callMethod calls a method of a value by name.
func (f *frame) callMethod(i *IfaceV, name string, args []Value) Value {
	e := f.e
	if n, ok := i.V.(*NativeV); ok {
		return f.nativeCall(n, name, nil, args)
	}
	var sel *types.Selection
	ms := e.W.prog.MethodSets.MethodSet(i.T)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			sel = ms.At(k)
		}
	}
	if sel == nil {
		unsup("no method %s on %s", name, i.T)
	}
	return f.callFn(e.W.prog.MethodValue(sel), append([]Value{i.V}, args...), nil, 0, false)
}

func (f *frame) cipherBlockSize(blk Value) int {
	i := blk.(*IfaceV)
	if i.T == nil {
		f.panicIf(True, "nil pointer dereference (nil cipher)", nil)
		return 8
	}
	if n, ok := i.V.(*NativeV); ok {
		return blockSize(n)
	}
	r := f.callMethod(i, "BlockSize", nil)
	if f.cur.st.g == False {
		return 8
	}
	return f.constLen(r.(*BV), "block size")
}

func newCBC(kind string) func(c *Ctx, a []Value) Value {
	return func(c *Ctx, a []Value) Value {
		bs := c.f.cipherBlockSize(a[0])
		if c.st().g == False {
			return nil
		}
		iv := a[1].(*SliceV)
		c.f.panicIf(Not(c.e.bvEq(iv.Len, constBV(64, uint64(bs)))), "cipher: IV length must equal block size", nil)
		if c.st().g == False {
			return nil
		}
		id := c.e.newObj(c.st(), "local", "cbc", byteSlice, ArrayV(c.e.elems(c.st(), iv, bs)))
		return c.e.iface(&NativeV{Kind: kind, Obj: id, V: []Value{a[0], constBV(64, uint64(bs))}})
	}
}

func (f *frame) cryptBlocks(n *NativeV, dst, src *SliceV) {
	e := f.e
	bs := int(n.V[1].(*BV).V)
	f.forkInt(src.Len, "data length", func(ln int) Value {
		f.panicIf(e.cref(ln%bs != 0), "crypto/cipher: input not full blocks", nil)
		f.panicIf(e.ult(dst.Len, constBV(64, uint64(ln))), "crypto/cipher: output smaller than input", nil)
		if f.cur.st.g == False {
			return nil
		}
		f.panicIf(e.cref(f.overlap(dst, src, ln)), "crypto/cipher: invalid buffer overlap", nil)
		if f.cur.st.g == False {
			return nil
		}
		iv := []Value(hget(f.cur.st.heap, n.Obj).(ArrayV))
		in := e.elems(f.cur.st, src, ln)
		var out []Value
		for i := 0; i < ln; i += bs {
			b := in[i : i+bs]
			if n.Kind == "cbcenc" {
				iv = f.cipherCall(n.V[0], true, xorV(e, iv, b))
				out = append(out, iv...)
			} else {
				out = append(out, xorV(e, iv, f.cipherCall(n.V[0], false, b))...)
				iv = b
			}
			if f.cur.st.g == False {
				return nil
			}
		}
		f.cur.st.heap = hset(f.cur.st.heap, n.Obj, ArrayV(append([]Value(nil), iv...)))
		e.setElems(f.cur.st, dst, 0, out)
		return TupleV{}
	})
}

func (e *E) cref(b bool) Ref {
	if b {
		return True
	}
	return False
}

// ---- hashes: NativeV "hash" with V[0] the kind ("sha256", "hmac:..."), V[1] key; object: data written

func (e *E) newHash(f *frame, kind string, key Value) Value {
	id := e.newObj(f.cur.st, "local", "hash", byteSlice, ArrayV{})
	return e.iface(&NativeV{Kind: "hash", Obj: id, V: []Value{cStr(kind), key}})
}

func hashSize(kind string) int {
	switch strings.TrimPrefix(kind, "hmac:") {
	case "sha256":
		return 32
	case "sha1":
		return 20
	case "md5":
		return 16
	case "sha512":
		return 64
	case "sha384":
		return 48
	case "sha224":
		return 28
	}
	unsup("hash %s", kind)
	return 0
}

func (e *E) hashSum(f *frame, kind string, key, data ArrayV) []Value {
	g := f.cur.st.g
	if strings.HasPrefix(kind, "hmac:") {
		bs := 64
		if strings.HasSuffix(kind, "sha512") || strings.HasSuffix(kind, "sha384") {
			bs = 128
		}
		k := key
		if len(k) > bs {
			k = e.hashSum(f, strings.TrimPrefix(kind, "hmac:"), nil, k)
		}
		// keys are zero-padded to the block: trailing constant zeros do not matter
		for len(k) > 0 && identical(k[len(k)-1], constBV(8, 0)) {
			k = k[:len(k)-1]
		}
		return e.termBytes(e.uf(g, "HMAC_"+kind, k, data), hashSize(kind), g)
	}
	return e.termBytes(e.uf(g, "HASH_"+kind, data), hashSize(kind), g)
}

// ---- method calls on model objects

func (f *frame) nativeMethod(n *NativeV, m *types.Func, args []Value) Value {
	return f.nativeCall(n, m.Name(), m, args)
}

func (f *frame) nativeCall(n *NativeV, name string, m *types.Func, args []Value) Value {
	e := f.e
	switch {
	case (n.Kind == "aesblock" || n.Kind == "desblock" || n.Kind == "tdesblock" || n.Kind == "cbcenc" || n.Kind == "cbcdec") && len(args) == 2:
		if d, ok := args[0].(*SliceV); ok {
			alias := false
			for _, a := range e.alts(f.cur.st.g, args[1]) {
				if s, ok := a.V.(*SliceV); !ok || s.Obj == d.Obj {
					alias = true
				}
			}
			if !alias {
				args = []Value{d, f.readOnly(args[1])}
			}
		}
	case n.Kind == "hash" && name == "Write":
		args = []Value{f.readOnly(args[0])}
	}
	for i, a := range args {
		if _, ok := a.(*ChoiceV); ok && n.Kind != "opaque" {
			return f.fork(a, func(v Value) Value {
				na := append([]Value(nil), args...)
				na[i] = v
				return f.nativeCall(n, name, m, na)
			})
		}
	}
	switch n.Kind {
	case "aesblock", "desblock", "tdesblock":
		bs := blockSize(n)
		switch name {
		case "BlockSize":
			return constBV(64, uint64(bs))
		case "Encrypt", "Decrypt":
			d, s := args[0].(*SliceV), args[1].(*SliceV)
			f.panicIf(e.ult(s.Len, constBV(64, uint64(bs))), "crypto: input not full block", nil)
			f.panicIf(e.ult(d.Len, constBV(64, uint64(bs))), "crypto: output not full block", nil)
			if f.cur.st.g == False {
				return nil
			}
			f.panicIf(e.cref(f.overlap(d, s, bs)), "crypto: invalid buffer overlap", nil)
			if f.cur.st.g == False {
				return nil
			}
			e.setElems(f.cur.st, d, 0, e.blockOp(f.cur.st.g, n, name == "Encrypt", e.elems(f.cur.st, s, bs)))
			return TupleV{}
		}
	case "cbcenc", "cbcdec":
		switch name {
		case "BlockSize":
			return n.V[1]
		case "CryptBlocks":
			f.cryptBlocks(n, args[0].(*SliceV), args[1].(*SliceV))
			return TupleV{}
		}
	case "hash":
		kind := n.V[0].(*Str).S
		switch name {
		case "Size":
			return constBV(64, uint64(hashSize(kind)))
		case "BlockSize":
			return constBV(64, 64)
		case "Reset":
			f.cur.st.heap = hset(f.cur.st.heap, n.Obj, ArrayV{})
			return TupleV{}
		case "Write", "WriteString":
			var b []Value
			switch x := args[0].(type) {
			case *SliceV:
				if x.Obj >= 0 {
					return f.forkInt(x.Len, "data length", func(ln int) Value {
						b := e.elems(f.cur.st, x, ln)
						old := hget(f.cur.st.heap, n.Obj).(ArrayV)
						f.cur.st.heap = hset(f.cur.st.heap, n.Obj, append(append(ArrayV(nil), old...), b...))
						return TupleV{constBV(64, uint64(ln)), nilIface}
					})
				}
			case *Str:
				for i := 0; i < x.clen(); i++ {
					b = append(b, x.byteAt(i))
				}
			}
			old := hget(f.cur.st.heap, n.Obj).(ArrayV)
			f.cur.st.heap = hset(f.cur.st.heap, n.Obj, append(append(ArrayV(nil), old...), b...))
			return TupleV{constBV(64, uint64(len(b))), nilIface}
		case "Sum":
			return f.fork(hget(f.cur.st.heap, n.Obj), func(v Value) Value {
				out := e.hashSum(f, kind, n.V[1].(ArrayV), v.(ArrayV))
				return f.appendTo(args[0].(*SliceV), e.newSlice(f.cur.st, byteSlice, ArrayV(out)), byteSlice)
			})
		}
	case "fmterr":
		switch name {
		case "Error":
			return n.V[0]
		case "Unwrap":
			if len(n.V) > 1 {
				return n.V[1]
			}
			return nilIface
		}
	case "formatter":
		return f.formatterCall(n, name, args)
	case "file":
		switch name {
		case "Write", "WriteString":
			txt := args[0]
			if s, ok := txt.(*SliceV); ok {
				txt = e.bytesStr(f.cur.st, s)
			}
			e.event(f.cur.st, "print", n.V[0].(*Str).S, txt)
			return TupleV{f.lenOf(txt), nilIface}
		case "Close", "Sync":
			return nilIface
		}
	case "ctx":
		switch name {
		case "Value":
			return f.ctxValue(n, args[0])
		case "Err":
			if ctxDone(n) == nil {
				return nilIface
			}
			t := e.freshTerm("context")
			return e.ite(e.termBool(e.newTerm("DONE", t), True), &IfaceV{T: e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: e.newTerm("ERR", t)}}, nilIface)
		case "Done":
			ch := ctxDone(n)
			if ch == nil {
				unsup("Done of a context at %s", e.where())
			}
			return ch
		}
	}
	if r, ok := f.httpMethod(n, name, m, args); ok {
		return r
	}
	if n.Kind == "opaque" {
		return f.opaqueMethod(n, name, m, args)
	}
	unsup("method %s of model %s at %s", name, n.Kind, e.where())
	return nil
}

var writeResults = types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int]), types.NewVar(0, nil, "", types.Universe.Lookup("error").Type()))

// opaqueMethod: a method of an unknown implementation.
func (f *frame) opaqueMethod(n *NativeV, name string, m *types.Func, args []Value) Value {
	e := f.e
	if name == "Error" && len(args) == 0 {
		t := e.newTerm("ERRTEXT", n.T)
		return tStr(t)
	}
	if m == nil {
		if name == "Write" && len(args) == 1 {
			return f.external("(io.Writer).Write", writeResults, append([]Value{n}, args...), false)
		}
		unsup("method %s of an unknown object at %s", name, e.where())
	}
	return f.external(m.FullName(), m.Type().(*types.Signature).Results(), append([]Value{n}, args...), false)
}

// external is a call of code that is not analysed: recorded, its result unknown.
func (f *frame) external(name string, res *types.Tuple, args []Value, pure bool) Value {
	e := f.e
	var snaps []Value
	for _, a := range args {
		snaps = append(snaps, e.snap(f.cur.st, a))
	}
	ev := e.event(f.cur.st, "ext", name, snaps...)
	ev.St = f.cur.st
	if res == nil || res.Len() == 0 {
		return TupleV{}
	}
	var t *Term
	if pure {
		t = e.uf(f.cur.st.g, name, snaps...)
	} else {
		t = e.freshTerm(name + "()")
		t.Args = snaps
		t.world = worldly(name)
	}
	if res.Len() == 1 {
		r := e.symOf(f.cur.st, res.At(0).Type(), t)
		ev.Res = r
		return r
	}
	// results of a failed call are not looked at
	r := e.symOf(f.cur.st, res, t)
	ev.Res = r
	return r
}

func (f *frame) nativeFunc(fn *FuncV, args []Value) Value {
	if r, ok := f.httpFunc(fn, args); ok {
		return r
	}
	unsup("call of function value %s at %s", fn.N, f.e.where())
	return nil
}

// ctxDone is the channel of a context made by signal.NotifyContext.
func ctxDone(n *NativeV) Value {
	for n.Kind == "ctx" && len(n.V) > 0 {
		if len(n.V) == 2 {
			return n.V[1]
		}
		i, ok := n.V[0].(*IfaceV)
		if !ok || i.T == nil {
			return nil
		}
		if n, ok = i.V.(*NativeV); !ok {
			return nil
		}
	}
	return nil
}

// extPkgs are packages whose functions may be treated as unknown, effect-recording calls.
var extPkgs = map[string]bool{
	"github.com/go-kit/log": true, "github.com/moov-io/base/log": true, "github.com/moov-io/base/admin": true,
	"os/signal": true, "os": true, "time": true, "net/http": true,
	"context": true, "crypto/tls": true, "log": true, "log/slog": true, "runtime": true, "runtime/debug": true, "path/filepath": true, "path": true, "io": true,
	"math/rand": true, "math/rand/v2": true, "crypto/rand": true, "os/exec": true, "expvar": true, "net/smtp": true, "log/syslog": true, "syscall": true, "os/user": true, "testing": true, "fmt": true, "net": true, "net/url": true, "mime": true,
}

func (f *frame) defaultModel(fn *ssa.Function, name string, args []Value) func() Value {
	path := fn.Pkg.Pkg.Path()
	if !extPkgs[path] {
		return nil
	}
	return func() Value { return f.external(name, fn.Signature.Results(), args, false) }
}

// boundary: a call of an operation that is checked on its own.
func (f *frame) boundary(fn *ssa.Function, name string, args []Value) (Value, bool) {
	e := f.e
	if name == modPath+"/pkg.HexDecode" || name == modPath+"/pkg.HexEncode" {
		return f.hexBoundary(name, args)
	}
	for i, a := range args {
		if _, ok := a.(*ChoiceV); ok && !splitFree(a) {
			return f.fork(a, func(v Value) Value {
				n := append([]Value(nil), args...)
				n[i] = v
				r, _ := f.boundary(fn, name, n)
				return r
			}), true
		}
	}
	var snaps []Value
	for _, a := range args {
		snaps = append(snaps, e.snap(f.cur.st, a))
	}
	g := f.cur.st.g
	t := e.uf(g, name, snaps...)
	ev := e.event(f.cur.st, "call", name, snaps...)
	res := fn.Signature.Results()
	failed := False
	if n := res.Len(); n > 0 && isErr(res.At(n-1).Type()) {
		failed = e.termBool(e.newTerm("FAILS", t), True)
	}
	ev.Err = failed
	out := make(TupleV, res.Len())
	for i := 0; i < res.Len(); i++ {
		rt := res.At(i).Type()
		if i == res.Len()-1 && isErr(rt) {
			out[i] = e.choice([]Alt{{failed, &IfaceV{T: e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: e.newTerm("ERR", t)}}}, {Not(failed), nilIface}})
			continue
		}
		rn := e.newTerm(fmt.Sprintf("RES%d", i), t)
		if nonEmptyResult(name) {
			rn.nonEmpty = true
		}
		v := e.symOf(f.cur.st, rt, rn)
		z := e.zero(rt)
		out[i] = e.ite(failed, z, v)
	}
	var r Value = out
	if len(out) == 1 {
		r = out[0]
	}
	ev.Res = e.snap(f.cur.st, r)
	return r, true
}

// key derivations never return an empty key
func nonEmptyResult(name string) bool {
	return strings.Contains(name, "DerivationOfInitialKey") || strings.Contains(name, "DeriveCurrentTransactionKey") || strings.Contains(name, "GenerateNext")
}

func splitFree(v Value) bool {
	c, ok := v.(*ChoiceV)
	if !ok {
		return true
	}
	for _, a := range c.A {
		switch a.V.(type) {
		case *Str:
		default:
			return false
		}
	}
	return false
}

// hexBoundary models hexadecimal conversion of values of unknown length (the conversion
// functions themselves are checked for every length by the properties on them).
func (f *frame) hexBoundary(name string, args []Value) (Value, bool) {
	e := f.e
	if _, ok := args[0].(*ChoiceV); ok {
		return f.fork(args[0], func(v Value) Value {
			r, ok := f.hexBoundary(name, []Value{v})
			if !ok {
				fn := e.W.fn(modPath+"/pkg", name[strings.LastIndex(name, ".")+1:])
				res, ret, pan := e.call(fn, []Value{v}, nil, f.cur.st, false)
				f.addPanic(pan)
				if ret == nil {
					f.cur.st = f.cur.st.clone()
					f.cur.st.g = False
					return nil
				}
				f.cur.st = ret
				return res
			}
			return r
		}), true
	}
	if strings.HasSuffix(name, "Decode") {
		s, ok := args[0].(*Str)
		if !ok || s.K != 't' {
			return nil, false
		}
		return f.hexDecodeTerm(s), true
	}
	s, ok := args[0].(*SliceV)
	if !ok || s.Obj < 0 {
		return nil, false
	}
	t := e.fullTerm(f.cur.st, s)
	if t == nil {
		return nil, false
	}
	return tStr(e.hexEncodeTerm(t)), true
}

func (e *E) hexEncodeTerm(t *Term) *Term {
	r := e.newTerm("HexEncode", t)
	r.nonEmpty = t.nonEmpty
	return r
}

func (f *frame) hexDecodeTerm(s *Str) Value {
	e := f.e
	if s.T.Op == "HexEncode" {
		r := e.symBytes(f.cur.st, s.T.Args[0].(*Term))
		r.NilEmpty = true
		return r
	}
	r := e.symBytes(f.cur.st, e.newTerm("HexDecode", s))
	r.NilEmpty = true
	return r
}

// ---- PIN block formats (third-party code, treated as unknown functions of their inputs)

func (f *frame) formatterCall(n *NativeV, name string, args []Value) Value {
	e := f.e
	g := f.cur.st.g
	if name == "SetDebugWriter" {
		e.event(f.cur.st, "debugwriter", "", args...)
		return TupleV{}
	}
	a := append(append([]Value(nil), n.V...), args...)
	for i := range a {
		a[i] = e.snap(f.cur.st, a[i])
	}
	op := "PINBLOCK_" + name
	if n.T != nil {
		a = append(a, n.T)
	}
	t := e.uf(g, op, a...)
	ev := e.event(f.cur.st, "call", op, a...)
	failed := e.termBool(e.newTerm("FAILS", t), True)
	ev.Err = failed
	errv := &IfaceV{T: e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: e.newTerm("ERR", t)}}
	if name == "Decode" && n.T != nil && !e.muteEvents {
		// the ISO-0 family of decoders panics on some blocks with an invalid PIN length
		f.panicIf(e.b.And(failed, e.termBool(e.newTerm("PANICS", t), True)), "the PIN block decoder panics (invalid PIN length)", nil)
		if f.cur.st.g == False {
			return nil
		}
	}
	err := e.choice([]Alt{{failed, errv}, {Not(failed), nilIface}})
	if name == "Decode" {
		rt := e.newTerm("RES0", t)
		return TupleV{e.ite(failed, cStr(""), tStr(rt)), err}
	}
	// Encode returns a block of 8 or 16 bytes in hexadecimal
	enc := func(n int) *Str {
		bs := e.termBytes(e.newTerm(fmt.Sprintf("BLOCK%d", n), t), n, g)
		var out []*BV
		for _, b := range bs {
			for _, nib := range []int{4, 0} {
				v := b.(*BV).bits()[nib : nib+4]
				out = append(out, e.muxBytes(16, mkBV(append(append([]Ref(nil), v...), False, False, False, False)), func(i int) *BV {
					return constBV(8, uint64("0123456789ABCDEF"[i]))
				}))
			}
		}
		return bStr(out)
	}
	if n.Kind == "formatter" && n.T == nil { // ISO 4 with a cipher
		return TupleV{e.ite(failed, cStr(""), enc(16)), err}
	}
	wide := e.termBool(e.newTerm("WIDE", n.T), True)
	return TupleV{e.ite(failed, cStr(""), e.ite(wide, enc(16), enc(8))), err}
}

func init() {
	reg("crypto/aes.NewCipher", newBlock("aesblock", "aes", 16, 24, 32))
	reg("crypto/des.NewCipher", newBlock("desblock", "des", 8))
	reg("crypto/des.NewTripleDESCipher", newBlock("tdesblock", "des", 24))
	reg("crypto/cipher.NewCBCEncrypter", newCBC("cbcenc"))
	reg("crypto/cipher.NewCBCDecrypter", newCBC("cbcdec"))
	for _, h := range []struct{ fn, kind string }{{"crypto/sha256.New", "sha256"}, {"crypto/sha256.New224", "sha224"}, {"crypto/sha1.New", "sha1"}, {"crypto/md5.New", "md5"}, {"crypto/sha512.New", "sha512"}, {"crypto/sha512.New384", "sha384"}} {
		kind := h.kind
		reg(h.fn, func(c *Ctx, a []Value) Value { return c.e.newHash(c.f, kind, ArrayV{}) })
	}
	reg("crypto/hmac.New", func(c *Ctx, a []Value) Value {
		h := c.f.callValue(nil, a[0], nil, 0, false)
		i, ok := h.(*IfaceV)
		if !ok {
			unsup("hmac of %T", h)
		}
		n, ok := i.V.(*NativeV)
		if !ok || n.Kind != "hash" {
			unsup("hmac of an unknown hash")
		}
		s := a[1].(*SliceV)
		return c.f.forkInt(s.Len, "key length", func(ln int) Value {
			k := ArrayV(c.e.elems(c.st(), s, ln))
			c.e.event(c.st(), "cipher", "hmac", k)
			return c.e.newHash(c.f, "hmac:"+n.V[0].(*Str).S, k)
		})
	})
	sum := func(kind string) func(c *Ctx, a []Value) Value {
		return func(c *Ctx, a []Value) Value {
			return ArrayV(c.e.hashSum(c.f, kind, nil, ArrayV(c.bytesOf(a[0]))))
		}
	}
	reg("crypto/sha256.Sum256", sum("sha256"))
	reg("crypto/subtle.XORBytes", func(c *Ctx, a []Value) Value {
		d, x, y := a[0].(*SliceV), a[1].(*SliceV), a[2].(*SliceV)
		n := c.f.constLen(x.Len, "length")
		if m := c.f.constLen(y.Len, "length"); m < n {
			n = m
		}
		if n == 0 {
			return constBV(64, 0)
		}
		c.f.panicIf(c.e.ult(d.Len, constBV(64, uint64(n))), "subtle.XORBytes: dst too short", nil)
		if c.st().g == False {
			return nil
		}
		c.e.setElems(c.st(), d, 0, xorV(c.e, c.e.elems(c.st(), x, n), c.e.elems(c.st(), y, n)))
		return constBV(64, uint64(n))
	})
	reg("crypto/subtle.ConstantTimeCompare", func(c *Ctx, a []Value) Value {
		x, y := c.bytesOf(a[0]), c.bytesOf(a[1])
		if len(x) != len(y) {
			return constBV(64, 0)
		}
		r := True
		for i := range x {
			r = c.e.b.And(r, c.e.bvEq(x[i].(*BV), y[i].(*BV)))
		}
		return c.e.iteBV(r, constBV(64, 1), constBV(64, 0))
	})
	reg("crypto/hmac.Equal", intrinsics["crypto/subtle.ConstantTimeCompare"].f)
	eq := func(c *Ctx, a []Value) Value {
		e := c.e
		return BoolV(e.eqv(c.st().g, e.snap(c.st(), a[0]), e.snap(c.st(), a[1])))
	}
	reg("bytes.Equal", eq)
	reg("crypto/hmac.Equal", eq)
	reg("internal/bytealg.IndexByteString", func(c *Ctx, a []Value) Value {
		s := a[0].(*Str)
		if s.K == 't' {
			unsup("search in an opaque string at %s", c.e.where())
		}
		r := constBV(64, ^uint64(0))
		for i := s.clen() - 1; i >= 0; i-- {
			r = c.e.iteBV(c.e.bvEq(s.byteAt(i), a[1].(*BV)), constBV(64, uint64(i)), r)
		}
		return r
	})
	count := func(c *Ctx, s []Value, b *BV) Value {
		r := constBV(64, 0)
		for _, x := range s {
			r = c.e.iteBV(c.e.bvEq(x.(*BV), b), c.e.bvAdd(r, constBV(64, 1)), r)
		}
		return r
	}
	reg("internal/bytealg.Count", func(c *Ctx, a []Value) Value { return count(c, c.bytesOf(a[0]), a[1].(*BV)) })
	reg("internal/bytealg.CountString", func(c *Ctx, a []Value) Value {
		s := a[0].(*Str)
		if s.K == 't' {
			unsup("counting in an opaque string at %s", c.e.where())
		}
		var l []Value
		for i := 0; i < s.clen(); i++ {
			l = append(l, s.byteAt(i))
		}
		return count(c, l, a[1].(*BV))
	})
	reg("internal/bytealg.IndexByte", func(c *Ctx, a []Value) Value {
		s := c.bytesOf(a[0])
		r := constBV(64, ^uint64(0))
		for i := len(s) - 1; i >= 0; i-- {
			r = c.e.iteBV(c.e.bvEq(s[i].(*BV), a[1].(*BV)), constBV(64, uint64(i)), r)
		}
		return r
	})
	reg("bytes.Repeat", func(c *Ctx, a []Value) Value {
		b := c.bytesOf(a[0])
		n := a[1].(*BV)
		c.f.panicIf(n.bit(63), "bytes: negative Repeat count", nil)
		if c.st().g == False {
			return nil
		}
		return c.f.forkInt(n, "count", func(k int) Value {
			var out ArrayV
			for i := 0; i < k; i++ {
				out = append(out, b...)
			}
			if len(out) > 1<<21 {
				unsup("repeat")
			}
			return c.e.newSlice(c.st(), byteSlice, out)
		})
	})
	reg("strings.Repeat", func(c *Ctx, a []Value) Value {
		s := a[0].(*Str)
		n := a[1].(*BV)
		c.f.panicIf(n.bit(63), "strings: negative Repeat count", nil)
		if c.st().g == False {
			return nil
		}
		return c.f.forkInt(n, "count", func(k int) Value {
			var r Value = cStr("")
			for i := 0; i < k; i++ {
				r = c.e.concat(r.(*Str), s)
			}
			return r
		})
	})
	clone := func(c *Ctx, a []Value) Value {
		s := a[0].(*SliceV)
		if s.Obj < 0 {
			return s
		}
		if t := c.e.fullTerm(c.st(), s); t != nil && c.e.constUnder(c.st().g, s.Len) == nil {
			r := c.e.symBytes(c.st(), t)
			r.NilEmpty = s.NilEmpty
			return r
		}
		return c.f.forkInt(s.Len, "length", func(n int) Value {
			return c.e.newSlice(c.st(), byteSlice, ArrayV(c.e.elems(c.st(), s, n)))
		})
	}
	reg("bytes.Clone", clone)
	reg("strings.Clone", func(c *Ctx, a []Value) Value { return a[0] })
	caseMap := func(up bool) func(c *Ctx, a []Value) Value {
		return func(c *Ctx, a []Value) Value {
			e := c.e
			s := a[0].(*Str)
			op := "ToLower"
			if up {
				op = "ToUpper"
			}
			switch s.K {
			case 'c':
				if up {
					return cStr(strings.ToUpper(s.S))
				}
				return cStr(strings.ToLower(s.S))
			case 't':
				if s.T.Op == op {
					return s
				}
				t := e.newTerm(op, s)
				t.nonEmpty = s.T.nonEmpty
				return tStr(t)
			}
			if !e.allASCII(c.st().g, s) {
				return tStr(e.newTerm(op, s))
			}
			lo, hi := uint64('A'), uint64('Z')
			if up {
				lo, hi = 'a', 'z'
			}
			var out []*BV
			for _, b := range s.B {
				in := e.b.And(Not(e.ult(b, constBV(8, lo))), Not(e.ult(constBV(8, hi), b)))
				out = append(out, e.iteBV(in, e.bvBit(token.XOR, b, constBV(8, 0x20)), b))
			}
			return bStr(out)
		}
	}
	reg("strings.ToUpper", caseMap(true))
	reg("strings.ToLower", caseMap(false))
	reg("strings.EqualFold", func(c *Ctx, a []Value) Value {
		x := caseMap(true)(c, a[:1]).(*Str)
		y := caseMap(true)(c, a[1:]).(*Str)
		return BoolV(c.e.strEq(x, y))
	})
	strPred := func(op string, f func(a, b string) bool) {
		reg("strings."+op, func(c *Ctx, a []Value) Value {
			x, y := a[0].(*Str), a[1].(*Str)
			if x.K == 'c' && y.K == 'c' {
				return c.e.cbool(f(x.S, y.S))
			}
			if y.K == 'c' && y.S == "" {
				return BoolV(True)
			}
			if op == "HasPrefix" && x.K == 't' && x.T.Op == "CONCAT" && y.K == 'c' {
				if p := x.T.Args[0].(*Str); p.K == 'c' && len(p.S) >= len(y.S) {
					return c.e.cbool(strings.HasPrefix(p.S, y.S))
				}
			}
			if op == "HasSuffix" && x.K == 't' && x.T.Op == "CONCAT" && y.K == 'c' {
				if p := x.T.Args[len(x.T.Args)-1].(*Str); p.K == 'c' && len(p.S) >= len(y.S) {
					return c.e.cbool(strings.HasSuffix(p.S, y.S))
				}
			}
			if op == "Contains" && x.K == 't' && x.T.Op == "CONCAT" && y.K == 'c' {
				for _, p := range x.T.Args {
					if p.(*Str).K == 'c' && strings.Contains(p.(*Str).S, y.S) {
						return BoolV(True)
					}
				}
			}
			if x.K != 't' && y.K != 't' && op != "Contains" {
				n := y.clen()
				if x.clen() < n {
					return BoolV(False)
				}
				off := 0
				if op == "HasSuffix" {
					off = x.clen() - n
				}
				r := True
				for i := 0; i < n; i++ {
					r = c.e.b.And(r, c.e.bvEq(x.byteAt(off+i), y.byteAt(i)))
				}
				return BoolV(r)
			}
			return BoolV(c.e.termBool(c.e.newTerm("strings."+op, x, y), True))
		})
	}
	strPred("Contains", strings.Contains)
	strPred("HasPrefix", strings.HasPrefix)
	strPred("HasSuffix", strings.HasSuffix)
	reg("strings.Title", func(c *Ctx, a []Value) Value {
		if s, ok := c.cstr(a[0]); ok {
			return cStr(strings.Title(s))
		}
		return tStr(c.e.newTerm("strings.Title", a[0]))
	})
	reg("strings.ReplaceAll", func(c *Ctx, a []Value) Value {
		x, ok1 := c.cstr(a[0])
		y, ok2 := c.cstr(a[1])
		z, ok3 := c.cstr(a[2])
		if ok1 && ok2 && ok3 {
			return cStr(strings.ReplaceAll(x, y, z))
		}
		return tStr(c.e.newTerm("strings.ReplaceAll", a...))
	})
	reg("strings.Join", func(c *Ctx, a []Value) Value {
		s := a[0].(*SliceV)
		n := c.f.constLen(s.Len, "length")
		var r Value = cStr("")
		for i, x := range c.e.elems(c.st(), s, n) {
			if i > 0 {
				r = c.catV(r, a[1])
			}
			r = c.catV(r, x)
		}
		return r
	})
	// strings.Builder
	reg("(*strings.Builder).WriteString", func(c *Ctx, a []Value) Value { c.sbAdd(a[0], a[1]); return TupleV{c.f.lenOf(a[1]), nilIface} })
	reg("(*strings.Builder).WriteByte", func(c *Ctx, a []Value) Value {
		c.sbAdd(a[0], bStr([]*BV{a[1].(*BV)}))
		return nilIface
	})
	reg("(*strings.Builder).WriteRune", func(c *Ctx, a []Value) Value {
		c.sbAdd(a[0], c.f.convert(a[1], types.Typ[types.Int32], types.Typ[types.String]))
		return TupleV{constBV(64, 1), nilIface}
	})
	reg("(*strings.Builder).Write", func(c *Ctx, a []Value) Value {
		c.sbAdd(a[0], c.e.bytesStr(c.st(), a[1].(*SliceV)))
		return TupleV{a[1].(*SliceV).Len, nilIface}
	})
	reg("(*strings.Builder).Grow", func(c *Ctx, a []Value) Value { return TupleV{} })
	reg("(*strings.Builder).String", func(c *Ctx, a []Value) Value { return c.sbGet(a[0]) })
	reg("(*strings.Builder).Len", func(c *Ctx, a []Value) Value { return c.f.lenOf(c.sbGet(a[0])) })
	reg("(*strings.Builder).Reset", func(c *Ctx, a []Value) Value {
		p := a[0].(*PtrV)
		c.e.storeObj(c.st(), p.Obj, p.Path, c.e.zero(c.sbType()))
		return TupleV{}
	})
	// strconv
	reg("strconv.Itoa", func(c *Ctx, a []Value) Value {
		return c.itoa(a[0].(*BV), true, 10)
	})
	reg("strconv.FormatInt", func(c *Ctx, a []Value) Value { return c.itoa(a[0].(*BV), true, c.f.constLen(a[1].(*BV), "base")) })
	reg("strconv.FormatUint", func(c *Ctx, a []Value) Value { return c.itoa(a[0].(*BV), false, c.f.constLen(a[1].(*BV), "base")) })
	reg("strconv.Quote", func(c *Ctx, a []Value) Value {
		if s, ok := c.cstr(a[0]); ok {
			return cStr(strconv.Quote(s))
		}
		return tStr(c.e.newTerm("QUOTE", a[0]))
	})
	// fmt
	reg("fmt.Sprintf", func(c *Ctx, a []Value) Value { s, _ := c.sprintf(a[0], a[1]); return s })
	reg("fmt.Sprint", func(c *Ctx, a []Value) Value { return c.sprint(a[0], false) })
	reg("fmt.Sprintln", func(c *Ctx, a []Value) Value { return c.sprint(a[0], true) })
	reg("fmt.Errorf", func(c *Ctx, a []Value) Value {
		s, w := c.sprintf(a[0], a[1])
		return c.e.errVal(c.f, s, w...)
	})
	outp := func(txt func(c *Ctx, a []Value) Value) func(c *Ctx, a []Value) Value {
		return func(c *Ctx, a []Value) Value {
			t := txt(c, a)
			c.e.event(c.st(), "print", "stdout", t)
			return TupleV{c.e.termBV(c.e.freshTerm("n"), 64, True), nilIface}
		}
	}
	reg("fmt.Printf", outp(func(c *Ctx, a []Value) Value { s, _ := c.sprintf(a[0], a[1]); return s }))
	reg("fmt.Print", outp(func(c *Ctx, a []Value) Value { return c.sprint(a[0], false) }))
	reg("fmt.Println", outp(func(c *Ctx, a []Value) Value { return c.sprint(a[0], true) }))
	fout := func(txt func(c *Ctx, a []Value) Value) func(c *Ctx, a []Value) Value {
		return func(c *Ctx, a []Value) Value {
			t := txt(c, a[1:])
			return c.f.writeTo(a[0], t)
		}
	}
	reg("fmt.Fprintf", fout(func(c *Ctx, a []Value) Value { s, _ := c.sprintf(a[0], a[1]); return s }))
	reg("fmt.Fprint", fout(func(c *Ctx, a []Value) Value { return c.sprint(a[0], false) }))
	reg("fmt.Fprintln", fout(func(c *Ctx, a []Value) Value { return c.sprint(a[0], true) }))
	reg("io.WriteString", func(c *Ctx, a []Value) Value { return c.f.writeTo(a[0], a[1]) })
	reg("(*os.File).WriteString", func(c *Ctx, a []Value) Value { return c.f.writeTo(&IfaceV{T: c.e.nativeType("file"), V: a[0]}, a[1]) })
	reg("(*os.File).Write", func(c *Ctx, a []Value) Value {
		return c.f.writeTo(&IfaceV{T: c.e.nativeType("file"), V: a[0]}, c.e.bytesStr(c.st(), a[1].(*SliceV)))
	})
	// errors
	regRaw("errors.Is", func(c *Ctx, a []Value) Value { return BoolV(c.f.errIs(c.st().g, a[0], a[1], 0)) })
	regRaw("errors.Unwrap", func(c *Ctx, a []Value) Value {
		return c.f.fork(a[0], func(v Value) Value { return c.f.unwrapErr(v) })
	})
	regRaw("errors.As", func(c *Ctx, a []Value) Value { return c.errAs(a) })
	// hexadecimal conversion of opaque values
	condIntrinsics["encoding/hex.DecodeString"] = func(c *Ctx, a []Value) (Value, bool) {
		s, ok := a[0].(*Str)
		if !ok || s.K != 't' {
			return nil, false
		}
		okR := c.e.hexOK(s)
		r := c.f.hexDecodeTerm(s)
		if s.T.Op == "HexEncode" {
			return TupleV{r, nilIface}, true
		}
		err := c.e.errVal(c.f, tStr(c.e.newTerm("HEXERR", s)))
		return TupleV{r, c.e.ite(okR, nilIface, err)}, true
	}
	condIntrinsics["encoding/hex.EncodeToString"] = func(c *Ctx, a []Value) (Value, bool) {
		s, ok := a[0].(*SliceV)
		if !ok {
			return nil, false
		}
		t := c.e.fullTerm(c.st(), s)
		if t == nil {
			return nil, false
		}
		return tStr(c.e.hexEncodeTerm(t)), true
	}
	reg("errors.New", func(c *Ctx, a []Value) Value { return c.e.errVal(c.f, a[0]) })
	// PIN block formats
	const fm = "github.com/moov-io/pinblock/formats."
	reg(fm+"NewFormatter", func(c *Ctx, a []Value) Value {
		e := c.e
		t := e.uf(c.st().g, "PINBLOCK_format", a[0])
		ev := e.event(c.st(), "call", "NewFormatter", a[0])
		failed := e.termBool(e.newTerm("FAILS", t), True)
		ev.Err = failed
		errv := &IfaceV{T: e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: e.newTerm("ERR", t)}}
		ok := e.iface(&NativeV{Kind: "formatter", Obj: -1, T: t})
		return TupleV{e.ite(failed, nilIface, ok), e.ite(failed, errv, nilIface)}
	})
	for name, key := range map[string]string{"NewISO0": "ISO-0", "NewISO1": "ISO-1", "NewISO2": "ISO-2", "NewISO3": "ISO-3", "NewANSIX98": "ANSI", "NewECI1": "ECI1", "NewECI2": "ECI2", "NewECI3": "ECI3", "NewECI4": "ECI4", "NewVISA1": "VISA1", "NewVISA2": "VISA2", "NewVISA3": "VISA3", "NewVISA4": "VISA4"} {
		key := key
		reg(fm+name, func(c *Ctx, a []Value) Value {
			t := c.e.uf(c.st().g, "PINBLOCK_format", cStr(key))
			return c.e.iface(&NativeV{Kind: "formatter", Obj: -1, T: t})
		})
	}
	reg(fm+"NewISO4", func(c *Ctx, a []Value) Value {
		e := c.e
		i := a[0].(*IfaceV)
		if i.T == nil {
			c.f.panicIf(True, "nil cipher", nil)
			return nil
		}
		// the format is known by what its cipher does to an arbitrary block
		pt := e.newTerm("ANYBLOCK")
		probe := func(m string) Value {
			in := e.newSlice(c.st(), byteSlice, ArrayV(e.termBytes(pt, 16, True)))
			r := c.f.callMethod(i, m, []Value{in})
			if r == nil {
				return ArrayV{}
			}
			t := r.(TupleV)
			return TupleV{e.snap(c.st(), t[0]), e.isNilErr(t[1])}
		}
		enc := probe("Encrypt")
		if c.st().g == False {
			return nil
		}
		dec := probe("Decrypt")
		if c.st().g == False {
			return nil
		}
		return e.iface(&NativeV{Kind: "formatter", Obj: -1, V: []Value{enc, dec}})
	})
	// locks
	for _, l := range []struct {
		t  string
		rw bool
	}{{"Mutex", false}, {"RWMutex", true}} {
		reg("(*sync."+l.t+").Lock", func(c *Ctx, a []Value) Value { c.lock(a[0], true); return TupleV{} })
		reg("(*sync."+l.t+").Unlock", func(c *Ctx, a []Value) Value { c.unlock(a[0], true); return TupleV{} })
		reg("(*sync."+l.t+").TryLock", func(c *Ctx, a []Value) Value { return c.tryLock(a[0], true) })
		if l.rw {
			reg("(*sync.RWMutex).RLock", func(c *Ctx, a []Value) Value { c.lock(a[0], false); return TupleV{} })
			reg("(*sync.RWMutex).RUnlock", func(c *Ctx, a []Value) Value { c.unlock(a[0], false); return TupleV{} })
			reg("(*sync.RWMutex).TryRLock", func(c *Ctx, a []Value) Value { return c.tryLock(a[0], false) })
		}
	}
	// package log writes to standard error; Fatal also ends the process, Panic panics
	for _, m := range []struct {
		n string
		f func(c *Ctx, a []Value) Value
	}{
		{"f", func(c *Ctx, a []Value) Value { s, _ := c.sprintf(a[0], a[1]); return s }},
		{"", func(c *Ctx, a []Value) Value { return c.sprint(a[0], false) }},
		{"ln", func(c *Ctx, a []Value) Value { return c.sprint(a[0], true) }},
	} {
		m := m
		for _, k := range []string{"Print", "Fatal", "Panic"} {
			k := k
			for skip, recv := range []string{"log.", "(*log.Logger)."} {
				skip := skip
				reg(recv+k+m.n, func(c *Ctx, a []Value) Value {
					txt := m.f(c, a[skip:])
					c.e.event(c.st(), "print", "stderr", txt)
					switch k {
					case "Fatal":
						c.e.event(c.st(), "exit", "", constBV(64, 1))
						c.st().g = False
						return nil
					case "Panic":
						c.f.panicIf(True, "log.Panic", &IfaceV{T: types.Typ[types.String], V: txt})
						return nil
					}
					return TupleV{}
				})
			}
		}
	}
	reg("runtime.Goexit", func(c *Ctx, a []Value) Value {
		unsup("runtime.Goexit")
		return nil
	})
	reg("os.Exit", func(c *Ctx, a []Value) Value {
		c.e.event(c.st(), "exit", "", a[0])
		c.st().g = False
		return nil
	})
	// random and other unknown bytes
	fill := func(name string, at int) {
		reg(name, func(c *Ctx, a []Value) Value {
			return c.f.fork(a[at], func(v Value) Value {
				s, ok := v.(*SliceV)
				if !ok {
					unsup("%s into %T", name, v)
				}
				if at == 1 {
					if i, ok := a[0].(*IfaceV); ok && i.T != nil {
						switch i.T.String() {
						case "*bytes.Reader", "*bytes.Buffer", "*strings.Reader":
							unsup("%s of a reader in memory", name)
						}
					}
				}
				n := c.e.constUnder(c.st().g, s.Len)
				if n == nil {
					unsup("%s into a slice of unknown length", name)
				}
				c.e.event(c.st(), "ext", name)
				t := c.e.freshTerm(name + "()")
				t.world = true
				if s.Obj >= 0 && n.V > 0 {
					var b []Value
					for i := 0; i < int(n.V); i++ {
						b = append(b, c.e.termBV(c.e.newTerm(fmt.Sprintf("[%d]", i), t), 8, True))
					}
					c.e.setElems(c.st(), s, 0, b)
				}
				err := c.e.symOf(c.st(), types.Universe.Lookup("error").Type(), c.e.newTerm("#1", t))
				if name == "crypto/rand.Read" {
					err = nilIface
				}
				return TupleV{n, err}
			})
		})
	}
	fill("crypto/rand.Read", 0)
	fill("math/rand.Read", 0)
	fill("(*math/rand.Rand).Read", 1)
	fill("io.ReadFull", 1)
	reg("os.Getenv", func(c *Ctx, a []Value) Value { return tStr(c.e.newTerm("ENV", a[0])) })
	reg("os.LookupEnv", func(c *Ctx, a []Value) Value {
		t := c.e.newTerm("ENV", a[0])
		set := c.e.b.Or(c.e.termBool(c.e.newTerm("ENVSET", a[0]), True), Not(c.e.termEmpty(t)))
		return TupleV{tStr(t), BoolV(set)}
	})
}

func (e *E) isNilErr(v Value) Value {
	r := False
	for _, a := range e.alts(True, v) {
		if i, ok := a.V.(*IfaceV); ok && i.T == nil {
			r = e.b.Or(r, a.G)
		}
	}
	return BoolV(r)
}

// ---- locks

func (c *Ctx) lockName(v Value) (string, string) {
	p, ok := v.(*PtrV)
	if !ok {
		unsup("lock %T", v)
	}
	if p.Obj < 0 {
		c.f.panicIf(True, "nil pointer dereference (lock)", nil)
		return "", ""
	}
	return key(p), pathClass(c.e.objs[p.Obj].T, p.Path)
}

func (c *Ctx) lock(v Value, w bool) {
	addr, name := c.lockName(v)
	if addr == "" {
		return
	}
	e, st := c.e, c.st()
	for _, l := range st.locks {
		if l.Addr == addr && e.b.And(st.g, l.G) != False {
			ev := e.event(st, "doublelock", name)
			ev.G = e.b.And(st.g, l.G)
		}
	}
	e.event(st, "lock", addr, e.cbool(w), cStr(name))
	e.epoch++
	st.locks = append(st.locks, lockEnt{Addr: addr, Name: name, Class: name, Pos: e.W.pos(e.curPos), W: w, Epoch: e.epoch, G: st.g})
	if e.onAcquire != nil {
		e.onAcquire(st, addr, w)
	}
}

func (c *Ctx) unlock(v Value, w bool) {
	addr, name := c.lockName(v)
	if addr == "" {
		return
	}
	e, st := c.e, c.st()
	held := False
	var out []lockEnt
	for _, l := range st.locks {
		if l.Addr == addr && l.W == w {
			held = e.b.Or(held, l.G)
			l.G = e.b.And(l.G, Not(st.g))
			if l.G == False {
				continue
			}
		}
		out = append(out, l)
	}
	st.locks = out
	if bad := e.b.And(st.g, Not(held)); bad != False {
		ev := e.event(st, "badunlock", name)
		ev.G = bad
		c.f.panicIf(Not(held), "unlock of unlocked mutex", nil)
	}
	e.event(st, "unlock", addr, e.cbool(w))
}

func (c *Ctx) tryLock(v Value, w bool) Value {
	e := c.e
	ok := e.termBool(e.freshTerm("trylock"), True)
	return c.f.fork(e.choice2(ok), func(x Value) Value {
		if x.(BoolV) == BoolV(True) {
			c.lock(v, w)
		}
		return x
	})
}

// ---- errors

func (f *frame) unwrapErr(v Value) Value {
	i, ok := v.(*IfaceV)
	if !ok || i.T == nil {
		return nilIface
	}
	if n, ok := i.V.(*NativeV); ok {
		if n.Kind == "fmterr" && len(n.V) == 2 {
			return n.V[1]
		}
		if n.Kind == "opaque" {
			return f.e.choice([]Alt{{f.e.termBool(e0(f.e, "WRAPS", n.T), True), &IfaceV{T: f.e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: e0(f.e, "UNWRAP", n.T)}}},
				{Not(f.e.termBool(e0(f.e, "WRAPS", n.T), True)), nilIface}})
		}
		return nilIface
	}
	ms := f.e.W.prog.MethodSets.MethodSet(i.T)
	for k := 0; k < ms.Len(); k++ {
		m := ms.At(k).Obj()
		if m.Name() == "Unwrap" {
			sig := m.Type().(*types.Signature)
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isErr(sig.Results().At(0).Type()) {
				return f.callMethod(i, "Unwrap", nil)
			}
			unsup("Unwrap of %s", i.T)
		}
	}
	return nilIface
}

func e0(e *E, op string, a ...Value) *Term { return e.newTerm(op, a...) }

// unwrapped returns the directly wrapped errors.
func (f *frame) wrapped(i *IfaceV) []Value {
	if n, ok := i.V.(*NativeV); ok {
		if n.Kind == "fmterr" {
			return n.V[1:]
		}
		return nil
	}
	r := f.unwrapErr(i)
	if x, ok := r.(*IfaceV); ok && x.T == nil {
		return nil
	}
	return []Value{r}
}

func (f *frame) errIs(g Ref, err, target Value, d int) Ref {
	e := f.e
	if d > 20 {
		unsup("error chain too deep")
	}
	r := False
	for _, a := range e.alts(g, err) {
		i := a.V.(*IfaceV)
		for _, t := range e.alts(a.G, target) {
			ti := t.V.(*IfaceV)
			if i.T == nil || ti.T == nil {
				if i.T == nil && ti.T == nil {
					r = e.b.Or(r, t.G)
				}
				continue
			}
			m := f.equal(i, ti, nil)
			if n, ok := i.V.(*NativeV); ok && n.Kind == "opaque" {
				if _, same := ti.V.(*NativeV); !same || key(ti.V) != key(n) {
					m = e.b.Or(m, e.termBool(e.newTerm("IS", n.T, ti.V), True))
				}
			}
			for _, w := range f.wrapped(i) {
				m = e.b.Or(m, f.errIs(t.G, w, ti, d+1))
			}
			r = e.b.Or(r, e.b.And(t.G, m))
		}
	}
	return r
}

// ofLibraryType: an unknown error may be of any type of the standard library; whether it is, and its value then.
func (f *frame) ofLibraryType(i *IfaceV, t types.Type) (Ref, Value) {
	e := f.e
	n, is := i.V.(*NativeV)
	if !is || n.Kind != "opaque" || n.T == nil || n.T.Op != "ERR" {
		return False, nil
	}
	x := t
	if p, ok := x.(*types.Pointer); ok {
		x = p.Elem()
	}
	nt, ok := x.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || strings.Contains(strings.Split(nt.Obj().Pkg().Path(), "/")[0], ".") {
		return False, nil
	}
	if !types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
		return False, nil
	}
	name := cStr(t.String())
	return e.termBool(e.newTerm("ISTYPE", n.T, name), True), e.symOf(f.cur.st, t, e.newTerm("AS", n.T, name))
}

func (c *Ctx) errAs(a []Value) Value {
	e := c.e
	ti, ok := a[1].(*IfaceV)
	if !ok || ti.T == nil {
		c.f.panicIf(True, "errors: target must be a non-nil pointer", nil)
		return BoolV(False)
	}
	p, ok := ti.V.(*PtrV)
	pt, ok2 := ti.T.Underlying().(*types.Pointer)
	if !ok || !ok2 {
		unsup("errors.As target")
	}
	found := False
	var rec func(g Ref, v Value, d int)
	rec = func(g Ref, v Value, d int) {
		for _, x := range e.alts(g, v) {
			i, ok := x.V.(*IfaceV)
			if !ok || i.T == nil || d > 20 {
				continue
			}
			match := False
			var val Value
			if types.IsInterface(pt.Elem()) {
				if n, is := i.V.(*NativeV); is {
					match = e.nativeImplements(n, pt.Elem())
				} else if types.Implements(i.T, pt.Elem().Underlying().(*types.Interface)) {
					match = True
				}
				val = i
			} else if types.Identical(i.T, pt.Elem()) {
				match, val = True, i.V
			} else if r, v := c.f.ofLibraryType(i, pt.Elem()); v != nil {
				match, val = r, v
			}
			if h := e.b.And(e.b.And(x.G, match), Not(found)); h != False {
				old := e.getPath(hget(c.st().heap, p.Obj), p.Path)
				e.storeObj(c.st(), p.Obj, p.Path, e.ite(h, val, old))
				found = e.b.Or(found, h)
			}
			for _, w := range c.f.wrapped(i) {
				rec(e.b.And(x.G, Not(match)), w, d+1)
			}
		}
	}
	rec(c.st().g, a[0], 0)
	return BoolV(found)
}

// ---- formatting

func (c *Ctx) catV(a, b Value) Value {
	return c.e.map2(c.st().g, a, b, func(_ Ref, x, y Value) Value { return c.e.concat(x.(*Str), y.(*Str)) })
}

func (c *Ctx) itoa(v *BV, sgn bool, base int) Value {
	if x := c.e.constUnder(c.st().g, v); x != nil {
		if sgn {
			return cStr(strconv.FormatInt(x.sval(), base))
		}
		return cStr(strconv.FormatUint(x.V, base))
	}
	return tStr(c.e.newTerm(fmt.Sprintf("ITOA%d", base), v))
}

// text is what %v prints for a value (nil if not followed precisely).
func (c *Ctx) text(v Value, verb byte) Value {
	e := c.e
	if _, ok := v.(*ChoiceV); ok {
		bad := false
		r := e.map1(c.st().g, v, func(g Ref, v Value) Value {
			s := c.text(v, verb)
			if s == nil {
				bad = true
				return cStr("")
			}
			return s
		})
		if bad {
			return nil
		}
		return r
	}
	i, ok := v.(*IfaceV)
	if !ok {
		return nil
	}
	if cv, ok := i.V.(*ChoiceV); ok {
		var out []Alt
		for _, a := range cv.A {
			out = append(out, Alt{a.G, &IfaceV{T: i.T, V: a.V}})
		}
		return c.text(&ChoiceV{A: out}, verb)
	}
	if i.T == nil {
		if verb == 's' || verb == 'd' || verb == 'w' {
			return cStr("%!" + string(verb) + "(<nil>)")
		}
		return cStr("<nil>")
	}
	if verb == 'v' || verb == 's' || verb == 'w' {
		if n, ok := i.V.(*NativeV); ok {
			if n.Kind == "fmterr" {
				return n.V[0]
			}
			if n.Kind == "opaque" {
				return tStr(e.newTerm("ERRTEXT", n.T))
			}
			return nil
		}
		ms := e.W.prog.MethodSets.MethodSet(i.T)
		for k := 0; k < ms.Len(); k++ {
			m := ms.At(k).Obj()
			if m.Name() == "Error" || m.Name() == "String" {
				sig := m.Type().(*types.Signature)
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
					return c.f.callMethod(i, m.Name(), nil)
				}
			}
		}
	}
	switch x := i.V.(type) {
	case *Str:
		if verb == 'v' || verb == 's' {
			return x
		}
		if verb == 'q' && x.K == 'c' {
			return cStr(strconv.Quote(x.S))
		}
		if (verb == 'x' || verb == 'X') && x.K == 'c' {
			return cStr(fmt.Sprintf("%"+string(verb), x.S))
		}
	case *BV:
		switch verb {
		case 'v', 'd':
			return c.itoa(x, signed(i.T), 10)
		case 'x', 'X', 'o', 'b', 'c', 'q', 'U':
			if k := e.constUnder(c.st().g, x); k != nil {
				if signed(i.T) {
					return cStr(fmt.Sprintf("%"+string(verb), k.sval()))
				}
				return cStr(fmt.Sprintf("%"+string(verb), k.V))
			}
		}
	case BoolV:
		if verb == 'v' || verb == 't' {
			return e.ite(Ref(x), cStr("true"), cStr("false"))
		}
	case *SliceV:
		if b, ok := i.T.Underlying().(*types.Slice); ok {
			if eb, ok := b.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				switch verb {
				case 's':
					return e.bytesStr(c.st(), x)
				case 'x', 'X':
					if t := e.fullTerm(c.st(), x); t != nil && verb == 'x' {
						return tStr(e.hexEncodeTerm(t))
					}
					n := e.constUnder(c.st().g, x.Len)
					if n == nil {
						return nil
					}
					digits := "0123456789abcdef"
					if verb == 'X' {
						digits = "0123456789ABCDEF"
					}
					var out []*BV
					for _, bv := range e.elems(c.st(), x, int(n.V)) {
						for _, nib := range []int{4, 0} {
							v := append(append([]Ref(nil), bv.(*BV).bits()[nib:nib+4]...), False, False, False, False)
							out = append(out, e.muxBytes(16, mkBV(v), func(i int) *BV { return constBV(8, uint64(digits[i])) }))
						}
					}
					return bStr(out)
				}
			}
		}
	}
	return nil
}

// goArg converts a constant argument to a Go value for the real formatter.
func (c *Ctx) goArg(v Value) (interface{}, bool) {
	i, ok := v.(*IfaceV)
	if !ok {
		return nil, false
	}
	if i.T == nil {
		return nil, true
	}
	switch x := i.V.(type) {
	case *Str:
		if x.K == 'c' && types.Identical(i.T, types.Typ[types.String]) {
			return x.S, true
		}
	case *BV:
		if x.C {
			if b, ok := i.T.(*types.Basic); ok {
				switch b.Kind() {
				case types.Int, types.Int64:
					return x.sval(), true
				case types.Uint8:
					return byte(x.V), true
				case types.Int32:
					return int32(x.sval()), true
				default:
					if signed(i.T) {
						return x.sval(), true
					}
					return x.V, true
				}
			}
		}
	case BoolV:
		if x == BoolV(True) {
			return true, true
		}
		if x == BoolV(False) {
			return false, true
		}
	}
	return nil, false
}

func (c *Ctx) sprintf(format, args Value) (Value, []Value) {
	e := c.e
	var av []Value
	if s, ok := args.(*SliceV); ok && s.Obj >= 0 {
		av = e.elems(c.st(), s, c.f.constLen(s.Len, "number of arguments"))
	}
	fs, ok := c.cstr(format)
	if !ok {
		var snaps []Value
		snaps = append(snaps, format)
		for _, a := range av {
			snaps = append(snaps, e.snap(c.st(), a))
		}
		return tStr(e.newTerm("FMT", snaps...)), nil
	}
	var res Value = cStr("")
	var wrapped []Value
	k := 0
	lit := func(s string) { res = c.catV(res, cStr(s)) }
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				lit(fs[i:])
				break
			}
			lit(fs[i : i+j])
			i += j - 1
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			lit("%!(NOVERB)")
			break
		}
		verb := fs[j]
		spec := fs[i : j+1]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if verb == '*' || verb == '[' {
			unsup("format %q", fs)
		}
		if k >= len(av) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := av[k]
		k++
		if verb == 'w' {
			wrapped = append(wrapped, a)
		}
		if len(spec) == 2 {
			if t := c.text(a, verb); t != nil {
				res = c.catV(res, t)
				continue
			}
		}
		if ga, ok := c.goArg(a); ok {
			lit(fmt.Sprintf(spec, ga))
			continue
		}
		res = c.catV(res, tStr(e.newTerm("FMT", cStr(spec), e.snap(c.st(), a))))
	}
	if k < len(av) {
		res = c.catV(res, tStr(e.newTerm("FMT", cStr("EXTRA"), e.snap(c.st(), ArrayV(av[k:])))))
	}
	return res, wrapped
}

func (c *Ctx) sprint(args Value, ln bool) Value {
	e := c.e
	var av []Value
	if s, ok := args.(*SliceV); ok && s.Obj >= 0 {
		av = e.elems(c.st(), s, c.f.constLen(s.Len, "number of arguments"))
	}
	isStr := func(v Value) bool {
		i, ok := v.(*IfaceV)
		if !ok || i.T == nil {
			return false
		}
		_, ok = i.V.(*Str)
		return ok
	}
	var res Value = cStr("")
	for i, a := range av {
		if i > 0 && (ln || !isStr(a) && !isStr(av[i-1])) {
			res = c.catV(res, cStr(" "))
		}
		t := c.text(a, 'v')
		if t == nil {
			t = tStr(e.newTerm("FMT", cStr("%v"), e.snap(c.st(), a)))
		}
		res = c.catV(res, t)
	}
	if ln {
		res = c.catV(res, cStr("\n"))
	}
	return res
}

// writeTo sends a string to an io.Writer.
func (f *frame) writeTo(w Value, txt Value) Value {
	e := f.e
	return f.fork(w, func(w Value) Value {
		i, ok := w.(*IfaceV)
		if !ok || i.T == nil {
			f.panicIf(True, "nil writer", nil)
			return nil
		}
		return f.fork(txt, func(t Value) Value {
			if n, ok := i.V.(*NativeV); ok && (n.Kind == "file" || n.Kind == "rw") {
				return f.nativeCall(n, "WriteString", nil, []Value{t})
			}
			b := e.strBytes(f.cur.st, t.(*Str), byteSlice)
			return f.callMethod(i, "Write", []Value{b})
		})
	})
}

func (c *Ctx) sbType() types.Type { return c.e.W.pkgs["strings"].Members["Builder"].Type() }

// a strings.Builder keeps its text in its first field
func (c *Ctx) sbAdd(p, s Value) {
	q := p.(*PtrV)
	cur := c.sbGet(p)
	c.e.storeObj(c.st(), q.Obj, appendPath(q.Path, 0), c.catV(cur, s))
}

func (c *Ctx) sbGet(p Value) Value {
	q := p.(*PtrV)
	v := c.e.loadObj(c.st(), q.Obj, appendPath(q.Path, 0))
	return c.e.map1(c.st().g, v, func(_ Ref, v Value) Value {
		if _, ok := v.(*Str); ok {
			return v
		}
		return cStr("")
	})
}
