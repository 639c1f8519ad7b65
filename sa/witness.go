package main

import "sort"

// A difference between opaque terms is one only if no two of them must be equal: two applications
// of a function to arguments that differ as gated values may have equal arguments in the very case
// that is reported. The case is therefore taken apart here: its inputs are fixed, the applications
// are numbered by their arguments under it (congruence), a decryption of an encryption is resolved,
// and the difference has to survive that.

type canon struct {
	e      *E
	as     map[int32]bool // the inputs fixed
	memo   map[Ref]Ref
	sub    map[int32]Ref
	rep    map[*Term]*Term
	byKey  map[string]*Term
	bits   map[*Term]map[string][]Ref
	args   map[*Term][]Value
	values map[*Term][]Ref
	inv    map[string]*Term
}

func (c *canon) ref(r Ref) Ref {
	if r == True || r == False {
		return r
	}
	if x, ok := c.memo[r]; ok {
		return x
	}
	b := c.e.b
	v := b.top(r)
	lo, hi := b.cof(r, v)
	var x Ref
	if val, ok := c.as[v]; ok {
		if val {
			x = c.ref(hi)
		} else {
			x = c.ref(lo)
		}
	} else {
		s, ok := c.sub[v]
		if !ok {
			s = b.mk(v, False, True)
		}
		x = b.Ite(s, c.ref(hi), c.ref(lo))
	}
	c.memo[r] = x
	return x
}

func (c *canon) term(t *Term) *Term {
	if r, ok := c.rep[t]; ok {
		return r
	}
	return t
}

func (c *canon) list(l []Value) []Value {
	r := make([]Value, len(l))
	for i := range l {
		r[i] = c.value(l[i])
	}
	return r
}

func (c *canon) value(v Value) Value {
	switch x := v.(type) {
	case *BV:
		if x.C {
			return x
		}
		b := make([]Ref, x.W)
		for i := range b {
			b[i] = c.ref(x.bit(i))
		}
		return mkBV(b)
	case BoolV:
		return BoolV(c.ref(Ref(x)))
	case *Str:
		switch x.K {
		case 't':
			t := c.term(x.T)
			if code := t.bits["code"]; code != nil {
				n := 0
				for i, l := range code {
					switch c.ref(l) {
					case True:
						n |= 1 << uint(i)
					case False:
					default:
						n = -1 << 20
					}
				}
				if n >= 0 && n < len(c.e.codeList) {
					return cStr(c.e.codeList[n])
				}
			}
			return tStr(t)
		case 'b':
			b := make([]*BV, len(x.B))
			for i := range b {
				b[i] = c.value(x.B[i]).(*BV)
			}
			return bStr(b)
		}
	case ArrayV:
		return ArrayV(c.list(x))
	case TupleV:
		return TupleV(c.list(x))
	case StructV:
		return StructV(c.list(x))
	case *Term:
		return c.term(x)
	case *IfaceV:
		if x.T != nil {
			return &IfaceV{T: x.T, V: c.value(x.V)}
		}
	case *NativeV:
		n := *x
		if n.T != nil {
			n.T = c.term(n.T)
		}
		n.V = c.list(n.V)
		return &n
	case *SliceV:
		if x.Obj >= 0 && x.Len != nil {
			s := *x
			s.Len = c.value(x.Len).(*BV)
			return &s
		}
	case *ChoiceV:
		var out []Alt
		for _, a := range x.A {
			if g := c.ref(a.G); g != False {
				w := c.value(a.V)
				if g == True {
					return w
				}
				out = append(out, Alt{g, w})
			}
		}
		if len(out) > 0 {
			same := true
			for _, a := range out[1:] {
				same = same && identical(a.V, out[0].V)
			}
			if same {
				return out[0].V
			}
		}
		return &ChoiceV{A: out}
	}
	return v
}

var inverse = map[string]string{"AES_E": "AES_D", "AES_D": "AES_E", "DES_E": "DES_D", "DES_D": "DES_E"}

// build numbers the terms under the inputs fixed.
func (e *E) canon(as map[int32]bool) *canon {
	c := &canon{e: e, as: as, memo: map[Ref]Ref{}, sub: map[int32]Ref{}, rep: map[*Term]*Term{}, byKey: map[string]*Term{}, bits: map[*Term]map[string][]Ref{}, inv: map[string]*Term{}}
	alias := func(t *Term, aspect string, with []Ref) {
		for i, l := range t.bits[aspect] {
			if i < len(with) && l&1 == 0 && with[i] != l {
				c.sub[e.b.top(l)] = with[i]
			}
		}
	}
	for _, t := range e.terms {
		if len(t.Args) == 0 {
			continue
		}
		args := c.list(t.Args)
		k := t.Op + "#" + key(TupleV(args))
		if inv := inverse[t.Op]; inv != "" && len(args) == 2 && t.bits["bytes"] != nil {
			if p, ok := c.inv[k]; ok {
				// decrypting an encryption: the bytes are those that were encrypted
				var with []Ref
				for _, b := range c.value(p.Args[1]).(ArrayV) {
					with = append(with, b.(*BV).bits()...)
				}
				alias(t, "bytes", with)
				c.memo = map[Ref]Ref{}
				continue
			}
		}
		r, ok := c.byKey[k]
		if !ok {
			r = t
			c.byKey[k] = t
			c.bits[t] = map[string][]Ref{}
		} else {
			c.rep[t] = r
		}
		changed := false
		for a, l := range t.bits {
			if l2, ok := c.bits[r][a]; ok && len(l2) >= len(l) {
				alias(t, a, l2)
				changed = true
			} else if !ok {
				c.bits[r][a] = l
			}
		}
		if changed {
			c.memo = map[Ref]Ref{}
		}
		if inv := inverse[t.Op]; inv != "" && len(args) == 2 && !ok && t.bits["bytes"] != nil {
			if d, isA := args[1].(ArrayV); isA {
				out := make(ArrayV, len(d))
				for i := range d {
					if 8*i+8 <= len(t.bits["bytes"]) {
						out[i] = mkBV(t.bits["bytes"][8*i : 8*i+8])
					}
				}
				c.inv[inv+"#"+key(TupleV{args[0], out})] = t
			}
		}
	}
	return c
}

// inputs tells which terms do not depend on the result of a function.
func (e *E) inputVar() func(v int32) bool {
	app := map[*Term]bool{}
	for _, l := range e.apps {
		for _, a := range l {
			app[a.T] = true
		}
	}
	dep := map[*Term]int{}
	var term func(t *Term) bool
	var val func(v Value) bool
	val = func(v Value) bool {
		switch x := v.(type) {
		case *Term:
			return term(x)
		case *Str:
			return x.K == 't' && term(x.T) || x.K == 'b'
		case *BV:
			return !x.C
		case ArrayV:
			for _, y := range x {
				if val(y) {
					return true
				}
			}
		case TupleV:
			for _, y := range x {
				if val(y) {
					return true
				}
			}
		case StructV:
			for _, y := range x {
				if val(y) {
					return true
				}
			}
		case *ChoiceV:
			return true
		case *IfaceV:
			return val(x.V)
		case *NativeV:
			if x.T != nil && term(x.T) {
				return true
			}
			for _, y := range x.V {
				if val(y) {
					return true
				}
			}
		case BoolV:
			return Ref(x) != True && Ref(x) != False
		}
		return false
	}
	term = func(t *Term) bool {
		if app[t] {
			return true
		}
		if d, ok := dep[t]; ok {
			return d == 1
		}
		dep[t] = 0
		for _, a := range t.Args {
			if val(a) {
				dep[t] = 1
				return true
			}
		}
		return false
	}
	return func(v int32) bool {
		o, ok := e.b.owner[v].(*VarOwner)
		return !ok || !term(o.T)
	}
}

// fill completes an assignment of inputs.
func (e *E) fill(as map[int32]bool, isIn func(int32) bool, seed uint32) map[int32]bool {
	out := make(map[int32]bool, len(e.b.owner))
	for v, val := range as {
		out[v] = val
	}
	for v := range e.b.owner {
		if _, ok := out[int32(v)]; ok || !isIn(int32(v)) {
			continue
		}
		o, isO := e.b.owner[v].(*VarOwner)
		if isO && o.Aspect == "code" {
			continue
		}
		val := false
		if seed != 0 && isO && o.Aspect == "bytes" {
			h := (uint32(v)*2654435761 + seed) * 40503
			val = h>>17&1 == 1
		}
		out[int32(v)] = val
	}
	return out
}

// apart gives assignments of inputs under which applications that g tells apart have arguments
// that are told apart.
func (e *E) apart(g Ref, isIn func(int32) bool) (out []map[int32]bool) {
	queue := []Ref{g}
	seen := map[Ref]bool{g: true}
	pairs := map[[2]*Term]bool{}
	for n := 0; n < len(queue) && n < 24; n++ {
		r := queue[n]
		if n > 0 {
			m := map[int32]bool{}
			for v, val := range e.b.Sat(r) {
				if isIn(v) {
					m[v] = val
				}
			}
			out = append(out, m)
		}
		var ts []*Term
		had := map[*Term]bool{}
		for v := range e.b.Support(r) {
			if o, ok := e.b.owner[v].(*VarOwner); ok && !isIn(v) && o.T != nil && !had[o.T] {
				had[o.T] = true
				ts = append(ts, o.T)
			}
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
		if len(ts) > 12 {
			ts = ts[:12]
		}
		for i, a := range ts {
			for _, b := range ts[i+1:] {
				if a.Op != b.Op || len(a.Args) != len(b.Args) || pairs[[2]*Term{a, b}] {
					continue
				}
				pairs[[2]*Term{a, b}] = true
				n := 0
				for k := range a.Args {
					e.unlike(a.Args[k], b.Args[k], func(d Ref) bool {
						if x := e.b.And(d, r); x != False {
							d = x
						}
						if !seen[d] {
							seen[d] = true
							queue = append(queue, d)
							n++
						}
						return n < 3
					})
				}
			}
		}
	}
	return
}

// unlike goes through the bits that differ in two contents, as far as they are bytes.
func (e *E) unlike(a, b Value, f func(d Ref) bool) bool {
	list := func(x, y []Value) bool {
		if len(x) == len(y) {
			for i := range x {
				if !e.unlike(x[i], y[i], f) {
					return false
				}
			}
		}
		return true
	}
	switch x := a.(type) {
	case *BV:
		if y, ok := b.(*BV); ok && x.W == y.W {
			for i := 0; i < x.W; i++ {
				if d := e.b.Xor(x.bit(i), y.bit(i)); d != False && !f(d) {
					return false
				}
			}
		}
	case ArrayV:
		if y, ok := b.(ArrayV); ok {
			return list(x, y)
		}
	case TupleV:
		if y, ok := b.(TupleV); ok {
			return list(x, y)
		}
	}
	return true
}

// genuine gives the part of g that is left when equal applications are identified: False when there
// is none, and ok only when it could be told.
func (e *E) genuine(g Ref) (w Ref, ok bool) {
	isIn := e.inputVar()
	defer func(n int) { e.b.maxNode = n }(e.b.maxNode)
	e.b.maxNode += 1_000_000
	defer func() {
		switch x := recover().(type) {
		case nil:
		case bddOverflow:
			w, ok = g, false
		default:
			panic(x)
		}
	}()
	any := false
	for v := range e.b.Support(g) {
		if !isIn(v) {
			any = true
		}
	}
	if !any || g == False {
		return g, true
	}
	unsure := false
	for k := 0; k < 200 && g != False; k++ {
		m := e.b.Sat(g)
		as := map[int32]bool{}
		cube := True
		for v, val := range m {
			if isIn(v) {
				as[v] = val
				l := e.b.mk(v, False, True)
				if !val {
					l = Not(l)
				}
				cube = e.b.And(cube, l)
			}
		}
		d := e.canon(as).ref(g)
		if d == False {
			g = e.b.And(g, Not(cube))
			continue
		}
		// the rest of the inputs: any values will do
		for v, val := range e.b.Sat(d) {
			if isIn(v) {
				as[v] = val
			}
		}
		if e.canon(e.fill(as, isIn, 0)).ref(g) != False {
			return e.b.And(g, cube), true
		}
		// values that tell the arguments of the applications apart
		if k < 3 {
			for _, m := range e.apart(g, isIn) {
				for seed := uint32(0); seed < 2; seed++ {
					if e.canon(e.fill(m, isIn, seed)).ref(g) != False {
						cube := True
						for v, val := range m {
							l := e.b.mk(v, False, True)
							if !val {
								l = Not(l)
							}
							cube = e.b.And(cube, l)
						}
						return e.b.And(g, cube), true
					}
				}
			}
		}
		unsure = true
		g = e.b.And(g, Not(cube))
	}
	return g, g == False && !unsure
}
