package main

// Reduced ordered binary decision diagrams with complement edges: the boolean
// domain of the abstract interpreter (path guards and bits of integers).
// The variable order is kept by labels, so a variable can be inserted anywhere.

import (
	"fmt"
	"sync/atomic"
	"time"
)

type Ref uint32 // node index << 1 | complement

const (
	True  Ref = 0
	False Ref = 1
)

type bnode struct {
	v      int32 // variable, -1 for the terminal
	lo, hi Ref   // hi is never complemented
	next   uint32
}

type iteKey struct{ f, g, h Ref }
type iteEnt struct {
	k  iteKey
	r  Ref
	ok bool
}

type BDD struct {
	n       []bnode
	tab     []uint32
	cache   []iteEnt
	label   []uint64 // order label per variable
	next    []int32  // linked list of variables in order
	prev    []int32
	tail    int32
	head    int32
	owner   []interface{} // what the variable stands for
	maxNode int
	work    int
}

// deadline bounds the time of a run; what is left then is undecided.
var deadline atomic.Int64

func setDeadline(t time.Time) { deadline.Store(t.UnixNano()) }

func checkTime() {
	if d := deadline.Load(); d != 0 && time.Now().UnixNano() > d {
		unsup("out of time")
	}
}

// hurry: a violation is found, the rest of the run has little time to find more.
func hurry(d time.Duration) {
	n := time.Now().Add(d).UnixNano()
	if o := deadline.Load(); o == 0 || n < o {
		deadline.Store(n)
	}
}

type bddOverflow struct{}

func NewBDD(maxNode int) *BDD {
	b := &BDD{maxNode: maxNode, tail: -1, head: -1}
	b.n = append(b.n, bnode{v: -1})
	b.tab = make([]uint32, 1<<14)
	b.cache = make([]iteEnt, 1<<16)
	return b
}

func Not(r Ref) Ref { return r ^ 1 }

// NewVar appends a variable at the end of the order.
func (b *BDD) NewVar(owner interface{}) Ref { return b.newVarAfter(b.tail, owner) }

func (b *BDD) newVarAfter(after int32, owner interface{}) Ref {
	id := int32(len(b.label))
	b.owner = append(b.owner, owner)
	var nx int32
	if after < 0 {
		nx = b.head
	} else {
		nx = b.next[after]
	}
	b.label = append(b.label, 0)
	b.next = append(b.next, nx)
	b.prev = append(b.prev, after)
	if after < 0 {
		b.head = id
	} else {
		b.next[after] = id
	}
	if nx < 0 {
		b.tail = id
	} else {
		b.prev[nx] = id
	}
	var lo, hi uint64 = 0, 1 << 63
	if after >= 0 {
		lo = b.label[after]
	}
	if nx >= 0 {
		hi = b.label[nx]
	} else if lo+(1<<32) < hi {
		b.label[id] = lo + (1 << 32)
		return b.mk(id, False, True)
	}
	if hi-lo < 2 {
		// relabel evenly, the relative order is unchanged
		var l uint64
		step := (uint64(1) << 62) / uint64(len(b.label)+1)
		for v := b.head; v >= 0; v = b.next[v] {
			l += step
			b.label[v] = l
		}
	} else {
		b.label[id] = lo + (hi-lo)/2
	}
	return b.mk(id, False, True)
}

func hash3(a, c, d uint32) uint32 {
	h := uint64(a)*0x9E3779B97F4A7C15 ^ uint64(c)*0xC2B2AE3D27D4EB4F ^ uint64(d)*0x165667B19E3779F9
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return uint32(h)
}

func (b *BDD) mk(v int32, lo, hi Ref) Ref {
	if lo == hi {
		return lo
	}
	neg := hi & 1
	if neg != 0 {
		lo, hi = lo^1, hi^1
	}
	h := hash3(uint32(v), uint32(lo), uint32(hi)) & uint32(len(b.tab)-1)
	for i := b.tab[h]; i != 0; i = b.n[i].next {
		n := &b.n[i]
		if n.v == v && n.lo == lo && n.hi == hi {
			return Ref(i<<1) | neg
		}
	}
	if len(b.n) >= b.maxNode {
		panic(bddOverflow{})
	}
	if len(b.n) > len(b.tab) {
		b.grow()
		h = hash3(uint32(v), uint32(lo), uint32(hi)) & uint32(len(b.tab)-1)
	}
	i := uint32(len(b.n))
	b.n = append(b.n, bnode{v, lo, hi, b.tab[h]})
	b.tab[h] = i
	return Ref(i<<1) | neg
}

func (b *BDD) grow() {
	b.tab = make([]uint32, len(b.tab)*4)
	for i := 1; i < len(b.n); i++ {
		n := &b.n[i]
		h := hash3(uint32(n.v), uint32(n.lo), uint32(n.hi)) & uint32(len(b.tab)-1)
		n.next = b.tab[h]
		b.tab[h] = uint32(i)
	}
	if len(b.cache) < 1<<21 {
		b.cache = make([]iteEnt, len(b.cache)*4)
	}
}

func (b *BDD) top(r Ref) int32 { return b.n[r>>1].v }

func (b *BDD) lvl(r Ref) uint64 {
	v := b.n[r>>1].v
	if v < 0 {
		return ^uint64(0)
	}
	return b.label[v]
}

func (b *BDD) cof(r Ref, v int32) (lo, hi Ref) {
	n := &b.n[r>>1]
	if n.v != v {
		return r, r
	}
	return n.lo ^ (r & 1), n.hi ^ (r & 1)
}

func (b *BDD) Ite(f, g, h Ref) Ref {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	}
	if g == f {
		g = True
	} else if g == f^1 {
		g = False
	}
	if h == f {
		h = False
	} else if h == f^1 {
		h = True
	}
	if g == h {
		return g
	}
	if g == True && h == False {
		return f
	}
	if g == False && h == True {
		return f ^ 1
	}
	// normalise
	switch {
	case g == True:
		if b.lvl(h) < b.lvl(f) || (b.lvl(h) == b.lvl(f) && h < f) {
			f, h = h, f
		}
	case h == False:
		if b.lvl(g) < b.lvl(f) || (b.lvl(g) == b.lvl(f) && g < f) {
			f, g = g, f
		}
	case h == True:
		if b.lvl(g) < b.lvl(f) || (b.lvl(g) == b.lvl(f) && g < f) {
			f, g = g^1, f^1
		}
	case g == False:
		if b.lvl(h) < b.lvl(f) || (b.lvl(h) == b.lvl(f) && h < f) {
			f, h = h^1, f^1
		}
	case g == h^1:
		if b.lvl(g) < b.lvl(f) || (b.lvl(g) == b.lvl(f) && g < f) {
			f, g, h = g, f, f^1
		}
	}
	if f&1 != 0 {
		f, g, h = f^1, h, g
	}
	var neg Ref
	if g&1 != 0 {
		neg = 1
		g, h = g^1, h^1
	}
	key := iteKey{f, g, h}
	ci := hash3(uint32(f), uint32(g), uint32(h)) & uint32(len(b.cache)-1)
	if e := &b.cache[ci]; e.ok && e.k == key {
		return e.r ^ neg
	}
	if b.work++; b.work&(1<<18-1) == 0 {
		checkTime()
	}
	v := b.top(f)
	l := b.lvl(f)
	if lg := b.lvl(g); lg < l {
		l, v = lg, b.top(g)
	}
	if lh := b.lvl(h); lh < l {
		v = b.top(h)
	}
	f0, f1 := b.cof(f, v)
	g0, g1 := b.cof(g, v)
	h0, h1 := b.cof(h, v)
	hi := b.Ite(f1, g1, h1)
	lo := b.Ite(f0, g0, h0)
	r := b.mk(v, lo, hi)
	ci = hash3(uint32(f), uint32(g), uint32(h)) & uint32(len(b.cache)-1)
	b.cache[ci] = iteEnt{key, r, true}
	return r ^ neg
}

func (b *BDD) And(f, g Ref) Ref { return b.Ite(f, g, False) }
func (b *BDD) Or(f, g Ref) Ref  { return b.Ite(f, True, g) }
func (b *BDD) Xor(f, g Ref) Ref { return b.Ite(f, g^1, g) }
func (b *BDD) Implies(f, g Ref) bool {
	return b.And(f, g^1) == False
}

// Support returns the variables a node depends on, in order.
func (b *BDD) Support(rs ...Ref) map[int32]bool {
	seen := map[uint32]bool{}
	vs := map[int32]bool{}
	var walk func(i uint32)
	walk = func(i uint32) {
		if i == 0 || seen[i] {
			return
		}
		seen[i] = true
		vs[b.n[i].v] = true
		walk(uint32(b.n[i].lo >> 1))
		walk(uint32(b.n[i].hi >> 1))
	}
	for _, r := range rs {
		walk(uint32(r >> 1))
	}
	return vs
}

// deepest returns the last variable in the order that r depends on, -1 if constant.
func (b *BDD) deepest(r Ref) int32 {
	best := int32(-1)
	for v := range b.Support(r) {
		if best < 0 || b.label[v] > b.label[best] {
			best = v
		}
	}
	return best
}

// Sat returns one satisfying assignment of r.
func (b *BDD) Sat(r Ref) map[int32]bool {
	if r == False {
		return nil
	}
	m := map[int32]bool{}
	for r != True {
		n := b.n[r>>1]
		lo, hi := n.lo^(r&1), n.hi^(r&1)
		if lo != False {
			m[n.v] = false
			r = lo
		} else {
			m[n.v] = true
			r = hi
		}
	}
	return m
}

// Eval evaluates r under an assignment (absent variables are false).
func (b *BDD) Eval(r Ref, m map[int32]bool) bool {
	for r>>1 != 0 {
		n := b.n[r>>1]
		if m[n.v] {
			r = n.hi ^ (r & 1)
		} else {
			r = n.lo ^ (r & 1)
		}
	}
	return r == True
}

func (b *BDD) String() string { return fmt.Sprintf("bdd(%d vars, %d nodes)", len(b.label), len(b.n)) }

// Limited runs f with room for n more nodes; it reports whether they sufficed.
func (b *BDD) Limited(n int, f func()) (ok bool) {
	max := b.maxNode
	if m := len(b.n) + n; m < max {
		b.maxNode = m
	}
	defer func() {
		b.maxNode = max
		if x := recover(); x != nil {
			if _, is := x.(bddOverflow); !is || len(b.n) >= max {
				panic(x)
			}
			ok = false
		}
	}()
	f()
	return true
}

// Forall quantifies variables universally.
func (b *BDD) Forall(r Ref, vars map[int32]bool) Ref {
	memo := map[Ref]Ref{}
	var q func(r Ref) Ref
	q = func(r Ref) Ref {
		if r == True || r == False {
			return r
		}
		if x, ok := memo[r]; ok {
			return x
		}
		v := b.top(r)
		lo, hi := b.cof(r, v)
		lo, hi = q(lo), q(hi)
		var x Ref
		if vars[v] {
			x = b.And(lo, hi)
		} else {
			x = b.Ite(b.mk(v, False, True), hi, lo)
		}
		memo[r] = x
		return x
	}
	return q(r)
}
