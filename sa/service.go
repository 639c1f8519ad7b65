package main

// Checks of the service and its store: P18 to P25, and P17's service layer.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// svc is an abstract service with some machines in its store.
type svc struct {
	t     *T
	e     *E
	root  *IfaceV
	repo  *IfaceV
	st    *State
	iks   []Value // the machines' initial keys
	specs [][]Value
	start int // first object of the operations
	// the name in hand is none a machine was created under
	stranger bool
}

func (t *T) ifaceResult(x *Res) *IfaceV {
	if x.st.g == False || len(x.raw) == 0 {
		unsup("%s does not return", x.fn)
	}
	i, ok := x.raw[0].(*IfaceV)
	if !ok || i.T == nil {
		unsup("%s returns %s", x.fn, show(x.raw[0]))
	}
	return i
}

// construct calls a constructor; interfaces it is given are known ones or unknown objects.
func (t *T) construct(st *State, name string, known ...*IfaceV) (*IfaceV, *State) {
	fn := t.W.fn(pSrv, name)
	if fn == nil {
		unsup("function server.%s not found", name)
	}
	var args []Value
	for _, p := range fn.Params {
		var v Value
		if it, ok := p.Type().Underlying().(*types.Interface); ok {
			for _, k := range known {
				if _, isN := k.V.(*NativeV); !isN && types.Implements(k.T, it) {
					v = k
				}
			}
		}
		if v == nil {
			v = t.e.symOf(st, p.Type(), t.e.newTerm(name+"."+p.Name()))
		}
		args = append(args, v)
	}
	x := t.invoke(fn, args, st)
	return t.ifaceResult(x), x.st
}

func (t *T) newSvc() *svc {
	st := t.fresh(pSrv)
	t.libOpaque()
	s := &svc{t: t, e: t.e}
	s.repo, st = t.construct(st, "NewRepositoryInMemory")
	s.root, st = t.construct(st, "NewService", s.repo)
	st.g = True
	s.st = st
	s.start = len(t.e.objs)
	return s
}

// method finds a method of a concrete implementation.
func (t *T) method(i *IfaceV, name string) *ssa.Function {
	ms := t.W.prog.MethodSets.MethodSet(i.T)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			fn := t.W.prog.MethodValue(ms.At(k))
			return fn
		}
	}
	unsup("no method %s on %s", name, i.T)
	return nil
}

// ifaceMethods are the methods of an interface type of the server package.
func (r *Run) ifaceMethods(name string) []*types.Func {
	p := r.W.pkgs[pSrv]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*types.Func
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i))
	}
	return out
}

// do interprets one operation from the current state, which it leaves alone.
func (s *svc) do(name string, args ...Value) *Res { return s.on(s.root, name, args...) }

func (s *svc) on(i *IfaceV, name string, args ...Value) *Res {
	fn := s.t.method(i, name)
	return s.t.invoke(fn, append([]Value{i.V}, args...), s.st.clone())
}

// apply moves to the state after an operation, where it succeeded (or failed).
func (s *svc) apply(x *Res, ok bool) {
	g := x.ok
	if !ok {
		g = x.err
	}
	if x.st == nil || g == False {
		s.st = &State{g: False, heap: s.st.heap}
		return
	}
	st := x.st.clone()
	st.g = g
	s.st = st
}

func (s *svc) quiet(f func()) {
	e := s.e
	m, a := e.muteEvents, e.onAccess
	e.muteEvents, e.onAccess = true, nil
	defer func() { e.muteEvents, e.onAccess = m, a }()
	f()
}

func (s *svc) machineType() types.Type {
	return s.t.W.pkgs[pSrv].Pkg.Scope().Lookup("Machine").Type()
}

// machine makes a machine as a caller may build it.
func (s *svc) machine(name string, alg PV) (Value, StructV) {
	e := s.e
	v := e.instOf(s.st, s.machineType(), e.newTerm(name)).(StructV)
	v = s.setField(v, "Algorithm", e.param(s.st, name+".Algorithm", alg))
	id := e.newObj(s.st, "param", name, s.machineType(), v)
	return &PtrV{Obj: id}, v
}

var baseFields = []string{"Algorithm", "AlgorithmKey", "BaseDerivativeKey", "KeySerialNumber"}
var keyFields = []string{"InitialKey", "CurrentKSN", "TransactionKey"}
var allFields = append(append([]string{}, baseFields...), keyFields...)

// find is the path of a (possibly promoted) field.
func fieldPath(t types.Type, name string) []int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if p := fieldPath(st.Field(i).Type(), name); p != nil {
				return append([]int{i}, p...)
			}
		}
	}
	return nil
}

func (s *svc) setField(v StructV, name string, x Value) StructV {
	p := fieldPath(s.machineType(), name)
	if p == nil {
		unsup("no machine field %s", name)
	}
	return s.e.setPath(v, p, x).(StructV)
}

// fields of a machine (or of the content of a pointer to one); nothing for a nil pointer.
func (s *svc) fields(v Value, names []string) Value {
	return s.e.map1(True, v, func(_ Ref, y Value) Value {
		if t, ok := y.(TupleV); ok && len(t) == 1 {
			return s.fields(t[0], names)
		}
		st, ok := y.(StructV)
		if !ok {
			return TupleV{}
		}
		var out TupleV
		for _, n := range names {
			out = append(out, s.e.getPath(st, fieldPath(s.machineType(), n)))
		}
		return out
	})
}

// specM runs a reference function on a machine.
func (s *svc) specM(g Ref, name string, m Value, args ...Value) []Value {
	e := s.e
	var outs [][]Alt
	for _, a := range e.alts(g, m) {
		v := a.V
		if t, ok := v.(TupleV); ok && len(t) == 1 {
			for _, b := range e.alts(a.G, t[0]) {
				if _, ok := b.V.(StructV); !ok {
					continue
				}
				r := s.t.spec(b.G, name, append([]Value{b.V}, args...)...)
				for i := range r {
					if len(outs) <= i {
						outs = append(outs, nil)
					}
					outs[i] = append(outs[i], Alt{b.G, r[i]})
				}
			}
			continue
		}
		if _, ok := v.(StructV); !ok {
			continue
		}
		r := s.t.spec(a.G, name, append([]Value{v}, args...)...)
		for i := range r {
			if len(outs) <= i {
				outs = append(outs, nil)
			}
			outs[i] = append(outs[i], Alt{a.G, r[i]})
		}
	}
	var out []Value
	for _, o := range outs {
		out = append(out, e.choice(o))
	}
	return out
}

// isErrOf asks whether an error is recognizable, in state st.
func (s *svc) isErrOf(st *State, g Ref, name string, err Value) Ref {
	e := s.e
	if g == False {
		return False
	}
	fn := s.t.W.fn(specPath, name)
	var res Value
	s.quiet(func() {
		c := st.clone()
		c.g = g
		r, ret, _ := e.call(fn, []Value{err}, nil, c, false)
		if ret == nil {
			unsup("%s does not return", name)
		}
		res = r
	})
	return e.boolOf(g, res)
}

// view is what get tells about the machine named q.
type view struct {
	ok, err, notFound Ref
	v                 Value
}

func (s *svc) view(q Value) (w view) {
	s.quiet(func() {
		x := s.do("GetMachine", q)
		w.ok, w.err = x.ok, x.err
		w.notFound = False
		if x.err != False {
			w.notFound = s.isErrOf(x.st, x.err, "IsNotFound", x.raw[len(x.raw)-1])
		}
		w.v = nilPtr
		if len(x.ret) > 0 {
			w.v = x.ret[0]
		}
	})
	return w
}

// viewDiff is a guard, within g, under which two views differ.
func (s *svc) viewDiff(g Ref, a, b view) Ref {
	e := s.e
	d := e.b.And(g, e.b.Xor(a.ok, b.ok))
	if d != False {
		return d
	}
	return e.differ(e.b.And(g, e.b.And(a.ok, b.ok)), a.v, b.v)
}

// eachName considers every name there can be: those of the machines, the given ones, and any
// other one; f runs in the state in which the name is that.
func (s *svc) eachName(label string, more []Value, f func(q Value)) {
	e := s.e
	var known []Value
	for _, k := range append(append([]Value{}, s.iks...), more...) {
		dup := false
		for _, o := range known {
			if identical(o, k) {
				dup = true
			}
		}
		if !dup {
			known = append(known, k)
		}
	}
	for _, k := range known {
		f(k)
	}
	save := s.st
	s.st = save.clone()
	q := tStr(e.newTerm(label))
	for _, k := range known {
		s.st.g = e.b.And(s.st.g, Not(s.eqStr(q, k)))
	}
	out := s.stranger
	s.stranger = true
	f(q)
	s.stranger = out
	s.st = save
}

func (s *svc) eqStr(a, b Value) Ref {
	e := s.e
	return e.eqv(True, a, b)
}

// script brings the service into a state: C creates a machine, a advances the first, A fails
// to advance it, x fails to create one, d creates the first again, D deletes the first, l lists
// the machines, g looks the first up, n looks one up that is not there, o carries out every
// operation with the first.
func (s *svc) script(sc string, algs []string) {
	e := s.e
	ms := []Value{}
	for i, c := range sc {
		if s.st.g == False {
			return
		}
		s.quiet(func() {
			switch c {
			case 'C', 'x':
				n := len(ms)
				alg := S("aes")
				if n < len(algs) {
					alg = S(algs[n])
				}
				p, v := s.machine(fmt.Sprintf("m%d", i+1), alg)
				x := s.do("CreateMachine", p)
				s.apply(x, c == 'C')
				if c == 'C' && s.st.g != False {
					w := s.specM(s.st.g, "SvcCreate", v)
					s.iks = append(s.iks, s.fields(w[0], []string{"InitialKey"}).(TupleV)[0])
					if strings.Contains(sc[:i], "D") { // under another name than the deleted one
						s.st.g = e.b.And(s.st.g, Not(s.eqStr(s.iks[0], s.iks[len(s.iks)-1])))
					}
					ms = append(ms, v)
				}
			case 'd':
				id := e.newObj(s.st, "param", "again", s.machineType(), ms[0])
				x := s.do("CreateMachine", &PtrV{Obj: id})
				s.apply(x, false)
			case 'a', 'A':
				x := s.do("MakeNextKSN", s.iks[0])
				s.apply(x, c == 'a')
			case 'D':
				x := s.do("DeleteMachine", s.iks[0])
				s.apply(x, true)
			case 'l':
				s.apply(s.do("GetMachines"), true)
			case 'g':
				s.apply(s.do("GetMachine", s.iks[0]), true)
			case 'n':
				s.apply(s.do("GetMachine", tStr(e.newTerm("earlier name"))), false)
			case 'o':
				for _, m := range s.t.run.ifaceMethods("Service") {
					if ps := m.Type().(*types.Signature).Params(); ps.Len() > 1 && s.st.g != False {
						args := s.callArgs(m, " earlier")
						args[0] = s.iks[0]
						s.apply(s.do(m.Name(), args...), true)
					}
				}
			}
		})
	}
}

type svcState struct {
	script string
	algs   []string
}

func (r *Run) svcStates() []svcState {
	if r.tier == "thorough" {
		return r.svcStatesTo(4)
	}
	return r.svcStatesTo(2)
}

func (r *Run) svcStatesTo(depth int) []svcState {
	aes, des := []string{"aes"}, []string{"des"}
	l := []svcState{{"", nil}, {"C", aes}, {"C", des}, {"CC", []string{"aes", "des"}}, {"Ca", aes}, {"Ca", des}, {"CA", aes}, {"CA", des}, {"Caa", aes}, {"Cd", des}, {"CD", aes}, {"x", aes},
		{"Cgnlo", aes}, {"Clgoa", des}, {"ClDC", []string{"aes", "des"}}}
	if r.tier == "thorough" {
		l = append(l, []svcState{{"CC", []string{"des", "aes"}}, {"CC", []string{"aes", "aes"}}, {"CC", []string{"des", "des"}}, {"CCa", []string{"aes", "des"}}, {"CCD", []string{"aes", "des"}},
			{"Caa", des}, {"Caaa", aes}, {"Caaa", des}, {"Caaaa", aes}, {"CAa", des}, {"CaA", aes}, {"CdA", aes}, {"CxD", des}, {"CCC", []string{"aes", "des", "aes"}},
			{"Clgoa", aes}, {"Cgnlo", des}, {"CClgoD", []string{"aes", "des"}}, {"nC", aes}}...)
	}
	// and every short history
	have := map[string]bool{}
	for _, d := range l {
		have[d.String()] = true
	}
	var grow func(sc string, algs []string)
	grow = func(sc string, algs []string) {
		d := svcState{sc, algs}
		if !have[d.String()] {
			have[d.String()] = true
			l = append(l, d)
		}
		if len(sc) > depth {
			return
		}
		for _, c := range "CaADxdlgno" {
			grow(sc+string(c), algs)
		}
	}
	grow("C", []string{"aes", "des", "aes", "des"})
	grow("C", []string{"des", "aes", "des", "aes"})
	return l
}

func (st svcState) String() string {
	d := map[rune]string{'C': "create", 'a': "advance", 'A': "failed advance", 'x': "failed create", 'd': "duplicate create", 'D': "delete of the first",
		'l': "list", 'g': "lookup", 'n': "lookup of another name", 'o': "every operation"}
	var l []string
	n := 0
	for _, c := range st.script {
		w := d[c]
		if c == 'C' && n < len(st.algs) {
			w += " " + st.algs[n]
			n++
		}
		l = append(l, w)
	}
	if len(l) == 0 {
		return "new service"
	}
	return "after " + strings.Join(l, ", ")
}

func (r *Run) svcTasks(what string, f func(t *T, s *svc, d svcState)) {
	for _, d := range r.svcStates() {
		d := d
		r.task(what+" "+d.String(), func(t *T) {
			s := t.newSvc()
			s.script(d.script, d.algs)
			if s.st.g == False {
				return
			}
			f(t, s, d)
		})
	}
}

// callArgs are arguments for an operation: unknown strings, a caller's machine.
func (s *svc) callArgs(m *types.Func, suffix string) []Value {
	var out []Value
	sig := m.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		name := p.Name()
		if name == "" {
			name = fmt.Sprintf("arg%d", i)
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), s.machineType()) {
			v := s.e.instOf(s.st, s.machineType(), s.e.newTerm("new machine"+suffix)).(StructV)
			id := s.e.newObj(s.st, "param", "machine", s.machineType(), v)
			out = append(out, &PtrV{Obj: id})
			continue
		}
		out = append(out, s.e.symOf(s.st, p.Type(), s.e.newTerm(name+suffix)))
	}
	return out
}

// ---- reachability

func (e *E) reach(st *State, v Value, out map[int]bool) {
	add := func(id int) {
		if id < 0 || out[id] {
			return
		}
		out[id] = true
		if c := hget(st.heap, id); c != nil {
			e.reach(st, c, out)
		}
	}
	switch x := v.(type) {
	case *PtrV:
		add(x.Obj)
	case *SliceV:
		add(x.Obj)
	case *MapV:
		add(x.Obj)
	case *ChanV:
		add(x.Obj)
	case *IfaceV:
		if x.T != nil {
			e.reach(st, x.V, out)
		}
	case *ChoiceV:
		for _, a := range x.A {
			if e.b.And(st.g, a.G) != False {
				e.reach(st, a.V, out)
			}
		}
	case StructV:
		for _, y := range x {
			e.reach(st, y, out)
		}
	case ArrayV:
		for _, y := range x {
			e.reach(st, y, out)
		}
	case TupleV:
		for _, y := range x {
			e.reach(st, y, out)
		}
	case *MapObj:
		for _, en := range x.Ents {
			if e.b.And(st.g, en.P) != False {
				e.reach(st, en.K, out)
				e.reach(st, en.V, out)
			}
		}
	case *NativeV:
		add(x.Obj)
		for _, y := range x.V {
			e.reach(st, y, out)
		}
	case *FuncV:
		for _, y := range x.Bind {
			e.reach(st, y, out)
		}
	}
}

// ---- accesses under locks

type access struct {
	op    string
	obj   int
	class string
	write bool
	g     Ref
	locks []lockEnt
	pos   string
	fn    string
}

// leaves expands a location into the fields it covers, locks excepted.
func leafClasses(t types.Type, path []int, base types.Type) []string {
	cur := base
	for _, i := range path {
		switch u := cur.Underlying().(type) {
		case *types.Struct:
			cur = u.Field(i).Type()
		case *types.Array:
			cur = u.Elem()
		case *types.Slice:
			cur = u.Elem()
		default:
			return []string{pathClass(base, path)}
		}
	}
	var out []string
	var rec func(t types.Type, p []int)
	rec = func(t types.Type, p []int) {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic") {
			return
		}
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
			for i := 0; i < st.NumFields(); i++ {
				rec(st.Field(i).Type(), appendPath(p, i))
			}
			return
		}
		out = append(out, pathClass(base, p))
	}
	rec(cur, append([]int(nil), path...))
	return out
}

// watch records the accesses an operation makes to memory that is shared.
func (s *svc) watch(name string, f func()) []access {
	e := s.e
	at0 := map[int]bool{}
	e.reach(s.st, s.root, at0)
	var out []access
	save := e.onAccess
	e.onAccess = func(st *State, obj int, path []int, write bool) {
		if st.g == False {
			return
		}
		k := e.objs[obj].Kind
		glob := k == "global" || k == "init"
		if glob && k == "global" && !strings.Contains(e.objs[obj].Name, modPath) {
			return
		}
		if !glob && !at0[obj] {
			now := map[int]bool{}
			e.reach(st, s.root, now)
			if !now[obj] {
				return
			}
		}
		pos := e.W.pos(e.curPos)
		fn := ""
		if len(e.stack) > 0 {
			fn = shortFn(e.stack[len(e.stack)-1])
		}
		t := e.objs[obj].T
		if _, ok := hget(st.heap, obj).(*MapObj); ok {
			out = append(out, access{name, obj, "table " + shortName(types.TypeString(t, nil)), write, st.g, append([]lockEnt(nil), st.locks...), pos, fn})
			return
		}
		if glob && k == "global" {
			out = append(out, access{name, obj, "variable " + shortName(e.objs[obj].Name), write, st.g, append([]lockEnt(nil), st.locks...), pos, fn})
			return
		}
		for _, c := range leafClasses(t, path, t) {
			out = append(out, access{name, obj, c, write, st.g, append([]lockEnt(nil), st.locks...), pos, fn})
		}
	}
	defer func() { e.onAccess = save }()
	f()
	return out
}

func (e *E) held(a access, ok func(l lockEnt) bool) Ref {
	h := False
	for _, l := range a.locks {
		if ok(l) {
			h = e.b.Or(h, l.G)
		}
	}
	return h
}

// allAccesses interprets every operation of the service once and collects its accesses.
func (s *svc) allAccesses(r *Run) (map[string][]access, []access) {
	byOp := map[string][]access{}
	var all []access
	for _, m := range r.ifaceMethods("Service") {
		args := s.callArgs(m, "")
		m := m
		acc := s.watch(m.Name(), func() { s.do(m.Name(), args...) })
		byOp[m.Name()] = acc
		all = append(all, acc...)
	}
	return byOp, all
}

// lockset checks that every written class of memory has a lock that all its accesses hold.
func (t *T) lockset(all []access) {
	e := t.e
	classes := map[string][]access{}
	written := map[string]bool{}
	for _, a := range all {
		classes[a.class] = append(classes[a.class], a)
		if a.write {
			written[a.class] = true
		}
	}
	var names []string
	for c := range written {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		cand := map[string]bool{}
		for _, a := range classes[c] {
			for _, l := range a.locks {
				cand[l.Class] = true
			}
		}
		best, bestBad := "", classes[c]
		var order []string
		for l := range cand {
			order = append(order, l)
		}
		sort.Strings(order)
		for _, l := range order {
			var bad []access
			for _, a := range classes[c] {
				a := a
				h := e.held(a, func(x lockEnt) bool { return x.Class == l && (x.W || !a.write) })
				if e.b.And(a.g, Not(h)) != False {
					bad = append(bad, a)
				}
			}
			if len(bad) < len(bestBad) {
				best, bestBad = l, bad
			}
		}
		isBad := map[string]access{}
		for _, a := range bestBad {
			isBad[a.pos+a.op] = a
		}
		t.obs += len(classes[c]) - len(bestBad)
		seen := map[string]bool{}
		for _, a := range bestBad {
			k := a.pos + a.fn
			if seen[k] {
				continue
			}
			seen[k] = true
			how := "read"
			if a.write {
				how = "write"
			}
			l := best
			if l == "" {
				l = "any lock"
			}
			for _, x := range a.locks {
				if x.Class == best && !x.W && a.write {
					l = best + " exclusively (it is held for reading)"
				}
			}
			h := e.held(a, func(x lockEnt) bool { return x.Class == best && (x.W || !a.write) })
			t.never("lockset", e.b.And(a.g, Not(h)), a.pos+" "+a.fn, fmt.Sprintf("%s of %s in %s without holding %s", how, c, a.op, l))
		}
	}
}

// oneSection checks that the accesses lie in one critical section.
func (t *T) oneSection(kind, op string, acc []access, excl bool, what string) {
	e := t.e
	if len(acc) == 0 {
		return
	}
	type sec struct {
		addr  string
		epoch int
	}
	g := False
	for _, a := range acc {
		g = e.b.Or(g, a.g)
	}
	// where some section covers all of them
	secs := map[sec]bool{}
	var order []sec
	for _, a := range acc {
		for _, l := range a.locks {
			k := sec{l.Addr, l.Epoch}
			if (l.W || !excl) && !secs[k] {
				secs[k] = true
				order = append(order, k)
			}
		}
	}
	covered := False
	for _, k := range order {
		all := True
		for _, a := range acc {
			h := e.held(a, func(x lockEnt) bool { return x.Addr == k.addr && x.Epoch == k.epoch && (x.W || !excl) })
			all = e.b.And(all, e.b.Or(Not(a.g), h))
		}
		covered = e.b.Or(covered, all)
	}
	if e.b.And(g, Not(covered)) == False {
		t.obs += len(acc)
		return
	}
	// name the place
	w := acc[len(acc)-1]
	for _, a := range acc {
		if e.b.And(a.g, Not(e.held(a, func(x lockEnt) bool { return x.W || !excl }))) != False {
			w = a
			break
		}
	}
	t.never(kind, e.b.And(g, Not(covered)), w.pos+" "+w.fn, what)
}

func isKeyState(c string) bool {
	return strings.HasSuffix(c, ".CurrentKSN") || strings.HasSuffix(c, ".TransactionKey")
}

// concStates are the states in which accesses are collected.
func (r *Run) concTasks(what string, f func(t *T, s *svc)) {
	states := []svcState{{"C", []string{"aes"}}, {"C", []string{"des"}}, {"CC", []string{"aes", "des"}}, {"Ca", []string{"aes"}}, {"", nil}}
	if r.tier == "thorough" {
		states = r.svcStatesTo(3)
	}
	for _, d := range states {
		d := d
		r.task(what+" "+d.String(), func(t *T) {
			s := t.newSvc()
			s.script(d.script, d.algs)
			if s.st.g != False {
				f(t, s)
			}
		})
	}
}

// ---- P18, P23: creation

func (s *svc) checkCreate(prop string, alg PV) {
	t, e := s.t, s.e
	p, v := s.machine("new", alg)
	want := s.specM(s.st.g, "SvcCreate", v)
	g := s.st.g
	wok := e.b.And(g, e.boolOf(g, want[1]))
	var ik Value = cStr("")
	if wok != False {
		ik = s.e.map1(wok, s.fields(want[0], []string{"InitialKey"}), func(_ Ref, v Value) Value { return v.(TupleV)[0] })
	}
	have := False
	if wok != False {
		have = e.b.And(wok, s.view(ik).ok)
	}
	x := s.do("CreateMachine", p)
	fresh := e.b.And(wok, Not(have))
	if prop == "P18" {
		t.never("create", e.b.And(g, x.pan), x.where(), "creating a machine can panic")
		t.never("create", e.b.And(fresh, Not(x.ok)), x.where(), "a valid new machine is not created")
		t.never("refuse", e.b.And(e.b.And(g, Not(wok)), x.ok), x.where(), "a machine is created although its algorithm is unknown or a derivation fails")
		t.never("refuse", e.b.And(have, x.ok), x.where(), "a machine is created although one with its initial key exists")
	} else {
		if gg := e.b.And(have, x.err); gg != False {
			ex := s.isErrOf(x.st, gg, "IsExists", x.raw[len(x.raw)-1])
			t.never("exists", e.b.And(gg, Not(ex)), x.where(), "a duplicate creation does not fail with the already-exists error")
		}
		t.never("exists", e.b.And(have, x.ok), x.where(), "a duplicate creation succeeds")
	}
	var more []Value
	if wok != False {
		more = []Value{ik}
	}
	s.eachName("q", more, func(q Value) {
		before := s.view(q)
		g := s.st.g
		after := func(g Ref) view { return s.viewAfter(x, g, q) }
		if prop == "P18" {
			if gg := e.b.And(g, e.b.And(fresh, x.ok)); gg != False {
				is := s.eqStr(q, ik)
				a := after(gg)
				t.never("stored", e.b.And(e.b.And(gg, is), Not(a.ok)), x.where(), "the created machine cannot be found under its initial key")
				d := e.differ(e.b.And(e.b.And(gg, is), a.ok), s.fields(a.v, allFields), s.fields(want[0], allFields))
				t.never("stored", d, x.where(), "the stored machine is not the one derived from the base derivation key and key serial number"+s.which(d, a.v, want[0]))
			}
			if gg := e.b.And(g, x.err); gg != False {
				t.never("unchanged", s.viewDiff(gg, before, after(gg)), x.where(), "a failed creation changes the stored machines")
			}
			return
		}
		if gg := e.b.And(g, e.b.And(have, x.err)); gg != False {
			t.never("unchanged", s.viewDiff(gg, before, after(gg)), x.where(), "a duplicate creation changes the stored machines")
		}
		if gg := e.b.And(g, e.b.And(fresh, x.ok)); gg != False {
			a := after(gg)
			is := s.eqStr(q, ik)
			t.never("others", s.viewDiff(e.b.And(gg, Not(is)), before, a), x.where(), "creating a machine changes what is stored under another initial key")
			t.never("created", e.b.And(e.b.And(gg, is), Not(a.ok)), x.where(), "a created machine is not found")
			nm := append([]string{"InitialKey"}, baseFields...)
			d := e.differ(e.b.And(e.b.And(gg, is), a.ok), s.fields(a.v, nm), s.fields(want[0], nm))
			t.never("created", d, x.where(), "the machine found is not the created one"+s.which(d, a.v, want[0]))
		}
	})
	if gg := e.b.And(fresh, x.ok); prop == "P23" && gg != False {
		save := s.st
		s.st = x.st.clone()
		s.st.g = gg
		s.checkList(ik)
		s.st = save
	}
}

// viewAfter is the view of q in the state an operation ends in.
func (s *svc) viewAfter(x *Res, g Ref, q Value) view {
	save := s.st
	s.st = x.st.clone()
	s.st.g = g
	defer func() { s.st = save }()
	return s.view(q)
}

func (s *svc) checkStore(d svcState) {
	t, e := s.t, s.e
	getW := s.t.W.pos(t.method(s.root, "GetMachine").Pos()) + " GetMachine"
	s.eachName("q", nil, func(q Value) {
		g := s.st.g
		v := s.view(q)
		t.never("get", e.b.And(g, e.b.And(Not(v.ok), Not(v.err))), getW, "getting a machine does not return")
		t.never("get", e.b.And(g, e.b.And(v.err, Not(v.notFound))), getW, "an unknown machine is not reported with the not-found error")
		known := False
		for i, k := range s.iks {
			is := s.eqStr(q, k)
			if strings.Contains(d.script, "D") && i == 0 {
				t.never("deleted", e.b.And(e.b.And(g, is), v.ok), getW, "a deleted machine is found")
				continue
			}
			if strings.Contains(d.script, "D") {
				is = e.b.And(is, Not(s.eqStr(q, s.iks[0])))
			}
			known = e.b.Or(known, is)
			t.never("get", e.b.And(e.b.And(g, is), Not(v.ok)), getW, "a created machine is not found")
		}
		t.never("get", e.b.And(v.ok, Not(known)), getW, "a machine is found that was not created")
		if v.ok != False {
			t.never("get", e.differ(v.ok, s.fields(v.v, []string{"InitialKey"}), TupleV{q}), getW, "a machine is found under another name than its initial key")
		}
		// getting changes nothing
		s.eachName("other", []Value{q}, func(o Value) {
			x := s.do("GetMachine", o)
			t.never("get", s.viewDiff(s.st.g, s.view(q), s.viewAfter(x, s.st.g, q)), getW, "getting a machine changes what is stored")
		})
	})
	s.checkList()
	for _, a := range []PV{S("aes"), S("des")} {
		s.checkCreate("P23", a)
	}
	s.eachName("k", nil, func(k Value) {
		g := s.st.g
		x := s.do("DeleteMachine", k)
		kv := s.view(k)
		t.never("delete", e.b.And(e.b.And(g, kv.ok), Not(x.ok)), x.where(), "deleting a stored machine fails")
		s.eachName("q", []Value{k}, func(q Value) {
			v := s.view(q)
			is := s.eqStr(q, k)
			if gg := e.b.And(s.st.g, x.ok); gg != False {
				w := s.viewAfter(x, gg, q)
				t.never("delete", e.b.And(e.b.And(gg, is), w.ok), x.where(), "a deleted machine can still be found")
				t.never("delete", s.viewDiff(e.b.And(gg, Not(is)), v, w), x.where(), "deleting a machine changes another one")
			}
			if gg := e.b.And(s.st.g, x.err); gg != False {
				t.never("delete", s.viewDiff(gg, v, s.viewAfter(x, gg, q)), x.where(), "a failed deletion changes the stored machines")
			}
		})
		if x.ok != False {
			save := s.st
			s.st = x.st.clone()
			s.st.g = x.ok
			s.checkList(k)
			s.st = save
		}
		y := s.do("MakeNextKSN", k)
		if gg := e.b.And(y.err, Not(kv.ok)); gg != False {
			nf := s.isErrOf(y.st, gg, "IsNotFound", y.raw[len(y.raw)-1])
			t.never("unknown", e.b.And(gg, Not(nf)), y.where(), "advancing an unknown machine does not fail with the not-found error")
		}
	})
}

func (s *svc) checkAdvance(ik Value) {
	t, e := s.t, s.e
	cur := s.view(ik)
	g := s.st.g
	have := e.b.And(g, cur.ok)
	x := s.do("MakeNextKSN", ik)
	t.never("unknown", e.b.And(e.b.And(g, cur.err), Not(x.err)), x.where(), "advancing an unknown machine does not fail")
	if s.stranger {
		t.never("unknown", e.b.And(g, x.ok), x.where(), "advancing succeeds under a name under which no machine was created")
	}
	var want []Value
	wok := False
	if have != False {
		want = s.specM(have, "SvcAdvance", cur.v)
		wok = e.b.And(have, e.boolOf(have, want[1]))
		t.never("advance", e.b.And(wok, Not(x.ok)), x.where(), "a machine is not advanced although its next state can be derived")
		t.never("advance", e.b.And(e.b.And(have, Not(wok)), x.ok), x.where(), "an advance succeeds although the next state cannot be derived")
		if gg := e.b.And(wok, x.ok); gg != False {
			dd := e.differ(gg, s.fields(x.ret[0], allFields), s.fields(want[0], allFields))
			t.never("returned", dd, x.where(), "the returned machine is not the successor of the stored one"+s.which(dd, x.ret[0], want[0]))
		}
	}
	s.eachName("q", []Value{ik}, func(q Value) {
		before := s.view(q)
		if gg := e.b.And(s.st.g, x.err); gg != False {
			t.never("unchanged", s.viewDiff(gg, before, s.viewAfter(x, gg, q)), x.where(), "a failed advance changes a stored machine")
		}
		if gg := e.b.And(s.st.g, e.b.And(wok, x.ok)); gg != False {
			a := s.viewAfter(x, gg, q)
			is := s.eqStr(q, ik)
			t.never("stored", e.b.And(e.b.And(gg, is), Not(a.ok)), x.where(), "the advanced machine cannot be found")
			dd := e.differ(e.b.And(e.b.And(gg, is), a.ok), s.fields(a.v, allFields), s.fields(want[0], allFields))
			t.never("stored", dd, x.where(), "the stored machine is not the successor of what it was"+s.which(dd, a.v, want[0]))
			t.never("others", s.viewDiff(e.b.And(gg, Not(is)), before, a), x.where(), "advancing a machine changes another one")
		}
	})
}

// which names the fields that differ.
func (s *svc) which(g Ref, a, b Value) string {
	if g == False {
		return ""
	}
	var l []string
	for _, f := range allFields {
		if s.e.differ(g, s.fields(a, []string{f}), s.fields(b, []string{f})) != False {
			l = append(l, f)
		}
	}
	if len(l) == 0 {
		return ""
	}
	return " (" + strings.Join(l, ", ") + ")"
}

// checkList: list holds exactly the machines get finds, each once.
func (s *svc) checkList(more ...Value) {
	t, e := s.t, s.e
	var x *Res
	s.quiet(func() { x = s.do("GetMachines") })
	g := s.st.g
	t.never("list", e.b.And(g, Not(x.ok)), x.where(), "listing does not return")
	s.eachName("q", more, func(q Value) {
		v := s.view(q)
		g := s.st.g
		for _, al := range e.alts(e.b.And(g, x.ok), x.ret[0]) {
			arr, ok := al.V.(ArrayV)
			if !ok {
				unsup("list of machines %s", show(al.V))
			}
			in := False
			for _, m := range arr {
				name := s.fields(m, []string{"InitialKey"})
				is := s.e.boolOf(al.G, s.e.map1(al.G, name, func(_ Ref, y Value) Value {
					if tv := y.(TupleV); len(tv) == 1 {
						return BoolV(s.eqStr(q, tv[0]))
					}
					return BoolV(False)
				}))
				is = e.b.And(is, al.G)
				t.never("list", e.b.And(is, in), x.where(), "a machine is listed twice")
				in = e.b.Or(in, is)
				t.never("list", e.b.And(is, Not(v.ok)), x.where(), "a machine is listed that cannot be found")
				t.never("list", e.differ(e.b.And(is, v.ok), m, v.v), x.where(), "a machine is listed with other contents than it is found with")
			}
			t.never("list", e.b.And(al.G, e.b.And(v.ok, Not(in))), x.where(), "a stored machine is not listed")
		}
		// listing changes nothing
		if gg := e.b.And(g, x.ok); gg != False {
			t.never("list", s.viewDiff(gg, v, s.viewAfter(x, gg, q)), x.where(), "listing changes what is stored")
		}
	})
}

func init() {
	checks["P18"] = checkDef{"creation is interpreted from services brought into every kind of state, on a machine with unknown fields; the outcome must be the reference's, which derives the keys with the unified operations, and get must then find exactly that machine; after a failed creation get must find what it found before for every name", func(r *Run) {
		r.svcTasks("create", func(t *T, s *svc, d svcState) {
			for _, a := range []PV{S("aes"), S("des"), OTH} {
				s.checkCreate("P18", a)
			}
			e := t.e
			x := s.do("CreateMachine", nilPtr)
			t.never("missing", e.b.And(s.st.g, Not(x.err)), x.where(), "a missing machine is not refused")
			if x.err != False {
				s.eachName("q", nil, func(q Value) {
					g := e.b.And(s.st.g, x.err)
					t.never("missing", s.viewDiff(g, s.view(q), s.viewAfter(x, g, q)), x.where(), "a missing machine changes the stored machines")
				})
			}
		})
		r.task("new machine", func(t *T) {
			st := t.fresh(pSrv)
			fn := t.W.fn(pSrv, "NewMachine")
			if fn == nil || len(fn.Params) != 1 {
				unsup("function server.NewMachine not found")
			}
			s := &svc{t: t, e: t.e, st: st}
			b := t.e.symOf(st, fn.Params[0].Type(), t.e.newTerm("base"))
			x := t.invoke(fn, []Value{b}, st)
			t.never("new", Not(x.ok), x.where(), "does not return")
			var want TupleV
			for _, f := range baseFields {
				want = append(want, t.e.getPath(b, fieldPath(fn.Params[0].Type(), f)))
			}
			t.never("new", t.e.differ(x.ok, s.fields(x.ret[0], baseFields), want), x.where(), "a new machine does not carry its base key")
		})
	}}
	checks["P19"] = checkDef{"advancing is interpreted from services in every kind of state for an unknown machine name; where it succeeds get must find the reference's successor state under that name and nothing else changed, where it fails get must find what it found before for every name", func(r *Run) {
		r.svcTasks("advance", func(t *T, s *svc, d svcState) {
			s.eachName("ik", nil, func(ik Value) { s.checkAdvance(ik) })
		})
	}}
	checks["P20"] = checkDef{"every access of an operation to shared memory is recorded with the locks held and the acquisition they belong to; what advancing writes must be read and written in one exclusive critical section, what creation and deletion write must be read and written in one, and operations that use a machine's serial number and transaction key must read both in one critical section", func(r *Run) {
		r.concTasks("sections", func(t *T, s *svc) {
			byOp, _ := s.allAccesses(r)
			writes := map[string]bool{}
			for _, a := range byOp["MakeNextKSN"] {
				if a.write {
					writes[a.class] = true
				}
			}
			pick := func(op string, f func(a access) bool) []access {
				var out []access
				for _, a := range byOp[op] {
					if f(a) {
						out = append(out, a)
					}
				}
				return out
			}
			t.oneSection("rmw", "MakeNextKSN", pick("MakeNextKSN", func(a access) bool { return writes[a.class] }), true,
				"the serial number is not read and replaced, with its transaction key, in one exclusive critical section")
			for op := range byOp {
				op := op
				if op == "MakeNextKSN" {
					continue
				}
				mine := map[string]bool{}
				for _, a := range byOp[op] {
					if a.write {
						mine[a.class] = true
					}
				}
				// a write belongs to a section in which the same memory was read, if the operation reads it at all
				for c := range mine {
					c := c
					reads := pick(op, func(a access) bool { return a.class == c && !a.write })
					wr := pick(op, func(a access) bool { return a.class == c && a.write })
					if len(reads) == 0 {
						continue
					}
					for _, w := range wr {
						// sections of w with a read in them
						cov := False
						for _, l := range w.locks {
							if !l.W {
								continue
							}
							in := False
							for _, rd := range reads {
								in = e0r(t.e, in, t.e.b.And(rd.g, t.e.held(rd, func(x lockEnt) bool { return x.Addr == l.Addr && x.Epoch == l.Epoch && x.W })))
							}
							cov = t.e.b.Or(cov, t.e.b.And(l.G, in))
						}
						t.never("check-then-act", t.e.b.And(w.g, Not(cov)), w.pos+" "+w.fn, op+" decides and writes "+c+" in different critical sections")
					}
				}
				// reading a serial number and its key
				var last []access
				byObj := map[int][]access{}
				for _, a := range pick(op, func(a access) bool { return writes[a.class] && !a.write && isKeyState(a.class) }) {
					byObj[a.obj] = append(byObj[a.obj], a)
				}
				for _, l := range byObj {
					last = l
					t.oneSection("torn", op, last, false, op+" does not read the serial number and the transaction key in one critical section")
				}
			}
		})
	}}
	checks["P21"] = checkDef{"static lockset: the accesses of all operations to memory reachable from the service or from package variables are collected with the locks held; every location class that some operation writes must have one lock that every access holds, exclusively for writes", func(r *Run) {
		r.concTasks("locksets", func(t *T, s *svc) {
			_, all := s.allAccesses(r)
			t.lockset(all)
		})
	}}
	checks["P22"] = checkDef{"after each operation the objects reachable from its results and from the machine passed in must be disjoint from those reachable from the service, and its results must be fresh", func(r *Run) {
		r.svcTasks("sharing", func(t *T, s *svc, d svcState) {
			e := t.e
			for _, m := range r.ifaceMethods("Service") {
				args := s.callArgs(m, "")
				x := s.do(m.Name(), args...)
				if x.st.g == False {
					continue
				}
				owned := map[int]bool{}
				e.reach(x.st, s.root, owned)
				check := func(v Value, what string) {
					out := map[int]bool{}
					e.reach(x.st, v, out)
					var ids []int
					for id := range out {
						ids = append(ids, id)
					}
					sort.Ints(ids)
					bad := -1
					for _, id := range ids {
						k := e.objs[id].Kind
						if owned[id] && k != "global" && k != "init" {
							bad = id
							break
						}
					}
					msg := ""
					if bad >= 0 {
						msg = fmt.Sprintf("%s shares %s with the service", what, shortName(types.TypeString(e.objs[bad].T, nil)))
					}
					t.ob("shared", bad < 0, x.where(), msg, x.st.g)
				}
				for i, v := range x.raw {
					if x.hasErr && i == len(x.raw)-1 {
						continue
					}
					check(v, "what "+m.Name()+" returns")
				}
				for _, a := range args {
					check(a, "what is passed to "+m.Name())
				}
				// a result shared with the caller's machine, or with a package variable
				res := map[int]bool{}
				for i, v := range x.raw {
					if x.hasErr && i == len(x.raw)-1 {
						continue
					}
					e.reach(x.st, v, res)
				}
				for id := range res {
					k := e.objs[id].Kind
					if k == "global" || k == "init" {
						t.ob("shared", false, x.where(), "what "+m.Name()+" returns is shared with "+e.objs[id].Name, x.st.g)
					}
				}
				// two results of the same call
				if len(x.raw) > 0 {
					for _, al := range e.alts(x.ok, x.raw[0]) {
						if sl, ok := al.V.(*SliceV); ok && sl.Obj >= 0 && sl.Len.C {
							seen := map[string]bool{}
							for i, el := range e.elems(x.st, sl, int(sl.Len.V)) {
								for _, b := range e.alts(al.G, el) {
									p, ok := b.V.(*PtrV)
									if !ok || p.Obj < 0 {
										continue
									}
									k := fmt.Sprintf("%s/%d", key(p), 0)
									_ = i
									if seen[k] {
										t.ob("shared", false, x.where(), "two machines of one list share memory", b.G)
									}
								}
								for _, b := range e.alts(al.G, el) {
									if p, ok := b.V.(*PtrV); ok && p.Obj >= 0 {
										seen[fmt.Sprintf("%s/%d", key(p), 0)] = true
									}
								}
							}
						}
					}
				}
			}
		})
	}}
	checks["P23"] = checkDef{"create, get, list and delete are interpreted from services in every kind of state; get under an unknown name q is the observation: each operation may change it only for the name it is about, list must hold exactly the machines get finds, and the errors must be recognizable", func(r *Run) {
		r.svcTasks("store", func(t *T, s *svc, d svcState) {
			s.checkStore(d)
		})
	}}
	checks["P24"] = checkDef{"lock typestate: every path through every service and store operation is followed with the locks held as guards; none may be held at a return or panic, taken while held, released while not held or in another mode, and the order in which locks are nested must be acyclic", func(r *Run) {
		r.concTasks("locks", func(t *T, s *svc) {
			e := t.e
			edges := map[string]map[string]string{}
			one := func(root *IfaceV, m *types.Func) {
				x := s.on(root, m.Name(), s.callArgs(m, "")...)
				for _, ev := range x.ev {
					switch ev.Kind {
					case "doublelock":
						t.never("double", ev.G, ev.Pos+" "+shortName(ev.Fn), m.Name()+" takes "+ev.Name+" while holding it")
					case "badunlock":
						t.never("unlock", ev.G, ev.Pos+" "+shortName(ev.Fn), m.Name()+" releases "+ev.Name+" without holding it in that mode")
					case "lock":
						for _, l := range ev.Locks {
							if e.b.And(ev.G, l.G) == False || l.Class == ev.Args[1].(*Str).S {
								continue
							}
							if edges[l.Class] == nil {
								edges[l.Class] = map[string]string{}
							}
							edges[l.Class][ev.Args[1].(*Str).S] = ev.Pos + " " + shortName(ev.Fn)
						}
					case "unlock":
						t.obs++
					}
				}
				for _, l := range x.st.locks {
					t.never("released", e.b.And(x.st.g, l.G), l.Pos+" "+l.Class, m.Name()+" returns while holding "+l.Class)
				}
				t.obs++
			}
			for _, m := range r.ifaceMethods("Service") {
				one(s.root, m)
			}
			for _, m := range r.ifaceMethods("Repository") {
				one(s.repo, m)
			}
			// cycles
			var names []string
			for a := range edges {
				names = append(names, a)
			}
			sort.Strings(names)
			for _, a := range names {
				for b, where := range edges[a] {
					seen := map[string]bool{}
					var back func(n string) bool
					back = func(n string) bool {
						if n == a {
							return true
						}
						if seen[n] {
							return false
						}
						seen[n] = true
						for m := range edges[n] {
							if back(m) {
								return true
							}
						}
						return false
					}
					t.ob("order", !back(b), where, "locks "+a+" and "+b+" are taken in both orders", True)
				}
			}
		})
	}}
	checks["P25"] = checkDef{"each operation of the service is interpreted for an unknown machine name; where get finds a machine the outcome must be the unified operation of the same name on that machine's state and the given arguments, elsewhere a not-found error with no operation called", func(r *Run) {
		r.svcTasks("operations", func(t *T, s *svc, d svcState) {
			e := t.e
			for _, op := range []string{"EncryptPin", "DecryptPin", "GenerateMac", "EncryptData", "DecryptData"} {
				fn := t.method(s.root, op)
				s.eachName("ik", nil, func(ik Value) {
					cur := s.view(ik)
					args := []Value{ik, tStr(e.newTerm("second")), tStr(e.newTerm("third")), tStr(e.newTerm("fourth"))}
					last := []Value{args[3]}
					if op == "GenerateMac" {
						last = []Value{cStr("cmac"), cStr("hmac"), cStr(""), args[3]}
					} else if strings.HasSuffix(op, "Pin") {
						last = []Value{cStr(""), args[3]}
					}
					for _, l := range last {
						a := []Value{args[0], args[1], args[2], l}
						if len(fn.Params) != 5 {
							unsup("%s has %d parameters", fn, len(fn.Params)-1)
						}
						x := s.do(op, a...)
						g := s.st.g
						have, none := e.b.And(g, cur.ok), e.b.And(g, cur.err)
						t.never("unknown", e.b.And(none, Not(x.err)), x.where(), "no error for an unknown machine")
						if s.stranger {
							t.never("unknown", e.b.And(g, x.ok), x.where(), "no error for a name under which no machine was created")
						}
						if gg := e.b.And(none, x.err); gg != False {
							nf := s.isErrOf(x.st, gg, "IsNotFound", x.raw[len(x.raw)-1])
							t.never("unknown", e.b.And(gg, Not(nf)), x.where(), "an unknown machine is not reported with the not-found error")
						}
						for _, ev := range x.ev {
							if ev.Kind == "call" {
								t.never("unknown", e.b.And(ev.G, none), ev.Pos+" "+shortName(ev.Fn), "an operation is run for an unknown machine")
							}
						}
						if have == False {
							continue
						}
						want := s.specM(have, "Svc"+op, cur.v, a[1:]...)
						ok := e.b.And(have, e.boolOf(have, want[1]))
						t.never("operation", e.b.And(ok, Not(x.ok)), x.where(), "no result where the unified operation on the machine's current state gives one"+t.called(x))
						t.never("operation", e.b.And(e.b.And(have, Not(ok)), x.ok), x.where(), "a result where the unified operation on the machine's current state fails"+t.called(x))
						t.never("operation", e.differ(e.b.And(ok, x.ok), x.ret[0], want[0]), x.where(), "not the result of the unified operation on the machine's current state and the given arguments"+t.called(x))
					}
				})
			}
		})
	}}
}

func e0r(e *E, a, b Ref) Ref { return e.b.Or(a, b) }

func (r *Run) serviceFailures() {
	for _, d := range []svcState{{"C", []string{"aes"}}, {"C", []string{"des"}}, {"", nil}} {
		d := d
		for _, m := range r.ifaceMethods("Service") {
			m := m
			r.task("service."+m.Name()+" "+d.String(), func(t *T) {
				s := t.newSvc()
				s.script(d.script, d.algs)
				if s.st.g == False {
					return
				}
				x := s.do(m.Name(), s.callArgs(m, "")...)
				t.failures(x)
			})
		}
	}
}
