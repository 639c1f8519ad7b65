package main

// Checks of the command line tool: P28 and P29, and the model of package flag.

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// regFlag registers a flag whose value lives in the given cell.
func (c *Ctx) regFlag(name Value, def Value, t types.Type, cell *PtrV) Value {
	e := c.e
	n, ok := c.cstr(name)
	if !ok {
		unsup("flag with a name that is not constant at %s", e.where())
	}
	if e.flags[n] != nil {
		c.f.panicIf(True, "flag redefined: "+n, nil)
		return nil
	}
	if cell == nil {
		save := e.initPhase
		e.initPhase = true
		cell = &PtrV{Obj: e.newObj(c.st(), "global", "flag "+n, t, def)}
		e.initPhase = save
	} else {
		c.e.storeObj(c.st(), cell.Obj, cell.Path, def)
	}
	e.flags[n] = &flagInfo{Name: n, Cell: cell, T: t, Def: def}
	e.flagList = append(e.flagList, n)
	return cell
}

// flagValue is the value of a flag after parsing: any value of its type, unless the partition fixes it.
func (e *E) flagValue(st *State, n string) Value {
	if v, ok := e.flagVal[n]; ok {
		return v
	}
	i := e.flags[n]
	if i == nil {
		unsup("no flag %s", n)
	}
	return e.symOf(st, i.T, e.newTerm("FLAG", cStr(n)))
}

func init() {
	for _, k := range []struct {
		n string
		t types.Type
	}{{"String", types.Typ[types.String]}, {"Bool", types.Typ[types.Bool]}, {"Int", types.Typ[types.Int]}, {"Uint", types.Typ[types.Uint]}, {"Int64", types.Typ[types.Int64]}} {
		k := k
		reg("flag."+k.n, func(c *Ctx, a []Value) Value { return c.regFlag(a[0], a[1], k.t, nil) })
		reg("flag."+k.n+"Var", func(c *Ctx, a []Value) Value {
			c.regFlag(a[1], a[2], k.t, a[0].(*PtrV))
			return TupleV{}
		})
	}
	reg("flag.Duration", func(c *Ctx, a []Value) Value {
		return c.regFlag(a[0], a[1], c.fn.Signature.Params().At(1).Type(), nil)
	})
	reg("flag.Parse", func(c *Ctx, a []Value) Value {
		e := c.e
		for _, n := range e.flagList {
			i := e.flags[n]
			e.storeObj(c.st(), i.Cell.Obj, i.Cell.Path, e.flagValue(c.st(), n))
		}
		e.event(c.st(), "parsed", "")
		return TupleV{}
	})
	reg("flag.PrintDefaults", func(c *Ctx, a []Value) Value {
		c.e.event(c.st(), "print", "stderr", cStr("flags"))
		return TupleV{}
	})
	reg("flag.NArg", func(c *Ctx, a []Value) Value { return c.e.termBV(c.e.newTerm("NARG"), 64, True) })
	reg("flag.Arg", func(c *Ctx, a []Value) Value { return tStr(c.e.newTerm("ARG", a[0])) })
	reg("flag.NFlag", func(c *Ctx, a []Value) Value { return c.e.termBV(c.e.newTerm("NFLAG"), 64, True) })
	reg("flag.Parsed", func(c *Ctx, a []Value) Value { return BoolV(True) })
}

// ---- the tool

const pCli = modPath + "/cmd/dukptcli"

// cliOp is an operation of the tool: its flag, the unified operation, and where its parameters come from.
type cliOp struct {
	flag   string
	op     string
	params map[string]string // parameter -> flag
	aes    map[string]string // parameters used with AES only
	des    map[string]string // parameters used with TDES only
	req    []string          // required flags
	reqAes []string
	reqDes []string
	enum   map[string][]string // flags with a fixed set of values
	enumA  map[string][]string // the same, with AES only
	typed  bool                // uses the key type
}

var cliOps = []cliOp{
	{"ik", "InitialKey", map[string]string{"BKD": "ik.bdk", "KSN": "ik.ksn"}, nil, nil, []string{"ik.bdk", "ik.ksn"}, nil, nil, nil, nil, false},
	{"tk", "TransactionKey", map[string]string{"IK": "tk.ik", "KSN": "tk.ksn"}, nil, nil, []string{"tk.ik", "tk.ksn"}, nil, nil, nil, nil, false},
	{"ep", "EncryptPin", map[string]string{"TK": "ep.tk", "PIN": "ep.pin", "PAN": "ep.pan"}, map[string]string{"KSN": "ep.ksn"}, map[string]string{"Format": "ep.format"},
		[]string{"ep.tk", "ep.pin", "ep.pan"}, []string{"ep.ksn"}, []string{"ep.format"}, nil, nil, true},
	{"dp", "DecryptPin", map[string]string{"TK": "dp.tk", "PIN": "dp.pin", "PAN": "dp.pan"}, map[string]string{"KSN": "dp.ksn"}, map[string]string{"Format": "dp.format"},
		[]string{"dp.tk", "dp.pin", "dp.pan"}, []string{"dp.ksn"}, []string{"dp.format"}, nil, nil, true},
	{"gm", "GenerateMac", map[string]string{"TK": "gm.tk", "Plaintext": "gm.data", "Action": "gm.action"}, map[string]string{"KSN": "gm.ksn", "MacType": "gm.type"}, nil,
		[]string{"gm.tk", "gm.data"}, []string{"gm.ksn"}, nil, map[string][]string{"gm.action": {"request", "response"}}, map[string][]string{"gm.type": {"cmac", "hmac"}}, true},
	{"en", "EncryptData", map[string]string{"TK": "en.tk", "Plaintext": "en.data", "IV": "en.iv", "Action": "en.action"}, map[string]string{"KSN": "en.ksn"}, nil,
		[]string{"en.tk", "en.data", "en.iv"}, []string{"en.ksn"}, nil, nil, nil, true},
	{"de", "DecryptData", map[string]string{"TK": "de.tk", "Ciphertext": "de.data", "IV": "de.iv", "Action": "de.action"}, map[string]string{"KSN": "de.ksn"}, nil,
		[]string{"de.tk", "de.data", "de.iv"}, []string{"de.ksn"}, nil, nil, nil, true},
}

// documented defaults
var cliDefaults = map[string]string{"algorithm": "des", "algorithm.key_type": "aes128", "gm.action": "request", "gm.type": "cmac", "en.action": "request", "de.action": "request"}

type cliRun struct {
	t        *T
	e        *E
	fn       *ssa.Function
	x        *Res
	alg, kt  Value
	isAes    Ref
	algOK    Ref
	v        Ref // -v
	sel      []Ref
	none     Ref
	complete []Ref // every required flag is there and valid
	byOp     map[string]int
	calls    []*Event
}

func (t *T) cli(fix map[string]Value) *cliRun {
	fn := t.W.fn(pCli, "main")
	if fn == nil {
		unsup("function main of the command line tool not found")
	}
	st := t.fresh(pCli)
	e := t.e
	e.flagVal = fix
	r := &cliRun{t: t, e: e, fn: fn, byOp: map[string]int{}}
	for i, o := range cliOps {
		e.opaque[pSrv+"."+o.op] = true
		r.byOp[pSrv+"."+o.op] = i
		if t.W.fn(pSrv, o.op) == nil {
			unsup("function server.%s not found", o.op)
		}
	}
	r.x = t.invoke(fn, nil, st)
	str := func(n string) Value { return e.flagValue(st, n) }
	bl := func(n string) Ref { return Ref(str(n).(BoolV)) }
	eq := func(v Value, c string) Ref { return e.eqv(True, v, cStr(c)) }
	r.alg, r.kt = str("algorithm"), str("algorithm.key_type")
	r.isAes = eq(r.alg, "aes")
	r.algOK = e.b.Or(r.isAes, eq(r.alg, "des"))
	r.v = bl("v")
	rest := Not(r.v)
	for _, o := range cliOps {
		r.sel = append(r.sel, e.b.And(rest, bl(o.flag)))
		rest = e.b.And(rest, Not(bl(o.flag)))
		full := func(names []string) Ref {
			c := True
			for _, n := range names {
				c = e.b.And(c, Not(eq(str(n), "")))
			}
			return c
		}
		among := func(m map[string][]string) Ref {
			c := True
			for n, vs := range m {
				one := False
				for _, v := range vs {
					one = e.b.Or(one, eq(str(n), v))
				}
				c = e.b.And(c, one)
			}
			return c
		}
		c := e.b.And(full(o.req), among(o.enum))
		a := e.b.And(full(o.reqAes), among(o.enumA))
		if o.typed {
			a = e.b.And(a, Not(eq(r.kt, "")))
		}
		c = e.b.And(c, e.b.Or(Not(r.isAes), a))
		c = e.b.And(c, e.b.Or(r.isAes, full(o.reqDes)))
		r.complete = append(r.complete, c)
	}
	r.none = rest
	for _, ev := range r.x.ev {
		if ev.Kind == "call" {
			if _, ok := r.byOp[ev.Name]; ok {
				r.calls = append(r.calls, ev)
			}
		}
	}
	return r
}

func (r *cliRun) where() string { return r.t.W.pos(r.fn.Pos()) + " " + shortFn(r.fn) }

// partitions: every flag is symbolic, except those that select constants the code compares with.
func (r *Run) cliTasks(f func(t *T, x *cliRun)) {
	add := func(name string, fix map[string]Value) {
		r.task("dukptcli, "+name, func(t *T) { f(t, t.cli(fix)) })
	}
	add("any flags", nil)
	for _, a := range []string{"des", "aes"} {
		add("algorithm "+a, map[string]Value{"algorithm": cStr(a)})
		for _, k := range []string{"aes128", "AES128", "aes192", "Aes192", "aes256", "AES256", "", "aes512", "hmac128", "des", "aes-128", "aes_192", " aes256", "256"} {
			add("algorithm "+a+", key type "+k, map[string]Value{"algorithm": cStr(a), "algorithm.key_type": cStr(k)})
		}
	}
	for _, a := range []string{"", "3des", "aes128", "none"} {
		add("algorithm "+a, map[string]Value{"algorithm": cStr(a)})
	}
}

// dispatch: P28
func (r *cliRun) dispatch() {
	t, e := r.t, r.e
	for n, d := range cliDefaults {
		i := e.flags[n]
		if i == nil {
			unsup("no flag %s", n)
		}
		t.ob("default", identical(i.Def, cStr(d)), r.where(), "flag "+n+" does not default to "+d, True)
	}
	for n, i := range e.flags {
		if s, ok := i.Def.(*Str); ok && cliDefaults[n] == "" {
			t.ob("default", s.K == 'c' && s.S == "", r.where(), "flag "+n+" does not default to the empty string", True)
		}
		if b, ok := i.Def.(BoolV); ok {
			t.ob("default", Ref(b) == False, r.where(), "flag "+n+" is on by default", True)
		}
	}
	called := make([]Ref, len(cliOps))
	for i := range called {
		called[i] = False
	}
	for k, ev := range r.calls {
		i := r.byOp[ev.Name]
		o := cliOps[i]
		called[i] = e.b.Or(called[i], ev.G)
		t.never("selection", e.b.And(ev.G, Not(r.sel[i])), evWhere(ev), o.op+" runs although -"+o.flag+" is not the first operation selected")
		for _, ev2 := range r.calls[:k] {
			t.never("once", e.b.And(ev.G, ev2.G), evWhere(ev), "a second operation runs in one invocation")
		}
		if len(ev.Args) != 1 {
			unsup("parameters of %s", o.op)
		}
		sig := t.W.fn(pSrv, o.op).Params
		typ := sig[0].Type()
		for _, al := range e.alts(ev.G, ev.Args[0]) {
			p, ok := al.V.(StructV)
			if !ok {
				unsup("parameters of %s: %T", o.op, al.V)
			}
			is := func(g Ref, param string, want Value, from string) {
				t.never("argument", e.differ(e.b.And(al.G, g), fieldOf(typ, p, param), want), evWhere(ev), o.op+" runs with "+param+" not taken from "+from)
			}
			is(True, "Algorithm", r.alg, "-algorithm")
			for _, m := range []struct {
				g Ref
				m map[string]string
			}{{True, o.params}, {r.isAes, o.aes}, {Not(r.isAes), o.des}} {
				for _, param := range sortedKeys(m.m) {
					fl := m.m[param]
					is(m.g, param, e.flagValue(r.x.st, fl), "-"+fl)
				}
			}
			if k, ok := r.kt.(*Str); ok && k.K == 'c' && o.typed {
				up := strings.ToUpper(k.S)
				got := fieldOf(typ, p, "AlgorithmKey")
				if up == "AES128" || up == "AES192" || up == "AES256" {
					is(r.isAes, "AlgorithmKey", cStr(up), "-algorithm.key_type")
				} else {
					for _, w := range []string{"AES128", "AES192", "AES256"} {
						t.never("keytype", e.b.And(e.b.And(al.G, r.isAes), e.eqv(al.G, got, cStr(w))), evWhere(ev), o.op+" runs with key type "+w+" for the unknown key type "+k.S)
					}
				}
			}
		}
	}
	for i, o := range cliOps {
		g := e.b.And(e.b.And(r.sel[i], r.algOK), e.b.And(r.complete[i], Not(called[i])))
		g = e.b.And(g, Not(e.b.And(r.isAes, e.eqv(True, r.kt, cStr("")))))
		t.never("run", g, r.where(), "-"+o.flag+" does not run "+o.op+" although every flag it needs is given")
	}
	for _, ev := range r.calls {
		t.never("version", e.b.And(ev.G, r.v), evWhere(ev), "an operation runs although the version is asked for")
	}
	if c, ok := t.W.pkgs[modPath].Members["Version"].(*ssa.NamedConst); ok && c.Value.Value.Kind() == constant.String {
		printed := False
		for _, p := range r.x.ev {
			if p.Kind == "print" && len(p.Args) > 0 && e.b.And(p.G, r.v) != False {
				for _, a := range e.alts(e.b.And(p.G, r.v), p.Args[0]) {
					if s, ok := a.V.(*Str); ok && s.K == 'c' && strings.Contains(s.S, constant.StringVal(c.Value.Value)) {
						printed = e.b.Or(printed, a.G)
					} else if !ok || s.K != 'c' {
						unsup("printed text %s", show(a.V))
					}
				}
			}
		}
		t.never("version", e.b.And(r.v, Not(printed)), r.where(), "the version flag does not print the version")
	}
	t.never("version", e.b.And(r.v, Not(e.b.Or(r.x.ok, r.exitWith(func(c uint64) bool { return c == 0 })))), r.where(), "the version is not printed with exit status zero")
}

func sortedKeys(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// exitWith is the guard of the exits with such a status.
func (r *cliRun) exitWith(f func(c uint64) bool) Ref {
	e := r.e
	g := False
	for _, ev := range r.x.ev {
		if ev.Kind != "exit" {
			continue
		}
		for _, a := range e.alts(ev.G, ev.Args[0]) {
			bv := a.V.(*BV)
			parts := e.splitConst(a.G, bv, 64)
			if parts == nil {
				unsup("exit status")
			}
			for _, p := range parts {
				if f(p.V.(*BV).V & 0xff) {
					g = e.b.Or(g, p.G)
				}
			}
		}
	}
	return g
}

// mentions: terms that occur in a value.
func mentionsTerm(v Value, want func(t *Term) bool) bool {
	seen := map[*Term]bool{}
	var in func(v Value) bool
	list := func(l []Value) bool {
		for _, a := range l {
			if in(a) {
				return true
			}
		}
		return false
	}
	in = func(v Value) bool {
		switch x := v.(type) {
		case *Str:
			if x.K == 't' {
				return in(x.T)
			}
		case *Term:
			if want(x) {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			return list(x.Args)
		case *ChoiceV:
			for _, a := range x.A {
				if in(a.V) {
					return true
				}
			}
		case TupleV:
			return list(x)
		case ArrayV:
			return list(x)
		case StructV:
			return list(x)
		case *IfaceV:
			if x.T != nil {
				return in(x.V)
			}
		case *NativeV:
			return x.T != nil && in(x.T) || list(x.V)
		}
		return false
	}
	return in(v)
}

// resTerm is the result of a call of an operation.
func (r *cliRun) resTerm(ev *Event) *Term {
	var res *Term
	mentionsTerm(ev.Res, func(t *Term) bool {
		if t.Op == "RES0" {
			res = t
		}
		return res != nil
	})
	return res
}

// outcome: P29
func (r *cliRun) outcome() {
	t, e := r.t, r.e
	bad := r.exitWith(func(c uint64) bool { return c != 0 })
	good := e.b.Or(r.x.ok, r.exitWith(func(c uint64) bool { return c == 0 }))
	success := False
	for _, ev := range r.calls {
		success = e.b.Or(success, e.b.And(ev.G, Not(ev.Err)))
		i := r.byOp[ev.Name]
		t.never("incomplete", e.b.And(ev.G, Not(r.complete[i])), evWhere(ev), cliOps[i].op+" runs although a flag it requires is missing or invalid")
		t.never("algorithm", e.b.And(ev.G, Not(r.algOK)), evWhere(ev), cliOps[i].op+" runs although the algorithm is unknown")
	}
	failed := e.b.And(Not(r.v), Not(success))
	t.never("status", e.b.And(failed, good), r.where(), "the exit status is zero although no operation succeeded")
	t.never("status", e.b.And(success, Not(good)), r.where(), "the exit status is not zero although the operation succeeded")
	t.never("status", e.b.And(success, bad), r.where(), "the exit status is not zero although the operation succeeded")
	r.message(failed)
	// what is printed
	for _, ev := range r.calls {
		res := r.resTerm(ev)
		if res == nil {
			unsup("result of %s", ev.Name)
		}
		shown := False
		for _, p := range r.x.ev {
			if p.Kind != "print" || len(p.Args) == 0 {
				continue
			}
			for _, a := range e.alts(p.G, p.Args[0]) {
				s, ok := a.V.(*Str)
				if !ok || p.Name != "stdout" {
					continue
				}
				if s.K == 't' && s.T == res {
					shown = e.b.Or(shown, a.G)
				}
				if s.K == 't' && s.T.Op == "CONCAT" {
					for _, c := range s.T.Args {
						if cs, ok := c.(*Str); ok && cs.K == 't' && cs.T == res {
							shown = e.b.Or(shown, a.G)
						}
					}
				}
			}
		}
		t.never("shown", e.b.And(e.b.And(ev.G, Not(ev.Err)), Not(shown)), evWhere(ev), "the result of "+shortName(ev.Name)+" is not printed")
	}
	for _, p := range r.x.ev {
		if p.Kind != "print" || len(p.Args) == 0 {
			continue
		}
		for _, a := range e.alts(e.b.And(p.G, Not(success)), p.Args[0]) {
			line := mentionsTerm(a.V, func(t *Term) bool { return t.Op == "RES0" })
			if s, ok := a.V.(*Str); ok {
				c := ""
				if s.K == 'c' {
					c = s.S
				} else if s.K == 't' && s.T.Op == "CONCAT" {
					if h, ok := s.T.Args[0].(*Str); ok && h.K == 'c' {
						c = h.S
					}
				}
				line = line || strings.HasPrefix(c, "RESULT")
			}
			if line {
				t.never("line", a.G, evWhere(p), "a result line is printed although no operation succeeded")
			} else {
				t.obs++
			}
		}
	}
}

// message: a failing exit comes after some text that says so, with the error of an operation that failed.
func (r *cliRun) message(failed Ref) {
	t, e := r.t, r.e
	told := False
	opErr := make([]Ref, len(r.calls))
	for i := range opErr {
		opErr[i] = False
	}
	for _, p := range r.x.ev {
		switch p.Kind {
		case "print":
			for _, v := range p.Args {
				for _, a := range e.alts(p.G, v) {
					if s, ok := a.V.(*Str); !ok || s.K != 'c' || strings.TrimSpace(s.S) != "" {
						told = e.b.Or(told, a.G)
					}
					for i, ev := range r.calls {
						ev := ev
						if mentionsTerm(a.V, func(t *Term) bool {
							return (t.Op == "ERR" || t.Op == "ERRTEXT") && mentionsTerm(ev.Res, func(u *Term) bool {
								return u.Op == "ERR" && (u == t || len(t.Args) > 0 && t.Args[0] == u || identical(t, u))
							})
						}) {
							opErr[i] = e.b.Or(opErr[i], a.G)
						}
					}
				}
			}
		case "exit":
			g := e.b.And(p.G, failed)
			t.never("message", e.b.And(g, Not(told)), evWhere(p), "the tool fails without a message")
			for i, ev := range r.calls {
				t.never("message", e.b.And(g, e.b.And(e.b.And(ev.G, ev.Err), Not(opErr[i]))), evWhere(p), "the error of "+shortName(ev.Name)+" is not printed")
			}
		}
	}
}

func init() {
	checks["P28"] = checkDef{"the tool's main function is interpreted with every flag unknown (and with the algorithm and key type fixed); calls of the unified operations are events, whose guards and parameters must be those of the first operation selected and of its own flags", func(r *Run) {
		r.cliTasks(func(t *T, x *cliRun) { x.dispatch() })
	}}
	checks["P29"] = checkDef{"as P28, with the failure of each operation as a further unknown; guards of exits, normal return and printed lines are compared with the guard under which an operation succeeded", func(r *Run) {
		r.cliTasks(func(t *T, x *cliRun) { x.outcome() })
	}}
}
