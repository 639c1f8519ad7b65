package main

// Loading of the analysed program and its initial memory.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/moov-io/dukpt"
const specPath = modPath + "/zz_verifspec"

type World struct {
	prog  *ssa.Program
	repo  string
	pkgs  map[string]*ssa.Package
	order []*ssa.Package // repository packages, dependencies first
	spec  *ssa.Package
	cli   *ssa.Package
	srv   *ssa.Package
}

func loadWorld(repo, specFile string) (*World, error) {
	src, err := os.ReadFile(specFile)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
		Overlay: map[string][]byte{filepath.Join(repo, "zz_verifspec", "spec.go"): src},
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	w := &World{prog: prog, repo: repo, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	w.spec = w.pkgs[specPath]
	if w.spec == nil {
		return nil, fmt.Errorf("specification package not loaded")
	}
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if isRepoPath(p.Path()) {
			if sp := w.pkgs[p.Path()]; sp != nil {
				w.order = append(w.order, sp)
			}
		}
	}
	for _, p := range ps {
		visit(p.Types)
	}
	w.cli = w.pkgs[modPath+"/cmd/dukptcli"]
	w.srv = w.pkgs[modPath+"/cmd/server"]
	return w, nil
}

func isRepoPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

func (w *World) build(fn *ssa.Function) {}

func (w *World) isSpec(fn *ssa.Function) bool {
	p := fn.Pkg
	for q := fn; p == nil && q.Parent() != nil; {
		q = q.Parent()
		p = q.Pkg
	}
	return p == w.spec
}

// inlined are the packages outside the repository whose source is interpreted.
var inlined = map[string]bool{
	"encoding/hex": true, "encoding/binary": true, "bytes": true, "strings": true, "slices": true, "maps": true,
	"math/bits": true, "errors": true, "sort": true, "unicode/utf8": true, "cmp": true, "iter": true, "unicode": true,
	"internal/byteorder": true, "github.com/go-kit/kit/transport/http": true, "github.com/go-kit/kit/endpoint": true,
	"github.com/moov-io/base/http": true, "github.com/chmike/cmac-go": true, "github.com/go-kit/kit/transport": true,
	"strconv": true, "internal/stringslite": true, "github.com/moov-io/base/http/bind": true,
}

func (w *World) noInline(fn *ssa.Function) bool {
	p := fn.Pkg.Pkg.Path()
	return !(isRepoPath(p) || inlined[p])
}

func (w *World) fn(pkg, name string) *ssa.Function {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	if i := strings.Index(name, "."); i > 0 {
		tn := strings.TrimPrefix(name[:i], "*")
		t, ok := p.Members[tn].(*ssa.Type)
		if !ok {
			return nil
		}
		var rt types.Type = t.Type()
		if name[0] == '*' {
			rt = types.NewPointer(rt)
		}
		sel := w.prog.MethodSets.MethodSet(rt).Lookup(p.Pkg, name[i+1:])
		if sel == nil {
			return nil
		}
		return w.prog.MethodValue(sel)
	}
	f, _ := p.Members[name].(*ssa.Function)
	return f
}

// nativeType gives the models' types a name.
func (e *E) nativeType(name string) types.Type {
	if t, ok := e.natives[name]; ok {
		return t
	}
	t := types.NewNamed(types.NewTypeName(0, nil, name, nil), types.NewStruct(nil, nil), nil)
	e.natives[name] = t
	return t
}

func (e *E) iface(n *NativeV) *IfaceV { return &IfaceV{T: e.nativeType(n.Kind), V: n} }

var nativeMethods = map[string][]string{
	"fmterr":    {"Error", "Unwrap"},
	"strerr":    {"Error"},
	"aesblock":  {"BlockSize", "Encrypt", "Decrypt"},
	"desblock":  {"BlockSize", "Encrypt", "Decrypt"},
	"tdesblock": {"BlockSize", "Encrypt", "Decrypt"},
	"cbcenc":    {"BlockSize", "CryptBlocks"},
	"cbcdec":    {"BlockSize", "CryptBlocks"},
	"hash":      {"Write", "Sum", "Reset", "Size", "BlockSize"},
	"rw":        {"Header", "Write", "WriteHeader"},
	"file":      {"Write", "WriteString", "Close"},
	"body":      {"Read", "Close"},
	"formatter": {"SetDebugWriter", "Encode", "Decode"},
}

func (e *E) nativeImplements(n *NativeV, t types.Type) Ref {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return False
	}
	if n.T != nil && strings.HasPrefix(n.Kind, "opaque") {
		if (n.T.Op == "ERR" || n.T.Op == "UNWRAP" || e.errTerms[n.T]) && types.Implements(types.Universe.Lookup("error").Type(), it) {
			return True
		}
		return e.termBool(e.newTerm("TYPE:"+t.String(), n.T), True)
	}
	ms := nativeMethods[n.Kind]
	for i := 0; i < it.NumMethods(); i++ {
		has := false
		for _, m := range ms {
			if m == it.Method(i).Name() {
				has = true
			}
		}
		if !has {
			return False
		}
	}
	return True
}

// symOf makes a symbolic value of a type, named by a term.
func (e *E) symOf(st *State, t types.Type, tm *Term) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV(e.termBool(tm, True))
		case u.Info()&types.IsString != 0:
			return tStr(tm)
		case u.Info()&types.IsInteger != 0:
			return e.termBV(tm, width(t), True)
		case u.Info()&types.IsFloat != 0:
			unsup("symbolic floating point number")
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			s := e.symBytes(st, tm)
			s.NilEmpty = true
			return s
		}
		if e.inst {
			// an instance that shows sharing: one element and room for another
			el := e.symOf(st, u.Elem(), e.newTerm("[0]", tm))
			id := e.newObj(st, "local", "sym", types.NewArray(u.Elem(), 2), ArrayV{el, e.zero(u.Elem())})
			return &SliceV{Obj: id, Len: constBV(64, 1), Cap: 2}
		}
		return &NativeV{Kind: "opaque", Obj: -1, T: tm}
	case *types.Map:
		if e.inst {
			return &MapV{Obj: e.newObj(st, "local", "sym", t, &MapObj{Base: tm, ET: u.Elem()})}
		}
		return &NativeV{Kind: "opaque", Obj: -1, T: tm}
	case *types.Struct:
		if e.inst && !isRepoType(t) {
			// what another package keeps inside its own types is not for the callers to change
			defer func() { e.inst = true }()
			e.inst = false
		}
		r := make(StructV, u.NumFields())
		for i := range r {
			r[i] = e.symOf(st, u.Field(i).Type(), e.newTerm("."+u.Field(i).Name(), tm))
		}
		return r
	case *types.Array:
		r := make(ArrayV, u.Len())
		for i := range r {
			r[i] = e.symOf(st, u.Elem(), e.newTerm(fmt.Sprintf("[%d]", i), tm))
		}
		return r
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = e.symOf(st, u.At(i).Type(), e.newTerm(fmt.Sprintf("#%d", i), tm))
		}
		return r
	case *types.Interface:
		n := &IfaceV{T: e.nativeType("opaque"), V: &NativeV{Kind: "opaque", Obj: -1, T: tm}}
		if isErr(t) {
			c := e.termBool(e.newTerm("FAILS", tm), True)
			e.errTerms[tm] = true
			return e.choice([]Alt{{c, n}, {Not(c), nilIface}})
		}
		return n
	case *types.Pointer:
		if nt, ok := u.Elem().(*types.Named); ok && nt.Obj().Pkg() != nil && isRepoPath(nt.Obj().Pkg().Path()) {
			id := e.newObj(st, "local", "sym", u.Elem(), e.symOf(st, u.Elem(), e.newTerm("*", tm)))
			return &PtrV{Obj: id}
		}
		if _, ok := u.Elem().Underlying().(*types.Basic); ok && e.inst || e.inst && u.Elem().String() == "time.Time" {
			return &PtrV{Obj: e.newObj(st, "local", "sym", u.Elem(), e.symOf(st, u.Elem(), e.newTerm("*", tm)))}
		}
		return &NativeV{Kind: "opaque", Obj: -1, T: tm}
	case *types.Signature:
		return &FuncV{N: "opaque", NV: []Value{tm}}
	default:
		return &NativeV{Kind: "opaque", Obj: -1, T: tm}
	}
	return &NativeV{Kind: "opaque", Obj: -1, T: tm}
}

// isRepoType: a type that this repository declares, or an unnamed one
func isRepoType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return !ok || n.Obj().Pkg() == nil || isRepoPath(n.Obj().Pkg().Path())
}

// instOf is a symbolic value whose pointers, slices and maps are memory of their own.
func (e *E) instOf(st *State, t types.Type, tm *Term) Value {
	e.inst = true
	defer func() { e.inst = false }()
	return e.symOf(st, t, tm)
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// globalObj is the memory object of a package-level variable.
func (e *E) globalObj(st *State, g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		if hget(st.heap, id) == nil {
			st.heap = hset(st.heap, id, hget(e.initHeap, id))
		}
		return id
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	var content Value
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	if isRepoPath(path) {
		content = e.zero(t)
		id := e.newObj(st, "global", g.String(), t, content)
		e.globals[g] = id
		if !e.initPhase {
			e.initHeap = hset(e.initHeap, id, content)
		}
		return id
	}
	save := e.initPhase
	e.initPhase = true
	defer func() { e.initPhase = save }()
	switch g.String() {
	case "os.Stdout", "os.Stderr":
		content = &NativeV{Kind: "file", Obj: -1, V: []Value{cStr(strings.ToLower(g.Name()))}}
	case "flag.Usage":
		content = &FuncV{N: "flag.Usage"}
	case "flag.CommandLine", "os.Args", "flag.ErrHelp":
		content = e.symOf(st, t, e.newTerm("GLOBAL:"+g.String()))
	case "os.Stdin":
		content = &NativeV{Kind: "opaque", Obj: -1, T: e.newTerm("stdin")}
	default:
		content = e.sliceInit(st, g, t)
	}
	id := e.newObj(st, "global", g.String(), t, content)
	e.globals[g] = id
	e.initHeap = hset(e.initHeap, id, content)
	return id
}

// sliceInit evaluates the initializer of a variable of another package.
func (e *E) sliceInit(st *State, g *ssa.Global, t types.Type) Value {
	init := g.Pkg.Func("init")
	if init == nil {
		return e.zero(t)
	}
	need := map[ssa.Instruction]bool{}
	var needVal func(v ssa.Value)
	var needIns func(in ssa.Instruction)
	needIns = func(in ssa.Instruction) {
		if need[in] {
			return
		}
		need[in] = true
		for _, op := range in.Operands(nil) {
			if *op != nil {
				needVal(*op)
			}
		}
		if v, ok := in.(ssa.Value); ok {
			switch in.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
				for _, r := range *v.Referrers() {
					switch x := r.(type) {
					case *ssa.Store:
						if x.Addr == v {
							needIns(x)
						}
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
						needIns(r)
					case *ssa.MapUpdate:
						if x.Map == v {
							needIns(x)
						}
					}
				}
			}
		}
	}
	needVal = func(v ssa.Value) {
		if in, ok := v.(ssa.Instruction); ok {
			needIns(in)
		}
	}
	found := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				found = true
				needIns(s)
			}
		}
	}
	if !found {
		return e.zero(t)
	}
	for in := range need {
		if _, ok := in.(*ssa.Phi); ok {
			return e.symOf(st, t, e.newTerm("GLOBAL:"+g.String()))
		}
	}
	var res Value
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupported); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		fi := infoOf(init)
		f := &frame{e: e, fn: init, fi: fi, pending: make([]*fstate, len(init.Blocks))}
		f.cur = &fstate{st: &State{g: True, heap: st.heap}, env: make([]Value, fi.n)}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if !need[in] {
					continue
				}
				if s, is := in.(*ssa.Store); is && s.Addr == g {
					res = f.get(s.Val)
					continue
				}
				f.instr(in)
			}
		}
		st.heap = f.cur.st.heap
		e.initHeap = hmerge(e.initHeap, f.cur.st.heap, hdepth-1, func(a, b Value) Value { return b })
		return true
	}()
	if !ok || res == nil {
		return e.symOf(st, t, e.newTerm("GLOBAL:"+g.String()))
	}
	return res
}

// initState interprets the package initializers of the repository.
func (e *E) initState(pkgs ...string) *State {
	st := &State{g: True}
	e.initPhase = true
	want := map[string]bool{}
	for _, p := range pkgs {
		want[p] = true
	}
	need := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if need[p] || !isRepoPath(p.Path()) {
			return
		}
		need[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for _, p := range e.W.order {
		if want[p.Pkg.Path()] {
			visit(p.Pkg)
		}
	}
	for _, p := range e.W.order {
		if !need[p.Pkg] {
			continue
		}
		if in := p.Func("init"); in != nil && len(in.Blocks) > 0 {
			_, ret, _ := e.call(in, nil, nil, st, false)
			if ret == nil {
				unsup("initialization of %s does not end normally", p.Pkg.Path())
			}
			st = ret
		}
	}
	e.initPhase = false
	e.initHeap = hmerge(st.heap, e.initHeap, hdepth-1, func(a, b Value) Value { return a })
	st.heap = e.initHeap
	return st
}

// snap resolves a value to its content: slices become their elements, byte terms the term.
func (e *E) snap(st *State, v Value) Value { return e.snapd(st, v, 0) }

func (e *E) snapd(st *State, v Value, d int) Value {
	if d > 12 {
		return v
	}
	switch x := v.(type) {
	case *ChoiceV:
		var out []Alt
		for _, a := range x.A {
			if e.b.And(st.g, a.G) == False {
				continue
			}
			out = append(out, Alt{a.G, e.snapd(&State{g: e.b.And(st.g, a.G), heap: st.heap}, a.V, d+1)})
		}
		r := e.choice(out)
		if r == nil {
			return v
		}
		return r
	case *SliceV:
		if x.Obj < 0 {
			return ArrayV{}
		}
		if t := e.fullTerm(st, x); t != nil {
			return t
		}
		c := e.constUnder(st.g, x.Len)
		if c == nil {
			alts := e.splitConst(st.g, x.Len, 128)
			if alts == nil {
				unsup("content of a slice of unknown length")
			}
			var out []Alt
			for _, a := range alts {
				out = append(out, Alt{a.G, e.snapd(&State{g: a.G, heap: st.heap}, &SliceV{Obj: x.Obj, Path: x.Path, Off: x.Off, Len: a.V.(*BV), Cap: x.Cap}, d+1)})
			}
			return e.choice(out)
		}
		arr := e.getPath(hget(st.heap, x.Obj), x.Path)
		r := make(ArrayV, c.V)
		for i := range r {
			r[i] = e.snapd(st, e.getPath(arr, []int{x.Off + i}), d+1)
		}
		return r
	case *PtrV:
		if x.Obj < 0 {
			return x
		}
		return TupleV{e.snapd(st, e.getPath(hget(st.heap, x.Obj), x.Path), d+1)}
	case *IfaceV:
		if x.T == nil {
			return x
		}
		return &IfaceV{T: x.T, V: e.snapd(st, x.V, d+1)}
	case StructV:
		r := make(StructV, len(x))
		for i := range x {
			r[i] = e.snapd(st, x[i], d+1)
		}
		return r
	case ArrayV:
		r := make(ArrayV, len(x))
		for i := range x {
			r[i] = e.snapd(st, x[i], d+1)
		}
		return r
	case TupleV:
		r := make(TupleV, len(x))
		for i := range x {
			r[i] = e.snapd(st, x[i], d+1)
		}
		return r
	case *MapV:
		if x.Obj < 0 {
			return &MapObj{}
		}
		o := hget(st.heap, x.Obj).(*MapObj)
		n := &MapObj{Base: o.Base, ET: o.ET}
		for _, en := range o.Ents {
			n.Ents = append(n.Ents, MapEnt{e.snapd(st, en.K, d+1), e.snapd(st, en.V, d+1), en.P})
		}
		return n
	}
	return v
}
