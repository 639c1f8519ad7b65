package main

// P34: which instructions run and which memory they use does not depend on the content of secrets.

import (
	"strings"
)

// depSite is a decision taken during interpretation: under guard g, v selects the way or the memory.
type depSite struct {
	kind  string
	g     Ref
	v     Value
	where string
	via   string
}

func (t *T) recordDeps() {
	e := t.e
	t.depBad = map[string]bool{}
	t.depMemo = map[*Term]bool{}
	e.onDep = func(kind string, g Ref, v Value) {
		if e.specDepth > 0 {
			return
		}
		// the innermost function of the repository is the one that decides; a library routine acts for it
		where, via := e.where(), ""
		for i := len(e.stack) - 1; i >= 0; i-- {
			fn := e.stack[i]
			o := fn
			for o.Parent() != nil {
				o = o.Parent()
			}
			if o.Origin() != nil {
				o = o.Origin()
			}
			if o.Pkg != nil && (o.Pkg.Pkg.Path() == "encoding/hex" || o.Pkg.Pkg.Path() == pPkg && (o.Name() == "HexEncode" || o.Name() == "HexDecode")) {
				return // the conversion to and from hexadecimal looks digits up
			}
			if o.Pkg != nil && strings.HasPrefix(o.Pkg.Pkg.Path(), modPath) {
				if i < len(e.stack)-1 {
					via = shortFn(e.stack[i+1])
				}
				where = t.W.pos(fn.Pos()) + " " + shortFn(fn)
				if i == len(e.stack)-1 {
					where = t.W.pos(e.curPos) + " " + shortFn(fn)
				}
				break
			}
		}
		t.secretDep(depSite{kind, g, v, where, via})
	}
}

// publicOutcome are terms that stand for the outcome of a call, not for content.
var publicOutcome = map[string]bool{"ERR": true, "ERRTEXT": true, "FAILS": true, "PANICS": true, "UNWRAP": true, "WRAPS": true}

// secretVars are the variables of some values' supports that stand for content computed from a secret.
func (e *E) secretVars(sup map[int32]bool, secret func(*Term) bool, memo map[*Term]bool) map[int32]bool {
	var term func(t *Term) bool
	var val func(v Value) bool
	val = func(v Value) bool {
		switch x := v.(type) {
		case *Term:
			return term(x)
		case *BV:
			if x.C {
				return false
			}
			for v := range e.b.Support(x.bits()...) {
				if o, ok := e.b.owner[v].(*VarOwner); ok && o.T != nil && o.Aspect != "len" && o.Aspect != "code" && term(o.T) {
					return true
				}
			}
		case *Str:
			if x.K == 't' {
				return term(x.T)
			}
			for _, b := range x.B {
				if val(b) {
					return true
				}
			}
		case ArrayV:
			for _, b := range x {
				if val(b) {
					return true
				}
			}
		case TupleV:
			for _, b := range x {
				if val(b) {
					return true
				}
			}
		case StructV:
			for _, b := range x {
				if val(b) {
					return true
				}
			}
		case *ChoiceV:
			for _, a := range x.A {
				if val(a.V) {
					return true
				}
			}
		case *IfaceV:
			return x.T != nil && val(x.V)
		case *NativeV:
			if x.T != nil && term(x.T) {
				return true
			}
			for _, b := range x.V {
				if val(b) {
					return true
				}
			}
		}
		return false
	}
	term = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = false
		if publicOutcome[t.Op] {
			return false
		}
		r := secret(t)
		for _, a := range t.Args {
			r = r || val(a)
		}
		memo[t] = r
		return r
	}
	out := map[int32]bool{}
	for v := range sup {
		if o, ok := e.b.owner[v].(*VarOwner); ok && o.T != nil && o.Aspect != "len" && o.Aspect != "code" && term(o.T) {
			out[v] = true
		}
	}
	return out
}

// markSecrets notes which arguments of an operation are secret.
func (t *T) markSecrets(o Op) {
	if t.run == nil || !t.run.deps {
		return
	}
	idx := secretArgs[o.String()]
	for i, n := range o.params {
		if o.pkg == pEnc || containsInt(idx, i) {
			t.secretSrc[t.e.newTerm(n)] = true
		}
	}
	if o.pkg == pEnc {
		t.secretSrc[t.e.newTerm("data")] = true
	}
}

func containsInt(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// secretDep: with everything public fixed, no decision may go both ways.
func (t *T) secretDep(d depSite) {
	e := t.e
	t.obs++
	key := d.kind + d.where
	if t.depBad[key] {
		return
	}
	secret := func(s *Term) bool { return t.secretSrc[s] }
	var bits []Ref
	switch x := d.v.(type) {
	case BoolV:
		bits = []Ref{Ref(x)}
	case *BV:
		bits = x.bits()
	default:
		if e.taint(d.v, secret, nil) != nil {
			t.fromSecret(d, d.g)
		}
		return
	}
	for _, c := range bits {
		gt, gf := e.b.And(d.g, c), e.b.And(d.g, Not(c))
		if gt == False || gf == False {
			continue
		}
		sup := e.b.Support(c)
		vs := e.secretVars(sup, secret, t.depMemo)
		if len(vs) == 0 {
			continue // in a part that depends on a secret already, if at all
		}
		gs := e.secretVars(e.b.Support(d.g), secret, t.depMemo)
		if len(gs) == 0 && len(vs) == len(sup) {
			t.fromSecret(d, gt)
			return
		}
		for v := range gs {
			vs[v] = true
		}
		ex := func(r Ref) Ref { return Not(e.b.Forall(Not(r), vs)) }
		if e.b.And(ex(gt), ex(gf)) != False {
			t.fromSecret(d, gt)
			return
		}
	}
}

func (t *T) fromSecret(d depSite, g Ref) {
	w := d.where
	t.depBad[d.kind+w] = true
	msg := map[string]string{"branch": "which way execution goes", "index": "which element is used", "slice bound": "which part of a buffer is used",
		"size": "how much memory is allocated", "map key": "which entry of a map is used"}[d.kind]
	if d.via != "" {
		msg += " (in " + d.via + ", called here)"
	}
	t.never("secret-"+strings.ReplaceAll(d.kind, " ", "-"), g, w, msg+" depends on the content of a key, a PIN, an account number or plaintext")
}

func init() {
	checks["P34"] = checkDef{"every branch, index, slice bound, allocation size and map key met while the library operations are interpreted is traced back to the inputs: with everything public fixed it may not change with the content of keys, PINs, account numbers or plaintext", func(r *Run) {
		r.deps = true
		done := func(t *T, x *Res) {}
		for _, fn := range r.W.exportedFuncs(pAes, pDes) {
			o, parts := r.variations(fn, r.pick(34, 60))
			for _, p := range parts {
				r.opTask(o, p, done)
			}
			for _, p := range r.longVariations(o, parts) {
				r.big(keyedOp{o: o, part: p}, func(t *T, x *Res, k keyedOp) {})
			}
			if len(parts) > 0 {
				r.after(o, parts[0], done)
			}
		}
		r.cipherTasks(func(t *T, x *Res, c cipherCase) {})
	}}
}
