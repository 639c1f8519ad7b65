package main

// Running checks: tasks (one abstract interpretation each), obligations, results.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Viol is a broken obligation: the construct, and what is wrong with it.
type Viol struct {
	Key   string `json:"key"` // stable identity: construct and obligation
	Where string `json:"where"`
	Msg   string `json:"message"`
	Part  string `json:"partition"`
	Case  string `json:"case"`
}

// T is one task.
type T struct {
	run   *Run
	W     *World
	e     *E
	name  string
	obs   int
	viols []Viol
	maxN  int

	secretSrc map[*Term]bool // P34: the terms of the secret arguments
	depBad    map[string]bool
	depMemo   map[*Term]bool
	prior     *hroute // a request that is answered first
	watch     bool    // record accesses to memory shared between requests
	shared    map[string][]sharedAcc

	unaligned []string // obligations that hold or not: the terms could not be compared
}

type taskDef struct {
	name string
	f    func(t *T)
}

// Run is one run of one property's check.
type Run struct {
	W     *World
	prop  string
	tier  string
	deps  bool // check what decides control flow and memory use
	tasks []taskDef
	notes []string

	mu        sync.Mutex
	obs       int
	parts     int
	viols     []Viol
	undecided []string
	funcs     map[string]bool
	sites     map[ssa.Instruction]bool
	rule      map[string]int
	samples   []interface{}
	steps     int
}

func (r *Run) task(name string, f func(t *T)) {
	r.tasks = append(r.tasks, taskDef{name, f})
}

// ob records one obligation.
func (t *T) ob(kind string, ok bool, where, msg string, cs Ref) bool {
	t.obs++
	if ok {
		return true
	}
	if t.e != nil {
		w, sure := t.e.genuine(cs)
		if !sure {
			t.unaligned = append(t.unaligned, where+": "+msg+"?")
			return false
		}
		if w == False {
			return true
		}
		cs = w
	}
	t.viols = append(t.viols, Viol{Key: kind + "@" + where, Where: where, Msg: msg, Part: t.name, Case: t.e.describe(cs)})
	return false
}

// never: guard g must be unsatisfiable.
func (t *T) never(kind string, g Ref, where, msg string) bool {
	return t.ob(kind, g == False, where, msg, g)
}

func (r *Run) exec() {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	ch := make(chan taskDef)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for d := range ch {
				r.one(d)
			}
		}()
	}
	for _, d := range r.tasks {
		ch <- d
	}
	close(ch)
	wg.Wait()
}

func (r *Run) one(d taskDef) {
	t := &T{run: r, W: r.W, name: d.name}
	und := ""
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case unsupported:
				und = x.msg
				if t.e != nil && len(t.e.stack) > 0 {
					und += " [" + t.e.where() + "]"
				}
			case bddOverflow:
				und = "decision diagram too large"
				if os.Getenv("SA_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "%s\n%s\n", d.name, debug.Stack())
				}
				if t.e != nil {
					und += " [" + t.e.where() + "]"
				}
			default:
				und = fmt.Sprintf("internal: %v", x)
				if os.Getenv("SA_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", d.name, x, debug.Stack())
				}
			}
		}()
		checkTime()
		d.f(t)
	}()
	if os.Getenv("SA_TRACE") == "2" {
		fmt.Fprintf(os.Stderr, "task %s: obs %d viols %d %s\n", d.name, t.obs, len(t.viols), und)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.parts++
	r.obs += t.obs
	if len(t.viols) > 0 && len(r.viols) == 0 {
		hurry(time.Duration(r.pick(40, 240)) * time.Second)
	}
	r.viols = append(r.viols, t.viols...)
	if und != "" {
		r.undecided = append(r.undecided, d.name+": "+und)
	}
	if len(t.viols) == 0 {
		for _, u := range t.unaligned {
			r.undecided = append(r.undecided, d.name+": terms that cannot be compared: "+u)
		}
	}
	if t.e != nil {
		for f := range t.e.Funcs {
			r.funcs[f.String()] = true
		}
		for s := range t.e.Sites {
			r.sites[s] = true
		}
		r.steps += t.e.steps
	}
}

// ---- known findings

type known struct{ Prop, Key, Desc string }

// loadKnown reads lines "known: property=<id> key=<obligation@construct> <description>".
func loadKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) < 4 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "key="), f[3]})
	}
	return out
}

func (r *Run) finish(verif string, start time.Time) int {
	kn := loadKnown(filepath.Join(verif, "known-findings.txt"))
	sort.SliceStable(r.viols, func(i, j int) bool {
		if r.viols[i].Key != r.viols[j].Key {
			return r.viols[i].Key < r.viols[j].Key
		}
		return r.viols[i].Part < r.viols[j].Part
	})
	var real []Viol
	said := map[string]bool{}
	for _, v := range r.viols {
		listed := false
		for _, k := range kn {
			if k.Prop == r.prop && k.Key == v.Key {
				listed = true
				if !said[k.Key] {
					said[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k.Desc)
				}
			}
		}
		if !listed {
			real = append(real, v)
		}
	}
	sort.Strings(r.undecided)
	var funcs []string
	for f := range r.funcs {
		if strings.Contains(f, modPath) || strings.Contains(f, "moov") {
			funcs = append(funcs, f)
		}
	}
	sort.Strings(funcs)
	repoSites, allSites := 0, len(r.sites)
	for s := range r.sites {
		fn := s.Parent()
		for fn.Pkg == nil && fn.Parent() != nil {
			fn = fn.Parent()
		}
		if fn.Pkg != nil && isRepoPath(fn.Pkg.Pkg.Path()) {
			repoSites++
		}
	}
	var names []string
	for i, d := range r.tasks {
		if i < 3 || i == len(r.tasks)-1 {
			names = append(names, d.name)
		}
	}
	cov := map[string]interface{}{
		"explanation":                      checks[r.prop].rule,
		"rule":                             checks[r.prop].rule,
		"input_partitions_interpreted":     r.parts,
		"obligations":                      r.obs,
		"discharged":                       r.obs - len(r.viols),
		"undecided":                        r.undecided,
		"functions_analysed":               funcs,
		"functions_analysed_count":         len(r.funcs),
		"ssa_instructions_analysed":        allSites,
		"ssa_instructions_in_repository":   repoSites,
		"abstract_instruction_evaluations": r.steps,
		"samples":                          names,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	if len(real) > 0 {
		n := real
		if len(n) > 20 {
			n = n[:20]
		}
		cov["violating_constructs"] = n
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": seed(), "level": "other", "coverage": cov,
		"assumptions": append([]string{}, assumptions...), "wall_s": time.Since(start).Seconds(), "violations": len(real),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(real) == 0 && len(r.undecided) == 0 {
		fmt.Printf("OK property=%s partitions=%d obligations=%d functions=%d (%.1fs)\n", r.prop, r.parts, r.obs, len(r.funcs), time.Since(start).Seconds())
		return 0
	}
	rep := filepath.Join(verif, "evidence", r.prop+".violation.json")
	rb, _ := json.MarshalIndent(map[string]interface{}{"property": r.prop, "violations": real, "undecided": r.undecided}, "", " ")
	os.WriteFile(rep, append(rb, '\n'), 0o644)
	shown := map[string]int{}
	for _, v := range real {
		shown[v.Key]++
		if shown[v.Key] > 1 || len(shown) > 12 {
			continue
		}
		fmt.Printf("  %s: %s\n    partition %s\n    when %s\n", v.Where, v.Msg, v.Part, v.Case)
	}
	for i, u := range r.undecided {
		if i < 8 {
			fmt.Printf("  undecided: %s\n", u)
		}
	}
	if len(real) == 0 {
		// no construct is known to break the property: what could not be decided is reported, in the evidence too
		fmt.Printf("UNDECIDED property=%s partitions=%d of %d\n", r.prop, len(r.undecided), r.parts)
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rep)
	return 1
}

func seed() int {
	n := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}

var assumptions = []string{
	"the analysed program is the one the Go type checker and go/ssa build from /repo's working tree with the sandbox's toolchain",
	"crypto/aes, crypto/des and SHA-256 compute functions of their key and input; encryption and decryption under one key are inverse (stdlib trusted)",
	"github.com/moov-io/pinblock is a set of functions of the format, PIN, account number and cipher it is given",
}

type checkDef struct {
	rule string
	f    func(r *Run)
}

var checks = map[string]checkDef{}
