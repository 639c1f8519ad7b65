package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "framework")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("task", "", "run only tasks whose name contains this")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	start := time.Now()
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	for _, id := range ids {
		if _, ok := checks[id]; !ok {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
	}
	w, err := loadWorld(*repo, filepath.Join(*verif, "sa/spec/spec.go"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "dukptsa:", err)
		os.Exit(2)
	}
	if os.Getenv("SA_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "loaded in", time.Since(start))
	}
	code := 0
	for _, id := range ids {
		st := start
		if len(ids) > 1 {
			st = time.Now()
		}
		r := &Run{W: w, prop: id, tier: *tier, funcs: map[string]bool{}, sites: map[ssa.Instruction]bool{}}
		checks[id].f(r)
		if *only != "" {
			var ts []taskDef
			for _, t := range r.tasks {
				if strings.Contains(t.name, *only) {
					ts = append(ts, t)
				}
			}
			r.tasks = ts
		}
		setDeadline(st.Add(780 * time.Second))
		r.exec()
		if c := r.finish(*verif, st); c > code {
			code = c
		}
	}
	os.Exit(code)
}
