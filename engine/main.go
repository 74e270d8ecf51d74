// gocv is a deductive verifier for (a subset of) go.
//
// It reads contracts (*.gv), and proves that the functions in the source tree satisfy them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

func hasProp(props []string, p string) bool {
	if p == "" {
		return true
	}
	for _, q := range props {
		if q == p {
			return true
		}
	}
	return false
}

// Out is what is written for the driver
type Out struct {
	Property string
	Packages []string
	Reports  []*FuncReport
	LoadErr  string
	LoadTime float64
	Wall     float64
	Missing  []string
}

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	specs := flag.String("specs", "/verif/contracts", "contracts")
	prop := flag.String("property", "", "only verify functions for this property")
	only := flag.String("only", "", "only verify functions whose name contains this")
	out := flag.String("out", "", "write a json report here")
	pk := flag.String("packages", "", "packages to load (default: all that have contracts)")
	timeout := flag.Duration("timeout", 300*time.Second, "time per function")
	jobs := flag.Int("jobs", runtime.NumCPU(), "parallel jobs")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "dump queries of failed obligations to this directory")
	flag.BoolVar(&debugLoops, "loops", false, "show loop invariants")
	flag.BoolVar(&checkVacuity, "vacuity", false, "report contradictory contracts")
	flag.BoolVar(&debugPaths, "paths", false, "show the result of every path")
	flag.Parse()

	start := time.Now()
	o := Out{Property: *prop}
	finish := func(code int) {
		o.Wall = time.Since(start).Seconds()
		if *out != "" {
			data, _ := json.MarshalIndent(o, "", " ")
			os.WriteFile(*out, data, 0o644)
		}
		os.Exit(code)
	}
	var db *SpecDB
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(parseError); ok {
					fmt.Println("contract syntax:", pe.msg)
					os.Exit(2)
				}
				panic(r)
			}
		}()
		db = LoadSpecs(*specs)
	}()
	// which packages are needed
	want := map[string]bool{}
	sel := func(c *Contract) bool {
		return hasProp(c.Props, *prop) && !c.Trusted && !c.Iface && !c.Field && (*only == "" || strings.Contains(c.fullKey(), *only))
	}
	var patterns []string
	if *pk != "" {
		patterns = strings.Split(*pk, ",")
	} else {
		for _, c := range db.Order {
			if sel(c) {
				want[c.Pkg] = true
			}
		}
		for _, l := range db.Lemmas {
			if hasProp(l.Props, *prop) && l.Pkg != "" {
				want[l.Pkg] = true
			}
		}
		for p := range want {
			patterns = append(patterns, p)
		}
		sort.Strings(patterns)
	}
	o.Packages = patterns
	w, err := LoadWorld(*repo, patterns, filepath.Join(*specs, "models"), db)
	o.LoadTime = time.Since(start).Seconds()
	if err != nil {
		o.LoadErr = err.Error()
		fmt.Println("load:", err)
		finish(1)
	}
	if *verbose {
		fmt.Printf("loaded %v in %.1fs\n", patterns, o.LoadTime)
	}

	var mu sync.Mutex
	done := map[*Contract]bool{}
	var wg sync.WaitGroup
	sem := make(chan bool, *jobs)
	var enqueue func(c *Contract)
	handle := func(rep *FuncReport) {
		mu.Lock()
		o.Reports = append(o.Reports, rep)
		mu.Unlock()
		if *verbose || rep.Failed {
			printReport(rep, *verbose, *dump)
		}
	}
	enqueue = func(c *Contract) {
		mu.Lock()
		if done[c] {
			mu.Unlock()
			return
		}
		done[c] = true
		mu.Unlock()
		if w.pkgOf(c.Pkg) == nil {
			return
		}
		if c.Optional && w.findFunc(c.Pkg, c.Key) == nil {
			mu.Lock()
			o.Missing = append(o.Missing, c.fullKey())
			mu.Unlock()
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			rep := w.verify(c, nil, *timeout)
			<-sem
			for _, inst := range rep.more {
				r := w.verify(c, inst, *timeout)
				r.Func += fmt.Sprint(inst.TypeArgs())
				rep.usedCons = append(rep.usedCons, r.usedCons...)
				handle(r)
			}
			handle(rep)
			if *only == "" {
				for _, u := range rep.usedCons {
					if !u.Trusted && !u.Iface && !u.Field {
						enqueue(u)
					}
				}
			}
		}()
	}
	for _, c := range db.Order {
		if sel(c) {
			enqueue(c)
		}
	}
	for _, l := range db.Lemmas {
		if hasProp(l.Props, *prop) && (*only == "" || strings.Contains("lemma "+l.Name, *only)) {
			l := l
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				rep := w.verifyLemma(l, *timeout)
				<-sem
				handle(rep)
			}()
		}
	}
	wg.Wait()
	sort.Slice(o.Reports, func(i, j int) bool { return o.Reports[i].Func < o.Reports[j].Func })
	bad := 0
	n, proved := 0, 0
	for _, r := range o.Reports {
		if r.Failed {
			bad++
		}
		for _, b := range r.Obls {
			n++
			if !b.Failed {
				proved++
			}
		}
	}
	fmt.Printf("%d functions and lemmas, %d failed; %d obligations, %d discharged; %.1fs\n", len(o.Reports), bad, n, proved, time.Since(start).Seconds())
	if bad > 0 || len(o.Reports) == 0 {
		finish(1)
	}
	finish(0)
}

var printMu sync.Mutex

func printReport(rep *FuncReport, verbose bool, dump string) {
	printMu.Lock()
	defer printMu.Unlock()
	status := "ok"
	if rep.Failed {
		status = "FAILED"
	}
	fmt.Printf("%-7s %s (%s) %d obligations, %d paths, %d loops, %d invariants, %d queries, %.1fs (solver %.1fs + %.1fs)\n", status, rep.Func, rep.File, len(rep.Obls), rep.Paths, rep.Loops, rep.Invs, rep.Queries, rep.Wall.Seconds(), rep.Solver.Seconds(), rep.Fallback.Seconds())
	if rep.Error != "" {
		fmt.Println("    ", rep.Error)
	}
	for _, o := range rep.Obls {
		if o.Failed {
			fmt.Printf("     FAILED %s: %s; %s\n", o.Name, o.Reason, o.Detail)
			if dump != "" {
				os.MkdirAll(dump, 0o755)
				os.WriteFile(filepath.Join(dump, sanitize(rep.Func+"_"+o.Name)+".smt2"), []byte(o.Query), 0o644)
			}
		}
	}
}
