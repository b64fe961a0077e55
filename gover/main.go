package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Report struct {
	Property    string        `json:"property"`
	Functions   []*FuncReport `json:"functions"`
	Obligations []*Obligation `json:"obligations"`
	Trusted     []string      `json:"trusted"`
	Axioms      []string      `json:"axioms"`
	LoadMS      int64         `json:"load_ms"`
	WallMS      int64         `json:"wall_ms"`
	SolverMS    int64         `json:"solver_ms"`
	Failed      int           `json:"failed"`
	Error       string        `json:"error,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property id; empty = all")
	only := flag.String("only", "", "only functions whose key contains this")
	out := flag.String("out", "", "JSON report")
	faild := flag.String("faildir", "", "directory for failed obligation scripts")
	pkgs := flag.String("pkgs", "./pkg/...", "packages")
	verbose := flag.Bool("v", false, "verbose")
	nil_ := flag.Bool("nil", false, "nil-dereference obligations")
	list := flag.Bool("list", false, "list function keys")
	dump := flag.String("dump", "", "dump SSA of function key")
	thorough := flag.Bool("thorough", false, "longer solver time limits")
	budget := flag.Int("budget", 0, "total seconds; what is undecided then stays undecided")
	flag.Parse()
	if *budget > 0 {
		deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	}
	if *thorough {
		slow = 3
	}
	t0 := time.Now()
	var err error
	tmpDir, err = os.MkdirTemp("", "gover")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(tmpDir)
	rep := &Report{Property: *prop}
	finish := func(code int) {
		rep.WallMS = time.Since(t0).Milliseconds()
		if *out != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		os.RemoveAll(tmpDir)
		os.Exit(code)
	}
	sf := newSpec()
	files, _ := filepath.Glob(filepath.Join(*dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := sf.load(f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			rep.Error = err.Error()
			finish(3)
		}
	}
	P, err := loadProgram(*repo, strings.Split(*pkgs, ","), os.Environ())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		rep.Error = err.Error()
		finish(3)
	}
	rep.LoadMS = time.Since(t0).Milliseconds()
	if *list {
		for _, k := range sortedKeys(P.fns) {
			if strings.Contains(k, *only) && strings.HasPrefix(k, modulePath) {
				fmt.Println(k)
			}
		}
		return
	}
	if *dump != "" {
		for _, k := range sortedKeys(P.fns) {
			if strings.Contains(k, *dump) && strings.HasPrefix(k, modulePath) {
				P.fns[k].WriteTo(os.Stdout)
			}
		}
		return
	}
	V := newVerifier(P, sf, *repo)
	V.NilChecks = *nil_
	V.verbose = *verbose
	V.prop = *prop
	if err := V.initSpec(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		rep.Error = err.Error()
		finish(3)
	}
	used := map[string]bool{}
	for _, c := range sf.Order {
		if c.Trusted {
			continue
		}
		if *prop != "" && !contains(c.Props, *prop) {
			continue
		}
		if *only != "" && !strings.Contains(c.full(), *only) {
			continue
		}
		tf := time.Now()
		r := V.verifyFunc(c)
		rep.Functions = append(rep.Functions, r)
		nd := 0
		for _, o := range r.Obls {
			rep.Obligations = append(rep.Obligations, o)
			rep.SolverMS += o.TimeMS
			if o.Status == "discharged" {
				nd++
			} else {
				rep.Failed++
				if *faild != "" && o.Script != "" {
					os.MkdirAll(*faild, 0o755)
					n := strings.NewReplacer("/", "_", ":", "_", " ", "_", "*", "", "(", "", ")", "", "[", "_", "]", "_").Replace(o.Func + "__" + o.Name)
					os.WriteFile(filepath.Join(*faild, n+".smt2"), []byte(o.Script), 0o644)
					os.WriteFile(filepath.Join(*faild, n+".model"), []byte(o.Model), 0o644)
				}
			}
		}
		for _, k := range r.Calls {
			used[k] = true
		}
		fmt.Printf("%-70s %d/%d obligations, %d paths, %.1fs %s%s\n", strings.TrimPrefix(r.Func, modulePath), nd, len(r.Obls), r.Paths, time.Since(tf).Seconds(), r.Error, r.Skipped)
		for _, o := range r.Obls {
			if o.Status != "discharged" {
				fmt.Printf("   FAILED %s (%s) at %s: %s\n", o.Name, o.Kind, o.Pos, o.Detail)
				if *verbose {
					for _, t := range o.Trace {
						fmt.Printf("        %s\n", t)
					}
				}
			}
		}
	}
	for i, a := range V.axTerms {
		if !a.lemma || (*prop != "" && len(a.def.Props) > 0 && !contains(a.def.Props, *prop)) {
			continue
		}
		if *only != "" && !strings.Contains("lemma "+a.def.Label, *only) {
			continue
		}
		o := V.verifyLemma(i)
		rep.Obligations = append(rep.Obligations, o)
		if o.Status != "discharged" {
			rep.Failed++
			fmt.Printf("   FAILED lemma %s: %s\n", a.def.Label, o.Detail)
		}
	}
	for _, a := range V.axTerms {
		if !a.lemma {
			rep.Axioms = append(rep.Axioms, a.def.Label+": "+a.def.Src)
		}
	}
	for _, c := range sf.Order {
		if c.Trusted && used[c.full()] || c.Trusted && used[c.Pkg+"::"+c.Key] {
			rep.Trusted = append(rep.Trusted, c.Kind+" "+c.full()+" "+c.Note)
		} else if used[c.full()] {
			for _, g := range c.Gives {
				rep.Trusted = append(rep.Trusted, "naming "+c.full()+" "+g.Src)
			}
		}
	}
	if rep.Failed > 0 {
		finish(1)
	}
	finish(0)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(3)
}
