package main

import (
	"context"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type axTerm struct {
	def   *AxiomDef
	t     *Term
	syms  map[string]bool
	lemma bool
}

type Verifier struct {
	P          *Program
	spec       *SpecFile
	tyCache    map[string]types.Type
	tyPaths []string
	bcount     int
	recs       map[string]*recInfo
	foldByName map[string]*foldInfo
	axTerms    []*axTerm
	loopCache  map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	dbg        map[*ssa.Function]map[ssa.Value][]string
	x          *Exec
	entryVars  map[string]SV
	entryState *State
	heapSorts  map[string]Sort
	epochAlloc map[string]*Term
	NilChecks  bool
	trivial    map[string]int
	mu         sync.Mutex
	repo       string
	nonNil     map[string]bool
	nonNilInit bool
	verbose    bool
	prop       string
}

func newVerifier(P *Program, spec *SpecFile, repo string) *Verifier {
	return &Verifier{P: P, spec: spec, repo: repo, tyCache: map[string]types.Type{}, recs: map[string]*recInfo{}, foldByName: map[string]*foldInfo{},
		loopCache: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, dbg: map[*ssa.Function]map[ssa.Value][]string{},
		heapSorts: map[string]Sort{}, epochAlloc: map[string]*Term{}, trivial: map[string]int{}}
}

func (P *Program) tpsSorted() []*types.Package {
	if P.sorted == nil {
		for _, p := range P.tps {
			P.sorted = append(P.sorted, p)
		}
		sort.Slice(P.sorted, func(i, j int) bool {
			a, b := strings.HasPrefix(P.sorted[i].Path(), modulePath), strings.HasPrefix(P.sorted[j].Path(), modulePath)
			if a != b {
				return a
			}
			return P.sorted[i].Path() < P.sorted[j].Path()
		})
	}
	return P.sorted
}

func (V *Verifier) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := V.P.prog.Fset.Position(p)
	f, err := filepath.Rel(V.repo, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (V *Verifier) quickFeasible(st *State) bool { return true }

// globalNonNil: package-level variables assigned exactly once, in the package initialiser, from a call to
// an error constructor or another non-nil producing instruction.
func (V *Verifier) globalNonNil(heap string) bool {
	if !V.nonNilInit {
		V.nonNilInit = true
		V.nonNil = map[string]bool{}
		bad := map[string]bool{}
		for _, f := range V.P.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := s.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					n := "G:" + g.Pkg.Pkg.Path() + "." + g.Name()
					if f.Name() != "init" {
						bad[n] = true
						continue
					}
					ok = false
					switch v := s.Val.(type) {
					case *ssa.Call:
						if c := v.Call.StaticCallee(); c != nil {
							en := externName(c)
							ok = en == "errors.New" || en == "fmt.Errorf"
						}
					case *ssa.MakeInterface, *ssa.MakeMap, *ssa.Alloc:
						ok = true
					}
					if ok && !bad[n] {
						V.nonNil[n] = true
					} else {
						bad[n] = true
					}
				}
			}
		}
		for n := range bad {
			delete(V.nonNil, n)
		}
	}
	return V.nonNil[heap]
}

func (V *Verifier) initSpec() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specError); ok {
				err = fmt.Errorf("%s", string(s))
				return
			}
			panic(r)
		}
	}()
	for _, c := range V.spec.Order {
		for _, f := range c.Folds {
			f := f
			V.tolerate("fold "+f.Name, func() { V.foldByName[f.Name] = V.initFold(f, V.pkgOf(c.Pkg)) })
		}
	}
	for _, a := range V.spec.Axioms {
		if V.pkgOf(a.Pkg) == nil {
			continue
		}
		st := newState(V)
		env := &Env{V: V, pkg: V.pkgOf(a.Pkg), vars: map[string]SV{}, st: st, old: st, a0: st.alloc}
		V.tolerate("axiom "+a.Label, func() {
			t := env.bool(a.E)
			m := map[string]bool{}
			collectUFs([]*Term{t}, m)
			syms := map[string]bool{}
			for s := range m {
				if strings.HasPrefix(s, "uf:") || strings.HasPrefix(s, "rec:") || strings.HasPrefix(s, "str_") || strings.HasPrefix(s, "flt_") || strings.HasPrefix(s, "fold:") {
					syms[s] = true
				}
			}
			V.axTerms = append(V.axTerms, &axTerm{a, t, syms, a.Lemma})
		})
	}
	return nil
}

// tolerate: a specification definition that no longer fits the source is left out; what needs it then fails by itself.
func (V *Verifier) tolerate(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specError); ok {
				fmt.Printf("NOTE: %s does not fit the current source: %s\n", what, string(s))
				return
			}
			panic(r)
		}
	}()
	f()
}

// ---------------------------------------------------------------------------
// results

type Obligation struct {
	Func    string   `json:"function"`
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	VCs     int      `json:"vcs"`
	Status  string   `json:"status"` // discharged, failed, error
	Solvers []string `json:"solvers,omitempty"`
	TimeMS  int64    `json:"solver_ms"`
	Pos     string   `json:"pos,omitempty"`
	Detail  string   `json:"detail,omitempty"`
	Trace   []string `json:"path,omitempty"`
	Model   string   `json:"-"`
	Script  string   `json:"-"`
}

type FuncReport struct {
	Func    string        `json:"function"`
	Props   []string      `json:"props"`
	Paths   int           `json:"paths"`
	Loops   int           `json:"loops"`
	Inlined []string      `json:"inlined,omitempty"`
	Calls   []string      `json:"callee_contracts,omitempty"`
	Assumed []string      `json:"assumed,omitempty"`
	Obls    []*Obligation `json:"-"`
	Error   string        `json:"error,omitempty"`
	Skipped string        `json:"skipped,omitempty"`
	Trivial int           `json:"trivially_true_vcs"`
}

func (V *Verifier) findFunc(c *Contract) *ssa.Function {
	if f := V.P.fns[c.Pkg+"::"+c.Key]; f != nil {
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			// pick an instance, deterministically
			var names []string
			for n, g := range V.P.fns {
				if g.Origin() == f && g != f {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			if len(names) > 0 {
				return V.P.fns[names[0]]
			}
		}
		return f
	}
	return nil
}

func (V *Verifier) verifyFunc(c *Contract) (rep *FuncReport) {
	rep = &FuncReport{Func: c.full(), Props: c.Props}
	fn := V.findFunc(c)
	if fn == nil {
		rep.Skipped = "function not found in the current source"
		return rep
	}
	start := time.Now()
	for attempt := 0; ; attempt++ {
		r, x := V.verifyOnce(c, fn, attempt)
		if r.ok() || x == nil || attempt >= 10 || os.Getenv("GOVER_ATTEMPTS") != "" {
			return r
		}
		if attempt == 0 {
			rep = r
		}
		if !deadline.IsZero() && time.Now().After(deadline) || time.Since(start) > 60*time.Second {
			return rep
		}
		// any alternative binding of specification variables left?
		total := 1
		for _, n := range x.metaCount {
			total *= n
			if total > 1000 {
				break
			}
		}
		if attempt+1 >= total || len(x.metaCount) == 0 {
			return rep
		}
	}
}

func (r *FuncReport) ok() bool {
	if r.Error != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "discharged" {
			return false
		}
	}
	return true
}

// attemptChoice: mixed-radix decoding of the attempt number, last variable first.
func attemptChoice(attempt int, counts map[string]int) map[string]int {
	m := map[string]int{}
	ks := sortedKeys(counts)
	for i := len(ks) - 1; i >= 0; i-- {
		n := counts[ks[i]]
		m[ks[i]] = attempt % n
		attempt /= n
	}
	return m
}

func (V *Verifier) verifyOnce(c *Contract, fn *ssa.Function, attempt int) (rep *FuncReport, xx *Exec) {
	rep = &FuncReport{Func: c.full(), Props: c.Props}
	x := &Exec{V: V, c: c, fn: fn, loops: map[string]*LoopInfo{}, metaChoice: map[string]int{}, metaCount: map[string]int{},
		calls: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, maxPaths: 1500}
	if c.MaxPaths > 0 {
		x.maxPaths = c.MaxPaths
	}
	timeout := 10 * time.Second
	if c.Timeout > 0 {
		timeout = time.Duration(c.Timeout) * time.Second
	}
	defer func() {
		if r := recover(); r != nil {
			switch s := r.(type) {
			case unsupported:
				rep.Error = "unsupported: " + string(s)
			case specError:
				rep.Error = "contract: " + string(s)
			default:
				if os.Getenv("GOVER_PANIC") != "" {
					panic(r)
				}
				rep.Error = fmt.Sprintf("internal: %v", r)
			}
			rep.Obls = append(rep.Obls, &Obligation{Func: rep.Func, Name: "generation", Kind: "error", VCs: 1, Status: "error", Detail: rep.Error})
		}
	}()
	native := c.Native
	for round := 0; ; round++ {
		if round > 40 {
			panic(unsup("loop analysis does not stabilise"))
		}
		x.metaCount0(attempt)
		x.explore()
		if x.dirty {
			continue
		}
		// candidates
		var cs []*VC
		for _, v := range x.vcs {
			if v.Kind == "cand" {
				cs = append(cs, v)
			}
		}
		dropped := false
		if len(cs) > 0 {
			var wg sync.WaitGroup
			var mu sync.Mutex
			next := 0
			for w := 0; w < 8; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						mu.Lock()
						for next < len(cs) && cs[next].info.dropped[cs[next].cand] {
							next++ // already given up
						}
						if next >= len(cs) {
							mu.Unlock()
							return
						}
						v := cs[next]
						next++
						mu.Unlock()
						r := V.proveQuick(v.Hyps, v.Hist, v.Goal, native)
						if r.Status == "unsat" {
							continue
						}
						mu.Lock()
						if !v.info.dropped[v.cand] {
							v.info.dropped[v.cand] = true
							dropped = true
							if V.verbose {
								fmt.Fprintf(os.Stderr, "  drop %s %s\n", v.info.key, v.cand)
							}
						}
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
		}
		if !dropped {
			break
		}
	}
	xx = x
	rep.Paths = x.paths
	rep.Loops = len(x.loops)
	rep.Inlined = keysOf(x.inlined)
	rep.Calls = keysOf(x.calls)
	rep.Assumed = keysOf(x.assumed)
	for k, n := range V.trivial {
		if strings.HasPrefix(k, c.full()+"/") {
			rep.Trivial += n
		}
	}
	for n := range c.Loops {
		if n > x.ords {
			// a loop with invariants disappeared: fine, nothing to check
		}
	}
	// main VCs, grouped by name
	groups := map[string][]*VC{}
	var order []string
	for _, v := range x.vcs {
		if v.Kind == "cand" {
			continue
		}
		n := v.Name
		if v.Kind == "safety" {
			n = v.Name
		}
		if groups[n] == nil {
			order = append(order, n)
		}
		groups[n] = append(groups[n], v)
	}
	// obligations that were syntactically true on every path still count
	for _, e := range trivialNames(V, c) {
		if groups[e] == nil {
			order = append(order, e)
			groups[e] = []*VC{}
		}
	}
	if os.Getenv("GOVER_COUNT") != "" {
		for _, n := range order {
			fmt.Printf("  count %4d %s\n", len(dedupe(groups[n])), n)
		}
		if k := os.Getenv("GOVER_COUNT"); k != "1" {
			for _, v := range groups[k] {
				fmt.Printf("---\n%s\n  PC:\n", v.Goal)
				for _, h := range v.Hyps {
					fmt.Println("    ", h)
				}
			}
		}
		os.Exit(0)
	}
	if k := os.Getenv("GOVER_ONLYVC"); k != "" {
		var o2 []string
		for _, n := range order {
			if strings.Contains(n, k) {
				o2 = append(o2, n)
			}
		}
		order = o2
	}
	obls := make([]*Obligation, len(order))
	var wg sync.WaitGroup
	for gi, n := range order {
		vs := dedupe(groups[n])
		o := &Obligation{Func: rep.Func, Name: n, VCs: len(vs), Status: "discharged"}
		obls[gi] = o
		if len(vs) == 0 {
			o.Kind = "simplifier"
			o.Solvers = []string{"simplifier"}
			continue
		}
		o.Kind = vs[0].Kind
		o.Pos = vs[0].Pos
		var omu sync.Mutex
		for _, v := range vs {
			wg.Add(1)
			go func(v *VC) {
				defer wg.Done()
				omu.Lock()
				bad := o.Status != "discharged"
				omu.Unlock()
				if bad {
					return
				}
				r := V.prove(v.Hyps, v.Hist, v.Goal, native, timeout, len(V.axTerms))
				omu.Lock()
				defer omu.Unlock()
				o.TimeMS += r.Time.Milliseconds()
				if r.Status == "unsat" {
					if !contains(o.Solvers, r.Solver) {
						o.Solvers = append(o.Solvers, r.Solver)
					}
					return
				}
				if o.Status == "discharged" {
					o.Status = "failed"
					o.Detail = r.Solver + ": " + r.Status
					o.Trace = v.Trace
					o.Pos = v.Pos
					o.Model = r.Model
					V.mu.Lock()
					ts := append(append([]*Term{}, v.Hyps...), Not(v.Goal))
					bg := V.background(ts, v.Hist, len(V.axTerms), 1)
					o.Script = Script(append(bg, ts...), native, "(check-sat)\n")
					V.mu.Unlock()
				}
			}(v)
		}
	}
	wg.Wait()
	// undecided obligations get a second, longer attempt when they are few
	var again []int
	for gi, o := range obls {
		if o.Status != "discharged" && strings.HasSuffix(o.Detail, "unknown") {
			again = append(again, gi)
		}
	}
	if len(again) > 0 && len(again) <= 3 && os.Getenv("GOVER_FAST") == "" {
		for _, gi := range again {
			o := obls[gi]
			vs := dedupe(groups[o.Name])
			ok := true
			var owg sync.WaitGroup
			var omu sync.Mutex
			for _, v := range vs {
				owg.Add(1)
				go func(v *VC) {
					defer owg.Done()
					omu.Lock()
					stop := !ok
					omu.Unlock()
					if stop {
						return
					}
					r := V.prove(v.Hyps, v.Hist, v.Goal, native, 2*timeout, len(V.axTerms))
					omu.Lock()
					defer omu.Unlock()
					o.TimeMS += r.Time.Milliseconds()
					if r.Status != "unsat" {
						ok = false
					} else if !contains(o.Solvers, r.Solver) {
						o.Solvers = append(o.Solvers, r.Solver)
					}
				}(v)
			}
			owg.Wait()
			if ok {
				o.Status, o.Detail, o.Trace, o.Model, o.Script = "discharged", "", nil, "", ""
			}
		}
	}
	rep.Obls = obls
	// vacuity: some return path must not be contradictory
	if len(x.covers) > 0 && attempt == 0 {
		o := &Obligation{Func: rep.Func, Name: "cover[some return path is consistent]", Kind: "cover", VCs: 1, Status: "failed"}
		for i, v := range x.covers {
			if i >= 6 {
				o.Status = "failed"
				break
			}
			r := V.coverCheck(v.Hyps, native)
			o.TimeMS += r.Time.Milliseconds()
			if r.Status != "unsat" {
				o.Status = "discharged"
				o.Solvers = []string{r.Solver + "(" + r.Status + ")"}
				break
			}
		}
		if o.Status == "failed" {
			o.Detail = "every explored return path is contradictory: the contract is vacuous"
		}
		rep.Obls = append(rep.Obls, o)
	}
	return rep, x
}

func (x *Exec) metaCount0(attempt int) {
	if attempt > 0 && len(x.metaCount) > 0 {
		x.metaChoice = attemptChoice(attempt, x.metaCount)
	} else if attempt > 0 {
		// counts are known only after a first exploration
		x.explore()
		x.metaChoice = attemptChoice(attempt, x.metaCount)
	}
}

func (V *Verifier) coverCheck(hyps []*Term, native bool) Result {
	V.mu.Lock()
	bg := V.background(hyps, nil, len(V.axTerms), 1)
	if native {
		bg = nativeFilter(bg)
	}
	script := Script(append(bg, hyps...), native, "(check-sat)\n")
	V.mu.Unlock()
	solverSem <- struct{}{}
	st, out, d := runSolver(context.Background(), "z3-new-noauto", script, time.Second)
	<-solverSem
	return Result{st, "z3-new", d, out}
}

func (V *Verifier) proveQuick(hyps []*Term, hist []histEv, goal *Term, native bool) Result {
	V.mu.Lock()
	ts := append(append([]*Term{}, hyps...), Not(goal))
	bg := V.background(ts, hist, len(V.axTerms), 1)
	if native {
		bg = nativeFilter(bg)
	}
	script := Script(append(bg, ts...), native, "(check-sat)\n")
	var js []job
	if !native {
		for _, sh := range parts(hyps, goal) {
			ts := append(append([]*Term{}, sh...), Not(goal))
			js = append(js, job{"z3-new", Script(append(V.background(ts, hist, len(V.axTerms), 1), ts...), false, "(check-sat)\n"), true})
		}
	}
	V.mu.Unlock()
	if native {
		return race([]string{"z3-new", "cvc5-str"}, script, 4*time.Second)
	}
	js = append(js, job{"z3-new-noauto", script, false}, job{"z3-new", script, false}, job{"cvc5-enum", script, false})
	return raceJobs(js, 4*time.Second)
}

func dedupe(vs []*VC) []*VC {
	seen := map[string]bool{}
	var out []*VC
	for _, v := range vs {
		k := fmt.Sprintf("%d", v.Goal.id)
		for _, h := range v.Hyps {
			k += fmt.Sprintf(",%d", h.id)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	return out
}

func trivialNames(V *Verifier, c *Contract) []string {
	var out []string
	p := c.full() + "/"
	for _, k := range sortedKeys(V.trivial) {
		if strings.HasPrefix(k, p) {
			n := k[len(p):]
			if strings.HasPrefix(n, "ensures") || strings.Contains(n, "/invariant") {
				out = append(out, n)
			}
		}
	}
	return out
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// lemmas
func (V *Verifier) verifyLemma(i int) *Obligation {
	a := V.axTerms[i]
	r := V.prove(nil, nil, a.t, false, 20*time.Second, i)
	o := &Obligation{Func: "lemma", Name: a.def.Label, Kind: "lemma", VCs: 1, Status: "discharged", Solvers: []string{r.Solver}, TimeMS: r.Time.Milliseconds()}
	if r.Status != "unsat" {
		o.Status = "failed"
		o.Detail = r.Status
		o.Model = r.Model
	}
	return o
}
