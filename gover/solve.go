package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Result struct {
	Status string // unsat, sat, unknown
	Solver string
	Time   time.Duration
	Model  string
}

var tmpDir string
var fileNo int
var fileMu sync.Mutex

func runSolver(parent context.Context, name string, script string, timeout time.Duration) (string, string, time.Duration) {
	if parent.Err() != nil {
		return "unknown", "cancelled", 0
	}
	fileMu.Lock()
	fileNo++
	f := filepath.Join(tmpDir, fmt.Sprintf("vc%d.smt2", fileNo))
	fileMu.Unlock()
	if err := os.WriteFile(f, []byte(script), 0o644); err != nil {
		return "unknown", err.Error(), 0
	}
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(parent, timeout+2*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	secs := int(timeout.Seconds())
	if secs < 1 {
		secs = 1
	}
	switch name {
	case "z3-new":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", secs), "-memory:3000", f)
	case "z3-new-noauto":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", secs), "-memory:3000", "smt.mbqi=false", "auto_config=false", f)
	case "z3-new-7":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", secs), "-memory:3000", "smt.random_seed=7", "sat.random_seed=7", f)
	case "z3":
		cmd = exec.CommandContext(ctx, "z3", fmt.Sprintf("-T:%d", secs), "-memory:3000", f)
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), "--lang=smt2", "--arrays-exp", f)
	case "cvc5-enum":
		cmd = exec.CommandContext(ctx, "cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), "--lang=smt2", "--arrays-exp", "--enum-inst", f)
	case "cvc5-str":
		cmd = exec.CommandContext(ctx, "cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), "--lang=smt2", "--strings-exp", "--arrays-exp", f)
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	s := out.String()
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	switch first {
	case "unsat", "sat":
		rest := ""
		if i := strings.Index(s, "\n"); i > 0 {
			rest = s[i+1:]
		}
		return first, rest, d
	}
	return "unknown", s, d
}

func collectUFs(ts []*Term, into map[string]bool) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Kind == KApp && C.ufs[t.Op] != nil {
			into[t.Op] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, p := range t.Pats {
			for _, q := range p {
				walk(q)
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
}

func collectConsts(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Kind == KConst {
			out = append(out, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func groundApps(ts []*Term, prefix string) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Kind == KApp && strings.HasPrefix(t.Op, prefix) && !t.open {
			out = append(out, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// openApps: applications under quantifiers too
func anyApps(ts []*Term, prefix string) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Kind == KApp && strings.HasPrefix(t.Op, prefix) {
			out = append(out, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// abstractArg replaces the one open argument of a that is not a variable by v.
func abstractArg(a *Term, from int, v *Term) *Term {
	args := append([]*Term{}, a.Args...)
	ch := false
	for i := from; i < len(args); i++ {
		if args[i].open && args[i].Kind != KBound {
			args[i] = v
			ch = true
		}
	}
	if !ch {
		return a
	}
	return AppUF(a.Op, a.Sort, args...)
}

// background returns hypotheses implied by the contract language semantics and the specification axioms.
func (V *Verifier) background(ts []*Term, hist []histEv, lemmaLimit int, fuel int) []*Term {
	all := append([]*Term{}, ts...)
	var out []*Term
	addAll := func(xs ...*Term) {
		out = append(out, xs...)
		all = append(all, xs...)
	}
	// recursive functions: ground unfolding
	done := map[*Term]bool{}
	for i := 0; i < fuel; i++ {
		apps := groundApps(all, "rec:")
		for _, a := range apps {
			if !done[a] {
				done[a] = true
				addAll(V.unfoldRec(a))
			}
		}
		if i == 0 {
			// applications under quantifiers whose heap arguments are closed: quantified definition instance
			for _, a := range anyApps(all, "rec:") {
				if !a.open || done[a] {
					continue
				}
				done[a] = true
				ri := V.recs[strings.TrimPrefix(a.Op, "rec:")]
				bad := false
				for _, h := range a.Args[:len(ri.heaps)] {
					bad = bad || h.open
				}
				// only variables that occur as whole arguments can be matched
				var vs []*Term
				nv := 0
				for _, b := range a.Args[len(ri.heaps):] {
					if b.Kind == KBound {
						vs = append(vs, b)
						nv++
					} else if b.open {
						nv++
						vs = append(vs, BoundVar("rv!rec", b.Sort))
					}
				}
				if bad || nv == 0 || nv > 1 {
					continue
				}
				if ai := abstractArg(a, len(ri.heaps), vs[0]); ai != a { // an argument computed from a bound variable: any value of it
					if done[ai] {
						continue
					}
					done[ai] = true
					a = ai
				}
				addAll(Forall(vs, V.unfoldRec(a), []*Term{a}))
			}
		}
	}
	// spec axioms, to a fixpoint on used symbols
	incl := map[int]bool{}
	for {
		used := map[string]bool{}
		collectUFs(all, used)
		n := 0
		for i, ax := range V.axTerms {
			if incl[i] || (ax.lemma && i >= lemmaLimit) {
				continue
			}
			hit := len(ax.syms) == 0
			for s := range ax.syms {
				if used[s] {
					hit = true
				}
			}
			if hit {
				incl[i] = true
				addAll(ax.t)
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	noFrame := append([]*Term{}, all...)
	addAll(V.frameFacts(all, hist)...)
	// folds
	seenF := map[string]bool{}
	for pass := 0; pass < 2; pass++ {
		for _, a := range groundApps(all, "fold:") {
			k := a.Op
			for _, b := range a.Args[:len(a.Args)-1] {
				k += fmt.Sprintf(",%d", b.id)
			}
			if !seenF[k] {
				seenF[k] = true
				addAll(V.foldAxioms(a)...)
			}
		}
		// applications under quantifiers with closed heap arguments: quantified over the open parameters
		for _, a := range anyApps(noFrame, "fold:") {
			if !a.open {
				continue
			}
			fi := V.foldByName[strings.TrimPrefix(a.Op, "fold:")]
			k, bad := "open "+a.Op, false
			for i, b := range a.Args[:len(a.Args)-1] {
				if i < len(fi.heaps) {
					bad = bad || b.open
				}
				if b.open {
					k += ",_"
				} else {
					k += fmt.Sprintf(",%d", b.id)
				}
			}
			if !bad && !seenF[k] {
				seenF[k] = true
				addAll(V.foldAxioms(a)...)
			}
		}
	}
	// initial heap arrays: closed, and nil maps are empty
	for _, c := range collectConsts(all) {
		if !strings.HasPrefix(c.Op, "H!") && !strings.HasPrefix(c.Op, "H[") {
			continue
		}
		i := strings.Index(c.Op, "!")
		ep := c.Op[1:i]
		if strings.HasPrefix(ep, "[") {
			j := strings.LastIndex(c.Op, "]!")
			ep, i = c.Op[1:j+1], j+1
		}
		name := c.Op[i+1:]
		a := V.epochAlloc[ep]
		if a == nil {
			a = Const("alloc0", SInt)
		}
		if f := closedFact(name, 0, c, a); f != tTrue {
			addAll(f)
		}
		if strings.HasPrefix(name, "MD:") {
			_, in := splitArr(c.Sort)
			addAll(Eq(Select(c, IntLit(0)), ConstArr(in, tFalse)))
		}
	}
	used := map[string]bool{}
	collectUFs(all, used)
	if used["abnd"] {
		addAll(abndAxioms()...)
		collectUFs(all, used)
	}
	for n := range used {
		if strings.HasPrefix(n, "mget:") {
			u := C.ufs[n]
			d, v, k := BoundVar("D!m", u.Args[0]), BoundVar("V!m", u.Args[1]), BoundVar("k!m", u.Args[2])
			e := AppUF(n, u.Ret, d, v, k)
			addAll(Forall([]*Term{d, v, k}, Eq(e, Ite(Select(d, k), Select(v, k), mgetZero[n])), []*Term{e}))
		}
		if strings.HasPrefix(n, "card:") {
			u := C.ufs[n]
			addAll(Eq(AppUF(n, SInt, ConstArr(u.Args[0], tFalse)), IntLit(0)))
		}
		if strings.HasPrefix(n, "elem:") {
			u := C.ufs[n]
			a, o, i := BoundVar("A!e", u.Args[0]), BoundVar("o!e", SInt), BoundVar("i!e", SInt)
			e := AppUF(n, u.Ret, a, o, i)
			addAll(Forall([]*Term{a, o, i}, Eq(e, Select(a, Add(o, i))), []*Term{e}))
		}
	}
	if used["str_len"] {
		s := BoundVar("s!l", SStr)
		addAll(Forall([]*Term{s}, Le(IntLit(0), AppUF("str_len", SInt, s)), []*Term{AppUF("str_len", SInt, s)}))
	}
	if used["str_cat"] && used["str_len"] {
		s, t := BoundVar("s!l", SStr), BoundVar("t!l", SStr)
		c := AppUF("str_cat", SStr, s, t)
		addAll(Forall([]*Term{s, t}, Eq(AppUF("str_len", SInt, c), Add(AppUF("str_len", SInt, s), AppUF("str_len", SInt, t))), []*Term{c}))
	}
	if used["str_lt"] {
		s, t := BoundVar("s!l", SStr), BoundVar("t!l", SStr)
		lt := AppUF("str_lt", SBool, s, t)
		addAll(Forall([]*Term{s, t}, Implies(lt, And(Not(AppUF("str_lt", SBool, t, s)), Not(Eq(s, t)))), []*Term{lt}))
		addAll(Forall([]*Term{s, t}, Or(lt, AppUF("str_lt", SBool, t, s), Eq(s, t)), []*Term{lt}))
	}
	out = append(out, typeFacts(func(n string) bool { return used[n] })...)
	return out
}

func nativeFilter(ts []*Term) []*Term {
	// drop axioms about uninterpreted string functions in native mode
	var out []*Term
	for _, t := range ts {
		if t.Kind == KQuant {
			skip := false
			for _, v := range t.Vars {
				if v.Op == "s!l" {
					skip = true
				}
			}
			if skip {
				continue
			}
		}
		out = append(out, t)
	}
	return out
}

var solverSem = make(chan struct{}, 8)

// prove checks hyps => goal.
func (V *Verifier) prove(hyps []*Term, hist []histEv, goal *Term, native bool, timeout time.Duration, lemmaLimit int) Result {
	var last Result
	var total time.Duration
	for _, fuel := range []int{1, 2} {
		V.mu.Lock()
		ts := append(append([]*Term{}, hyps...), Not(goal))
		nrec := len(anyApps(ts, "rec:"))
		bg := V.background(ts, hist, lemmaLimit, fuel)
		if native {
			bg = nativeFilter(bg)
		}
		script := Script(append(bg, ts...), native, "(check-sat)\n(get-model)\n")
		var sliced []string
		for _, sh := range parts(hyps, goal) {
			ts := append(append([]*Term{}, sh...), Not(goal))
			bg := V.background(ts, hist, lemmaLimit, fuel)
			if native {
				bg = nativeFilter(bg)
			}
			sliced = append(sliced, Script(append(bg, ts...), native, "(check-sat)\n"))
		}
		V.mu.Unlock()
		last = portfolio(script, sliced, native, timeout)
		total += last.Time
		last.Time = total
		if last.Status == "unsat" || nrec == 0 {
			return last
		}
	}
	return last
}

// slow scales every solver time limit (thorough tier).
var slow = 1

// race runs the solvers concurrently and returns the first definite answer; the others are stopped.
// deadline: after it no solver is started any more and what is left stays undecided.
var deadline time.Time

func race(names []string, script string, timeout time.Duration) Result {
	var js []job
	for _, n := range names {
		js = append(js, job{n, script, false})
	}
	return raceJobs(js, timeout)
}

// job: one solver on one script; part: the script has only a part of the hypotheses, so that only unsat counts.
type job struct {
	name, script string
	part         bool
}

func raceJobs(jobs []job, timeout time.Duration) Result {
	if !deadline.IsZero() {
		left := time.Until(deadline)
		if left < 200*time.Millisecond {
			return Result{"unknown", "time-budget", 0, ""}
		}
		if left < timeout {
			timeout = left
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct {
		n, st, out string
		d          time.Duration
		part       bool
	}
	ch := make(chan r, len(jobs))
	for _, j := range jobs {
		go func(j job) {
			solverSem <- struct{}{}
			st, out, d := runSolver(ctx, j.name, j.script, timeout)
			<-solverSem
			ch <- r{j.name, st, out, d, j.part}
		}(j)
	}
	res := Result{"unknown", jobs[0].name, 0, ""}
	var total time.Duration
	for range jobs {
		x := <-ch
		total += x.d
		if x.st == "unsat" {
			n := x.n
			if x.part {
				n += "(sliced)"
			}
			return Result{"unsat", n, total, ""}
		}
		if x.st == "sat" && !x.part && res.Status == "unknown" && x.n != "z3-new-noauto" {
			res = Result{"sat", x.n, total, x.out}
		}
	}
	res.Time = total
	return res
}

func portfolio(script string, sliced []string, native bool, timeout time.Duration) Result {
	timeout *= time.Duration(slow)
	quick := 3 * time.Second
	if timeout < quick {
		quick = timeout
	}
	first, names := []string{"z3-new", "z3-new-noauto", "cvc5-enum"}, []string{"z3-new-noauto", "cvc5", "z3", "cvc5-enum", "z3-new-7", "z3-new"}
	if native {
		first, names = []string{"z3-new", "cvc5-str"}, []string{"cvc5-str", "z3", "z3-new"}
	}
	var js []job
	for i, sc := range sliced {
		if i == 0 || !native {
			js = append(js, job{"z3-new", sc, true})
		}
	}
	for _, n := range first {
		js = append(js, job{n, script, false})
	}
	res := raceJobs(js, quick)
	if res.Status != "unknown" || os.Getenv("GOVER_FAST") != "" {
		return res
	}
	t := res.Time
	js = nil
	for _, sc := range sliced {
		js = append(js, job{names[0], sc, true}, job{names[1], sc, true})
	}
	for _, n := range names {
		js = append(js, job{n, script, false})
	}
	res = raceJobs(js, timeout)
	res.Time += t
	return res
}

// parts: subsets of the hypotheses that may be enough for the goal.
func parts(hyps []*Term, goal *Term) (out [][]*Term) {
	for _, depth := range []int{1, 3} {
		if sh := sliceHyps(hyps, goal, depth); len(sh) < len(hyps) {
			out = append(out, sh)
		}
	}
	if len(anyApps([]*Term{goal}, "rec:")) == 0 {
		var sh []*Term
		n := 0
		for _, h := range flatten(hyps) {
			if len(anyApps([]*Term{h}, "rec:")) > 0 {
				n++
				continue
			}
			sh = append(sh, h)
		}
		if n > 0 {
			out = append(out, sh)
		}
	}
	return
}

func flatten(hyps []*Term) (flat []*Term) {
	for _, h := range hyps {
		if h.Kind == KApp && h.Op == "and" {
			flat = append(flat, flatten(h.Args)...)
		} else {
			flat = append(flat, h)
		}
	}
	return
}

// sliceHyps keeps the hypotheses connected to the goal by rare constants, up to the given number of steps.
func sliceHyps(hyps []*Term, goal *Term, depth int) []*Term {
	var flat []*Term
	var split func(t *Term)
	split = func(t *Term) {
		if t.Kind == KApp && t.Op == "and" {
			for _, a := range t.Args {
				split(a)
			}
			return
		}
		flat = append(flat, t)
	}
	for _, h := range hyps {
		split(h)
	}
	cs := make([][]*Term, len(flat))
	freq := map[*Term]int{}
	for i, h := range flat {
		cs[i] = collectConsts([]*Term{h})
		for _, c := range cs[i] {
			freq[c]++
		}
	}
	rel := map[*Term]bool{}
	for _, c := range collectConsts([]*Term{goal}) {
		rel[c] = true
	}
	keep := make([]bool, len(flat))
	for d := 0; d < depth; d++ {
		var add []*Term
		for i := range flat {
			if keep[i] {
				continue
			}
			min := 1 << 30
			for _, c := range cs[i] {
				if freq[c] < min {
					min = freq[c]
				}
			}
			hit := len(cs[i]) == 0
			for _, c := range cs[i] {
				if rel[c] && freq[c] <= 2*min+1 {
					hit = true
				}
			}
			if hit {
				keep[i] = true
				add = append(add, cs[i]...)
			}
		}
		for _, c := range add {
			rel[c] = true
		}
	}
	var out []*Term
	for i, h := range flat {
		if keep[i] {
			out = append(out, h)
		}
	}
	return out
}

// heapFnHeaps: the heap arrays that are the leading arguments of a heap-reading specification function.
func (V *Verifier) heapFnHeaps(op string) ([]heapDesc, []types.Type) {
	switch {
	case strings.HasPrefix(op, "uf:"):
		u := V.spec.UFs[op[3:]]
		if u == nil || len(u.Reads) == 0 {
			return nil, nil
		}
		pkg := V.pkgOf(u.Pkg)
		var hs []heapDesc
		for _, r := range u.Reads {
			hs = append(hs, V.heapsOf(r, pkg)...)
		}
		var ts []types.Type
		for _, a := range u.Args {
			ts = append(ts, V.resolveType(a, pkg))
		}
		return hs, ts
	case strings.HasPrefix(op, "rec:"):
		if r := V.recs[op[4:]]; r != nil {
			return r.heaps, r.ptys
		}
	case strings.HasPrefix(op, "fold:"):
		if f := V.foldByName[op[5:]]; f != nil {
			return f.heaps, append(append([]types.Type{}, f.ptys...), nil)
		}
	}
	return nil, nil
}

func (e *SExpr) mentions(name string) bool {
	if e == nil {
		return false
	}
	if e.Name == name {
		return true
	}
	for _, a := range e.Args {
		if a.mentions(name) {
			return true
		}
	}
	return false
}

// frameFacts: a heap-reading specification function depends only on what is reachable from its arguments. When the
// heap arrays before and after a change agree on everything allocated up to the mark a (under which the old arrays
// were closed), the function has the same value on arguments allocated up to a.
func (V *Verifier) frameFacts(all []*Term, hist []histEv) []*Term {
	if len(hist) == 0 {
		return nil
	}
	tuples := map[string]map[string][]*Term{} // op -> key -> heap tuple
	sorts := map[string]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Kind == KApp && (strings.HasPrefix(t.Op, "uf:") || strings.HasPrefix(t.Op, "rec:") || strings.HasPrefix(t.Op, "fold:")) {
			hs, _ := V.heapFnHeaps(t.Op)
			if len(hs) > 0 {
				open := false
				k := ""
				for _, a := range t.Args[:len(hs)] {
					open = open || a.open
					k += fmt.Sprintf("%d,", a.id)
				}
				if !open {
					if tuples[t.Op] == nil {
						tuples[t.Op] = map[string][]*Term{}
					}
					tuples[t.Op][k] = t.Args[:len(hs)]
					sorts[t.Op] = t
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range all {
		walk(t)
	}
	var out []*Term
	for _, op := range sortedKeys(tuples) {
		if len(tuples[op]) < 2 {
			continue
		}
		hs, ptys := V.heapFnHeaps(op)
		idx := map[string]int{}
		cur := make([]*Term, len(hs))
		for i, h := range hs {
			idx[h.name] = i
			cur[i] = Const("H!"+h.name, h.sort)
		}
		type step struct {
			tup []*Term
			end []*Term
		}
		var steps []step
		marks := []*Term{Const("alloc0", SInt)}
		key := func(ts []*Term) string {
			k := ""
			for _, a := range ts {
				k += fmt.Sprintf("%d,", a.id)
			}
			return k
		}
		if len(tuples[op]) < 5 {
			tuples[op][key(cur)] = append([]*Term{}, cur...) // the heap at function entry links the others
		}
		for _, ev := range hist {
			i, ok := idx[ev.name]
			if !ev.all && !ok {
				if ev.name == "" {
					marks = append(marks, ev.alloc)
				}
				continue
			}
			marks = append(marks, ev.alloc)
			if tuples[op][key(cur)] != nil {
				var ms []*Term
				sm := map[*Term]bool{}
				for i := len(marks) - 1; i >= 0 && len(ms) < 5; i-- {
					if !sm[marks[i]] {
						sm[marks[i]] = true
						ms = append(ms, marks[i])
					}
				}
				if !sm[marks[0]] {
					ms = append(ms, marks[0])
				}
				steps = append(steps, step{append([]*Term{}, cur...), ms})
			}
			marks = []*Term{ev.alloc}
			if ev.all {
				for i, h := range hs {
					cur[i] = Const("H"+ev.epoch+"!"+h.name, h.sort)
				}
			} else {
				cur[i] = ev.after
			}
		}
		if tuples[op][key(cur)] != nil {
			steps = append(steps, step{append([]*Term{}, cur...), nil})
		}
		ex := sorts[op]
		for i := range steps {
			for j := i + 1; j < len(steps); j++ {
				if len(steps) > 5 && j != i+1 || key(steps[i].tup) == key(steps[j].tup) {
					continue
				}
				r := BoundVar("r!hf", SInt)
				var same []*Term
				for h := range hs {
					x, y := steps[i].tup[h], steps[j].tup[h]
					if x != y {
						same = append(same, Eq(Select(x, r), Select(y, r)))
					}
				}
				for _, a := range steps[i].end {
					var bv, conds []*Term
					for n, ty := range ptys {
						v := BoundVar(fmt.Sprintf("a%d!hf", n), ex.Args[len(hs)+n].Sort)
						bv = append(bv, v)
						if ty == nil {
							continue
						}
						if c := allocBound(ty, v, a); c != tTrue {
							conds = append(conds, c)
						}
					}
					f1 := AppUF(op, ex.Sort, append(append([]*Term{}, steps[i].tup...), bv...)...)
					f2 := AppUF(op, ex.Sort, append(append([]*Term{}, steps[j].tup...), bv...)...)
					agree := Forall([]*Term{r}, Implies(Le(r, a), And(same...)))
					out = append(out, Implies(agree, Forall(bv, Implies(And(conds...), Eq(f1, f2)), []*Term{f1}, []*Term{f2})))
				}
			}
		}
	}
	return out
}
