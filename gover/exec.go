package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Values

type Val interface{}

type Step struct {
	fld int        // struct field index, or -1
	idx *Term      // array index when fld < 0
	ty  types.Type // type of the container this step selects from
}

type Addr struct {
	kind  string // "field", "elem", "cell", "global"
	heap  string
	hsort Sort
	ref   *Term      // object / slice backing ref
	off   *Term      // elem: offset
	idx   *Term      // elem: index
	ty    types.Type // type of base value
	path  []Step
	pty   types.Type // type of the pointed-to value
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	bound ssa.Value
}

type Tuple []Val

type IterRef struct{ id string }

type Iter struct {
	m        *Term
	mty      types.Type
	visited  *Term
	domStart *Term
	n        *Term
	isStr    bool
}

type unsupported string

func unsup(f string, a ...any) unsupported { return unsupported(fmt.Sprintf(f, a...)) }

// ---------------------------------------------------------------------------
// State

type deferred struct {
	call  *ssa.CallCommon
	args  []Val
	fnv   Val
	instr ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	id     string
	regs   map[ssa.Value]Val
	binds  []Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	defers []deferred
	dest   ssa.Value // in the caller
	loops  []*ActiveLoop
	noret  bool
}

type ActiveLoop struct {
	info    *LoopInfo
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	spec    *LoopSpec
	entry   *State // heap/alloc snapshot at entry (frames not used)
	seq     int
	n       *Term
	meta    map[string]metaRef
	iter    string
	cands   []cand
	phiInit map[*ssa.Phi]*Term
}

type metaRef struct {
	depth int
	v     ssa.Value
	addr  bool
}

type cand struct {
	name string
	mk   func(st *State, fr *Frame) *Term
}

type State struct {
	V      *Verifier
	heap   map[string]*Term
	epoch  string
	alloc  *Term
	pc     []*Term
	pcset  map[*Term]bool
	frames []*Frame
	iters  map[string]*Iter
	names  map[string]int
	born   map[string]int
	seq    int
	clos   map[*Term]*Closure
	trace  []string
	locs   int
	fork   string
	hist   []histEv
}

// histEv records a change of a heap array on this path: the array before and after, and the allocation mark
// under which the heap was closed when the old array was last current.
type histEv struct {
	name  string
	after *Term
	alloc *Term
	all   bool
	epoch string
}

// histMark records an allocation mark at which the current heap is closed.
func (s *State) histMark() {
	s.hist = append(s.hist[:len(s.hist):len(s.hist)], histEv{alloc: s.alloc})
}

func (s *State) histAdd(name string, after, alloc *Term) {
	s.hist = append(s.hist[:len(s.hist):len(s.hist)], histEv{name: name, after: after, alloc: alloc})
}

func newState(V *Verifier) *State {
	return &State{V: V, heap: map[string]*Term{}, alloc: Const("alloc0", SInt), iters: map[string]*Iter{}, names: map[string]int{}, born: map[string]int{}, clos: map[*Term]*Closure{}, pcset: map[*Term]bool{}}
}

func (s *State) heapGet(name string, sort Sort) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	return Const("H"+s.epoch+"!"+name, sort)
}

// snapshot: heap only
func (s *State) snap() *State {
	c := &State{V: s.V, epoch: s.epoch, alloc: s.alloc}
	c.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		c.heap[k] = v
	}
	return c
}

func (s *State) clone() *State {
	c := *s
	c.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.pc = s.pc[:len(s.pc):len(s.pc)]
	c.pcset = make(map[*Term]bool, len(s.pcset))
	for k, v := range s.pcset {
		c.pcset[k] = v
	}
	c.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = append([]*ActiveLoop(nil), f.loops...)
		c.frames[i] = &g
	}
	c.iters = map[string]*Iter{}
	for k, v := range s.iters {
		x := *v
		c.iters[k] = &x
	}
	c.names = map[string]int{}
	for k, v := range s.names {
		c.names[k] = v
	}
	c.born = make(map[string]int, len(s.born))
	for k, v := range s.born {
		c.born[k] = v
	}
	c.clos = map[*Term]*Closure{}
	for k, v := range s.clos {
		c.clos[k] = v
	}
	c.trace = s.trace[:len(s.trace):len(s.trace)]
	return &c
}

func (s *State) assume(t *Term) {
	if t == tTrue || s.pcset[t] {
		return
	}
	s.pcset[t] = true
	if t.Kind == KApp && t.Op == "and" {
		for _, a := range t.Args {
			s.pcset[a] = true
		}
	}
	s.pc = append(s.pc, t)
}

// status of a condition under the path condition, syntactically
func (s *State) known(t *Term) (bool, bool) {
	if t == tTrue || s.pcset[t] {
		return true, true
	}
	if t == tFalse || s.pcset[Not(t)] {
		return false, true
	}
	return false, false
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// fresh constant named by location
func (s *State) fresh(hint string, sort Sort) *Term {
	key := hint
	if len(s.frames) > 0 {
		f := s.top()
		key = fmt.Sprintf("%s@%s%s.%d", hint, f.id, f.fn.Name(), s.instrNo(f))
	}
	key += "/" + shortSort(sort)
	n := s.names[key]
	s.names[key]++
	if n > 0 {
		key = fmt.Sprintf("%s~%d", key, n)
	}
	s.seq++
	s.born[key] = s.seq
	return Const(key, sort)
}

func shortSort(s Sort) string {
	if s == SInt || s == SBool || s == SStr || s == SAny || s == SSlice {
		return string(s)[:2]
	}
	h := uint32(2166136261)
	for _, c := range []byte(s) {
		h = (h ^ uint32(c)) * 16777619
	}
	return fmt.Sprintf("%x", h)
}

func (s *State) instrNo(f *Frame) int {
	n := 0
	if f.block != nil {
		n = f.block.Index*1000 + f.ip
	}
	return n
}

// ---------------------------------------------------------------------------
// heap writes with loop modification tracking

func (s *State) consts(t *Term, f func(name string)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Kind == KConst {
			f(t.Op)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
}

func (s *State) noteWrite(name string, ref *Term) {
	for _, f := range s.frames {
		for _, l := range f.loops {
			inv := true
			if ref != nil {
				s.consts(ref, func(n string) {
					if s.born[n] > l.seq {
						inv = false
					}
				})
			}
			m := l.info.mods[name]
			if m == nil {
				m = &modEntry{refs: map[*Term]bool{}}
				l.info.mods[name] = m
				s.V.x.dirty = true
			}
			if ref == nil || !inv {
				if !m.other {
					m.other = true
					s.V.x.dirty = true
				}
			} else if !m.refs[ref] {
				m.refs[ref] = true
				s.V.x.dirty = true
			}
		}
	}
}

type modEntry struct {
	refs  map[*Term]bool
	other bool
	sort  Sort
}

type LoopInfo struct {
	key     string
	ord     int
	mods    map[string]*modEntry
	all     bool
	dropped map[string]bool
}

func (s *State) heapSet(name string, sort Sort, ref, v *Term) {
	s.V.heapSorts[name] = sort
	s.noteWrite(name, ref)
	s.heap[name] = Store(s.heapGet(name, sort), ref, v)
	s.histAdd(name, s.heap[name], s.alloc)
}

func (s *State) globalSet(name string, v *Term) {
	s.V.heapSorts[name] = v.Sort
	s.noteWrite(name, IntLit(0))
	s.heap[name] = v
}

// havocAll forgets the whole heap.
func (s *State) havocAll() {
	for _, f := range s.frames {
		for _, l := range f.loops {
			if !l.info.all {
				l.info.all = true
				s.V.x.dirty = true
			}
		}
	}
	e := s.fresh("epoch", SInt)
	s.heap = map[string]*Term{}
	s.epoch = "[" + e.Op + "]"
	old := s.alloc
	s.hist = append(s.hist[:len(s.hist):len(s.hist)], histEv{all: true, epoch: s.epoch, alloc: old})
	s.alloc = s.fresh("alloc", SInt)
	s.assume(Le(old, s.alloc))
	s.V.epochAlloc[s.epoch] = s.alloc
}

func (s *State) newRef(hint string) *Term {
	s.histMark()
	r := Add(s.alloc, IntLit(1))
	s.alloc = r
	return r
}

// readFacts: a value read from the heap is well-formed and allocated.
func (s *State) readFacts(ty types.Type, v *Term, arr, ref *Term) {
	if v.open {
		return
	}
	s.assume(wfVal(ty, v))
	ab := allocBound(ty, v, s.alloc)
	if ab == tTrue {
		return
	}
	s.assume(ab)
}

// loopBound: in a loop that leaves the array untouched, what old memory holds was allocated before the loop.
func (s *State) loopBound(name string, sort Sort, ref *Term, ty types.Type, v *Term) {
	cur := s.heapGet(name, sort)
	for _, f := range s.frames {
		for _, l := range f.loops {
			if l.entry == nil || l.entry.heapGet(name, sort) != cur {
				continue
			}
			if ab := allocBound(ty, v, l.entry.alloc); ab != tTrue {
				s.assume(Implies(Le(ref, l.entry.alloc), ab))
			}
		}
	}
}

// ---------------------------------------------------------------------------
// Executor

type VC struct {
	Name  string
	Kind  string // ensures, requires, invariant, safety, frame, cover, cand
	Hyps  []*Term
	Goal  *Term
	Pos   string
	cand  string
	info  *LoopInfo
	Trace []string
	Hist  []histEv
}

type Exec struct {
	V          *Verifier
	c          *Contract
	fn         *ssa.Function
	loops      map[string]*LoopInfo
	ords       int
	dirty      bool
	vcs        []*VC
	paths      int
	metaChoice map[string]int
	metaCount  map[string]int
	calls      map[string]bool
	inlined    map[string]bool
	deadVA     map[*ssa.Alloc]bool
	assumed    map[string]bool
	covers     []*VC
	metaErr    string
	maxPaths   int
}

func (x *Exec) vc(st *State, kind, name string, goal *Term, pos token.Pos) {
	if goal == tTrue {
		x.V.trivial[x.c.full()+"/"+name]++
		return
	}
	if st.pcset[goal] || st.holds(goal, 0) {
		x.V.trivial[x.c.full()+"/"+name]++
		return
	}
	x.vcs = append(x.vcs, &VC{Name: name, Kind: kind, Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Hist: st.hist, Pos: x.V.pos(pos), Trace: st.trace[:len(st.trace):len(st.trace)]})
}

func (x *Exec) check(st *State, name string, cond *Term, pos token.Pos) {
	if x.c.Panics {
		st.assume(cond)
		return
	}
	x.vc(st, "safety", name, cond, pos)
	st.assume(cond)
}

func (c *Contract) full() string {
	switch c.Kind {
	case "extern":
		return c.Key
	}
	return c.Pkg + "::" + c.Key
}

// explore runs symbolic execution to completion (one exploration).
// isPkgInit: the synthetic package initialiser (runs once).
func isPkgInit(f *ssa.Function) bool {
	return f != nil && f.Name() == "init" && f.Synthetic != "" && f.Pkg != nil
}

func (x *Exec) explore() {
	x.vcs, x.covers = nil, nil
	x.dirty = false
	x.paths = 0
	x.ords = 0
	for _, l := range x.loops {
		l.ord = 0
	}
	V := x.V
	V.x = x
	st := newState(V)
	st.born["alloc0"] = 0
	st.assume(Le(IntLit(0), st.alloc))
	fr := &Frame{fn: x.fn, regs: map[ssa.Value]Val{}, id: ""}
	vars := map[string]SV{}
	if len(x.fn.Params) != len(x.c.Params) {
		panic(specErr("contract of %s names %d parameters, function has %d", x.c.Key, len(x.c.Params), len(x.fn.Params)))
	}
	for i, p := range x.fn.Params {
		t := Const("p!"+x.c.Params[i], sortOf(p.Type()))
		fr.regs[p] = t
		vars[x.c.Params[i]] = SV{t, p.Type()}
		st.assume(wfVal(p.Type(), t))
		st.assume(allocBound(p.Type(), t, st.alloc))
	}
	for i, fv := range x.fn.FreeVars {
		t := Const(fmt.Sprintf("fv!%d!%s", i, fv.Name()), sortOf(fv.Type()))
		fr.binds = append(fr.binds, t)
		vars[fv.Name()] = SV{t, fv.Type()}
		st.assume(wfVal(fv.Type(), t))
		st.assume(allocBound(fv.Type(), t, st.alloc))
		st.assume(Not(Eq(t, IntLit(0))))
	}
	if len(x.fn.Blocks) == 0 {
		panic(unsup("no body"))
	}
	env := &Env{V: V, pkg: V.pkgOf(x.c.Pkg), vars: vars, st: st, old: st, a0: st.alloc}
	if isPkgInit(x.fn) {
		st.assume(Not(st.heapGet("G:"+x.fn.Pkg.Pkg.Path()+".init$guard", SBool)))
	}
	for _, r := range x.c.Requires {
		st.assume(env.bool(r.E))
	}
	for _, r := range x.c.ClAssume {
		st.assume(env.bool(r.E))
	}
	x.V.entryVars = vars
	x.V.entryState = st.snap()
	fr.block = x.fn.Blocks[0]
	st.frames = []*Frame{fr}
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		more := x.runPath(s)
		for i := len(more) - 1; i >= 0; i-- {
			work = append(work, more[i])
		}
		x.paths++
		if x.paths > x.maxPaths {
			panic(unsup("more than %d paths", x.maxPaths))
		}
	}
}

// runPath steps a state until it ends or forks; returned states are continued (first one first).
func (x *Exec) runPath(st *State) []*State {
	for steps := 0; ; steps++ {
		if steps > 200000 {
			panic(unsup("path too long"))
		}
		fr := st.top()
		if fr.ip == 0 && fr.block != nil {
			// block entry handled by jump()
		}
		if fr.ip >= len(fr.block.Instrs) {
			panic("fell off block")
		}
		in := fr.block.Instrs[fr.ip]
		out, cont := x.step(st, fr, in)
		if cont {
			continue
		}
		return out
	}
}

func natLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := res[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					res[h] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[n] {
						continue
					}
					body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	return res
}

func (V *Verifier) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := V.loopCache[fn]; ok {
		return l
	}
	l := natLoops(fn)
	V.loopCache[fn] = l
	return l
}

// jump moves the frame to a block, handling phis and loop heads. Returns false when the path ends here.
func (x *Exec) jump(st *State, fr *Frame, to *ssa.BasicBlock) bool {
	from := fr.block
	// leave loops
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.body[to] {
			break
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	// phi values
	var phis []*ssa.Phi
	vals := map[*ssa.Phi]Val{}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals[p] = x.val(st, fr, p.Edges[pi])
	}
	body := x.V.loopsOf(fr.fn)[to]
	isHead := body != nil
	if isHead && len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == to {
		// back edge
		l := fr.loops[len(fr.loops)-1]
		for p, v := range vals {
			fr.regs[p] = v
		}
		fr.prev, fr.block, fr.ip = from, to, 0
		x.backEdge(st, fr, l)
		return false
	}
	for p, v := range vals {
		fr.regs[p] = v
	}
	fr.prev, fr.block, fr.ip = from, to, len(phis)
	if isHead {
		x.enterLoop(st, fr, to, body, phis)
	}
	return true
}

func (x *Exec) loopEnv(st *State, fr *Frame, l *ActiveLoop) *Env {
	vars := map[string]SV{}
	for k, v := range x.V.entryVars {
		vars[k] = v
	}
	vars["$n"] = SV{l.n, tyInt}
	if l.iter != "" {
		it := st.iters[l.iter]
		if it.mty != nil {
			vars["$visited"] = SV{it.visited, &SetType{under(it.mty).(*types.Map).Key()}}
			vars["$dom"] = SV{it.domStart, &SetType{under(it.mty).(*types.Map).Key()}}
			vars["$map"] = SV{it.m, it.mty}
		}
	}
	// enclosing loops of the contracted function
	var outer []*ActiveLoop
	for _, f := range st.frames {
		outer = append(outer, f.loops...)
	}
	for _, ol := range outer {
		if ol.seq == l.seq && ol.header == l.header || ol.info.ord == 0 {
			continue
		}
		vars[fmt.Sprintf("$n%d", ol.info.ord)] = SV{ol.n, tyInt}
		if ol.iter != "" {
			if it := st.iters[ol.iter]; it != nil && it.mty != nil {
				vars[fmt.Sprintf("$visited%d", ol.info.ord)] = SV{it.visited, &SetType{under(it.mty).(*types.Map).Key()}}
			}
		}
	}
	env := &Env{V: x.V, pkg: x.V.pkgOf(x.c.Pkg), vars: vars, st: st, old: x.V.entryState, a0: x.V.entryState.alloc}
	env.lentry = func(e *Env) *Env {
		c := *e
		c.vars = map[string]SV{}
		for k, v := range e.vars {
			c.vars[k] = v
		}
		c.st = l.entry
		c.vars["$n"] = SV{IntLit(0), tyInt}
		for n, m := range l.meta {
			if p, ok := m.v.(*ssa.Phi); ok && l.phiInit[p] != nil && !m.addr {
				c.vars[n] = SV{l.phiInit[p], p.Type()}
			} else if m.addr {
				ty := under(m.v.Type()).(*types.Pointer).Elem()
				if v, ok := st.frames[m.depth].regs[m.v]; ok {
					c.vars[n] = SV{x.term(st, x.load(l.entry, v, ty), ty), ty}
				}
			}
		}
		return &c
	}
	for n, m := range l.meta {
		f := st.frames[m.depth]
		v, ok := f.regs[m.v]
		if !ok {
			if c, isc := m.v.(*ssa.Const); isc {
				v = x.val(st, f, c)
			} else {
				for i, fv := range f.fn.FreeVars {
					if fv == m.v {
						v = f.binds[i]
					}
				}
			}
		}
		ty := m.v.Type()
		if m.addr {
			ty = under(ty).(*types.Pointer).Elem()
			v = x.load(st, v, ty)
		}
		env.vars[n] = SV{x.term(st, v, ty), ty}
	}
	// the states of the enclosing loops
	return env
}

func (x *Exec) enterLoop(st *State, fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi) {
	key := fr.id + fr.fn.Name() + fmt.Sprintf("#%d", h.Index)
	for _, f := range st.frames {
		for _, l := range f.loops {
			_ = l
		}
	}
	info := x.loops[key]
	if info == nil {
		info = &LoopInfo{key: key, mods: map[string]*modEntry{}, dropped: map[string]bool{}}
		x.loops[key] = info
	}
	if info.ord == 0 {
		x.ords++
		info.ord = x.ords
	}
	l := &ActiveLoop{info: info, header: h, body: body, spec: x.c.Loops[info.ord], meta: map[string]metaRef{}, phiInit: map[*ssa.Phi]*Term{}}
	// iterator in header?
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if r, ok := fr.regs[nx.Iter].(IterRef); ok {
				l.iter = r.id
			}
		}
	}
	l.n = IntLit(0)
	l.entry = st.snap()
	// metavariables
	if l.spec != nil {
		for _, v := range l.spec.Vars {
			x.bindMeta(st, fr, l, v, phis)
		}
	}
	for _, p := range phis {
		if t, ok := fr.regs[p].(*Term); ok {
			l.phiInit[p] = t
		}
	}
	// establish invariants
	if l.spec != nil {
		env := x.loopEnv(st, fr, l)
		for i, inv := range l.spec.Invs {
			x.vc(st, "invariant", fmt.Sprintf("loop%d/invariant%s/entry", info.ord, label(inv, i)), env.bool(inv.E), h.Instrs[0].Pos())
		}
	}
	// havoc
	st.seq++
	l.seq = st.seq
	fr.loops = append(fr.loops, l)
	l.n = st.fresh("n", SInt)
	st.assume(Le(IntLit(0), l.n))
	a := st.fresh("allocL", SInt)
	st.assume(Le(st.alloc, a))
	st.alloc = a
	if info.all {
		st.heap = map[string]*Term{}
		st.epoch = "[" + st.fresh("epochL", SInt).Op + "]"
		x.V.epochAlloc[st.epoch] = st.alloc
		st.hist = append(st.hist[:len(st.hist):len(st.hist)], histEv{all: true, epoch: st.epoch, alloc: l.entry.alloc})
	} else {
		for _, name := range sortedKeys(info.mods) {
			m := info.mods[name]
			hs, ok := x.V.heapSorts[name]
			if !ok {
				continue
			}
			cur := l.entry.heapGet(name, hs)
			if strings.HasPrefix(name, "G:") {
				st.heap[name] = st.fresh("HL!"+name, hs)
				continue
			}
			_, vs := splitArr(hs)
			refs := sortedTerms(m.refs)
			if !m.other {
				t := cur
				for i, r := range refs {
					nb := st.fresh(fmt.Sprintf("HL!%s!%d", name, i), vs)
					t = Store(t, r, nb)
					st.assume(closedFact(name, 1, nb, st.alloc))
					if strings.HasPrefix(name, "MD:") {
						st.assume(Implies(Eq(r, IntLit(0)), Eq(nb, ConstArr(vs, tFalse))))
					}
				}
				st.heap[name] = t
				st.histAdd(name, t, l.entry.alloc)
				continue
			}
			nb := st.fresh("HL!"+name, hs)
			st.assume(closedFact(name, 0, nb, st.alloc))
			st.heap[name] = nb
			st.histAdd(name, nb, l.entry.alloc)
			name := name
			entryAlloc := l.entry.alloc
			l.cands = append(l.cands, cand{"frame:" + name, func(s *State, f *Frame) *Term {
				r := BoundVar("r!fr", SInt)
				conds := []*Term{Le(r, entryAlloc)}
				for _, q := range refs {
					conds = append(conds, Not(Eq(r, q)))
				}
				hcur := s.heapGet(name, hs)
				return Forall([]*Term{r}, Implies(And(conds...), Eq(Select(hcur, r), Select(cur, r))), []*Term{Select(hcur, r)})
			}})
			if fa := x.V.entryState; fa != nil && fa.alloc != entryAlloc {
				fnAlloc := fa.alloc
				l.cands = append(l.cands, cand{"fnframe:" + name, func(s *State, f *Frame) *Term {
					r := BoundVar("r!fr", SInt)
					conds := []*Term{Le(r, fnAlloc)}
					for _, q := range refs {
						conds = append(conds, Not(Eq(r, q)))
					}
					hcur := s.heapGet(name, hs)
					return Forall([]*Term{r}, Implies(And(conds...), Eq(Select(hcur, r), Select(cur, r))), []*Term{Select(hcur, r)})
				}})
			}
		}
	}
	st.histMark()
	for _, p := range phis {
		s := sortOf(p.Type())
		if _, isTerm := fr.regs[p].(*Term); !isTerm {
			switch fr.regs[p].(type) {
			case *Closure, *Addr:
				// loop-carried closure or interior pointer: keep only if invariant
				inv := true
				for i, e := range p.Edges {
					if h.Dominates(h.Preds[i]) && e != p {
						inv = false
					}
				}
				if inv {
					continue
				}
				panic(unsup("loop-carried interior pointer or closure"))
			}
		}
		c := st.fresh("phi!"+p.Comment, s)
		fr.regs[p] = c
		st.assume(wfVal(p.Type(), c))
		st.assume(allocBound(p.Type(), c, st.alloc))
		x.autoPhi(st, fr, l, p, c, phis)
	}
	// loop-carried registers defined inside the loop are unreachable at head, except through phis
	if l.iter != "" {
		it := st.iters[l.iter]
		if it.mty != nil {
			ks := sortOf(under(it.mty).(*types.Map).Key())
			start := it.visited
			it.visited = st.fresh("visited", ArrSort(ks, SBool))
			k := BoundVar("k!v", ks)
			d := Select(st.heapGet(mapDom(it.mty), mapDomSort(it.mty)), it.m)
			if start.Op == "constarr" {
				st.assume(Eq(cardOf(it.visited), l.n))
				st.assume(Eq(Eq(l.n, IntLit(0)), Eq(it.visited, start)))
			}
			same := Eq(d, it.domStart)
			st.assume(Implies(same, Forall([]*Term{k}, Implies(Select(it.visited, k), Select(it.domStart, k)), []*Term{Select(it.visited, k)})))
			st.assume(Implies(same, Le(cardOf(it.visited), cardOf(it.domStart))))
		}
	}
	for _, cd := range l.cands {
		if info.dropped[cd.name] || x.c.NoAuto {
			continue
		}
		// entry check
		es := l.entry
		_ = es
		st.assume(cd.mk(st, fr))
	}
	if l.spec != nil {
		env := x.loopEnv(st, fr, l)
		for _, inv := range l.spec.Invs {
			st.assume(env.bool(inv.E))
		}
		for i, hx := range l.spec.HintsTop {
			t := env.bool(hx.E)
			x.vc(st, "hint", fmt.Sprintf("loop%d/hinttop%s", info.ord, label(hx, i)), t, h.Instrs[0].Pos())
			st.assume(t)
		}
	}
}

func (x *Exec) backEdge(st *State, fr *Frame, l *ActiveLoop) {
	save := l.n
	l2 := *l
	l2.n = Add(save, IntLit(1))
	if l.spec != nil {
		env := x.loopEnv(st, fr, &l2)
		for i, hx := range l.spec.Hints {
			t := env.bool(hx.E)
			x.vc(st, "hint", fmt.Sprintf("loop%d/hint%s", l.info.ord, label(hx, i)), t, l.header.Instrs[0].Pos())
			st.assume(t)
		}
		for i, inv := range l.spec.Invs {
			t := env.bool(inv.E)
			x.vc(st, "invariant", fmt.Sprintf("loop%d/invariant%s/preserved", l.info.ord, label(inv, i)), t, l.header.Instrs[0].Pos())
			st.assume(t) // later ones may use earlier ones: each is still proved
		}
	}
	for _, cd := range l.cands {
		if l.info.dropped[cd.name] || x.c.NoAuto {
			continue
		}
		g := cd.mk(st, fr)
		if g == tTrue || st.pcset[g] {
			continue
		}
		x.vcs = append(x.vcs, &VC{Name: fmt.Sprintf("loop%d/auto:%s", l.info.ord, cd.name), Kind: "cand", Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: g, Hist: st.hist, cand: cd.name, info: l.info})
	}
}

// autoPhi adds syntactically justified facts and Houdini candidates for a loop phi.
func (x *Exec) autoPhi(st *State, fr *Frame, l *ActiveLoop, p *ssa.Phi, c *Term, phis []*ssa.Phi) {
	h := l.header
	init := l.phiInit[p]
	if init == nil {
		return
	}
	if c.Sort == SInt {
		if b, ok := under(p.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			var step *int64
			ok := true
			for i, e := range p.Edges {
				if !h.Dominates(h.Preds[i]) {
					continue
				}
				bo, isb := e.(*ssa.BinOp)
				if !isb || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != p {
					ok = false
					break
				}
				cst, isc := bo.Y.(*ssa.Const)
				if !isc {
					ok = false
					break
				}
				n := cst.Int64()
				if bo.Op == token.SUB {
					n = -n
				}
				if step != nil && *step != n {
					ok = false
					break
				}
				step = &n
			}
			if ok && step != nil {
				st.assume(Eq(c, Add(init, Mul(IntLit(*step), l.n))))
				// bound from the header condition
				if iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If); isIf {
					if cmp, isb := iff.Cond.(*ssa.BinOp); isb && (cmp.Op == token.LSS || cmp.Op == token.LEQ || cmp.Op == token.GTR || cmp.Op == token.GEQ) {
						bound := func(s *State, f *Frame) (*Term, bool) {
							v := cmp.Y
							if in, isin := v.(ssa.Instruction); isin && l.body[in.Block()] {
								// len(x) evaluated in the loop: recompute when the operand is outside
								if call, isc := v.(*ssa.Call); isc {
									if b, isb := call.Call.Value.(*ssa.Builtin); isb && b.Name() == "len" {
										a := call.Call.Args[0]
										if ai, isi := a.(ssa.Instruction); !isi || !l.body[ai.Block()] || ai.Block() == h {
											if av, has := f.regs[a]; has || !isi {
												if !has {
													av = x.val(s, f, a)
												}
												if t, ist := av.(*Term); ist && t.Sort != SInt {
													return x.lenTerm(s, t, a.Type()), true
												}
											}
										}
									}
								}
								return nil, false
							}
							t, ok := x.val(s, f, v).(*Term)
							return t, ok
						}
						isNext := func(v ssa.Value) bool { // phi+step computed in the header
							bo, ok := v.(*ssa.BinOp)
							return ok && bo.X == p && bo.Block() == h
						}
						if _, ok := bound(st, fr); ok && (cmp.X == ssa.Value(p) || isNext(cmp.X)) {
							strictHead := isNext(cmp.X) // value of phi itself satisfied the previous test
							op := cmp.Op
							l.cands = append(l.cands, cand{"bound:" + p.Name(), func(s *State, f *Frame) *Term {
								b, ok := bound(s, f)
								if !ok {
									return tTrue
								}
								cur := f.regs[p].(*Term)
								var t *Term
								switch {
								case op == token.LSS && strictHead:
									t = Lt(cur, b)
								case op == token.LSS:
									t = Le(cur, b)
								case op == token.LEQ && strictHead:
									t = Le(cur, b)
								case op == token.LEQ:
									t = Le(cur, Add(b, IntLit(1)))
								case op == token.GTR && strictHead:
									t = Lt(b, cur)
								case op == token.GTR:
									t = Le(b, cur)
								case op == token.GEQ && strictHead:
									t = Le(b, cur)
								default:
									t = Le(Sub(b, IntLit(1)), cur)
								}
								// only from the second iteration on for phis whose initial value is unrelated
								return Or(Eq(cur, init), t)
							}})
						}
					}
				}
				return
			}
		}
	}
	if c.Sort == SSlice {
		ea := l.entry.alloc
		l.cands = append(l.cands, cand{"sref:" + p.Name(), func(s *State, f *Frame) *Term {
			t, ok := f.regs[p].(*Term)
			if !ok {
				return tTrue
			}
			return Or(Eq(slRef(t), slRef(init)), Lt(ea, slRef(t)))
		}}, cand{"sown:" + p.Name(), func(s *State, f *Frame) *Term {
			t, ok := f.regs[p].(*Term)
			if !ok || x.V.entryState == nil {
				return tTrue
			}
			return Or(Eq(slCap(t), IntLit(0)), Lt(x.V.entryState.alloc, slRef(t)))
		}}, cand{"soff:" + p.Name(), func(s *State, f *Frame) *Term {
			t, ok := f.regs[p].(*Term)
			if !ok {
				return tTrue
			}
			return Or(Eq(slOff(t), IntLit(0)), Eq(slOff(t), slOff(init)))
		}}, cand{"snil:" + p.Name(), func(s *State, f *Frame) *Term {
			t, ok := f.regs[p].(*Term)
			if !ok {
				return tTrue
			}
			return Implies(Not(Eq(slRef(init), IntLit(0))), Not(Eq(slRef(t), IntLit(0))))
		}})
	}
	if c.Sort == SInt {
		switch under(p.Type()).(type) {
		case *types.Pointer, *types.Map:
			ea := l.entry.alloc
			l.cands = append(l.cands, cand{"pref:" + p.Name(), func(s *State, f *Frame) *Term {
				t, ok := f.regs[p].(*Term)
				if !ok {
					return tTrue
				}
				return Or(Eq(t, init), Lt(ea, t))
			}})
		}
	}
}

func label(c *Clause, i int) string {
	if c.Label != "" {
		return "[" + c.Label + "]"
	}
	return fmt.Sprintf("[%d]", i+1)
}

// debugNames maps SSA values to source names.
func (V *Verifier) debugNames(fn *ssa.Function) map[ssa.Value][]string {
	if m, ok := V.dbg[fn]; ok {
		return m
	}
	m := map[ssa.Value][]string{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok {
				if o := d.Object(); o != nil {
					m[d.X] = append(m[d.X], o.Name())
				}
			}
		}
	}
	V.dbg[fn] = m
	return m
}

func hasName(ns []string, n string) bool {
	for _, x := range ns {
		if x == n {
			return true
		}
	}
	return false
}

func (x *Exec) bindMeta(st *State, fr *Frame, l *ActiveLoop, v SVar, phis []*ssa.Phi) {
	want := x.V.resolveType(v.Type, x.V.pkgOf(x.c.Pkg))
	var named, rest []metaRef
	add := func(d int, val ssa.Value, names []string, isPhi bool) {
		ty := val.Type()
		if types.Identical(types.Unalias(ty), types.Unalias(want)) {
			if _, isT := st.frames[d].regs[val].(*Term); !isT {
				if _, isfv := val.(*ssa.FreeVar); !isfv {
					return
				}
			}
			m := metaRef{d, val, false}
			if hasName(names, v.Name) {
				named = append(named, m)
			} else {
				rest = append(rest, m)
			}
			return
		}
		if pt, ok := types.Unalias(ty).(*types.Pointer); ok && types.Identical(types.Unalias(pt.Elem()), types.Unalias(want)) {
			switch val.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
			default:
				return
			}
			m := metaRef{d, val, true}
			if hasName(names, v.Name) {
				named = append(named, m)
			} else {
				rest = append(rest, m)
			}
		}
	}
	for _, p := range phis {
		add(len(st.frames)-1, p, append([]string{p.Comment}, x.V.debugNames(fr.fn)[p]...), true)
	}
	for d := len(st.frames) - 1; d >= 0; d-- {
		f := st.frames[d]
		dn := x.V.debugNames(f.fn)
		for _, fv := range f.fn.FreeVars {
			add(d, fv, []string{fv.Name()}, false)
		}
		for bi := len(f.fn.Blocks) - 1; bi >= 0; bi-- {
			for _, in := range f.fn.Blocks[bi].Instrs {
				val, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				if p, isp := val.(*ssa.Phi); isp {
					if d == len(st.frames)-1 && p.Block() == l.header {
						continue
					}
				}
				if d == len(st.frames)-1 && l.body[in.Block()] {
					continue
				}
				if _, live := f.regs[val]; !live {
					continue
				}
				names := dn[val]
				if a, isa := val.(*ssa.Alloc); isa {
					names = append(append([]string{}, names...), a.Comment)
				}
				if p, isp := val.(*ssa.Phi); isp {
					names = append(append([]string{}, names...), p.Comment)
				}
				add(d, val, names, false)
			}
		}
		for _, p := range f.fn.Params {
			add(d, p, []string{p.Name()}, false)
		}
	}
	all := named
	if len(named) > 0 {
		if p, isp := named[0].v.(*ssa.Phi); isp && p.Block() == l.header {
			all = named[:1] // the loop's own variable of that name
		}
	}
	if len(named) == 0 { // renamed: any live value of the type may be meant
		all = rest
	}
	k := fmt.Sprintf("%d.%s", l.info.ord, v.Name)
	if len(all) == 0 {
		panic(specErr("loop %d: no value of type %s for specification variable %s", l.info.ord, v.Type, v.Name))
	}
	x.metaCount[k] = len(all)
	c := x.metaChoice[k]
	if c >= len(all) {
		c = len(all) - 1
	}
	l.meta[v.Name] = all[c]
}

// ---------------------------------------------------------------------------
// operand evaluation

func constSV(s string, v constant.Value, ty types.Type) SV {
	return SV{constTerm(v, ty), ty}
}

func constTerm(v constant.Value, ty types.Type) *Term {
	switch sortOf(ty) {
	case SBool:
		return BoolLit(constant.BoolVal(v))
	case SInt:
		n := constant.ToInt(v)
		if n.Kind() == constant.Int {
			return BigIntLit(n.ExactString())
		}
		f, _ := new(big.Float).SetString(v.ExactString())
		if f != nil {
			i, _ := f.Int(nil)
			return BigIntLit(i.String())
		}
	case SStr:
		if v.Kind() == constant.String {
			return StrLit(constant.StringVal(v))
		}
		return StrLit(v.String())
	case SFlt:
		return Const("flt!"+v.ExactString(), SFlt)
	case SAny:
		// untyped constant in interface context
		switch v.Kind() {
		case constant.Bool:
			return boxAny(tyBool, BoolLit(constant.BoolVal(v)))
		case constant.String:
			return boxAny(tyStr, StrLit(constant.StringVal(v)))
		case constant.Int:
			return boxAny(tyInt, BigIntLit(v.ExactString()))
		}
	}
	return Const("const!"+v.ExactString(), sortOf(ty))
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return constTerm(v.Value, v.Type())
	case *ssa.Global:
		el := v.Type().(*types.Pointer).Elem()
		n := "G:" + v.Pkg.Pkg.Path() + "." + v.Name()
		return &Addr{kind: "global", heap: n, hsort: sortOf(el), ty: el, pty: el}
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == v {
				return fr.binds[i]
			}
		}
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

// term converts a value to a term.
func (x *Exec) term(st *State, v Val, ty types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Closure:
		name := "clos!" + fnKey(v.fn)
		if len(v.binds) > 0 {
			n := name
			for _, b := range v.binds {
				switch b := b.(type) {
				case *Term:
					n += fmt.Sprintf("!%d", b.id)
				default:
					n += fmt.Sprintf("!%p", b)
				}
			}
			name = n
		}
		t := Const(name, SInt)
		st.assume(Lt(IntLit(0), t))
		st.clos[t] = v
		return t
	case *Addr:
		if v.kind == "global" && len(v.path) == 0 {
			t := Const("addr!"+v.heap, SInt)
			st.assume(Lt(IntLit(0), t))
			return t
		}
		args := []*Term{}
		name := "addr:" + v.heap
		if v.ref != nil {
			args = append(args, v.ref)
		}
		if v.kind == "elem" {
			args = append(args, Add(v.off, v.idx))
		}
		for _, s := range v.path {
			if s.fld >= 0 {
				name += fmt.Sprintf(".%d", s.fld)
			} else {
				name += "[]"
				args = append(args, s.idx)
			}
		}
		t := AppUF(name, SInt, args...)
		if len(args) == 0 {
			t = Const(name, SInt)
		}
		st.assume(Lt(IntLit(0), t))
		return t
	case nil:
		panic("nil value")
	}
	panic(unsup("cannot convert %T to a term", v))
}

func (x *Exec) tval(st *State, fr *Frame, v ssa.Value) *Term {
	return x.term(st, x.val(st, fr, v), v.Type())
}

// --- loads and stores

func pathGet(v *Term, path []Step) *Term {
	for _, s := range path {
		if s.fld >= 0 {
			v = structGet(s.ty, v, s.fld)
		} else {
			v = Select(v, s.idx)
		}
	}
	return v
}

func pathSet(v *Term, path []Step, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.fld < 0 {
		return Store(v, s.idx, pathSet(Select(v, s.idx), path[1:], nv))
	}
	st := under(s.ty).(*types.Struct)
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		fs[i] = structGet(s.ty, v, i)
	}
	fs[s.fld] = pathSet(fs[s.fld], path[1:], nv)
	return mkStruct(s.ty, fs)
}

func (x *Exec) addrBase(st *State, a *Addr) *Term {
	switch a.kind {
	case "global":
		return st.heapGet(a.heap, a.hsort)
	case "elem":
		return elemTerm(Select(st.heapGet(a.heap, a.hsort), a.ref), a.off, a.idx)
	default:
		return Select(st.heapGet(a.heap, a.hsort), a.ref)
	}
}

func (x *Exec) load(st *State, p Val, ty types.Type) Val {
	switch p := p.(type) {
	case *Addr:
		b := x.addrBase(st, p)
		v := pathGet(b, p.path)
		if p.kind != "global" {
			if p.kind == "elem" {
				st.assume(And(wfVal(ty, v), allocBound(ty, v, st.alloc)))
				st.loopBound(p.heap, p.hsort, p.ref, ty, v)
			} else {
				st.readFacts(ty, v, st.heapGet(p.heap, p.hsort), p.ref)
			}
		} else {
			st.assume(And(wfVal(ty, v), allocBound(ty, v, st.alloc)))
			x.globalFacts(st, p, v)
		}
		if c, ok := st.clos[v]; ok {
			return c
		}
		return v
	case *Term:
		if stt, ok := under(ty).(*types.Struct); ok {
			fs := make([]*Term, stt.NumFields())
			for i := range fs {
				n, s, ft := fieldHeap(ty, i)
				h := st.heapGet(n, s)
				fs[i] = Select(h, p)
				st.readFacts(ft, fs[i], h, p)
			}
			return mkStruct(ty, fs)
		}
		if at, ok := under(ty).(*types.Array); ok {
			h := st.heapGet(sliceHeap(at.Elem()), sliceHeapSort(at.Elem()))
			return Select(h, p)
		}
		h := st.heapGet(cellHeap(ty), cellSort(ty))
		v := Select(h, p)
		st.readFacts(ty, v, h, p)
		if c, ok := st.clos[v]; ok {
			return c
		}
		return v
	}
	panic(unsup("load through %T", p))
}

// globalFacts: package-level error variables initialised with errors.New and never reassigned are non-nil.
func (x *Exec) globalFacts(st *State, a *Addr, v *Term) {
	if len(a.path) > 0 {
		return
	}
	if x.V.globalNonNil(a.heap) {
		switch v.Sort {
		case SAny:
			st.assume(Not(IsCtor("ANil", v)))
		case SInt:
			st.assume(Not(Eq(v, IntLit(0))))
		}
	}
}

func (x *Exec) store(st *State, p Val, ty types.Type, v *Term) {
	switch p := p.(type) {
	case *Addr:
		nv := v
		if len(p.path) > 0 {
			nv = pathSet(x.addrBase(st, p), p.path, v)
		}
		switch p.kind {
		case "global":
			st.globalSet(p.heap, nv)
		case "elem":
			h := st.heapGet(p.heap, p.hsort)
			inner := Select(h, p.ref)
			st.heapSet(p.heap, p.hsort, p.ref, Store(inner, Add(p.off, p.idx), nv))
		default:
			st.heapSet(p.heap, p.hsort, p.ref, nv)
		}
		return
	case *Term:
		if stt, ok := under(ty).(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				n, s, _ := fieldHeap(ty, i)
				st.heapSet(n, s, p, structGet(ty, v, i))
			}
			return
		}
		if at, ok := under(ty).(*types.Array); ok {
			st.heapSet(sliceHeap(at.Elem()), sliceHeapSort(at.Elem()), p, v)
			return
		}
		st.heapSet(cellHeap(ty), cellSort(ty), p, v)
		return
	}
	panic(unsup("store through %T", p))
}

func (x *Exec) lenTerm(st *State, v *Term, ty types.Type) *Term {
	switch u := under(ty).(type) {
	case *types.Map:
		d := Select(st.heapGet(mapDom(ty), mapDomSort(ty)), v)
		c := cardOf(d)
		x.cardFacts(st, d)
		return c
	case *types.Slice:
		return slLen(v)
	case *types.Array:
		return IntLit(u.Len())
	case *types.Pointer:
		if at, ok := under(u.Elem()).(*types.Array); ok {
			return IntLit(at.Len())
		}
	case *types.Chan:
		c := st.fresh("chanlen", SInt)
		st.assume(Le(IntLit(0), c))
		return c
	}
	if v.Sort == SStr {
		t := strLen(v)
		st.assume(Le(IntLit(0), t))
		return t
	}
	panic(unsup("len of %s", typeStr(ty)))
}

// cardFacts: facts about the cardinality of the finite domain of an actual map.
func (x *Exec) cardFacts(st *State, d *Term) {
	c := cardOf(d)
	if c.Kind == KInt {
		return
	}
	ks, _ := splitArr(d.Sort)
	st.assume(Le(IntLit(0), c))
	empty := ConstArr(d.Sort, tFalse)
	st.assume(Eq(Eq(c, IntLit(0)), Eq(d, empty)))
	k := BoundVar("k!c", ks)
	st.assume(Implies(Eq(c, IntLit(0)), Forall([]*Term{k}, Not(Select(d, k)), []*Term{Select(d, k)})))
	w := AppUF("witness:"+string(ks), ks, d)
	st.assume(Implies(Lt(IntLit(0), c), Select(d, w)))
}

// ---------------------------------------------------------------------------
// one instruction. Returns (states, continue). When continue is false, the path is replaced by the states.

func (x *Exec) step(st *State, fr *Frame, in ssa.Instruction) ([]*State, bool) {
	set := func(v ssa.Value, val Val) { fr.regs[v] = val; fr.ip++ }
	T := func(v ssa.Value) *Term { return x.tval(st, fr, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
		fr.ip++
	case *ssa.Phi:
		fr.ip++
	case *ssa.Alloc:
		el := in.Type().(*types.Pointer).Elem()
		r := st.newRef("new")
		if !x.deadVarargs(in) {
			x.initObj(st, r, el)
		}
		set(in, r)
	case *ssa.BinOp:
		set(in, x.binop(st, fr, in))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := x.val(st, fr, in.X)
			x.nilCheck(st, p, in.Pos())
			set(in, x.load(st, p, in.Type()))
		case token.NOT:
			set(in, Not(T(in.X)))
		case token.SUB:
			t := T(in.X)
			if t.Sort == SFlt {
				set(in, AppUF("flt_neg", SFlt, t))
			} else {
				set(in, Sub(IntLit(0), t))
			}
		case token.ARROW:
			// channel receive: arbitrary value
			if in.CommaOk {
				tt := in.Type().(*types.Tuple)
				set(in, Tuple{x.arbitrary(st, "recv", tt.At(0).Type()), st.fresh("recvok", SBool)})
			} else {
				set(in, x.arbitrary(st, "recv", in.Type()))
			}
			x.assumed["channel receive yields an arbitrary value"] = true
		default:
			t := T(in.X)
			set(in, AppUF("un:"+in.Op.String(), sortOf(in.Type()), t))
		}
	case *ssa.ChangeInterface:
		set(in, x.val(st, fr, in.X))
	case *ssa.ChangeType:
		set(in, x.val(st, fr, in.X))
	case *ssa.Convert:
		set(in, x.convert(st, fr, in.X, in.Type()))
	case *ssa.MultiConvert:
		panic(unsup("multiconvert"))
	case *ssa.MakeInterface:
		set(in, boxAny(in.X.Type(), T(in.X)))
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(st, fr, b))
		}
		set(in, c)
	case *ssa.MakeMap:
		r := st.newRef("map")
		x.initMap(st, r, in.Type())
		set(in, r)
	case *ssa.MakeChan:
		r := st.newRef("chan")
		set(in, r)
	case *ssa.MakeSlice:
		n := T(in.Len)
		c := T(in.Cap)
		x.check(st, "makeslice-size", And(Le(IntLit(0), n), Le(n, c)), in.Pos())
		r := st.newRef("slice")
		el := under(in.Type()).(*types.Slice).Elem()
		hs := sliceHeapSort(el)
		_, as := splitArr(hs)
		st.assume(Eq(Select(st.heapGet(sliceHeap(el), hs), r), ConstArr(as, zeroOf(el))))
		set(in, MkCtor("mkSlice", SSlice, r, IntLit(0), n, c))
	case *ssa.Slice:
		set(in, x.slice(st, fr, in))
	case *ssa.FieldAddr:
		p := x.val(st, fr, in.X)
		x.nilCheck(st, p, in.Pos())
		stt := in.X.Type().Underlying().(*types.Pointer).Elem()
		set(in, x.fieldAddr(p, stt, in.Field))
	case *ssa.Field:
		set(in, structGet(in.X.Type(), T(in.X), in.Field))
	case *ssa.IndexAddr:
		set(in, x.indexAddr(st, fr, in))
	case *ssa.Index:
		b := T(in.X)
		i := T(in.Index)
		if b.Sort == SStr {
			x.check(st, "string-index", And(Le(IntLit(0), i), Lt(i, strLen(b))), in.Pos())
			v := AppUF("str_at", SInt, b, i)
			st.assume(And(Le(IntLit(0), v), Lt(v, IntLit(256))))
			set(in, v)
		} else {
			set(in, Select(b, i))
		}
	case *ssa.Lookup:
		x.lookup(st, fr, in)
		fr.ip++
	case *ssa.MapUpdate:
		m := T(in.Map)
		x.check(st, "nil-map-write", Not(Eq(m, IntLit(0))), in.Pos())
		mt := in.Map.Type()
		x.mapSet(st, mt, m, T(in.Key), T(in.Value))
		fr.ip++
	case *ssa.Store:
		if ia, is := in.Addr.(*ssa.IndexAddr); is {
			if a, is := ia.X.(*ssa.Alloc); is && x.deadVarargs(a) {
				fr.ip++
				break
			}
		}
		p := x.val(st, fr, in.Addr)
		x.nilCheck(st, p, in.Pos())
		x.store(st, p, in.Addr.Type().Underlying().(*types.Pointer).Elem(), T(in.Val))
		fr.ip++
	case *ssa.Range:
		m := T(in.X)
		id := fmt.Sprintf("it@%s%s.%d", fr.id, fr.fn.Name(), st.instrNo(fr))
		if _, ok := under(in.X.Type()).(*types.Map); ok {
			mt := in.X.Type()
			ks := sortOf(under(mt).(*types.Map).Key())
			d := Select(st.heapGet(mapDom(mt), mapDomSort(mt)), m)
			empty := ConstArr(ArrSort(ks, SBool), tFalse)
			st.assume(Implies(Eq(m, IntLit(0)), Eq(d, empty)))
			x.cardFacts(st, d)
			st.iters[id] = &Iter{m: m, mty: mt, visited: empty, domStart: d}
		} else {
			st.iters[id] = &Iter{m: m, isStr: true}
		}
		set(in, IterRef{id})
	case *ssa.Next:
		return x.next(st, fr, in)
	case *ssa.Extract:
		tp := x.val(st, fr, in.Tuple)
		set(in, tp.(Tuple)[in.Index])
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, in)
	case *ssa.Jump:
		if !x.jump(st, fr, fr.block.Succs[0]) {
			return nil, false
		}
	case *ssa.If:
		c := T(in.Cond)
		if b, ok := st.known(c); ok {
			k := 1
			if b {
				k = 0
			}
			if !x.jump(st, fr, fr.block.Succs[k]) {
				return nil, false
			}
			return nil, true
		}
		s2 := st.clone()
		var out []*State
		st.assume(c)
		s2.assume(Not(c))
		st.trace = append(st.trace, x.V.pos(in.Cond.Pos())+" true")
		s2.trace = append(s2.trace, x.V.pos(in.Cond.Pos())+" false")
		b := fr.block
		if x.feasible(st) && x.jump(st, st.top(), b.Succs[0]) {
			out = append(out, st)
		}
		if x.feasible(s2) && x.jump(s2, s2.top(), b.Succs[1]) {
			out = append(out, s2)
		}
		return out, false
	case *ssa.Return:
		var rs []Val
		for _, r := range in.Results {
			rs = append(rs, x.val(st, fr, r))
		}
		return x.ret(st, fr, rs, in.Pos())
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			out, done, forked := x.doCall(st, fr, d.call, d.fnv, d.args, nil, d.instr)
			if forked {
				return out, false
			}
			_ = done
			return nil, true
		}
		fr.ip++
	case *ssa.Defer:
		d := deferred{call: &in.Call, instr: in}
		if !in.Call.IsInvoke() {
			if _, isb := in.Call.Value.(*ssa.Builtin); !isb {
				d.fnv = x.val(st, fr, in.Call.Value)
			}
		} else {
			d.fnv = x.val(st, fr, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(st, fr, a))
		}
		fr.defers = append(fr.defers, d)
		fr.ip++
	case *ssa.Call:
		var args []Val
		for _, a := range in.Call.Args {
			args = append(args, x.val(st, fr, a))
		}
		var fv Val
		if _, isb := in.Call.Value.(*ssa.Builtin); !isb {
			fv = x.val(st, fr, in.Call.Value)
		}
		fr.ip++
		out, _, forked := x.doCall(st, fr, &in.Call, fv, args, in, in)
		if forked {
			return out, false
		}
	case *ssa.Go:
		x.assumed["goroutine bodies are not followed"] = true
		fr.ip++
	case *ssa.Send:
		x.assumed["channel sends have no heap effect"] = true
		fr.ip++
	case *ssa.Panic:
		if !x.c.Panics {
			x.vc(st, "safety", "panic-unreachable", tFalse, in.Pos())
		}
		return nil, false
	case *ssa.Select:
		// arbitrary ready case; received values arbitrary
		tt := in.Type().(*types.Tuple)
		tp := Tuple{}
		for i := 0; i < tt.Len(); i++ {
			v := x.arbitrary(st, fmt.Sprintf("sel%d", i), tt.At(i).Type())
			tp = append(tp, v)
		}
		lo := int64(0)
		if !in.Blocking {
			lo = -1
		}
		idx := tp[0].(*Term)
		st.assume(And(Le(IntLit(lo), idx), Lt(idx, IntLit(int64(len(in.States))))))
		x.assumed["select takes an arbitrary ready case"] = true
		set(in, tp)
	default:
		panic(unsup("instruction %T", in))
	}
	return nil, true
}

func (x *Exec) feasible(st *State) bool {
	// syntactic only: contradictory literals
	last := st.pc[len(st.pc)-1]
	if last == tFalse {
		return false
	}
	if last.Kind == KApp && last.Op == "and" {
		for _, a := range last.Args {
			if st.pcset[Not(a)] {
				return false
			}
		}
	}
	if st.pcset[Not(last)] || st.refuted(last, 0) {
		return false
	}
	return x.V.quickFeasible(st)
}

func (x *Exec) nilCheck(st *State, p Val, pos token.Pos) {
	if t, ok := p.(*Term); ok {
		c := Not(Eq(t, IntLit(0)))
		if b, known := st.known(c); known && b {
			return
		}
		if x.V.NilChecks && !x.c.Panics {
			x.vc(st, "safety", "nil-deref", c, pos)
		}
		st.assume(c)
	}
}

func (x *Exec) initObj(st *State, r *Term, el types.Type) {
	switch u := under(el).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n, s, ft := fieldHeap(el, i)
			st.assume(Eq(Select(st.heapGet(n, s), r), zeroOf(ft)))
		}
	case *types.Array:
		hs := sliceHeapSort(u.Elem())
		_, as := splitArr(hs)
		st.assume(Eq(Select(st.heapGet(sliceHeap(u.Elem()), hs), r), ConstArr(as, zeroOf(u.Elem()))))
	default:
		st.assume(Eq(Select(st.heapGet(cellHeap(el), cellSort(el)), r), zeroOf(el)))
	}
}

func (x *Exec) initMap(st *State, r *Term, mt types.Type) {
	ds := mapDomSort(mt)
	_, inner := splitArr(ds)
	st.assume(Eq(Select(st.heapGet(mapDom(mt), ds), r), ConstArr(inner, tFalse)))
}

func (x *Exec) mapSet(st *State, mt types.Type, m, k, v *Term) {
	ds, vs := mapDomSort(mt), mapValSort(mt)
	d := Select(st.heapGet(mapDom(mt), ds), m)
	vv := Select(st.heapGet(mapVal(mt), vs), m)
	nd := Store(d, k, tTrue)
	st.heapSet(mapDom(mt), ds, m, nd)
	st.heapSet(mapVal(mt), vs, m, Store(vv, k, v))
	st.assume(Eq(cardOf(nd), Add(cardOf(d), Ite(Select(d, k), IntLit(0), IntLit(1)))))
	st.assume(Le(IntLit(0), cardOf(d)))
}

func (x *Exec) fieldAddr(p Val, stt types.Type, i int) Val {
	s := under(stt).(*types.Struct)
	ft := s.Field(i).Type()
	switch p := p.(type) {
	case *Term:
		n, hs, _ := fieldHeap(stt, i)
		return &Addr{kind: "field", heap: n, hsort: hs, ref: p, ty: ft, pty: ft}
	case *Addr:
		a := *p
		a.path = append(append([]Step{}, p.path...), Step{fld: i, ty: stt})
		a.pty = ft
		return &a
	}
	panic(unsup("field address of %T", p))
}

func (x *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) Val {
	i := x.tval(st, fr, in.Index)
	base := x.val(st, fr, in.X)
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		s := x.term(st, base, in.X.Type())
		x.check(st, "index-in-range", And(Le(IntLit(0), i), Lt(i, slLen(s))), in.Pos())
		return &Addr{kind: "elem", heap: sliceHeap(u.Elem()), hsort: sliceHeapSort(u.Elem()), ref: slRef(s), off: slOff(s), idx: i, ty: u.Elem(), pty: u.Elem()}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		x.check(st, "index-in-range", And(Le(IntLit(0), i), Lt(i, IntLit(at.Len()))), in.Pos())
		switch b := base.(type) {
		case *Term:
			return &Addr{kind: "elem", heap: sliceHeap(at.Elem()), hsort: sliceHeapSort(at.Elem()), ref: b, off: IntLit(0), idx: i, ty: at.Elem(), pty: at.Elem()}
		case *Addr:
			a := *b
			a.path = append(append([]Step{}, b.path...), Step{fld: -1, idx: i, ty: u.Elem()})
			a.pty = at.Elem()
			return &a
		}
	}
	panic(unsup("index address"))
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	base := x.val(st, fr, in.X)
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.tval(st, fr, v)
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		s := x.term(st, base, in.X.Type())
		lo := opt(in.Low, IntLit(0))
		hi := opt(in.High, slLen(s))
		mx := opt(in.Max, slCap(s))
		x.check(st, "slice-bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, slCap(s))), in.Pos())
		return MkCtor("mkSlice", SSlice, slRef(s), Add(slOff(s), lo), Sub(hi, lo), Sub(mx, lo))
	case *types.Basic:
		s := x.term(st, base, in.X.Type())
		lo := opt(in.Low, IntLit(0))
		hi := opt(in.High, strLen(s))
		x.check(st, "slice-bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, strLen(s))), in.Pos())
		r := AppUF("str_substr", SStr, s, lo, Sub(hi, lo))
		st.assume(Eq(strLen(r), Sub(hi, lo)))
		return r
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		r, ok := base.(*Term)
		if !ok {
			panic(unsup("slicing an interior array"))
		}
		lo := opt(in.Low, IntLit(0))
		hi := opt(in.High, IntLit(at.Len()))
		return MkCtor("mkSlice", SSlice, r, lo, Sub(hi, lo), Sub(IntLit(at.Len()), lo))
	}
	panic(unsup("slice of %s", typeStr(in.X.Type())))
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) {
	m := x.tval(st, fr, in.X)
	k := x.tval(st, fr, in.Index)
	if _, ok := under(in.X.Type()).(*types.Map); !ok { // string index
		x.check(st, "string-index", And(Le(IntLit(0), k), Lt(k, strLen(m))), in.Pos())
		v := AppUF("str_at", SInt, m, k)
		st.assume(And(Le(IntLit(0), v), Lt(v, IntLit(256))))
		fr.regs[in] = v
		return
	}
	mt := in.X.Type()
	el := under(mt).(*types.Map).Elem()
	dd := Select(st.heapGet(mapDom(mt), mapDomSort(mt)), m)
	vv := Select(st.heapGet(mapVal(mt), mapValSort(mt)), m)
	present := Select(dd, k)
	val := mgetTerm(dd, vv, k, el)
	st.assume(And(wfVal(el, val), allocBound(el, val, st.alloc)))
	if in.CommaOk {
		fr.regs[in] = Tuple{val, present}
	} else {
		fr.regs[in] = val
	}
}

func (x *Exec) next(st *State, fr *Frame, in *ssa.Next) ([]*State, bool) {
	it := st.iters[fr.regs[in.Iter].(IterRef).id]
	id := fr.regs[in.Iter].(IterRef).id
	if it.isStr {
		ok := st.fresh("ok", SBool)
		k := st.fresh("sidx", SInt)
		r := st.fresh("rune", SInt)
		st.assume(And(Le(IntLit(0), k), Lt(k, strLen(it.m))))
		fr.regs[in] = Tuple{ok, k, r}
		fr.ip++
		return nil, true
	}
	mt := it.mty
	mm := under(mt).(*types.Map)
	ks := sortOf(mm.Key())
	d := Select(st.heapGet(mapDom(mt), mapDomSort(mt)), it.m)
	end := st.clone()
	// iteration step
	k := st.fresh("key", ks)
	st.assume(Not(Eq(it.m, IntLit(0))))
	st.assume(Select(d, k))
	st.assume(Not(Select(it.visited, k)))
	st.assume(wfVal(mm.Key(), k))
	hv := st.heapGet(mapVal(mt), mapValSort(mt))
	v := mgetTerm(d, Select(hv, it.m), k, mm.Elem())
	st.assume(wfVal(mm.Elem(), v))
	st.assume(allocBound(mm.Elem(), v, st.alloc))
	nv := Store(it.visited, k, tTrue)
	st.assume(Eq(cardOf(nv), Add(cardOf(it.visited), IntLit(1))))
	st.assume(Implies(Eq(d, it.domStart), Lt(cardOf(it.visited), cardOf(d))))
	st.iters[id].visited = nv
	fr.regs[in] = Tuple{tTrue, k, v}
	fr.ip++
	st.trace = append(st.trace, x.V.pos(in.Pos())+" iterate")
	// end of iteration
	ef := end.top()
	ei := end.iters[id]
	end.assume(Implies(Eq(d, it.domStart), Eq(ei.visited, d)))
	if d != it.domStart {
		x.assumed["a map ranged over is not shrunk and regrown with the same key inside the loop"] = true
		b := BoundVar("k!e", ks)
		end.assume(Forall([]*Term{b}, Implies(And(Select(it.domStart, b), Select(d, b)), Select(ei.visited, b)), []*Term{Select(d, b)}))
	}
	ef.regs[in] = Tuple{tFalse, zeroOf(mm.Key()), zeroOf(mm.Elem())}
	ef.ip++
	end.trace = append(end.trace, x.V.pos(in.Pos())+" end of range")
	return []*State{st, end}, false
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) ([]*State, bool) {
	v := x.tval(st, fr, in.X)
	t := in.AssertedType
	var ok, val, zero *Term
	if isIface(t) {
		ok, val, zero = implTerm(v, t), v, ANil()
	} else {
		ok, val, zero = isType(v, t), unboxAny(v, t), zeroOf(t)
		f := And(wfVal(t, val), allocBound(t, val, st.alloc))
		st.assume(Implies(ok, f))
	}
	if in.CommaOk {
		fr.ip++
		if b, k := st.known(ok); k {
			if b {
				fr.regs[in] = Tuple{val, tTrue}
			} else {
				fr.regs[in] = Tuple{zero, tFalse}
			}
			return nil, true
		}
		s2 := st.clone()
		fr.regs[in] = Tuple{val, tTrue}
		s2.top().regs[in] = Tuple{zero, tFalse}
		st.assume(ok)
		s2.assume(Not(ok))
		st.trace = append(st.trace, x.V.pos(in.Pos())+" is "+t.String())
		s2.trace = append(s2.trace, x.V.pos(in.Pos())+" is not "+t.String())
		var out []*State
		if x.feasible(st) {
			out = append(out, st)
		}
		if x.feasible(s2) {
			out = append(out, s2)
		}
		return out, false
	}
	fr.ip++
	x.check(st, "type-assertion", ok, in.Pos())
	if c, is := st.clos[val]; is {
		fr.regs[in] = c
		return nil, true
	}
	fr.regs[in] = val
	return nil, true
}

func isFloat(t types.Type) bool { return sortOf(t) == SFlt }

func (x *Exec) binop(st *State, fr *Frame, in *ssa.BinOp) Val {
	xv, yv := x.val(st, fr, in.X), x.val(st, fr, in.Y)
	// interior pointers and closures are never nil
	if in.Op == token.EQL || in.Op == token.NEQ {
		_, c1 := xv.(*Term)
		_, c2 := yv.(*Term)
		isNil := func(v Val) bool { t, ok := v.(*Term); return ok && t == IntLit(0) }
		if !c1 && isNil(yv) || !c2 && isNil(xv) {
			return BoolLit(in.Op == token.NEQ)
		}
	}
	a, b := x.term(st, xv, in.X.Type()), x.term(st, yv, in.Y.Type())
	ty := in.X.Type()
	if isIface(ty) && !isIface(in.Y.Type()) {
		b = boxAny(in.Y.Type(), b)
	} else if isIface(in.Y.Type()) && !isIface(ty) {
		a = boxAny(ty, a)
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if a.Sort == SFlt {
			r = AppUF("flt_eq", SBool, a, b)
		} else if a.Sort == SSlice { // comparison with nil only
			if a == nilSlice() {
				a = b
			}
			r = Eq(slRef(a), IntLit(0))
		} else {
			r = Eq(a, b)
		}
		if in.Op == token.NEQ {
			return Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if in.Op == token.GTR || in.Op == token.GEQ {
			a, b = b, a
		}
		strict := in.Op == token.LSS || in.Op == token.GTR
		switch a.Sort {
		case SFlt:
			if strict {
				return AppUF("flt_lt", SBool, a, b)
			}
			return AppUF("flt_le", SBool, a, b)
		case SStr:
			if strict {
				return AppUF("str_lt", SBool, a, b)
			}
			return Not(AppUF("str_lt", SBool, b, a))
		}
		if strict {
			return Lt(a, b)
		}
		return Le(a, b)
	}
	if a.Sort == SFlt {
		n := map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[in.Op]
		return AppUF("flt_"+n, SFlt, a, b)
	}
	if a.Sort == SStr && in.Op == token.ADD {
		r := strCat(a, b)
		return r
	}
	if a.Sort == SBool {
		switch in.Op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	switch in.Op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO, token.REM:
		x.check(st, "division-by-zero", Not(Eq(b, IntLit(0))), in.Pos())
		// Go truncates towards zero
		q := app("div", SInt, a, b)
		if in.Op == token.QUO {
			return Ite(Or(Le(IntLit(0), a), Eq(app("mod", SInt, a, b), IntLit(0))), q, Ite(Lt(IntLit(0), b), Add(q, IntLit(1)), Sub(q, IntLit(1))))
		}
		m := app("mod", SInt, a, b)
		absb := Ite(Le(IntLit(0), b), b, Sub(IntLit(0), b))
		return Ite(Or(Le(IntLit(0), a), Eq(m, IntLit(0))), m, Sub(m, absb))
	}
	return AppUF("bin:"+in.Op.String(), SInt, a, b)
}

func (x *Exec) convert(st *State, fr *Frame, v ssa.Value, to types.Type) Val {
	val := x.val(st, fr, v)
	from := v.Type()
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts && fs != SSlice {
		return val
	}
	t := x.term(st, val, from)
	switch {
	case fs == SInt && ts == SFlt:
		return AppUF("flt_of_int", SFlt, t)
	case fs == SFlt && ts == SInt:
		return AppUF("int_of_flt", SInt, t)
	case fs == SSlice && ts == SStr:
		return bytesText(st.heapGet, t, from)
	case fs == SStr && ts == SSlice:
		r := st.newRef("bytes")
		n := st.fresh("nbytes", SInt)
		st.assume(Le(IntLit(0), n))
		b := MkCtor("mkSlice", SSlice, r, IntLit(0), n, n)
		st.assume(Eq(bytesText(st.heapGet, b, to), t))
		return b
	case fs == SSlice && ts == SSlice:
		return val
	case fs == SInt && ts == SStr:
		return AppUF("str_of_rune", SStr, t)
	}
	panic(unsup("conversion %s -> %s", typeStr(from), typeStr(to)))
}

// bytesText: the string with the bytes of a slice, a function of its content.
func bytesText(heap func(string, Sort) *Term, t *Term, ty types.Type) *Term {
	el := under(ty).(*types.Slice).Elem()
	hn, hs := sliceHeap(el), sliceHeapSort(el)
	return AppUF("bytes_text", SStr, Select(heap(hn, hs), slRef(t)), slOff(t), slLen(t))
}

// arbitrary value of a type
func (x *Exec) arbitrary(st *State, hint string, ty types.Type) *Term {
	t := st.fresh(hint, sortOf(ty))
	st.assume(wfVal(ty, t))
	st.assume(allocBound(ty, t, st.alloc))
	return t
}

func (x *Exec) ret(st *State, fr *Frame, rs []Val, pos token.Pos) ([]*State, bool) {
	if len(st.frames) > 1 {
		st.frames = st.frames[:len(st.frames)-1]
		caller := st.top()
		if fr.dest != nil {
			switch len(rs) {
			case 0:
			case 1:
				caller.regs[fr.dest] = rs[0]
			default:
				caller.regs[fr.dest] = Tuple(rs)
			}
		}
		return nil, true
	}
	x.finish(st, fr, rs, pos)
	return nil, false
}

func (x *Exec) finish(st *State, fr *Frame, rs []Val, pos token.Pos) {
	c := x.c
	vars := map[string]SV{}
	for k, v := range x.V.entryVars {
		vars[k] = v
	}
	sig := x.fn.Signature
	for i, r := range rs {
		ty := sig.Results().At(i).Type()
		t := x.term(st, r, ty)
		sv := SV{t, ty}
		if i < len(c.Results) {
			vars[c.Results[i]] = sv
		}
		vars[fmt.Sprintf("result%d", i)] = sv
		if len(rs) == 1 {
			vars["result"] = sv
		}
	}
	env := &Env{V: x.V, pkg: x.V.pkgOf(c.Pkg), vars: vars, st: st, old: x.V.entryState, a0: x.V.entryState.alloc}
	for i, h := range c.Hints {
		t := env.bool(h.E)
		x.vc(st, "hint", "hint"+label(h, i), t, pos)
		st.assume(t)
	}
	x.covers = append(x.covers, &VC{Name: "cover", Kind: "cover", Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: tFalse, Hist: st.hist, Pos: x.V.pos(pos)})
	for i, e := range c.Ensures {
		if o := ownLabel(e.Label); o != "" && x.V.prop != "" && o != x.V.prop {
			continue
		}
		x.vc(st, "ensures", "ensures"+label(e, i), env.bool(e.E), pos)
	}
	if c.Frame {
		x.frame(st, pos)
	}
}

// location denoted by a modifies expression, evaluated in the pre-state
type modLoc struct {
	heaps []heapDesc
	ref   *Term
	all   bool
	glob  bool
}

func (x *Exec) modLocs(c *Contract, env *Env) []modLoc {
	var out []modLoc
	for _, m := range c.Modifies {
		if m.Op == "ident" && (m.Name == "heap" || m.Name == "everything") {
			out = append(out, modLoc{all: true})
			continue
		}
		switch m.Op {
		case "field":
			b := env.eval(m.Args[0])
			obj, path, _ := types.LookupFieldOrMethod(b.ty, true, env.V.scopePkg(b.ty, env.pkg), m.Name)
			if obj == nil {
				panic(specErr("modifies: no field %s", m.Name))
			}
			cur := b
			for pi, i := range path {
				st, ok := derefStruct(cur.ty)
				if !ok {
					panic(specErr("modifies: %s is not reached through pointers", m.Name))
				}
				n, s, ft := fieldHeap(st, i)
				if pi == len(path)-1 || func() bool { _, isst := under(ft).(*types.Struct); return isst }() {
					out = append(out, modLoc{heaps: []heapDesc{{n, s}}, ref: cur.t})
					break
				}
				cur = SV{Select(env.heap(n, s), cur.t), ft}
			}
		case "content":
			b := env.eval(m.Args[0])
			switch u := under(b.ty).(type) {
			case *types.Map:
				out = append(out, modLoc{heaps: []heapDesc{{mapDom(b.ty), mapDomSort(b.ty)}, {mapVal(b.ty), mapValSort(b.ty)}}, ref: b.t})
			case *types.Slice:
				out = append(out, modLoc{heaps: []heapDesc{{sliceHeap(u.Elem()), sliceHeapSort(u.Elem())}}, ref: slRef(b.t)})
			case *types.Pointer:
				if st, ok := under(u.Elem()).(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						n, s, _ := fieldHeap(u.Elem(), i)
						out = append(out, modLoc{heaps: []heapDesc{{n, s}}, ref: b.t})
					}
				} else {
					out = append(out, modLoc{heaps: []heapDesc{{cellHeap(u.Elem()), cellSort(u.Elem())}}, ref: b.t})
				}
			default:
				panic(specErr("modifies: bad content of %s", typeStr(b.ty)))
			}
		case "un":
			b := env.eval(m.Args[0])
			u := under(b.ty).(*types.Pointer)
			out = append(out, modLoc{heaps: []heapDesc{{cellHeap(u.Elem()), cellSort(u.Elem())}}, ref: b.t})
		case "call":
			if m.Name == "anyof" { // every object of a heap type: anyof(`map[string]any`)
				out = append(out, modLoc{heaps: env.V.heapsOf(m.Args[0].Name, env.pkg)})
				continue
			}
			if m.Name == "target" { // what a pointer held in an interface value points to
				b := env.eval(m.Args[0])
				done := false
				if isCtor(b.t) && b.t.Kind == KApp && len(b.t.Args) == 2 {
					if id, ok := litInt(b.t.Args[0]); ok {
						if pt, ok := under(typeByID[id]).(*types.Pointer); ok {
							done = true
							ref := unboxAny(b.t, typeByID[id])
							if st, ok := under(pt.Elem()).(*types.Struct); ok {
								for i := 0; i < st.NumFields(); i++ {
									n, s, _ := fieldHeap(pt.Elem(), i)
									out = append(out, modLoc{heaps: []heapDesc{{n, s}}, ref: ref})
								}
							} else {
								out = append(out, modLoc{heaps: []heapDesc{{cellHeap(pt.Elem()), cellSort(pt.Elem())}}, ref: ref})
							}
						}
					}
				}
				if !done {
					out = append(out, modLoc{all: true})
				}
				continue
			}
			panic(specErr("bad modifies clause"))
		case "ident":
			if o := env.pkg.Scope().Lookup(m.Name); o != nil {
				if v, ok := o.(*types.Var); ok {
					out = append(out, modLoc{heaps: []heapDesc{{"G:" + env.pkg.Path() + "." + m.Name, sortOf(v.Type())}}, glob: true})
					continue
				}
			}
			panic(specErr("bad modifies clause %s", m.Name))
		default:
			panic(specErr("bad modifies clause"))
		}
	}
	return out
}

// frame: every location allocated at entry and not in the modifies clauses is unchanged.
func (x *Exec) frame(st *State, pos token.Pos) {
	old := x.V.entryState
	env := &Env{V: x.V, pkg: x.V.pkgOf(x.c.Pkg), vars: x.V.entryVars, st: old, old: old, a0: old.alloc}
	locs := x.modLocs(x.c, env)
	for _, l := range locs {
		if l.all {
			return
		}
	}
	if st.epoch != old.epoch {
		x.vc(st, "frame", "frame[heap]", tFalse, pos)
		return
	}
	for _, name := range sortedKeys(st.heap) {
		cur := st.heap[name]
		init := old.heapGet(name, cur.Sort)
		if cur == init {
			continue
		}
		var refs []*Term
		skip := false
		for _, l := range locs {
			for _, h := range l.heaps {
				if h.name == name {
					if l.ref == nil {
						skip = true
					} else {
						refs = append(refs, l.ref)
					}
				}
			}
		}
		if skip {
			continue
		}
		if strings.HasPrefix(name, "G:") && strings.HasSuffix(name, ".init$guard") {
			continue
		}
		if strings.HasPrefix(name, "G:") {
			x.vc(st, "frame", "frame["+name+"]", Eq(cur, init), pos)
			continue
		}
		r := st.fresh("r!frame", SInt)
		conds := []*Term{Le(r, old.alloc), Le(IntLit(1), r)}
		for _, q := range refs {
			conds = append(conds, Not(Eq(r, q)))
		}
		x.vc(st, "frame", "frame["+name+"]", Implies(And(conds...), Eq(Select(cur, r), Select(init, r))), pos)
	}
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// ---- syntactic decisions on string constants: most paths of a large switch contradict the
// premise of most clauses, and this is seen without a solver

// eqLit splits X == "literal".
func eqLit(t *Term) (*Term, string, bool) {
	if t.Kind == KApp && t.Op == "=" && len(t.Args) == 2 && t.Args[0].Sort == SStr {
		if t.Args[1].Kind == KStr && t.Args[0].Kind != KStr {
			return t.Args[0], t.Args[1].Op, true
		}
		if t.Args[0].Kind == KStr && t.Args[1].Kind != KStr {
			return t.Args[1], t.Args[0].Op, true
		}
	}
	return nil, "", false
}

// firstByte splits string(X[0]).
func firstByte(t *Term) *Term {
	if t.Kind == KApp && strings.HasSuffix(t.Op, "str_of_rune") && len(t.Args) == 1 {
		if a := t.Args[0]; a.Kind == KApp && strings.HasSuffix(a.Op, "str_at") && len(a.Args) == 2 && a.Args[1] == IntLit(0) {
			return a.Args[0]
		}
	}
	return nil
}

// refuted: t contradicts the path condition (sound, incomplete).
func (st *State) refuted(t *Term, d int) bool {
	if t == tFalse {
		return true
	}
	if t.open || d > 12 || t.Kind != KApp {
		return false
	}
	if st.pcset[Not(t)] {
		return true
	}
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			if st.refuted(a, d+1) {
				return true
			}
		}
		return false
	case "or":
		for _, a := range t.Args {
			if !st.refuted(a, d+1) {
				return false
			}
		}
		return true
	case "not":
		return st.holds(t.Args[0], d+1)
	}
	x, v, ok := eqLit(t)
	if !ok {
		return false
	}
	for _, p := range st.pc {
		neg := false
		if p.Kind == KApp && p.Op == "not" {
			p, neg = p.Args[0], true
		}
		y, w, ok := eqLit(p)
		if !ok {
			continue
		}
		if y == x && !neg && v != w {
			return true
		}
		if firstByte(y) == x && len(w) == 1 && len(v) > 0 && v[0] < 128 && (v[:1] == w) == neg {
			return true
		}
	}
	return false
}

// holds: t follows from the path condition (sound, incomplete).
func (st *State) holds(t *Term, d int) bool {
	if t == tTrue {
		return true
	}
	if t.open || d > 12 || t.Kind != KApp {
		return false
	}
	if st.pcset[t] {
		return true
	}
	switch t.Op {
	case "=>":
		return st.refuted(t.Args[0], d+1) || st.holds(t.Args[1], d+1)
	case "not":
		return st.refuted(t.Args[0], d+1)
	case "and":
		for _, a := range t.Args {
			if !st.holds(a, d+1) {
				return false
			}
		}
		return true
	case "or":
		for _, a := range t.Args {
			if st.holds(a, d+1) {
				return true
			}
		}
	}
	return false
}
