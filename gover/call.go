package main

import (
	"go/constant"
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (V *Verifier) contractFor(fn *ssa.Function) *Contract {
	if c := V.spec.Contracts[fnKey(fn)]; c != nil {
		return c
	}
	if o := fn.Origin(); o != nil && o != fn {
		if c := V.spec.Contracts[fnKey(o)]; c != nil {
			return c
		}
	}
	if c := V.spec.Contracts[externName(fn)]; c != nil && c.Kind == "extern" {
		return c
	}
	return nil
}

const maxInline = 14

func (x *Exec) doCall(st *State, fr *Frame, cc *ssa.CallCommon, fnv Val, args []Val, dest ssa.Value, instr ssa.Instruction) ([]*State, bool, bool) {
	pos := instr.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		v := x.builtin(st, fr, b, cc, args, dest, pos)
		if dest != nil && v != nil {
			fr.regs[dest] = v
		}
		return nil, true, false
	}
	var callee *ssa.Function
	var binds []Val
	if cc.IsInvoke() {
		recv := x.term(st, fnv, cc.Value.Type())
		itn := ifaceName(cc.Value.Type())
		c := x.V.spec.Contracts["iface:"+itn+"."+cc.Method.Name()]
		if c == nil {
			// the method may be declared by an embedded interface
			if r := cc.Method.Signature().Recv(); r != nil {
				c = x.V.spec.Contracts["iface:"+ifaceName(r.Type())+"."+cc.Method.Name()]
			}
		}
		// dynamic type known: use the concrete method
		if isCtor(recv) && recv.Kind == KApp {
			if id, ok := litInt(recv.Args[0]); ok {
				dt := typeByID[id]
				if f := x.V.P.prog.LookupMethod(dt, cc.Method.Pkg(), cc.Method.Name()); f != nil {
					callee = f
					args = append([]Val{recv.Args[1]}, args...)
					if cl, is := st.clos[recv.Args[1]]; is {
						_ = cl
					}
				}
			}
		}
		if callee == nil {
			x.nonNilIface(st, recv, pos)
			if c != nil {
				all := append([]Val{recv}, args...)
				tys := []types.Type{cc.Value.Type()}
				for i := 0; i < cc.Signature().Params().Len(); i++ {
					tys = append(tys, cc.Signature().Params().At(i).Type())
				}
				x.applyContract(st, fr, c, all, tys, cc.Signature(), dest, pos)
				return nil, true, false
			}
			x.unknownCall(st, fr, "iface "+itn+"."+cc.Method.Name(), cc, args, dest, repoPath(cc.Method.Pkg()))
			return nil, true, false
		}
	} else {
		switch f := fnv.(type) {
		case *Closure:
			callee, binds = f.fn, f.binds
		case *Term:
			if cl, ok := st.clos[f]; ok {
				callee, binds = cl.fn, cl.binds
			} else {
				x.unknownCall(st, fr, "function value", cc, args, dest, true)
				return nil, true, false
			}
		default:
			panic(unsup("call through %T", fnv))
		}
	}
	if c := x.V.contractFor(callee); c != nil && !c.Inline {
		var tys []types.Type
		sig := callee.Signature
		if sig.Recv() != nil {
			tys = append(tys, sig.Recv().Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			tys = append(tys, sig.Params().At(i).Type())
		}
		x.applyContract(st, fr, c, args, tys, sig, dest, pos)
		return nil, true, false
	}
	if x.intrinsic(st, fr, callee, cc, args, dest, pos) {
		return nil, true, false
	}
	if isPkgInit(x.fn) && isPkgInit(callee) {
		return nil, true, false // initialisers of imported packages do not write this package's variables
	}
	if len(callee.Blocks) == 0 {
		x.unknownCall(st, fr, externName(callee), cc, args, dest, false)
		return nil, true, false
	}
	if callee.Pkg != nil && !strings.HasPrefix(callee.Pkg.Pkg.Path(), modulePath) && callee.Synthetic == "" {
		x.unknownCall(st, fr, externName(callee), cc, args, dest, false)
		return nil, true, false
	}
	// inline
	if len(st.frames) > maxInline {
		panic(unsup("inlining too deep at %s", callee))
	}
	for _, f := range st.frames {
		if f.fn == callee {
			panic(unsup("recursive call of %s without a contract", callee))
		}
	}
	if callee.Recover != nil {
		x.assumed["recover() is not modelled in "+fnKey(callee)] = true
	}
	x.inlined[fnKey(callee)] = true
	nf := &Frame{fn: callee, regs: map[ssa.Value]Val{}, binds: binds, block: callee.Blocks[0], dest: dest}
	nf.id = fmt.Sprintf("%s%s.%d/", fr.id, fr.fn.Name(), st.instrNo(fr))
	if len(callee.Params) != len(args) {
		panic(unsup("argument count of %s", callee))
	}
	for i, p := range callee.Params {
		nf.regs[p] = args[i]
	}
	st.frames = append(st.frames, nf)
	return nil, false, false
}

func repoPath(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modulePath)
}

func ifaceName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return typeStr(t)
}

func (x *Exec) nonNilIface(st *State, recv *Term, pos token.Pos) {
	c := Not(IsCtor("ANil", recv))
	if x.V.NilChecks && !x.c.Panics {
		x.vc(st, "safety", "nil-deref", c, pos)
	}
	st.assume(c)
}

// unknownCall: no contract and no body.
func (x *Exec) unknownCall(st *State, fr *Frame, name string, cc *ssa.CallCommon, args []Val, dest ssa.Value, repo bool) {
	if repo {
		x.assumed["uncontracted call ("+name+"): whole heap forgotten"] = true
		st.havocAll()
	} else {
		x.assumed["external "+name+": arbitrary result, no effect on the modelled heap"] = true
	}
	x.setResults(st, fr, "ext!"+name, cc.Signature(), dest)
}

func (x *Exec) setResults(st *State, fr *Frame, hint string, sig *types.Signature, dest ssa.Value) []SV {
	var out []SV
	rs := sig.Results()
	if rs.Len() > 0 {
		bump := false
		for i := 0; i < rs.Len(); i++ {
			switch sortOf(rs.At(i).Type()) {
			case SBool, SStr, SFlt:
			default:
				if _, isb := under(rs.At(i).Type()).(*types.Basic); !isb {
					bump = true
				}
			}
		}
		if bump {
			a := st.fresh("alloc", SInt)
			st.assume(Le(st.alloc, a))
			st.alloc = a
		}
	}
	for i := 0; i < rs.Len(); i++ {
		ty := rs.At(i).Type()
		out = append(out, SV{x.arbitrary(st, fmt.Sprintf("%s#%d", hint, i), ty), ty})
	}
	if dest != nil {
		switch len(out) {
		case 0:
		case 1:
			fr.regs[dest] = out[0].t
		default:
			tp := Tuple{}
			for _, o := range out {
				tp = append(tp, o.t)
			}
			fr.regs[dest] = tp
		}
	}
	return out
}

func (x *Exec) applyContract(st *State, fr *Frame, c *Contract, args []Val, tys []types.Type, sig *types.Signature, dest ssa.Value, pos token.Pos) {
	x.calls[c.full()] = true
	if len(c.Params) != len(args) {
		panic(specErr("contract of %s names %d parameters, the call passes %d", c.full(), len(c.Params), len(args)))
	}
	vars := map[string]SV{}
	for i, a := range args {
		if ad, ok := a.(*Addr); ok && contains(c.Reads, c.Params[i]) {
			// only read through: a fresh copy of what it points to stands for it
			el := under(tys[i]).(*types.Pointer).Elem()
			v := x.term(st, x.load(st, ad, el), el)
			r := st.newRef("copy")
			x.store(st, r, el, v)
			a = r
		}
		if ad, ok := a.(*Addr); ok && !c.Trusted && !(ad.kind == "global" && len(ad.path) == 0) {
			panic(unsup("interior pointer passed to %s", c.full()))
		}
		vars[c.Params[i]] = SV{x.term(st, a, tys[i]), tys[i]}
	}
	pkg := x.V.pkgOf(c.Pkg)
	pre := st.snap()
	env := &Env{V: x.V, pkg: pkg, vars: vars, st: pre, old: pre, a0: pre.alloc}
	short := c.Key
	for i, r := range c.Requires {
		t := env.bool(r.E)
		x.vc(st, "requires", fmt.Sprintf("call %s/requires%s", short, label(r, i)), t, pos)
		st.assume(t)
	}
	locs := x.modLocs(c, env)
	for _, l := range locs {
		if l.all {
			st.havocAll()
			locs = nil
			break
		}
	}
	if len(locs) > 0 || (sig.Results().Len() == 0 && len(c.Ensures) > 0) {
		st.histMark()
		a := st.fresh("allocM", SInt)
		st.assume(Le(st.alloc, a))
		st.alloc = a
	}
	for _, l := range locs {
		for _, h := range l.heaps {
			x.V.heapSorts[h.name] = h.sort
			switch {
			case l.glob:
				st.globalSet(h.name, st.fresh("mod!"+h.name, h.sort))
			case l.ref == nil:
				st.noteWrite(h.name, nil)
				nb := st.fresh("mod!"+h.name, h.sort)
				st.assume(closedFact(h.name, 0, nb, st.alloc))
				st.heap[h.name] = nb
				st.histAdd(h.name, nb, pre.alloc)
			default:
				_, vs := splitArr(h.sort)
				nb := st.fresh("mod!"+h.name, vs)
				st.heapSet(h.name, h.sort, l.ref, nb)
				st.hist[len(st.hist)-1].alloc = pre.alloc
				st.assume(closedFact(h.name, 1, nb, st.alloc))
				if strings.HasPrefix(h.name, "MD:") {
					st.assume(Implies(Eq(l.ref, IntLit(0)), Eq(nb, ConstArr(vs, tFalse))))
				}
			}
		}
	}
	res := x.setResults(st, fr, "res!"+short, sig, dest)
	for _, r := range res {
		x.closeResult(st, r)
	}
	for i, r := range res {
		if i < len(c.Results) {
			vars[c.Results[i]] = r
		}
		vars[fmt.Sprintf("result%d", i)] = r
		if len(res) == 1 {
			vars["result"] = r
		}
	}
	post := &Env{V: x.V, pkg: pkg, vars: vars, st: st, old: pre, a0: pre.alloc}
	for _, e := range c.Ensures {
		if ownLabel(e.Label) == "" {
			st.assume(post.bool(e.E))
		}
	}
	for _, e := range c.Gives {
		st.assume(post.bool(e.E))
	}
}

// closeResult: what a returned slice or map holds is allocated by the time the call returns.
func (x *Exec) closeResult(st *State, r SV) {
	switch u := under(r.ty).(type) {
	case *types.Slice:
		hn, hs := sliceHeap(u.Elem()), sliceHeapSort(u.Elem())
		st.assume(closedFact(hn, 1, Select(st.heapGet(hn, hs), slRef(r.t)), st.alloc))
	case *types.Map:
		hn, hs := mapVal(r.ty), mapValSort(r.ty)
		st.assume(closedFact(hn, 1, Select(st.heapGet(hn, hs), r.t), st.alloc))
	case *types.Interface:
		if u.NumMethods() == 0 {
			el := types.NewInterfaceType(nil, nil)
			sl := types.NewSlice(el)
			hn, hs := sliceHeap(el), sliceHeapSort(el)
			if _, ok := st.heap[hn]; ok || x.V.heapSorts[hn] != "" {
				st.assume(Implies(isType(r.t, sl), closedFact(hn, 1, Select(st.heapGet(hn, hs), slRef(unboxAny(r.t, sl))), st.alloc)))
			}
		}
	}
}

// ---------------------------------------------------------------------------
// builtins

func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, dest ssa.Value, pos token.Pos) Val {
	argT := func(i int) types.Type { return cc.Args[i].Type() }
	T := func(i int) *Term { return x.term(st, args[i], argT(i)) }
	switch b.Name() {
	case "len":
		if ad, ok := args[0].(*Addr); ok {
			if at, ok := under(under(argT(0)).(*types.Pointer).Elem()).(*types.Array); ok {
				_ = ad
				return IntLit(at.Len())
			}
		}
		return x.lenTerm(st, T(0), argT(0))
	case "cap":
		if sortOf(argT(0)) == SSlice {
			return slCap(T(0))
		}
		return x.lenTerm(st, T(0), argT(0))
	case "append":
		return x.appendB(st, fr, T(0), T(1), argT(0), argT(1))
	case "copy":
		d := T(0)
		el := under(argT(0)).(*types.Slice).Elem()
		n := st.fresh("ncopy", SInt)
		var sl *Term
		s := T(1)
		if s.Sort == SStr {
			sl = strLen(s)
		} else {
			sl = slLen(s)
		}
		st.assume(And(Le(n, slLen(d)), Le(n, sl), Or(Eq(n, slLen(d)), Eq(n, sl))))
		hn, hs := sliceHeap(el), sliceHeapSort(el)
		h := st.heapGet(hn, hs)
		_, as := splitArr(hs)
		B := st.fresh("copyB", as)
		A := Select(h, slRef(d))
		st.heapSet(hn, hs, slRef(d), B)
		j := BoundVar("j!cp", SInt)
		st.assume(Forall([]*Term{j}, Implies(Or(Lt(j, slOff(d)), Le(Add(slOff(d), n), j)), Eq(Select(B, j), Select(A, j))), []*Term{Select(B, j)}))
		if s.Sort == SSlice {
			S := Select(h, slRef(s))
			st.assume(Forall([]*Term{j}, Implies(And(Le(IntLit(0), j), Lt(j, n)), Eq(elemTerm(B, slOff(d), j), elemTerm(S, slOff(s), j))), []*Term{elemTerm(B, slOff(d), j)}, []*Term{elemTerm(S, slOff(s), j)}))
		}
		return n
	case "delete":
		mt := argT(0)
		m, k := T(0), T(1)
		ds := mapDomSort(mt)
		d := Select(st.heapGet(mapDom(mt), ds), m)
		nd := Store(d, k, tFalse)
		st.assume(Implies(Eq(m, IntLit(0)), Eq(d, ConstArr(d.Sort, tFalse))))
		st.heapSet(mapDom(mt), ds, m, nd)
		st.assume(Eq(cardOf(nd), Sub(cardOf(d), Ite(Select(d, k), IntLit(1), IntLit(0)))))
		st.assume(Le(IntLit(0), cardOf(nd)))
		return nil
	case "clear":
		mt := argT(0)
		if _, ok := under(mt).(*types.Map); ok {
			ds := mapDomSort(mt)
			_, in := splitArr(ds)
			st.heapSet(mapDom(mt), ds, T(0), ConstArr(in, tFalse))
			return nil
		}
	case "min", "max":
		r := T(0)
		for i := 1; i < len(args); i++ {
			y := T(i)
			if b.Name() == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Le(r, y), y, r)
			}
		}
		return r
	case "close", "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		return ANil()
	}
	panic(unsup("builtin %s", b.Name()))
}

func (x *Exec) appendB(st *State, fr *Frame, s, t *Term, sty, tty types.Type) *Term {
	el := under(sty).(*types.Slice).Elem()
	hn, hs := sliceHeap(el), sliceHeapSort(el)
	h := st.heapGet(hn, hs)
	_, as := splitArr(hs)
	var n *Term
	if t.Sort == SStr {
		n = strLen(t)
	} else {
		n = slLen(t)
	}
	if n == IntLit(0) {
		return s
	}
	newLen := Add(slLen(s), n)
	if slLen(s) == IntLit(0) {
		newLen = n
	}
	inplace := Le(newLen, slCap(s))
	r0 := st.newRef("append")
	ref := Ite(inplace, slRef(s), r0)
	off := Ite(inplace, slOff(s), IntLit(0))
	ncap := st.fresh("ncap", SInt)
	st.assume(Le(newLen, ncap))
	cp := Ite(inplace, slCap(s), ncap)
	A := Select(h, slRef(s))
	B := st.fresh("appB", as)
	if inplace == tFalse {
		// only a fresh backing array is written: no write to existing memory
		st.assume(Eq(Select(h, r0), B))
	} else {
		st.heapSet(hn, hs, ref, B)
	}
	i := BoundVar("i!ap", SInt)
	if slLen(s) != IntLit(0) {
		st.assume(Forall([]*Term{i}, Implies(And(Le(IntLit(0), i), Lt(i, slLen(s))), Eq(elemTerm(B, off, i), elemTerm(A, slOff(s), i))), []*Term{elemTerm(B, off, i)}, []*Term{elemTerm(A, slOff(s), i)}))
	}
	if t.Sort == SSlice {
		S := Select(h, slRef(t))
		if k, ok := litInt(n); ok && k <= 8 {
			for j := int64(0); j < k; j++ {
				src := elemTerm(S, slOff(t), IntLit(j))
				// resolve stores into a varargs array
				st.assume(Eq(elemTerm(B, off, Add(slLen(s), IntLit(j))), src))
				st.assume(Eq(src, Select(S, Add(slOff(t), IntLit(j)))))
			}
		} else {
			st.assume(Forall([]*Term{i}, Implies(And(Le(slLen(s), i), Lt(i, newLen)), Eq(elemTerm(B, off, i), elemTerm(S, slOff(t), Sub(i, slLen(s))))), []*Term{elemTerm(B, off, i)}))
		}
	}
	if inplace != tFalse {
		st.assume(Implies(inplace, Forall([]*Term{i}, Implies(Or(Lt(i, Add(slOff(s), slLen(s))), Le(Add(slOff(s), newLen), i)), Eq(Select(B, i), Select(A, i))), []*Term{Select(B, i)})))
	}
	return MkCtor("mkSlice", SSlice, ref, off, newLen, cp)
}

// ---------------------------------------------------------------------------
// intrinsics: functions with built-in meaning

func (x *Exec) intrinsic(st *State, fr *Frame, f *ssa.Function, cc *ssa.CallCommon, args []Val, dest ssa.Value, pos token.Pos) bool {
	name := externName(f)
	set := func(v Val) {
		if dest != nil {
			fr.regs[dest] = v
		}
	}
	switch {
	case strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex)."):
		if dest != nil {
			set(st.fresh("trylock", SBool))
		}
		x.assumed["mutex operations are no-ops (sequential reasoning; lock discipline not proved)"] = true
		return true
	case strings.HasPrefix(name, "(github.com/go-logr/logr.Logger)."):
		x.assumed["logging has no effect"] = true
		x.setResults(st, fr, "log", f.Signature, dest)
		return true
	case name == "fmt.Errorf" || name == "errors.New" || strings.HasPrefix(name, "k8s.io/apimachinery/pkg/api/errors.New"):
		x.assumed["error constructors return a non-nil error"] = true
		rs := x.setResults(st, fr, "err!"+f.Name(), f.Signature, dest)
		t := rs[0].t
		if t.Sort == SAny {
			st.assume(Not(IsCtor("ANil", t)))
		} else {
			st.assume(Not(Eq(t, IntLit(0))))
		}
		return true
	case name == "fmt.Sprintf" && x.sprintf(st, fr, cc) != nil:
		set(x.sprintf(st, fr, cc))
		return true
	case name == "fmt.Sprintf" || name == "fmt.Sprint":
		x.assumed["fmt.Sprintf returns an arbitrary string"] = true
		set(st.fresh("sprintf", SStr))
		return true
	case name == "strings.HasPrefix":
		set(AppUF("str_prefix", SBool, x.term(st, args[1], tyStr), x.term(st, args[0], tyStr)))
		return true
	case name == "strings.HasSuffix":
		set(AppUF("str_suffix", SBool, x.term(st, args[1], tyStr), x.term(st, args[0], tyStr)))
		return true
	case name == "strings.Contains":
		set(AppUF("str_contains", SBool, x.term(st, args[0], tyStr), x.term(st, args[1], tyStr)))
		return true
	}
	return false
}

// deadVarargs: the argument array of a call whose arguments are never looked at
// (logging, error and text formatting): writing it changes nothing anyone reads.
func (x *Exec) deadVarargs(a *ssa.Alloc) bool {
	if v, ok := x.deadVA[a]; ok {
		return v
	}
	if x.deadVA == nil {
		x.deadVA = map[*ssa.Alloc]bool{}
	}
	ok := a.Comment == "varargs" && a.Referrers() != nil
	if ok {
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				for _, rr := range *r.Referrers() {
					if s, is := rr.(*ssa.Store); !is || s.Addr != r {
						ok = false
					}
				}
			case *ssa.Slice:
				for _, rr := range *r.Referrers() {
					c, is := rr.(*ssa.Call)
					if !is {
						ok = false
						continue
					}
					f := c.Call.StaticCallee()
					if f == nil {
						ok = false
						continue
					}
					if x.V.contractFor(f) != nil || f.Pkg == nil || strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath) {
						ok = false
					}
				}
			default:
				ok = false
			}
		}
	}
	x.deadVA[a] = ok
	return ok
}

// sprintf: the text of a constant format with only %s of plain strings; nil when it is not of that form.
func (x *Exec) sprintf(st *State, fr *Frame, cc *ssa.CallCommon) *Term {
	f, ok := cc.Args[0].(*ssa.Const)
	if !ok || f.Value == nil || f.Value.Kind() != constant.String {
		return nil
	}
	format := constant.StringVal(f.Value)
	args, ok := varargVals(cc.Args[1])
	if !ok {
		return nil
	}
	parts := strings.Split(format, "%")
	var ts []*Term
	lit := func(s string) {
		if s != "" {
			ts = append(ts, StrLit(s))
		}
	}
	lit(parts[0])
	for i, p := range parts[1:] {
		if p == "" || (p[0] != 's' && p[0] != 'v') || i >= len(args) {
			return nil
		}
		mi, ok := args[i].(*ssa.MakeInterface)
		if !ok {
			if p[0] == 'v' && isIface(args[i].Type()) { // the text of a value is a function of the value
				x.assumed["fmt's %v text of an interface value is a function of the value"] = true
				ts = append(ts, AppUF("uf:fmtv", SStr, x.tval(st, fr, args[i])))
				lit(p[1:])
				continue
			}
			return nil
		}
		b, ok := mi.X.Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.String {
			return nil
		}
		for _, ty := range []types.Type{mi.X.Type(), types.NewPointer(mi.X.Type())} {
			if types.NewMethodSet(ty).Len() > 0 {
				return nil
			}
		}
		ts = append(ts, x.tval(st, fr, mi.X))
		lit(p[1:])
	}
	if len(parts)-1 != len(args) {
		return nil
	}
	if len(ts) == 0 {
		return StrLit("")
	}
	r := ts[0]
	for _, t := range ts[1:] {
		r = strCat(r, t)
	}
	return r
}

// varargVals: the values of an argument list written out at the call.
func varargVals(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok || a.Comment != "varargs" {
		return nil, false
	}
	n := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
	out := make([]ssa.Value, n)
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, rr := range *ia.Referrers() {
			s, ok := rr.(*ssa.Store)
			if !ok || out[c.Int64()] != nil {
				return nil, false
			}
			out[c.Int64()] = s.Val
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

// ownLabel returns the property a clause labelled like "C11-and" belongs to: such a clause is
// proved for that property only, and callers do not rely on it.
func ownLabel(l string) string {
	if len(l) > 4 && l[0] == 'C' && l[3] == '-' && l[1] >= '0' && l[1] <= '9' && l[2] >= '0' && l[2] <= '9' {
		return l[:3]
	}
	return ""
}
