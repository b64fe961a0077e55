package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Spec types

// SetType is the mathematical set type of the contract language.
type SetType struct{ K types.Type }

func (s *SetType) Underlying() types.Type { return s }
func (s *SetType) String() string         { return "set[" + typeStr(s.K) + "]" }

// SeqType: mathematical array Int -> T
type ArrType struct{ K, V types.Type }

func (s *ArrType) Underlying() types.Type { return s }
func (s *ArrType) String() string         { return "arr[" + typeStr(s.K) + "]" + typeStr(s.V) }

type SV struct {
	t  *Term
	ty types.Type // nil for untyped nil
}

var tyInt = types.Typ[types.Int]
var tyBool = types.Typ[types.Bool]
var tyStr = types.Typ[types.String]
var tyAny = types.NewInterfaceType(nil, nil)

// a type named by its package path
var pathRe = regexp.MustCompile(`[\w.\-]+(/[\w\-.]*[\w\-])+\.\w+`)

func (V *Verifier) resolveType(text string, pkg *types.Package) types.Type {
	text = strings.TrimSpace(text)
	if strings.HasPrefix(text, "set[") {
		return &SetType{V.resolveType(text[4:len(text)-1], pkg)}
	}
	if strings.HasPrefix(text, "arr[") {
		k := strings.Index(text, "]")
		return &ArrType{V.resolveType(text[4:k], pkg), V.resolveType(text[k+1:], pkg)}
	}
	key := text
	if pkg != nil {
		key = pkg.Path() + "|" + text
	}
	if t, ok := V.tyCache[key]; ok {
		return t
	}
	var paths []string
	src := pathRe.ReplaceAllStringFunc(text, func(m string) string {
		k := strings.LastIndex(m, ".")
		paths = append(paths, m[:k])
		return "path__" + strconv.Itoa(len(paths)-1) + m[k:]
	})
	e, err := parser.ParseExpr(src)
	if err != nil {
		panic(specErr("bad type %q: %v", text, err))
	}
	V.tyPaths = paths
	t := V.astType(e, pkg, text)
	V.tyCache[key] = t
	return t
}

func (V *Verifier) astType(e ast.Expr, pkg *types.Package, text string) types.Type {
	switch e := e.(type) {
	case *ast.Ident:
		if pkg != nil {
			if o := pkg.Scope().Lookup(e.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		if o := types.Universe.Lookup(e.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if pkg != nil { // a type declared inside a function
			if tn := localType(pkg.Scope(), e.Name); tn != nil {
				return tn.Type()
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(V.astType(e.X, pkg, text))
	case *ast.ArrayType:
		if e.Len == nil {
			return types.NewSlice(V.astType(e.Elt, pkg, text))
		}
	case *ast.MapType:
		return types.NewMap(V.astType(e.Key, pkg, text), V.astType(e.Value, pkg, text))
	case *ast.InterfaceType:
		return tyAny
	case *ast.StructType:
		if e.Fields == nil || len(e.Fields.List) == 0 {
			return types.NewStruct(nil, nil)
		}
	case *ast.SelectorExpr:
		id, ok := e.X.(*ast.Ident)
		if !ok {
			break
		}
		var cands []*types.Package
		if n, ok := strings.CutPrefix(id.Name, "path__"); ok {
			k, _ := strconv.Atoi(n)
			for _, p := range V.P.tpsSorted() {
				if p.Path() == V.tyPaths[k] {
					if tn, ok := p.Scope().Lookup(e.Sel.Name).(*types.TypeName); ok {
						return tn.Type()
					}
				}
			}
			break
		}
		if pkg != nil {
			for _, i := range pkg.Imports() {
				cands = append(cands, i)
			}
		}
		for _, p := range V.P.tpsSorted() {
			cands = append(cands, p)
		}
		for _, p := range cands {
			if p.Name() != id.Name && !strings.HasSuffix(p.Path(), "/"+id.Name) && aliasName(p.Path()) != id.Name {
				continue
			}
			if o := p.Scope().Lookup(e.Sel.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	panic(specErr("cannot resolve type %q in package %v", text, pkg))
}

func localType(sc *types.Scope, name string) *types.TypeName {
	for i := 0; i < sc.NumChildren(); i++ {
		c := sc.Child(i)
		if tn, ok := c.Lookup(name).(*types.TypeName); ok {
			return tn
		}
		if tn := localType(c, name); tn != nil {
			return tn
		}
	}
	return nil
}

// aliasName: conventional import aliases (…/meta/v1 -> metav1, …/core/v1 -> corev1)
func aliasName(path string) string {
	ps := strings.Split(path, "/")
	if len(ps) >= 2 {
		return ps[len(ps)-2] + ps[len(ps)-1]
	}
	return path
}

type specError string

func specErr(f string, a ...any) specError { return specError(fmt.Sprintf(f, a...)) }

// ---------------------------------------------------------------------------
// Evaluation environment

type Env struct {
	V      *Verifier
	pkg    *types.Package
	vars   map[string]SV
	st     *State // current heap
	old    *State // pre heap
	a0     *Term  // alloc at "old" (for fresh)
	depth  int
	reads  map[string]Sort   // collects heap names when non-nil
	lentry func(e *Env) *Env // environment at the entry of the current loop
}

func (e *Env) with(n string, v SV) *Env {
	c := *e
	c.vars = make(map[string]SV, len(e.vars)+1)
	for k, x := range e.vars {
		c.vars[k] = x
	}
	c.vars[n] = v
	return &c
}

func (e *Env) heap(name string, s Sort) *Term {
	if e.reads != nil {
		e.reads[name] = s
	}
	return e.st.heapGet(name, s)
}

func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := under(t).(*types.Interface)
	return ok
}

func (e *Env) bool(x *SExpr) *Term {
	v := e.eval(x)
	if v.t.Sort != SBool {
		panic(specErr("expected bool, got %s", v.t.Sort))
	}
	return v.t
}

// coerce two operands to a common type
func (e *Env) unify(a, b SV) (SV, SV) {
	if a.ty == nil && b.ty == nil {
		return SV{IntLit(0), tyInt}, SV{IntLit(0), tyInt}
	}
	if a.ty == nil {
		b2, a2 := e.unify(b, a)
		return a2, b2
	}
	if b.ty == nil { // nil
		switch under(a.ty).(type) {
		case *types.Interface:
			return a, SV{ANil(), a.ty}
		case *types.Slice:
			return SV{slRef(a.t), tyInt}, SV{IntLit(0), tyInt}
		default:
			if a.t.Sort == SInt {
				return SV{a.t, tyInt}, SV{IntLit(0), tyInt}
			}
			panic(specErr("nil compared with %s", typeStr(a.ty)))
		}
	}
	if isIface(a.ty) && !isIface(b.ty) && a.t.Sort != b.t.Sort {
		return a, SV{boxAny(defaultType(b.ty), b.t), a.ty}
	}
	if isIface(b.ty) && !isIface(a.ty) && a.t.Sort != b.t.Sort {
		return SV{boxAny(defaultType(a.ty), a.t), b.ty}, b
	}
	return a, b
}

func defaultType(t types.Type) types.Type { return types.Default(t) }

func (e *Env) eval(x *SExpr) SV {
	switch x.Op {
	case "int":
		return SV{BigIntLit(x.Name), tyInt}
	case "str":
		return SV{StrLit(x.Name), tyStr}
	case "bool":
		return SV{BoolLit(x.Name == "true"), tyBool}
	case "nil":
		return SV{nil, nil}
	case "ident":
		if v, ok := e.vars[x.Name]; ok {
			return v
		}
		if m, ok := e.V.spec.Macros[x.Name]; ok && len(m.Params) == 0 {
			return e.macro(m, nil)
		}
		// package-level constant or variable
		if e.pkg != nil {
			if o := e.pkg.Scope().Lookup(x.Name); o != nil {
				switch o := o.(type) {
				case *types.Const:
					return constSV(o.Val().ExactString(), o.Val(), o.Type())
				case *types.Var:
					s := sortOf(o.Type())
					return SV{e.heap("G:"+e.pkg.Path()+"."+x.Name, s), o.Type()}
				}
			}
		}
		panic(specErr("unknown identifier %q", x.Name))
	case "let":
		return e.with(x.Name, e.eval(x.Args[0])).eval(x.Args[1])
	case "ite":
		c := e.bool(x.Args[0])
		a, b := e.unify(e.eval(x.Args[1]), e.eval(x.Args[2]))
		return SV{Ite(c, a.t, b.t), a.ty}
	case "un":
		switch x.Name {
		case "!":
			return SV{Not(e.bool(x.Args[0])), tyBool}
		case "-":
			v := e.eval(x.Args[0])
			return SV{Sub(IntLit(0), v.t), v.ty}
		case "*":
			v := e.eval(x.Args[0])
			pt, ok := under(v.ty).(*types.Pointer)
			if !ok {
				panic(specErr("* of non-pointer %s", typeStr(v.ty)))
			}
			return SV{e.loadObj(pt.Elem(), v.t), pt.Elem()}
		}
	case "bin":
		return e.bin(x)
	case "field":
		// qualified package constant / var: pkg.Name
		if id := x.Args[0]; id.Op == "ident" {
			if _, ok := e.vars[id.Name]; !ok {
				for _, p := range e.V.P.tpsSorted() {
					if p.Name() == id.Name || aliasName(p.Path()) == id.Name {
						if o := p.Scope().Lookup(x.Name); o != nil {
							switch o := o.(type) {
							case *types.Const:
								return constSV(o.Val().ExactString(), o.Val(), o.Type())
							case *types.Var:
								return SV{e.heap("G:"+p.Path()+"."+x.Name, sortOf(o.Type())), o.Type()}
							}
						}
					}
				}
			}
		}
		return e.field(e.eval(x.Args[0]), x.Name)
	case "index":
		b := e.eval(x.Args[0])
		i := e.eval(x.Args[1])
		return e.index(b, i)
	case "call":
		return e.call(x)
	case "forall", "exists":
		env := e
		var bs []*Term
		for _, v := range x.Vars {
			ty := e.V.resolveType(v.Type, e.pkg)
			e.V.bcount++
			b := BoundVar(fmt.Sprintf("%s!%d", v.Name, e.V.bcount), sortOf(ty))
			bs = append(bs, b)
			env = env.with(v.Name, SV{b, ty})
		}
		body := env.bool(x.Args[0])
		if x.Op == "exists" {
			return SV{Exists(bs, body), tyBool}
		}
		var pats [][]*Term
		for _, ps := range x.Pats {
			var q []*Term
			for _, p := range ps {
				q = append(q, env.eval(p).t)
			}
			pats = append(pats, q)
		}
		return SV{Forall(bs, body, pats...), tyBool}
	}
	panic(specErr("cannot evaluate %s %s", x.Op, x.Name))
}

func (e *Env) bin(x *SExpr) SV {
	switch x.Name {
	case "&&":
		return SV{And(e.bool(x.Args[0]), e.bool(x.Args[1])), tyBool}
	case "||":
		return SV{Or(e.bool(x.Args[0]), e.bool(x.Args[1])), tyBool}
	case "==>":
		return SV{Implies(e.bool(x.Args[0]), e.bool(x.Args[1])), tyBool}
	case "<==>":
		return SV{Eq(e.bool(x.Args[0]), e.bool(x.Args[1])), tyBool}
	case "in":
		k := e.eval(x.Args[0])
		s := e.eval(x.Args[1])
		switch u := under(s.ty).(type) {
		case *SetType:
			k, _ = e.unify(k, SV{nil2(u.K), u.K})
			return SV{Select(s.t, k.t), tyBool}
		case *types.Map:
			k = e.coerceTo(k, u.Key())
			return SV{Select(Select(e.heap(mapDom(s.ty), mapDomSort(s.ty)), s.t), k.t), tyBool}
		}
		panic(specErr("in: not a set or map: %s", typeStr(s.ty)))
	}
	a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
	switch x.Name {
	case "==", "!=":
		a, b = e.unify(a, b)
		if a.t.Sort != b.t.Sort {
			panic(specErr("== on different sorts %s %s", a.t.Sort, b.t.Sort))
		}
		r := Eq(a.t, b.t)
		if x.Name == "!=" {
			r = Not(r)
		}
		return SV{r, tyBool}
	case "<", "<=", ">", ">=":
		if a.t.Sort == SStr {
			switch x.Name {
			case "<":
				return SV{AppUF("str_lt", SBool, a.t, b.t), tyBool}
			case ">":
				return SV{AppUF("str_lt", SBool, b.t, a.t), tyBool}
			case "<=":
				return SV{Not(AppUF("str_lt", SBool, b.t, a.t)), tyBool}
			default:
				return SV{Not(AppUF("str_lt", SBool, a.t, b.t)), tyBool}
			}
		}
		if a.t.Sort == SFlt {
			switch x.Name {
			case "<":
				return SV{AppUF("flt_lt", SBool, a.t, b.t), tyBool}
			case ">":
				return SV{AppUF("flt_lt", SBool, b.t, a.t), tyBool}
			case "<=":
				return SV{AppUF("flt_le", SBool, a.t, b.t), tyBool}
			default:
				return SV{AppUF("flt_le", SBool, b.t, a.t), tyBool}
			}
		}
		switch x.Name {
		case "<":
			return SV{Lt(a.t, b.t), tyBool}
		case "<=":
			return SV{Le(a.t, b.t), tyBool}
		case ">":
			return SV{Lt(b.t, a.t), tyBool}
		default:
			return SV{Le(b.t, a.t), tyBool}
		}
	case "+":
		if a.t.Sort == SStr {
			return SV{strCat(a.t, b.t), tyStr}
		}
		return SV{Add(a.t, b.t), a.ty}
	case "-":
		return SV{Sub(a.t, b.t), a.ty}
	case "*":
		return SV{Mul(a.t, b.t), a.ty}
	case "/":
		return SV{app("div", SInt, a.t, b.t), a.ty}
	case "%":
		return SV{app("mod", SInt, a.t, b.t), a.ty}
	}
	panic(specErr("bad operator %s", x.Name))
}

func nil2(t types.Type) *Term { return zeroOf(t) }

func strCat(a, b *Term) *Term {
	if a.Kind == KStr && b.Kind == KStr {
		return StrLit(a.Op + b.Op)
	}
	if a.Kind == KStr && a.Op == "" {
		return b
	}
	if b.Kind == KStr && b.Op == "" {
		return a
	}
	// right-assoc normal form
	if a.Kind == KApp && a.Op == "str_cat" {
		return strCat(a.Args[0], strCat(a.Args[1], b))
	}
	if a.Kind == KStr && b.Kind == KApp && b.Op == "str_cat" && b.Args[0].Kind == KStr {
		return AppUF("str_cat", SStr, StrLit(a.Op+b.Args[0].Op), b.Args[1])
	}
	return AppUF("str_cat", SStr, a, b)
}

func (e *Env) coerceTo(v SV, ty types.Type) SV {
	if v.ty == nil {
		return SV{zeroOf(ty), ty}
	}
	if isIface(ty) && !isIface(v.ty) {
		return SV{boxAny(defaultType(v.ty), v.t), ty}
	}
	if v.t.Sort != sortOf(ty) {
		panic(specErr("cannot use %s as %s", typeStr(v.ty), typeStr(ty)))
	}
	return SV{v.t, ty}
}

// --- heap naming

func derefStruct(t types.Type) (types.Type, bool) {
	if p, ok := under(t).(*types.Pointer); ok {
		if _, ok := under(p.Elem()).(*types.Struct); ok {
			return p.Elem(), true
		}
	}
	return nil, false
}

func fieldHeap(st types.Type, i int) (string, Sort, types.Type) {
	s := under(st).(*types.Struct)
	ft := s.Field(i).Type()
	n := "F:" + typeStr(types.Unalias(st)) + "#" + fieldName(s, i)
	heapElemTy[n] = ft
	return n, ArrSort(SInt, sortOf(ft)), ft
}

// heapElemTy: Go type of the values held by a heap array
var heapElemTy = map[string]types.Type{}

// closedFact: every reference held by (a component of) a heap array is at most a.
// level 0: the whole array; level 1: the content of one object.
func closedFact(name string, level int, arr, a *Term) *Term {
	ty := heapElemTy[name]
	if ty == nil {
		return tTrue
	}
	nested := strings.HasPrefix(name, "MV:") || strings.HasPrefix(name, "M:")
	mk := func(v *Term) *Term { return And(wfVal(ty, v), allocBound(ty, v, a)) }
	if !nested {
		if level == 1 {
			return mk(arr)
		}
		r := BoundVar("r!cl", SInt)
		v := Select(arr, r)
		return Forall([]*Term{r}, Implies(Le(r, a), mk(v)), []*Term{v})
	}
	if level == 1 {
		k, _ := splitArr(arr.Sort)
		b := BoundVar("k!cl", k)
		v := Select(arr, b)
		return Forall([]*Term{b}, mk(v), []*Term{v})
	}
	r := BoundVar("r!cl", SInt)
	in := Select(arr, r)
	k, _ := splitArr(in.Sort)
	b := BoundVar("k!cl", k)
	v := Select(in, b)
	return Forall([]*Term{r, b}, Implies(Le(r, a), mk(v)), []*Term{v})
}

// mget: map read with Go's default semantics
func mgetTerm(d, v, k *Term, el types.Type) *Term {
	name := "mget:" + string(d.Sort) + string(v.Sort)
	if _, ok := mgetZero[name]; !ok {
		mgetZero[name] = zeroOf(el)
	}
	return AppUF(name, sortOf(el), d, v, k)
}

var mgetZero = map[string]*Term{}

func mapKeyStr(t types.Type) string {
	m := under(t).(*types.Map)
	return "map[" + typeStr(types.Unalias(m.Key())) + "]" + normTypeStr(m.Elem())
}

// normTypeStr: type aliases resolved deeply enough for heap naming
func normTypeStr(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Map:
		return "map[" + normTypeStr(u.Key()) + "]" + normTypeStr(u.Elem())
	case *types.Slice:
		return "[]" + normTypeStr(u.Elem())
	case *types.Pointer:
		return "*" + normTypeStr(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "any"
		}
	}
	return typeStr(types.Unalias(t))
}

func mapDom(t types.Type) string { return "MD:" + mapKeyStr(t) }
func mapVal(t types.Type) string {
	n := "MV:" + mapKeyStr(t)
	heapElemTy[n] = under(t).(*types.Map).Elem()
	return n
}
func mapDomSort(t types.Type) Sort {
	m := under(t).(*types.Map)
	return ArrSort(SInt, ArrSort(sortOf(m.Key()), SBool))
}
func mapValSort(t types.Type) Sort {
	m := under(t).(*types.Map)
	return ArrSort(SInt, ArrSort(sortOf(m.Key()), sortOf(m.Elem())))
}
func sliceHeap(elem types.Type) string {
	n := "M:" + normTypeStr(elem)
	heapElemTy[n] = elem
	return n
}
func sliceHeapSort(elem types.Type) Sort {
	return ArrSort(SInt, ArrSort(SInt, sortOf(elem)))
}
func cellHeap(t types.Type) string {
	n := "C:" + normTypeStr(t)
	heapElemTy[n] = t
	return n
}
func cellSort(t types.Type) Sort { return ArrSort(SInt, sortOf(t)) }

// elem(A, off, i): trigger-friendly slice element access
func elemTerm(a, off, i *Term) *Term {
	_, vs := splitArr(a.Sort)
	return AppUF("elem:"+string(vs), vs, a, off, i)
}

// --- accessors

func (e *Env) loadObj(t types.Type, ref *Term) *Term {
	if st, ok := under(t).(*types.Struct); ok {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			n, s, _ := fieldHeap(t, i)
			fs[i] = Select(e.heap(n, s), ref)
		}
		return mkStruct(t, fs)
	}
	return Select(e.heap(cellHeap(t), cellSort(t)), ref)
}

func (e *Env) field(v SV, name string) SV {
	if v.ty == nil {
		panic(specErr("field %s of nil", name))
	}
	t := v.ty
	obj, path, _ := types.LookupFieldOrMethod(t, true, e.V.scopePkg(t, e.pkg), name)
	if obj == nil {
		// try from the defining package of any embedded type
		panic(specErr("no field %s in %s", name, typeStr(t)))
	}
	if _, ok := obj.(*types.Var); !ok {
		panic(specErr("%s is not a field of %s", name, typeStr(t)))
	}
	cur := v
	for _, i := range path {
		if st, ok := derefStruct(cur.ty); ok {
			n, s, ft := fieldHeap(st, i)
			cur = SV{Select(e.heap(n, s), cur.t), ft}
			continue
		}
		st := under(cur.ty).(*types.Struct)
		cur = SV{structGet(cur.ty, cur.t, i), st.Field(i).Type()}
	}
	return cur
}

func (V *Verifier) scopePkg(t types.Type, dflt *types.Package) *types.Package {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return dflt
}

func (e *Env) index(b, i SV) SV {
	switch u := under(b.ty).(type) {
	case *types.Map:
		i = e.coerceTo(i, u.Key())
		d := Select(e.heap(mapDom(b.ty), mapDomSort(b.ty)), b.t)
		v := Select(e.heap(mapVal(b.ty), mapValSort(b.ty)), b.t)
		return SV{mgetTerm(d, v, i.t, u.Elem()), u.Elem()}
	case *types.Slice:
		a := Select(e.heap(sliceHeap(u.Elem()), sliceHeapSort(u.Elem())), slRef(b.t))
		return SV{elemTerm(a, slOff(b.t), i.t), u.Elem()}
	case *types.Array:
		return SV{Select(b.t, i.t), u.Elem()}
	case *SetType:
		return SV{Select(b.t, e.coerceTo(i, u.K).t), tyBool}
	case *ArrType:
		return SV{Select(b.t, e.coerceTo(i, u.K).t), u.V}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return SV{AppUF("str_at", SInt, b.t, i.t), types.Typ[types.Byte]}
		}
	}
	panic(specErr("cannot index %s", typeStr(b.ty)))
}

func (e *Env) macro(m *MacroDef, args []SV) SV {
	if len(args) != len(m.Params) {
		panic(specErr("%s: want %d args", m.Name, len(m.Params)))
	}
	if e.depth > 40 {
		panic(specErr("macro recursion in %s", m.Name))
	}
	c := *e
	c.depth++
	c.pkg = e.V.pkgOf(m.Pkg)
	c.vars = map[string]SV{}
	for i, p := range m.Params {
		ty := e.V.resolveType(p.Type, c.pkg)
		c.vars[p.Name] = c.coerceTo(args[i], ty)
	}
	r := c.eval(m.Body)
	if m.Ret != "" {
		r = c.coerceTo(r, e.V.resolveType(m.Ret, c.pkg))
	}
	return r
}

func (V *Verifier) pkgOf(path string) *types.Package { return V.P.tps[path] }

func (e *Env) call(x *SExpr) SV {
	arg := func(i int) SV {
		if i >= len(x.Args) {
			panic(specErr("%s: missing argument %d", x.Name, i))
		}
		return e.eval(x.Args[i])
	}
	typeArg := func(i int) types.Type {
		if i >= len(x.Args) || (x.Args[i].Op != "type" && x.Args[i].Op != "ident") {
			panic(specErr("%s: argument %d must be a type", x.Name, i))
		}
		return e.V.resolveType(x.Args[i].Name, e.pkg)
	}
	switch x.Name {
	case "old":
		if e.old == nil {
			panic(specErr("old() not available here"))
		}
		c := *e
		c.st = e.old
		return c.eval(x.Args[0])
	case "entry":
		if e.lentry == nil {
			panic(specErr("entry() is only available in loop invariants"))
		}
		return e.lentry(e).eval(x.Args[0])
	case "len":
		v := arg(0)
		return SV{e.lenOf(v), tyInt}
	case "cap":
		return SV{slCap(arg(0).t), tyInt}
	case "ref":
		v := arg(0)
		if v.t.Sort == SSlice {
			return SV{slRef(v.t), tyInt}
		}
		return SV{v.t, tyInt}
	case "off":
		return SV{slOff(arg(0).t), tyInt}
	case "dom":
		v := arg(0)
		m, ok := under(v.ty).(*types.Map)
		if !ok {
			panic(specErr("dom of %s", typeStr(v.ty)))
		}
		return SV{Select(e.heap(mapDom(v.ty), mapDomSort(v.ty)), v.t), &SetType{m.Key()}}
	case "vals":
		v := arg(0)
		m := under(v.ty).(*types.Map)
		return SV{Select(e.heap(mapVal(v.ty), mapValSort(v.ty)), v.t), &ArrType{m.Key(), m.Elem()}}
	case "card":
		v := arg(0)
		return SV{cardOf(v.t), tyInt}
	case "emptyset":
		t := typeArg(0)
		return SV{ConstArr(ArrSort(sortOf(t), SBool), tFalse), &SetType{t}}
	case "setadd":
		s := arg(0)
		return SV{Store(s.t, e.coerceTo(arg(1), s.ty.(*SetType).K).t, tTrue), s.ty}
	case "setdel":
		s := arg(0)
		return SV{Store(s.t, e.coerceTo(arg(1), s.ty.(*SetType).K).t, tFalse), s.ty}
	case "fresh":
		v := arg(0)
		r := v.t
		if r.Sort == SSlice {
			r = slRef(r)
		}
		if r.Sort == SAny {
			r = GetSel("ar.v", r)
		}
		return SV{And(Lt(e.a0, r), Le(r, e.st.alloc)), tyBool}
	case "allocated":
		v := arg(0)
		r := v.t
		if r.Sort == SSlice {
			r = slRef(r)
		}
		return SV{And(Lt(IntLit(0), r), Le(r, e.st.alloc)), tyBool}
	case "typeis":
		v := arg(0)
		t := typeArg(1)
		if isIface(t) {
			return SV{implTerm(v.t, t), tyBool}
		}
		return SV{isType(v.t, t), tyBool}
	case "unbox":
		t := typeArg(1)
		return SV{unboxAny(arg(0).t, t), t}
	case "box":
		v := arg(0)
		if isIface(v.ty) {
			return v
		}
		if len(x.Args) > 1 {
			// box(v, T): v as a dynamic value of type T
			t := typeArg(1)
			return SV{boxAny(t, e.coerceTo(v, t).t), tyAny}
		}
		return SV{boxAny(defaultType(v.ty), v.t), tyAny}
	case "wf":
		// type-level well-formedness and allocation bound of a value
		v := arg(0)
		if _, isMacro := e.V.spec.Macros["wf"]; !isMacro {
			return SV{And(wfVal(v.ty, v.t), allocBound(v.ty, v.t, e.st.alloc)), tyBool}
		}
	case "prefixof":
		return SV{AppUF("str_prefix", SBool, arg(0).t, arg(1).t), tyBool}
	case "suffixof":
		return SV{AppUF("str_suffix", SBool, arg(0).t, arg(1).t), tyBool}
	case "contains":
		return SV{AppUF("str_contains", SBool, arg(0).t, arg(1).t), tyBool}
	case "substr":
		return SV{AppUF("str_substr", SStr, arg(0).t, arg(1).t, arg(2).t), tyStr}
	case "indexof":
		return SV{AppUF("str_indexof", SInt, arg(0).t, arg(1).t, arg(2).t), tyInt}
	case "text":
		return SV{bytesText(e.heap, arg(0).t, arg(0).ty), tyStr}
	case "cast":
		t := typeArg(1)
		v := arg(0)
		if v.t.Sort != sortOf(t) {
			panic(specErr("cast sort mismatch"))
		}
		return SV{v.t, t}
	case "fzero":
		return SV{Const("flt!0", SFlt), types.Typ[types.Float64]}
	case "flt":
		return SV{AppUF("flt_of_int", SFlt, arg(0).t), types.Typ[types.Float64]}
	case "fop":
		if op := x.Args[0].Name; op == "eq" || op == "lt" {
			return SV{AppUF("flt_"+op, SBool, arg(1).t, arg(2).t), tyBool}
		}
		return SV{AppUF("flt_"+x.Args[0].Name, SFlt, arg(1).t, arg(2).t), types.Typ[types.Float64]}
	case "unchanged":
		// map or slice contents / object fields equal to old
		var cs []*Term
		for i := range x.Args {
			v := arg(i)
			o := e.old
			switch u := under(v.ty).(type) {
			case *types.Map:
				cs = append(cs, Eq(Select(e.heap(mapDom(v.ty), mapDomSort(v.ty)), v.t), Select(o.heapGet(mapDom(v.ty), mapDomSort(v.ty)), v.t)),
					Eq(Select(e.heap(mapVal(v.ty), mapValSort(v.ty)), v.t), Select(o.heapGet(mapVal(v.ty), mapValSort(v.ty)), v.t)))
			case *types.Slice:
				n, s := sliceHeap(u.Elem()), sliceHeapSort(u.Elem())
				cs = append(cs, Eq(Select(e.heap(n, s), slRef(v.t)), Select(o.heapGet(n, s), slRef(v.t))))
			default:
				panic(specErr("unchanged of %s", typeStr(v.ty)))
			}
		}
		return SV{And(cs...), tyBool}
	}
	if m, ok := e.V.spec.Macros[x.Name]; ok {
		var as []SV
		for i := range x.Args {
			as = append(as, arg(i))
		}
		return e.macro(m, as)
	}
	if u, ok := e.V.spec.UFs[x.Name]; ok {
		pkg := e.V.pkgOf(u.Pkg)
		if len(u.Args) != len(x.Args) {
			panic(specErr("%s: want %d args, got %d", u.Name, len(u.Args), len(x.Args)))
		}
		var ts []*Term
		for _, r := range u.Reads {
			for _, h := range e.V.heapsOf(r, pkg) {
				ts = append(ts, e.heap(h.name, h.sort))
			}
		}
		for i, a := range u.Args {
			ts = append(ts, e.coerceTo(arg(i), e.V.resolveType(a, pkg)).t)
		}
		rt := e.V.resolveType(u.Ret, pkg)
		return SV{AppUF("uf:"+u.Name, sortOf(rt), ts...), rt}
	}
	if r, ok := e.V.spec.Recs[x.Name]; ok {
		return e.recApp(r, x, arg)
	}
	if f, ok := e.V.foldByName[x.Name]; ok {
		return e.foldApp(f, x, arg)
	}
	panic(specErr("unknown function %q", x.Name))
}

func cardOf(s *Term) *Term {
	if s.Kind == KApp && s.Op == "constarr" && s.Args[0] == tFalse {
		return IntLit(0)
	}
	k, _ := splitArr(s.Sort)
	return AppUF("card:"+string(k), SInt, s)
}

func (e *Env) lenOf(v SV) *Term {
	switch under(v.ty).(type) {
	case *types.Map:
		d := Select(e.heap(mapDom(v.ty), mapDomSort(v.ty)), v.t)
		return cardOf(d)
	case *types.Slice:
		return slLen(v.t)
	case *SetType:
		return cardOf(v.t)
	case *types.Array:
		return IntLit(under(v.ty).(*types.Array).Len())
	}
	if v.t.Sort == SStr {
		return strLen(v.t)
	}
	panic(specErr("len of %s", typeStr(v.ty)))
}

func strLen(t *Term) *Term {
	if t.Kind == KStr {
		return IntLit(int64(len(t.Op)))
	}
	return AppUF("str_len", SInt, t)
}

type heapDesc struct {
	name string
	sort Sort
}

func (V *Verifier) heapsOf(text string, pkg *types.Package) []heapDesc {
	// "T.f" field heap
	if i := strings.LastIndex(text, "#"); i > 0 {
		t := V.resolveType(text[:i], pkg)
		st := under(t).(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == text[i+1:] {
				n, s, _ := fieldHeap(t, k)
				return []heapDesc{{n, s}}
			}
		}
		panic(specErr("no field %s", text))
	}
	t := V.resolveType(text, pkg)
	switch u := under(t).(type) {
	case *types.Map:
		return []heapDesc{{mapDom(t), mapDomSort(t)}, {mapVal(t), mapValSort(t)}}
	case *types.Slice:
		return []heapDesc{{sliceHeap(u.Elem()), sliceHeapSort(u.Elem())}}
	case *types.Pointer:
		if st, ok := under(u.Elem()).(*types.Struct); ok {
			var out []heapDesc
			for k := 0; k < st.NumFields(); k++ {
				n, s, _ := fieldHeap(u.Elem(), k)
				out = append(out, heapDesc{n, s})
			}
			return out
		}
		return []heapDesc{{cellHeap(u.Elem()), cellSort(u.Elem())}}
	}
	panic(specErr("reads %s: not a heap type", text))
}

// --- recursive spec functions

type recInfo struct {
	def   *RecDef
	heaps []heapDesc
	ptys  []types.Type
	ret   types.Type
	busy  bool
	ready bool
}

func (V *Verifier) recInfo(r *RecDef) *recInfo {
	ri := V.recs[r.Name]
	if ri != nil {
		return ri
	}
	pkg := V.pkgOf(r.Pkg)
	ri = &recInfo{def: r}
	V.recs[r.Name] = ri
	for _, p := range r.Params {
		ri.ptys = append(ri.ptys, V.resolveType(p.Type, pkg))
	}
	ri.ret = V.resolveType(r.Ret, pkg)
	// collect heap reads (recursive calls return a placeholder)
	ri.busy = true
	reads := map[string]Sort{}
	st := newState(V)
	env := &Env{V: V, pkg: pkg, vars: map[string]SV{}, st: st, old: st, a0: IntLit(0), reads: reads}
	for i, p := range r.Params {
		env.vars[p.Name] = SV{Const("rp!"+p.Name, sortOf(ri.ptys[i])), ri.ptys[i]}
	}
	env.eval(r.Body)
	ri.busy = false
	for _, n := range sortedKeys(reads) {
		ri.heaps = append(ri.heaps, heapDesc{n, reads[n]})
	}
	ri.ready = true
	return ri
}

func (e *Env) recApp(r *RecDef, x *SExpr, arg func(int) SV) SV {
	ri := e.V.recInfo(r)
	var as []*Term
	if len(x.Args) != len(r.Params) {
		panic(specErr("%s: want %d args", r.Name, len(r.Params)))
	}
	for i := range r.Params {
		as = append(as, e.coerceTo(arg(i), ri.ptys[i]).t)
	}
	if ri.busy {
		return SV{AppUF("recph:"+r.Name, sortOf(ri.ret), as...), ri.ret}
	}
	var ts []*Term
	for _, h := range ri.heaps {
		ts = append(ts, e.heap(h.name, h.sort))
	}
	ts = append(ts, as...)
	return SV{AppUF("rec:"+r.Name, sortOf(ri.ret), ts...), ri.ret}
}

// unfoldRec returns the definition instance for a ground application.
func (V *Verifier) unfoldRec(t *Term) *Term {
	name := strings.TrimPrefix(t.Op, "rec:")
	ri := V.recs[name]
	st := newState(V)
	for i, h := range ri.heaps {
		st.heap[h.name] = t.Args[i]
	}
	env := &Env{V: V, pkg: V.pkgOf(ri.def.Pkg), vars: map[string]SV{}, st: st, old: st, a0: IntLit(0)}
	for i, p := range ri.def.Params {
		env.vars[p.Name] = SV{t.Args[len(ri.heaps)+i], ri.ptys[i]}
	}
	b := env.coerceTo(env.eval(ri.def.Body), ri.ret)
	return Eq(t, b.t)
}

// --- folds: F(params..., S) = sum over k in S of e(params, k), heap arrays as extra arguments

type foldInfo struct {
	def   *FoldDef
	pkg   *types.Package
	heaps []heapDesc
	ptys  []types.Type
	kty   types.Type
}

func (V *Verifier) initFold(f *FoldDef, pkg *types.Package) *foldInfo {
	fi := &foldInfo{def: f, pkg: pkg}
	for _, p := range f.Params {
		fi.ptys = append(fi.ptys, V.resolveType(p.Type, pkg))
	}
	fi.kty = V.resolveType(f.Key.Type, pkg)
	reads := map[string]Sort{}
	st := newState(V)
	env := &Env{V: V, pkg: pkg, vars: map[string]SV{}, st: st, old: st, a0: IntLit(0), reads: reads}
	for i, p := range f.Params {
		env.vars[p.Name] = SV{Const("fp!"+p.Name, sortOf(fi.ptys[i])), fi.ptys[i]}
	}
	env.vars[f.Key.Name] = SV{Const("fk!", sortOf(fi.kty)), fi.kty}
	env.eval(f.E)
	for _, n := range sortedKeys(reads) {
		fi.heaps = append(fi.heaps, heapDesc{n, reads[n]})
	}
	return fi
}

func (e *Env) foldApp(fi *foldInfo, x *SExpr, arg func(int) SV) SV {
	var ts []*Term
	for _, h := range fi.heaps {
		ts = append(ts, e.heap(h.name, h.sort))
	}
	if len(x.Args) != len(fi.ptys)+1 {
		panic(specErr("fold %s: want %d args", fi.def.Name, len(fi.ptys)+1))
	}
	for i := range fi.ptys {
		ts = append(ts, e.coerceTo(arg(i), fi.ptys[i]).t)
	}
	s := arg(len(fi.ptys))
	ts = append(ts, s.t)
	return SV{AppUF("fold:"+fi.def.Name, SInt, ts...), tyInt}
}

// foldAxioms for a ground fold application prefix (heaps+params): base and step, quantified over the set and key.
func (V *Verifier) foldAxioms(t *Term) []*Term {
	fi := V.foldByName[strings.TrimPrefix(t.Op, "fold:")]
	pre := append([]*Term{}, t.Args[:len(t.Args)-1]...)
	var bv []*Term
	for i, a := range pre {
		if a.open {
			pre[i] = BoundVar(fmt.Sprintf("p%d!f", i), a.Sort)
			bv = append(bv, pre[i])
		}
	}
	ss := t.Args[len(t.Args)-1].Sort
	mk := func(s *Term) *Term { return AppUF(t.Op, SInt, append(append([]*Term{}, pre...), s)...) }
	st := newState(V)
	for i, h := range fi.heaps {
		st.heap[h.name] = pre[i]
	}
	env := &Env{V: V, pkg: fi.pkg, vars: map[string]SV{}, st: st, old: st, a0: IntLit(0)}
	for i, p := range fi.def.Params {
		env.vars[p.Name] = SV{pre[len(fi.heaps)+i], fi.ptys[i]}
	}
	S := BoundVar("S!f", ss)
	k := BoundVar("k!f", sortOf(fi.kty))
	env.vars[fi.def.Key.Name] = SV{k, fi.kty}
	ek := env.eval(fi.def.E).t
	step := Forall(append(append([]*Term{}, bv...), S, k), Implies(Not(Select(S, k)), Eq(mk(Store(S, k, tTrue)), Add(mk(S), ek))), []*Term{mk(Store(S, k, tTrue))})
	base := Eq(mk(ConstArr(ss, tFalse)), IntLit(0))
	if len(bv) > 0 {
		base = Forall(bv, base, []*Term{mk(ConstArr(ss, tFalse))})
	}
	return []*Term{base, step}
}
