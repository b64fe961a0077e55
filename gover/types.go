package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Go types -> SMT sorts

func typeStr(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	return strings.ReplaceAll(s, "interface{}", "any")
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func sortOf(t types.Type) Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SFlt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UnsafePointer:
			return SInt
		case u.Kind() == types.UntypedNil:
			return SAny
		}
		return opaque("basic_" + u.Name())
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SAny
	case *types.Struct:
		return structSort(t)
	case *types.Array:
		return ArrSort(SInt, sortOf(u.Elem()))
	case *types.TypeParam:
		return opaque("tparam_" + typeStr(t))
	case *types.Tuple:
		return SInt
	}
	return opaque("type_" + typeStr(t))
}

func opaque(name string) Sort {
	s := smtSym("O_" + name)
	opaqueSorts[s] = true
	return Sort(s)
}

type structInfo struct {
	sort   Sort
	name   string
	st     *types.Struct
	opaque bool
	any    bool // has an Any constructor
}

var structInfos = map[string]*structInfo{}

func structSort(t types.Type) Sort { return structOf(t).sort }

// isBigExternal: struct values we do not look into
func isBigExternal(t types.Type, st *types.Struct) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	if strings.HasPrefix(p.Path(), modulePath) {
		return false
	}
	if p.Path() == "sync" || p.Path() == "time" || strings.HasPrefix(p.Path(), "sync/") {
		return true
	}
	if st.NumFields() > 14 {
		return true
	}
	return false
}

func structOf(t types.Type) *structInfo {
	key := typeStr(types.Unalias(t))
	if si, ok := structInfos[key]; ok {
		return si
	}
	st := under(t).(*types.Struct)
	si := &structInfo{name: key, st: st}
	structInfos[key] = si
	if isBigExternal(t, st) {
		si.opaque = true
		si.sort = opaque("struct_" + key)
		return si
	}
	si.sort = Sort(smtSym("S_" + key))
	sels := make([]Sel, st.NumFields())
	// register name before recursing so that recursion terminates
	for i := 0; i < st.NumFields(); i++ {
		sels[i] = Sel{fmt.Sprintf("%s#%s", key, fieldName(st, i)), sortOf(st.Field(i).Type())}
	}
	if len(sels) == 0 {
		sels = append(sels, Sel{key + "#!unit", SInt})
	}
	addCtor(si.sort, "mk:"+key, sels...)
	return si
}

func fieldName(st *types.Struct, i int) string {
	n := st.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

func structGet(t types.Type, v *Term, i int) *Term {
	si := structOf(t)
	fs := sortOf(si.st.Field(i).Type())
	if si.opaque {
		return AppUF("get:"+si.name+"#"+fieldName(si.st, i), fs, v)
	}
	return GetSel(fmt.Sprintf("%s#%s", si.name, fieldName(si.st, i)), v)
}

func mkStruct(t types.Type, fields []*Term) *Term {
	si := structOf(t)
	if si.opaque {
		return AppUF("mkop:"+si.name, si.sort, fields...)
	}
	if len(fields) == 0 {
		fields = []*Term{IntLit(0)}
	}
	return MkCtor("mk:"+si.name, si.sort, fields...)
}

func zeroOf(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Struct:
		si := structOf(t)
		if si.opaque {
			return Const("zero:"+si.name, si.sort)
		}
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(t, fs)
	}
	return zeroSort(sortOf(t))
}

func zeroSort(s Sort) *Term {
	switch s {
	case SBool:
		return tFalse
	case SInt:
		return IntLit(0)
	case SStr:
		return StrLit("")
	case SFlt:
		return Const("flt!0", SFlt)
	case SAny:
		return ANil()
	case SSlice:
		return nilSlice()
	}
	if strings.HasPrefix(string(s), "(Array ") {
		_, v := splitArr(s)
		return ConstArr(s, zeroSort(v))
	}
	for _, si := range structInfos {
		if si.sort == s && !si.opaque {
			fs := make([]*Term, si.st.NumFields())
			for i := range fs {
				fs[i] = zeroOf(si.st.Field(i).Type())
			}
			if len(fs) == 0 {
				fs = []*Term{IntLit(0)}
			}
			return MkCtor("mk:"+si.name, si.sort, fs...)
		}
	}
	return Const("zero:"+string(s), s)
}

func nilSlice() *Term {
	return MkCtor("mkSlice", SSlice, IntLit(0), IntLit(0), IntLit(0), IntLit(0))
}
func slRef(s *Term) *Term { return GetSel("sl.ref", s) }
func slOff(s *Term) *Term { return GetSel("sl.off", s) }
func slLen(s *Term) *Term { return GetSel("sl.len", s) }
func slCap(s *Term) *Term { return GetSel("sl.cap", s) }

// ---------------------------------------------------------------------------
// type ids for interface values

var typeIDs = map[string]int64{}
var typeByID = map[int64]types.Type{}
var ifaceTypes = map[string]*types.Interface{}
var ifaceFull = map[string]types.Type{}

func typeID(t types.Type) *Term {
	k := typeStr(types.Unalias(t))
	if id, ok := typeIDs[k]; ok {
		return IntLit(id)
	}
	id := int64(len(typeIDs) + 1)
	typeIDs[k] = id
	typeByID[id] = t
	return IntLit(id)
}

// anyCtor returns the constructor, tid selector and value selector for boxing values of type t.
func anyCtor(t types.Type) (string, string, string) {
	switch sortOf(t) {
	case SBool:
		return "ABool", "ab.tid", "ab.v"
	case SInt:
		switch under(t).(type) {
		case *types.Basic:
			return "AInt", "ai.tid", "ai.v"
		}
		return "ARef", "ar.tid", "ar.v"
	case SStr:
		return "AStr", "as.tid", "as.v"
	case SFlt:
		return "AFlt", "af.tid", "af.v"
	case SSlice:
		return "ASlice", "asl.tid", "asl.v"
	}
	s := sortOf(t)
	n := "ABox:" + typeStr(types.Unalias(t))
	if ctorOf[n] == nil {
		addCtor(SAny, n, Sel{n + ".tid", SInt}, Sel{n + ".v", s})
		boxTypes[n] = t
	}
	return n, n + ".tid", n + ".v"
}

func boxAny(t types.Type, v *Term) *Term {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	c, _, _ := anyCtor(t)
	return MkCtor(c, SAny, typeID(t), v)
}

func isType(v *Term, t types.Type) *Term {
	c, tid, _ := anyCtor(t)
	return And(IsCtor(c, v), Eq(GetSel(tid, v), typeID(t)))
}

func unboxAny(v *Term, t types.Type) *Term {
	_, _, val := anyCtor(t)
	return GetSel(val, v)
}

// implements as a predicate on type ids
func implTerm(v *Term, it types.Type) *Term {
	i := under(it).(*types.Interface)
	k := typeStr(types.Unalias(it))
	ifaceTypes[k] = i
	ifaceFull[k] = it
	if i.NumMethods() == 0 {
		return Not(IsCtor("ANil", v))
	}
	if isCtor(v) && v.Kind == KApp {
		if id, ok := litInt(v.Args[0]); ok {
			return BoolLit(types.Implements(typeByID[id], i))
		}
	}
	return And(Not(IsCtor("ANil", v)), AppUF("impl:"+k, SBool, tidOf(v)))
}

func tidOf(v *Term) *Term {
	if isCtor(v) && v.Kind == KApp {
		return v.Args[0]
	}
	return AppUF("tidOf", SInt, v)
}

// typeFacts yields facts on impl:* for the known concrete types (background axioms) and tidOf.
func typeFacts(ufUsed func(string) bool) []*Term {
	var out []*Term
	ids := make([]int64, 0)
	for id := range typeByID {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	ks := make([]string, 0)
	for k := range ifaceTypes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	used := false
	for _, k := range ks {
		if !ufUsed("impl:" + k) {
			continue
		}
		used = true
		for _, id := range ids {
			b := types.Implements(typeByID[id], ifaceTypes[k])
			f := AppUF("impl:"+k, SBool, IntLit(id))
			if !b {
				f = Not(f)
			}
			out = append(out, f)
		}
	}
	if used || ufUsed("tidOf") {
		x := BoundVar("x!a", SAny)
		for _, c := range datatypes[SAny].Ctors {
			if len(c.Sels) == 0 {
				continue
			}
			out = append(out, Forall([]*Term{x}, Implies(IsCtor(c.Name, x), Eq(AppUF("tidOf", SInt, x), GetSel(c.Sels[0].Name, x))),
				[]*Term{AppUF("tidOf", SInt, x)}))
		}
	}
	return out
}

// wfVal: type-level facts that hold of every Go value of type t (len >= 0 and so on).
func wfVal(t types.Type, v *Term) *Term {
	switch u := under(t).(type) {
	case *types.Slice:
		if v.Kind == KApp && v.Op == "mkSlice" {
			if _, ok := litInt(v.Args[2]); ok {
				return tTrue
			}
		}
		return And(Le(IntLit(0), slOff(v)), Le(IntLit(0), slLen(v)), Le(slLen(v), slCap(v)), Le(IntLit(0), slRef(v)),
			Implies(Eq(slRef(v), IntLit(0)), And(Eq(slCap(v), IntLit(0)), Eq(slOff(v), IntLit(0)))))
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 && u.Info()&types.IsInteger != 0 {
			return Le(IntLit(0), v)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Le(IntLit(0), v)
	case *types.Struct:
		if structOf(t).opaque || u.NumFields() > 12 {
			return tTrue
		}
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, wfVal(u.Field(i).Type(), structGet(t, v, i)))
		}
		return And(cs...)
	case *types.Interface:
		return And(Implies(IsCtor("ASlice", v), wfVal(sliceOfInt, GetSel("asl.v", v))),
			Implies(IsCtor("ARef", v), Le(IntLit(0), GetSel("ar.v", v))))
	}
	return tTrue
}

var sliceOfInt = types.NewSlice(types.Typ[types.Int])

// allocBound: every reference inside v is at most a.
func allocBound(t types.Type, v, a *Term) *Term {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return Le(v, a)
	case *types.Slice:
		return Le(slRef(v), a)
	case *types.Interface:
		return And(Implies(IsCtor("ARef", v), Le(GetSel("ar.v", v), a)),
			Implies(IsCtor("ASlice", v), Le(slRef(GetSel("asl.v", v)), a)), AppUF("abnd", SBool, v, a))
	case *types.Struct:
		if structOf(t).opaque || u.NumFields() > 12 {
			return tTrue
		}
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, allocBound(u.Field(i).Type(), structGet(t, v, i), a))
		}
		return And(cs...)
	}
	return tTrue
}

// abndAxioms define abnd: what a boxed struct refers to is allocated up to a. Other interface values need no condition here.
func abndAxioms() []*Term {
	a := BoundVar("a!ab", SInt)
	var out []*Term
	add := func(c string, body func(v *Term, app *Term) *Term) {
		var vs []*Term
		for i, f := range ctorOf[c].Sels {
			vs = append(vs, BoundVar(fmt.Sprintf("f%d!ab", i), f.Sort))
		}
		v := MkCtor(c, SAny, vs...)
		app := AppUF("abnd", SBool, v, a)
		out = append(out, Forall(append(vs, a), body(v, app), []*Term{app}))
	}
	for _, c := range []string{"ANil", "ABool", "AInt", "AStr", "AFlt", "ARef", "ASlice"} {
		add(c, func(v, app *Term) *Term { return app })
	}
	for _, n := range sortedKeys(boxTypes) {
		t := boxTypes[n]
		if st, ok := under(t).(*types.Struct); !ok || structOf(t).opaque || st.NumFields() > 12 {
			continue
		}
		add(n, func(v, app *Term) *Term { return Eq(app, allocBound(t, GetSel(n+".v", v), a)) })
	}
	return out
}

var boxTypes = map[string]types.Type{}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}
