package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Terms: hash-consed SMT terms with light simplification.

type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SStr   Sort = "Str"
	SFlt   Sort = "Flt"
	SSlice Sort = "Slice"
	SAny   Sort = "Any"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splitArr returns key and value sorts of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[len("(Array ") : len(str)-1]
	depth := 0
	inq := false
	for i, c := range body {
		switch c {
		case '|':
			inq = !inq
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 && !inq {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

type Kind int

const (
	KConst Kind = iota // free constant
	KInt               // integer literal
	KStr               // string literal
	KBool              // true/false
	KBound             // bound variable
	KApp               // application
	KQuant             // forall / exists
)

type Term struct {
	Kind  Kind
	Op    string // name of constant, function, bound var, or "forall"/"exists"
	Args  []*Term
	Sort  Sort
	Vars  []*Term   // bound variables of a quantifier
	Pats  [][]*Term // patterns
	id    int
	open  bool // contains bound variables
	isUF  bool // Op is a declared uninterpreted function
	size  int
	named string
}

type Ctx struct {
	tab  map[string]*Term
	next int
	ufs  map[string]*UF // signatures
}

type UF struct {
	Name string
	Args []Sort
	Ret  Sort
}

var C = newCtx()

func newCtx() *Ctx { return &Ctx{tab: map[string]*Term{}, ufs: map[string]*UF{}} }

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s", t.Kind, t.Op, t.Sort)
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, v := range t.Vars {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(v.id))
	}
	for _, p := range t.Pats {
		b.WriteByte('{')
		for _, x := range p {
			b.WriteString(strconv.Itoa(x.id))
			b.WriteByte(' ')
		}
	}
	k := b.String()
	if x, ok := c.tab[k]; ok {
		return x
	}
	c.next++
	t.id = c.next
	t.size = 1
	if t.Kind == KBound {
		t.open = true
	}
	for _, a := range t.Args {
		t.size += a.size
		if a.open {
			t.open = true
		}
	}
	if t.Kind == KQuant {
		// open only if free bound variables remain; conservative: recompute
		t.open = len(freeBound(t)) > 0
	}
	c.tab[k] = t
	return t
}

func freeBound(t *Term) map[*Term]bool {
	res := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term, bound map[*Term]bool)
	walk = func(t *Term, bound map[*Term]bool) {
		if !t.open && t.Kind != KQuant && t.id != 0 {
			return
		}
		if t.Kind == KBound {
			if !bound[t] {
				res[t] = true
			}
			return
		}
		if len(bound) == 0 {
			if seen[t] {
				return
			}
			seen[t] = true
		}
		b := bound
		if t.Kind == KQuant {
			b = map[*Term]bool{}
			for k := range bound {
				b[k] = true
			}
			for _, v := range t.Vars {
				b[v] = true
			}
		}
		for _, a := range t.Args {
			walk(a, b)
		}
	}
	walk(t, map[*Term]bool{})
	return res
}

func (t *Term) String() string { return printTerm(t, nil) }

func Const(name string, s Sort) *Term { return C.mk(&Term{Kind: KConst, Op: name, Sort: s}) }
func BoundVar(name string, s Sort) *Term {
	return C.mk(&Term{Kind: KBound, Op: name, Sort: s})
}
func IntLit(n int64) *Term {
	return C.mk(&Term{Kind: KInt, Op: strconv.FormatInt(n, 10), Sort: SInt})
}
func BigIntLit(s string) *Term { return C.mk(&Term{Kind: KInt, Op: s, Sort: SInt}) }
func StrLit(s string) *Term    { return C.mk(&Term{Kind: KStr, Op: s, Sort: SStr}) }

var tTrue = C.mk(&Term{Kind: KBool, Op: "true", Sort: SBool})
var tFalse = C.mk(&Term{Kind: KBool, Op: "false", Sort: SBool})

func BoolLit(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func app(op string, s Sort, args ...*Term) *Term {
	return C.mk(&Term{Kind: KApp, Op: op, Args: args, Sort: s})
}

// DeclUF registers an uninterpreted function.
func DeclUF(name string, ret Sort, args ...Sort) *UF {
	if u, ok := C.ufs[name]; ok {
		if len(u.Args) != len(args) || u.Ret != ret {
			panic(fmt.Sprintf("UF %s redeclared: %v %v vs %v %v", name, u.Args, u.Ret, args, ret))
		}
		for i := range args {
			if u.Args[i] != args[i] {
				panic(fmt.Sprintf("UF %s redeclared: %v %v vs %v %v", name, u.Args, u.Ret, args, ret))
			}
		}
		return u
	}
	u := &UF{name, args, ret}
	C.ufs[name] = u
	return u
}

func AppUF(name string, ret Sort, args ...*Term) *Term {
	ss := make([]Sort, len(args))
	for i, a := range args {
		ss[i] = a.Sort
	}
	DeclUF(name, ret, ss...)
	if len(args) == 0 {
		return Const(name, ret)
	}
	return C.mk(&Term{Kind: KApp, Op: name, Args: args, Sort: ret, isUF: true})
}

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.Kind == KApp && a.Op == "not":
		return a.Args[0]
	}
	return app("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tTrue || seen[a] {
			return true
		}
		if a == tFalse {
			return false
		}
		if a.Kind == KApp && a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return app("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = Not(a)
	}
	n := And(ns...)
	switch {
	case n == tTrue:
		return tFalse
	case n == tFalse:
		return tTrue
	case n.Kind == KApp && n.Op == "and":
		ps := make([]*Term, len(n.Args))
		for i, a := range n.Args {
			ps[i] = Not(a)
		}
		return app("or", SBool, ps...)
	}
	return Not(n)
}

func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return app("=>", SBool, a, b)
}

func isLit(t *Term) bool { return t.Kind == KInt || t.Kind == KStr || t.Kind == KBool }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in =: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if isLit(a) && isLit(b) {
		return tFalse
	}
	if a.Sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if isCtor(a) && isCtor(b) {
		if a.Op != b.Op {
			return tFalse
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	// linear: c + x = c' etc. left to solver
	if a.id > b.id {
		a, b = b, a
	}
	return app("=", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in ite: %s vs %s", a.Sort, b.Sort))
	}
	if a.Sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
	}
	return app("ite", a.Sort, c, a, b)
}

func litInt(t *Term) (int64, bool) {
	if t.Kind == KInt {
		n, err := strconv.ParseInt(t.Op, 10, 64)
		return n, err == nil
	}
	return 0, false
}

func Add(a, b *Term) *Term {
	x, ok1 := litInt(a)
	y, ok2 := litInt(b)
	if ok1 && ok2 {
		return IntLit(x + y)
	}
	if ok1 && x == 0 {
		return b
	}
	if ok2 && y == 0 {
		return a
	}
	if ok1 && !ok2 {
		a, b = b, a
		y, ok2 = x, true
	}
	// (t + c) + c'
	if ok2 && a.Kind == KApp && a.Op == "+" && len(a.Args) == 2 {
		if c, ok := litInt(a.Args[1]); ok {
			return Add(a.Args[0], IntLit(c+y))
		}
	}
	return app("+", SInt, a, b)
}
func Sub(a, b *Term) *Term {
	if y, ok := litInt(b); ok {
		return Add(a, IntLit(-y))
	}
	if a == b {
		return IntLit(0)
	}
	return app("-", SInt, a, b)
}
func Mul(a, b *Term) *Term {
	x, ok1 := litInt(a)
	y, ok2 := litInt(b)
	if ok1 && ok2 {
		return IntLit(x * y)
	}
	if ok1 && x == 1 {
		return b
	}
	if ok2 && y == 1 {
		return a
	}
	return app("*", SInt, a, b)
}
func Le(a, b *Term) *Term {
	x, ok1 := litInt(a)
	y, ok2 := litInt(b)
	if ok1 && ok2 {
		return BoolLit(x <= y)
	}
	if a == b {
		return tTrue
	}
	return app("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }

func Select(a, i *Term) *Term {
	_, vs := splitArr(a.Sort)
	for a.Kind == KApp && a.Op == "store" {
		j := a.Args[1]
		if j == i {
			return a.Args[2]
		}
		if provDistinct(i, j) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Kind == KApp && a.Op == "constarr" {
		return a.Args[0]
	}
	return app("select", vs, a, i)
}

// provDistinct: syntactically certain disequality
func provDistinct(a, b *Term) bool {
	if isLit(a) && isLit(b) {
		return a != b
	}
	ba, ca := splitOff(a)
	bb, cb := splitOff(b)
	if ba == bb && ca != cb {
		return true
	}
	return false
}

func splitOff(t *Term) (*Term, int64) {
	if t.Kind == KApp && t.Op == "+" && len(t.Args) == 2 && t.Sort == SInt {
		if c, ok := litInt(t.Args[1]); ok {
			return t.Args[0], c
		}
	}
	return t, 0
}

func Store(a, i, v *Term) *Term {
	_, vs := splitArr(a.Sort)
	if v.Sort != vs {
		panic(fmt.Sprintf("store sort mismatch: %s into %s", v.Sort, a.Sort))
	}
	if a.Kind == KApp && a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return app("store", a.Sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return app("constarr", s, v) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if len(vars) == 0 || body == tTrue || body == tFalse {
		return body
	}
	return C.mk(&Term{Kind: KQuant, Op: "forall", Vars: vars, Args: []*Term{body}, Sort: SBool, Pats: pats})
}
func Exists(vars []*Term, body *Term) *Term {
	if len(vars) == 0 || body == tTrue || body == tFalse {
		return body
	}
	return C.mk(&Term{Kind: KQuant, Op: "exists", Vars: vars, Args: []*Term{body}, Sort: SBool})
}

// ---------------------------------------------------------------------------
// datatypes

type Ctor struct {
	Name string
	Sels []Sel
}
type Sel struct {
	Name string
	Sort Sort
}
type Datatype struct {
	Sort  Sort
	Ctors []*Ctor
}

var datatypes = map[Sort]*Datatype{}
var dtOrder []Sort
var ctorOf = map[string]*Ctor{}
var selIdx = map[string]struct {
	c *Ctor
	i int
}{}

func addCtor(s Sort, name string, sels ...Sel) {
	d := datatypes[s]
	if d == nil {
		d = &Datatype{Sort: s}
		datatypes[s] = d
		dtOrder = append(dtOrder, s)
	}
	c := &Ctor{name, sels}
	d.Ctors = append(d.Ctors, c)
	ctorOf[name] = c
	for i, x := range sels {
		selIdx[x.Name] = struct {
			c *Ctor
			i int
		}{c, i}
	}
}

func isCtor(t *Term) bool {
	if t.Kind != KApp && t.Kind != KConst {
		return false
	}
	_, ok := ctorOf[t.Op]
	return ok
}

func MkCtor(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return Const(name, s)
	}
	c := ctorOf[name]
	if len(c.Sels) != len(args) {
		panic("ctor arity " + name)
	}
	for i := range args {
		if args[i].Sort != c.Sels[i].Sort {
			panic(fmt.Sprintf("ctor %s arg %d sort %s want %s", name, i, args[i].Sort, c.Sels[i].Sort))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x for single-constructor types
	if len(datatypes[s].Ctors) == 1 {
		var base *Term
		ok := true
		for i := range args {
			if args[i].Kind == KApp && args[i].Op == c.Sels[i].Name && (base == nil || base == args[i].Args[0]) {
				base = args[i].Args[0]
			} else {
				ok = false
				break
			}
		}
		if ok && base != nil {
			return base
		}
	}
	return app(name, s, args...)
}

func GetSel(sel string, t *Term) *Term {
	x := selIdx[sel]
	if x.c == nil {
		panic("unknown selector " + sel)
	}
	if t.Kind == KApp && t.Op == x.c.Name {
		return t.Args[x.i]
	}
	if t.Kind == KApp && t.Op == "ite" && (isCtor(t.Args[1]) || isCtor(t.Args[2])) {
		return Ite(t.Args[0], GetSel(sel, t.Args[1]), GetSel(sel, t.Args[2]))
	}
	return app(sel, x.c.Sels[x.i].Sort, t)
}

func IsCtor(name string, t *Term) *Term {
	if isCtor(t) {
		return BoolLit(t.Op == name)
	}
	if t.Kind == KApp && t.Op == "ite" && (isCtor(t.Args[1]) || isCtor(t.Args[2])) {
		return Ite(t.Args[0], IsCtor(name, t.Args[1]), IsCtor(name, t.Args[2]))
	}
	return app("is!"+name, SBool, t)
}

func init() {
	addCtor(SSlice, "mkSlice", Sel{"sl.ref", SInt}, Sel{"sl.off", SInt}, Sel{"sl.len", SInt}, Sel{"sl.cap", SInt})
	addCtor(SAny, "ANil")
	addCtor(SAny, "ABool", Sel{"ab.tid", SInt}, Sel{"ab.v", SBool})
	addCtor(SAny, "AInt", Sel{"ai.tid", SInt}, Sel{"ai.v", SInt})
	addCtor(SAny, "AStr", Sel{"as.tid", SInt}, Sel{"as.v", SStr})
	addCtor(SAny, "AFlt", Sel{"af.tid", SInt}, Sel{"af.v", SFlt})
	addCtor(SAny, "ARef", Sel{"ar.tid", SInt}, Sel{"ar.v", SInt})
	addCtor(SAny, "ASlice", Sel{"asl.tid", SInt}, Sel{"asl.v", SSlice})
}

var tANil = func() *Term { return nil }

func ANil() *Term { return Const("ANil", SAny) }

// ---------------------------------------------------------------------------
// printing

func smtSym(s string) string {
	ok := len(s) > 0
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '!' || c == '.' || c == '-' || (c >= '0' && c <= '9' && i > 0)) {
			ok = false
			break
		}
	}
	if ok {
		return s
	}
	s = strings.NewReplacer("|", "¦", "\\", "/").Replace(s)
	return "|" + s + "|"
}

type printer struct {
	strLits  map[string]string
	native   bool
	names    map[*Term]string
	out      *strings.Builder
	consts   map[string]Sort
	ufs      map[string]bool
	usedDT   map[Sort]bool
	sortsUse map[string]bool
}

func printTerm(t *Term, p *printer) string {
	if p != nil {
		if n, ok := p.names[t]; ok {
			return n
		}
	}
	switch t.Kind {
	case KConst:
		return smtSym(t.Op)
	case KInt:
		if strings.HasPrefix(t.Op, "-") {
			return "(- " + t.Op[1:] + ")"
		}
		return t.Op
	case KStr:
		if p != nil && p.native {
			return smtString(t.Op)
		}
		if p != nil {
			if n, ok := p.strLits[t.Op]; ok {
				return n
			}
			n := fmt.Sprintf("lit!%d", len(p.strLits))
			p.strLits[t.Op] = n
			return n
		}
		return strconv.Quote(t.Op)
	case KBool, KBound:
		return smtSym(t.Op)
	case KQuant:
		var b strings.Builder
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			b.WriteString("(" + smtSym(v.Op) + " " + sortStr(v.Sort, p) + ")")
		}
		b.WriteString(") ")
		body := printTerm(t.Args[0], p)
		if len(t.Pats) > 0 {
			b.WriteString("(! " + body)
			for _, ps := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range ps {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(printTerm(x, p))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	}
	var b strings.Builder
	b.WriteByte('(')
	switch {
	case t.Op == "constarr":
		b.WriteString("(as const " + sortStr(t.Sort, p) + ")")
	case strings.HasPrefix(t.Op, "is!"):
		b.WriteString("(_ is " + smtSym(t.Op[3:]) + ")")
	default:
		if p != nil && p.native {
			if n, ok := nativeStrOps[t.Op]; ok {
				b.WriteString(n)
				break
			}
		}
		b.WriteString(smtSym(t.Op))
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(printTerm(a, p))
	}
	b.WriteByte(')')
	return b.String()
}

// string operations: uninterpreted by default, native in string mode
var nativeStrOps = map[string]string{
	"str_cat": "str.++", "str_len": "str.len", "str_prefix": "str.prefixof", "str_suffix": "str.suffixof",
	"str_contains": "str.contains", "str_fromint": "str.from_int", "str_substr": "str.substr", "str_indexof": "str.indexof",
	"str_lt": "str.<",
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"':
			b.WriteString("\"\"")
		case r == '\\' || r < 32 || r > 126:
			fmt.Fprintf(&b, "\\u{%x}", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func sortStr(s Sort, p *printer) string {
	if p != nil && p.native {
		return replaceStrSort(string(s))
	}
	return string(s)
}

func replaceStrSort(s string) string {
	if !strings.Contains(s, "Str") {
		return s
	}
	// token-wise replace of Str outside |...|
	var b strings.Builder
	i := 0
	for i < len(s) {
		if s[i] == '|' {
			j := strings.IndexByte(s[i+1:], '|')
			b.WriteString(s[i : i+j+2])
			i += j + 2
			continue
		}
		j := i
		for j < len(s) && s[j] != ' ' && s[j] != '(' && s[j] != ')' && s[j] != '|' {
			j++
		}
		if j > i {
			tok := s[i:j]
			if tok == "Str" {
				tok = "String"
			}
			b.WriteString(tok)
			i = j
		} else {
			b.WriteByte(s[i])
			i++
		}
	}
	return b.String()
}

// Script renders an SMT-LIB script asserting all hyps; extraCmds appended.
func Script(hyps []*Term, native bool, tail string) string {
	p := &printer{strLits: map[string]string{}, native: native, names: map[*Term]string{}, consts: map[string]Sort{}, ufs: map[string]bool{}}
	// count occurrences of closed subterms
	cnt := map[*Term]int{}
	var order []*Term
	sorts := map[Sort]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		sorts[t.Sort] = true
		for _, v := range t.Vars {
			sorts[v.Sort] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, ps := range t.Pats {
			for _, x := range ps {
				walk(x)
			}
		}
		switch {
		case t.Kind == KConst && ctorOf[t.Op] == nil:
			p.consts[t.Op] = t.Sort
		case t.Kind == KApp && C.ufs[t.Op] != nil:
			p.ufs[t.Op] = true
		}
		order = append(order, t)
	}
	for _, h := range hyps {
		walk(h)
	}
	// if-then-else is not allowed in patterns: closed ones there get a constant of their own
	patIte := map[*Term]bool{}
	seenP := map[*Term]bool{}
	var walkPat func(t *Term)
	walkPat = func(t *Term) {
		if seenP[t] {
			return
		}
		seenP[t] = true
		if t.Kind == KApp && t.Op == "ite" && !t.open {
			patIte[t] = true
		}
		for _, a := range t.Args {
			walkPat(a)
		}
	}
	for _, t := range order {
		for _, ps := range t.Pats {
			for _, x := range ps {
				walkPat(x)
			}
		}
	}
	var defs, body strings.Builder
	nn := 0
	for _, t := range order {
		if patIte[t] {
			s := printTerm(t, p)
			n := fmt.Sprintf("$%d", nn)
			nn++
			fmt.Fprintf(&defs, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, sortStr(t.Sort, p), n, s)
			p.names[t] = n
			continue
		}
		if t.Kind == KApp && cnt[t] > 1 && !t.open && t.size > 3 {
			s := printTerm(t, p)
			n := fmt.Sprintf("$%d", nn)
			nn++
			fmt.Fprintf(&defs, "(define-fun %s () %s %s)\n", n, sortStr(t.Sort, p), s)
			p.names[t] = n
		}
	}
	for _, h := range hyps {
		body.WriteString("(assert " + printTerm(h, p) + ")\n")
	}
	var out strings.Builder
	out.WriteString("(set-logic ALL)\n")
	if !native {
		out.WriteString("(declare-sort Str 0)\n")
	}
	out.WriteString("(declare-sort Flt 0)\n")
	for _, s := range sortedOpaque() {
		fmt.Fprintf(&out, "(declare-sort %s 0)\n", s)
	}
	// datatypes (all in one block)
	out.WriteString("(declare-datatypes (")
	for _, s := range dtOrder {
		fmt.Fprintf(&out, "(%s 0) ", s)
	}
	out.WriteString(") (\n")
	for _, s := range dtOrder {
		out.WriteString(" (")
		for _, c := range datatypes[s].Ctors {
			out.WriteString("(" + smtSym(c.Name))
			for _, x := range c.Sels {
				fmt.Fprintf(&out, " (%s %s)", smtSym(x.Name), sortStr(x.Sort, p))
			}
			out.WriteString(") ")
		}
		out.WriteString(")\n")
	}
	out.WriteString("))\n")
	// string literals
	if !native && len(p.strLits) > 0 {
		lits := make([]string, 0)
		inv := map[string]string{}
		for v, n := range p.strLits {
			inv[n] = v
			lits = append(lits, n)
		}
		sort.Strings(lits)
		for _, n := range lits {
			fmt.Fprintf(&out, "(declare-const %s Str) ; %s\n", n, strings.ReplaceAll(strconv.Quote(inv[n]), "\n", " "))
		}
		if len(lits) > 1 {
			out.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
		}
	}
	cs := make([]string, 0, len(p.consts))
	for n := range p.consts {
		cs = append(cs, n)
	}
	sort.Strings(cs)
	for _, n := range cs {
		fmt.Fprintf(&out, "(declare-const %s %s)\n", smtSym(n), sortStr(p.consts[n], p))
	}
	us := make([]string, 0)
	for n := range p.ufs {
		us = append(us, n)
	}
	sort.Strings(us)
	for _, n := range us {
		if native {
			if _, ok := nativeStrOps[n]; ok {
				continue
			}
		}
		u := C.ufs[n]
		out.WriteString("(declare-fun " + smtSym(n) + " (")
		for i, a := range u.Args {
			if i > 0 {
				out.WriteByte(' ')
			}
			out.WriteString(sortStr(a, p))
		}
		out.WriteString(") " + sortStr(u.Ret, p) + ")\n")
	}
	// string literal length facts in uninterpreted mode
	if !native && p.ufs["str_len"] {
		for v, n := range p.strLits {
			fmt.Fprintf(&out, "(assert (= (str_len %s) %d))\n", n, len(v))
		}
	}
	if !native && (p.ufs["str_at"] || p.ufs["str_of_rune"]) {
		for v, n := range p.strLits {
			if p.ufs["str_at"] && len(v) <= 32 {
				for i := 0; i < len(v); i++ {
					fmt.Fprintf(&out, "(assert (= (str_at %s %d) %d))\n", n, i, v[i])
				}
			}
			if p.ufs["str_of_rune"] && len(v) == 1 && v[0] < 128 {
				fmt.Fprintf(&out, "(assert (= (str_of_rune %d) %s))\n", v[0], n)
			}
		}
	}
	out.WriteString(defs.String())
	out.WriteString(body.String())
	out.WriteString(tail)
	return out.String()
}

var opaqueSorts = map[string]bool{}

func sortedOpaque() []string {
	var r []string
	for s := range opaqueSorts {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}
