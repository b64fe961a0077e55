// Package ex: random expressions with an independent evaluator (the documented meaning), and the common checks on
// one evaluation of the real code.
package ex

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-logr/logr"

	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

// E is an expression: Op "" is a literal or path in Lit, "@list" has Args, "@dict" has Keys and Args, every other
// operator has its argument in Args (one: single argument, more: argument list) with List telling the form.
type E struct {
	Op   string
	Lit  any
	Keys []string
	Args []E
	List bool
}

// Tree is the JSON form.
func (e E) Tree() any {
	switch e.Op {
	case "":
		return e.Lit
	case "@list":
		l := []any{}
		for _, a := range e.Args {
			l = append(l, a.Tree())
		}
		return l
	case "@dict":
		m := map[string]any{}
		for i, k := range e.Keys {
			m[k] = e.Args[i].Tree()
		}
		return m
	}
	if e.List {
		return map[string]any{e.Op: E{Op: "@list", Args: e.Args}.Tree()}
	}
	return map[string]any{e.Op: e.Args[0].Tree()}
}

// JSON is the text of the expression; floats keep a fractional part.
func (e E) JSON() string { return Text(e.Tree()) }

// Text writes JSON, floats with a fractional part.
func Text(x any) string {
	switch v := x.(type) {
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1e15 {
			return strconv.FormatFloat(v, 'f', 1, 64)
		}
		return strconv.FormatFloat(v, 'g', -1, 64)
	case []any:
		var p []string
		for _, y := range v {
			p = append(p, Text(y))
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[string]any:
		var p []string
		for k, y := range v {
			p = append(p, vt.Show(k)+":"+Text(y))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	return vt.Show(x)
}

var (
	// Err: the documentation demands an error.
	Err = errors.New("error")
	// Unk: the documentation does not settle the result.
	Unk = errors.New("unsettled")
)

type env struct {
	obj  any
	subj any
	has  bool
}

// Meaning is the documented meaning of the expression.
func (e E) Meaning(obj any) (any, error) { return e.eval(env{obj: obj}) }

func path(root any, p string) any {
	for _, f := range strings.Split(p, ".") {
		if f == "" {
			continue
		}
		m, ok := root.(map[string]any)
		if !ok {
			return nil
		}
		root = m[f]
	}
	return root
}

func (e E) arg(c env) (any, error) {
	if e.List {
		return E{Op: "@list", Args: e.Args}.eval(c)
	}
	return e.Args[0].eval(c)
}

// exps: the argument expressions of an operator that evaluates its arguments itself
func (e E) exps() []E {
	if e.List {
		return e.Args
	}
	if e.Args[0].Op == "@list" {
		return e.Args[0].Args
	}
	return e.Args
}

func boolOf(x any, err error) (bool, error) {
	if err != nil {
		return false, err
	}
	b, ok := x.(bool)
	if !ok {
		return false, Err
	}
	return b, nil
}

func listOf(x any, err error) ([]any, error) {
	if err != nil {
		return nil, err
	}
	l, ok := x.([]any)
	if !ok {
		return nil, Err
	}
	return l, nil
}

// nums: the numbers of a list, all integers or not; numeric strings are left open
func nums(x any, err error) (is []int64, fs []float64, allInt bool, e error) {
	l, err := listOf(x, err)
	if err != nil {
		return nil, nil, false, err
	}
	allInt = true
	for _, y := range l {
		switch n := y.(type) {
		case int64:
			is, fs = append(is, n), append(fs, float64(n))
		case float64:
			allInt = false
			fs = append(fs, n)
		case string:
			if _, err := strconv.ParseFloat(n, 64); err == nil {
				return nil, nil, false, Unk
			}
			e = Err
		default:
			e = Err
		}
	}
	return
}

func clone(x any) any { return vt.Clone(x) }

func (e E) eval(c env) (any, error) {
	switch e.Op {
	case "":
		s, ok := e.Lit.(string)
		if !ok || !strings.HasPrefix(s, "$") {
			return e.Lit, nil
		}
		if strings.HasPrefix(s, "$$") {
			if !c.has || c.subj == nil {
				return nil, Unk
			}
			return path(c.subj, s[2:]), nil
		}
		return path(c.obj, s[1:]), nil
	case "@list":
		l := []any{}
		for i, a := range e.Args {
			x, err := a.eval(c)
			if err != nil {
				return nil, err
			}
			if _, ok := x.([]any); ok && i == 0 {
				return nil, Unk // lists of lists are flattened, documented as a limitation
			}
			l = append(l, x)
		}
		return l, nil
	case "@dict":
		m := map[string]any{}
		var bad error
		for i, a := range e.Args {
			x, err := a.eval(c)
			if err == Unk {
				return nil, Unk
			}
			if err != nil {
				bad = err
			}
			m[e.Keys[i]] = x
		}
		return m, bad
	case "@and", "@or":
		for _, a := range e.exps() {
			b, err := boolOf(a.eval(c))
			if err != nil {
				return nil, err
			}
			if b == (e.Op == "@or") {
				return b, nil
			}
		}
		return e.Op == "@and", nil
	case "@cond":
		as := e.exps()
		if len(as) != 2 && len(as) != 3 {
			return nil, Err
		}
		b, err := boolOf(as[0].eval(c))
		if err != nil {
			return nil, err
		}
		if b {
			return as[1].eval(c)
		}
		if len(as) == 3 {
			return as[2].eval(c)
		}
		return nil, nil
	case "@definedOr":
		as := e.exps()
		if len(as) != 2 {
			return nil, Err
		}
		x, err := as[0].eval(c)
		if err != nil || x != nil {
			return x, err
		}
		return as[1].eval(c)
	case "@switch":
		as := e.exps()
		if len(as) == 0 {
			return nil, Err
		}
		for _, p := range as {
			if p.Op != "@list" || len(p.Args) != 2 {
				return nil, Err
			}
			b, err := boolOf(p.Args[0].eval(c))
			if err != nil {
				return nil, err
			}
			if b {
				return p.Args[1].eval(c)
			}
		}
		return nil, nil
	case "@noop":
		return nil, nil
	case "@any", "@all", "@none", "@filter", "@map":
		as := e.exps()
		if len(as) != 2 {
			return nil, Err
		}
		l, err := listOf(as[1].eval(c))
		if err != nil {
			return nil, err
		}
		out := []any{}
		for _, x := range l {
			y, err := as[0].eval(env{obj: c.obj, subj: x, has: true})
			if e.Op == "@map" {
				if err != nil {
					return nil, err
				}
				out = append(out, y)
				continue
			}
			b, err := boolOf(y, err)
			if err != nil {
				return nil, err
			}
			switch {
			case e.Op == "@filter" && b:
				out = append(out, x)
			case e.Op == "@any" && b:
				return true, nil
			case e.Op == "@none" && b, e.Op == "@all" && !b:
				return false, nil
			}
		}
		switch e.Op {
		case "@any":
			return false, nil
		case "@all", "@none":
			return true, nil
		}
		return out, nil
	case "@not":
		b, err := boolOf(e.arg(c))
		if err != nil {
			return nil, err
		}
		return !b, nil
	case "@bool":
		b, err := boolOf(e.arg(c))
		if err != nil {
			return nil, err
		}
		return b, nil
	case "@isnil", "@exists", "@has":
		x, err := e.arg(c)
		if err != nil {
			return nil, err
		}
		return (x == nil) == (e.Op == "@isnil"), nil
	case "@eq":
		l, err := listOf(e.arg(c))
		if err != nil {
			return nil, err
		}
		if len(l) != 2 {
			return nil, Err
		}
		if l[0] == nil || l[1] == nil {
			return nil, Unk
		}
		return reflect.DeepEqual(l[0], l[1]), nil
	case "@lt", "@lte", "@gt", "@gte", "@add", "@sub", "@mul", "@div":
		is, fs, allInt, err := nums(e.arg(c))
		if err != nil {
			return nil, err
		}
		if len(fs) != 2 {
			return nil, Err
		}
		// the arguments are exactly representable: see number
		a, b := fs[0], fs[1]
		var r float64
		switch e.Op {
		case "@lt":
			return a < b, nil
		case "@lte":
			return a <= b, nil
		case "@gt":
			return a > b, nil
		case "@gte":
			return a >= b, nil
		case "@add":
			if allInt {
				return is[0] + is[1], nil
			}
			r = a + b
		case "@sub":
			if allInt {
				return is[0] - is[1], nil
			}
			r = a - b
		case "@mul":
			if allInt {
				if math.Abs(a*b) > 1<<62 {
					return nil, Unk
				}
				return is[0] * is[1], nil
			}
			r = a * b
		case "@div":
			if b == 0 {
				return nil, Unk
			}
			r = a / b
		}
		return r, nil
	case "@sum":
		is, fs, allInt, err := nums(e.arg(c))
		if err != nil {
			return nil, err
		}
		if allInt {
			s := int64(0)
			for _, n := range is {
				s += n
			}
			return s, nil
		}
		s := 0.0
		for _, n := range fs {
			s += n
		}
		return s, nil
	case "@min", "@max":
		is, fs, allInt, err := nums(e.arg(c))
		if err != nil {
			return nil, err
		}
		if len(fs) == 0 {
			return nil, Unk
		}
		best := 0
		for i := range fs {
			if e.Op == "@min" && fs[i] < fs[best] || e.Op == "@max" && fs[i] > fs[best] {
				best = i
			}
		}
		if allInt {
			return is[best], nil
		}
		return fs[best], nil
	case "@abs", "@ceil", "@floor", "@float", "@int":
		x, err := e.arg(c)
		if err != nil {
			return nil, err
		}
		var f float64
		switch n := x.(type) {
		case int64:
			if e.Op == "@int" {
				return n, nil
			}
			f = float64(n)
		case float64:
			if e.Op == "@int" {
				return nil, Unk
			}
			f = n
		case string:
			if i, err := strconv.ParseInt(n, 10, 64); err == nil && e.Op == "@int" {
				return i, nil
			}
			p, err := strconv.ParseFloat(n, 64)
			if err != nil {
				return nil, Err
			}
			if e.Op == "@float" {
				return p, nil
			}
			return nil, Unk
		default:
			return nil, Err
		}
		switch e.Op {
		case "@abs":
			f = math.Abs(f)
		case "@ceil":
			f = math.Ceil(f)
		case "@floor":
			f = math.Floor(f)
		}
		return f, nil
	case "@string":
		x, err := e.arg(c)
		if err != nil {
			return nil, err
		}
		switch n := x.(type) {
		case string:
			if strings.HasPrefix(n, "$") || n == "@now" {
				return nil, Unk
			}
			return n, nil
		case int64, float64:
			return fmt.Sprint(n), nil
		}
		return nil, Unk
	case "@concat":
		l, err := listOf(e.arg(c))
		if err != nil {
			return nil, err
		}
		s := ""
		for _, x := range l {
			switch n := x.(type) {
			case string:
				s += n
			case int64, float64:
				s += fmt.Sprint(n)
			default:
				return nil, Unk
			}
		}
		return s, nil
	case "@len":
		l, err := listOf(e.arg(c))
		if err != nil {
			return nil, err
		}
		return int64(len(l)), nil
	case "@in":
		l, err := listOf(e.arg(c))
		if err != nil {
			return nil, err
		}
		if len(l) != 2 {
			return nil, Err
		}
		in, ok := l[1].([]any)
		if !ok {
			return nil, Err
		}
		for _, x := range in {
			if reflect.DeepEqual(x, l[0]) {
				return true, nil
			}
		}
		return false, nil
	case "@range":
		is, fs, allInt, err := nums(e.arg(c))
		if err != nil {
			return nil, err
		}
		if !allInt || len(fs) != 2 {
			return nil, Err
		}
		l := []any{}
		if is[1]-is[0] > 1000 {
			return nil, Unk
		}
		for i := is[0]; i < is[1]; i++ {
			l = append(l, i)
		}
		return l, nil
	}
	return nil, Unk
}

// ---- generation

func pick[T any](v *vt.T, xs ...T) T { return xs[v.R.Intn(len(xs))] }

// Obj: the document the expressions are evaluated on; the field name tells the kind of value.
func Obj(v *vt.T) map[string]any {
	o := map[string]any{
		"t": true, "f": false, "nil": nil,
		"i": number(v, true), "j": number(v, true), "x": number(v, false), "s": str(v), "empty": []any{},
		"nums": list(v, func() any { return number(v, v.R.Intn(3) > 0) }), "ints": list(v, func() any { return number(v, true) }),
		"bools": list(v, func() any { return v.R.Intn(2) == 0 }), "strs": list(v, func() any { return str(v) }),
		"docs": list(v, func() any {
			return map[string]any{"b": v.R.Intn(2) == 0, "n": number(v, true), "s": str(v), "l": []any{int64(1), number(v, true)}}
		}),
		"doc": map[string]any{"b": v.R.Intn(2) == 0, "n": number(v, true), "s": str(v), "doc": map[string]any{"n": number(v, true)}},
		"num5": "5",
	}
	for k := range o {
		if v.R.Intn(12) == 0 {
			delete(o, k)
		}
	}
	return o
}

func str(v *vt.T) string {
	return pick(v, "a", "b", "abc", "x y", "ü", "", "a.b", "default", "true", "#", "zz")
}

// number: exactly representable both as an integer and as a float, so that comparisons have one meaning
func number(v *vt.T, isInt bool) any {
	n := int64(v.R.Intn(7) - 3)
	switch v.R.Intn(10) {
	case 0:
		n = int64(v.R.Intn(2000001) - 1000000)
	case 1:
		n = pick(v, int64(1)<<31, -(int64(1) << 31), int64(1)<<40, int64(1)<<52, -(int64(1) << 52), 255, 256)
	}
	if isInt {
		return n
	}
	return float64(n) + pick(v, 0, 0.5, 0.25, -0.5)
}

func list(v *vt.T, f func() any) []any {
	l := []any{}
	for i, n := 0, pick(v, 0, 1, 2, 2, 3, 3, 4, 6); i < n; i++ {
		l = append(l, f())
	}
	return l
}

func lit(x any) E { return E{Lit: x} }
func op(name string, args ...E) E {
	return E{Op: name, Args: args, List: true}
}
func op1(name string, arg E) E { return E{Op: name, Args: []E{arg}} }
func lst(args ...E) E          { return E{Op: "@list", Args: args} }

// Gen generates expressions of a wanted kind; sub tells what $$ is ("" for none: one of doc, num, bool, str).
type Gen struct {
	V   *vt.T
	Bad int // one in Bad sub-expressions is of a wrong kind (0: none)
}

func (g Gen) wrong() bool { return g.Bad > 0 && g.V.R.Intn(g.Bad) == 0 }

func (g Gen) many(f func() E) []E {
	var r []E
	for i, n := 0, pick(g.V, 0, 1, 2, 2, 2, 3, 3, 4); i < n; i++ {
		r = append(r, f())
	}
	return r
}

// Bool generates a boolean expression.
func (g Gen) Bool(d int, sub string) E {
	v := g.V
	if g.wrong() {
		return g.Any(d-1, sub)
	}
	if d <= 0 || v.R.Intn(8) == 0 {
		if sub == "doc" && v.R.Intn(2) == 0 {
			return lit("$$.b")
		}
		if sub == "bool" && v.R.Intn(2) == 0 {
			return lit("$$.")
		}
		return lit(pick[any](v, true, false, "$.t", "$.f", "$.doc.b"))
	}
	b := func() E { return g.Bool(d-1, sub) }
	switch v.R.Intn(16) {
	case 0, 1:
		return E{Op: "@and", Args: g.many(b), List: true}
	case 2, 3:
		return E{Op: "@or", Args: g.many(b), List: true}
	case 4:
		return op1("@not", b())
	case 5:
		return op("@cond", b(), b(), b())
	case 6:
		var ps []E
		for i, n := 0, 1+v.R.Intn(3); i < n; i++ {
			ps = append(ps, lst(b(), b()))
		}
		ps = append(ps, lst(lit(true), b()))
		return E{Op: "@switch", Args: ps, List: true}
	case 7:
		return op("@definedOr", lit(pick[any](v, "$.doc.b", "$.missing", "$.nil", true)), b())
	case 8, 9, 10:
		s, l := g.coll(d - 1)
		return op(pick(v, "@any", "@all", "@none"), g.Bool(d-1, s), l)
	case 11:
		return op(pick(v, "@lt", "@lte", "@gt", "@gte"), g.Num(d-1, sub), g.Num(d-1, sub))
	case 12:
		return op("@eq", g.Scalar(d-1, sub), g.Scalar(d-1, sub))
	case 13:
		return op("@in", g.Scalar(d-1, sub), g.List(d-1, sub))
	case 14:
		return op1(pick(v, "@isnil", "@exists", "@has"), lit(pick[any](v, "$.t", "$.missing", "$.doc.s", "$.nil", "$.doc.missing.x", "$.i")))
	default:
		return op1("@bool", b())
	}
}

// coll generates a list and tells the kind of its elements
func (g Gen) coll(d int) (string, E) {
	v := g.V
	switch v.R.Intn(6) {
	case 0, 1:
		return "doc", lit("$.docs")
	case 2:
		return "num", lit(pick[any](v, "$.nums", "$.ints"))
	case 3:
		return "bool", lit("$.bools")
	case 4:
		return "num", lst(g.many(func() E { return g.Num(d-1, "") })...)
	default:
		s, l := "doc", lit("$.docs")
		if d > 0 {
			return s, op("@filter", g.Bool(d-1, s), l)
		}
		return s, l
	}
}

// Num generates a numeric expression.
func (g Gen) Num(d int, sub string) E {
	v := g.V
	if g.wrong() {
		return g.Any(d-1, sub)
	}
	if d <= 0 || v.R.Intn(4) == 0 {
		if sub == "doc" && v.R.Intn(2) == 0 {
			return lit("$$.n")
		}
		if sub == "num" && v.R.Intn(2) == 0 {
			return lit("$$.")
		}
		return lit(pick[any](v, number(v, true), number(v, false), "$.i", "$.j", "$.x", "$.doc.n"))
	}
	n := func() E { return g.Num(d-1, sub) }
	switch v.R.Intn(9) {
	case 0, 1, 2:
		return op(pick(v, "@add", "@sub", "@mul", "@div"), n(), n())
	case 3:
		return op1(pick(v, "@abs", "@ceil", "@floor", "@float", "@int"), n())
	case 4:
		return E{Op: pick(v, "@sum", "@min", "@max"), Args: g.many(n), List: true}
	case 5:
		return op1(pick(v, "@sum", "@min", "@max"), lit(pick[any](v, "$.nums", "$.ints")))
	case 6:
		return op1("@len", g.List(d-1, sub))
	case 7:
		return op("@cond", g.Bool(d-1, sub), n(), n())
	default:
		return op1(pick(v, "@int", "@float"), lit(pick[any](v, "12", "-3", "007", "$.i", "x", "$.num5")))
	}
}

// Str generates a string expression.
func (g Gen) Str(d int, sub string) E {
	v := g.V
	if d <= 0 || v.R.Intn(3) == 0 {
		if sub == "doc" {
			return lit("$$.s")
		}
		return lit(pick[any](v, "a", "b", "x y", "$.s", "$.doc.s"))
	}
	switch v.R.Intn(3) {
	case 0:
		return E{Op: "@concat", Args: g.many(func() E { return pick(v, g.Str(d-1, sub), g.Num(d-1, sub)) }), List: true}
	case 1:
		return op1("@string", pick(v, g.Num(d-1, sub), g.Str(d-1, sub)))
	default:
		return op("@cond", g.Bool(d-1, sub), g.Str(d-1, sub), g.Str(d-1, sub))
	}
}

// Scalar generates a number, string or boolean.
func (g Gen) Scalar(d int, sub string) E {
	switch g.V.R.Intn(3) {
	case 0:
		return g.Num(d, sub)
	case 1:
		return g.Str(d, sub)
	}
	return g.Bool(d, sub)
}

// List generates a list expression.
func (g Gen) List(d int, sub string) E {
	v := g.V
	if g.wrong() {
		return g.Any(d-1, sub)
	}
	if d <= 0 || v.R.Intn(4) == 0 {
		if sub == "doc" && v.R.Intn(2) == 0 {
			return lit("$$.l")
		}
		return lit(pick[any](v, "$.nums", "$.ints", "$.strs", "$.docs", "$.bools", "$.empty"))
	}
	switch v.R.Intn(5) {
	case 0:
		s, l := g.coll(d - 1)
		return op("@map", g.Any(d-1, s), l)
	case 1:
		s, l := g.coll(d - 1)
		return op("@filter", g.Bool(d-1, s), l)
	case 2:
		return op("@range", lit(int64(v.R.Intn(5)-2)), pick(v, lit(int64(v.R.Intn(7)-3)), op1("@len", lit("$.docs"))))
	default:
		return lst(g.many(func() E { return g.Scalar(d-1, sub) })...)
	}
}

// Any generates any expression.
func (g Gen) Any(d int, sub string) E {
	v := g.V
	if d <= 0 {
		return lit(pick[any](v, true, int64(1), 1.5, "a", "$.i", "$.missing", "$.doc", "$.docs", "$.s"))
	}
	switch v.R.Intn(7) {
	case 0:
		return g.Bool(d, sub)
	case 1:
		return g.Num(d, sub)
	case 2:
		return g.Str(d, sub)
	case 3:
		return g.List(d, sub)
	case 4:
		return op1("@noop", lit(true))
	case 5:
		var e = E{Op: "@dict"}
		for _, k := range []string{"p", "q", "r.s", "u v"} {
			if v.R.Intn(2) == 0 {
				e.Keys, e.Args = append(e.Keys, k), append(e.Args, g.Any(d-1, sub))
			}
		}
		return e
	}
	return g.Scalar(d, sub)
}

// ---- running the real code

// Parse decodes an expression.
func Parse(js string) (*expression.Expression, error) {
	var e expression.Expression
	if err := json.Unmarshal([]byte(js), &e); err != nil {
		return nil, err
	}
	return &e, nil
}

// Run evaluates on a document.
func Run(e *expression.Expression, obj any) (any, error) {
	return e.Evaluate(expression.EvalCtx{Object: obj, Log: logr.Discard()})
}

// Exact is structural equality that keeps integers and floats apart.
func Exact(a, b any) bool {
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Exact(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			z, ok := y[k]
			if !ok || !Exact(x[k], z) {
				return false
			}
		}
		return true
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	}
	return a == b
}

// Settle cuts the unsettled cases.
func text(x any, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%#v", x)
}

// Check evaluates an expression on a document and compares with its documented meaning; the subject and the
// expression stay as they were, and a second evaluation gives the same.
func Check(v *vt.T, class string, e E, obj map[string]any) {
	js := e.JSON()
	v.Case(class, map[string]any{"expression": json.RawMessage(js), "object": obj}, func() error {
		want, werr := e.Meaning(obj)
		x, err := Parse(js)
		if err != nil {
			return fmt.Errorf("expression %s rejected: %v", js, err)
		}
		o := vt.CloneDoc(obj)
		got, gerr := Run(x, o)
		switch {
		case werr == Unk:
		case werr != nil && gerr == nil:
			return fmt.Errorf("%s on %s: result %#v instead of an error", js, vt.Show(obj), got)
		case werr == nil && gerr != nil:
			return fmt.Errorf("%s on %s: %v, expected %#v", js, vt.Show(obj), gerr, want)
		case werr == nil && !Exact(got, want):
			return fmt.Errorf("%s on %s: %#v, expected %#v", js, vt.Show(obj), got, want)
		}
		return Stable(x, js, o, obj, got, gerr)
	})
}

// Stable: evaluation modified neither the subject nor the expression, and repeating it gives the same result.
func Stable(x *expression.Expression, js string, used, orig map[string]any, got any, gerr error) error {
	if !Exact(used, orig) {
		return fmt.Errorf("%s changed its subject from %s to %s", js, vt.Show(orig), vt.Show(used))
	}
	first := clone(got)
	for i := 0; i < 2; i++ {
		again, aerr := Run(x, used)
		if (aerr == nil) != (gerr == nil) || aerr == nil && !Exact(again, first) {
			return fmt.Errorf("%s on %s: first %s, then %s", js, vt.Show(orig), text(first, gerr), text(again, aerr))
		}
		if !Exact(used, orig) {
			return fmt.Errorf("%s changed its subject from %s to %s", js, vt.Show(orig), vt.Show(used))
		}
	}
	fresh, err := Parse(js)
	if err != nil {
		return err
	}
	again, aerr := Run(fresh, used)
	if (aerr == nil) != (gerr == nil) || aerr == nil && !Exact(again, first) {
		return fmt.Errorf("%s on %s: the used expression gives %s, a fresh one %s", js, vt.Show(orig), text(first, gerr), text(again, aerr))
	}
	return nil
}
