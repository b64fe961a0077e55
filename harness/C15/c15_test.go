package c15

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/zzverif/ex"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

func pick[T any](v *vt.T, xs ...T) T { return xs[v.R.Intn(len(xs))] }

var ops = []string{"@and", "@or", "@not", "@cond", "@switch", "@definedOr", "@noop", "@any", "@all", "@none", "@map", "@filter", "@len", "@in", "@eq", "@lt", "@lte", "@gt", "@gte",
	"@add", "@sub", "@mul", "@div", "@sum", "@min", "@max", "@abs", "@ceil", "@floor", "@concat", "@string", "@int", "@float", "@bool", "@list", "@dict", "@hash", "@isnil", "@exists", "@has", "@range", "@selector", "@unknown"}

// tree: any JSON built from the operators and literals (no empty strings and nulls, they are no documented expressions)
func tree(v *vt.T, d int) any {
	if d <= 0 || v.R.Intn(6) == 0 {
		return pick[any](v, true, false, int64(0), int64(1), int64(-2), int64(1)<<53+1, 1.5, 2.0, -0.5, 0.0, 1e20, 1e21, 1e-9, 123456789.0, 9007199254740993.0, "a", "$.i", "$.docs", "$$.n", "$.", "$.doc.n", "x \"y\" <&>", "ü", "5", "1.0", "true", "null", "\u2028", "$.bools", "$.ints")
	}
	switch v.R.Intn(8) {
	case 0, 1, 2, 3:
		return map[string]any{pick(v, ops...): trees(v, d-1)}
	case 4:
		return map[string]any{pick(v, ops...): tree(v, d-1)}
	case 5:
		m := map[string]any{}
		for i, n := 0, v.R.Intn(4); i < n; i++ {
			m[pick(v, "a", "b", "$.a", "$.b.c", "@eq", "k.l", "x y", "<", "ü")] = tree(v, d-1)
		}
		return m
	default:
		return trees(v, d-1)
	}
}

func trees(v *vt.T, d int) any {
	r := []any{}
	for i, n := 0, pick(v, 0, 1, 2, 2, 2, 3, 4); i < n; i++ {
		r = append(r, tree(v, d))
	}
	return r
}

// same evaluates both expressions on the documents and compares the results
func same(js, how string, a, b *expression.Expression, objs []map[string]any) error {
	for _, o := range objs {
		x, xerr := ex.Run(a, vt.CloneDoc(o))
		y, yerr := ex.Run(b, vt.CloneDoc(o))
		if (xerr == nil) != (yerr == nil) || xerr == nil && !ex.Exact(x, y) {
			return fmt.Errorf("%s on %s gives %#v, %v; %s gives %#v, %v", js, vt.Show(o), x, xerr, how, y, yerr)
		}
	}
	return nil
}

func scribble(e *expression.Expression, d int) {
	if e == nil || d > 20 {
		return
	}
	scribble(e.Arg, d+1)
	switch l := e.Literal.(type) {
	case []expression.Expression:
		for i := range l {
			scribble(&l[i], d+1)
		}
	case map[string]expression.Expression:
		for k, x := range l {
			scribble(&x, d+1)
			l[k] = expression.Expression{Op: "@string", Literal: "scribbled"}
		}
		l["scribbled"] = expression.Expression{Op: "@bool", Literal: true}
	}
	if e.Arg != nil {
		*e.Arg = expression.Expression{Op: "@string", Literal: "scribbled"}
	}
	e.Op, e.Literal, e.Arg = "@string", "scribbled", nil
}

func roundTrip(v *vt.T, class, js string) {
	objs := []map[string]any{ex.Obj(v), ex.Obj(v), {}}
	v.Case(class, json.RawMessage(js), func() error {
		a, err := ex.Parse(js)
		if err != nil {
			return fmt.Errorf("%s rejected: %v", js, err)
		}
		out, err := json.Marshal(a)
		if err != nil {
			return fmt.Errorf("%s cannot be written: %v", js, err)
		}
		b, err := ex.Parse(string(out))
		if err != nil {
			return fmt.Errorf("%s is written as %s and then rejected: %v", js, out, err)
		}
		if e := same(js, "written as "+string(out)+" and read again it", a, b, objs); e != nil {
			return e
		}
		again, err := json.Marshal(b)
		if err != nil || string(again) != string(out) {
			return fmt.Errorf("%s is written as %s, then as %s, %v", js, out, again, err)
		}
		if s := a.String(); s != string(out) {
			return fmt.Errorf("%s prints as %s and is written as %s", js, s, out)
		}
		// a decoder that fills an expression used before
		c, _ := ex.Parse(`{"@eq":[1,2]}`)
		if err := json.Unmarshal([]byte(js), c); err != nil {
			return err
		}
		if e := same(js, "read over another expression it", a, c, objs); e != nil {
			return e
		}
		// copies
		var d1 expression.Expression
		a.DeepCopyInto(&d1)
		if e := same(js, "its copy", a, &d1, objs); e != nil {
			return e
		}
		scribble(&d1, 0)
		if s := a.String(); s != string(out) {
			return fmt.Errorf("a change to the copy of %s changes the original to %s", out, s)
		}
		var d3 expression.Expression
		a.DeepCopyInto(&d3)
		scribble(a, 0)
		if s := d3.String(); s != string(out) {
			return fmt.Errorf("a change to %s changes its copy to %s", out, s)
		}
		return same(js, "after a change to the original the copy", b, &d3, objs)
	})
}

func arbitrary(v *vt.T, d int) any {
	if d <= 0 || v.R.Intn(5) == 0 {
		return pick[any](v, nil, true, int64(1), -1.5, "", "@", "$", "a", "@eq", map[string]any{}, []any{}, []any{nil}, map[string]any{"": nil}, map[string]any{"": int64(1)}, map[string]any{"@": nil}, map[string]any{"@eq": nil}, map[string]any{"@and": nil}, 1e300)
	}
	if v.R.Intn(2) == 0 {
		m := map[string]any{}
		for i, n := 0, v.R.Intn(3); i < n; i++ {
			m[pick(v, append([]string{"", "a", "@", "$."}, ops...)...)] = arbitrary(v, d-1)
		}
		return m
	}
	l := []any{}
	for i, n := 0, v.R.Intn(4); i < n; i++ {
		l = append(l, arbitrary(v, d-1))
	}
	return l
}

func literals(v *vt.T) {
	x := pick[any](v, true, false, int64(v.R.Intn(100)-50), 7, int32(-3), 1.5, 2.0, -0.25, 0.0, 1e20, float64(v.R.Intn(1000))/8, "a", "x y", "5")
	v.Case("literal", x, func() error {
		e, err := expression.NewLiteralExpression(x)
		if err != nil {
			return fmt.Errorf("literal %#v: %v", x, err)
		}
		var want any = x
		switch n := x.(type) {
		case int:
			want = int64(n)
		case int32:
			want = int64(n)
		}
		got, err := ex.Run(&e, map[string]any{})
		if err != nil || !ex.Exact(got, want) {
			return fmt.Errorf("the literal %#v evaluates to %#v, %v", x, got, err)
		}
		out, err := json.Marshal(&e)
		if err != nil {
			return fmt.Errorf("the literal %#v cannot be written: %v", x, err)
		}
		b, err := ex.Parse(string(out))
		if err != nil {
			return fmt.Errorf("the literal %#v is written as %s and rejected: %v", x, out, err)
		}
		got, err = ex.Run(b, map[string]any{})
		if err != nil || !ex.Exact(got, want) {
			return fmt.Errorf("the literal %#v is written as %s and evaluates to %#v, %v", x, out, got, err)
		}
		s, err := expression.NewJSONPathSetExpression("$.p.q", x)
		if err != nil {
			return err
		}
		got, err = ex.Run(&s, map[string]any{})
		if err != nil || !ex.Exact(got, map[string]any{"p": map[string]any{"q": want}}) {
			return fmt.Errorf("setting the literal %#v evaluates to %#v, %v", x, got, err)
		}
		return nil
	})
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C15")
	defer v.Done()
	for v.Left() {
		g := ex.Gen{V: v}
		roundTrip(v, "round-trip", g.Any(1+v.R.Intn(4), "").JSON())
		roundTrip(v, "round-trip-wild", ex.Text(tree(v, 1+v.R.Intn(4))))
		o := pick(v, ops...)
		roundTrip(v, "round-trip-op", ex.Text(map[string]any{o: pick(v, tree(v, 0), trees(v, 0), trees(v, 1))}))
		literals(v)
		arb := arbitrary(v, 1+v.R.Intn(4))
		v.Case("any-json", arb, func() error {
			js := vt.Show(arb)
			e, err := ex.Parse(js)
			if err != nil {
				return nil
			}
			_, _ = json.Marshal(e)
			_ = e.String()
			_, _ = ex.Run(e, map[string]any{"a": int64(1)})
			return nil
		})
		v.Case("not-json", arb, func() error {
			js := vt.Show(arb)
			n := v.R.Intn(len(js) + 1)
			js = js[:n] + pick(v, "", "}", "]", ",", "\"", "x", "0", "\x00") + js[n:]
			e, err := ex.Parse(js)
			if err == nil {
				_ = e.String()
			}
			return nil
		})
	}
}
