package c13

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/l7mp/dcontroller/pkg/zzverif/ex"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

func l(x any) ex.E { return ex.E{Lit: x} }
func op(n string, as ...ex.E) ex.E {
	return ex.E{Op: n, Args: as, List: true}
}
func op1(n string, a ex.E) ex.E { return ex.E{Op: n, Args: []ex.E{a}} }
func pick[T any](v *vt.T, xs ...T) T {
	return xs[v.R.Intn(len(xs))]
}

var ops = []string{"@and", "@or", "@not", "@cond", "@switch", "@definedOr", "@noop", "@any", "@all", "@none", "@map", "@filter", "@len", "@in", "@eq", "@lt", "@lte", "@gt", "@gte",
	"@add", "@sub", "@mul", "@div", "@sum", "@min", "@max", "@abs", "@ceil", "@floor", "@concat", "@string", "@int", "@float", "@bool", "@list", "@dict", "@hash", "@isnil", "@exists", "@has",
	"@range", "@selector", "@unknown", "@", "@rnd", "noop", ""}

// fuzz: any JSON that looks like an expression
func fuzz(v *vt.T, d int) any {
	if d <= 0 || v.R.Intn(6) == 0 {
		return pick[any](v, nil, true, false, int64(0), int64(1), int64(-2), 1.5, 2.0, "a", "", "$", "$.", "$$", "$$.", "$.a", "$.a.b", "$$.a", "$.l", "$.l[0]", "$.l[5]", "$.l[-1]", "$.l[*]", "$..a", "$.a[", "$[", "$.l[?(@.a==1)]", "$.*", "$x", "@", "@not", "5", "1.5", "$.m")
	}
	switch v.R.Intn(8) {
	case 0, 1, 2, 3:
		return map[string]any{pick(v, ops...): fuzzList(v, d-1)}
	case 4:
		return map[string]any{pick(v, ops...): fuzz(v, d-1)}
	case 5:
		m := map[string]any{}
		for i, n := 0, v.R.Intn(4); i < n; i++ {
			m[pick(v, "a", "b", "$.", "$.a", "$.a.b", "$.l[0]", "$.l[3]", "$.l", "$", "", "@eq", "$.a[", "$..x", "$.m.n.o", "$.l[*]", "$.*", "$$.a")] = fuzz(v, d-1)
		}
		return m
	default:
		return fuzzList(v, d-1)
	}
}

func fuzzList(v *vt.T, d int) any {
	r := []any{}
	for i, n := 0, pick(v, 0, 1, 2, 2, 2, 3, 4); i < n; i++ {
		r = append(r, fuzz(v, d))
	}
	return r
}

func has(x any, what string) bool {
	switch y := x.(type) {
	case string:
		return y == what
	case []any:
		for _, z := range y {
			if has(z, what) {
				return true
			}
		}
	case map[string]any:
		for k, z := range y {
			if k == what || has(z, what) {
				return true
			}
		}
	}
	return false
}

func fuzzObj(v *vt.T) map[string]any {
	o := map[string]any{"a": pick[any](v, int64(1), "x", nil, map[string]any{"b": int64(2), "c": []any{"q"}}, []any{int64(1)}), "l": pick[any](v, []any{}, []any{int64(1), "a"}, []any{map[string]any{"a": int64(1)}, nil}, []any{[]any{int64(1)}}, int64(3), nil), "m": map[string]any{"x": true}}
	if v.R.Intn(4) == 0 {
		delete(o, "a")
	}
	return o
}

// wild runs any JSON as an expression: an error is fine, a crash, a change of the subject or a different second
// answer is not.
func wild(v *vt.T, class string, tree any, obj map[string]any) {
	js := ex.Text(tree)
	v.Case(class, map[string]any{"expression": json.RawMessage(js), "object": obj}, func() error {
		x, err := ex.Parse(js)
		if err != nil {
			return nil
		}
		o := vt.CloneDoc(obj)
		got, gerr := ex.Run(x, o)
		if has(tree, "@rnd") || has(tree, "$..a") || has(tree, "$.*") || has(tree, "$..x") { // several values at once have no order
			if !ex.Exact(o, obj) {
				return fmt.Errorf("%s changed its subject from %s to %s", js, vt.Show(obj), vt.Show(o))
			}
			return nil
		}
		return ex.Stable(x, js, o, obj, got, gerr)
	})
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C13")
	defer v.Done()
	for v.Left() {
		obj := ex.Obj(v)
		g := ex.Gen{V: v}
		ex.Check(v, "list", g.List(1+v.R.Intn(4), ""), obj)
		ex.Check(v, "string", g.Str(1+v.R.Intn(3), ""), obj)
		ex.Check(v, "any", g.Any(1+v.R.Intn(4), ""), obj)
		g.Bad = 4 + v.R.Intn(12)
		ex.Check(v, "ill-typed", g.Any(1+v.R.Intn(4), ""), obj)
		src := l(pick[any](v, "$.docs", "$.nums", "$.ints", "$.strs", "$.bools", "$.empty", "$.i", "$.missing"))
		ex.Check(v, "map", op("@map", pick(v, l("$$."), l("$$.n"), l("$$.s"), l("$.i"), op("@add", l("$$.n"), l(int64(1))), ex.E{Op: "@dict", Keys: []string{"k"}, Args: []ex.E{l("$$.")}}), src), obj)
		ex.Check(v, "filter", op("@filter", pick(v, l("$$.b"), l("$$."), op("@gt", l("$$.n"), l(int64(0))), op("@lt", l("$$."), l("$.i")), op("@eq", l("$$.s"), l("a")), l(true), l(false)), src), obj)
		ex.Check(v, "in", op("@in", pick(v, l("a"), l(int64(1)), l(1.0), l("$.i"), l("$.s"), l(true), l("$.missing")), src), obj)
		ex.Check(v, "len", op1("@len", src), obj)
		ex.Check(v, "conversion", op1(pick(v, "@string", "@int", "@float", "@bool"), pick(v, l("$.i"), l("$.x"), l("$.s"), l("$.t"), l("12"), l("1.5"), l("-7"), l("abc"), l("1e3"), l("$.doc"), l("$.docs"), l(1.5), l(2.0), l(1e21), l(true), l(int64(42)))), obj)
		var as []ex.E
		for i, n := 0, v.R.Intn(5); i < n; i++ {
			as = append(as, pick(v, l("a"), l("b c"), l("$.s"), l("$.i"), l("$.x"), l(int64(-3)), l(2.5), l("ü")))
		}
		ex.Check(v, "concat", op("@concat", as...), obj)
		ex.Check(v, "arity", op(pick(v, "@map", "@filter", "@in", "@len", "@any", "@all", "@none", "@eq", "@range"), as...), obj)
		// hashes: six characters, equal for equal values
		val := v.Value(2)
		v.Case("hash", val, func() error {
			x, err := ex.Parse(`{"@hash":"$.v"}`)
			if err != nil {
				return err
			}
			a, err := ex.Run(x, map[string]any{"v": val})
			if err != nil {
				return err
			}
			b, err := ex.Run(x, map[string]any{"v": vt.Clone(val), "other": int64(1)})
			if err != nil {
				return err
			}
			if s, ok := a.(string); !ok || len(s) != 6 || a != b {
				return fmt.Errorf("hash of %s: %#v, then %#v", vt.Show(val), a, b)
			}
			return nil
		})
		lo, n := int64(v.R.Intn(9)-4), int64(v.R.Intn(6)-1)
		v.Case("rnd", []int64{lo, lo + n}, func() error {
			x, err := ex.Parse(fmt.Sprintf(`{"@rnd":[%d,%d]}`, lo, lo+n))
			if err != nil {
				return err
			}
			r, err := ex.Run(x, map[string]any{})
			if n <= 0 {
				if err == nil {
					return fmt.Errorf("a random number from the empty range [%d,%d): %v", lo, lo+n, r)
				}
				return nil
			}
			if i, ok := r.(int64); err != nil || !ok || i < lo || i >= lo+n {
				return fmt.Errorf("random number from [%d,%d): %v, %v", lo, lo+n, r, err)
			}
			return nil
		})
		wild(v, "wild", fuzz(v, 1+v.R.Intn(4)), fuzzObj(v))
		wild(v, "wild-op", map[string]any{pick(v, ops...): fuzzList(v, v.R.Intn(3))}, fuzzObj(v))
		// a map with several keys, some inside others, built from parts of the subject
		m := map[string]any{}
		for i, n := 0, 1+v.R.Intn(4); i < n; i++ {
			m[pick(v, "$.", "a", "$.a", "$.a.b", "$.a.c", "$.m", "$.m.x", "$.m.y", "m", "b", "$.l[0]", "l")] = pick[any](v, "$.", "$.a", "$.m", "$.l", int64(9), "new", "$.m.x", map[string]any{"z": "$.a"}, []any{"$.m"})
		}
		wild(v, "overlapping-keys", m, fuzzObj(v))
	}
}
