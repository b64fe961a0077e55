package c12

import (
	"testing"

	"github.com/l7mp/dcontroller/pkg/zzverif/ex"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

func l(x any) ex.E { return ex.E{Lit: x} }
func op(n string, as ...ex.E) ex.E {
	return ex.E{Op: n, Args: as, List: true}
}

func num(v *vt.T) ex.E {
	n := int64(v.R.Intn(5) - 2)
	switch v.R.Intn(8) {
	case 0:
		n = int64(v.R.Intn(1<<30)) - 1<<29
	case 1:
		n = []int64{1 << 31, -(1 << 31), 1<<31 - 1, 1 << 52, -(1 << 52), 1<<53 - 1, 127, 128, 255, 256, 1000}[v.R.Intn(11)]
	case 2:
		return l(float64(n) + []float64{0, 0.5, 0.25, 0.125, -0.5, 1e-9}[v.R.Intn(6)])
	case 3:
		return l(float64(n))
	}
	return l(n)
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C12")
	defer v.Done()
	bin := []string{"@lt", "@lte", "@gt", "@gte", "@add", "@sub", "@mul", "@div", "@eq"}
	for v.Left() {
		obj := ex.Obj(v)
		g := ex.Gen{V: v}
		ex.Check(v, "numeric", g.Num(1+v.R.Intn(4), ""), obj)
		g.Bad = 4 + v.R.Intn(12)
		ex.Check(v, "numeric-ill-typed", g.Num(1+v.R.Intn(4), ""), obj)
		a, b := num(v), num(v)
		for _, o := range bin {
			ex.Check(v, "binary", op(o, a, b), obj)
		}
		var as []ex.E
		for i, n := 0, v.R.Intn(6); i < n; i++ {
			if v.R.Intn(12) == 0 {
				as = append(as, l([]any{"x", true, "$.missing", "$.doc"}[v.R.Intn(4)]))
			} else {
				as = append(as, num(v))
			}
		}
		o := append(bin, "@sum", "@min", "@max", "@sum", "@min", "@max", "@abs", "@ceil", "@floor")[v.R.Intn(len(bin)+9)]
		ex.Check(v, "any-arity", op(o, as...), obj)
		// a list that comes as one value
		vals := []any{}
		for _, e := range as {
			if s, ok := e.Lit.(string); !ok || s[0] != '$' {
				vals = append(vals, e.Lit)
			}
		}
		obj["vals"] = vals
		ex.Check(v, "list-value", ex.E{Op: o, Args: []ex.E{l("$.vals")}}, obj)
		ex.Check(v, "unary", ex.E{Op: []string{"@abs", "@ceil", "@floor"}[v.R.Intn(3)], Args: []ex.E{a}}, obj)
		ex.Check(v, "range", op("@range", l(int64(v.R.Intn(40)-20)), l(int64(v.R.Intn(40)-20))), obj)
		for i := range as { // keep the ranges short
			if n, ok := as[i].Lit.(int64); ok {
				as[i] = l(n % 50)
			}
		}
		ex.Check(v, "range-malformed", op("@range", as...), map[string]any{})
		// structural equality of documents
		d1, d2 := v.Doc(2), v.Doc(2)
		if v.R.Intn(2) == 0 {
			d2 = vt.CloneDoc(d1)
			if v.R.Intn(2) == 0 {
				d2[v.Key()] = v.Scalar()
			}
		}
		ex.Check(v, "equality", op("@eq", l("$.p"), l("$.q")), map[string]any{"p": d1, "q": d2})
	}
}
