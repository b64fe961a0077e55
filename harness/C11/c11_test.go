package c11

import (
	"testing"

	"github.com/l7mp/dcontroller/pkg/zzverif/ex"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

func l(x any) ex.E { return ex.E{Lit: x} }
func op(n string, as ...ex.E) ex.E {
	return ex.E{Op: n, Args: as, List: true}
}
func lst(as ...ex.E) ex.E { return ex.E{Op: "@list", Args: as} }

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C11")
	defer v.Done()
	bad := ex.E{Op: "@not", Args: []ex.E{l("oops")}}
	for v.Left() {
		obj := ex.Obj(v)
		g := ex.Gen{V: v}
		ex.Check(v, "boolean", g.Bool(1+v.R.Intn(4), ""), obj)
		g.Bad = 4 + v.R.Intn(12)
		ex.Check(v, "boolean-ill-typed", g.Bool(1+v.R.Intn(4), ""), obj)
		// every arity of truth values, with an argument that fails placed anywhere
		var as []ex.E
		for i, n := 0, v.R.Intn(7); i < n; i++ {
			switch v.R.Intn(8) {
			case 0:
				as = append(as, bad)
			case 1:
				as = append(as, l([]any{"$.t", "$.f", "$.i", "$.missing"}[v.R.Intn(4)]))
			default:
				as = append(as, l(v.R.Intn(2) == 0))
			}
		}
		ex.Check(v, "and", op("@and", as...), obj)
		ex.Check(v, "or", op("@or", as...), obj)
		ex.Check(v, "cond", op("@cond", as...), obj)
		ex.Check(v, "definedOr", op("@definedOr", as...), obj)
		var ps []ex.E
		for i := 0; i+1 < len(as); i += 2 {
			ps = append(ps, lst(as[i], as[i+1]))
		}
		if len(as)%2 == 1 && v.R.Intn(3) == 0 {
			ps = append(ps, as[len(as)-1])
		}
		ex.Check(v, "switch", op("@switch", ps...), obj)
		conds := []ex.E{l("$$."), l("$$.b"), op("@not", l("$$.b")), op("@gt", l("$$.n"), l(int64(0))), l(true), l(false), bad, op("@eq", l("$$."), l(int64(1))), ex.E{Op: "@not", Args: []ex.E{l("$$.b")}}}
		c := conds[v.R.Intn(len(conds))]
		for _, q := range []string{"@any", "@all", "@none"} {
			ex.Check(v, "quantifier", op(q, c, l([]any{"$.bools", "$.docs", "$.empty", "$.nums", "$.i", "$.missing"}[v.R.Intn(6)])), obj)
		}
	}
}
