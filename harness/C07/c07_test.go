package c07

import (
	"fmt"
	"sort"
	"testing"

	"github.com/go-logr/logr"
	"github.com/l7mp/dcontroller/pkg/dbsp"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
	"github.com/l7mp/dcontroller/pkg/zzverif/zs"
)

type get struct{ f string }

func (g get) String() string { return g.f }
func (g get) Extract(d map[string]any) (any, error) {
	if e, ok := d["fail-"+g.f]; ok {
		return nil, fmt.Errorf("extractor refuses %v", e)
	}
	return d[g.f], nil
}

// agg emits {key, values, doc?}
type agg struct{ keep bool }

func (g agg) String() string { return "agg" }
func (g agg) Transform(d map[string]any, v any) (map[string]any, error) {
	a := v.(*dbsp.AggregateInput)
	r := map[string]any{}
	if g.keep {
		r = d
	}
	r["KEY"] = a.Key
	r["VALUES"] = append([]any{}, a.Values...)
	return r, nil
}

func groupDoc(v *vt.T) map[string]any {
	d := map[string]any{"u": int64(v.R.Intn(3))}
	switch v.R.Intn(8) {
	case 0:
	case 1:
		d["g"] = map[string]any{"x": int64(v.R.Intn(2)), "y": "q"}
	case 2:
		d["g"] = []string{"1", "true", "null", ""}[v.R.Intn(4)]
	default:
		d["g"] = []any{int64(1), "a", true, int64(2)}[v.R.Intn(4)]
	}
	switch v.R.Intn(8) {
	case 0:
	case 1:
		d["v"] = map[string]any{"p": int64(v.R.Intn(2))}
	case 2:
		d["v"] = "s" + []string{"", "a", "b"}[v.R.Intn(3)]
	default:
		d["v"] = int64(v.R.Intn(12))
	}
	return d
}

func gatherOracle(b *vt.Bag) map[string][]string {
	r := map[string][]string{}
	for k, n := range b.N {
		d := b.D[k].(map[string]any)
		if d["g"] == nil || d["v"] == nil {
			continue
		}
		g := vt.Canon(d["g"])
		for i := 0; i < n; i++ {
			r[g] = append(r[g], vt.Canon(d["v"]))
		}
	}
	for _, l := range r {
		sort.Strings(l)
	}
	return r
}

func checkGather(what string, out *vt.Bag, want map[string][]string, acc *vt.Bag, keep bool) error {
	got := map[string][]string{}
	for k, n := range out.N {
		d := out.D[k].(map[string]any)
		g := vt.Canon(d["KEY"])
		if n != 1 {
			return fmt.Errorf("%s: group %s appears %d times", what, g, n)
		}
		if _, ok := got[g]; ok {
			return fmt.Errorf("%s: two documents for group %s", what, g)
		}
		l := []string{}
		for _, x := range d["VALUES"].([]any) {
			l = append(l, vt.Canon(x))
		}
		sort.Strings(l)
		got[g] = l
		if keep {
			// the rest of the document comes from a member of the group
			found := false
			e := vt.CloneDoc(d)
			delete(e, "KEY")
			delete(e, "VALUES")
			for kk, m := range acc.N {
				if m > 0 && kk == vt.Canon(e) && vt.Canon(e["g"]) == g {
					found = true
				}
			}
			if !found {
				return fmt.Errorf("%s: the content of %s belongs to no document of the group", what, vt.Show(d))
			}
		}
	}
	if vt.Show(got) != vt.Show(want) {
		return fmt.Errorf("%s: groups %s, want %s", what, vt.Show(got), vt.Show(want))
	}
	return nil
}

func lifted(op dbsp.Operator) (*dbsp.Executor, error) {
	g := dbsp.NewChainGraph()
	g.AddInput(dbsp.NewInput("in"))
	g.AddToChain(op)
	if err := dbsp.NewLinearChainRewriteEngine().Optimize(g); err != nil {
		return nil, err
	}
	return dbsp.NewExecutor(g, logr.Discard())
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C07")
	defer v.Done()
	for i := 0; i < v.N(2500) && v.Left(); i++ {
		var hist [][]zs.Entry
		acc := vt.NewBag()
		for s := 1 + v.R.Intn(8); s > 0; s-- {
			d := zs.RandDelta(v, acc, 4, false)
			acc.AddBag(zs.BagOf(d), 1)
			hist = append(hist, d)
		}
		v.Case("distinct", map[string]any{"history": hist}, func() error {
			x, err := lifted(dbsp.NewDistinct())
			if err != nil {
				return err
			}
			acc, out := vt.NewBag(), vt.NewBag()
			for s, d := range hist {
				z, b, err := zs.Build(d)
				if err != nil {
					return err
				}
				acc.AddBag(b, 1)
				want := vt.NewBag()
				for k, n := range acc.N {
					if n > 0 {
						want.Add(acc.D[k], 1)
					}
				}
				full, err := zs.FromBag(acc)
				if err != nil {
					return err
				}
				snap, err := dbsp.NewDistinct().Process(full)
				if err != nil {
					return err
				}
				if err := zs.Check("snapshot distinct", snap, want); err != nil {
					return err
				}
				r, err := x.Process(dbsp.DeltaZSet{"in": z})
				if err != nil {
					return err
				}
				rb, err := zs.ToBag(r)
				if err != nil {
					return err
				}
				out.AddBag(rb, 1)
				if !out.Equal(want) {
					return fmt.Errorf("step %d: accumulated distinct %s, want %s", s, out, want)
				}
			}
			return nil
		})
		// gather over non-negative accumulated collections
		var gh [][]zs.Entry
		acc = vt.NewBag()
		for s := 1 + v.R.Intn(6); s > 0; s-- {
			var d []zs.Entry
			for j := v.R.Intn(5); j > 0; j-- {
				d = append(d, zs.Entry{Doc: groupDoc(v), N: 1 + v.R.Intn(3)})
			}
			for _, k := range zs.Keys(acc) {
				if v.R.Intn(3) == 0 {
					n := acc.N[k]
					if v.R.Intn(2) == 0 {
						n = 1 + v.R.Intn(n)
					}
					d = append(d, zs.Entry{Doc: vt.CloneDoc(acc.D[k].(map[string]any)), N: -n})
				}
			}
			acc.AddBag(zs.BagOf(d), 1)
			gh = append(gh, d)
		}
		keep, srt := v.R.Intn(2) == 0, v.R.Intn(3) > 0
		v.Case("gather", map[string]any{"history": gh, "keep": keep, "sort": srt}, func() error {
			dbsp.SortGatherValues = srt
			defer func() { dbsp.SortGatherValues = true }()
			mk := func() *dbsp.GatherOp { return dbsp.NewGather(get{"g"}, get{"v"}, agg{keep}) }
			x, err := lifted(mk())
			if err != nil {
				return err
			}
			acc, out := vt.NewBag(), vt.NewBag()
			for s, d := range gh {
				z, b, err := zs.Build(d)
				if err != nil {
					return err
				}
				acc.AddBag(b, 1)
				want := gatherOracle(acc)
				full, err := zs.FromBag(acc)
				if err != nil {
					return err
				}
				snap, err := mk().Process(full)
				if err != nil {
					return err
				}
				sb, err := zs.ToBag(snap)
				if err != nil {
					return err
				}
				if err := checkGather("gather", sb, want, acc, keep); err != nil {
					return err
				}
				if err := zs.Check("gather: input afterwards", full, acc); err != nil {
					return err
				}
				if srt {
					for _, d := range sb.D {
						if !ordered(d.(map[string]any)["VALUES"].([]any)) {
							return fmt.Errorf("gathered list is not sorted: %s", vt.Show(d))
						}
					}
				}
				r, err := x.Process(dbsp.DeltaZSet{"in": z})
				if err != nil {
					return err
				}
				rb, err := zs.ToBag(r)
				if err != nil {
					return err
				}
				out.AddBag(rb, 1)
				if err := checkGather(fmt.Sprintf("step %d: accumulated gather", s), out, want, acc, keep); err != nil {
					return err
				}
			}
			return nil
		})
		v.Case("gather-errors", map[string]any{"history": gh}, func() error {
			for _, f := range []string{"fail-g", "fail-v"} {
				b := zs.BagOf(gh[0])
				b.Add(map[string]any{"g": "a", "v": "b", f: true}, 1)
				z, err := zs.FromBag(b)
				if err != nil {
					return err
				}
				if _, err := dbsp.NewGather(get{"g"}, get{"v"}, agg{}).Process(z); err == nil {
					return fmt.Errorf("an extractor failed but no error is reported (%s)", f)
				}
			}
			if _, err := dbsp.NewGather(get{"g"}, get{"v"}, agg{}).Process(); err == nil {
				return fmt.Errorf("gather takes no input")
			}
			return nil
		})
		v.Case("gather-signed", map[string]any{"first": gh[0]}, func() error {
			// net multiplicities per group and value decide, whatever the order in which the documents are visited
			b := vt.NewBag()
			for _, e := range gh[0] {
				b.Add(e.Doc, e.N)
			}
			net := map[string]map[string]int{}
			vals := map[string]any{}
			for _, k := range zs.Keys(b) {
				d := vt.CloneDoc(b.D[k].(map[string]any))
				if d["g"] == nil || d["v"] == nil {
					continue
				}
				d["u"] = int64(7)
				b.Add(d, -(len(k) % 4))
			}
			for k, n := range b.N {
				d := b.D[k].(map[string]any)
				if d["g"] == nil || d["v"] == nil {
					continue
				}
				g := vt.Canon(d["g"])
				if net[g] == nil {
					net[g] = map[string]int{}
				}
				net[g][vt.Canon(d["v"])] += n
				vals[vt.Canon(d["v"])] = d["v"]
			}
			want := map[string][]string{}
			for g, m := range net {
				l := []string{}
				for x, n := range m {
					for ; n > 0; n-- {
						l = append(l, x)
					}
				}
				sort.Strings(l)
				if len(l) > 0 {
					want[g] = l
				}
			}
			z, err := zs.FromBag(b)
			if err != nil {
				return err
			}
			r, err := dbsp.NewGather(get{"g"}, get{"v"}, agg{}).Process(z)
			if err != nil {
				return err
			}
			rb, err := zs.ToBag(r)
			if err != nil {
				return err
			}
			return checkGather("gather of signed input", rb, want, b, false)
		})
	}
}

// ordered: numbers by value, strings by text, adjacent values of one type only.
func ordered(l []any) bool {
	for i := 1; i < len(l); i++ {
		switch a := l[i-1].(type) {
		case int64:
			if b, ok := l[i].(int64); ok && a > b {
				return false
			}
		case string:
			if b, ok := l[i].(string); ok && a > b {
				return false
			}
		}
	}
	return true
}
