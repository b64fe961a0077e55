package c08

import (
	"fmt"
	"sort"
	"testing"

	"github.com/go-logr/logr"
	"github.com/l7mp/dcontroller/pkg/dbsp"
	"github.com/l7mp/dcontroller/pkg/zzverif/ev"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
	"github.com/l7mp/dcontroller/pkg/zzverif/zs"
)

// step of a chain
type step struct {
	Kind string `json:"kind"`
	F    ev.F   `json:"f,omitempty"`
	Key  string `json:"key,omitempty"`
	Val  string `json:"val,omitempty"`
}

type program struct {
	Inputs []string `json:"inputs"`
	Join   string   `json:"join,omitempty"`
	Binary bool     `json:"binary,omitempty"`
	Chain  []step   `json:"chain"`
}

type joinEval struct {
	kind  string
	names []string
}

func (e joinEval) String() string { return e.kind }
func (e joinEval) Evaluate(d map[string]any) ([]map[string]any, error) {
	first, ok1 := d[e.names[0]].(map[string]any)
	last, ok2 := d[e.names[len(e.names)-1]].(map[string]any)
	if !ok1 || !ok2 || len(d) != len(e.names) {
		return nil, fmt.Errorf("incomplete joined document %s", vt.Show(d))
	}
	flat := map[string]any{"id": vt.Clone(first["id"]), "t": vt.Clone(last["t"]), "n": vt.Clone(last["id"])}
	if x, ok := first["xs"]; ok {
		flat["xs"] = vt.Clone(x)
	}
	switch e.kind {
	case "equal":
		for _, n := range e.names {
			if !vt.Equal(d[n].(map[string]any)["id"], first["id"]) {
				return nil, nil
			}
		}
	case "collapse":
		return []map[string]any{{"id": vt.Clone(last["id"])}}, nil
	case "self":
		return []map[string]any{d}, nil
	case "differ":
		if vt.Equal(first["id"], last["id"]) {
			return nil, nil
		}
	}
	return []map[string]any{flat}, nil
}

type agg struct{ kind string }

func (agg) String() string { return "agg" }
func (a agg) Transform(d map[string]any, v any) (map[string]any, error) {
	g, ok := v.(*dbsp.AggregateInput)
	if !ok {
		return nil, fmt.Errorf("aggregator got %T", v)
	}
	return aggDoc(g.Key, g.Values), nil
}

func aggDoc(key any, values []any) map[string]any {
	vs := make([]any, len(values))
	for i, x := range values {
		vs[i] = vt.Clone(x)
	}
	sort.Slice(vs, func(i, j int) bool { return vt.Canon(vs[i]) < vt.Canon(vs[j]) })
	return map[string]any{"id": vt.Clone(key), "xs": vs, "n": int64(len(vs))}
}

func apply(b *vt.Bag, s step) (*vt.Bag, error) {
	switch s.Kind {
	case "sel", "proj":
		return ev.Apply(b, s.F)
	case "unwind":
		r := vt.NewBag()
		for k, n := range b.N {
			d := b.D[k].(map[string]any)
			l, _ := d[s.Key].([]any)
			for _, x := range l {
				e := vt.CloneDoc(d)
				e[s.Val] = vt.Clone(x)
				r.Add(e, n)
			}
		}
		return r, nil
	case "distinct":
		r := vt.NewBag()
		for k, n := range b.N {
			if n > 0 {
				r.Add(b.D[k], 1)
			}
		}
		return r, nil
	case "gather":
		vals, keys := map[string][]any{}, map[string]any{}
		for k, n := range b.N {
			d := b.D[k].(map[string]any)
			if d[s.Key] == nil || d[s.Val] == nil {
				continue
			}
			g := vt.Canon(d[s.Key])
			keys[g] = d[s.Key]
			for i := 0; i < n; i++ {
				vals[g] = append(vals[g], d[s.Val])
			}
		}
		r := vt.NewBag()
		for g, l := range vals {
			r.Add(aggDoc(keys[g], l), 1)
		}
		return r, nil
	}
	panic(s.Kind)
}

func (p program) oracle(in []*vt.Bag) (*vt.Bag, error) {
	cur := in[0]
	if p.Join != "" {
		cur = vt.NewBag()
		e := joinEval{p.Join, p.Inputs}
		var rec func(i, m int, d map[string]any) error
		rec = func(i, m int, d map[string]any) error {
			if i == len(p.Inputs) {
				rs, err := e.Evaluate(vt.CloneDoc(d))
				for _, x := range rs {
					cur.Add(x, m)
				}
				return err
			}
			for k, n := range in[i].N {
				d[p.Inputs[i]] = in[i].D[k]
				if err := rec(i+1, m*n, d); err != nil {
					return err
				}
			}
			return nil
		}
		if err := rec(0, 1, map[string]any{}); err != nil {
			return nil, err
		}
	}
	for _, s := range p.Chain {
		var err error
		if cur, err = apply(cur, s); err != nil {
			return nil, err
		}
	}
	return cur, nil
}

func (p program) graph() *dbsp.ChainGraph {
	g := dbsp.NewChainGraph()
	for _, n := range p.Inputs {
		g.AddInput(dbsp.NewInput(n))
	}
	if p.Join != "" {
		e := joinEval{p.Join, p.Inputs}
		if p.Binary {
			g.SetJoin(dbsp.NewBinaryJoin(e, p.Inputs))
		} else {
			g.SetJoin(dbsp.NewJoin(e, p.Inputs))
		}
	}
	for _, s := range p.Chain {
		switch s.Kind {
		case "sel":
			g.AddToChain(dbsp.NewSelection(ev.Eval{F: s.F}))
		case "proj":
			g.AddToChain(dbsp.NewProjection(ev.Eval{F: s.F}))
		case "unwind":
			g.AddToChain(dbsp.NewUnwind(ev.Ext{Field: s.Key}, ev.Tr{Field: s.Val}))
		case "distinct":
			g.AddToChain(dbsp.NewDistinct())
		case "gather":
			g.AddToChain(dbsp.NewGather(ev.Ext{Field: s.Key}, ev.Ext{Field: s.Val}, agg{}))
		}
	}
	return g
}

func randProgram(v *vt.T) (p program, gather bool) {
	n := 1
	if v.R.Intn(3) == 0 {
		n = 2 + v.R.Intn(2)
	}
	p.Inputs = []string{"a", "b", "c"}[:n]
	if n > 1 || v.R.Intn(8) == 0 {
		p.Join = []string{"equal", "cross", "collapse", "self", "differ"}[v.R.Intn(5)]
		p.Binary = n == 2 && v.R.Intn(2) == 0
	}
	gathers := 0
	for l := v.R.Intn(7); l > 0; l-- {
		s := step{Kind: []string{"sel", "proj", "proj", "unwind", "distinct", "gather", "sel"}[v.R.Intn(7)]}
		switch s.Kind {
		case "sel":
			s.F = ev.Sel(v)
			if s.F.Op == "fail" {
				s.F.Op = "drop"
			}
		case "proj":
			s.F = ev.Rand(v, true)
			if s.F.Op == "fail" {
				s.F.Op = "set"
			}
			s.F.Mut = false
		case "unwind":
			s.Key, s.Val = "xs", []string{"xs", "id", "z"}[v.R.Intn(3)]
		case "gather":
			if gathers++; gathers > 2 {
				continue
			}
			gather = true
			s.Key, s.Val = []string{"id", "t", "n"}[v.R.Intn(3)], []string{"id", "n", "t", "xs"}[v.R.Intn(4)]
		}
		p.Chain = append(p.Chain, s)
	}
	return p, gather
}

func entries(v *vt.T, acc *vt.Bag, nonneg bool, max int) []zs.Entry {
	es := zs.RandDelta(v, acc, max, nonneg)
	for i := range es {
		if es[i].N > 4 || es[i].N < -4 {
			if nonneg && es[i].N < 0 {
				continue
			}
			es[i].N %= 4
		}
		if es[i].N > 0 && v.R.Intn(2) == 0 {
			l := []any{}
			for k := v.R.Intn(4); k > 0; k-- {
				l = append(l, []any{int64(1), int64(2), "a", nil, map[string]any{"id": int64(1)}}[v.R.Intn(5)])
			}
			es[i].Doc["xs"] = l
		}
	}
	return es
}

func wellFormed(g *dbsp.ChainGraph, p program) error {
	if g.Arity() != len(p.Inputs) {
		return fmt.Errorf("the graph has %d inputs, want %d", g.Arity(), len(p.Inputs))
	}
	for _, n := range p.Inputs {
		if i := g.GetInput(n); i == nil || i.Name() != n {
			return fmt.Errorf("input %s is lost", n)
		}
	}
	if g.GetInput("nothing") != nil {
		return fmt.Errorf("the graph has an input that was never added")
	}
	for i, o := range g.GetChain() {
		if o == nil {
			return fmt.Errorf("operator %d is nil", i)
		}
	}
	if g.GetStartNode() == "" {
		return fmt.Errorf("no start node")
	}
	return g.Validate()
}

type exec interface {
	Process(dbsp.DeltaZSet) (*dbsp.DocumentZSet, error)
}

func feed(x exec, p program, in []*vt.Bag) (*vt.Bag, error) {
	m := dbsp.DeltaZSet{}
	for i, n := range p.Inputs {
		z, err := zs.FromBag(in[i])
		if err != nil {
			return nil, err
		}
		m[n] = z
	}
	z, err := x.Process(m)
	if err != nil {
		return nil, err
	}
	for i, n := range p.Inputs {
		if err := zs.Check("input "+n+" after the step", m[n], in[i]); err != nil {
			return nil, err
		}
	}
	return zs.ToBag(z)
}

func cmp(what string, got, want *vt.Bag) error {
	if !got.Equal(want) {
		return fmt.Errorf("%s: got %s, want %s", what, got, want)
	}
	return nil
}

func empties(n int) []*vt.Bag {
	r := make([]*vt.Bag, n)
	for i := range r {
		r[i] = vt.NewBag()
	}
	return r
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C08")
	defer v.Done()
	for i := 0; i < v.N(4000) && v.Left(); i++ {
		p, gather := randProgram(v)
		acc := empties(len(p.Inputs))
		max := 5
		if len(p.Inputs) > 1 {
			max = 3
		}
		var hist [][][]zs.Entry
		for s := 1 + v.R.Intn(5); s > 0; s-- {
			d := make([][]zs.Entry, len(p.Inputs))
			for k := range d {
				if len(p.Inputs) > 1 && v.R.Intn(3) == 0 {
					continue
				}
				d[k] = entries(v, acc[k], gather, max)
				acc[k].AddBag(zs.BagOf(d[k]), 1)
			}
			hist = append(hist, d)
		}
		mode := v.R.Intn(4) // 1: through ToIncrementalGraph, 2: reset in the middle, 3: optimise twice
		resetAt := v.R.Intn(len(hist))
		in := map[string]any{"program": p, "history": hist, "mode": mode, "reset": resetAt}
		v.Case("incremental", in, func() error {
			plain := p.graph()
			g := p.graph()
			var err error
			if mode == 1 {
				if g, err = dbsp.ToIncrementalGraph(g); err != nil {
					return fmt.Errorf("ToIncrementalGraph: %w", err)
				}
			}
			re := dbsp.NewLinearChainRewriteEngine()
			if err := re.Optimize(g); err != nil {
				return fmt.Errorf("Optimize: %w", err)
			}
			if mode == 3 {
				if err := re.Optimize(g); err != nil {
					return fmt.Errorf("second Optimize: %w", err)
				}
			}
			if err := wellFormed(g, p); err != nil {
				return fmt.Errorf("optimised graph: %w", err)
			}
			sg, err := dbsp.ToSnapshotGraph(g)
			if err != nil {
				return fmt.Errorf("ToSnapshotGraph: %w", err)
			}
			if err := wellFormed(sg, p); err != nil {
				return fmt.Errorf("snapshot graph: %w", err)
			}
			x, err := dbsp.NewExecutor(g, logr.Discard())
			if err != nil {
				return err
			}
			snap, err := dbsp.NewSnapshotExecutor(plain, logr.Discard())
			if err != nil {
				return err
			}
			conv, err := dbsp.NewSnapshotExecutor(sg, logr.Discard())
			if err != nil {
				return err
			}
			acc, out := empties(len(p.Inputs)), vt.NewBag()
			for s, d := range hist {
				if mode == 2 && s == resetAt {
					x.Reset()
					acc, out = empties(len(p.Inputs)), vt.NewBag()
					if gather { // start from a non-negative collection
						d = nil
					}
				}
				delta := empties(len(p.Inputs))
				for k := range d {
					delta[k].AddBag(zs.BagOf(d[k]), 1)
				}
				if mode == 2 && gather && s > resetAt {
					break
				}
				for k := range delta {
					acc[k].AddBag(delta[k], 1)
				}
				o, err := feed(x, p, delta)
				if err != nil {
					return fmt.Errorf("step %d: %w", s, err)
				}
				out.AddBag(o, 1)
				want, err := p.oracle(acc)
				if err != nil {
					return err
				}
				if err := cmp(fmt.Sprintf("step %d: accumulated incremental output of %s", s, g), out, want); err != nil {
					return err
				}
				for n, y := range map[string]*dbsp.SnapshotExecutor{"plain": snap, "converted": conv} {
					o, err := feed(y, p, acc)
					if err != nil {
						return fmt.Errorf("step %d, %s snapshot: %w", s, n, err)
					}
					y.Reset()
					if err := cmp(fmt.Sprintf("step %d: %s snapshot output", s, n), o, want); err != nil {
						return err
					}
				}
			}
			x.Reset()
			o, err := feed(x, p, acc)
			if err != nil {
				return err
			}
			want, err := p.oracle(acc)
			if err != nil {
				return err
			}
			return cmp("output on everything after a reset", o, want)
		})
		if i%10 == 0 {
			v.Case("bad-inputs", map[string]any{"program": p}, func() error {
				g := p.graph()
				g.AddInput(dbsp.NewInput("a")) // known already: nothing may change
				if err := wellFormed(g, p); err != nil {
					return err
				}
				x, err := dbsp.NewExecutor(g, logr.Discard())
				if err != nil {
					return err
				}
				m := dbsp.DeltaZSet{}
				for k, n := range p.Inputs {
					if k > 0 {
						m[n] = dbsp.NewDocumentZSet()
					}
				}
				if _, err := x.Process(m); err == nil {
					return fmt.Errorf("a missing input is not reported")
				}
				m["wrong"] = dbsp.NewDocumentZSet()
				if _, err := x.Process(m); err == nil {
					return fmt.Errorf("a misnamed input is not reported")
				}
				m["a"] = dbsp.NewDocumentZSet()
				if _, err := x.Process(m); err == nil {
					return fmt.Errorf("an extra input is not reported")
				}
				return nil
			})
			v.Case("bad-graph", map[string]any{"inputs": p.Inputs}, func() error {
				g := dbsp.NewChainGraph()
				if _, err := dbsp.NewExecutor(g, logr.Discard()); err == nil {
					return fmt.Errorf("a graph without inputs is accepted")
				}
				if err := dbsp.NewLinearChainRewriteEngine().Optimize(g); err == nil {
					return fmt.Errorf("a graph without inputs is optimised")
				}
				g.AddInput(dbsp.NewInput("a"))
				g.AddInput(dbsp.NewInput("b"))
				if _, err := dbsp.NewExecutor(g, logr.Discard()); err == nil {
					return fmt.Errorf("two inputs without a join are accepted")
				}
				return nil
			})
		}
	}
}
