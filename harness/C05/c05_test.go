package c05

import (
	"fmt"
	"testing"

	"github.com/l7mp/dcontroller/pkg/dbsp"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
	"github.com/l7mp/dcontroller/pkg/zzverif/zs"
)

// cond is a join condition with a result; the evaluator is a pure function of the joined document.
type cond struct {
	Kind string `json:"kind"`
	Fail int    `json:"fail,omitempty"`
}

func (c cond) String() string { return c.Kind }

func (c cond) fn(names []string, d map[string]any) ([]map[string]any, error) {
	ids := make([]any, len(names))
	for i, n := range names {
		x, ok := d[n].(map[string]any)
		if !ok {
			return nil, fmt.Errorf("input %s missing from the joined document", n)
		}
		ids[i] = x["id"]
	}
	if len(d) != len(names) {
		return nil, fmt.Errorf("joined document has extra fields: %s", vt.Show(d))
	}
	if c.Fail > 0 && vt.Equal(ids[0], int64(c.Fail)) && vt.Equal(ids[len(ids)-1], int64(c.Fail)) {
		return nil, fmt.Errorf("condition refuses")
	}
	switch c.Kind {
	case "cross":
		return []map[string]any{vt.CloneDoc(d)}, nil
	case "equal":
		for _, x := range ids {
			if !vt.Equal(x, ids[0]) {
				return nil, nil
			}
		}
		return []map[string]any{vt.CloneDoc(d)}, nil
	case "collapse": // many combinations give one result
		return []map[string]any{{"first": ids[0]}}, nil
	case "first-last":
		if vt.Equal(ids[0], ids[len(ids)-1]) {
			return nil, nil
		}
		return []map[string]any{vt.CloneDoc(d), {"pair": []any{ids[0], ids[len(ids)-1]}}}, nil
	}
	panic(c.Kind)
}

type eval struct {
	c     cond
	names []string
}

func (e eval) String() string { return e.c.Kind }
func (e eval) Evaluate(d map[string]any) ([]map[string]any, error) {
	rs, err := e.c.fn(e.names, d)
	if err != nil {
		return nil, err
	}
	if e.c.Kind == "cross" { // as in the pipeline: the joined document itself is the result
		return []map[string]any{d}, nil
	}
	return rs, nil
}

func product(names []string, bags []*vt.Bag, c cond) (*vt.Bag, error) {
	r := vt.NewBag()
	var rec func(i, m int, d map[string]any) error
	rec = func(i, m int, d map[string]any) error {
		if i == len(names) {
			rs, err := c.fn(names, vt.CloneDoc(d))
			if err != nil {
				return err
			}
			for _, x := range rs {
				r.Add(x, m)
			}
			return nil
		}
		for k, n := range bags[i].N {
			d[names[i]] = bags[i].D[k]
			if err := rec(i+1, m*n, d); err != nil {
				return err
			}
		}
		return nil
	}
	return r, rec(0, 1, map[string]any{})
}

type proc interface {
	Process(...*dbsp.DocumentZSet) (*dbsp.DocumentZSet, error)
}

func bound(es []zs.Entry) []zs.Entry {
	for i := range es {
		if es[i].N > 5 || es[i].N < -5 {
			es[i].N %= 5
		}
	}
	return es
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C05")
	defer v.Done()
	all := []string{"a", "b", "c", "d"}
	for i := 0; i < v.N(1500) && v.Left(); i++ {
		n := 2 + v.R.Intn(3)
		if i%12 == 0 {
			n = 1
		}
		names := append([]string{}, all[:n]...)
		v.R.Shuffle(n, func(i, j int) { names[i], names[j] = names[j], names[i] })
		c := cond{Kind: []string{"cross", "equal", "collapse", "first-last"}[v.R.Intn(4)]}
		if v.R.Intn(12) == 0 {
			c.Fail = 1 + v.R.Intn(3)
		}
		steps := 1 + v.R.Intn(5)
		var hist [][][]zs.Entry
		acc := make([]*vt.Bag, n)
		for j := range acc {
			acc[j] = vt.NewBag()
		}
		for s := 0; s < steps; s++ {
			row := make([][]zs.Entry, n)
			only := -1
			if v.R.Intn(3) == 0 {
				only = v.R.Intn(n)
			}
			for j := range row {
				row[j] = []zs.Entry{}
				if only < 0 || only == j {
					row[j] = bound(zs.RandDelta(v, acc[j], 4-n/2, false))
				}
				acc[j].AddBag(zs.BagOf(row[j]), 1)
			}
			hist = append(hist, row)
		}
		reuse := v.R.Intn(3) == 0
		in := map[string]any{"inputs": names, "condition": c, "history": hist, "caller-reuses-inputs": reuse}
		run := func(inc, snap proc) error {
			acc := make([]*vt.Bag, n)
			for j := range acc {
				acc[j] = vt.NewBag()
			}
			out := vt.NewBag()
			e := eval{c, names}
			_ = e
			for s, row := range hist {
				zz := make([]*dbsp.DocumentZSet, n)
				bb := make([]*vt.Bag, n)
				full := make([]*dbsp.DocumentZSet, n)
				for j := range row {
					var err error
					if zz[j], bb[j], err = zs.Build(row[j]); err != nil {
						return err
					}
					acc[j].AddBag(bb[j], 1)
					if full[j], err = zs.FromBag(acc[j]); err != nil {
						return err
					}
				}
				want, werr := product(names, acc, c)
				sr, serr := snap.Process(full...)
				if (serr != nil) != (werr != nil) {
					return fmt.Errorf("step %d: snapshot join error %v, expected %v", s, serr, werr)
				}
				if werr == nil {
					if err := zs.Check(fmt.Sprintf("step %d: snapshot join", s), sr, want); err != nil {
						return err
					}
				}
				r, err := inc.Process(zz...)
				if werr != nil || err != nil {
					if werr == nil && c.Fail == 0 {
						return fmt.Errorf("step %d: incremental join: %w", s, err)
					}
					return nil
				}
				b, err := zs.ToBag(r)
				if err != nil {
					return err
				}
				out.AddBag(b, 1)
				if !out.Equal(want) {
					return fmt.Errorf("step %d: accumulated incremental result %s, snapshot join %s", s, out, want)
				}
				for j := range row {
					if err := zs.Check(fmt.Sprintf("step %d: input %d afterwards", s, j), zz[j], bb[j]); err != nil {
						return err
					}
					if reuse { // the caller goes on using the collection it passed
						if err := zz[j].AddDocumentMutate(map[string]any{"id": int64(1)}, 2); err != nil {
							return err
						}
						for _, k := range zs.Keys(bb[j]) {
							if err := zz[j].AddDocumentMutate(vt.CloneDoc(bb[j].D[k].(map[string]any)), -bb[j].N[k]); err != nil {
								return err
							}
						}
					}
				}
			}
			return nil
		}
		v.Case("n-ary", in, func() error {
			e := eval{c, names}
			return run(dbsp.NewIncrementalJoin(e, names), dbsp.NewJoin(e, names))
		})
		if n == 2 {
			v.Case("binary", in, func() error {
				e := eval{c, names}
				return run(dbsp.NewIncrementalBinaryJoin(e, names), dbsp.NewBinaryJoin(e, names))
			})
		}
		v.Case("arity", in, func() error {
			e := eval{c, names}
			for _, o := range []proc{dbsp.NewIncrementalJoin(e, names), dbsp.NewJoin(e, names)} {
				if _, err := o.Process(make([]*dbsp.DocumentZSet, n+1)...); err == nil {
					return fmt.Errorf("%T takes %d inputs instead of %d", o, n+1, n)
				}
				if _, err := o.Process(); err == nil {
					return fmt.Errorf("%T takes no input", o)
				}
			}
			return nil
		})
	}
}
