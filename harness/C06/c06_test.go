package c06

import (
	"fmt"
	"testing"

	"github.com/go-logr/logr"
	"github.com/l7mp/dcontroller/pkg/dbsp"
	"github.com/l7mp/dcontroller/pkg/zzverif/ev"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
	"github.com/l7mp/dcontroller/pkg/zzverif/zs"
)

type step struct {
	In    []zs.Entry `json:"in"`
	Reset bool       `json:"reset,omitempty"`
}

type kept struct {
	what string
	z    *dbsp.DocumentZSet
	b    *vt.Bag
}

func history(v *vt.T) []step {
	n := 1 + v.R.Intn(8)
	var h []step
	acc := vt.NewBag()
	for i := 0; i < n; i++ {
		s := step{In: zs.RandDelta(v, acc, 4, false), Reset: v.R.Intn(7) == 0}
		if s.Reset {
			acc = vt.NewBag()
		}
		acc.AddBag(zs.BagOf(s.In), 1)
		h = append(h, s)
	}
	return h
}

const (
	keep = iota
	scrib
	reuse
)

type op interface {
	Process(...*dbsp.DocumentZSet) (*dbsp.DocumentZSet, error)
	Reset()
}

// drive runs a history through an operator. mode scrib: documents of emitted results are overwritten right away,
// reuse: the caller goes on using the collection it
// passed, otherwise everything emitted and received is kept and looked at again at the end.
func drive(o op, h []step, mode int, model func(in *vt.Bag, reset bool) *vt.Bag) error {
	var ks []kept
	for i, s := range h {
		if s.Reset {
			o.Reset()
		}
		z, b, err := zs.Build(s.In)
		if err != nil {
			return err
		}
		r, err := o.Process(z)
		if err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
		want := model(b, s.Reset)
		if err := zs.Check(fmt.Sprintf("step %d", i), r, want); err != nil {
			return err
		}
		if mode == reuse {
			if err := z.AddDocumentMutate(map[string]any{"id": int64(1)}, 2); err != nil {
				return err
			}
			for _, k := range zs.Keys(b) {
				if err := z.AddDocumentMutate(vt.CloneDoc(b.D[k].(map[string]any)), -b.N[k]); err != nil {
					return err
				}
			}
			continue
		}
		if mode == scrib {
			l, err := r.List()
			if err != nil {
				return err
			}
			for _, e := range l {
				vt.Scribble(map[string]any(e.Document))
			}
			if err := r.AddDocumentMutate(map[string]any{"extra": true}, 3); err != nil {
				return err
			}
			continue
		}
		ks = append(ks, kept{fmt.Sprintf("input of step %d, later", i), z, b}, kept{fmt.Sprintf("output of step %d, later", i), r, want})
	}
	for _, k := range ks {
		if err := zs.Check(k.what, k.z, k.b); err != nil {
			return err
		}
	}
	return nil
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C06")
	defer v.Done()
	for i := 0; i < v.N(3000) && v.Left(); i++ {
		h := history(v)
		mode := v.R.Intn(3)
		in := map[string]any{"history": h, "overwrite-results": mode == scrib, "caller-reuses-inputs": mode == reuse}
		v.Case("integrate", in, func() error {
			acc := vt.NewBag()
			return drive(dbsp.NewIntegrator(), h, mode, func(b *vt.Bag, r bool) *vt.Bag {
				if r {
					acc = vt.NewBag()
				}
				acc.AddBag(b, 1)
				return acc.Copy()
			})
		})
		v.Case("differentiate", in, func() error {
			prev := vt.NewBag()
			return drive(dbsp.NewDifferentiator(), h, mode, func(b *vt.Bag, r bool) *vt.Bag {
				if r {
					prev = vt.NewBag()
				}
				d := b.Copy().AddBag(prev, -1)
				prev = b.Copy()
				return d
			})
		})
		v.Case("delay", in, func() error {
			prev := vt.NewBag()
			return drive(dbsp.NewDelay(), h, mode, func(b *vt.Bag, r bool) *vt.Bag {
				if r {
					prev = vt.NewBag()
				}
				d := prev
				prev = b.Copy()
				return d
			})
		})
		v.Case("integrate-differentiate", in, func() error {
			I, D := dbsp.NewIntegrator(), dbsp.NewDifferentiator()
			for i, s := range h {
				if s.Reset {
					I.Reset()
					D.Reset()
				}
				z, b, err := zs.Build(s.In)
				if err != nil {
					return err
				}
				x, err := I.Process(z)
				if err != nil {
					return err
				}
				y, err := D.Process(x)
				if err != nil {
					return err
				}
				if err := zs.Check(fmt.Sprintf("D(I(x)) at step %d", i), y, b); err != nil {
					return err
				}
			}
			return nil
		})
		v.Case("same-input-twice", in, func() error {
			// the same collection object fed again and again
			I, D, Z := dbsp.NewIntegrator(), dbsp.NewDifferentiator(), dbsp.NewDelay()
			z, b, err := zs.Build(h[0].In)
			if err != nil {
				return err
			}
			for i := 1; i <= 3; i++ {
				x, err := I.Process(z)
				if err != nil {
					return err
				}
				if err := zs.Check("integral", x, vt.NewBag().AddBag(b, i)); err != nil {
					return err
				}
				d, err := D.Process(z)
				if err != nil {
					return err
				}
				w := vt.NewBag()
				if i == 1 {
					w = b
				}
				if err := zs.Check("difference", d, w); err != nil {
					return err
				}
				y, err := Z.Process(z)
				if err != nil {
					return err
				}
				w = b
				if i == 1 {
					w = vt.NewBag()
				}
				if err := zs.Check("delay", y, w); err != nil {
					return err
				}
			}
			return nil
		})
		v.Case("input-constant", in, func() error {
			z, b, err := zs.Build(h[0].In)
			if err != nil {
				return err
			}
			I := dbsp.NewInput("x")
			if r, err := I.Process(); err != nil || r.TotalSize() != 0 {
				return fmt.Errorf("a new input is not empty: %v", err)
			}
			I.SetData(z)
			C := dbsp.NewConstant(z, "c")
			for j := 0; j < 3; j++ {
				r, err := I.Process()
				if err != nil {
					return err
				}
				if err := zs.Check("input", r, b); err != nil {
					return err
				}
				c, err := C.Process()
				if err != nil {
					return err
				}
				if err := zs.Check("constant", c, b); err != nil {
					return err
				}
				for _, q := range []*dbsp.DocumentZSet{r, c} {
					l, err := q.List()
					if err != nil {
						return err
					}
					for _, e := range l {
						vt.Scribble(map[string]any(e.Document))
					}
					if err := q.AddDocumentMutate(map[string]any{"extra": true}, 3); err != nil {
						return err
					}
				}
			}
			return nil
		})
		if i%4 != 0 {
			continue
		}
		// resetting an executor makes it behave as new
		h2 := history(v)
		kind := v.R.Intn(4)
		v.Case("executor-reset", map[string]any{"first": h, "second": h2, "kind": kind}, func() error {
			mk := func() (*dbsp.Executor, error) {
				g := dbsp.NewChainGraph()
				g.AddInput(dbsp.NewInput("a"))
				if kind > 0 {
					g.AddInput(dbsp.NewInput("b"))
				}
				e := ev.Eval{F: ev.F{Op: "id"}}
				switch kind {
				case 1:
					g.SetJoin(dbsp.NewIncrementalBinaryJoin(e, []string{"a", "b"}))
				case 2:
					g.SetJoin(dbsp.NewIncrementalJoin(e, []string{"a", "b"}))
				case 3:
					g.SetJoin(dbsp.NewJoin(e, []string{"a", "b"}))
				}
				g.AddToChain(dbsp.NewDelay())
				g.AddToChain(dbsp.NewDistinct())
				if kind == 3 {
					if err := dbsp.NewLinearChainRewriteEngine().Optimize(g); err != nil {
						return nil, err
					}
				} else {
					g.AddToChain(dbsp.NewIntegrator())
					g.AddToChain(dbsp.NewDifferentiator())
					g.AddToChain(dbsp.NewIntegrator())
				}
				return dbsp.NewExecutor(g, logr.Discard())
			}
			feed := func(x *dbsp.Executor, s step) (*vt.Bag, error) {
				z, _, err := zs.Build(s.In)
				if err != nil {
					return nil, err
				}
				m := dbsp.DeltaZSet{"a": z}
				if kind > 0 {
					y, _, err := zs.Build(s.In)
					if err != nil {
						return nil, err
					}
					m["b"] = y
				}
				r, err := x.Process(m)
				if err != nil {
					return nil, err
				}
				return zs.ToBag(r)
			}
			x, err := mk()
			if err != nil {
				return err
			}
			y, err := mk()
			if err != nil {
				return err
			}
			for _, s := range h {
				if _, err := feed(x, s); err != nil {
					return err
				}
			}
			x.Reset()
			for i, s := range h2 {
				a, err := feed(x, s)
				if err != nil {
					return err
				}
				b, err := feed(y, s)
				if err != nil {
					return err
				}
				if !a.Equal(b) {
					return fmt.Errorf("step %d after reset: %s, a new executor gives %s", i, a, b)
				}
			}
			return nil
		})
	}
}
