package c04

import (
	"fmt"
	"testing"

	"github.com/l7mp/dcontroller/pkg/dbsp"
	"github.com/l7mp/dcontroller/pkg/zzverif/ev"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
	"github.com/l7mp/dcontroller/pkg/zzverif/zs"
)

func entries(v *vt.T) []zs.Entry {
	es := zs.RandEntries(v, 7, true)
	if v.R.Intn(2) == 0 {
		for i := range es {
			n := v.R.Intn(4)
			if n == 3 {
				es[i].Doc["l"] = v.Scalar()
				continue
			}
			l := []any{}
			for j := 0; j < n; j++ {
				l = append(l, v.Value(1))
			}
			es[i].Doc["l"] = l
		}
	}
	return es
}

type proc interface {
	Process(...*dbsp.DocumentZSet) (*dbsp.DocumentZSet, error)
}

// run compares an operator with the oracle. mut: the evaluators write to their argument.
func run(what string, op proc, in []zs.Entry, want *vt.Bag, wantErr error, mut bool) error {
	z, b, err := zs.Build(in)
	if err != nil {
		return err
	}
	r, err := op.Process(z)
	if wantErr != nil {
		if err == nil {
			return fmt.Errorf("%s: an evaluation failed but no error is reported", what)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if err := zs.Check(what, r, want); err != nil {
		return err
	}
	if !mut {
		return zs.Check(what+": input after the step", z, b)
	}
	return nil
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C04")
	defer v.Done()
	for i := 0; i < v.N(3000) && v.Left(); i++ {
		in, in2 := entries(v), entries(v)
		f, s := ev.Rand(v, false), ev.Sel(v)
		n := 1 + v.R.Intn(4)
		ps := make([]ev.F, n)
		evs := make([]dbsp.Evaluator, n)
		for j := range ps {
			ps[j] = ev.Rand(v, true)
			evs[j] = ev.Eval{F: ps[j]}
		}
		fm := f
		fm.Mut = true
		g := s // a selecting evaluator, or one that may give several documents
		if i%2 == 0 {
			g = ev.Rand(v, false)
		}
		v.Case("projection", map[string]any{"in": in, "f": f}, func() error {
			_, b, err := zs.Build(in)
			if err != nil {
				return err
			}
			want, werr := ev.Apply(b, f)
			if err := run("projection", dbsp.NewProjection(ev.Eval{F: f}), in, want, werr, false); err != nil {
				return err
			}
			return run("projection with a mutating evaluator", dbsp.NewProjection(ev.Eval{F: fm}), in, want, werr, false)
		})
		v.Case("selection", map[string]any{"in": in, "f": s}, func() error {
			_, b, err := zs.Build(in)
			if err != nil {
				return err
			}
			want, werr := ev.Apply(b, s)
			if err := run("selection", dbsp.NewSelection(ev.Eval{F: s}), in, want, werr, false); err != nil {
				return err
			}
			want, werr = ev.Apply(b, f)
			return run("selection", dbsp.NewSelection(ev.Eval{F: f}), in, want, werr, false)
		})
		v.Case("project-then-select", map[string]any{"in": in, "f": f, "s": g}, func() error {
			_, b, err := zs.Build(in)
			if err != nil {
				return err
			}
			want, werr := ev.Apply(b, f)
			if werr == nil {
				// the fused operator sees every projected document, also those that cancel in the intermediate result
				mid := vt.NewBag()
				for k, m := range b.N {
					rs, _ := f.Fn(b.D[k].(map[string]any))
					for _, r := range rs {
						x, err := g.Fn(r)
						if err != nil {
							werr = err
						}
						for _, y := range x {
							mid.Add(y, m)
						}
					}
				}
				want = mid
			}
			return run("project-then-select", dbsp.NewProjectThenSelect(ev.Eval{F: f}, ev.Eval{F: g}), in, want, werr, false)
		})
		for _, withSel := range []bool{true, false} {
			withSel := withSel
			v.Case("select-then-projections", map[string]any{"in": in, "s": g, "ps": ps, "sel": withSel}, func() error {
				_, b, err := zs.Build(in)
				if err != nil {
					return err
				}
				want := vt.NewBag()
				var werr error
				for k, m := range b.N {
					ds := []map[string]any{vt.CloneDoc(b.D[k].(map[string]any))}
					if withSel {
						var err error
						if ds, err = g.Fn(ds[0]); err != nil {
							werr = err
						}
					}
					for _, d := range ds {
						bad := false
						for _, p := range ps {
							r, err := p.Fn(d)
							if err != nil {
								werr, bad = err, true
								break
							}
							d = r[0]
						}
						if !bad {
							want.Add(d, m)
						}
					}
				}
				var se dbsp.Evaluator
				if withSel {
					se = ev.Eval{F: g}
				}
				return run("select-then-projections", dbsp.NewSelectThenProjections(se, evs), in, want, werr, false)
			})
		}
		v.Case("fused-sequence", map[string]any{"in": in, "s": s, "f": f, "ps": ps}, func() error {
			mk := func() []dbsp.Operator {
				ops := []dbsp.Operator{dbsp.NewSelection(ev.Eval{F: s}), dbsp.NewProjection(ev.Eval{F: f})}
				for _, p := range ps {
					ops = append(ops, dbsp.NewProjection(ev.Eval{F: p}))
				}
				if i%3 == 0 {
					ops = append(ops, dbsp.NewUnwind(ev.Ext{Field: "l"}, ev.Tr{Field: "l"}), dbsp.NewDistinct())
				}
				return ops
			}
			_, b, err := zs.Build(in)
			if err != nil {
				return err
			}
			z, err := zs.FromBag(b)
			if err != nil {
				return err
			}
			var werr error
			for _, o := range mk() {
				if z, werr = o.Process(z); werr != nil {
					break
				}
			}
			want := vt.NewBag()
			if werr == nil {
				if want, err = zs.ToBag(z); err != nil {
					return err
				}
			}
			fo, err := dbsp.NewFusedOp(mk(), "seq")
			if err != nil {
				return err
			}
			if err := run("fused sequence", fo, in, want, werr, false); err != nil {
				return err
			}
			w1, e1 := ev.Apply(b, s)
			var w2 *vt.Bag
			if e1 == nil {
				w2, e1 = ev.Apply(w1, f)
			}
			fp, err := dbsp.FuseFilterProject(dbsp.NewSelection(ev.Eval{F: s}), dbsp.NewProjection(ev.Eval{F: f}))
			if err != nil {
				return err
			}
			return run("fused filter-project", fp, in, w2, e1, false)
		})
		x, tr := ev.Ext{Field: "l"}, ev.Tr{Field: []string{"l", "e"}[v.R.Intn(2)]}
		switch v.R.Intn(6) {
		case 0:
			x.Fail = int64(v.R.Intn(4))
		case 1:
			tr.Fail = v.Scalar()
		}
		v.Case("unwind", map[string]any{"in": in, "x": x, "t": tr}, func() error {
			_, b, err := zs.Build(in)
			if err != nil {
				return err
			}
			want := vt.NewBag()
			var werr error
			for k, m := range b.N {
				d := b.D[k].(map[string]any)
				l, err := x.Extract(d)
				if err != nil {
					werr = err
					continue
				}
				es, _ := l.([]any)
				for _, e := range es {
					r, err := tr.Transform(vt.CloneDoc(d), vt.Clone(e))
					if err != nil {
						werr = err
						continue
					}
					want.Add(r, m)
				}
			}
			if err := run("unwind", dbsp.NewUnwind(x, tr), in, want, werr, false); err != nil || werr != nil {
				return err
			}
			// results share nothing with the input
			z, b, err := zs.Build(in)
			if err != nil {
				return err
			}
			r, err := dbsp.NewUnwind(x, tr).Process(z)
			if err != nil {
				return err
			}
			l, err := r.List()
			if err != nil {
				return err
			}
			for _, e := range l {
				vt.Scribble(map[string]any(e.Document))
			}
			return zs.Check("input after writing to the results of unwind", z, b)
		})
		v.Case("linear", map[string]any{"a": in, "b": in2, "f": f, "s": s}, func() error {
			for _, op := range []proc{dbsp.NewProjection(ev.Eval{F: f}), dbsp.NewSelection(ev.Eval{F: s}), dbsp.NewProjectThenSelect(ev.Eval{F: f}, ev.Eval{F: s}),
				dbsp.NewSelectThenProjections(ev.Eval{F: s}, evs), dbsp.NewUnwind(ev.Ext{Field: "l"}, ev.Tr{Field: "l"})} {
				za, _, err := zs.Build(in)
				if err != nil {
					return err
				}
				zb, _, err := zs.Build(in2)
				if err != nil {
					return err
				}
				zc, err := za.Add(zb)
				if err != nil {
					return err
				}
				ra, ea := op.Process(za)
				rb, eb := op.Process(zb)
				rc, ec := op.Process(zc)
				if ea != nil || eb != nil {
					continue
				}
				if ec != nil {
					return fmt.Errorf("%T fails on a+b but on neither a nor b: %w", op, ec)
				}
				rs, err := ra.Add(rb)
				if err != nil {
					return err
				}
				want, err := zs.ToBag(rs)
				if err != nil {
					return err
				}
				if err := zs.Check(fmt.Sprintf("%T: f(a+b) = f(a)+f(b)", op), rc, want); err != nil {
					return err
				}
			}
			return nil
		})
	}
	v.Case("arity", "no input, two inputs", func() error {
		e := ev.Eval{F: ev.F{Op: "id"}}
		for _, op := range []proc{dbsp.NewProjection(e), dbsp.NewSelection(e), dbsp.NewProjectThenSelect(e, e), dbsp.NewSelectThenProjections(nil, []dbsp.Evaluator{e}), dbsp.NewUnwind(ev.Ext{Field: "l"}, ev.Tr{Field: "l"})} {
			if _, err := op.Process(); err == nil {
				return fmt.Errorf("%T accepts no input", op)
			}
			if _, err := op.Process(dbsp.NewDocumentZSet(), dbsp.NewDocumentZSet()); err == nil {
				return fmt.Errorf("%T accepts two inputs", op)
			}
		}
		return nil
	})
}
