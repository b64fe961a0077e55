package c01

import (
	"fmt"
	"testing"

	"github.com/l7mp/dcontroller/pkg/dbsp"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
	"github.com/l7mp/dcontroller/pkg/zzverif/zs"
)

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C01")
	defer v.Done()
	for i := 0; i < v.N(4000) && v.Left(); i++ {
		a, b := zs.RandEntries(v, 7, true), zs.RandEntries(v, 7, true)
		d, n := v.SmallDoc(), int(v.Int())
		v.Case("binary", map[string]any{"a": a, "b": b, "doc": d, "n": n}, func() error {
			za, ba, err := zs.Build(a)
			if err != nil {
				return err
			}
			zb, bb, err := zs.Build(b)
			if err != nil {
				return err
			}
			if err := zs.Check("build", za, ba); err != nil {
				return err
			}
			s, err := za.Add(zb)
			if err != nil {
				return fmt.Errorf("Add: %w", err)
			}
			if err := zs.Check("a+b", s, ba.Copy().AddBag(bb, 1)); err != nil {
				return err
			}
			m, err := za.Subtract(zb)
			if err != nil {
				return fmt.Errorf("Subtract: %w", err)
			}
			if err := zs.Check("a-b", m, ba.Copy().AddBag(bb, -1)); err != nil {
				return err
			}
			neg, err := dbsp.NewNegate().Process(za)
			if err != nil {
				return fmt.Errorf("negate: %w", err)
			}
			if err := zs.Check("-a", neg, vt.NewBag().AddBag(ba, -1)); err != nil {
				return err
			}
			ad, err := za.AddDocument(vt.CloneDoc(d), n)
			if err != nil {
				return fmt.Errorf("AddDocument: %w", err)
			}
			if err := zs.Check("a+n*d", ad, ba.Copy().Add(d, n)); err != nil {
				return err
			}
			self, err := za.Subtract(za)
			if err != nil {
				return err
			}
			if err := zs.Check("a-a", self, vt.NewBag()); err != nil {
				return err
			}
			if !self.IsZero() {
				return fmt.Errorf("a-a is not zero")
			}
			nil1, err := za.Add(nil)
			if err != nil {
				return err
			}
			if err := zs.Check("a+nil", nil1, ba); err != nil {
				return err
			}
			if err := zs.Check("operand a afterwards", za, ba); err != nil {
				return err
			}
			return zs.Check("operand b afterwards", zb, bb)
		})
	}
	// histories: a pool of Z-sets, every operation checked against the oracle and no other member of the pool changed
	for i := 0; i < v.N(250) && v.Left(); i++ {
		var script []string
		type step struct {
			op, x, y int
			d        map[string]any
			n        int
		}
		var steps []step
		for j := 0; j < 25; j++ {
			st := step{v.R.Intn(6), v.R.Intn(4), v.R.Intn(4), v.SmallDoc(), v.R.Intn(7) - 3}
			steps = append(steps, st)
			script = append(script, fmt.Sprintf("op%d %d %d %s %d", st.op, st.x, st.y, vt.Show(st.d), st.n))
		}
		v.Case("history", script, func() error {
			var z [4]*dbsp.DocumentZSet
			var b [4]*vt.Bag
			for k := range z {
				z[k], b[k] = dbsp.NewDocumentZSet(), vt.NewBag()
			}
			for si, st := range steps {
				var err error
				switch st.op {
				case 0:
					err = z[st.x].AddDocumentMutate(vt.CloneDoc(st.d), st.n)
					b[st.x].Add(st.d, st.n)
				case 1:
					z[st.x], err = z[st.y].AddDocument(vt.CloneDoc(st.d), st.n)
					b[st.x] = b[st.y].Copy().Add(st.d, st.n)
				case 2:
					z[st.x], err = z[st.x].Add(z[st.y])
					b[st.x] = b[st.x].Copy().AddBag(b[st.y].Copy(), 1)
				case 3:
					z[st.x], err = z[st.x].Subtract(z[st.y])
					b[st.x] = b[st.x].Copy().AddBag(b[st.y].Copy(), -1)
				case 4:
					z[st.x] = z[st.y].ShallowCopy()
					b[st.x] = b[st.y].Copy()
				case 5:
					z[st.x] = z[st.y].DeepCopy()
					b[st.x] = b[st.y].Copy()
				}
				if err != nil {
					return fmt.Errorf("step %d: %w", si, err)
				}
				for k := range z {
					if err := zs.Check(fmt.Sprintf("after step %d, set %d", si, k), z[k], b[k]); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	for i := 0; i < v.N(300) && v.Left(); i++ {
		var docs []map[string]any
		for j := v.R.Intn(6); j > 0; j-- {
			docs = append(docs, v.SmallDoc())
		}
		v.Case("from-documents", docs, func() error {
			var ds []dbsp.Document
			b := vt.NewBag()
			for _, d := range docs {
				ds = append(ds, vt.CloneDoc(d))
				b.Add(d, 1)
			}
			z, err := dbsp.FromDocuments(ds)
			if err != nil {
				return err
			}
			if err := zs.Check("FromDocuments", z, b); err != nil {
				return err
			}
			if len(ds) > 0 {
				s, err := dbsp.SingletonZSet(ds[0])
				if err != nil {
					return err
				}
				return zs.Check("SingletonZSet", s, vt.NewBag().Add(docs[0], 1))
			}
			return nil
		})
	}
}
