package c02

import (
	"fmt"
	"testing"

	"github.com/l7mp/dcontroller/pkg/dbsp"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
	"github.com/l7mp/dcontroller/pkg/zzverif/zs"
)

func observers(z *dbsp.DocumentZSet, b *vt.Bag, extra map[string]any) error {
	pos, uniq, tot := 0, 0, 0
	dist, un, docs, udocs := vt.NewBag(), vt.NewBag(), vt.NewBag(), vt.NewBag()
	for k, n := range b.N {
		d := b.D[k]
		if n > 0 {
			pos += n
			uniq++
			tot += n
			dist.Add(d, 1)
			un.Add(d, 1)
			docs.Add(d, n)
			udocs.Add(d, 1)
		} else {
			tot -= n
			un.Add(d, -1)
		}
	}
	if z.Size() != pos {
		return fmt.Errorf("Size %d, want %d", z.Size(), pos)
	}
	if z.TotalSize() != tot {
		return fmt.Errorf("TotalSize %d, want %d", z.TotalSize(), tot)
	}
	if z.UniqueCount() != uniq {
		return fmt.Errorf("UniqueCount %d, want %d", z.UniqueCount(), uniq)
	}
	if z.IsZero() != (len(b.N) == 0) {
		return fmt.Errorf("IsZero %v with %d documents", z.IsZero(), len(b.N))
	}
	dd, err := z.Distinct()
	if err != nil {
		return err
	}
	if err := zs.Check("Distinct", dd, dist); err != nil {
		return err
	}
	uu, err := z.Unique()
	if err != nil {
		return err
	}
	if err := zs.Check("Unique", uu, un); err != nil {
		return err
	}
	gd, err := z.GetDocuments()
	if err != nil {
		return err
	}
	g := vt.NewBag()
	for _, d := range gd {
		g.Add(d, 1)
	}
	if !g.Equal(docs) {
		return fmt.Errorf("GetDocuments %s, want %s", g, docs)
	}
	gu, err := z.GetUniqueDocuments()
	if err != nil {
		return err
	}
	g = vt.NewBag()
	for _, d := range gu {
		g.Add(d, 1)
	}
	if !g.Equal(udocs) {
		return fmt.Errorf("GetUniqueDocuments %s, want %s", g, udocs)
	}
	for k, n := range b.N {
		c, err := z.Contains(b.D[k].(map[string]any))
		if err != nil || c != (n > 0) {
			return fmt.Errorf("Contains(%s)=%v (%v) at multiplicity %d", k, c, err, n)
		}
	}
	m, err := z.GetMultiplicity(extra)
	if err != nil || m != b.Get(extra) {
		return fmt.Errorf("GetMultiplicity(%s)=%d (%v) want %d", vt.Show(extra), m, err, b.Get(extra))
	}
	c, err := z.Contains(extra)
	if err != nil || c != (b.Get(extra) > 0) {
		return fmt.Errorf("Contains(%s)=%v (%v) at multiplicity %d", vt.Show(extra), c, err, b.Get(extra))
	}
	_ = z.String()
	return zs.Check("after observing", z, b)
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C02")
	defer v.Done()
	for i := 0; i < v.N(5000) && v.Left(); i++ {
		a := zs.RandEntries(v, 8, v.R.Intn(3) > 0)
		x := v.SmallDoc()
		v.Case("observers", map[string]any{"a": a, "doc": x}, func() error {
			z, b, err := zs.Build(a)
			if err != nil {
				return err
			}
			if err := zs.Check("List", z, b); err != nil {
				return err
			}
			if err := observers(z, b, x); err != nil {
				return err
			}
			for n, c := range map[string]*dbsp.DocumentZSet{"ShallowCopy": z.ShallowCopy(), "DeepCopy": z.DeepCopy()} {
				if err := observers(c, b, x); err != nil {
					return fmt.Errorf("%s: %w", n, err)
				}
			}
			// what the list observers hand out is private
			l, _ := z.List()
			for _, e := range l {
				vt.Scribble(map[string]any(e.Document))
			}
			gd, _ := z.GetDocuments()
			for _, d := range gd {
				vt.Scribble(map[string]any(d))
			}
			gu, _ := z.GetUniqueDocuments()
			for _, d := range gu {
				vt.Scribble(map[string]any(d))
			}
			dc := z.DeepCopy()
			if err := observers(z, b, x); err != nil {
				return fmt.Errorf("after writing to returned documents: %w", err)
			}
			// growing a copy leaves the original alone
			if err := dc.AddDocumentMutate(map[string]any{"new": int64(1)}, 2); err != nil {
				return err
			}
			sc := z.ShallowCopy()
			if err := sc.AddDocumentMutate(map[string]any{"new": int64(1)}, 2); err != nil {
				return err
			}
			return zs.Check("after changing copies", z, b)
		})
	}
}
