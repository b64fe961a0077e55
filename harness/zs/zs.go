// Package zs: Z-set oracle helpers shared by the dbsp harnesses.
package zs

import (
	"fmt"
	"sort"

	"github.com/l7mp/dcontroller/pkg/dbsp"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

// Entry is a weighted document in replay files.
type Entry struct {
	Doc map[string]any `json:"doc"`
	N   int            `json:"n"`
}

// RandEntries makes weighted documents; signed allows negative weights.
func RandEntries(v *vt.T, max int, signed bool) []Entry {
	n := v.R.Intn(max + 1)
	var es []Entry
	for i := 0; i < n; i++ {
		d := v.SmallDoc()
		if v.R.Intn(6) == 0 {
			d = v.Doc(2)
		}
		k := 1 + v.R.Intn(3)
		if signed && v.R.Intn(2) == 0 {
			k = -k
		}
		if v.R.Intn(15) == 0 {
			k = int(v.Int())
			if !signed && k < 0 {
				k = -k
			}
		}
		es = append(es, Entry{d, k})
	}
	return es
}

// Build makes the Z-set and its oracle.
func Build(es []Entry) (*dbsp.DocumentZSet, *vt.Bag, error) {
	z := dbsp.NewDocumentZSet()
	b := vt.NewBag()
	for _, e := range es {
		if err := z.AddDocumentMutate(vt.CloneDoc(e.Doc), e.N); err != nil {
			return nil, nil, err
		}
		b.Add(e.Doc, e.N)
	}
	return z, b, nil
}

// FromBag makes a Z-set with the content of the oracle.
func FromBag(b *vt.Bag) (*dbsp.DocumentZSet, error) {
	z := dbsp.NewDocumentZSet()
	for k, n := range b.N {
		if err := z.AddDocumentMutate(vt.CloneDoc(b.D[k].(map[string]any)), n); err != nil {
			return nil, err
		}
	}
	return z, nil
}

// ToBag reads a Z-set back through List.
func ToBag(z *dbsp.DocumentZSet) (*vt.Bag, error) {
	if z == nil {
		return nil, fmt.Errorf("nil Z-set")
	}
	b := vt.NewBag()
	l, err := z.List()
	if err != nil {
		return nil, err
	}
	for _, e := range l {
		if e.Multiplicity == 0 {
			return nil, fmt.Errorf("List returns a document with multiplicity 0: %s", vt.Show(e.Document))
		}
		if b.Get(e.Document) != 0 {
			return nil, fmt.Errorf("List returns the same document twice: %s", vt.Show(e.Document))
		}
		b.Add(e.Document, e.Multiplicity)
	}
	return b, nil
}

// Check compares a Z-set with the oracle through List and GetMultiplicity.
func Check(what string, z *dbsp.DocumentZSet, want *vt.Bag) error {
	b, err := ToBag(z)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if !b.Equal(want) {
		return fmt.Errorf("%s: got %s want %s", what, b, want)
	}
	for k, n := range want.N {
		m, err := z.GetMultiplicity(want.D[k].(map[string]any))
		if err != nil || m != n {
			return fmt.Errorf("%s: multiplicity of %s is %d (%v), want %d", what, k, m, err, n)
		}
	}
	return nil
}

// Map applies a per-document function linearly.
func Map(b *vt.Bag, f func(d map[string]any) []map[string]any) *vt.Bag {
	r := vt.NewBag()
	for k, n := range b.N {
		for _, o := range f(vt.CloneDoc(b.D[k].(map[string]any))) {
			r.Add(o, n)
		}
	}
	return r
}

// RandDelta makes a change; nonneg keeps the accumulated collection non-negative.
func RandDelta(v *vt.T, acc *vt.Bag, max int, nonneg bool) []Entry {
	if !nonneg {
		es := RandEntries(v, max, true)
		// changes that meet earlier ones are the interesting ones
		for _, k := range Keys(acc) {
			if v.R.Intn(3) == 0 {
				n := acc.N[k]
				d := vt.CloneDoc(acc.D[k].(map[string]any))
				switch v.R.Intn(4) {
				case 0:
					es = append(es, Entry{d, -n})
				case 1:
					es = append(es, Entry{d, -2 * n})
				case 2:
					es = append(es, Entry{d, 1})
				default:
					es = append(es, Entry{d, -1})
				}
			}
		}
		return es
	}
	es := RandEntries(v, max, false)
	for _, k := range Keys(acc) {
		if v.R.Intn(3) == 0 {
			n := acc.N[k]
			if v.R.Intn(2) == 0 {
				n = 1 + v.R.Intn(n)
			}
			es = append(es, Entry{vt.CloneDoc(acc.D[k].(map[string]any)), -n})
		}
	}
	return es
}

// Keys of a bag in a fixed order.
func Keys(b *vt.Bag) []string {
	ks := make([]string, 0, len(b.N))
	for k := range b.N {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// BagOf is the oracle of weighted documents.
func BagOf(es []Entry) *vt.Bag {
	b := vt.NewBag()
	for _, e := range es {
		b.Add(e.Doc, e.N)
	}
	return b
}
