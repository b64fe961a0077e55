package c09

import (
	"fmt"
	"testing"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
	"github.com/l7mp/dcontroller/pkg/zzverif/zs"
)

var kinds = []schema.GroupVersionKind{
	{Group: "", Version: "v1", Kind: "ConfigMap"},
	{Group: "apps", Version: "v1", Kind: "Deployment"},
	viewv1a1.GroupVersionKind("op", "view"),
	viewv1a1.GroupVersionKind("op", "other"),
}

type step struct {
	Type string         `json:"type"`
	Obj  map[string]any `json:"object"`
}

func content(v *vt.T) map[string]any {
	switch v.R.Intn(4) {
	case 0:
		return map[string]any{"v": int64(v.R.Intn(3))}
	case 1:
		return map[string]any{"spec": v.Doc(2)}
	case 2:
		return map[string]any{"v": int64(v.R.Intn(2)), "l": []any{int64(v.R.Intn(2)), v.Scalar()}}
	}
	return map[string]any{}
}

func obj(v *vt.T) map[string]any {
	gvk := kinds[v.R.Intn(len(kinds))]
	d := content(v)
	meta := map[string]any{"name": []string{"a", "b", "ab"}[v.R.Intn(3)]}
	if v.R.Intn(3) > 0 {
		meta["namespace"] = []string{"n", "m"}[v.R.Intn(2)]
	}
	if v.R.Intn(3) == 0 {
		meta["uid"] = []string{"u1", "u2"}[v.R.Intn(2)]
	}
	if v.R.Intn(3) == 0 {
		meta["resourceVersion"] = fmt.Sprint(v.R.Intn(3))
	}
	if v.R.Intn(3) == 0 {
		meta["labels"] = map[string]any{"l": v.Str()}
	}
	d["metadata"] = meta
	d["apiVersion"] = gvk.GroupVersion().String()
	d["kind"] = gvk.Kind
	return d
}

func id(d map[string]any) string {
	m := d["metadata"].(map[string]any)
	ns, _ := m["namespace"].(string)
	return fmt.Sprint(d["apiVersion"], "|", d["kind"], "|", ns, "|", m["name"])
}

// stored: what a pipeline keeps of an object, UIDs of views are not part of the content
func stored(d map[string]any) map[string]any {
	d = vt.CloneDoc(d)
	gv, _ := schema.ParseGroupVersion(d["apiVersion"].(string))
	if viewv1a1.IsViewKind(gv.WithKind(d["kind"].(string))) {
		delete(d["metadata"].(map[string]any), "uid")
	}
	return d
}

func newPipeline() *pipeline.Pipeline {
	e, err := pipeline.New("op", viewv1a1.GroupVersionKind("op", "t"), []schema.GroupVersionKind{kinds[0]}, opv1a1.Pipeline{}, logr.Discard())
	if err != nil {
		panic(err)
	}
	return e.(*pipeline.Pipeline)
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C09")
	defer v.Done()
	types := []object.DeltaType{object.Added, object.Updated, object.Replaced, object.Upserted, object.Deleted}
	for v.Left() {
		live := map[string]map[string]any{}
		var steps []step
		// a history; the model decides what may be an Added
		for i, n := 0, 1+v.R.Intn(8); i < n; i++ {
			o := obj(v)
			if len(steps) > 0 && v.R.Intn(3) > 0 {
				// the same object again, often with the same content
				p := steps[v.R.Intn(len(steps))].Obj
				if v.R.Intn(3) == 0 {
					o = vt.CloneDoc(p)
				} else {
					o["apiVersion"], o["kind"] = p["apiVersion"], p["kind"]
					o["metadata"].(map[string]any)["name"] = p["metadata"].(map[string]any)["name"]
					if ns, ok := p["metadata"].(map[string]any)["namespace"]; ok {
						o["metadata"].(map[string]any)["namespace"] = ns
					} else {
						delete(o["metadata"].(map[string]any), "namespace")
					}
				}
			}
			ty := types[v.R.Intn(len(types))]
			if live[id(o)] != nil && ty == object.Added {
				ty = object.Updated
			}
			if ty == object.Deleted {
				delete(live, id(o))
			} else {
				live[id(o)] = o
			}
			steps = append(steps, step{string(ty), o})
		}
		v.Case("history", steps, func() error {
			p := newPipeline()
			model := map[string]map[string]any{}
			acc := vt.NewBag()
			for i, s := range steps {
				o := &unstructured.Unstructured{Object: vt.CloneDoc(s.Obj)}
				z, err := p.ConvertDeltaToZSet(object.Delta{Type: object.DeltaType(s.Type), Object: o})
				if !vt.Same(o.Object, s.Obj) {
					return fmt.Errorf("step %d changes the object of the event: %v", i, vt.Show(o.Object))
				}
				k := id(s.Obj)
				if s.Type == string(object.Deleted) && model[k] == nil {
					if err == nil {
						return fmt.Errorf("step %d: no error for the delete of an unknown object", i)
					}
				} else {
					if err != nil {
						return fmt.Errorf("step %d: %w", i, err)
					}
					b, err := zs.ToBag(z)
					if err != nil {
						return err
					}
					want := vt.NewBag()
					if old := model[k]; old != nil {
						want.Add(old, -1)
					}
					if s.Type != string(object.Deleted) {
						model[k] = stored(s.Obj)
						want.Add(model[k], 1)
					} else {
						delete(model, k)
					}
					if !b.Equal(want) {
						return fmt.Errorf("step %d (%s %s) emits %v, want %v", i, s.Type, k, b, want)
					}
					acc.AddBag(b, 1)
				}
				vt.Scribble(o.Object)
				all := vt.NewBag()
				for _, d := range model {
					all.Add(d, 1)
				}
				if !acc.Equal(all) {
					return fmt.Errorf("after step %d the accumulated changes are %v, the live objects %v", i, acc, all)
				}
				for _, g := range kinds {
					c := p.GetSourceCache(g)
					if c == nil {
						continue
					}
					b, w := vt.NewBag(), vt.NewBag()
					for _, o := range c.List() {
						b.Add(o.Object, 1)
					}
					for _, d := range model {
						if d["kind"] == g.Kind && d["apiVersion"] == g.GroupVersion().String() {
							w.Add(d, 1)
						}
					}
					if !b.Equal(w) {
						return fmt.Errorf("after step %d the record of %s is %v, the live objects %v", i, g.Kind, b, w)
					}
				}
			}
			return nil
		})
		v.Case("unknown-event", steps[0], func() error {
			p := newPipeline()
			for _, ty := range []string{"", "Sync", "Bogus", "added"} {
				if _, err := p.ConvertDeltaToZSet(object.Delta{Type: object.DeltaType(ty), Object: &unstructured.Unstructured{Object: vt.CloneDoc(steps[0].Obj)}}); err == nil {
					return fmt.Errorf("event type %q is accepted", ty)
				}
			}
			return nil
		})
	}
}
