package c10

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/dbsp"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

var src = viewv1a1.GroupVersionKind("op", "s")
var targets = []schema.GroupVersionKind{viewv1a1.GroupVersionKind("op", "t"), {Group: "", Version: "v1", Kind: "ConfigMap"}, {Group: "apps", Version: "v1", Kind: "Deployment"}}

type entry struct {
	Doc map[string]any `json:"doc"`
	N   int            `json:"n"`
}

func newPipeline(target schema.GroupVersionKind, spec string) *pipeline.Pipeline {
	var c opv1a1.Pipeline
	if spec != "" {
		if err := json.Unmarshal([]byte(spec), &c); err != nil {
			panic(err)
		}
	}
	e, err := pipeline.New("op", target, []schema.GroupVersionKind{src}, c, logr.Discard())
	if err != nil {
		panic(err)
	}
	return e.(*pipeline.Pipeline)
}

func doc(v *vt.T) map[string]any {
	m := map[string]any{"name": []string{"a", "b", "c", "n"}[v.R.Intn(4)]}
	switch v.R.Intn(4) {
	case 0, 1:
		m["namespace"] = []string{"n", "m"}[v.R.Intn(2)]
	case 2:
		if v.R.Intn(3) == 0 {
			m["namespace"] = ""
		}
	}
	if v.R.Intn(4) == 0 {
		m["labels"] = map[string]any{"x": v.Str()}
	}
	d := map[string]any{"metadata": m, "v": int64(v.R.Intn(4))}
	if v.R.Intn(3) == 0 {
		d["spec"] = v.Doc(2)
	}
	switch v.R.Intn(4) {
	case 0:
		d["apiVersion"], d["kind"] = "v1", "Pod"
	case 1:
		d["kind"] = "Zoo"
	}
	return d
}

func key(d map[string]any) string {
	m := d["metadata"].(map[string]any)
	ns, _ := m["namespace"].(string)
	return fmt.Sprint(ns, "/", m["name"])
}

// result: the object a document stands for in the target; an empty namespace is the same as none
func result(d map[string]any, t schema.GroupVersionKind) map[string]any {
	d = vt.CloneDoc(d)
	d["apiVersion"], d["kind"] = t.GroupVersion().String(), t.Kind
	if m := d["metadata"].(map[string]any); m["namespace"] == "" {
		delete(m, "namespace")
	}
	return d
}

// checkDeltas checks the form of an emitted batch and applies it to the oracle's target contents.
func checkDeltas(ds []object.Delta, t schema.GroupVersionKind, before map[string]map[string]any) (map[string]map[string]any, error) {
	after := map[string]map[string]any{}
	for k, d := range before {
		after[k] = d
	}
	ups := false
	seen := map[string]bool{}
	for _, d := range ds {
		o := d.Object
		if o == nil {
			return nil, fmt.Errorf("nil object in the result")
		}
		if o.GroupVersionKind() != t {
			return nil, fmt.Errorf("emitted kind %v, target %v", o.GroupVersionKind(), t)
		}
		if o.GetName() == "" {
			return nil, fmt.Errorf("emitted object without name")
		}
		k := fmt.Sprint(o.GetNamespace(), "/", o.GetName())
		if seen[k] {
			return nil, fmt.Errorf("two changes of %s in one batch", k)
		}
		seen[k] = true
		switch d.Type {
		case object.Deleted:
			if ups {
				return nil, fmt.Errorf("delete of %s after an upsert", k)
			}
			if before[k] == nil {
				return nil, fmt.Errorf("delete of %s, which is not in the target", k)
			}
			delete(after, k)
		case object.Upserted:
			ups = true
			after[k] = vt.CloneDoc(o.Object)
		default:
			return nil, fmt.Errorf("emitted change of type %q", d.Type)
		}
	}
	return after, nil
}

func record(p *pipeline.Pipeline, want map[string]map[string]any) error {
	b, w := vt.NewBag(), vt.NewBag()
	for _, o := range p.GetTargetCache().List() {
		b.Add(o.Object, 1)
	}
	for _, d := range want {
		w.Add(d, 1)
	}
	if !b.Equal(w) {
		return fmt.Errorf("the record of the target is %v, what was emitted amounts to %v", b, w)
	}
	return nil
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C10")
	defer v.Done()
	for v.Left() {
		for c := 0; c < 10; c++ {
			target := targets[v.R.Intn(len(targets))]
			var batches [][]entry
			var pool []map[string]any
			for i, n := 0, 1+v.R.Intn(5); i < n; i++ {
				es := []entry{}
				for j, m := 0, v.R.Intn(6); j < m; j++ {
					d := doc(v)
					if len(pool) > 0 && v.R.Intn(2) == 0 {
						d = vt.CloneDoc(pool[v.R.Intn(len(pool))])
						if v.R.Intn(3) == 0 {
							d["v"] = int64(v.R.Intn(4))
						}
					}
					pool = append(pool, d)
					k := 1 + v.R.Intn(2)*v.R.Intn(2)
					if v.R.Intn(2) == 0 {
						k = -k
					}
					es = append(es, entry{d, k})
				}
				batches = append(batches, es)
			}
			v.Case("batches", map[string]any{"target": target.String(), "batches": batches}, func() error {
				p := newPipeline(target, "")
				state := map[string]map[string]any{}
				for i, es := range batches {
					z := dbsp.NewDocumentZSet()
					bag := vt.NewBag()
					for _, e := range es {
						if err := z.AddDocumentMutate(vt.CloneDoc(e.Doc), e.N); err != nil {
							return err
						}
						bag.Add(e.Doc, e.N)
					}
					raw, err := p.ConvertZSetToDelta(z, target)
					if err != nil {
						return fmt.Errorf("batch %d: %w", i, err)
					}
					ds, err := p.Reconcile(raw)
					if err != nil {
						return fmt.Errorf("batch %d: %w", i, err)
					}
					adds, dels := map[string][]map[string]any{}, map[string]int{}
					for c, n := range bag.N {
						d := bag.D[c].(map[string]any)
						if n > 0 {
							adds[key(d)] = append(adds[key(d)], result(d, target))
						} else if n < 0 {
							dels[key(d)]++
						}
					}
					after, err := checkDeltas(ds, target, state)
					if err != nil {
						return fmt.Errorf("batch %d: %w", i, err)
					}
					got := map[string]object.Delta{}
					for _, d := range ds {
						got[fmt.Sprint(d.Object.GetNamespace(), "/", d.Object.GetName())] = d
					}
					for k, as := range adds {
						d, ok := got[k]
						if dels[k] > 0 && state[k] == nil {
							if ok {
								return fmt.Errorf("batch %d: a %s of %s, which is created and removed in the batch and was not in the target", i, d.Type, k)
							}
							continue
						}
						if !ok || d.Type != object.Upserted {
							return fmt.Errorf("batch %d: no upsert of %s", i, k)
						}
						found := false
						for _, a := range as {
							found = found || vt.Equal(a, d.Object.Object)
						}
						if !found {
							return fmt.Errorf("batch %d: upsert of %s, want one of %s", i, vt.Show(d.Object.Object), vt.Show(as))
						}
					}
					for k := range dels {
						if len(adds[k]) == 0 {
							if _, ok := got[k]; ok != (state[k] != nil) {
								return fmt.Errorf("batch %d: net removal of %s, in the target before: %v, emitted: %v", i, k, state[k] != nil, ok)
							}
						}
					}
					for k := range got {
						if len(adds[k]) == 0 && dels[k] == 0 {
							return fmt.Errorf("batch %d: a change of %s, which is not in the batch", i, k)
						}
					}
					state = after
					for _, d := range ds {
						vt.Scribble(d.Object.Object)
					}
					if err := record(p, state); err != nil {
						return fmt.Errorf("batch %d: %w", i, err)
					}
				}
				return nil
			})
		}

		// documents that are no valid objects
		bad := []map[string]any{{"v": int64(1)}, {"metadata": "x"}, {"metadata": map[string]any{}}, {"metadata": map[string]any{"name": ""}},
			{"metadata": map[string]any{"name": int64(1)}}, {"metadata": map[string]any{"namespace": "n"}}, {"metadata": map[string]any{"name": "a", "namespace": int64(3)}},
			{"metadata": map[string]any{"name": nil}}, {"metadata": nil}, {"metadata": map[string]any{"name": []any{"a"}}}, {"metadata": map[string]any{"name": "a", "namespace": nil}}}[v.R.Intn(11)]
		v.Case("invalid", bad, func() error {
			p := newPipeline(targets[0], "")
			z := dbsp.NewDocumentZSet()
			_ = z.AddDocumentMutate(vt.CloneDoc(bad), 1-2*v.R.Intn(2))
			ds, err := p.ConvertZSetToDelta(z, targets[0])
			if err == nil {
				return fmt.Errorf("converted to %s", vt.Show(ds))
			}
			return nil
		})

		// whole histories: events and state-of-the-world runs
		specs := []struct {
			spec string
			f    func(d map[string]any) []map[string]any
		}{
			{`[{"@project":{"metadata":{"name":"$.metadata.name","namespace":"$.metadata.namespace"},"v":"$.v"}}]`, func(d map[string]any) []map[string]any {
				m := d["metadata"].(map[string]any)
				return []map[string]any{{"metadata": map[string]any{"name": m["name"], "namespace": m["namespace"]}, "v": d["v"]}}
			}},
			{`[{"@select":{"@lt":["$.v",2]}},{"@project":{"metadata":{"name":"$.metadata.name","namespace":"$.metadata.namespace"},"v":"$.v"}}]`, func(d map[string]any) []map[string]any {
				if d["v"].(int64) >= 2 {
					return nil
				}
				m := d["metadata"].(map[string]any)
				return []map[string]any{{"metadata": map[string]any{"name": m["name"], "namespace": m["namespace"]}, "v": d["v"]}}
			}},
			{`[{"@unwind":"$.l"},{"@project":{"metadata":{"name":"$.metadata.name","namespace":"$.metadata.namespace"},"l":"$.l"}}]`, func(d map[string]any) []map[string]any {
				var r []map[string]any
				m := d["metadata"].(map[string]any)
				for i, x := range d["l"].([]any) {
					r = append(r, map[string]any{"metadata": map[string]any{"name": fmt.Sprintf("%s-%d", m["name"], i), "namespace": m["namespace"]}, "l": x})
				}
				return r
			}},
		}
		sp := specs[v.R.Intn(len(specs))]
		target := targets[v.R.Intn(2)]
		type step struct {
			Op  string         `json:"op"`
			Doc map[string]any `json:"doc,omitempty"`
		}
		var steps []step
		for i, n := 0, 1+v.R.Intn(8); i < n; i++ {
			if v.R.Intn(5) == 0 {
				steps = append(steps, step{"sync", nil})
				continue
			}
			l := []any{}
			for j := v.R.Intn(3); j > 0; j-- {
				l = append(l, int64(v.R.Intn(3)))
			}
			d := map[string]any{"apiVersion": src.GroupVersion().String(), "kind": src.Kind, "v": int64(v.R.Intn(4)), "l": l,
				"metadata": map[string]any{"name": []string{"a", "b", "c"}[v.R.Intn(3)], "namespace": []string{"n", "m"}[v.R.Intn(2)]}}
			steps = append(steps, step{[]string{"upsert", "upsert", "delete"}[v.R.Intn(3)], d})
		}
		v.Case("pipeline", map[string]any{"pipeline": sp.spec, "target": target.String(), "steps": steps}, func() error {
			p := newPipeline(target, sp.spec)
			live := map[string]map[string]any{}
			state := map[string]map[string]any{}
			for i, s := range steps {
				var ds []object.Delta
				var err error
				switch s.Op {
				case "sync":
					ds, err = p.Sync()
				case "upsert":
					live[key(s.Doc)] = s.Doc
					ds, err = p.Evaluate(object.Delta{Type: object.Upserted, Object: &unstructured.Unstructured{Object: vt.CloneDoc(s.Doc)}})
				case "delete":
					if live[key(s.Doc)] == nil {
						continue
					}
					delete(live, key(s.Doc))
					ds, err = p.Evaluate(object.Delta{Type: object.Deleted, Object: &unstructured.Unstructured{Object: vt.CloneDoc(s.Doc)}})
				}
				if err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				if state, err = checkDeltas(ds, target, state); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				if err := record(p, state); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				b, w := vt.NewBag(), vt.NewBag()
				for _, d := range state {
					b.Add(d, 1)
				}
				for _, d := range live {
					for _, r := range sp.f(d) {
						w.Add(result(r, target), 1)
					}
				}
				if !b.Equal(w) {
					return fmt.Errorf("after step %d the target holds %v, the live sources give %v", i, b, w)
				}
			}
			return nil
		})
	}
}
