package c24

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/go-logr/logr"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/event"

	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/predicate"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

func pick[T any](v *vt.T, xs ...T) T { return xs[v.R.Intn(len(xs))] }

func lkey(v *vt.T) string {
	return pick(v, "app", "tier", "app.kubernetes.io/name", "x", "env", "matchLabels2")
}
func lval(v *vt.T) any {
	return pick[any](v, "a", "b", "", "web", int64(1), int64(2), true, false, "1", "true", 1.5)
}
func txt(x any) string { return fmt.Sprintf("%v", x) }

func labelMap(v *vt.T) map[string]any {
	m := map[string]any{}
	for i, n := 0, v.R.Intn(4); i < n; i++ {
		m[lkey(v)] = lval(v)
	}
	return m
}

type req struct {
	key, op string
	vals    []any
}

func genReq(v *vt.T) req {
	r := req{key: lkey(v), op: pick(v, "In", "NotIn", "Exists", "DoesNotExist")}
	if r.op == "In" || r.op == "NotIn" {
		for i, n := 0, 1+v.R.Intn(3); i < n; i++ {
			r.vals = append(r.vals, lval(v))
		}
	}
	return r
}

func (r req) obj() map[string]any {
	m := map[string]any{"key": r.key, "operator": r.op}
	if r.vals != nil {
		m["values"] = append([]any{}, r.vals...)
	}
	return m
}

func (r req) holds(l map[string]any) bool {
	x, has := l[r.key]
	in := false
	for _, y := range r.vals {
		if has && txt(x) == txt(y) {
			in = true
		}
	}
	switch r.op {
	case "In":
		return in
	case "NotIn":
		return !in
	case "Exists":
		return has
	default:
		return !has
	}
}

func allPresent(sel, l map[string]any) bool {
	for k, x := range sel {
		y, ok := l[k]
		if !ok || txt(x) != txt(y) {
			return false
		}
	}
	return true
}

func selectors(v *vt.T) {
	l, ml := labelMap(v), labelMap(v)
	if v.R.Intn(3) > 0 { // bias towards matching
		ml = map[string]any{}
		for k, x := range l {
			if v.R.Intn(2) == 0 {
				ml[k] = x
			}
		}
		if v.R.Intn(4) == 0 {
			ml[lkey(v)] = lval(v)
		}
	}
	var rs []req
	for i, n := 0, v.R.Intn(4); i < n; i++ {
		rs = append(rs, genReq(v))
	}
	form := v.R.Intn(4)
	sel := map[string]any{}
	want := true
	if form == 0 {
		for k, x := range ml {
			sel[k] = x
		}
		want = allPresent(ml, l)
	} else {
		if form != 1 {
			sel["matchLabels"] = vt.Clone(ml).(map[string]any)
			want = want && allPresent(ml, l)
		}
		if form != 2 {
			es := []any{}
			for _, r := range rs {
				es = append(es, r.obj())
				want = want && r.holds(l)
			}
			sel["matchExpressions"] = es
		}
	}
	v.Case("match", map[string]any{"labels": l, "selector": sel}, func() error {
		c1, c2 := vt.Show(l), vt.Show(sel)
		got, err := expression.MatchLabels(l, sel)
		if err != nil {
			return fmt.Errorf("well-formed selector rejected: %v", err)
		}
		if got != want {
			return fmt.Errorf("MatchLabels(%s, %s) = %v, the selector describes %v", c1, c2, got, want)
		}
		if vt.Show(l) != c1 || vt.Show(sel) != c2 {
			return fmt.Errorf("MatchLabels changed its arguments")
		}
		return nil
	})
	v.Case("selector-expression", map[string]any{"labels": l, "selector": sel}, func() error {
		var e expression.Expression
		if err := json.Unmarshal([]byte(`{"@selector":["$.sel","$.labels"]}`), &e); err != nil {
			return err
		}
		got, err := e.Evaluate(expression.EvalCtx{Object: map[string]any{"sel": sel, "labels": l}, Log: logr.Discard()})
		if err != nil {
			return fmt.Errorf("@selector on a well-formed selector fails: %v", err)
		}
		if got != want {
			return fmt.Errorf("@selector(%s, %s) = %v, the selector describes %v", vt.Show(sel), vt.Show(l), got, want)
		}
		return nil
	})
	// an unknown operator, or an operator with the wrong number of values, is rejected
	bad := pick(v, map[string]any{"key": "app", "operator": "in", "values": []any{"a"}}, map[string]any{"key": "app", "operator": ""},
		map[string]any{"key": "app"}, map[string]any{"key": "app", "operator": "Equals", "values": []any{"a"}}, map[string]any{"key": "app", "operator": "Gt", "values": []any{"1"}},
		map[string]any{"key": "app", "operator": "In", "values": []any{}}, map[string]any{"key": "app", "operator": "NotIn"}, map[string]any{"key": "app", "operator": "Exists", "values": []any{"a"}},
		map[string]any{"key": "app", "operator": "DoesNotExist", "values": []any{"a"}}, map[string]any{"key": "", "operator": "Exists"}, map[string]any{"key": "a b", "operator": "Exists"})
	es := []any{}
	for _, r := range rs {
		es = append(es, r.obj())
	}
	i := v.R.Intn(len(es) + 1)
	es = append(es[:i], append([]any{bad}, es[i:]...)...)
	bsel := map[string]any{"matchExpressions": es}
	if v.R.Intn(2) == 0 {
		bsel["matchLabels"] = vt.Clone(ml).(map[string]any)
	}
	v.Case("malformed", map[string]any{"labels": l, "selector": bsel}, func() error {
		if got, err := expression.MatchLabels(l, bsel); err == nil {
			return fmt.Errorf("malformed selector %s accepted (result %v)", vt.Show(bsel), got)
		}
		return nil
	})
}

// ---- predicates

type tree struct {
	basic string
	op    string
	args  []tree
}

var basics = []string{"GenerationChanged", "ResourceVersionChanged", "LabelChanged", "AnnotationChanged"}

func genTree(v *vt.T, d int) tree {
	if d == 0 || v.R.Intn(3) == 0 {
		return tree{basic: pick(v, basics...)}
	}
	t := tree{op: pick(v, "And", "Or", "Not")}
	n := 1
	if t.op != "Not" {
		n = 1 + v.R.Intn(3)
	}
	for i := 0; i < n; i++ {
		t.args = append(t.args, genTree(v, d-1))
	}
	return t
}

func (t tree) json() any {
	if t.op == "" {
		return t.basic
	}
	as := []any{}
	for _, a := range t.args {
		as = append(as, a.json())
	}
	return map[string]any{t.op: as}
}

func (t tree) pred() predicate.Predicate {
	if t.op == "" {
		b := predicate.BasicPredicate(t.basic)
		return predicate.Predicate{BasicPredicate: &b}
	}
	as := []predicate.Predicate{}
	for _, a := range t.args {
		as = append(as, a.pred())
	}
	b := predicate.BoolPredicate{t.op: as}
	return predicate.Predicate{BoolPredicate: &b}
}

func (t tree) holds(f func(string) bool) bool {
	switch t.op {
	case "":
		return f(t.basic)
	case "And":
		for _, a := range t.args {
			if !a.holds(f) {
				return false
			}
		}
		return true
	case "Or":
		for _, a := range t.args {
			if a.holds(f) {
				return true
			}
		}
		return false
	default:
		return !t.args[0].holds(f)
	}
}

func strs(v *vt.T) map[string]string {
	switch v.R.Intn(3) {
	case 0:
		return nil
	case 1:
		return map[string]string{"a": pick(v, "1", "2")}
	}
	return map[string]string{pick(v, "a", "b"): "1", "c": pick(v, "", "2")}
}

func genObj(v *vt.T) client.Object {
	o := &unstructured.Unstructured{}
	o.SetName(pick(v, "a", "b"))
	o.SetNamespace(pick(v, "", "ns", "ns2", "n"))
	o.SetGeneration(int64(v.R.Intn(2) + 1))
	o.SetResourceVersion(pick(v, "1", "2"))
	o.SetLabels(strs(v))
	o.SetAnnotations(strs(v))
	return o
}

func eqm(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		if y, ok := b[k]; !ok || x != y {
			return false
		}
	}
	return true
}

func changed(o, n client.Object) func(string) bool {
	return func(b string) bool {
		switch b {
		case "GenerationChanged":
			return o.GetGeneration() != n.GetGeneration()
		case "ResourceVersionChanged":
			return o.GetResourceVersion() != n.GetResourceVersion()
		case "LabelChanged":
			return !eqm(o.GetLabels(), n.GetLabels())
		default:
			return !eqm(o.GetAnnotations(), n.GetAnnotations())
		}
	}
}

func yes(string) bool { return true }

func predicates(v *vt.T) {
	t := genTree(v, v.R.Intn(4))
	o, n := genObj(v), genObj(v)
	js, _ := json.Marshal(t.json())
	// 0: built in memory, 1: decoded from JSON, 2: encoded and decoded again, 3: deep copy
	mode := v.R.Intn(4)
	v.Case("predicate", map[string]any{"predicate": string(js), "mode": mode, "old": o, "new": n}, func() error {
		p := t.pred()
		switch mode {
		case 1, 2:
			src := js
			if mode == 2 {
				x, err := json.Marshal(p)
				if err != nil {
					return fmt.Errorf("predicate %s cannot be encoded: %v", js, err)
				}
				src = x
			}
			var q predicate.Predicate
			if err := json.Unmarshal(src, &q); err != nil {
				return fmt.Errorf("predicate %s rejected: %v", src, err)
			}
			p = q
		case 3:
			p = *p.DeepCopy()
		}
		f, err := predicate.FromPredicate(p)
		if err != nil {
			return fmt.Errorf("well-formed predicate %s rejected: %v", js, err)
		}
		if f == nil {
			return fmt.Errorf("predicate %s: no predicate and no error", js)
		}
		if got, want := f.Update(event.UpdateEvent{ObjectOld: o, ObjectNew: n}), t.holds(changed(o, n)); got != want {
			return fmt.Errorf("predicate %s on an update of %s to %s: %v, boolean logic says %v", js, vt.Show(o), vt.Show(n), got, want)
		}
		want := t.holds(yes)
		if got := f.Create(event.CreateEvent{Object: n}); got != want {
			return fmt.Errorf("predicate %s on a creation: %v, boolean logic says %v", js, got, want)
		}
		if got := f.Delete(event.DeleteEvent{Object: n}); got != want {
			return fmt.Errorf("predicate %s on a deletion: %v, boolean logic says %v", js, got, want)
		}
		if got := f.Generic(event.GenericEvent{Object: n}); got != want {
			return fmt.Errorf("predicate %s on a generic event: %v, boolean logic says %v", js, got, want)
		}
		return nil
	})
	// break the tree at a random place
	bad := breakAt(v, t.json())
	bs, _ := json.Marshal(bad)
	v.Case("malformed-predicate", string(bs), func() error {
		var q predicate.Predicate
		if err := json.Unmarshal(bs, &q); err != nil {
			return nil
		}
		if _, err := predicate.FromPredicate(q); err == nil {
			return fmt.Errorf("malformed predicate %s accepted", bs)
		}
		return nil
	})
	v.Case("empty-predicate", nil, func() error {
		if _, err := predicate.FromPredicate(predicate.Predicate{}); err == nil {
			return fmt.Errorf("the empty predicate is accepted")
		}
		return nil
	})
}

func breakAt(v *vt.T, t any) any {
	m, ok := t.(map[string]any)
	if ok && v.R.Intn(2) == 0 {
		for k, a := range m {
			as := append([]any{}, a.([]any)...)
			i := v.R.Intn(len(as))
			as[i] = breakAt(v, as[i])
			return map[string]any{k: as}
		}
	}
	return pick[any](v, "", "generationChanged", "Unknown", "And", "LabelsChanged", "GenerationChanged ",
		map[string]any{}, map[string]any{"and": []any{"LabelChanged"}}, map[string]any{"Xor": []any{"LabelChanged"}}, map[string]any{"": []any{"LabelChanged"}},
		map[string]any{"Not": []any{"LabelChanged", "GenerationChanged"}}, map[string]any{"Not": []any{}},
		map[string]any{"And": []any{t}, "Or": []any{t}}, map[string]any{"Not": []any{t}, "And": []any{t}}, int64(3), true, []any{t})
}

func filters(v *vt.T) {
	ns := pick(v, "", "ns", "n", "ns2", "NS")
	o, old := genObj(v), genObj(v)
	v.Case("namespace", map[string]any{"namespace": ns, "object": o}, func() error {
		f := predicate.FromNamespace(ns)
		want := o.GetNamespace() == ns
		for i, got := range []bool{f.Create(event.CreateEvent{Object: o}), f.Delete(event.DeleteEvent{Object: o}), f.Generic(event.GenericEvent{Object: o}), f.Update(event.UpdateEvent{ObjectOld: old, ObjectNew: o})} {
			if got != want {
				return fmt.Errorf("namespace filter %q on an object in %q, event kind %d: %v", ns, o.GetNamespace(), i, got)
			}
		}
		return nil
	})
	var sel metav1.LabelSelector
	sel.MatchLabels = strs(v)
	var rs []req
	for i, n := 0, v.R.Intn(3); i < n; i++ {
		r := genReq(v)
		r.key = pick(v, "a", "b", "c")
		vs := []string{}
		for j := range r.vals {
			r.vals[j] = pick(v, "1", "2", "")
			vs = append(vs, txt(r.vals[j]))
		}
		rs = append(rs, r)
		sel.MatchExpressions = append(sel.MatchExpressions, metav1.LabelSelectorRequirement{Key: r.key, Operator: metav1.LabelSelectorOperator(r.op), Values: vs})
	}
	v.Case("labels", map[string]any{"selector": sel, "object": o}, func() error {
		f, err := predicate.FromLabelSelector(sel)
		if err != nil {
			return fmt.Errorf("well-formed selector rejected: %v", err)
		}
		l := map[string]any{}
		for k, x := range o.GetLabels() {
			l[k] = x
		}
		want := true
		for k, x := range sel.MatchLabels {
			y, ok := l[k]
			want = want && ok && y == x
		}
		for _, r := range rs {
			want = want && r.holds(l)
		}
		for i, got := range []bool{f.Create(event.CreateEvent{Object: o}), f.Delete(event.DeleteEvent{Object: o}), f.Generic(event.GenericEvent{Object: o}), f.Update(event.UpdateEvent{ObjectOld: old, ObjectNew: o})} {
			if got != want {
				return fmt.Errorf("label selector predicate %s on labels %s, event kind %d: %v", vt.Show(sel), vt.Show(l), i, got)
			}
		}
		return nil
	})
	v.Case("labels-malformed", nil, func() error {
		for _, op := range []string{"in", "", "Equals"} {
			if _, err := predicate.FromLabelSelector(metav1.LabelSelector{MatchExpressions: []metav1.LabelSelectorRequirement{{Key: "a", Operator: metav1.LabelSelectorOperator(op), Values: []string{"x"}}}}); err == nil {
				return fmt.Errorf("label selector operator %q accepted", op)
			}
		}
		return nil
	})
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C24")
	defer v.Done()
	for v.Left() {
		selectors(v)
		predicates(v)
		filters(v)
	}
}
