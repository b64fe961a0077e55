package c23

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/go-logr/logr"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/manager"
	"sigs.k8s.io/yaml"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/controller"
	dmanager "github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/operator"
	"github.com/l7mp/dcontroller/pkg/reconciler"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

// the documented maximum and abbreviation
const maxErrors = 10

func shown(orig, got string) bool {
	if orig == got {
		return true
	}
	k := strings.Index(got, "[...]")
	for k >= 0 {
		pre, suf := got[:k], got[k+5:]
		if strings.HasPrefix(orig, pre) && strings.HasSuffix(orig, suf) && len(got) < len(orig) && len(pre)+len(suf) <= len(orig) && len(pre) > 60 && len(suf) > 60 {
			return true
		}
		n := strings.Index(got[k+1:], "[...]")
		if n < 0 {
			break
		}
		k += 1 + n
	}
	return false
}

type model struct {
	errs []string
	crit bool
}

func (m *model) push(msg string, crit bool) {
	m.errs = append(m.errs, msg)
	m.crit = m.crit || crit
}

func (m *model) check(st opv1a1.ControllerStatus, name string, gen int64) error {
	if st.Name != name {
		return fmt.Errorf("status is named %q, not %q", st.Name, name)
	}
	want := metav1.ConditionTrue
	switch {
	case len(m.errs) > 0 && m.crit:
		want = metav1.ConditionFalse
	case len(m.errs) > 0:
		want = metav1.ConditionUnknown
	}
	n := 0
	for _, c := range st.Conditions {
		if c.Type == "Ready" {
			n++
			if c.Status != want {
				return fmt.Errorf("ready condition is %s after errors %v (critical %v), want %s", c.Status, m.errs, m.crit, want)
			}
			if c.ObservedGeneration != gen {
				return fmt.Errorf("condition is of generation %d, want %d", c.ObservedGeneration, gen)
			}
		}
	}
	if n != 1 {
		return fmt.Errorf("%d ready conditions", n)
	}
	last := m.errs
	if len(last) > maxErrors {
		last = last[len(last)-maxErrors:]
	}
	if len(st.LastErrors) != len(last) {
		return fmt.Errorf("%d errors reported %v, want the last %d of %d", len(st.LastErrors), st.LastErrors, len(last), len(m.errs))
	}
	for i := range last {
		if !shown(last[i], st.LastErrors[i]) {
			return fmt.Errorf("reported error %d is %q, want %q", i, st.LastErrors[i], last[i])
		}
	}
	return nil
}

const good = `
name: %s
sources:
- kind: s
pipeline:
- '@project':
    metadata:
      name: $.metadata.name
      namespace: $.metadata.namespace
    v: $.v
target:
  kind: t
  type: Updater`

func config(text string) opv1a1.Controller {
	var c opv1a1.Controller
	if err := yaml.Unmarshal([]byte(text), &c); err != nil {
		panic(err)
	}
	return c
}

type pushStep struct {
	How int    `json:"how"`
	Msg string `json:"msg"`
}

func message(v *vt.T, i int) string {
	n := []int{1, 5, 60, 239, 240, 241, 244, 245, 246, 247, 300, 1000}[v.R.Intn(12)]
	var b strings.Builder
	for b.Len() < n {
		fmt.Fprintf(&b, "<%d.%d>", i, b.Len())
	}
	return b.String()[:n]
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C23")
	defer v.Done()
	mgr, err := dmanager.NewFakeManager(manager.Options{Logger: logr.Discard()})
	if err != nil {
		panic(err)
	}
	id := 0
	for round := 0; v.Left(); round++ {
		id++
		name := fmt.Sprintf("c%d", v.R.Intn(100))
		// direct reports
		var steps []pushStep
		for i, n := 0, v.N(26); i < n; i++ {
			how := v.R.Intn(6)
			if v.R.Intn(2) == 0 {
				how = v.R.Intn(3)
			}
			steps = append(steps, pushStep{how, message(v, i)})
		}
		gen := int64(v.R.Intn(5))
		v.Case("reported errors", map[string]any{"controller": name, "steps": steps}, func() error {
			c, err := controller.NewDeclarative(mgr, "op", config(fmt.Sprintf(good, name)), controller.Options{})
			if err != nil {
				return nil
			}
			d := c.(*controller.DeclarativeController)
			m := &model{}
			if err := m.check(c.GetStatus(gen), name, gen); err != nil {
				return fmt.Errorf("fresh controller: %w", err)
			}
			for i, s := range steps {
				switch s.How {
				case 0:
					err = d.Push(errors.New(s.Msg))
				case 1:
					err = d.PushError(s.Msg)
				case 2:
					err = d.PushErrorf("%s", s.Msg)
				case 3:
					err = d.PushCritical(errors.New(s.Msg))
				case 4:
					err = d.PushCriticalError(s.Msg)
				case 5:
					err = d.PushCriticalErrorf("%s", s.Msg)
				}
				if err == nil || err.Error() != s.Msg {
					return fmt.Errorf("step %d returned %v", i, err)
				}
				m.push(s.Msg, s.How >= 3)
				if err := m.check(c.GetStatus(gen), name, gen); err != nil {
					return fmt.Errorf("after step %d: %w", i, err)
				}
			}
			return nil
		})
		if round%4 == 0 {
			constructor(v, mgr, name)
		}
		if round%2 == 0 {
			reconcile(v, mgr, name)
		}
		operators(v)
	}
}

func constructor(v *vt.T, mgr dmanager.Manager, name string) {
	bad := map[string]string{
		"no name":     strings.Replace(fmt.Sprintf(good, name), "name: "+name, "name: ''", 1),
		"no source":   strings.Replace(fmt.Sprintf(good, name), "- kind: s\n", "", 1),
		"no target":   fmt.Sprintf(good, name)[:strings.Index(fmt.Sprintf(good, name), "target:")],
		"no kind":     strings.Replace(fmt.Sprintf(good, name), "kind: t", "kind: ''", 1),
		"two sources": strings.Replace(fmt.Sprintf(good, name), "- kind: s\n", "- kind: s\n- kind: u\n", 1),
		"good":        fmt.Sprintf(good, name),
	}
	var ks []string
	for k := range bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v.Case("construction", map[string]any{"case": k, "config": bad[k]}, func() error {
			c, err := controller.NewDeclarative(mgr, "op", config(bad[k]), controller.Options{})
			if c == nil {
				return fmt.Errorf("no controller returned (%v)", err)
			}
			m := &model{}
			if err != nil {
				m.push(err.Error(), true)
			}
			if k == "good" && err != nil {
				return fmt.Errorf("a valid controller is refused: %w", err)
			}
			if k != "good" && err == nil {
				return fmt.Errorf("an invalid controller (%s) is accepted", k)
			}
			n := name
			if k == "no name" {
				n = ""
			}
			return m.check(c.GetStatus(1), n, 1)
		})
	}
}

// errors met while reconciling are recorded, and only those
func reconcile(v *vt.T, mgr dmanager.Manager, name string) {
	var docs []map[string]any
	for i := 0; i < 1+v.N(14); i++ {
		d := map[string]any{"metadata": map[string]any{"name": []string{"a", "b", "c"}[v.R.Intn(3)], "namespace": "n"}, "v": int64(v.R.Intn(3))}
		switch v.R.Intn(4) {
		case 0:
			d["bad"] = true
		case 1:
			d["del"] = true
		}
		docs = append(docs, d)
	}
	v.Case("reconciliation errors", map[string]any{"controller": name, "objects": docs}, func() error {
		text := strings.Replace(fmt.Sprintf(good, name), "v: $.v", "v: {'@cond': [{'@eq': [$.bad, true]}, {'@sum': [x, 1]}, 1]}", 1)
		c, err := controller.NewDeclarative(mgr, "op", config(text), controller.Options{})
		if err != nil {
			return nil
		}
		d := c.(*controller.DeclarativeController)
		r := controller.NewIncrementalReconciler(mgr, d)
		m := &model{}
		for i, doc := range docs {
			o := object.NewViewObject("op", "s")
			object.SetContent(o, vt.CloneDoc(doc))
			object.SetName(o, "n", doc["metadata"].(map[string]any)["name"].(string))
			et := object.Upserted
			switch {
			case doc["del"] == true:
				et = object.Deleted
			default:
				et = object.Added
			}
			_, err := r.Reconcile(context.Background(), reconciler.Request{Namespace: "n", Name: o.GetName(), EventType: et,
				GVK: viewv1a1.GroupVersionKind("op", "s"), Object: o})
			if err != nil {
				m.push(err.Error(), false)
			}
			if err := m.check(c.GetStatus(3), name, 3); err != nil {
				return fmt.Errorf("after object %d (reconcile error: %v): %w", i, err, err)
			}
		}
		return nil
	})
}

type ctl struct {
	Name   string                    `json:"name"`
	Kinds  []schema.GroupVersionKind `json:"kinds"`
	Config string                    `json:"config,omitempty"`
}

func operators(v *vt.T) {
	opName := []string{"op", "op2", "o"}[v.R.Intn(3)]
	groups := []string{"op.view.dcontroller.io", "op2.view.dcontroller.io", "o.view.dcontroller.io", "", "apps", "view.dcontroller.io", "x.op.view.dcontroller.io"}
	var cs []ctl
	for i, n := 0, v.N(6); i < n; i++ {
		c := ctl{Name: fmt.Sprintf("c%d", v.R.Intn(8))}
		if v.R.Intn(4) == 0 {
			c.Config = fmt.Sprintf(good, c.Name)
			if v.R.Intn(2) == 0 {
				c.Config = strings.Replace(c.Config, "- kind: s\n", "", 1)
			} else {
				c.Kinds = []schema.GroupVersionKind{viewv1a1.GroupVersionKind(opName, "s"), viewv1a1.GroupVersionKind(opName, "t")}
			}
		} else {
			for j, k := 0, v.N(5); j < k; j++ {
				c.Kinds = append(c.Kinds, schema.GroupVersionKind{Group: groups[v.R.Intn(len(groups))], Version: []string{"v1alpha1", "v1"}[v.R.Intn(6)/5], Kind: []string{"s", "t", "u"}[v.R.Intn(3)]})
			}
		}
		cs = append(cs, c)
	}
	v.Case("operator status", map[string]any{"operator": opName, "controllers": cs}, func() error {
		op, err := operator.New(opName, nil, operator.Options{Logger: logr.Discard()})
		if err != nil {
			return nil
		}
		var names []string
		kinds := map[schema.GroupVersionKind]bool{}
		failed := map[string]bool{}
		for _, c := range cs {
			names = append(names, c.Name)
			if c.Config != "" {
				if err := op.AddDeclarativeController(config(c.Config)); err != nil {
					failed[c.Name] = true
				} else {
					for _, k := range c.Kinds {
						kinds[k] = true
					}
				}
				continue
			}
			if err := op.AddNativeController(c.Name, nil, append([]schema.GroupVersionKind{}, c.Kinds...)); err != nil {
				return err
			}
			for _, k := range c.Kinds {
				if k.Group == opName+".view.dcontroller.io" {
					kinds[k] = true
				}
			}
		}
		st := op.GetStatus(7)
		var got []string
		for _, s := range st.Controllers {
			got = append(got, s.Name)
			if len(s.Conditions) != 1 {
				return fmt.Errorf("controller %s has %d conditions", s.Name, len(s.Conditions))
			}
		}
		sort.Strings(got)
		sort.Strings(names)
		if strings.Join(got, " ") != strings.Join(names, " ") {
			return fmt.Errorf("the operator's status lists %v, its controllers are %v", got, names)
		}
		for n := range failed {
			ok := false
			for _, s := range st.Controllers {
				ok = ok || s.Name == n && s.Conditions[0].Status == metav1.ConditionFalse && len(s.LastErrors) > 0
			}
			if !ok {
				return fmt.Errorf("controller %s failed to start but no status says so", n)
			}
		}
		seen := map[schema.GroupVersionKind]bool{}
		for _, k := range op.GetGVKs() {
			if seen[k] {
				return fmt.Errorf("kind %v exposed twice", k)
			}
			if !kinds[k] {
				return fmt.Errorf("kind %v is exposed but is no view kind of the operator %s", k, opName)
			}
			seen[k] = true
		}
		for k := range kinds {
			if !seen[k] {
				return fmt.Errorf("view kind %v of a controller is not exposed", k)
			}
		}
		for i := 0; i < 8; i++ {
			n := fmt.Sprintf("c%d", i)
			c := op.GetController(n)
			has := strings.Contains(" "+strings.Join(names, " ")+" ", " "+n+" ")
			if has != (c != nil) || (c != nil && c.GetName() != n) {
				return fmt.Errorf("GetController(%s) finds %v", n, c != nil)
			}
		}
		return nil
	})
}
