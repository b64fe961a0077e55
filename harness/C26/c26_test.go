package c26

import (
	"encoding/base64"
	"fmt"
	"strings"
	"testing"

	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"

	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

func pick[T any](v *vt.T, xs ...T) T { return xs[v.R.Intn(len(xs))] }

type id struct{ Group, Version, Kind, Ns, Name string }

func word(v *vt.T) string {
	return pick(v, "", "a", "b", "ab", "ba", "a-b", "a.b", "x", "default", "Pod", "pod", "v1", "v1alpha1", "op.view.dcontroller.io", "view.dcontroller.io", "test", "A", strings.Repeat("a", 1+v.R.Intn(70)))
}

func genID(v *vt.T) id {
	return id{pick(v, "", "apps", "op.view.dcontroller.io", word(v)), pick(v, "v1", "v1alpha1", word(v)), word(v), word(v), word(v)}
}

func (i id) gvk() schema.GroupVersionKind {
	return schema.GroupVersionKind{Group: i.Group, Version: i.Version, Kind: i.Kind}
}

// vary changes one component, or moves text between neighbours
func vary(v *vt.T, i id) id {
	f := []*string{&i.Group, &i.Version, &i.Kind, &i.Ns, &i.Name}
	n := v.R.Intn(5)
	switch v.R.Intn(5) {
	case 0:
		*f[n] = word(v)
	case 1: // swap two components
		m := v.R.Intn(5)
		*f[n], *f[m] = *f[m], *f[n]
	case 2: // move a character to the neighbour
		if n < 4 && len(*f[n]) > 0 {
			s := *f[n]
			*f[n], *f[n+1] = s[:len(s)-1], s[len(s)-1:]+*f[n+1]
		}
	case 3: // move a whole component
		m := v.R.Intn(5)
		if n != m {
			*f[n], *f[m] = "", *f[n]+*f[m]
		}
	default:
		*f[n] = pick(v, strings.ToUpper(*f[n]), strings.ToLower(*f[n]), *f[n]+"a", *f[n]+" ", *f[n]+"-", "."+*f[n])
	}
	return i
}

func valid(i id) bool {
	return !strings.Contains(i.Group+i.Version+i.Kind+i.Ns+i.Name, "/")
}

var seen = map[string]id{}

func uids(v *vt.T) {
	a := genID(v)
	b := vary(v, a)
	if v.R.Intn(3) == 0 {
		b = vary(v, b)
	}
	v.Case("uid", []id{a, b}, func() error {
		if !valid(a) || !valid(b) {
			return nil
		}
		ua, ub := object.NewUID(a.gvk(), a.Ns, a.Name), object.NewUID(b.gvk(), b.Ns, b.Name)
		if ua == "" || ub == "" {
			return fmt.Errorf("empty identifier")
		}
		if ua2 := object.NewUID(a.gvk(), a.Ns, a.Name); ua2 != ua {
			return fmt.Errorf("the identifier of %+v is not stable: %q, %q", a, ua, ua2)
		}
		if (ua == ub) != (a == b) {
			return fmt.Errorf("identifiers of %+v and %+v: %q and %q", a, b, ua, ub)
		}
		if o, ok := seen[string(ua)]; ok && o != a {
			return fmt.Errorf("%+v and %+v share the identifier %q", a, o, ua)
		}
		if len(seen) < 200000 {
			seen[string(ua)] = a
		}
		return nil
	})
}

func isView(i id) bool {
	return strings.HasSuffix(i.Group, ".view.dcontroller.io") && i.Version == "v1alpha1"
}

func mkObj(v *vt.T, i id) *unstructured.Unstructured {
	o := &unstructured.Unstructured{Object: vt.CloneDoc(v.SmallDoc())}
	for _, k := range []string{"apiVersion", "kind", "metadata"} {
		delete(o.Object, k)
	}
	o.SetGroupVersionKind(i.gvk())
	o.SetNamespace(i.Ns)
	o.SetName(i.Name)
	return o
}

func withUID(v *vt.T) {
	i := id{pick(v, "", "apps", "op.view.dcontroller.io", "x.y.view.dcontroller.io", "op.view.dcontroller.io"), pick(v, "v1", "v1alpha1", "v1alpha1"), pick(v, "Pod", "view", "Secret"), pick(v, "", "ns", "ns2"), pick(v, "a", "b", "")}
	o := mkObj(v, i)
	had := v.R.Intn(2) == 0
	if had {
		o.SetUID("own")
	}
	labels := v.R.Intn(2) == 0
	if labels {
		o.SetLabels(map[string]string{"uid": "x"})
	}
	v.Case("with-uid", o.Object, func() error {
		before := vt.CloneDoc(o.Object)
		c := o.DeepCopy()
		object.WithUID(c)
		want := ""
		if had {
			want = "own"
		} else if isView(i) {
			want = string(object.NewUID(i.gvk(), i.Ns, i.Name))
		}
		if string(c.GetUID()) != want {
			return fmt.Errorf("WithUID of %s: %q, expected %q", vt.Show(before), c.GetUID(), want)
		}
		// nothing but the identifier changes, and a change of content does not change it
		d := c.DeepCopy()
		if had {
			d.SetUID("own")
		} else {
			unstructured.RemoveNestedField(d.Object, "metadata", "uid")
		}
		if !vt.Equal(stripMeta(d.Object), stripMeta(before)) {
			return fmt.Errorf("WithUID changed %s to %s", vt.Show(before), vt.Show(c.Object))
		}
		if !had && isView(i) {
			e := o.DeepCopy()
			e.Object["other"] = "content"
			e.SetAnnotations(map[string]string{"a": "b"})
			object.WithUID(e)
			if e.GetUID() != c.GetUID() {
				return fmt.Errorf("the identifier depends on the content: %q, %q", c.GetUID(), e.GetUID())
			}
		}
		r := c.DeepCopy()
		object.RemoveUID(r)
		wantGone := isView(i)
		if wantGone && r.GetUID() != "" {
			return fmt.Errorf("RemoveUID left %q", r.GetUID())
		}
		if !wantGone && !vt.Equal(r.Object, c.Object) {
			return fmt.Errorf("RemoveUID changed a native object: %s to %s", vt.Show(c.Object), vt.Show(r.Object))
		}
		if wantGone {
			d := c.DeepCopy()
			unstructured.RemoveNestedField(d.Object, "metadata", "uid")
			if !vt.Equal(stripMeta(d.Object), stripMeta(r.Object)) {
				return fmt.Errorf("RemoveUID changed %s to %s", vt.Show(c.Object), vt.Show(r.Object))
			}
		}
		return nil
	})
}

// an empty metadata map is the same as none
func stripMeta(m map[string]any) map[string]any {
	m = vt.CloneDoc(m)
	if x, ok := m["metadata"].(map[string]any); ok && len(x) == 0 {
		delete(m, "metadata")
	}
	return m
}

func dataVal(v *vt.T) any {
	txt := pick(v, "", "a", "ab", "abc", "p@ss/word?", "\x00\xff\xfe", "line\n", "dGVzdA==", "ünïcode", "{\"a\":1}", string([]byte{byte(v.R.Intn(256)), byte(v.R.Intn(256)), byte(v.R.Intn(256)), byte(v.R.Intn(256))}))
	switch v.R.Intn(8) {
	case 0, 1, 2:
		return base64.StdEncoding.EncodeToString([]byte(txt))
	case 3:
		return base64.RawStdEncoding.EncodeToString([]byte(txt))
	case 4:
		return base64.URLEncoding.EncodeToString([]byte(txt))
	case 5:
		return pick[any](v, "not base64!", "abc", "====", "YQ=", "YQ==x", " YQ==", "YQ==\n", "Y\nQ==", "_-8=", "YR==")
	case 6:
		return txt
	}
	return pick[any](v, int64(1), true, nil, []any{"YQ=="}, map[string]any{"k": "YQ=="}, 1.5)
}

func oracle(m map[string]any) map[string]any {
	r := vt.CloneDoc(m)
	if m["kind"] != "Secret" {
		return r
	}
	d, ok := r["data"].(map[string]any)
	if !ok {
		return r
	}
	for k, x := range d {
		if s, ok := x.(string); ok {
			if b, err := base64.StdEncoding.DecodeString(s); err == nil {
				d[k] = string(b)
			}
		}
	}
	return r
}

func secrets(v *vt.T) {
	o := &unstructured.Unstructured{Object: map[string]any{"apiVersion": pick(v, "v1", "op.view.dcontroller.io/v1alpha1"), "kind": pick(v, "Secret", "Secret", "Secret", "Secret", "ConfigMap", "secret", "SecretList", "MySecret", "")}}
	if v.R.Intn(2) == 0 {
		o.SetName("a")
		o.SetAnnotations(map[string]string{"x": "YQ=="})
	}
	for _, f := range []string{"data", "stringData", "binaryData", "spec", "type"} {
		if f != "data" && v.R.Intn(3) > 0 || f == "data" && v.R.Intn(8) == 0 {
			continue
		}
		if v.R.Intn(8) == 0 {
			o.Object[f] = dataVal(v)
			continue
		}
		d := map[string]any{}
		for i, n := 0, v.R.Intn(5); i < n; i++ {
			d[pick(v, "a", "b", "c", "password", "tls.crt", "data", "")] = dataVal(v)
		}
		o.Object[f] = d
	}
	v.Case("secret", o.Object, func() error {
		want := oracle(o.Object)
		c := o.DeepCopy()
		r := object.DecodeSecretData(c)
		if r == nil {
			return fmt.Errorf("no result")
		}
		if !same(r.Object, want) {
			return fmt.Errorf("decoding %s gives %s, expected %s", vt.Show(o.Object), vt.Show(r.Object), vt.Show(want))
		}
		return nil
	})
	v.Case("nil", nil, func() error {
		if r := object.DecodeSecretData(nil); r != nil {
			return fmt.Errorf("a result for no object")
		}
		return nil
	})
}

// same compares contents exactly, byte for byte (JSON would lose invalid text)
func same(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			z, ok := y[k]
			if !ok || !same(x[k], z) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C26")
	defer v.Done()
	for v.Left() {
		uids(v)
		withUID(v)
		secrets(v)
	}
}
