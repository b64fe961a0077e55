package c21

import (
	"context"
	"fmt"
	"strings"
	"testing"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/watch"
	ctrlcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

const domain = "view.dcontroller.io"

func pick[T any](v *vt.T, xs ...T) T { return xs[v.R.Intn(len(xs))] }

func word(v *vt.T) string {
	return pick(v, "a", "op", "view", "List", "core", "apps", "v1", "k8s", "dcontroller", "x-y", "o2", "v1alpha1", "v1beta1", "io")
}

func dotted(v *vt.T) string {
	var ps []string
	for i, n := 0, v.R.Intn(4); i < n; i++ {
		ps = append(ps, word(v))
	}
	return strings.Join(ps, ".")
}

func group(v *vt.T) string {
	return pick(v, "", "apps", "networking.k8s.io", dotted(v), dotted(v)+"."+domain, word(v)+"."+domain, domain, "x"+domain, domain+".x", "dcontroller.io", word(v)+".View.dcontroller.io", strings.TrimPrefix(dotted(v)+"."+domain, "."))
}

func gvk(v *vt.T) schema.GroupVersionKind {
	return schema.GroupVersionKind{Group: group(v), Version: pick(v, "v1alpha1", "v1alpha1", "v1", "v1alpha2", ""), Kind: pick(v, "View", "view", "ViewList", "List", "Pod", "PodList", "ListView", "Lists", "MyList2")}
}

func isView(g schema.GroupVersionKind) bool {
	return strings.HasSuffix(g.Group, domain) && g.Version == "v1alpha1"
}

// a backend that only records what it was asked
type call struct {
	who, op string
	args    []any
}
type log struct{ calls []call }

func (l *log) add(who, op string, args ...any) error {
	l.calls = append(l.calls, call{who, op, args})
	return fmt.Errorf("%s %s %d", who, op, len(l.calls))
}

type recCache struct {
	cache.Cache
	who string
	l   *log
}

func list[T any](xs []T) string { return fmt.Sprintf("%v", xs) }

func (r recCache) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
	return r.l.add(r.who, "get", ctx, key, obj, list(opts))
}
func (r recCache) List(ctx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	return r.l.add(r.who, "list", ctx, l, list(opts))
}
func (r recCache) GetInformer(ctx context.Context, obj client.Object, opts ...ctrlcache.InformerGetOption) (ctrlcache.Informer, error) {
	return nil, r.l.add(r.who, "informer", ctx, obj, len(opts))
}
func (r recCache) GetInformerForKind(ctx context.Context, g schema.GroupVersionKind, opts ...ctrlcache.InformerGetOption) (ctrlcache.Informer, error) {
	return nil, r.l.add(r.who, "informer-kind", ctx, g, len(opts))
}
func (r recCache) RemoveInformer(ctx context.Context, obj client.Object) error {
	return r.l.add(r.who, "remove", ctx, obj)
}
func (r recCache) IndexField(ctx context.Context, obj client.Object, field string, f client.IndexerFunc) error {
	return r.l.add(r.who, "index", ctx, obj, field, len(f(obj)))
}

type recView struct {
	recCache
	cache.ViewCacheInterface
}

func (r recView) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
	return r.recCache.Get(ctx, key, obj, opts...)
}
func (r recView) List(ctx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	return r.recCache.List(ctx, l, opts...)
}
func (r recView) GetInformer(ctx context.Context, obj client.Object, opts ...ctrlcache.InformerGetOption) (ctrlcache.Informer, error) {
	return r.recCache.GetInformer(ctx, obj, opts...)
}
func (r recView) GetInformerForKind(ctx context.Context, g schema.GroupVersionKind, opts ...ctrlcache.InformerGetOption) (ctrlcache.Informer, error) {
	return r.recCache.GetInformerForKind(ctx, g, opts...)
}
func (r recView) RemoveInformer(ctx context.Context, obj client.Object) error {
	return r.recCache.RemoveInformer(ctx, obj)
}
func (r recView) IndexField(ctx context.Context, obj client.Object, field string, f client.IndexerFunc) error {
	return r.recCache.IndexField(ctx, obj, field, f)
}
func (r recView) Start(ctx context.Context) error           { return nil }
func (r recView) WaitForCacheSync(ctx context.Context) bool { return true }
func (r recView) Add(obj object.Object) error               { return r.l.add(r.who, "Add", obj) }
func (r recView) Update(o, n object.Object) error           { return r.l.add(r.who, "Update", o, n) }
func (r recView) Delete(obj object.Object) error            { return r.l.add(r.who, "Delete", obj) }
func (r recView) Watch(ctx context.Context, l client.ObjectList, opts ...client.ListOption) (watch.Interface, error) {
	return nil, r.l.add(r.who, "Watch", ctx, l, list(opts))
}

type recClient struct {
	client.Client
	l *log
}

func (r recClient) Create(ctx context.Context, obj client.Object, opts ...client.CreateOption) error {
	return r.l.add("native", "create", ctx, obj, list(opts))
}
func (r recClient) Update(ctx context.Context, obj client.Object, opts ...client.UpdateOption) error {
	return r.l.add("native", "update", ctx, obj, list(opts))
}
func (r recClient) Delete(ctx context.Context, obj client.Object, opts ...client.DeleteOption) error {
	return r.l.add("native", "delete", ctx, obj, list(opts))
}
func (r recClient) Patch(ctx context.Context, obj client.Object, p client.Patch, opts ...client.PatchOption) error {
	return r.l.add("native", "patch", ctx, obj, p, list(opts))
}
func (r recClient) DeleteAllOf(ctx context.Context, obj client.Object, opts ...client.DeleteAllOfOption) error {
	return r.l.add("native", "deleteall", ctx, obj, list(opts))
}
func (r recClient) SubResource(s string) client.SubResourceClient { return recSub{nil, s, r.l} }

type recSub struct {
	client.SubResourceClient
	sub string
	l   *log
}

func (r recSub) Get(ctx context.Context, obj, s client.Object, opts ...client.SubResourceGetOption) error {
	return r.l.add("native", r.sub+"-get", ctx, obj, s, list(opts))
}
func (r recSub) Create(ctx context.Context, obj, s client.Object, opts ...client.SubResourceCreateOption) error {
	return r.l.add("native", r.sub+"-create", ctx, obj, s, list(opts))
}
func (r recSub) Update(ctx context.Context, obj client.Object, opts ...client.SubResourceUpdateOption) error {
	return r.l.add("native", r.sub+"-update", ctx, obj, list(opts))
}
func (r recSub) Patch(ctx context.Context, obj client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
	return r.l.add("native", r.sub+"-patch", ctx, obj, p, list(opts))
}

func (l *log) one(who, op string, err error, args ...any) error {
	if len(l.calls) != 1 {
		return fmt.Errorf("%s: %d backend calls %v", op, len(l.calls), l.calls)
	}
	c := l.calls[0]
	if c.who != who || c.op != op {
		return fmt.Errorf("%s is served by the %s backend's %s, want %s", op, c.who, c.op, who)
	}
	for i, a := range args {
		if c.args[i] != a {
			return fmt.Errorf("%s: argument %d is %v, was %v", op, i, c.args[i], a)
		}
	}
	if err == nil || err.Error() != fmt.Sprintf("%s %s 1", who, op) {
		return fmt.Errorf("%s: result %v is not the backend's", op, err)
	}
	return nil
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C21")
	defer v.Done()
	for v.Left() {
		names(v)
		routing(v)
		clients(v)
	}
}

func names(v *vt.T) {
	op := strings.ReplaceAll(pick(v, word(v), "my-op", "o"), ".", "")
	native := schema.GroupVersionKind{Group: strings.Trim(pick(v, "", "apps", "networking.k8s.io", dotted(v)), "."), Version: pick(v, "v1", "v1beta1", "v2"), Kind: pick(v, "Pod", "Ingress", "x")}
	if native.Group == "core" {
		native.Group = ""
	}
	v.Case("group naming", map[string]any{"operator": op, "native": native}, func() error {
		g := viewv1a1.GroupVersionKind(op, native.Kind)
		if g.Group != op+"."+domain || g.Version != "v1alpha1" || g.Kind != native.Kind || viewv1a1.Group(op) != g.Group || viewv1a1.GroupVersion(op) != g.GroupVersion() {
			return fmt.Errorf("view kind is %v", g)
		}
		if !viewv1a1.IsViewKind(g) || viewv1a1.GetOperator(g) != op {
			return fmt.Errorf("view kind %v of %s: view %v, operator %q", g, op, viewv1a1.IsViewKind(g), viewv1a1.GetOperator(g))
		}
		m := viewv1a1.MapIntoView(op, native)
		if !viewv1a1.IsViewKind(m) || viewv1a1.GetOperator(m) != op {
			return fmt.Errorf("%v embeds as %v: view %v, operator %q", native, m, viewv1a1.IsViewKind(m), viewv1a1.GetOperator(m))
		}
		back, err := viewv1a1.MapFromView(m)
		if err != nil || back != native {
			return fmt.Errorf("%v embeds as %v and comes back as %v (%v)", native, m, back, err)
		}
		o := object.NewViewObject(op, native.Kind)
		if o.GroupVersionKind() != g || object.GetOperator(o) != op {
			return fmt.Errorf("view object is %v of %q", o.GroupVersionKind(), object.GetOperator(o))
		}
		return nil
	})
	k := gvk(v)
	other := group(v)
	v.Case("view kinds", map[string]any{"gvk": k, "group": other}, func() error {
		d := cache.NewViewDiscovery()
		ends := strings.HasSuffix(k.Group, domain)
		if viewv1a1.IsViewGroup(k.Group) != ends || d.IsViewGroup(k.Group) != ends {
			return fmt.Errorf("IsViewGroup(%q) is %v", k.Group, viewv1a1.IsViewGroup(k.Group))
		}
		if viewv1a1.IsViewKind(k) != isView(k) || viewv1a1.IsViewGroupVersion(k.GroupVersion()) != isView(k) {
			return fmt.Errorf("IsViewKind(%v) is %v", k, viewv1a1.IsViewKind(k))
		}
		same := k.Group == other && k.Version == "v1alpha1"
		if viewv1a1.HasViewGroupVersion(other, k.GroupVersion()) != same || viewv1a1.HasViewGroupVersionKind(other, k) != same ||
			viewv1a1.HasViewGroupVersionKind(k.Group, k) != (k.Version == "v1alpha1") {
			return fmt.Errorf("group version of %v in group %q", k, other)
		}
		if !strings.HasSuffix(k.Group, "."+domain) && viewv1a1.GetOperator(k) != "" {
			return fmt.Errorf("%v belongs to operator %q", k, viewv1a1.GetOperator(k))
		}
		if _, err := viewv1a1.MapFromView(k); !ends && err == nil {
			return fmt.Errorf("%v is taken for an embedded kind", k)
		}
		l := strings.HasSuffix(k.Kind, "List")
		if d.IsViewKind(k) != (isView(k) && !l) || d.IsViewListKind(k) != (isView(k) && l) {
			return fmt.Errorf("%v: view kind %v, view list kind %v", k, d.IsViewKind(k), d.IsViewListKind(k))
		}
		lk, ok := d.ListGVKFromObjectGVK(k), d.ObjectGVKFromListGVK(k)
		wl, wo := k, k
		if isView(k) && !l {
			wl.Kind += "List"
		}
		if isView(k) && l {
			wo.Kind = strings.TrimSuffix(k.Kind, "List")
		}
		if lk != wl || ok != wo {
			return fmt.Errorf("%v: list kind %v, object kind %v", k, lk, ok)
		}
		if d.ResourceFromKind(k.Kind) != strings.ToLower(strings.TrimSuffix(k.Kind, "List")) {
			return fmt.Errorf("resource of %q is %q", k.Kind, d.ResourceFromKind(k.Kind))
		}
		if err := d.RegisterViewGVK(k); err != nil {
			return err
		}
		got, err := d.KindFromResource(d.ResourceFromKind(k.Kind))
		if isView(k) && !l {
			if err != nil || got != k.Kind || len(d.GetRegisteredViewGVKs()) != 1 {
				return fmt.Errorf("registered %v: resource reads back as %q (%v)", k, got, err)
			}
			d.UnregisterViewGVK(k)
		}
		if len(d.GetRegisteredViewGVKs()) != 0 {
			return fmt.Errorf("%v is registered", d.GetRegisteredViewGVKs())
		}
		rm := cache.NewViewRESTMapper()
		rk, err := rm.KindFor(schema.GroupVersionResource{Group: k.Group, Version: k.Version, Resource: strings.ToLower(k.Kind)})
		if (err == nil) != ends || (ends && (rk.Group != k.Group || rk.Version != k.Version)) {
			return fmt.Errorf("mapper: KindFor in group %q: %v (%v)", k.Group, rk, err)
		}
		mp, err := rm.RESTMapping(k.GroupKind(), k.Version)
		if (err == nil) != ends || (ends && (mp.GroupVersionKind.GroupKind() != k.GroupKind() || mp.Resource.Resource != strings.ToLower(k.Kind))) {
			return fmt.Errorf("mapper: RESTMapping of %v: %v (%v)", k, mp, err)
		}
		return nil
	})
}

func obj(g schema.GroupVersionKind) *unstructured.Unstructured {
	o := &unstructured.Unstructured{Object: map[string]any{}}
	o.SetGroupVersionKind(g)
	o.SetName("n")
	o.SetNamespace("ns")
	return o
}

type ctxKey struct{}

func routing(v *vt.T) {
	k := gvk(v)
	// a kind whose group/version does not survive an object is none
	if o := obj(k); o.GroupVersionKind() != k {
		return
	}
	nopts := v.R.Intn(3)
	v.Case("cache routing", map[string]any{"gvk": k, "options": nopts}, func() error {
		l := &log{}
		cc, err := cache.NewCompositeCache(nil, cache.CacheOptions{DefaultCache: recCache{nil, "native", l}, ViewCache: recView{recCache: recCache{nil, "view", l}}, Logger: logr.Discard()})
		if err != nil {
			return err
		}
		who := "native"
		if isView(k) {
			who = "view"
		}
		ctx := context.WithValue(context.Background(), ctxKey{}, 1)
		o := obj(k)
		ul := &unstructured.UnstructuredList{}
		ul.SetGroupVersionKind(k)
		var gopts []client.GetOption
		var lopts []client.ListOption
		var iopts []ctrlcache.InformerGetOption
		for i := 0; i < nopts; i++ {
			gopts = append(gopts, &client.GetOptions{})
			lopts = append(lopts, client.InNamespace(fmt.Sprint(i)))
			iopts = append(iopts, ctrlcache.BlockUntilSynced(i == 0))
		}
		before := vt.Clone(o.Object)
		step := func(op string, err error, args ...any) error {
			e := l.one(who, op, err, args...)
			l.calls = nil
			return e
		}
		key := client.ObjectKey{Namespace: "a", Name: "b"}
		if e := step("get", cc.Get(ctx, key, o, gopts...), ctx, key, client.Object(o), list(gopts)); e != nil {
			return e
		}
		if e := step("list", cc.List(ctx, ul, lopts...), ctx, client.ObjectList(ul), list(lopts)); e != nil {
			return e
		}
		_, err = cc.GetInformer(ctx, o, iopts...)
		if e := step("informer", err, ctx, client.Object(o), nopts); e != nil {
			return e
		}
		_, err = cc.GetInformerForKind(ctx, k, iopts...)
		if e := step("informer-kind", err, ctx, k, nopts); e != nil {
			return e
		}
		if e := step("remove", cc.RemoveInformer(ctx, o), ctx, client.Object(o)); e != nil {
			return e
		}
		if e := step("index", cc.IndexField(ctx, o, "f", func(client.Object) []string { return []string{"x", "y"} }), ctx, client.Object(o), "f", 2); e != nil {
			return e
		}
		if !vt.Equal(before, o.Object) {
			return fmt.Errorf("the object argument is changed from %s to %s", vt.Show(before), vt.Show(o.Object))
		}
		// a client over this cache reads through it
		c := &cache.CompositeClient{}
		c.SetClient(recClient{nil, l})
		c.SetCache(recCache{nil, "cache", l})
		who = "cache"
		if e := step("get", c.Get(ctx, key, o, gopts...), ctx, key, client.Object(o), list(gopts)); e != nil {
			return e
		}
		return step("list", c.List(ctx, ul, lopts...), ctx, client.ObjectList(ul), list(lopts))
	})
}

func clients(v *vt.T) {
	k := gvk(v)
	if o := obj(k); o.GroupVersionKind() != k {
		return
	}
	dotless := viewv1a1.GroupVersionKind(viewv1a1.GetOperator(k), k.Kind) == k
	v.Case("client routing", map[string]any{"gvk": k}, func() error {
		l := &log{}
		cc, err := cache.NewCompositeCache(nil, cache.CacheOptions{DefaultCache: recCache{nil, "nativecache", l}, Logger: logr.Discard()})
		if err != nil {
			return err
		}
		c := &cache.CompositeClient{}
		c.SetClient(recClient{nil, l})
		c.SetCache(cc)
		ctx := context.WithValue(context.Background(), ctxKey{}, 2)
		o := obj(k)
		p := client.RawPatch("application/merge-patch+json", []byte(`{"spec":{"x":1}}`))
		if !isView(k) {
			step := func(op string, err error, args ...any) error {
				e := l.one("native", op, err, args...)
				l.calls = nil
				return e
			}
			co := client.Object(o)
			if e := step("create", c.Create(ctx, o, client.DryRunAll), ctx, co, list([]client.CreateOption{client.DryRunAll})); e != nil {
				return e
			}
			if e := step("update", c.Update(ctx, o, client.DryRunAll), ctx, co, list([]client.UpdateOption{client.DryRunAll})); e != nil {
				return e
			}
			if e := step("delete", c.Delete(ctx, o, client.DryRunAll), ctx, co, list([]client.DeleteOption{client.DryRunAll})); e != nil {
				return e
			}
			if e := step("patch", c.Patch(ctx, o, p, client.DryRunAll), ctx, co, p, list([]client.PatchOption{client.DryRunAll})); e != nil {
				return e
			}
			if e := step("deleteall", c.DeleteAllOf(ctx, o, client.InNamespace("q")), ctx, co, list([]client.DeleteAllOfOption{client.InNamespace("q")})); e != nil {
				return e
			}
			st := c.Status()
			if e := step("status-update", st.Update(ctx, o), ctx, co, "[]"); e != nil {
				return e
			}
			if e := step("status-patch", st.Patch(ctx, o, p), ctx, co, p, "[]"); e != nil {
				return e
			}
			if e := step("status-create", st.Create(ctx, o, o), ctx, co, co, "[]"); e != nil {
				return e
			}
			ul := &unstructured.UnstructuredList{}
			ul.SetGroupVersionKind(k)
			w, err := c.Watch(ctx, ul)
			if err == nil || len(l.calls) != 0 {
				return fmt.Errorf("watch on a native kind: %v, %v", w, err)
			}
			return nil
		}
		if !dotless || strings.HasSuffix(k.Kind, "List") {
			return nil // the view store is per operator
		}
		get := func() (map[string]any, error) {
			r := object.NewViewObject(viewv1a1.GetOperator(k), k.Kind)
			err := cc.GetViewCache().Get(ctx, client.ObjectKeyFromObject(o), r)
			return r.Object, err
		}
		want := func(what string, err error, x any) error {
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			m, err := get()
			if x == nil {
				if err == nil {
					return fmt.Errorf("%s: the object is still in the view store", what)
				}
			} else if err != nil || !vt.Equal(m["spec"], x) {
				return fmt.Errorf("%s: the view store has %s (%v)", what, vt.Show(m), err)
			}
			if len(l.calls) != 0 {
				return fmt.Errorf("%s: the native backend is called: %v", what, l.calls)
			}
			return nil
		}
		o.Object["spec"] = map[string]any{"y": int64(1)}
		if e := want("create", c.Create(ctx, obj0(o)), o.Object["spec"]); e != nil {
			return e
		}
		o.Object["spec"] = map[string]any{"y": int64(2)}
		if e := want("update", c.Update(ctx, obj0(o)), o.Object["spec"]); e != nil {
			return e
		}
		if e := want("patch", c.Patch(ctx, obj0(o), p), map[string]any{"y": int64(2), "x": int64(1)}); e != nil {
			return e
		}
		s := obj0(o)
		s.Object["status"] = map[string]any{"ready": true}
		if e := want("status update", c.Status().Update(ctx, s), map[string]any{"y": int64(2), "x": int64(1)}); e != nil {
			return e
		}
		if m, _ := get(); !vt.Equal(m["status"], s.Object["status"]) {
			return fmt.Errorf("the status of the view is %s", vt.Show(m))
		}
		if e := want("delete", c.Delete(ctx, obj0(o)), nil); e != nil {
			return e
		}
		if e := want("create again", c.Create(ctx, obj0(o)), o.Object["spec"]); e != nil {
			return e
		}
		return want("delete all", c.DeleteAllOf(ctx, obj0(o)), nil)
	})
}

func obj0(o *unstructured.Unstructured) *unstructured.Unstructured {
	return &unstructured.Unstructured{Object: vt.CloneDoc(o.Object)}
}
