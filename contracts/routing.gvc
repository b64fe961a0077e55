package github.com/l7mp/dcontroller/pkg/cache

// ---- routing: every operation on a view kind goes to the view store, every other to the native backend, with the same arguments.
// A backend operation is named by an uninterpreted function of the backend and of every argument.
uf kindOf(any) any
uf gvkOf(any) schema.GroupVersionKind

iface sigs.k8s.io/controller-runtime/pkg/client.Object.GetObjectKind(o) (k)
  note the kind of an object does not change during an operation
  ensures k == kindOf(o) && k != nil
iface sigs.k8s.io/controller-runtime/pkg/client.ObjectList.GetObjectKind(o) (k)
  note the kind of an object does not change during an operation
  ensures k == kindOf(o) && k != nil
iface k8s.io/apimachinery/pkg/runtime/schema.ObjectKind.GroupVersionKind(k) (g)
  ensures g == gvkOf(k)
def viewObj(o any) bool = isView(gvkOf(kindOf(o)))

uf cacheGetInformer0(any, any, any, []sigs.k8s.io/controller-runtime/pkg/cache.InformerGetOption) any
uf cacheGetInformer1(any, any, any, []sigs.k8s.io/controller-runtime/pkg/cache.InformerGetOption) any
iface sigs.k8s.io/controller-runtime/pkg/cache.Cache.GetInformer(c, ctx, obj, opts) (r, err)
  ensures r == cacheGetInformer0(c, ctx, obj, opts)
  ensures err == cacheGetInformer1(c, ctx, obj, opts)
iface github.com/l7mp/dcontroller/pkg/cache.ViewCacheInterface.GetInformer(c, ctx, obj, opts) (r, err)
  ensures r == cacheGetInformer0(c, ctx, obj, opts)
  ensures err == cacheGetInformer1(c, ctx, obj, opts)
func (*CompositeCache).GetInformer(cc, ctx, obj, opts) (r, err)
  props C21
  requires cc != nil && cc.viewCache != nil && (viewObj(obj) || cc.defaultCache != nil)
  requires obj != nil
  ensures [view] viewObj(obj) ==> r == cacheGetInformer0(cc.viewCache, ctx, obj, opts)
  ensures [native] !viewObj(obj) ==> r == cacheGetInformer0(cc.defaultCache, ctx, obj, opts)
  ensures [view] viewObj(obj) ==> err == cacheGetInformer1(cc.viewCache, ctx, obj, opts)
  ensures [native] !viewObj(obj) ==> err == cacheGetInformer1(cc.defaultCache, ctx, obj, opts)

uf cacheGetInformerForKind0(any, any, schema.GroupVersionKind, []sigs.k8s.io/controller-runtime/pkg/cache.InformerGetOption) any
uf cacheGetInformerForKind1(any, any, schema.GroupVersionKind, []sigs.k8s.io/controller-runtime/pkg/cache.InformerGetOption) any
iface sigs.k8s.io/controller-runtime/pkg/cache.Cache.GetInformerForKind(c, ctx, gvk, opts) (r, err)
  ensures r == cacheGetInformerForKind0(c, ctx, gvk, opts)
  ensures err == cacheGetInformerForKind1(c, ctx, gvk, opts)
iface github.com/l7mp/dcontroller/pkg/cache.ViewCacheInterface.GetInformerForKind(c, ctx, gvk, opts) (r, err)
  ensures r == cacheGetInformerForKind0(c, ctx, gvk, opts)
  ensures err == cacheGetInformerForKind1(c, ctx, gvk, opts)
func (*CompositeCache).GetInformerForKind(cc, ctx, gvk, opts) (r, err)
  props C21
  requires cc != nil && cc.viewCache != nil && (isView(gvk) || cc.defaultCache != nil)
  ensures [view] isView(gvk) ==> r == cacheGetInformerForKind0(cc.viewCache, ctx, gvk, opts)
  ensures [native] !isView(gvk) ==> r == cacheGetInformerForKind0(cc.defaultCache, ctx, gvk, opts)
  ensures [view] isView(gvk) ==> err == cacheGetInformerForKind1(cc.viewCache, ctx, gvk, opts)
  ensures [native] !isView(gvk) ==> err == cacheGetInformerForKind1(cc.defaultCache, ctx, gvk, opts)

uf cacheRemoveInformer0(any, any, any) any
iface sigs.k8s.io/controller-runtime/pkg/cache.Cache.RemoveInformer(c, ctx, obj) (err)
  ensures err == cacheRemoveInformer0(c, ctx, obj)
iface github.com/l7mp/dcontroller/pkg/cache.ViewCacheInterface.RemoveInformer(c, ctx, obj) (err)
  ensures err == cacheRemoveInformer0(c, ctx, obj)
func (*CompositeCache).RemoveInformer(cc, ctx, obj) (err)
  props C21
  requires cc != nil && cc.viewCache != nil && (viewObj(obj) || cc.defaultCache != nil)
  requires obj != nil
  ensures [view] viewObj(obj) ==> err == cacheRemoveInformer0(cc.viewCache, ctx, obj)
  ensures [native] !viewObj(obj) ==> err == cacheRemoveInformer0(cc.defaultCache, ctx, obj)

uf cacheIndexField0(any, any, any, string) any
iface sigs.k8s.io/controller-runtime/pkg/cache.Cache.IndexField(c, ctx, obj, field, extractValue) (err)
  ensures err == cacheIndexField0(c, ctx, obj, field)
iface github.com/l7mp/dcontroller/pkg/cache.ViewCacheInterface.IndexField(c, ctx, obj, field, extractValue) (err)
  ensures err == cacheIndexField0(c, ctx, obj, field)
func (*CompositeCache).IndexField(cc, ctx, obj, field, extractValue) (err)
  props C21
  requires cc != nil && cc.viewCache != nil && (viewObj(obj) || cc.defaultCache != nil)
  requires obj != nil
  ensures [view] viewObj(obj) ==> err == cacheIndexField0(cc.viewCache, ctx, obj, field)
  ensures [native] !viewObj(obj) ==> err == cacheIndexField0(cc.defaultCache, ctx, obj, field)

uf cacheGet0(any, any, k8s.io/apimachinery/pkg/types.NamespacedName, any, []sigs.k8s.io/controller-runtime/pkg/client.GetOption) any
iface sigs.k8s.io/controller-runtime/pkg/cache.Cache.Get(c, ctx, key, obj, opts) (err)
  ensures err == cacheGet0(c, ctx, key, obj, opts)
iface github.com/l7mp/dcontroller/pkg/cache.ViewCacheInterface.Get(c, ctx, key, obj, opts) (err)
  ensures err == cacheGet0(c, ctx, key, obj, opts)
func (*CompositeCache).Get(cc, ctx, key, obj, opts) (err)
  props C21
  requires cc != nil && cc.viewCache != nil && (viewObj(obj) || cc.defaultCache != nil)
  requires obj != nil
  ensures [view] viewObj(obj) ==> err == cacheGet0(cc.viewCache, ctx, key, obj, opts)
  ensures [native] !viewObj(obj) ==> err == cacheGet0(cc.defaultCache, ctx, key, obj, opts)

uf cacheList0(any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.ListOption) any
iface sigs.k8s.io/controller-runtime/pkg/cache.Cache.List(c, ctx, list, opts) (err)
  ensures err == cacheList0(c, ctx, list, opts)
iface github.com/l7mp/dcontroller/pkg/cache.ViewCacheInterface.List(c, ctx, list, opts) (err)
  ensures err == cacheList0(c, ctx, list, opts)
func (*CompositeCache).List(cc, ctx, list, opts) (err)
  props C21
  requires cc != nil && cc.viewCache != nil && (viewObj(list) || cc.defaultCache != nil)
  requires list != nil
  ensures [view] viewObj(list) ==> err == cacheList0(cc.viewCache, ctx, list, opts)
  ensures [native] !viewObj(list) ==> err == cacheList0(cc.defaultCache, ctx, list, opts)

uf viewCreate(*ViewCacheClient, any, any, []sigs.k8s.io/controller-runtime/pkg/client.CreateOption) any
uf nativeCreate(any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.CreateOption) any
func (*ViewCacheClient).Create(c, ctx, obj, opts) (err)
  trusted the view store's own operation; see C19
  ensures err == viewCreate(c, ctx, obj, opts)
iface sigs.k8s.io/controller-runtime/pkg/client.Client.Create(c, ctx, obj, opts) (err)
  ensures err == nativeCreate(c, ctx, obj, opts)
func (*CompositeClient).Create(c, ctx, obj, opts) (err)
  props C21
  requires c != nil && obj != nil && (viewObj(obj) ? c.viewClient != nil : c.Client != nil)
  ensures [view] viewObj(obj) ==> err == viewCreate(c.viewClient, ctx, obj, opts)
  ensures [native] !viewObj(obj) ==> err == nativeCreate(c.Client, ctx, obj, opts)

uf viewDelete(*ViewCacheClient, any, any, []sigs.k8s.io/controller-runtime/pkg/client.DeleteOption) any
uf nativeDelete(any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.DeleteOption) any
func (*ViewCacheClient).Delete(c, ctx, obj, opts) (err)
  trusted the view store's own operation; see C19
  ensures err == viewDelete(c, ctx, obj, opts)
iface sigs.k8s.io/controller-runtime/pkg/client.Client.Delete(c, ctx, obj, opts) (err)
  ensures err == nativeDelete(c, ctx, obj, opts)
func (*CompositeClient).Delete(c, ctx, obj, opts) (err)
  props C21
  requires c != nil && obj != nil && (viewObj(obj) ? c.viewClient != nil : c.Client != nil)
  ensures [view] viewObj(obj) ==> err == viewDelete(c.viewClient, ctx, obj, opts)
  ensures [native] !viewObj(obj) ==> err == nativeDelete(c.Client, ctx, obj, opts)

uf viewUpdate(*ViewCacheClient, any, any, []sigs.k8s.io/controller-runtime/pkg/client.UpdateOption) any
uf nativeUpdate(any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.UpdateOption) any
func (*ViewCacheClient).Update(c, ctx, obj, opts) (err)
  trusted the view store's own operation; see C19
  ensures err == viewUpdate(c, ctx, obj, opts)
iface sigs.k8s.io/controller-runtime/pkg/client.Client.Update(c, ctx, obj, opts) (err)
  ensures err == nativeUpdate(c, ctx, obj, opts)
func (*CompositeClient).Update(c, ctx, obj, opts) (err)
  props C21
  requires c != nil && obj != nil && (viewObj(obj) ? c.viewClient != nil : c.Client != nil)
  ensures [view] viewObj(obj) ==> err == viewUpdate(c.viewClient, ctx, obj, opts)
  ensures [native] !viewObj(obj) ==> err == nativeUpdate(c.Client, ctx, obj, opts)

uf viewPatch(*ViewCacheClient, any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.PatchOption) any
uf nativePatch(any, any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.PatchOption) any
func (*ViewCacheClient).Patch(c, ctx, obj, patch, opts) (err)
  trusted the view store's own operation; see C19
  ensures err == viewPatch(c, ctx, obj, patch, opts)
iface sigs.k8s.io/controller-runtime/pkg/client.Client.Patch(c, ctx, obj, patch, opts) (err)
  ensures err == nativePatch(c, ctx, obj, patch, opts)
func (*CompositeClient).Patch(c, ctx, obj, patch, opts) (err)
  props C21
  requires c != nil && obj != nil && (viewObj(obj) ? c.viewClient != nil : c.Client != nil)
  ensures [view] viewObj(obj) ==> err == viewPatch(c.viewClient, ctx, obj, patch, opts)
  ensures [native] !viewObj(obj) ==> err == nativePatch(c.Client, ctx, obj, patch, opts)

uf viewDeleteAllOf(*ViewCacheClient, any, any, []sigs.k8s.io/controller-runtime/pkg/client.DeleteAllOfOption) any
uf nativeDeleteAllOf(any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.DeleteAllOfOption) any
func (*ViewCacheClient).DeleteAllOf(c, ctx, obj, opts) (err)
  trusted the view store's own operation; see C19
  ensures err == viewDeleteAllOf(c, ctx, obj, opts)
iface sigs.k8s.io/controller-runtime/pkg/client.Client.DeleteAllOf(c, ctx, obj, opts) (err)
  ensures err == nativeDeleteAllOf(c, ctx, obj, opts)
func (*CompositeClient).DeleteAllOf(c, ctx, obj, opts) (err)
  props C21
  requires c != nil && obj != nil && (viewObj(obj) ? c.viewClient != nil : c.Client != nil)
  ensures [view] viewObj(obj) ==> err == viewDeleteAllOf(c.viewClient, ctx, obj, opts)
  ensures [native] !viewObj(obj) ==> err == nativeDeleteAllOf(c.Client, ctx, obj, opts)

func (*CompositeClient).Get(c, ctx, key, obj, opts) (err)
  props C21
  requires c != nil && c.compositeCache != nil
  ensures [cache] err == cacheGet0(c.compositeCache, ctx, key, obj, opts)

func (*CompositeClient).List(c, ctx, list, opts) (err)
  props C21
  requires c != nil && c.compositeCache != nil
  ensures [cache] err == cacheList0(c.compositeCache, ctx, list, opts)

uf viewWatch0(*ViewCacheClient, any, any, []sigs.k8s.io/controller-runtime/pkg/client.ListOption) any
uf viewWatch1(*ViewCacheClient, any, any, []sigs.k8s.io/controller-runtime/pkg/client.ListOption) any
func (*ViewCacheClient).Watch(c, ctx, list, opts) (w, err)
  trusted the view store's own operation; see C20
  ensures w == viewWatch0(c, ctx, list, opts) && err == viewWatch1(c, ctx, list, opts)
func (*CompositeClient).Watch(c, ctx, list, opts) (w, err)
  props C21
  requires c != nil && list != nil && (viewObj(list) ==> c.viewClient != nil)
  ensures [view] viewObj(list) ==> w == viewWatch0(c.viewClient, ctx, list, opts) && err == viewWatch1(c.viewClient, ctx, list, opts)
  ensures [native] !viewObj(list) ==> w == nil && err != nil

uf subGet(any, any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.SubResourceGetOption) any
iface sigs.k8s.io/controller-runtime/pkg/client.SubResourceClient.Get(c, ctx, obj, subResource, opts) (err)
  ensures err == subGet(c, ctx, obj, subResource, opts)
func (*compositeSubResourceClient).Get(c, ctx, obj, subResource, opts) (err)
  props C21
  requires c != nil && c.viewSubResourceClient != nil && c.SubResourceClient != nil && subResource != nil
  ensures [view] viewObj(subResource) ==> err == subGet(c.viewSubResourceClient, ctx, obj, subResource, opts)
  ensures [native] !viewObj(subResource) ==> err == subGet(c.SubResourceClient, ctx, obj, subResource, opts)

uf subCreate(any, any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.SubResourceCreateOption) any
iface sigs.k8s.io/controller-runtime/pkg/client.SubResourceClient.Create(c, ctx, obj, subResource, opts) (err)
  ensures err == subCreate(c, ctx, obj, subResource, opts)
func (*compositeSubResourceClient).Create(c, ctx, obj, subResource, opts) (err)
  props C21
  requires c != nil && c.viewSubResourceClient != nil && c.SubResourceClient != nil && subResource != nil
  ensures [view] viewObj(subResource) ==> err == subCreate(c.viewSubResourceClient, ctx, obj, subResource, opts)
  ensures [native] !viewObj(subResource) ==> err == subCreate(c.SubResourceClient, ctx, obj, subResource, opts)

uf subUpdate(any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.SubResourceUpdateOption) any
iface sigs.k8s.io/controller-runtime/pkg/client.SubResourceClient.Update(c, ctx, obj, opts) (err)
  ensures err == subUpdate(c, ctx, obj, opts)
func (*compositeSubResourceClient).Update(c, ctx, obj, opts) (err)
  props C21
  requires c != nil && c.viewSubResourceClient != nil && c.SubResourceClient != nil && obj != nil
  ensures [view] viewObj(obj) ==> err == subUpdate(c.viewSubResourceClient, ctx, obj, opts)
  ensures [native] !viewObj(obj) ==> err == subUpdate(c.SubResourceClient, ctx, obj, opts)

uf subPatch(any, any, any, any, []sigs.k8s.io/controller-runtime/pkg/client.SubResourcePatchOption) any
iface sigs.k8s.io/controller-runtime/pkg/client.SubResourceClient.Patch(c, ctx, obj, patch, opts) (err)
  ensures err == subPatch(c, ctx, obj, patch, opts)
func (*compositeSubResourceClient).Patch(c, ctx, obj, patch, opts) (err)
  props C21
  requires c != nil && c.viewSubResourceClient != nil && c.SubResourceClient != nil && obj != nil
  ensures [view] viewObj(obj) ==> err == subPatch(c.viewSubResourceClient, ctx, obj, patch, opts)
  ensures [native] !viewObj(obj) ==> err == subPatch(c.SubResourceClient, ctx, obj, patch, opts)
