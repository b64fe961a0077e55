package github.com/l7mp/dcontroller/pkg/cache

// ---- the object store
// key (namespace and name) of an object, and the key of its content as a document
heapfn okey(*unstructured.Unstructured) string reads *unstructured.Unstructured, map[string]any, []any
heapfn dkey(*unstructured.Unstructured) string reads *unstructured.Unstructured, map[string]any, []any

// ghost: what a client-go store holds
uf rawMap(any) map[string]*unstructured.Unstructured
def smap(s *Store) map[string]*unstructured.Unstructured = rawMap(s.Store)
def asObj(o any) *unstructured.Unstructured = unbox(o, `*unstructured.Unstructured`)

// assumed of client-go: a store is a map from object keys to objects
iface k8s.io/client-go/tools/cache.Store.Add(s, obj) (err)
  modifies rawMap(s)[*]
  ensures err == nil && typeis(obj, `*unstructured.Unstructured`) ==> rawMap(s)[okey(asObj(obj))] == asObj(obj) && dom(rawMap(s)) == setadd(old(dom(rawMap(s))), okey(asObj(obj))) && (forall k string :: k != okey(asObj(obj)) ==> rawMap(s)[k] == old(rawMap(s)[k]))
  ensures err != nil ==> unchanged(rawMap(s))
iface k8s.io/client-go/tools/cache.Store.Update(s, obj) (err)
  modifies rawMap(s)[*]
  ensures err == nil && typeis(obj, `*unstructured.Unstructured`) ==> rawMap(s)[okey(asObj(obj))] == asObj(obj) && dom(rawMap(s)) == setadd(old(dom(rawMap(s))), okey(asObj(obj))) && (forall k string :: k != okey(asObj(obj)) ==> rawMap(s)[k] == old(rawMap(s)[k]))
  ensures err != nil ==> unchanged(rawMap(s))
iface k8s.io/client-go/tools/cache.Store.Delete(s, obj) (err)
  modifies rawMap(s)[*]
  ensures err == nil && typeis(obj, `*unstructured.Unstructured`) ==> dom(rawMap(s)) == setdel(old(dom(rawMap(s))), okey(asObj(obj))) && (forall k string :: k != okey(asObj(obj)) ==> rawMap(s)[k] == old(rawMap(s)[k]))
  ensures err != nil ==> unchanged(rawMap(s))
iface k8s.io/client-go/tools/cache.Store.Get(s, obj) (item, found, err)
  ensures typeis(obj, `*unstructured.Unstructured`) ==> (err == nil && found) == (okey(asObj(obj)) in dom(rawMap(s)))
  ensures typeis(obj, `*unstructured.Unstructured`) && err == nil && found ==> item == box(rawMap(s)[okey(asObj(obj))], `*unstructured.Unstructured`)
  ensures err != nil ==> !found
  ensures !found ==> item == nil
iface k8s.io/client-go/tools/cache.Store.GetByKey(s, key) (item, found, err)
  ensures (err == nil && found) == (key in dom(rawMap(s)))
  ensures err == nil && found ==> item == box(rawMap(s)[key], `*unstructured.Unstructured`)
  ensures err != nil ==> !found
  ensures !found ==> item == nil

def storeWf(s *Store) bool = s != nil && s.Store != nil && (forall k string :: {smap(s)[k]} k in dom(smap(s)) ==> smap(s)[k] != nil && okey(smap(s)[k]) == k)

func (*Store).Add(s, obj) (err)
  props C09 C10 C19
  requires storeWf(s) && obj != nil
  modifies smap(s)[*]
  ensures [wf] storeWf(s)
  ensures [on-error] err != nil ==> unchanged(smap(s))
  ensures [added] err == nil ==> dom(smap(s)) == setadd(old(dom(smap(s))), okey(obj)) && dkey(smap(s)[okey(obj)]) == dkey(obj)
  ensures [private] err == nil ==> fresh(smap(s)[okey(obj)])
  ensures [others] forall k string :: k != okey(obj) ==> smap(s)[k] == old(smap(s)[k])

func (*Store).Update(s, obj) (err)
  props C09 C10 C19
  requires storeWf(s) && obj != nil
  modifies smap(s)[*]
  ensures [wf] storeWf(s)
  ensures [on-error] err != nil ==> unchanged(smap(s))
  ensures [updated] err == nil ==> dom(smap(s)) == setadd(old(dom(smap(s))), okey(obj)) && dkey(smap(s)[okey(obj)]) == dkey(obj)
  ensures [private] err == nil ==> fresh(smap(s)[okey(obj)])
  ensures [others] forall k string :: k != okey(obj) ==> smap(s)[k] == old(smap(s)[k])

func (*Store).Delete(s, obj) (err)
  props C09 C10 C19
  requires storeWf(s) && obj != nil
  modifies smap(s)[*]
  ensures [wf] storeWf(s)
  ensures [on-error] err != nil ==> unchanged(smap(s))
  ensures [deleted] err == nil ==> dom(smap(s)) == setdel(old(dom(smap(s))), okey(obj))
  ensures [others] forall k string :: k != okey(obj) ==> smap(s)[k] == old(smap(s)[k])

func (*Store).Get(s, obj) (r, found, err)
  props C09 C10 C19
  requires storeWf(s) && obj != nil
  ensures [exact] (err == nil && found) == (okey(obj) in dom(smap(s)))
  ensures [copy] err == nil && found ==> r != nil && fresh(r) && okey(r) == okey(obj) && dkey(r) == dkey(smap(s)[okey(obj)])
  ensures [absent] err != nil ==> !found
  ensures [none] !found ==> r == nil

func (*Store).GetByKey(s, key) (r, found, err)
  props C19
  requires storeWf(s)
  ensures [exact] (err == nil && found) == (key in dom(smap(s)))
  ensures [copy] err == nil && found ==> r != nil && fresh(r) && okey(r) == key && dkey(r) == dkey(smap(s)[key])
  ensures [absent] err != nil ==> !found
  ensures [none] !found ==> r == nil
