package github.com/l7mp/dcontroller/pkg/pipeline

// the text of a namespaced name identifies an object exactly as the store's key does
uf nnKey(types.NamespacedName) string
extern sigs.k8s.io/controller-runtime/pkg/client.ObjectKeyFromObject(obj) (k)
  ensures typeis(obj, `*unstructured.Unstructured`) ==> nnKey(k) == okey(unbox(obj, `*unstructured.Unstructured`))
extern (k8s.io/apimachinery/pkg/types.NamespacedName).String(n) (r)
  ensures r == nnKey(n)

// what a batch says about a key: some creation, some removal among the first n changes
recdef nAdd(ds []object.Delta, n int, k string) int = n <= 0 ? 0 : nAdd(ds, n - 1, k) + (ds[n - 1].Type == object.Added && okey(ds[n - 1].Object) == k ? 1 : 0)
recdef nDel(ds []object.Delta, n int, k string) int = n <= 0 ? 0 : nDel(ds, n - 1, k) + (ds[n - 1].Type == object.Deleted && okey(ds[n - 1].Object) == k ? 1 : 0)
def added(ds []object.Delta, n int, k string) bool = old(nAdd(ds, n, k)) > 0
def removed(ds []object.Delta, n int, k string) bool = old(nDel(ds, n, k)) > 0
def upserts(ds []object.Delta, n int, k string, had bool) bool = added(ds, n, k) && (had || !removed(ds, n, k))
def deletes(ds []object.Delta, n int, k string, had bool) bool = !added(ds, n, k) && removed(ds, n, k) && had

def up(g *keyOps) bool = len(g.adds) > 0 && (g.existedBefore || len(g.deletes) == 0)
def down(g *keyOps) bool = len(g.adds) == 0 && len(g.deletes) > 0 && g.existedBefore

func (*Pipeline).Reconcile(p, ds) (res, err)
  timeout 20
  props C10
  requires p != nil && storeWf(p.targetCache)
  requires forall i int :: {ds[i]} 0 <= i && i < len(ds) ==> ds[i].Object != nil
  modifies smap(p.targetCache)[*]
  ensures [wf] storeWf(p.targetCache)
  ensures [order] err == nil ==> forall i, j int :: 0 <= i && i < j && j < len(res) && res[j].Type == object.Deleted ==> res[i].Type == object.Deleted
  ensures [types] err == nil ==> forall i int :: 0 <= i && i < len(res) ==> res[i].Object != nil && (res[i].Type == object.Deleted || res[i].Type == object.Upserted)
  ensures [delete] err == nil ==> forall i int, k string :: {res[i], k in dom(smap(p.targetCache))} 0 <= i && i < len(res) && res[i].Type == object.Deleted && k == okey(res[i].Object) ==> deletes(ds, len(ds), k, old(k in dom(smap(p.targetCache))))
  ensures [upsert] err == nil ==> forall i int, k string :: {res[i], k in dom(smap(p.targetCache))} 0 <= i && i < len(res) && res[i].Type == object.Upserted && k == okey(res[i].Object) ==> upserts(ds, len(ds), k, old(k in dom(smap(p.targetCache))))
  ensures [once] err == nil ==> forall i, j int :: 0 <= i && i < j && j < len(res) ==> okey(res[i].Object) != okey(res[j].Object)
  ensures [complete] err == nil ==> forall k string :: {old(k in dom(smap(p.targetCache)))} (upserts(ds, len(ds), k, old(k in dom(smap(p.targetCache)))) || deletes(ds, len(ds), k, old(k in dom(smap(p.targetCache))))) ==> exists i int :: {res[i]} 0 <= i && i < len(res) && okey(res[i].Object) == k
  ensures [record] err == nil ==> forall k string :: (k in dom(smap(p.targetCache))) == (upserts(ds, len(ds), k, old(k in dom(smap(p.targetCache)))) || (old(k in dom(smap(p.targetCache))) && !deletes(ds, len(ds), k, true)))
  ensures [record-content] err == nil ==> forall i int :: {res[i]} 0 <= i && i < len(res) && res[i].Type == object.Upserted ==> dkey(smap(p.targetCache)[okey(res[i].Object)]) == dkey(res[i].Object)
  loop 1
    var grouped map[string]*keyOps
    invariant forall i int :: {ds[i]} 0 <= i && i < len(ds) ==> ds[i] == old(ds[i])
    invariant grouped != nil && storeWf(p.targetCache) && unchanged(smap(p.targetCache))
    invariant forall k string :: {grouped[k]} k in dom(grouped) ==> grouped[k] != nil && fresh(grouped[k]) && grouped[k].existedBefore == (k in dom(smap(p.targetCache)))
    invariant forall k string :: {grouped[k]} k in dom(grouped) ==> (cap(grouped[k].adds) == 0 || fresh(grouped[k].adds))
    invariant forall k string :: {grouped[k]} k in dom(grouped) ==> (cap(grouped[k].deletes) == 0 || fresh(grouped[k].deletes))
    invariant forall k string :: {grouped[k]} k in dom(grouped) ==> (ref(grouped[k].adds) != ref(grouped[k].deletes) || cap(grouped[k].adds) == 0)
    invariant forall k1, k2 string :: {grouped[k1], grouped[k2]} k1 in dom(grouped) && k2 in dom(grouped) && k1 != k2 ==> grouped[k1] != grouped[k2]
    invariant forall k1, k2 string :: {grouped[k1], grouped[k2]} k1 in dom(grouped) && k2 in dom(grouped) && k1 != k2 ==> (ref(grouped[k1].adds) != ref(grouped[k2].adds) || cap(grouped[k1].adds) == 0) && (ref(grouped[k1].deletes) != ref(grouped[k2].deletes) || cap(grouped[k1].deletes) == 0) && (ref(grouped[k1].adds) != ref(grouped[k2].deletes) || cap(grouped[k1].adds) == 0)
    invariant forall k string :: {k in dom(grouped)} (k in dom(grouped)) == (added(ds, $n, k) || removed(ds, $n, k))
    invariant forall k string :: {old(nAdd(ds, $n, k))} old(nAdd(ds, $n, k)) >= 0
    invariant forall k string :: {old(nDel(ds, $n, k))} old(nDel(ds, $n, k)) >= 0
    invariant forall k string :: {grouped[k]} k in dom(grouped) ==> (len(grouped[k].adds) > 0) == added(ds, $n, k) && (len(grouped[k].deletes) > 0) == removed(ds, $n, k)
    invariant forall k string, i int :: {grouped[k].adds[i]} k in dom(grouped) && 0 <= i && i < len(grouped[k].adds) ==> grouped[k].adds[i].Object != nil && okey(grouped[k].adds[i].Object) == k
    invariant forall k string, i int :: {grouped[k].deletes[i]} k in dom(grouped) && 0 <= i && i < len(grouped[k].deletes) ==> grouped[k].deletes[i].Object != nil && okey(grouped[k].deletes[i].Object) == k
  loop 2
    var grouped map[string]*keyOps
    var deltaCache map[string]object.Delta
    invariant storeWf(p.targetCache) && deltaCache != nil
    invariant forall k string :: {k in dom(deltaCache)} k in dom(deltaCache) ==> k in $visited
    invariant forall k string :: {k in dom(deltaCache)} k in dom(deltaCache) ==> up(grouped[k]) || down(grouped[k])
    invariant forall k string :: {k in $visited} k in $visited && (up(grouped[k]) || down(grouped[k])) ==> k in dom(deltaCache)
    invariant forall k string :: {deltaCache[k]} k in dom(deltaCache) && deltaCache[k].Type == object.Deleted ==> deletes(ds, len(ds), k, old(k in dom(smap(p.targetCache))))
    invariant forall k string :: {deltaCache[k]} k in dom(deltaCache) && deltaCache[k].Type == object.Upserted ==> upserts(ds, len(ds), k, old(k in dom(smap(p.targetCache))))
    invariant forall k string :: {deltaCache[k]} k in dom(deltaCache) ==> deltaCache[k].Object != nil && okey(deltaCache[k].Object) == k
    invariant forall k string :: {deltaCache[k]} k in dom(deltaCache) ==> deltaCache[k].Type == (up(grouped[k]) ? object.Upserted : object.Deleted)
    invariant forall k string :: {k in dom(smap(p.targetCache))} (k in dom(smap(p.targetCache))) == (k in dom(deltaCache) ? up(grouped[k]) : old(k in dom(smap(p.targetCache))))
    invariant forall k string :: {deltaCache[k]} k in dom(deltaCache) && up(grouped[k]) ==> dkey(smap(p.targetCache)[k]) == dkey(deltaCache[k].Object)
  loop 3
    var deltaCache map[string]object.Delta
    var res []object.Delta
    invariant forall k string :: {k in dom(deltaCache)} (k in dom(deltaCache)) == (upserts(ds, len(ds), k, old(k in dom(smap(p.targetCache)))) || deletes(ds, len(ds), k, old(k in dom(smap(p.targetCache)))))
    invariant (cap(res) == 0 || fresh(res))
    invariant forall i int :: {res[i]} 0 <= i && i < len(res) ==> res[i].Object != nil && res[i].Type == object.Deleted && okey(res[i].Object) in $visited && okey(res[i].Object) in dom(deltaCache) && res[i] == deltaCache[okey(res[i].Object)]
    invariant forall i, j int :: {res[i], res[j]} 0 <= i && i < j && j < len(res) ==> okey(res[i].Object) != okey(res[j].Object)
    invariant forall k string :: {k in $visited} k in $visited && deltaCache[k].Type == object.Deleted ==> exists i int :: {res[i]} 0 <= i && i < len(res) && okey(res[i].Object) == k
  loop 4
    var deltaCache map[string]object.Delta
    var res []object.Delta
    invariant forall k string :: {k in dom(deltaCache)} (k in dom(deltaCache)) == (upserts(ds, len(ds), k, old(k in dom(smap(p.targetCache)))) || deletes(ds, len(ds), k, old(k in dom(smap(p.targetCache)))))
    invariant (cap(res) == 0 || fresh(res))
    invariant forall i int :: {res[i]} 0 <= i && i < len(res) ==> res[i].Object != nil && okey(res[i].Object) in dom(deltaCache) && res[i] == deltaCache[okey(res[i].Object)] && (res[i].Type == object.Deleted || (res[i].Type == object.Upserted && okey(res[i].Object) in $visited))
    invariant forall i, j int :: {res[i], res[j]} 0 <= i && i < j && j < len(res) ==> okey(res[i].Object) != okey(res[j].Object) && (res[j].Type == object.Deleted ==> res[i].Type == object.Deleted)
    invariant forall k string :: {k in dom(deltaCache)} k in dom(deltaCache) && (deltaCache[k].Type == object.Deleted || k in $visited) ==> exists i int :: {res[i]} 0 <= i && i < len(res) && okey(res[i].Object) == k
