package github.com/l7mp/dcontroller/pkg/cache

// ---- list kinds and resource names of views
uf lower(string) string
extern strings.ToLower(s) (r)
  note lower-casing is a function of the text
  ensures r == lower(s)
  ensures contains(s, ".") == contains(r, ".")
def isListName(k string) bool = suffixof("List", k)

func (*ViewDiscovery).IsViewGroup(d, group) (r)
  props C21
  ensures [exact] r == isViewGroup(group)
func (*ViewDiscovery).IsViewKind(d, gvk) (r)
  props C21
  strings
  ensures [exact] r == (isView(gvk) && !isListName(gvk.Kind))
func (*ViewDiscovery).IsViewListKind(d, gvk) (r)
  props C21
  strings
  ensures [exact] r == (isView(gvk) && isListName(gvk.Kind))
func (*ViewDiscovery).ObjectGVKFromListGVK(d, listGVK) (r)
  props C21
  strings
  ensures [inverse] forall k string :: {k + "List"} isView(listGVK) && listGVK.Kind == k + "List" ==> r.Kind == k
  ensures [group] r.Group == listGVK.Group && r.Version == listGVK.Version
  ensures [others] !(isView(listGVK) && isListName(listGVK.Kind)) ==> r == listGVK
func (*ViewDiscovery).ListGVKFromObjectGVK(d, objGVK) (r)
  props C21
  strings
  ensures [list] isView(objGVK) && !isListName(objGVK.Kind) ==> r.Kind == objGVK.Kind + "List"
  ensures [group] r.Group == objGVK.Group && r.Version == objGVK.Version
  ensures [others] !(isView(objGVK) && !isListName(objGVK.Kind)) ==> r == objGVK
func (*ViewDiscovery).ResourceFromKind(d, kind) (r)
  props C21
  strings
  ensures [list] forall k string :: {k + "List"} kind == k + "List" ==> r == lower(k)
  ensures [object] !isListName(kind) ==> r == lower(kind)

func (*ViewRESTMapper).KindFor(m, resource) (r, err)
  props C21
  ensures [routed] (err == nil) == isViewGroup(resource.Group)
  ensures [group] err == nil ==> r.Group == resource.Group && r.Version == resource.Version
func (*ViewRESTMapper).ResourceFor(m, input) (r, err)
  props C21
  ensures [routed] (err == nil) == isViewGroup(input.Group)
  ensures [named] err == nil ==> r.Group == input.Group && r.Version == input.Version && r.Resource == lower(input.Resource)
func (*ViewRESTMapper).RESTMapping(m, gk, versions) (r, err)
  props C21
  ensures [routed] (err == nil) == isViewGroup(gk.Group)
  ensures [kind] err == nil ==> r != nil && r.GroupVersionKind.Group == gk.Group && r.GroupVersionKind.Kind == gk.Kind && r.GroupVersionKind.Version == (len(versions) > 0 && versions[0] != "" ? versions[0] : "v1alpha1")
  ensures [resource] err == nil ==> r.Resource.Group == gk.Group && r.Resource.Version == r.GroupVersionKind.Version && r.Resource.Resource == lower(gk.Kind)

func (*ViewDiscovery).RegisterViewGVK(d, gvk) (err)
  props C21
  requires d != nil && d.registeredViews != nil
  modifies d.registeredViews[*]
  ensures [views-only] dom(d.registeredViews) == (isView(gvk) && !isListName(gvk.Kind) ? setadd(old(dom(d.registeredViews)), gvk) : old(dom(d.registeredViews)))
  ensures [kept] forall g schema.GroupVersionKind :: {d.registeredViews[g]} g in old(dom(d.registeredViews)) ==> d.registeredViews[g] == old(d.registeredViews[g])
  ensures [entry] isView(gvk) && !isListName(gvk.Kind) && !(gvk in old(dom(d.registeredViews))) ==> d.registeredViews[gvk] != nil && d.registeredViews[gvk].Name == lower(gvk.Kind) && d.registeredViews[gvk].Kind == gvk.Kind && d.registeredViews[gvk].Group == gvk.Group && d.registeredViews[gvk].Version == gvk.Version && d.registeredViews[gvk].Namespaced
  ensures err == nil
func (*ViewDiscovery).UnregisterViewGVK(d, gvk) (err)
  props C21
  requires d != nil && d.registeredViews != nil
  modifies d.registeredViews[*]
  ensures [removed] dom(d.registeredViews) == setdel(old(dom(d.registeredViews)), gvk)
  ensures [kept] forall g schema.GroupVersionKind :: {d.registeredViews[g]} g != gvk ==> d.registeredViews[g] == old(d.registeredViews[g])
  ensures err == nil
