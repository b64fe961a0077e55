package github.com/l7mp/dcontroller/pkg/api/view/v1alpha1

// ---- names of views
def groupOf(operator string) string = operator + "." + "view.dcontroller.io"
def isViewGroup(g string) bool = suffixof("view.dcontroller.io", g)
def isView(g schema.GroupVersionKind) bool = isViewGroup(g.Group) && g.Version == "v1alpha1"

extern strings.LastIndex(s, sep) (r)
  note the position of the last occurrence
  ensures r >= 0 - 1 && r <= len(s) - len(sep)
  ensures (r < 0) == !contains(s, sep)
  ensures r >= 0 ==> s == substr(s, 0, r) + sep + substr(s, r + len(sep), len(s)) && !contains(substr(s, r + 1, len(s)), sep)
extern strings.Split(s, sep) (r)
  note the last piece is what follows the last occurrence of the separator
  ensures len(r) >= 1 && fresh(r)
  ensures len(sep) > 0 ==> !contains(r[len(r) - 1], sep) && (len(r) == 1 ? r[0] == s : suffixof(sep + r[len(r) - 1], s))

func Group(operator) (r)
  props C21 C23
  ensures [group] r == groupOf(operator)

func GroupVersion(operator) (r)
  props C21
  ensures [group] r.Group == groupOf(operator) && r.Version == "v1alpha1"

extern (k8s.io/apimachinery/pkg/runtime/schema.GroupVersion).WithKind(gv, kind) (r)
  ensures r.Group == gv.Group && r.Version == gv.Version && r.Kind == kind
extern (k8s.io/apimachinery/pkg/runtime/schema.GroupVersionKind).GroupVersion(g) (r)
  ensures r.Group == g.Group && r.Version == g.Version

func GroupVersionKind(operator, view) (r)
  props C21
  strings
  ensures [names] r.Group == groupOf(operator) && r.Version == "v1alpha1" && r.Kind == view
  ensures [is-view] isView(r)

func IsViewGroup(group) (r)
  props C21
  strings
  ensures [exact] r == isViewGroup(group)
func IsViewGroupVersion(gv) (r)
  props C21
  ensures [exact] r == (isViewGroup(gv.Group) && gv.Version == "v1alpha1")
func IsViewKind(gvk) (r)
  props C21
  ensures [exact] r == isView(gvk)
func HasViewGroupVersion(group, gv) (r)
  props C21
  ensures [exact] r == (gv.Group == group && gv.Version == "v1alpha1")
func HasViewGroupVersionKind(group, gvk) (r)
  props C21
  ensures [exact] r == (gvk.Group == group && gvk.Version == "v1alpha1")

func GetOperator(gvk) (r)
  props C21
  strings
  ensures [last] suffixof(".view.dcontroller.io", gvk.Group) ==> !contains(r, ".") && (gvk.Group == groupOf(r) || suffixof("." + groupOf(r), gvk.Group))
  ensures [inverse] forall op string :: {groupOf(op)} gvk.Group == groupOf(op) && !contains(op, ".") ==> r == op
  ensures [none] !suffixof(".view.dcontroller.io", gvk.Group) ==> r == ""

def coreGroup(g string) string = g == "" ? "core" : g
def mapped(op string, g string, v string) string = coreGroup(g) + "." + v + "." + groupOf(op)
func MapIntoView(operator, gvk) (r)
  props C21
  strings
  ensures [embedded] r.Group == coreGroup(gvk.Group) + "." + gvk.Version + "." + groupOf(operator) && r.Version == "v1alpha1" && r.Kind == gvk.Kind
  ensures [is-view] isView(r)

func MapFromView(gvk) (r, err)
  timeout 60
  props C21
  strings
  ensures [refused] !isViewGroup(gvk.Group) ==> err != nil
  ensures [kind] err == nil ==> r.Kind == gvk.Kind
  ensures [inverse] forall op, g, v string :: {mapped(op, g, v)} gvk.Group == mapped(op, g, v) && !contains(op, ".") && !contains(v, ".") && g != "core" ==> err == nil && r.Group == g && r.Version == v
