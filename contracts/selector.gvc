package github.com/l7mp/dcontroller/pkg/expression

// ---- label selectors
uf fmtv(any) string
axiom forall s string :: {fmtv(box(s, string))} fmtv(box(s, string)) == s

def hasML(m map[string]any) bool = typeis(m["matchLabels"], `map[string]any`)
def mlOf(m map[string]any) map[string]any = unbox(m["matchLabels"], `map[string]any`)
def hasME(m map[string]any) bool = typeis(m["matchExpressions"], `[]any`)
def meOf(m map[string]any) []any = unbox(m["matchExpressions"], `[]any`)
def isReq(x any) bool = typeis(x, `map[string]any`)
def strOf(x any) string = typeis(x, string) ? unbox(x, string) : ""
def reqKey(x any) string = strOf(unbox(x, `map[string]any`)["key"])
def reqOp(x any) string = strOf(unbox(x, `map[string]any`)["operator"])
def knownOp(o string) bool = o == "In" || o == "NotIn" || o == "Exists" || o == "DoesNotExist"

func convertToLabelSelector(selectorMap) (r, err)
  props C24
  ensures [some] err == nil ==> r != nil
  ensures [plain] !hasML(selectorMap) && !hasME(selectorMap) ==> err == nil && dom(r.MatchLabels) == dom(selectorMap) && (forall k string :: {r.MatchLabels[k]} k in dom(selectorMap) ==> r.MatchLabels[k] == fmtv(selectorMap[k])) && len(r.MatchExpressions) == 0
  ensures [labels] err == nil && hasML(selectorMap) ==> dom(r.MatchLabels) == dom(mlOf(selectorMap)) && (forall k string :: {r.MatchLabels[k]} k in dom(mlOf(selectorMap)) ==> r.MatchLabels[k] == fmtv(mlOf(selectorMap)[k]))
  ensures [no-labels] err == nil && !hasML(selectorMap) && hasME(selectorMap) ==> card(dom(r.MatchLabels)) == 0
  ensures [labels-only] hasML(selectorMap) && !hasME(selectorMap) ==> err == nil && len(r.MatchExpressions) == 0
  loop 1
    var labelSelector *k8s.io/apimachinery/pkg/apis/meta/v1.LabelSelector
    invariant dom(labelSelector.MatchLabels) == $visited
    invariant forall k string :: {labelSelector.MatchLabels[k]} k in $visited ==> labelSelector.MatchLabels[k] == fmtv(mlOf(selectorMap)[k])
  loop 2
    var labelSelector *k8s.io/apimachinery/pkg/apis/meta/v1.LabelSelector
    invariant (cap(labelSelector.MatchExpressions) == 0 || fresh(labelSelector.MatchExpressions))
    invariant labelSelector.MatchLabels == entry(labelSelector.MatchLabels)
  loop 3
    var requirement k8s.io/apimachinery/pkg/apis/meta/v1.LabelSelectorRequirement
    invariant cap(requirement.Values) == 0 || fresh(requirement.Values)
  loop 4
    var labelSelector *k8s.io/apimachinery/pkg/apis/meta/v1.LabelSelector
    invariant dom(labelSelector.MatchLabels) == $visited
    invariant forall k string :: {labelSelector.MatchLabels[k]} k in $visited ==> labelSelector.MatchLabels[k] == fmtv(selectorMap[k])
