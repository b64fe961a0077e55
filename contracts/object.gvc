package github.com/l7mp/dcontroller/pkg/object

func DeepCopy(in) (r)
  trusted runtime.DeepCopyJSON copies the content recursively
  props C19
  ensures (in == nil) == (r == nil)
  ensures in != nil ==> fresh(r) && okey(r) == okey(in) && dkey(r) == dkey(in)

// ---- private copies of JSON values: scalars are kept, lists and maps are copied into storage of their own, at every level
def isScalar(x any) bool = typeis(x, bool) || typeis(x, int64) || typeis(x, float64) || typeis(x, string)
def isTree(x any) bool = typeis(x, `[]any`) || typeis(x, `map[string]any`)
def lst(x any) []any = unbox(x, `[]any`)
def mp(x any) map[string]any = unbox(x, `map[string]any`)
def ownCopy(r any, x any) bool = (!isTree(x) ==> r == x) && (typeis(x, `[]any`) ==> typeis(r, `[]any`)) && (typeis(x, `map[string]any`) ==> typeis(r, `map[string]any`) && mp(r) != nil)

func DeepCopyAny(value) (r)
  props C14 C16 C03
  ensures [scalar] !isTree(value) ==> r == value
  ensures [kind] ownCopy(r, value)
  ensures [list] typeis(value, `[]any`) ==> fresh(lst(r)) && len(lst(r)) == len(lst(value)) && forall i int :: {lst(r)[i]} 0 <= i && i < len(lst(r)) ==> ownCopy(lst(r)[i], lst(value)[i])
  ensures [map] typeis(value, `map[string]any`) ==> fresh(mp(r)) && dom(mp(r)) == dom(mp(value)) && forall k string :: {mp(r)[k]} k in dom(mp(r)) ==> ownCopy(mp(r)[k], mp(value)[k])
  loop 1
    var newList []any
    invariant fresh(newList) && len(newList) == len(lst(value))
    invariant forall i int :: {newList[i]} 0 <= i && i < $n ==> ownCopy(newList[i], lst(value)[i])
  loop 2
    var newMap map[string]any
    invariant fresh(newMap) && newMap != nil
    invariant dom(newMap) == $visited
    invariant forall k string :: {newMap[k]} k in $visited ==> ownCopy(newMap[k], mp(value)[k])
