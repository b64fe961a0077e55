package github.com/l7mp/dcontroller/pkg/util

func Stringify(v) (r)
  props C23

package github.com/l7mp/dcontroller/pkg/object

func Dump(obj) (r)
  trusted builds a log text from a private copy
func (Delta).String(d) (r)
  props C23

// ---- decoding of secrets
uf validB64(string) bool
uf b64Text(string) string
extern (*encoding/base64.Encoding).DecodeString(enc, s) (b, err)
  note base64 validity and decoding are functions of the text
  ensures (err == nil) == validB64(s)
  ensures err == nil ==> text(b) == b64Text(s)
extern (*k8s.io/apimachinery/pkg/apis/meta/v1/unstructured.Unstructured).GetKind(u) (r)
  note the kind is the content's "kind" entry
  requires u != nil
  ensures r == (typeis(u.Object["kind"], string) ? unbox(u.Object["kind"], string) : "")
extern (*k8s.io/apimachinery/pkg/apis/meta/v1/unstructured.Unstructured).UnstructuredContent(u) (r)
  requires u != nil
  ensures u.Object != nil ==> r == u.Object
  ensures u.Object == nil ==> r != nil && card(dom(r)) == 0 && fresh(r)

def dataMap(u *unstructured.Unstructured) map[string]any = unbox(u.Object["data"], `map[string]any`)
def hasSecret(u *unstructured.Unstructured) bool = u != nil && u.Object["kind"] == box("Secret", string) && typeis(u.Object["data"], `map[string]any`)
def decoded(x any) any = (typeis(x, string) && validB64(unbox(x, string))) ? box(b64Text(unbox(x, string)), string) : x

// contents are trees: the data of an object is not the object itself
def treeData(u *unstructured.Unstructured) bool = hasSecret(u) ==> dataMap(u) != u.Object
func DecodeSecretData(obj) (r)
  props C26 C23
  requires treeData(obj)
  modifies dataMap(obj)[*]
  ensures [same-object] r == obj
  ensures [decoded] hasSecret(obj) ==> dom(dataMap(obj)) == old(dom(dataMap(obj))) && (forall k string :: {dataMap(obj)[k]} k in dom(dataMap(obj)) ==> dataMap(obj)[k] == decoded(old(dataMap(obj)[k])))
  ensures [others] !old(hasSecret(obj)) ==> unchanged(dataMap(obj))
  loop 1
    invariant dom(dataMap(obj)) == entry(dom(dataMap(obj)))
    invariant forall k string :: {dataMap(obj)[k]} k in dom(dataMap(obj)) ==> dataMap(obj)[k] == (k in $visited ? decoded(entry(dataMap(obj)[k])) : entry(dataMap(obj)[k]))
