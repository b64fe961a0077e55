package github.com/l7mp/dcontroller/pkg/dbsp

// ---- document identity: the JSON key of a document is a function of its content
heapfn keyOf(Document) string reads map[string]any, []any
heapfn keyOk(Document) bool reads map[string]any, []any

// representation invariant of a Z-set: the two maps have the same keys, no zero multiplicity is
// stored, and every document is stored under its own key
def wf(z *DocumentZSet) bool = z != nil && z.docs != nil && z.counts != nil && dom(z.docs) == dom(z.counts) &&
   (forall k string :: {z.counts[k]} k in dom(z.counts) ==> z.counts[k] != 0 && keyOk(z.docs[k]) && keyOf(z.docs[k]) == k)

// multiplicity of the document with key k (absent: 0)
def mult(z *DocumentZSet, k string) int = z.counts[k]

func computeJSONKey(doc) (key, err)
  trusted key is a deterministic function of the document content (see json contracts)
  props C03
  ensures (err == nil) == keyOk(doc)
  ensures err == nil ==> key == keyOf(doc)

func NewDocumentZSet() (z)
  props C01
  ensures [empty] wf(z) && fresh(z) && fresh(z.docs) && fresh(z.counts) && (forall k string :: z.counts[k] == 0) && card(dom(z.counts)) == 0

func (*DocumentZSet).AddDocumentMutate(dz, doc, count) (err)
  props C01
  requires wf(dz)
  modifies dz.docs[*], dz.counts[*]
  ensures [wf] wf(dz)
  ensures [err] count != 0 ==> (err == nil) == keyOk(doc)
  ensures [zero] count == 0 ==> err == nil && unchanged(dz.counts, dz.docs)
  ensures [on-error] err != nil ==> unchanged(dz.counts, dz.docs)
  ensures [pointwise] count != 0 && err == nil ==> forall k string :: dz.counts[k] == old(dz.counts[k]) + (k == keyOf(doc) ? count : 0)

func (*DocumentZSet).ShallowCopy(dz) (r)
  props C01
  requires wf(dz)
  ensures [wf] wf(r) && fresh(r) && fresh(r.docs) && fresh(r.counts)
  ensures [equal] dom(r.counts) == dom(dz.counts) && forall k string :: r.counts[k] == dz.counts[k] && r.docs[k] == dz.docs[k]
  loop 1
    var result *DocumentZSet
    invariant result != nil && result.docs != nil && result.counts != nil
    invariant dom(result.docs) == $visited && dom(result.counts) == emptyset(`string`)
    invariant forall k string :: k in $visited ==> result.docs[k] == dz.docs[k]
  loop 2
    var result *DocumentZSet
    invariant result != nil && result.docs != nil && result.counts != nil
    invariant dom(result.docs) == dom(dz.docs) && dom(result.counts) == $visited
    invariant forall k string :: k in dom(dz.docs) ==> result.docs[k] == dz.docs[k]
    invariant forall k string :: k in $visited ==> result.counts[k] == dz.counts[k]

func (*DocumentZSet).AddDocument(dz, doc, count) (r, err)
  props C01
  requires wf(dz)
  ensures [wf] wf(r) && fresh(r) && fresh(r.docs) && fresh(r.counts)
  ensures [err] count != 0 ==> (err == nil) == keyOk(doc)
  ensures [pointwise] count != 0 && err == nil ==> forall k string :: r.counts[k] == dz.counts[k] + (k == keyOf(doc) ? count : 0)
  ensures [unchanged] (count == 0 || err != nil) ==> forall k string :: r.counts[k] == dz.counts[k]


func DeepCopyDocument(val) (doc)
  trusted the copy is fresh and has the same content (see DeepCopyAny; bounded stand-in under C03)
  ensures typeis(val, `Document`) ==> fresh(doc) && doc != nil && (keyOk(doc) == keyOk(unbox(val, `Document`))) && keyOf(doc) == keyOf(unbox(val, `Document`))

func newZSetError(message, cause) (err)
  props C01
  ensures [non-nil] err != nil

func (*DocumentZSet).DeepCopy(dz) (r)
  props C01 C02
  requires wf(dz)
  ensures [wf] wf(r) && fresh(r) && fresh(r.docs) && fresh(r.counts)
  ensures [equal] forall k string :: r.counts[k] == dz.counts[k]
  ensures [private] forall k string :: k in dom(r.docs) ==> fresh(r.docs[k])
  loop 1
    var result *DocumentZSet
    invariant result != nil && result.docs != nil && result.counts != nil
    invariant dom(result.docs) == $visited && dom(result.counts) == $visited
    invariant forall k string :: {result.docs[k]} k in $visited ==> result.docs[k] != nil && fresh(result.docs[k]) && keyOk(result.docs[k]) && keyOf(result.docs[k]) == k
    invariant forall k string :: k in $visited ==> result.counts[k] == dz.counts[k]

func (*DocumentZSet).Add(dz, other) (r, err)
  props C01
  requires wf(dz)
  requires other == nil || wf(other)
  ensures [total] err == nil
  ensures [wf] wf(r) && fresh(r) && fresh(r.docs) && fresh(r.counts)
  ensures [pointwise] forall k string :: r.counts[k] == dz.counts[k] + (other == nil ? 0 : other.counts[k])
  loop 1
    var result *DocumentZSet
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: result.counts[k] == dz.counts[k] + (k in $visited ? other.counts[k] : 0)

func (*DocumentZSet).Subtract(dz, other) (r, err)
  props C01
  requires wf(dz)
  requires other == nil || wf(other)
  ensures [total] err == nil
  ensures [wf] wf(r) && fresh(r) && fresh(r.docs) && fresh(r.counts)
  ensures [pointwise] forall k string :: r.counts[k] == dz.counts[k] - (other == nil ? 0 : other.counts[k])
  loop 1
    var result *DocumentZSet
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: result.counts[k] == dz.counts[k] - (k in $visited ? other.counts[k] : 0)

func (*DocumentZSet).Distinct(dz) (r, err)
  props C02 C07
  requires wf(dz)
  ensures [total] err == nil
  ensures [wf] wf(r) && fresh(r) && fresh(r.docs) && fresh(r.counts)
  ensures [pointwise] forall k string :: r.counts[k] == (dz.counts[k] > 0 ? 1 : 0)
  loop 1
    var result *DocumentZSet
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: result.counts[k] == (k in $visited && dz.counts[k] > 0 ? 1 : 0)

func (*DocumentZSet).Unique(dz) (r, err)
  props C02
  requires wf(dz)
  ensures [total] err == nil
  ensures [wf] wf(r) && fresh(r) && fresh(r.docs) && fresh(r.counts)
  ensures [pointwise] forall k string :: r.counts[k] == (dz.counts[k] > 0 ? 1 : dz.counts[k] < 0 ? 0 - 1 : 0)
  loop 1
    var result *DocumentZSet
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: result.counts[k] == (k in $visited ? (dz.counts[k] > 0 ? 1 : 0 - 1) : 0)

func (*DocumentZSet).IsZero(dz) (r)
  props C02
  requires wf(dz)
  ensures [empty] r == (forall k string :: dz.counts[k] == 0)

func (*DocumentZSet).Size(dz) (r)
  props C02
  requires wf(dz)
  fold sumPos(z *DocumentZSet) over k string = (z.counts[k] > 0 ? z.counts[k] : 0)
  ensures [sum] r == sumPos(dz, dom(dz.counts))
  loop 1
    var total int
    invariant total == sumPos(dz, $visited)

func (*DocumentZSet).TotalSize(dz) (r)
  props C02
  requires wf(dz)
  fold sumAbs(z *DocumentZSet) over k string = (z.counts[k] > 0 ? z.counts[k] : 0 - z.counts[k])
  ensures [sum] r == sumAbs(dz, dom(dz.counts))
  loop 1
    var total int
    invariant total == sumAbs(dz, $visited)

func (*DocumentZSet).UniqueCount(dz) (r)
  props C02
  requires wf(dz)
  fold sumUniq(z *DocumentZSet) over k string = (z.counts[k] > 0 ? 1 : 0)
  ensures [sum] r == sumUniq(dz, dom(dz.counts))
  loop 1
    var count int
    invariant count == sumUniq(dz, $visited)

func (*DocumentZSet).GetMultiplicity(dz, doc) (m, err)
  props C02
  requires wf(dz)
  ensures [err] (err == nil) == keyOk(doc)
  ensures [value] err == nil ==> m == dz.counts[keyOf(doc)]

func (*DocumentZSet).Contains(dz, doc) (b, err)
  props C02
  requires wf(dz)
  ensures [err] (err == nil) == keyOk(doc)
  ensures [value] err == nil ==> b == (dz.counts[keyOf(doc)] > 0)

func (*DocumentZSet).List(dz) (r, err)
  props C02
  requires wf(dz)
  ensures [total] err == nil
  ensures [count] len(r) == card(dom(dz.counts))
  ensures [sound] forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i].Multiplicity != 0 && r[i].Multiplicity == dz.counts[keyOf(r[i].Document)]
  ensures [distinct] forall i, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> keyOf(r[i].Document) != keyOf(r[j].Document)
  ensures [private] forall i int :: {r[i]} 0 <= i && i < len(r) ==> fresh(r[i].Document)
  loop 1
    var result []DocumentEntry
    invariant cap(result) == 0 || fresh(result)
    invariant len(result) == card($visited)
    invariant forall i int :: {result[i]} 0 <= i && i < len(result) ==> keyOf(result[i].Document) in $visited && result[i].Multiplicity == dz.counts[keyOf(result[i].Document)] && fresh(result[i].Document)
    invariant forall i, j int :: {result[i], result[j]} 0 <= i && i < j && j < len(result) ==> keyOf(result[i].Document) != keyOf(result[j].Document)

func (*DocumentZSet).GetUniqueDocuments(dz) (r, err)
  props C02
  requires wf(dz)
  ensures [total] err == nil
  ensures [sound] forall i int :: {r[i]} 0 <= i && i < len(r) ==> dz.counts[keyOf(r[i])] > 0 && fresh(r[i])
  ensures [distinct] forall i, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> keyOf(r[i]) != keyOf(r[j])
  ensures [count] len(r) == sumUniq(dz, dom(dz.counts))
  loop 1
    var result []Document
    invariant cap(result) == 0 || fresh(result)
    invariant len(result) == sumUniq(dz, $visited)
    invariant forall i int :: {result[i]} 0 <= i && i < len(result) ==> keyOf(result[i]) in $visited && dz.counts[keyOf(result[i])] > 0 && fresh(result[i])
    invariant forall i, j int :: {result[i], result[j]} 0 <= i && i < j && j < len(result) ==> keyOf(result[i]) != keyOf(result[j])

func (*DocumentZSet).GetDocuments(dz) (r, err)
  props C02
  requires wf(dz)
  ensures [total] err == nil
  ensures [sound] forall i int :: {r[i]} 0 <= i && i < len(r) ==> dz.counts[keyOf(r[i])] > 0 && fresh(r[i])
  ensures [count] len(r) == sumPos(dz, dom(dz.counts))
  loop 1
    var result []Document
    invariant cap(result) == 0 || fresh(result)
    invariant len(result) == sumPos(dz, $visited)
    invariant forall i int :: {result[i]} 0 <= i && i < len(result) ==> dz.counts[keyOf(result[i])] > 0 && fresh(result[i])
  loop 2
    var result []Document
    invariant cap(result) == 0 || fresh(result)
    invariant len(result) == entry(len(result)) + $n
    invariant forall i int :: {result[i]} 0 <= i && i < len(result) ==> dz.counts[keyOf(result[i])] > 0 && fresh(result[i])

func SingletonZSet(doc) (r, err)
  props C01
  ensures [err] (err == nil) == keyOk(doc)
  ensures [value] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == (k == keyOf(doc) ? 1 : 0)


// number of occurrences of the document with key k among the first n
recdef occ(docs []Document, n int, k string) int = n <= 0 ? 0 : occ(docs, n - 1, k) + (keyOf(docs[n - 1]) == k ? 1 : 0)
func FromDocuments(docs) (r, err)
  props C01
  ensures [err] (err == nil) == (forall i int :: {docs[i]} 0 <= i && i < len(docs) ==> keyOk(docs[i]))
  ensures [value] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == occ(docs, len(docs), k)
  loop 1
    var result *DocumentZSet
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall i int :: {docs[i]} 0 <= i && i < $n ==> keyOk(docs[i])
    invariant forall k string :: result.counts[k] == occ(docs, $n, k)
