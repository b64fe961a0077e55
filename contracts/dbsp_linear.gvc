package github.com/l7mp/dcontroller/pkg/dbsp

// ---- document evaluators: what an evaluator produces is a function of the document's content.
// evLen results; the i-th has key evKey. An evaluator that writes to its argument has mutates(e).
uf evOk(any, string) bool
uf evLen(any, string) int
uf evKey(any, string, int) string
uf mutates(any) bool
axiom [ev-len] forall e any, k string :: {evLen(e, k)} evLen(e, k) >= 0

iface Evaluator.Evaluate(e, doc) (docs, err)
  note evaluators are deterministic functions of the document's content and write at most to the top level of the document they are given
  requires keyOk(doc)
  modifies doc[*]
  ensures !mutates(e) ==> unchanged(doc)
  ensures (err == nil) == old(evOk(e, keyOf(doc)))
  ensures err == nil ==> len(docs) == old(evLen(e, keyOf(doc)))
  ensures err == nil ==> forall i int :: {docs[i]} 0 <= i && i < len(docs) ==> keyOk(docs[i]) && keyOf(docs[i]) == old(evKey(e, keyOf(doc), i))

// contribution of the first n results of document d (with multiplicity m) to key k
recdef evSum(e any, d string, n int, k string, m int) int = n <= 0 ? 0 : evSum(e, d, n - 1, k, m) + (evKey(e, d, n - 1) == k ? m : 0)

func (*ProjectionOp).Process(n, inputs) (r, err)
  props C04
  requires n.BaseOp.arity == 1 && n.eval != nil
  requires inputsOk(inputs, 1)
  fold linSum(z *DocumentZSet, e any, k string) over d string = evSum(e, d, evLen(e, d), k, z.counts[d])
  ensures [arity] err == nil ==> len(inputs) == 1
  ensures [err] len(inputs) == 1 ==> (err == nil) == (forall d string :: {d in dom(inputs[0].counts)} d in dom(inputs[0].counts) ==> evOk(n.eval, d))
  ensures [linear] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == linSum(inputs[0], n.eval, k, dom(inputs[0].counts))
  loop 1
    var result *DocumentZSet
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall d string :: {d in $visited} d in $visited ==> evOk(n.eval, d)
    invariant forall k string :: {result.counts[k]} result.counts[k] == linSum(inputs[0], n.eval, k, $visited)
  loop 2
    var result *DocumentZSet
    var key string
    var multiplicity int
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: {result.counts[k]} result.counts[k] == entry(result.counts[k]) + evSum(n.eval, key, $n, k, multiplicity)

func NewProjection(eval) (r)
  props C04
  ensures [fields] r != nil && r.BaseOp.arity == 1 && r.eval == eval

func NewSelection(eval) (r)
  props C04
  ensures [fields] r != nil && r.BaseOp.arity == 1 && r.eval == eval

func (*SelectionOp).Process(n, inputs) (r, err)
  props C04
  requires n.BaseOp.arity == 1 && n.eval != nil && !mutates(n.eval)
  requires inputsOk(inputs, 1)
  ensures [arity] err == nil ==> len(inputs) == 1
  ensures [err] len(inputs) == 1 ==> (err == nil) == (forall d string :: {d in dom(inputs[0].counts)} d in dom(inputs[0].counts) ==> evOk(n.eval, d))
  ensures [linear] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == linSum(inputs[0], n.eval, k, dom(inputs[0].counts))
  loop 1
    var result *DocumentZSet
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall d string :: {d in $visited} d in $visited ==> evOk(n.eval, d)
    invariant forall k string :: {result.counts[k]} result.counts[k] == linSum(inputs[0], n.eval, k, $visited)
  loop 2
    var result *DocumentZSet
    var key string
    var multiplicity int
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: {result.counts[k]} result.counts[k] == entry(result.counts[k]) + evSum(n.eval, key, $n, k, multiplicity)

// ---- fused projection and selection: contribution of the first n projected documents, each selected
recdef evSum2(p any, s any, d string, n int, k string, m int) int = n <= 0 ? 0 : evSum2(p, s, d, n - 1, k, m) + evSum(s, evKey(p, d, n - 1), evLen(s, evKey(p, d, n - 1)), k, m)

func NewProjectThenSelect(projEval, selEval) (r)
  props C04
  ensures [fields] r != nil && r.BaseOp.arity == 1 && r.projEval == projEval && r.selEval == selEval

func (*ProjectThenSelectOp).Process(op, inputs) (r, err)
  props C04
  requires op.BaseOp.arity == 1 && op.projEval != nil && op.selEval != nil && !mutates(op.projEval) && !mutates(op.selEval)
  requires inputsOk(inputs, 1)
  fold linSum2(z *DocumentZSet, p any, s any, k string) over d string = evSum2(p, s, d, evLen(p, d), k, z.counts[d])
  ensures [arity] err == nil ==> len(inputs) == 1
  ensures [linear] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == linSum2(inputs[0], op.projEval, op.selEval, k, dom(inputs[0].counts))
  loop 1
    var result *DocumentZSet
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: {result.counts[k]} result.counts[k] == linSum2(inputs[0], op.projEval, op.selEval, k, $visited)
  loop 2
    var result *DocumentZSet
    var key string
    var multiplicity int
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: {result.counts[k]} result.counts[k] == entry(result.counts[k]) + evSum2(op.projEval, op.selEval, key, $n, k, multiplicity)
  loop 3
    var result *DocumentZSet
    var key string
    var multiplicity int
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: {result.counts[k]} result.counts[k] == entry(result.counts[k]) + evSum(op.selEval, evKey(op.projEval, key, $n2), $n, k, multiplicity)

// ---- fused selection and projection chain
// key of the document after the first n projections of the chain, and whether they all produced exactly one document
recdef chainKey(ps []Evaluator, n int, d string) string = n <= 0 ? d : evKey(ps[n - 1], chainKey(ps, n - 1, d), 0)
recdef selSum(s any, ps []Evaluator, d string, n int, k string, m int) int = n <= 0 ? 0 : selSum(s, ps, d, n - 1, k, m) + (chainKey(ps, len(ps), evKey(s, d, n - 1)) == k ? m : 0)

func (*SelectThenProjectionsOp).Process(op, inputs) (r, err)
  props C04
  requires op.BaseOp.arity == 1 && (op.selEval != nil ==> !mutates(op.selEval))
  requires forall i int :: {op.projEvals[i]} 0 <= i && i < len(op.projEvals) ==> op.projEvals[i] != nil && !mutates(op.projEvals[i])
  requires inputsOk(inputs, 1)
  fold chainSum(z *DocumentZSet, s any, ps []Evaluator, k string) over d string = (s == nil ? (chainKey(ps, len(ps), d) == k ? z.counts[d] : 0) : selSum(s, ps, d, evLen(s, d), k, z.counts[d]))
  ensures [arity] err == nil ==> len(inputs) == 1
  ensures [linear] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == chainSum(inputs[0], op.selEval, op.projEvals, k, dom(inputs[0].counts))
  loop 1
    var result *DocumentZSet
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: {result.counts[k]} result.counts[k] == chainSum(inputs[0], op.selEval, op.projEvals, k, $visited)
  loop 2
    var result *DocumentZSet
    var key string
    var multiplicity int
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: {result.counts[k]} result.counts[k] == entry(result.counts[k]) + (op.selEval == nil ? (chainKey(op.projEvals, len(op.projEvals), key) == k && $n > 0 ? multiplicity : 0) : selSum(op.selEval, op.projEvals, key, $n, k, multiplicity))
  loop 3
    var key string
    var currentDoc Document
    invariant keyOk(currentDoc) && keyOf(currentDoc) == chainKey(op.projEvals, $n, op.selEval == nil ? key : evKey(op.selEval, key, $n2))

// ---- unwinding: an extractor yields a list (or nothing), a transformer rewrites a document for a value
heapfn valKey(any) string reads map[string]any, []any
uf exOk(any, string) bool
uf exList(any, string) bool
uf exLen(any, string) int
uf exKey(any, string, int) string
uf trOk(any, string, string) bool
uf trKey(any, string, string) string
axiom [ex-len] forall e any, k string :: {exLen(e, k)} exLen(e, k) >= 0

iface Extractor.Extract(e, doc) (v, err)
  note extractors are deterministic functions of the document's content and do not write
  requires keyOk(doc)
  ensures (err == nil) == exOk(e, keyOf(doc))
  ensures err == nil ==> typeis(v, `[]any`) == exList(e, keyOf(doc))
  ensures err == nil && typeis(v, `[]any`) ==> len(unbox(v, `[]any`)) == exLen(e, keyOf(doc))
  ensures err == nil && typeis(v, `[]any`) ==> forall i int :: {unbox(v, `[]any`)[i]} 0 <= i && i < exLen(e, keyOf(doc)) ==> valKey(unbox(v, `[]any`)[i]) == exKey(e, keyOf(doc), i)

iface Transformer.Transform(t, doc, v) (r, err)
  note transformers are deterministic functions of the document's and the value's content and write at most to the top level of the document they are given
  requires keyOk(doc)
  modifies doc[*]
  ensures (err == nil) == old(trOk(t, keyOf(doc), valKey(v)))
  ensures err == nil ==> keyOk(r) && keyOf(r) == old(trKey(t, keyOf(doc), valKey(v)))

func DeepCopyAny(value) (r)
  trusted the copy has the same content (bounded stand-in under C03)
  ensures valKey(r) == valKey(value)

recdef unSum(e any, t any, d string, n int, k string, m int) int = n <= 0 ? 0 : unSum(e, t, d, n - 1, k, m) + (trKey(t, d, exKey(e, d, n - 1)) == k ? m : 0)

func (*UnwindOp).Process(op, inputs) (r, err)
  props C04
  requires op.BaseOp.arity == 1 && op.arrayExtractor != nil && op.transformer != nil
  requires inputsOk(inputs, 1)
  fold unwindSum(z *DocumentZSet, e any, t any, k string) over d string = (exList(e, d) ? unSum(e, t, d, exLen(e, d), k, z.counts[d]) : 0)
  ensures [arity] err == nil ==> len(inputs) == 1
  ensures [linear] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == unwindSum(inputs[0], op.arrayExtractor, op.transformer, k, dom(inputs[0].counts))
  loop 1
    var result *DocumentZSet
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: {result.counts[k]} result.counts[k] == unwindSum(inputs[0], op.arrayExtractor, op.transformer, k, $visited)
  loop 2
    var result *DocumentZSet
    var key string
    var multiplicity int
    invariant wf(result) && fresh(result) && fresh(result.docs) && fresh(result.counts)
    invariant forall k string :: {result.counts[k]} result.counts[k] == entry(result.counts[k]) + unSum(op.arrayExtractor, op.transformer, key, $n, k, multiplicity)
