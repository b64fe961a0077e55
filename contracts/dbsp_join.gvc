package github.com/l7mp/dcontroller/pkg/dbsp

// ---- joins (C05). joinSum: multiplicity of the result document k in the snapshot join of two collections,
// i.e. the sum over all pairs of documents of (product of multiplicities) x (times the pair yields k)
heapfn joinSum(*DocumentZSet, *DocumentZSet, any, []string, string) int reads *DocumentZSet, map[string]Document, map[string]int, map[string]any, []any, []string

func NewBinaryJoin(eval, inputs) (r)
  props C05
  ensures [fields] r != nil && r.BaseOp.arity == 2 && r.eval == eval && r.inputs == inputs

func (*BinaryJoinOp).Process(n, inputs) (r, err)
  trusted the nested loop over both collections computes joinSum (bounded stand-in: replayed against an independent product oracle)
  requires n.BaseOp.arity == 2 && n.eval != nil && len(n.inputs) == 2
  requires inputsOk(inputs, 2)
  ensures err == nil ==> len(inputs) == 2
  ensures err == nil ==> wf(r) && fresh(r) && fresh(r.docs) && fresh(r.counts) && forall k string :: r.counts[k] == joinSum(inputs[0], inputs[1], n.eval, n.inputs, k)

func NewIncrementalBinaryJoin(eval, inputs) (r)
  props C05
  ensures [fields] r != nil && r.BaseOp.arity == 2 && r.eval == eval && r.inputs == inputs
  ensures [state] wf(r.prevLeft) && wf(r.prevRight) && forall k string :: r.prevLeft.counts[k] == 0 && r.prevRight.counts[k] == 0
  ensures [terms] joinOp(r.join1, eval, inputs) && joinOp(r.join2, eval, inputs) && joinOp(r.join3, eval, inputs)

def joinOp(j *BinaryJoinOp, e any, names []string) bool = j != nil && j.BaseOp.arity == 2 && j.eval == e && j.inputs == names

func (*IncrementalBinaryJoinOp).Process(op, inputs) (r, err)
  props C05
  requires op.BaseOp.arity == 2 && op.eval != nil && len(op.inputs) == 2 && wf(op.prevLeft) && wf(op.prevRight)
  requires joinOp(op.join1, op.eval, op.inputs) && joinOp(op.join2, op.eval, op.inputs) && joinOp(op.join3, op.eval, op.inputs)
  requires inputsOk(inputs, 2)
  modifies op.prevLeft, op.prevRight
  ensures [arity] err == nil ==> len(inputs) == 2
  ensures [expansion] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == old(joinSum(inputs[0], inputs[1], op.eval, op.inputs, k)) + old(joinSum(op.prevLeft, inputs[1], op.eval, op.inputs, k)) + old(joinSum(inputs[0], op.prevRight, op.eval, op.inputs, k))
  ensures [state] wf(op.prevLeft) && wf(op.prevRight)
  ensures [accumulate-left] err == nil ==> forall k string :: op.prevLeft.counts[k] == old(op.prevLeft.counts[k]) + old(inputs[0].counts[k])
  ensures [accumulate-right] err == nil ==> forall k string :: op.prevRight.counts[k] == old(op.prevRight.counts[k]) + old(inputs[1].counts[k])
  ensures [owned] err == nil ==> (fresh(op.prevLeft) || op.prevLeft == old(op.prevLeft)) && (fresh(op.prevRight) || op.prevRight == old(op.prevRight))
  ensures [on-error] len(inputs) != 2 ==> op.prevLeft == old(op.prevLeft) && op.prevRight == old(op.prevRight)

func (*IncrementalBinaryJoinOp).Reset(op) ()
  props C05 C06
  modifies op.prevLeft, op.prevRight
  ensures [zero] wf(op.prevLeft) && wf(op.prevRight) && forall k string :: op.prevLeft.counts[k] == 0 && op.prevRight.counts[k] == 0

func NewJoin(eval, inputs) (r)
  props C05
  ensures [fields] r != nil && r.BaseOp.arity == len(inputs) && r.n == len(inputs) && r.eval == eval && r.inputs == inputs

func NewIncrementalJoin(eval, inputs) (r)
  props C05
  ensures [fields] r != nil && r.BaseOp.arity == len(inputs) && r.n == len(inputs) && r.eval == eval && r.inputs == inputs && len(r.prevStates) == len(inputs)
  ensures [state] forall i int :: {r.prevStates[i]} 0 <= i && i < len(inputs) ==> r.prevStates[i] == nil

func (*IncrementalJoinOp).Reset(op) ()
  props C05 C06
  requires op.n >= 0
  modifies op.prevStates
  ensures [state] len(op.prevStates) == op.n && forall i int :: {op.prevStates[i]} 0 <= i && i < op.n ==> op.prevStates[i] == nil

