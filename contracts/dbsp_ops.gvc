package github.com/l7mp/dcontroller/pkg/dbsp

// ---- stream operators (C06), negation (C01), distinct (C07)

func NewBaseOp(name, arity) (r)
  props C06
  ensures [fields] r.name == name && r.arity == arity

func (*BaseOp).validateInputs(n, inputs) (err)
  inline
  props C06
  ensures [arity] (err == nil) == (len(inputs) == n.arity)

def inputsOk(inputs []*DocumentZSet, k int) bool = len(inputs) == k ==> (forall i int :: {inputs[i]} 0 <= i && i < k ==> wf(inputs[i]))

func NewIntegrator() (r)
  props C06
  ensures [zero] r != nil && r.BaseOp.arity == 1 && wf(r.state) && (forall k string :: r.state.counts[k] == 0)

func (*IntegratorOp).Process(n, inputs) (r, err)
  props C06
  requires n.BaseOp.arity == 1 && wf(n.state)
  requires inputsOk(inputs, 1)
  modifies n.state
  ensures [arity] (err == nil) == (len(inputs) == 1)
  ensures [inv] wf(n.state)
  ensures [accumulates] err == nil ==> forall k string :: n.state.counts[k] == old(n.state.counts[k]) + old(inputs[0].counts[k])
  ensures [output] err == nil ==> wf(r) && fresh(r) && fresh(r.docs) && fresh(r.counts) && r != n.state && (forall k string :: r.counts[k] == n.state.counts[k])
  ensures [private] err == nil ==> forall k string :: k in dom(r.docs) ==> fresh(r.docs[k])
  ensures [on-error] err != nil ==> n.state == old(n.state)

func (*IntegratorOp).Reset(n) ()
  props C06
  modifies n.state
  ensures [zero] wf(n.state) && fresh(n.state) && forall k string :: n.state.counts[k] == 0

func NewDifferentiator() (r)
  props C06
  ensures [zero] r != nil && r.BaseOp.arity == 1 && wf(r.prevState) && (forall k string :: r.prevState.counts[k] == 0)

func (*DifferentiatorOp).Process(n, inputs) (r, err)
  props C06
  requires n.BaseOp.arity == 1 && wf(n.prevState)
  requires inputsOk(inputs, 1)
  modifies n.prevState
  ensures [arity] (err == nil) == (len(inputs) == 1)
  ensures [inv] wf(n.prevState)
  ensures [remembers] err == nil ==> forall k string :: n.prevState.counts[k] == old(inputs[0].counts[k])
  ensures [output] err == nil ==> wf(r) && fresh(r) && r != n.prevState && (forall k string :: r.counts[k] == old(inputs[0].counts[k]) - old(n.prevState.counts[k]))
  ensures [private] err == nil ==> fresh(n.prevState) && fresh(n.prevState.docs) && fresh(n.prevState.counts) && (forall k string :: k in dom(n.prevState.docs) ==> fresh(n.prevState.docs[k]))
  ensures [on-error] err != nil ==> n.prevState == old(n.prevState)

func (*DifferentiatorOp).Reset(n) ()
  props C06
  modifies n.prevState
  ensures [zero] wf(n.prevState) && fresh(n.prevState) && forall k string :: n.prevState.counts[k] == 0

func NewDelay() (r)
  props C06
  ensures [zero] r != nil && r.BaseOp.arity == 1 && wf(r.buffer) && (forall k string :: r.buffer.counts[k] == 0)

func (*DelayOp).Process(n, inputs) (r, err)
  props C06
  requires n.BaseOp.arity == 1 && wf(n.buffer)
  requires inputsOk(inputs, 1)
  modifies n.buffer
  ensures [arity] (err == nil) == (len(inputs) == 1)
  ensures [inv] wf(n.buffer)
  ensures [delays] err == nil ==> wf(r) && fresh(r) && r != n.buffer && (forall k string :: r.counts[k] == old(n.buffer.counts[k]))
  ensures [stores] err == nil ==> forall k string :: n.buffer.counts[k] == old(inputs[0].counts[k])
  ensures [private] err == nil ==> fresh(n.buffer) && fresh(n.buffer.docs) && fresh(n.buffer.counts) && (forall k string :: k in dom(n.buffer.docs) ==> fresh(n.buffer.docs[k]))
  ensures [on-error] err != nil ==> n.buffer == old(n.buffer)

func (*DelayOp).Reset(n) ()
  props C06
  modifies n.buffer
  ensures [zero] wf(n.buffer) && fresh(n.buffer) && forall k string :: n.buffer.counts[k] == 0

func NewInput(name) (r)
  props C06
  ensures [zero] r != nil && r.BaseOp.arity == 0 && r.name == name && wf(r.data) && (forall k string :: r.data.counts[k] == 0)

func (*InputOp).Process(n, inputs) (r, err)
  props C06
  requires n.BaseOp.arity == 0 && wf(n.data)
  ensures [arity] (err == nil) == (len(inputs) == 0)
  ensures [output] err == nil ==> wf(r) && fresh(r) && fresh(r.docs) && fresh(r.counts) && (forall k string :: r.counts[k] == n.data.counts[k])
  ensures [private] err == nil ==> forall k string :: k in dom(r.docs) ==> fresh(r.docs[k])

func (*InputOp).SetData(n, data) ()
  props C06
  modifies n.data
  ensures [set] n.data == data

func (*ConstantOp).Process(n, inputs) (r, err)
  props C06
  requires n.BaseOp.arity == 0 && wf(n.value)
  ensures [arity] (err == nil) == (len(inputs) == 0)
  ensures [output] err == nil ==> wf(r) && fresh(r) && (forall k string :: r.counts[k] == n.value.counts[k])

func NewAdd() (r)
  props C01
  ensures [arity] r != nil && r.BaseOp.arity == 2

func (*AddOp).Process(n, inputs) (r, err)
  props C01
  requires n.BaseOp.arity == 2
  requires inputsOk(inputs, 2)
  ensures [arity] (err == nil) == (len(inputs) == 2)
  ensures [pointwise] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == inputs[0].counts[k] + inputs[1].counts[k]

func NewSubtract() (r)
  props C01
  ensures [arity] r != nil && r.BaseOp.arity == 2

func (*SubtractOp).Process(n, inputs) (r, err)
  props C01
  requires n.BaseOp.arity == 2
  requires inputsOk(inputs, 2)
  ensures [arity] (err == nil) == (len(inputs) == 2)
  ensures [pointwise] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == inputs[0].counts[k] - inputs[1].counts[k]

func NewNegate() (r)
  props C01
  ensures [arity] r != nil && r.BaseOp.arity == 1

func (*NegateOp).Process(n, inputs) (r, err)
  props C01
  requires n.BaseOp.arity == 1
  requires inputsOk(inputs, 1)
  ensures [arity] (err == nil) == (len(inputs) == 1)
  ensures [pointwise] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == 0 - inputs[0].counts[k]

func NewDistinct() (r)
  props C07
  ensures [arity] r != nil && r.BaseOp.arity == 1

func (*DistinctOp).Process(n, inputs) (r, err)
  props C07
  requires n.BaseOp.arity == 1
  requires inputsOk(inputs, 1)
  ensures [arity] (err == nil) == (len(inputs) == 1)
  ensures [pointwise] err == nil ==> wf(r) && fresh(r) && forall k string :: r.counts[k] == (inputs[0].counts[k] > 0 ? 1 : 0)
