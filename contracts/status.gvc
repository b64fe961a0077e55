package github.com/l7mp/dcontroller/pkg/controller

uf errText(any) string
iface error.Error(e) (r)
  ensures r == errText(e)

// the text itself, or its first 119 and last 120 bytes around a mark
def shown(s string) string = len(s) <= 245 ? s : substr(s, 0, 119) + "[...]" + substr(s, len(s) - 120, 120)

func trim(s) (r)
  props C23
  strings
  ensures [exact] r == shown(s)
  ensures [bounded] len(r) <= 245

def repOk(s *errorReporter) bool = s != nil && s.c != nil && len(s.errorStack) <= 10

func (*errorReporter).push(s, err) (r)
  props C23
  requires repOk(s)
  modifies s.errorStack, s.errorStack[*], s.ratelimiter
  ensures [bounded] len(s.errorStack) <= 10 && len(s.errorStack) >= 1
  ensures [count] len(s.errorStack) == (old(len(s.errorStack)) < 10 ? old(len(s.errorStack)) + 1 : 10)
  ensures [last] s.errorStack[len(s.errorStack) - 1] == r
  ensures [keeps] old(len(s.errorStack)) < 10 ==> forall i int :: 0 <= i && i < old(len(s.errorStack)) ==> s.errorStack[i] == old(s.errorStack[i])
  ensures [shifts] old(len(s.errorStack)) == 10 ==> forall i int :: 0 <= i && i < 9 ==> s.errorStack[i] == old(s.errorStack[i + 1])

func (*errorReporter).Push(s, err) (r)
  props C23
  requires repOk(s)
  modifies s.errorStack, s.errorStack[*], s.ratelimiter
  ensures [bounded] len(s.errorStack) <= 10 && len(s.errorStack) >= 1
  ensures [count] len(s.errorStack) == (old(len(s.errorStack)) < 10 ? old(len(s.errorStack)) + 1 : 10)
  ensures [last] s.errorStack[len(s.errorStack) - 1] == r
  ensures [keeps] old(len(s.errorStack)) < 10 ==> forall i int :: 0 <= i && i < old(len(s.errorStack)) ==> s.errorStack[i] == old(s.errorStack[i])
  ensures [shifts] old(len(s.errorStack)) == 10 ==> forall i int :: 0 <= i && i < 9 ==> s.errorStack[i] == old(s.errorStack[i + 1])

func (*errorReporter).PushError(s, msg) (r)
  props C23
  requires repOk(s)
  modifies s.errorStack, s.errorStack[*], s.ratelimiter
  ensures [bounded] len(s.errorStack) <= 10 && len(s.errorStack) >= 1
  ensures [count] len(s.errorStack) == (old(len(s.errorStack)) < 10 ? old(len(s.errorStack)) + 1 : 10)
  ensures [last] s.errorStack[len(s.errorStack) - 1] == r
  ensures [keeps] old(len(s.errorStack)) < 10 ==> forall i int :: 0 <= i && i < old(len(s.errorStack)) ==> s.errorStack[i] == old(s.errorStack[i])
  ensures [shifts] old(len(s.errorStack)) == 10 ==> forall i int :: 0 <= i && i < 9 ==> s.errorStack[i] == old(s.errorStack[i + 1])

func (*errorReporter).PushErrorf(s, format, a) (r)
  props C23
  requires repOk(s)
  modifies s.errorStack, s.errorStack[*], s.ratelimiter
  ensures [bounded] len(s.errorStack) <= 10 && len(s.errorStack) >= 1
  ensures [count] len(s.errorStack) == (old(len(s.errorStack)) < 10 ? old(len(s.errorStack)) + 1 : 10)
  ensures [last] s.errorStack[len(s.errorStack) - 1] == r
  ensures [keeps] old(len(s.errorStack)) < 10 ==> forall i int :: 0 <= i && i < old(len(s.errorStack)) ==> s.errorStack[i] == old(s.errorStack[i])
  ensures [shifts] old(len(s.errorStack)) == 10 ==> forall i int :: 0 <= i && i < 9 ==> s.errorStack[i] == old(s.errorStack[i + 1])

func (*errorReporter).PushCritical(s, err) (r)
  props C23
  requires repOk(s)
  modifies s.errorStack, s.errorStack[*], s.ratelimiter, s.critical
  ensures [critical] s.critical
  ensures [bounded] len(s.errorStack) <= 10 && len(s.errorStack) >= 1
  ensures [count] len(s.errorStack) == (old(len(s.errorStack)) < 10 ? old(len(s.errorStack)) + 1 : 10)
  ensures [last] s.errorStack[len(s.errorStack) - 1] == r
  ensures [keeps] old(len(s.errorStack)) < 10 ==> forall i int :: 0 <= i && i < old(len(s.errorStack)) ==> s.errorStack[i] == old(s.errorStack[i])
  ensures [shifts] old(len(s.errorStack)) == 10 ==> forall i int :: 0 <= i && i < 9 ==> s.errorStack[i] == old(s.errorStack[i + 1])

func (*errorReporter).PushCriticalError(s, msg) (r)
  props C23
  requires repOk(s)
  modifies s.errorStack, s.errorStack[*], s.ratelimiter, s.critical
  ensures [critical] s.critical
  ensures [bounded] len(s.errorStack) <= 10 && len(s.errorStack) >= 1
  ensures [count] len(s.errorStack) == (old(len(s.errorStack)) < 10 ? old(len(s.errorStack)) + 1 : 10)
  ensures [last] s.errorStack[len(s.errorStack) - 1] == r
  ensures [keeps] old(len(s.errorStack)) < 10 ==> forall i int :: 0 <= i && i < old(len(s.errorStack)) ==> s.errorStack[i] == old(s.errorStack[i])
  ensures [shifts] old(len(s.errorStack)) == 10 ==> forall i int :: 0 <= i && i < 9 ==> s.errorStack[i] == old(s.errorStack[i + 1])

func (*errorReporter).PushCriticalErrorf(s, format, a) (r)
  props C23
  requires repOk(s)
  modifies s.errorStack, s.errorStack[*], s.ratelimiter, s.critical
  ensures [critical] s.critical
  ensures [bounded] len(s.errorStack) <= 10 && len(s.errorStack) >= 1
  ensures [count] len(s.errorStack) == (old(len(s.errorStack)) < 10 ? old(len(s.errorStack)) + 1 : 10)
  ensures [last] s.errorStack[len(s.errorStack) - 1] == r
  ensures [keeps] old(len(s.errorStack)) < 10 ==> forall i int :: 0 <= i && i < old(len(s.errorStack)) ==> s.errorStack[i] == old(s.errorStack[i])
  ensures [shifts] old(len(s.errorStack)) == 10 ==> forall i int :: 0 <= i && i < 9 ==> s.errorStack[i] == old(s.errorStack[i + 1])

func (*errorReporter).Pop(s) ()
  props C23
  requires s != nil
  modifies s.errorStack
  ensures [count] len(s.errorStack) == (old(len(s.errorStack)) == 0 ? 0 : old(len(s.errorStack)) - 1)
  ensures [keeps] forall i int :: 0 <= i && i < len(s.errorStack) ==> s.errorStack[i] == old(s.errorStack[i])

func (*errorReporter).Top(s) (r)
  props C23
  requires s != nil
  ensures [last] r == (len(s.errorStack) == 0 ? nil : s.errorStack[len(s.errorStack) - 1])

func (*errorReporter).Report(s) (r)
  props C23
  requires s != nil
  ensures [count] len(r) == len(s.errorStack)
  ensures [order] forall i int :: 0 <= i && i < len(r) ==> r[i] == shown(errText(s.errorStack[i]))
  loop 1
    var errs []string
    invariant len(errs) == $n && (cap(errs) == 0 || fresh(errs))
    invariant forall i int :: {errs[i]} 0 <= i && i < len(errs) ==> errs[i] == shown(errText(s.errorStack[i]))

func (*DeclarativeController).GetStatus(c, gen) (r)
  props C23
  requires c != nil && c.errorReporter != nil
  ensures [named] r.Name == c.name
  ensures [one-condition] len(r.Conditions) == 1 && r.Conditions[0].Type == "Ready" && r.Conditions[0].ObservedGeneration == gen
  ensures [ready] (r.Conditions[0].Status == "True") == (len(c.errorReporter.errorStack) == 0)
  ensures [not-ready] (r.Conditions[0].Status == "False") == (len(c.errorReporter.errorStack) > 0 && c.errorReporter.critical)
  ensures [unknown] (r.Conditions[0].Status == "Unknown") == (len(c.errorReporter.errorStack) > 0 && !c.errorReporter.critical)
  ensures [errors] len(r.LastErrors) == len(c.errorReporter.errorStack) && forall i int :: 0 <= i && i < len(r.LastErrors) ==> r.LastErrors[i] == shown(errText(c.errorReporter.errorStack[i]))

func (*DeclarativeController).GetName(c) (r)
  props C23
  requires c != nil
  ensures [named] r == c.name

func (*NativeController).GetStatus(c, gen) (r)
  props C23
  requires c != nil
  ensures [named] r.Name == c.name
  ensures [ready] len(r.Conditions) == 1 && r.Conditions[0].Type == "Ready" && r.Conditions[0].Status == "True" && r.Conditions[0].ObservedGeneration == gen
  ensures [no-errors] len(r.LastErrors) == 0

func (*NativeController).GetGVKs(c) (r)
  props C23
  requires c != nil
  ensures [kinds] r == c.gvks

def rOk(c *DeclarativeController) bool = c != nil && repOk(c.errorReporter) && c.target != nil && c.pipeline != nil
def recorded(c *DeclarativeController, n int, err error) bool = len(c.errorReporter.errorStack) == (err == nil ? n : (n < 10 ? n + 1 : 10))

iface github.com/l7mp/dcontroller/pkg/pipeline.Evaluator.Evaluate(p, d) (r, e)
iface github.com/l7mp/dcontroller/pkg/pipeline.Evaluator.Sync(p) (r, e)
iface github.com/l7mp/dcontroller/pkg/reconciler.Target.Write(t, ctx, d, o) (e)
iface github.com/l7mp/dcontroller/pkg/reconciler.Target.String(t) (r)

func (*IncrementalReconciler).Reconcile(r, ctx, req) (res, err)
  props C23
  requires r != nil && rOk(r.controller) && req.Object != nil && treeData(req.Object)
  modifies everything
  ensures [recorded] recorded(r.controller, old(len(r.controller.errorReporter.errorStack)), err)
  ensures [never-critical] r.controller.errorReporter.critical == old(r.controller.errorReporter.critical)
  loop 1
    invariant r.controller.errorReporter.errorStack == entry(r.controller.errorReporter.errorStack)

func (*StateOfTheWorldReconciler).Reconcile(r, ctx, req) (res, err)
  props C23
  requires r != nil && rOk(r.controller) && treeData(req.Object)
  modifies everything
  ensures [recorded] recorded(r.controller, old(len(r.controller.errorReporter.errorStack)), err)
  ensures [never-critical] r.controller.errorReporter.critical == old(r.controller.errorReporter.critical)
  loop 1
    invariant r.controller.errorReporter.errorStack == entry(r.controller.errorReporter.errorStack)

package github.com/l7mp/dcontroller/pkg/operator

// what a controller says of itself
uf ctlName(any) string
uf ctlGen(any, int) int
uf kindN(any) int
uf kindIdx(any, schema.GroupVersionKind) int
recdef kindOff(cs []github.com/l7mp/dcontroller/pkg/controller.Controller, n int) int = n <= 0 ? 0 : kindOff(cs, n - 1) + kindN(cs[n - 1])
recdef kindPos(cs []github.com/l7mp/dcontroller/pkg/controller.Controller, n int, g schema.GroupVersionKind) int = n <= 0 ? 0 - 1 : (hasKind(cs[n - 1], g) ? kindOff(cs, n - 1) + kindIdx(cs[n - 1], g) : kindPos(cs, n - 1, g))
uf hasKind(any, schema.GroupVersionKind) bool
recdef anyKind(cs []github.com/l7mp/dcontroller/pkg/controller.Controller, n int, g schema.GroupVersionKind) bool = n > 0 && (anyKind(cs, n - 1, g) || hasKind(cs[n - 1], g))

iface github.com/l7mp/dcontroller/pkg/controller.Controller.GetStatus(c, gen) (r)
  note a controller's status carries its name (proved for the two controller types)
  ensures r.Name == ctlName(c)
iface github.com/l7mp/dcontroller/pkg/controller.Controller.GetName(c) (r)
  ensures r == ctlName(c)
iface github.com/l7mp/dcontroller/pkg/controller.Controller.GetGVKs(c) (r)
  ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> hasKind(c, r[i])
  ensures len(r) == kindN(c)
  ensures forall g schema.GroupVersionKind :: {hasKind(c, g)} hasKind(c, g) ==> 0 <= kindIdx(c, g) && kindIdx(c, g) < len(r) && r[kindIdx(c, g)] == g

func (*Operator).GetStatus(op, gen) (r)
  props C23
  requires op != nil
  requires forall i int :: {op.controllers[i]} 0 <= i && i < len(op.controllers) ==> op.controllers[i] != nil
  ensures [every] len(r.Controllers) == len(op.controllers)
  ensures [order] forall i int :: {r.Controllers[i]} 0 <= i && i < len(r.Controllers) ==> r.Controllers[i].Name == ctlName(op.controllers[i])
  loop 1
    var cs []github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1.ControllerStatus
    invariant len(cs) == $n && (cap(cs) == 0 || fresh(cs))
    invariant forall i int :: {cs[i]} 0 <= i && i < len(cs) ==> cs[i].Name == ctlName(op.controllers[i])

func (*Operator).GetController(op, name) (r)
  props C23
  requires op != nil
  requires forall i int :: {op.controllers[i]} 0 <= i && i < len(op.controllers) ==> op.controllers[i] != nil
  ensures [named] r != nil ==> ctlName(r) == name
  ensures [none] r == nil ==> forall i int :: {op.controllers[i]} 0 <= i && i < len(op.controllers) ==> ctlName(op.controllers[i]) != name
  loop 1
    invariant forall i int :: {op.controllers[i]} 0 <= i && i < $n ==> ctlName(op.controllers[i]) != name

def own(op *Operator, g schema.GroupVersionKind) bool = g.Group == groupOf(op.name)

func (*Operator).GetGVKs(op) (r)
  props C23
  requires op != nil
  requires forall i int :: {op.controllers[i]} 0 <= i && i < len(op.controllers) ==> op.controllers[i] != nil
  ensures [own] forall i int :: {r[i]} 0 <= i && i < len(r) ==> own(op, r[i]) && anyKind(op.controllers, len(op.controllers), r[i])
  ensures [once] forall i, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  ensures [every] forall g schema.GroupVersionKind :: {anyKind(op.controllers, len(op.controllers), g)} own(op, g) && anyKind(op.controllers, len(op.controllers), g) ==> exists i int :: {r[i]} 0 <= i && i < len(r) && r[i] == g
  loop 1
    var gvks []schema.GroupVersionKind
    invariant cap(gvks) == 0 || fresh(gvks)
    invariant forall i int :: {gvks[i]} 0 <= i && i < len(gvks) ==> anyKind(op.controllers, $n, gvks[i])
    invariant len(gvks) == kindOff(op.controllers, $n)
    invariant forall g schema.GroupVersionKind :: {anyKind(op.controllers, $n, g)} anyKind(op.controllers, $n, g) ==> 0 <= kindPos(op.controllers, $n, g) && kindPos(op.controllers, $n, g) < len(gvks) && gvks[kindPos(op.controllers, $n, g)] == g
  loop 2
    var gvks []schema.GroupVersionKind
    var ret []schema.GroupVersionKind
    var set map[schema.GroupVersionKind]bool
    invariant (cap(ret) == 0 || fresh(ret)) && (ref(ret) != ref(gvks) || cap(ret) == 0)
    invariant forall i int :: {ret[i]} 0 <= i && i < len(ret) ==> own(op, ret[i]) && set[ret[i]] && anyKind(op.controllers, len(op.controllers), ret[i])
    invariant forall g schema.GroupVersionKind :: {set[g]} set[g] ==> exists i int :: {ret[i]} 0 <= i && i < len(ret) && ret[i] == g
    invariant forall i, j int :: {ret[i], ret[j]} 0 <= i && i < j && j < len(ret) ==> ret[i] != ret[j]
    invariant forall i int :: {gvks[i]} 0 <= i && i < len(gvks) ==> gvks[i] == entry(gvks[i])
    invariant forall i int :: {gvks[i]} 0 <= i && i < $n && own(op, gvks[i]) ==> set[gvks[i]]
