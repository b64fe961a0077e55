package github.com/l7mp/dcontroller/pkg/dbsp

// ---- chain graphs (C08): every listed node exists
def listed(g *ChainGraph) bool = g != nil && g.nodes != nil && g.inputIdx != nil &&
   (forall i int :: {g.chain[i]} 0 <= i && i < len(g.chain) ==> g.chain[i] in dom(g.nodes) && g.nodes[g.chain[i]] != nil) &&
   (forall i int :: {g.inputs[i]} 0 <= i && i < len(g.inputs) ==> g.inputs[i] in dom(g.nodes) && g.nodes[g.inputs[i]] != nil && g.inputs[i] in dom(g.inputIdx)) &&
   (g.joinNode != "" ==> g.joinNode in dom(g.nodes) && g.nodes[g.joinNode] != nil)
def outputOk(g *ChainGraph) bool = (len(g.chain) > 0 ==> g.output == g.chain[len(g.chain) - 1]) && (g.output != "" ==> g.output in dom(g.nodes))

func NewChainGraph() (g)
  props C08
  ensures [empty] listed(g) && outputOk(g) && fresh(g) && len(g.chain) == 0 && len(g.inputs) == 0 && g.joinNode == "" && g.output == ""

func (*ChainGraph).Arity(g) (n)
  props C08
  ensures [inputs] n == len(g.inputs)

func (*ChainGraph).GetStartNode(g) (id)
  props C08
  requires listed(g)
  ensures [exists] id != "" ==> id in dom(g.nodes)
  ensures [choice] id == (g.joinNode != "" ? g.joinNode : len(g.inputs) > 0 ? g.inputs[0] : "")

func (*ChainGraph).AddToChain(g, op) (id)
  props C08
  requires listed(g) && ref(g.chain) != ref(g.inputs)
  modifies g.nextID, g.chain, g.output, g.nodes[*], g.chain[*]
  ensures [listed] listed(g) && outputOk(g)
  ensures [appended] len(g.chain) == old(len(g.chain)) + 1 && g.chain[old(len(g.chain))] == id && g.nodes[id].Op == op && !g.nodes[id].Lifted
  ensures [order] forall i int :: {g.chain[i]} 0 <= i && i < old(len(g.chain)) ==> g.chain[i] == old(g.chain[i])

func (*ChainGraph).SetJoin(g, op) (id)
  props C08
  requires listed(g) && outputOk(g)
  modifies g.nextID, g.joinNode, g.output, g.nodes[*]
  ensures [listed] listed(g) && outputOk(g)
  ensures [join] g.joinNode == id && g.nodes[id].Op == op

func (*ChainGraph).GetChain(g) (ops)
  props C08
  requires listed(g)
  ensures [complete] len(ops) == len(g.chain) && forall i int :: {ops[i]} 0 <= i && i < len(ops) ==> ops[i] == g.nodes[g.chain[i]].Op
  loop 1
    var ret []Operator
    invariant len(ret) == len(g.chain) && fresh(ret)
    invariant forall i int :: {ret[i]} 0 <= i && i < $n ==> ret[i] == g.nodes[g.chain[i]].Op

func (*ChainGraph).Validate(g) (err)
  props C08
  requires listed(g) && outputOk(g)
  modifies g.output
  ensures [valid] (err == nil) == (len(g.inputs) > 0 && (len(g.inputs) == 1 || g.joinNode != ""))
  ensures [listed] listed(g) && outputOk(g)
  ensures [output] err == nil ==> g.output != "" || g.inputs[0] == "" || (len(g.chain) > 0 && g.chain[len(g.chain) - 1] == "")

func (*ChainGraph).ReplaceInChain(g, index, ops) ()
  props C08
  requires listed(g) && outputOk(g)
  requires forall i int :: {g.chain[i]} 0 <= i && i < len(g.chain) && i != index && 0 <= index && index < len(g.chain) ==> g.chain[i] != g.chain[index]
  requires 0 <= index && index < len(g.chain) ==> g.joinNode != g.chain[index] && forall i int :: {g.inputs[i]} 0 <= i && i < len(g.inputs) ==> g.inputs[i] != g.chain[index]
  modifies g.nextID, g.chain, g.output, g.nodes[*]
  ensures [after] 0 <= index && index < old(len(g.chain)) ==> forall i int :: {g.chain[i]} index + len(ops) <= i && i < len(g.chain) ==> g.chain[i] == old(g.chain)[i + 1 - len(ops)]
  hint 0 <= index && index < old(len(g.chain)) ==> forall i int :: {old(g.chain)[i]} index < i && i < old(len(g.chain)) ==> old(g.chain)[i] in dom(g.nodes) && g.nodes[old(g.chain)[i]] != nil
  hint 0 <= index && index < old(len(g.chain)) ==> forall i int :: {g.chain[i]} index + len(ops) <= i && i < len(g.chain) ==> g.chain[i] == old(g.chain)[i + 1 - len(ops)]
  ensures [inserted] 0 <= index && index < old(len(g.chain)) ==> forall i int :: {g.chain[i]} index <= i && i < index + len(ops) ==> g.chain[i] in dom(g.nodes) && g.nodes[g.chain[i]] != nil
  ensures [kept] 0 <= index && index < old(len(g.chain)) ==> forall i int :: {g.chain[i]} index + len(ops) <= i && i < len(g.chain) ==> g.chain[i] in dom(g.nodes) && g.nodes[g.chain[i]] != nil
  ensures [kept] 0 <= index && index < old(len(g.chain)) ==> forall i int :: {g.chain[i]} 0 <= i && i < index ==> g.chain[i] in dom(g.nodes) && g.nodes[g.chain[i]] != nil
  ensures [inputs] forall i int :: {g.inputs[i]} 0 <= i && i < len(g.inputs) ==> g.inputs[i] in dom(g.nodes) && g.nodes[g.inputs[i]] != nil
  ensures [join] g.joinNode != "" ==> g.joinNode in dom(g.nodes) && g.nodes[g.joinNode] != nil
  ensures [output] len(g.chain) > 0 ==> g.output == g.chain[len(g.chain) - 1]
  ensures [length] 0 <= index && index < old(len(g.chain)) ==> len(g.chain) == old(len(g.chain)) - 1 + len(ops)
  ensures [outside] index < 0 || index >= old(len(g.chain)) ==> g.chain == old(g.chain) && unchanged(g.nodes)
  ensures [before] 0 <= index && index < old(len(g.chain)) ==> forall i int :: {g.chain[i]} 0 <= i && i < index ==> g.chain[i] == old(g.chain[i])
  loop 1
    var newIDs []string
    invariant len(newIDs) == len(ops) && fresh(newIDs)
    invariant forall i int :: {newIDs[i]} 0 <= i && i < $n ==> newIDs[i] in dom(g.nodes) && g.nodes[newIDs[i]] != nil
    invariant forall i int :: {g.chain[i]} 0 <= i && i < len(g.chain) && i != index ==> g.chain[i] in dom(g.nodes) && g.nodes[g.chain[i]] != nil
    invariant forall i int :: {g.inputs[i]} 0 <= i && i < len(g.inputs) ==> g.inputs[i] in dom(g.nodes) && g.nodes[g.inputs[i]] != nil
    invariant g.joinNode != "" ==> g.joinNode in dom(g.nodes) && g.nodes[g.joinNode] != nil

// ---- rewrite rules: when they apply
def opAt(g *ChainGraph, i int) Operator = g.nodes[g.chain[i]].Op

func (*IntegrationDifferentiationEliminationRule).CanApply(r, graph) (b)
  props C08
  requires listed(graph)
  ensures [pattern] b == (exists i int :: {graph.chain[i]} 0 <= i && i + 1 < len(graph.chain) && typeis(opAt(graph, i), `*IntegratorOp`) && typeis(opAt(graph, i + 1), `*DifferentiatorOp`))
  loop 1
    var i int
    invariant 0 <= i
    invariant forall j int :: {graph.chain[j]} 0 <= j && j < i ==> !(typeis(opAt(graph, j), `*IntegratorOp`) && typeis(opAt(graph, j + 1), `*DifferentiatorOp`))

func (*DistinctOptimizationRule).CanApply(r, graph) (b)
  props C08
  requires listed(graph)
  ensures [pattern] b == (exists i int :: {graph.chain[i]} 0 <= i && i + 1 < len(graph.chain) && typeis(opAt(graph, i), `*DistinctOp`) && typeis(opAt(graph, i + 1), `*DistinctOp`))
  loop 1
    var i int
    invariant 0 <= i
    invariant forall j int :: {graph.chain[j]} 0 <= j && j < i ==> !(typeis(opAt(graph, j), `*DistinctOp`) && typeis(opAt(graph, j + 1), `*DistinctOp`))

func (*LinearOperatorFusionRule).hasProjectThenSelect(r, graph) (b)
  props C08
  requires listed(graph)
  ensures [pattern] b == (exists i int :: {graph.chain[i]} 0 <= i && i + 1 < len(graph.chain) && typeis(opAt(graph, i), `*ProjectionOp`) && typeis(opAt(graph, i + 1), `*SelectionOp`))
  loop 1
    var i int
    invariant 0 <= i
    invariant forall j int :: {graph.chain[j]} 0 <= j && j < i ==> !(typeis(opAt(graph, j), `*ProjectionOp`) && typeis(opAt(graph, j + 1), `*SelectionOp`))

func (*LinearOperatorFusionRule).hasSelectionThenProjections(r, graph) (b)
  props C08
  requires listed(graph)
  ensures [pattern] b == (exists i int :: {graph.chain[i]} 0 <= i && i + 1 < len(graph.chain) && typeis(opAt(graph, i), `*SelectionOp`) && typeis(opAt(graph, i + 1), `*ProjectionOp`))
  loop 1
    var i int
    invariant 0 <= i
    invariant forall j int :: {graph.chain[j]} 0 <= j && j < i && j + 1 < len(graph.chain) ==> !(typeis(opAt(graph, j), `*SelectionOp`) && typeis(opAt(graph, j + 1), `*ProjectionOp`))
  loop 2
    var i int
    var j int
    var projCount int
    invariant i + 1 <= j && projCount >= 0 && (j > i + 1 ==> projCount > 0) && (projCount > 0 ==> j > i + 1 && i + 1 < len(graph.chain) && typeis(opAt(graph, i + 1), `*ProjectionOp`))

func (*LinearOperatorFusionRule).updateOutput(r, graph) ()
  props C08
  requires graph != nil
  modifies graph.output
  ensures [output] graph.output == (len(graph.chain) > 0 ? graph.chain[len(graph.chain) - 1] : graph.joinNode != "" ? graph.joinNode : old(graph.output))

def distinctIds(g *ChainGraph) bool = forall i int, j int :: {g.chain[i], g.chain[j]} 0 <= i && i < j && j < len(g.chain) ==> g.chain[i] != g.chain[j]
def chainListed(g *ChainGraph, ids []string, from int) bool = forall i int :: {ids[i]} from <= i && i < len(ids) ==> ids[i] in dom(g.nodes) && g.nodes[ids[i]] != nil
def apart(g *ChainGraph) bool = distinctIds(g) && (forall i int, j int :: {g.chain[i], g.inputs[j]} 0 <= i && i < len(g.chain) && 0 <= j && j < len(g.inputs) ==> g.chain[i] != g.inputs[j]) && (forall i int :: {g.chain[i]} 0 <= i && i < len(g.chain) ==> g.chain[i] != g.joinNode)

func (*IntegrationDifferentiationEliminationRule).Apply(r, graph) (err)
  props C08
  requires listed(graph) && apart(graph)
  modifies graph.chain, graph.output, graph.nodes[*]
  ensures [total] err == nil
  ensures [chain-listed] chainListed(graph, graph.chain, 0)
  ensures [inputs-listed] forall i int :: {graph.inputs[i]} 0 <= i && i < len(graph.inputs) ==> graph.inputs[i] in dom(graph.nodes) && graph.nodes[graph.inputs[i]] != nil
  ensures [join-listed] graph.joinNode != "" ==> graph.joinNode in dom(graph.nodes)
  ensures [output] len(graph.chain) > 0 ==> graph.output == graph.chain[len(graph.chain) - 1]
  loop 1
    var newChain []string
    var i int
    invariant 0 <= i && i <= len(graph.chain) && fresh(newChain)
    invariant graph.chain == old(graph.chain)
    invariant chainListed(graph, graph.chain, i)
    invariant chainListed(graph, newChain, 0)
    invariant forall k int, j int :: {newChain[k], graph.chain[j]} 0 <= k && k < len(newChain) && i <= j && j < len(graph.chain) ==> newChain[k] != graph.chain[j]
    invariant forall i int :: {graph.inputs[i]} 0 <= i && i < len(graph.inputs) ==> graph.inputs[i] in dom(graph.nodes) && graph.nodes[graph.inputs[i]] != nil
    invariant graph.joinNode != "" ==> graph.joinNode in dom(graph.nodes)

func (*DistinctOptimizationRule).Apply(r, graph) (err)
  props C08
  requires listed(graph) && apart(graph)
  modifies graph.chain, graph.output, graph.nodes[*]
  ensures [total] err == nil
  ensures [chain-listed] chainListed(graph, graph.chain, 0)
  ensures [inputs-listed] forall i int :: {graph.inputs[i]} 0 <= i && i < len(graph.inputs) ==> graph.inputs[i] in dom(graph.nodes) && graph.nodes[graph.inputs[i]] != nil
  ensures [join-listed] graph.joinNode != "" ==> graph.joinNode in dom(graph.nodes)
  ensures [output] len(graph.chain) > 0 ==> graph.output == graph.chain[len(graph.chain) - 1]
  loop 1
    var newChain []string
    var i int
    invariant 0 <= i && i <= len(graph.chain) && fresh(newChain)
    invariant graph.chain == old(graph.chain)
    invariant chainListed(graph, graph.chain, i)
    invariant chainListed(graph, newChain, 0)
    invariant forall k int, j int :: {newChain[k], graph.chain[j]} 0 <= k && k < len(newChain) && i <= j && j < len(graph.chain) ==> newChain[k] != graph.chain[j]
    invariant forall i int :: {graph.inputs[i]} 0 <= i && i < len(graph.inputs) ==> graph.inputs[i] in dom(graph.nodes) && graph.nodes[graph.inputs[i]] != nil
    invariant graph.joinNode != "" ==> graph.joinNode in dom(graph.nodes)

func (*LinearOperatorFusionRule).fuseProjectThenSelect(r, graph) (err)
  props C08
  requires listed(graph) && apart(graph)
  requires forall a string, b string :: {graph.nodes[a], graph.nodes[b]} a in dom(graph.nodes) && b in dom(graph.nodes) && a != b ==> graph.nodes[a] != graph.nodes[b]
  modifies graph.chain, graph.output, graph.nodes[*], anyof(`GraphNode#Op`)
  ensures [total] err == nil
  ensures [chain-listed] chainListed(graph, graph.chain, 0)
  ensures [inputs-listed] forall i int :: {graph.inputs[i]} 0 <= i && i < len(graph.inputs) ==> graph.inputs[i] in dom(graph.nodes) && graph.nodes[graph.inputs[i]] != nil
  ensures [join-listed] graph.joinNode != "" ==> graph.joinNode in dom(graph.nodes)
  ensures [output] len(graph.chain) > 0 ==> graph.output == graph.chain[len(graph.chain) - 1]
  loop 1
    var newChain []string
    var i int
    invariant 0 <= i && i <= len(graph.chain) && fresh(newChain)
    invariant graph.chain == old(graph.chain)
    invariant chainListed(graph, graph.chain, i)
    invariant chainListed(graph, newChain, 0)
    invariant forall k int, j int :: {newChain[k], graph.chain[j]} 0 <= k && k < len(newChain) && i <= j && j < len(graph.chain) ==> newChain[k] != graph.chain[j]
    invariant forall i int :: {graph.inputs[i]} 0 <= i && i < len(graph.inputs) ==> graph.inputs[i] in dom(graph.nodes) && graph.nodes[graph.inputs[i]] != nil
    invariant graph.joinNode != "" ==> graph.joinNode in dom(graph.nodes)
