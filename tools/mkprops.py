#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that ids, anchors and texts stay in step).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p("C01","Z-set algebra is pointwise integer arithmetic on document multiplicities",
 "Adding, subtracting and negating weighted document collections gives, for every document, exactly the sum, difference or negation of its multiplicities, and folding one document in with a signed count adds that count to that document and to no other. A document whose multiplicity becomes zero is no longer present at all, and the operands are left unmodified by the non-mutating operations.",
 ["inputs","histories"],"all document collections (any number of documents, any signed multiplicities) and all sequences of operations on them",
 "The unit tests add and subtract a handful of two- or three-element collections; they cannot cover every mix of signs, overlaps and cancellations nor every later use of a collection built by earlier operations.",
 ["pkg/dbsp/zset.go","pkg/dbsp/document.go"],
 [("pointwise merge with zero elimination","pkg/dbsp/zset.go: Add, Subtract, AddDocument, AddDocumentMutate"),("negation operator","pkg/dbsp/op_misc.go")])
p("C02","Z-set observers agree with the multiplicities",
 "Distinct keeps exactly the documents of positive multiplicity, each once, and unique keeps every present document once; emptiness, membership, multiplicity lookup, the document lists and the three size measures report exactly what the signed multiplicities say (positive count, number of different documents, sum of positive counts or of absolute counts as documented). No observer changes what it observes, and a shallow or deep copy is indistinguishable from the original.",
 ["inputs"],"all document collections with any signed multiplicities",
 "Tests look at small, mostly positive collections; an observer that is wrong only for negative or mixed multiplicities, or only once several documents are present, passes them.",
 ["pkg/dbsp/zset.go"],
 [("observers over the two parallel maps","pkg/dbsp/zset.go: Distinct, Unique, IsZero, Size, TotalSize, UniqueCount, GetDocuments, GetUniqueDocuments, List, GetMultiplicity, Contains")])
p("C03","Documents are identified by content, and copies never alias",
 "Two documents are the same element of a collection exactly when they are structurally equal JSON-like values, regardless of map key order, of which copy is used, or of which Go integer or float type carries a number of the same value. A deep copy of a document or value is structurally equal to the original and shares no mutable part with it, so that no later write to either is visible through the other.",
 ["inputs"],"all JSON-like values (nested maps, lists, strings, numbers, booleans, nulls) of any depth",
 "Tests compare a few flat documents; aliasing or a key collision shows only for particular nesting shapes or value types.",
 ["pkg/dbsp/document.go","pkg/object/utils.go"],
 [("canonical key","pkg/dbsp/document.go: computeJSONKey, toCanonicalForm"),("deep copies","pkg/dbsp/document.go, pkg/object/utils.go: DeepCopyAny")])
p("C04","Selection, projection and unwind are linear, and fusing them changes nothing",
 "Each per-document operator's output is, for every result document, the sum over the input documents of input multiplicity times how often that document produces the result, so that processing a sum of changes equals summing the processed changes. Running a fused sequence of operators gives the same result as running its members one after the other, and any evaluation error is reported instead of a partial result.",
 ["inputs","programs"],"all collections with signed multiplicities, all per-document functions (including ones that map several inputs to one output or that fail), all fused sequences",
 "Tests run few documents of multiplicity one through one function; merging of outputs, negative counts, and error paths in the middle of a collection are not covered.",
 ["pkg/dbsp/op_linear.go","pkg/dbsp/fused_op.go"],
 [("per-document accumulation","pkg/dbsp/op_linear.go: Process"),("fusion","pkg/dbsp/fused_op.go")])
p("C05","Incremental joins equal the change of the snapshot join",
 "After any history of input changes, the accumulated output of an incremental binary or n-way join equals the snapshot join of the accumulated inputs: for every combination of documents accepted by the join condition the product of their multiplicities, and nothing else. In particular the order in which changes to the different inputs arrive does not change the accumulated result.",
 ["inputs","histories"],"all numbers of inputs, all join conditions, all sequences of signed changes to the inputs, changes arriving on several inputs at once included",
 "Tests feed short, mostly insert-only sequences to two- and three-way joins; missing or doubled cross terms show only when several inputs change in one step or when deletions meet earlier insertions.",
 ["pkg/dbsp/op_bilinear.go"],
 [("expansion over non-empty subsets of changed inputs","pkg/dbsp/op_bilinear.go: IncrementalJoinOp, IncrementalBinaryJoinOp"),("snapshot join","pkg/dbsp/op_bilinear.go: JoinOp, BinaryJoinOp")])
p("C06","Stream operators keep exact state: integrate, differentiate, delay, reset",
 "The integrator emits the running sum of its inputs, the differentiator the difference between its current and previous input, and the delay its previous input (initially empty), so differentiating the integral gives back every input. What an operator has emitted or received is never altered by later steps, and after a reset a stateful operator behaves as if new.",
 ["histories"],"all sequences of collections with signed multiplicities, resets at any point",
 "Tests check one or two steps; state that leaks through sharing, survives a reset or is updated in the wrong order shows only in longer histories.",
 ["pkg/dbsp/op_misc.go","pkg/dbsp/executor.go","pkg/dbsp/op_bilinear.go","pkg/dbsp/op_nonlinear.go"],
 [("state update per step","pkg/dbsp/op_misc.go: IntegratorOp, DifferentiatorOp, DelayOp"),("reset","pkg/dbsp/executor.go: Reset")])
p("C07","Distinct and gather are computed correctly from accumulated input",
 "The incremental distinct operator's accumulated output is, at every step, exactly the set of documents whose accumulated multiplicity is positive. Gather emits one document per group key, whose collected list holds exactly the values of that group's documents with their multiplicities, and emits nothing for an empty group.",
 ["inputs","histories"],"all collections, all group keys, all histories of insertions and deletions",
 "Tests step through a few transitions; the sign changes around zero (-1 to 2, 2 to 0, 0 to -1) and groups that empty and refill are only sampled.",
 ["pkg/dbsp/op_nonlinear.go"],
 [("incremental distinct","pkg/dbsp/op_nonlinear.go"),("gather","pkg/dbsp/op_nonlinear.go: GatherOp")])
p("C08","Optimised incremental execution equals snapshot execution",
 "For every supported operator chain and every history of input changes, the accumulated output of the optimised, incrementalised chain equals the output of the plain chain on the accumulated inputs. Rewriting keeps the chain well formed: its inputs and its output stay, and every listed node exists.",
 ["programs","histories"],"all chains buildable from the offered operators (one or more inputs joined first) and all sequences of signed input changes",
 "Tests fix a few chains and compare a few steps; a wrong rewrite shows only for particular operator orders or particular change histories.",
 ["pkg/dbsp/rewrite_engine.go","pkg/dbsp/chain.go","pkg/dbsp/executor.go","pkg/dbsp/graph_converter.go"],
 [("rewrite rules","pkg/dbsp/rewrite_engine.go"),("chain editing","pkg/dbsp/chain.go"),("execution","pkg/dbsp/executor.go")])
p("C09","Source changes are turned into exact multiset differences",
 "After any sequence of add, update, replace, upsert and delete events on source objects, the accumulated emitted changes hold exactly the latest version of every live object once, provided each object is added only when absent. An update removes the version seen before and inserts the new one, a delete of an unknown object is an error, and no event disturbs the record of another object.",
 ["histories","inputs"],"all event sequences over any number of source kinds and objects, with arbitrary object contents, repeated and no-op updates included",
 "Tests replay a few scripted event lists; a stale or doubled version shows only after particular orders of updates and deletes of the same object.",
 ["pkg/pipeline/zset_adaptor.go","pkg/pipeline/pipeline.go"],
 [("source cache","pkg/pipeline/zset_adaptor.go: ConvertDeltaToZSet")])
p("C10","Emitted results are reconciled against the current target contents",
 "Given the pipeline's output changes, a delete is emitted only for an object that is present in the target view and is not re-created in the same batch, an object that is both removed and created is emitted as one upsert, a net-negative change of an absent object is dropped, and all deletes come before all upserts. The pipeline's record of the target always equals the result of applying everything it has emitted, and every emitted object carries the target kind and a valid name.",
 ["inputs","histories"],"all batches of positive and negative result changes against all prior target contents",
 "Tests cover single adds, deletes and one replacement; batches mixing several objects, repeated keys and objects already gone are only sampled.",
 ["pkg/pipeline/zset_adaptor.go","pkg/pipeline/pipeline.go"],
 [("per-key reconciliation table","pkg/pipeline/zset_adaptor.go: Reconcile"),("conversion of results","pkg/pipeline/zset_adaptor.go: ConvertZSetToDelta")])
p("C11","Logical and conditional expressions have two-valued, lazy, dual semantics",
 "Conjunction, disjunction and negation of boolean expressions follow boolean logic and stop at the first deciding argument; the conditional returns its second argument when the condition is true and the third otherwise without evaluating the other; a switch returns the action of the first true case and null when none is true; a default is used exactly when the first value is null. The list quantifiers any, all and none are true exactly when some, every or no element satisfies the condition, on the empty list false, true and true.",
 ["inputs","programs"],"all boolean expressions of any arity and nesting, all subjects, all lists",
 "Tests evaluate fixed expressions; an operator that is wrong for one arity, for the empty list or in which argument it stops at passes them.",
 ["pkg/expression/expression.go"],
 [("operator dispatch","pkg/expression/expression.go: Evaluate")])
p("C12","Comparison and arithmetic expressions agree with the numbers they get",
 "Less-than, at-most, greater-than, at-least on numbers agree with the numeric order, also when integers and floats are mixed, and equality is structural equality; addition, subtraction, multiplication, division, sum, minimum and maximum return the mathematical result (integer when every argument is an integer, floating point otherwise) and ranges list every integer from the start up to but excluding the end. Arguments of the wrong type or number give an error and never a result.",
 ["inputs"],"all integers and floats, all argument lists of any length",
 "Tests use a few literal pairs; sign, order, mixed-type and boundary cases are only sampled.",
 ["pkg/expression/expression.go","pkg/expression/converter.go"],
 [("typed argument extraction","pkg/expression/converter.go"),("numeric operators","pkg/expression/expression.go")])
p("C13","List and conversion expressions are exact, and evaluation is deterministic",
 "Map applies its expression to every element in order, filter keeps exactly the satisfying elements in order, membership is true exactly when an equal element is present, and length, concatenation and type conversions return the value documented for their argument. Except for the explicit clock and random operators, evaluating the same expression on the same subject always gives the same result, modifies neither the subject nor the expression, and reports malformed use as an error instead of crashing.",
 ["inputs","programs"],"all expressions, all subjects, all lists of any length",
 "Tests evaluate fixed expressions on fixed objects; panics on unusual argument shapes and mutation of the subject are not looked for.",
 ["pkg/expression/expression.go","pkg/expression/converter.go","pkg/expression/literal.go"],
 [("list operators","pkg/expression/expression.go"),("conversions","pkg/expression/converter.go")])
p("C14","Path access laws: what is set is read back, and nothing else changes",
 "Reading a path that addresses an existing field returns exactly that field's value and reading a missing one gives null or an error, never another field's value. After setting a value at a plain field path, reading that path gives the value and every field outside the path is unchanged.",
 ["inputs"],"all documents and all plain field paths of any depth, missing intermediate levels included",
 "Tests set and read a few paths; overwriting of siblings or of intermediate levels shows only for particular document shapes.",
 ["pkg/expression/jsonpath.go"],
 [("getter and setter","pkg/expression/jsonpath.go: GetJSONPath, SetJSONPath")])
p("C15","Expressions survive serialisation unchanged",
 "Parsing an expression, writing it out and parsing it again gives an expression that evaluates identically, and every valid JSON document is either parsed into an expression or rejected with an error, never crashing the process. Copying an expression gives an independent expression of the same meaning.",
 ["inputs","programs"],"all JSON inputs and all expressions built from the documented operators and literals",
 "Tests round-trip a list of fixed expressions; an operator or literal form missing from the list may lose its meaning unnoticed.",
 ["pkg/expression/marshaler.go","pkg/expression/literal.go"],
 [("JSON codec","pkg/expression/marshaler.go")])
p("C16","Merging and patching keep what they must and change what they say",
 "Applying a patch to an object sets every value present in the patch, removes the fields the patch sets to null, keeps every other field, and neither modifies the patch nor the original; applying the same patch twice equals applying it once. Merging values joins maps recursively with the second one winning on conflicting leaves, and replacing an object's content leaves its identity (kind, namespace, name) intact.",
 ["inputs"],"all pairs of JSON-like object contents of any depth",
 "Tests patch a few objects; lost siblings, leaked aliases and nested removals depend on shapes the tests do not enumerate.",
 ["pkg/object/patch.go","pkg/object/utils.go","pkg/object/object.go"],
 [("recursive patch","pkg/object/patch.go"),("merge","pkg/object/utils.go: MergeAny"),("content replacement","pkg/object/object.go: SetContent")])
p("C17","Role-based access: a request is allowed only by a matching rule",
 "A request of a user who has rules is allowed only if one single rule covers its verb, its API group and its resource, and, for verbs that act on one named object, its object name where the rule lists names (list, watch, create and deletecollection ignore the names). A lone asterisk covers everything, an entry with an asterisk at one end covers exactly the values with that ending or beginning, any other entry covers only itself. A user whose token carries no rules at all has full access (documented); rules that cannot be decoded grant nothing. Adding a rule to a user's rules never takes access away, and the order of rules and entries does not matter.",
 ["inputs","configurations"],"all rule sets and all request attributes",
 "Tests try a table of a few rules and requests; an over-permissive match shows only for particular combinations of verb, group, resource and name.",
 ["pkg/auth/rbac.go","pkg/auth/authorizer.go"],
 [("rule matching","pkg/auth/rbac.go")])
p("C18","Namespace restrictions are never bypassed, and only valid tokens authenticate",
 "A user restricted to a list of namespaces is denied every namespaced request outside that list, including reads across all namespaces, no matter what the rules say, unless the list contains an asterisk, and a user without restriction is not denied for the namespace. A request is authenticated only by an unexpired bearer token signed with the configured key, and the identity, namespaces and rules of the authenticated user are exactly those the token was issued with.",
 ["inputs","configurations"],"all users, namespace lists, rules and request attributes; all tokens and header values",
 "Tests check a few users and one tampered token; a bypass needs a particular combination of empty namespace, verb and rule.",
 ["pkg/auth/authorizer.go","pkg/auth/authenticator.go","pkg/auth/token.go"],
 [("composite authorizer","pkg/auth/authorizer.go"),("token check","pkg/auth/authenticator.go")])
p("C19","The view store returns exactly what was written, as private copies",
 "After any sequence of creates, updates, patches and deletes of view objects, getting a name in a namespace returns the latest written content or not-found, and listing returns exactly the live objects of the requested kind that are in the requested namespace and match the requested selectors. Creating an existing object and updating or deleting a missing one are refused, and no object handed in or out shares memory with the store.",
 ["histories","inputs"],"all sequences of view operations over any kinds, namespaces, names and contents, all selectors",
 "Tests exercise single operations on one or two objects; leaks between kinds or namespaces and aliasing with the store depend on longer histories.",
 ["pkg/cache/view_cache.go","pkg/cache/view_client.go","pkg/cache/store.go"],
 [("per-kind indexers with deep copies","pkg/cache/view_cache.go"),("store","pkg/cache/store.go"),("client verbs","pkg/cache/view_client.go")])
p("C20","Every view change is announced once, with old and new content",
 "Every create, update and delete of a view object is delivered to each registered handler of that kind as exactly one add, update (carrying both versions) or delete event, in the order of the changes, and handlers registered later first receive the existing objects; handlers of other kinds and removed handlers receive nothing. An update that does not change the object announces nothing, and no handler can change the store or another handler's object through the object it receives.",
 ["histories"],"all sequences of view operations and handler registrations and removals",
 "Tests wait for a few events on one handler; double, missing or cross-kind deliveries need several handlers and particular registration times.",
 ["pkg/cache/view_cache.go","pkg/cache/view_cache_informer.go","pkg/cache/delegating_view_cache.go"],
 [("event triggers","pkg/cache/view_cache_informer.go: TriggerEvent")])
p("C21","Views and native resources are told apart correctly and routed accordingly",
 "A resource belongs to a view exactly when its API group ends in the view domain and it has the view version; the operator name, group, list-kind and resource-name mappings between views and their names are inverse to one another, and embedding a native kind into an operator's view group and back gives the same kind. Every cache and client operation on a view kind is served by the view store and every operation on any other kind by the native backend, with the caller's arguments unchanged.",
 ["inputs","configurations"],"all group/version/kind triples, operator names and operations",
 "Tests use one operator name and a few kinds; dotted groups, list kinds and near-miss group names are not covered.",
 ["pkg/api/view/v1alpha1/group_version.go","pkg/cache/view_discovery.go","pkg/cache/composite.go","pkg/cache/client.go","pkg/cache/view_restmapper.go"],
 [("group naming","pkg/api/view/v1alpha1/group_version.go"),("routing","pkg/cache/composite.go, pkg/cache/client.go")])
p("C22","Targets apply each result exactly as their type promises",
 "An updater target creates a missing object and otherwise replaces its whole content while merging labels and annotations and keeping the other metadata, and deletes the object on a delete. A patcher target merges the result into the existing object and on a delete removes only the fields the result names; unknown target types and change types are refused without touching anything.",
 ["inputs"],"all existing objects and all result objects and change types",
 "Tests write a few objects; lost metadata and over-broad removals depend on object shapes the tests do not enumerate.",
 ["pkg/reconciler/target.go","pkg/reconciler/ctrlutils.go"],
 [("update","pkg/reconciler/target.go: update, mergeMetadata"),("patch","pkg/reconciler/target.go: patch, removeNested"),("write","pkg/reconciler/ctrlutils.go")])
p("C23","Controller and operator status tell the truth about errors",
 "A controller reports ready exactly when no error has been recorded, not ready exactly when a critical error was recorded, and unknown otherwise; the reported errors are the most recent ones, oldest first, never more than the documented maximum, and each message is the original or its marked abbreviation. An operator's status lists every one of its controllers, and the kinds it exposes are exactly its own view kinds, each once.",
 ["histories"],"all sequences of reported errors and all controller sets",
 "Tests push a few errors; overflow of the bounded buffer and mixtures of critical and plain errors are only sampled.",
 ["pkg/controller/status_reporter.go","pkg/controller/declarative.go","pkg/operator/operator.go"],
 [("bounded error stack","pkg/controller/status_reporter.go"),("status","pkg/controller/declarative.go: GetStatus"),("exposed kinds","pkg/operator/operator.go: GetGVKs")])
p("C24","Label selectors and source predicates select exactly what they describe",
 "A label selector accepts an object exactly when every required label is present with the required value and every listed requirement (in, not-in, exists, does-not-exist) holds. Composite event predicates follow boolean logic over their parts, negation included, a namespace filter accepts exactly the objects of that namespace, and unknown or malformed predicates are rejected.",
 ["inputs","programs"],"all label sets and selectors, all nestings of and, or and not over the basic predicates",
 "Tests check single predicates; nested negations, empty lists and missing labels are only sampled.",
 ["pkg/expression/selector.go","pkg/predicate/predicate.go"],
 [("selector matching","pkg/expression/selector.go"),("predicate construction","pkg/predicate/predicate.go")])
p("C25","The extension API server's storage enforces kind, namespace and error contract",
 "Every object served or stored through the API carries the served kind, a namespaced request without a namespace is refused, creation happens in the request's namespace, and listing is restricted to that namespace and the given selectors. A missing object is reported as not found and an existing one as already existing, a failed validation prevents the write, and the tabular view has one row per object with as many cells as columns.",
 ["inputs","configurations"],"all request contexts, object contents, options and backend outcomes",
 "Tests call each verb once on a healthy backend; failing validations, missing namespaces and backend errors are hardly covered.",
 ["pkg/apiserver/storage.go"],
 [("delegating storage","pkg/apiserver/storage.go")])
p("C26","Object identity is deterministic, and secrets are decoded without loss",
 "The identifier given to an object depends only on its kind, namespace and name, and differs whenever one of these differs. Decoding the data of a secret replaces exactly the valid base64 values by what they decode to, leaves every other field and every object of another kind untouched.",
 ["inputs"],"all kinds, namespaces, names and object contents",
 "Tests compare a few identifiers and decode one secret; collisions between differently split names and aliasing with the original are not looked for.",
 ["pkg/object/uid.go","pkg/object/secret.go"],
 [("identifier","pkg/object/uid.go"),("secret decoding","pkg/object/secret.go")])
p("C27","Concurrent use loses no update and never deadlocks",
 "Under every interleaving of concurrent pipeline evaluations, view reads and writes, handler registrations and shutdown, each operation takes effect atomically, every accepted change is eventually delivered to every live watcher, and no operation blocks forever.",
 ["schedules"],"all interleavings of concurrent operations",
 "Tests run a few goroutines under the scheduler's usual order; rare interleavings are not reached.",
 ["pkg/cache/view_cache.go","pkg/cache/view_cache_informer.go","pkg/pipeline/pipeline.go","pkg/kubernetes/controllers/operator.go"],
 [("locks and channels","pkg/cache/view_cache.go, pkg/kubernetes/controllers/operator.go")])
p("C28","Operators can be replaced and removed at any time without residue",
 "Creating, updating and deleting an operator definition, in any order and also before the system is started or while its controllers are failing, ends with exactly the controllers, exposed kinds and status of the last definition and with nothing of earlier ones running, and never crashes the process.",
 ["histories","schedules"],"all sequences of operator create, update, delete and system start",
 "Tests start one operator and update it once; other orders are not covered.",
 ["pkg/kubernetes/controllers/operator.go","pkg/operator/operator.go","pkg/apiserver/registry.go"],
 [("operator table","pkg/kubernetes/controllers/operator.go"),("registration","pkg/apiserver/registry.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
