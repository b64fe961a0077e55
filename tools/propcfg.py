# Per-property configuration of the checks: anchored files (their literals seed the replay harness), level, notes.
Z = ["pkg/dbsp/zset.go", "pkg/dbsp/document.go"]
CFG = {
    "C01": dict(files=Z, level="proof", budget=10, shared=["zs"],
                note="Postconditions over the whole multiplicity map proved for every input; trusts the document-key contract (computeJSONKey is a function of content, bounded stand-in under C03)."),
    "C02": dict(files=Z, level="proof", budget=10, shared=["zs"],
                note="Every observer's postcondition proved for every Z-set satisfying the representation invariant; GetDocuments' per-document multiplicity beyond total count is a bounded replay."),
    "C04": dict(files=["pkg/dbsp/op_linear.go", "pkg/dbsp/fused_op.go"], level="proof", budget=15, shared=["zs", "ev"],
                note="Linearity of every operator and fusion proved for all collections and all evaluators that are functions of the document's content; the generic FusedOp and mutating evaluators by bounded replay."),
    "C05": dict(files=["pkg/dbsp/op_bilinear.go"], level="proof", budget=20, shared=["zs", "ev"], lean=["join.lean"],
                note="Binary join: the three-term expansion and the state update proved against the snapshot join's contract, the expansion lemma proved in Lean; the snapshot joins' own loops and the n-way join are bounded replays.",
                bounded=["BinaryJoinOp.Process and cartesianJoin compute the product sum: replayed, up to 4 inputs, histories of up to 8 steps", "IncrementalJoinOp.Process: replayed, up to 4 inputs"]),
    "C06": dict(files=["pkg/dbsp/op_misc.go", "pkg/dbsp/executor.go", "pkg/dbsp/op_bilinear.go", "pkg/dbsp/op_nonlinear.go"], level="proof", budget=12, shared=["zs", "ev"],
                note="Every stream operator's step and reset proved for all states and inputs; histories follow by induction over the state invariant. Executor.Reset dispatch is a bounded replay."),
    "C07": dict(files=["pkg/dbsp/op_nonlinear.go", "pkg/dbsp/op_misc.go"], level="proof", budget=20, shared=["zs", "ev"],
                note="Distinct proved; gather (grouping by JSON key, sorting) is a bounded replay against an independent grouping oracle.",
                bounded=["GatherOp.Process: replayed on random collections and histories (up to 8 steps)"]),
    "C08": dict(files=["pkg/dbsp/rewrite_engine.go", "pkg/dbsp/chain.go", "pkg/dbsp/executor.go", "pkg/dbsp/graph_converter.go"], level="proof", budget=30, shared=["zs", "ev"],
                note="Well-formedness of chain editing proved; equality of optimised incremental and snapshot execution is a bounded replay over random programs and histories.",
                bounded=["Optimize + Executor: random chains of up to 6 operators over up to 3 inputs, histories of up to 5 steps"]),
    "C17": dict(files=["pkg/auth/rbac.go", "pkg/auth/authorizer.go"], level="proof", budget=10, shared=[],
                note="The whole decision (matchesWildcard, matches, ruleMatches, CheckRBACAccess, Authorize) is proved equal to a declarative predicate over strings (SMT string theory) for all rules and requests.",
                assumptions=["json.Unmarshal is a function of the text; what the decoded rules allow is named by an uninterpreted predicate tied to the decoded value", "ruleMatches assumes the package-level table collectionVerbs keeps the value proved of the package initialiser (nothing else assigns it)"]),
    "C18": dict(files=["pkg/auth/authenticator.go", "pkg/auth/token.go", "pkg/auth/authorizer.go"], level="proof", budget=12, shared=[],
                note="Namespace restriction and the use made of the JWT library are proved; the library itself (signature, expiry) is assumed and exercised by the bounded replay with forged, expired and tampered tokens.",
                assumptions=["jwt.ParseWithClaims accepts only tokens whose signature under the callback's key, expiry and not-before hold, and fills the claims from the token"]),
    "C09": dict(files=["pkg/pipeline/zset_adaptor.go", "pkg/pipeline/pipeline.go", "pkg/cache/store.go", "pkg/object/object.go"], level="proof", budget=12, shared=["zs"],
                note="The record of last seen versions (the object store: add, update, delete, get) is proved to be an exact map with private copies; the event conversion itself is a bounded replay of random histories against a model.",
                assumptions=["client-go's thread-safe store is a map from object keys to objects", "object.DeepCopy (DeepCopyJSON) keeps the content"],
                bounded=["ConvertDeltaToZSet: random histories of up to 12 events over up to 4 objects"]),
    "C10": dict(files=["pkg/pipeline/zset_adaptor.go", "pkg/pipeline/pipeline.go", "pkg/object/object.go"], level="proof", budget=15, shared=["zs"],
                note="Reconcile is proved for every batch and target record: one change per key, deletes before upserts, delete only what was there, upsert what the batch leaves, transients dropped, record updated to match; the conversion of collections to objects and whole pipelines are bounded replays.",
                assumptions=["client-go's thread-safe store is a map from object keys to objects", "the text of an object's NamespacedName and its store key identify the same objects", "object.DeepCopy (DeepCopyJSON) keeps the content"],
                bounded=["ConvertZSetToDelta, Evaluate and Sync: random batches and histories"]),
    "C23": dict(files=["pkg/controller/status_reporter.go", "pkg/controller/declarative.go", "pkg/controller/reconcilers.go", "pkg/operator/operator.go"], level="proof", budget=10, shared=[],
                note="The bounded error stack, the status computed from it, the recording of reconciliation errors and the operator's view of its controllers are proved for all error sequences and controller sets; start-up errors are a bounded replay.",
                assumptions=["pipeline evaluation and target writes do not touch the controller's error stack", "a controller's status carries its name and its kinds are a function of the controller (proved for both controller types' names)", "error texts are functions of the error value"],
                bounded=["NewDeclarative's start-up errors: replayed on a fixed list of invalid configurations"]),
    "C21": dict(files=["pkg/api/view/v1alpha1/group_version.go", "pkg/cache/view_discovery.go", "pkg/cache/composite.go", "pkg/cache/client.go", "pkg/cache/view_restmapper.go"], level="proof", budget=10, shared=[],
                note="Naming (view groups, operators, list kinds, embedding and back) is proved over the SMT theory of strings for all names; routing is proved for every cache and client operation: the result is the chosen backend's for exactly the caller's arguments.",
                assumptions=["an object's kind does not change during an operation", "strings.LastIndex, Split, TrimSuffix and ToLower behave as documented", "a backend operation is a function of the backend and its arguments (that no second backend call is made is replayed, not proved)"],
                bounded=["KindFromResource over the registered views: replayed"]),
    "C24": dict(files=["pkg/expression/selector.go", "pkg/predicate/predicate.go"], level="proof", budget=10, shared=[],
                note="How a selector is turned into the Kubernetes selector (required labels, shorthand form) and which predicates are accepted are proved for all selectors and predicates; matching itself and the boolean composition are library code, replayed against an independent oracle.",
                assumptions=["fmt.Sprintf(\"%v\") is a function of the value"],
                bounded=["matching of requirement lists and predicate trees (depth up to 3): replayed"]),
    "C26": dict(files=["pkg/object/uid.go", "pkg/object/secret.go"], level="proof", budget=10, shared=[], lean=["uid.lean"],
                note="The text hashed into an identifier is proved to be the five parts joined by '/', and that text to determine the parts (Lean); decoding of secrets is proved completely. That SHA-256 prefixes do not collide is assumed; WithUID and RemoveUID are bounded replays.",
                assumptions=["the first 16 bytes of SHA-256 do not collide; the digest's formatting keeps them apart", "group, version, kind and namespace contain no '/'", "base64 decoding is a function of the text"],
                bounded=["WithUID and RemoveUID: replayed on view and native objects"]),
    "C11": dict(files=["pkg/expression/expression.go", "pkg/expression/converter.go"], level="proof", budget=12, shared=["ex"],
                note="Evaluate is proved against the truth tables of the boolean operators, quantifiers, conditionals and existence tests for all expressions, objects and subjects, with the values of subexpressions named by the same function; laziness and totality are separate clauses.",
                assumptions=["the value of an expression on an object and subject is a function of the three (@now, @rnd and @hash are outside)", "reflect describes JSON values as documented", "unpackList returns a list of scalars unchanged"],
                bounded=["random expressions of depth up to 4 against an independent interpreter"]),
    "C12": dict(files=["pkg/expression/expression.go", "pkg/expression/converter.go"], level="proof", budget=12, shared=["ex"],
                note="Arithmetic, comparison, sum, minimum, maximum and range are proved of Evaluate and of the numeric conversions for all integer operands (mathematical integers) and, for floats, up to the machine operation itself.",
                assumptions=["int64 arithmetic does not overflow", "float operations are the machine's", "strconv parses numbers as documented", "slices.Min and slices.Max return the least and greatest element"],
                bounded=["random expressions of depth up to 4 against an independent interpreter, including overflow at the boundaries"]),
    "C13": dict(files=["pkg/expression/expression.go", "pkg/expression/converter.go"], level="proof", budget=15, shared=["ex"],
                note="Conversions, @len, @in, @concat, @list and argument errors of every list operator are proved of Evaluate and the converters for all inputs; the element-wise results of @map and @filter and @sort are replayed.",
                assumptions=["reflect describes JSON values as documented", "unpackList returns a list of scalars unchanged"],
                bounded=["@map, @filter, @sort and @hash results: random expressions of depth up to 4 against an independent interpreter"]),
    "C14": dict(files=["pkg/expression/jsonpath.go"], level="proof", budget=10, shared=["ex"],
                note="Which document a path is read from, how root references are spelled, and what a plain-key or root write does to the data (exactly that key, everything else kept, a private copy of the value) are proved for all inputs; the JSONPath library itself is replayed.",
                assumptions=["ojg/jp parses a path as a function of its text and reads as a function of path and data"],
                bounded=["paths of depth up to 4 over random documents, reads and writes, against an independent walk"]),
    "C15": dict(files=["pkg/expression/marshaler.go", "pkg/expression/literal.go"], level="proof", budget=10, shared=["ex"],
                note="Parsing is proved to follow one fixed order of decodings, and printing of literals to read back as the same operator and value (postcondition over encoding/json's assumed round trip); nested expressions by replay.",
                assumptions=["encoding/json decodes a text as a function of the text and encodes scalars so that they decode to themselves"],
                bounded=["round trips of random expressions of depth up to 4, and of their evaluation"]),
}
NA = {
    "C03": "document keys go through reflection-based JSON encoding and recursive copies of arbitrary trees; only the copy routine DeepCopyAny is under contract (with C14), the key function is trusted by the contracts of C01-C10 and not decided separately",
    "C16": "not reached: MergeAny and patch recurse over heap trees whose sharing the contracts here do not describe beyond one level",
    "C19": "not reached: the view cache client is reflection over client-go option lists and concurrent informers; the object store under it is proved with C09",
    "C20": "watch delivery is a statement about goroutines and channels over time; sequential contracts cannot express it",
    "C22": "not reached: the effect of a write is the Kubernetes API server's, which the code only calls; the patches it sends are library objects outside the contracts",
    "C25": "not reached: the storage layer is generic apiserver machinery around the view cache",
    "C27": "absence of deadlock and data races is a property of interleavings; the verifier's contracts are sequential",
    "C28": "start and stop of operators is a property of goroutines, contexts and channels over time; the verifier's contracts are sequential",
}
