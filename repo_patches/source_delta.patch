From ddf3d933803bda73b8689f5d81c1464b50680176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:02 +0000
Subject: [PATCH 01/20] fix: reset the state of n-ary incremental joins in
 Executor.Reset

---
 pkg/dbsp/executor.go    | 2 ++
 pkg/dbsp/op_bilinear.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/pkg/dbsp/executor.go b/pkg/dbsp/executor.go
index 795076e..50f6ef2 100644
--- a/pkg/dbsp/executor.go
+++ b/pkg/dbsp/executor.go
@@ -117,6 +117,8 @@ func (e *Executor) resetOperator(op Operator) {
 		o.Reset()
 	case *IncrementalBinaryJoinOp:
 		o.Reset()
+	case *IncrementalJoinOp:
+		o.Reset()
 		// Note: Non-linear operators (GatherOp) don't need Reset() - they are lifted with
 		// I→Op→D and the Integrator/Differentiator handle state management.
 	}
diff --git a/pkg/dbsp/op_bilinear.go b/pkg/dbsp/op_bilinear.go
index 8dd36d8..221760a 100644
--- a/pkg/dbsp/op_bilinear.go
+++ b/pkg/dbsp/op_bilinear.go
@@ -60,6 +60,11 @@ func (op *IncrementalJoinOp) OpType() OperatorType              { return OpTypeB
 func (op *IncrementalJoinOp) IsTimeInvariant() bool             { return true }
 func (op *IncrementalJoinOp) HasZeroPreservationProperty() bool { return true }
 
+// Reset drops the accumulated state of all inputs.
+func (op *IncrementalJoinOp) Reset() {
+	op.prevStates = make([]*DocumentZSet, op.n)
+}
+
 // Process evaluates the op.
 func (op *IncrementalJoinOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, error) {
 	if err := op.validateInputs(inputs); err != nil {
-- 
2.43.0


From bc6036e6838863fff3bdd01173df1c3389b925f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 02/20] fix: gather signed collections independently of the map
 iteration order

---
 pkg/dbsp/op_nonlinear.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/dbsp/op_nonlinear.go b/pkg/dbsp/op_nonlinear.go
index c64234f..6cf7b8a 100644
--- a/pkg/dbsp/op_nonlinear.go
+++ b/pkg/dbsp/op_nonlinear.go
@@ -40,7 +40,21 @@ func (op *GatherOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, error) {
 	// Step 1: Group documents by key, preserving one representative document per group
 	groups := make(map[string]*GroupData)
 
+	// Process additions before deletions so that the result does not depend on the map iteration order
+	keys := make([]string, 0, len(input.counts))
 	for key, multiplicity := range input.counts {
+		if multiplicity > 0 {
+			keys = append(keys, key)
+		}
+	}
+	for key, multiplicity := range input.counts {
+		if multiplicity < 0 {
+			keys = append(keys, key)
+		}
+	}
+
+	for _, key := range keys {
+		multiplicity := input.counts[key]
 		doc := input.docs[key]
 
 		// Extract key and value
@@ -92,6 +106,11 @@ func (op *GatherOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, error) {
 	// Step 2: Aggregate each group, preserving document content
 	result := NewDocumentZSet()
 	for _, groupData := range groups {
+		// Skip groups whose values have all been removed
+		if len(groupData.Values) == 0 {
+			continue
+		}
+
 		// Optionally sort values for deterministic output.
 		if SortGatherValues && len(groupData.Values) > 1 {
 			sortValues(groupData.Values)
-- 
2.43.0


From c2d217b1c0661064e2ad17c6fa3b8df0472fa596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:03 +0000
Subject: [PATCH 03/20] fix: sort mixed numeric values of gather consistently

---
 pkg/dbsp/op_nonlinear.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/dbsp/op_nonlinear.go b/pkg/dbsp/op_nonlinear.go
index 6cf7b8a..74f7810 100644
--- a/pkg/dbsp/op_nonlinear.go
+++ b/pkg/dbsp/op_nonlinear.go
@@ -186,9 +186,29 @@ func sortValues(values []any) {
 			}
 		}
 
+		// Compare mixed numeric types by value to keep the ordering transitive.
+		if av, ok := asFloat(a); ok {
+			if bv, ok := asFloat(b); ok {
+				return cmp.Compare(av, bv)
+			}
+		}
+
 		// Fall back to JSON representation for mixed types.
 		aKey, _ := computeJSONAny(a)
 		bKey, _ := computeJSONAny(b)
 		return cmp.Compare(aKey, bKey)
 	})
 }
+
+// asFloat returns the value of a number as a float.
+func asFloat(v any) (float64, bool) {
+	switch n := v.(type) {
+	case int:
+		return float64(n), true
+	case int64:
+		return float64(n), true
+	case float64:
+		return n, true
+	}
+	return 0, false
+}
-- 
2.43.0


From c1312ea702eb127bef758e12bc9ae24cc72e7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 04/20] fix: convert optimised unwind and gather chains to
 snapshot mode

---
 pkg/dbsp/graph_converter.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pkg/dbsp/graph_converter.go b/pkg/dbsp/graph_converter.go
index 2ae690c..9f0ebae 100644
--- a/pkg/dbsp/graph_converter.go
+++ b/pkg/dbsp/graph_converter.go
@@ -10,7 +10,30 @@ type opConverter func(Operator) (Operator, error)
 // Non-linear operators like GatherOp remain unchanged (they're lifted with I→Op→D
 // in incremental mode, which gets stripped when converting to snapshot).
 func ToSnapshotGraph(incrementalGraph *ChainGraph) (*ChainGraph, error) {
-	return convertGraph(incrementalGraph, "incremental", convertToSnapshotJoin, convertToSnapshotOperator)
+	return convertGraph(stripLifting(incrementalGraph), "incremental", convertToSnapshotJoin, convertToSnapshotOperator)
+}
+
+// stripLifting returns a view of the graph without the integrators and differentiators that were put
+// around lifted non-linear operators.
+func stripLifting(g *ChainGraph) *ChainGraph {
+	chain := make([]string, 0, len(g.chain))
+	for i, id := range g.chain {
+		switch g.nodes[id].Op.(type) {
+		case *IntegratorOp:
+			if i+1 < len(g.chain) && g.nodes[g.chain[i+1]].Lifted {
+				continue
+			}
+		case *DifferentiatorOp:
+			if i > 0 && g.nodes[g.chain[i-1]].Lifted {
+				continue
+			}
+		}
+		chain = append(chain, id)
+	}
+
+	ret := *g
+	ret.chain = chain
+	return &ret
 }
 
 // ToIncrementalGraph converts a snapshot ChainGraph to an incremental ChainGraph.
@@ -97,7 +120,7 @@ func convertToIncrementalJoin(op Operator) (Operator, error) {
 func convertToSnapshotOperator(op Operator) (Operator, error) {
 	switch op.(type) {
 	// Linear operators are the same for snapshot and incremental.
-	case *ProjectionOp, *SelectionOp, *DistinctOp:
+	case *ProjectionOp, *SelectionOp, *UnwindOp, *DistinctOp:
 		return op, nil
 
 	// Fused operators are also the same.
@@ -130,7 +153,7 @@ func convertToIncrementalOperator(op Operator) (Operator, error) {
 		return op, nil
 
 	// Linear operators are the same for snapshot and incremental.
-	case *ProjectionOp, *SelectionOp, *DistinctOp:
+	case *ProjectionOp, *SelectionOp, *UnwindOp, *DistinctOp:
 		return op, nil
 
 	// Fused operators are also the same.
-- 
2.43.0


From b5decce7f21373bec6d47683597117602f0ffb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 05/20] fix: cancel the recorded version of an object when it
 is deleted

The delete of an object removed the content of the delete event instead of the version
that was added before. Kubernetes delivers the last state with a new resource version, so
the version seen before was never cancelled and stale results stayed in the pipeline.
---
 pkg/pipeline/zset_adaptor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index 3beb083..fa11b32 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -87,7 +87,9 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 					delta.Type, ObjectKey(deltaObj)))
 		}
 
-		if err := zset.AddDocumentMutate(deltaObj.UnstructuredContent(), -1); err != nil {
+		// Remove the version seen before: the object in the delete event may differ from it (e.g.,
+		// Kubernetes bumps the resource version of the last state on deletion).
+		if err := zset.AddDocumentMutate(old.UnstructuredContent(), -1); err != nil {
 			return nil, NewPipelineError(
 				fmt.Errorf("processing event %q: could not add object %s to zset: %w",
 					delta.Type, ObjectKey(deltaObj), err))
-- 
2.43.0


From 843e5314f6077d669c898e1b69a80d88bf3b6b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 06/20] fix: map dotted API groups back from their view group

---
 pkg/api/view/v1alpha1/group_version.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/api/view/v1alpha1/group_version.go b/pkg/api/view/v1alpha1/group_version.go
index 1c8e43b..7a5f846 100644
--- a/pkg/api/view/v1alpha1/group_version.go
+++ b/pkg/api/view/v1alpha1/group_version.go
@@ -48,23 +48,29 @@ func MapFromView(gvk schema.GroupVersionKind) (schema.GroupVersionKind, error) {
 	if !IsViewGroup(gvk.Group) {
 		return schema.GroupVersionKind{}, errors.New("not a view resource")
 	}
-	ps := strings.SplitN(gvk.Group, ".", 3)
-	if len(ps) != 3 {
+	// <group>.<version>.<operator>.view.dcontroller.io, where the group may contain dots
+	s := strings.TrimSuffix(gvk.Group, fullGroupSuffix)
+	op := strings.LastIndex(s, ".")
+	if op < 0 {
 		return schema.GroupVersionKind{}, errors.New("invalid view resource")
 	}
+	ver := strings.LastIndex(s[:op], ".")
+	if ver < 0 {
+		return schema.GroupVersionKind{}, errors.New("invalid view resource")
+	}
+	group := s[:ver]
 	// un-specialcase corev1
-	if ps[0] == "core" {
-		ps[0] = ""
+	if group == "core" {
+		group = ""
 	}
 
 	return schema.GroupVersionKind{
-		Group:   ps[0],
-		Version: ps[1],
+		Group:   group,
+		Version: s[ver+1 : op],
 		Kind:    gvk.Kind,
 	}, nil
 }
 
-// GetOperator returns the operator name for a view resource.
 func GetOperator(gvk schema.GroupVersionKind) string {
 	s := gvk.Group
 	if strings.HasSuffix(s, fullGroupSuffix) {
-- 
2.43.0


From f8d5ef2051e0044d1804bc133c60fc1d7a024ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 07/20] fix: the view REST mapper must serve view groups and
 refuse the rest

---
 pkg/cache/view_restmapper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/cache/view_restmapper.go b/pkg/cache/view_restmapper.go
index b837b49..aeabf12 100644
--- a/pkg/cache/view_restmapper.go
+++ b/pkg/cache/view_restmapper.go
@@ -22,7 +22,7 @@ func NewViewRESTMapper() *ViewRESTMapper {
 
 // KindFor returns the Kind for the given view resource.
 func (m *ViewRESTMapper) KindFor(resource schema.GroupVersionResource) (schema.GroupVersionKind, error) {
-	if viewv1a1.IsViewGroup(resource.Group) {
+	if !viewv1a1.IsViewGroup(resource.Group) {
 		return schema.GroupVersionKind{}, fmt.Errorf("not a view group: %s", resource.Group)
 	}
 
@@ -47,7 +47,7 @@ func (m *ViewRESTMapper) KindsFor(resource schema.GroupVersionResource) ([]schem
 
 // ResourceFor returns the Resource for the given view input.
 func (m *ViewRESTMapper) ResourceFor(input schema.GroupVersionResource) (schema.GroupVersionResource, error) {
-	if viewv1a1.IsViewGroup(input.Group) {
+	if !viewv1a1.IsViewGroup(input.Group) {
 		return schema.GroupVersionResource{}, fmt.Errorf("not a view group: %s", input.Group)
 	}
 
@@ -70,7 +70,7 @@ func (m *ViewRESTMapper) ResourcesFor(input schema.GroupVersionResource) ([]sche
 
 // RESTMapping returns the RESTMapping for the given view GroupKind.
 func (m *ViewRESTMapper) RESTMapping(gk schema.GroupKind, versions ...string) (*meta.RESTMapping, error) {
-	if viewv1a1.IsViewGroup(gk.Group) {
+	if !viewv1a1.IsViewGroup(gk.Group) {
 		return nil, fmt.Errorf("not a view group: %s", gk.Group)
 	}
 
-- 
2.43.0


From 22f510dd5b46ec1bfa154e545fc4199bc24b22a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 08/20] fix: pass the informer options on to the cache that
 serves the kind

---
 pkg/cache/composite.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/composite.go b/pkg/cache/composite.go
index 18ae627..2193ce3 100644
--- a/pkg/cache/composite.go
+++ b/pkg/cache/composite.go
@@ -94,9 +94,9 @@ func (cc *CompositeCache) GetInformer(ctx context.Context, obj client.Object, op
 	cc.log.V(6).Info("get-informer", "gvk", gvk)
 
 	if viewv1a1.IsViewKind(gvk) {
-		return cc.viewCache.GetInformer(ctx, obj)
+		return cc.viewCache.GetInformer(ctx, obj, opts...)
 	}
-	return cc.defaultCache.GetInformer(ctx, obj)
+	return cc.defaultCache.GetInformer(ctx, obj, opts...)
 }
 
 // GetInformerForKind is similar to GetInformer, except that it takes a group-version-kind instead
@@ -105,9 +105,9 @@ func (cc *CompositeCache) GetInformerForKind(ctx context.Context, gvk schema.Gro
 	cc.log.V(6).Info("get-informer-for-kind", "gvk", gvk)
 
 	if viewv1a1.IsViewKind(gvk) {
-		return cc.viewCache.GetInformerForKind(ctx, gvk)
+		return cc.viewCache.GetInformerForKind(ctx, gvk, opts...)
 	}
-	return cc.defaultCache.GetInformerForKind(ctx, gvk)
+	return cc.defaultCache.GetInformerForKind(ctx, gvk, opts...)
 }
 
 // RemoveInformer removes an informer entry and stops it if it was running.
-- 
2.43.0


From d7ec1a57183c5fa28035835d81e7da92b3d2df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 09/20] fix: @none is true when no element satisfies the
 condition

---
 pkg/expression/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index bea0d5e..fe7ba99 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -561,7 +561,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, errors.New("invalid arguments: expected a list")
 			}
 
-			v := false
+			v := true
 			for _, input := range list {
 				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
 				if err != nil {
-- 
2.43.0


From 6dac0a0238d9498b6dc14f2f1e306f2ecf847b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 10/20] fix: @map with the wrong number of arguments is an
 error, not a panic

---
 pkg/expression/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index fe7ba99..b658e35 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -638,6 +638,11 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, NewExpressionError(e, err)
 			}
 
+			if len(args) != 2 {
+				return nil, NewExpressionError(e,
+					errors.New("invalid arguments: expected 2 arguments"))
+			}
+
 			// function
 			exp := args[0]
 
-- 
2.43.0


From fbaf13b89746def9346917bf68b612e75748bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 11/20] fix: @rnd on an empty range is an error, not a panic

---
 pkg/expression/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index b658e35..d909553 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -764,6 +764,9 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			min := args[0]
 			max := args[1]
+			if max <= min || max-min <= 0 { // the latter: overflow
+				return nil, NewExpressionError(e, fmt.Errorf("empty range [%d, %d)", min, max))
+			}
 			v := int64(rand.Intn(int(max-min)) + int(min)) //nolint:gosec
 			ctx.Log.V(8).Info("eval ready", "expression", e.String(), "args", args, "result", v)
 			return v, nil
-- 
2.43.0


From 9feaf22ed4f689e037494b32018ec966f8c0fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 12/20] fix: string conversion of floats

---
 pkg/expression/converter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/converter.go b/pkg/expression/converter.go
index 12185dc..8f61ddd 100644
--- a/pkg/expression/converter.go
+++ b/pkg/expression/converter.go
@@ -81,8 +81,10 @@ func AsString(d any) (string, error) {
 	switch reflect.ValueOf(d).Kind() { //nolint:exhaustive
 	case reflect.String:
 		return reflect.ValueOf(d).String(), nil
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return fmt.Sprintf("%d", d), nil
+	case reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
+		return fmt.Sprintf("%v", d), nil
 	}
 
 	return "", fmt.Errorf("argument is not a string: %s", util.Stringify(d))
-- 
2.43.0


From 42a28eb08dd29783bc8eeac33dff44ac4a864385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 13/20] fix: evaluate dict literals in a fixed key order

---
 pkg/expression/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index d909553..1389658 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -31,6 +31,7 @@ package expression
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"math"
 	"math/rand"
 	"reflect"
@@ -218,8 +219,10 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 					errors.New("argument must be a string->expression map"))
 			}
 
-			for k, exp := range vm {
+			// evaluate in a fixed order: keys may address overlapping parts of the result
+			for _, k := range slices.Sorted(maps.Keys(vm)) {
 				// evaluate arguments
+				exp := vm[k]
 				res, err := exp.Evaluate(ctx)
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 3bd8aaf416a0061a5564415bc1dbf200d41893c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 14/20] fix: SetJSONPath does not share the value with the
 result

---
 pkg/expression/jsonpath.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 11d94fc..50ec70a 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 
 	"github.com/ohler55/ojg/jp"
+
+	"github.com/l7mp/dcontroller/pkg/object"
 )
 
 // GetJSONPath evaluates a string op that may or may not be a JSONPath expession.
@@ -55,6 +57,9 @@ func SetJSONPath(ctx EvalCtx, key string, value, data any) error {
 		value = res
 	}
 
+	// the value may be a part of the object or the subject: never share it with the result
+	value = object.DeepCopyAny(value)
+
 	// copy: if key is a JSONpath root ref and the result is a map, overwrite the entire map
 	// if d, ok := data.(Unstructured); ok && key == "$." {
 	if key == "$." {
@@ -97,14 +102,14 @@ func SetJSONPath(ctx EvalCtx, key string, value, data any) error {
 
 // GetJSONPathRaw evaluates a JSONPath expression on the specified object and returns the result or
 // an error.
-func GetJSONPathRaw(query string, object any) (any, error) {
+func GetJSONPathRaw(query string, obj any) (any, error) {
 	je, err := jp.ParseString(query)
 	if err != nil {
 		return nil, err
 	}
 
 	// jsonpath works on implicit object context
-	values := je.Get(object)
+	values := je.Get(obj)
 	if len(values) == 0 {
 		// return nil, NewExpressionError("JSONPath", jsonExp,
 		// 	fmt.Errorf("failed to apply JSONPath expression on %#v", input))
-- 
2.43.0


From a632b74de6a024d17bb271cb00387cd0fb8a2c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 15/20] fix: parsing an expression with an empty key does not
 panic

---
 pkg/expression/marshaler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index d3be337..a530d4d 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"strings"
 )
 
 // UnmarshalJSON de-serializes an expression from JSON.
@@ -54,7 +55,7 @@ func (e *Expression) UnmarshalJSON(b []byte) error {
 				op = k
 				break
 			}
-			if string(op[0]) == "@" {
+			if strings.HasPrefix(op, "@") {
 				exp := cv[op]
 				*e = Expression{Op: op, Arg: &exp}
 				return nil
-- 
2.43.0


From 1413f1a2afe26478151202ae6667c7a8b2528898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 16/20] fix: op of float literal expressions

---
 pkg/expression/literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/expression/literal.go b/pkg/expression/literal.go
index b75b84b..712fd94 100644
--- a/pkg/expression/literal.go
+++ b/pkg/expression/literal.go
@@ -13,7 +13,7 @@ func NewLiteralExpression(value any) (Expression, error) {
 	case string:
 		op = "@string"
 	case float32, float64:
-		op = "float"
+		op = "@float"
 	default:
 		return Expression{}, fmt.Errorf("cannot create a literal expression from an "+
 			"argument %#v", value)
-- 
2.43.0


From aab092e27a97323a9071b6e29d1e2eeefacee4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 17/20] fix: @any keeps its operator when serialised

---
 pkg/expression/marshaler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index a530d4d..60a0f93 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -78,6 +78,11 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	switch e.Op {
 	case "@any":
+		if e.Arg != nil {
+			// keep the op: this is the list quantifier
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
+		}
 		return json.Marshal(e.Literal)
 
 	case "@bool":
-- 
2.43.0


From e96fd885c17efa7f55aaa383f7e924765f89425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 18/20] fix: @list and @dict conversions keep their operator
 when serialised

---
 pkg/expression/marshaler.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 60a0f93..122467f 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -135,7 +135,9 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	case "@list":
 		if e.Arg != nil {
-			return json.Marshal(e.Arg)
+			// keep the op for a correct round-trip and possible side-effects (conversion)
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
 		}
 		es, ok := e.Literal.([]Expression)
 		if !ok {
@@ -145,8 +147,9 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	case "@dict":
 		if e.Arg != nil {
-			// can this ever happen?
-			return json.Marshal(e.Arg)
+			// keep the op for a correct round-trip and possible side-effects (conversion)
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
 		}
 
 		es, ok := e.Literal.(map[string]Expression)
-- 
2.43.0


From b25964d9bc96e5a8175290c8111a81497d9c8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 19/20] fix: float literals stay floats when serialised

---
 pkg/expression/marshaler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 122467f..f40158e 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -3,7 +3,9 @@ package expression
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -119,6 +121,10 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return []byte(""), err
 		}
+		if v == math.Trunc(v) && math.Abs(v) < 1e21 {
+			// keep the fractional part so that the literal is not read back as an integer
+			return []byte(strconv.FormatFloat(v, 'f', 1, 64)), nil
+		}
 		return json.Marshal(v)
 
 	case "@string":
-- 
2.43.0


From d9eed50ea6ffaba9b546e7d617aa2176d2b24a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 20/20] fix: an operator without arguments is an error, not a
 panic

---
 pkg/expression/converter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/expression/converter.go b/pkg/expression/converter.go
index 8f61ddd..dd78dc4 100644
--- a/pkg/expression/converter.go
+++ b/pkg/expression/converter.go
@@ -300,6 +300,7 @@ func AsExpOrExpList(d any) ([]Expression, error) {
 	if !ok {
 		var expp *Expression
 		expp, ok = d.(*Expression)
+		ok = ok && expp != nil
 		if ok {
 			exp = *expp
 		}
-- 
2.43.0

