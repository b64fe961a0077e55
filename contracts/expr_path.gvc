package github.com/l7mp/dcontroller/pkg/expression

// ---- JSONPath reads and writes (the JSONPath library itself is assumed; see the bounded replay of C14)
uf jpOK(string) bool
uf jpExpr(string) jp.Expr
uf jpVals(jp.Expr, any) []any
extern github.com/ohler55/ojg/jp.ParseString(s) (x, err)
  note parsing a path is a function of its text
  ensures (err == nil) == jpOK(s)
  ensures err == nil ==> x == jpExpr(s)
extern (github.com/ohler55/ojg/jp.Expr).Get(x, data) (r)
  note the values found are a function of the path and the data
  ensures r == jpVals(x, data)
extern (github.com/ohler55/ojg/jp.Expr).Set(x, data, value) (err)
  note a write through a path is replayed, not proved
  modifies heap

def jpFirst(q string, o any) any = len(jpVals(jpExpr(q), o)) == 0 ? nil : jpVals(jpExpr(q), o)[0]
def isPath(k string) bool = len(k) > 0 && k[0] == 36
def isLocal(k string, s any) bool = len(k) >= 2 && k[0] == 36 && k[1] == 36 && s != nil
def rootRef(k string) string = k == "$." ? "$" : (k == "$$." ? "$$" : k)

func GetJSONPathRaw(query, obj) (r, err)
  props C14
  ensures [ok] (err == nil) == jpOK(query)
  ensures [first] err == nil ==> r == jpFirst(query, obj)

func GetJSONPath(ctx, key) (r, err)
  props C14
  ensures [plain] !isPath(key) ==> err == nil && r == box(key, string)
  ensures [object] isPath(key) && !isLocal(key, ctx.Subject) ==> (err == nil) == jpOK(rootRef(key)) && (err == nil ==> r == jpFirst(rootRef(key), ctx.Object))
  ensures [subject] isLocal(key, ctx.Subject) ==> (err == nil) == jpOK(substr(rootRef(key), 1, len(rootRef(key)) - 1)) && (err == nil ==> r == jpFirst(substr(rootRef(key), 1, len(rootRef(key)) - 1), ctx.Subject))

// ---- writes: a plain key is set in place, the root reference merges, everything else of the data is kept
def dmap(d any) map[string]any = unbox(d, `map[string]any`)
func SetJSONPathRaw(key, value, target) (err)
  props C14
  modifies heap
  ensures [ok] !jpOK(key) ==> err != nil
func SetJSONPath(ctx, key, value, data) (err)
  props C14
  requires typeis(data, `map[string]any`) ==> dmap(data) != nil
  modifies heap
  ensures [empty] key == "" ==> err != nil
  ensures [badvalue] typeis(value, string) && old(isPath(unbox(value, string)) && !isLocal(unbox(value, string), ctx.Subject) && !jpOK(rootRef(unbox(value, string)))) ==> err != nil
  ensures [plain] len(key) > 0 && !isPath(key) && typeis(data, `map[string]any`) && !typeis(value, string) ==> err == nil && dom(dmap(data)) == setadd(old(dom(dmap(data))), key) && (forall k string :: {dmap(data)[k]} k != key ==> dmap(data)[k] == old(dmap(data)[k])) && ownCopy(dmap(data)[key], value)
  ensures [plain-string] len(key) > 0 && !isPath(key) && typeis(data, `map[string]any`) && typeis(value, string) && !isPath(unbox(value, string)) ==> err == nil && dom(dmap(data)) == setadd(old(dom(dmap(data))), key) && (forall k string :: {dmap(data)[k]} k != key ==> dmap(data)[k] == old(dmap(data)[k])) && dmap(data)[key] == value
  ensures [root] key == "$." && typeis(data, `map[string]any`) && typeis(value, `map[string]any`) ==> err == nil && (forall k string :: {k in dom(dmap(data))} (k in dom(dmap(data))) == old(k in dom(dmap(data)) || k in dom(dmap(value)))) && (forall k string :: {dmap(data)[k]} k in dom(dmap(data)) ==> (old(k in dom(dmap(value))) ? ownCopy(dmap(data)[k], old(dmap(value)[k])) : dmap(data)[k] == old(dmap(data)[k])))
  ensures [root-bad] key == "$." && !typeis(value, string) && (!typeis(data, `map[string]any`) || !typeis(value, `map[string]any`)) ==> err != nil
  loop 1
    var d map[string]any
    var val map[string]any
    invariant d != val
    invariant forall k string :: {k in dom(d)} (k in dom(d)) == (entry(k in dom(d)) && !(k in $visited))
    invariant forall k string :: {d[k]} k in dom(d) ==> d[k] == entry(d[k])
  loop 2
    var d map[string]any
    var val map[string]any
    invariant d != val
    invariant forall k string :: {k in dom(d)} (k in dom(d)) == (entry(k in dom(d)) || (k in $visited))
    invariant forall k string :: {d[k]} k in dom(d) ==> d[k] == (k in $visited ? val[k] : entry(d[k]))
