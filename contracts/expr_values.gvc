package github.com/l7mp/dcontroller/pkg/expression

// ---- values: what reflect reports of the value kinds of a JSON document
uf rvOf(any) reflect.Value
uf rvElem(reflect.Value, int) reflect.Value
uf rvKind(reflect.Value) int
uf rvLen(reflect.Value) int
uf rvBool(reflect.Value) bool
uf rvInt(reflect.Value) int
uf rvFloat(reflect.Value) float64
uf rvStr(reflect.Value) string
uf rvCan(reflect.Value, any) bool
axiom [rv-nil] forall x any :: {rvOf(x)} x == nil ==> rvKind(rvOf(x)) == 0
axiom [rv-bool] forall x any :: {rvOf(x)} typeis(x, bool) ==> rvKind(rvOf(x)) == 1 && rvBool(rvOf(x)) == unbox(x, bool)
axiom [rv-int] forall x any :: {rvOf(x)} typeis(x, int64) ==> rvKind(rvOf(x)) == 6 && rvInt(rvOf(x)) == unbox(x, int64)
axiom [rv-float] forall x any :: {rvOf(x)} typeis(x, float64) ==> rvKind(rvOf(x)) == 14 && rvFloat(rvOf(x)) == unbox(x, float64)
axiom [rv-map] forall x any :: {rvOf(x)} typeis(x, `map[string]any`) ==> rvKind(rvOf(x)) == 21
axiom [rv-list] forall x any :: {rvOf(x)} typeis(x, `[]any`) ==> rvKind(rvOf(x)) == 23 && rvLen(rvOf(x)) == len(unbox(x, `[]any`))
axiom [rv-string] forall x any :: {rvOf(x)} typeis(x, string) ==> rvKind(rvOf(x)) == 24 && rvStr(rvOf(x)) == unbox(x, string)
axiom [rv-can] forall x any, t any :: {rvCan(rvOf(x), t)} x == nil || typeis(x, bool) || typeis(x, `map[string]any`) || typeis(x, `[]any`) || typeis(x, string) ==> !rvCan(rvOf(x), t)

extern reflect.ValueOf(i) (r)
  ensures r == rvOf(i)
extern (reflect.Value).Kind(v) (r)
  ensures r == rvKind(v)
extern (reflect.Value).Len(v) (r)
  ensures r == rvLen(v) && r >= 0
extern (reflect.Value).Index(v, i) (r)
  ensures r == rvElem(v, i)
extern (reflect.Value).Interface(v) (r)
  ensures forall x any :: {rvOf(x)} v == rvOf(x) ==> r == x
  ensures forall x any, i int :: {rvElem(rvOf(x), i)} v == rvElem(rvOf(x), i) && typeis(x, `[]any`) && 0 <= i && i < len(unbox(x, `[]any`)) ==> r == unbox(x, `[]any`)[i]
extern (reflect.Value).Bool(v) (r)
  ensures r == rvBool(v)
extern (reflect.Value).Int(v) (r)
  ensures r == rvInt(v)
extern (reflect.Value).Float(v) (r)
  ensures r == rvFloat(v)
extern (reflect.Value).String(v) (r)
  ensures r == rvStr(v)
extern (reflect.Value).CanConvert(v, t) (r)
  ensures r == rvCan(v, t)

uf parsesInt(string) bool
uf parsedInt(string) int
uf parsesFloat(string) bool
uf parsedFloat(string) float64
extern strconv.ParseInt(s, base, bits) (r, err)
  ensures base == 10 && bits == 64 ==> (err == nil) == parsesInt(s)
  ensures base == 10 && bits == 64 && err == nil ==> r == parsedInt(s)
extern strconv.ParseFloat(s, bits) (r, err)
  ensures bits == 64 ==> (err == nil) == parsesFloat(s)
  ensures bits == 64 && err == nil ==> r == parsedFloat(s)
extern github.com/l7mp/dcontroller/pkg/util.Stringify(x) (r)

def isList(x any) bool = typeis(x, `[]any`)
def listOf(x any) []any = unbox(x, `[]any`)
def isMap(x any) bool = typeis(x, `map[string]any`)
def json(x any) bool = x == nil || typeis(x, bool) || typeis(x, int64) || typeis(x, float64) || typeis(x, string) || isList(x) || isMap(x)
def isInt(x any) bool = typeis(x, int64) || (typeis(x, string) && parsesInt(unbox(x, string)))
def intOf(x any) int = typeis(x, int64) ? unbox(x, int64) : parsedInt(unbox(x, string))
def isNum(x any) bool = typeis(x, int64) || typeis(x, float64) || (typeis(x, string) && parsesFloat(unbox(x, string)))
def numOf(x any) float64 = typeis(x, int64) ? flt(unbox(x, int64)) : (typeis(x, float64) ? unbox(x, float64) : parsedFloat(unbox(x, string)))

def allJson(x any) bool = isList(x) ==> forall i int :: {listOf(x)[i]} 0 <= i && i < len(listOf(x)) ==> json(listOf(x)[i])
def allInts(x any) bool = isList(x) && forall i int :: {listOf(x)[i]} 0 <= i && i < len(listOf(x)) ==> isInt(listOf(x)[i])
def allNums(x any) bool = isList(x) && forall i int :: {listOf(x)[i]} 0 <= i && i < len(listOf(x)) ==> isNum(listOf(x)[i])
def allStrs(x any) bool = isList(x) && forall i int :: {listOf(x)[i]} 0 <= i && i < len(listOf(x)) ==> typeis(listOf(x)[i], string)
def twoInts(x any) bool = allInts(x) && len(listOf(x)) == 2
def twoNums(x any) bool = allNums(x) && len(listOf(x)) == 2

func IsList(d) (r)
  props C11 C12 C13
  ensures [json] json(d) ==> r == isList(d)

func AsList(d) (r, err)
  props C11 C12 C13
  ensures [ok] json(d) ==> (err == nil) == isList(d)
  ensures [same] json(d) && err == nil ==> r == listOf(d)

func AsBool(d) (r, err)
  props C11 C12 C13
  ensures [ok] json(d) ==> (err == nil) == typeis(d, bool)
  ensures [same] json(d) && err == nil ==> r == unbox(d, bool)

func AsString(d) (r, err)
  props C13
  ensures [string] typeis(d, string) ==> err == nil && r == unbox(d, string)
  ensures [none] d == nil || typeis(d, bool) || isList(d) || isMap(d) ==> err != nil
  ensures [numbers] typeis(d, int64) || typeis(d, float64) ==> err == nil

func AsInt(d) (r, err)
  props C12 C13
  panics
  ensures [ok] json(d) ==> (err == nil) == isInt(d)
  ensures [same] json(d) && err == nil ==> r == intOf(d)

func AsFloat(d) (r, err)
  props C12 C13
  panics
  ensures [ok] json(d) ==> (err == nil) == isNum(d)
  ensures [same] json(d) && err == nil ==> r == numOf(d)

func AsIntOrFloat(d) (i, f, kind, err)
  props C12 C13
  ensures [ok] json(d) ==> (err == nil) == (isInt(d) || isNum(d))
  ensures [int] json(d) && isInt(d) ==> kind == 6 && i == intOf(d)
  ensures [float] json(d) && !isInt(d) && isNum(d) ==> kind == 14 && f == numOf(d)

func AsIntList(d) (r, err)
  props C12 C13
  ensures [ok] json(d) && allJson(d) ==> (err == nil) == (isList(d) && forall i int :: {listOf(d)[i]} 0 <= i && i < len(listOf(d)) ==> isInt(listOf(d)[i]))
  ensures [same] json(d) && allJson(d) && err == nil ==> len(r) == len(listOf(d)) && forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == intOf(listOf(d)[i])
  ensures [fresh] err == nil ==> cap(r) == 0 || fresh(r)
  loop 1
    var ret []int64
    var i int
    invariant 0 <= i && (cap(ret) == 0 || fresh(ret))
    invariant json(d) ==> isList(d) && i <= len(listOf(d)) && len(ret) == i
    invariant json(d) && allJson(d) ==> forall j int :: {listOf(d)[j]} 0 <= j && j < i ==> isInt(listOf(d)[j])
    invariant json(d) && allJson(d) ==> forall j int :: {ret[j]} 0 <= j && j < i ==> ret[j] == intOf(listOf(d)[j])

func AsFloatList(d) (r, err)
  props C12 C13
  ensures [ok] json(d) && allJson(d) ==> (err == nil) == (isList(d) && forall i int :: {listOf(d)[i]} 0 <= i && i < len(listOf(d)) ==> isNum(listOf(d)[i]))
  ensures [same] json(d) && allJson(d) && err == nil ==> len(r) == len(listOf(d)) && forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == numOf(listOf(d)[i])
  ensures [fresh] err == nil ==> cap(r) == 0 || fresh(r)
  loop 1
    var ret []float64
    var i int
    invariant 0 <= i && (cap(ret) == 0 || fresh(ret))
    invariant json(d) ==> isList(d) && i <= len(listOf(d)) && len(ret) == i
    invariant json(d) && allJson(d) ==> forall j int :: {listOf(d)[j]} 0 <= j && j < i ==> isNum(listOf(d)[j])
    invariant json(d) && allJson(d) ==> forall j int :: {ret[j]} 0 <= j && j < i ==> ret[j] == numOf(listOf(d)[j])

func AsStringList(d) (r, err)
  props C13
  ensures [no] json(d) && !isList(d) ==> err != nil
  ensures [same] json(d) && allStrs(d) ==> err == nil && len(r) == len(listOf(d)) && forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == unbox(listOf(d)[i], string)
  loop 1
    var ret []string
    var i int
    invariant 0 <= i && (cap(ret) == 0 || fresh(ret))
    invariant json(d) ==> isList(d) && i <= len(listOf(d)) && len(ret) == i
    invariant json(d) && allStrs(d) ==> forall j int :: {ret[j]} 0 <= j && j < i ==> ret[j] == unbox(listOf(d)[j], string)

func AsIntOrFloatList(d) (is, fs, kind, err)
  props C12 C13
  ensures [ok] json(d) && allJson(d) ==> (err == nil) == (allInts(d) || allNums(d))
  ensures [int] json(d) && allJson(d) && allInts(d) ==> kind == 6 && len(is) == len(listOf(d)) && forall i int :: {is[i]} 0 <= i && i < len(is) ==> is[i] == intOf(listOf(d)[i])
  ensures [float] json(d) && allJson(d) && !allInts(d) && allNums(d) ==> kind == 14 && len(fs) == len(listOf(d)) && forall i int :: {fs[i]} 0 <= i && i < len(fs) ==> fs[i] == numOf(listOf(d)[i])
  ensures [kind] err == nil ==> kind == 6 || kind == 14

func AsBinaryIntOrFloatList(d) (is, fs, kind, err)
  props C12 C13
  ensures [ok] json(d) && allJson(d) ==> (err == nil) == (twoInts(d) || (twoNums(d) && !allInts(d)))
  ensures [int] json(d) && allJson(d) && twoInts(d) ==> kind == 6 && len(is) == 2 && is[0] == intOf(listOf(d)[0]) && is[1] == intOf(listOf(d)[1])
  ensures [float] json(d) && allJson(d) && !twoInts(d) && twoNums(d) ==> kind == 14 && len(fs) == 2 && fs[0] == numOf(listOf(d)[0]) && fs[1] == numOf(listOf(d)[1])
  ensures [kind] err == nil ==> (kind == 6 && len(is) == 2) || (kind == 14 && len(fs) == 2)

func AsObject(d) (r, err)
  props C13
  ensures [ok] json(d) ==> (err == nil) == (isMap(d) && unbox(d, `map[string]any`) != nil)
  ensures [same] json(d) && err == nil ==> r == unbox(d, `map[string]any`)
