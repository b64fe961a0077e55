package github.com/l7mp/dcontroller/pkg/expression

// ---- reading an expression: which form a text takes is decided in a fixed order of decodings
def scalarText(t string) bool = decBoolOK(t) || decIntOK(t) || decFloatOK(t) || (decStrOK(t) && decStr(t) != "")
def readOp(t string) string = decBoolOK(t) ? "@bool" : (decIntOK(t) ? "@int" : (decFloatOK(t) ? "@float" : "@string"))
def readLit(t string) any = decBoolOK(t) ? box(decBool(t), bool) : (decIntOK(t) ? box(decInt(t), int64) : (decFloatOK(t) ? box(decFloat(t), float64) : box(decStr(t), string)))

func (*Expression).UnmarshalJSON(e, b) (err)
  props C15
  modifies e.Op, e.Arg, e.Literal
  ensures [scalar] old(scalarText(text(b))) ==> err == nil && e.Op == old(readOp(text(b))) && e.Literal == old(readLit(text(b))) && e.Arg == nil
  ensures [list] old(!scalarText(text(b)) && decListOK(text(b))) ==> err == nil && e.Op == "@list" && e.Arg == nil && typeis(e.Literal, `[]Expression`) && len(unbox(e.Literal, `[]Expression`)) == old(decLen(text(b))) && forall i int :: {unbox(e.Literal, `[]Expression`)[i]} 0 <= i && i < old(decLen(text(b))) ==> unbox(e.Literal, `[]Expression`)[i] == old(decElem(text(b), i))
  ensures [map] old(!scalarText(text(b)) && !decListOK(text(b)) && decMapOK(text(b))) ==> err == nil && (e.Op == "@dict" && e.Arg == nil || old(decCount(text(b)) == 1) && e.Literal == nil && e.Arg != nil && decHas(old(text(b)), e.Op) && *e.Arg == decEntry(old(text(b)), e.Op))
  ensures [dict] old(!scalarText(text(b)) && !decListOK(text(b)) && decMapOK(text(b)) && decCount(text(b)) != 1) ==> e.Op == "@dict" && typeis(e.Literal, `map[string]Expression`) && (forall k string :: {k in dom(unbox(e.Literal, `map[string]Expression`))} (k in dom(unbox(e.Literal, `map[string]Expression`))) == decHas(old(text(b)), k)) && (forall k string :: {unbox(e.Literal, `map[string]Expression`)[k]} decHas(old(text(b)), k) ==> unbox(e.Literal, `map[string]Expression`)[k] == decEntry(old(text(b)), k))
  ensures [none] old(!scalarText(text(b)) && !decListOK(text(b)) && !decMapOK(text(b))) ==> err != nil

// ---- writing an expression: the text of a literal reads back as the same literal, a conversion keeps its operator
uf fmt1(float64) string
uf whole(float64) bool
extern math.Trunc(x) (r)
  ensures fop(eq, x, r) == whole(x)
extern math.Abs(x) (r)
extern strconv.FormatFloat(f, fmt, prec, bits) (r)
  ensures fmt == 102 && prec == 1 ==> r == fmt1(f)
axiom forall v bool :: {encOf(box(v, bool))} decBoolOK(encOf(box(v, bool))) && decBool(encOf(box(v, bool))) == v
axiom forall v int64 :: {encOf(box(v, int64))} !decBoolOK(encOf(box(v, int64))) && decIntOK(encOf(box(v, int64))) && decInt(encOf(box(v, int64))) == v
axiom forall v string :: {encOf(box(v, string))} !decBoolOK(encOf(box(v, string))) && !decIntOK(encOf(box(v, string))) && !decFloatOK(encOf(box(v, string))) && decStrOK(encOf(box(v, string))) && decStr(encOf(box(v, string))) == v
axiom forall v float64 :: {encOf(box(v, float64))} !whole(v) ==> !decBoolOK(encOf(box(v, float64))) && !decIntOK(encOf(box(v, float64))) && decFloatOK(encOf(box(v, float64))) && decFloat(encOf(box(v, float64))) == v
axiom forall v float64 :: {fmt1(v)} whole(v) ==> !decBoolOK(fmt1(v)) && !decIntOK(fmt1(v)) && decFloatOK(fmt1(v)) && decFloat(fmt1(v)) == v
def literalOp(o string) bool = o == "@bool" || o == "@int" || o == "@float" || o == "@string" || o == "@list" || o == "@dict" || o == "@any"
def ownType(e *Expression) bool = (e.Op == "@bool" && typeis(e.Literal, bool)) || (e.Op == "@int" && typeis(e.Literal, int64)) || (e.Op == "@string" && typeis(e.Literal, string) && unbox(e.Literal, string) != "") || (e.Op == "@float" && typeis(e.Literal, float64) && !whole(unbox(e.Literal, float64)))
func (*Expression).MarshalJSON(e) (b, err)
  props C15
  requires e != nil
  ensures [literal] e.Arg == nil && ownType(e) && err == nil ==> scalarText(text(b)) && readOp(text(b)) == e.Op && readLit(text(b)) == e.Literal
  ensures [whole] e.Arg == nil && e.Op == "@float" && typeis(e.Literal, float64) && whole(unbox(e.Literal, float64)) && err == nil ==> text(b) == fmt1(unbox(e.Literal, float64)) || text(b) == encOf(e.Literal)
  ensures [op] e.Arg != nil && len(e.Op) > 0 && err == nil ==> text(b) == encOp(e.Op, e.Arg)
  ensures [noarg-op] e.Arg == nil && len(e.Op) > 0 && !literalOp(e.Op) && err == nil ==> text(b) == encOp(e.Op, e.Arg)
  ensures [list] e.Arg == nil && e.Op == "@list" && err == nil ==> typeis(e.Literal, `[]Expression`) && text(b) == encOf(e.Literal)

// ---- expressions made by the program
def intTyped(x any) bool = typeis(x, int) || typeis(x, int8) || typeis(x, int16) || typeis(x, int32) || typeis(x, int64) || typeis(x, uint) || typeis(x, uint8) || typeis(x, uint16) || typeis(x, uint32) || typeis(x, uint64)
def litOp(x any) string = typeis(x, bool) ? "@bool" : (intTyped(x) ? "@int" : (typeis(x, string) ? "@string" : "@float"))
def isLit(x any) bool = typeis(x, bool) || intTyped(x) || typeis(x, string) || typeis(x, float32) || typeis(x, float64)
func NewLiteralExpression(value) (r, err)
  props C15
  ensures [ok] (err == nil) == isLit(value)
  ensures [op] err == nil ==> r.Op == litOp(value) && r.Literal == value && r.Arg == nil
func NewJSONPathGetExpression(key) (r)
  props C15 C14
  ensures [get] r.Op == "@string" && r.Literal == box(key, string) && r.Arg == nil
func NewJSONPathSetExpression(key, value) (r, err)
  props C15 C14
  ensures [ok] (err == nil) == isLit(value)
  ensures [set] err == nil ==> r.Op == "@dict" && r.Arg == nil && typeis(r.Literal, `map[string]Expression`) && key in dom(unbox(r.Literal, `map[string]Expression`)) && (forall k string :: k in dom(unbox(r.Literal, `map[string]Expression`)) ==> k == key) && unbox(r.Literal, `map[string]Expression`)[key].Op == litOp(value) && unbox(r.Literal, `map[string]Expression`)[key].Literal == value
