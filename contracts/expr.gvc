package github.com/l7mp/dcontroller/pkg/expression

// ---- evaluation: the value an expression has on an object and a local subject
uf evalOK(Expression, any, any) bool
uf evalV(Expression, any, any) any
uf deepEq(any, any) bool
def hasArgs(p *Expression) bool = p != nil && p.Op == "@list" && typeis(p.Literal, `[]Expression`)
def argsOf(p *Expression) []Expression = unbox(p.Literal, `[]Expression`)
def okE(es []Expression, i int, o any, s any) bool = evalOK(es[i], o, s)
def valE(es []Expression, i int, o any, s any) any = evalV(es[i], o, s)
def pairOf(es []Expression, i int) []Expression = unbox(es[i].Literal, `[]Expression`)
def isPair(es []Expression, i int) bool = es[i].Op == "@list" && typeis(es[i].Literal, `[]Expression`) && len(pairOf(es, i)) == 2
def pairOK(es []Expression, i int, j int, o any, s any) bool = evalOK(pairOf(es, i)[j], o, s)
def pairV(es []Expression, i int, j int, o any, s any) any = evalV(pairOf(es, i)[j], o, s)
def isTrue(x any) bool = x == box(true, bool)
def isFalse(x any) bool = x == box(false, bool)
recdef kept(c Expression, o any, l []any, n int) int = n <= 0 ? 0 : kept(c, o, l, n - 1) + (isTrue(evalV(c, o, l[n - 1])) ? 1 : 0)
recdef sumI(l []any, n int) int = n <= 0 ? 0 : sumI(l, n - 1) + intOf(l[n - 1])
recdef sumF(l []any, n int) float64 = n <= 0 ? fzero() : fop(add, sumF(l, n - 1), numOf(l[n - 1]))
recdef catS(l []any, n int) string = n <= 0 ? "" : catS(l, n - 1) + unbox(l[n - 1], string)

extern slices.Min(x) (r)
  ensures len(x) > 0 ==> (forall i int :: {x[i]} 0 <= i && i < len(x) ==> r <= x[i]) && (exists i int :: {x[i]} 0 <= i && i < len(x) && r == x[i])
extern slices.Max(x) (r)
  ensures len(x) > 0 ==> (forall i int :: {x[i]} 0 <= i && i < len(x) ==> r >= x[i]) && (exists i int :: {x[i]} 0 <= i && i < len(x) && r == x[i])
extern reflect.DeepEqual(a, b) (r)
  ensures r == deepEq(a, b)

func (*Expression).String(e) (r)
  trusted text of the expression, used in messages only
func NewExpressionError(e, err) (r)
  trusted an error value
  ensures r != nil
func NewInvalidArgumentsError(content) (r)
  trusted an error value
  ensures r != nil
func unpackList(a) (r)
  trusted flattens a list whose first element is a list (bounded stand-in under C13)
  ensures isList(a) && (len(listOf(a)) == 0 || !isList(listOf(a)[0])) ==> len(r) == len(listOf(a)) && forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == listOf(a)[i]

func MatchLabels(labels, selector) (r, err)
  trusted label matching itself is replayed under C24

func AsExpOrExpList(d) (r, err)
  props C11 C12 C13
  ensures [list] typeis(d, `*Expression`) && hasArgs(unbox(d, `*Expression`)) ==> err == nil && r == argsOf(unbox(d, `*Expression`))
  ensures [one] typeis(d, `*Expression`) && unbox(d, `*Expression`) != nil && unbox(d, `*Expression`).Op != "@list" ==> err == nil && len(r) == 1 && r[0] == *unbox(d, `*Expression`)
  ensures [no] typeis(d, `*Expression`) && unbox(d, `*Expression`) == nil ==> err != nil

func (*Expression).Evaluate(e, ctx) (r, err)
  props C11 C12 C13
  noframe
  reads e
  maxpaths 20000
  gives [named] e != nil ==> (err == nil) == evalOK(*e, ctx.Object, ctx.Subject)
  gives [named] e != nil && err == nil ==> r == evalV(*e, ctx.Object, ctx.Subject)
  gives [json] err == nil ==> json(r) && allJson(r)
  ensures [C11-and-all] e != nil && old(e.Op) == "@and" && old(hasArgs(e.Arg)) && err == nil && isTrue(r) ==> forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < old(len(argsOf(e.Arg))) ==> old(okE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)) && old(isTrue(valE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)))
  ensures [C11-and-some] e != nil && old(e.Op) == "@and" && old(hasArgs(e.Arg)) && err == nil && isFalse(r) ==> exists i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < old(len(argsOf(e.Arg))) && old(okE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)) && old(isFalse(valE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)))
  ensures [C11-and-bool] e != nil && old(e.Op) == "@and" && old(hasArgs(e.Arg)) && err == nil ==> isTrue(r) || isFalse(r)
  ensures [C11-and-lazy] e != nil && old(e.Op) == "@and" && old(hasArgs(e.Arg)) ==> forall k int :: {old(argsOf(e.Arg)[k])} 0 <= k && k < old(len(argsOf(e.Arg))) && old(okE(argsOf(e.Arg), k, ctx.Object, ctx.Subject)) && old(isFalse(valE(argsOf(e.Arg), k, ctx.Object, ctx.Subject))) && (forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < k ==> old(okE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)) && old(isTrue(valE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)))) ==> err == nil && isFalse(r)
  ensures [C11-and-total] e != nil && old(e.Op) == "@and" && old(hasArgs(e.Arg)) && (forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < old(len(argsOf(e.Arg))) ==> old(okE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)) && old(isTrue(valE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)))) ==> err == nil && isTrue(r)
  ensures [C11-or-all] e != nil && old(e.Op) == "@or" && old(hasArgs(e.Arg)) && err == nil && isFalse(r) ==> forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < old(len(argsOf(e.Arg))) ==> old(okE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)) && old(isFalse(valE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)))
  ensures [C11-or-some] e != nil && old(e.Op) == "@or" && old(hasArgs(e.Arg)) && err == nil && isTrue(r) ==> exists i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < old(len(argsOf(e.Arg))) && old(okE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)) && old(isTrue(valE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)))
  ensures [C11-or-bool] e != nil && old(e.Op) == "@or" && old(hasArgs(e.Arg)) && err == nil ==> isTrue(r) || isFalse(r)
  ensures [C11-or-lazy] e != nil && old(e.Op) == "@or" && old(hasArgs(e.Arg)) ==> forall k int :: {old(argsOf(e.Arg)[k])} 0 <= k && k < old(len(argsOf(e.Arg))) && old(okE(argsOf(e.Arg), k, ctx.Object, ctx.Subject)) && old(isTrue(valE(argsOf(e.Arg), k, ctx.Object, ctx.Subject))) && (forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < k ==> old(okE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)) && old(isFalse(valE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)))) ==> err == nil && isTrue(r)
  ensures [C11-or-total] e != nil && old(e.Op) == "@or" && old(hasArgs(e.Arg)) && (forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < old(len(argsOf(e.Arg))) ==> old(okE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)) && old(isFalse(valE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)))) ==> err == nil && isFalse(r)
  ensures [C11-not] e != nil && old(e.Arg) != nil && old(e.Op) == "@not" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(typeis(evalV(*e.Arg, ctx.Object, ctx.Subject), bool)) ==> err == nil && r == box(!old(unbox(evalV(*e.Arg, ctx.Object, ctx.Subject), bool)), bool)
  ensures [C11-not-type] e != nil && old(e.Arg) != nil && old(e.Op) == "@not" && !(old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(typeis(evalV(*e.Arg, ctx.Object, ctx.Subject), bool))) ==> err != nil
  ensures [C11-isnil] e != nil && old(e.Arg) != nil && old(e.Op) == "@isnil" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) ==> err == nil && r == box(old(evalV(*e.Arg, ctx.Object, ctx.Subject)) == nil, bool)
  ensures [C11-exists] e != nil && old(e.Arg) != nil && old(e.Op) == "@exists" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) ==> err == nil && r == box(old(evalV(*e.Arg, ctx.Object, ctx.Subject)) != nil, bool)
  ensures [C11-has] e != nil && old(e.Arg) != nil && old(e.Op) == "@has" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) ==> err == nil && r == box(old(evalV(*e.Arg, ctx.Object, ctx.Subject)) != nil, bool)
  ensures [C11-cond-then] e != nil && old(e.Op) == "@cond" && old(hasArgs(e.Arg)) && (old(len(argsOf(e.Arg))) == 2 || old(len(argsOf(e.Arg))) == 3) && old(okE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject)) && old(isTrue(valE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject))) ==> (err == nil) == old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && (err == nil ==> r == old(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))
  ensures [C11-cond-else] e != nil && old(e.Op) == "@cond" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 3 && old(okE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject)) && old(isFalse(valE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject))) ==> (err == nil) == old(okE(argsOf(e.Arg), 2, ctx.Object, ctx.Subject)) && (err == nil ==> r == old(valE(argsOf(e.Arg), 2, ctx.Object, ctx.Subject)))
  ensures [C11-cond-none] e != nil && old(e.Op) == "@cond" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject)) && old(isFalse(valE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject))) ==> err == nil && r == nil
  ensures [C11-cond-bad] e != nil && old(e.Op) == "@cond" && old(hasArgs(e.Arg)) && ((old(len(argsOf(e.Arg))) != 2 && old(len(argsOf(e.Arg))) != 3) || !old(okE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject)) || !old(typeis(valE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject), bool))) ==> err != nil
  ensures [C11-definedOr] e != nil && old(e.Op) == "@definedOr" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject)) && old(valE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject)) != nil ==> err == nil && r == old(valE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject))
  ensures [C11-definedOr-default] e != nil && old(e.Op) == "@definedOr" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject)) && old(valE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject)) == nil ==> (err == nil) == old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && (err == nil ==> r == old(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))
  ensures [C11-definedOr-bad] e != nil && old(e.Op) == "@definedOr" && old(hasArgs(e.Arg)) && (old(len(argsOf(e.Arg))) != 2 || !old(okE(argsOf(e.Arg), 0, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C11-switch-first] e != nil && old(e.Op) == "@switch" && old(hasArgs(e.Arg)) ==> forall k int :: {old(argsOf(e.Arg)[k])} 0 <= k && k < old(len(argsOf(e.Arg))) && old(isPair(argsOf(e.Arg), k)) && old(pairOK(argsOf(e.Arg), k, 0, ctx.Object, ctx.Subject)) && old(isTrue(pairV(argsOf(e.Arg), k, 0, ctx.Object, ctx.Subject))) && (forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < k ==> old(isPair(argsOf(e.Arg), i)) && old(pairOK(argsOf(e.Arg), i, 0, ctx.Object, ctx.Subject)) && old(isFalse(pairV(argsOf(e.Arg), i, 0, ctx.Object, ctx.Subject)))) ==> (err == nil) == old(pairOK(argsOf(e.Arg), k, 1, ctx.Object, ctx.Subject)) && (err == nil ==> r == old(pairV(argsOf(e.Arg), k, 1, ctx.Object, ctx.Subject)))
  ensures [C11-switch-none] e != nil && old(e.Op) == "@switch" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) > 0 && (forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < old(len(argsOf(e.Arg))) ==> old(isPair(argsOf(e.Arg), i)) && old(pairOK(argsOf(e.Arg), i, 0, ctx.Object, ctx.Subject)) && old(isFalse(pairV(argsOf(e.Arg), i, 0, ctx.Object, ctx.Subject)))) ==> err == nil && r == nil
  ensures [C11-switch-bad] e != nil && old(e.Op) == "@switch" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 0 ==> err != nil
  ensures [C11-any-full] e != nil && old(e.Op) == "@any" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) && (forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < old(len(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isFalse(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))) ==> err == nil && isFalse(r)
  ensures [C11-any-stop] e != nil && old(e.Op) == "@any" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) ==> forall k int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[k])} 0 <= k && k < old(len(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) && old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[k])) && old(isTrue(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[k]))) && (forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < k ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isFalse(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))) ==> err == nil && isTrue(r)
  ensures [C11-any-bool] e != nil && old(e.Op) == "@any" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) && err == nil ==> isTrue(r) || isFalse(r)
  ensures [C11-any-only] e != nil && old(e.Op) == "@any" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) && err == nil && isFalse(r) ==> forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < old(len(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isFalse(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))
  ensures [C11-any-bad] e != nil && old(e.Op) == "@any" && old(hasArgs(e.Arg)) && (old(len(argsOf(e.Arg))) != 2 || !old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) || !old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> err != nil
  ensures [C11-none-full] e != nil && old(e.Op) == "@none" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) && (forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < old(len(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isFalse(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))) ==> err == nil && isTrue(r)
  ensures [C11-none-stop] e != nil && old(e.Op) == "@none" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) ==> forall k int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[k])} 0 <= k && k < old(len(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) && old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[k])) && old(isTrue(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[k]))) && (forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < k ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isFalse(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))) ==> err == nil && isFalse(r)
  ensures [C11-none-bool] e != nil && old(e.Op) == "@none" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) && err == nil ==> isTrue(r) || isFalse(r)
  ensures [C11-none-only] e != nil && old(e.Op) == "@none" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) && err == nil && isTrue(r) ==> forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < old(len(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isFalse(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))
  ensures [C11-none-bad] e != nil && old(e.Op) == "@none" && old(hasArgs(e.Arg)) && (old(len(argsOf(e.Arg))) != 2 || !old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) || !old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> err != nil
  ensures [C11-all-full] e != nil && old(e.Op) == "@all" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) && (forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < old(len(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isTrue(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))) ==> err == nil && isTrue(r)
  ensures [C11-all-stop] e != nil && old(e.Op) == "@all" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) ==> forall k int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[k])} 0 <= k && k < old(len(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) && old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[k])) && old(isFalse(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[k]))) && (forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < k ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isTrue(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))) ==> err == nil && isFalse(r)
  ensures [C11-all-bool] e != nil && old(e.Op) == "@all" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) && err == nil ==> isTrue(r) || isFalse(r)
  ensures [C11-all-only] e != nil && old(e.Op) == "@all" && old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 && old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) && old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))) && err == nil && isTrue(r) ==> forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < old(len(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isTrue(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))
  ensures [C11-all-bad] e != nil && old(e.Op) == "@all" && old(hasArgs(e.Arg)) && (old(len(argsOf(e.Arg))) != 2 || !old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) || !old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> err != nil
  ensures [C13-map-bad] e != nil && old(e.Op) == "@map" && old(hasArgs(e.Arg)) && (old(len(argsOf(e.Arg))) != 2 || !old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) || !old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> err != nil
  ensures [C13-filter-bad] e != nil && old(e.Op) == "@filter" && old(hasArgs(e.Arg)) && (old(len(argsOf(e.Arg))) != 2 || !old(okE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)) || !old(isList(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject)))) ==> err != nil
  ensures [C13-len] e != nil && old(e.Arg) != nil && old(e.Op) == "@len" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(isList(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))), int64)
  ensures [C13-len-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@len" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(isList(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C13-in] e != nil && old(e.Arg) != nil && old(e.Op) == "@in" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(isList(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) == 2 && old(isList(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])) ==> err == nil && r == box(exists i int :: {old(listOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])[i])} 0 <= i && i < old(len(listOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1]))) && old(deepEq(listOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])[i], listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])), bool)
  ensures [C13-in-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@in" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !(old(isList(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) == 2 && old(isList(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1]))) ==> err != nil
  ensures [C12-eq] e != nil && old(e.Arg) != nil && old(e.Op) == "@eq" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(isList(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) == 2 ==> err == nil && r == box(old(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0]) != nil && old(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1]) != nil && old(deepEq(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0], listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), bool)
  ensures [C12-eq-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@eq" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !(old(isList(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) == 2) ==> err != nil
  ensures [C12-lt-int] e != nil && old(e.Arg) != nil && old(e.Op) == "@lt" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) < old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), bool)
  ensures [C12-lt-float] e != nil && old(e.Arg) != nil && old(e.Op) == "@lt" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) < old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), bool)
  ensures [C12-lt-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@lt" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && !old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C12-lte-int] e != nil && old(e.Arg) != nil && old(e.Op) == "@lte" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) <= old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), bool)
  ensures [C12-lte-float] e != nil && old(e.Arg) != nil && old(e.Op) == "@lte" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) <= old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), bool)
  ensures [C12-lte-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@lte" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && !old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C12-gt-int] e != nil && old(e.Arg) != nil && old(e.Op) == "@gt" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) > old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), bool)
  ensures [C12-gt-float] e != nil && old(e.Arg) != nil && old(e.Op) == "@gt" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) > old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), bool)
  ensures [C12-gt-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@gt" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && !old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C12-gte-int] e != nil && old(e.Arg) != nil && old(e.Op) == "@gte" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) >= old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), bool)
  ensures [C12-gte-float] e != nil && old(e.Arg) != nil && old(e.Op) == "@gte" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) >= old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), bool)
  ensures [C12-gte-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@gte" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && !old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C12-add-int] e != nil && old(e.Arg) != nil && old(e.Op) == "@add" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) + old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), int64)
  ensures [C12-add-float] e != nil && old(e.Arg) != nil && old(e.Op) == "@add" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(fop(add, old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])), old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1]))), float64)
  ensures [C12-add-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@add" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && !old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C12-sub-int] e != nil && old(e.Arg) != nil && old(e.Op) == "@sub" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) - old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), int64)
  ensures [C12-sub-float] e != nil && old(e.Arg) != nil && old(e.Op) == "@sub" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(fop(sub, old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])), old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1]))), float64)
  ensures [C12-sub-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@sub" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && !old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C12-mul-int] e != nil && old(e.Arg) != nil && old(e.Op) == "@mul" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) * old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])), int64)
  ensures [C12-mul-float] e != nil && old(e.Arg) != nil && old(e.Op) == "@mul" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(fop(mul, old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])), old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1]))), float64)
  ensures [C12-mul-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@mul" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && !old(twoNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C12-div] e != nil && old(e.Arg) != nil && old(e.Op) == "@div" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(isList(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) == 2 && (old(isInt(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) || old(isNum(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0]))) && (old(isInt(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])) || old(isNum(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1]))) ==> err == nil && r == box(fop(div, old(isInt(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) ? flt(old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0]))) : old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])), old(isInt(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])) ? flt(old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1]))) : old(numOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1]))), float64)
  ensures [C12-div-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@div" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !(old(isList(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) == 2 && (old(isInt(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) || old(isNum(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0]))) && (old(isInt(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])) || old(isNum(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])))) ==> err != nil
  ensures [C12-sum-int] e != nil && old(e.Arg) != nil && old(e.Op) == "@sum" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(allInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(sumI(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)), len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))))), int64)
  ensures [C12-sum-float] e != nil && old(e.Arg) != nil && old(e.Op) == "@sum" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(allInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(allNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(sumF(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)), len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))))), float64)
  ensures [C12-sum-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@sum" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(allInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && !old(allNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C12-min-int] e != nil && old(e.Arg) != nil && old(e.Op) == "@min" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(allInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) > 0 ==> err == nil && typeis(r, int64) && (forall i int :: {old(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[i])} 0 <= i && i < old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) ==> unbox(r, int64) <= old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[i]))) && (exists i int :: {old(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[i])} 0 <= i && i < old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) && unbox(r, int64) == old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[i])))
  ensures [C12-min-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@min" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(allInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && !old(allNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C12-max-int] e != nil && old(e.Arg) != nil && old(e.Op) == "@max" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(allInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) > 0 ==> err == nil && typeis(r, int64) && (forall i int :: {old(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[i])} 0 <= i && i < old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) ==> unbox(r, int64) >= old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[i]))) && (exists i int :: {old(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[i])} 0 <= i && i < old(len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)))) && unbox(r, int64) == old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[i])))
  ensures [C12-max-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@max" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(allInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && !old(allNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C12-range] e != nil && old(e.Arg) != nil && old(e.Op) == "@range" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && isList(r) && len(listOf(r)) == (old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])) > old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) ? old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])) - old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) : 0) && forall i int :: {listOf(r)[i]} 0 <= i && i < len(listOf(r)) ==> listOf(r)[i] == box(old(intOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0])) + i, int64)
  ensures [C12-range-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@range" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(twoInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C13-concat] e != nil && old(e.Arg) != nil && old(e.Op) == "@concat" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && old(allStrs(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err == nil && r == box(old(catS(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)), len(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))))), string)
  ensures [C13-concat-bad] e != nil && old(e.Arg) != nil && old(e.Op) == "@concat" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && !old(isList(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> err != nil
  ensures [C13-noarg] e != nil && old(e.Arg) == nil && old(len(e.Op)) > 0 && (old(e.Op) == "@isnil" || old(e.Op) == "@exists" || old(e.Op) == "@has" || old(e.Op) == "@not" || old(e.Op) == "@eq" || old(e.Op) == "@rnd" || old(e.Op) == "@lt" || old(e.Op) == "@lte" || old(e.Op) == "@gt" || old(e.Op) == "@gte" || old(e.Op) == "@selector" || old(e.Op) == "@abs" || old(e.Op) == "@ceil" || old(e.Op) == "@floor" || old(e.Op) == "@add" || old(e.Op) == "@sub" || old(e.Op) == "@mul" || old(e.Op) == "@div" || old(e.Op) == "@sum" || old(e.Op) == "@min" || old(e.Op) == "@max" || old(e.Op) == "@len" || old(e.Op) == "@in" || old(e.Op) == "@concat" || old(e.Op) == "@range" || old(e.Op) == "@hash") ==> err != nil
  ensures [C13-argerr] e != nil && old(e.Arg) != nil && !old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) && (old(e.Op) == "@isnil" || old(e.Op) == "@exists" || old(e.Op) == "@has" || old(e.Op) == "@not" || old(e.Op) == "@eq" || old(e.Op) == "@rnd" || old(e.Op) == "@lt" || old(e.Op) == "@lte" || old(e.Op) == "@gt" || old(e.Op) == "@gte" || old(e.Op) == "@selector" || old(e.Op) == "@abs" || old(e.Op) == "@ceil" || old(e.Op) == "@floor" || old(e.Op) == "@add" || old(e.Op) == "@sub" || old(e.Op) == "@mul" || old(e.Op) == "@div" || old(e.Op) == "@sum" || old(e.Op) == "@min" || old(e.Op) == "@max" || old(e.Op) == "@len" || old(e.Op) == "@in" || old(e.Op) == "@concat" || old(e.Op) == "@range" || old(e.Op) == "@hash") ==> err != nil
  ensures [C13-empty] e == nil || old(len(e.Op)) == 0 ==> err != nil
  ensures [C13-bool-lit] e != nil && old(e.Arg) == nil && old(e.Op) == "@bool" && old(json(e.Literal)) ==> (err == nil) == old(typeis(e.Literal, bool)) && (err == nil ==> r == box(old(unbox(e.Literal, bool)), bool))
  ensures [C13-bool-conv] e != nil && old(e.Arg) != nil && old(e.Op) == "@bool" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) ==> (err == nil) == old(typeis(evalV(*e.Arg, ctx.Object, ctx.Subject), bool)) && (err == nil ==> r == box(old(unbox(evalV(*e.Arg, ctx.Object, ctx.Subject), bool)), bool))
  ensures [C13-int-lit] e != nil && old(e.Arg) == nil && old(e.Op) == "@int" && old(json(e.Literal)) ==> (err == nil) == old(isInt(e.Literal)) && (err == nil ==> r == box(old(intOf(e.Literal)), int64))
  ensures [C13-int-conv] e != nil && old(e.Arg) != nil && old(e.Op) == "@int" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) ==> (err == nil) == old(isInt(evalV(*e.Arg, ctx.Object, ctx.Subject))) && (err == nil ==> r == box(old(intOf(evalV(*e.Arg, ctx.Object, ctx.Subject))), int64))
  ensures [C13-float-lit] e != nil && old(e.Arg) == nil && old(e.Op) == "@float" && old(json(e.Literal)) ==> (err == nil) == old(isNum(e.Literal)) && (err == nil ==> r == box(old(numOf(e.Literal)), float64))
  ensures [C13-float-conv] e != nil && old(e.Arg) != nil && old(e.Op) == "@float" && old(evalOK(*e.Arg, ctx.Object, ctx.Subject)) ==> (err == nil) == old(isNum(evalV(*e.Arg, ctx.Object, ctx.Subject))) && (err == nil ==> r == box(old(numOf(evalV(*e.Arg, ctx.Object, ctx.Subject))), float64))
  ensures [C13-list] e != nil && old(e.Op) == "@list" && old(e.Arg) == nil && old(typeis(e.Literal, `[]Expression`)) && old(len(argsOf(e))) > 0 && err == nil && !old(isList(valE(argsOf(e), 0, ctx.Object, ctx.Subject))) ==> isList(r) && len(listOf(r)) == old(len(argsOf(e))) && forall i int :: {listOf(r)[i]} 0 <= i && i < len(listOf(r)) ==> old(okE(argsOf(e), i, ctx.Object, ctx.Subject)) && listOf(r)[i] == old(valE(argsOf(e), i, ctx.Object, ctx.Subject))
  loop 1
    var ret []any
    invariant cap(ret) == 0 || fresh(ret)
    invariant len(ret) == $n && (forall i int :: {ret[i]} 0 <= i && i < $n ==> old(okE(argsOf(e), i, ctx.Object, ctx.Subject)) && ret[i] == old(valE(argsOf(e), i, ctx.Object, ctx.Subject)))
  loop 2
  loop 3
    invariant old(e.Op) == "@switch" && (old(hasArgs(e.Arg)) ==> forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < $n && old(isPair(argsOf(e.Arg), i)) ==> old(pairOK(argsOf(e.Arg), i, 0, ctx.Object, ctx.Subject)) && old(isFalse(pairV(argsOf(e.Arg), i, 0, ctx.Object, ctx.Subject))))
  loop 4
    invariant old(e.Op) == "@and" && (old(hasArgs(e.Arg)) ==> forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < $n ==> old(okE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)) && old(isTrue(valE(argsOf(e.Arg), i, ctx.Object, ctx.Subject))))
  loop 5
    invariant old(e.Op) == "@or" && (old(hasArgs(e.Arg)) ==> forall i int :: {old(argsOf(e.Arg)[i])} 0 <= i && i < $n ==> old(okE(argsOf(e.Arg), i, ctx.Object, ctx.Subject)) && old(isFalse(valE(argsOf(e.Arg), i, ctx.Object, ctx.Subject))))
  loop 7
    invariant old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 ==> forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < $n ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isFalse(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))
  loop 8
    invariant old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 ==> forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < $n ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isFalse(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))
  loop 9
    invariant old(hasArgs(e.Arg)) && old(len(argsOf(e.Arg))) == 2 ==> forall i int :: {old(listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])} 0 <= i && i < $n ==> old(evalOK(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])) && old(isTrue(evalV(argsOf(e.Arg)[0], ctx.Object, listOf(valE(argsOf(e.Arg), 1, ctx.Object, ctx.Subject))[i])))
  loop 11
    var vi int64
    var i int
    invariant old(allInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> vi == old(sumI(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)), i + 1))
    invariant -1 <= i
  loop 12
    var vf float64
    var i int
    invariant !old(allInts(evalV(*e.Arg, ctx.Object, ctx.Subject))) && old(allNums(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> vf == old(sumF(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)), i + 1))
    invariant -1 <= i
  loop 13
    var i int
    invariant -1 <= i
    invariant forall j int :: {old(listOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])[j])} 0 <= j && j <= i ==> !old(deepEq(listOf(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[1])[j], listOf(evalV(*e.Arg, ctx.Object, ctx.Subject))[0]))
  loop 14
    var v string
    var i int
    invariant -1 <= i
    invariant old(allStrs(evalV(*e.Arg, ctx.Object, ctx.Subject))) ==> v == old(catS(listOf(evalV(*e.Arg, ctx.Object, ctx.Subject)), i + 1))
  loop 15
    var result []any
    var args []int64
    var i int64
    invariant cap(result) == 0 || fresh(result)
    invariant args[0] <= i && (args[0] <= args[1] ==> i <= args[1]) && len(result) == i - args[0]
    invariant forall j int :: {result[j]} 0 <= j && j < len(result) ==> result[j] == box(args[0] + j, int64)
