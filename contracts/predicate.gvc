package github.com/l7mp/dcontroller/pkg/predicate

def basicName(s string) bool = s == "GenerationChanged" || s == "ResourceVersionChanged" || s == "LabelChanged" || s == "AnnotationChanged"

func (*BasicPredicate).ToPredicate(pw) (r, err)
  props C24
  requires pw != nil
  ensures [known] err == nil <==> basicName(*pw)
  ensures [some] err == nil <==> r != nil

func (*Predicate).ToPredicate(p) (r, err)
  props C24
  requires p != nil
  ensures [empty] p.BasicPredicate == nil && p.BoolPredicate == nil ==> err != nil
  ensures [basic] p.BasicPredicate != nil ==> (err == nil <==> basicName(*p.BasicPredicate))
  ensures [bool] p.BasicPredicate == nil && p.BoolPredicate != nil && card(dom(*p.BoolPredicate)) != 1 ==> err != nil

func (*BoolPredicate).ToPredicate(cp) (r, err)
  props C24
  requires cp != nil
  ensures [single] err == nil ==> card(dom(*cp)) == 1
  ensures [operator] err == nil ==> exists k string :: {(*cp)[k]} k in dom(*cp) && (k == "And" || k == "Or" || k == "Not" && len((*cp)[k]) == 1)
