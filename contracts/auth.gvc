package github.com/l7mp/dcontroller/pkg/auth

// ---- C17: what an entry of a rule covers
def patCovers(p string, v string) bool = prefixof("*", p) ? suffixof(substr(p, 1, len(p) - 1), v) :
    suffixof("*", p) ? prefixof(substr(p, 0, len(p) - 1), v) :
    contains(p, "*") && prefixof(substr(p, 0, indexof(p, "*", 0)), v) && suffixof(substr(p, indexof(p, "*", 0) + 1, len(p) - indexof(p, "*", 0) - 1), v)
def entryCovers(p string, v string) bool = p == "*" || p == v || (contains(p, "*") && patCovers(p, v))
def covers(vs []string, v string) bool = exists i int :: {vs[i]} 0 <= i && i < len(vs) && entryCovers(vs[i], v)
def collVerb(v string) bool = v == "list" || v == "watch" || v == "create" || v == "deletecollection"
def ruleCovers(rule rbacv1.PolicyRule, verb string, g string, res string, name string) bool =
    covers(rule.Verbs, verb) && covers(rule.APIGroups, g) && covers(rule.Resources, res) &&
    (collVerb(verb) || len(rule.ResourceNames) == 0 || name == "" || covers(rule.ResourceNames, name))

func matchesWildcard(pattern, value) (r)
  props C17
  strings
  ensures [pattern] r == patCovers(pattern, value)

func matches(ruleValues, requested) (r)
  props C17
  ensures [covers] r == covers(ruleValues, requested)
  loop 1
    invariant !(exists i int :: {ruleValues[i]} 0 <= i && i < $n && entryCovers(ruleValues[i], requested))

func init() ()
  props C17
  modifies collectionVerbs
  ensures [verbs] forall v string :: collectionVerbs[v] == collVerb(v)

func ruleMatches(rule, verb, apiGroup, resource, resourceName) (r)
  props C17
  assume forall v string :: {collectionVerbs[v]} collectionVerbs[v] == collVerb(v)
  ensures [covers] r == ruleCovers(rule, verb, apiGroup, resource, resourceName)

// the rules of a user: the JSON text in the extra field "rules", decoded
uf extraOf(any) map[string][]string
uf decodes(string) bool
uf decAllows(string, string, string, string, string) bool

iface k8s.io/apiserver/pkg/authentication/user.Info.GetExtra(u) (m)
  ensures m == extraOf(u)

// assumed of the standard library: decoding a text is a function of the text and the type decoded into; decAllows names what the decoded rules allow
uf decBoolOK(string) bool
uf decBool(string) bool
uf decIntOK(string) bool
uf decInt(string) int
uf decFloatOK(string) bool
uf decFloat(string) float64
uf decStrOK(string) bool
uf decStr(string) string
uf decListOK(string) bool
uf decLen(string) int
uf decElem(string, int) github.com/l7mp/dcontroller/pkg/expression.Expression
uf decMapOK(string) bool
uf decCount(string) int
uf decHas(string, string) bool
uf decEntry(string, string) github.com/l7mp/dcontroller/pkg/expression.Expression
extern encoding/json.Unmarshal(data, v) (err)
  modifies target(v)
  ensures typeis(v, `*[]rbacv1.PolicyRule`) ==> (err == nil) == decodes(old(text(data)))
  ensures typeis(v, `*[]rbacv1.PolicyRule`) && err == nil ==> forall verb, g, res, name string :: {decAllows(old(text(data)), verb, g, res, name)} decAllows(old(text(data)), verb, g, res, name) ==
     (exists i int :: {(*unbox(v, `*[]rbacv1.PolicyRule`))[i]} 0 <= i && i < len(*unbox(v, `*[]rbacv1.PolicyRule`)) && ruleCovers((*unbox(v, `*[]rbacv1.PolicyRule`))[i], verb, g, res, name))
  ensures typeis(v, `*bool`) ==> (err == nil) == decBoolOK(old(text(data))) && (err == nil ==> *unbox(v, `*bool`) == decBool(old(text(data))))
  ensures typeis(v, `*int64`) ==> (err == nil) == decIntOK(old(text(data))) && (err == nil ==> *unbox(v, `*int64`) == decInt(old(text(data))))
  ensures typeis(v, `*float64`) ==> (err == nil) == decFloatOK(old(text(data))) && (err == nil ==> *unbox(v, `*float64`) == decFloat(old(text(data))))
  ensures typeis(v, `*string`) ==> (err == nil) == decStrOK(old(text(data))) && (err == nil ==> *unbox(v, `*string`) == decStr(old(text(data))))
  ensures typeis(v, `*[]github.com/l7mp/dcontroller/pkg/expression.Expression`) ==> (err == nil) == decListOK(old(text(data)))
  ensures typeis(v, `*[]github.com/l7mp/dcontroller/pkg/expression.Expression`) && err == nil ==> len(*unbox(v, `*[]github.com/l7mp/dcontroller/pkg/expression.Expression`)) == decLen(old(text(data))) && forall i int :: {(*unbox(v, `*[]github.com/l7mp/dcontroller/pkg/expression.Expression`))[i]} 0 <= i && i < decLen(old(text(data))) ==> (*unbox(v, `*[]github.com/l7mp/dcontroller/pkg/expression.Expression`))[i] == decElem(old(text(data)), i)
  ensures typeis(v, `*map[string]github.com/l7mp/dcontroller/pkg/expression.Expression`) ==> (err == nil) == decMapOK(old(text(data))) && (err == nil ==> card(dom(*unbox(v, `*map[string]github.com/l7mp/dcontroller/pkg/expression.Expression`))) == decCount(old(text(data))))
  ensures typeis(v, `*map[string]github.com/l7mp/dcontroller/pkg/expression.Expression`) && err == nil ==> forall k string :: {k in dom(*unbox(v, `*map[string]github.com/l7mp/dcontroller/pkg/expression.Expression`))} (k in dom(*unbox(v, `*map[string]github.com/l7mp/dcontroller/pkg/expression.Expression`))) == decHas(old(text(data)), k)
  ensures typeis(v, `*map[string]github.com/l7mp/dcontroller/pkg/expression.Expression`) && err == nil ==> forall k string :: {(*unbox(v, `*map[string]github.com/l7mp/dcontroller/pkg/expression.Expression`))[k]} decHas(old(text(data)), k) ==> (*unbox(v, `*map[string]github.com/l7mp/dcontroller/pkg/expression.Expression`))[k] == decEntry(old(text(data)), k)

def rulesOf(u any) []string = extraOf(u)["rules"]
def rbacAllows(u any, verb string, g string, res string, name string) bool = len(rulesOf(u)) == 0 || (decodes(rulesOf(u)[0]) && decAllows(rulesOf(u)[0], verb, g, res, name))

func CheckRBACAccess(userInfo, verb, apiGroup, resource, resourceName) (r)
  props C17
  requires userInfo != nil
  ensures [decision] r == old(rbacAllows(userInfo, verb, apiGroup, resource, resourceName))
  loop 1
    invariant forall i int :: {rules[i]} 0 <= i && i < $n ==> !ruleCovers(rules[i], verb, apiGroup, resource, resourceName)
    var rules []rbacv1.PolicyRule

// ---- C18: namespace restriction and token authentication
uf attrUser(any) any
uf attrIsRes(any) bool
uf attrVerb(any) string
uf attrGroup(any) string
uf attrRes(any) string
uf attrName(any) string
uf attrNs(any) string
iface k8s.io/apiserver/pkg/authorization/authorizer.Attributes.GetUser(a) (r)
  ensures r == attrUser(a)
iface k8s.io/apiserver/pkg/authorization/authorizer.Attributes.IsResourceRequest(a) (r)
  ensures r == attrIsRes(a)
iface k8s.io/apiserver/pkg/authorization/authorizer.Attributes.GetVerb(a) (r)
  ensures r == attrVerb(a)
iface k8s.io/apiserver/pkg/authorization/authorizer.Attributes.GetAPIGroup(a) (r)
  ensures r == attrGroup(a)
iface k8s.io/apiserver/pkg/authorization/authorizer.Attributes.GetResource(a) (r)
  ensures r == attrRes(a)
iface k8s.io/apiserver/pkg/authorization/authorizer.Attributes.GetName(a) (r)
  ensures r == attrName(a)
iface k8s.io/apiserver/pkg/authorization/authorizer.Attributes.GetNamespace(a) (r)
  ensures r == attrNs(a)

def nsOf(u any) []string = extraOf(u)["namespaces"]
def hasNs(u any, ns string) bool = exists i int :: {nsOf(u)[i]} 0 <= i && i < len(nsOf(u)) && nsOf(u)[i] == ns
def nsOk(u any, ns string) bool = len(nsOf(u)) == 0 || hasNs(u, "*") || (ns != "" && hasNs(u, ns))

func (*CompositeAuthorizer).Authorize(a, ctx, attr) (d, reason, err)
  props C17 C18
  requires attr != nil
  ensures [no-error] err == nil
  ensures [no-user] attrUser(attr) == nil ==> d == authorizer.DecisionDeny
  ensures [namespace] attrUser(attr) != nil && attrIsRes(attr) && !old(nsOk(attrUser(attr), attrNs(attr))) ==> d == authorizer.DecisionDeny
  ensures [rbac] attrUser(attr) != nil && attrIsRes(attr) && d == authorizer.DecisionAllow ==> old(rbacAllows(attrUser(attr), attrVerb(attr), attrGroup(attr), attrRes(attr), attrName(attr)))
  ensures [complete] attrUser(attr) != nil && attrIsRes(attr) && old(rbacAllows(attrUser(attr), attrVerb(attr), attrGroup(attr), attrRes(attr), attrName(attr))) && old(nsOk(attrUser(attr), attrNs(attr))) ==> d == authorizer.DecisionAllow
  ensures [decided] d == authorizer.DecisionAllow || d == authorizer.DecisionDeny
  ensures [discovery] attrUser(attr) != nil && !attrIsRes(attr) ==> d == authorizer.DecisionAllow
  loop 1
    invariant forall i int :: {nsOf(attrUser(attr))[i]} 0 <= i && i < $n ==> nsOf(attrUser(attr))[i] != "*"
  loop 2
    invariant forall i int :: {nsOf(attrUser(attr))[i]} 0 <= i && i < $n ==> nsOf(attrUser(attr))[i] != attrNs(attr)

uf hdrGet(map[string][]string, string) string
uf tokOk(string, any) bool
uf tokUser(string) string
uf tokNs(string) []string
uf tokRules(string) []rbacv1.PolicyRule
extern (net/http.Header).Get(h, k) (r)
  ensures r == hdrGet(h, k)
extern (*encoding/json.Encoder).Encode(e, v) (err)

// assumed of the JWT library: it accepts a text only when signature (under the key the callback gives), expiry and not-before hold
extern github.com/golang-jwt/jwt/v5.ParseWithClaims(tok, claims, keyFunc, opts) (t, err)
  modifies target(claims)
  ensures err == nil ==> t != nil
  ensures err == nil && t.Valid && typeis(claims, `*Claims`) ==> tokOk(tok, keyFunc) && unbox(claims, `*Claims`).Username == tokUser(tok) && unbox(claims, `*Claims`).Namespaces == tokNs(tok) && unbox(claims, `*Claims`).Rules == tokRules(tok)

func (*JWTAuthenticator).AuthenticateRequest$1(token) (key, err)
  props C18
  requires token != nil
  ensures [algorithm] err == nil ==> typeis(token.Method, `*jwt.SigningMethodRSA`)
  ensures [key] err == nil ==> key == box((*a).publicKey, `*rsa.PublicKey`)

def bearer(h map[string][]string) string = hdrGet(h, "Authorization")
def tokenText(h map[string][]string) string = substr(bearer(h), 7, len(bearer(h)) - 7)

func (*JWTAuthenticator).AuthenticateRequest(a, req) (resp, ok, err)
  props C18
  requires req != nil
  ensures [bearer] ok ==> err == nil && resp != nil && prefixof("Bearer ", bearer(req.Header))
  ensures [valid] ok ==> exists f any :: tokOk(tokenText(req.Header), f)
  ensures [identity] ok ==> typeis(resp.User, `*user.DefaultInfo`) && unbox(resp.User, `*user.DefaultInfo`).Name == tokUser(tokenText(req.Header))
  ensures [namespaces] ok ==> ("namespaces" in dom(unbox(resp.User, `*user.DefaultInfo`).Extra)) == (len(tokNs(tokenText(req.Header))) > 0)
  ensures [namespaces-value] ok && len(tokNs(tokenText(req.Header))) > 0 ==> unbox(resp.User, `*user.DefaultInfo`).Extra["namespaces"] == tokNs(tokenText(req.Header))
  ensures [rules] ok ==> ("rules" in dom(unbox(resp.User, `*user.DefaultInfo`).Extra)) == (len(tokRules(tokenText(req.Header))) > 0)
  ensures [rules-value] ok && len(tokRules(tokenText(req.Header))) > 0 ==> len(unbox(resp.User, `*user.DefaultInfo`).Extra["rules"]) == 1 && unbox(resp.User, `*user.DefaultInfo`).Extra["rules"][0] == jsonOfRules(tokRules(tokenText(req.Header)))

uf jsonOfRules([]rbacv1.PolicyRule) string
// the encoding of a value is a function of the value; a map of one entry is encoded by its key and value
uf encOf(any) string
uf encOp(string, *github.com/l7mp/dcontroller/pkg/expression.Expression) string
extern encoding/json.Marshal(v) (data, err)
  ensures err == nil && typeis(v, `[]rbacv1.PolicyRule`) ==> text(data) == jsonOfRules(unbox(v, `[]rbacv1.PolicyRule`))
  ensures err == nil ==> fresh(data)
  ensures typeis(v, bool) || typeis(v, int64) || typeis(v, string) ==> err == nil
  ensures err == nil && !typeis(v, `map[string]*github.com/l7mp/dcontroller/pkg/expression.Expression`) ==> text(data) == encOf(v)
  ensures err == nil && typeis(v, `map[string]*github.com/l7mp/dcontroller/pkg/expression.Expression`) ==> forall k string :: {unbox(v, `map[string]*github.com/l7mp/dcontroller/pkg/expression.Expression`)[k]} k in dom(unbox(v, `map[string]*github.com/l7mp/dcontroller/pkg/expression.Expression`)) && (forall j string :: j in dom(unbox(v, `map[string]*github.com/l7mp/dcontroller/pkg/expression.Expression`)) ==> j == k) ==> text(data) == encOp(k, unbox(v, `map[string]*github.com/l7mp/dcontroller/pkg/expression.Expression`)[k])
