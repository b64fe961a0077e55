package c17

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apiserver/pkg/authentication/user"
	"k8s.io/apiserver/pkg/authorization/authorizer"

	"github.com/l7mp/dcontroller/pkg/auth"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

type req struct{ Verb, Group, Resource, Name string }

// independent oracle; ok=false: the case is not settled by the property (overlapping parts of a middle asterisk)
func entry(p, v string) (bool, bool) {
	switch n := strings.Count(p, "*"); {
	case p == "*" || p == v:
		return true, true
	case n == 0:
		return false, true
	case n == 1 && p[0] == '*':
		return len(v) >= len(p)-1 && v[len(v)-len(p)+1:] == p[1:], true
	case n == 1 && p[len(p)-1] == '*':
		return len(v) >= len(p)-1 && v[:len(p)-1] == p[:len(p)-1], true
	case n == 1:
		i := strings.IndexByte(p, '*')
		pre, suf := p[:i], p[i+1:]
		if len(v) >= len(pre)+len(suf) {
			return v[:len(pre)] == pre && v[len(v)-len(suf):] == suf, true
		}
		if !strings.HasPrefix(v, pre) || !strings.HasSuffix(v, suf) {
			return false, true
		}
	}
	return false, false
}

func covers(ps []string, v string) (bool, bool) {
	set := true
	for _, p := range ps {
		b, ok := entry(p, v)
		if ok && b {
			return true, true
		}
		set = set && ok
	}
	return false, set
}

func allows(rules []rbacv1.PolicyRule, q req) (bool, bool) {
	settled := true
	for _, r := range rules {
		a, s1 := covers(r.Verbs, q.Verb)
		b, s2 := covers(r.APIGroups, q.Group)
		c, s3 := covers(r.Resources, q.Resource)
		d, s4 := true, true
		switch q.Verb {
		case "list", "watch", "create", "deletecollection":
		default:
			if len(r.ResourceNames) > 0 && q.Name != "" {
				d, s4 = covers(r.ResourceNames, q.Name)
			}
		}
		if a && b && c && d {
			return true, true
		}
		// an unsettled part matters only when no settled part refuses
		if !(s1 && !a || s2 && !b || s3 && !c || s4 && !d) {
			settled = false
		}
	}
	return false, settled
}

var verbs = []string{"get", "list", "watch", "create", "update", "patch", "delete", "deletecollection", "*"}
var groups = []string{"", "apps", "a.view.dcontroller.io", "view.dcontroller.io", "b.view.dcontroller.io", "batch"}
var resources = []string{"pods", "services", "pods/status", "configmaps", "view", "pod"}
var names = []string{"", "a", "ab", "web-1", "web-2", "web"}

func str(v *vt.T, pool []string) string {
	if v.R.Intn(12) == 0 {
		return v.Str()
	}
	return pool[v.R.Intn(len(pool))]
}

func pat(v *vt.T, pool []string) string {
	s := str(v, pool)
	switch v.R.Intn(12) {
	case 0:
		return "*"
	case 1:
		return "*" + s
	case 2:
		return s + "*"
	case 3:
		i := v.R.Intn(len(s) + 1)
		return "*" + s[i:]
	case 4:
		i := v.R.Intn(len(s) + 1)
		return s[:i] + "*"
	case 5:
		i := v.R.Intn(len(s) + 1)
		j := i + v.R.Intn(len(s)-i+1)
		return s[:i] + "*" + s[j:]
	}
	return s
}

func pats(v *vt.T, pool []string, max int) []string {
	n := v.R.Intn(max + 1)
	r := []string{}
	for i := 0; i < n; i++ {
		r = append(r, pat(v, pool))
	}
	return r
}

func rule(v *vt.T) rbacv1.PolicyRule {
	r := rbacv1.PolicyRule{Verbs: pats(v, verbs, 3), APIGroups: pats(v, groups, 3), Resources: pats(v, resources, 3)}
	if v.R.Intn(2) == 0 {
		r.ResourceNames = pats(v, names, 3)
	}
	return r
}

func userOf(rules []rbacv1.PolicyRule) user.Info {
	b, _ := json.Marshal(rules)
	return &user.DefaultInfo{Name: "u", Extra: map[string][]string{"rules": {string(b)}}}
}

func check(rules []rbacv1.PolicyRule, q req) bool {
	return auth.CheckRBACAccess(userOf(rules), q.Verb, q.Group, q.Resource, q.Name)
}

func full(rules []rbacv1.PolicyRule, q req, ns string) bool {
	d, _, err := auth.NewCompositeAuthorizer().Authorize(context.Background(), authorizer.AttributesRecord{
		User: userOf(rules), Verb: q.Verb, APIGroup: q.Group, Resource: q.Resource, Name: q.Name, Namespace: ns, ResourceRequest: true})
	return d == authorizer.DecisionAllow && err == nil
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C17")
	defer v.Done()
	for v.Left() {
		// enumerated: one rule built to match, then spoiled in one place
		for i := 0; i < 40; i++ {
			n := v.R.Intn(4)
			rules := []rbacv1.PolicyRule{}
			for j := 0; j < n; j++ {
				rules = append(rules, rule(v))
			}
			q := req{str(v, verbs), str(v, groups), str(v, resources), str(v, names)}
			if n > 0 && v.R.Intn(2) == 0 {
				r := &rules[v.R.Intn(n)]
				if v.R.Intn(4) > 0 {
					r.Verbs = append(r.Verbs, q.Verb)
				}
				if v.R.Intn(4) > 0 {
					r.APIGroups = append(r.APIGroups, q.Group)
				}
				if v.R.Intn(4) > 0 {
					r.Resources = append(r.Resources, q.Resource)
				}
			}
			in := map[string]any{"rules": rules, "request": q}
			v.Case("decision", in, func() error {
				want, settled := allows(rules, q)
				if !settled {
					return nil
				}
				if got := check(rules, q); got != want {
					return fmt.Errorf("allowed=%v, the rules say %v", got, want)
				}
				for _, ns := range []string{"", "n1"} {
					if got := full(rules, q, ns); got != want {
						return fmt.Errorf("the authorizer allows=%v in namespace %q, the rules say %v", got, ns, want)
					}
				}
				return nil
			})
			v.Case("monotone", in, func() error {
				if !check(rules, q) {
					return nil
				}
				more := append([]rbacv1.PolicyRule{}, rules...)
				k := v.R.Intn(len(more) + 1)
				more = append(more[:k:k], append([]rbacv1.PolicyRule{rule(v)}, more[k:]...)...)
				if !check(more, q) {
					return fmt.Errorf("access lost by adding a rule: %v", vt.Show(more))
				}
				return nil
			})
			v.Case("order", in, func() error {
				perm := make([]rbacv1.PolicyRule, 0, n)
				for _, k := range v.Permute(n) {
					r := rules[k]
					vs := make([]string, 0)
					for _, m := range v.Permute(len(r.Verbs)) {
						vs = append(vs, r.Verbs[m])
					}
					r.Verbs = vs
					ns := make([]string, 0)
					for _, m := range v.Permute(len(r.ResourceNames)) {
						ns = append(ns, r.ResourceNames[m])
					}
					r.ResourceNames = ns
					perm = append(perm, r)
				}
				if a, b := check(rules, q), check(perm, q); a != b {
					return fmt.Errorf("%v in the order given, %v in the order %v", a, b, vt.Show(perm))
				}
				return nil
			})
			if n > 1 {
				v.Case("union", in, func() error {
					or := false
					for _, r := range rules {
						or = or || check([]rbacv1.PolicyRule{r}, q)
					}
					if check(rules, q) != or {
						return fmt.Errorf("all rules allow=%v, some single rule allows=%v", !or, or)
					}
					return nil
				})
			}
		}
		q := req{str(v, verbs), str(v, groups), str(v, resources), str(v, names)}
		v.Case("no-rules", q, func() error {
			for _, e := range []map[string][]string{nil, {}, {"rules": nil}, {"rules": {}}, {"namespaces": {"a"}}} {
				if !auth.CheckRBACAccess(&user.DefaultInfo{Extra: e}, q.Verb, q.Group, q.Resource, q.Name) {
					return fmt.Errorf("a user without rules is refused (extra %v)", e)
				}
			}
			return nil
		})
		bad := []string{"", "x", "{}", "[{]", "[1]", `[{"verbs":"*","apiGroups":["*"],"resources":["*"]}]`, `[{"verbs":["*"],"apiGroups":["*"],"resources":["*"]}`, `[{"verbs":["*"],"apiGroups":["*"],"resources":["*"]},7]`, "[]", "null"}[v.R.Intn(10)]
		v.Case("undecodable", map[string]any{"rules": bad, "request": q}, func() error {
			if auth.CheckRBACAccess(&user.DefaultInfo{Extra: map[string][]string{"rules": {bad}}}, q.Verb, q.Group, q.Resource, q.Name) {
				return fmt.Errorf("rules that do not decode, or are empty, grant access")
			}
			return nil
		})
	}
}
