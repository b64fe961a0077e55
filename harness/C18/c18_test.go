package c18

import (
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/golang-jwt/jwt/v5"
	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apiserver/pkg/authentication/user"
	"k8s.io/apiserver/pkg/authorization/authorizer"

	"github.com/l7mp/dcontroller/pkg/auth"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

var nss = []string{"a", "b", "ab", "default", "*", "", "A", "a*"}
var verbs = []string{"get", "list", "watch", "create", "update", "patch", "delete", "deletecollection"}

func namespaces(v *vt.T) []string {
	n := v.R.Intn(4)
	var r []string
	for i := 0; i < n; i++ {
		k := nss[v.R.Intn(len(nss))]
		if k == "*" && v.R.Intn(2) == 0 {
			k = "a"
		}
		r = append(r, k)
	}
	return r
}

func rules(v *vt.T) []rbacv1.PolicyRule {
	switch v.R.Intn(4) {
	case 0:
		return nil
	case 1:
		return []rbacv1.PolicyRule{{Verbs: []string{"*"}, APIGroups: []string{"*"}, Resources: []string{"*"}}}
	case 2:
		return []rbacv1.PolicyRule{{Verbs: []string{verbs[v.R.Intn(len(verbs))], "get"}, APIGroups: []string{"g", ""}, Resources: []string{"r"}, ResourceNames: []string{"x", v.Str()}}}
	}
	return []rbacv1.PolicyRule{{Verbs: []string{"get", "list"}, APIGroups: []string{"g"}, Resources: []string{"r", "s"}}, {Verbs: []string{"*"}, APIGroups: []string{"h"}, Resources: []string{"*"}, NonResourceURLs: []string{"/x"}}}
}

func extra(ns []string, rs []rbacv1.PolicyRule) map[string][]string {
	e := map[string][]string{}
	if ns != nil {
		e["namespaces"] = ns
	}
	if len(rs) > 0 {
		b, _ := json.Marshal(rs)
		e["rules"] = []string{string(b)}
	}
	return e
}

func decide(u user.Info, verb, group, res, name, ns string, isRes bool) (bool, error) {
	d, _, err := auth.NewCompositeAuthorizer().Authorize(context.Background(), authorizer.AttributesRecord{
		User: u, Verb: verb, APIGroup: group, Resource: res, Name: name, Namespace: ns, ResourceRequest: isRes, Path: "/x"})
	return d == authorizer.DecisionAllow, err
}

func key() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		panic(err)
	}
	return k
}

func request(header string) *http.Request {
	r, _ := http.NewRequest("GET", "https://x/y", nil)
	if header != "" {
		r.Header.Set("Authorization", header)
	}
	return r
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C18")
	defer v.Done()
	k1, k2 := key(), key()
	good := auth.NewTokenGenerator(k1)
	authn := auth.NewJWTAuthenticator(&k1.PublicKey)

	refuse := func(header string) error {
		resp, ok, err := authn.AuthenticateRequest(request(header))
		if ok || resp != nil {
			return fmt.Errorf("authenticated as %v (error %v)", vt.Show(resp), err)
		}
		return nil
	}

	for v.Left() {
		for i := 0; i < 60; i++ {
			ns, rs := namespaces(v), rules(v)
			verb, group, res := verbs[v.R.Intn(len(verbs))], []string{"g", "h", ""}[v.R.Intn(3)], []string{"r", "s"}[v.R.Intn(2)]
			name, at := []string{"", "x", "y"}[v.R.Intn(3)], nss[v.R.Intn(len(nss))]
			in := map[string]any{"namespaces": ns, "rules": rs, "verb": verb, "group": group, "resource": res, "name": name, "namespace": at}
			v.Case("namespace", in, func() error {
				in, star := false, false
				for _, n := range ns {
					in = in || n == at
					star = star || n == "*"
				}
				may := len(ns) == 0 || star || at != "" && in
				u := &user.DefaultInfo{Name: "u", Extra: extra(ns, rs)}
				got, err := decide(u, verb, group, res, name, at, true)
				if err != nil {
					return err
				}
				if got && !may {
					return fmt.Errorf("allowed in namespace %q although the user is restricted to %q", at, ns)
				}
				// an unrestricted user with the same rules gets the rules' decision
				free, err := decide(&user.DefaultInfo{Name: "u", Extra: extra(nil, rs)}, verb, group, res, name, at, true)
				if err != nil {
					return err
				}
				if free != auth.CheckRBACAccess(u, verb, group, res, name) {
					return fmt.Errorf("an unrestricted user is allowed=%v, but the rules say %v", free, !free)
				}
				if may && got != free {
					return fmt.Errorf("the namespace is granted, the rules alone decide %v, the decision is %v", free, got)
				}
				return nil
			})
		}
		v.Case("no-user", v.Str(), func() error {
			d, _, err := auth.NewCompositeAuthorizer().Authorize(context.Background(), authorizer.AttributesRecord{Verb: "get", ResourceRequest: v.R.Intn(2) == 0, APIGroup: "g", Resource: "r"})
			if err != nil || d == authorizer.DecisionAllow {
				return fmt.Errorf("a request without user is allowed (%v)", err)
			}
			return nil
		})

		// tokens
		ns, rs := namespaces(v), rules(v)
		name := v.Str()
		in := map[string]any{"user": name, "namespaces": ns, "rules": rs}
		var tok string
		v.Case("token", in, func() error {
			var err error
			tok, err = good.GenerateToken(name, ns, rs, time.Hour)
			if err != nil {
				return err
			}
			resp, ok, err := authn.AuthenticateRequest(request("Bearer " + tok))
			if !ok || err != nil || resp == nil || resp.User == nil {
				return fmt.Errorf("a good token is refused: %v", err)
			}
			if resp.User.GetName() != name {
				return fmt.Errorf("user %q", resp.User.GetName())
			}
			if g := resp.User.GetExtra()["namespaces"]; fmt.Sprint(len(g), g) != fmt.Sprint(len(ns), ns) {
				return fmt.Errorf("namespaces %q", g)
			}
			rj := resp.User.GetExtra()["rules"]
			if len(rs) == 0 {
				if len(rj) != 0 {
					return fmt.Errorf("rules %q", rj)
				}
				return nil
			}
			if len(rj) != 1 {
				return fmt.Errorf("rules %q", rj)
			}
			var got []rbacv1.PolicyRule
			if err := json.Unmarshal([]byte(rj[0]), &got); err != nil {
				return err
			}
			if vt.Show(got) != vt.Show(rs) {
				return fmt.Errorf("rules %v", rj[0])
			}
			return nil
		})
		if tok == "" {
			continue
		}
		v.Case("tampered", map[string]any{"token": in, "how": "one part changed"}, func() error {
			parts := strings.Split(tok, ".")
			if len(parts) != 3 {
				return nil
			}
			raw, err := base64.RawURLEncoding.DecodeString(parts[1])
			if err != nil {
				return nil
			}
			var c map[string]any
			if err := json.Unmarshal(raw, &c); err != nil {
				return nil
			}
			c["username"] = name + "x"
			b, _ := json.Marshal(c)
			if err := refuse("Bearer " + parts[0] + "." + base64.RawURLEncoding.EncodeToString(b) + "." + parts[2]); err != nil {
				return err
			}
			sig := []byte(parts[2])
			i := v.R.Intn(len(sig) - 2)
			if sig[i] == 'A' {
				sig[i] = 'B'
			} else {
				sig[i] = 'A'
			}
			if err := refuse("Bearer " + parts[0] + "." + parts[1] + "." + string(sig)); err != nil {
				return err
			}
			if err := refuse("Bearer " + parts[0] + "." + parts[1] + "."); err != nil {
				return err
			}
			none := base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"none","typ":"JWT"}`))
			if err := refuse("Bearer " + none + "." + parts[1] + "."); err != nil {
				return fmt.Errorf("unsigned: %w", err)
			}
			return nil
		})
		v.Case("header", map[string]any{"token": in}, func() error {
			for _, h := range []string{"", tok, "Basic " + tok, "bearer" + tok, "Bearer", "Bearer ", "Token " + tok, "BearerX " + tok, " Bearer " + tok} {
				if err := refuse(h); err != nil {
					return fmt.Errorf("header %.12q: %w", h, err)
				}
			}
			return nil
		})
		v.Case("expired", in, func() error {
			for _, d := range []time.Duration{-time.Hour, -2 * time.Second, -time.Duration(1+v.R.Intn(1000)) * time.Minute} {
				x, err := good.GenerateToken(name, ns, rs, d)
				if err != nil {
					return nil
				}
				if err := refuse("Bearer " + x); err != nil {
					return fmt.Errorf("expiry %v: %w", d, err)
				}
			}
			return nil
		})
		v.Case("key", in, func() error {
			x, err := auth.NewTokenGenerator(k2).GenerateToken(name, ns, rs, time.Hour)
			if err != nil {
				return nil
			}
			if err := refuse("Bearer " + x); err != nil {
				return fmt.Errorf("signed with another key: %w", err)
			}
			claims := auth.Claims{Username: name, Namespaces: ns, Rules: rs, RegisteredClaims: jwt.RegisteredClaims{ExpiresAt: jwt.NewNumericDate(time.Now().Add(time.Hour))}}
			pub := x509.MarshalPKCS1PublicKey(&k1.PublicKey)
			pix, _ := x509.MarshalPKIXPublicKey(&k1.PublicKey)
			for _, secret := range [][]byte{{}, pub, pix, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: pix}), k1.N.Bytes(), []byte("secret")} {
				for _, m := range []jwt.SigningMethod{jwt.SigningMethodHS256, jwt.SigningMethodHS384, jwt.SigningMethodHS512} {
					if s, err := jwt.NewWithClaims(m, claims).SignedString(secret); err == nil {
						if err := refuse("Bearer " + s); err != nil {
							return fmt.Errorf("symmetric signature %s: %w", m.Alg(), err)
						}
					}
				}
			}
			if s, err := jwt.NewWithClaims(jwt.SigningMethodNone, claims).SignedString(jwt.UnsafeAllowNoneSignatureType); err == nil {
				if err := refuse("Bearer " + s); err != nil {
					return fmt.Errorf("no signature: %w", err)
				}
			}
			claims.NotBefore = jwt.NewNumericDate(time.Now().Add(time.Hour))
			if s, err := jwt.NewWithClaims(jwt.SigningMethodRS256, claims).SignedString(k1); err == nil {
				if err := refuse("Bearer " + s); err != nil {
					return fmt.Errorf("not valid yet: %w", err)
				}
			}
			return nil
		})
	}
}
