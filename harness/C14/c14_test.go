package c14

import (
	"fmt"
	"strings"
	"testing"

	"github.com/go-logr/logr"

	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/zzverif/ex"
	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

func pick[T any](v *vt.T, xs ...T) T { return xs[v.R.Intn(len(xs))] }

var fields = []string{"a", "b", "c", "ab", "A", "spec", "metadata", "name", "x1", "x_y", "a1"}

func value(v *vt.T, d int) any {
	switch v.R.Intn(7) {
	case 0, 1, 2:
		if d > 0 {
			return doc(v, d-1)
		}
	case 3:
		if d > 0 {
			l := []any{}
			for i, n := 0, v.R.Intn(3); i < n; i++ {
				l = append(l, value(v, d-1))
			}
			return l
		}
	}
	return pick[any](v, int64(v.R.Intn(100)), 1.5, true, false, "s", "", nil, "v"+fmt.Sprint(v.R.Intn(50)))
}

func doc(v *vt.T, d int) map[string]any {
	m := map[string]any{}
	for i, n := 0, v.R.Intn(4); i < n; i++ {
		m[pick(v, fields...)] = value(v, d)
	}
	return m
}

// a path that mostly follows the document
func walk(v *vt.T, x any) []string {
	var p []string
	for {
		m, ok := x.(map[string]any)
		if !ok || len(m) == 0 || v.R.Intn(5) == 0 {
			break
		}
		ks := []string{}
		for _, f := range fields {
			if _, ok := m[f]; ok {
				ks = append(ks, f)
			}
		}
		f := ks[v.R.Intn(len(ks))]
		p = append(p, f)
		x = m[f]
		if v.R.Intn(5) == 0 {
			break
		}
	}
	for len(p) == 0 || v.R.Intn(4) == 0 {
		p = append(p, pick(v, fields...))
	}
	return p
}

func get(x any, p []string) (any, bool) {
	for _, f := range p {
		m, ok := x.(map[string]any)
		if !ok {
			return nil, false
		}
		if x, ok = m[f]; !ok {
			return nil, false
		}
	}
	return x, true
}

func throughList(x any, p []string) bool {
	for _, f := range p {
		if _, ok := x.([]any); ok {
			return true
		}
		m, ok := x.(map[string]any)
		if !ok {
			return false
		}
		x = m[f]
	}
	return false
}

// set in a copy; second result: no intermediate level stands in the way
func set(x map[string]any, p []string, val any) (map[string]any, bool) {
	r := vt.CloneDoc(x)
	m := r
	for _, f := range p[:len(p)-1] {
		n, has := m[f]
		s, ok := n.(map[string]any)
		if !has {
			s = map[string]any{}
			m[f] = s
		} else if !ok {
			return nil, false
		}
		m = s
	}
	m[p[len(p)-1]] = vt.Clone(val)
	return r, true
}

func ctx(obj, subj any) expression.EvalCtx {
	return expression.EvalCtx{Object: obj, Subject: subj, Log: logr.Discard()}
}

func TestVerif(t *testing.T) {
	v := vt.Start(t, "C14")
	defer v.Done()
	for v.Left() {
		d := doc(v, 3)
		p := walk(v, d)
		sp := "$." + strings.Join(p, ".")
		want, has := get(d, p)
		v.Case("get", map[string]any{"document": d, "path": sp}, func() error {
			c := vt.CloneDoc(d)
			other := map[string]any{}
			for _, f := range fields {
				other[f] = "other"
			}
			read := func(how string, got any, err error) error {
				if has && err != nil {
					return fmt.Errorf("%s of the existing field %s of %s: %v", how, sp, vt.Show(d), err)
				}
				if err == nil && !ex.Exact(got, want) {
					return fmt.Errorf("%s of %s of %s gives %s, expected %s", how, sp, vt.Show(d), vt.Show(got), vt.Show(want))
				}
				if !ex.Exact(c, d) {
					return fmt.Errorf("%s of %s changed %s to %s", how, sp, vt.Show(d), vt.Show(c))
				}
				return nil
			}
			x, err := expression.GetJSONPath(ctx(c, nil), sp)
			if e := read("GetJSONPath", x, err); e != nil {
				return e
			}
			x, err = expression.GetJSONPath(ctx(c, other), sp)
			if e := read("GetJSONPath with a local subject", x, err); e != nil {
				return e
			}
			x, err = expression.GetJSONPath(ctx(other, c), "$"+sp)
			if e := read("GetJSONPath of a local subject", x, err); e != nil {
				return e
			}
			x, err = expression.GetJSONPathRaw(sp, c)
			if e := read("GetJSONPathRaw", x, err); e != nil {
				return e
			}
			ge := expression.NewJSONPathGetExpression(sp)
			x, err = ge.Evaluate(ctx(c, nil))
			if e := read("the expression", x, err); e != nil {
				return e
			}
			for _, root := range []string{"$.", "$"} {
				x, err = expression.GetJSONPath(ctx(c, nil), root)
				if err != nil || !ex.Exact(x, d) {
					return fmt.Errorf("the root %s of %s: %s, %v", root, vt.Show(d), vt.Show(x), err)
				}
			}
			x, err = expression.GetJSONPath(ctx(other, c), "$$.")
			if err != nil || !ex.Exact(x, d) {
				return fmt.Errorf("the local root of %s: %s, %v", vt.Show(d), vt.Show(x), err)
			}
			plain := strings.TrimPrefix(sp, "$.")
			x, err = expression.GetJSONPath(ctx(c, nil), plain)
			if err != nil || x != plain {
				return fmt.Errorf("the plain string %q: %#v, %v", plain, x, err)
			}
			return nil
		})
		val := value(v, 2)
		q := p
		if v.R.Intn(3) == 0 {
			q = walk(v, doc(v, 3))
		}
		sq := "$." + strings.Join(q, ".")
		v.Case("set", map[string]any{"document": d, "path": sq, "value": val}, func() error {
			after, possible := set(d, q, val)
			for how, f := range map[string]func(m map[string]any, x any) error{
				"SetJSONPath":    func(m map[string]any, x any) error { return expression.SetJSONPath(ctx(map[string]any{}, nil), sq, x, m) },
				"SetJSONPathRaw": func(m map[string]any, x any) error { return expression.SetJSONPathRaw(sq, x, m) },
				"SetJSONPathRawExp": func(m map[string]any, x any) error {
					e := expression.NewJSONPathGetExpression(sq)
					return expression.SetJSONPathRawExp(&e, x, m)
				},
			} {
				m, x := vt.CloneDoc(d), vt.Clone(val)
				err := f(m, x)
				if !ex.Exact(x, val) {
					return fmt.Errorf("%s changed the value from %s to %s", how, vt.Show(val), vt.Show(x))
				}
				if err != nil {
					if possible {
						return fmt.Errorf("%s %s to %s in %s: %v", how, sq, vt.Show(val), vt.Show(d), err)
					}
					continue
				}
				if possible && !ex.Exact(m, after) {
					return fmt.Errorf("%s %s to %s in %s gives %s, expected %s", how, sq, vt.Show(val), vt.Show(d), vt.Show(m), vt.Show(after))
				}
				// also when an intermediate value stood in the way: what was set is read back, the rest is unchanged
				// (a field name applied to a list addresses nothing)
				got, gerr := expression.GetJSONPathRaw(sq, m)
				if throughList(d, q) {
				} else if gerr != nil || !ex.Exact(got, val) {
					return fmt.Errorf("%s %s to %s in %s succeeds, but reading gives %s, %v", how, sq, vt.Show(val), vt.Show(d), vt.Show(got), gerr)
				}
				for k := range d {
					if k != q[0] && !ex.Exact(m[k], d[k]) {
						return fmt.Errorf("%s %s in %s changed %s", how, sq, vt.Show(d), k)
					}
				}
			}
			return nil
		})
		key := pick(v, "a", "b", "a.b", "x y", "metadata.name", "@k", "-")
		v.Case("set-plain", map[string]any{"document": d, "key": key, "value": val}, func() error {
			m := vt.CloneDoc(d)
			if err := expression.SetJSONPath(ctx(map[string]any{}, nil), key, vt.Clone(val), m); err != nil {
				return fmt.Errorf("setting the key %q: %v", key, err)
			}
			after := vt.CloneDoc(d)
			after[key] = val
			if !ex.Exact(m, after) {
				return fmt.Errorf("setting the key %q of %s to %s gives %s", key, vt.Show(d), vt.Show(val), vt.Show(m))
			}
			return nil
		})
		// a value given as a path: a private copy of what the path addresses
		to := walk(v, doc(v, 2))
		v.Case("set-from-path", map[string]any{"document": d, "path": "$." + strings.Join(to, "."), "value": sp}, func() error {
			src, m := vt.CloneDoc(d), map[string]any{"zz": int64(1)}
			if err := expression.SetJSONPath(ctx(src, nil), "$."+strings.Join(to, "."), sp, m); err != nil {
				return fmt.Errorf("setting a path: %v", err)
			}
			after, _ := set(map[string]any{"zz": int64(1)}, to, want)
			if !ex.Exact(m, after) {
				return fmt.Errorf("setting %v to %s of %s gives %s", to, sp, vt.Show(d), vt.Show(m))
			}
			if !ex.Exact(src, d) {
				return fmt.Errorf("setting %v to %s changed the source %s to %s", to, sp, vt.Show(d), vt.Show(src))
			}
			vt.Scribble(m)
			if !ex.Exact(src, d) {
				return fmt.Errorf("what is set shares data with the source")
			}
			return nil
		})
		rep := doc(v, 2)
		v.Case("set-root", map[string]any{"document": d, "value": rep}, func() error {
			m := vt.CloneDoc(d)
			if err := expression.SetJSONPath(ctx(map[string]any{}, nil), "$.", vt.CloneDoc(rep), m); err != nil {
				return err
			}
			for k := range rep {
				if !ex.Exact(m[k], rep[k]) {
					return fmt.Errorf("setting the root of %s to %s gives %s", vt.Show(d), vt.Show(rep), vt.Show(m))
				}
			}
			return nil
		})
		v.Case("malformed", sp, func() error {
			for _, k := range []string{"", "$.a[", "$["} {
				if err := expression.SetJSONPath(ctx(map[string]any{}, nil), k, "x", map[string]any{}); err == nil {
					return fmt.Errorf("setting the malformed path %q succeeds", k)
				}
				if k != "" {
					if x, err := expression.GetJSONPath(ctx(vt.CloneDoc(d), nil), k); err == nil && x != nil {
						return fmt.Errorf("reading the malformed path %q gives %#v", k, x)
					}
				}
			}
			return nil
		})
	}
}
