// Package ev: describable document functions used as evaluators, extractors and transformers.
package ev

import (
	"fmt"

	"github.com/l7mp/dcontroller/pkg/zzverif/vt"
)

// F is a per-document function.
type F struct {
	Op     string `json:"op"`
	Field  string `json:"field,omitempty"`
	Field2 string `json:"field2,omitempty"`
	Val    any    `json:"val,omitempty"`
	Mut    bool   `json:"mut,omitempty"`
}

// Fn is the pure meaning of the function: list of results or an error.
func (f F) Fn(d map[string]any) ([]map[string]any, error) {
	switch f.Op {
	case "id":
		return []map[string]any{vt.CloneDoc(d)}, nil
	case "keep":
		if vt.Equal(d[f.Field], f.Val) {
			return []map[string]any{vt.CloneDoc(d)}, nil
		}
		return nil, nil
	case "drop":
		if vt.Equal(d[f.Field], f.Val) {
			return nil, nil
		}
		return []map[string]any{vt.CloneDoc(d)}, nil
	case "set":
		r := vt.CloneDoc(d)
		r[f.Field] = vt.Clone(f.Val)
		return []map[string]any{r}, nil
	case "only":
		r := map[string]any{}
		if v, ok := d[f.Field]; ok {
			r[f.Field] = vt.Clone(v)
		}
		return []map[string]any{r}, nil
	case "rename":
		r := vt.CloneDoc(d)
		r[f.Field2] = vt.Clone(d[f.Field])
		delete(r, f.Field)
		return []map[string]any{r}, nil
	case "dup":
		r := vt.CloneDoc(d)
		r[f.Field] = vt.Clone(f.Val)
		return []map[string]any{vt.CloneDoc(d), r, vt.CloneDoc(d)}, nil
	case "const":
		return []map[string]any{{f.Field: vt.Clone(f.Val)}}, nil
	case "fail":
		if vt.Equal(d[f.Field], f.Val) {
			return nil, fmt.Errorf("evaluator refuses %s", f.Field)
		}
		return []map[string]any{vt.CloneDoc(d)}, nil
	}
	panic("unknown function " + f.Op)
}

// Eval is F as an evaluator. A mutating evaluator writes to its argument and returns it.
type Eval struct{ F }

func (e Eval) String() string { return e.Op }
func (e Eval) Evaluate(d map[string]any) ([]map[string]any, error) {
	rs, err := e.Fn(d)
	if err != nil {
		return nil, err
	}
	if e.Mut && len(rs) == 1 {
		for k := range d {
			delete(d, k)
		}
		for k, v := range rs[0] {
			d[k] = v
		}
		return []map[string]any{d}, nil
	}
	return rs, nil
}

// Rand makes a function; single: exactly one result.
func Rand(v *vt.T, single bool) F {
	ops := []string{"set", "only", "rename", "const", "id", "fail"}
	if !single {
		ops = append(ops, "keep", "drop", "dup", "keep")
	}
	f := F{Op: ops[v.R.Intn(len(ops))]}
	if f.Op == "fail" && v.R.Intn(3) > 0 {
		f.Op = "set"
	}
	fields := []string{"id", "t", "n", "z"}
	f.Field, f.Field2 = fields[v.R.Intn(4)], fields[v.R.Intn(4)]
	switch v.R.Intn(4) {
	case 0:
		f.Val = v.Scalar()
	case 1:
		f.Val = "a"
	default:
		f.Val = int64(v.R.Intn(4))
	}
	return f
}

// Sel makes a selecting function.
func Sel(v *vt.T) F {
	f := Rand(v, true)
	f.Op = []string{"keep", "drop", "fail", "id"}[v.R.Intn(4)]
	if f.Op == "fail" && v.R.Intn(3) > 0 {
		f.Op = "drop"
	}
	if f.Field == "z" {
		f.Field = "id"
	}
	return f
}

// Apply maps a bag linearly; the error is any document's error.
func Apply(b *vt.Bag, f F) (*vt.Bag, error) {
	r := vt.NewBag()
	for k, n := range b.N {
		rs, err := f.Fn(b.D[k].(map[string]any))
		if err != nil {
			return nil, err
		}
		for _, o := range rs {
			r.Add(o, n)
		}
	}
	return r, nil
}

// Ext extracts a field.
type Ext struct {
	Field string
	Fail  any
}

func (e Ext) String() string { return "extract " + e.Field }
func (e Ext) Extract(d map[string]any) (any, error) {
	if e.Fail != nil && vt.Equal(d["id"], e.Fail) {
		return nil, fmt.Errorf("extractor refuses")
	}
	return d[e.Field], nil
}

// Tr sets a field to a value. It keeps the value it is given, without copying it.
type Tr struct {
	Field string
	Fail  any
}

func (e Tr) String() string { return "set " + e.Field }
func (e Tr) Transform(d map[string]any, v any) (map[string]any, error) {
	if e.Fail != nil && vt.Equal(v, e.Fail) {
		return nil, fmt.Errorf("transformer refuses")
	}
	d[e.Field] = v
	return d, nil
}
