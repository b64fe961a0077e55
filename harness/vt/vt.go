// Package vt is the common part of the replay and bounded stand-in harnesses. It is compiled into the repository's
// module through an overlay; nothing of it exists in /repo.
package vt

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

// T collects the cases of one property run.
type T struct {
	T        *testing.T
	R        *rand.Rand
	Prop     string
	Thorough bool
	evals    int
	nontriv  map[string]bool
	samples  []any
	fails    map[string]bool
	deadline time.Time
	Strs     []string
	Ints     []int64
	known    map[string]string
	knownHit map[string]bool
	cur      string
}

// Known is the table of recorded genuine findings: failure class -> description, from VERIF_KNOWN.
func Start(t *testing.T, prop string) *T {
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	v := &T{T: t, R: rand.New(rand.NewSource(seed)), Prop: prop, nontriv: map[string]bool{}, fails: map[string]bool{}, known: map[string]string{}, knownHit: map[string]bool{}}
	v.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	d := 25 * time.Second
	if v.Thorough {
		d = 300 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			d = time.Duration(n) * time.Second
		}
	}
	v.deadline = time.Now().Add(d)
	if f := os.Getenv("VERIF_DICT"); f != "" {
		var dict struct {
			Strs []string
			Ints []int64
		}
		if b, err := os.ReadFile(f); err == nil {
			_ = json.Unmarshal(b, &dict)
		}
		v.Strs, v.Ints = dict.Strs, dict.Ints
	}
	if f := os.Getenv("VERIF_KNOWN"); f != "" {
		if b, err := os.ReadFile(f); err == nil {
			_ = json.Unmarshal(b, &v.known)
		}
	}
	return v
}

// Left: is there time for more cases?
func (v *T) Left() bool { return time.Now().Before(v.deadline) && len(v.fails) < 8 }

// N scales a case count by tier.
func (v *T) N(n int) int {
	if v.Thorough {
		return n * 20
	}
	return n
}

// Show renders any value for a report.
func Show(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%#v", x)
	}
	return string(b)
}

// Case runs one case: class names the clause of the property under test, input describes the input completely.
// A panic in the code under test is a failure.
func (v *T) Case(class string, input any, f func() error) bool {
	v.evals++
	in := Show(input)
	if len(in) > 3000 {
		in = in[:3000] + "..."
	}
	if len(in) > 12 {
		if len(v.nontriv) < 2000000 {
			v.nontriv[class+in] = true
		}
		if len(v.samples) < 5 || (v.evals%997 == 0 && len(v.samples) < 12) {
			v.samples = append(v.samples, map[string]string{"case": class, "input": in})
		}
	}
	done := make(chan error, 1)
	run := func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if len(st) > 2500 {
					st = st[:2500]
				}
				done <- fmt.Errorf("panic: %v\n%s", r, st)
			}
		}()
		done <- f()
	}
	go run()
	var err error
	select {
	case err = <-done:
	case <-time.After(20 * time.Second):
		err = fmt.Errorf("no answer within 20 s")
	}
	if err == nil {
		return true
	}
	if d, ok := v.known[class]; ok {
		if !v.knownHit[class] {
			v.knownHit[class] = true
			fmt.Printf("VERIF-KNOWN %s\n", Show(map[string]string{"class": class, "what": d, "input": in, "error": err.Error()}))
		}
		return true
	}
	if !v.fails[class] {
		v.fails[class] = true
		fmt.Printf("VERIF-FAIL %s\n", Show(map[string]string{"property": v.Prop, "class": class, "input": in, "error": err.Error()}))
		v.T.Errorf("%s: %s: %v", class, in, err)
	}
	return false
}

// Done prints the statistics of the run.
func (v *T) Done() {
	fmt.Printf("VERIF-STATS %s\n", Show(map[string]any{"evaluations": v.evals, "distinct_nontrivial": len(v.nontriv), "samples": v.samples}))
}

// ---------------------------------------------------------------------------
// generators

var baseStrs = []string{"a", "b", "c", "x", "name", "ns", "", "a.b", "k-1", "default"}

// Str returns a short string, often from a small pool so that collisions happen.
func (v *T) Str() string {
	if len(v.Strs) > 0 && v.R.Intn(6) == 0 {
		return v.Strs[v.R.Intn(len(v.Strs))]
	}
	return baseStrs[v.R.Intn(len(baseStrs))]
}

// Key returns a non-empty field name without dots.
func (v *T) Key() string {
	for i := 0; i < 10; i++ {
		s := v.Str()
		if s != "" && !strings.ContainsAny(s, ".$@[]*\"'\\ \t\n/:") && len(s) < 40 {
			return s
		}
	}
	return "k"
}

// Int returns a small integer, sometimes one from the dictionary.
func (v *T) Int() int64 {
	switch v.R.Intn(8) {
	case 0:
		if len(v.Ints) > 0 {
			n := v.Ints[v.R.Intn(len(v.Ints))] + int64(v.R.Intn(3)-1)
			if n < 1<<40 && n > -(1<<40) {
				return n
			}
		}
	case 1:
		return int64(v.R.Intn(2001) - 1000)
	}
	return int64(v.R.Intn(9) - 4)
}

// Scalar returns a JSON scalar.
func (v *T) Scalar() any {
	switch v.R.Intn(8) {
	case 0:
		return nil
	case 1:
		return v.R.Intn(2) == 0
	case 2, 3:
		return v.Int()
	case 4:
		return float64(v.Int()) / 2
	default:
		return v.Str()
	}
}

// Value returns a JSON-like value of bounded depth.
func (v *T) Value(depth int) any {
	if depth <= 0 {
		return v.Scalar()
	}
	switch v.R.Intn(6) {
	case 0, 1:
		return v.Doc(depth - 1)
	case 2:
		n := v.R.Intn(4)
		l := make([]any, n)
		for i := range l {
			l[i] = v.Value(depth - 1)
		}
		return l
	default:
		return v.Scalar()
	}
}

// Doc returns a document of bounded depth.
func (v *T) Doc(depth int) map[string]any {
	n := v.R.Intn(4)
	d := map[string]any{}
	for i := 0; i < n; i++ {
		d[v.Key()] = v.Value(depth)
	}
	return d
}

// SmallDoc returns one of few flat documents, so that equal documents are frequent.
func (v *T) SmallDoc() map[string]any {
	d := map[string]any{"id": int64(v.R.Intn(4))}
	if v.R.Intn(3) == 0 {
		d["t"] = baseStrs[v.R.Intn(3)]
	}
	if v.R.Intn(5) == 0 {
		d["n"] = map[string]any{"x": []any{int64(v.R.Intn(2)), "y"}}
	}
	return d
}

// ---------------------------------------------------------------------------
// oracles

// Canon is an independent canonical text of a JSON-like value: equal texts exactly for structurally equal values,
// numbers compared by value.
func Canon(x any) string {
	var b strings.Builder
	canon(&b, x)
	return b.String()
}

func canon(b *strings.Builder, x any) {
	switch v := x.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		fmt.Fprintf(b, "%v", v)
	case string:
		b.WriteString(strconv.Quote(v))
	case int:
		canon(b, float64(v))
	case int32:
		canon(b, float64(v))
	case int64:
		if v > 1<<53 || v < -(1<<53) {
			fmt.Fprintf(b, "%d", v)
			return
		}
		canon(b, float64(v))
	case float32:
		canon(b, float64(v))
	case float64:
		if v == float64(int64(v)) && v < 1e15 && v > -1e15 {
			fmt.Fprintf(b, "%d", int64(v))
			return
		}
		b.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
	case map[string]any:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			canon(b, v[k])
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, e)
		}
		b.WriteByte(']')
	case []string:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, e)
		}
		b.WriteByte(']')
	default:
		fmt.Fprintf(b, "<%T %#v>", x, x)
	}
}

// Equal is structural equality with numbers compared by value.
func Equal(a, b any) bool { return Canon(a) == Canon(b) }

// Same is structural equality that also distinguishes integers from floats.
func Same(a, b any) bool { return typed(a) == typed(b) }

func typed(x any) string {
	switch v := x.(type) {
	case map[string]any:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += strconv.Quote(k) + ":" + typed(v[k]) + ","
		}
		return s + "}"
	case []any:
		s := "["
		for _, e := range v {
			s += typed(e) + ","
		}
		return s + "]"
	}
	return fmt.Sprintf("%T:%v", x, x)
}

// Clone is an independent deep copy.
func Clone(x any) any {
	switch v := x.(type) {
	case map[string]any:
		r := make(map[string]any, len(v))
		for k, e := range v {
			r[k] = Clone(e)
		}
		return r
	case []any:
		r := make([]any, len(v))
		for i, e := range v {
			r[i] = Clone(e)
		}
		return r
	}
	return x
}

// CloneDoc is Clone for documents.
func CloneDoc(d map[string]any) map[string]any { return Clone(d).(map[string]any) }

// Scribble overwrites every mutable part of a value in place.
func Scribble(x any) {
	switch v := x.(type) {
	case map[string]any:
		for k, e := range v {
			Scribble(e)
			v[k] = "scribbled"
		}
		v["scribble!"] = int64(99)
	case []any:
		for i, e := range v {
			Scribble(e)
			v[i] = "scribbled"
		}
	}
}

// Errorf is fmt.Errorf.
func Errorf(f string, a ...any) error { return fmt.Errorf(f, a...) }

// Permute returns a random permutation.
func (v *T) Permute(n int) []int { return v.R.Perm(n) }

// Bag is a multiset oracle over documents.
type Bag struct {
	N map[string]int
	D map[string]any
}

func NewBag() *Bag { return &Bag{map[string]int{}, map[string]any{}} }
func (b *Bag) Add(d any, n int) *Bag {
	k := Canon(d)
	b.N[k] += n
	if b.N[k] == 0 {
		delete(b.N, k)
		delete(b.D, k)
	} else if _, ok := b.D[k]; !ok {
		b.D[k] = Clone(d)
	}
	return b
}
func (b *Bag) AddBag(o *Bag, f int) *Bag {
	for k, n := range o.N {
		b.Add(o.D[k], f*n)
	}
	return b
}
func (b *Bag) Copy() *Bag { return NewBag().AddBag(b, 1) }
func (b *Bag) Get(d any) int {
	return b.N[Canon(d)]
}
func (b *Bag) Equal(o *Bag) bool { return Show(b.N) == Show(o.N) }
func (b *Bag) String() string    { return Show(b.N) }
