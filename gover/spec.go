package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------------------
// Contract language: lexer, sparser, AST

type SExpr struct {
	Op   string // ident, int, str, bool, nil, un, bin, call, field, index, slice, forall, exists, let, ite, old
	Name string
	Args []*SExpr
	Vars []SVar
	Pats [][]*SExpr
	pos  string
}
type SVar struct {
	Name string
	Type string // textual type
}

type Clause struct {
	Label string
	E     *SExpr
	Src   string
	Loc   string
}

type LoopSpec struct {
	N        int
	Vars     []SVar
	Invs     []*Clause
	Unfolds  []*SExpr
	Hints    []*Clause // asserted (proved) then assumed at the back edge
	HintsTop []*Clause // proved and assumed right after the loop head
}

type FoldDef struct {
	Name   string
	Params []SVar
	Key    SVar
	E      *SExpr
}

type Contract struct {
	Pkg      string
	Key      string // relative function key
	Kind     string // func, extern, iface
	Params   []string
	Results  []string
	Props    []string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*SExpr
	Loops    map[int]*LoopSpec
	Folds    []*FoldDef
	Trusted  bool
	Panics   bool // panics allowed
	Inline   bool // do verify, but inline at call sites
	Native   bool // native string theory
	Unfolds  []*SExpr
	Calls    []string // closures the function may call (params), intrinsic
	File     string
	Line     int
	Note     string
	Havocs   bool
	MaxPaths int
	Hints    []*Clause // proved at return before ensures, then assumed
	Timeout  int
	Uses     []string
	NoAuto   bool
	Frame    bool // check the frame (default true)
	Bounded  bool
	Split    bool
	ClAssume []*Clause
	Reads    []string  // pointer parameters that are only read through (identity never observed)
	Gives    []*Clause // naming of results, assumed by callers
}

type MacroDef struct {
	Name   string
	Params []SVar
	Ret    string
	Body   *SExpr
	Pkg    string
}
type UFDef struct {
	Name  string
	Args  []string
	Ret   string
	Reads []string // heap names as types: map[..].., []T, *T
	Pkg   string
}
type RecDef struct {
	Name   string
	Params []SVar
	Ret    string
	Body   *SExpr
	Pkg    string
}
type AxiomDef struct {
	Label string
	E     *SExpr
	Pkg   string
	Src   string
	Lemma bool // proved (lemma) rather than assumed
	Props []string
	Uses  []string
}

type SpecFile struct {
	Contracts map[string]*Contract // full key
	Macros    map[string]*MacroDef
	UFs       map[string]*UFDef
	Recs      map[string]*RecDef
	Axioms    []*AxiomDef
	Order     []*Contract
}

func newSpec() *SpecFile {
	return &SpecFile{Contracts: map[string]*Contract{}, Macros: map[string]*MacroDef{}, UFs: map[string]*UFDef{}, Recs: map[string]*RecDef{}}
}

// --- lexer

type tok struct {
	k string // id, int, str, op, eof
	v string
}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "[*]", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", "?", ":", "=", "&"}
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '\t' || c == '\n' {
			i++
			continue
		}
		if unicode.IsLetter(rune(c)) || c == '_' || c == '$' {
			j := i + 1
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i
			for j < len(s) && unicode.IsDigit(rune(s[j])) {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			var b strings.Builder
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						b.WriteByte('\n')
					default:
						b.WriteByte(s[j])
					}
				} else {
					b.WriteByte(s[j])
				}
				j++
			}
			out = append(out, tok{"str", b.String()})
			i = j + 1
			continue
		}
		if c == '`' { // type literal in backquotes
			j := strings.IndexByte(s[i+1:], '`')
			if j < 0 {
				return nil, fmt.Errorf("unterminated `")
			}
			out = append(out, tok{"type", s[i+1 : i+1+j]})
			i += j + 2
			continue
		}
		matched := false
		for _, o := range ops {
			if strings.HasPrefix(s[i:], o) {
				out = append(out, tok{"op", o})
				i += len(o)
				matched = true
				break
			}
		}
		if !matched {
			return nil, fmt.Errorf("bad character %q in %q", c, s)
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type sparser struct {
	ts  []tok
	p   int
	src string
}

func (p *sparser) peek() tok { return p.ts[p.p] }
func (p *sparser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *sparser) is(v string) bool {
	return p.ts[p.p].k != "str" && p.ts[p.p].v == v
}
func (p *sparser) accept(v string) bool {
	if p.is(v) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(v string) {
	if !p.accept(v) {
		panic(fmt.Sprintf("expected %q, got %q in: %s", v, p.peek().v, p.src))
	}
}

func parseExpr(s string) (e *SExpr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("parse error: %v", r)
		}
	}()
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &sparser{ts: ts, src: s}
	e = p.expr()
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing %q in: %s", p.peek().v, s)
	}
	return e, nil
}

func (p *sparser) typeText() string {
	// parse a type textually
	if p.peek().k == "type" {
		return p.next().v
	}
	switch {
	case p.accept("*"):
		return "*" + p.typeText()
	case p.accept("["):
		p.expect("]")
		return "[]" + p.typeText()
	}
	t := p.next()
	if t.k != "id" {
		panic("bad type at " + t.v + " in: " + p.src)
	}
	switch t.v {
	case "map":
		p.expect("[")
		k := p.typeText()
		p.expect("]")
		return "map[" + k + "]" + p.typeText()
	case "set":
		p.expect("[")
		k := p.typeText()
		p.expect("]")
		return "set[" + k + "]"
	}
	s := t.v
	for p.is(".") || p.is("/") || (p.is("-") && strings.Contains(s, "/")) {
		s += p.next().v
		s += p.next().v
	}
	return s
}

func (p *sparser) vars() []SVar {
	var out []SVar
	for {
		var names []string
		names = append(names, p.next().v)
		for p.accept(",") {
			names = append(names, p.next().v)
		}
		ty := p.typeText()
		for _, n := range names {
			out = append(out, SVar{n, ty})
		}
		if !p.accept(";") && !p.accept(",") {
			break
		}
	}
	return out
}

func (p *sparser) expr() *SExpr {
	if p.is("forall") || p.is("exists") {
		op := p.next().v
		vs := p.vars()
		p.expect("::")
		var pats [][]*SExpr
		for p.accept("{") {
			var ps []*SExpr
			ps = append(ps, p.expr())
			for p.accept(",") {
				ps = append(ps, p.expr())
			}
			p.expect("}")
			pats = append(pats, ps)
		}
		return &SExpr{Op: op, Vars: vs, Pats: pats, Args: []*SExpr{p.expr()}}
	}
	if p.is("let") {
		p.next()
		n := p.next().v
		p.expect("=")
		v := p.expr()
		p.expect("in")
		b := p.expr()
		return &SExpr{Op: "let", Name: n, Args: []*SExpr{v, b}}
	}
	return p.ternary()
}

func (p *sparser) ternary() *SExpr {
	c := p.binary(0)
	if p.accept("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return &SExpr{Op: "ite", Args: []*SExpr{c, a, b}}
	}
	return c
}

var precs = []map[string]bool{
	{"<==>": true}, {"==>": true}, {"||": true}, {"&&": true},
	{"==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true, "in": true},
	{"+": true, "-": true}, {"*": true, "/": true, "%": true},
}

func (p *sparser) binary(level int) *SExpr {
	if level >= len(precs) {
		return p.unary()
	}
	l := p.binary(level + 1)
	for {
		t := p.peek()
		if t.k == "str" || !precs[level][t.v] {
			return l
		}
		p.next()
		var r *SExpr
		if t.v == "==>" { // right associative; body may be a quantifier
			if p.is("forall") || p.is("exists") || p.is("let") {
				r = p.expr()
			} else {
				r = p.binary(level)
			}
			return &SExpr{Op: "bin", Name: t.v, Args: []*SExpr{l, r}}
		}
		if p.is("forall") || p.is("exists") || p.is("let") {
			r = p.expr()
		} else {
			r = p.binary(level + 1)
		}
		l = &SExpr{Op: "bin", Name: t.v, Args: []*SExpr{l, r}}
	}
}

func (p *sparser) unary() *SExpr {
	if p.accept("!") {
		return &SExpr{Op: "un", Name: "!", Args: []*SExpr{p.unary()}}
	}
	if p.accept("-") {
		return &SExpr{Op: "un", Name: "-", Args: []*SExpr{p.unary()}}
	}
	if p.accept("*") {
		return &SExpr{Op: "un", Name: "*", Args: []*SExpr{p.unary()}}
	}
	return p.postfix()
}

func (p *sparser) postfix() *SExpr {
	e := p.primary()
	for {
		switch {
		case p.accept("[*]"):
			e = &SExpr{Op: "content", Args: []*SExpr{e}}
		case p.accept("."):
			n := p.next()
			e = &SExpr{Op: "field", Name: n.v, Args: []*SExpr{e}}
		case p.accept("["):
			i := p.expr()
			p.expect("]")
			e = &SExpr{Op: "index", Args: []*SExpr{e, i}}
		case p.is("(") && e.Op == "ident":
			p.next()
			var as []*SExpr
			if !p.is(")") {
				as = append(as, p.arg(e.Name))
				for p.accept(",") {
					as = append(as, p.arg(e.Name))
				}
			}
			p.expect(")")
			e = &SExpr{Op: "call", Name: e.Name, Args: as}
		default:
			return e
		}
	}
}

// arg parses an argument; types may be given in backquotes; "_" is allowed as wildcard in unfold.
func (p *sparser) arg(fn string) *SExpr {
	if p.peek().k == "type" {
		return &SExpr{Op: "type", Name: p.next().v}
	}
	if p.is("*") && (p.ts[p.p+1].v == "," || p.ts[p.p+1].v == ")") {
		p.next()
		return &SExpr{Op: "wild"}
	}
	return p.expr()
}

func (p *sparser) primary() *SExpr {
	t := p.next()
	switch t.k {
	case "int":
		return &SExpr{Op: "int", Name: t.v}
	case "str":
		return &SExpr{Op: "str", Name: t.v}
	case "id":
		switch t.v {
		case "true", "false":
			return &SExpr{Op: "bool", Name: t.v}
		case "nil":
			return &SExpr{Op: "nil"}
		}
		return &SExpr{Op: "ident", Name: t.v}
	case "type":
		return &SExpr{Op: "type", Name: t.v}
	case "op":
		if t.v == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	panic(fmt.Sprintf("unexpected %q in: %s", t.v, p.src))
}

// --- file sparser

var topKw = map[string]bool{"package": true, "def": true, "uf": true, "heapfn": true, "axiom": true, "lemma": true, "func": true, "extern": true, "iface": true, "recdef": true}
var clKw = map[string]bool{"props": true, "requires": true, "ensures": true, "modifies": true, "loop": true, "var": true, "invariant": true,
	"unfold": true, "hint": true, "hinttop": true, "trusted": true, "reads": true, "gives": true, "panics": true, "inline": true, "strings": true, "fold": true, "note": true, "maxpaths": true,
	"timeout": true, "uses": true, "noframe": true, "noauto": true, "assume": true}

func firstWord(s string) string {
	s = strings.TrimSpace(s)
	for i, c := range s {
		if c == ' ' || c == '\t' {
			return s[:i]
		}
	}
	return s
}

var reFn = regexp.MustCompile(`^(\(\*?[^)]*\)\.[A-Za-z0-9_$]+|[A-Za-z0-9_./$-]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?$`)
var reLabel = regexp.MustCompile(`^\[([^\]]+)\]\s*(.*)$`)

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func (sf *SpecFile) load(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type line struct {
		text string
		n    int
		top  bool
	}
	var items []line
	for i, l := range strings.Split(string(data), "\n") {
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") {
			l = l[:k]
		}
		tr := strings.TrimSpace(l)
		if tr == "" || strings.HasPrefix(tr, "#") {
			continue
		}
		w := firstWord(tr)
		isTop := l[0] != ' ' && l[0] != '\t' && topKw[w]
		isCl := clKw[w] && (l[0] == ' ' || l[0] == '\t')
		if isTop || isCl {
			items = append(items, line{tr, i + 1, isTop})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + tr
		} else {
			return fmt.Errorf("%s:%d: unexpected line", file, i+1)
		}
	}
	pkg := ""
	var cur *Contract
	var curLoop *LoopSpec
	var curAx *AxiomDef
	for _, it := range items {
		w := firstWord(it.text)
		rest := strings.TrimSpace(it.text[len(w):])
		loc := fmt.Sprintf("%s:%d", file, it.n)
		fail := func(e error) error { return fmt.Errorf("%s: %v", loc, e) }
		mk := func() (*Clause, error) {
			c := &Clause{Loc: loc}
			if m := reLabel.FindStringSubmatch(rest); m != nil {
				c.Label = m[1]
				rest = m[2]
			}
			c.Src = rest
			e, err := parseExpr(rest)
			if err != nil {
				return nil, fail(err)
			}
			c.E = e
			return c, nil
		}
		if it.top {
			cur, curLoop, curAx = nil, nil, nil
		}
		switch w {
		case "package":
			pkg = rest
		case "def", "recdef":
			// name(params) ret = expr
			k := strings.Index(rest, "(")
			name := strings.TrimSpace(rest[:k])
			depth := 0
			j := k
			for ; j < len(rest); j++ {
				if rest[j] == '(' {
					depth++
				} else if rest[j] == ')' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			ps := rest[k+1 : j]
			after := rest[j+1:]
			q := strings.Index(after, "=")
			ret := strings.TrimSpace(after[:q])
			body, err := parseExpr(after[q+1:])
			if err != nil {
				return fail(err)
			}
			vs, err := parseVars(ps)
			if err != nil {
				return fail(err)
			}
			if w == "def" {
				sf.Macros[name] = &MacroDef{name, vs, ret, body, pkg}
			} else {
				sf.Recs[name] = &RecDef{name, vs, ret, body, pkg}
			}
		case "uf", "heapfn":
			reads := []string{}
			if k := strings.Index(rest, " reads "); k >= 0 {
				for _, r := range strings.Split(rest[k+7:], ",") {
					reads = append(reads, strings.TrimSpace(r))
				}
				rest = rest[:k]
			}
			k := strings.Index(rest, "(")
			name := strings.TrimSpace(rest[:k])
			j := strings.LastIndex(rest, ")")
			var args []string
			for _, a := range strings.Split(rest[k+1:j], ",") {
				a = strings.TrimSpace(a)
				if a != "" {
					args = append(args, a)
				}
			}
			sf.UFs[name] = &UFDef{name, args, strings.TrimSpace(rest[j+1:]), reads, pkg}
		case "axiom", "lemma":
			c, err := mk()
			if err != nil {
				return err
			}
			curAx = &AxiomDef{Label: c.Label, E: c.E, Pkg: pkg, Src: c.Src, Lemma: w == "lemma"}
			sf.Axioms = append(sf.Axioms, curAx)
		case "func", "extern", "iface":
			m := reFn.FindStringSubmatch(rest)
			if m == nil {
				return fail(fmt.Errorf("bad function header %q", rest))
			}
			cur = &Contract{Pkg: pkg, Key: m[1], Kind: w, Params: splitNames(m[2]), Results: splitNames(m[3]), Loops: map[int]*LoopSpec{}, File: file, Line: it.n, Frame: true}
			full := pkg + "::" + m[1]
			if w == "extern" {
				cur.Trusted = true
				full = m[1]
			}
			if w == "iface" {
				full = "iface:" + pkg + "." + m[1]
				if strings.Contains(m[1], "/") || strings.Count(m[1], ".") > 1 || strings.HasPrefix(m[1], "error.") {
					full = "iface:" + m[1]
				}
				cur.Trusted = true
			}
			if sf.Contracts[full] != nil {
				return fail(fmt.Errorf("duplicate contract for %s", full))
			}
			sf.Contracts[full] = cur
			sf.Order = append(sf.Order, cur)
		default:
			if curAx != nil {
				switch w {
				case "props":
					curAx.Props = strings.Fields(rest)
				case "uses":
					curAx.Uses = strings.Fields(rest)
				default:
					return fail(fmt.Errorf("clause %s in axiom", w))
				}
				continue
			}
			if cur == nil {
				return fail(fmt.Errorf("clause %s outside function", w))
			}
			switch w {
			case "props":
				cur.Props = strings.Fields(rest)
			case "reads":
				cur.Reads = append(cur.Reads, splitNames(rest)...)
			case "uses":
				cur.Uses = append(cur.Uses, strings.Fields(rest)...)
			case "requires", "ensures", "assume", "gives":
				c, err := mk()
				if err != nil {
					return err
				}
				switch w {
				case "requires":
					cur.Requires = append(cur.Requires, c)
				case "assume":
					cur.ClAssume = append(cur.ClAssume, c)
				case "gives":
					cur.Gives = append(cur.Gives, c)
				default:
					cur.Ensures = append(cur.Ensures, c)
				}
			case "modifies":
				for _, part := range splitTop(rest) {
					e, err := parseExpr(part)
					if err != nil {
						return fail(err)
					}
					cur.Modifies = append(cur.Modifies, e)
				}
			case "loop":
				var n int
				fmt.Sscanf(rest, "%d", &n)
				curLoop = &LoopSpec{N: n}
				cur.Loops[n] = curLoop
			case "var":
				vs, err := parseVars(rest)
				if err != nil {
					return fail(err)
				}
				curLoop.Vars = append(curLoop.Vars, vs...)
			case "invariant":
				c, err := mk()
				if err != nil {
					return err
				}
				curLoop.Invs = append(curLoop.Invs, c)
			case "hint", "hinttop":
				c, err := mk()
				if err != nil {
					return err
				}
				if curLoop != nil {
					if w == "hint" {
						curLoop.Hints = append(curLoop.Hints, c)
					} else {
						curLoop.HintsTop = append(curLoop.HintsTop, c)
					}
				} else {
					cur.Hints = append(cur.Hints, c)
				}
			case "unfold":
				e, err := parseExpr(rest)
				if err != nil {
					return fail(err)
				}
				if curLoop != nil {
					curLoop.Unfolds = append(curLoop.Unfolds, e)
				} else {
					cur.Unfolds = append(cur.Unfolds, e)
				}
			case "fold":
				// fold Name(params) over key K = expr
				k := strings.Index(rest, "(")
				name := strings.TrimSpace(rest[:k])
				j := strings.Index(rest, ")")
				vs, err := parseVars(rest[k+1 : j])
				if err != nil {
					return fail(err)
				}
				after := strings.TrimSpace(rest[j+1:])
				after = strings.TrimSpace(strings.TrimPrefix(after, "over"))
				q := strings.Index(after, "=")
				kv, err := parseVars(after[:q])
				if err != nil {
					return fail(err)
				}
				e, err := parseExpr(after[q+1:])
				if err != nil {
					return fail(err)
				}
				cur.Folds = append(cur.Folds, &FoldDef{name, vs, kv[0], e})
			case "trusted":
				cur.Trusted = true
				cur.Note = rest
			case "panics":
				cur.Panics = true
			case "inline":
				cur.Inline = true
			case "strings":
				cur.Native = true
			case "note":
				cur.Note = rest
			case "maxpaths":
				fmt.Sscanf(rest, "%d", &cur.MaxPaths)
			case "timeout":
				fmt.Sscanf(rest, "%d", &cur.Timeout)
			case "noframe":
				cur.Frame = false
			case "noauto":
				cur.NoAuto = true
			}
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d := 0
	last := 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

func parseVars(s string) (vs []SVar, err error) {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil, nil
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	ts, err := lex(strings.ReplaceAll(s, ";", ","))
	if err != nil {
		return nil, err
	}
	p := &sparser{ts: ts, src: s}
	// Go style: a, b T, c U
	var pend []string
	for {
		n := p.next().v
		pend = append(pend, n)
		if p.accept(",") {
			continue
		}
		if p.peek().k == "eof" {
			return nil, fmt.Errorf("missing type in %q", s)
		}
		ty := p.typeText()
		for _, x := range pend {
			vs = append(vs, SVar{x, ty})
		}
		pend = nil
		if !p.accept(",") {
			break
		}
	}
	return vs, nil
}
