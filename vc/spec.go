package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"
)

// ---- contract files ----
//
// A contract file (*.vspec) is a list of declarations, one clause per line;
// a line that does not start with a keyword continues the previous clause.
// "#" starts a comment.

type Clause struct {
	label string
	expr  *Expr
	text  string
	file  string
	line  int
}

type Assign struct {
	name string
	idx  *Expr // optional map index
	expr *Expr
	line int
}

type LoopSpec struct {
	invs     []Clause
	decr     []*Expr
	unroll   bool
	unrollTo int
	noauto   bool
}

type Contract struct {
	kind     string // func, extern, invoke, callback
	name     string
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	assumes  []Clause // trusted postconditions of a verified function: never used
	sets     []Assign
	modifies []string
	hasMod   bool
	loops    map[int]*LoopSpec
	opts     map[string]string
	file     string
	line     int
	lets     []Assign
	// model-defining closures
	calls []string
}

type VerifyDirective struct {
	params, results []string
	loops           map[int]*LoopSpec
	lets            []Assign
	pattern         string
	except          []string
	opts            map[string]string
	requires        []Clause
	ensures         []Clause
	file            string
	line            int
}

type GhostDecl struct {
	name string
	sort Sort
	typ  string
	init *Expr
}

type SpecFunc struct {
	name   string
	params []QVar
	res    Sort
	def    *Expr // macro when non-nil
	defns  []string
}

type QVar struct {
	name string
	sort Sort
	typ  string
}

// specDigits: some contract speaks of strings of digits
var specDigits bool

type Unit struct {
	id        string
	title     string
	packages  []string
	ghosts    []*GhostDecl
	funcs     map[string]*SpecFunc
	axioms    []Clause
	contracts map[string]*Contract // func & extern by name
	invokes   []*Contract
	callbacks []*Contract
	verifies  []*VerifyDirective
	lemmas    []*Lemma
	notes     []string
	consts    map[string]string
	pure      map[string]bool // package paths whose functions may be treated as pure
	files     []string
	subs      []string // struct fields contracts name below a quantifier
	assumed   []string
	skipped   []string
}

type Lemma struct {
	name string
	vars []QVar
	hyps []Clause
	goal Clause
}

var keywords = map[string]bool{
	"unit": true, "substructs": true, "title": true, "include": true, "packages": true, "ghost": true, "spec": true, "define": true,
	"axiom": true, "extern": true, "invoke": true, "callback": true, "func": true, "verify": true, "requires": true,
	"ensures": true, "modifies": true, "sets": true, "loop": true, "option": true, "except": true, "note": true, "let": true,
	"lemma": true, "hyp": true, "goal": true, "pure": true, "assumption": true,
}

func specErr(file string, line int, format string, a ...any) {
	fatalf("%s:%d: %s", file, line, fmt.Sprintf(format, a...))
}

func loadUnit(path string) *Unit {
	u := &Unit{funcs: map[string]*SpecFunc{}, contracts: map[string]*Contract{}, consts: map[string]string{}, pure: map[string]bool{}}
	u.readFile(path, map[string]bool{})
	return u
}

func firstWord(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := 0
	for i < len(s) && (unicode.IsLetter(rune(s[i])) || s[i] == '_') {
		i++
	}
	return s[:i], s[i:]
}

func stripComment(s string) string {
	inStr := false
	for i := 0; i < len(s); i++ {
		if s[i] == '"' && (i == 0 || s[i-1] != '\\') {
			inStr = !inStr
		}
		if s[i] == '#' && !inStr {
			return s[:i]
		}
	}
	return s
}

func (u *Unit) readFile(path string, seen map[string]bool) {
	if seen[path] {
		return
	}
	seen[path] = true
	u.files = append(u.files, path)
	data, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	type cl struct {
		kw, rest string
		line     int
	}
	var cls []cl
	for i, l := range strings.Split(string(data), "\n") {
		l = stripComment(l)
		if strings.TrimSpace(l) == "" {
			continue
		}
		w, rest := firstWord(l)
		if keywords[w] {
			cls = append(cls, cl{w, rest, i + 1})
			continue
		}
		if len(cls) == 0 {
			specErr(path, i+1, "unexpected %q", l)
		}
		cls[len(cls)-1].rest += " " + strings.TrimSpace(l)
	}
	var cur *Contract
	var vd *VerifyDirective
	var lem *Lemma
	reset := func() { cur, vd, lem = nil, nil, nil }
	clause := func(rest string, line int) Clause {
		label := ""
		rest = strings.TrimSpace(rest)
		if strings.HasPrefix(rest, "[") {
			j := strings.IndexByte(rest, ']')
			label = rest[1:j]
			rest = rest[j+1:]
		}
		return Clause{label, u.parseExpr(rest, path, line), strings.TrimSpace(rest), path, line}
	}
	for _, k := range cls {
		rest := strings.TrimSpace(k.rest)
		switch k.kw {
		case "unit":
			u.id = rest
		case "title":
			u.title = rest
		case "substructs":
			u.subs = append(u.subs, strings.Fields(rest)...)
		case "note":
			u.notes = append(u.notes, rest)
		case "assumption":
			u.assumed = append(u.assumed, rest)
		case "include":
			for _, f := range strings.Fields(rest) {
				u.readFile(filepath.Join(filepath.Dir(path), f+".vspec"), seen)
			}
			reset()
		case "packages":
			for _, f := range strings.Fields(rest) {
				if !containsStr(u.packages, f) {
					u.packages = append(u.packages, f)
				}
			}
		case "pure":
			for _, f := range strings.Fields(rest) {
				u.pure[f] = true
			}
		case "ghost":
			reset()
			p := newParser(rest, path, k.line)
			name := p.ident()
			s, typ := p.sort()
			g := &GhostDecl{name: name, sort: s, typ: typ}
			if p.accept("=") {
				g.init = p.expr()
			}
			p.end()
			u.ghosts = append(u.ghosts, g)
		case "spec", "define":
			reset()
			p := newParser(rest, path, k.line)
			name := p.ident()
			f := &SpecFunc{name: name}
			p.expect("(")
			for !p.accept(")") {
				n := p.ident()
				q := QVar{name: n}
				if p.peek() != "," && p.peek() != ")" {
					q.sort, q.typ = p.sort()
				}
				f.params = append(f.params, q)
				p.accept(",")
			}
			if k.kw == "spec" {
				f.res, _ = p.sort()
			} else {
				p.expect("=")
				f.def = p.expr()
			}
			p.end()
			u.funcs[name] = f
		case "axiom":
			reset()
			u.axioms = append(u.axioms, clause(rest, k.line))
		case "lemma":
			reset()
			p := newParser(rest, path, k.line)
			lem = &Lemma{name: p.ident()}
			p.expect("(")
			for !p.accept(")") {
				n := p.ident()
				s, t := p.sort()
				lem.vars = append(lem.vars, QVar{n, s, t})
				p.accept(",")
			}
			p.end()
			u.lemmas = append(u.lemmas, lem)
		case "hyp":
			lem.hyps = append(lem.hyps, clause(rest, k.line))
		case "goal":
			lem.goal = clause(rest, k.line)
		case "func", "extern", "invoke", "callback":
			reset()
			cur = &Contract{kind: k.kw, loops: map[int]*LoopSpec{}, opts: map[string]string{}, file: path, line: k.line}
			name, params, results := parseHeader(rest, path, k.line)
			cur.name, cur.params, cur.results = name, params, results
			switch k.kw {
			case "func", "extern":
				u.contracts[name] = cur
			case "invoke":
				u.invokes = append([]*Contract{cur}, u.invokes...)
			case "callback":
				u.callbacks = append([]*Contract{cur}, u.callbacks...)
			}
		case "verify":
			reset()
			vd = &VerifyDirective{opts: map[string]string{}, file: path, line: k.line}
			if strings.HasSuffix(rest, ")") {
				vd.pattern, vd.params, vd.results = parseHeader(rest, path, k.line)
			} else {
				fs := strings.Fields(rest)
				vd.pattern = fs[0]
				for _, o := range fs[1:] {
					setOpt(vd.opts, o)
				}
			}
			u.verifies = append(u.verifies, vd)
		case "except":
			vd.except = append(vd.except, strings.Fields(rest)...)
		case "requires":
			if vd != nil {
				vd.requires = append(vd.requires, clause(rest, k.line))
			} else {
				cur.requires = append(cur.requires, clause(rest, k.line))
			}
		case "ensures":
			if vd != nil {
				vd.ensures = append(vd.ensures, clause(rest, k.line))
			} else {
				cur.ensures = append(cur.ensures, clause(rest, k.line))
			}
		case "modifies":
			cur.hasMod = true
			for _, f := range strings.Split(rest, ",") {
				f = strings.TrimSpace(f)
				if f != "" && f != "nothing" {
					cur.modifies = append(cur.modifies, f)
				}
			}
		case "sets", "let":
			p := newParser(rest, path, k.line)
			a := Assign{name: p.ident(), line: k.line}
			if p.accept("[") {
				a.idx = p.expr()
				p.expect("]")
			}
			p.expect("=")
			a.expr = p.expr()
			p.end()
			if k.kw == "let" && vd != nil {
				vd.lets = append(vd.lets, a)
			} else if k.kw == "let" {
				cur.lets = append(cur.lets, a)
			} else {
				cur.sets = append(cur.sets, a)
			}
		case "option":
			for _, o := range strings.Fields(rest) {
				if vd != nil {
					setOpt(vd.opts, o)
				} else {
					setOpt(cur.opts, o)
				}
			}
		case "loop":
			p := newParser(rest, path, k.line)
			n := p.intLit()
			lm := map[int]*LoopSpec(nil)
			if vd != nil {
				if vd.loops == nil {
					vd.loops = map[int]*LoopSpec{}
				}
				lm = vd.loops
			} else {
				lm = cur.loops
			}
			ls := lm[n]
			if ls == nil {
				ls = &LoopSpec{}
				lm[n] = ls
			}
			switch w := p.ident(); w {
			case "invariant":
				label := ""
				if p.accept("[") {
					label = p.ident()
					p.expect("]")
				}
				e := p.expr()
				p.end()
				ls.invs = append(ls.invs, Clause{label, e, rest, path, k.line})
			case "decreases":
				ls.decr = append(ls.decr, p.expr())
				p.end()
			case "unroll":
				ls.unroll = true
			case "noauto":
				ls.noauto = true
			default:
				specErr(path, k.line, "loop clause %q", w)
			}
		}
	}
}

func setOpt(m map[string]string, o string) {
	if i := strings.IndexByte(o, '='); i >= 0 {
		m[o[:i]] = o[i+1:]
	} else {
		m[o] = "1"
	}
}

func containsStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// parseHeader splits "(*pkg.T).M(p1, p2) (r1, r2)".
func parseHeader(s, file string, line int) (name string, params, results []string) {
	s = strings.TrimSpace(s)
	var resStr string
	i := strings.LastIndexByte(s, ')')
	if i < 0 {
		specErr(file, line, "bad header %q", s)
	}
	// find groups from the right
	group := func(end int) int {
		depth := 0
		for j := end; j >= 0; j-- {
			switch s[j] {
			case ')':
				depth++
			case '(':
				depth--
				if depth == 0 {
					return j
				}
			}
		}
		specErr(file, line, "unbalanced header %q", s)
		return -1
	}
	o := group(i)
	before := strings.TrimRight(s[:o], " ")
	var pStr string
	if strings.HasSuffix(before, ")") && o > 0 && s[o-1] == ' ' {
		resStr = s[o+1 : i]
		pe := len(before) - 1
		po := group(pe)
		pStr = s[po+1 : pe]
		name = strings.TrimSpace(s[:po])
	} else {
		pStr = s[o+1 : i]
		name = strings.TrimSpace(s[:o])
	}
	split := func(t string) []string {
		var out []string
		for _, f := range strings.Split(t, ",") {
			f = strings.TrimSpace(f)
			if f != "" {
				out = append(out, f)
			}
		}
		return out
	}
	return name, split(pStr), split(resStr)
}

// ---- expressions ----

type Expr struct {
	op   string // ident, int, str, call, field, index, not, neg, bin ops, forall, exists, old
	name string
	args []*Expr
	vars []QVar
	pats [][]*Expr
	i    int64
	s    string
}

type parser struct {
	toks []string
	pos  int
	file string
	line int
	src  string
}

func (u *Unit) parseExpr(s, file string, line int) *Expr {
	p := newParser(s, file, line)
	e := p.expr()
	p.end()
	return e
}

func newParser(s, file string, line int) *parser {
	p := &parser{file: file, line: line, src: s}
	ops := []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">=", "&^"}
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t':
			i++
		case ch == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			p.toks = append(p.toks, s[i:j+1])
			i = j + 1
		case ch == '\'':
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				j++
			}
			p.toks = append(p.toks, s[i:j+1])
			i = j + 1
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f') {
				j++
			}
			p.toks = append(p.toks, s[i:j])
			i = j
		case unicode.IsLetter(rune(ch)) || ch == '_' || ch == '$':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || s[j] == '_' || s[j] == '$' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			p.toks = append(p.toks, s[i:j])
			i = j
		default:
			matched := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					p.toks = append(p.toks, o)
					i += len(o)
					matched = true
					break
				}
			}
			if !matched {
				p.toks = append(p.toks, string(ch))
				i++
			}
		}
	}
	return p
}

func (p *parser) fail(format string, a ...any) {
	specErr(p.file, p.line, "%s (at token %d %q of %q)", fmt.Sprintf(format, a...), p.pos, p.peek(), p.src)
}

func (p *parser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}
func (p *parser) next() string { t := p.peek(); p.pos++; return t }
func (p *parser) accept(s string) bool {
	if p.peek() == s {
		p.pos++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) end() {
	if p.pos != len(p.toks) {
		p.fail("trailing tokens")
	}
}
func isIdent(s string) bool {
	return s != "" && (unicode.IsLetter(rune(s[0])) || s[0] == '_' || s[0] == '$')
}
func (p *parser) ident() string {
	t := p.next()
	if !isIdent(t) {
		p.pos--
		p.fail("identifier expected")
	}
	return t
}
func (p *parser) intLit() int {
	var n int
	if _, err := fmt.Sscan(p.next(), &n); err != nil {
		p.fail("integer expected")
	}
	return n
}

// sort: int, bool, string, ref, iface-free; map[K]V for SMT arrays.
func (p *parser) sort() (Sort, string) {
	t := p.next()
	switch t {
	case "int", "ref":
		return SInt, t
	case "bool":
		return SBool, t
	case "string":
		return SStr, t
	case "map":
		p.expect("[")
		k, _ := p.sort()
		p.expect("]")
		v, _ := p.sort()
		return arr(k, v), "map"
	}
	if t == "iface" {
		return SInt, "iface"
	}
	if strings.HasPrefix(t, "\"") {
		return SInt, t
	}
	p.pos--
	p.fail("sort expected")
	return "", ""
}

func (p *parser) expr() *Expr { return p.iff() }

func bin(op string, a, b *Expr) *Expr { return &Expr{op: op, args: []*Expr{a, b}} }

func (p *parser) iff() *Expr {
	a := p.imp()
	for p.accept("<==>") {
		a = bin("<==>", a, p.imp())
	}
	return a
}
func (p *parser) imp() *Expr {
	a := p.or()
	if p.accept("==>") {
		return bin("==>", a, p.imp())
	}
	return a
}
func (p *parser) or() *Expr {
	a := p.and()
	for p.accept("||") {
		a = bin("||", a, p.and())
	}
	return a
}
func (p *parser) and() *Expr {
	a := p.cmp()
	for p.accept("&&") {
		a = bin("&&", a, p.cmp())
	}
	return a
}
func (p *parser) cmp() *Expr {
	a := p.sum()
	var chain *Expr
	for {
		switch p.peek() {
		case "==", "!=", "<", "<=", ">", ">=":
			op := p.next()
			b := p.sum()
			e := bin(op, a, b)
			if chain == nil {
				chain = e
			} else {
				chain = bin("&&", chain, e)
			}
			a = b
			continue
		}
		break
	}
	if chain != nil {
		return chain
	}
	return a
}
func (p *parser) sum() *Expr {
	a := p.prod()
	for {
		switch p.peek() {
		case "+", "-":
			op := p.next()
			a = bin(op, a, p.prod())
			continue
		}
		return a
	}
}
func (p *parser) prod() *Expr {
	a := p.unary()
	for {
		switch p.peek() {
		case "*", "/", "%", "&", "&^":
			op := p.next()
			a = bin(op, a, p.unary())
			continue
		}
		return a
	}
}
func (p *parser) unary() *Expr {
	if p.accept("!") {
		return &Expr{op: "not", args: []*Expr{p.unary()}}
	}
	if p.accept("-") {
		return &Expr{op: "neg", args: []*Expr{p.unary()}}
	}
	if p.accept("*") {
		return &Expr{op: "deref", args: []*Expr{p.unary()}}
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			e = &Expr{op: "field", name: p.ident(), args: []*Expr{e}}
		case p.accept("["):
			i := p.expr()
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}}
		default:
			return e
		}
	}
}
func (p *parser) primary() *Expr {
	t := p.next()
	switch {
	case t == "(":
		e := p.expr()
		p.expect(")")
		return e
	case t == "forall" || t == "exists":
		e := &Expr{op: t}
		for {
			n := p.ident()
			s, ty := p.sort()
			e.vars = append(e.vars, QVar{n, s, ty})
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		for p.accept("{") {
			var pat []*Expr
			for {
				pat = append(pat, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.pats = append(e.pats, pat)
		}
		e.args = []*Expr{p.expr()}
		return e
	case t == "true" || t == "false":
		return &Expr{op: t}
	case t == "nil":
		return &Expr{op: "nil"}
	case t != "" && t[0] == '"':
		var s string
		if _, err := fmt.Sscanf(t, "%q", &s); err != nil {
			p.fail("bad string %s", t)
		}
		return &Expr{op: "str", s: s}
	case t != "" && t[0] == '\'':
		return &Expr{op: "int", i: int64(t[1])}
	case t != "" && t[0] >= '0' && t[0] <= '9':
		var n int64
		if _, err := fmt.Sscanf(t, "%v", &n); err != nil {
			p.fail("bad int %s", t)
		}
		return &Expr{op: "int", i: n}
	case isIdent(t):
		if p.accept("(") {
			if t == "digits" {
				specDigits = true
			}
			e := &Expr{op: "call", name: t}
			if t == "outer" {
				specUsesOuter = true
			}
			for !p.accept(")") {
				e.args = append(e.args, p.expr())
				if !p.accept(",") && p.peek() != ")" {
					p.fail("expected , or )")
				}
			}
			return e
		}
		return &Expr{op: "ident", name: t}
	}
	p.pos--
	p.fail("expression expected")
	return nil
}
