package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT-LIB expressions, one context per verified function.

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "String"
)

func arr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func arrParts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[7 : len(str)-1]
	// split the first sort
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort")
}

type T struct {
	id    int
	op    string
	args  []*T
	sort  Sort
	lit   string // op=="lit": literal text; op=="var"/"bvar": name
	i     *big.Int
	bound bool // contains bound variables
	size  int
}

type fdecl struct {
	name string
	args []Sort
	res  Sort
}

type Ctx struct {
	tab     map[string]*T
	n       int
	fresh   int
	decls   map[string]fdecl
	order   []string
	True    *T
	False   *T
	typeIDs map[string]int
	// quantified axioms for declared functions, by function name
	axioms []*T
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*T{}, decls: map[string]fdecl{}, typeIDs: map[string]int{}}
	c.True = c.mk("lit", SBool, "true", nil)
	c.False = c.mk("lit", SBool, "false", nil)
	return c
}

func (c *Ctx) mk(op string, s Sort, lit string, args []*T) *T {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(lit)
	b.WriteByte('|')
	b.WriteString(string(s))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &T{id: c.n, op: op, args: args, sort: s, lit: lit, size: 1}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	if op == "bvar" {
		t.bound = true
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(i int64) *T { return c.Big(big.NewInt(i)) }

func (c *Ctx) Big(i *big.Int) *T {
	s := i.String()
	t := c.mk("lit", SInt, s, nil)
	if t.i == nil {
		t.i = new(big.Int).Set(i)
	}
	return t
}

func (c *Ctx) Bool(b bool) *T {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Str(s string) *T { return c.mk("lit", SStr, smtString(s), nil) }

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString(`""`)
		case ch == '\\' || ch < 0x20 || ch > 0x7e:
			fmt.Fprintf(&b, "\\u{%x}", ch)
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// litStr recovers the Go string of a literal built by Str.
func litStr(t *T) (string, bool) {
	if t.op != "lit" || t.sort != SStr {
		return "", false
	}
	s := t.lit[1 : len(t.lit)-1]
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], `""`) {
			b.WriteByte('"')
			i += 2
			continue
		}
		if strings.HasPrefix(s[i:], `\u{`) {
			j := strings.IndexByte(s[i:], '}')
			n, _ := strconv.ParseUint(s[i+3:i+j], 16, 32)
			b.WriteByte(byte(n))
			i += j + 1
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String(), true
}

func quoteSym(s string) string {
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_' || ch == '.' || ch == '!' || ch == '$') {
			return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
		}
	}
	if s[0] >= '0' && s[0] <= '9' {
		return "|" + s + "|"
	}
	return s
}

func (c *Ctx) declare(name string, args []Sort, res Sort) {
	if d, ok := c.decls[name]; ok {
		if d.res != res || len(d.args) != len(args) {
			panic(fmt.Sprintf("redeclaration of %s: %v->%v vs %v->%v", name, d.args, d.res, args, res))
		}
		return
	}
	c.decls[name] = fdecl{name, args, res}
	c.order = append(c.order, name)
}

func (c *Ctx) Var(name string, s Sort) *T {
	c.declare(name, nil, s)
	return c.mk("var", s, name, nil)
}

func (c *Ctx) Fresh(hint string, s Sort) *T {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", hint, c.fresh), s)
}

func (c *Ctx) BVar(name string, s Sort) *T { return c.mk("bvar", s, name, nil) }

func (c *Ctx) App(name string, res Sort, args ...*T) *T {
	var as []Sort
	for _, a := range args {
		as = append(as, a.sort)
	}
	if len(args) == 0 {
		return c.Var(name, res)
	}
	c.declare(name, as, res)
	return c.mk("app", res, name, args)
}

func (c *Ctx) Not(a *T) *T {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.op == "not":
		return a.args[0]
	}
	return c.mk("not", SBool, "", []*T{a})
}

func (c *Ctx) And(as ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	var add func(a *T) bool
	add = func(a *T) bool {
		if a == c.True || seen[a] {
			return true
		}
		if a == c.False {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	return c.mk("and", SBool, "", out)
}

func (c *Ctx) Or(as ...*T) *T {
	var n []*T
	for _, a := range as {
		n = append(n, c.Not(a))
	}
	return c.Not(c.And(n...))
}

func (c *Ctx) Imp(a, b *T) *T {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True || a == b {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	return c.mk("=>", SBool, "", []*T{a, b})
}

// known distinct literals
func (c *Ctx) distinct(a, b *T) bool {
	return a != b && a.op == "lit" && b.op == "lit"
}

func (c *Ctx) Eq(a, b *T) *T {
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a == b {
		return c.True
	}
	if c.distinct(a, b) {
		return c.False
	}
	if a.sort == SBool {
		switch {
		case a == c.True:
			return b
		case b == c.True:
			return a
		case a == c.False:
			return c.Not(b)
		case b == c.False:
			return c.Not(a)
		}
	}
	// ite(c, l1, l2) == l  with literals
	if a.op == "ite" && b.op == "lit" && a.args[1].op == "lit" && a.args[2].op == "lit" {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.op == "ite" && a.op == "lit" {
		return c.Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, "", []*T{a, b})
}

func (c *Ctx) Ite(g, a, b *T) *T {
	if g == c.True || a == b {
		return a
	}
	if g == c.False {
		return b
	}
	if a.sort == SBool {
		if a == c.True && b == c.False {
			return g
		}
		if a == c.False && b == c.True {
			return c.Not(g)
		}
	}
	return c.mk("ite", a.sort, "", []*T{g, a, b})
}

// linear normal form for + and -: keep a constant folded at the end.
func (c *Ctx) Add(a, b *T) *T {
	if a.i != nil && b.i != nil {
		return c.Big(new(big.Int).Add(a.i, b.i))
	}
	if a.i != nil && a.i.Sign() == 0 {
		return b
	}
	if b.i != nil && b.i.Sign() == 0 {
		return a
	}
	if a.i != nil {
		a, b = b, a
	}
	// (x + k1) + k2
	if b.i != nil && a.op == "+" && a.args[1].i != nil {
		return c.Add(a.args[0], c.Big(new(big.Int).Add(a.args[1].i, b.i)))
	}
	if a.op == "+" && a.args[1].i != nil && b.i == nil {
		return c.Add(c.Add(a.args[0], b), a.args[1])
	}
	if b.op == "+" && b.args[1].i != nil {
		return c.Add(c.Add(a, b.args[0]), b.args[1])
	}
	return c.mk("+", SInt, "", []*T{a, b})
}

func (c *Ctx) Neg(a *T) *T {
	if a.i != nil {
		return c.Big(new(big.Int).Neg(a.i))
	}
	if a.op == "neg" {
		return a.args[0]
	}
	return c.mk("neg", SInt, "", []*T{a})
}

func (c *Ctx) Sub(a, b *T) *T {
	if a == b {
		return c.Int(0)
	}
	if b.i != nil {
		return c.Add(a, c.Neg(b))
	}
	// (x + y) - y
	if a.op == "+" {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
		if a.args[1].i != nil {
			return c.Add(c.Sub(a.args[0], b), a.args[1])
		}
	}
	return c.Add(a, c.Neg(b))
}

func (c *Ctx) Mul(a, b *T) *T {
	if a.i != nil && b.i != nil {
		return c.Big(new(big.Int).Mul(a.i, b.i))
	}
	if a.i != nil {
		a, b = b, a
	}
	if b.i != nil {
		if b.i.Sign() == 0 {
			return b
		}
		if b.i.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	if b.i == nil && a.id > b.id {
		a, b = b, a
	}
	return c.mk("*", SInt, "", []*T{a, b})
}

// Euclidean div/mod as in SMT-LIB.
func (c *Ctx) Div(a, b *T) *T {
	if a.i != nil && b.i != nil && b.i.Sign() != 0 {
		return c.Big(new(big.Int).Div(a.i, b.i))
	}
	return c.mk("div", SInt, "", []*T{a, b})
}

func (c *Ctx) Mod(a, b *T) *T {
	if a.i != nil && b.i != nil && b.i.Sign() != 0 {
		return c.Big(new(big.Int).Mod(a.i, b.i))
	}
	return c.mk("mod", SInt, "", []*T{a, b})
}

func (c *Ctx) Le(a, b *T) *T {
	if a == b {
		return c.True
	}
	if a.i != nil && b.i != nil {
		return c.Bool(a.i.Cmp(b.i) <= 0)
	}
	// lengths are non-negative
	if a.i != nil && a.i.Sign() <= 0 && b.op == "str.len" {
		return c.True
	}
	return c.mk("<=", SBool, "", []*T{a, b})
}
func (c *Ctx) Lt(a, b *T) *T { return c.Not(c.Le(b, a)) }

func (c *Ctx) Select(a, i *T) *T {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if c.distinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "app" && a.lit == "strbytes" {
		return c.Op("str.to_code", SInt, c.Op("str.at", SStr, a.args[0], i))
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store") && false {
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	_, v := arrParts(a.sort)
	return c.mk("select", v, "", []*T{a, i})
}

func (c *Ctx) Store(a, i, v *T) *T {
	_, vs := arrParts(a.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s into %s", v.sort, a.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk("store", a.sort, "", []*T{a, i, v})
}

func (c *Ctx) ConstArr(s Sort, v *T) *T { return c.mk("constarr", s, "", []*T{v}) }

func (c *Ctx) StrLen(a *T) *T {
	if s, ok := litStr(a); ok {
		return c.Int(int64(len(s)))
	}
	if a.op == "str.++" {
		r := c.Int(0)
		for _, x := range a.args {
			r = c.Add(r, c.StrLen(x))
		}
		return r
	}
	return c.mk("str.len", SInt, "", []*T{a})
}

func (c *Ctx) Concat(as ...*T) *T {
	var out []*T
	for _, a := range as {
		var parts []*T
		if a.op == "str.++" {
			parts = a.args
		} else {
			parts = []*T{a}
		}
		for _, p := range parts {
			if s, ok := litStr(p); ok {
				if s == "" {
					continue
				}
				if len(out) > 0 {
					if ps, ok := litStr(out[len(out)-1]); ok {
						out[len(out)-1] = c.Str(ps + s)
						continue
					}
				}
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return c.Str("")
	case 1:
		return out[0]
	}
	return c.mk("str.++", SStr, "", out)
}

func (c *Ctx) Op(op string, s Sort, args ...*T) *T {
	// constant folding of a few string operations
	switch op {
	case "str.prefixof", "str.suffixof", "str.contains", "str.<", "str.<=":
		a, ok1 := litStr(args[0])
		b, ok2 := litStr(args[1])
		if ok1 && ok2 {
			switch op {
			case "str.prefixof":
				return c.Bool(strings.HasPrefix(b, a))
			case "str.suffixof":
				return c.Bool(strings.HasSuffix(b, a))
			case "str.contains":
				return c.Bool(strings.Contains(a, b))
			case "str.<":
				return c.Bool(a < b)
			case "str.<=":
				return c.Bool(a <= b)
			}
		}
	case "str.substr":
		if a, ok := litStr(args[0]); ok && args[1].i != nil && args[2].i != nil {
			o, n := args[1].i.Int64(), args[2].i.Int64()
			if o >= 0 && n >= 0 && o+n <= int64(len(a)) {
				return c.Str(a[o : o+n])
			}
		}
		if args[1].i != nil && args[1].i.Sign() == 0 && args[2] == c.StrLen(args[0]) {
			return args[0]
		}
	case "vf.digits":
		if a, ok := litStr(args[0]); ok {
			return c.Bool(strings.Trim(a, "0123456789") == "")
		}
	case "str.to_code":
		if a, ok := litStr(args[0]); ok && len(a) == 1 {
			return c.Int(int64(a[0]))
		}
	case "str.at":
		if a, ok := litStr(args[0]); ok && args[1].i != nil {
			o := args[1].i.Int64()
			if o >= 0 && o < int64(len(a)) {
				return c.Str(a[o : o+1])
			}
		}
	}
	return c.mk("op", s, op, args)
}

func (c *Ctx) Forall(vars []*T, body *T, pats ...[]*T) *T { return c.quant("forall", vars, body, pats) }
func (c *Ctx) Exists(vars []*T, body *T) *T               { return c.quant("exists", vars, body, nil) }

func (c *Ctx) quant(q string, vars []*T, body *T, pats [][]*T) *T {
	if body == c.True || body == c.False {
		return body
	}
	args := append([]*T{}, vars...)
	args = append(args, body)
	lit := strconv.Itoa(len(vars))
	for _, p := range pats {
		lit += ":" + strconv.Itoa(len(p))
		args = append(args, p...)
	}
	t := c.mk(q, SBool, lit, args)
	// bound flag: a closed quantifier may be lifted into a definition
	t.bound = freeBound(body, vars)
	return t
}

func freeBound(t *T, vars []*T) bool {
	m := map[*T]bool{}
	for _, v := range vars {
		m[v] = true
	}
	seen := map[*T]bool{}
	var rec func(t *T) bool
	rec = func(t *T) bool {
		if !t.bound || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "bvar" {
			return !m[t]
		}
		if t.op == "forall" || t.op == "exists" {
			return t.bound
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *T) String() string {
	var b strings.Builder
	printTerm(&b, t, nil)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func printTerm(b *strings.Builder, t *T, names map[*T]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.op {
	case "lit":
		if t.i != nil && t.i.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.i).String())
			return
		}
		b.WriteString(t.lit)
		return
	case "var", "bvar":
		b.WriteString(quoteSym(t.lit))
		return
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.sort)
		printTerm(b, t.args[0], names)
		b.WriteByte(')')
		return
	case "forall", "exists":
		parts := strings.Split(t.lit, ":")
		nv, _ := strconv.Atoi(parts[0])
		b.WriteString("(" + t.op + " (")
		for _, v := range t.args[:nv] {
			fmt.Fprintf(b, "(%s %s)", quoteSym(v.lit), v.sort)
		}
		b.WriteString(") ")
		rest := t.args[nv+1:]
		if len(parts) > 1 {
			b.WriteString("(! ")
		}
		printTerm(b, t.args[nv], names)
		for _, p := range parts[1:] {
			n, _ := strconv.Atoi(p)
			b.WriteString(" :pattern (")
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteByte(' ')
				}
				printTerm(b, rest[i], names)
			}
			rest = rest[n:]
			b.WriteString(")")
		}
		if len(parts) > 1 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	name := t.op
	switch t.op {
	case "app":
		name = quoteSym(t.lit)
	case "op":
		name = t.lit
	case "neg":
		name = "-"
	}
	b.WriteByte('(')
	b.WriteString(name)
	for _, a := range t.args {
		b.WriteByte(' ')
		printTerm(b, a, names)
	}
	b.WriteByte(')')
}

// script renders the assertions as a self-contained SMT-LIB script body
// (declarations, shared definitions, assertions).
func (c *Ctx) script(asserts []*T) string {
	g, q := c.render(asserts, true)
	if !q {
		return g
	}
	f, _ := c.render(asserts, false)
	return g + "\x00" + f
}

// render gives the script with the relevant axioms ground-instantiated or as they
// are, and whether any of them is quantified.
func (c *Ctx) render(asserts []*T, ground bool) (string, bool) {
	// collect used symbols and share counts
	used := map[string]bool{}
	cnt := map[*T]int{}
	var order []*T
	var visit func(t *T)
	visit = func(t *T) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		if t.op == "var" || t.op == "app" {
			used[t.lit] = true
		}
		for _, a := range t.args {
			visit(a)
		}
		order = append(order, t) // post-order
	}
	for _, a := range asserts {
		visit(a)
	}
	var ax []*T
	// axioms whose symbols are all used
	for changed := true; changed; {
		changed = false
		for _, a := range c.axioms {
			if a == nil || containsT(ax, a) {
				continue
			}
			syms := map[string]bool{}
			collectApps(a, syms, map[*T]bool{})
			ok := false
			for s := range syms {
				if used[s] {
					ok = true
				}
			}
			if ok {
				ax = append(ax, a)
				for s := range syms {
					if !used[s] {
						used[s] = true
					}
				}
				collectVars(a, used, map[*T]bool{})
				changed = true
			}
		}
	}
	quantified := false
	if ground {
		ax, quantified = c.instances(asserts, ax)
		for _, a := range ax {
			visit(a)
		}
	}
	var b strings.Builder
	var names []string
	for n := range used {
		names = append(names, n)
	}
	sort.Strings(names)
	const digits = "(define-fun vf.digits ((s String)) Bool (str.in_re s (re.* (re.range \"0\" \"9\"))))\n"
	b.WriteString(digits)
	for _, n := range names {
		d := c.decls[n]
		if len(d.args) == 0 {
			fmt.Fprintf(&b, "(declare-const %s %s)\n", quoteSym(n), d.res)
			continue
		}
		fmt.Fprintf(&b, "(declare-fun %s (", quoteSym(n))
		for i, a := range d.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(string(a))
		}
		fmt.Fprintf(&b, ") %s)\n", d.res)
	}
	defs := map[*T]string{}
	k := 0
	for _, t := range order {
		if cnt[t] > 1 && len(t.args) > 0 && !t.bound && t.size > 3 {
			k++
			name := fmt.Sprintf("d!%d", k)
			fmt.Fprintf(&b, "(define-fun %s () %s ", name, t.sort)
			printTerm(&b, t, defs)
			b.WriteString(")\n")
			defs[t] = name
		}
	}
	for _, a := range append(append([]*T{}, ax...), asserts...) {
		b.WriteString("(assert ")
		printTerm(&b, a, defs)
		b.WriteString(")\n")
	}
	if r := b.String(); !strings.Contains(r[len(digits):], "vf.digits") {
		return r[len(digits):], quantified
	}
	return b.String(), quantified
}

func containsT(l []*T, t *T) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func collectApps(t *T, out map[string]bool, seen map[*T]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "app" {
		out[t.lit] = true
	}
	for _, a := range t.args {
		collectApps(a, out, seen)
	}
}

func collectVars(t *T, out map[string]bool, seen map[*T]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "app" || t.op == "var" {
		out[t.lit] = true
	}
	for _, a := range t.args {
		collectVars(a, out, seen)
	}
}
