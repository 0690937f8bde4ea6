package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ev is an evaluated specification expression: a value and, when it denotes a
// Go value, its Go type.
type ev struct {
	v Val
	t types.Type
}

// Env is the evaluation context of a specification expression.
type Env struct {
	x         *Exec
	st        *State
	names     map[string]ev // parameters, results, lets, macro arguments, bound variables
	frame     *Frame        // locals of the function being executed (loop invariants)
	mem       *Mem          // memory to read (nil: current)
	old       *Mem          // memory for old()
	entryPhi  map[*ssa.Phi]Val
	loopEntry *Mem
	depth     int
	entry     bool // a precondition, postcondition or loop invariant is being assumed
}

func (e *Env) with(names map[string]ev) *Env {
	n := *e
	n.names = make(map[string]ev, len(e.names)+len(names))
	for k, v := range e.names {
		n.names[k] = v
	}
	for k, v := range names {
		n.names[k] = v
	}
	return &n
}

type specError struct{ msg string }

func specFail(format string, a ...any) { unsup("contract: "+format, a...) }

// inMem runs f with the state's memory replaced by e's.
func (e *Env) inMem(f func()) {
	if e.mem == nil || e.mem == e.st.Mem {
		f()
		return
	}
	saved := e.st.Mem
	e.st.Mem = e.mem
	defer func() { e.st.Mem = saved }()
	f()
}

func (x *Exec) evalBool(env *Env, e *Expr) *T {
	v := x.eval(env, e)
	t, ok := v.v.(*T)
	if !ok || t.sort != SBool {
		specFail("boolean expected in %s", e)
	}
	return t
}

func (x *Exec) evalTerm(env *Env, e *Expr) *T {
	v := x.eval(env, e)
	return x.asTerm(v)
}

func (x *Exec) asTerm(v ev) *T {
	switch w := v.v.(type) {
	case *T:
		return w
	}
	ls := x.flatten(v.v)
	if len(ls) != 1 {
		specFail("single term expected, got %T", v.v)
	}
	return ls[0]
}

func (e *Expr) String() string {
	if e == nil {
		return "<nil>"
	}
	switch e.op {
	case "ident":
		return e.name
	case "int":
		return fmt.Sprint(e.i)
	case "str":
		return fmt.Sprintf("%q", e.s)
	case "field":
		return e.args[0].String() + "." + e.name
	}
	var a []string
	for _, x := range e.args {
		a = append(a, x.String())
	}
	return e.op + e.name + "(" + strings.Join(a, ", ") + ")"
}

func (x *Exec) eval(env *Env, e *Expr) (res ev) {
	env.inMem(func() { res = x.eval1(env, e) })
	return
}

func (x *Exec) eval1(env *Env, e *Expr) ev {
	c := x.c
	B := func(t *T) ev { return ev{t, types.Typ[types.Bool]} }
	switch e.op {
	case "true":
		return B(c.True)
	case "false":
		return B(c.False)
	case "nil":
		return ev{nil, nil}
	case "int":
		return ev{c.Int(e.i), nil}
	case "str":
		return ev{c.Str(e.s), types.Typ[types.String]}
	case "ident":
		return x.evalIdent(env, e.name)
	case "not":
		return B(c.Not(x.evalBool(env, e.args[0])))
	case "neg":
		return ev{c.Neg(x.evalTerm(env, e.args[0])), nil}
	case "&&":
		a := x.evalBool(env, e.args[0])
		if a == c.False {
			return B(a)
		}
		return B(c.And(a, x.evalBool(env, e.args[1])))
	case "||":
		a := x.evalBool(env, e.args[0])
		if a == c.True {
			return B(a)
		}
		return B(c.Or(a, x.evalBool(env, e.args[1])))
	case "==>":
		a := x.evalBool(env, e.args[0])
		if a == c.False {
			return B(c.True)
		}
		return B(c.Imp(a, x.evalBool(env, e.args[1])))
	case "<==>":
		return B(c.Eq(x.evalBool(env, e.args[0]), x.evalBool(env, e.args[1])))
	case "==", "!=":
		t := x.evalEq(env, x.eval(env, e.args[0]), x.eval(env, e.args[1]))
		if e.op == "!=" {
			t = c.Not(t)
		}
		return B(t)
	case "<", "<=", ">", ">=":
		a, b := x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])
		if e.op == ">" || e.op == ">=" {
			a, b = b, a
		}
		if a.sort == SStr {
			if e.op == "<" || e.op == ">" {
				return B(c.Op("str.<", SBool, a, b))
			}
			return B(c.Op("str.<=", SBool, a, b))
		}
		if e.op == "<" || e.op == ">" {
			return B(c.Lt(a, b))
		}
		return B(c.Le(a, b))
	case "+":
		a, b := x.eval(env, e.args[0]), x.eval(env, e.args[1])
		p, q := x.asTerm(a), x.asTerm(b)
		if p.sort == SStr {
			return ev{c.Concat(p, q), a.t}
		}
		return ev{c.Add(p, q), nil}
	case "-":
		return ev{c.Sub(x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])), nil}
	case "*":
		return ev{c.Mul(x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])), nil}
	case "/":
		return ev{c.Div(x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])), nil}
	case "%":
		return ev{c.Mod(x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])), nil}
	case "&":
		p, q := x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])
		return ev{x.specAnd(env.st, p, q), nil}
	case "&^":
		p, q := x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])
		return ev{c.Sub(p, x.specAnd(env.st, p, q)), nil}
	case "deref":
		v := x.eval(env, e.args[0])
		pt, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			specFail("dereference of %s", e.args[0])
		}
		return ev{x.load(env.st, v.v, pt.Elem()), pt.Elem()}
	case "field":
		return x.evalField(env, e)
	case "index":
		return x.evalIndex(env, x.eval(env, e.args[0]), e.args[1])
	case "forall", "exists":
		names := map[string]ev{}
		var bvs []*T
		for _, q := range e.vars {
			c.fresh++
			if strings.HasPrefix(q.typ, "\"") {
				gt := x.prog.typeByName(strings.Trim(q.typ, "\""))
				if gt == nil {
					specFail("unknown type %s", q.typ)
				}
				var ls []*T
				for _, l := range leaves(gt) {
					b := c.BVar(fmt.Sprintf("%s%s?%d", q.name, l.path, c.fresh), l.sort)
					bvs = append(bvs, b)
					ls = append(ls, b)
				}
				names[q.name] = ev{x.unflatten(gt, ls), gt}
				continue
			}
			b := c.BVar(fmt.Sprintf("%s?%d", q.name, c.fresh), q.sort)
			bvs = append(bvs, b)
			var t types.Type
			if q.sort == SStr {
				t = types.Typ[types.String]
			}
			names[q.name] = ev{b, t}
		}
		ne := env.with(names)
		body := x.evalBool(ne, e.args[0])
		var pats [][]*T
		for _, p := range e.pats {
			var ts []*T
			for _, pe := range p {
				ts = append(ts, x.evalTerm(ne, pe))
			}
			pats = append(pats, ts)
		}
		if e.op == "forall" {
			return B(c.Forall(bvs, body, pats...))
		}
		return B(c.Exists(bvs, body))
	case "call":
		return x.evalCall(env, e)
	}
	specFail("cannot evaluate %s", e.op)
	return ev{}
}

func (x *Exec) specAnd(st *State, p, q *T) *T {
	if p.i != nil && q.i != nil {
		return x.c.Big(new(big.Int).And(p.i, q.i))
	}
	if q.i != nil && q.i.Sign() >= 0 {
		return x.andConst(p, q.i)
	}
	if p.i != nil && p.i.Sign() >= 0 {
		return x.andConst(q, p.i)
	}
	a := x.and2(p, q)
	x.bitFacts(st, a, p, q)
	return a
}

func (x *Exec) evalEq(env *Env, a, b ev) *T {
	c := x.c
	if a.v == nil && b.v == nil {
		return c.True
	}
	if a.v == nil {
		a, b = b, a
	}
	if b.v == nil { // comparison with nil
		switch w := a.v.(type) {
		case *IfaceV:
			return c.Eq(w.t, c.Int(0))
		case *SliceV:
			return c.Eq(w.r, c.Int(0))
		case *T:
			return c.Eq(w, c.Int(0))
		case *Closure, *Addr:
			return c.False
		}
		specFail("comparison with nil of %T", a.v)
	}
	if ia, ok := a.v.(*IfaceV); ok {
		if ib, ok := b.v.(*IfaceV); ok {
			return c.And(c.Eq(ia.t, ib.t), c.Eq(ia.d, ib.d))
		}
	}
	if sa, ok := a.v.(*SliceV); ok {
		if sb, ok := b.v.(*SliceV); ok { // same slice header
			return c.And(c.Eq(sa.r, sb.r), c.Eq(sa.o, sb.o), c.Eq(sa.l, sb.l))
		}
	}
	fa, fb := x.flatten(a.v), x.flatten(b.v)
	if len(fa) != len(fb) {
		specFail("comparison of %T and %T", a.v, b.v)
	}
	r := c.True
	for i := range fa {
		if fa[i].sort != fb[i].sort {
			specFail("comparison of sorts %s and %s", fa[i].sort, fb[i].sort)
		}
		r = c.And(r, c.Eq(fa[i], fb[i]))
	}
	return r
}

func (x *Exec) evalIdent(env *Env, name string) ev {
	if v, ok := env.names[name]; ok {
		return v
	}
	if env.frame != nil {
		if b, ok := env.frame.names[name]; ok {
			if b.addr {
				pt := b.t
				if p, ok := b.t.Underlying().(*types.Pointer); ok {
					pt = p.Elem()
				}
				return ev{x.load(env.st, b.v, pt), pt}
			}
			return ev{b.v, b.t}
		}
	}
	if g, ok := env.st.ghosts[name]; ok {
		return ev{g, nil}
	}
	if f, ok := x.u.funcs[name]; ok && len(f.params) == 0 {
		return x.evalCall(env, &Expr{op: "call", name: name})
	}
	if n, ok := x.u.consts[name]; ok {
		b, ok := new(big.Int).SetString(n, 0)
		if ok {
			return ev{x.c.Big(b), nil}
		}
	}
	specFail("unknown name %q", name)
	return ev{}
}

// lookupPkg resolves pkg.Name for constants, variables and functions.
func (x *Exec) lookupPkg(env *Env, pkg, name string) (ev, bool) {
	for _, p := range x.prog.pkgsByName(pkg) {
		o := p.Scope().Lookup(name)
		switch o := o.(type) {
		case *types.Const:
			switch o.Val().Kind() {
			case constant.String:
				return ev{x.c.Str(constant.StringVal(o.Val())), o.Type()}, true
			case constant.Bool:
				return ev{x.c.Bool(constant.BoolVal(o.Val())), o.Type()}, true
			case constant.Int:
				b, _ := new(big.Int).SetString(constant.ToInt(o.Val()).ExactString(), 10)
				return ev{x.c.Big(b), o.Type()}, true
			}
		case *types.Var:
			key := "G:" + shortPkg(p) + "." + name
			if isStruct(o.Type()) || isArray(o.Type()) {
				return ev{x.loadAt(env.st, o.Type(), x.globalID("&"+key)), o.Type()}, true
			}
			return ev{x.loadGlobal(env.st, &Addr{kind: "global", key: key, typ: o.Type()}, o.Type()), o.Type()}, true
		}
	}
	return ev{}, false
}

func (x *Exec) evalField(env *Env, e *Expr) ev {
	if b := e.args[0]; b.op == "ident" {
		if _, bound := env.names[b.name]; !bound {
			inFrame := false
			if env.frame != nil {
				_, inFrame = env.frame.names[b.name]
			}
			if !inFrame {
				if v, ok := x.lookupPkg(env, b.name, e.name); ok {
					return v
				}
			}
		}
	}
	b := x.eval(env, e.args[0])
	return x.fieldOf(env, b, e.name)
}

func (x *Exec) fieldOf(env *Env, b ev, name string) ev {
	if b.t == nil {
		specFail("field %s of an untyped value", name)
	}
	obj, path, _ := types.LookupFieldOrMethod(b.t, true, x.prog.anyPkgOf(b.t), name)
	f, ok := obj.(*types.Var)
	if !ok {
		specFail("no field %s in %s", name, b.t)
	}
	v, t := b.v, b.t
	for _, i := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			S := p.Elem()
			st := S.Underlying().(*types.Struct)
			switch pv := v.(type) {
			case *T:
				v = x.loadFieldLazy(env.st, S, i, pv)
			case *Addr:
				if pv.kind != "elem" {
					specFail("field through %s address", pv.kind)
				}
				v = x.loadElem(env.st, pv.typ, pv.path+"."+st.Field(i).Name(), st.Field(i).Type(), pv.ref, pv.idx)
			}
			t = st.Field(i).Type()
			continue
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			t = st.Field(i).Type()
			switch sv := v.(type) {
			case *StructV:
				v = sv.fields[i]
			case lazyStruct:
				v = x.loadFieldLazy(env.st, sv.typ, i, sv.ref)
			default:
				specFail("field of %T", v)
			}
			continue
		}
		specFail("field %s of %s", name, t)
	}
	if ls, ok := v.(lazyStruct); ok {
		_ = ls
	}
	return ev{v, f.Type()}
}

// lazyStruct is a struct stored in memory that a specification only passes
// through on its way to one of its fields.
type lazyStruct struct {
	typ types.Type
	ref *T
}

func (x *Exec) loadFieldLazy(st *State, S types.Type, i int, ref *T) Val {
	ft := S.Underlying().(*types.Struct).Field(i).Type()
	if isStruct(ft) {
		return lazyStruct{ft, x.subRef(st, x.fieldKey(S, i), ref)}
	}
	return x.loadField(st, S, i, ref)
}

func (x *Exec) evalIndex(env *Env, b ev, ie *Expr) ev {
	c := x.c
	idx := x.eval(env, ie)
	switch v := b.v.(type) {
	case *SliceV:
		et := b.t.Underlying().(*types.Slice).Elem()
		return ev{x.loadElem(env.st, et, "", et, v.r, c.Add(v.o, x.asTerm(idx))), et}
	case *ArrV:
		et := v.typ.Elem()
		var ls []*T
		for _, l := range v.leaves {
			ls = append(ls, c.Select(l, x.asTerm(idx)))
		}
		return ev{x.unflatten(et, ls), et}
	case *T:
		if strings.HasPrefix(string(v.sort), "(Array") {
			return ev{c.Select(v, x.asKey(idx)), nil}
		}
		if b.t != nil {
			if m, ok := b.t.Underlying().(*types.Map); ok {
				has := x.mapHas(env.st, b.t, v, idx.v)
				g := x.mapGet(env.st, b.t, v, idx.v)
				vl, zl := x.flatten(g), x.flatten(x.zero(m.Elem()))
				var ls []*T
				for j := range vl {
					ls = append(ls, c.Ite(has, vl[j], zl[j]))
				}
				return ev{x.unflatten(m.Elem(), ls), m.Elem()}
			}
		}
		if v.sort == SStr {
			return ev{c.Op("str.to_code", SInt, c.Op("str.at", SStr, v, x.asTerm(idx))), types.Typ[types.Byte]}
		}
	}
	specFail("index of %T", b.v)
	return ev{}
}

// asKey makes a single term of a value used as a ghost-map key.
func (x *Exec) asKey(v ev) *T {
	switch w := v.v.(type) {
	case *T:
		return w
	case *IfaceV:
		return x.ifaceKey(w)
	case *SliceV:
		return w.r
	case lazyStruct:
		return w.ref
	}
	return x.asTerm(v)
}

// ifaceKey identifies an interface value by its dynamic word: distinct
// objects have distinct references.
func (x *Exec) ifaceKey(w *IfaceV) *T { return w.d }

func (x *Exec) evalCall(env *Env, e *Expr) ev {
	c := x.c
	B := func(t *T) ev { return ev{t, types.Typ[types.Bool]} }
	arg := func(i int) ev {
		if i >= len(e.args) {
			specFail("%s: missing argument", e.name)
		}
		return x.eval(env, e.args[i])
	}
	str := func(i int) string {
		if i >= len(e.args) || e.args[i].op != "str" {
			specFail("%s: string literal expected", e.name)
		}
		return e.args[i].s
	}
	switch e.name {
	case "old":
		n := *env
		n.mem = env.old
		if env.old == nil {
			specFail("old() outside a postcondition")
		}
		return x.eval(&n, e.args[0])
	case "loopold":
		n := *env
		n.mem = env.loopEntry
		return x.eval(&n, e.args[0])
	case "len":
		v := arg(0)
		switch w := v.v.(type) {
		case *SliceV:
			return ev{w.l, nil}
		case *ArrV:
			return ev{c.Int(w.typ.Len()), nil}
		case *T:
			if w.sort == SStr {
				return ev{c.StrLen(w), nil}
			}
			if v.t != nil {
				if _, ok := v.t.Underlying().(*types.Map); ok {
					return ev{x.mapLen(env.st, v.t, w), nil}
				}
			}
		}
		specFail("len of %T", v.v)
	case "cap":
		return ev{arg(0).v.(*SliceV).c, nil}
	case "has":
		m := arg(0)
		k := arg(1)
		if t, ok := m.v.(*T); ok && m.t != nil {
			return B(x.mapHas(env.st, m.t, t, k.v))
		}
		specFail("has: not a map")
	case "ite":
		g := x.evalBool(env, e.args[0])
		a, b := arg(1), arg(2)
		la, lb := x.flatten(a.v), x.flatten(b.v)
		var ls []*T
		for i := range la {
			ls = append(ls, c.Ite(g, la[i], lb[i]))
		}
		if a.t != nil && len(ls) > 1 {
			return ev{x.unflatten(a.t, ls), a.t}
		}
		return ev{ls[0], a.t}
	case "is":
		v := arg(0)
		iv, ok := v.v.(*IfaceV)
		if !ok {
			specFail("is: interface expected")
		}
		gt := x.prog.typeByName(str(1))
		if gt == nil {
			specFail("unknown type %s", str(1))
		}
		if isIface(gt) {
			return B(x.implements(env.st, iv.t, gt))
		}
		tid := x.typeID(gt)
		x.typeByID[int(tid.i.Int64())] = gt
		return B(c.Eq(iv.t, tid))
	case "cast":
		v := arg(0)
		gt := x.prog.typeByName(str(1))
		if gt == nil {
			specFail("unknown type %s", str(1))
		}
		switch w := v.v.(type) {
		case *IfaceV:
			return ev{x.unbox(env.st, gt, w.d), gt}
		case *T:
			return ev{x.unflatten(gt, []*T{w}), gt}
		}
		return ev{v.v, gt}
	case "errIs":
		a, b := arg(0), arg(1)
		return B(x.errIs(env.st, x.asIface(env.st, a), x.asIface(env.st, b), 0))
	case "ref", "key":
		v := arg(0)
		return ev{x.asKey(v), nil}
	case "outer": // outer(p, "pkg.T.field"): the T whose field p points at
		return ev{c.App("subinv:"+str(1), SInt, x.asKey(arg(0))), nil}
	case "tag":
		return ev{x.asIface(env.st, arg(0)).t, nil}
	case "existed": // where it is assumed, what is read from the heap exists by then (nothing to check)
		if !env.entry {
			return B(c.True)
		}
		return B(c.Le(c.Int(-int64(env.st.allocN)), x.asKey(arg(0))))
	case "fresh": // the reference was allocated by this function
		return B(c.Lt(x.asKey(arg(0)), c.Int(0)))
	case "backing":
		return ev{arg(0).v.(*SliceV).r, nil}
	case "offset":
		return ev{arg(0).v.(*SliceV).o, nil}
	case "row": // contents of a slice's backing array
		v := arg(0)
		s := v.v.(*SliceV)
		et := v.t.Underlying().(*types.Slice).Elem()
		ls := leaves(et)
		return ev{c.Select(x.heap(env.st, "E:"+typeKey(et)+ls[0].path, arr(SInt, arr(SInt, ls[0].sort))), s.r), nil}
	case "bytestr":
		v := arg(0)
		s := v.v.(*SliceV)
		h := x.heap(env.st, "E:uint8", arr(SInt, arr(SInt, SInt)))
		return ev{c.App("bytestr", SStr, c.Select(h, s.r), s.o, s.l), types.Typ[types.String]}
	case "dom":
		m := arg(0)
		return ev{x.mapDom(env.st, m.t, m.v.(*T)), nil}
	case "mapvals":
		m := arg(0)
		mk, mt := mapKey(m.t)
		ks := x.mapKeySort(mt)
		ls := leaves(mt.Elem())
		return ev{c.Select(x.heap(env.st, "MV:"+mk+ls[0].path, arr(SInt, arr(ks, ls[0].sort))), m.v.(*T)), nil}
	case "update":
		a := x.evalTerm(env, e.args[0])
		return ev{c.Store(a, x.asKey(arg(1)), x.asTerm(arg(2))), nil}
	case "constmap":
		return ev{c.ConstArr(arr(SInt, x.evalTerm(env, e.args[0]).sort), x.evalTerm(env, e.args[0])), nil}
	case "constmapS":
		return ev{c.ConstArr(arr(SStr, x.evalTerm(env, e.args[0]).sort), x.evalTerm(env, e.args[0])), nil}
	case "chr": // the one-byte string of a byte
		return ev{c.Op("str.from_code", SStr, x.evalTerm(env, e.args[0])), types.Typ[types.String]}
	case "digits": // every byte is a decimal digit
		return B(c.Op("vf.digits", SBool, x.evalTerm(env, e.args[0])))
	case "literal": // a string spelled out in the source text
		if _, ok := litStr(x.evalTerm(env, e.args[0])); ok {
			return B(c.True)
		}
		return B(c.False)
	case "prefixof":
		return B(c.Op("str.prefixof", SBool, x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])))
	case "suffixof":
		return B(c.Op("str.suffixof", SBool, x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])))
	case "contains":
		return B(c.Op("str.contains", SBool, x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])))
	case "substr":
		return ev{c.Op("str.substr", SStr, x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1]), x.evalTerm(env, e.args[2])), types.Typ[types.String]}
	case "indexof":
		return ev{c.Op("str.indexof", SInt, x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1]), x.evalTerm(env, e.args[2])), nil}
	case "min":
		a, b := x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])
		return ev{c.Ite(c.Le(a, b), a, b), nil}
	case "max":
		a, b := x.evalTerm(env, e.args[0]), x.evalTerm(env, e.args[1])
		return ev{c.Ite(c.Le(a, b), b, a), nil}
	case "entry": // entry(p): value of the loop variable when the loop was entered
		if len(e.args) == 1 && e.args[0].op == "ident" && env.entryPhi != nil {
			for p, v := range env.entryPhi {
				if p.Comment == e.args[0].name {
					return ev{v, p.Type()}
				}
			}
		}
		specFail("entry(%s): no such loop variable", e.args[0])
	}
	f := x.u.funcs[e.name]
	if f == nil {
		specFail("unknown function %q", e.name)
	}
	if len(f.params) != len(e.args) {
		specFail("%s: %d arguments, want %d", e.name, len(e.args), len(f.params))
	}
	if f.def != nil {
		if env.depth > 40 {
			specFail("definition %s nests too deep", e.name)
		}
		names := map[string]ev{}
		for i, p := range f.params {
			names[p.name] = arg(i)
		}
		// a macro body sees only its parameters (and globals)
		n := *env
		n.depth++
		n.names = names
		n.frame = nil
		return x.eval(&n, f.def)
	}
	var ts []*T
	for i := range f.params {
		a := arg(i)
		if a.v == nil {
			ts = append(ts, c.Int(0))
			continue
		}
		if ls, ok := a.v.(lazyStruct); ok {
			ts = append(ts, ls.ref)
			continue
		}
		if iv, ok := a.v.(*IfaceV); ok && f.params[i].sort == SInt && f.params[i].typ != "iface" {
			ts = append(ts, x.ifaceKey(iv))
			continue
		}
		ts = append(ts, x.flatten(a.v)...)
	}
	var t types.Type
	if f.res == SStr {
		t = types.Typ[types.String]
	}
	return ev{c.App("spec."+e.name, f.res, ts...), t}
}

// errIs models errors.Is. Literal sentinels are leaves; wrapping errors made
// by the code share the root of the error they wrap.
func (x *Exec) errIs(st *State, e, t *IfaceV, depth int) *T {
	c := x.c
	same := c.And(c.Eq(e.t, t.t), c.Eq(e.d, t.d))
	if e.t.i != nil && e.t.i.Sign() == 0 {
		return c.Eq(t.t, c.Int(0))
	}
	if e.t.i != nil && depth < 4 {
		switch x.typeNames[int(e.t.i.Int64())] {
		case "*errors.errorString":
			if e.d.i != nil {
				return same
			}
		case "syscall.Errno":
			if e.d.i != nil && t.d.i != nil {
				if same == c.True {
					return same
				}
				n := e.d.i.Int64()
				k := ""
				for key, id := range x.globals {
					if c.Int(1_000_000_000+id) == t.d {
						k = key
					}
				}
				switch k {
				case "G:fs.ErrNotExist":
					return c.Bool(n == 2)
				case "G:fs.ErrExist":
					return c.Bool(n == 17 || n == 39)
				case "G:fs.ErrPermission":
					return c.Bool(n == 1 || n == 13)
				case "G:errors.ErrUnsupported":
					return c.Bool(n == 38 || n == 95)
				}
				return same
			}
		case "*fmt.wrapError", "*fmt.errorString":
			if in := st.errInner[e.d]; in != nil {
				return c.Or(same, x.errIs(st, in, t, depth+1))
			}
		case "*fs.PathError", "*os.LinkError", "*os.SyscallError":
			key := map[string]string{"*fs.PathError": "F:fs.PathError.Err", "*os.LinkError": "F:os.LinkError.Err", "*os.SyscallError": "F:os.SyscallError.Err"}[x.typeNames[int(e.t.i.Int64())]]
			in := x.loadKey(st, key, types.Universe.Lookup("error").Type(), e.d).(*IfaceV)
			return c.Or(same, x.errIs(st, in, t, depth+1))
		}
	}
	r := c.App("errIsR", SBool, c.App("errroot", SInt, e.t, e.d), t.t, t.d)
	return c.And(c.Not(c.And(c.Eq(e.t, c.Int(0)), c.Not(c.Eq(t.t, c.Int(0))))), c.Or(same, r))
}

// wrapErr makes a new error whose errors.Is behaviour is that of inner.
func (x *Exec) wrapErr(st *State, inner *IfaceV, typ string) *IfaceV {
	r := &IfaceV{x.typeIDByKey(typ), x.newRef(st)}
	if inner != nil {
		var root *T
		if inner.t.i != nil {
			// a concrete inner error: relate through errIs on demand
			root = x.c.App("errroot", SInt, inner.t, inner.d)
			st.errInner = cloneInner(st.errInner)
			st.errInner[r.d] = inner
		} else {
			root = x.c.App("errroot", SInt, inner.t, inner.d)
		}
		st.assume(x.c.Eq(x.c.App("errroot", SInt, r.t, r.d), root))
	}
	return r
}

func cloneInner(m map[*T]*IfaceV) map[*T]*IfaceV {
	n := make(map[*T]*IfaceV, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// frameEnv is the environment of a loop invariant.
func (x *Exec) frameEnv(st *State, fr *Frame) *Env {
	env := &Env{x: x, st: st, frame: fr, old: fr.entry, names: map[string]ev{}}
	for k, b := range fr.binding {
		env.names[k] = ev{b.v, b.t}
	}
	return env
}

// asIface converts a contract value to an interface value.
func (x *Exec) asIface(st *State, v ev) *IfaceV {
	if iv, ok := v.v.(*IfaceV); ok {
		return iv
	}
	if v.t == nil {
		specFail("an interface or typed value is expected")
	}
	return x.makeIface(st, v.t, v.v)
}
