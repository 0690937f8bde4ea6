package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callOperands(st *State, fr *Frame, cc *ssa.CallCommon) (Val, []Val) {
	fn := x.val(st, fr, cc.Value)
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(st, fr, a))
	}
	return fn, args
}

func (x *Exec) complete(st *State, fr *Frame, ret ssa.Value, v Val, isDefer bool) bool {
	if ret != nil {
		fr.env[ret] = v
	}
	if !isDefer {
		fr.pc++
	}
	return !st.dead
}

func sigResults(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func (x *Exec) freshResults(st *State, sig *types.Signature, hint string) []Val {
	var out []Val
	for i, t := range sigResults(sig) {
		out = append(out, x.freshVal(st, t, fmt.Sprintf("%s.r%d", hint, i)))
	}
	return out
}

func (x *Exec) call(st *State, fr *Frame, cc *ssa.CallCommon, fnv Val, args []Val, ret ssa.Value, pos token.Pos, isDefer bool) bool {
	c := x.c
	if b, ok := fnv.(*ssa.Builtin); ok {
		v := x.builtin(st, b, cc, args, pos)
		return x.complete(st, fr, ret, v, isDefer)
	}
	if cc.IsInvoke() {
		iv, ok := fnv.(*IfaceV)
		if !ok {
			unsup("invoke on %T", fnv)
		}
		x.check(st, "panic/nilinvoke", c.Not(c.Eq(iv.t, c.Int(0))), pos)
		if st.dead {
			return false
		}
		if con := x.invokeOverride(cc); con != nil {
			return x.invokeContract(st, fr, con, cc, iv, args, ret, pos, isDefer)
		}
		if f := x.devirt(iv, cc.Method); f != nil {
			recv := x.unbox(st, x.typeByID[int(iv.t.i.Int64())], iv.d)
			return x.callStatic(st, fr, f, nil, append([]Val{recv}, args...), ret, pos, isDefer, cc)
		}
		con := x.findInvoke(cc)
		if con == nil {
			unsup("no contract for interface method %s.%s", typeKey(cc.Value.Type()), cc.Method.Name())
		}
		return x.invokeContract(st, fr, con, cc, iv, args, ret, pos, isDefer)
	}
	switch f := fnv.(type) {
	case *Closure:
		return x.callStatic(st, fr, f.fn, f.binds, args, ret, pos, isDefer, cc)
	}
	if len(args) == 1 {
		if cl, ok := args[0].(*Closure); ok && strings.HasPrefix(cl.fn.Synthetic, "range-over-func") {
			return x.rangeFunc(st, fr, cc, cl, pos, isDefer)
		}
	}
	con := x.findCallback(cc, fr)
	if con == nil {
		unsup("call of an unknown function value %s without a callback contract", cc.Value)
	}
	names := map[string]ev{}
	sig := cc.Signature()
	k := 0
	if len(con.params) == sig.Params().Len()+1 { // first name binds the function value itself
		names[con.params[0]] = ev{fnv, cc.Value.Type()}
		k = 1
	}
	for i := k; i < len(con.params) && i-k < len(args); i++ {
		names[con.params[i]] = ev{args[i-k], sig.Params().At(i - k).Type()}
	}
	x.invUsed["callback "+con.name] = true
	res, ok := x.applyContract(st, con, names, sig, con.name, pos)
	if !ok {
		return false
	}
	return x.complete(st, fr, ret, packResults(res), isDefer)
}

func (x *Exec) invokeContract(st *State, fr *Frame, con *Contract, cc *ssa.CallCommon, iv *IfaceV, args []Val, ret ssa.Value, pos token.Pos, isDefer bool) bool {
	names := map[string]ev{}
	sig := cc.Signature()
	for i, p := range con.params {
		if i == 0 {
			names[p] = ev{iv, cc.Value.Type()}
		} else if i-1 < len(args) {
			names[p] = ev{args[i-1], sig.Params().At(i - 1).Type()}
		}
	}
	x.invUsed[con.name] = true
	res, ok := x.applyContract(st, con, names, sig, typeKey(cc.Value.Type())+"."+cc.Method.Name(), pos)
	if !ok {
		return false
	}
	return x.complete(st, fr, ret, packResults(res), isDefer)
}

func (x *Exec) callStatic(st *State, fr *Frame, fn *ssa.Function, binds []Val, args []Val, ret ssa.Value, pos token.Pos, isDefer bool, cc *ssa.CallCommon) bool {
	// method wrappers (promoted methods, bound methods, thunks) are inlined
	key := funcKey(fn)
	// option checks: the built-in meaning stays, the contract's clauses are added
	var chk *Contract
	var chkEnv *Env
	if con := x.u.contracts[key]; con != nil && con.opts["checks"] != "" {
		chk = con
		names := map[string]ev{}
		for i, p := range con.params {
			names[p] = ev{args[i], fn.Signature.Params().At(i).Type()}
		}
		chkEnv = &Env{x: x, st: st, names: names, old: st.Mem.clone()}
		x.contUsed[key] = true
		for k, r := range con.requires {
			g := x.evalBool(chkEnv, r.expr)
			x.oblige(st, fmt.Sprintf("%s/call %s/requires%s", funcKey(x.fn), key, lab(r, k)), r.text, g, pos)
			st.assume(g)
		}
		if st.dead {
			return false
		}
	}
	if v, handled := x.special(st, fr, key, fn, args, ret, pos, isDefer, cc); handled {
		if v == nil {
			return !st.dead // special handled control flow itself
		}
		if chk != nil && len(chk.results) > 0 {
			chkEnv.names[chk.results[0]] = ev{v, fn.Signature.Results().At(0).Type()}
			for _, r := range chk.ensures {
				st.assume(x.evalBool(chkEnv, r.expr))
			}
		}
		return x.complete(st, fr, ret, v, isDefer)
	}
	if con := x.contractFor(fn); con != nil && (fn.Synthetic == "" || fn.Blocks == nil || fn.Origin() != nil) {
		names := map[string]ev{}
		sig := fn.Signature
		var pt []types.Type
		if sig.Recv() != nil {
			pt = append(pt, sig.Recv().Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			pt = append(pt, sig.Params().At(i).Type())
		}
		if len(con.params) > len(args) {
			specFail("contract of %s names %d parameters, the function has %d", key, len(con.params), len(args))
		}
		for i, p := range con.params {
			names[p] = ev{args[i], pt[i]}
		}
		x.contUsed[key] = true
		res, ok := x.applyContract(st, con, names, sig, key, pos)
		if !ok {
			return false
		}
		return x.complete(st, fr, ret, packResults(res), isDefer)
	}
	if fn.Blocks != nil && (x.prog.inRepo(fn) || fn.Synthetic != "") {
		return x.inline(st, fr, fn, binds, args, ret, isDefer)
	}
	// library function without a contract
	v := x.libraryDefault(st, fn, key, args, cc, pos)
	return x.complete(st, fr, ret, v, isDefer)
}

func (x *Exec) inline(st *State, fr *Frame, fn *ssa.Function, binds []Val, args []Val, ret ssa.Value, isDefer bool) bool {
	if len(st.frames) > 60 {
		unsup("inlining too deep at %s", fn)
	}
	for _, f := range st.frames {
		if f.fn == fn {
			unsup("recursive call of %s needs a contract", funcKey(fn))
		}
	}
	if fn.Recover != nil {
		// recovered panics are not modelled: panicking paths end
	}
	x.inlined[funcKey(fn)] = true
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]nameBinding{}, block: fn.Blocks[0], loops: map[*ssa.BasicBlock]*loopCtx{}, retTo: ret, retDef: isDefer}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
			nf.names[p.Name()] = nameBinding{args[i], p.Type(), false}
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			nf.env[v] = binds[i]
			nf.names[v.Name()] = nameBinding{binds[i], v.Type(), true}
		}
	}
	if con := x.u.contracts[funcKey(fn)]; con != nil {
		nf.entry = st.Mem.clone()
		nf.binding = map[string]nameBinding{}
		for i, p := range con.params {
			nf.binding[p] = nameBinding{args[i], fn.Params[i].Type(), false}
		}
	}
	st.frames = append(st.frames, nf)
	return !st.dead
}

// contractFor finds the contract a call of fn is checked against.
func (x *Exec) contractFor(fn *ssa.Function) *Contract {
	var con *Contract
	if targs := fn.TypeArgs(); len(targs) > 0 {
		names := make([]string, len(targs))
		for i, t := range targs {
			names[i] = typeKey(t)
		}
		con = x.u.contracts[funcKey(fn)+"["+strings.Join(names, ",")+"]"]
	}
	if con == nil {
		con = x.u.contracts[funcKey(fn)]
	}
	if con == nil || con.opts["inline"] != "" {
		return nil
	}
	return con
}

// devirt finds the method body when the dynamic type is known.
func (x *Exec) devirt(iv *IfaceV, m *types.Func) *ssa.Function {
	if iv.t.i == nil || iv.t.i.Sign() == 0 {
		return nil
	}
	t, ok := x.typeByID[int(iv.t.i.Int64())]
	if !ok {
		return nil
	}
	return x.prog.methodOf(t, m)
}

func invokeNames(cc *ssa.CallCommon) []string {
	out := []string{typeKey(cc.Value.Type()) + "." + cc.Method.Name()}
	if recv := cc.Method.Type().(*types.Signature).Recv(); recv != nil {
		k := typeKey(recv.Type()) + "." + cc.Method.Name()
		if k != out[0] {
			out = append(out, k)
		}
	}
	return append(out, "*."+cc.Method.Name())
}

func (x *Exec) findInvoke(cc *ssa.CallCommon) *Contract {
	for _, n := range invokeNames(cc) {
		for _, con := range x.u.invokes {
			if con.name == n {
				return con
			}
		}
	}
	return nil
}

// invokeOverride: contracts that apply even when the dynamic type is known.
func (x *Exec) invokeOverride(cc *ssa.CallCommon) *Contract {
	if con := x.findInvoke(cc); con != nil && con.opts["always"] != "" {
		return con
	}
	return nil
}

func calleeNames(v ssa.Value) []string {
	var out []string
	if n, ok := types.Unalias(v.Type()).(*types.Named); ok {
		defer func() {}()
		out = append(out, typeKey(n))
	}
	switch i := v.(type) {
	case *ssa.Parameter:
		out = append([]string{funcKey(i.Parent()) + "." + i.Name(), i.Name()}, out...)
	case *ssa.FreeVar:
		out = append([]string{i.Name()}, out...)
	case *ssa.UnOp:
		switch a := i.X.(type) {
		case *ssa.FieldAddr:
			S := a.X.Type().Underlying().(*types.Pointer).Elem()
			f := S.Underlying().(*types.Struct).Field(a.Field).Name()
			out = append([]string{typeKey(S) + "." + f, f}, out...)
		case *ssa.FreeVar:
			out = append([]string{a.Name()}, out...)
		case *ssa.Global:
			out = append([]string{shortPkg(a.Pkg.Pkg) + "." + a.Name()}, out...)
		case *ssa.Alloc:
			out = append([]string{a.Comment}, out...)
		}
	case *ssa.Field:
		S := i.X.Type()
		f := S.Underlying().(*types.Struct).Field(i.Field).Name()
		out = append([]string{typeKey(S) + "." + f, f}, out...)
	case *ssa.Phi:
		out = append([]string{i.Comment}, out...)
	case *ssa.Extract:
		out = append(out, "extract")
	case *ssa.ChangeType:
		return append(calleeNames(i.X), out...)
	}
	return append(out, "*")
}

func (x *Exec) findCallback(cc *ssa.CallCommon, fr *Frame) *Contract {
	for _, n := range calleeNames(cc.Value) {
		for _, con := range x.u.callbacks {
			if con.name == n {
				return con
			}
		}
	}
	return nil
}

// ---- contract application ----

func (x *Exec) bindLets(con *Contract, env *Env) {
	for _, l := range con.lets {
		env.names[l.name] = x.eval(env, l.expr)
	}
}

func (x *Exec) applyContract(st *State, con *Contract, names map[string]ev, sig *types.Signature, callee string, pos token.Pos) ([]Val, bool) {
	c := x.c
	old := st.Mem.clone()
	env := &Env{x: x, st: st, names: names, old: old}
	x.bindLets(con, env)
	// option tries=f:g,h: the callee may call f, with any arguments (the ghosts g
	// and h, as far as they are named); what f does must satisfy the contracts it
	// meets in the state at the call
	for _, p := range strings.Split(con.opts["tries"], ";") {
		p, gs, _ := strings.Cut(p, ":")
		cl, ok := names[p].v.(*Closure)
		if p == "" {
			continue
		}
		if !ok {
			unsup("the function passed to %s is not known here", callee)
		}
		s2 := st.clone()
		var a []Val
		gl := strings.Split(gs, ",")
		for i, q := range cl.fn.Params {
			if i < len(gl) && gl[i] != "" {
				if s2.ghosts[gl[i]] == nil {
					specFail("option tries: no ghost %s", gl[i])
				}
				a = append(a, s2.ghosts[gl[i]])
				continue
			}
			a = append(a, x.freshVal(s2, q.Type(), "try."+q.Name()))
		}
		if x.inline(s2, s2.top(), cl.fn, cl.binds, a, nil, false) {
			s2.top().trial = true
			x.work = append(x.work, s2)
		}
	}
	for k, r := range con.requires {
		g := x.evalBool(env, r.expr)
		x.oblige(st, fmt.Sprintf("%s/call %s/requires%s", funcKey(x.fn), callee, lab(r, k)), r.text, g, pos)
		st.assume(g)
	}
	if st.dead {
		return nil, false
	}
	for _, it := range con.modifies {
		x.havocItem(st, it, con, env)
	}
	var res []Val
	freshNames := con.freshResults()
	for i, t := range sigResults(sig) {
		rn := fmt.Sprintf("r%d", i)
		if i < len(con.results) {
			rn = con.results[i]
		}
		v := x.freshVal(st, t, shortCallee(callee)+"."+rn)
		if containsStr(freshNames, rn) {
			nr := x.newRef(st)
			switch w := v.(type) {
			case *IfaceV:
				v = &IfaceV{w.t, c.Ite(c.Eq(w.t, c.Int(0)), c.Int(0), nr)}
			case *T:
				b := c.Fresh("isnil", SBool)
				v = c.Ite(b, c.Int(0), nr)
			case *SliceV:
				b := c.Fresh("isnil", SBool)
				v = &SliceV{c.Ite(b, c.Int(0), nr), w.o, w.l, w.c}
				x.assumeTyped(st, t, v)
			}
		}
		res = append(res, v)
		names[rn] = ev{v, t}
	}
	if n := len(res); n > 0 && isErrorType(sigResults(sig)[n-1]) {
		if _, ok := names["err"]; !ok {
			names["err"] = ev{res[n-1], sigResults(sig)[n-1]}
		}
	}
	// ghost updates, evaluated in the pre-state
	if len(con.sets) > 0 {
		pre := *env
		pre.mem = old
		type upd struct {
			name string
			v    *T
		}
		var us []upd
		for _, s := range con.sets {
			rhs := x.eval(&pre, s.expr)
			var t *T
			if rhs.v == nil {
				t = c.Int(0)
			} else {
				t = x.asKey(rhs)
			}
			if s.idx != nil {
				base := old.ghosts[s.name]
				for _, u := range us {
					if u.name == s.name {
						base = u.v
					}
				}
				t = c.Store(base, x.asKey(x.eval(&pre, s.idx)), t)
			}
			us = append(us, upd{s.name, t})
		}
		for _, u := range us {
			if _, ok := st.ghosts[u.name]; !ok {
				specFail("unknown ghost %s", u.name)
			}
			st.ghosts[u.name] = u.v
		}
	}
	env.entry = true
	for _, e := range con.ensures {
		st.assume(x.evalBool(env, e.expr))
	}
	env.entry = false
	return res, !st.dead
}

func shortCallee(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// freshResults names the results that are nil or newly allocated: those of option
// fresh and those a postcondition calls fresh.
func (con *Contract) freshResults() []string {
	var out []string
	add := func(n string) {
		if n != "" && !containsStr(out, n) {
			out = append(out, n)
		}
	}
	for _, f := range strings.Split(con.opts["fresh"], ",") {
		add(f)
	}
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e == nil {
			return
		}
		if e.op == "call" && e.name == "fresh" && len(e.args) == 1 && e.args[0].op == "ident" && containsStr(con.results, e.args[0].name) {
			add(e.args[0].name)
		}
		for _, a := range e.args {
			walk(a)
		}
	}
	for _, c := range con.ensures {
		walk(c.expr)
	}
	return out
}

// modKeys lists the heaps a modifies item may touch (whole-heap view).
func (x *Exec) modKeys(item string, con *Contract, _ any) map[string]Sort {
	out := map[string]Sort{}
	if strings.HasPrefix(item, "mapof(") {
		_, ft := x.heapField(strings.TrimSuffix(item[6:], ")"))
		if ft == nil {
			specFail("modifies %s", item)
		}
		mk, m := mapKey(ft)
		ks := x.mapKeySort(m)
		out["MD:"+mk] = arr(SInt, arr(ks, SBool))
		out["ML:"+mk] = arr(SInt, SInt)
		for _, l := range leaves(m.Elem()) {
			out["MV:"+mk+l.path] = arr(SInt, arr(ks, l.sort))
		}
		return out
	}
	if strings.HasPrefix(item, "elemsof(") {
		in := strings.TrimSuffix(item[8:], ")")
		var et types.Type
		if strings.HasPrefix(in, "\"") { // elemsof("T"): the elements of every slice and array of T
			et = x.prog.typeByName(strings.Trim(in, "\""))
		} else if _, ft := x.heapField(in); ft != nil {
			et = ft.Underlying().(*types.Slice).Elem()
		}
		if et == nil {
			specFail("modifies %s", item)
		}
		for _, l := range leaves(et) {
			out["E:"+typeKey(et)+l.path] = elemSort(l.sort)
		}
		return out
	}
	if strings.HasPrefix(item, "deref(") {
		return out
	}
	if strings.HasPrefix(item, "cells(") { // cells("int"): all cells of a type
		n := strings.Trim(strings.TrimSuffix(item[6:], ")"), "\"")
		t := x.prog.typeByName(n)
		if t == nil {
			specFail("modifies %s", item)
		}
		for _, l := range leaves(t) {
			out["C:"+typeKey(t)+l.path] = fieldSort(l.sort)
		}
		return out
	}
	if strings.HasSuffix(item, ".*") {
		t := x.prog.typeByName(strings.TrimSuffix(item, ".*"))
		if t == nil {
			specFail("modifies %s", item)
		}
		m := newModset()
		x.modType("", t, m)
		return m.whole
	}
	key, ft := x.heapField(item)
	if ft == nil {
		// p.f with p a parameter
		key, ft = x.paramField(item, con)
	}
	if ft == nil {
		specFail("modifies %s: unknown location", item)
	}
	if isStruct(ft) {
		m := newModset()
		x.modType("", ft, m)
		return m.whole
	}
	for _, l := range leaves(ft) {
		out["F:"+key+l.path] = fieldSort(l.sort)
	}
	return out
}

// heapField resolves "pkg.T.f".
func (x *Exec) heapField(item string) (string, types.Type) {
	parts := strings.Split(item, ".")
	if len(parts) != 3 {
		return "", nil
	}
	t := x.prog.typeByName(parts[0] + "." + parts[1])
	if t == nil {
		return "", nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == parts[2] {
			return typeKey(t) + "." + parts[2], s.Field(i).Type()
		}
	}
	return "", nil
}

func (x *Exec) paramField(item string, con *Contract) (string, types.Type) {
	parts := strings.Split(item, ".")
	if len(parts) < 2 || con == nil {
		return "", nil
	}
	var t types.Type
	if fn := x.prog.funcByKey[con.name]; fn != nil {
		for i, p := range con.params {
			if p == parts[0] && i < len(fn.Params) {
				t = fn.Params[i].Type()
			}
		}
	}
	if t == nil {
		return "", nil
	}
	key := ""
	for _, f := range parts[1:] {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return "", nil
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				key = typeKey(t) + "." + f
				t = s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return "", nil
		}
	}
	return key, t
}

func isParam(con *Contract, n string) bool { return containsStr(con.params, n) }

// point resolves a modifies item "p.a.f" to (heap key, field type, reference).
func (x *Exec) modPoint(item string, con *Contract, env *Env) (string, types.Type, *T, bool) {
	parts := strings.Split(item, ".")
	if len(parts) < 2 || !isParam(con, parts[0]) {
		return "", nil, nil, false
	}
	key, ft := x.paramField(item, con)
	if ft == nil {
		return "", nil, nil, false
	}
	base := &Expr{op: "ident", name: parts[0]}
	for _, f := range parts[1 : len(parts)-1] {
		base = &Expr{op: "field", name: f, args: []*Expr{base}}
	}
	v := x.eval(env, base)
	return key, ft, x.asKey(v), true
}

func (x *Exec) havocItem(st *State, it string, con *Contract, env *Env) {
	c := x.c
	switch {
	case it == "everything":
		x.havocAll(st)
		return
	case it == "heap":
		g := st.ghosts
		saved := make(map[string]*T, len(g))
		for k, v := range g {
			saved[k] = v
		}
		x.havocAll(st)
		st.ghosts = saved
		return
	case strings.HasPrefix(it, "ghost "):
		g := strings.TrimSpace(it[6:])
		for _, d := range x.u.ghosts {
			if d.name == g {
				st.ghosts[g] = c.Fresh("ghost."+g, d.sort)
			}
		}
		return
	case strings.HasPrefix(it, "elems("):
		v := x.eval(env, x.u.parseExpr(strings.TrimSuffix(it[6:], ")"), con.file, con.line))
		if s, ok := v.v.(*SliceV); ok {
			x.havocElems(st, v.t.Underlying().(*types.Slice).Elem(), s)
		}
		return
	case strings.HasPrefix(it, "array("): // the whole array behind a slice
		v := x.eval(env, x.u.parseExpr(strings.TrimSuffix(it[6:], ")"), con.file, con.line))
		if s, ok := v.v.(*SliceV); ok {
			et := v.t.Underlying().(*types.Slice).Elem()
			for _, l := range leaves(et) {
				k := "E:" + typeKey(et) + l.path
				h := x.heap(st, k, elemSort(l.sort))
				x.setHeap(st, k, c.Store(h, s.r, c.Fresh("row:"+typeKey(et), arr(SInt, l.sort))))
			}
			if typeKey(et) == "uint8" {
				i := c.BVar("i?", SInt)
				row := c.Select(x.heap(st, "E:uint8", elemSort(SInt)), s.r)
				st.assume(c.Forall([]*T{i}, c.And(c.Le(c.Int(0), c.Select(row, i)), c.Le(c.Select(row, i), c.Int(255))), []*T{c.Select(row, i)}))
			}
		}
		return
	case strings.HasPrefix(it, "deref("):
		v := x.eval(env, x.u.parseExpr(strings.TrimSuffix(it[6:], ")"), con.file, con.line))
		if iv, ok := v.v.(*IfaceV); ok {
			x.havocIface(st, iv)
			return
		}
		x.havocPointee(st, v.v, v.t)
		return
	}
	if key, ft, ref, ok := x.modPoint(it, con, env); ok && !isStruct(ft) && !isArray(ft) {
		for _, l := range leaves(ft) {
			k := "F:" + key + l.path
			h := x.heap(st, k, fieldSort(l.sort))
			x.setHeap(st, k, c.Store(h, ref, c.Fresh("hv:"+k, l.sort)))
		}
		return
	}
	for k, s := range x.modKeys(it, con, nil) {
		x.setHeap(st, k, c.Fresh("H:"+k, s))
	}
}

// havocElems forgets the elements s[0..len) and keeps the rest of the array.
func (x *Exec) havocElems(st *State, et types.Type, s *SliceV) {
	c := x.c
	if s.l.i != nil && s.l.i.Sign() == 0 || s.r == c.Int(0) {
		return
	}
	for _, l := range leaves(et) {
		k := "E:" + typeKey(et) + l.path
		h := x.heap(st, k, elemSort(l.sort))
		row := c.Fresh("row:"+typeKey(et), arr(SInt, l.sort))
		old := c.Select(h, s.r)
		i := c.BVar("i?", SInt)
		st.assume(c.Forall([]*T{i}, c.Imp(c.Not(c.And(c.Le(s.o, i), c.Lt(i, c.Add(s.o, s.l)))), c.Eq(c.Select(row, i), c.Select(old, i))), []*T{c.Select(row, i)}))
		if typeKey(et) == "uint8" {
			st.assume(c.Forall([]*T{i}, c.And(c.Le(c.Int(0), c.Select(row, i)), c.Le(c.Select(row, i), c.Int(255))), []*T{c.Select(row, i)}))
		}
		x.setHeap(st, k, c.Store(h, s.r, row))
	}
}

func (x *Exec) havocPointee(st *State, v Val, t types.Type) {
	c := x.c
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	et := p.Elem()
	switch w := v.(type) {
	case *T:
		if w == c.Int(0) {
			return
		}
		if isStruct(et) {
			if n, ok := types.Unalias(et).(*types.Named); ok && n.Obj().Pkg() != nil && !x.prog.repoPkg(n.Obj().Pkg()) {
				return // library object: its fields are never read here
			}
			u := et.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if isStruct(ft) || isArray(ft) {
					continue
				}
				x.storeField(st, et, i, w, x.freshVal(st, ft, "havoc"))
			}
			return
		}
		if isArray(et) {
			return
		}
		x.storeAt(st, et, w, x.freshVal(st, et, "havoc"))
	case *Addr:
		x.store(st, w, et, x.freshVal(st, et, "havoc"))
	}
}

// ---- builtins ----

func (x *Exec) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pos token.Pos) Val {
	c := x.c
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return v.l
		case *ArrV:
			return c.Int(v.typ.Len())
		case *T:
			if v.sort == SStr {
				n := c.StrLen(v)
				return n
			}
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				n := c.Ite(c.Eq(v, c.Int(0)), c.Int(0), x.mapLen(st, cc.Args[0].Type(), v))
				st.assume(c.Le(c.Int(0), n))
				return n
			}
			if p, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
				return c.Int(p.Elem().Underlying().(*types.Array).Len())
			}
		}
	case "cap":
		if v, ok := args[0].(*SliceV); ok {
			return v.c
		}
	case "append":
		return x.appendBuiltin(st, cc, args)
	case "copy":
		return x.copyBuiltin(st, cc, args)
	case "delete":
		x.mapDelete(st, cc.Args[0].Type(), args[0].(*T), args[1])
		return nil
	case "clear":
		if m, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			mk, _ := mapKey(cc.Args[0].Type())
			ks := x.mapKeySort(m)
			ref := args[0].(*T)
			dh := x.heap(st, "MD:"+mk, arr(SInt, arr(ks, SBool)))
			x.setHeap(st, "MD:"+mk, c.Store(dh, ref, c.ConstArr(arr(ks, SBool), c.False)))
			lh := x.heap(st, "ML:"+mk, arr(SInt, SInt))
			x.setHeap(st, "ML:"+mk, c.Store(lh, ref, c.Int(0)))
			return nil
		}
		s := args[0].(*SliceV)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		for _, l := range leaves(et) {
			k := "E:" + typeKey(et) + l.path
			h := x.heap(st, k, elemSort(l.sort))
			row := c.Fresh("row", arr(SInt, l.sort))
			i := c.BVar("i?", SInt)
			in := c.And(c.Le(s.o, i), c.Lt(i, c.Add(s.o, s.l)))
			st.assume(c.Forall([]*T{i}, c.Eq(c.Select(row, i), c.Ite(in, x.zeroLeaf(l.sort), c.Select(c.Select(h, s.r), i))), []*T{c.Select(row, i)}))
			x.setHeap(st, k, c.Store(h, s.r, row))
		}
		return nil
	case "min", "max":
		r, ok := args[0].(*T)
		if ok && r.sort == SInt {
			for _, a := range args[1:] {
				q := a.(*T)
				if b.Name() == "min" {
					r = c.Ite(c.Le(r, q), r, q)
				} else {
					r = c.Ite(c.Le(q, r), r, q)
				}
			}
			return r
		}
	case "recover":
		return &IfaceV{c.Int(0), c.Int(0)}
	case "print", "println":
		return nil
	case "close":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *Exec) appendBuiltin(st *State, cc *ssa.CallCommon, args []Val) Val {
	c := x.c
	s, ok := args[0].(*SliceV)
	if !ok {
		unsup("append to %T", args[0])
	}
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	var n *T
	var src *SliceV
	var str *T
	switch v := args[1].(type) {
	case *SliceV:
		src, n = v, v.l
	case *T:
		if v.sort != SStr {
			unsup("append of %T", v)
		}
		str, n = v, c.StrLen(v)
	}
	if n == c.Int(0) {
		return s
	}
	total := c.Add(s.l, n)
	fits := c.Le(total, s.c)
	if s.r == c.Int(0) {
		fits = c.False
	}
	if canT, canF := x.decide(st, fits); canT != canF {
		fits = c.Bool(canT)
	}
	nr := x.newRef(st)
	ref := c.Ite(fits, s.r, nr)
	ncap := s.c
	if fits != c.True {
		nc := c.Fresh("cap", SInt)
		st.assume(c.And(c.Le(total, nc), c.Le(nc, c.Big(maxInt))))
		ncap = c.Ite(fits, s.c, nc)
	}
	for _, l := range leaves(et) {
		k := "E:" + typeKey(et) + l.path
		h := x.heap(st, k, elemSort(l.sort))
		row := c.Select(h, s.r)
		if s.r == c.Int(0) {
			row = c.ConstArr(arr(SInt, l.sort), x.zeroLeaf(l.sort))
		}
		end := c.Add(s.o, s.l)
		switch {
		case src != nil && n.i != nil && n.i.IsInt64() && n.i.Int64() <= 16:
			srow := c.Select(h, src.r)
			for i := int64(0); i < n.i.Int64(); i++ {
				row = c.Store(row, c.Add(end, c.Int(i)), c.Select(srow, c.Add(src.o, c.Int(i))))
			}
		default:
			var get func(i *T) *T
			if src != nil {
				srow := c.Select(h, src.r)
				get = func(i *T) *T { return c.Select(srow, c.Add(src.o, i)) }
			} else {
				sb := c.App("strbytes", arr(SInt, SInt), str)
				get = func(i *T) *T { return c.Select(sb, i) }
			}
			nrow := c.Fresh("row", arr(SInt, l.sort))
			i := c.BVar("i?", SInt)
			in := c.And(c.Le(end, i), c.Lt(i, c.Add(end, n)))
			outside := c.Select(row, i)
			if fits != c.True && x.on("growzero") {
				// the runtime clears what lies beyond the appended elements in a
				// newly allocated array
				outside = c.Ite(c.And(c.Not(fits), c.Le(c.Add(end, n), i)), x.zeroLeaf(l.sort), outside)
			}
			st.assume(c.Forall([]*T{i}, c.Eq(c.Select(nrow, i), c.Ite(in, get(c.Sub(i, end)), outside)), []*T{c.Select(nrow, i)}))
			row = nrow
		}
		x.setHeap(st, k, c.Store(h, ref, row))
	}
	return &SliceV{ref, s.o, total, ncap}
}

func (x *Exec) copyBuiltin(st *State, cc *ssa.CallCommon, args []Val) Val {
	c := x.c
	d := args[0].(*SliceV)
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	var n *T
	var get func(h, i *T) *T
	switch v := args[1].(type) {
	case *SliceV:
		n = c.Ite(c.Le(d.l, v.l), d.l, v.l)
		get = func(h, i *T) *T { return c.Select(c.Select(h, v.r), c.Add(v.o, i)) }
	case *T:
		n = c.Ite(c.Le(d.l, c.StrLen(v)), d.l, c.StrLen(v))
		sb := c.App("strbytes", arr(SInt, SInt), v)
		get = func(h, i *T) *T { return c.Select(sb, i) }
	}
	for _, l := range leaves(et) {
		k := "E:" + typeKey(et) + l.path
		h := x.heap(st, k, elemSort(l.sort))
		row := c.Fresh("row", arr(SInt, l.sort))
		i := c.BVar("i?", SInt)
		in := c.And(c.Le(d.o, i), c.Lt(i, c.Add(d.o, n)))
		st.assume(c.Forall([]*T{i}, c.Eq(c.Select(row, i), c.Ite(in, get(h, c.Sub(i, d.o)), c.Select(c.Select(h, d.r), i))), []*T{c.Select(row, i)}))
		x.setHeap(st, k, c.Store(h, d.r, row))
	}
	return n
}

// ---- library functions ----

// special models a few library functions whose meaning a contract cannot
// state (they call back, or wrap errors).
func (x *Exec) special(st *State, fr *Frame, key string, fn *ssa.Function, args []Val, ret ssa.Value, pos token.Pos, isDefer bool, cc *ssa.CallCommon) (Val, bool) {
	c := x.c
	switch key {
	case "errors.Is":
		return x.errIs(st, args[0].(*IfaceV), args[1].(*IfaceV), 0), true
	case "errors.New":
		return &IfaceV{x.typeIDByKey("*errors.errorString"), x.newRef(st)}, true
	case "fmt.Errorf":
		var inner *IfaceV
		if f, ok := litStr(args[0].(*T)); ok && strings.Count(f, "%w") == 1 {
			n := 0
			for i := 0; i < len(f); i++ {
				if f[i] == '%' && i+1 < len(f) {
					if f[i+1] == '%' {
						i++
						continue
					}
					j := i + 1
					for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
						j++
					}
					if j < len(f) && f[j] == 'w' {
						break
					}
					n++
				}
			}
			if sv, ok := args[1].(*SliceV); ok && sv.l.i != nil {
				et := types.Universe.Lookup("any").Type()
				if v, ok := x.loadElem(st, et, "", et, sv.r, c.Add(sv.o, c.Int(int64(n)))).(*IfaceV); ok {
					inner = v
				}
			}
		}
		return x.wrapErr(st, inner, "*fmt.wrapError"), true
	case "(*sync.Once).Do":
		cl, ok := args[1].(*Closure)
		if !ok {
			unsup("sync.Once.Do of an unknown function")
		}
		k := "once"
		h := x.heap(st, k, arr(SInt, SBool))
		o := x.flatten(args[0])[0]
		done := c.Select(h, o)
		canT, canF := x.decide(st, done)
		if canT && canF {
			s2 := st.clone()
			s2.assume(done)
			f2 := s2.top()
			if !isDefer {
				f2.pc++
			}
			if !s2.dead {
				x.work = append(x.work, s2)
			}
			canT = false
		}
		if canT {
			if !isDefer {
				fr.pc++
			}
			return nil, true
		}
		st.assume(c.Not(done))
		x.setHeap(st, k, c.Store(x.heap(st, k, arr(SInt, SBool)), o, c.True))
		x.callStatic(st, fr, cl.fn, cl.binds, nil, nil, pos, isDefer, cc)
		return nil, true
	case "cmp.Or":
		sv, ok := args[0].(*SliceV)
		et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		if ok && sv.l.i != nil && sv.l.i.Int64() <= 8 {
			var cur Val = x.zero(et)
			for i := sv.l.i.Int64() - 1; i >= 0; i-- {
				v := x.loadElem(st, et, "", et, sv.r, c.Add(sv.o, c.Int(i)))
				nz := c.Not(x.eqVals(st, v, x.zero(et), et, et))
				a, b := x.flatten(v), x.flatten(cur)
				var ls []*T
				for k := range a {
					ls = append(ls, c.Ite(nz, a[k], b[k]))
				}
				cur = x.unflatten(et, ls)
			}
			return cur, true
		}
	}
	return nil, false
}

// effectful library packages: calling into them without a contract is an
// error of the verification, not something to assume harmless.
var effectful = map[string]bool{
	"os": true, "io": true, "io/fs": true, "bufio": true, "net/http": true, "archive/tar": true,
	"database/sql": true, "syscall": true, "os/exec": true, "io/ioutil": true, "net": true, "testing/fstest": true,
	"encoding/json": true,
}

func (x *Exec) libraryDefault(st *State, fn *ssa.Function, key string, args []Val, cc *ssa.CallCommon, pos token.Pos) Val {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if effectful[pkg] && !x.u.pure[pkg] && !x.u.pure[key] {
		unsup("no contract for library function %s", key)
	}
	if strings.Contains(pkg, ".") && !x.u.pure[pkg] && !x.u.pure[key] {
		unsup("no contract for dependency function %s", key)
	}
	x.pureUsed["library function without side effects on modelled state: "+key] = true
	for i, a := range args {
		var at types.Type
		if i < len(cc.Args) {
			at = cc.Args[i].Type()
		}
		if at == nil {
			continue
		}
		switch v := a.(type) {
		case *SliceV:
			if i < len(cc.Args) && x.isVarargsArg(cc.Args[i]) {
				// pointers boxed in the variadic part may be written through
				if isIface(at.Underlying().(*types.Slice).Elem()) && v.l.i != nil {
					et := at.Underlying().(*types.Slice).Elem()
					for k := int64(0); k < v.l.i.Int64(); k++ {
						if iv, ok := x.loadElem(st, et, "", et, v.r, c64(x, v.o, k)).(*IfaceV); ok && !printing(key) {
							x.havocIface(st, iv)
						}
					}
				}
				continue
			}
			if !readsOnly(key) {
				x.havocElems(st, at.Underlying().(*types.Slice).Elem(), v)
			}
		case *IfaceV:
			if !printing(key) {
				x.havocIface(st, v)
			}
		case *Closure:
			m := newModset()
			res := func(ssa.Value) (Val, bool) { return nil, false }
			cl := v
			res2 := func(w ssa.Value) (Val, bool) {
				if fv, ok := w.(*ssa.FreeVar); ok {
					for k, f := range cl.fn.FreeVars {
						if f == fv && k < len(cl.binds) {
							return cl.binds[k], true
						}
					}
				}
				return res(w)
			}
			x.modBlocks(st, cl.fn, cl.fn.Blocks, res2, m, map[string]bool{}, nil)
			x.havoc(st, m, "callback")
			x.pureUsed["callback passed to library function "+key+" abstracted by its write set"] = true
		default:
			if _, ok := at.Underlying().(*types.Pointer); ok {
				x.havocPointee(st, a, at)
			}
		}
	}
	return packResults(x.freshResults(st, fn.Signature, shortCallee(key)))
}

func c64(x *Exec, o *T, k int64) *T { return x.c.Add(o, x.c.Int(k)) }

func printing(key string) bool {
	return strings.HasPrefix(key, "fmt.") && !strings.HasPrefix(key, "fmt.Sscan") || strings.HasPrefix(key, "errors.") || strings.HasPrefix(key, "slog.")
}

func readsOnly(key string) bool {
	for _, p := range []string{"strings.", "errors.", "bytes.Equal", "bytes.Index", "slices.Index", "slices.Contains", "slices.Clone", "hex.", "sha256.", "slices.Collect", "slices.Equal", "slices.Concat", "slices.BinarySearch"} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

func (x *Exec) havocIface(st *State, iv *IfaceV) {
	if iv.t.i == nil {
		return
	}
	t, ok := x.typeByID[int(iv.t.i.Int64())]
	if !ok {
		return
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		x.havocPointee(st, x.unflatten(t, []*T{iv.d}), t)
	}
}

// ---- end of a function ----

func (x *Exec) finish(st *State, fr *Frame, res []Val, pos token.Pos) {
	c := x.c
	con := x.con
	env := &Env{x: x, st: st, names: map[string]ev{}, old: x.entryMem}
	for k, b := range x.entryBind {
		env.names[k] = ev{b.v, b.t}
	}
	pre := *env
	pre.mem = x.entryMem
	x.bindLets(con, &pre)
	rts := sigResults(x.fn.Signature)
	for i, v := range res {
		env.names[fmt.Sprintf("r%d", i)] = ev{v, rts[i]}
		if i < len(con.results) {
			env.names[con.results[i]] = ev{v, rts[i]}
		}
	}
	if n := len(res); n > 0 && isErrorType(rts[n-1]) {
		if _, ok := env.names["err"]; !ok {
			env.names["err"] = ev{res[n-1], rts[n-1]}
		}
	}
	x.finalPaths++
	if len(x.coverPCs) < 40 {
		x.coverPCs = append(x.coverPCs, append([]*T{}, st.pc...))
		x.coverPos = append(x.coverPos, x.posOf(pos))
	}
	for k, e := range con.ensures {
		g := x.evalBool(env, e.expr)
		x.oblige(st, funcKey(x.fn)+"/post"+lab(e, k), e.text, g, pos)
	}
	for _, s := range con.sets {
		pre.names = env.names
		rhs := x.asKey(x.eval(&pre, s.expr))
		if s.idx != nil {
			rhs = c.Store(x.entryMem.ghosts[s.name], x.asKey(x.eval(&pre, s.idx)), rhs)
		}
		x.oblige(st, funcKey(x.fn)+"/sets "+s.name, s.name+" = "+s.expr.String(), c.Eq(st.ghosts[s.name], rhs), pos)
	}
	for _, f := range con.freshResults() {
		if v, ok := env.names[f]; ok {
			k := x.asKey(v)
			x.oblige(st, funcKey(x.fn)+"/fresh "+f, f+" is nil or newly allocated", c.Le(k, c.Int(0)), pos)
		}
	}
	if con.kind == "verify" {
		return
	}
	x.frameCheck(st, env, pos)
}

func (x *Exec) frameCheck(st *State, env *Env, pos token.Pos) {
	c := x.c
	con := x.con
	whole := map[string]bool{}
	points := map[string][]*T{}
	ranges := map[string][]*SliceV{}
	ghosts := map[string]bool{}
	pre := *env
	pre.mem = x.entryMem
	for _, it := range con.modifies {
		switch {
		case it == "everything":
			return
		case it == "heap":
			whole["*"] = true
		case strings.HasPrefix(it, "ghost "):
			ghosts[strings.TrimSpace(it[6:])] = true
		case strings.HasPrefix(it, "elems("), strings.HasPrefix(it, "array("):
			v := x.eval(&pre, x.u.parseExpr(strings.TrimSuffix(it[6:], ")"), con.file, con.line))
			if s, ok := v.v.(*SliceV); ok {
				for _, l := range leaves(v.t.Underlying().(*types.Slice).Elem()) {
					k := "E:" + typeKey(v.t.Underlying().(*types.Slice).Elem()) + l.path
					points[k] = append(points[k], s.r)
					if it[0] == 'e' {
						ranges[k] = append(ranges[k], s)
					}
				}
			}
		case strings.HasPrefix(it, "deref("):
			v := x.eval(&pre, x.u.parseExpr(strings.TrimSuffix(it[6:], ")"), con.file, con.line))
			et := v.t.Underlying().(*types.Pointer).Elem()
			if isStruct(et) {
				m := newModset()
				x.modType("", et, m)
				for k := range m.whole {
					points[k] = append(points[k], x.asKey(v))
				}
			} else {
				for _, l := range leaves(et) {
					k := "C:" + typeKey(et) + l.path
					points[k] = append(points[k], x.asKey(v))
				}
			}
		default:
			if key, ft, ref, ok := x.modPoint(it, con, &pre); ok && !isStruct(ft) && !isArray(ft) {
				for _, l := range leaves(ft) {
					points["F:"+key+l.path] = append(points["F:"+key+l.path], ref)
				}
				continue
			}
			for k := range x.modKeys(it, con, nil) {
				whole[k] = true
			}
		}
	}
	for _, s := range con.sets {
		ghosts[s.name] = true
	}
	if st.touched["*"] && !whole["*"] {
		x.oblige(st, funcKey(x.fn)+"/frame", "the function calls code that may modify everything", c.False, pos)
	}
	for _, k := range sortedKeysB(st.touched) {
		if k == "*" || whole["*"] || whole[k] || k == "once" {
			continue
		}
		now := st.heaps[k]
		was, ok := x.entryMem.heaps[k]
		if !ok {
			if st.epoch != x.entryMem.epoch {
				continue
			}
			was = c.Var("H:"+k, now.sort)
		}
		if now == was {
			continue
		}
		if strings.HasPrefix(k, "G:") {
			x.oblige(st, funcKey(x.fn)+"/frame "+k, "package variable unchanged", c.Eq(now, was), pos)
			continue
		}
		// peel stores at allocated references
		r := c.Var("frame.ref", SInt)
		goal := c.Eq(c.Select(now, r), c.Select(was, r))
		hyp := c.Le(c.Int(0), r)
		for _, p := range points[k] {
			hyp = c.And(hyp, c.Not(c.Eq(r, p)))
		}
		if onlyAllocated(now, was) {
			continue
		}
		if rs := ranges[k]; len(rs) > 0 {
			// elems(s) is s[0:len(s)]: what the array holds besides stays as it was
			i := c.Var("frame.idx", SInt)
			out := c.True
			in := c.False
			for _, s := range rs {
				in = c.Or(in, c.Eq(r, s.r))
				out = c.And(out, c.Not(c.And(c.Eq(r, s.r), c.Le(s.o, i), c.Lt(i, c.Add(s.o, s.l)))))
			}
			x.oblige(st, funcKey(x.fn)+"/frame "+k+" beyond", "only the elements listed in modifies change", c.Imp(c.And(c.Le(c.Int(0), r), in, out), c.Eq(c.Select(c.Select(now, r), i), c.Select(c.Select(was, r), i))), pos)
		}
		x.oblige(st, funcKey(x.fn)+"/frame "+k, "only the locations listed in modifies change", c.Imp(hyp, goal), pos)
	}
	for _, d := range x.u.ghosts {
		if !ghosts[d.name] && st.ghosts[d.name] != x.entryMem.ghosts[d.name] {
			x.oblige(st, funcKey(x.fn)+"/frame ghost "+d.name, "ghost state not listed in modifies is unchanged", c.Eq(st.ghosts[d.name], x.entryMem.ghosts[d.name]), pos)
		}
	}
}

func onlyAllocated(now, was *T) bool {
	for now != was {
		if now.op != "store" || now.args[1].i == nil || now.args[1].i.Sign() >= 0 {
			return false
		}
		now = now.args[0]
	}
	return true
}
