package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modset struct {
	all    bool
	whole  map[string]Sort
	points map[string]map[*T]bool // key -> refs
	psort  map[string]Sort
	ghosts map[string]bool
}

func newModset() *modset {
	return &modset{whole: map[string]Sort{}, points: map[string]map[*T]bool{}, psort: map[string]Sort{}, ghosts: map[string]bool{}}
}

func (m *modset) addWhole(key string, t types.Type, wrap func(Sort) Sort) {
	for _, l := range leaves(t) {
		m.whole[key+l.path] = wrap(l.sort)
	}
}

func (m *modset) addPoint(key string, t types.Type, wrap func(Sort) Sort, ref *T) {
	for _, l := range leaves(t) {
		k := key + l.path
		if m.points[k] == nil {
			m.points[k] = map[*T]bool{}
		}
		m.points[k][ref] = true
		m.psort[k] = wrap(l.sort)
	}
}

func fieldSort(s Sort) Sort { return arr(SInt, s) }
func elemSort(s Sort) Sort  { return arr(SInt, arr(SInt, s)) }

type resolver func(v ssa.Value) (Val, bool)

func (x *Exec) loopModset(st *State, fr *Frame, l *loop) *modset {
	m := newModset()
	res := func(v ssa.Value) (Val, bool) {
		switch w := v.(type) {
		case *ssa.Const:
			return x.constVal(w), true
		case *ssa.Function:
			return &Closure{fn: w}, true
		case *ssa.Global:
			return x.globalAddr(w), true
		}
		if ins, ok := v.(ssa.Instruction); ok && l.body[ins.Block()] {
			return nil, false
		}
		r, ok := fr.env[v]
		return r, ok
	}
	var blocks []*ssa.BasicBlock
	for _, b := range fr.fn.Blocks {
		if l.body[b] {
			blocks = append(blocks, b)
		}
	}
	x.modBlocks(st, fr.fn, blocks, res, m, map[string]bool{}, l)
	return m
}

func (x *Exec) resolveAddr(st *State, v ssa.Value, res resolver) (Val, bool) {
	if r, ok := res(v); ok {
		return r, true
	}
	switch i := v.(type) {
	case *ssa.FieldAddr:
		b, ok := x.resolveAddr(st, i.X, res)
		if !ok {
			return nil, false
		}
		// compute without emitting checks
		S := i.X.Type().Underlying().(*types.Pointer).Elem()
		u := S.Underlying().(*types.Struct)
		ft := u.Field(i.Field).Type()
		switch p := b.(type) {
		case *T:
			fk := x.fieldKey(S, i.Field)
			if isStruct(ft) || isArray(ft) {
				return x.subRef(st, fk, p), true
			}
			return &Addr{kind: "field", key: "F:" + fk, ref: p, typ: ft}, true
		case *Addr:
			if p.kind == "elem" {
				return &Addr{kind: "elem", ref: p.ref, typ: p.typ, path: p.path + "." + u.Field(i.Field).Name()}, true
			}
		}
	case *ssa.IndexAddr:
		b, ok := x.resolveAddr(st, i.X, res)
		if !ok {
			return nil, false
		}
		switch w := b.(type) {
		case *SliceV:
			return &Addr{kind: "elem", ref: w.r, typ: i.X.Type().Underlying().(*types.Slice).Elem()}, true
		case *T:
			a := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return &Addr{kind: "elem", ref: w, typ: a.Elem()}, true
		}
	case *ssa.Phi:
		// a slice that is always cut from the same backing array
		if _, ok := i.Type().Underlying().(*types.Slice); !ok {
			break
		}
		var found *SliceV
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value) bool
		walk = func(v ssa.Value) bool {
			if seen[v] {
				return true
			}
			seen[v] = true
			switch w := v.(type) {
			case *ssa.Phi:
				if r, ok := res(w); ok {
					sv, ok := r.(*SliceV)
					if !ok || found != nil && found.r != sv.r {
						return false
					}
					found = sv
					return true
				}
				for _, e := range w.Edges {
					if !walk(e) {
						return false
					}
				}
				return true
			case *ssa.Slice:
				if _, ok := w.X.Type().Underlying().(*types.Slice); ok {
					return walk(w.X)
				}
				return false
			case *ssa.ChangeType:
				return walk(w.X)
			}
			r, ok := x.resolveAddr(st, v, res)
			sv, ok2 := r.(*SliceV)
			if !ok || !ok2 || found != nil && found.r != sv.r {
				return false
			}
			found = sv
			return true
		}
		if walk(i) && found != nil {
			return found, true
		}
	case *ssa.ChangeType:
		return x.resolveAddr(st, i.X, res)
	case *ssa.Slice:
		b, ok := x.resolveAddr(st, i.X, res)
		if sv, ok2 := b.(*SliceV); ok && ok2 {
			return sv, true
		}
	}
	return nil, false
}

// allocatedInside reports whether the address chain starts at an allocation
// made inside the analysed code, i.e. an object no earlier value refers to.
func allocatedInside(v ssa.Value) bool {
	for {
		switch i := v.(type) {
		case *ssa.FieldAddr:
			v = i.X
		case *ssa.IndexAddr:
			v = i.X
		case *ssa.Slice:
			v = i.X
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		default:
			return false
		}
	}
}

func (x *Exec) modBlocks(st *State, fn *ssa.Function, blocks []*ssa.BasicBlock, res resolver, m *modset, seen map[string]bool, l *loop) {
	for _, b := range blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				x.modStore(st, i.Addr, res, m)
			case *ssa.MapUpdate:
				x.modMap(st, i.Map, res, m)
			case *ssa.Next:
				if r, ok := i.Iter.(*ssa.Range); ok && i.IsString {
					m.ghosts[iterGhost(r)] = true
				}
			case *ssa.Call:
				x.modCall(st, &i.Call, res, m, seen)
			case *ssa.Defer:
				x.modCall(st, &i.Call, res, m, seen)
			}
		}
	}
}

func (x *Exec) modMap(st *State, v ssa.Value, res resolver, m *modset) {
	mk, mt := mapKey(v.Type())
	ks := x.mapKeySort(mt)
	r, ok := x.resolveAddr(st, v, res)
	if !ok && allocatedInside(v) {
		return
	}
	add := func(k string, s Sort) {
		if ok {
			if m.points[k] == nil {
				m.points[k] = map[*T]bool{}
			}
			m.points[k][r.(*T)] = true
			m.psort[k] = s
		} else {
			m.whole[k] = s
		}
	}
	add("MD:"+mk, arr(SInt, arr(ks, SBool)))
	add("ML:"+mk, arr(SInt, SInt))
	for _, lf := range leaves(mt.Elem()) {
		add("MV:"+mk+lf.path, arr(SInt, arr(ks, lf.sort)))
	}
}

func (x *Exec) modType(key string, t types.Type, m *modset) {
	// whole-object store of struct type: all of its field heaps
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isStruct(ft) {
			x.modType("", ft, m)
			continue
		}
		if isArray(ft) {
			m.addWhole("E:"+typeKey(ft.Underlying().(*types.Array).Elem()), ft.Underlying().(*types.Array).Elem(), elemSort)
			continue
		}
		m.addWhole("F:"+x.fieldKey(t, i), ft, fieldSort)
	}
}

func (x *Exec) modStore(st *State, addr ssa.Value, res resolver, m *modset) {
	et := addr.Type().Underlying().(*types.Pointer).Elem()
	a, ok := x.resolveAddr(st, addr, res)
	if !ok && allocatedInside(addr) {
		return
	}
	if ok {
		switch p := a.(type) {
		case *T:
			if isStruct(et) {
				u := et.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					ft := u.Field(i).Type()
					if isStruct(ft) || isArray(ft) {
						x.modType("", et, m)
						return
					}
				}
				for i := 0; i < u.NumFields(); i++ {
					m.addPoint("F:"+x.fieldKey(et, i), u.Field(i).Type(), fieldSort, p)
				}
				return
			}
			if isArray(et) {
				e := et.Underlying().(*types.Array).Elem()
				m.addPoint("E:"+typeKey(e), e, elemSort, p)
				return
			}
			m.addPoint("C:"+typeKey(et), et, fieldSort, p)
		case *Addr:
			switch p.kind {
			case "field":
				m.addPoint(p.key, et, fieldSort, p.ref)
			case "elem":
				m.addPoint("E:"+typeKey(p.typ)+p.path, et, elemSort, p.ref)
			case "global":
				m.addWhole(p.key, et, func(s Sort) Sort { return s })
			}
		}
		return
	}
	switch i := addr.(type) {
	case *ssa.FieldAddr:
		S := i.X.Type().Underlying().(*types.Pointer).Elem()
		if isStruct(et) {
			x.modType("", et, m)
			return
		}
		// may be a field inside a slice element
		root := i.X
		path := "." + S.Underlying().(*types.Struct).Field(i.Field).Name()
		for {
			if fa, ok := root.(*ssa.FieldAddr); ok {
				SS := fa.X.Type().Underlying().(*types.Pointer).Elem()
				path = "." + SS.Underlying().(*types.Struct).Field(fa.Field).Name() + path
				root = fa.X
				continue
			}
			break
		}
		if ia, ok := root.(*ssa.IndexAddr); ok {
			m.addWhole("E:"+typeKey(elemOf(ia.X.Type()))+path, et, elemSort)
		}
		m.addWhole("F:"+x.fieldKey(S, i.Field), et, fieldSort)
	case *ssa.IndexAddr:
		e := elemOf(i.X.Type())
		m.addWhole("E:"+typeKey(e), et, elemSort)
	default:
		if isStruct(et) {
			x.modType("", et, m)
			return
		}
		if isArray(et) {
			e := et.Underlying().(*types.Array).Elem()
			m.addWhole("E:"+typeKey(e), e, elemSort)
			return
		}
		m.addWhole("C:"+typeKey(et), et, fieldSort)
		_ = i
	}
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return u.Elem().Underlying().(*types.Array).Elem()
	case *types.Array:
		return u.Elem()
	}
	unsup("elem of %s", t)
	return nil
}

func (x *Exec) modElems(st *State, v ssa.Value, res resolver, m *modset) {
	s, ok := v.Type().Underlying().(*types.Slice)
	if !ok {
		return
	}
	r, ok := x.resolveAddr(st, v, res)
	if !ok && allocatedInside(v) {
		return
	}
	if sv, ok2 := r.(*SliceV); ok && ok2 {
		m.addPoint("E:"+typeKey(s.Elem()), s.Elem(), elemSort, sv.r)
		return
	}
	m.addWhole("E:"+typeKey(s.Elem()), s.Elem(), elemSort)
}

func (x *Exec) modCall(st *State, cc *ssa.CallCommon, res resolver, m *modset, seen map[string]bool) {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		switch b.Name() {
		case "append", "copy", "clear":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				x.modMap(st, cc.Args[0], res, m)
				return
			}
			x.modElems(st, cc.Args[0], res, m)
		case "delete":
			x.modMap(st, cc.Args[0], res, m)
		}
		return
	}
	var fn *ssa.Function
	var binds []Val
	var bindVals []ssa.Value
	args := cc.Args
	if cc.IsInvoke() {
		if rv, ok := res(cc.Value); ok {
			if iv, ok := rv.(*IfaceV); ok && iv.t.i != nil {
				if f := x.devirt(iv, cc.Method); f != nil {
					fn = f
				}
			}
		}
		if fn == nil {
			con := x.findInvoke(cc)
			if con == nil {
				m.all = true
				return
			}
			x.modContract(con, m, cc, st, res, true)
			return
		}
		args = append([]ssa.Value{cc.Value}, args...)
	} else {
		switch v := cc.Value.(type) {
		case *ssa.Function:
			fn = v
		case *ssa.MakeClosure:
			fn = v.Fn.(*ssa.Function)
			bindVals = v.Bindings
		default:
			if rv, ok := res(cc.Value); ok {
				if cl, ok := rv.(*Closure); ok {
					fn = cl.fn
					binds = cl.binds
				}
			}
		}
		if fn == nil {
			con := x.findCallback(cc, nil)
			if con == nil {
				m.all = true
				return
			}
			x.modContract(con, m, cc, st, res, false)
			return
		}
	}
	if con := x.contractFor(fn); con != nil {
		x.modContract(con, m, cc, st, res, cc.IsInvoke())
		return
	}
	if fn.Blocks == nil || !x.prog.inRepo(fn) {
		// default for library functions: slices passed may be written
		for _, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Slice); ok && !x.isVarargsArg(a) {
				x.modElems(st, a, res, m)
			}
		}
		return
	}
	k := fmt.Sprintf("%p", fn)
	if seen[k] {
		m.all = m.all || false
		return
	}
	seen[k] = true
	sub := func(v ssa.Value) (Val, bool) {
		switch w := v.(type) {
		case *ssa.Const:
			return x.constVal(w), true
		case *ssa.Function:
			return &Closure{fn: w}, true
		case *ssa.Global:
			return x.globalAddr(w), true
		case *ssa.Parameter:
			for i, p := range fn.Params {
				if p == w && i < len(args) {
					if mc, ok := args[i].(*ssa.MakeClosure); ok {
						if r, ok := res(mc); ok {
							return r, true
						}
						cl := &Closure{fn: mc.Fn.(*ssa.Function)}
						for _, b := range mc.Bindings {
							r, ok := x.resolveAddr(st, b, res)
							if !ok {
								r = nil
							}
							cl.binds = append(cl.binds, r)
						}
						return cl, true
					}
					return x.resolveAddr(st, args[i], res)
				}
			}
		case *ssa.FreeVar:
			for i, p := range fn.FreeVars {
				if p == w {
					if bindVals != nil {
						return x.resolveAddr(st, bindVals[i], res)
					}
					if i < len(binds) && binds[i] != nil {
						return binds[i], true
					}
				}
			}
		}
		return nil, false
	}
	x.modBlocks(st, fn, fn.Blocks, sub, m, seen, nil)
	delete(seen, k)
}

func (x *Exec) modContract(con *Contract, m *modset, cc *ssa.CallCommon, st *State, res resolver, invoke bool) {
	for _, s := range con.sets {
		m.ghosts[s.name] = true
	}
	for _, it := range con.modifies {
		switch {
		case it == "everything":
			m.all = true
		case strings.HasPrefix(it, "ghost "):
			m.ghosts[strings.TrimSpace(it[6:])] = true
		case strings.HasPrefix(it, "elems("), strings.HasPrefix(it, "array("):
			name := strings.TrimSuffix(it[6:], ")")
			args := cc.Args
			if invoke || (cc.IsInvoke()) {
				args = append([]ssa.Value{cc.Value}, cc.Args...)
			}
			for i, p := range con.params {
				if p == name && i < len(args) {
					x.modElems(st, args[i], res, m)
				}
			}
		default:
			ks := x.modKeys(it, con, nil)
			for k, s := range ks {
				m.whole[k] = s
			}
		}
	}
}

func (x *Exec) isVarargsArg(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := s.X.(*ssa.Alloc)
	return ok && a.Comment == "varargs"
}

// atLoop handles arrival at a loop header.
func (x *Exec) atLoop(st *State, fr *Frame, l *loop, back bool, phis []*ssa.Phi) bool {
	key := funcKey(fr.fn)
	var spec *LoopSpec
	if con := x.u.contracts[key]; con != nil {
		spec = con.loops[l.index]
	}
	if spec == nil && fr.fn == x.fn && x.con != nil {
		spec = x.con.loops[l.index]
	}
	if spec == nil {
		spec = &LoopSpec{}
	}
	lk := fmt.Sprintf("%s/loop#%d", key, l.index)
	ctx := fr.loops[l.header]
	if !back || ctx == nil {
		// entry
		if len(spec.invs) == 0 && x.concreteCond(st, fr, l) {
			fr.loops[l.header] = &loopCtx{concrete: true}
			return true
		}
	} else if ctx.concrete {
		ctx.iters++
		if ctx.iters > 64 {
			unsup("loop unrolled more than 64 times")
		}
		if x.concreteCond(st, fr, l) {
			return true
		}
		unsup("loop stopped being concrete")
	}
	env := x.frameEnv(st, fr)
	if back && ctx != nil {
		env.entryPhi = ctx.entryPhi
		env.loopEntry = ctx.entryMem
		for k, inv := range spec.invs {
			g := x.invTerm(env, inv, false)
			if g == nil {
				continue
			}
			x.oblige(st, fmt.Sprintf("%s/inv%s/preserved", lk, lab(inv, k)), inv.text, g, l.header.Instrs[len(phis)].Pos())
		}
		for _, cd := range x.sortedCands(lk) {
			if !cd.alive {
				continue
			}
			g := x.candTerm(st, fr, l, phis, ctx, cd)
			if g != nil && g != x.c.True {
				x.obls = append(x.obls, &Obligation{name: lk + "/auto:" + cd.key, fn: funcKey(x.fn), pc: append([]*T{}, st.pc...), goal: g, cand: cd, trace: append([]string{}, st.trace...)})
			}
		}
		if len(spec.decr) > 0 {
			// lexicographic: the first component that changes decreases
			g := x.c.False
			for k := len(spec.decr) - 1; k >= 0; k-- {
				d := x.evalTerm(env, spec.decr[k])
				g = x.c.Or(x.c.And(x.c.Le(x.c.Int(0), ctx.decr[k]), x.c.Lt(d, ctx.decr[k])), x.c.And(x.c.Eq(d, ctx.decr[k]), g))
			}
			x.oblige(st, lk+"/decreases", "loop measure decreases and is bounded below", g, l.header.Instrs[len(phis)].Pos())
		}
		return false
	}
	// establish
	nctx := &loopCtx{entryMem: st.Mem.clone(), entryPhi: map[*ssa.Phi]Val{}}
	for _, p := range phis {
		nctx.entryPhi[p] = fr.env[p]
	}
	env.entryPhi = nctx.entryPhi
	env.loopEntry = nctx.entryMem
	for k, inv := range spec.invs {
		g := x.invTerm(env, inv, true)
		if g == nil {
			continue
		}
		x.oblige(st, fmt.Sprintf("%s/inv%s/init", lk, lab(inv, k)), inv.text, g, l.header.Instrs[len(phis)].Pos())
	}
	ms := x.loopModset(st, fr, l)
	x.havoc(st, ms, "loop")
	for _, p := range phis {
		v := x.freshVal(st, p.Type(), "phi."+p.Comment)
		// function values that stay the same closure are kept
		if e, ok := nctx.entryPhi[p].(*Closure); ok {
			same := true
			for _, ed := range p.Edges {
				if ed != p && !sameVal(x.tryVal(st, fr, ed), e) {
					same = false
				}
			}
			if same {
				v = e
			}
		}
		fr.env[p] = v
		if p.Comment != "" {
			fr.names[p.Comment] = nameBinding{v, p.Type(), cellPhi(p)}
		}
	}
	// values computed inside the loop on a previous entry are stale
	fr.loops[l.header] = nctx
	if !spec.noauto {
		x.genCands(st, fr, l, lk, phis, nctx, ms)
	}
	env = x.frameEnv(st, fr)
	env.entryPhi = nctx.entryPhi
	env.loopEntry = nctx.entryMem
	env.entry = true
	for _, inv := range spec.invs {
		if g := x.invTerm(env, inv, false); g != nil {
			st.assume(g)
		}
	}
	env.entry = false
	for _, cd := range x.sortedCands(lk) {
		if !cd.alive {
			continue
		}
		if g := x.candTerm(st, fr, l, phis, nctx, cd); g != nil {
			st.assume(g)
		}
	}
	for _, d := range spec.decr {
		nctx.decr = append(nctx.decr, x.evalTerm(env, d))
	}
	return !st.dead
}

// rangeCtx: an iteration of a loop over an iterator function.
type rangeCtx struct {
	lk   string
	spec *LoopSpec
	jump *T
	mem  *Mem
	pos  token.Pos
}

// rangeFunc is "for v := range f" with f unknown: f may yield any values, any
// number of times. The loop's contract is written as loop 100, 101, ... in the
// order of the function's loops of this kind.
func (x *Exec) rangeFunc(st *State, fr *Frame, cc *ssa.CallCommon, cl *Closure, pos token.Pos, isDefer bool) bool {
	key := funcKey(fr.fn)
	idx := 100
	for _, f := range fr.fn.AnonFuncs {
		if f == cl.fn {
			break
		}
		if strings.HasPrefix(f.Synthetic, "range-over-func") {
			idx++
		}
	}
	var spec *LoopSpec
	if con := x.u.contracts[key]; con != nil {
		spec = con.loops[idx]
	}
	if spec == nil && fr.fn == x.fn && x.con != nil {
		spec = x.con.loops[idx]
	}
	if spec == nil {
		spec = &LoopSpec{}
	}
	rc := &rangeCtx{lk: fmt.Sprintf("%s/loop#%d", key, idx), spec: spec, pos: pos, mem: st.Mem.clone()}
	if mc, ok := cc.Args[0].(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			if a, ok := b.(*ssa.Alloc); ok && strings.HasPrefix(a.Comment, "jump$") {
				rc.jump, _ = cl.binds[i].(*T)
			}
		}
	}
	if rc.jump == nil {
		unsup("loop over an iterator without its state variable")
	}
	env := x.frameEnv(st, fr)
	env.loopEntry = rc.mem
	for k, inv := range spec.invs {
		if g := x.invTerm(env, inv, true); g != nil {
			x.oblige(st, fmt.Sprintf("%s/inv%s/init", rc.lk, lab(inv, k)), inv.text, g, pos)
		}
	}
	ms := newModset()
	sub := func(v ssa.Value) (Val, bool) {
		switch w := v.(type) {
		case *ssa.Const:
			return x.constVal(w), true
		case *ssa.Function:
			return &Closure{fn: w}, true
		case *ssa.Global:
			return x.globalAddr(w), true
		case *ssa.FreeVar:
			for i, p := range cl.fn.FreeVars {
				if p == w && i < len(cl.binds) {
					return cl.binds[i], true
				}
			}
		}
		return nil, false
	}
	x.modBlocks(st, cl.fn, cl.fn.Blocks, sub, ms, map[string]bool{}, nil)
	x.havoc(st, ms, "range")
	st.assume(x.c.Eq(x.load(st, rc.jump, types.Typ[types.Int]).(*T), x.c.Int(0)))
	env = x.frameEnv(st, fr)
	env.loopEntry = rc.mem
	env.entry = true
	for _, inv := range spec.invs {
		if g := x.invTerm(env, inv, false); g != nil {
			st.assume(g)
		}
	}
	env.entry = false
	s2 := st.clone()
	var a []Val
	for _, q := range cl.fn.Params {
		a = append(a, x.freshVal(s2, q.Type(), "yield."+q.Name()))
	}
	if x.inline(s2, s2.top(), cl.fn, cl.binds, a, nil, false) {
		s2.top().rng = rc
		x.work = append(x.work, s2)
	}
	return x.complete(st, fr, nil, nil, isDefer)
}

// rangeRet: the body of such a loop returned; it goes on iff that was true.
func (x *Exec) rangeRet(st *State, rc *rangeCtx, more *T) bool {
	st.frames = st.frames[:len(st.frames)-1]
	fr := st.top()
	s2 := st.clone()
	s2.assume(more)
	if !s2.dead {
		env := x.frameEnv(s2, s2.top())
		env.loopEntry = rc.mem
		x.oblige(s2, rc.lk+"/state", "the loop body leaves the loop's state variable as it found it", x.c.Eq(x.load(s2, rc.jump, types.Typ[types.Int]).(*T), x.c.Int(0)), rc.pos)
		for k, inv := range rc.spec.invs {
			if g := x.invTerm(env, inv, false); g != nil {
				x.oblige(s2, fmt.Sprintf("%s/inv%s/preserved", rc.lk, lab(inv, k)), inv.text, g, rc.pos)
			}
		}
	}
	st.assume(x.c.Not(more))
	fr.pc++
	return !st.dead
}

// invTerm evaluates a loop invariant; one that names something this loop does not
// have is dropped (nothing is then assumed from it).
func (x *Exec) invTerm(env *Env, inv Clause, soft bool) (t *T) {
	if x.badInv[inv.text] {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(unsupported); is && soft && strings.HasPrefix(u.msg, "contract:") {
				x.badInv[inv.text] = true
				x.pureUsed["loop invariant not applicable here and dropped: "+inv.text] = true
				t = nil
				return
			}
			panic(r)
		}
	}()
	return x.evalBool(env, inv.expr)
}

func lab(c Clause, k int) string {
	if c.label != "" {
		return "[" + c.label + "]"
	}
	return fmt.Sprintf("#%d", k)
}

func sameVal(a Val, b *Closure) bool {
	c, ok := a.(*Closure)
	return ok && c == b
}

func (x *Exec) tryVal(st *State, fr *Frame, v ssa.Value) (r Val) {
	defer func() {
		if e := recover(); e != nil {
			r = nil
		}
	}()
	return x.val(st, fr, v)
}

// concreteCond reports whether the loop's header test is decided by constants.
func (x *Exec) concreteCond(st *State, fr *Frame, l *loop) (ok bool) {
	last := l.header.Instrs[len(l.header.Instrs)-1]
	iff, isIf := last.(*ssa.If)
	if !isIf {
		return false
	}
	// one successor must leave the loop
	if l.body[l.header.Succs[0]] && l.body[l.header.Succs[1]] {
		return false
	}
	env := map[ssa.Value]Val{}
	get := func(v ssa.Value) Val {
		if r, ok := env[v]; ok {
			return r
		}
		return x.tryVal(st, fr, v)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for _, ins := range l.header.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			a, b := get(i.X), get(i.Y)
			if a == nil || b == nil {
				return false
			}
			ta, ok1 := a.(*T)
			tb, ok2 := b.(*T)
			if !ok1 || !ok2 || ta.i == nil || tb.i == nil {
				return false
			}
			env[i] = x.binop(st, i.Op, a, b, i.X.Type(), i.Y.Type(), i.Type(), i.Pos())
		case *ssa.Call:
			b, okb := i.Call.Value.(*ssa.Builtin)
			if !okb || b.Name() != "len" {
				return false
			}
			sv, ok := get(i.Call.Args[0]).(*SliceV)
			if !ok {
				return false
			}
			env[i] = sv.l
		case *ssa.If:
			t, ok := get(iff.Cond).(*T)
			return ok && (t == x.c.True || t == x.c.False)
		default:
			return false
		}
	}
	return false
}

func (x *Exec) havoc(st *State, m *modset, why string) {
	c := x.c
	if m.all {
		x.havocAll(st)
	}
	for _, k := range sortedKeys(m.whole) {
		s := m.whole[k]
		x.setHeap(st, k, c.Fresh("H:"+k, s))
	}
	for _, k := range sortedKeysP(m.points) {
		if _, ok := m.whole[k]; ok {
			continue
		}
		s := m.psort[k]
		h := x.heap(st, k, s)
		_, vs := arrParts(s)
		var refs []*T
		for r := range m.points[k] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			h = c.Store(h, r, c.Fresh("hv:"+k, vs))
		}
		x.setHeap(st, k, h)
	}
	for _, g := range sortedKeysB(m.ghosts) {
		if strings.HasPrefix(g, "@iter ") && st.ghosts[g] != nil {
			st.ghosts[g] = c.Fresh("iterpos", SInt)
		}
		for _, d := range x.u.ghosts {
			if d.name == g {
				st.ghosts[g] = c.Fresh("ghost."+g, d.sort)
			}
		}
	}
}

func (x *Exec) havocAll(st *State) {
	x.c.fresh++
	st.epoch = x.c.fresh
	for k := range st.heaps {
		if strings.HasPrefix(k, "G:") {
			continue
		}
		delete(st.heaps, k)
	}
	st.touched["*"] = true
	for _, d := range x.u.ghosts {
		st.ghosts[d.name] = x.c.Fresh("ghost."+d.name, d.sort)
	}
}

func sortedKeys(m map[string]Sort) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
func sortedKeysB(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
func sortedKeysP(m map[string]map[*T]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- automatic invariant candidates (Houdini style) ----

func (x *Exec) sortedCands(lk string) []*candidate {
	var out []*candidate
	var ks []string
	for k := range x.cands[lk] {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, x.cands[lk][k])
	}
	return out
}

func (x *Exec) genCands(st *State, fr *Frame, l *loop, lk string, phis []*ssa.Phi, ctx *loopCtx, ms *modset) {
	m := x.cands[lk]
	if m == nil {
		m = map[string]*candidate{}
		x.cands[lk] = m
	}
	add := func(k string) {
		if _, ok := m[k]; !ok {
			m[k] = &candidate{fn: lk, key: k, alive: true}
		}
	}
	for i, p := range phis {
		if isTypeParam(p.Type()) {
			continue
		}
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				add(fmt.Sprintf("phi%d>=entry", i))
				add(fmt.Sprintf("phi%d<=entry", i))
			} else {
				add(fmt.Sprintf("phi%d==entry", i))
			}
		case *types.Pointer, *types.Interface:
			add(fmt.Sprintf("phi%d==entry", i))
		case *types.Slice:
			add(fmt.Sprintf("phi%d==entry", i))
		}
	}
	for g := range ms.ghosts {
		add("ghost " + g + "==entry")
	}
	if x.on("ownrows") { // what the loop writes lies in objects of this function
		for k := range ms.whole {
			if strings.HasPrefix(k, "E:") {
				add("own " + k)
			}
		}
	}
	// counters that move in step with one another
	var ints []int
	for i, p := range phis {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !isTypeParam(p.Type()) {
			ints = append(ints, i)
		}
	}
	var preds []string
	if specDigits {
		preds = append(preds, "digits")
	}
	if len(preds) > 0 {
		for j, p := range fr.fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				for _, i := range ints {
					for d := 0; d < 2; d++ {
						add(fmt.Sprintf("phi%d prefix digits %d %d", i, j, d))
					}
				}
			}
		}
	}
	for g := range ms.ghosts {
		if v := st.ghosts[g]; v != nil && v.sort == SStr {
			for _, p := range preds {
				add("holds " + p + " " + g)
			}
			for _, i := range ints {
				add(fmt.Sprintf("phi%d length %s", i, g))
			}
		}
		if strings.HasPrefix(g, "@iter ") {
			for _, p := range preds {
				add("iter " + p + " " + g)
			}
		}
		if v := st.ghosts[g]; v != nil && v.sort == SInt {
			for _, i := range ints {
				add(fmt.Sprintf("phi%d lock %s", i, g))
			}
		}
	}
	for i, p := range phis {
		if cellInt(p) {
			add(fmt.Sprintf("cell%d>=entry", i))
			add(fmt.Sprintf("cell%d bound", i))
			for g := range ms.ghosts {
				if v := st.ghosts[g]; v != nil && v.sort == SInt {
					add(fmt.Sprintf("cell%d lock %s", i, g))
				}
			}
		}
	}
	if b, ok := headerBound(l); ok {
		for i, p := range phis {
			if b.phi == p {
				add(fmt.Sprintf("phi%d bound", i))
			}
		}
	}
}

type hbound struct {
	phi    *ssa.Phi
	off    int64 // compare phi+off
	strict bool
	lim    ssa.Value
}

// headerBound recognises "phi < X" / "phi+1 < X" loop tests with X fixed.
// The test may also stand at the bottom ("if phi+1 < X goto header").
func headerBound(l *loop) (hbound, bool) {
	if b, ok := testBound(l, l.header); ok {
		return b, true
	}
	for _, p := range l.header.Preds {
		if l.body[p] && p != l.header && len(p.Succs) == 2 && p.Succs[0] == l.header {
			if b, ok := testBound(l, p); ok && b.off == 1 && b.strict {
				return b, true
			}
		}
	}
	return hbound{}, false
}

func testBound(l *loop, blk *ssa.BasicBlock) (hbound, bool) {
	last := blk.Instrs[len(blk.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok || !l.body[blk.Succs[0]] {
		return hbound{}, false
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || (b.Op != token.LSS && b.Op != token.LEQ) {
		return hbound{}, false
	}
	if ins, ok := b.Y.(ssa.Instruction); ok && l.body[ins.Block()] {
		return hbound{}, false
	}
	switch v := b.X.(type) {
	case *ssa.Phi:
		if v.Block() == l.header {
			return hbound{phi: v, strict: b.Op == token.LSS, lim: b.Y}, true
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			if p, ok := v.X.(*ssa.Phi); ok && p.Block() == l.header {
				if k, ok := v.Y.(*ssa.Const); ok {
					return hbound{phi: p, off: k.Int64(), strict: b.Op == token.LSS, lim: b.Y}, true
				}
			}
		}
	}
	return hbound{}, false
}

func (x *Exec) candTerm(st *State, fr *Frame, l *loop, phis []*ssa.Phi, ctx *loopCtx, cd *candidate) *T {
	c := x.c
	if strings.HasPrefix(cd.key, "ghost ") {
		g := strings.TrimSuffix(cd.key[6:], "==entry")
		return c.Eq(st.ghosts[g], ctx.entryMem.ghosts[g])
	}
	if strings.HasPrefix(cd.key, "own ") {
		k := cd.key[4:]
		now, was := st.heaps[k], ctx.entryMem.heaps[k]
		if now == nil || was == nil {
			if now == was {
				return c.True
			}
			return nil
		}
		r := c.BVar("own?", SInt)
		return c.Forall([]*T{r}, c.Imp(c.Le(c.Int(0), r), c.Eq(c.Select(now, r), c.Select(was, r))), []*T{c.Select(now, r)})
	}
	if strings.HasPrefix(cd.key, "holds ") {
		w := strings.SplitN(cd.key, " ", 3)
		// relative to the entry, so that it holds there by construction
		return c.Imp(x.strPred(w[1], ctx.entryMem.ghosts[w[2]]), x.strPred(w[1], st.ghosts[w[2]]))
	}
	if strings.HasPrefix(cd.key, "iter ") {
		w := strings.SplitN(cd.key, " ", 3)
		it, ok := fr.env[x.iters[w[2]]].(*IterV)
		if !ok || st.ghosts[w[2]] == nil || ctx.entryMem.ghosts[w[2]] == nil {
			return nil
		}
		pre := func(n *T) *T { return x.strPred(w[1], c.Op("str.substr", SStr, it.x.(*T), c.Int(0), n)) }
		return c.Imp(pre(ctx.entryMem.ghosts[w[2]]), pre(st.ghosts[w[2]]))
	}
	var i int
	if strings.HasPrefix(cd.key, "cell") {
		fmt.Sscanf(cd.key, "cell%d", &i)
		if i >= len(phis) || !cellInt(phis[i]) {
			return nil
		}
		et := phis[i].Type().Underlying().(*types.Pointer).Elem()
		cur, ok := x.load(st, fr.env[phis[i]], et).(*T)
		if !ok {
			return nil
		}
		mem := st.Mem
		st.Mem = ctx.entryMem
		ent, ok := x.load(st, ctx.entryPhi[phis[i]], et).(*T)
		st.Mem = mem
		if !ok {
			return nil
		}
		switch {
		case strings.Contains(cd.key, " lock "):
			g := cd.key[strings.Index(cd.key, " lock ")+6:]
			return c.Eq(c.Sub(cur, ent), c.Sub(st.ghosts[g], ctx.entryMem.ghosts[g]))
		case strings.HasSuffix(cd.key, "bound"):
			b, ok := cellTest(l, phis[i])
			if !ok {
				return nil
			}
			lim, ok := x.tryVal(st, fr, b.Y).(*T)
			if !ok {
				return nil
			}
			if b.Op == token.LEQ {
				lim = c.Add(lim, c.Int(1))
			}
			return c.Imp(c.Le(ent, lim), c.Le(cur, lim))
		}
		return c.Le(ent, cur)
	}
	fmt.Sscanf(cd.key, "phi%d", &i)
	if i >= len(phis) {
		return nil
	}
	cur, ent := fr.env[phis[i]], ctx.entryPhi[phis[i]]
	switch {
	case strings.Contains(cd.key, " length "):
		g := cd.key[strings.Index(cd.key, " length ")+8:]
		return c.Eq(c.Sub(cur.(*T), ent.(*T)), c.Sub(c.StrLen(st.ghosts[g]), c.StrLen(ctx.entryMem.ghosts[g])))
	case strings.Contains(cd.key, " prefix "):
		var j, d int
		var pred string
		fmt.Sscanf(cd.key[strings.Index(cd.key, " prefix ")+8:], "%s %d %d", &pred, &j, &d)
		s, ok := fr.env[fr.fn.Params[j]].(*T)
		if !ok {
			return nil
		}
		pre := func(n *T) *T {
			return x.strPred(pred, c.Op("str.substr", SStr, s, c.Int(0), c.Add(n, c.Int(int64(d)))))
		}
		return c.Imp(pre(ent.(*T)), pre(cur.(*T)))
	case strings.Contains(cd.key, " lock "):
		g := cd.key[strings.Index(cd.key, " lock ")+6:]
		return c.Eq(c.Sub(cur.(*T), ent.(*T)), c.Sub(st.ghosts[g], ctx.entryMem.ghosts[g]))
	case strings.HasSuffix(cd.key, "bound"):
		hb, ok := headerBound(l)
		if !ok {
			return nil
		}
		lim, ok2 := x.tryVal(st, fr, hb.lim).(*T)
		if !ok2 {
			return nil
		}
		// phi+off <= lim (strict test): the value after the last step;
		// vacuous when the loop is entered beyond the limit
		a := c.Add(cur.(*T), c.Int(hb.off))
		e := c.Add(ent.(*T), c.Int(hb.off))
		if hb.strict {
			if hb.off > 0 {
				a, e = cur.(*T), ent.(*T)
				return c.Imp(c.Lt(e, lim), c.Lt(a, lim))
			}
			return c.Imp(c.Le(e, lim), c.Le(a, lim))
		}
		l1 := c.Add(lim, c.Int(1))
		return c.Imp(c.Le(e, l1), c.Le(a, l1))
	case strings.HasSuffix(cd.key, ">=entry"):
		return c.Le(ent.(*T), cur.(*T))
	case strings.HasSuffix(cd.key, "<=entry"):
		return c.Le(cur.(*T), ent.(*T))
	case strings.HasSuffix(cd.key, "==entry"):
		a, b := x.flatten(cur), x.flatten(ent)
		r := c.True
		for k := range a {
			r = c.And(r, c.Eq(a[k], b[k]))
		}
		return r
	}
	return nil
}

// strPred applies a one-place predicate on strings.
func (x *Exec) strPred(p string, s *T) *T {
	if p == "digits" {
		return x.c.Op("vf.digits", SBool, s)
	}
	return x.c.App("spec."+p, SBool, s)
}

// cellPhi reports that a phi stands for the cell of a loop variable captured per
// iteration: its name means the contents.
func cellPhi(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if a, ok := e.(*ssa.Alloc); !ok || a.Comment != p.Comment {
			return false
		}
	}
	return true
}

func cellInt(p *ssa.Phi) bool {
	pt, ok := p.Type().Underlying().(*types.Pointer)
	if !ok || !cellPhi(p) {
		return false
	}
	b, ok := pt.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// cellTest is the loop test "*p < X" or "*p <= X" with X fixed.
func cellTest(l *loop, p *ssa.Phi) (*ssa.BinOp, bool) {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || !l.body[l.header.Succs[0]] {
		return nil, false
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS && b.Op != token.LEQ {
		return nil, false
	}
	if ins, ok := b.Y.(ssa.Instruction); ok && l.body[ins.Block()] {
		return nil, false
	}
	u, ok := b.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.X != p {
		return nil, false
	}
	return b, true
}
