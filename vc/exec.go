package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Mem struct {
	heaps   map[string]*T
	ghosts  map[string]*T
	epoch   int
	touched map[string]bool
}

func (m *Mem) clone() *Mem {
	n := &Mem{heaps: make(map[string]*T, len(m.heaps)), ghosts: make(map[string]*T, len(m.ghosts)), epoch: m.epoch, touched: make(map[string]bool, len(m.touched))}
	for k, v := range m.heaps {
		n.heaps[k] = v
	}
	for k, v := range m.ghosts {
		n.ghosts[k] = v
	}
	for k, v := range m.touched {
		n.touched[k] = v
	}
	return n
}

type State struct {
	*Mem
	pc       []*T
	pcset    map[*T]bool
	allocN   int
	subs     map[string]*T
	frames   []*Frame
	trace    []string
	dead     bool
	errInner map[*T]*IfaceV // wrapped errors made on this path
}

type loopCtx struct {
	entryMem *Mem
	decr     []*T
	entryPhi map[*ssa.Phi]Val
	concrete bool
	iters    int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type nameBinding struct {
	v    Val
	t    types.Type
	addr bool
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	names   map[string]nameBinding
	block   *ssa.BasicBlock
	pc      int
	defers  []deferred
	loops   map[*ssa.BasicBlock]*loopCtx
	retTo   ssa.Value // register of the caller that receives the result
	retDef  bool      // return resumes a RunDefers
	entry   *Mem
	rng     *rangeCtx                               // the body of a loop over an iterator function
	trial   bool                                    // a callback tried out: what follows it is dropped
	onRet   func(x *Exec, st *State, results []Val) // hook for contract-level callbacks
	prev    *ssa.BasicBlock
	entryPC int
	binding map[string]nameBinding // spec names of params
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *T) {
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	if t.op == "lit" && t.lit == "true" {
		return
	}
	if t.bound { // a fact about a bound variable is not a fact about the state
		return
	}
	if st.pcset[t] {
		return
	}
	if t.op == "lit" && t.lit == "false" {
		st.dead = true
	}
	st.pcset[t] = true
	st.pc = append(st.pc, t)
}

func (st *State) clone() *State {
	n := &State{Mem: st.Mem.clone(), allocN: st.allocN, dead: st.dead, errInner: st.errInner}
	n.pc = append([]*T{}, st.pc...)
	n.pcset = make(map[*T]bool, len(st.pcset)+8)
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.subs = make(map[string]*T, len(st.subs))
	for k, v := range st.subs {
		n.subs[k] = v
	}
	n.trace = append([]string{}, st.trace...)
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.names = make(map[string]nameBinding, len(f.names)+4)
		for k, v := range f.names {
			g.names[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		g.loops = make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
		for k, v := range f.loops {
			c := *v
			g.loops[k] = &c
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

// Obligation is one proof goal, possibly generated on several paths.
type Obligation struct {
	name   string
	fn     string
	clause string
	pc     []*T
	goal   *T
	trace  []string
	pos    string
	res    solveResult
	reason string // for obligations that fail without a query (unsupported construct)
	cand   *candidate
	script string
	piece  string // the conjunct of the goal that stayed open
}

type candidate struct {
	fn    string
	loop  int
	key   string
	alive bool
	spec  Clause
}

type Exec struct {
	u          *Unit
	prog       *Prog
	c          *Ctx
	fn         *ssa.Function
	con        *Contract
	badInv     map[string]bool
	pr         *pruner
	heapSorts  map[string]Sort
	typeNames  map[int]string
	typeByID   map[int]types.Type
	globals    map[string]int64
	closures   map[int64]*Closure
	nclosure   int
	addrs      map[*T]*Addr
	work       []*State
	obls       []*Obligation
	paths      int
	covered    int
	visited    map[*ssa.BasicBlock]bool
	coverPCs   [][]*T
	coverPos   []string
	pureUsed   map[string]bool
	contUsed   map[string]bool
	invUsed    map[string]bool
	inlined    map[string]bool
	cands      map[string]map[string]*candidate // loopkey -> candidate key -> cand
	opts       map[string]string
	entryMem   *Mem
	entryBind  map[string]nameBinding
	maxPaths   int
	steps      int
	finalPaths int
	errs       []string
	initPCs    []*T
	rename     map[string]string
	cellTypes  map[string]types.Type
	iters      map[string]ssa.Value
}

func newExec(u *Unit, p *Prog, fn *ssa.Function, con *Contract) *Exec {
	x := &Exec{badInv: map[string]bool{}, u: u, prog: p, c: newCtx(), fn: fn, con: con, heapSorts: map[string]Sort{}, typeNames: map[int]string{},
		typeByID: map[int]types.Type{}, globals: map[string]int64{}, closures: map[int64]*Closure{}, addrs: map[*T]*Addr{},
		pureUsed: map[string]bool{}, contUsed: map[string]bool{}, invUsed: map[string]bool{}, inlined: map[string]bool{},
		cands: map[string]map[string]*candidate{}, iters: map[string]ssa.Value{}, maxPaths: 6000, rename: map[string]string{}}
	x.opts = con.opts
	return x
}

func (x *Exec) on(opt string) bool { return x.opts[opt] != "" }

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	pp := x.prog.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, "/repo/"), pp.Line)
}

func (x *Exec) oblige(st *State, name, clause string, goal *T, pos token.Pos) {
	if goal == x.c.True {
		// still counted: discharged by simplification
		x.obls = append(x.obls, &Obligation{name: name, fn: funcKey(x.fn), clause: clause, goal: goal, res: solveResult{status: "unsat", solver: "simplifier"}, pos: x.posOf(pos)})
		return
	}
	x.obls = append(x.obls, &Obligation{name: name, fn: funcKey(x.fn), clause: clause, pc: append([]*T{}, st.pc...), goal: goal, trace: append([]string{}, st.trace...), pos: x.posOf(pos)})
}

func (x *Exec) failObl(st *State, name, reason string, pos token.Pos) {
	o := &Obligation{name: name, fn: funcKey(x.fn), reason: reason, pos: x.posOf(pos)}
	if st != nil {
		o.trace = append([]string{}, st.trace...)
		o.pc = append([]*T{}, st.pc...)
		o.goal = x.c.False
	}
	o.res = solveResult{status: "unsupported", output: reason}
	x.obls = append(x.obls, o)
}

// feasible prunes provably dead paths.
func (x *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	r := !x.pr.unsat(x.c, st.pc)
	if !r && os.Getenv("VC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "dead path", funcKey(x.fn), st.trace)
		for _, p := range st.pc {
			fmt.Fprintln(os.Stderr, "    ", p)
		}
	}
	return r
}

// run drives the worklist.
func (x *Exec) run(st *State) {
	x.work = append(x.work, st)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runPath(s)
		if x.paths > x.maxPaths {
			x.failObl(s, "paths", fmt.Sprintf("more than %d paths", x.maxPaths), x.fn.Pos())
			return
		}
	}
}

func (x *Exec) runPath(st *State) {
	x.paths++
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				var pos token.Pos
				fr := ""
				if len(st.frames) > 0 {
					f := st.top()
					fr = funcKey(f.fn)
					if f.block != nil {
						i := f.pc
						if i >= len(f.block.Instrs) {
							i = len(f.block.Instrs) - 1
						}
						pos = f.block.Instrs[i].Pos()
						for !pos.IsValid() && i > 0 {
							i--
							pos = f.block.Instrs[i].Pos()
						}
					}
				}
				x.failObl(st, "supported/"+fr, u.msg, pos)
				return
			}
			panic(r)
		}
	}()
	for !st.dead && len(st.frames) > 0 {
		x.steps++
		if x.steps > 3_000_000 {
			unsup("step limit")
		}
		fr := st.top()
		if fr.block == nil {
			unsup("no body: %s", fr.fn)
		}
		if fr.pc >= len(fr.block.Instrs) {
			unsup("fell off block")
		}
		if fr.fn == x.fn {
			if x.visited == nil {
				x.visited = map[*ssa.BasicBlock]bool{}
			}
			x.visited[fr.block] = true
		}
		ins := fr.block.Instrs[fr.pc]
		if !x.step(st, fr, ins) {
			return
		}
	}
}

func (x *Exec) fork(st *State, conds ...*T) []*State {
	var out []*State
	for i, g := range conds {
		if g == x.c.False {
			continue
		}
		var s *State
		if i == len(conds)-1 {
			s = st
		} else {
			s = st.clone()
		}
		s.assume(g)
		if s.dead {
			continue
		}
		out = append(out, s)
	}
	return out
}

// branch asks the pruner only when the condition is not already decided.
func (x *Exec) decide(st *State, g *T) (canT, canF bool) {
	if g == x.c.True || st.pcset[g] {
		return true, false
	}
	ng := x.c.Not(g)
	if g == x.c.False || st.pcset[ng] {
		return false, true
	}
	canT = !x.pr.unsat(x.c, append(append([]*T{}, st.pc...), g))
	if !canT {
		if os.Getenv("VC_DEBUG") == "2" {
			fmt.Fprintln(os.Stderr, "dead branch", funcKey(x.fn), st.trace, g)
			for _, p := range st.pc {
				fmt.Fprintln(os.Stderr, "    ", p)
			}
		}
		return false, true
	}
	canF = !x.pr.unsat(x.c, append(append([]*T{}, st.pc...), ng))
	return
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		return x.globalAddr(v)
	case *ssa.Builtin:
		return v
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	unsup("unbound value %s (%T) in %s", v.Name(), v, fr.fn)
	return nil
}

func (x *Exec) globalAddr(g *ssa.Global) Val {
	key := "G:" + shortPkg(g.Pkg.Pkg) + "." + g.Name()
	et := g.Type().(*types.Pointer).Elem()
	if isStruct(et) || isArray(et) {
		return x.globalID("&" + key)
	}
	return &Addr{kind: "global", key: key, typ: et}
}

func (x *Exec) constVal(v *ssa.Const) Val {
	t := v.Type()
	if v.Value == nil {
		return x.zero(t)
	}
	if isTypeParam(t) {
		unsup("constant of type parameter")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.c.Bool(constant.BoolVal(v.Value))
		case u.Info()&types.IsString != 0:
			return x.c.Str(constant.StringVal(v.Value))
		case u.Info()&types.IsInteger != 0:
			s := constant.ToInt(v.Value).ExactString()
			b, ok := new(big.Int).SetString(s, 10)
			if !ok {
				unsup("constant %s", s)
			}
			return x.c.Big(b)
		default:
			return x.c.App("const:"+v.Value.ExactString(), SInt)
		}
	}
	unsup("constant %s of %s", v, t)
	return nil
}

func (x *Exec) term(st *State, fr *Frame, v ssa.Value) *T {
	r := x.val(st, fr, v)
	t, ok := r.(*T)
	if !ok {
		ls := x.flatten(r)
		if len(ls) == 1 {
			return ls[0]
		}
		unsup("term expected for %s, got %T", v, r)
	}
	return t
}

// jump enters block b from the current block, handling loop cuts.
func (x *Exec) jump(st *State, fr *Frame, to *ssa.BasicBlock) bool {
	from := fr.block
	var pi int = -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	// parallel phi evaluation
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	vals := make([]Val, len(phis))
	for i, p := range phis {
		vals[i] = x.val(st, fr, p.Edges[pi])
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
		if p.Comment != "" {
			fr.names[p.Comment] = nameBinding{vals[i], p.Type(), cellPhi(p)}
		}
	}
	fr.prev = from
	fr.block = to
	fr.pc = len(phis)
	li := x.prog.loopsOf(fr.fn)
	if l := li.byHeader[to]; l != nil {
		return x.atLoop(st, fr, l, l.body[from], phis)
	}
	return true
}

func (x *Exec) step(st *State, fr *Frame, ins ssa.Instruction) bool {
	c := x.c
	switch i := ins.(type) {
	case *ssa.DebugRef:
		if id, ok := i.Expr.(interface{ String() string }); ok && id != nil {
			if obj := i.Object(); obj != nil {
				if _, isVar := obj.(*types.Var); isVar {
					if v, ok := fr.env[i.X]; ok && (i.IsAddr || !allocated(fr.fn, obj.Pos())) {
						fr.names[obj.Name()] = nameBinding{v, i.X.Type(), i.IsAddr}
					}
				}
			}
		}
		fr.pc++
		return true
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		r := x.newObj(st)
		fr.env[i] = r
		if i.Comment != "" && !strings.Contains(i.Comment, " ") {
			fr.names[i.Comment] = nameBinding{r, i.Type(), true}
		}
		x.storeAt(st, et, r, x.zero(et))
	case *ssa.BinOp:
		fr.env[i] = x.binop(st, i.Op, x.val(st, fr, i.X), x.val(st, fr, i.Y), i.X.Type(), i.Y.Type(), i.Type(), i.Pos())
	case *ssa.UnOp:
		if !x.unop(st, fr, i) {
			return false
		}
	case *ssa.Phi:
		unsup("stray phi")
	case *ssa.ChangeType:
		fr.env[i] = x.val(st, fr, i.X)
	case *ssa.ChangeInterface:
		fr.env[i] = x.val(st, fr, i.X)
	case *ssa.Convert:
		fr.env[i] = x.convert(st, x.val(st, fr, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.MakeInterface:
		fr.env[i] = x.makeIface(st, i.X.Type(), x.val(st, fr, i.X))
	case *ssa.MakeClosure:
		cl := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			cl.binds = append(cl.binds, x.val(st, fr, b))
		}
		fr.env[i] = cl
	case *ssa.MakeMap:
		r := x.newObj(st)
		mk, m := mapKey(i.Type())
		ks := x.mapKeySort(m)
		dk := "MD:" + mk
		dh := x.heap(st, dk, arr(SInt, arr(ks, SBool)))
		x.setHeap(st, dk, c.Store(dh, r, c.ConstArr(arr(ks, SBool), c.False)))
		lk := "ML:" + mk
		x.setHeap(st, lk, c.Store(x.heap(st, lk, arr(SInt, SInt)), r, c.Int(0)))
		for _, l := range leaves(m.Elem()) {
			k := "MV:" + mk + l.path
			h := x.heap(st, k, arr(SInt, arr(ks, l.sort)))
			x.setHeap(st, k, c.Store(h, r, c.ConstArr(arr(ks, l.sort), x.zeroLeaf(l.sort))))
		}
		fr.env[i] = r
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		n := x.term(st, fr, i.Len)
		cp := x.term(st, fr, i.Cap)
		x.check(st, "panic/makeslice", c.And(c.Le(c.Int(0), n), c.Le(n, cp), c.Le(cp, c.Big(maxInt))), i.Pos())
		fr.env[i] = x.makeSlice(st, et, n, cp)
	case *ssa.FieldAddr:
		v, ok := x.fieldAddr(st, x.val(st, fr, i.X), i.X.Type(), i.Field, i.Pos())
		if !ok {
			return false
		}
		fr.env[i] = v
	case *ssa.Field:
		sv, ok := x.val(st, fr, i.X).(*StructV)
		if !ok {
			unsup("field of %T", x.val(st, fr, i.X))
		}
		fr.env[i] = sv.fields[i.Field]
	case *ssa.IndexAddr:
		fr.env[i] = x.indexAddr(st, x.val(st, fr, i.X), i.X.Type(), x.term(st, fr, i.Index), i.Pos())
	case *ssa.Index:
		xv := x.val(st, fr, i.X)
		idx := x.term(st, fr, i.Index)
		switch w := xv.(type) {
		case *T: // string
			x.check(st, "panic/index", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.StrLen(w))), i.Pos())
			r := c.Op("str.to_code", SInt, c.Op("str.at", SStr, w, idx))
			st.assume(c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(255))))
			x.byteRead(st, r)
			fr.env[i] = r
		case *ArrV:
			x.check(st, "panic/index", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(w.typ.Len()))), i.Pos())
			var ls []*T
			for _, l := range w.leaves {
				ls = append(ls, c.Select(l, idx))
			}
			v := x.unflatten(w.typ.Elem(), ls)
			x.assumeTyped(st, w.typ.Elem(), v)
			fr.env[i] = v
		default:
			unsup("index of %T", xv)
		}
	case *ssa.Lookup:
		xv := x.val(st, fr, i.X)
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			w := xv.(*T)
			idx := x.term(st, fr, i.Index)
			x.check(st, "panic/index", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.StrLen(w))), i.Pos())
			r := c.Op("str.to_code", SInt, c.Op("str.at", SStr, w, idx))
			st.assume(c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(255))))
			x.byteRead(st, r)
			fr.env[i] = r
			break
		}
		ref := xv.(*T)
		k := x.val(st, fr, i.Index)
		m := i.X.Type().Underlying().(*types.Map)
		has := x.mapHas(st, i.X.Type(), ref, k)
		v := x.mapGet(st, i.X.Type(), ref, k)
		// absent keys read as zero
		vl := x.flatten(v)
		zl := x.flatten(x.zero(m.Elem()))
		var ls []*T
		for j := range vl {
			ls = append(ls, c.Ite(has, vl[j], zl[j]))
		}
		res := x.unflatten(m.Elem(), ls)
		if i.CommaOk {
			fr.env[i] = TupleV{res, has}
		} else {
			fr.env[i] = res
		}
	case *ssa.Slice:
		fr.env[i] = x.slice(st, fr, i)
	case *ssa.Store:
		addr := x.val(st, fr, i.Addr)
		x.checkNonNil(st, addr, i.Pos())
		x.store(st, addr, i.Addr.Type().Underlying().(*types.Pointer).Elem(), x.val(st, fr, i.Val))
	case *ssa.MapUpdate:
		ref := x.term(st, fr, i.Map)
		x.check(st, "panic/nilmap", c.Not(c.Eq(ref, c.Int(0))), i.Pos())
		x.mapSet(st, i.Map.Type(), ref, x.val(st, fr, i.Key), x.val(st, fr, i.Value))
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, i)
	case *ssa.Extract:
		tv, ok := x.val(st, fr, i.Tuple).(TupleV)
		if !ok {
			unsup("extract from %T", x.val(st, fr, i.Tuple))
		}
		fr.env[i] = tv[i.Index]
	case *ssa.Range:
		it := &IterV{x: x.val(st, fr, i.X), typ: i.X.Type()}
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			it.id = iterGhost(i)
			x.iters[it.id] = i
			st.ghosts[it.id] = x.c.Int(0)
		}
		fr.env[i] = it
	case *ssa.Next:
		x.next(st, fr, i)
	case *ssa.If:
		g := x.term(st, fr, i.Cond)
		canT, canF := x.decide(st, g)
		switch {
		case canT && canF:
			s2 := st.clone()
			s2.assume(c.Not(g))
			s2.trace = append(s2.trace, x.posOf(condPos(i))+" false")
			if !s2.dead {
				if x.jump(s2, s2.top(), fr.block.Succs[1]) {
					x.work = append(x.work, s2)
				}
			}
			st.assume(g)
			st.trace = append(st.trace, x.posOf(condPos(i))+" true")
			return !st.dead && x.jump(st, fr, fr.block.Succs[0])
		case canT:
			st.assume(g)
			return x.jump(st, fr, fr.block.Succs[0])
		default:
			st.assume(c.Not(g))
			return !st.dead && x.jump(st, fr, fr.block.Succs[1])
		}
	case *ssa.Jump:
		return x.jump(st, fr, fr.block.Succs[0])
	case *ssa.Panic:
		if x.on("safe") {
			x.oblige(st, "panic/explicit", "no explicit panic", c.False, i.Pos())
		}
		return false
	case *ssa.Return:
		var res []Val
		for _, r := range i.Results {
			res = append(res, x.val(st, fr, r))
		}
		return x.ret(st, fr, res, i.Pos())
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			// stay on this instruction until all are run
			return x.call(st, fr, d.call, d.fn, d.args, nil, d.pos, true)
		}
	case *ssa.Defer:
		fn, args := x.callOperands(st, fr, &i.Call)
		fr.defers = append(fr.defers, deferred{&i.Call, fn, args, i.Pos()})
	case *ssa.Call:
		fn, args := x.callOperands(st, fr, &i.Call)
		return x.call(st, fr, &i.Call, fn, args, i, i.Pos(), false)
	case *ssa.Go:
		if x.u.consts["go"] == "ignore" || x.on("ignorego") {
			x.pureUsed["go statement (spawned body not analysed)"] = true
			break
		}
		unsup("go statement")
	default:
		unsup("instruction %T: %s", ins, ins)
	}
	fr.pc++
	return !st.dead
}

// allocated: the variable declared at pos lives in memory, and is named by its cell.
func allocated(fn *ssa.Function, pos token.Pos) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok && a.Comment != "" && a.Pos() == pos && pos.IsValid() {
				return true
			}
		}
	}
	return false
}

func condPos(i *ssa.If) token.Pos {
	if p := i.Cond.Pos(); p.IsValid() {
		return p
	}
	for k := len(i.Block().Instrs) - 1; k >= 0; k-- {
		if p := i.Block().Instrs[k].Pos(); p.IsValid() {
			return p
		}
	}
	return i.Pos()
}

func (x *Exec) ret(st *State, fr *Frame, res []Val, pos token.Pos) bool {
	if len(st.frames) == 1 {
		x.finish(st, fr, res, pos)
		return false
	}
	if fr.trial {
		return false
	}
	if fr.rng != nil {
		return x.rangeRet(st, fr.rng, res[0].(*T))
	}
	if fr.onRet != nil {
		fr.onRet(x, st, res)
	}
	st.frames = st.frames[:len(st.frames)-1]
	caller := st.top()
	if fr.retDef {
		return true // re-executes RunDefers
	}
	if fr.retTo != nil {
		caller.env[fr.retTo] = packResults(res)
	}
	caller.pc++
	return true
}

func packResults(res []Val) Val {
	if len(res) == 1 {
		return res[0]
	}
	return TupleV(res)
}

// check assumes g after (optionally) obliging it.
func (x *Exec) check(st *State, name string, g *T, pos token.Pos) {
	if g == x.c.True {
		return
	}
	if x.on("safe") {
		x.oblige(st, name, "no run-time panic", g, pos)
	}
	st.assume(g)
}

func (x *Exec) checkNonNil(st *State, p Val, pos token.Pos) {
	if t, ok := p.(*T); ok {
		if t.i != nil && t.i.Sign() != 0 {
			return
		}
		x.check(st, "panic/nil", x.c.Not(x.c.Eq(t, x.c.Int(0))), pos)
	}
}

func (x *Exec) makeSlice(st *State, et types.Type, n, cp *T) *SliceV {
	c := x.c
	r := x.newObj(st)
	for _, l := range leaves(et) {
		k := "E:" + typeKey(et) + l.path
		h := x.heap(st, k, arr(SInt, arr(SInt, l.sort)))
		x.setHeap(st, k, c.Store(h, r, c.ConstArr(arr(SInt, l.sort), x.zeroLeaf(l.sort))))
	}
	return &SliceV{r, c.Int(0), n, cp}
}

func (x *Exec) fieldAddr(st *State, p Val, pt types.Type, field int, pos token.Pos) (Val, bool) {
	S := pt.Underlying().(*types.Pointer).Elem()
	u := S.Underlying().(*types.Struct)
	ft := u.Field(field).Type()
	switch p := p.(type) {
	case *T:
		x.checkNonNil(st, p, pos)
		if st.dead {
			return nil, false
		}
		fk := x.fieldKey(S, field)
		if isStruct(ft) || isArray(ft) {
			return x.subRef(st, fk, p), true
		}
		return &Addr{kind: "field", key: "F:" + fk, ref: p, typ: ft}, true
	case *Addr:
		if p.kind == "elem" {
			return &Addr{kind: "elem", ref: p.ref, idx: p.idx, typ: p.typ, path: p.path + "." + u.Field(field).Name()}, true
		}
	}
	unsup("field address of %T", p)
	return nil, false
}

func (x *Exec) indexAddr(st *State, v Val, t types.Type, idx *T, pos token.Pos) Val {
	c := x.c
	switch w := v.(type) {
	case *SliceV:
		et := t.Underlying().(*types.Slice).Elem()
		x.check(st, "panic/index", c.And(c.Le(c.Int(0), idx), c.Lt(idx, w.l)), pos)
		return &Addr{kind: "elem", ref: w.r, idx: c.Add(w.o, idx), typ: et}
	case *T:
		a := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.check(st, "panic/index", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(a.Len()))), pos)
		return &Addr{kind: "elem", ref: w, idx: idx, typ: a.Elem()}
	}
	unsup("index address of %T", v)
	return nil
}

func (x *Exec) slice(st *State, fr *Frame, i *ssa.Slice) Val {
	c := x.c
	v := x.val(st, fr, i.X)
	opt := func(a ssa.Value) *T {
		if a == nil {
			return nil
		}
		return x.term(st, fr, a)
	}
	lo, hi, mx := opt(i.Low), opt(i.High), opt(i.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := v.(*T)
		if hi == nil {
			hi = c.StrLen(s)
		}
		x.check(st, "panic/slice", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.StrLen(s))), i.Pos())
		return c.Op("str.substr", SStr, s, lo, c.Sub(hi, lo))
	}
	var sv *SliceV
	switch w := v.(type) {
	case *SliceV:
		sv = w
	case *T:
		a := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := c.Int(a.Len())
		sv = &SliceV{w, c.Int(0), n, n}
	default:
		unsup("slice of %T", v)
	}
	if hi == nil {
		hi = sv.l
	}
	cp := sv.c
	if mx == nil {
		mx = cp
	}
	x.check(st, "panic/slice", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, cp)), i.Pos())
	return &SliceV{sv.r, c.Add(sv.o, lo), c.Sub(hi, lo), c.Sub(mx, lo)}
}

func (x *Exec) unop(st *State, fr *Frame, i *ssa.UnOp) bool {
	c := x.c
	switch i.Op {
	case token.MUL:
		p := x.val(st, fr, i.X)
		x.checkNonNil(st, p, i.Pos())
		fr.env[i] = x.load(st, p, i.X.Type().Underlying().(*types.Pointer).Elem())
		if t, ok := fr.env[i].(*T); ok {
			x.byteRead(st, t)
		}
	case token.NOT:
		fr.env[i] = c.Not(x.term(st, fr, i.X))
	case token.SUB:
		fr.env[i] = x.wrap(st, c.Neg(x.term(st, fr, i.X)), i.Type(), i.Pos())
	case token.XOR:
		// ^x = -x-1 (signed) or max-x (unsigned)
		b := i.Type().Underlying().(*types.Basic)
		v := x.term(st, fr, i.X)
		if b.Info()&types.IsUnsigned != 0 {
			_, hi, _ := intRange(b)
			fr.env[i] = c.Sub(c.Big(hi), v)
		} else {
			fr.env[i] = c.Sub(c.Neg(v), c.Int(1))
		}
	default:
		unsup("unary %s", i.Op)
	}
	return true
}

// byteRead adds what a read of one byte of a string says about the digits before it.
func (x *Exec) byteRead(st *State, r *T) {
	c := x.c
	if !specDigits || r.op != "op" || r.lit != "str.to_code" || r.args[0].lit != "str.at" {
		return
	}
	s, pos := r.args[0].args[0], r.args[0].args[1]
	pre := func(n *T) *T { return x.strPred("digits", c.Op("str.substr", SStr, s, c.Int(0), n)) }
	in := c.And(c.Le(c.Int(0), pos), c.Lt(pos, c.StrLen(s)))
	st.assume(c.Imp(in, c.Eq(pre(c.Add(pos, c.Int(1))), c.And(pre(pos), c.Le(c.Int(48), r), c.Le(r, c.Int(57))))))
	st.assume(c.Imp(c.And(in, x.strPred("digits", s)), pre(c.Add(pos, c.Int(1)))))
	st.assume(pre(c.Int(0)))
}

// wrap brings an arithmetic result into the range of t. The default treats
// the operation as mathematical and reports it; "exact" functions get the
// machine semantics; "nooverflow" functions must prove there is no overflow.
func (x *Exec) wrap(st *State, r *T, t types.Type, pos token.Pos) *T {
	c := x.c
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return r
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return r
	}
	if r.i != nil {
		if r.i.Cmp(lo) >= 0 && r.i.Cmp(hi) <= 0 {
			return r
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		v := new(big.Int).Sub(r.i, lo)
		v.Mod(v, m)
		return c.Big(v.Add(v, lo))
	}
	in := c.And(c.Le(c.Big(lo), r), c.Le(r, c.Big(hi)))
	if x.on("nooverflow") {
		x.oblige(st, "overflow", "no integer overflow", in, pos)
		st.assume(in)
		return r
	}
	if x.on("exact") {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		M := c.Big(m)
		return c.Ite(in, r, c.Add(c.Mod(c.Sub(r, c.Big(lo)), M), c.Big(lo)))
	}
	if b.Info()&types.IsUnsigned != 0 {
		m := new(big.Int).Add(hi, big.NewInt(1))
		return c.Ite(in, r, c.Mod(r, c.Big(m)))
	}
	x.pureUsed["machine integers treated as mathematical (no wrap-around) in "+funcKey(x.fn)] = true
	return r
}

func (x *Exec) eqVals(st *State, a, b Val, at, bt types.Type) *T {
	c := x.c
	switch v := a.(type) {
	case *IfaceV:
		switch w := b.(type) {
		case *IfaceV:
			if v.t == c.Int(0) {
				return c.Eq(w.t, c.Int(0))
			}
			if w.t == c.Int(0) {
				return c.Eq(v.t, c.Int(0))
			}
			return c.And(c.Eq(v.t, w.t), c.Eq(v.d, w.d))
		default:
			return x.eqVals(st, a, x.makeIface(st, bt, b), at, at)
		}
	case *SliceV:
		w, ok := b.(*SliceV)
		if !ok {
			break
		}
		if w.r == c.Int(0) {
			return c.Eq(v.r, c.Int(0))
		}
		if v.r == c.Int(0) {
			return c.Eq(w.r, c.Int(0))
		}
		unsup("slice comparison")
	}
	if _, ok := b.(*IfaceV); ok {
		return x.eqVals(st, x.makeIface(st, at, a), b, bt, bt)
	}
	fa, fb := x.flatten(a), x.flatten(b)
	if len(fa) != len(fb) {
		unsup("comparison of %T and %T", a, b)
	}
	r := c.True
	for i := range fa {
		r = c.And(r, c.Eq(fa[i], fb[i]))
	}
	return r
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, at, bt, rt types.Type, pos token.Pos) Val {
	c := x.c
	switch op {
	case token.EQL:
		return x.eqVals(st, a, b, at, bt)
	case token.NEQ:
		return c.Not(x.eqVals(st, a, b, at, bt))
	}
	p, ok1 := a.(*T)
	q, ok2 := b.(*T)
	if !ok1 || !ok2 {
		unsup("binop %s on %T, %T", op, a, b)
	}
	if p.sort == SStr {
		switch op {
		case token.ADD:
			return c.Concat(p, q)
		case token.LSS:
			return c.Op("str.<", SBool, p, q)
		case token.LEQ:
			return c.Op("str.<=", SBool, p, q)
		case token.GTR:
			return c.Op("str.<", SBool, q, p)
		case token.GEQ:
			return c.Op("str.<=", SBool, q, p)
		}
	}
	if bas, ok := at.Underlying().(*types.Basic); ok && !isTypeParam(at) && bas.Info()&types.IsFloat != 0 {
		if rt.Underlying().(*types.Basic).Info()&types.IsBoolean != 0 {
			return c.App("fcmp:"+op.String(), SBool, p, q)
		}
		return c.App("fop:"+op.String(), SInt, p, q)
	}
	switch op {
	case token.LSS:
		return c.Lt(p, q)
	case token.LEQ:
		return c.Le(p, q)
	case token.GTR:
		return c.Lt(q, p)
	case token.GEQ:
		return c.Le(q, p)
	case token.ADD:
		return x.wrap(st, c.Add(p, q), rt, pos)
	case token.SUB:
		return x.wrap(st, c.Sub(p, q), rt, pos)
	case token.MUL:
		return x.wrap(st, c.Mul(p, q), rt, pos)
	case token.QUO:
		x.check(st, "panic/div", c.Not(c.Eq(q, c.Int(0))), pos)
		// truncated division
		return x.wrap(st, x.tdiv(p, q), rt, pos)
	case token.REM:
		x.check(st, "panic/div", c.Not(c.Eq(q, c.Int(0))), pos)
		return c.Sub(p, c.Mul(q, x.tdiv(p, q)))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(st, op, p, q, rt)
	case token.SHL:
		if q.i != nil && q.i.Sign() >= 0 && q.i.Int64() < 64 {
			return x.wrap(st, c.Mul(p, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(q.i.Int64())))), rt, pos)
		}
		return x.typedApp(st, "shl", rt, p, q)
	case token.SHR:
		if q.i != nil && q.i.Sign() >= 0 && q.i.Int64() < 64 {
			return c.Div(p, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(q.i.Int64()))))
		}
		return x.typedApp(st, "shr", rt, p, q)
	}
	unsup("binop %s", op)
	return nil
}

func (x *Exec) tdiv(p, q *T) *T {
	c := x.c
	if q.i != nil && q.i.Sign() > 0 {
		if p.op == "str.len" {
			return c.Div(p, q)
		}
		return c.Ite(c.Le(c.Int(0), p), c.Div(p, q), c.Neg(c.Div(c.Neg(p), q)))
	}
	// general: sign handling
	absp := c.Ite(c.Le(c.Int(0), p), p, c.Neg(p))
	absq := c.Ite(c.Le(c.Int(0), q), q, c.Neg(q))
	d := c.Div(absp, absq)
	same := c.Eq(c.Le(c.Int(0), p), c.Le(c.Int(0), q))
	return c.Ite(same, d, c.Neg(d))
}

func (x *Exec) typedApp(st *State, name string, t types.Type, args ...*T) *T {
	r := x.c.App(name, SInt, args...)
	x.assumeTyped(st, t, r)
	return r
}

// bitop models bit operations with a constant operand exactly (as div/mod
// over the set bits' runs) and is uninterpreted otherwise.
func (x *Exec) bitop(st *State, op token.Token, p, q *T, rt types.Type) *T {
	c := x.c
	if p.sort == SBool {
		switch op {
		case token.AND:
			return c.And(p, q)
		case token.OR:
			return c.Or(p, q)
		}
	}
	if p.i != nil && q.i != nil {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(p.i, q.i)
		case token.OR:
			r.Or(p.i, q.i)
		case token.XOR:
			r.Xor(p.i, q.i)
		case token.AND_NOT:
			r.AndNot(p.i, q.i)
		}
		return c.Big(r)
	}
	if p.i != nil && op != token.AND_NOT {
		p, q = q, p
	}
	if q.i != nil && q.i.Sign() >= 0 {
		and := x.andConst(p, q.i)
		switch op {
		case token.AND:
			return and
		case token.AND_NOT:
			return c.Sub(p, and)
		case token.OR:
			return c.Add(p, c.Sub(q, and))
		case token.XOR:
			return c.Sub(c.Add(p, q), c.Mul(and, c.Int(2)))
		}
	}
	if q.i != nil && q.i.Sign() < 0 { // negative mask: p & ^m = p &^ m
		m := new(big.Int).Not(q.i)
		and := x.andConst(p, m)
		switch op {
		case token.AND:
			return c.Sub(p, and)
		case token.AND_NOT:
			return and
		}
	}
	var r *T
	switch op {
	case token.AND:
		r = x.and2(p, q)
	case token.AND_NOT:
		if p.i != nil {
			// const &^ q = const - (q & const)
			r = c.Sub(p, x.andConst(q, p.i))
		} else {
			a := x.and2(p, q)
			x.bitFacts(st, a, p, q)
			r = c.Sub(p, a)
		}
	case token.OR:
		a := x.and2(p, q)
		x.bitFacts(st, a, p, q)
		r = c.Sub(c.Add(p, q), a)
	case token.XOR:
		a := x.and2(p, q)
		x.bitFacts(st, a, p, q)
		r = c.Sub(c.Add(p, q), c.Mul(a, c.Int(2)))
	}
	if op == token.AND {
		x.bitFacts(st, r, p, q)
	}
	x.assumeTyped(st, rt, r)
	return r
}

func (x *Exec) and2(p, q *T) *T {
	if p.id > q.id {
		p, q = q, p
	}
	return x.c.App("bvand", SInt, p, q)
}

func (x *Exec) bitFacts(st *State, a, p, q *T) {
	c := x.c
	z := c.Int(0)
	st.assume(c.Imp(c.And(c.Le(z, p), c.Le(z, q)), c.And(c.Le(z, a), c.Le(a, p), c.Le(a, q))))
}

func (x *Exec) andConst(p *T, m *big.Int) *T {
	c := x.c
	if p.op == "ite" && p.size < 200 {
		return c.Ite(p.args[0], x.andConst(p.args[1], m), x.andConst(p.args[2], m))
	}
	if p.i != nil {
		return c.Big(new(big.Int).And(p.i, m))
	}
	r := c.Int(0)
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		pow := func(k int) *T { return c.Big(new(big.Int).Lsh(big.NewInt(1), uint(k))) }
		part := p
		if i > 0 {
			part = c.Div(p, pow(i))
		}
		r = c.Add(r, c.Mul(c.Mod(part, pow(j-i)), pow(i)))
		i = j
	}
	return r
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	c := x.c
	if isTypeParam(from) || isTypeParam(to) {
		unsup("conversion with type parameters")
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		r := v.(*T)
		flo, fhi, _ := intRange(fb)
		lo, hi, _ := intRange(tb)
		if flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
			return r
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		if r.i != nil {
			q := new(big.Int).Sub(r.i, lo)
			q.Mod(q, m)
			return c.Big(q.Add(q, lo))
		}
		in := c.And(c.Le(c.Big(lo), r), c.Le(r, c.Big(hi)))
		return c.Ite(in, r, c.Add(c.Mod(c.Sub(r, c.Big(lo)), c.Big(m)), c.Big(lo)))
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		r := v.(*T)
		s := c.App("runestr", SStr, r)
		if r.i != nil && r.i.Sign() >= 0 && r.i.Int64() < 128 {
			return c.Str(string(rune(r.i.Int64())))
		}
		return s
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fok && fb.Info()&types.IsString != 0:
		if s, ok := tu.(*types.Slice); ok {
			str := v.(*T)
			n := c.StrLen(str)
			if typeKey(s.Elem()) == "int32" {
				n = c.Fresh("runelen", SInt)
				st.assume(c.And(c.Le(c.Int(0), n), c.Le(n, c.StrLen(str))))
			}
			sl := x.makeSlice(st, s.Elem(), n, n)
			if typeKey(s.Elem()) == "uint8" {
				row := c.App("strbytes", arr(SInt, SInt), str)
				h := x.heap(st, "E:uint8", arr(SInt, arr(SInt, SInt)))
				x.setHeap(st, "E:uint8", c.Store(h, sl.r, row))
				st.assume(c.Eq(c.App("bytestr", SStr, row, c.Int(0), n), str))
			}
			return sl
		}
	case tok && tb.Info()&types.IsString != 0:
		if s, ok := v.(*SliceV); ok {
			h := x.heap(st, "E:uint8", arr(SInt, arr(SInt, SInt)))
			str := c.App("bytestr", SStr, c.Select(h, s.r), s.o, s.l)
			st.assume(c.Eq(c.StrLen(str), s.l))
			return str
		}
	case fok && tok:
		return c.App("fconv:"+fb.Name()+":"+tb.Name(), leaves(to)[0].sort, x.flatten(v)...)
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func (x *Exec) makeIface(st *State, t types.Type, v Val) *IfaceV {
	if iv, ok := v.(*IfaceV); ok {
		return iv
	}
	tid := x.typeID(t)
	x.typeByID[int(tid.i.Int64())] = t
	if _, ok := t.Underlying().(*types.Pointer); ok {
		switch w := v.(type) {
		case *T:
			return &IfaceV{tid, w}
		case *Addr:
			return &IfaceV{tid, x.addrTerm(w)}
		}
	}
	return x.box(st, t, v)
}

func (x *Exec) implements(st *State, tid *T, it types.Type) *T {
	c := x.c
	iface, ok := it.Underlying().(*types.Interface)
	if isTypeParam(it) {
		return c.App("impl:typeparam", SBool, tid)
	}
	if ok && iface.NumMethods() == 0 {
		return c.Not(c.Eq(tid, c.Int(0)))
	}
	if tid.i != nil {
		if tid.i.Sign() == 0 {
			return c.False
		}
		if t, ok := x.typeByID[int(tid.i.Int64())]; ok {
			return c.Bool(types.Implements(t, iface))
		}
	}
	r := c.App("impl:"+typeKey(it), SBool, tid)
	st.assume(c.Imp(r, c.Not(c.Eq(tid, c.Int(0)))))
	return r
}

func (x *Exec) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) bool {
	c := x.c
	v, ok := x.val(st, fr, i.X).(*IfaceV)
	if !ok {
		unsup("type assert on %T", x.val(st, fr, i.X))
	}
	var g *T
	var res Val
	if isIface(i.AssertedType) {
		g = x.implements(st, v.t, i.AssertedType)
		res = v
	} else {
		g = c.Eq(v.t, x.typeID(i.AssertedType))
		x.typeByID[int(x.typeID(i.AssertedType).i.Int64())] = i.AssertedType
	}
	if !i.CommaOk {
		x.check(st, "panic/typeassert", g, i.Pos())
		if res == nil {
			res = x.unbox(st, i.AssertedType, v.d)
		}
		fr.env[i] = res
		fr.pc++
		return !st.dead
	}
	canT, canF := x.decide(st, g)
	do := func(s *State, ok bool) {
		f := s.top()
		if ok {
			s.assume(g)
			r := res
			if r == nil {
				r = x.unbox(s, i.AssertedType, v.d)
				// fix the type tag for later devirtualisation
			}
			f.env[i] = TupleV{r, c.True}
		} else {
			s.assume(c.Not(g))
			f.env[i] = TupleV{x.zero(i.AssertedType), c.False}
		}
		f.pc++
	}
	if canT && canF {
		s2 := st.clone()
		do(s2, false)
		if !s2.dead {
			x.work = append(x.work, s2)
		}
		do(st, true)
		return !st.dead
	}
	do(st, canT)
	return !st.dead
}

func (x *Exec) next(st *State, fr *Frame, i *ssa.Next) {
	c := x.c
	it := x.val(st, fr, i.Iter).(*IterV)
	ok := c.Fresh("more", SBool)
	if i.IsString {
		// one UTF-8 sequence at the iterator's position
		s := it.x.(*T)
		pos := st.ghosts[it.id]
		r := c.Fresh("rune", SInt)
		w := c.Fresh("width", SInt)
		b := c.Op("str.to_code", SInt, c.Op("str.at", SStr, s, pos))
		st.assume(c.And(c.Le(c.Int(0), pos), c.Le(pos, c.StrLen(s))))
		st.assume(c.Eq(ok, c.Lt(pos, c.StrLen(s))))
		st.assume(c.Imp(ok, c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(0x10ffff)), c.Le(c.Int(1), w), c.Le(w, c.Int(4)), c.Le(c.Add(pos, w), c.StrLen(s)))))
		st.assume(c.Imp(ok, c.Ite(c.Lt(b, c.Int(128)), c.And(c.Eq(r, b), c.Eq(w, c.Int(1))), c.Le(c.Int(128), r))))
		st.ghosts[it.id] = c.Ite(ok, c.Add(pos, w), pos)
		if specDigits {
			// a theorem about strings the solvers do not find by themselves: the
			// prefix one byte longer consists of digits iff the prefix does and the byte is one
			pre := func(n *T) *T { return x.strPred("digits", c.Op("str.substr", SStr, s, c.Int(0), n)) }
			st.assume(c.Imp(ok, c.Eq(pre(c.Add(pos, c.Int(1))), c.And(pre(pos), c.Le(c.Int(48), b), c.Le(b, c.Int(57))))))
			st.assume(c.Imp(c.Not(ok), c.Eq(pre(pos), x.strPred("digits", s))))
			st.assume(pre(c.Int(0)))
			st.assume(c.Imp(c.And(ok, x.strPred("digits", s)), pre(c.Add(pos, c.Int(1)))))
		}
		fr.env[i] = TupleV{ok, pos, r}
		return
	}
	ref := it.x.(*T)
	m := it.typ.Underlying().(*types.Map)
	k := x.freshVal(st, m.Key(), "mapkey")
	st.assume(c.Imp(ok, x.mapHas(st, it.typ, ref, k)))
	v := x.mapGet(st, it.typ, ref, k)
	if clearIdiom(x.prog, i) {
		// for k := range m { delete(m, k) } leaves no key
		ks := x.mapKeySort(m)
		st.assume(c.Imp(c.Not(ok), c.And(c.Eq(x.mapDom(st, it.typ, ref), c.ConstArr(arr(ks, SBool), c.False)), c.Eq(x.mapLen(st, it.typ, ref), c.Int(0)))))
	}
	fr.env[i] = TupleV{ok, k, v}
}

// clearIdiom recognises a loop over a map whose body only deletes the key it got.
func clearIdiom(p *Prog, nx *ssa.Next) bool {
	rg, ok := nx.Iter.(*ssa.Range)
	if !ok {
		return false
	}
	l := p.loopsOf(nx.Parent()).byHeader[nx.Block()]
	if l == nil || len(l.body) != 2 {
		return false
	}
	same := func(a, b ssa.Value) bool {
		if a == b {
			return true
		}
		ua, ok1 := a.(*ssa.UnOp)
		ub, ok2 := b.(*ssa.UnOp)
		if !ok1 || !ok2 || ua.Op != token.MUL || ub.Op != token.MUL {
			return false
		}
		if ua.X == ub.X {
			return true
		}
		fa, ok1 := ua.X.(*ssa.FieldAddr)
		fb, ok2 := ub.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.X == fb.X && fa.Field == fb.Field
	}
	found := false
	for b := range l.body {
		for _, ins := range b.Instrs {
			switch v := ins.(type) {
			case *ssa.Extract, *ssa.FieldAddr, *ssa.UnOp, *ssa.Jump, *ssa.DebugRef, *ssa.Next, *ssa.If:
			case *ssa.Call:
				bi, ok := v.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "delete" || !same(v.Call.Args[0], rg.X) {
					return false
				}
				k, ok := v.Call.Args[1].(*ssa.Extract)
				if !ok || k.Tuple != ssa.Value(nx) || k.Index != 1 {
					return false
				}
				found = true
			default:
				return false
			}
		}
	}
	return found
}

// ---- loops ----

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	index  int
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
	loops    []*loop
}

var loopMu sync.Mutex

func (p *Prog) loopsOf(fn *ssa.Function) *loopInfo {
	loopMu.Lock()
	defer loopMu.Unlock()
	if li, ok := p.loops[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
					li.loops = append(li.loops, l)
				}
				// natural loop of back edge b -> s
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[n] {
						continue
					}
					l.body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	// number loops by source position of the header
	sort.Slice(li.loops, func(i, j int) bool { return li.loops[i].header.Index < li.loops[j].header.Index })
	pos := func(l *loop) token.Pos {
		var best token.Pos
		for b := range l.body {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if p := ins.Pos(); p.IsValid() && (best == 0 || p < best) {
					best = p
				}
			}
		}
		return best
	}
	sort.SliceStable(li.loops, func(i, j int) bool { return pos(li.loops[i]) < pos(li.loops[j]) })
	for i, l := range li.loops {
		l.index = i
	}
	p.loops[fn] = li
	return li
}

func iterGhost(i *ssa.Range) string { return "@iter " + funcKey(i.Parent()) + " " + i.Name() }
