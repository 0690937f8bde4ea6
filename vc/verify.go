package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FnResult is the outcome for one function under contract.
type FnResult struct {
	key       string
	obls      []*Obligation
	paths     int
	finals    int
	unreached []string // blocks of the function no feasible path enters
	cover     string   // "sat", "unsat", "none"
	autos     []string
	rounds    int
	pure      map[string]bool
	contracts map[string]bool
	invokes   map[string]bool
	inlined   map[string]bool
	secs      float64
	pruned    int
}

type task struct {
	fn  *ssa.Function
	con *Contract
	key string
}

func newState() *State {
	return &State{Mem: &Mem{heaps: map[string]*T{}, ghosts: map[string]*T{}, touched: map[string]bool{}}, pcset: map[*T]bool{}, subs: map[string]*T{}}
}

func (x *Exec) start() (st *State, ok bool) {
	fn, con := x.fn, x.con
	st = newState()
	ok = true
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(unsupported); is {
				x.failObl(nil, funcKey(fn)+"/contract", u.msg, fn.Pos())
				ok = false
				return
			}
			panic(r)
		}
	}()
	for _, g := range x.u.ghosts {
		if x.on("entry") && g.init != nil {
			st.ghosts[g.name] = x.evalTerm(&Env{x: x, st: st, names: map[string]ev{}}, g.init)
		} else {
			st.ghosts[g.name] = x.c.Var("ghost."+g.name+"@entry", g.sort)
		}
	}
	// axioms
	for _, a := range x.u.axioms {
		x.c.axioms = append(x.c.axioms, x.evalBool(&Env{x: x, st: st, names: map[string]ev{}}, a.expr))
	}
	for _, k := range x.u.subs {
		b := x.c.BVar("sub?", SInt)
		t := x.c.App("sub:"+k, SInt, b)
		x.c.axioms = append(x.c.axioms, x.c.Forall([]*T{b}, x.c.And(x.c.Imp(x.c.Le(x.c.Int(0), b), x.c.Lt(x.c.Int(0), t)), x.c.Not(x.c.Eq(t, x.c.Int(0))), x.c.Eq(x.c.App("subinv:"+k, SInt, t), b), x.c.Eq(x.c.App("subkind", SInt, t), x.typeIDByKey("sub:"+k))), []*T{t}))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]nameBinding{}, block: fn.Blocks[0], loops: map[*ssa.BasicBlock]*loopCtx{}, binding: map[string]nameBinding{}}
	for i, p := range fn.Params {
		v := x.freshVal(st, p.Type(), "p."+p.Name())
		fr.env[p] = v
		fr.names[p.Name()] = nameBinding{v, p.Type(), false}
		if i == 0 && fn.Signature.Recv() != nil {
			if t, ok := v.(*T); ok {
				if _, isPtr := p.Type().Underlying().(*types.Pointer); isPtr && !x.on("nilrecv") {
					st.assume(x.c.Lt(x.c.Int(0), t))
				}
			}
		}
		if i < len(con.params) {
			fr.binding[con.params[i]] = nameBinding{v, p.Type(), false}
		}
		if con.kind == "verify" && i >= len(con.params) && !containsStr(con.params, p.Name()) {
			fr.binding[p.Name()] = nameBinding{v, p.Type(), false}
			if i == 0 && fn.Signature.Recv() != nil {
				fr.binding["recv"] = nameBinding{v, p.Type(), false}
			}
		}
	}
	for _, v := range fn.FreeVars {
		val := x.freshVal(st, v.Type(), "fv."+v.Name())
		if t, ok := val.(*T); ok {
			st.assume(x.c.Lt(x.c.Int(0), t))
		}
		fr.env[v] = val
		fr.names[v.Name()] = nameBinding{val, v.Type(), true}
		// in a contract a captured variable means its value at entry
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			if _, dup := fr.binding[v.Name()]; !dup && !containsStr(con.params, v.Name()) {
				fr.binding[v.Name()] = nameBinding{x.load(st, val, pt.Elem()), pt.Elem(), false}
			}
		}
	}
	if con.kind != "verify" && len(con.params) > len(fn.Params) {
		specFail("contract names %d parameters, the function has %d", len(con.params), len(fn.Params))
	}
	x.entryBind = fr.binding
	env := &Env{x: x, st: st, names: map[string]ev{}}
	for k, b := range fr.binding {
		env.names[k] = ev{b.v, b.t}
	}
	x.bindLets(con, env)
	for _, r := range con.requires {
		env.entry = true
		st.assume(x.evalBool(env, r.expr))
		env.entry = false
	}
	x.entryMem = st.Mem.clone()
	x.entryMem.touched = map[string]bool{}
	st.touched = map[string]bool{}
	fr.entry = x.entryMem
	st.frames = []*Frame{fr}
	return st, !st.dead
}

var solveLimit = 10 * time.Second

func verifyFn(u *Unit, p *Prog, t task) (res *FnResult) {
	startT := time.Now()
	res = &FnResult{key: t.key, pure: map[string]bool{}, contracts: map[string]bool{}, invokes: map[string]bool{}, inlined: map[string]bool{}}
	defer func() {
		res.secs = time.Since(startT).Seconds()
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if f, ok := r.(fatal); ok {
				msg = f.msg
			}
			if os.Getenv("VC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", t.key, r, debug.Stack())
			}
			res.obls = append(res.obls, &Obligation{name: t.key + "/supported", fn: t.key, reason: msg, res: solveResult{status: "unsupported", output: msg}})
		}
	}()
	if t.fn == nil {
		res.obls = append(res.obls, &Obligation{name: t.key + "/present", fn: t.key, reason: "no such function in the source", res: solveResult{status: "unsupported", output: "the function under contract does not exist"}})
		return
	}
	pr := newPruner()
	defer pr.close()
	cands := map[string]map[string]*candidate{}
	var x *Exec
	for round := 0; ; round++ {
		x = newExec(u, p, t.fn, t.con)
		x.pr = pr
		x.cands = cands
		st, ok := x.start()
		if ok {
			x.run(st)
		} else if len(x.obls) == 0 {
			x.failObl(nil, t.key+"/vacuous", "the precondition is contradictory", t.fn.Pos())
		}
		res.rounds = round + 1
		var co []*Obligation
		for _, o := range x.obls {
			if o.cand != nil {
				co = append(co, o)
			}
		}
		t1 := time.Since(startT).Seconds()
		dropped := solveCands(x.c, co)
		if os.Getenv("VC_TIME") != "" {
			fmt.Fprintf(os.Stderr, "%s round %d: paths explored at %.1fs, %d candidate obligations decided at %.1fs\n", t.key, round, t1, len(co), time.Since(startT).Seconds())
		}
		if !dropped || round > 12 {
			if dropped {
				x.failObl(nil, t.key+"/auto", "automatic invariants did not stabilise", t.fn.Pos())
			}
			break
		}
	}
	var real []*Obligation
	for _, o := range x.obls {
		if o.cand == nil {
			real = append(real, o)
		}
	}
	solveAll(x.c, real, solveLimit)
	if os.Getenv("VC_TIME") != "" {
		fmt.Fprintf(os.Stderr, "%s: obligations decided at %.1fs\n", t.key, time.Since(startT).Seconds())
	}
	res.obls = real
	res.paths, res.finals = x.paths, x.finalPaths
	res.pure, res.contracts, res.invokes, res.inlined = x.pureUsed, x.contUsed, x.invUsed, x.inlined
	res.pruned = pr.n
	for _, m := range cands {
		for _, cd := range m {
			if cd.alive {
				res.autos = append(res.autos, cd.fn+"/"+cd.key)
			}
		}
	}
	sort.Strings(res.autos)
	for _, b := range t.fn.Blocks {
		if x.visited[b] || b == t.fn.Recover || len(b.Preds) == 0 && b.Index != 0 {
			continue
		}
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() {
				res.unreached = append(res.unreached, x.posOf(ins.Pos()))
				break
			}
		}
	}
	if os.Getenv("VC_COVER") != "" { // development: returns no path of which is feasible
		live := map[string]string{}
		for i, pc := range x.coverPCs {
			p := x.coverPos[i]
			if live[p] == "" || live[p] == "unsat" {
				live[p] = solve(x.c, pc, 2*time.Second).status
			}
		}
		for p, s := range live {
			if s == "unsat" {
				res.unreached = append(res.unreached, "return "+p)
			}
		}
	}
	// vacuity: some return path must be satisfiable
	res.cover = "none"
	for _, pc := range x.coverPCs {
		r := solve(x.c, pc, 2*time.Second)
		if r.status != "unsat" {
			res.cover = r.status
			break
		}
		res.cover = "unsat"
	}
	if res.cover == "unsat" || res.cover == "none" && !x.on("noreturn") && !anyFailed(real) {
		res.obls = append(res.obls, &Obligation{name: t.key + "/cover", fn: t.key, reason: "no feasible path reaches a return: the contract is vacuous", res: solveResult{status: "unsupported", output: "vacuous"}})
	}
	return
}

func anyFailed(obs []*Obligation) bool {
	for _, o := range obs {
		if o.res.status != "unsat" {
			return true
		}
	}
	return false
}

// solveCands settles the automatic invariants: those of one path together first,
// then each by itself; one that is refuted on a path is not asked about again.
func solveCands(c *Ctx, co []*Obligation) (dropped bool) {
	type group struct {
		obls []*Obligation
		all  string
		each []string
	}
	var groups []*group
	for _, o := range co {
		if n := len(groups); n > 0 && samePC(groups[n-1].obls[0].pc, o.pc) {
			groups[n-1].obls = append(groups[n-1].obls, o)
		} else {
			groups = append(groups, &group{obls: []*Obligation{o}})
		}
	}
	for _, g := range groups {
		var goals []*T
		for _, o := range g.obls {
			goals = append(goals, o.goal)
			g.each = append(g.each, c.script(append(append([]*T{}, o.pc...), c.Not(o.goal))))
		}
		g.all = c.script(append(append([]*T{}, g.obls[0].pc...), c.Not(c.And(goals...))))
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 8)
	for _, g := range groups {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if len(g.obls) > 1 && solveText(g.all, candLimit).status == "unsat" {
				return
			}
			for i, o := range g.obls {
				mu.Lock()
				alive := o.cand.alive
				mu.Unlock()
				if !alive || solveText(g.each[i], candLimit).status == "unsat" {
					continue
				}
				mu.Lock()
				o.cand.alive = false
				dropped = true
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return
}

func samePC(a, b []*T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func solveAll(c *Ctx, obls []*Obligation, limit time.Duration) {
	type job struct {
		o      *Obligation
		body   string
		pieces []string
	}
	var jobs []*job
	for _, o := range obls {
		if o.res.status != "" || o.goal == nil {
			continue
		}
		jobs = append(jobs, &job{o: o, body: c.script(append(append([]*T{}, o.pc...), c.Not(o.goal)))})
	}
	each := func(f func(j *job)) {
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				f(j)
			}()
		}
		wg.Wait()
	}
	each(func(j *job) { j.o.res = solveText(j.body, candLimit) })
	t0 := time.Now()
	defer func() {
		if os.Getenv("VC_TIME") != "" {
			for _, j := range jobs {
				if j.o.res.secs > 3 {
					fmt.Fprintf(os.Stderr, "%s %s %.1fs %d pieces\n", j.o.name, j.o.res.solver, j.o.res.secs, len(j.pieces))
				}
			}
			fmt.Fprintf(os.Stderr, "second round took %.1fs\n", time.Since(t0).Seconds())
		}
	}()
	// the rest conjunct by conjunct, and as a whole where a conjunct stays open
	for _, j := range jobs {
		if j.o.res.status != "unknown" {
			continue
		}
		if ps := splitGoal(c, j.o.goal); len(ps) > 1 && len(ps) <= 24 {
			for _, g := range ps {
				j.pieces = append(j.pieces, c.script(append(append([]*T{}, j.o.pc...), c.Not(g))))
			}
		}
	}
	each(func(j *job) {
		if j.o.res.status == "unknown" && len(j.pieces) > 0 {
			j.o.res = solveText(j.body, midLimit)
		}
		if j.o.res.status == "unsat" {
			return
		}
		var sum solveResult
		for _, b := range j.pieces {
			r := solveText(b, patience(limit/3))
			sum.secs += r.secs
			if r.status != "unsat" {
				sum.status, sum.output, sum.model = r.status, r.output, r.model
				j.o.piece = b
				break
			}
			if sum.solver == "" || sum.solver == r.solver {
				sum.solver = r.solver
			} else if !strings.Contains(sum.solver, r.solver) {
				sum.solver += "+" + r.solver
			}
		}
		if len(j.pieces) > 0 && sum.status == "" {
			sum.status = "unsat"
		}
		if sum.status != "unsat" && sum.status != "sat" {
			l := limit
			if len(j.pieces) > 0 {
				l = limit / 2
			}
			r := solveText(j.body, patience(l))
			r.secs += sum.secs
			if sum.output != "" {
				r.output += " | conjunct: " + sum.output
			}
			sum = r
		}
		j.o.res = sum
		if sum.status != "unsat" {
			openObls.Add(1)
		}
		if sum.status == "unknown" {
			j.o.script = j.body
		}
	})
}

// openObls counts the obligations found open: once some are, the verdict stands
// and the others get less time.
var openObls atomic.Int64

func patience(l time.Duration) time.Duration {
	if openObls.Load() > 2 && l > 5*time.Second {
		return 5 * time.Second
	}
	return l
}

// splitGoal lists goals which together say what g says.
func splitGoal(c *Ctx, g *T) []*T {
	switch g.op {
	case "and":
		var r []*T
		for _, a := range g.args {
			r = append(r, splitGoal(c, a)...)
		}
		return r
	case "=>":
		var r []*T
		for _, b := range splitGoal(c, g.args[1]) {
			r = append(r, c.Imp(g.args[0], b))
		}
		return r
	case "forall":
		n := atoi(strings.SplitN(g.lit, ":", 2)[0])
		ps := splitGoal(c, g.args[n])
		if len(ps) == 1 {
			return []*T{g}
		}
		var r []*T
		for _, b := range ps {
			r = append(r, c.Forall(g.args[:n], b))
		}
		return r
	}
	return []*T{g}
}

// tasks lists the functions a unit puts under contract.
func (u *Unit) tasks(p *Prog) []task {
	var out []task
	var names []string
	for n := range u.contracts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		con := u.contracts[n]
		if con.kind != "func" || con.opts["trusted"] != "" || con.opts["inline"] != "" {
			continue
		}
		if p.funcByKey[n] == nil && unexportedKey(n) {
			// a helper that was renamed or merged away: its callers are verified
			// with whatever replaced it inlined
			u.skipped = append(u.skipped, n)
			continue
		}
		out = append(out, task{p.funcByKey[n], con, n})
	}
	merged := map[string]*Contract{}
	for _, vd := range u.verifies {
		n := 0
		for _, fn := range p.funcs {
			k := funcKey(fn)
			if !matchPat(vd.pattern, k) {
				continue
			}
			skip := false
			for _, e := range vd.except {
				if matchPat(e, k) {
					skip = true
				}
			}
			if skip {
				continue
			}
			if prev := merged[k]; prev != nil && len(vd.requires) == 0 && len(vd.opts) == 0 && len(vd.lets) == 0 && vd.loops == nil {
				n++
				prev.ensures = append(prev.ensures, vd.ensures...)
				if len(vd.params) > 0 {
					prev.params = vd.params
				}
				if len(vd.results) > 0 {
					prev.results = vd.results
				}
				continue
			}
			con := &Contract{kind: "verify", name: k, requires: vd.requires, ensures: vd.ensures, opts: map[string]string{"entry": "1"}, loops: vd.loops, lets: vd.lets, params: vd.params, results: vd.results, file: vd.file, line: vd.line}
			for o, v := range vd.opts {
				con.opts[o] = v
			}
			n++
			if merged[k] == nil && len(vd.requires) == 0 {
				con.ensures = append([]Clause{}, con.ensures...)
				merged[k] = con
			}
			out = append(out, task{fn, con, k})
		}
		if n == 0 && strings.Contains(vd.pattern, "$") {
			u.skipped = append(u.skipped, vd.pattern)
		} else if n == 0 {
			out = append(out, task{nil, nil, "verify " + vd.pattern})
		}
	}
	return out
}

func verifyUnit(u *Unit, p *Prog, filter string) []*FnResult {
	ts := u.tasks(p)
	if filter != "" {
		var f []task
		for _, t := range ts {
			if strings.Contains(t.key, filter) {
				f = append(f, t)
			}
		}
		ts = f
	}
	out := make([]*FnResult, len(ts))
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	for i, t := range ts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			out[i] = verifyFn(u, p, t)
		}()
	}
	wg.Wait()
	return out
}

// lemmas are goals over the contracts alone.
func verifyLemmas(u *Unit, p *Prog) *FnResult {
	res := &FnResult{key: "lemmas", pure: map[string]bool{}, contracts: map[string]bool{}, invokes: map[string]bool{}, inlined: map[string]bool{}, cover: "sat"}
	for _, l := range u.lemmas {
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.obls = append(res.obls, &Obligation{name: "lemma " + l.name, reason: fmt.Sprint(r), res: solveResult{status: "unsupported", output: fmt.Sprint(r)}})
				}
			}()
			x := newExec(u, p, nil, &Contract{opts: map[string]string{}})
			st := newState()
			env := &Env{x: x, st: st, names: map[string]ev{}}
			for _, g := range u.ghosts {
				st.ghosts[g.name] = x.c.Var("ghost."+g.name, g.sort)
			}
			for _, a := range u.axioms {
				x.c.axioms = append(x.c.axioms, x.evalBool(env, a.expr))
			}
			for _, v := range l.vars {
				var t types.Type
				if v.sort == SStr {
					t = types.Typ[types.String]
				}
				env.names[v.name] = ev{x.c.Var("v."+v.name, v.sort), t}
			}
			for _, h := range l.hyps {
				st.assume(x.evalBool(env, h.expr))
			}
			cov := solve(x.c, st.pc, 2*time.Second)
			g := x.evalBool(env, l.goal.expr)
			o := &Obligation{name: "lemma " + l.name, clause: l.goal.text, pc: st.pc, goal: g}
			o.res = solve(x.c, append(append([]*T{}, st.pc...), x.c.Not(g)), solveLimit)
			res.obls = append(res.obls, o)
			if cov.status == "unsat" {
				res.obls = append(res.obls, &Obligation{name: "lemma " + l.name + "/cover", reason: "contradictory hypotheses", res: solveResult{status: "unsupported", output: "vacuous"}})
			}
		}()
	}
	return res
}

func unexportedKey(n string) bool {
	for _, part := range strings.FieldsFunc(n, func(r rune) bool { return strings.ContainsRune("(*). $", r) })[1:] {
		if part != "" && part[0] >= 'a' && part[0] <= 'z' || strings.Contains(n, "$") {
			return true
		}
	}
	return false
}
