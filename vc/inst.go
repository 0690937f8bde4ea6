package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Ground instances of the unit's quantified axioms: each axiom is instantiated
// with the terms its trigger matches, a bounded number of rounds. Instances are
// consequences of the axioms, so a refutation that uses them only is sound; when
// there is none, the axioms themselves are given to the solvers as well.

const (
	instRounds = 3
	instMax    = 600
)

type axQuant struct {
	vars []*T
	body *T
	pats [][]*T
}

func splitQuant(t *T) axQuant {
	parts := strings.Split(t.lit, ":")
	nv, _ := strconv.Atoi(parts[0])
	q := axQuant{vars: t.args[:nv], body: t.args[nv]}
	rest := t.args[nv+1:]
	for _, p := range parts[1:] {
		n, _ := strconv.Atoi(p)
		q.pats = append(q.pats, rest[:n])
		rest = rest[n:]
	}
	return q
}

// instances returns the ground axioms relevant to asserts and whether quantified
// ones were relevant too.
func (c *Ctx) instances(asserts []*T, axioms []*T) ([]*T, bool) {
	var out []*T
	var quants []axQuant
	for _, a := range axioms {
		if a.op == "forall" {
			quants = append(quants, splitQuant(a))
			continue
		}
		if a.op == "op" && a.lit == "and" || a.op == "and" {
			nested := false
			for _, s := range a.args {
				if s.op == "forall" {
					nested = true
				}
			}
			if nested {
				for _, s := range a.args {
					if s.op == "forall" {
						quants = append(quants, splitQuant(s))
					} else {
						out = append(out, s)
					}
				}
				continue
			}
		}
		out = append(out, a)
	}
	nax := len(quants)
	extra := &hypQuants{c: c, seen: map[string]bool{}}
	for _, a := range asserts {
		extra.collect(a, true, nil, 0)
	}
	out = append(out, extra.witnesses...)
	quants = append(quants, extra.quants...)
	if len(quants) == 0 {
		return out, false
	}
	byHead := map[string][]*T{}
	seen := map[*T]bool{}
	var visit func(t *T)
	visit = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		if t.bound || len(t.args) == 0 {
			return
		}
		h := t.op + "|" + t.lit
		byHead[h] = append(byHead[h], t)
		// an element of a changed array speaks of that of the array before
		if t.op == "select" && t.args[0].op == "store" {
			visit(c.mk("select", t.sort, "", []*T{t.args[0].args[0], t.args[1]}))
		}
	}
	for _, a := range asserts {
		visit(a)
	}
	for _, a := range out {
		visit(a)
	}
	done := map[*T]bool{}
	limit := instMax + len(out)
	for round := 0; round < instRounds; round++ {
		var fresh []*T
		for _, q := range quants {
			for _, p := range q.pats {
				var rec func(i int, m map[*T]*T)
				rec = func(i int, m map[*T]*T) {
					if len(out)+len(fresh) > limit {
						return
					}
					if i == len(p) {
						for _, v := range q.vars {
							if m[v] == nil {
								return
							}
						}
						t := c.subst(q.body, m, map[*T]*T{})
						if !done[t] && t != c.True {
							done[t] = true
							fresh = append(fresh, t)
						}
						return
					}
					for _, g := range byHead[p[i].op+"|"+p[i].lit] {
						m2 := map[*T]*T{}
						for k, v := range m {
							m2[k] = v
						}
						if c.matchT(p[i], g, m2) {
							rec(i+1, m2)
						}
					}
				}
				rec(0, map[*T]*T{})
			}
		}
		if len(fresh) == 0 {
			break
		}
		for _, t := range fresh {
			visit(t)
		}
		out = append(out, fresh...)
	}
	return out, nax > 0
}

func (c *Ctx) matchT(p, g *T, m map[*T]*T) bool {
	if p.op == "bvar" {
		if x := m[p]; x != nil {
			return x == g
		}
		if p.sort != g.sort {
			return false
		}
		m[p] = g
		return true
	}
	if !p.bound {
		return p == g
	}
	// o + i against a sum that has the addends of o
	if p.op == "+" && (!p.args[0].bound || !p.args[1].bound) {
		o, i := p.args[0], p.args[1]
		if o.bound {
			o, i = i, o
		}
		d := c.sumMinus(g, o)
		return d != nil && c.matchT(i, d, m)
	}
	if p.op != g.op || p.lit != g.lit || len(p.args) != len(g.args) {
		return false
	}
	for i := range p.args {
		if !c.matchT(p.args[i], g.args[i], m) {
			return false
		}
	}
	return true
}

func addends(t *T, out map[*T]int, k *big.Int) {
	switch {
	case t.i != nil:
		k.Add(k, t.i)
	case t.op == "+":
		addends(t.args[0], out, k)
		addends(t.args[1], out, k)
	default:
		out[t]++
	}
}

// sumMinus is g - o when every addend of o occurs in g.
func (c *Ctx) sumMinus(g, o *T) *T {
	k := new(big.Int)
	ko := new(big.Int)
	ag, ao := map[*T]int{}, map[*T]int{}
	addends(g, ag, k)
	addends(o, ao, ko)
	for t, n := range ao {
		if ag[t] < n {
			return nil
		}
		ag[t] -= n
	}
	var ts []*T
	for t, n := range ag {
		for ; n > 0; n-- {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	r := c.Int(0)
	for _, t := range ts {
		r = c.Add(r, t)
	}
	return c.Add(r, c.Big(k.Sub(k, ko)))
}

// hypQuants collects the universal facts the assertions hold under known guards,
// to be instantiated like axioms, and names a witness for every universal fact
// that is denied.
type hypQuants struct {
	c         *Ctx
	quants    []axQuant
	witnesses []*T
	seen      map[string]bool
}

func (h *hypQuants) collect(t *T, pos bool, guards []*T, depth int) {
	c := h.c
	if depth > 12 {
		return
	}
	switch t.op {
	case "not":
		h.collect(t.args[0], !pos, guards, depth+1)
	case "=>":
		if pos {
			h.collect(t.args[1], true, append(guards[:len(guards):len(guards)], t.args[0]), depth+1)
			h.collect(t.args[0], false, append(guards[:len(guards):len(guards)], c.Not(t.args[1])), depth+1)
		} else {
			h.collect(t.args[0], true, guards, depth+1)
			h.collect(t.args[1], false, guards, depth+1)
		}
	case "and":
		for i, a := range t.args {
			if pos {
				h.collect(a, true, guards, depth+1)
				continue
			}
			g := guards[:len(guards):len(guards)]
			for j, b := range t.args {
				if j != i {
					g = append(g, b)
				}
			}
			h.collect(a, false, g, depth+1)
		}
	case "forall", "exists":
		if t.bound {
			return
		}
		q := splitQuant(t)
		if (t.op == "forall") == pos {
			if len(q.pats) == 0 {
				q.pats = c.autoPats(q)
			}
			if len(q.pats) == 0 {
				return
			}
			if t.op == "exists" {
				q.body = c.Not(q.body)
			}
			if len(guards) > 0 {
				q.body = c.Imp(c.And(guards...), q.body)
			}
			k := strconv.Itoa(q.body.id)
			if !h.seen[k] {
				h.seen[k] = true
				h.quants = append(h.quants, q)
			}
			return
		}
		k := "w" + strconv.Itoa(t.id)
		if h.seen[k] {
			return
		}
		h.seen[k] = true
		m := map[*T]*T{}
		for i, v := range q.vars {
			m[v] = c.Var("wit!"+strconv.Itoa(t.id)+"!"+strconv.Itoa(i), v.sort)
		}
		b := c.subst(q.body, m, map[*T]*T{})
		if t.op == "forall" {
			h.witnesses = append(h.witnesses, c.Imp(b, t))
		} else {
			h.witnesses = append(h.witnesses, c.Imp(t, b))
		}
		h.collect(b, t.op == "exists", guards, depth+1)
	}
}

// autoPats: the array elements a quantified fact speaks of.
func (c *Ctx) autoPats(q axQuant) [][]*T {
	if len(q.vars) != 1 {
		return nil
	}
	var out [][]*T
	seen := map[*T]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if !t.bound || seen[t] || t.op == "forall" || t.op == "exists" {
			return
		}
		seen[t] = true
		if t.op == "select" && !t.args[0].bound {
			i := t.args[1]
			if i == q.vars[0] || i.op == "+" && (i.args[0] == q.vars[0] || i.args[1] == q.vars[0]) {
				out = append(out, []*T{t})
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(q.body)
	return out
}

func (c *Ctx) subst(t *T, m map[*T]*T, memo map[*T]*T) *T {
	if x, ok := m[t]; ok {
		return x
	}
	if !t.bound && t.op != "forall" && t.op != "exists" || len(t.args) == 0 {
		return t
	}
	if x, ok := memo[t]; ok {
		return x
	}
	args := make([]*T, len(t.args))
	for i, a := range t.args {
		args[i] = c.subst(a, m, memo)
	}
	var r *T
	switch {
	case t.op == "op" && t.lit == "=" && len(args) == 2 || t.op == "=" && len(args) == 2:
		r = c.Eq(args[0], args[1])
	case t.op == "and":
		r = c.And(args...)
	case t.op == "or":
		r = c.Or(args...)
	case t.op == "not":
		r = c.Not(args[0])
	case t.op == "forall" || t.op == "exists":
		q := splitQuant(t)
		r = c.mk(t.op, t.sort, t.lit, args)
		r.bound = freeBound(args[len(q.vars)], q.vars)
	default:
		r = c.mk(t.op, t.sort, t.lit, args)
	}
	memo[t] = r
	return r
}
