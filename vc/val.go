package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value: a term, or an aggregate of terms.
type Val interface{}

type SliceV struct{ r, o, l, c *T }
type IfaceV struct{ t, d *T }
type StructV struct {
	typ    types.Type
	fields []Val
}
type TupleV []Val
type ArrV struct { // array value: one SMT array per leaf
	typ    *types.Array
	leaves []*T
}

// Addr is an interior address.
type Addr struct {
	kind string // "field", "elem", "global"
	key  string // heap key prefix
	ref  *T
	idx  *T
	path string // leaf path prefix inside the element / field
	typ  types.Type
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	id    int64
}

// IterV is a map or string iterator.
type IterV struct {
	x   Val
	typ types.Type
	n   int
	id  string // string iterator: the ghost that holds its position
}

type unsupported struct{ msg string }

func unsup(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

type leaf struct {
	path string
	sort Sort
	typ  types.Type // nil for synthetic parts
	part string     // "", "t","d","r","o","l","c"
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func isIface(t types.Type) bool {
	if isTypeParam(t) {
		return true
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isStruct(t types.Type) bool {
	if isTypeParam(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func leaves(t types.Type) []leaf { return leavesP(t, "", 0) }

func leavesP(t types.Type, p string, depth int) []leaf {
	if depth > 12 {
		unsup("type too deep: %s", t)
	}
	if isIface(t) {
		return []leaf{{p + ".t", SInt, nil, "t"}, {p + ".d", SInt, nil, "d"}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{p, SBool, t, ""}}
		case u.Info()&types.IsString != 0:
			return []leaf{{p, SStr, t, ""}}
		default:
			return []leaf{{p, SInt, t, ""}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leaf{{p, SInt, t, ""}}
	case *types.Slice:
		return []leaf{{p + ".r", SInt, nil, "r"}, {p + ".o", SInt, nil, "o"}, {p + ".l", SInt, nil, "l"}, {p + ".c", SInt, nil, "c"}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leavesP(u.Field(i).Type(), p+"."+u.Field(i).Name(), depth+1)...)
		}
		return out
	case *types.Array:
		var out []leaf
		for _, l := range leavesP(u.Elem(), p+"[]", depth+1) {
			out = append(out, leaf{l.path, arr(SInt, l.sort), nil, "a"})
		}
		return out
	case *types.Tuple:
		if u.Len() == 0 {
			return nil
		}
	}
	unsup("leaves of %s", t)
	return nil
}

func (x *Exec) flatten(v Val) []*T {
	switch v := v.(type) {
	case *T:
		return []*T{v}
	case *SliceV:
		return []*T{v.r, v.o, v.l, v.c}
	case *IfaceV:
		return []*T{v.t, v.d}
	case *StructV:
		var out []*T
		for _, f := range v.fields {
			out = append(out, x.flatten(f)...)
		}
		return out
	case *ArrV:
		return v.leaves
	case *Closure:
		return []*T{x.closureID(v)}
	case *Addr:
		return []*T{x.addrTerm(v)}
	}
	unsup("flatten %T", v)
	return nil
}

func (x *Exec) unflatten(t types.Type, ls []*T) Val {
	v, rest := x.unfl(t, ls)
	if len(rest) != 0 {
		panic("unflatten leftovers")
	}
	return v
}

func (x *Exec) unfl(t types.Type, ls []*T) (Val, []*T) {
	if isIface(t) {
		return &IfaceV{ls[0], ls[1]}, ls[2:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ls[0], ls[1], ls[2], ls[3]}, ls[4:]
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ls = x.unfl(u.Field(i).Type(), ls)
			s.fields = append(s.fields, f)
		}
		return s, ls
	case *types.Array:
		n := len(leaves(u.Elem()))
		return &ArrV{u, ls[:n]}, ls[n:]
	case *types.Signature:
		if ls[0].i != nil {
			if c, ok := x.closures[ls[0].i.Int64()]; ok {
				return c, ls[1:]
			}
		}
		return ls[0], ls[1:]
	case *types.Pointer:
		if a := x.decodeAddr(ls[0]); a != nil {
			return a, ls[1:]
		}
		return ls[0], ls[1:]
	}
	return ls[0], ls[1:]
}

func (x *Exec) zero(t types.Type) Val {
	var ls []*T
	for _, l := range leaves(t) {
		ls = append(ls, x.zeroLeaf(l.sort))
	}
	return x.unflatten(t, ls)
}

func (x *Exec) zeroLeaf(s Sort) *T {
	switch s {
	case SInt:
		return x.c.Int(0)
	case SBool:
		return x.c.False
	case SStr:
		return x.c.Str("")
	}
	_, v := arrParts(s)
	return x.c.ConstArr(s, x.zeroLeaf(v))
}

// freshVal makes an unconstrained value of type t (with type-range facts assumed).
func (x *Exec) freshVal(st *State, t types.Type, hint string) Val {
	var ls []*T
	for _, l := range leaves(t) {
		ls = append(ls, x.c.Fresh(hint+l.path, l.sort))
	}
	v := x.unflatten(t, ls)
	x.assumeTyped(st, t, v)
	return v
}

var big0 = big.NewInt(0)

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	one := big.NewInt(1)
	signed := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), one), true
	}
	uns := func(n uint) (*big.Int, *big.Int, bool) { return big.NewInt(0), new(big.Int).Sub(p(n), one), true }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return signed(64)
	case types.Int32, types.UntypedRune:
		return signed(32)
	case types.Int16:
		return signed(16)
	case types.Int8:
		return signed(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return uns(64)
	case types.Uint32:
		return uns(32)
	case types.Uint16:
		return uns(16)
	case types.Uint8:
		return uns(8)
	}
	return nil, nil, false
}

// assumeTyped adds the facts every well-typed value satisfies.
func (x *Exec) assumeTyped(st *State, t types.Type, v Val) {
	c := x.c
	switch v := v.(type) {
	case *IfaceV:
		st.assume(c.Le(c.Int(0), v.t))
		st.assume(c.Imp(c.Eq(v.t, c.Int(0)), c.Eq(v.d, c.Int(0))))
		st.assume(c.Le(c.Int(-int64(st.allocN)), v.d))
	case *SliceV:
		st.assume(c.And(c.Le(c.Int(0), v.o), c.Le(c.Int(0), v.l), c.Le(v.l, v.c),
			c.Le(v.c, c.Big(maxInt)), c.Le(v.o, c.Big(maxInt)),
			c.Imp(c.Eq(v.r, c.Int(0)), c.Eq(v.c, c.Int(0))), c.Le(c.Int(-int64(st.allocN)), v.r)))
	case *StructV:
		u := t.Underlying().(*types.Struct)
		for i, f := range v.fields {
			x.assumeTyped(st, u.Field(i).Type(), f)
		}
	case *T:
		if isTypeParam(t) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				if lo, hi, ok := intRange(u); ok && v.i == nil {
					st.assume(c.And(c.Le(c.Big(lo), v), c.Le(v, c.Big(hi))))
				}
			}
		case *types.Pointer, *types.Map, *types.Chan:
			if v.i == nil {
				st.assume(c.Le(c.Int(-int64(st.allocN)), v))
			}
		case *types.Signature:
			if v.i == nil {
				st.assume(c.Le(c.Int(0), v))
			}
		}
	}
}

var maxInt = func() *big.Int {
	b := new(big.Int).Lsh(big.NewInt(1), 63)
	return b.Sub(b, big.NewInt(1))
}()

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	path := p.Path()
	if i := strings.LastIndexByte(path, '/'); i >= 0 {
		path = path[i+1:]
	}
	return path
}

func qual(p *types.Package) string { return shortPkg(p) }

// typeKey names a type without its type arguments.
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Named:
		o := t.Origin().Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return shortPkg(o.Pkg()) + "." + o.Name()
	case *types.Basic:
		return types.Typ[t.Kind()].Name()
	case *types.Pointer:
		return "*" + typeKey(t.Elem())
	case *types.Slice:
		return "[]" + typeKey(t.Elem())
	case *types.TypeParam:
		return "typeparam"
	case *types.Map:
		return "map[" + typeKey(t.Key()) + "]" + typeKey(t.Elem())
	}
	return types.TypeString(t, qual)
}

func (x *Exec) typeID(t types.Type) *T {
	k := typeKey(t)
	return x.typeIDByKey(k)
}

func (x *Exec) typeIDByKey(k string) *T {
	id, ok := x.c.typeIDs[k]
	if !ok {
		id = len(x.c.typeIDs) + 1
		x.c.typeIDs[k] = id
		x.typeNames[id] = k
	}
	return x.c.Int(int64(id))
}

// ---- heap ----

func (x *Exec) heap(st *State, key string, s Sort) *T {
	if h, ok := st.heaps[key]; ok {
		if h.sort != s {
			panic(fmt.Sprintf("heap %s sort %s vs %s", key, h.sort, s))
		}
		return h
	}
	name := "H:" + key
	if st.epoch > 0 && !strings.HasPrefix(key, "G:") {
		name = fmt.Sprintf("H%d:%s", st.epoch, key)
	}
	h := x.c.Var(name, s)
	st.heaps[key] = h
	x.heapSorts[key] = s
	return h
}

func (x *Exec) setHeap(st *State, key string, t *T) {
	st.heaps[key] = t
	x.heapSorts[key] = t.sort
	st.touched[key] = true
}

// subRef is the reference of the struct stored by value in field f of S.
// specUsesOuter is set when a contract of the unit names the object around an
// inner one, see "outer".
var specUsesOuter bool

func (x *Exec) subRef(st *State, key string, base *T) *T {
	if base.i != nil && base.i.Sign() != 0 {
		k := key + "@" + base.lit
		if r, ok := st.subs[k]; ok {
			return r
		}
		r := x.newRef(st)
		st.subs[k] = r
		st.assume(x.c.And(x.c.Eq(x.c.App("subinv:"+key, SInt, r), base),
			x.c.Eq(x.c.App("sub:"+key, SInt, base), r),
			x.c.Eq(x.c.App("subkind", SInt, r), x.typeIDByKey("sub:"+key))))
		return r
	}
	t := x.c.App("sub:"+key, SInt, base)
	st.assume(x.c.And(x.c.Imp(x.c.Le(x.c.Int(0), base), x.c.Lt(x.c.Int(0), t)), x.c.Not(x.c.Eq(t, x.c.Int(0))),
		x.c.Eq(x.c.App("subinv:"+key, SInt, t), base),
		x.c.Eq(x.c.App("subkind", SInt, t), x.typeIDByKey("sub:"+key))))
	return t
}

// newObj is the reference of an object just allocated, which is no part of another.
func (x *Exec) newObj(st *State) *T {
	r := x.newRef(st)
	st.assume(x.c.Eq(x.c.App("subkind", SInt, r), x.c.Int(0)))
	return r
}

func (x *Exec) newRef(st *State) *T {
	st.allocN++
	return x.c.Int(-int64(st.allocN))
}

func (x *Exec) fieldKey(s types.Type, i int) string {
	u := s.Underlying().(*types.Struct)
	return structKey(s) + "." + u.Field(i).Name()
}

func structKey(s types.Type) string { return typeKey(s) }

// loadAt reads a value of type t at pointer ref (ref to a struct, cell or array).
func (x *Exec) loadAt(st *State, t types.Type, ref *T) Val {
	if isStruct(t) {
		u := t.Underlying().(*types.Struct)
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, x.loadField(st, t, i, ref))
		}
		return s
	}
	if a, ok := t.Underlying().(*types.Array); ok && !isTypeParam(t) {
		var ls []*T
		for _, l := range leaves(a.Elem()) {
			ls = append(ls, x.c.Select(x.heap(st, "E:"+typeKey(a.Elem())+l.path, arr(SInt, arr(SInt, l.sort))), ref))
		}
		return &ArrV{a, ls}
	}
	return x.loadKey(st, "C:"+typeKey(t), t, ref)
}

func (x *Exec) storeAt(st *State, t types.Type, ref *T, v Val) {
	if isStruct(t) {
		u := t.Underlying().(*types.Struct)
		sv, ok := v.(*StructV)
		if !ok {
			unsup("store of %T into struct", v)
		}
		for i := 0; i < u.NumFields(); i++ {
			x.storeField(st, t, i, ref, sv.fields[i])
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok && !isTypeParam(t) {
		av, ok := v.(*ArrV)
		if !ok {
			unsup("store of %T into array", v)
		}
		for i, l := range leaves(a.Elem()) {
			k := "E:" + typeKey(a.Elem()) + l.path
			h := x.heap(st, k, arr(SInt, arr(SInt, l.sort)))
			x.setHeap(st, k, x.c.Store(h, ref, av.leaves[i]))
		}
		return
	}
	x.storeKey(st, "C:"+typeKey(t), t, ref, v)
}

func (x *Exec) loadField(st *State, s types.Type, i int, ref *T) Val {
	u := s.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	fk := x.fieldKey(s, i)
	if isStruct(ft) || isArray(ft) {
		return x.loadAt(st, ft, x.subRef(st, fk, ref))
	}
	return x.loadKey(st, "F:"+fk, ft, ref)
}

func isArray(t types.Type) bool {
	if isTypeParam(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func (x *Exec) storeField(st *State, s types.Type, i int, ref *T, v Val) {
	u := s.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	fk := x.fieldKey(s, i)
	if isStruct(ft) || isArray(ft) {
		x.storeAt(st, ft, x.subRef(st, fk, ref), v)
		return
	}
	x.storeKey(st, "F:"+fk, ft, ref, v)
}

func (x *Exec) loadKey(st *State, key string, t types.Type, ref *T) Val {
	var ls []*T
	for _, l := range leaves(t) {
		h := x.heap(st, key+l.path, arr(SInt, l.sort))
		ls = append(ls, x.c.Select(h, ref))
	}
	v := x.unflatten(t, ls)
	x.assumeLoaded(st, t, v, ls)
	return v
}

// assumeLoaded adds type facts for values read from unknown memory.
func (x *Exec) assumeLoaded(st *State, t types.Type, v Val, ls []*T) {
	for _, l := range ls {
		if l.op == "select" || l.op == "ite" || l.op == "var" {
			x.assumeTyped(st, t, v)
			return
		}
	}
}

func (x *Exec) storeKey(st *State, key string, t types.Type, ref *T, v Val) {
	vs := x.flatten(x.coerce(v, t))
	for i, l := range leaves(t) {
		h := x.heap(st, key+l.path, arr(SInt, l.sort))
		x.setHeap(st, key+l.path, x.c.Store(h, ref, vs[i]))
	}
}

func (x *Exec) coerce(v Val, t types.Type) Val { return v }

// elements
func (x *Exec) loadElem(st *State, et types.Type, path string, ft types.Type, ref, idx *T) Val {
	var ls []*T
	for _, l := range leaves(ft) {
		h := x.heap(st, "E:"+typeKey(et)+path+l.path, arr(SInt, arr(SInt, l.sort)))
		ls = append(ls, x.c.Select(x.c.Select(h, ref), idx))
	}
	v := x.unflatten(ft, ls)
	x.assumeLoaded(st, ft, v, ls)
	return v
}

func (x *Exec) storeElem(st *State, et types.Type, path string, ft types.Type, ref, idx *T, v Val) {
	vs := x.flatten(v)
	for i, l := range leaves(ft) {
		k := "E:" + typeKey(et) + path + l.path
		h := x.heap(st, k, arr(SInt, arr(SInt, l.sort)))
		row := x.c.Select(h, ref)
		x.setHeap(st, k, x.c.Store(h, ref, x.c.Store(row, idx, vs[i])))
	}
}

func (x *Exec) load(st *State, p Val, t types.Type) Val {
	switch p := p.(type) {
	case *T:
		return x.loadAt(st, t, p)
	case *Addr:
		switch p.kind {
		case "field":
			return x.loadKey(st, p.key, t, p.ref)
		case "elem":
			return x.loadElem(st, p.typ, p.path, t, p.ref, p.idx)
		case "global":
			return x.loadGlobal(st, p, t)
		}
	}
	unsup("load through %T", p)
	return nil
}

func (x *Exec) store(st *State, p Val, t types.Type, v Val) {
	switch p := p.(type) {
	case *T:
		x.storeAt(st, t, p, v)
		return
	case *Addr:
		switch p.kind {
		case "field":
			x.storeKey(st, p.key, t, p.ref, v)
			return
		case "elem":
			x.storeElem(st, p.typ, p.path, t, p.ref, p.idx, v)
			return
		case "global":
			vs := x.flatten(v)
			for i, l := range leaves(t) {
				x.setHeap(st, p.key+l.path, vs[i])
			}
			return
		}
	}
	unsup("store through %T", p)
}

func (x *Exec) loadGlobal(st *State, p *Addr, t types.Type) Val {
	var ls []*T
	known := true
	for _, l := range leaves(t) {
		if h, ok := st.heaps[p.key+l.path]; ok {
			ls = append(ls, h)
			continue
		}
		known = false
		break
	}
	if known {
		return x.unflatten(t, ls)
	}
	ls = nil
	if isErrorType(t) {
		// an error sentinel: a distinct non-nil value per variable, except
		// where the initializer is an errno constant (see sentinelErrno).
		if tk, n, ok := sentinelErrno(p.key); ok {
			ls = []*T{x.typeIDByKey(tk), x.c.Int(n)}
		} else {
			ls = []*T{x.typeIDByKey("*errors.errorString"), x.globalID(p.key)}
		}
		for i, l := range leaves(t) {
			st.heaps[p.key+l.path] = ls[i]
			x.heapSorts[p.key+l.path] = l.sort
		}
		return x.unflatten(t, ls)
	}
	for _, l := range leaves(t) {
		ls = append(ls, x.heap(st, p.key+l.path, l.sort))
	}
	v := x.unflatten(t, ls)
	x.assumeTyped(st, t, v)
	return v
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

var errnoSentinels = map[string]int64{
	"G:errdef.ELOOP": 40, "G:errdef.EBADF": 9, "G:errdef.ENOTEMPTY": 39, "G:errdef.EROFS": 30,
	"G:overlayfs.errCrossDevice": 18,
}

func sentinelErrno(key string) (string, int64, bool) {
	n, ok := errnoSentinels[key]
	return "syscall.Errno", n, ok
}

// globalID is a stable literal for a package variable, outside the range of
// allocation literals (which are small and negative).
func (x *Exec) globalID(key string) *T {
	id, ok := x.globals[key]
	if !ok {
		id = int64(len(x.globals)) + 1
		x.globals[key] = id
	}
	return x.c.Int(1_000_000_000 + id)
}

func (x *Exec) addrTerm(a *Addr) *T {
	switch a.kind {
	case "field":
		t := x.c.App("addr:"+a.key, SInt, a.ref)
		x.addrs[t] = a
		return t
	case "elem":
		t := x.c.App("addrE:"+typeKey(a.typ)+a.path, SInt, a.ref, a.idx)
		x.addrs[t] = a
		return t
	case "global":
		t := x.globalID("&" + a.key)
		x.addrs[t] = a
		return t
	}
	unsup("address term")
	return nil
}

func (x *Exec) decodeAddr(t *T) *Addr { return x.addrs[t] }

func (x *Exec) closureID(c *Closure) *T {
	if c.id == 0 {
		x.nclosure++
		c.id = 2_000_000_000 + int64(x.nclosure)
		x.closures[c.id] = c
	}
	return x.c.Int(c.id)
}

// maps
func mapKey(t types.Type) (string, *types.Map) {
	m := t.Underlying().(*types.Map)
	return typeKey(m.Key()) + "=>" + typeKey(m.Elem()), m
}

func (x *Exec) mapKeyTerm(m *types.Map, k Val) *T {
	ls := x.flatten(k)
	if len(ls) == 1 {
		return ls[0]
	}
	if isIface(m.Key()) {
		return x.c.App("ifacekey", SInt, ls...)
	}
	unsup("map key type %s", m.Key())
	return nil
}

func (x *Exec) mapKeySort(m *types.Map) Sort {
	ls := leaves(m.Key())
	if len(ls) == 1 {
		return ls[0].sort
	}
	if isIface(m.Key()) {
		return SInt
	}
	unsup("map key type %s", m.Key())
	return ""
}

func (x *Exec) mapDom(st *State, t types.Type, ref *T) *T {
	mk, m := mapKey(t)
	return x.c.Select(x.heap(st, "MD:"+mk, arr(SInt, arr(x.mapKeySort(m), SBool))), ref)
}

func (x *Exec) mapHas(st *State, t types.Type, ref *T, k Val) *T {
	_, m := mapKey(t)
	return x.c.And(x.c.Not(x.c.Eq(ref, x.c.Int(0))), x.c.Select(x.mapDom(st, t, ref), x.mapKeyTerm(m, k)))
}

func (x *Exec) mapGet(st *State, t types.Type, ref *T, k Val) Val {
	mk, m := mapKey(t)
	ks := x.mapKeySort(m)
	kt := x.mapKeyTerm(m, k)
	var ls []*T
	for _, l := range leaves(m.Elem()) {
		h := x.heap(st, "MV:"+mk+l.path, arr(SInt, arr(ks, l.sort)))
		ls = append(ls, x.c.Select(x.c.Select(h, ref), kt))
	}
	v := x.unflatten(m.Elem(), ls)
	x.assumeLoaded(st, m.Elem(), v, ls)
	return v
}

func (x *Exec) mapLen(st *State, t types.Type, ref *T) *T {
	mk, _ := mapKey(t)
	return x.c.Select(x.heap(st, "ML:"+mk, arr(SInt, SInt)), ref)
}

func (x *Exec) mapSet(st *State, t types.Type, ref *T, k, v Val) {
	mk, m := mapKey(t)
	ks := x.mapKeySort(m)
	kt := x.mapKeyTerm(m, k)
	c := x.c
	had := x.mapHas(st, t, ref, k)
	dk := "MD:" + mk
	dh := x.heap(st, dk, arr(SInt, arr(ks, SBool)))
	x.setHeap(st, dk, c.Store(dh, ref, c.Store(c.Select(dh, ref), kt, c.True)))
	vs := x.flatten(v)
	for i, l := range leaves(m.Elem()) {
		key := "MV:" + mk + l.path
		h := x.heap(st, key, arr(SInt, arr(ks, l.sort)))
		x.setHeap(st, key, c.Store(h, ref, c.Store(c.Select(h, ref), kt, vs[i])))
	}
	lk := "ML:" + mk
	lh := x.heap(st, lk, arr(SInt, SInt))
	x.setHeap(st, lk, c.Store(lh, ref, c.Add(c.Select(lh, ref), c.Ite(had, c.Int(0), c.Int(1)))))
}

func (x *Exec) mapDelete(st *State, t types.Type, ref *T, k Val) {
	mk, m := mapKey(t)
	ks := x.mapKeySort(m)
	kt := x.mapKeyTerm(m, k)
	c := x.c
	had := x.mapHas(st, t, ref, k)
	dk := "MD:" + mk
	dh := x.heap(st, dk, arr(SInt, arr(ks, SBool)))
	x.setHeap(st, dk, c.Store(dh, ref, c.Store(c.Select(dh, ref), kt, c.False)))
	lk := "ML:" + mk
	lh := x.heap(st, lk, arr(SInt, SInt))
	x.setHeap(st, lk, c.Store(lh, ref, c.Sub(c.Select(lh, ref), c.Ite(had, c.Int(1), c.Int(0)))))
}

// boxing of non-pointer dynamic values
func (x *Exec) box(st *State, t types.Type, v Val) *IfaceV {
	tid := x.typeID(t)
	c := x.c
	switch w := v.(type) {
	case *T:
		switch w.sort {
		case SInt:
			return &IfaceV{tid, w}
		case SBool:
			return &IfaceV{tid, c.Ite(w, c.Int(1), c.Int(0))}
		case SStr:
			d := c.App("boxstr", SInt, w)
			st.assume(c.Eq(c.App("unboxstr", SStr, d), w))
			st.assume(c.Le(c.Int(0), d))
			return &IfaceV{tid, d}
		}
	case *Addr, *Closure:
		return &IfaceV{tid, x.flatten(v)[0]}
	}
	ls := x.flatten(v)
	// structurally equal boxes are the same box
	d := c.App("box:"+typeKey(t), SInt, ls...)
	if len(ls) == 0 {
		d = c.Int(0)
	}
	for i, l := range leaves(t) {
		st.assume(c.Eq(c.App("unbox:"+typeKey(t)+l.path, l.sort, d), ls[i]))
	}
	if len(ls) > 0 {
		st.assume(c.Le(c.Int(0), d))
	}
	return &IfaceV{tid, d}
}

func (x *Exec) unbox(st *State, t types.Type, d *T) Val {
	c := x.c
	ls := leaves(t)
	if len(ls) == 1 && ls[0].typ != nil {
		switch ls[0].sort {
		case SInt:
			v := x.unflatten(t, []*T{d})
			x.assumeTyped(st, t, v)
			return v
		case SBool:
			return c.Eq(d, c.Int(1))
		case SStr:
			if d.op == "app" && d.lit == "boxstr" {
				return d.args[0]
			}
			return c.App("unboxstr", SStr, d)
		}
	}
	var ts []*T
	if d.op == "app" && d.lit == "box:"+typeKey(t) {
		ts = d.args
	} else {
		for _, l := range ls {
			ts = append(ts, c.App("unbox:"+typeKey(t)+l.path, l.sort, d))
		}
	}
	v := x.unflatten(t, ts)
	x.assumeTyped(st, t, v)
	return v
}
