unit Y01
title synthetic file systems stay trees
packages vroot/synthfs fsutil fsutil/errdef vroot/internal/openflag
include std paths
substructs synthfs.dir.metadata synthfs.file.metadata synthfs.symlink.metadata

# ---- lists: an element is a member of at most one list, members are numbered from 0 ----
ghost mem map[int]int
ghost pos map[int]int
ghost size map[int]int
extern (*list.List).Len(l) (n)
  ensures n == size[ref(l)] && n >= 0
  ensures forall e "*list.Element" :: {mem[ref(e)]} e != nil && mem[ref(e)] == ref(l) ==> pos[ref(e)] >= 0 && pos[ref(e)] < n
extern (*list.List).PushBack(l, v) (e)
  requires l != nil
  modifies ghost mem, ghost pos, ghost size
  ensures e != nil && fresh(e) && ref(e) != 0 && e.Value == v && old(mem)[ref(e)] == 0
  ensures mem == update(old(mem), ref(e), ref(l)) && pos == update(old(pos), ref(e), old(size)[ref(l)]) && size == update(old(size), ref(l), old(size)[ref(l)] + 1)
extern (*list.List).Remove(l, e) (v)
  requires [member] e != nil && mem[ref(e)] == ref(l)
  modifies ghost mem, ghost pos, ghost size
  ensures v == e.Value
  ensures mem == update(old(mem), ref(e), 0) && size == update(old(size), ref(l), old(size)[ref(l)] - 1)
extern (*list.List).Init(l) (r)
  modifies ghost mem, ghost pos, ghost size
  ensures size == update(old(size), ref(l), 0)
  ensures forall e "*list.Element" :: {mem[ref(e)]} mem[ref(e)] == ite(old(mem)[ref(e)] == ref(l), 0, old(mem)[ref(e)])
extern (*list.List).Front(l) (e)
  ensures (e == nil) == (size[ref(l)] == 0) && size[ref(l)] >= 0
  ensures e != nil ==> mem[ref(e)] == ref(l) && pos[ref(e)] == 0
  ensures forall x "*list.Element" :: {mem[ref(x)]} x != nil && mem[ref(x)] == ref(l) ==> pos[ref(x)] >= 0 && pos[ref(x)] < size[ref(l)]
extern (*list.Element).Next(e) (r)
  requires e != nil && mem[ref(e)] != 0
  ensures (r == nil) == (pos[ref(e)] + 1 == size[mem[ref(e)]]) && pos[ref(e)] + 1 <= size[mem[ref(e)]]
  ensures r != nil ==> mem[ref(r)] == mem[ref(e)] && pos[ref(r)] == pos[ref(e)] + 1
  ensures forall x "*list.Element" :: {pos[ref(x)]} x != nil && e != nil && mem[ref(x)] == mem[ref(e)] && pos[ref(x)] == pos[ref(e)] ==> x == e

# ---- the tree ----
# isdir: the directories made so far
ghost isdir map[int]bool
define isd(v) = is(v, "*synthfs.dir")
define isf(v) = is(v, "*synthfs.file")
define isl(v) = is(v, "*synthfs.symlink")
define asd(v) = cast(v, "*synthfs.dir")
define nm(v) = ite(isd(v), asd(v).metadata.name, ite(isf(v), cast(v, "*synthfs.file").metadata.name, cast(v, "*synthfs.symlink").metadata.name))
define live(d) = d != nil && isdir[ref(d)] && d.index != nil && d.ordered != nil
define nod(v) = v != nil && key(v) != 0 && (isd(v) || isf(v) || isl(v)) && (isd(v) ==> live(asd(v)))
define I1() = forall d "*synthfs.dir", n string :: {dom(d.index)[n]} isdir[ref(d)] && has(d.index, n) ==> d.ordered != nil && d.index[n] != nil && mem[ref(d.index[n])] == ref(d.ordered) && nod(d.index[n].Value) && nm(d.index[n].Value) == n && (isd(d.index[n].Value) ==> asd(d.index[n].Value).parent == d)
define I2() = forall d "*synthfs.dir", e "*list.Element" :: {d.ordered, mem[ref(e)]} isdir[ref(d)] && e != nil && d.ordered != nil && mem[ref(e)] == ref(d.ordered) ==> has(d.index, nm(e.Value)) && d.index[nm(e.Value)] == e
define I3() = forall a "*synthfs.dir", b "*synthfs.dir" :: {a.index, b.index} isdir[ref(a)] && isdir[ref(b)] && a != b && a.index != nil ==> a.index != b.index
define I4() = forall a "*synthfs.dir", b "*synthfs.dir" :: {a.ordered, b.ordered} isdir[ref(a)] && isdir[ref(b)] && a != b && a.ordered != nil ==> a.ordered != b.ordered
define I5() = forall e "*list.Element", f "*list.Element" :: {mem[ref(e)], mem[ref(f)]} e != nil && f != nil && mem[ref(e)] != 0 && mem[ref(f)] != 0 && key(e.Value) == key(f.Value) ==> e == f
# what the tree holds existed before the function under contract began
define heap() = (forall d "*synthfs.dir" :: {isdir[ref(d)]} isdir[ref(d)] ==> existed(d)) && (forall d "*synthfs.dir" :: {d.index} isdir[ref(d)] ==> existed(d.index)) && (forall d "*synthfs.dir" :: {d.ordered} isdir[ref(d)] ==> existed(d.ordered)) && (forall e "*list.Element" :: {mem[ref(e)]} mem[ref(e)] != 0 ==> existed(e)) && (forall e "*list.Element" :: {key(e.Value)} mem[ref(e)] != 0 ==> existed(e.Value))
define grows() = forall d "*synthfs.dir" :: {isdir[ref(d)]} old(isdir[ref(d)]) ==> isdir[ref(d)]
define inv() = I1() && I2() && I3() && I4() && I5()
define listed(n) = forall e "*list.Element" :: {mem[ref(e)]} e != nil && mem[ref(e)] != 0 ==> key(e.Value) != key(n)
define others(D, N) = forall d "*synthfs.dir", n string :: {dom(d.index)[n]} {old(dom(d.index)[n])} old(isdir[ref(d)]) && (d != D || n != N) ==> has(d.index, n) == old(has(d.index, n)) && (has(d.index, n) ==> d.index[n] == old(d.index[n]))

func (*synthfs.dir).lookup(d, name) (r)
  requires heap() && live(d) && inv()
  ensures [absent] (r == nil) == !has(d.index, name)
  ensures [found] r != nil ==> has(d.index, name) && r == d.index[name].Value
func (*synthfs.dir).addEntry(d, name, n)
  requires [heap] heap()
  requires [r1] I1()
  requires [r2] I2()
  requires [r345] I3() && I4() && I5()
  requires [node] live(d) && nod(n) && nm(n) == name
  requires [listed] listed(n)
  requires [parent] isd(n) ==> asd(n).parent == d
  modifies mapof(synthfs.dir.index)
  modifies ghost mem, ghost pos, ghost size
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [there] has(d.index, name) && d.index[name].Value == n
  ensures [others] others(d, name)
func (*synthfs.dir).removeEntry(d, name) (r)
  requires heap() && live(d) && inv()
  modifies mapof(synthfs.dir.index)
  modifies ghost mem, ghost pos, ghost size
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [gone] !has(d.index, name)
  ensures [others] others(d, name)
  ensures [what] old(has(d.index, name)) ==> r == old(d.index[name].Value) && listed(r)
  ensures [absent] !old(has(d.index, name)) ==> r == nil
# (unit Y01_new verifies the body)
extern synthfs.newDir(name, mode, t, parent) (d)
  modifies ghost isdir, ghost size
  ensures d != nil && fresh(d) && live(d) && d.parent == parent && d.metadata.name == name && !old(isdir)[ref(d)] && isdir == update(old(isdir), ref(d), true)
  ensures heap()
  ensures [empty] forall n string :: {dom(d.index)[n]} !has(d.index, n)
  ensures [own] forall a "*synthfs.dir" :: {a.index} {a.ordered} old(isdir)[ref(a)] ==> a.index != d.index && a.ordered != d.ordered
  ensures [unused] forall e "*list.Element" :: {mem[ref(e)]} mem[ref(e)] != ref(d.ordered)

func (*synthfs.dir).entriesSnapshot(d) (r)
  option ownrows=1
  requires heap() && live(d) && inv()
  ensures [complete] forall e "*list.Element" :: {mem[ref(e)]} e != nil && mem[ref(e)] == ref(d.ordered) ==> pos[ref(e)] >= 0 && pos[ref(e)] < len(r) && r[pos[ref(e)]] == e.Value
  ensures [listed] forall i int :: {key(r[i])} 0 <= i && i < len(r) ==> nod(r[i]) && (isd(r[i]) ==> asd(r[i]).parent == d) && has(d.index, nm(r[i])) && d.index[nm(r[i])].Value == r[i]
  loop 0 invariant fresh(out)
  loop 0 invariant e != nil ==> mem[ref(e)] == ref(d.ordered) && pos[ref(e)] == len(out)
  loop 0 invariant e == nil ==> len(out) == size[ref(d.ordered)]
  loop 0 invariant forall x "*list.Element" :: {mem[ref(x)]} x != nil && mem[ref(x)] == ref(d.ordered) ==> pos[ref(x)] >= 0 && pos[ref(x)] < size[ref(d.ordered)]
  loop 0 invariant forall x "*list.Element" :: {mem[ref(x)]} x != nil && mem[ref(x)] == ref(d.ordered) && pos[ref(x)] < len(out) ==> out[pos[ref(x)]] == x.Value
  loop 0 invariant forall i int :: {key(out[i])} 0 <= i && i < len(out) ==> nod(out[i]) && (isd(out[i]) ==> asd(out[i]).parent == d) && has(d.index, nm(out[i])) && d.index[nm(out[i])].Value == out[i]

func (*synthfs.dir).meta(d) (m)
  ensures ref(m) == ref(d.metadata)
func (*synthfs.file).meta(d) (m)
  ensures ref(m) == ref(d.metadata)
func (*synthfs.symlink).meta(d) (m)
  ensures ref(m) == ref(d.metadata)
invoke synthfs.node.meta(n) (m)
  ensures isd(n) ==> ref(m) == ref(asd(n).metadata)
  ensures isf(n) ==> ref(m) == ref(cast(n, "*synthfs.file").metadata)
  ensures isl(n) ==> ref(m) == ref(cast(n, "*synthfs.symlink").metadata)
  ensures m != nil

# ---- resolution (unit Y02) ----
ghost nr int
# the k-th parent resolved, and the name in it
spec rd(k int) int
spec rb(k int) string
extern (*synthfs.state).resolveParent(s, boundary, start, name, op) (parent, base, err)
  modifies ghost nr
  ensures nr == old(nr) + 1 && rd(old(nr)) == ref(parent) && rb(old(nr)) == base
  ensures err == nil ==> live(parent) && base != "" && base != "." && base != ".."
  ensures err != nil ==> is(err, "*fs.PathError") && cast(err, "*fs.PathError") != nil && cast(err, "*fs.PathError").Err != nil
extern (*synthfs.state).resolve(s, boundary, start, name, follow, op) (r, err)
  ensures err == nil ==> nod(r.node)
extern (*synthfs.Root).findNode(r, name, follow, op) (res, err)
  ensures err == nil ==> nod(res.node)
  ensures err != nil ==> is(err, "*fs.PathError") && cast(err, "*fs.PathError") != nil && cast(err, "*fs.PathError").Err != nil
extern errors.Unwrap(e) (r)
  ensures is(e, "*fs.PathError") ==> r == cast(e, "*fs.PathError").Err
extern (*sync.RWMutex).Lock(m)
extern (*sync.RWMutex).Unlock(m)
invoke clock.WallClock.Now(c) (t)
invoke synthfs.FileView.Open(v, flag) (f, err)
invoke synthfs.FileView.Close(v) (err)
invoke synthfs.FileView.Stat(v) (i, err)
  ensures err == nil ==> i != nil
invoke synthfs.FileViewAllocator.Allocate(a, n, p) (v, err)
  ensures err == nil ==> v != nil
invoke vroot.File.Close(f) (err)
define D(k) = cast(rd(k), "*synthfs.dir")
define N(k) = rb(k)
define same() = forall d "*synthfs.dir", n string :: {dom(d.index)[n]} {old(dom(d.index)[n])} old(isdir[ref(d)]) ==> has(d.index, n) == old(has(d.index, n)) && (has(d.index, n) ==> d.index[n] == old(d.index[n]))
define others2(E, M, F, O) = forall d "*synthfs.dir", n string :: {dom(d.index)[n]} {old(dom(d.index)[n])} old(isdir[ref(d)]) && (d != E || n != M) && (d != F || n != O) ==> has(d.index, n) == old(has(d.index, n)) && (has(d.index, n) ==> d.index[n] == old(d.index[n]))
# below(t, x): directory x is t or lies below it
spec below(t int, x int) bool
spec dep(x int) int
# while trees are merged in, directories are made and below is not settled
ghost settled bool
define tree() = (forall t int, x "*synthfs.dir" :: {below(t, ref(x))} settled && isdir[ref(x)] ==> below(t, ref(x)) == (ref(x) == t || x.parent != nil && below(t, ref(x.parent)))) && (forall x "*synthfs.dir" :: {x.parent} settled && isdir[ref(x)] && x.parent != nil ==> dep(ref(x)) > dep(ref(x.parent)) && isdir[ref(x.parent)])
axiom forall x int :: {dep(x)} dep(x) >= 0

func (*synthfs.Root).mkdirLocked(r, name, perm) (err)
  requires heap() && inv()
  modifies mapof(synthfs.dir.index)
  modifies ghost isdir, ghost mem, ghost pos, ghost size, ghost nr
  ensures heap()
  ensures [grows] grows()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [failed] err != nil ==> same()
  ensures [made] err == nil ==> !old(has(D(nr).index, N(old(nr)))) && has(D(old(nr)).index, N(old(nr))) && isd(D(old(nr)).index[N(old(nr))].Value)
  ensures [others] err == nil ==> others(D(old(nr)), N(old(nr)))
verify (*synthfs.Root).Mkdir(r, name, perm) (err)
  requires heap() && inv()
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [failed] err != nil ==> same()
  ensures [made] err == nil ==> !old(has(D(nr).index, N(old(nr)))) && has(D(old(nr)).index, N(old(nr))) && isd(D(old(nr)).index[N(old(nr))].Value)
  ensures [others] err == nil ==> others(D(old(nr)), N(old(nr)))
verify (*synthfs.Root).Symlink(r, o, name) (err)
  requires heap() && inv()
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [failed] err != nil ==> same()
  ensures [made] err == nil ==> !old(has(D(nr).index, N(old(nr)))) && has(D(old(nr)).index, N(old(nr))) && isl(D(old(nr)).index[N(old(nr))].Value)
  ensures [others] err == nil ==> others(D(old(nr)), N(old(nr)))
verify (*synthfs.Root).Link(r, o, name) (err)
  requires heap() && inv()
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [failed] err != nil ==> same()
  ensures [made] err == nil ==> !old(has(D(nr).index, N(old(nr)))) && has(D(old(nr)).index, N(old(nr))) && isf(D(old(nr)).index[N(old(nr))].Value)
  ensures [others] err == nil ==> others(D(old(nr)), N(old(nr)))
verify (*synthfs.Root).Remove(r, name) (err)
  requires heap() && inv()
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [failed] err != nil ==> same()
  ensures [gone] err == nil ==> old(has(D(nr).index, N(old(nr)))) && !has(D(old(nr)).index, N(old(nr)))
  ensures [others] err == nil ==> others(D(old(nr)), N(old(nr)))
  ensures [empty] err == nil && isd(old(D(nr).index[N(old(nr))].Value)) ==> (forall n string :: {dom(asd(old(D(nr).index[N(old(nr))].Value)).index)[n]} !has(asd(old(D(nr).index[N(old(nr))].Value)).index, n))
verify (*synthfs.Root).Rename(r, o, name) (err)
  requires heap() && inv() && settled && tree()
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [failed] err != nil ==> same()
  ensures [moved] err == nil ==> old(has(D(nr).index, N(old(nr)))) && has(D(old(nr) + 1).index, N(old(nr) + 1)) && D(old(nr) + 1).index[N(old(nr) + 1)].Value == old(D(nr).index[N(old(nr))].Value)
  ensures [gone] err == nil && (D(old(nr)) != D(old(nr) + 1) || N(old(nr)) != N(old(nr) + 1)) ==> !has(D(old(nr)).index, N(old(nr)))
  ensures [others] err == nil ==> others2(D(old(nr)), N(old(nr)), D(old(nr) + 1), N(old(nr) + 1))
  ensures [replaced_empty] err == nil && (D(old(nr)) != D(old(nr) + 1) || N(old(nr)) != N(old(nr) + 1)) && old(has(D(nr + 1).index, N(old(nr) + 1))) && isd(old(D(nr + 1).index[N(old(nr) + 1)].Value)) ==> (forall n string :: {old(dom(asd(D(old(nr) + 1).index[N(old(nr) + 1)].Value).index)[n])} !old(has(asd(D(old(nr) + 1).index[N(old(nr) + 1)].Value).index, n)))
  ensures [parents] forall x "*synthfs.dir" :: {x.parent} {old(x.parent)} x.parent == old(x.parent) || err == nil && ref(x) == key(old(D(nr).index[N(old(nr))].Value)) && x.parent == D(old(nr) + 1)
  ensures [not_below_itself] err == nil && isd(old(D(nr).index[N(old(nr))].Value)) && (D(old(nr)) != D(old(nr) + 1) || N(old(nr)) != N(old(nr) + 1)) ==> !below(key(old(D(nr).index[N(old(nr))].Value)), ref(D(old(nr) + 1)))
  loop 0 invariant p != nil ==> isdir[ref(p)]
  loop 0 invariant below(ref(td), ref(newParent)) == (p != nil && below(ref(td), ref(p)))
  loop 0 decreases ite(p == nil, 0, dep(ref(p)) + 1)
# ---- removal of trees ----
define closedup() = forall c "*synthfs.dir", x "*synthfs.dir" :: {below(ref(c), ref(x))} settled && isdir[ref(c)] && c.parent != nil && below(ref(c), ref(x)) ==> below(ref(c.parent), ref(x))
func (*synthfs.Root).removeSubtree(r, n)
  requires heap() && inv() && tree() && closedup() && nod(n)
  modifies mapof(synthfs.dir.index)
  modifies ghost mem, ghost pos, ghost size
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [outside] forall d "*synthfs.dir", m string :: {dom(d.index)[m]} {old(dom(d.index)[m])} old(isdir[ref(d)]) && settled && !below(key(n), ref(d)) ==> has(d.index, m) == old(has(d.index, m)) && (has(d.index, m) ==> d.index[m] == old(d.index[m]))
  ensures [leaf] !isd(n) ==> same()
  ensures [emptied] isd(n) ==> (forall m string :: {dom(asd(n).index)[m]} !has(asd(n).index, m))
  loop 0 invariant heap() && I1() && I2() && I3() && I4() && I5()
  loop 0 invariant forall d "*synthfs.dir", m string :: {dom(d.index)[m]} {old(dom(d.index)[m])} old(isdir[ref(d)]) && settled && !below(key(n), ref(d)) ==> has(d.index, m) == old(has(d.index, m)) && (has(d.index, m) ==> d.index[m] == old(d.index[m]))
  loop 1 invariant forall e "*list.Element" :: {mem[ref(e)]} mem[ref(e)] != ref(nd.ordered)
  loop 1 invariant heap() && I3() && I4() && I5()
  loop 1 invariant forall d "*synthfs.dir", n string :: {dom(d.index)[n]} isdir[ref(d)] && d != nd && has(d.index, n) ==> d.ordered != nil && d.index[n] != nil && mem[ref(d.index[n])] == ref(d.ordered) && nod(d.index[n].Value) && nm(d.index[n].Value) == n && (isd(d.index[n].Value) ==> asd(d.index[n].Value).parent == d)
  loop 1 invariant forall d "*synthfs.dir", e "*list.Element" :: {d.ordered, mem[ref(e)]} isdir[ref(d)] && e != nil && d != nd && d.ordered != nil && mem[ref(e)] == ref(d.ordered) ==> has(d.index, nm(e.Value)) && d.index[nm(e.Value)] == e
  loop 1 invariant forall d "*synthfs.dir", m string :: {dom(d.index)[m]} {old(dom(d.index)[m])} old(isdir[ref(d)]) && settled && !below(key(n), ref(d)) ==> has(d.index, m) == old(has(d.index, m)) && (has(d.index, m) ==> d.index[m] == old(d.index[m]))
define kept(t) = forall d "*synthfs.dir", m string :: {dom(d.index)[m]} {old(dom(d.index)[m])} old(isdir[ref(d)]) && (d != D(old(nr)) || m != N(old(nr))) && settled && !below(t, ref(d)) ==> has(d.index, m) == old(has(d.index, m)) && (has(d.index, m) ==> d.index[m] == old(d.index[m]))
func (*synthfs.Root).removeAllLocked(r, name) (err)
  requires heap() && inv() && settled && tree() && closedup()
  modifies mapof(synthfs.dir.index)
  modifies ghost mem, ghost pos, ghost size, ghost nr
  modifies fs.PathError.Op
  modifies fs.PathError.Path
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [failed] err != nil ==> same()
  ensures [gone] err == nil ==> !has(D(old(nr)).index, N(old(nr)))
  ensures [absent] err == nil && !old(has(D(nr).index, N(old(nr)))) ==> same()
  ensures [others] err == nil && old(has(D(nr).index, N(old(nr)))) ==> kept(key(old(D(nr).index[N(old(nr))].Value)))
verify (*synthfs.Root).RemoveAll(r, name) (err)
  requires heap() && inv() && settled && tree() && closedup()
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [failed] err != nil ==> same()
  ensures [gone] err == nil ==> !has(D(old(nr)).index, N(old(nr)))
  ensures [absent] err == nil && !old(has(D(nr).index, N(old(nr)))) ==> same()
  ensures [others] err == nil && old(has(D(nr).index, N(old(nr)))) ==> kept(key(old(D(nr).index[N(old(nr))].Value)))
extern synthfs.normalize(n) (r, err)
extern synthfs.endsWithDot(n) (r)

# ---- creating files ----
extern (*synthfs.Root).userPath(r, n) (u)
func openflag.WriteOp(flag) (r)
func openflag.Writable(flag) (r)
extern (*synthfs.fileHandle).Truncate(h, n) (err)
func (*synthfs.Root).openFileNode(r, nd, n, flag) (h, err)
  requires nd != nil
  modifies synthfs.metadata.refCount
  modifies fs.PathError.Op
  modifies fs.PathError.Path
  ensures err == nil ==> h != nil && h.node == nd
verify (*synthfs.Root).OpenFile(r, name, flag, perm) (f, err)
  requires heap() && inv()
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [failed] err != nil ==> same()
  ensures [plain] flag & os.O_CREATE == 0 ==> same()
  ensures [excl] err == nil && flag & os.O_CREATE != 0 && flag & os.O_EXCL != 0 ==> !old(has(D(nr).index, N(old(nr))))
  ensures [made] err == nil && flag & os.O_CREATE != 0 && !old(has(D(nr).index, N(old(nr)))) ==> has(D(old(nr)).index, N(old(nr))) && isf(D(old(nr)).index[N(old(nr))].Value) && others(D(old(nr)), N(old(nr)))
  ensures [there] err == nil && flag & os.O_CREATE != 0 && old(has(D(nr).index, N(old(nr)))) ==> same()

# ---- directories down a path, and merging of other trees ----
extern paths.PathFromHead(n) (seq)
verify (*synthfs.Root).MkdirAll(r, name, perm) (err)
  requires heap() && inv()
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  loop 100 invariant heap() && I1() && I2() && I3() && I4() && I5()
invoke fs.ReadLinkFS.Lstat(f, n) (i, err)
  ensures err == nil ==> i != nil
invoke fs.ReadLinkFS.ReadLink(f, n) (t, err)
extern fs.Stat(f, n) (i, err)
  ensures err == nil ==> i != nil
extern fs.ReadDir(f, n) (es, err)
  ensures forall i int :: {key(es[i])} 0 <= i && i < len(es) ==> es[i] != nil
extern synthfs.NewFsView(f, n) (v, err)
  ensures err == nil ==> v != nil
extern synthfs.slashJoin(a, b) (c)
extern synthfs.parentSlashOf(a) (c)
extern synthfs.nodeAsAddEntry(p, n) (e)
callback synthfs.AddFunc(i, e) (d, err)
invoke synthfs.AddEntry.Info(e) (i)
  ensures i != nil
func (*synthfs.Root).materializeDir(r, dst, base, info, existing, override) (d)
  requires heap() && inv() && !settled && tree() && closedup() && live(dst) && info != nil
  requires existing == nil && !has(dst.index, base) || has(dst.index, base) && dst.index[base].Value == existing
  modifies mapof(synthfs.dir.index)
  modifies ghost isdir, ghost mem, ghost pos, ghost size
  ensures live(d)
  ensures heap()
  ensures [grows] grows()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  ensures [there] has(dst.index, base) && isd(dst.index[base].Value) && asd(dst.index[base].Value) == d
  ensures [reused] !override && isd(existing) ==> same()
func (*synthfs.Root).addFSWalk(r, dst, base, mountSlash, fsys, rl, src, cb) (err)
  requires heap() && inv() && !settled && live(dst) && cb != nil
  modifies mapof(synthfs.dir.index)
  modifies ghost isdir, ghost mem, ghost pos, ghost size
  modifies fs.PathError.Op
  modifies fs.PathError.Path
  ensures heap()
  ensures [grows] grows()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
func (*synthfs.Root).descend(r, d, parentSlash, fsys, rl, src, cb) (err)
  requires heap() && inv() && !settled && live(d) && cb != nil
  modifies mapof(synthfs.dir.index)
  modifies ghost isdir, ghost mem, ghost pos, ghost size
  modifies fs.PathError.Op
  modifies fs.PathError.Path
  ensures heap()
  ensures [grows] grows()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  loop 0 invariant grows() && live(d) && !settled && cb != nil
  loop 0 invariant heap() && I1() && I2() && I3() && I4() && I5()
invoke fs.DirEntry.Name(e) (n)
func (*synthfs.Root).ensureParents(r, name, op) (parent, base, err)
  requires heap() && inv() && live(r.boundary)
  modifies mapof(synthfs.dir.index)
  modifies ghost isdir, ghost mem, ghost pos, ghost size, ghost nr
  modifies fs.PathError.Op
  modifies fs.PathError.Path
  ensures err == nil ==> live(parent)
  ensures heap()
  ensures [grows] grows()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
  loop 100 invariant grows()
  loop 100 invariant heap() && I1() && I2() && I3() && I4() && I5() && live(parent)
verify (*synthfs.Root).AddFile(r, name, view, cb) (err)
  requires heap() && inv() && live(r.boundary) && view != nil
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
verify (*synthfs.Root).AddFS(r, name, fsys, cb) (err)
  requires heap() && inv() && !settled && live(r.boundary) && fsys != nil
  ensures heap()
  ensures [i1] I1()
  ensures [i2] I2()
  ensures [i3] I3()
  ensures [i4] I4()
  ensures [i5] I5()
