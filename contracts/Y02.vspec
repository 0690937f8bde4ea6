unit Y02
title synthetic roots confine path resolution
packages vroot/synthfs fsutil fsutil/errdef vroot/internal/openflag
include std paths

# ---- the tree, while the lock is held ----
# kid: what is listed under a name (unit Y01 proves the bodies of lookup,
# addEntry and removeEntry, and that a directory's parent is the one that lists it).
# ver counts changes.
ghost ver int
ghost ver0 int
ghost held int
spec kid(v int, d int, n string) int
spec kidtag(v int, d int, n string) int
spec par(v int, d int) int
spec target(s int) string
# under(b, d): directory d was b or below b at some time in this operation
spec under(b int, d int) bool
# inside(b, x): node x is such a directory or was listed in one
spec inside(b int, x int) bool
axiom forall b int :: {under(b, b)} under(b, b)
axiom forall b int, d int :: {under(b, d)} under(b, d) ==> inside(b, d)
axiom forall b int, v int, d int, n string :: {kid(v, d, n), under(b, d)} under(b, d) && kidtag(v, d, n) != 0 ==> inside(b, kid(v, d, n)) && (kidtag(v, d, n) == dirtag() ==> under(b, kid(v, d, n)))
axiom forall b int, v int, d int :: {par(v, d), under(b, d)} under(b, d) && d != b && par(v, d) != 0 ==> under(b, par(v, d))
spec dirtag() int
spec linktag() int
define snap() = forall d "*synthfs.dir" :: {d.parent} ref(d.parent) == par(ver, ref(d))

extern (*synthfs.dir).lookup(d, n) (r)
  requires [locked] held > 0
  ensures ref(r) == kid(ver, ref(d), n) && tag(r) == kidtag(ver, ref(d), n)
  ensures r != nil ==> ref(r) != 0
  ensures r == nil || is(r, "*synthfs.dir") || is(r, "*synthfs.file") || is(r, "*synthfs.symlink")
  ensures (tag(r) == 0) == (r == nil) && is(r, "*synthfs.dir") == (tag(r) == dirtag()) && is(r, "*synthfs.symlink") == (tag(r) == linktag())
  ensures is(r, "*synthfs.symlink") ==> cast(r, "*synthfs.symlink").target == target(ref(r))

# ---- the meaning of a name: one component at a time ----
# outcomes: 0 found, 1 absent, 2 leaves the root, 3 too many links, 4 not a directory
spec walk(v int, b int, d int, rest string, hops int, follow bool) int
spec wnode(v int, b int, d int, rest string, hops int, follow bool) int
define hd(s) = ite(contains(s, "/"), substr(s, 0, indexof(s, "/", 0)), s)
define tl(s) = ite(contains(s, "/"), substr(s, indexof(s, "/", 0) + 1, len(s) - indexof(s, "/", 0) - 1), "")
define skips(s) = hd(s) == "" || hd(s) == "."
define isl(v, d, s, f) = kidtag(v, d, hd(s)) == linktag() && (tl(s) != "" || f)
define nxt(v, d, s) = ite(tl(s) == "", target(kid(v, d, hd(s))), target(kid(v, d, hd(s))) + "/" + tl(s))
define W(v, b, d, s, h, f) = walk(v, b, d, s, h, f)
define N(v, b, d, s, h, f) = wnode(v, b, d, s, h, f)
define same(v, b, d, s, h, f, d2, s2, h2) = walk(v, b, d, s, h, f) == walk(v, b, d2, s2, h2, f) && wnode(v, b, d, s, h, f) == wnode(v, b, d2, s2, h2, f)
spec at(d int, s string) bool
axiom forall d int, s string :: {at(d, s)} at(d, s)
axiom forall v int, b int, d int, h int, f bool :: {walk(v, b, d, "", h, f)} walk(v, b, d, "", h, f) == 0 && wnode(v, b, d, "", h, f) == d
axiom forall v int, b int, d int, s string, h int, f bool :: {walk(v, b, d, s, h, f), at(d, s)} s != "" && skips(s) ==> same(v, b, d, s, h, f, d, tl(s), h)
axiom forall v int, b int, d int, s string, h int, f bool :: {walk(v, b, d, s, h, f), at(d, s)} s != "" && hd(s) == ".." ==> ite(d == b || par(v, d) == 0, walk(v, b, d, s, h, f) == 2, same(v, b, d, s, h, f, par(v, d), tl(s), h))
axiom forall v int, b int, d int, s string, h int, f bool :: {walk(v, b, d, s, h, f), at(d, s)} s != "" && !skips(s) && hd(s) != ".." ==> ite(kidtag(v, d, hd(s)) == 0, walk(v, b, d, s, h, f) == 1, ite(isl(v, d, s, f), ite(h >= 40, walk(v, b, d, s, h, f) == 3, ite(prefixof("/", target(kid(v, d, hd(s)))), walk(v, b, d, s, h, f) == 2, same(v, b, d, s, h, f, d, nxt(v, d, s), h + 1))), ite(tl(s) == "", walk(v, b, d, s, h, f) == 0 && wnode(v, b, d, s, h, f) == kid(v, d, hd(s)), ite(kidtag(v, d, hd(s)) == dirtag(), same(v, b, d, s, h, f, kid(v, d, hd(s)), tl(s), h), walk(v, b, d, s, h, f) == 4))))

# a name's outcome
define local(n) = clean(n) == "." || islocal(clean(n))
define out(v, b, n, f) = ite(!local(n), 2, ite(clean(n) == ".", 0, walk(v, b, b, clean(n), 0, f)))
axiom forall s string :: {clean(s)} clean(s) == s && islocal(s) ==> !suffixof("/", s)

define pe(e) = is(e, "*fs.PathError") && cast(e, "*fs.PathError") != nil && cast(e, "*fs.PathError").Err != nil && !is(cast(e, "*fs.PathError").Err, "*os.LinkError")
func synthfs.normalize(n) (r, err)
  ensures [local] (err == nil) == local(n)
  ensures [result] err == nil ==> r == clean(n)
  ensures [escape] err != nil ==> err == vroot.ErrPathEscapes

func (*synthfs.state).resolve(s, boundary, start, name, follow, op) (r, err)
  requires held > 0 && boundary == start && boundary != nil
  requires snap()
  ensures [meaning] err == nil ==> out(ver, ref(boundary), name, follow) == 0
  ensures [node] err == nil ==> ref(r.node) == ite(clean(name) == ".", ref(boundary), wnode(ver, ref(boundary), ref(boundary), clean(name), 0, follow)) && r.node != nil && ref(r.node) != 0
  ensures [inside] err == nil ==> inside(ref(boundary), ref(r.node)) && (is(r.node, "*synthfs.dir") ==> under(ref(boundary), ref(r.node)))
  ensures [escape] out(ver, ref(boundary), name, follow) == 2 ==> pe(err) && cast(err, "*fs.PathError").Err == vroot.ErrPathEscapes && errIs(err, vroot.ErrPathEscapes)
  ensures [shape] err != nil ==> pe(err)
  ensures [loop] out(ver, ref(boundary), name, follow) == 3 ==> pe(err) && errIs(cast(err, "*fs.PathError").Err, errdef.ELOOP) && errIs(err, errdef.ELOOP)
  ensures [absent] out(ver, ref(boundary), name, follow) == 1 ==> err != nil && errIs(err, fs.ErrNotExist)
  ensures [notdir] out(ver, ref(boundary), name, follow) == 4 ==> err != nil && errIs(err, syscall.ENOTDIR)
  ensures [found] out(ver, ref(boundary), name, follow) == 0 ==> err == nil
  ensures [total] out(ver, ref(boundary), name, follow) <= 4 && out(ver, ref(boundary), name, follow) >= 0
  loop 0 invariant cur != nil && under(ref(boundary), ref(cur)) && symlinkHops >= 0 && symlinkHops <= 40 && at(ref(cur), rest)
  loop 0 invariant same(ver, ref(boundary), ref(start), slash, 0, follow, ref(cur), rest, symlinkHops)
  loop 0 decreases 40 - symlinkHops
  loop 0 decreases len(rest)

extern path.Split(s) (d, b)
  ensures cl(s) && s != "." && d == ite(contains(s, "/"), dirof(s) + "/", "") && b == ite(contains(s, "/"), baseof(s), s) || !(cl(s) && s != ".")
define cl(s) = clean(s) == s && islocal(s)
define dpart(n) = ite(contains(clean(n), "/"), dirof(clean(n)), ".")
define outp(v, b, n) = ite(!local(n), 2, ite(clean(n) == ".", 5, ite(dpart(n) == ".", 0, walk(v, b, b, dpart(n), 0, true))))
define plain(s) = s != "" && s != "." && s != ".." && !contains(s, "/")
axiom forall s string :: {clean(s)} cl(s) && s != "." && !contains(s, "/") ==> plain(s)
axiom forall s string :: {baseof(s)} cl(s) && s != "." ==> plain(baseof(s))

func (*synthfs.state).resolveParent(s, boundary, start, name, op) (parent, base, err)
  requires held > 0 && boundary == start && boundary != nil
  requires snap()
  ensures [inside] err == nil ==> parent != nil && under(ref(boundary), ref(parent))
  ensures [meaning] err == nil ==> outp(ver, ref(boundary), name) == 0 && local(name) && clean(name) != "." && ref(parent) == ite(dpart(name) == ".", ref(boundary), wnode(ver, ref(boundary), ref(boundary), dpart(name), 0, true))
  ensures [base] err == nil ==> plain(base) && base == ite(contains(clean(name), "/"), baseof(clean(name)), clean(name))
  ensures [escape] outp(ver, ref(boundary), name) == 2 ==> pe(err) && cast(err, "*fs.PathError").Err == vroot.ErrPathEscapes && errIs(err, vroot.ErrPathEscapes)
  ensures [shape] err != nil ==> pe(err)
  ensures [loop] outp(ver, ref(boundary), name) == 3 ==> pe(err) && errIs(cast(err, "*fs.PathError").Err, errdef.ELOOP) && errIs(err, errdef.ELOOP)

# ---- operations of a root: every node they touch is inside its boundary ----
ghost bnd int
extern (*sync.RWMutex).Lock(m)
  requires [free] held == 0
  modifies synthfs.dir.parent
  modifies ghost ver, ghost ver0, ghost held
  ensures held == 2 && ver0 == ver
  ensures snap()
extern (*sync.RWMutex).RLock(m)
  requires [free] held == 0
  modifies synthfs.dir.parent
  modifies ghost ver, ghost ver0, ghost held
  ensures held == 1 && ver0 == ver
  ensures snap()
extern (*sync.RWMutex).Unlock(m)
  requires [locked] held == 2
  modifies ghost held
  ensures held == 0
extern (*sync.RWMutex).RUnlock(m)
  requires [locked] held == 1
  modifies ghost held
  ensures held == 0
extern (*synthfs.dir).addEntry(d, name, n)
  requires [locked] held == 2
  requires [inside] under(bnd, ref(d))
  requires [plain_name] plain(name)
  modifies ghost ver
  ensures snap()
  ensures is(n, "*synthfs.dir") ==> under(bnd, ref(n))
  ensures inside(bnd, ref(n))
extern (*synthfs.dir).removeEntry(d, name) (r)
  requires [locked] held == 2
  requires [inside] under(bnd, ref(d))
  modifies ghost ver
  ensures snap()
extern (*synthfs.dir).entriesSnapshot(d) (r)
  requires [locked] held > 0
  requires [inside] under(bnd, ref(d))
  ensures forall i int :: {key(r[i])} 0 <= i && i < len(r) ==> r[i] != nil && key(r[i]) != 0 && inside(bnd, key(r[i])) && (is(r[i], "*synthfs.dir") ==> under(bnd, key(r[i])))
define nodeok(n) = n != nil && inside(bnd, ref(n)) && (is(n, "*synthfs.dir") ==> under(bnd, ref(n)))
invoke synthfs.node.meta(n) (m)
  requires [inside] inside(bnd, key(n))
  ensures m != nil
extern (*synthfs.metadata).toStat(m) (s)
extern synthfs.chmodApply(opt, m, mode)
extern clock.WallClock.Now(c) (t)
invoke clock.WallClock.Now(c) (t)
invoke synthfs.FileView.Open(v, flag) (f, err)
invoke synthfs.FileView.Close(v) (err)
invoke synthfs.FileView.Stat(v) (i, err)
invoke synthfs.FileViewAllocator.Allocate(a, n, p) (v, err)
  ensures err == nil ==> v != nil
extern synthfs.newDir(name, mode, t, parent) (d)
  requires under(bnd, ref(parent))
  ensures d != nil && fresh(d) && d.parent == parent
extern os.IsPathSeparator(c) (r)
extern errors.Unwrap(e) (r)
  ensures is(e, "*fs.PathError") ==> r == cast(e, "*fs.PathError").Err
define ok(r) = held == 0 && r.boundary != nil && bnd == ref(r.boundary)

func (*synthfs.Root).findNode(r, name, follow, op) (res, err)
  requires held > 0 && r.boundary != nil && snap()
  ensures [meaning] err == nil ==> out(ver, ref(r.boundary), name, follow) == 0
  ensures [inside] err == nil ==> res.node != nil && ref(res.node) != 0 && inside(ref(r.boundary), ref(res.node)) && (is(res.node, "*synthfs.dir") ==> under(ref(r.boundary), ref(res.node)))
  ensures [escape] out(ver, ref(r.boundary), name, follow) == 2 ==> pe(err) && cast(err, "*fs.PathError").Err == vroot.ErrPathEscapes && errIs(err, vroot.ErrPathEscapes)
  ensures [shape] err != nil ==> pe(err)
  ensures [loop] out(ver, ref(r.boundary), name, follow) == 3 ==> pe(err) && errIs(cast(err, "*fs.PathError").Err, errdef.ELOOP) && errIs(err, errdef.ELOOP)
verify (*synthfs.Root).OpenRoot(r, name) (s, err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [inside] err == nil ==> s.st == r.st && s.boundary != nil && under(bnd, ref(s.boundary))
  ensures [escape] out(ver0, bnd, name, true) == 2 ==> errIs(err, vroot.ErrPathEscapes)
func (*synthfs.Root).statNode(r, n) (i, err)
  modifies fs.PathError.Op
  modifies fs.PathError.Path
  requires nodeok(n) && bnd == ref(r.boundary)
extern synthfs.statFromFileView(m, v) (s, err)
verify (*synthfs.Root).Stat(r, name) (i, err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] out(ver0, bnd, name, true) == 2 ==> errIs(err, vroot.ErrPathEscapes)
verify (*synthfs.Root).Lstat(r, name) (i, err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] out(ver0, bnd, name, false) == 2 ==> errIs(err, vroot.ErrPathEscapes)
verify (*synthfs.Root).ReadLink(r, name) (t, err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] out(ver0, bnd, name, false) == 2 ==> errIs(err, vroot.ErrPathEscapes)
verify (*synthfs.Root).Chmod(r, name, mode) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] out(ver0, bnd, name, true) == 2 ==> errIs(err, vroot.ErrPathEscapes)
verify (*synthfs.Root).Chown(r, name, u, g) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] out(ver0, bnd, name, true) == 2 ==> errIs(err, vroot.ErrPathEscapes)
verify (*synthfs.Root).Lchown(r, name, u, g) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] out(ver0, bnd, name, false) == 2 ==> errIs(err, vroot.ErrPathEscapes)
verify (*synthfs.Root).Chtimes(r, name, a, m) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] out(ver0, bnd, name, true) == 2 ==> errIs(err, vroot.ErrPathEscapes)

func (*synthfs.Root).mkdirLocked(r, name, perm) (err)
  requires held == 2 && r.boundary != nil && bnd == ref(r.boundary) && snap()
  modifies ghost ver
  ensures snap()
  ensures [escape] outp(old(ver), bnd, name) == 2 ==> errIs(err, vroot.ErrPathEscapes)
  ensures [refused] !local(name) ==> ver == old(ver)
verify (*synthfs.Root).Mkdir(r, name, perm) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] outp(ver0, bnd, name) == 2 ==> errIs(err, vroot.ErrPathEscapes)
verify (*synthfs.Root).Remove(r, name) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] outp(ver0, bnd, name) == 2 ==> errIs(err, vroot.ErrPathEscapes)
  ensures [refused] !local(name) ==> ver == ver0
extern (*list.List).Len(l) (n)
extern (*list.List).Init(l) (r)
func (*synthfs.Root).removeSubtree(r, n)
  requires held == 2 && nodeok(n) && ref(n) != 0
  modifies mapof(synthfs.dir.index)
func (*synthfs.Root).removeAllLocked(r, name) (err)
  requires held == 2 && r.boundary != nil && bnd == ref(r.boundary) && snap()
  modifies mapof(synthfs.dir.index)
  modifies ghost ver
  ensures [escape] outp(old(ver), bnd, name) == 2 ==> errIs(err, vroot.ErrPathEscapes)
  ensures [refused] !local(name) ==> ver == old(ver)
verify (*synthfs.Root).RemoveAll(r, name) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [refused] !local(name) ==> err != nil
verify (*synthfs.Root).Symlink(r, o, name) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] outp(ver0, bnd, name) == 2 ==> errIs(err, vroot.ErrPathEscapes)
verify (*synthfs.Root).Link(r, o, name) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape_old] out(ver0, bnd, o, true) == 2 ==> errIs(err, vroot.ErrPathEscapes)
  ensures [escape] err == nil ==> outp(ver0, bnd, name) == 0
verify (*synthfs.Root).Rename(r, o, name) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape_old] outp(ver0, bnd, o) == 2 ==> errIs(err, vroot.ErrPathEscapes)
  ensures [escape] err == nil ==> outp(ver0, bnd, name) == 0

# creating and opening
extern (*synthfs.Root).userPath(r, n) (u)
func openflag.WriteOp(flag) (r)
func openflag.Writable(flag) (r)
extern (*synthfs.fileHandle).Truncate(h, n) (err)
func (*synthfs.Root).openFileNode(r, nd, n, flag) (h, err)
  requires [inside] nd != nil && inside(bnd, ref(nd)) && held == 2
  modifies synthfs.metadata.refCount
  modifies fs.PathError.Op
  modifies fs.PathError.Path
  ensures err == nil ==> h != nil && h.node == nd
invoke vroot.File.Close(f) (err)
verify (*synthfs.Root).OpenFile(r, name, flag, perm) (f, err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [escape] flag & os.O_CREATE == 0 && out(ver0, bnd, name, true) == 2 ==> errIs(err, vroot.ErrPathEscapes)
  ensures [escape_create] outp(ver0, bnd, name) == 2 && flag & os.O_CREATE != 0 ==> errIs(err, vroot.ErrPathEscapes)
  ensures [not_outside] err == nil && is(f, "*synthfs.dirHandle") ==> inside(bnd, ref(cast(f, "*synthfs.dirHandle").node))
  ensures [not_outside_file] err == nil && is(f, "*synthfs.fileHandle") ==> inside(bnd, ref(cast(f, "*synthfs.fileHandle").node))
  ensures [refused] !local(name) ==> ver == ver0

# merging other file systems in
invoke fs.ReadLinkFS.Lstat(f, n) (i, err)
  ensures err == nil ==> i != nil
invoke fs.ReadLinkFS.ReadLink(f, n) (t, err)
extern fs.Stat(f, n) (i, err)
  ensures err == nil ==> i != nil
extern fs.ReadDir(f, n) (es, err)
  ensures forall i int :: {key(es[i])} 0 <= i && i < len(es) ==> es[i] != nil
extern synthfs.NewFsView(f, n) (v, err)
  ensures err == nil ==> v != nil
extern synthfs.slashJoin(a, b) (c)
extern synthfs.parentSlashOf(a) (c)
extern synthfs.nodeAsAddEntry(p, n) (e)
callback synthfs.AddFunc(i, e) (d, err)
func (*synthfs.Root).materializeDir(r, dst, base, info, existing, override) (d)
  requires held == 2 && snap() && dst != nil && under(bnd, ref(dst)) && plain(base) && info != nil
  requires existing == nil || nodeok(existing) && ref(existing) != 0
  modifies mapof(synthfs.dir.index)
  modifies ghost ver
  ensures d != nil && under(bnd, ref(d)) && snap()
# names in a listing are single names (contract of fs.DirEntry)
invoke fs.DirEntry.Name(e) (n)
  ensures plain(n)
func (*synthfs.Root).addFSWalk(r, dst, base, mountSlash, fsys, rl, src, cb) (err)
  requires held == 2 && snap() && dst != nil && under(bnd, ref(dst)) && plain(base) && cb != nil
  modifies everything
  ensures held == 2 && bnd == old(bnd) && snap()
func (*synthfs.Root).descend(r, d, parentSlash, fsys, rl, src, cb) (err)
  requires held == 2 && snap() && d != nil && under(bnd, ref(d)) && cb != nil
  modifies everything
  ensures held == 2 && bnd == old(bnd) && snap()
  loop 0 invariant held == 2 && bnd == old(bnd) && snap()
extern paths.PathFromHead(n) (seq)
invoke synthfs.AddEntry.Info(e) (i)
  ensures i != nil
func (*synthfs.Root).ensureParents(r, name, op) (parent, base, err)
  requires held == 2 && snap() && r.boundary != nil && bnd == ref(r.boundary)
  modifies ghost ver
  modifies fs.PathError.Op
  modifies fs.PathError.Path
  ensures err == nil ==> parent != nil && under(bnd, ref(parent)) && plain(base)
  ensures snap()
  ensures [refused] !local(name) ==> err != nil && ver == old(ver)
  loop 100 invariant snap() && parent != nil && under(bnd, ref(parent))
verify (*synthfs.Root).AddFile(r, name, view, cb) (err)
  requires ok(r) && view != nil
  ensures [unlocked] held == 0
verify (*synthfs.Root).AddFS(r, name, fsys, cb) (err)
  requires ok(r) && fsys != nil
  ensures [unlocked] held == 0
  ensures [refused] !local(name) ==> err != nil
verify (*synthfs.Root).MkdirAll(r, name, perm) (err)
  requires ok(r)
  ensures [unlocked] held == 0
  ensures [refused] !local(name) ==> errIs(err, vroot.ErrPathEscapes)
  loop 100 invariant held == 2 && snap()
