unit Y04
title file handles honour their open mode and position
packages vroot/synthfs vroot/internal/openflag
include std

# ---- locks: the owner of a handle's lock is the handle ----
# While a handle's lock is free another call may close the handle; nothing opens it again.
ghost held int
ghost hheld int
ghost hops int
define fh(m) = cast(outer(m, "synthfs.fileHandle.mu"), "*synthfs.fileHandle")
define dh(m) = cast(outer(m, "synthfs.dirHandle.mu"), "*synthfs.dirHandle")
ghost cur0 int
ghost lens int

extern (*sync.Mutex).Lock(m)
  requires [free] hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost hheld, ghost cur0
  ensures hheld == 1
  ensures old(fh(m).closed) ==> fh(m).closed
  ensures old(dh(m).closed) ==> dh(m).closed
  ensures dh(m).cursor >= 0 && cur0 == dh(m).cursor
extern (*sync.Mutex).Unlock(m)
  requires [locked] hheld == 1
  requires [cursor] dh(m).cursor >= 0
  modifies ghost hheld, ghost hops
  ensures hheld == 0 && hops == old(hops) + 1
extern (*sync.RWMutex).Lock(m)
  requires [free] held == 0
  modifies ghost held
  ensures held == 2
extern (*sync.RWMutex).RLock(m)
  requires [free] held == 0
  modifies ghost held
  ensures held == 1
extern (*sync.RWMutex).Unlock(m)
  requires [locked] held == 2
  modifies ghost held
  ensures held == 0
extern (*sync.RWMutex).RUnlock(m)
  requires [locked] held == 1
  modifies ghost held
  ensures held == 0
extern fsutil.WrapPathErr(op, path, err) (e)
  ensures err != nil ==> e != nil && e != io.EOF && (errIs(err, fs.ErrClosed) ==> errIs(e, fs.ErrClosed))

# ---- open flags ----
# 1603 = O_WRONLY | O_RDWR | O_APPEND | O_CREATE | O_TRUNC on this platform
define rdmode(f) = f & os.O_WRONLY == 0 || f & os.O_RDWR != 0
define wrmode(f) = f & os.O_WRONLY != 0 || f & os.O_RDWR != 0
func openflag.WriteOnly(flag) (r)
  ensures r == !rdmode(flag)
func openflag.ReadOnly(flag) (r)
  ensures r == !wrmode(flag)
func openflag.Readable(flag) (r)
  ensures r == rdmode(flag)
func openflag.Writable(flag) (r)
  ensures r == wrmode(flag)
func openflag.ReadWrite(flag) (r)
  ensures r == (rdmode(flag) && wrmode(flag))
func openflag.WriteOp(flag) (r)
  ensures r == (flag & 1603 != 0)

# ---- the file behind a handle: every call is recorded, answers are arbitrary ----
ghost nops int
ghost op string
ghost who int
ghost ap int
ghost al int
ghost an int
ghost am int
ghost as string
ghost rn int
ghost re int
ghost ret int
define sameerr(e) = ref(e) == re && tag(e) == ret
ghost viewop int

invoke vroot.File.Read(f, p) (n, err)
  modifies elems(p)
  sets nops = nops + 1
  sets op = "Read"
  sets who = key(f)
  sets ap = ref(p)
  sets al = len(p)
  sets rn = n
  sets re = ref(err)
  sets ret = tag(err)
invoke vroot.File.ReadAt(f, p, off) (n, err)
  modifies elems(p)
  sets nops = nops + 1
  sets op = "ReadAt"
  sets who = key(f)
  sets ap = ref(p)
  sets al = len(p)
  sets rn = n
  sets an = off
  sets re = ref(err)
  sets ret = tag(err)
invoke vroot.File.Write(f, p) (n, err)
  modifies elems(p)
  sets nops = nops + 1
  sets op = "Write"
  sets who = key(f)
  sets ap = ref(p)
  sets al = len(p)
  sets rn = n
  sets re = ref(err)
  sets ret = tag(err)
invoke vroot.File.WriteAt(f, p, off) (n, err)
  modifies elems(p)
  sets nops = nops + 1
  sets op = "WriteAt"
  sets who = key(f)
  sets ap = ref(p)
  sets al = len(p)
  sets rn = n
  sets an = off
  sets re = ref(err)
  sets ret = tag(err)
invoke vroot.File.WriteString(f, s) (n, err)
  sets nops = nops + 1
  sets op = "WriteString"
  sets who = key(f)
  sets rn = n
  sets as = s
  sets re = ref(err)
  sets ret = tag(err)
invoke vroot.File.Seek(f, off, whence) (n, err)
  sets nops = nops + 1
  sets op = "Seek"
  sets who = key(f)
  sets rn = n
  sets an = off
  sets am = whence
  sets re = ref(err)
  sets ret = tag(err)
invoke vroot.File.Truncate(f, size) (err)
  sets nops = nops + 1
  sets op = "Truncate"
  sets who = key(f)
  sets an = size
  sets re = ref(err)
  sets ret = tag(err)
invoke vroot.File.Sync(f) (err)
  sets nops = nops + 1
  sets op = "Sync"
  sets who = key(f)
  sets re = ref(err)
  sets ret = tag(err)
invoke vroot.File.Close(f) (err)
  sets nops = nops + 1
  sets op = "Close"
  sets who = key(f)
  sets re = ref(err)
  sets ret = tag(err)
invoke synthfs.FileView.Stat(v) (i, err)
  ensures err == nil ==> i != nil
  sets viewop = viewop + 1
invoke synthfs.FileView.Close(v) (err)
invoke synthfs.FileView.Open(v, flag) (f, err)
  ensures err == nil ==> f != nil
  sets nops = nops + 1
  sets op = "Open"
  sets an = flag
  sets who = key(f)

# ---- handles of files ----
func (*synthfs.fileHandle).isClosed(h) (r)
  requires hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [state] r == h.closed && hheld == 0
  ensures [stays] old(h.closed) ==> r
func (*synthfs.fileHandle).Read(h, p) (n, err)
  requires h.inner != nil && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies elems(p)
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [locks] hheld == 0
  ensures [closed] old(h.closed) ==> n == 0 && err != nil && errIs(err, fs.ErrClosed) && nops == old(nops)
  ensures [mode] !rdmode(h.flag) ==> n == 0 && err != nil && nops == old(nops)
  ensures [once] nops == old(nops) || nops == old(nops) + 1 && op == "Read" && who == key(h.inner) && ap == ref(p) && al == len(p)
  ensures [answer] nops != old(nops) ==> sameerr(err) && n == rn
  ensures [open] nops == old(nops) ==> n == 0 && err != nil && err != io.EOF && (h.closed || !rdmode(h.flag))
func (*synthfs.fileHandle).ReadAt(h, p, off) (n, err)
  requires h.inner != nil && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies elems(p)
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [locks] hheld == 0
  ensures [closed] old(h.closed) ==> n == 0 && err != nil && errIs(err, fs.ErrClosed) && nops == old(nops)
  ensures [mode] !rdmode(h.flag) ==> n == 0 && err != nil && nops == old(nops)
  ensures [once] nops == old(nops) || nops == old(nops) + 1 && op == "ReadAt" && who == key(h.inner) && ap == ref(p) && al == len(p) && an == off
  ensures [answer] nops != old(nops) ==> sameerr(err) && n == rn
  ensures [open] nops == old(nops) ==> n == 0 && err != nil && err != io.EOF && (h.closed || !rdmode(h.flag))
func (*synthfs.fileHandle).Write(h, p) (n, err)
  requires h.inner != nil && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies elems(p)
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [locks] hheld == 0
  ensures [closed] old(h.closed) ==> n == 0 && err != nil && errIs(err, fs.ErrClosed) && nops == old(nops)
  ensures [mode] !wrmode(h.flag) ==> n == 0 && err != nil && nops == old(nops)
  ensures [once] nops == old(nops) || nops == old(nops) + 1 && op == "Write" && who == key(h.inner) && ap == ref(p) && al == len(p)
  ensures [answer] nops != old(nops) ==> sameerr(err) && n == rn
  ensures [open] nops == old(nops) ==> n == 0 && err != nil && err != io.EOF && (h.closed || !wrmode(h.flag))
func (*synthfs.fileHandle).WriteAt(h, p, off) (n, err)
  requires h.inner != nil && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies elems(p)
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [locks] hheld == 0
  ensures [closed] old(h.closed) ==> n == 0 && err != nil && errIs(err, fs.ErrClosed) && nops == old(nops)
  ensures [mode] !wrmode(h.flag) ==> n == 0 && err != nil && nops == old(nops)
  ensures [once] nops == old(nops) || nops == old(nops) + 1 && op == "WriteAt" && who == key(h.inner) && ap == ref(p) && al == len(p) && an == off
  ensures [answer] nops != old(nops) ==> sameerr(err) && n == rn
  ensures [open] nops == old(nops) ==> n == 0 && err != nil && err != io.EOF && (h.closed || !wrmode(h.flag))
func (*synthfs.fileHandle).WriteString(h, s) (n, err)
  requires h.inner != nil && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [locks] hheld == 0
  ensures [closed] old(h.closed) ==> n == 0 && err != nil && errIs(err, fs.ErrClosed) && nops == old(nops)
  ensures [mode] !wrmode(h.flag) ==> n == 0 && err != nil && nops == old(nops)
  ensures [once] nops == old(nops) || nops == old(nops) + 1 && op == "WriteString" && who == key(h.inner) && as == s
  ensures [answer] nops != old(nops) ==> sameerr(err) && n == rn
  ensures [open] nops == old(nops) ==> n == 0 && err != nil && err != io.EOF && (h.closed || !wrmode(h.flag))
func (*synthfs.fileHandle).Seek(h, off, whence) (n, err)
  requires h.inner != nil && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [locks] hheld == 0
  ensures [closed] old(h.closed) ==> n == 0 && err != nil && errIs(err, fs.ErrClosed) && nops == old(nops)
  ensures [once] nops == old(nops) || nops == old(nops) + 1 && op == "Seek" && who == key(h.inner) && an == off && am == whence
  ensures [answer] nops != old(nops) ==> sameerr(err) && n == rn
  ensures [open] nops == old(nops) ==> n == 0 && err != nil && err != io.EOF && (h.closed)
func (*synthfs.fileHandle).Truncate(h, size) (err)
  requires h.inner != nil && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [locks] hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed) && nops == old(nops)
  ensures [mode] !wrmode(h.flag) ==> err != nil && nops == old(nops)
  ensures [once] nops == old(nops) || nops == old(nops) + 1 && op == "Truncate" && who == key(h.inner) && an == size
  ensures [answer] nops != old(nops) ==> sameerr(err)
  ensures [open] nops == old(nops) ==> err != nil && err != io.EOF && (h.closed || !wrmode(h.flag))
func (*synthfs.fileHandle).Sync(h) (err)
  requires h.inner != nil && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [locks] hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed) && nops == old(nops)
  ensures [once] nops == old(nops) || nops == old(nops) + 1 && op == "Sync" && who == key(h.inner)
  ensures [answer] nops != old(nops) ==> sameerr(err)
  ensures [open] nops == old(nops) ==> err != nil && err != io.EOF && (h.closed)
func (*synthfs.fileHandle).Close(h) (err)
  requires h.inner != nil && h.st != nil && h.node != nil && held == 0 && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies h.node.metadata.refCount
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  modifies ghost hheld, ghost hops, ghost cur0
  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] h.closed
  ensures [again] old(h.closed) ==> err == nil && nops == old(nops) && h.node.refCount == old(h.node.refCount)
  ensures [once] nops == old(nops) && err == nil && h.node.refCount == old(h.node.refCount) || nops == old(nops) + 1 && op == "Close" && who == key(h.inner) && sameerr(err) && h.node.refCount == ite(old(h.node.refCount) > 0, old(h.node.refCount) - 1, old(h.node.refCount))
func (*synthfs.fileHandle).Stat(h) (i, err)
  requires h.inner != nil && h.st != nil && h.node != nil && held == 0 && hheld == 0
  requires h.node.view != nil
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost hheld, ghost hops, ghost cur0
  modifies ghost held, ghost viewop
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> i == nil && err != nil && errIs(err, fs.ErrClosed)
  ensures [open] err == nil ==> i != nil
func (*synthfs.fileHandle).Chmod(h, mode) (err)
  requires h.inner != nil && h.st != nil && h.node != nil && held == 0 && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies h.node.metadata.mode
  modifies ghost hheld, ghost hops, ghost cur0
  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed) && h.node.mode == old(h.node.mode)
  ensures [open] err == nil || h.closed
func (*synthfs.fileHandle).Chown(h, uid, gid) (err)
  requires h.inner != nil && h.st != nil && h.node != nil && held == 0 && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies h.node.metadata.uid
  modifies h.node.metadata.gid
  modifies ghost hheld, ghost hops, ghost cur0
  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed) && h.node.uid == old(h.node.uid) && h.node.gid == old(h.node.gid)
  ensures [open] err == nil && h.node.uid == uid && h.node.gid == gid || h.closed
extern synthfs.chmodApply(opt, m, mode)
  modifies m.mode

func (*synthfs.fileHandle).ReadDir(h, n) (l, err)
  ensures err != nil
func (*synthfs.fileHandle).Readdir(h, n) (l, err)
  ensures err != nil
func (*synthfs.fileHandle).Readdirnames(h, n) (l, err)
  ensures err != nil
# ---- handles of directories ----
spec dent(g int, i int) int
ghost gen int
ghost snaplen int
extern (*synthfs.dir).entriesSnapshot(d) (r)
  requires [locked] held != 0
  modifies ghost gen, ghost snaplen
  ensures len(r) == snaplen
  ensures forall i int :: {key(r[i])} {dent(gen, i)} 0 <= i && i < len(r) ==> r[i] != nil && key(r[i]) == dent(gen, i)
spec metaof(n int) int
invoke synthfs.node.meta(n) (m)
  ensures m != nil && ref(m) == metaof(key(n))
spec dname(d int) string
extern fs.FileInfoToDirEntry(i) (d)
  ensures d != nil && dname(key(d)) == cast(i, "synthfs.stat").name
extern filepath.Base(s) (r)
extern (*list.List).Len(l) (n)
  ensures n >= 0
define namea(k) = cast(metaof(dent(gen, k)), "*synthfs.metadata").name
define batch(n) = ite(cur0 >= snaplen, 0, ite(n > 0 && n < snaplen - cur0, n, snaplen - cur0))
func (*synthfs.dirHandle).readEntries(h, n) (out, err)
  option nooverflow safe
  requires hheld == 1 && held == 0 && h.st != nil && h.node != nil && h.cursor >= 0 && h.cursor == cur0
  modifies h.cursor
  modifies ghost held, ghost gen, ghost snaplen
  ensures [locks] held == 0
  ensures [closed] h.closed ==> err != nil && err != io.EOF && errIs(err, fs.ErrClosed) && h.cursor == cur0 && len(out) == 0
  ensures [end] !h.closed && cur0 >= snaplen && n > 0 ==> err == io.EOF && len(out) == 0
  ensures [ok] !h.closed && (cur0 < snaplen || n <= 0) ==> err == nil
  ensures [batch] !h.closed ==> len(out) == batch(n) && h.cursor == cur0 + len(out)
  ensures [entries] forall i int :: {key(out[i])} {dent(gen, cur0 + i)} 0 <= i && i < len(out) ==> out[i] != nil && key(out[i]) == dent(gen, cur0 + i)

verify (*synthfs.dirHandle).ReadDir(h, n) (res, err)
  option nooverflow safe
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> len(res) == 0 && err != nil && errIs(err, fs.ErrClosed)
  ensures [end] !h.closed && cur0 >= snaplen && n > 0 ==> err == io.EOF && len(res) == 0
  ensures [ok] !h.closed && (cur0 < snaplen || n <= 0) ==> err == nil
  ensures [batch] !h.closed ==> len(res) == batch(n) && h.cursor == cur0 + len(res)
  ensures [names] forall j int :: {key(res[j])} 0 <= j && j < len(res) ==> dname(key(res[j])) == namea(cur0 + j)
  loop 0 invariant len(out) == rangeindex + 1 && fresh(out)
  loop 0 invariant forall j int :: {key(out[j])} 0 <= j && j < len(out) ==> dname(key(out[j])) == namea(cur0 + j)
verify (*synthfs.dirHandle).Readdir(h, n) (res, err)
  option nooverflow safe
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> len(res) == 0 && err != nil && errIs(err, fs.ErrClosed)
  ensures [end] !h.closed && cur0 >= snaplen && n > 0 ==> err == io.EOF && len(res) == 0
  ensures [ok] !h.closed && (cur0 < snaplen || n <= 0) ==> err == nil
  ensures [batch] !h.closed ==> len(res) == batch(n) && h.cursor == cur0 + len(res)
  ensures [names] forall j int :: {key(res[j])} 0 <= j && j < len(res) ==> cast(res[j], "synthfs.stat").name == namea(cur0 + j)
  loop 0 invariant len(out) == rangeindex + 1 && fresh(out)
  loop 0 invariant forall j int :: {key(out[j])} 0 <= j && j < len(out) ==> cast(out[j], "synthfs.stat").name == namea(cur0 + j)
verify (*synthfs.dirHandle).Readdirnames(h, n) (res, err)
  option nooverflow safe
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> len(res) == 0 && err != nil && errIs(err, fs.ErrClosed)
  ensures [end] !h.closed && cur0 >= snaplen && n > 0 ==> err == io.EOF && len(res) == 0
  ensures [ok] !h.closed && (cur0 < snaplen || n <= 0) ==> err == nil
  ensures [batch] !h.closed ==> len(res) == batch(n) && h.cursor == cur0 + len(res)
  loop 0 invariant len(out) == rangeindex + 1 && fresh(out)
func (*synthfs.dirHandle).isClosed(h) (r)
  requires hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [state] r == h.closed && hheld == 0
  ensures [stays] old(h.closed) ==> r
func (*synthfs.dirHandle).Close(h) (err)
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies h.node.metadata.refCount
  modifies ghost hheld, ghost hops, ghost cur0
  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] h.closed && err == nil
  ensures [again] old(h.closed) ==> h.node.refCount == old(h.node.refCount)
  ensures [once] h.node.refCount == old(h.node.refCount) || h.node.refCount == old(h.node.refCount) - 1 && h.node.refCount >= 0
func (*synthfs.dirHandle).Sync(h) (err)
  requires held == 0 && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost hheld, ghost hops, ghost cur0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed)
  ensures [open] err == nil || h.closed
func (*synthfs.dirHandle).Stat(h) (i, err)
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost hheld, ghost hops, ghost cur0
  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> i == nil && err != nil && errIs(err, fs.ErrClosed)
  ensures [open] err == nil && i != nil || h.closed
func (*synthfs.dirHandle).Chmod(h, mode) (err)
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies h.node.metadata.mode
  modifies ghost hheld, ghost hops, ghost cur0
  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed) && h.node.mode == old(h.node.mode)
  ensures [open] err == nil || h.closed
func (*synthfs.dirHandle).Chown(h, uid, gid) (err)
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies h.node.metadata.uid
  modifies h.node.metadata.gid
  modifies ghost hheld, ghost hops, ghost cur0
  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed) && h.node.uid == old(h.node.uid) && h.node.gid == old(h.node.gid)
  ensures [open] err == nil && h.node.uid == uid && h.node.gid == gid || h.closed
func (*synthfs.dirHandle).Seek(h, offset, whence) (r, err)
  option safe
  requires h.st != nil && h.node != nil && h.node.ordered != nil && held == 0 && hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost hheld, ghost hops, ghost cur0
  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed)
  ensures [negative] whence == io.SeekStart && offset < 0 || whence < 0 || whence > 2 ==> err != nil
  ensures [rewind] whence == io.SeekStart && offset == 0 && !h.closed ==> err == nil && h.cursor == 0
  ensures [fail] err != nil ==> h.cursor == cur0

func (*synthfs.dirHandle).Read(h, p) (n, err)
  ensures err != nil && err != io.EOF && n == 0
func (*synthfs.dirHandle).ReadAt(h, p, off) (n, err)
  ensures err != nil && err != io.EOF && n == 0
func (*synthfs.dirHandle).Write(h, p) (n, err)
  ensures err != nil && err != io.EOF && n == 0
func (*synthfs.dirHandle).WriteAt(h, p, off) (n, err)
  ensures err != nil && err != io.EOF && n == 0
func (*synthfs.dirHandle).WriteString(h, s) (n, err)
  ensures err != nil && err != io.EOF && n == 0
func (*synthfs.dirHandle).Truncate(h, n) (err)
  ensures err != nil && err != io.EOF

# ---- opening ----
ghost found bool
ghost looked int
ghost nadd int
ghost nalloc int
extern (*synthfs.state).resolveParent(s, boundary, start, name, op) (parent, base, err)
  requires [locked] held != 0
  ensures err == nil ==> parent != nil
extern (*synthfs.Root).findNode(r, name, follow, op) (res, err)
  requires [locked] held != 0
  ensures err == nil ==> res.node != nil
  ensures is(res.node, "*synthfs.file") ==> key(res.node) != 0 && cast(res.node, "*synthfs.file").view != nil
  ensures is(res.node, "*synthfs.dir") ==> key(res.node) != 0
extern (*synthfs.Root).userPath(r, name) (p)
extern (*synthfs.dir).lookup(d, name) (n)
  requires [locked] held != 0
  sets looked = looked + 1
  sets found = (n != nil)
extern (*synthfs.dir).addEntry(d, name, n)
  requires [locked] held == 2
  requires [absent] looked > 0 && !found
  modifies ghost nadd
  ensures nadd == old(nadd) + 1
extern (*synthfs.dir).removeEntry(d, name) (n)
  requires [locked] held == 2
  modifies ghost nadd
  ensures nadd == old(nadd) - 1
invoke synthfs.FileViewAllocator.Allocate(a, name, perm) (v, err)
  ensures err == nil ==> v != nil
  sets nalloc = nalloc + 1
  sets am = perm
invoke clock.WallClock.Now(c) (t)
func synthfs.toPathErr(op, name, err) (e)
  ensures err != nil ==> e != nil
define ofile(f) = cast(f, "*synthfs.fileHandle")
define odir(f) = cast(f, "*synthfs.dirHandle")
func (*synthfs.Root).openFileNode(r, nd, userName, flag) (h, err)
  requires [locked] held == 2
  requires nd != nil && nd.view != nil
  modifies nd.metadata.refCount
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  ensures [once] nops == old(nops) + 1 && op == "Open" && an == flag
  ensures [fail] err != nil ==> h == nil && nd.refCount == old(nd.refCount)
  ensures [handle] err == nil ==> h != nil && fresh(h) && h.flag == flag && h.inner != nil && key(h.inner) == who && h.node == nd && h.st == r.st && !h.closed && nd.refCount == old(nd.refCount) + 1
func (*synthfs.Root).OpenFile(r, name, flag, perm) (f, err)
  requires r.st != nil && r.boundary != nil && held == 0 && hheld == 0 && nadd == 0 && nops == 0 && looked == 0 && nalloc == 0
  requires r.st.opt.allocator != nil && r.st.opt.clock != nil
  modifies synthfs.metadata.refCount
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret
  modifies ghost hheld, ghost hops, ghost cur0
  modifies ghost held, ghost found, ghost looked, ghost nadd, ghost nalloc
  ensures [locks] held == 0 && hheld == 0
  ensures [kind] err == nil ==> is(f, "*synthfs.fileHandle") || is(f, "*synthfs.dirHandle")
  ensures [file] err == nil && is(f, "*synthfs.fileHandle") ==> ofile(f).flag == flag && ofile(f).inner != nil && ofile(f).st == r.st && ofile(f).node != nil
  ensures [dir] err == nil && is(f, "*synthfs.dirHandle") ==> flag & 1603 == 0 && odir(f).cursor == 0 && nops == 0
  ensures [excl] flag & os.O_CREATE != 0 && flag & os.O_EXCL != 0 && looked > 0 && found ==> err != nil && nops == 0 && nadd == 0
  ensures [create] nadd != 0 ==> err == nil && nadd == 1 && flag & os.O_CREATE != 0 && !found && nalloc == 1
  ensures [failed] err != nil ==> nadd == 0
  ensures [trunc] op == "Truncate" && nops > 0 ==> an == 0 && flag & os.O_TRUNC != 0 && wrmode(flag)
  ensures [truncated] err == nil && is(f, "*synthfs.fileHandle") && nadd == 0 && flag & os.O_TRUNC != 0 && wrmode(flag) ==> nops == 2 && op == "Truncate"

