out=[]
W=out.append
W('''unit Y04
title file handles honour their open mode and position
packages vroot/synthfs vroot/internal/openflag
include std

# ---- locks: the owner of a handle's lock is the handle ----
# While a handle's lock is free another call may close the handle; nothing opens it again.
ghost held int
ghost hheld int
ghost hops int
define fh(m) = cast(outer(m, "synthfs.fileHandle.mu"), "*synthfs.fileHandle")
define dh(m) = cast(outer(m, "synthfs.dirHandle.mu"), "*synthfs.dirHandle")
ghost cur0 int
ghost lens int

extern (*sync.Mutex).Lock(m)
  requires [free] hheld == 0
  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
  modifies ghost hheld, ghost cur0
  ensures hheld == 1
  ensures old(fh(m).closed) ==> fh(m).closed
  ensures old(dh(m).closed) ==> dh(m).closed
  ensures dh(m).cursor >= 0 && cur0 == dh(m).cursor
extern (*sync.Mutex).Unlock(m)
  requires [locked] hheld == 1
  requires [cursor] dh(m).cursor >= 0
  modifies ghost hheld, ghost hops
  ensures hheld == 0 && hops == old(hops) + 1
extern (*sync.RWMutex).Lock(m)
  requires [free] held == 0
  modifies ghost held
  ensures held == 2
extern (*sync.RWMutex).RLock(m)
  requires [free] held == 0
  modifies ghost held
  ensures held == 1
extern (*sync.RWMutex).Unlock(m)
  requires [locked] held == 2
  modifies ghost held
  ensures held == 0
extern (*sync.RWMutex).RUnlock(m)
  requires [locked] held == 1
  modifies ghost held
  ensures held == 0
extern fsutil.WrapPathErr(op, path, err) (e)
  ensures err != nil ==> e != nil && e != io.EOF && (errIs(err, fs.ErrClosed) ==> errIs(e, fs.ErrClosed))

# ---- open flags ----
# 1603 = O_WRONLY | O_RDWR | O_APPEND | O_CREATE | O_TRUNC on this platform
define rdmode(f) = f & os.O_WRONLY == 0 || f & os.O_RDWR != 0
define wrmode(f) = f & os.O_WRONLY != 0 || f & os.O_RDWR != 0
func openflag.WriteOnly(flag) (r)
  ensures r == !rdmode(flag)
func openflag.ReadOnly(flag) (r)
  ensures r == !wrmode(flag)
func openflag.Readable(flag) (r)
  ensures r == rdmode(flag)
func openflag.Writable(flag) (r)
  ensures r == wrmode(flag)
func openflag.ReadWrite(flag) (r)
  ensures r == (rdmode(flag) && wrmode(flag))
func openflag.WriteOp(flag) (r)
  ensures r == (flag & 1603 != 0)

# ---- the file behind a handle: every call is recorded, answers are arbitrary ----
ghost nops int
ghost op string
ghost who int
ghost ap int
ghost al int
ghost an int
ghost am int
ghost as string
ghost rn int
ghost re int
ghost ret int
define sameerr(e) = ref(e) == re && tag(e) == ret
ghost viewop int
''')
def inv(m,params,res,sets):
    W(f'invoke vroot.File.{m}(f{"".join(", "+p for p in params)}) ({res})')
    if 'p' in params: W('  modifies elems(p)')
    W(f'  sets nops = nops + 1\n  sets op = "{m}"\n  sets who = key(f)')
    for a,b in sets: W(f'  sets {a} = {b}')
    W('  sets re = ref(err)\n  sets ret = tag(err)')
P=[('ap','ref(p)'),('al','len(p)')]
N=[('rn','n')]
inv('Read',['p'],'n, err',P+N)
inv('ReadAt',['p','off'],'n, err',P+N+[('an','off')])
inv('Write',['p'],'n, err',P+N)
inv('WriteAt',['p','off'],'n, err',P+N+[('an','off')])
inv('WriteString',['s'],'n, err',N+[('as','s')])
inv('Seek',['off','whence'],'n, err',N+[('an','off'),('am','whence')])
inv('Truncate',['size'],'err',[('an','size')])
inv('Sync',[],'err',[])
inv('Close',[],'err',[])
W('''invoke synthfs.FileView.Stat(v) (i, err)
  ensures err == nil ==> i != nil
  sets viewop = viewop + 1
invoke synthfs.FileView.Close(v) (err)
invoke synthfs.FileView.Open(v, flag) (f, err)
  ensures err == nil ==> f != nil
  sets nops = nops + 1
  sets op = "Open"
  sets an = flag
  sets who = key(f)
''')
LM='''  modifies synthfs.fileHandle.closed
  modifies synthfs.dirHandle.closed
  modifies synthfs.dirHandle.cursor
'''
IG="  modifies ghost nops, ghost op, ghost who, ghost ap, ghost al, ghost an, ghost am, ghost as, ghost rn, ghost re, ghost ret\n"
LG="  modifies ghost hheld, ghost hops, ghost cur0\n"
REQ="  requires h.inner != nil && h.st != nil && h.node != nil && held == 0 && hheld == 0\n"
REQ0="  requires h.inner != nil && hheld == 0\n"
W('''# ---- handles of files ----
func (*synthfs.fileHandle).isClosed(h) (r)
  requires hheld == 0
'''+LM+LG+'''  ensures [state] r == h.closed && hheld == 0
  ensures [stays] old(h.closed) ==> r''')
def m(name,params,res,mode,extra,elems=False):
    W(f'func (*synthfs.fileHandle).{name}(h{"".join(", "+p for p in params)}) ({res})')
    W(REQ0.rstrip()); W(LM.rstrip())
    if elems: W('  modifies elems(p)')
    W(IG.rstrip()); W(LG.rstrip())
    zero='n == 0 && ' if 'n,' in res else ''
    W('  ensures [locks] hheld == 0')
    W(f'  ensures [closed] old(h.closed) ==> {zero}err != nil && errIs(err, fs.ErrClosed) && nops == old(nops)')
    if mode:
        W(f'  ensures [mode] !{mode}(h.flag) ==> {zero}err != nil && nops == old(nops)')
    ok=f'nops != old(nops)'
    W(f'  ensures [once] nops == old(nops) || nops == old(nops) + 1 && op == "{name}" && who == key(h.inner){extra}')
    W(f'  ensures [answer] nops != old(nops) ==> sameerr(err)'+(' && n == rn' if 'n,' in res else ''))
    W(f'  ensures [open] nops == old(nops) ==> {zero}err != nil && err != io.EOF && (h.closed{" || !"+mode+"(h.flag)" if mode else ""})')
m('Read',['p'],'n, err','rdmode',' && ap == ref(p) && al == len(p)',True)
m('ReadAt',['p','off'],'n, err','rdmode',' && ap == ref(p) && al == len(p) && an == off',True)
m('Write',['p'],'n, err','wrmode',' && ap == ref(p) && al == len(p)',True)
m('WriteAt',['p','off'],'n, err','wrmode',' && ap == ref(p) && al == len(p) && an == off',True)
m('WriteString',['s'],'n, err','wrmode',' && as == s')
m('Seek',['off','whence'],'n, err',None,' && an == off && am == whence')
m('Truncate',['size'],'err','wrmode',' && an == size')
m('Sync',[],'err',None,'')
W('''func (*synthfs.fileHandle).Close(h) (err)
'''+REQ+LM+'''  modifies h.node.metadata.refCount
'''+IG+LG+'''  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] h.closed
  ensures [again] old(h.closed) ==> err == nil && nops == old(nops) && h.node.refCount == old(h.node.refCount)
  ensures [once] nops == old(nops) && err == nil && h.node.refCount == old(h.node.refCount) || nops == old(nops) + 1 && op == "Close" && who == key(h.inner) && sameerr(err) && h.node.refCount == ite(old(h.node.refCount) > 0, old(h.node.refCount) - 1, old(h.node.refCount))
func (*synthfs.fileHandle).Stat(h) (i, err)
'''+REQ+'''  requires h.node.view != nil
'''+LM+LG+'''  modifies ghost held, ghost viewop
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> i == nil && err != nil && errIs(err, fs.ErrClosed)
  ensures [open] err == nil ==> i != nil
func (*synthfs.fileHandle).Chmod(h, mode) (err)
'''+REQ+LM+'''  modifies h.node.metadata.mode
'''+LG+'''  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed) && h.node.mode == old(h.node.mode)
  ensures [open] err == nil || h.closed
func (*synthfs.fileHandle).Chown(h, uid, gid) (err)
'''+REQ+LM+'''  modifies h.node.metadata.uid
  modifies h.node.metadata.gid
'''+LG+'''  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed) && h.node.uid == old(h.node.uid) && h.node.gid == old(h.node.gid)
  ensures [open] err == nil && h.node.uid == uid && h.node.gid == gid || h.closed
extern synthfs.chmodApply(opt, m, mode)
  modifies m.mode
''')
for x in ('ReadDir','Readdir','Readdirnames'):
    W(f'func (*synthfs.fileHandle).{x}(h, n) (l, err)\n  ensures err != nil')

W('''# ---- handles of directories ----
spec dent(g int, i int) int
ghost gen int
ghost snaplen int
extern (*synthfs.dir).entriesSnapshot(d) (r)
  requires [locked] held != 0
  modifies ghost gen, ghost snaplen
  ensures len(r) == snaplen
  ensures forall i int :: {key(r[i])} {dent(gen, i)} 0 <= i && i < len(r) ==> r[i] != nil && key(r[i]) == dent(gen, i)
spec metaof(n int) int
invoke synthfs.node.meta(n) (m)
  ensures m != nil && ref(m) == metaof(key(n))
spec dname(d int) string
extern fs.FileInfoToDirEntry(i) (d)
  ensures d != nil && dname(key(d)) == cast(i, "synthfs.stat").name
extern filepath.Base(s) (r)
extern (*list.List).Len(l) (n)
  ensures n >= 0
define namea(k) = cast(metaof(dent(gen, k)), "*synthfs.metadata").name
define batch(n) = ite(cur0 >= snaplen, 0, ite(n > 0 && n < snaplen - cur0, n, snaplen - cur0))
func (*synthfs.dirHandle).readEntries(h, n) (out, err)
  option nooverflow safe
  requires hheld == 1 && held == 0 && h.st != nil && h.node != nil && h.cursor >= 0 && h.cursor == cur0
  modifies h.cursor
  modifies ghost held, ghost gen, ghost snaplen
  ensures [locks] held == 0
  ensures [closed] h.closed ==> err != nil && err != io.EOF && errIs(err, fs.ErrClosed) && h.cursor == cur0 && len(out) == 0
  ensures [end] !h.closed && cur0 >= snaplen && n > 0 ==> err == io.EOF && len(out) == 0
  ensures [ok] !h.closed && (cur0 < snaplen || n <= 0) ==> err == nil
  ensures [batch] !h.closed ==> len(out) == batch(n) && h.cursor == cur0 + len(out)
  ensures [entries] forall i int :: {key(out[i])} {dent(gen, cur0 + i)} 0 <= i && i < len(out) ==> out[i] != nil && key(out[i]) == dent(gen, cur0 + i)
''')
for nm,el in (('ReadDir','dname(key(out[j])) == namea(cur0 + j)'),('Readdir','cast(out[j], "synthfs.stat").name == namea(cur0 + j)'),('Readdirnames',None)):
    W(f'verify (*synthfs.dirHandle).{nm}(h, n) (res, err)\n  option nooverflow safe')
    W('  requires h.st != nil && h.node != nil && held == 0 && hheld == 0')
    W('  ensures [locks] held == 0 && hheld == 0')
    W('  ensures [closed] old(h.closed) ==> len(res) == 0 && err != nil && errIs(err, fs.ErrClosed)')
    W('  ensures [end] !h.closed && cur0 >= snaplen && n > 0 ==> err == io.EOF && len(res) == 0')
    W('  ensures [ok] !h.closed && (cur0 < snaplen || n <= 0) ==> err == nil')
    W('  ensures [batch] !h.closed ==> len(res) == batch(n) && h.cursor == cur0 + len(res)')
    if el:
        W('  ensures [names] forall j int :: {key(res[j])} 0 <= j && j < len(res) ==> '+el.replace('out','res'))
    W('  loop 0 invariant len(out) == rangeindex + 1 && fresh(out)')
    if el:
        W('  loop 0 invariant forall j int :: {key(out[j])} 0 <= j && j < len(out) ==> '+el)
W('''func (*synthfs.dirHandle).isClosed(h) (r)
  requires hheld == 0
'''+LM+LG+'''  ensures [state] r == h.closed && hheld == 0
  ensures [stays] old(h.closed) ==> r
func (*synthfs.dirHandle).Close(h) (err)
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
'''+LM+'''  modifies h.node.metadata.refCount
'''+LG+'''  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] h.closed && err == nil
  ensures [again] old(h.closed) ==> h.node.refCount == old(h.node.refCount)
  ensures [once] h.node.refCount == old(h.node.refCount) || h.node.refCount == old(h.node.refCount) - 1 && h.node.refCount >= 0
func (*synthfs.dirHandle).Sync(h) (err)
  requires held == 0 && hheld == 0
'''+LM+LG+'''  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed)
  ensures [open] err == nil || h.closed
func (*synthfs.dirHandle).Stat(h) (i, err)
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
'''+LM+LG+'''  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> i == nil && err != nil && errIs(err, fs.ErrClosed)
  ensures [open] err == nil && i != nil || h.closed
func (*synthfs.dirHandle).Chmod(h, mode) (err)
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
'''+LM+'''  modifies h.node.metadata.mode
'''+LG+'''  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed) && h.node.mode == old(h.node.mode)
  ensures [open] err == nil || h.closed
func (*synthfs.dirHandle).Chown(h, uid, gid) (err)
  requires h.st != nil && h.node != nil && held == 0 && hheld == 0
'''+LM+'''  modifies h.node.metadata.uid
  modifies h.node.metadata.gid
'''+LG+'''  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed) && h.node.uid == old(h.node.uid) && h.node.gid == old(h.node.gid)
  ensures [open] err == nil && h.node.uid == uid && h.node.gid == gid || h.closed
func (*synthfs.dirHandle).Seek(h, offset, whence) (r, err)
  option safe
  requires h.st != nil && h.node != nil && h.node.ordered != nil && held == 0 && hheld == 0
'''+LM+LG+'''  modifies ghost held
  ensures [locks] held == 0 && hheld == 0
  ensures [closed] old(h.closed) ==> err != nil && errIs(err, fs.ErrClosed)
  ensures [negative] whence == io.SeekStart && offset < 0 || whence < 0 || whence > 2 ==> err != nil
  ensures [rewind] whence == io.SeekStart && offset == 0 && !h.closed ==> err == nil && h.cursor == 0
  ensures [fail] err != nil ==> h.cursor == cur0
''')
for x,a,r in (('Read','p','n, err'),('ReadAt','p, off','n, err'),('Write','p','n, err'),('WriteAt','p, off','n, err'),('WriteString','s','n, err'),('Truncate','n','err')):
    W(f'func (*synthfs.dirHandle).{x}(h, {a}) ({r})\n  ensures err != nil && err != io.EOF'+(' && n == 0' if 'n,' in r else ''))
W('''
# ---- opening ----
ghost found bool
ghost looked int
ghost nadd int
ghost nalloc int
extern (*synthfs.state).resolveParent(s, boundary, start, name, op) (parent, base, err)
  requires [locked] held != 0
  ensures err == nil ==> parent != nil
extern (*synthfs.Root).findNode(r, name, follow, op) (res, err)
  requires [locked] held != 0
  ensures err == nil ==> res.node != nil
  ensures is(res.node, "*synthfs.file") ==> key(res.node) != 0 && cast(res.node, "*synthfs.file").view != nil
  ensures is(res.node, "*synthfs.dir") ==> key(res.node) != 0
extern (*synthfs.Root).userPath(r, name) (p)
extern (*synthfs.dir).lookup(d, name) (n)
  requires [locked] held != 0
  sets looked = looked + 1
  sets found = (n != nil)
extern (*synthfs.dir).addEntry(d, name, n)
  requires [locked] held == 2
  requires [absent] looked > 0 && !found
  modifies ghost nadd
  ensures nadd == old(nadd) + 1
extern (*synthfs.dir).removeEntry(d, name) (n)
  requires [locked] held == 2
  modifies ghost nadd
  ensures nadd == old(nadd) - 1
invoke synthfs.FileViewAllocator.Allocate(a, name, perm) (v, err)
  ensures err == nil ==> v != nil
  sets nalloc = nalloc + 1
  sets am = perm
invoke clock.WallClock.Now(c) (t)
func synthfs.toPathErr(op, name, err) (e)
  ensures err != nil ==> e != nil
define ofile(f) = cast(f, "*synthfs.fileHandle")
define odir(f) = cast(f, "*synthfs.dirHandle")
func (*synthfs.Root).openFileNode(r, nd, userName, flag) (h, err)
  requires [locked] held == 2
  requires nd != nil && nd.view != nil
  modifies nd.metadata.refCount
'''+IG+'''  ensures [once] nops == old(nops) + 1 && op == "Open" && an == flag
  ensures [fail] err != nil ==> h == nil && nd.refCount == old(nd.refCount)
  ensures [handle] err == nil ==> h != nil && fresh(h) && h.flag == flag && h.inner != nil && key(h.inner) == who && h.node == nd && h.st == r.st && !h.closed && nd.refCount == old(nd.refCount) + 1
func (*synthfs.Root).OpenFile(r, name, flag, perm) (f, err)
  requires r.st != nil && r.boundary != nil && held == 0 && hheld == 0 && nadd == 0 && nops == 0 && looked == 0 && nalloc == 0
  requires r.st.opt.allocator != nil && r.st.opt.clock != nil
  modifies synthfs.metadata.refCount
'''+LM+IG+LG+'''  modifies ghost held, ghost found, ghost looked, ghost nadd, ghost nalloc
  ensures [locks] held == 0 && hheld == 0
  ensures [kind] err == nil ==> is(f, "*synthfs.fileHandle") || is(f, "*synthfs.dirHandle")
  ensures [file] err == nil && is(f, "*synthfs.fileHandle") ==> ofile(f).flag == flag && ofile(f).inner != nil && ofile(f).st == r.st && ofile(f).node != nil
  ensures [dir] err == nil && is(f, "*synthfs.dirHandle") ==> flag & 1603 == 0 && odir(f).cursor == 0 && nops == 0
  ensures [excl] flag & os.O_CREATE != 0 && flag & os.O_EXCL != 0 && looked > 0 && found ==> err != nil && nops == 0 && nadd == 0
  ensures [create] nadd != 0 ==> err == nil && nadd == 1 && flag & os.O_CREATE != 0 && !found && nalloc == 1
  ensures [failed] err != nil ==> nadd == 0
  ensures [trunc] op == "Truncate" && nops > 0 ==> an == 0 && flag & os.O_TRUNC != 0 && wrmode(flag)
  ensures [truncated] err == nil && is(f, "*synthfs.fileHandle") && nadd == 0 && flag & os.O_TRUNC != 0 && wrmode(flag) ==> nops == 2 && op == "Truncate"
''')
open('/verif/contracts/Y04.vspec','w').write('\n'.join(out)+'\n')
