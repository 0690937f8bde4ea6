unit V03
title the io/fs bridges keep io/fs semantics in both directions
packages fsutil fsutil/errdef vroot vroot/internal/openflag vroot/internal/paths
include std paths fsrec

# Names an io/fs file system accepts here: valid for io/fs and representable on
# the platform (no NUL byte).
define okname(n) = validpath(n) && !contains(n, "\x00")

extern filepath.Localize(p) (r, err)
  ensures (err == nil) == okname(p)
  ensures err == nil ==> r == p
  ensures err != nil ==> r == ""

ghost ats int = 0

# Handles of the wrapped file system.
ghost fop string = ""
invoke vroot.File.ReadAt(f, b, off) (n, err)
  modifies elems(b)
  sets ats = ats + 1
invoke *.ReadDir(f, n) (r, err)
  sets fop = "ReadDir"
  sets argn = n
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke *.Readdir(f, n) (r, err)
  sets fop = "Readdir"
  sets argn = n
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke *.Readdirnames(f, n) (r, err)
  sets fop = "Readdirnames"
  sets argn = n
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke vroot.File.Close(f) (err)
  sets fop = "Close"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke vroot.File.Name(f) (s)
  sets lasts = s
invoke vroot.File.Read(f, b) (n, err)
  modifies elems(b)
  sets fop = "Read"
  sets argn = n
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke vroot.File.Seek(f, o, w) (n, err)
  sets fop = "Seek"
  sets argn = o
  sets argm = w
  sets lasti = n
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke vroot.File.Stat(f) (r, err)
  sets fop = "FStat"
  sets lasti = ref(r)
  sets lastit = tag(r)
  sets lasterr = ref(err)
  sets lasterrt = tag(err)

# extension interfaces of the wrapped file system
invoke vroot.ReadDirFs.ReadDir(f, name) (r, err)
  sets nops = nops + 1
  sets op = "ReadDir"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke vroot.ReadFileFs.ReadFile(f, name) (r, err)
  sets nops = nops + 1
  sets op = "ReadFile"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke vroot.SubFs.Sub(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Sub"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)

# the imported io/fs tree
invoke fs.ReadLinkFS.Open(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Open"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke fs.FS.Open(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Open"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke fs.ReadLinkFS.Lstat(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Lstat"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lasti = ref(r)
  sets lastit = tag(r)
invoke fs.ReadLinkFS.ReadLink(f, name) (s, err)
  sets nops = nops + 1
  sets op = "ReadLink"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lasts = s
extern fs.Stat(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Stat"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lasti = ref(r)
  sets lastit = tag(r)
invoke fs.File.Close(f) (err)
  sets fop = "Close"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke fs.File.Read(f, b) (n, err)
  modifies elems(b)
  sets fop = "Read"
  sets argn = n
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke fs.File.Stat(f) (r, err)
  sets fop = "FStat"
  sets lasti = ref(r)
  sets lastit = tag(r)
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke io.ReaderAt.ReadAt(f, b, off) (n, err)
  modifies elems(b)
  sets fop = "ReadAt"
  sets argn = off
  sets lasti = n
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke io.Seeker.Seek(f, o, w) (n, err)
  sets fop = "Seek"
  sets argn = o
  sets argm = w
  sets lasti = n
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
extern io.ReadAll(r) (b, err)

# ---- exporting: refused names never reach the wrapped file system
verify (*vroot.ioFs).Lstat(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [nothing] !okname(name) ==> r0 == nil
  ensures [forwarded] okname(name) ==> nops == 1 && op == "Lstat" && arg == name && sameerr(r1) && sameinfo(r0)
verify (*vroot.ioFs).Stat(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [nothing] !okname(name) ==> r0 == nil
  ensures [forwarded] okname(name) ==> nops == 1 && op == "Stat" && arg == name && sameerr(r1) && sameinfo(r0)
verify (*vroot.ioFs).ReadLink(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [nothing] !okname(name) ==> r0 == ""
  ensures [forwarded] okname(name) ==> nops == 1 && op == "ReadLink" && arg == name && sameerr(r1) && r0 == lasts
verify (*vroot.ioFs).Open(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [forwarded] okname(name) ==> nops == 1 && op == "Open" && arg == name
  ensures [failed] okname(name) && lasterrt != 0 ==> sameerr(r1)
  ensures [noleak] r1 != nil ==> r0 == nil
  ensures [usable] okname(name) && lasterrt == 0 ==> r1 == nil && r0 != nil
verify (*vroot.ioFs).ReadDir(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [forwarded] okname(name) ==> nops == 1 && (op == "Open" || op == "ReadDir") && arg == name
  ensures [nothing] !okname(name) ==> len(r0) == 0
verify (*vroot.ioFs).ReadFile(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [forwarded] okname(name) ==> nops == 1 && (op == "Open" || op == "ReadFile") && arg == name
  ensures [nothing] !okname(name) ==> len(r0) == 0
verify (*vroot.ioFs).Sub(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [asked] okname(name) ==> nops == 1 && (op == "Sub" && arg == name || op == "Stat" && arg == name)
  ensures [noleak] r1 != nil ==> r0 == nil
  ensures [view] r1 == nil ==> r0 != nil
verify (*vroot.ioFs).Close(i)
  ensures [forwarded] nops == 1 && op == "Close" && sameerr(r0)
verify (*vroot.ioFsRoot).Lstat(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [nothing] !okname(name) ==> r0 == nil
  ensures [forwarded] okname(name) ==> nops == 1 && op == "Lstat" && arg == name && sameerr(r1) && sameinfo(r0)
verify (*vroot.ioFsRoot).Stat(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [nothing] !okname(name) ==> r0 == nil
  ensures [forwarded] okname(name) ==> nops == 1 && op == "Stat" && arg == name && sameerr(r1) && sameinfo(r0)
verify (*vroot.ioFsRoot).ReadLink(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [nothing] !okname(name) ==> r0 == ""
  ensures [forwarded] okname(name) ==> nops == 1 && op == "ReadLink" && arg == name && sameerr(r1) && r0 == lasts
verify (*vroot.ioFsRoot).Open(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [forwarded] okname(name) ==> nops == 1 && op == "Open" && arg == name
  ensures [failed] okname(name) && lasterrt != 0 ==> sameerr(r1)
  ensures [noleak] r1 != nil ==> r0 == nil
  ensures [usable] okname(name) && lasterrt == 0 ==> r1 == nil && r0 != nil
verify (*vroot.ioFsRoot).ReadDir(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [forwarded] okname(name) ==> nops == 1 && (op == "Open" || op == "ReadDir") && arg == name
  ensures [nothing] !okname(name) ==> len(r0) == 0
verify (*vroot.ioFsRoot).ReadFile(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [forwarded] okname(name) ==> nops == 1 && (op == "Open" || op == "ReadFile") && arg == name
  ensures [nothing] !okname(name) ==> len(r0) == 0
verify (*vroot.ioFsRoot).Sub(i, name)
  ensures [refused] !okname(name) ==> nops == 0 && r1 != nil && errIs(r1, fs.ErrInvalid)
  ensures [asked] okname(name) ==> nops == 1 && op == "OpenRoot" && arg == name && sameerr(r1)
  ensures [noleak] r1 != nil ==> r0 == nil
  ensures [view] r1 == nil ==> r0 != nil
verify (*vroot.ioFsRoot).Close(i)
  ensures [forwarded] nops == 1 && op == "Close" && sameerr(r0)
verify (*vroot.fsFile).Close(r)
  ensures [forwarded] fop == "Close" && sameerr(r0)
verify (*vroot.fsFile).Read(r, b)
  ensures [forwarded] fop == "Read" && argn == r0 && sameerr(r1)
verify (*vroot.fsFile).Readdir(r, n)
  ensures [forwarded] fop == "Readdir" && argn == n && sameerr(r1)
verify (*vroot.fsFile).Readdirnames(r, n)
  ensures [forwarded] fop == "Readdirnames" && argn == n && sameerr(r1)
verify (*vroot.fsFile).Stat(r)
  ensures [forwarded] fop == "FStat" && sameinfo(r0) && sameerr(r1)

# ---- importing: names are cleaned, escaping ones refused, nothing is written
define inside(n) = islocal(clean(n))
define writeflag(f) = f & os.O_WRONLY != 0 || f & os.O_RDWR != 0 || f & os.O_APPEND != 0 || f & os.O_CREATE != 0 || f & os.O_TRUNC != 0
verify (*vroot.ioFsAsFs).Chmod(f, name, mode)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).Chown(f, name, u, g)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).Chtimes(f, name, a, m)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).Create(f, name)
  ensures [refused] nops == 0 && r1 != nil && errIs(r1, errdef.EROFS)
  ensures [nothing] r0 == nil
verify (*vroot.ioFsAsFs).Lchown(f, name, u, g)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).Link(f, o, n)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).Mkdir(f, name, m)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).MkdirAll(f, name, m)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).Remove(f, name)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).RemoveAll(f, name)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).Rename(f, o, n)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).Symlink(f, o, n)
  ensures [refused] nops == 0 && r0 != nil && errIs(r0, errdef.EROFS)
verify (*vroot.ioFsAsFs).Lstat(f, name)
  ensures [escapes] !inside(name) ==> nops == 0 && r0 == nil && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] inside(name) ==> nops == 1 && op == "Lstat" && arg == clean(name) && sameerr(r1) && sameinfo(r0)
verify (*vroot.ioFsAsFs).Stat(f, name)
  ensures [escapes] !inside(name) ==> nops == 0 && r0 == nil && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] inside(name) ==> nops == 1 && op == "Stat" && arg == clean(name) && sameerr(r1) && sameinfo(r0)
verify (*vroot.ioFsAsFs).ReadLink(f, name)
  ensures [escapes] !inside(name) ==> nops == 0 && r0 == "" && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] inside(name) ==> nops == 1 && op == "ReadLink" && arg == clean(name) && sameerr(r1)
  ensures [answer] inside(name) && r1 == nil ==> r0 == lasts
verify (*vroot.ioFsAsFs).Open(f, name)
  ensures [escapes] !inside(name) ==> nops == 0 && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] inside(name) ==> nops == 1 && op == "Open" && arg == clean(name) && sameerr(r1)
  ensures [noleak] r1 != nil ==> r0 == nil
  ensures [usable] r1 == nil ==> r0 != nil
verify (*vroot.ioFsAsFs).OpenFile(f, name, flag, perm)
  ensures [refused] writeflag(flag) ==> nops == 0 && r1 != nil && errIs(r1, errdef.EROFS)
  ensures [escapes] !inside(name) && !writeflag(flag) ==> nops == 0 && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] inside(name) && !writeflag(flag) ==> nops == 1 && op == "Open" && arg == clean(name) && sameerr(r1)
  ensures [noleak] r1 != nil ==> r0 == nil
  ensures [usable] r1 == nil ==> r0 != nil
verify (*vroot.expandedFile).Chmod(f, m)
  ensures [refused] fop == "" && r0 != nil && errIs(r0, syscall.EPERM)
verify (*vroot.expandedFile).Chown(f, u, g)
  ensures [refused] fop == "" && r0 != nil && errIs(r0, syscall.EPERM)
verify (*vroot.expandedFile).Truncate(f, s)
  ensures [refused] fop == "" && r0 != nil && errIs(r0, syscall.EPERM)
verify (*vroot.expandedFile).Write(f, b)
  ensures [refused] fop == "" && r1 != nil && errIs(r1, syscall.EPERM)
  ensures [nothing] r0 == 0
verify (*vroot.expandedFile).WriteAt(f, b, off)
  ensures [refused] fop == "" && r1 != nil && errIs(r1, syscall.EPERM)
  ensures [nothing] r0 == 0
verify (*vroot.expandedFile).WriteString(f, s)
  ensures [refused] fop == "" && r1 != nil && errIs(r1, syscall.EPERM)
  ensures [nothing] r0 == 0
verify (*vroot.expandedFile).Close(f)
  ensures [forwarded] fop == "Close" && sameerr(r0)
verify (*vroot.expandedFile).Read(f, b)
  ensures [forwarded] fop == "Read" && argn == r0 && sameerr(r1)
verify (*vroot.expandedFile).Stat(f)
  ensures [forwarded] fop == "FStat" && sameinfo(r0) && sameerr(r1)
verify (*vroot.expandedFile).ReadAt(f, b, off)
  ensures [forwarded] (fop == "ReadAt" && argn == off && r0 == lasti && sameerr(r1)) || (fop == "" && r0 == 0 && r1 != nil)
verify (*vroot.expandedFile).Seek(f, o, w)
  ensures [forwarded] (fop == "Seek" && argn == o && argm == w && r0 == lasti && sameerr(r1)) || (fop == "" && r0 == 0 && r1 != nil)
verify (*vroot.expandedFile).ReadDir(f, n)
  ensures [forwarded] (fop == "ReadDir" && argn == n && sameerr(r1)) || (fop == "" && len(r0) == 0 && r1 != nil)
verify (*vroot.expandedFile).Readdir(f, n) (r, err)
  loop 0 invariant forall i int :: 0 <= i && i < len(infos) ==> infos[i] != nil
  ensures [nonil] err == nil ==> (forall i int :: 0 <= i && i < len(r) ==> r[i] != nil)
