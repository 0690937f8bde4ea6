unit V02
title read-only views never reach a mutating operation
packages fsutil fsutil/errdef vroot vroot/internal/openflag vroot/internal/paths
include std

# Every operation of the wrapped file system / file handle is recorded.
ghost muts int = 0
ghost nops int = 0
ghost op string = ""
ghost arg string = ""
ghost argn int = 0
ghost argm int = 0
ghost lasterr int = 0
ghost lasterrt int = 0
ghost lasts string = ""
ghost lastn int = 0
ghost lasti int = 0
ghost lastit int = 0

define sameerr(e) = ref(e) == lasterr && tag(e) == lasterrt
define sameinfo(e) = ref(e) == lasti && tag(e) == lastit

# The flags openat(2) honours by changing the file system or by handing out a
# writable descriptor.
define writeflag(f) = f & os.O_WRONLY != 0 || f & os.O_RDWR != 0 || f & os.O_APPEND != 0 || f & os.O_CREATE != 0 || f & os.O_TRUNC != 0

invoke *.Chmod(f)
  sets muts = muts + 1
invoke *.Chown(f)
  sets muts = muts + 1
invoke *.Lchown(f)
  sets muts = muts + 1
invoke *.Chtimes(f)
  sets muts = muts + 1
invoke *.Create(f)
  sets muts = muts + 1
invoke *.Link(f)
  sets muts = muts + 1
invoke *.Mkdir(f)
  sets muts = muts + 1
invoke *.MkdirAll(f)
  sets muts = muts + 1
invoke *.Remove(f)
  sets muts = muts + 1
invoke *.RemoveAll(f)
  sets muts = muts + 1
invoke *.Rename(f)
  sets muts = muts + 1
invoke *.Symlink(f)
  sets muts = muts + 1
invoke *.Truncate(f)
  sets muts = muts + 1
invoke *.Write(f)
  sets muts = muts + 1
invoke *.WriteAt(f)
  sets muts = muts + 1
invoke *.WriteString(f)
  sets muts = muts + 1
invoke *.OpenFile(f, name, flag, perm) (r, err)
  sets muts = ite(writeflag(flag), muts + 1, muts)
  sets nops = nops + 1
  sets op = "OpenFile"
  sets arg = name
  sets argn = flag
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke *.Open(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Open"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke *.OpenRoot(f, name) (r, err)
  sets nops = nops + 1
  sets op = "OpenRoot"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke *.Lstat(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Lstat"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lasti = ref(r)
  sets lastit = tag(r)
invoke *.ReadLink(f, name) (s, err)
  sets nops = nops + 1
  sets op = "ReadLink"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lasts = s
invoke vroot.Fs.Stat(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Stat"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lasti = ref(r)
  sets lastit = tag(r)
invoke vroot.Root.Stat(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Stat"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lasti = ref(r)
  sets lastit = tag(r)
invoke vroot.File.Stat(f) (r, err)
  sets nops = nops + 1
  sets op = "FStat"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lasti = ref(r)
  sets lastit = tag(r)
invoke *.Close(f) (err)
  sets nops = nops + 1
  sets op = "Close"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke *.Sync(f)
invoke *.Name(f)
invoke *.Fd(f)
invoke *.Read(f, b) (n, err)
  modifies elems(b)
  sets nops = nops + 1
  sets op = "Read"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lastn = n
invoke *.ReadAt(f, b, off) (n, err)
  modifies elems(b)
  sets nops = nops + 1
  sets op = "ReadAt"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lastn = n
  sets argn = off
invoke *.ReadDir(f, n) (r, err)
  sets nops = nops + 1
  sets op = "ReadDir"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets argn = n
invoke *.Readdir(f, n) (r, err)
  sets nops = nops + 1
  sets op = "Readdir"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets argn = n
invoke *.Readdirnames(f, n) (r, err)
  sets nops = nops + 1
  sets op = "Readdirnames"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets argn = n
invoke *.Seek(f, o, w) (n, err)
  sets nops = nops + 1
  sets op = "Seek"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lastn = n
  sets argn = o
  sets argm = w

# Whatever a view does, nothing below it is changed.
verify (*vroot.ReadOnlyFs).%
  ensures [nomut] muts == 0
verify (*vroot.ReadOnlyRoot).%
  ensures [nomut] muts == 0
verify (*vroot.ReadOnlyFile).%
  ensures [nomut] muts == 0
verify vroot.NewReadOnly%
  ensures [nomut] muts == 0

# Mutating operations fail, without touching the wrapped object at all.
verify (*vroot.ReadOnlyFs).Chmod
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).Chown
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).Lchown
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).Chtimes
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).Create
  ensures [refused] errIs(r1, errdef.EROFS) && nops == 0 && muts == 0
  ensures [nofile] ref(r0) == 0
verify (*vroot.ReadOnlyFs).Link
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).Mkdir
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).MkdirAll
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).Remove
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).RemoveAll
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).Rename
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).Symlink
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).Chmod
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).Chown
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).Lchown
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).Chtimes
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).Create
  ensures [refused] errIs(r1, errdef.EROFS) && nops == 0 && muts == 0
  ensures [nofile] ref(r0) == 0
verify (*vroot.ReadOnlyRoot).Link
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).Mkdir
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).MkdirAll
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).Remove
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).RemoveAll
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).Rename
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyRoot).Symlink
  ensures [refused] errIs(r0, errdef.EROFS) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFs).Lstat(f, name)
  ensures [forwarded] nops == 1 && op == "Lstat" && arg == name && sameerr(r1) && sameinfo(r0)
verify (*vroot.ReadOnlyFs).Stat(f, name)
  ensures [forwarded] nops == 1 && op == "Stat" && arg == name && sameerr(r1) && sameinfo(r0)
verify (*vroot.ReadOnlyFs).ReadLink(f, name)
  ensures [forwarded] nops == 1 && op == "ReadLink" && arg == name && sameerr(r1) && r0 == lasts
verify (*vroot.ReadOnlyFs).Open(f, name)
  ensures [forwarded] nops == 1 && op == "Open" && arg == name && sameerr(r1)
  ensures [noleak] r1 != nil ==> r0 == 0
  ensures [wrapped] r1 == nil ==> r0 != 0
verify (*vroot.ReadOnlyFs).OpenFile(f, name, flag, perm)
  ensures [refused] writeflag(flag) ==> errIs(r1, errdef.EROFS) && nops == 0 && r0 == 0
  ensures [forwarded] !writeflag(flag) ==> nops == 1 && op == "OpenFile" && arg == name && argn == flag && sameerr(r1)
  ensures [noleak] r1 != nil ==> r0 == 0
verify (*vroot.ReadOnlyRoot).Lstat(f, name)
  ensures [forwarded] nops == 1 && op == "Lstat" && arg == name && sameerr(r1) && sameinfo(r0)
verify (*vroot.ReadOnlyRoot).Stat(f, name)
  ensures [forwarded] nops == 1 && op == "Stat" && arg == name && sameerr(r1) && sameinfo(r0)
verify (*vroot.ReadOnlyRoot).ReadLink(f, name)
  ensures [forwarded] nops == 1 && op == "ReadLink" && arg == name && sameerr(r1) && r0 == lasts
verify (*vroot.ReadOnlyRoot).Open(f, name)
  ensures [forwarded] nops == 1 && op == "Open" && arg == name && sameerr(r1)
  ensures [noleak] r1 != nil ==> r0 == 0
  ensures [wrapped] r1 == nil ==> r0 != 0
verify (*vroot.ReadOnlyRoot).OpenFile(f, name, flag, perm)
  ensures [refused] writeflag(flag) ==> errIs(r1, errdef.EROFS) && nops == 0 && r0 == 0
  ensures [forwarded] !writeflag(flag) ==> nops == 1 && op == "OpenFile" && arg == name && argn == flag && sameerr(r1)
  ensures [noleak] r1 != nil ==> r0 == 0
verify (*vroot.ReadOnlyRoot).OpenRoot(f, name)
  ensures [forwarded] nops == 1 && op == "OpenRoot" && arg == name && sameerr(r1)
  ensures [noleak] r1 != nil ==> r0 == 0
verify (*vroot.ReadOnlyFile).Chmod
  ensures [refused] r0 != nil && errIs(r0, syscall.EPERM) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFile).Chown
  ensures [refused] r0 != nil && errIs(r0, syscall.EPERM) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFile).Truncate
  ensures [refused] r0 != nil && errIs(r0, syscall.EPERM) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFile).Sync
  ensures [refused] r0 != nil && errIs(r0, syscall.EPERM) && nops == 0 && muts == 0
verify (*vroot.ReadOnlyFile).Write
  ensures [refused] r1 != nil && errIs(r1, syscall.EPERM) && nops == 0 && muts == 0
  ensures [zero] r0 == 0
verify (*vroot.ReadOnlyFile).WriteAt
  ensures [refused] r1 != nil && errIs(r1, syscall.EPERM) && nops == 0 && muts == 0
  ensures [zero] r0 == 0
verify (*vroot.ReadOnlyFile).WriteString
  ensures [refused] r1 != nil && errIs(r1, syscall.EPERM) && nops == 0 && muts == 0
  ensures [zero] r0 == 0
verify (*vroot.ReadOnlyFile).Read(f, b)
  ensures [forwarded] nops == 1 && op == "Read" && r0 == lastn && sameerr(r1)
verify (*vroot.ReadOnlyFile).ReadAt(f, b, off)
  ensures [forwarded] nops == 1 && op == "ReadAt" && r0 == lastn && sameerr(r1) && argn == off
verify (*vroot.ReadOnlyFile).ReadDir(f, n)
  ensures [forwarded] nops == 1 && op == "ReadDir" && sameerr(r1) && argn == n
verify (*vroot.ReadOnlyFile).Readdir(f, n)
  ensures [forwarded] nops == 1 && op == "Readdir" && sameerr(r1) && argn == n
verify (*vroot.ReadOnlyFile).Readdirnames(f, n)
  ensures [forwarded] nops == 1 && op == "Readdirnames" && sameerr(r1) && argn == n
verify (*vroot.ReadOnlyFile).Seek(f, o, w)
  ensures [forwarded] nops == 1 && op == "Seek" && r0 == lastn && sameerr(r1) && argn == o && argm == w
verify (*vroot.ReadOnlyFile).Stat(f)
  ensures [forwarded] nops == 1 && op == "FStat" && sameinfo(r0) && sameerr(r1)
verify (*vroot.ReadOnlyFile).Close(f)
  ensures [forwarded] nops == 1 && op == "Close" && sameerr(r0)
