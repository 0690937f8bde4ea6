# Generated by tools/gen_fs.py.
unit V04
title path normalisation is exact and identical for every operation
packages fsutil fsutil/errdef vroot vroot/internal/openflag vroot/internal/paths
include std paths fsrec

# On this platform (separator '/') both directions are the cleaned name.
define norm(n) = ite(prefixof("./", clean(n)), substr(clean(n), 2, len(clean(n)) - 2), clean(n))

verify (*vroot.PathNormalizerFs).Chmod(w, name, mode)
  ensures [forwarded] nops == 1 && op == "Chmod" && arg == norm(name) && argm == mode && sameerr(r0)
verify (*vroot.PathNormalizerFs).Chown(w, name, uid, gid)
  ensures [forwarded] nops == 1 && op == "Chown" && arg == norm(name) && argn == uid && argm == gid && sameerr(r0)
verify (*vroot.PathNormalizerFs).Chtimes(w, name, at, mt)
  ensures [forwarded] nops == 1 && op == "Chtimes" && arg == norm(name) && sameerr(r0)
verify (*vroot.PathNormalizerFs).Create(w, name)
  ensures [forwarded] nops == 1 && op == "Create" && arg == norm(name) && sameerr(r1) && key(r0) == lastf
verify (*vroot.PathNormalizerFs).Lchown(w, name, uid, gid)
  ensures [forwarded] nops == 1 && op == "Lchown" && arg == norm(name) && argn == uid && argm == gid && sameerr(r0)
verify (*vroot.PathNormalizerFs).Link(w, oldname, newname)
  ensures [forwarded] nops == 1 && op == "Link" && arg == norm(oldname) && arg2 == norm(newname) && sameerr(r0)
verify (*vroot.PathNormalizerFs).Lstat(w, name)
  ensures [forwarded] nops == 1 && op == "Lstat" && arg == norm(name) && sameerr(r1) && sameinfo(r0)
verify (*vroot.PathNormalizerFs).Mkdir(w, name, mode)
  ensures [forwarded] nops == 1 && op == "Mkdir" && arg == norm(name) && argm == mode && sameerr(r0)
verify (*vroot.PathNormalizerFs).MkdirAll(w, name, mode)
  ensures [forwarded] nops == 1 && op == "MkdirAll" && arg == norm(name) && argm == mode && sameerr(r0)
verify (*vroot.PathNormalizerFs).Open(w, name)
  ensures [forwarded] nops == 1 && op == "Open" && arg == norm(name) && sameerr(r1) && key(r0) == lastf
verify (*vroot.PathNormalizerFs).OpenFile(w, name, flag, mode)
  ensures [forwarded] nops == 1 && op == "OpenFile" && arg == norm(name) && argn == flag && argm == mode && sameerr(r1) && key(r0) == lastf
verify (*vroot.PathNormalizerFs).ReadLink(w, name)
  ensures [forwarded] nops == 1 && op == "ReadLink" && arg == norm(name) && sameerr(r1) && r0 == lasts
verify (*vroot.PathNormalizerFs).Remove(w, name)
  ensures [forwarded] nops == 1 && op == "Remove" && arg == norm(name) && sameerr(r0)
verify (*vroot.PathNormalizerFs).RemoveAll(w, name)
  ensures [forwarded] nops == 1 && op == "RemoveAll" && arg == norm(name) && sameerr(r0)
verify (*vroot.PathNormalizerFs).Rename(w, oldname, newname)
  ensures [forwarded] nops == 1 && op == "Rename" && arg == norm(oldname) && arg2 == norm(newname) && sameerr(r0)
verify (*vroot.PathNormalizerFs).Stat(w, name)
  ensures [forwarded] nops == 1 && op == "Stat" && arg == norm(name) && sameerr(r1) && sameinfo(r0)
verify (*vroot.PathNormalizerFs).Symlink(w, oldname, newname)
  ensures [forwarded] nops == 1 && op == "Symlink" && arg == oldname && arg2 == norm(newname) && sameerr(r0)
verify (*vroot.PathNormalizerRoot).OpenRoot(w, name)
  ensures [forwarded] nops == 1 && op == "OpenRoot" && arg == norm(name) && sameerr(r1)
  ensures [noview] r1 != nil ==> r0 == 0
  ensures [view] r1 == nil ==> r0 != 0
verify (*vroot.PathNormalizerFs).Close(w)
  ensures [forwarded] nops == 1 && op == "Close" && sameerr(r0)
verify (*vroot.PathLocalizerFs).Chmod(w, name, mode)
  ensures [forwarded] nops == 1 && op == "Chmod" && arg == norm(name) && argm == mode && sameerr(r0)
verify (*vroot.PathLocalizerFs).Chown(w, name, uid, gid)
  ensures [forwarded] nops == 1 && op == "Chown" && arg == norm(name) && argn == uid && argm == gid && sameerr(r0)
verify (*vroot.PathLocalizerFs).Chtimes(w, name, at, mt)
  ensures [forwarded] nops == 1 && op == "Chtimes" && arg == norm(name) && sameerr(r0)
verify (*vroot.PathLocalizerFs).Create(w, name)
  ensures [forwarded] nops == 1 && op == "Create" && arg == norm(name) && sameerr(r1) && key(r0) == lastf
verify (*vroot.PathLocalizerFs).Lchown(w, name, uid, gid)
  ensures [forwarded] nops == 1 && op == "Lchown" && arg == norm(name) && argn == uid && argm == gid && sameerr(r0)
verify (*vroot.PathLocalizerFs).Link(w, oldname, newname)
  ensures [forwarded] nops == 1 && op == "Link" && arg == norm(oldname) && arg2 == norm(newname) && sameerr(r0)
verify (*vroot.PathLocalizerFs).Lstat(w, name)
  ensures [forwarded] nops == 1 && op == "Lstat" && arg == norm(name) && sameerr(r1) && sameinfo(r0)
verify (*vroot.PathLocalizerFs).Mkdir(w, name, mode)
  ensures [forwarded] nops == 1 && op == "Mkdir" && arg == norm(name) && argm == mode && sameerr(r0)
verify (*vroot.PathLocalizerFs).MkdirAll(w, name, mode)
  ensures [forwarded] nops == 1 && op == "MkdirAll" && arg == norm(name) && argm == mode && sameerr(r0)
verify (*vroot.PathLocalizerFs).Open(w, name)
  ensures [forwarded] nops == 1 && op == "Open" && arg == norm(name) && sameerr(r1) && key(r0) == lastf
verify (*vroot.PathLocalizerFs).OpenFile(w, name, flag, mode)
  ensures [forwarded] nops == 1 && op == "OpenFile" && arg == norm(name) && argn == flag && argm == mode && sameerr(r1) && key(r0) == lastf
verify (*vroot.PathLocalizerFs).ReadLink(w, name)
  ensures [forwarded] nops == 1 && op == "ReadLink" && arg == norm(name) && sameerr(r1) && r0 == lasts
verify (*vroot.PathLocalizerFs).Remove(w, name)
  ensures [forwarded] nops == 1 && op == "Remove" && arg == norm(name) && sameerr(r0)
verify (*vroot.PathLocalizerFs).RemoveAll(w, name)
  ensures [forwarded] nops == 1 && op == "RemoveAll" && arg == norm(name) && sameerr(r0)
verify (*vroot.PathLocalizerFs).Rename(w, oldname, newname)
  ensures [forwarded] nops == 1 && op == "Rename" && arg == norm(oldname) && arg2 == norm(newname) && sameerr(r0)
verify (*vroot.PathLocalizerFs).Stat(w, name)
  ensures [forwarded] nops == 1 && op == "Stat" && arg == norm(name) && sameerr(r1) && sameinfo(r0)
verify (*vroot.PathLocalizerFs).Symlink(w, oldname, newname)
  ensures [forwarded] nops == 1 && op == "Symlink" && arg == oldname && arg2 == norm(newname) && sameerr(r0)
verify (*vroot.PathLocalizerRoot).OpenRoot(w, name)
  ensures [forwarded] nops == 1 && op == "OpenRoot" && arg == norm(name) && sameerr(r1)
  ensures [noview] r1 != nil ==> r0 == 0
  ensures [view] r1 == nil ==> r0 != 0
verify (*vroot.PathLocalizerFs).Close(w)
  ensures [forwarded] nops == 1 && op == "Close" && sameerr(r0)
