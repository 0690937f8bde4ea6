# Generated by tools/gen_fs.py.
unit V01
title prefix views confine every operation to their subtree
packages fsutil fsutil/errdef vroot vroot/internal/openflag vroot/internal/paths
include std paths fsrec

ghost prefix string = ""

# The place a view's name stands for.
define place(n) = ite(clean(n) == ".", prefix, join2(prefix, clean(n)))
define outside(n) = clean(n) != "." && !islocal(clean(n))

# Containment itself, over the trusted contracts of path/filepath.
lemma contained(p string, n string)
  hyp p == clean(p)
  hyp p != "." && p != "/"
  hyp clean(n) != "." && islocal(clean(n))
  goal prefixof(p + "/", join2(p, clean(n)))

verify (*vroot.PathPrefixFs).Chmod(w, name, mode)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "Chmod" && arg == place(name) && argm == mode && sameerr(r0)
verify (*vroot.PathPrefixFs).Chown(w, name, uid, gid)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "Chown" && arg == place(name) && argn == uid && argm == gid && sameerr(r0)
verify (*vroot.PathPrefixFs).Chtimes(w, name, at, mt)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "Chtimes" && arg == place(name) && sameerr(r0)
verify (*vroot.PathPrefixFs).Create(w, name)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "Create" && arg == place(name) && sameerr(r1) && key(r0) == lastf
  ensures [nothing] outside(name) ==> key(r0) == 0
verify (*vroot.PathPrefixFs).Lchown(w, name, uid, gid)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "Lchown" && arg == place(name) && argn == uid && argm == gid && sameerr(r0)
verify (*vroot.PathPrefixFs).Link(w, oldname, newname)
  requires prefix == w.prefix
  ensures [refused] (outside(oldname) || outside(newname)) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [forwarded] !(outside(oldname) || outside(newname)) ==> nops == 1 && op == "Link" && arg == place(oldname) && arg2 == place(newname) && sameerr(r0)
verify (*vroot.PathPrefixFs).Lstat(w, name)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "Lstat" && arg == place(name) && sameerr(r1) && sameinfo(r0)
  ensures [nothing] outside(name) ==> r0 == nil
verify (*vroot.PathPrefixFs).Mkdir(w, name, mode)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "Mkdir" && arg == place(name) && argm == mode && sameerr(r0)
verify (*vroot.PathPrefixFs).MkdirAll(w, name, mode)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "MkdirAll" && arg == place(name) && argm == mode && sameerr(r0)
verify (*vroot.PathPrefixFs).Open(w, name)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "Open" && arg == place(name) && sameerr(r1) && key(r0) == lastf
  ensures [nothing] outside(name) ==> key(r0) == 0
verify (*vroot.PathPrefixFs).OpenFile(w, name, flag, mode)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "OpenFile" && arg == place(name) && argn == flag && argm == mode && sameerr(r1) && key(r0) == lastf
  ensures [nothing] outside(name) ==> key(r0) == 0
verify (*vroot.PathPrefixFs).ReadLink(w, name)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "ReadLink" && arg == place(name) && sameerr(r1) && r0 == lasts
verify (*vroot.PathPrefixFs).Remove(w, name)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "Remove" && arg == place(name) && sameerr(r0)
verify (*vroot.PathPrefixFs).RemoveAll(w, name)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [rootkept] clean(name) == "." ==> nops == 0 && r0 != nil
  ensures [forwarded] !outside(name) && clean(name) != "." ==> nops == 1 && op == "RemoveAll" && arg == place(name) && sameerr(r0)
verify (*vroot.PathPrefixFs).Rename(w, oldname, newname)
  requires prefix == w.prefix
  ensures [refused] (outside(oldname) || outside(newname)) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [forwarded] !(outside(oldname) || outside(newname)) ==> nops == 1 && op == "Rename" && arg == place(oldname) && arg2 == place(newname) && sameerr(r0)
verify (*vroot.PathPrefixFs).Stat(w, name)
  requires prefix == w.prefix
  ensures [refused] outside(name) ==> nops == 0 && r1 != nil && errIs(r1, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(name) ==> nops == 1 && op == "Stat" && arg == place(name) && sameerr(r1) && sameinfo(r0)
  ensures [nothing] outside(name) ==> r0 == nil
verify (*vroot.PathPrefixFs).Symlink(w, oldname, newname)
  requires prefix == w.prefix
  ensures [refused] outside(newname) ==> nops == 0 && r0 != nil && errIs(r0, vroot.ErrPathEscapes)
  ensures [forwarded] !outside(newname) ==> nops == 1 && op == "Symlink" && arg == oldname && arg2 == place(newname) && sameerr(r0)
verify vroot.NewPathPrefixFs(inner, pfx) (r, err)
  ensures [emptyrefused] pfx == "" ==> err != nil && nops == 0 && r == 0
  ensures [asked] pfx != "" ==> nops == 1 && op == "Stat" && arg == clean(pfx)
  ensures [cleaned] err == nil ==> r != 0 && r.prefix == clean(pfx)
  ensures [noview] err != nil ==> r == 0
verify (*vroot.PathPrefixFs).Close(w)
  ensures [forwarded] nops == 1 && op == "Close" && sameerr(r0)
