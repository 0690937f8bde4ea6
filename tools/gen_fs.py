#!/usr/bin/env python3
"""Writes the contract files whose clauses repeat over the methods of vroot.Fs:
contracts/fsrec.vspec (recording contracts of the wrapped file system),
V01.vspec and V04.vspec."""
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/contracts/"

# method -> (params after receiver, results)
M = {
 "Chmod": ("name, mode", "err"), "Chown": ("name, uid, gid", "err"), "Chtimes": ("name, at, mt", "err"),
 "Create": ("name", "r, err"), "Lchown": ("name, uid, gid", "err"), "Link": ("oldname, newname", "err"),
 "Lstat": ("name", "r, err"), "Mkdir": ("name, mode", "err"), "MkdirAll": ("name, mode", "err"),
 "Open": ("name", "r, err"), "OpenFile": ("name, flag, mode", "r, err"), "ReadLink": ("name", "s, err"),
 "Remove": ("name", "err"), "RemoveAll": ("name", "err"), "Rename": ("oldname, newname", "err"),
 "Stat": ("name", "r, err"), "Symlink": ("oldname, newname", "err"),
}
def rec(m, iface):
    ps, rs = M[m]
    o = f"invoke {iface}.{m}(f, {ps}) ({rs})\n  sets nops = nops + 1\n  sets op = \"{m}\"\n  sets lasterr = ref(err)\n  sets lasterrt = tag(err)\n"
    if "oldname" in ps: o += "  sets arg = oldname\n  sets arg2 = newname\n"
    else: o += "  sets arg = name\n"
    if "mode" in ps: o += "  sets argm = mode\n"
    if "flag" in ps: o += "  sets argn = flag\n"
    if "uid" in ps: o += "  sets argn = uid\n  sets argm = gid\n"
    if rs == "s, err": o += "  sets lasts = s\n"
    if rs == "r, err" and m in ("Lstat", "Stat"): o += "  sets lasti = ref(r)\n  sets lastit = tag(r)\n"
    elif rs == "r, err": o += "  sets lastf = key(r)\n"
    return o

o = """# Generated by tools/gen_fs.py. The wrapped file system: every operation it
# receives is recorded, with its arguments and its outcome; results are arbitrary.
ghost nops int = 0
ghost op string = ""
ghost arg string = ""
ghost arg2 string = ""
ghost argn int = 0
ghost argm int = 0
ghost lasterr int = 0
ghost lasterrt int = 0
ghost lasts string = ""
ghost lasti int = 0
ghost lastit int = 0
ghost lastf int = 0
define sameerr(e) = ref(e) == lasterr && tag(e) == lasterrt
define sameinfo(e) = ref(e) == lasti && tag(e) == lastit
"""
for m in M: o += rec(m, "vroot.Fs")
o += """invoke vroot.Fs.Close(f) (err)
  sets nops = nops + 1
  sets op = "Close"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke vroot.Fs.Name(f) (s)
invoke vroot.Root.OpenRoot(f, name) (r, err)
  sets nops = nops + 1
  sets op = "OpenRoot"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
"""
open(root + "fsrec.vspec", "w").write(o)

def results(m):
    rs = M[m][1]
    n = rs.count(",")
    c = f"sameerr(r{n})"
    if rs == "s, err": c += " && r0 == lasts"
    elif m in ("Lstat", "Stat"): c += " && sameinfo(r0)"
    elif rs == "r, err": c += " && key(r0) == lastf"
    return c
def args(m, f):
    ps = M[m][0]
    if m == "Symlink": c = f"arg == oldname && arg2 == {f}(newname)"
    elif "oldname" in ps: c = f"arg == {f}(oldname) && arg2 == {f}(newname)"
    else: c = f"arg == {f}(name)"
    if "flag" in ps: c += " && argn == flag"
    if "mode" in ps: c += " && argm == mode"
    if "uid" in ps: c += " && argn == uid && argm == gid"
    return c

# ---- V01
o = """# Generated by tools/gen_fs.py.
unit V01
title prefix views confine every operation to their subtree
packages fsutil fsutil/errdef vroot vroot/internal/openflag vroot/internal/paths
include std paths fsrec

ghost prefix string = ""

# The place a view's name stands for.
define place(n) = ite(clean(n) == ".", prefix, join2(prefix, clean(n)))
define outside(n) = clean(n) != "." && !islocal(clean(n))

# Containment itself, over the trusted contracts of path/filepath.
lemma contained(p string, n string)
  hyp p == clean(p)
  hyp p != "." && p != "/"
  hyp clean(n) != "." && islocal(clean(n))
  goal prefixof(p + "/", join2(p, clean(n)))

"""
for m in M:
    ps, rs = M[m]
    n = rs.count(",")
    two = "oldname" in ps
    out = "outside(newname)" if m == "Symlink" else ("(outside(oldname) || outside(newname))" if two else "outside(name)")
    o += f"verify (*vroot.PathPrefixFs).{m}(w, {ps})\n  requires prefix == w.prefix\n"
    o += f"  ensures [refused] {out} ==> nops == 0 && r{n} != nil && errIs(r{n}, vroot.ErrPathEscapes)\n"
    if m == "RemoveAll":
        o += f"  ensures [rootkept] clean(name) == \".\" ==> nops == 0 && r0 != nil\n"
        o += f"  ensures [forwarded] !outside(name) && clean(name) != \".\" ==> nops == 1 && op == \"{m}\" && {args(m,'place')} && {results(m)}\n"
    else:
        o += f"  ensures [forwarded] !{out} ==> nops == 1 && op == \"{m}\" && {args(m,'place')} && {results(m)}\n"
    if n == 1 and m not in ("ReadLink",):
        o += f"  ensures [nothing] {out} ==> key(r0) == 0\n" if m not in ("Lstat", "Stat") else f"  ensures [nothing] {out} ==> r0 == nil\n"
o += """verify vroot.NewPathPrefixFs(inner, pfx) (r, err)
  ensures [emptyrefused] pfx == "" ==> err != nil && nops == 0 && r == 0
  ensures [asked] pfx != "" ==> nops == 1 && op == "Stat" && arg == clean(pfx)
  ensures [cleaned] err == nil ==> r != 0 && r.prefix == clean(pfx)
  ensures [noview] err != nil ==> r == 0
verify (*vroot.PathPrefixFs).Close(w)
  ensures [forwarded] nops == 1 && op == "Close" && sameerr(r0)
"""
open(root + "V01.vspec", "w").write(o)

# ---- V04
o = """# Generated by tools/gen_fs.py.
unit V04
title path normalisation is exact and identical for every operation
packages fsutil fsutil/errdef vroot vroot/internal/openflag vroot/internal/paths
include std paths fsrec

# On this platform (separator '/') both directions are the cleaned name.
define norm(n) = ite(prefixof("./", clean(n)), substr(clean(n), 2, len(clean(n)) - 2), clean(n))

"""
for t in ("PathNormalizer", "PathLocalizer"):
    for m in M:
        o += f"verify (*vroot.{t}Fs).{m}(w, {M[m][0]})\n  ensures [forwarded] nops == 1 && op == \"{m}\" && {args(m,'norm')} && {results(m)}\n"
    o += f"""verify (*vroot.{t}Root).OpenRoot(w, name)
  ensures [forwarded] nops == 1 && op == "OpenRoot" && arg == norm(name) && sameerr(r1)
  ensures [noview] r1 != nil ==> r0 == 0
  ensures [view] r1 == nil ==> r0 != 0
verify (*vroot.{t}Fs).Close(w)
  ensures [forwarded] nops == 1 && op == "Close" && sameerr(r0)
"""
open(root + "V04.vspec", "w").write(o)
