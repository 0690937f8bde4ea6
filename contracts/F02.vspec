unit F02
title safe write replaces the destination atomically or not at all
packages fsutil fsutil/errdef fsutil/pathutil fsutil/internal/bufpool
include std paths

# What the destination file system, the temporary file, the hooks and the content
# function were asked to do, in order.
ghost renames int = 0
ghost renamefrom string = ""
ghost renameto string = ""
ghost renameok int = 0
ghost closes int = 0
ghost closefail int = 0
ghost failed int = 0
ghost writes int = 0
ghost hooks int = 0
ghost removes int = 0
ghost removed string = ""
ghost other int = 0
ghost tempfile int = 0
ghost tempdir string = ""
ghost created int = 0
ghost createok int = 0
ghost opname string = ""
ghost mixed int = 0
ghost lasterr int = 0
ghost lasterrt int = 0
# A file's name does not change while it is open (documented hook invariant).
spec nameof(k int) string
define sameerr(e) = ref(e) == lasterr && tag(e) == lasterrt

note The content function and the hooks are the caller's code: they are assumed to keep the documented hook invariants (no Close, Rename or Remove of the temporary file).

invoke fsutil.TempFilePolicy.Create(p, fsys, target, perm) (f, dir, err)
  option always
  sets created = created + 1
  sets createok = ite(err == nil, 1, 0)
  sets tempdir = dir
  sets tempfile = key(f)
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke fsutil.TempFilePolicy.Mkdir(p, fsys, target, perm) (f, dir, err)
  option always
  sets created = created + 1
  sets createok = ite(err == nil, 1, 0)
  sets tempdir = dir
  sets tempfile = key(f)
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke *.Name(f) (s)
  ensures s == nameof(key(f))
invoke *.Rename(f, oldname, newname) (err)
  requires [after_content] writes == 1
  requires [after_close] closes == 1
  requires [nothing_failed] failed == 0
  requires [not_removed] removes == 0
  requires [only_once] renames == 0
  sets renames = renames + 1
  sets renamefrom = oldname
  sets renameto = newname
  sets renameok = ite(err == nil, 1, 0)
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke *.RemoveAll(f, name) (err)
  requires [only_temp] name == join2(tempdir, baseof(nameof(tempfile)))
  requires [not_renamed] renameok == 0
  sets removes = removes + 1
  sets removed = name
invoke *.Close(f) (err)
  sets closes = closes + 1
  sets closefail = ite(err != nil && failed == 0, 1, closefail)
  sets lasterr = ite(failed == 0, ref(err), lasterr)
  sets lasterrt = ite(failed == 0, tag(err), lasterrt)
invoke *.Sync(f) (err)
  sets other = other
invoke *.Write(f, b) (n, err)
  sets other = other
invoke *.OpenFile(f, name, flag, perm) (r, err)
  sets mixed = ite(other > 0 && name != opname, 1, mixed)
  sets opname = name
  sets other = other + 1
invoke *.Mkdir(f, name, perm) (err)
  sets mixed = ite(other > 0 && name != opname, 1, mixed)
  sets opname = name
  sets other = other + 1
invoke *.Chmod(f, name, perm) (err)
  sets mixed = ite(other > 0 && name != opname, 1, mixed)
  sets opname = name
  sets other = other + 1
invoke *.Symlink(f, a, name) (err)
  sets mixed = ite(other > 0 && name != opname, 1, mixed)
  sets opname = name
  sets other = other + 1
invoke *.Open(f, name) (r, err)
invoke *.ReadLink(f, name) (r, err)
invoke *.Lstat(f, name) (r, err)
invoke *.Stat(f) (r, err)
invoke fs.File.Close(f) (err)
invoke *.Remove(f, name) (err)
  requires [never] false
callback writeFunc(w) (err)
  requires [still_open] closes == 0
  sets writes = writes + 1
  sets failed = ite(err != nil, 1, failed)
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
callback *(a, b) (err)
  requires [still_open] closes == 0
  requires [before_rename] renames == 0
  sets hooks = hooks + 1
  sets failed = ite(err != nil, 1, failed)
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
callback IgnoreErr(e) (b)
callback MaskChmodMode(m) (r)
extern io.CopyBuffer(dst, src, buf) (n, err)
  requires [still_open] closes == 0
  sets writes = writes + 1
  sets failed = ite(err != nil, 1, failed)
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
# fs.WalkDir acts on the destination only through the function it is given,
# which is verified below for every path, entry and error.
extern fs.WalkDir(fsys, root, fn) (err)
  requires [still_open] closes == 0
  sets writes = writes + 1
  sets failed = ite(err != nil, 1, failed)
  sets lasterr = ref(err)
  sets lasterrt = tag(err)

define temppath() = join2(tempdir, baseof(nameof(tempfile)))

verify (fsutil.SafeWriteOption).Write(opt, fsys, name, w, perm, preHooks, postHooks) (err)
  ensures [renamed] renames == 1 ==> renamefrom == temppath() && renameto == clean(name)
  ensures [success] err == nil ==> renames == 1 && renameok == 1 && failed == 0 && removes == 0
  ensures [hooks] renames == 1 ==> hooks == len(opt.PreHooks) + len(preHooks) + len(postHooks) + len(opt.PostHooks)
  ensures [closeerr] renames == 1 && closefail == 1 ==> opt.IgnoreCloseErr
  ensures [cleaned] err != nil && createok == 1 ==> removes == 1 && closes >= 1
  ensures [untouched] createok == 0 ==> renames == 0 && removes == 0 && err != nil
  ensures [reported] err != nil ==> sameerr(err)
  ensures [created] created == 1
  ensures [direct] other == 0
verify (fsutil.SafeWriteOption).Copy(opt, fsys, name, r, perm, preHooks, postHooks) (err)
  ensures [renamed] renames == 1 ==> renamefrom == temppath() && renameto == clean(name)
  ensures [success] err == nil ==> renames == 1 && renameok == 1 && failed == 0 && removes == 0
  ensures [hooks] renames == 1 ==> hooks == len(opt.PreHooks) + len(preHooks) + len(postHooks) + len(opt.PostHooks)
  ensures [closeerr] renames == 1 && closefail == 1 ==> opt.IgnoreCloseErr
  ensures [cleaned] err != nil && createok == 1 ==> removes == 1 && closes >= 1
  ensures [untouched] createok == 0 ==> renames == 0 && removes == 0 && err != nil
  ensures [reported] err != nil ==> sameerr(err)
  ensures [created] created == 1
  ensures [direct] other == 0
verify (fsutil.SafeWriteOption).CopyFs(opt, fsys, name, src, perm, preHooks, postHooks) (err)
  ensures [renamed] renames == 1 ==> renamefrom == temppath() && renameto == clean(name)
  ensures [success] err == nil ==> renames == 1 && renameok == 1 && failed == 0 && removes == 0
  ensures [hooks] renames == 1 ==> hooks == len(opt.PreHooks) + len(preHooks) + len(postHooks) + len(opt.PostHooks)
  ensures [closeerr] renames == 1 && closefail == 1 ==> opt.IgnoreCloseErr
  ensures [cleaned] err != nil && createok == 1 ==> removes == 1 && closes >= 1
  ensures [untouched] createok == 0 ==> renames == 0 && removes == 0 && err != nil
  ensures [reported] err != nil ==> sameerr(err)
  ensures [created] created == 1
  ensures [direct] other == 0

# Copying a tree touches, for each entry, only its own name below the given root,
# and never renames or removes anything.
verify (fsutil.CopyFsOption).copyEntry(opt, dst, src, dstPath, srcPath, info, walkErr) (err)
  ensures [own_name] other > 0 ==> mixed == 0 && opname == dstPath
  ensures [keeps] renames == 0 && removes == 0
  ensures [reported] err == nil ==> failed == 0 && closefail == 0
verify (fsutil.CopyFsOption).CopyAll(opt, dst, src, root) (err)
  ensures [reported] (err == nil) == (failed == 0)
  ensures [keeps] renames == 0 && removes == 0
verify (fsutil.CopyFsOption).CopyAll$1(path, d, werr) (err)
  ensures [own_name] other > 0 ==> mixed == 0 && opname == join2(root, path)
  ensures [keeps] renames == 0 && removes == 0
  ensures [reported] err == nil ==> failed == 0 && closefail == 0
