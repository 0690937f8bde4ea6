# Generated by tools/gen_fs.py. The wrapped file system: every operation it
# receives is recorded, with its arguments and its outcome; results are arbitrary.
ghost nops int = 0
ghost op string = ""
ghost arg string = ""
ghost arg2 string = ""
ghost argn int = 0
ghost argm int = 0
ghost lasterr int = 0
ghost lasterrt int = 0
ghost lasts string = ""
ghost lasti int = 0
ghost lastit int = 0
ghost lastf int = 0
define sameerr(e) = ref(e) == lasterr && tag(e) == lasterrt
define sameinfo(e) = ref(e) == lasti && tag(e) == lastit
invoke vroot.Fs.Chmod(f, name, mode) (err)
  sets nops = nops + 1
  sets op = "Chmod"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets argm = mode
invoke vroot.Fs.Chown(f, name, uid, gid) (err)
  sets nops = nops + 1
  sets op = "Chown"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets argn = uid
  sets argm = gid
invoke vroot.Fs.Chtimes(f, name, at, mt) (err)
  sets nops = nops + 1
  sets op = "Chtimes"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
invoke vroot.Fs.Create(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Create"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets lastf = key(r)
invoke vroot.Fs.Lchown(f, name, uid, gid) (err)
  sets nops = nops + 1
  sets op = "Lchown"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets argn = uid
  sets argm = gid
invoke vroot.Fs.Link(f, oldname, newname) (err)
  sets nops = nops + 1
  sets op = "Link"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = oldname
  sets arg2 = newname
invoke vroot.Fs.Lstat(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Lstat"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets lasti = ref(r)
  sets lastit = tag(r)
invoke vroot.Fs.Mkdir(f, name, mode) (err)
  sets nops = nops + 1
  sets op = "Mkdir"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets argm = mode
invoke vroot.Fs.MkdirAll(f, name, mode) (err)
  sets nops = nops + 1
  sets op = "MkdirAll"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets argm = mode
invoke vroot.Fs.Open(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Open"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets lastf = key(r)
invoke vroot.Fs.OpenFile(f, name, flag, mode) (r, err)
  sets nops = nops + 1
  sets op = "OpenFile"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets argm = mode
  sets argn = flag
  sets lastf = key(r)
invoke vroot.Fs.ReadLink(f, name) (s, err)
  sets nops = nops + 1
  sets op = "ReadLink"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets lasts = s
invoke vroot.Fs.Remove(f, name) (err)
  sets nops = nops + 1
  sets op = "Remove"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
invoke vroot.Fs.RemoveAll(f, name) (err)
  sets nops = nops + 1
  sets op = "RemoveAll"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
invoke vroot.Fs.Rename(f, oldname, newname) (err)
  sets nops = nops + 1
  sets op = "Rename"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = oldname
  sets arg2 = newname
invoke vroot.Fs.Stat(f, name) (r, err)
  sets nops = nops + 1
  sets op = "Stat"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = name
  sets lasti = ref(r)
  sets lastit = tag(r)
invoke vroot.Fs.Symlink(f, oldname, newname) (err)
  sets nops = nops + 1
  sets op = "Symlink"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets arg = oldname
  sets arg2 = newname
invoke vroot.Fs.Close(f) (err)
  sets nops = nops + 1
  sets op = "Close"
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
invoke vroot.Fs.Name(f) (s)
invoke vroot.Root.OpenRoot(f, name) (r, err)
  sets nops = nops + 1
  sets op = "OpenRoot"
  sets arg = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
