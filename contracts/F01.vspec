unit F01
title symlink-resolving path lookup never leaves the root
packages fsutil fsutil/errdef
include std paths

# The accumulating buffer of a lookup.
ghost rb string = ""
extern (*bytes.Buffer).WriteByte(b, c) (err)
  sets rb = rb + chr(c)
extern (*bytes.Buffer).WriteString(b, s) (n, err)
  sets rb = rb + s
extern (*bytes.Buffer).String(b) (r)
  ensures r == rb
extern (*bytes.Buffer).Reset(b)
  sets rb = ""
extern (*bytes.Buffer).Len(b) (n)
  ensures n == len(rb)

# What is left to walk: the name, with every link met so far replaced by its
# target relative to the directory the link lies in.
ghost goal string
# The longest prefix of it all of whose components were found, and not to be links.
ghost okto string = ""
ghost last string = ""
ghost lastlink int = 0
ghost lstats int = 0
ghost reads int = 0
ghost esc int = 0
ghost lasterr int = 0
ghost lasterrt int = 0
define sameerr(e) = ref(e) == lasterr && tag(e) == lasterrt
define rest(s, n) = substr(s, n, len(s) - n)
define extends(p, n) = prefixof(p + "/", n) && p != "" && !contains(rest(n, len(p) + 1), "/")

# more of path/filepath
define cl(s) = clean(s) == s && islocal(s)
axiom forall s string :: {clean(s)} cl(s) ==> !contains(s, "//") && !suffixof("/", s)
# a run of whole leading components of a clean local name is one, too
axiom forall p string, s string :: {prefixof(p + "/", s)} cl(s) && s != "." && prefixof(p + "/", s) ==> cl(p) && p != "."
axiom forall s string :: {lastidx(s, "/")} cl(s) && contains(s, "/") ==> dirof(s) == substr(s, 0, lastidx(s, "/")) && baseof(s) == substr(s, lastidx(s, "/") + 1, len(s) - lastidx(s, "/") - 1) && cl(baseof(s)) && baseof(s) != "." && cl(dirof(s)) && dirof(s) != "."
axiom forall a string, b string :: {join2(a, b)} (islocal(a) && islocal(b) ==> islocal(join2(a, b))) && (b == "" && a != "" ==> join2(a, b) == clean(a))
# and so is what a local name and the rest of another make
axiom forall a string, s string, n int, m int :: {join2(a, substr(s, n, m))} cl(a) && cl(s) && s != "." && n > 0 && n + m == len(s) && m > 0 && substr(s, n, 1) == "/" ==> cl(join2(a, substr(s, n, m))) && join2(a, substr(s, n, m)) != "."

invoke *.Lstat(f, n) (info, err)
  requires [walks] n == goal || prefixof(n + "/", goal)
  requires [inside] (n == goal || prefixof(n + "/", goal)) ==> islocal(n) && clean(n) == n
  requires [through_no_link] !contains(n, "/") || extends(okto, n)
  sets lstats = lstats + 1
  sets last = n
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lastlink = ite(err == nil && mode(info) & fs.ModeSymlink != 0, 1, 0)
  sets okto = ite(err == nil && mode(info) & fs.ModeSymlink == 0, n, "")
invoke *.ReadLink(f, n) (target, err)
  requires [only_links] n == last && lastlink == 1
  requires [bounded] reads < 40
  sets reads = reads + 1
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets esc = ite(err == nil && (prefixof("/", target) || !islocal(join2(dirof(n), target))), 1, 0)
  sets goal = ite(n == goal, join2(dirof(n), target), join2(join2(dirof(n), target), rest(goal, len(n))))
spec modeof(k int) int
define mode(i) = modeof(key(i))
invoke fs.FileInfo.Mode(i) (m)
  ensures m == modeof(key(i))

verify fsutil.ResolvePath(fsys, nm, skip) (r, err)
  requires goal == ite(skip && contains(clean(nm), "/"), dirof(clean(nm)), clean(nm))
  loop 0 invariant goal == name
  ensures [refused] clean(nm) != "." && !islocal(clean(nm)) ==> errIs(err, fsutil.ErrPathEscapes) && lstats == 0
  ensures [inside] err == nil ==> islocal(r) && clean(r) == r
  ensures [no_link_left] err == nil && !skip ==> r == okto || r == "."
  ensures [exact] err == nil && !skip ==> r == goal
  ensures [link_escape] esc == 1 ==> err != nil
  ensures [exact_parent] err == nil && skip && contains(clean(nm), "/") ==> r == join2(goal, baseof(clean(nm))) && (goal == okto || goal == ".")
  ensures [exact_single] err == nil && skip && !contains(clean(nm), "/") ==> r == clean(nm) && lstats == 0
  ensures [reported] err != nil && lstats > 0 ==> sameerr(err) || esc == 1 && errIs(err, fsutil.ErrPathEscapes) || reads == 40 && errIs(err, errdef.ELOOP)
  ensures [loop] reads == 40 ==> err != nil
  loop 0 invariant islocal(name) && clean(name) == name && esc == 0
  loop 0 invariant rb == substr(name, 0, ite(i == 0, 0, offStart - 1)) && (i > 0) == (offStart > 0) && i >= 0 && (offStart <= len(name) ==> i == 0 || substr(name, offStart - 1, 1) == "/") && offStart <= len(name) + 1
  loop 0 invariant i > 0 ==> rb == okto
  loop 0 invariant reads == curLinkResolved && reads < 40
  loop 0 invariant lstats >= 0
  loop 0 invariant i > 0 && offStart <= len(name) ==> rb + "/" + rest(name, offStart) == name
  loop 0 invariant lstats == 0 ==> i == 0 && name != "."
  loop 0 decreases 40 - reads
  loop 0 decreases len(name) + 1 - offStart
