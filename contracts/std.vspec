# Contracts of library functions (trusted; listed in the evidence of every run
# that uses them). Strings are SMT-LIB strings.

extern strings.HasPrefix(s, p) (r)
  ensures r == prefixof(p, s)
extern strings.HasSuffix(s, p) (r)
  ensures r == suffixof(p, s)
extern strings.Contains(s, t) (r)
  ensures r == contains(s, t)
extern strings.TrimPrefix(s, p) (r)
  ensures r == ite(prefixof(p, s), substr(s, len(p), len(s) - len(p)), s)
extern strings.TrimSuffix(s, p) (r)
  ensures r == ite(suffixof(p, s), substr(s, 0, len(s) - len(p)), s)
extern strings.CutPrefix(s, p) (r, ok)
  ensures ok == prefixof(p, s)
  ensures r == ite(ok, substr(s, len(p), len(s) - len(p)), s)
extern strings.CutSuffix(s, p) (r, ok)
  ensures ok == suffixof(p, s)
  ensures r == ite(ok, substr(s, 0, len(s) - len(p)), s)
extern strings.Index(s, t) (r)
  ensures r == indexof(s, t, 0)
spec lastidx(s string, t string) int
axiom forall s string, t string :: {lastidx(s, t)} lastidx(s, t) >= 0 - 1 && lastidx(s, t) <= len(s) - len(t) && (lastidx(s, t) < 0) == !contains(s, t) && (lastidx(s, t) >= 0 ==> substr(s, lastidx(s, t), len(t)) == t && !contains(substr(s, lastidx(s, t) + 1, len(s) - lastidx(s, t) - 1), t))
extern strings.LastIndex(s, t) (r)
  ensures r == lastidx(s, t)
  ensures r >= 0 - 1 && r <= len(s) - len(t)
  ensures (r < 0) == !contains(s, t)
  ensures r >= 0 ==> substr(s, r, len(t)) == t && !contains(substr(s, r + 1, len(s) - r - 1), t)
extern strings.Cut(s, t) (a, b, ok)
  ensures ok == contains(s, t)
  ensures !ok ==> a == s && b == ""
  ensures ok ==> s == a + t + b && indexof(s, t, 0) == len(a)
extern strings.EqualFold(s, t) (r)
  ensures s == t ==> r

extern (fs.FileMode).IsDir(m) (r)
  ensures r == (m & fs.ModeDir != 0)
extern (fs.FileMode).IsRegular(m) (r)
  ensures r == (m & fs.ModeType == 0)
extern (fs.FileMode).Type(m) (r)
  ensures r == m & fs.ModeType
extern (fs.FileMode).Perm(m) (r)
  ensures r == m & fs.ModePerm
extern (fs.FileMode).String(m) (r)

extern os.IsNotExist(err) (r)
extern os.IsExist(err) (r)

# read-only accessors of library interfaces
invoke error.Error(e) (s)
invoke fs.FileInfo.Name(i) (s)
invoke fs.FileInfo.Size(i) (n)
invoke fs.FileInfo.Mode(i) (m)
invoke fs.FileInfo.ModTime(i) (t)
invoke fs.FileInfo.IsDir(i) (b)
invoke fs.FileInfo.Sys(i) (v)
invoke fs.DirEntry.Name(i) (s)
invoke fs.DirEntry.IsDir(i) (b)
invoke fs.DirEntry.Type(i) (m)
invoke fs.DirEntry.Info(i) (fi, err)
  ensures err == nil ==> fi != nil
invoke context.Context.Err(c) (err)
invoke context.Context.Done(c) (ch)
invoke context.Context.Deadline(c) (t, ok)
invoke context.Context.Value(c, k) (v)
