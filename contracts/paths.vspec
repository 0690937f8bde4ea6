# path/filepath on a '/'-separated platform (trusted; the axioms are also
# tested against the real package in thorough runs of the harnesses).
spec clean(s string) string
spec islocal(s string) bool
spec join2(a string, b string) string
spec validpath(s string) bool
spec dirof(s string) string
spec baseof(s string) string

axiom forall s string :: {clean(s)} clean(clean(s)) == clean(s) && clean(s) != "" && !prefixof("./", clean(s))
axiom forall s string :: {islocal(clean(s))} s != "" ==> islocal(clean(s)) == islocal(s)
axiom clean("") == "." && clean(".") == "." && clean("/") == "/" && clean("..") == ".."
axiom islocal(".") && !islocal("") && !islocal("/") && !islocal("..")
axiom forall s string :: {validpath(s)} validpath(s) ==> s != "" && clean(s) == s && islocal(s)
axiom forall s string :: {islocal(s)} islocal(s) ==> s != "" && !prefixof("/", s) && s != ".." && !prefixof("../", s)
axiom forall a string, b string :: {join2(a, b)} clean(join2(a, b)) == join2(a, b) || join2(a, b) == ""
axiom forall a string, b string :: {join2(a, b)} a == clean(a) && b == clean(b) && islocal(b) && b != "." ==> join2(a, b) == ite(a == ".", b, ite(a == "/", "/" + b, a + "/" + b))
axiom forall a string, b string :: {join2(a, b)} join2(clean(a), b) == join2(a, b)
axiom forall a string :: {join2(a, ".")} a == clean(a) ==> join2(a, ".") == a
axiom forall a string, b string :: {join2(a, b)} islocal(b) ==> join2(a, b) == join2(a, clean(b))
axiom forall s string :: {baseof(s)} baseof(s) != "" && (baseof(s) == "/" || !contains(baseof(s), "/"))
axiom forall s string :: {dirof(s)} dirof(s) != "" && clean(dirof(s)) == dirof(s)
axiom forall s string :: {dirof(s)} clean(s) == s && islocal(s) ==> ite(contains(s, "/"), s == dirof(s) + "/" + baseof(s) && clean(dirof(s)) == dirof(s) && islocal(dirof(s)) && dirof(s) != ".", dirof(s) == ".")

extern filepath.Clean(p) (r)
  ensures r == clean(p)
extern path.Clean(p) (r)
  ensures r == clean(p)
extern filepath.IsLocal(p) (r)
  ensures r == islocal(p)
extern filepath.IsAbs(p) (r)
  ensures r == prefixof("/", p)
extern path.IsAbs(p) (r)
  ensures r == prefixof("/", p)
extern filepath.Join(e) (r)
  ensures len(e) == 2 ==> r == join2(e[0], e[1])
extern path.Join(e) (r)
  ensures len(e) == 2 ==> r == join2(e[0], e[1])
extern filepath.ToSlash(p) (r)
  ensures r == p
extern filepath.FromSlash(p) (r)
  ensures r == p
extern filepath.Dir(p) (r)
  ensures r == dirof(p)
extern path.Dir(p) (r)
  ensures r == dirof(p)
extern filepath.Base(p) (r)
  ensures r == baseof(p)
extern path.Base(p) (r)
  ensures r == baseof(p)
extern fs.ValidPath(p) (r)
  ensures r == validpath(p)
