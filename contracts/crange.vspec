# Content-Range values, as RFC 9110 writes them. The decimal value of a string of
# digits and the trimming and case-folding of package strings are named functions.
spec trimsp(s string) string
spec trimleft(s string, cut string) string
spec foldeq(a string, b string) bool
spec decval(s string) int

extern strings.TrimSpace(s) (r)
  ensures r == trimsp(s)
extern strings.TrimLeft(s, cut) (r)
  ensures r == trimleft(s, cut)
extern strings.EqualFold(a, b) (r)
  ensures r == foldeq(a, b)
extern strconv.ParseInt(s, base, bits) (r, err)
  ensures s != "" && digits(s) && base == 10 && bits == 64 ==> (err == nil) == (decval(s) <= 9223372036854775807)
  ensures s != "" && digits(s) && base == 10 && bits == 64 && err == nil ==> r == decval(s) && r >= 0

define before(s, t) = substr(s, 0, indexof(s, t, 0))
define after(s, t) = substr(s, indexof(s, t, 0) + 1, len(s) - indexof(s, t, 0) - 1)
define num(s) = s != "" && digits(s) && decval(s) <= 9223372036854775807
define crrest(v) = trimleft(after(trimsp(v), " "), " ")
define crrange(v) = before(crrest(v), "/")
define crfirst(v) = before(crrange(v), "-")
define crlast(v) = after(crrange(v), "-")
define crtotal(v) = after(crrest(v), "/")
define crform(v) = contains(trimsp(v), " ") && foldeq(before(trimsp(v), " "), "bytes") && contains(crrest(v), "/") && num(crtotal(v))
define crstar(v) = crform(v) && crrange(v) == "*"
define crspan(v) = crform(v) && crrange(v) != "*" && contains(crrange(v), "-") && num(crfirst(v)) && num(crlast(v)) && decval(crfirst(v)) <= decval(crlast(v)) && decval(crlast(v)) < decval(crtotal(v))

func httprange.parseDecimal(s) (n, err)
  ensures [accepts] (err == nil) == num(s)
  ensures [value] err == nil ==> n == decval(s) && n >= 0
func httprange.parseContentRange(v) (start, end, total, err)
  ensures [accepts] (err == nil) == (crstar(v) || crspan(v))
  ensures [unsatisfied] err == nil && crstar(v) ==> start == 0 - 1 && end == 0 - 1 && total == decval(crtotal(v))
  ensures [span] err == nil && crspan(v) ==> start == decval(crfirst(v)) && end == decval(crlast(v)) && total == decval(crtotal(v))
  ensures [within] err == nil && !crstar(v) ==> 0 <= start && start <= end && end < total
  ensures [sized] err == nil ==> total >= 0 && start >= 0 - 1
