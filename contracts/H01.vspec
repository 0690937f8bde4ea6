unit H01
title a ranged HTTP reader returns only bytes of one pinned resource version
packages stream/httprange
include std
assumption the mutex-protected fields of the lane are described at the moment the lock is taken; atomics are accessed under rely (properties of the pinned description only settle) and guarantee (every swap keeps what is settled)

# ---- answers ----
# A header's value, the parts of a Content-Range value (defined in unit H02, where
# parseContentRange is verified against them), and what a response body is part of.
spec hdr(h int, k string) string
spec crok(v string) bool
spec crstar(v string) bool
spec crfirst(v string) int
spec crlast(v string) int
spec crtotal(v string) int
spec foldeq(a string, b string) bool
spec bstatus(k int) int
spec bhdr(k int) int
spec borig(k int) string
spec bdec(k int) bool
spec bbyte(k int, i int) int
ghost bpos map[int]int
ghost src int
ghost lpos map[int]int

extern (http.Header).Get(h, k) (r)
  ensures r == hdr(ref(h), k)
extern (http.Header).Set(h, k, v)
extern (http.Header).Del(h, k)
extern (http.Header).Clone(h) (r)
extern context.WithCancel(c) (d, f)
extern fmt.Sprintf(f, a) (r)
  ensures f != "" && !prefixof("%", f) ==> r != ""
extern strings.EqualFold(a, b) (r)
  ensures r == foldeq(a, b)
extern httprange.parseContentRange(v) (start, end, total, err)
  ensures (err == nil) == (crok(v) || crstar(v))
  ensures !(crok(v) && crstar(v))
  ensures crstar(v) ==> start == 0 - 1 && end == 0 - 1 && total == crtotal(v) && total >= 0
  ensures crok(v) ==> start == crfirst(v) && end == crlast(v) && total == crtotal(v) && 0 <= start && start <= end && end < total

define origin(resp) = ite(resp.Request == nil || resp.Request.URL == nil, "", resp.Request.URL.Scheme + "://" + resp.Request.URL.Host)

# An error of http.Client is a *url.Error, never a bare io.EOF. A Doer answers with a response or an error; nothing else is assumed of it.
invoke httprange.Doer.Do(d, req) (resp, err)
  ensures err == nil ==> resp != nil && resp.Body != nil
  ensures err == nil ==> bstatus(key(resp.Body)) == resp.StatusCode && bhdr(key(resp.Body)) == ref(resp.Header) && borig(key(resp.Body)) == origin(resp) && bdec(key(resp.Body)) == resp.Uncompressed
  ensures err == nil ==> bpos[key(resp.Body)] == 0
  ensures err != io.EOF
extern http.NewRequestWithContext(ctx, method, url, body) (req, err)
  option fresh=req
  ensures err == nil ==> req != nil
  ensures err != io.EOF
  ensures err != io.EOF
invoke *.Read(b, p) (n, err)
  modifies elems(p)
  ensures 0 <= n && n <= len(p)
  ensures forall i int :: {p[i]} 0 <= i && i < n ==> p[i] == bbyte(key(b), old(bpos[key(b)]) + i)
  sets bpos = update(bpos, key(b), bpos[key(b)] + n)
  sets src = key(b)
extern io.ReadFull(b, p) (n, err)
  modifies elems(p)
  ensures 0 <= n && n <= len(p)
  ensures (err == nil) == (n == len(p))
  ensures err == io.EOF ==> n == 0
  ensures forall i int :: {p[i]} 0 <= i && i < n ==> p[i] == bbyte(key(b), old(bpos[key(b)]) + i)
  sets bpos = update(bpos, key(b), bpos[key(b)] + n)
  sets src = key(b)
spec somepos(k int, p int) int
extern io.CopyN(dst, b, n) (m, err)
  sets bpos = update(bpos, key(b), somepos(key(b), bpos[key(b)]))
invoke *.Close(b) (err)

# ---- the pinned description ----
# What the reader has settled on. Others may settle more at any time; nothing
# settled ever changes, and every swap keeps to that.
ghost getag string
ghost glm string
ghost gorigin string
ghost gsize int
ghost gsizek bool
define settled(m) = (old(getag) != "" ==> m != nil && m.etag == old(getag)) && (old(glm) != "" ==> m != nil && m.lastModified == old(glm)) && (old(gorigin) != "" ==> m != nil && m.origin == old(gorigin)) && (old(gsizek) ==> m != nil && m.sizeKnown && m.size == old(gsize))
define keeps(o, m) = m != nil && (o != nil ==> (o.etag != "" ==> m.etag == o.etag) && (o.lastModified != "" ==> m.lastModified == o.lastModified) && (o.origin != "" ==> m.origin == o.origin) && (o.sizeKnown ==> m.sizeKnown && m.size == o.size))
extern (*atomic.Pointer).Load(p) (m)
  ensures settled(m)
  sets getag = ite(m == nil, "", m.etag)
  sets glm = ite(m == nil, "", m.lastModified)
  sets gorigin = ite(m == nil, "", m.origin)
  sets gsize = ite(m == nil, 0, m.size)
  sets gsizek = m != nil && m.sizeKnown
extern (*atomic.Pointer).CompareAndSwap(p, o, m) (ok)
  requires [keeps_settled] keeps(o, m)
  sets getag = ite(ok, m.etag, getag)
  sets glm = ite(ok, m.lastModified, glm)
  sets gorigin = ite(ok, m.origin, gorigin)
  sets gsize = ite(ok, m.size, gsize)
  sets gsizek = ite(ok, m.sizeKnown, gsizek)
extern (*atomic.Pointer).Store(p, m)
extern (*atomic.Int64).Load(p) (n)
  ensures n == lpos[ref(p)]
extern (*atomic.Int64).Store(p, n)
  sets lpos = update(lpos, ref(p), n)
extern (*atomic.Bool).Load(p) (b)
extern (*atomic.Bool).Store(p, b)
extern (*atomic.Bool).CompareAndSwap(p, o, n) (ok)
extern (*sync.Mutex).Lock(m)
extern (*sync.Mutex).Unlock(m)

func (*httprange.objectMeta).mismatch(m, resp, total) (r)
  option nilrecv
  requires resp != nil
  ensures [exact] (r == "") == (m == nil || (m.sizeKnown ==> total == m.size) && (hdr(ref(resp.Header), "ETag") == "" || m.etag == "" || hdr(ref(resp.Header), "ETag") == m.etag) && (hdr(ref(resp.Header), "Last-Modified") == "" || m.lastModified == "" || hdr(ref(resp.Header), "Last-Modified") == m.lastModified) && (origin(resp) == "" || m.origin == "" || origin(resp) == m.origin))
func (*httprange.objectMeta).completedBy(m, o) (r)
  option nilrecv
  requires o != nil
  ensures [nonnil] r != nil
  ensures [etag] r.etag == ite(m == nil || m.etag == "", o.etag, m.etag)
  ensures [lm] r.lastModified == ite(m == nil || m.lastModified == "", o.lastModified, m.lastModified)
  ensures [origin] r.origin == ite(m == nil || m.origin == "", o.origin, m.origin)
  ensures [size] r.size == ite(m == nil || !m.sizeKnown && o.sizeKnown, o.size, m.size)
  ensures [known] r.sizeKnown == (o.sizeKnown || m != nil && m.sizeKnown)

# The response says nothing that contradicts what is pinned, and its size is pinned.
define agreed(resp, total) = gsizek && gsize == total && (hdr(ref(resp.Header), "ETag") == "" || hdr(ref(resp.Header), "ETag") == getag) && (hdr(ref(resp.Header), "Last-Modified") == "" || hdr(ref(resp.Header), "Last-Modified") == glm) && (origin(resp) == "" || origin(resp) == gorigin)
define kept() = (old(getag) != "" ==> getag == old(getag)) && (old(glm) != "" ==> glm == old(glm)) && (old(gorigin) != "" ==> gorigin == old(gorigin)) && (old(gsizek) ==> gsizek && gsize == old(gsize))
func (*httprange.ReaderAt).pinOrVerify(r, resp, total) (s)
  requires resp != nil
  modifies ghost getag
  modifies ghost glm
  modifies ghost gorigin
  modifies ghost gsize
  modifies ghost gsizek
  ensures [agreed] s == "" ==> agreed(resp, total)
  ensures [kept] kept()
  loop 0 invariant kept()

func httprange.redactRawURL(raw) (s)
extern errors.AsType(e) (t, ok)
  ensures ok ==> t != nil && e != nil && e != io.EOF
func httprange.redactURLError(e) (r)
  ensures (r == nil) == (e == nil)
  ensures r == e || r != io.EOF
func (*httprange.ReaderAt).newRequest(r, ctx) (req, err)
  option fresh=req
  ensures err == nil ==> req != nil
  ensures err != io.EOF
func (*httprange.stream).killDetached(s)
  option ignorego
verify (*httprange.stream).killDetached$1()
  requires lane(s)
  ensures lane(s)

# ---- views ----
define maxint() = 9223372036854775807
define okview(v) = v.base >= 0 && v.length >= 0
define vend(v) = ite(v.length >= maxint() - v.base, maxint(), v.base + v.length)
func (httprange.view).end(v) (r)
  option nooverflow
  requires okview(v)
  ensures [end] r == vend(v)
func (httprange.view).locate(v, p, off) (q, abs, ok)
  option nooverflow
  requires okview(v) && off >= 0
  ensures [inside] ok == (off < vend(v) - v.base)
  ensures [place] ok ==> abs == v.base + off && abs < vend(v)
  ensures [cut] ok ==> backing(q) == backing(p) && offset(q) == offset(p) && len(q) == min(len(p), vend(v) - abs)
func httprange.newStream(v) (s)
  requires okview(v) && v.length > 0
  modifies ghost lpos
  ensures [lane] s != nil && lane(s)
  ensures [fresh] s.state == 0 && s.view.base == v.base && s.view.length == v.length

# ---- one answer ----
define cr(k) = hdr(bhdr(k), "Content-Range")
define same(k) = gsizek && crtotal(cr(k)) == gsize && (hdr(bhdr(k), "ETag") == "" || hdr(bhdr(k), "ETag") == getag) && (hdr(bhdr(k), "Last-Modified") == "" || hdr(bhdr(k), "Last-Modified") == glm) && (borig(k) == "" || borig(k) == gorigin)
define good(k) = bstatus(k) == 206 && crok(cr(k)) && !bdec(k) && (hdr(bhdr(k), "Content-Encoding") == "" || foldeq(hdr(bhdr(k), "Content-Encoding"), "identity")) && same(k)
define answered(resp) = resp != nil && resp.Body != nil && bstatus(key(resp.Body)) == resp.StatusCode && bhdr(key(resp.Body)) == ref(resp.Header) && borig(key(resp.Body)) == origin(resp) && bdec(key(resp.Body)) == resp.Uncompressed
define part(k, p, n, abs) = n > 0 ==> good(k) && crfirst(cr(k)) <= abs && abs + n - 1 <= crlast(cr(k)) && (forall i int :: {p[i]} 0 <= i && i < n ==> p[i] == bbyte(k, abs - crfirst(cr(k)) + i))

func httprange.checkContentEncoding(resp) (err)
  requires resp != nil
  ensures [identity] (err == nil) == (!resp.Uncompressed && (hdr(ref(resp.Header), "Content-Encoding") == "" || foldeq(hdr(ref(resp.Header), "Content-Encoding"), "identity")))
func httprange.drainAndClose(b)
  modifies ghost bpos
func httprange.emptyEntity(resp) (r)
  requires resp != nil && resp.Body != nil
  modifies ghost bpos
  modifies ghost src
  ensures [stated] resp.ContentLength == 0 ==> r
  ensures [not_empty] resp.ContentLength > 0 ==> !r
func (*httprange.ReaderAt).checkPartial(r, resp, off, length) (n, total, err)
  option nooverflow
  requires answered(resp) && length > 0 && off >= 0 && off + length <= maxint()
  modifies ghost getag
  modifies ghost glm
  modifies ghost gorigin
  modifies ghost gsize
  modifies ghost gsizek
  ensures [range] err == nil ==> crok(cr(key(resp.Body))) && crfirst(cr(key(resp.Body))) == off && crlast(cr(key(resp.Body))) == off + n - 1 && total == crtotal(cr(key(resp.Body)))
  ensures [length] err == nil ==> 1 <= n && n <= length && (n == length || off + n == total)
  ensures [same] err == nil ==> same(key(resp.Body))
  ensures [no_end] err != io.EOF
  ensures [kept] kept()
func (*httprange.ReaderAt).readUnsatisfied(r, resp, off) (err)
  requires answered(resp)
  modifies ghost getag
  modifies ghost glm
  modifies ghost gorigin
  modifies ghost gsize
  modifies ghost gsizek
  ensures [error] err != nil
  ensures [end] err == io.EOF ==> gsizek && off >= gsize && agreed(resp, gsize)
  ensures [kept] kept()
func (*httprange.ReaderAt).streamUnsatisfied(r, resp, off) (err)
  requires answered(resp)
  modifies ghost getag
  modifies ghost glm
  modifies ghost gorigin
  modifies ghost gsize
  modifies ghost gsizek
  ensures [error] err != nil
  ensures [end] err == io.EOF ==> gsizek && off >= gsize && agreed(resp, gsize)
  ensures [kept] kept()
func (*httprange.ReaderAt).knownSize(r) (n, known)
  modifies ghost getag
  modifies ghost glm
  modifies ghost gorigin
  modifies ghost gsize
  modifies ghost gsizek
  ensures [size] known == gsizek && (known ==> n == gsize)
  ensures [kept] kept()
func (*httprange.ReaderAt).checkStream(r, resp, start, wantEnd, conditional) (granted, err)
  option nooverflow
  requires answered(resp) && start >= 0 && wantEnd >= 0 - 1
  modifies ghost getag
  modifies ghost glm
  modifies ghost gorigin
  modifies ghost gsize
  modifies ghost gsizek
  modifies ghost bpos
  modifies ghost src
  ensures [good] err == nil ==> good(key(resp.Body)) && crfirst(cr(key(resp.Body))) == start && granted == crlast(cr(key(resp.Body))) + 1
  ensures [whole] err == nil ==> wantEnd >= 0 && granted == wantEnd + 1 || granted == gsize
  ensures [within] err == nil && wantEnd >= 0 ==> granted <= wantEnd + 1
  ensures [some] err == nil ==> granted > start && granted <= gsize
  ensures [unread] err == nil ==> bpos == old(bpos)
  ensures [end] err == io.EOF ==> gsizek && start >= gsize
  ensures [kept] kept()

# ---- the lane ----
define lane(s) = okview(s.view) && s.state <= 2 && s.view.length > 0 && (s.state == 0 ==> lpos[ref(s.pos)] == s.view.base) && (s.state == 1 ==> laneopen(s))
define laneopen(s) = s.body != nil && good(key(s.body)) && crfirst(cr(key(s.body))) == s.view.base && s.limit == crlast(cr(key(s.body))) + 1 && bpos[key(s.body)] >= 0 && lpos[ref(s.pos)] == s.view.base + bpos[key(s.body)] && lpos[ref(s.pos)] <= s.limit && (s.limit == vend(s.view) || s.limit == gsize) && s.limit <= vend(s.view) && s.limit <= gsize
func (*httprange.stream).killLocked(s)
  modifies s.body
  modifies s.state
  modifies ghost bpos
  requires s.state == 1 ==> s.body != nil
  ensures [dead] s.state == 2
func (*httprange.ReaderAt).openStream(r) (err)
  option nooverflow
  requires r.stream != nil && lane(r.stream) && r.stream.state == 0
  modifies r.stream.body
  modifies r.stream.state
  modifies r.stream.limit
  modifies ghost lpos
  modifies ghost bpos
  modifies ghost src
  modifies ghost getag
  modifies ghost glm
  modifies ghost gorigin
  modifies ghost gsize
  modifies ghost gsizek
  ensures [open] err == nil ==> r.stream.state == 1 && laneopen(r.stream) && lpos[ref(r.stream.pos)] == r.stream.view.base
  ensures [dead] err != nil ==> r.stream.state == 2
  ensures [end] err == io.EOF ==> gsizek && r.stream.view.base >= gsize
  ensures [kept] kept()
func (*httprange.ReaderAt).streamReadAt(r, p, off) (n, served, err)
  option nooverflow
  requires r.stream != nil && lane(r.stream) && len(p) > 0
  modifies array(p)
  modifies r.stream.body
  modifies r.stream.state
  modifies r.stream.limit
  modifies ghost lpos
  modifies ghost bpos
  modifies ghost src
  modifies ghost getag
  modifies ghost glm
  modifies ghost gorigin
  modifies ghost gsize
  modifies ghost gsizek
  ensures [lane] lane(r.stream)
  ensures [count] 0 <= n && n <= len(p)
  ensures [bytes] served ==> part(src, p, n, off)
  ensures [full] served && err == nil ==> n == len(p) && r.stream != nil && off + n < vend(r.stream.view) && (gsizek ==> off + n < gsize)
  ensures [end] served && err == io.EOF ==> gsizek && off + n >= gsize || off + n >= vend(r.stream.view)
  ensures [kept] kept()
  loop 0 invariant 0 <= n && n <= len(p) && r.stream.state == 1 && laneopen(r.stream) && lpos[ref(r.stream.pos)] == off + n && off >= r.stream.view.base
  loop 0 invariant n > 0 ==> src == key(r.stream.body)
  loop 0 invariant forall i int :: {p[i]} 0 <= i && i < n ==> p[i] == bbyte(key(r.stream.body), off - r.stream.view.base + i)
  loop 0 invariant kept()
func (*httprange.ReaderAt).laneReadAt(r, p, off) (n, served, err)
  requires (r.stream != nil ==> lane(r.stream)) && len(p) > 0
  modifies array(p)
  modifies r.stream.body
  modifies r.stream.state
  modifies r.stream.limit
  modifies ghost lpos
  modifies ghost bpos
  modifies ghost src
  modifies ghost getag
  modifies ghost glm
  modifies ghost gorigin
  modifies ghost gsize
  modifies ghost gsizek
  ensures [lane] r.stream != nil ==> lane(r.stream)
  ensures [count] 0 <= n && n <= len(p)
  ensures [bytes] served ==> part(src, p, n, off)
  ensures [full] served && err == nil ==> n == len(p) && r.stream != nil && off + n < vend(r.stream.view) && (gsizek ==> off + n < gsize)
  ensures [end] served && err == io.EOF ==> r.stream != nil && (gsizek && off + n >= gsize || off + n >= vend(r.stream.view))
  ensures [nolane] r.stream == nil ==> !served
  ensures [kept] kept()
verify (*httprange.ReaderAt).ReadAt(r, buf, off) (n, err)
  option nooverflow
  requires okview(r.view) && (r.stream != nil ==> lane(r.stream) && r.stream.view.base == r.view.base && r.stream.view.length == r.view.length)
  ensures [count] 0 <= n && n <= len(buf)
  ensures [negative] off < 0 ==> n == 0 && err != nil && err != io.EOF
  ensures [beyond] off >= vend(r.view) - r.view.base && off >= 0 ==> n == 0 && err == io.EOF
  ensures [bytes] part(src, buf, n, r.view.base + off)
  ensures [within] off >= 0 ==> off + n <= vend(r.view) - r.view.base || n == 0
  ensures [end] err == io.EOF ==> gsizek && r.view.base + off + n >= gsize || r.view.base + off + n >= vend(r.view)
  ensures [full] err == nil ==> n == len(buf)
  ensures [kept] kept()
verify (*httprange.ReaderAt).probe(r, ctx) (err)
  ensures [pinned] err == nil ==> gsizek
  ensures [kept] kept()
verify httprange.NewRange(ctx, url, off, n, cfg) (r, err)
  option exact
  ensures [negative] off < 0 ==> err != nil
  ensures [view] err == nil ==> r != nil && okview(r.view) && r.view.base == off
  ensures [reach] err == nil && n >= 0 ==> vend(r.view) == min(off + n, maxint())
  ensures [lane] err == nil && r.stream != nil ==> lane(r.stream) && r.stream.view.base == r.view.base && r.stream.view.length == r.view.length
