unit H04
title credentials and query secrets never appear in errors
packages stream/fileserver stream/httprange
include std
assumption texts are labelled conservatively: every URL handed in or rendered from one that has user information, an opaque part, a query or a fragment is secret as a whole text; an error of a library shows no URL unless a *url.Error is in its chain

# A text that shows more of a URL than scheme, host and path, and an error whose
# own text does.
spec secret(s string) bool
spec dirty(k int) bool
axiom !secret("[redacted url]")

define hidden(e) = is(e, "*fileserver.parseFailure") || is(e, "*httprange.parseFailure") || is(e, "*httprange.StatusCodeError")
define okleaf(e) = e == nil || e == io.EOF || hidden(e) || !is(e, "*url.Error") && !dirty(key(e))
define oktop(e) = okleaf(e) || is(e, "*url.Error") && !secret(cast(e, "*url.Error").URL)
define okerr(e) = okleaf(e) || is(e, "*url.Error") && !secret(cast(e, "*url.Error").URL) && oktop(cast(e, "*url.Error").Err)
# what may be printed
define okarg(a) = okerr(a) || is(a, "int") || is(a, "int64") || is(a, "bool") || is(a, "string") && (literal(cast(a, "string")) || !secret(cast(a, "string")))

extern fmt.Errorf(f, a) (e)
  option checks
  requires [format] literal(f) || !secret(f)
  requires [shown] (len(a) > 0 ==> okarg(a[0])) && (len(a) > 1 ==> okarg(a[1])) && (len(a) > 2 ==> okarg(a[2])) && (len(a) > 3 ==> okarg(a[3])) && (len(a) > 4 ==> okarg(a[4])) && (len(a) > 5 ==> okarg(a[5]))
  ensures !dirty(key(e))
extern errors.New(s) (e)
  option checks
  requires [shown] literal(s) || !secret(s)
  ensures !dirty(key(e))

extern errors.As(e, target) (ok)
  modifies deref(target)
  ensures !ok ==> !is(e, "*url.Error") && !dirty(key(e))
extern errors.AsType[*url.Error](e) (t, ok)
  ensures !ok ==> !is(e, "*url.Error") && !dirty(key(e))
  ensures ok ==> t != nil && e != nil
extern errors.AsType(e) (t, ok)
extern url.Parse(s) (u, err)
  option fresh=u
  ensures (err == nil) == (u != nil)
  ensures u != nil ==> !secret(u.Scheme)
extern (*url.URL).String(u) (s)
  ensures u.User == nil && u.Opaque == "" && u.RawQuery == "" && u.Fragment == "" ==> !secret(s)
extern (*url.URL).Redacted(u) (s)
  ensures u.Opaque == "" && u.RawQuery == "" && u.Fragment == "" && u.User == nil ==> !secret(s)

extern errors.Is(e, t) (r)
extern http.StatusText(c) (s)
  ensures !secret(s)
extern fmt.Sprintf(f, a) (r)
  option checks
  requires [format] literal(f) || !secret(f)
  requires [shown] (len(a) > 0 ==> okarg(a[0])) && (len(a) > 1 ==> okarg(a[1])) && (len(a) > 2 ==> okarg(a[2])) && (len(a) > 3 ==> okarg(a[3]))
  ensures !secret(r)
axiom !secret("")

# Errors that carry no URL: the sentinels, and what the libraries report about
# numbers and bodies.
axiom okleaf(httprange.ErrObjectChanged) && okleaf(httprange.ErrRangeIgnored) && okleaf(fs.ErrNotExist) && okleaf(io.ErrUnexpectedEOF)
axiom !is(httprange.ErrObjectChanged, "*url.Error") && !is(httprange.ErrRangeIgnored, "*url.Error") && !is(fs.ErrNotExist, "*url.Error") && !is(io.ErrUnexpectedEOF, "*url.Error") && !dirty(key(io.EOF)) && !is(io.EOF, "*url.Error")
extern strconv.ParseInt(s, b, z) (n, err)
  ensures err != nil ==> !dirty(key(err)) && !is(err, "*url.Error")
extern strings.Cut(s, t) (a, b, ok)
  ensures !secret(s) ==> !secret(a) && !secret(b)
extern strings.TrimSpace(s) (r)
  ensures !secret(s) ==> !secret(r)
extern strings.TrimLeft(s, c) (r)
  ensures !secret(s) ==> !secret(r)
extern strings.TrimRight(s, c) (r)
extern strings.TrimPrefix(s, p) (r)
  ensures !secret(s) ==> !secret(r)
extern url.PathEscape(s) (r)
extern strings.LastIndex(s, t) (r)
  ensures r >= 0 - 1 && r <= len(s) - len(t)
extern strings.HasPrefix(s, p) (r)
extern strings.EqualFold(s, p) (r)
extern (http.Header).Get(h, k) (r)
  ensures !secret(r)
extern (http.Header).Set(h, k, v)
extern (http.Header).Del(h, k)
extern (http.Header).Add(h, k, v)
extern (http.Header).Clone(h) (r)
extern io.Copy(a, b) (n, err)
extern io.CopyN(a, b, m) (n, err)
extern io.ReadFull(b, p) (n, err)
  modifies elems(p)
  ensures 0 <= n && n <= len(p)
invoke *.Read(b, p) (n, err)
  modifies elems(p)
  ensures 0 <= n && n <= len(p)
invoke *.Close(b) (err)
# A response: the status, and the request it answers, whose scheme and host may be shown.
define shown(resp) = resp != nil && resp.Body != nil && (resp.Request != nil && resp.Request.URL != nil ==> !secret(resp.Request.URL.Scheme + "://" + resp.Request.URL.Host))
invoke *.Do(d, req) (resp, err)
  ensures err == nil ==> shown(resp)
extern http.NewRequestWithContext(ctx, method, u, body) (req, err)
  option fresh=req
  ensures err == nil ==> req != nil && req.Header != nil

# ---- the file-server client ----
func fileserver.redactURLError(e) (r)
  ensures [clean] okerr(r)
verify (*fileserver.parseFailure).Error(f) (s)
  ensures [fixed] s == "invalid URL" || s == "invalid URL escape"
extern (*fileserver.HTTPClient).objectURL(c, name) (u)
  ensures secret(u)
extern (*fileserver.HTTPClient).applyHeaders(c, req)
func fileserver.parseTotalFromContentRange(s) (n, err)
  requires !secret(s)
  ensures [clean] okerr(err) && !is(err, "*url.Error")
func fileserver.checkContentRangeStart(s, off) (err)
  requires !secret(s)
  ensures [clean] okerr(err) && !is(err, "*url.Error")
verify (*fileserver.HTTPClient).Get(c, ctx, name, off) (rc, n, err)
  requires !secret(name)
  ensures [clean] okerr(err)
verify (*fileserver.HTTPClient).Stat(c, ctx, name) (n, err)
  requires !secret(name)
  ensures [clean] okerr(err)
verify (*fileserver.HTTPClient).Put(c, ctx, name, size, rd) (err)
  requires !secret(name)
  ensures [clean] okerr(err)

# ---- the ranged reader ----
func httprange.redactURL(u) (s)
  requires u != nil
  ensures [clean] !secret(s)
func httprange.redactRawURL(raw) (s)
  ensures [clean] !secret(s)
func httprange.redactURLError(e) (r)
  ensures [clean] okerr(r)
  ensures [nil] (r == nil) == (e == nil)
verify (*httprange.parseFailure).Error(f) (s)
  ensures [fixed] s == "invalid URL" || s == "invalid URL escape"
verify (*httprange.StatusCodeError).Error(e) (s)
  ensures [clean] !secret(s)
func httprange.validateURL(raw) (err)
  requires raw != "" ==> secret(raw)
  ensures [clean] okerr(err)
func (*httprange.ReaderAt).newRequest(r, ctx) (req, err)
  requires secret(r.url)
  ensures [clean] okerr(err)
  ensures [req] err == nil ==> req != nil
func httprange.parseDecimal(s) (n, err)
  requires !secret(s)
  ensures [clean] okleaf(err) && !is(err, "*url.Error")
func httprange.parseContentRange(v) (start, end, total, err)
  requires !secret(v)
  ensures [clean] okleaf(err) && !is(err, "*url.Error")
func httprange.checkContentEncoding(resp) (err)
  requires shown(resp)
  ensures [clean] okleaf(err) && !is(err, "*url.Error")
extern httprange.emptyEntity(resp) (r)
extern httprange.drainAndClose(b)

# What is pinned of the resource is what responses (or the caller's prior knowledge)
# said, and may be shown.
define cleanm(m) = m != nil ==> !secret(m.etag) && !secret(m.lastModified) && !secret(m.origin)
extern (*atomic.Pointer).Load(p) (m)
  ensures cleanm(m)
extern (*atomic.Pointer).CompareAndSwap(p, o, m) (ok)
  requires [clean] cleanm(m)
func httprange.originOf(resp) (s)
  requires shown(resp)
  ensures [clean] !secret(s)
func httprange.metaFromResponse(resp, total) (m)
  requires shown(resp)
  ensures [clean] m != nil && cleanm(m)
func (*httprange.objectMeta).mismatch(m, resp, total) (r)
  option nilrecv
  requires shown(resp) && cleanm(m)
  ensures [clean] !secret(r)
func (*httprange.objectMeta).completedBy(m, o) (r)
  option nilrecv
  requires o != nil && cleanm(o) && cleanm(m)
  ensures [clean] cleanm(r)
func (*httprange.ReaderAt).pinOrVerify(r, resp, total) (s)
  requires shown(resp)
  ensures [clean] !secret(s)
func (*httprange.ReaderAt).probeUnsatisfied(r, resp) (err)
  requires shown(resp) && secret(r.url)
  ensures [clean] okerr(err)
func (*httprange.ReaderAt).readUnsatisfied(r, resp, off) (err)
  requires shown(resp) && secret(r.url)
  ensures [clean] okerr(err)
func (*httprange.ReaderAt).streamUnsatisfied(r, resp, off) (err)
  requires shown(resp) && secret(r.url)
  ensures [clean] okerr(err)
func (*httprange.ReaderAt).checkPartial(r, resp, off, length) (n, total, err)
  requires shown(resp) && secret(r.url)
  ensures [clean] okerr(err)
func (*httprange.ReaderAt).checkStream(r, resp, start, wantEnd, conditional) (granted, err)
  requires shown(resp) && secret(r.url)
  ensures [clean] okerr(err)
verify (*httprange.ReaderAt).probe(r, ctx) (err)
  requires secret(r.url)
  ensures [clean] okerr(err)
extern (*httprange.stream).killLocked(s)
extern (*atomic.Int64).Load(p) (n)
extern (*atomic.Int64).Store(p, n)
extern (*sync.Mutex).Lock(m)
extern (*sync.Mutex).Unlock(m)
extern (*httprange.ReaderAt).knownSize(r) (n, known)
extern (httprange.view).end(v) (r)
func (*httprange.ReaderAt).openStream(r) (err)
  requires r.stream != nil && secret(r.url)
  modifies r.stream.body
  modifies r.stream.state
  modifies r.stream.limit
  ensures [clean] okerr(err)
func (*httprange.ReaderAt).streamReadAt(r, p, off) (n, served, err)
  requires r.stream != nil && secret(r.url)
  modifies r.stream.body
  modifies r.stream.state
  modifies r.stream.limit
  modifies array(p)
  ensures [clean] okerr(err)
func (*httprange.ReaderAt).laneReadAt(r, p, off) (n, served, err)
  requires secret(r.url)
  modifies r.stream.body
  modifies r.stream.state
  modifies r.stream.limit
  modifies array(p)
  ensures [clean] okerr(err)
verify (*httprange.ReaderAt).ReadAt(r, buf, off) (n, err)
  requires secret(r.url)
  ensures [clean] okerr(err)
extern (httprange.view).locate(v, p, off) (q, abs, ok)
extern httprange.ifRangeValue(m) (s)
extern (*httprange.stream).killDetached(s)
extern (*atomic.Bool).Load(b) (r)
verify httprange.New(ctx, u, cfg) (r, err)
  requires u != "" ==> secret(u)
  ensures [clean] okerr(err)
verify httprange.NewRange(ctx, u, off, n, cfg) (r, err)
  requires u != "" ==> secret(u)
  ensures [clean] okerr(err)
