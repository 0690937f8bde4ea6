unit H03
title chunked transfer covers the content exactly once, in order
packages stream/fileserver stream
include std

# Chunk i of an object: its name, and its exact size.
spec nameof(i int) string
define nchunks(total, cs) = ite(total == 0, 1, ite(total % cs == 0, total / cs, total / cs + 1))
define sizeofchunk(i, total, cs) = ite(i < nchunks(total, cs) - 1, cs, ite(total == 0, 0, ite(total % cs == 0, cs, total % cs)))
callback name(i) (s)
  ensures s == nameof(i)

func fileserver.chunkCount(total, cs) (n)
  option exact
  requires total >= 0 && cs > 0
  ensures [count] n == nchunks(total, cs)
  ensures [some] n >= 1
func fileserver.expectedChunkSize(i, total, cs) (n)
  option exact
  requires total >= 0 && cs > 0
  ensures [size] n == sizeofchunk(i, total, cs)

# The partition: chunk starts are multiples of the chunk size, and the sizes add up
# to the total, whatever the two are.
lemma starts(total int, cs int, i int)
  hyp total >= 0 && cs > 0 && 0 <= i && i < nchunks(total, cs) - 1
  goal sizeofchunk(i, total, cs) == cs && (i + 1) * cs <= total
lemma sum(total int, cs int)
  hyp total >= 0 && cs > 0
  goal (nchunks(total, cs) - 1) * cs + sizeofchunk(nchunks(total, cs) - 1, total, cs) == total
lemma shorter(total int, cs int)
  hyp total > 0 && cs > 0
  goal 0 < sizeofchunk(nchunks(total, cs) - 1, total, cs) && sizeofchunk(nchunks(total, cs) - 1, total, cs) <= cs

# ---- the sink ----
# A temporary file: which bytes of the reader it holds, and where it stands.
ghost spos int = 0
ghost tfrom map[int]int
ghost tlen map[int]int
ghost tpos map[int]int
ghost live map[int]int = constmap(0)
ghost nlive int = 0
spec fname(k int) string
spec fof(s string) int

extern os.CreateTemp(dir, pat) (f, err)
  option fresh=f
  ensures (err == nil) == (f != nil)
  ensures err == nil ==> fof(fname(ref(f))) == ref(f)
  ensures err == nil ==> tlen[ref(f)] == 0 && tpos[ref(f)] == 0
  sets nlive = ite(err == nil, nlive + 1, nlive)
  sets live = ite(err == nil, update(live, ref(f), 1), live)
extern (*os.File).Name(f) (s)
  ensures s == fname(ref(f))
extern (*os.File).Close(f) (err)
extern os.Remove(name) (err)
  requires [own] live[fof(name)] == 1
  sets live = update(live, fof(name), 0)
  sets nlive = nlive - 1
extern (*os.File).Seek(f, off, whence) (n, err)
  ensures err == nil && whence == 0 ==> tpos[ref(f)] == off
  modifies ghost tpos
extern io.CopyN(dst, r, n) (w, err)
  ensures 0 <= w && w <= n
  ensures (err == nil) == (w == n)
  sets tfrom = update(tfrom, key(dst), spos)
  sets tlen = update(tlen, key(dst), w)
  sets tpos = update(tpos, key(dst), w)
  sets spos = spos + w

# The server: the chunks it has accepted, from a first one on.
ghost first int
ghost next int
ghost total int
ghost cs int
ghost statsz map[int]int
ghost statn int = 0
ghost missing int = 0
ghost broken int = 0
invoke fileserver.Client.Put(c, ctx, name, size, r) (err)
  requires [in_order] name == nameof(next) && next >= 0 && next < nchunks(total, cs)
  requires [whole] size == sizeofchunk(next, total, cs)
  requires [its_bytes] tpos[key(r)] == 0 && tlen[key(r)] == size && tfrom[key(r)] == (next - first) * cs
  sets next = ite(err == nil, next + 1, next)
  modifies ghost tpos
invoke fileserver.Client.Stat(c, ctx, name) (n, err)
  requires [in_order] name == nameof(statn) && statn >= 0 && statn < nchunks(total, cs) && missing == 0 && broken == 0
  ensures err == nil ==> statsz[old(statn)] == n
  ensures err != nil && errIs(err, fs.ErrNotExist) ==> missing == 1 && broken == 0
  ensures err == nil ==> missing == 0 && broken == 0
  ensures err != nil && !errIs(err, fs.ErrNotExist) ==> broken == 1 && missing == 0
  modifies ghost missing
  modifies ghost broken
  sets statn = ite(err == nil, statn + 1, statn)

define sane(s) = s.totalSize >= 0 && s.chunkSize > 0 && total == s.totalSize && cs == s.chunkSize
verify (*fileserver.ChunkedSink).Append(s, ctx, offset, r) (err)
  requires sane(s) && offset >= 0 && (offset % cs == 0 ==> first == offset / cs && next == first)
  loop 0 invariant next >= first && first * cs == offset && nlive == 0 && (next == first ==> spos == 0) && (next == first || next <= nchunks(total, cs))
  loop 0 invariant next < nchunks(total, cs) ==> spos == (next - first) * cs
  loop 0 invariant next > first && next == nchunks(total, cs) ==> spos == total - offset
  ensures [aligned] offset % cs != 0 ==> err != nil && spos == 0 && next == old(next)
  ensures [all_sent] err == nil ==> next == max(nchunks(total, cs), first)
  ensures [all_bytes] err == nil && offset <= total ==> spos == total - offset
  ensures [no_leftover] nlive == 0
verify (*fileserver.ChunkedSink).State(s, ctx) (offset, complete, err)
  requires sane(s)
  loop 0 invariant statn >= 0 && statn <= nchunks(total, cs) && missing == 0 && broken == 0
  loop 0 invariant forall k int :: {statsz[k]} 0 <= k && k < statn ==> statsz[k] == sizeofchunk(k, total, cs)
  ensures [complete] err == nil && complete ==> offset == total && (forall k int :: {statsz[k]} 0 <= k && k < nchunks(total, cs) ==> statsz[k] == sizeofchunk(k, total, cs))
  ensures [partial] err == nil && !complete ==> (missing == 1 && offset == statn * cs || missing == 0 && statn > 0 && offset == (statn - 1) * cs && statsz[statn - 1] != sizeofchunk(statn - 1, total, cs))
  ensures [prefix] err == nil && !complete ==> (forall k int :: {statsz[k]} 0 <= k && k * cs < offset ==> statsz[k] == sizeofchunk(k, total, cs))
  ensures [failed] (err != nil) == (broken == 1)
  ensures [failed_state] err != nil ==> !complete

# ---- the source ----
# Reading from an object at an offset: which of its bytes a stream stands at.
ghost firstseg int
ghost nseg int = 0
ghost want int
ghost segpos map[int]int
spec chunkat(k int) int
extern stream.NewSeqReaderAt(o, size) (r)
  option fresh=r tries=o:want
  requires [size] size == sizeofchunk(firstseg + nseg, total, cs) && firstseg + nseg < nchunks(total, cs)
  ensures r != nil && chunkat(key(r)) == firstseg + nseg - 1
  sets nseg = nseg + 1
invoke fileserver.Client.Get(c, ctx, name, off) (r, n, err)
  requires [its_chunk] name == nameof(firstseg + nseg)
  requires [its_offset] off == want
ghost mpos map[int]int
extern stream.NewMultiReadAtSeekCloser(segs) (m)
  option fresh=m
  requires [all] len(segs) == nchunks(total, cs) - firstseg
  requires [segments] forall i int :: {segs[i].Size} 0 <= i && i < len(segs) ==> segs[i].Size == sizeofchunk(firstseg + i, total, cs) && chunkat(key(segs[i].R)) == firstseg + i
  ensures m != nil && mpos[key(m)] == firstseg * cs
  modifies ghost mpos
invoke *.Seek(m, off, whence) (n, err)
  ensures err == nil && whence == 0 && off >= 0 ==> mpos[key(m)] == firstseg * cs + off
  modifies ghost mpos
invoke *.Close(c) (err)
spec isempty(k int) bool
extern strings.NewReader(s) (r)
  option fresh=r
  ensures r != nil && (s == "" ==> isempty(ref(r)))
extern io.NopCloser(r) (c)
  option fresh=c
  ensures c != nil && isempty(key(c)) == isempty(key(r))
verify (*fileserver.ChunkedSource).Open(s, ctx, offset) (r, err)
  requires sane(s) && firstseg == offset / cs
  loop 0 invariant nseg >= 0 && len(segments) == nseg && (forall k int :: {segments[k].Size} 0 <= k && k < nseg ==> segments[k].Size == sizeofchunk(firstseg + k, total, cs) && chunkat(key(segments[k].R)) == firstseg + k)
  ensures [refused] offset < 0 || offset > total ==> err != nil && r == nil
  ensures [positioned] err == nil && offset < total ==> r != nil && mpos[key(r)] == offset
  ensures [at_end] err == nil && offset == total ==> r != nil && isempty(key(r))

# ---- the client ----
# The answer of a server: which byte of the object the body starts with, as far as
# its status and headers say.
ghost reqrange int
ghost reqset int = 0
spec hdr(h int, k string) string
spec crange(off int) string
spec intof(s string) int
extern fmt.Sprintf(f, a) (s)
  ensures f == "bytes=%d-" && len(a) == 1 && is(a[0], "int64") ==> s == crange(cast(a[0], "int64"))
extern (http.Header).Get(h, k) (r)
  ensures r == hdr(ref(h), k)
extern (http.Header).Add(h, k, v)
extern (http.Header).Set(h, k, v)
  requires [range] k == "Range" && v == crange(wantoff) && wantoff > 0
  sets reqset = 1
ghost wantoff int
extern http.NewRequestWithContext(ctx, method, url, body) (req, err)
  option fresh=req
  ensures (err == nil) == (req != nil)
  sets reqbody = key(body)
ghost reqbody int
extern strconv.ParseInt(s, base, bits) (n, err)
  ensures err == nil ==> n == intof(s)
ghost sent int = 0
invoke fileserver.Doer.Do(d, req) (resp, err)
  requires [asked] wantoff > 0 ==> reqset == 1
  requires [declared] putsize >= 0 ==> req.ContentLength == putsize && reqbody == putbody
  ensures (err == nil) == (resp != nil)
  ensures err == nil ==> resp.Body != nil
  ensures err == nil ==> rstatus == resp.StatusCode && rhdr == ref(resp.Header)
  ensures err != nil ==> rstatus == 0
  sets sent = sent + 1
  modifies ghost rstatus
  modifies ghost rhdr
ghost rhdr int
ghost rstatus int = 0
ghost putsize int
ghost putbody int
extern io.Copy(dst, src) (n, err)
invoke *.Close(c) (err)
# the number between "bytes " and the first "-"
define bare(v) = ite(prefixof("bytes ", v), substr(v, 6, len(v) - 6), v)
define startof(v) = intof(ite(contains(bare(v), "-"), substr(bare(v), 0, indexof(bare(v), "-", 0)), bare(v)))
verify (*fileserver.HTTPClient).Get(c, ctx, name, offset) (body, total, err)
  requires c.BaseURL != nil && c.Client != nil && wantoff == offset && putsize < 0
  ensures [start] err == nil ==> body != nil && (rstatus == 200 && offset <= 0 || rstatus == 206 && startof(hdr(rhdr, "Content-Range")) == max(offset, 0))
verify (*fileserver.HTTPClient).Put(c, ctx, name, size, r) (err)
  requires c.BaseURL != nil && c.Client != nil && wantoff <= 0 && putsize == size && putbody == key(r) && size >= 0
  ensures [accepted] err == nil ==> sent == 1 && rstatus >= 200 && rstatus < 300
verify (*fileserver.HTTPClient).Stat(c, ctx, name) (n, err)
  requires c.BaseURL != nil && c.Client != nil && wantoff <= 0 && putsize < 0
  ensures [known] err == nil ==> n >= 0 && (rstatus == 200 || rstatus == 204)
  ensures [absent] rstatus == 404 || rstatus == 410 ==> err != nil && errIs(err, fs.ErrNotExist)
