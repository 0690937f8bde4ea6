unit S01
title a virtually concatenated reader behaves as the one concatenation
packages stream stream/internal/serr
include std

# The byte of a segment at an offset, and the byte of the concatenation.
spec data(k int, off int) int
spec vbyte(off int) int

# io.ReaderAt: what it delivers are the bytes at the offset, and an error says why
# there are fewer than asked for.
invoke *.ReadAt(r, p, off) (n, err)
  modifies elems(p)
  requires [within] off >= 0
  ensures 0 <= n && n <= len(p)
  ensures n < len(p) ==> err != nil
  ensures forall i int :: {p[i]} 0 <= i && i < n ==> p[i] == data(key(r), off + i)
spec sizeof(k int) int
invoke fs.FileInfo.Size(i) (n)
  ensures n == sizeof(key(i))
spec rsize(k int) int
invoke *.Size(r) (n)
  ensures n == rsize(key(r))
spec infoof(k int) int
invoke *.Stat(f) (i, err)
  ensures key(i) == infoof(key(f))
ghost closed map[int]int = constmap(0)
invoke *.Close(c) (err)
  sets closed = update(closed, key(c), 1)

# Segments lie one after the other.
define seq(s) = (forall i int :: {s[i].headOff} 0 <= i && i < len(s) ==> s[i].Size >= 0 && s[i].headOff >= 0 && (i > 0 ==> s[i].headOff == s[i - 1].headOff + s[i - 1].Size))
define endof(s) = s[len(s) - 1].headOff + s[len(s) - 1].Size
define inseg(s, i, off) = 0 <= i && i < len(s) && s[i].headOff <= off && off < s[i].headOff + s[i].Size


# the documented result of a binary search through an ascending list
extern slices.BinarySearchFunc(x, target, cmp) (i, found)
  requires [ascending] seq(x)
  ensures 0 <= i && i <= len(x)
  ensures found ==> inseg(x, i, target)
  ensures !found ==> (i > 0 ==> x[i - 1].headOff + x[i - 1].Size <= target) && (i < len(x) ==> target < x[i].headOff)
verify stream.binarySearch$1(seg, target) (r)
  ensures [inside] (r == 0) == (seg.headOff <= target && target < seg.headOff + seg.Size)
  ensures [before] r < 0 ==> seg.headOff + seg.Size <= target
  ensures [after] r > 0 ==> target < seg.headOff || seg.Size < 0

func stream.binarySearch(o, s) (r)
  requires seq(s)
  ensures [found] r >= 0 ==> inseg(s, r, o)
  ensures [beyond] r < 0 && len(s) > 0 ==> o < s[0].headOff || o >= endof(s)
func stream.search(o, s) (r)
  requires seq(s)
  ensures [found] r >= 0 ==> inseg(s, r, o)
  ensures [beyond] r < 0 && len(s) > 0 ==> o < s[0].headOff || o >= endof(s)
  loop 0 invariant len(s) > 0 && o >= s[0].headOff && rangeindex >= 0 ==> o >= s[rangeindex].headOff + s[rangeindex].Size

# A concatenating reader.
define total(r) = ite(len(r.r) == 0, 0, endof(r.r))
define shape(r) = seq(r.r) && (len(r.r) > 0 ==> r.r[0].headOff == 0) && r.upperLimit == total(r) && (forall i int :: {r.r[i].headOff} 0 <= i && i < len(r.r) ==> r.r[i].headOff + r.r[i].Size <= r.upperLimit)
define bytes(r) = (forall i int, j int :: {r.r[i].headOff, data(key(r.r[i].R), j)} 0 <= i && i < len(r.r) && 0 <= j && j < r.r[i].Size ==> data(key(r.r[i].R), j) == vbyte(r.r[i].headOff + j))
define placed(r) = r.off >= 0 && 0 <= r.idx && r.idx <= len(r.r) && (r.idx < len(r.r) ==> r.r[r.idx].headOff <= r.off) && (r.idx == len(r.r) ==> r.off >= r.upperLimit)
define whole(e) = e == nil || e == io.EOF

func (*stream.multiReadAtSeekCloser).readAt(r, b, o) (n, err)
  modifies elems(b)
  requires shape(r) && bytes(r)
  ensures [count] 0 <= n && n <= len(b)
  ensures [range] o < 0 || o >= r.upperLimit ==> n == 0 && err == io.EOF
  ensures [bytes] whole(err) ==> (forall i int :: {b[i]} 0 <= i && i < n ==> b[i] == vbyte(o + i))
  ensures [end] err == io.EOF && o >= 0 && o < r.upperLimit ==> o + n == r.upperLimit
  ensures [progress] err == nil && n < len(b) ==> n > 0
  ensures [limit] whole(err) && n > 0 ==> o + n <= r.upperLimit
verify (*stream.multiReadAtSeekCloser).ReadAt(r, b, o) (n, err)
  requires shape(r) && bytes(r)
  ensures [count] 0 <= n && n <= len(b)
  ensures [range] o < 0 || o >= r.upperLimit ==> n == 0 && err == io.EOF
  ensures [bytes] whole(err) ==> (forall i int :: {b[i]} 0 <= i && i < n ==> b[i] == vbyte(o + i))
  ensures [full] err == nil ==> n == len(b)
  ensures [end] err == io.EOF && o >= 0 && o < r.upperLimit ==> o + n == r.upperLimit
  loop 0 invariant forall i int :: {b[i]} 0 <= i && i < n ==> b[i] == vbyte(o + i)
  loop 0 invariant 0 <= n && off == o + n && backing(p) == backing(b) && offset(p) == offset(b) + n && len(p) == min(len(b), r.upperLimit - o) - n && len(p) >= 0
  loop 0 invariant n > 0 ==> off < r.upperLimit
  loop 0 invariant maxExceeded == (len(b) > r.upperLimit - o)
  loop 0 decreases len(p)
verify (*stream.multiReadAtSeekCloser).Read(r, b) (n, err)
  requires shape(r) && bytes(r) && placed(r)
  ensures [placed] n > 0 || whole(err) ==> placed(r)
  ensures [shape] shape(r)
  ensures [count] 0 <= n && n <= len(b)
  ensures [moves] r.off == old(r.off) + n
  ensures [bytes] whole(err) ==> (forall i int :: {b[i]} 0 <= i && i < n ==> b[i] == vbyte(old(r.off) + i))
  ensures [end] err == io.EOF ==> r.off >= r.upperLimit
  ensures [at_end] old(r.off) >= r.upperLimit ==> n == 0 && err == io.EOF
  ensures [progress] err == nil && len(b) > 0 ==> n > 0
verify (*stream.multiReadAtSeekCloser).Seek(r, o, whence) (n, err)
  requires shape(r) && placed(r)
  let want = o + ite(whence == 0, 0, ite(whence == 1, r.off, r.upperLimit))
  ensures [accepts] (err == nil) == (0 <= whence && whence <= 2 && want >= 0)
  ensures [moves] err == nil ==> n == want && r.off == want && placed(r)
  ensures [stays] err != nil ==> r.off == old(r.off) && r.idx == old(r.idx)
  ensures [shape] shape(r) && r.upperLimit == old(r.upperLimit)
verify (*stream.multiReadAtSeekCloser).Close(r) (err)
  loop 0 invariant forall k int :: {key(r.r[k].R)} 0 <= k && k <= rangeindex && is(r.r[k].R, "io.Closer") ==> closed[key(r.r[k].R)] == 1
  ensures [every] forall k int :: {key(r.r[k].R)} 0 <= k && k < len(r.r) && is(r.r[k].R, "io.Closer") ==> closed[key(r.r[k].R)] == 1
verify stream.NewMultiReadAtSeekCloser(rs) (r)
  requires forall i int :: {rs[i].Size} 0 <= i && i < len(rs) ==> rs[i].Size >= 0
  loop 0 invariant len(translated) == len(rs) && accum >= 0
  loop 0 invariant forall i int :: {translated[i].headOff} 0 <= i && i <= rangeindex ==> translated[i].Size == rs[i].Size && key(translated[i].R) == key(rs[i].R) && translated[i].headOff >= 0 && translated[i].headOff == ite(i == 0, 0, translated[i - 1].headOff + translated[i - 1].Size)
  loop 0 invariant forall i int :: {translated[i].headOff} 0 <= i && i <= rangeindex ==> translated[i].headOff + translated[i].Size <= accum
  loop 0 invariant accum == ite(rangeindex < 0, 0, translated[rangeindex].headOff + translated[rangeindex].Size)
  ensures [kind] is(r, "*stream.multiReadAtSeekCloser")
  ensures [shape] shape(cast(r, "*stream.multiReadAtSeekCloser")) && placed(cast(r, "*stream.multiReadAtSeekCloser"))
  ensures [start] cast(r, "*stream.multiReadAtSeekCloser").off == 0
  ensures [segments] len(cast(r, "*stream.multiReadAtSeekCloser").r) == len(rs) && (forall i int :: {cast(r, "*stream.multiReadAtSeekCloser").r[i].headOff} 0 <= i && i < len(rs) ==> cast(r, "*stream.multiReadAtSeekCloser").r[i].Size == rs[i].Size && key(cast(r, "*stream.multiReadAtSeekCloser").r[i].R) == key(rs[i].R))
verify stream.SizedReadersFromFileLike(fs) (r, err)
  loop 0 invariant len(sizedReaders) == len(fs)
  loop 0 invariant forall i int :: {sizedReaders[i].Size} 0 <= i && i <= rangeindex ==> key(sizedReaders[i].R) == key(fs[i]) && sizedReaders[i].Size == sizeof(infoof(key(fs[i])))
  ensures [each] err == nil ==> len(r) == len(fs) && (forall i int :: {r[i].Size} 0 <= i && i < len(fs) ==> key(r[i].R) == key(fs[i]) && r[i].Size == sizeof(infoof(key(fs[i]))))
verify stream.SizedReadersFromReadAtSizer(rs) (r)
  loop 0 invariant len(sizedReaders) == len(rs)
  loop 0 invariant forall i int :: {sizedReaders[i].Size} 0 <= i && i <= rangeindex ==> key(sizedReaders[i].R) == key(rs[i]) && sizedReaders[i].Size == rsize(key(rs[i]))
  ensures [each] len(r) == len(rs) && (forall i int :: {r[i].Size} 0 <= i && i < len(rs) ==> key(r[i].R) == key(rs[i]) && r[i].Size == rsize(key(rs[i])))

# A sequence of whole readers, read by io.MultiReader (trusted: one after the other).
ghost multi int = 0
ghost nmulti int
spec part(i int) int
extern io.MultiReader(rs) (r)
  requires [all] len(rs) == nmulti && (forall i int :: {key(rs[i])} 0 <= i && i < len(rs) ==> key(rs[i]) == part(i))
  sets multi = key(r)
verify (*stream.multiReadCloser).Close(r) (err)
  loop 0 invariant forall k int :: {key(r.closers[k])} 0 <= k && k <= rangeindex ==> closed[key(r.closers[k])] == 1
  ensures [every] forall k int :: {key(r.closers[k])} 0 <= k && k < len(r.closers) ==> closed[key(r.closers[k])] == 1
verify stream.NewMultiReadCloser(rs) (r)
  requires nmulti == len(rs) && (forall i int :: {key(rs[i])} 0 <= i && i < len(rs) ==> key(rs[i]) == part(i))
  loop 0 invariant len(readers) == rangeindex + 1 && (forall i int :: {key(readers[i])} 0 <= i && i < len(readers) ==> key(readers[i]) == part(i))
  ensures [kind] is(r, "*stream.multiReadCloser")
