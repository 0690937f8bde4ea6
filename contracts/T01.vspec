unit T01
title tar file content is the archive's logical content
packages tarfs stream
include std
assumption the archive does not change while it is read; what archive/tar reports of an entry (header, size, that its sparse map is valid for that size, where it stands) is trusted, and the copied map parsers yield the map archive/tar validated

# Where entry k begins and where its data begins, and how many bytes of data it has
# in the archive.
spec hstart(k int) int
spec hend(k int) int
spec stored(k int) int
spec sparse(k int) bool
# Byte x of a file is data (and not in a hole).
spec isdata(k int, x int) bool
ghost which int

define roundup(x) = (x + 511) / 512 * 512
define headeronly(f) = f == '1' || f == '2' || f == '3' || f == '4' || f == '5' || f == '6'
define endat(s, i) = s[i].Offset + s[i].Length
# a valid map of data fragments
define valid(s, size) = size >= 0 && (forall i int :: {s[i].Offset} 0 <= i && i < len(s) ==> s[i].Offset >= 0 && s[i].Length >= 0 && s[i].Offset + s[i].Length <= size && (i > 0 ==> s[i].Offset >= s[i - 1].Offset + s[i - 1].Length))
define fragments(s) = (forall i int, x int :: {s[i].Offset, isdata(which, x)} 0 <= i && i < len(s) ==> (s[i].Offset <= x && x < s[i].Offset + s[i].Length ==> isdata(which, x)) && (s[i].Offset > x && (i == 0 || x >= s[i - 1].Offset + s[i - 1].Length) ==> !isdata(which, x)) && (i == len(s) - 1 && x >= s[i].Offset + s[i].Length ==> !isdata(which, x))) && (len(s) == 0 ==> (forall x int :: {isdata(which, x)} !isdata(which, x)))
# a list of holes: ascending, apart, up to the end; exactly the bytes that are not data
define ordered(h) = (forall i int :: {h[i].Offset} 0 <= i && i < len(h) ==> h[i].Offset >= 0 && h[i].Length >= 0 && (i > 0 ==> h[i].Offset >= h[i - 1].Offset + h[i - 1].Length))
define inverse(h) = (forall i int, x int :: {h[i].Offset, isdata(which, x)} 0 <= i && i < len(h) ==> (h[i].Offset <= x && x < h[i].Offset + h[i].Length ==> !isdata(which, x)) && (x >= 0 && h[i].Offset > x && (i == 0 || x >= h[i - 1].Offset + h[i - 1].Length) ==> isdata(which, x)))
define holes(h, size) = len(h) > 0 && ordered(h) && h[len(h) - 1].Offset + h[len(h) - 1].Length == size && inverse(h)

# The bytes of a sparse file's data fragments stand one after another in the archive:
# packed(k, x) of them stand before logical byte x.
spec packed(k int, x int) int
define packing(k, h) = packed(k, 0) == 0 && (forall i int :: {h[i].Offset} 0 <= i && i < len(h) ==> packed(k, h[i].Offset + h[i].Length) == packed(k, h[i].Offset) && packed(k, h[i].Offset) == ite(i == 0, h[i].Offset, packed(k, h[i - 1].Offset + h[i - 1].Length) + h[i].Offset - h[i - 1].Offset - h[i - 1].Length))

define packingd(k, s, size) = packed(k, 0) == 0 && (forall i int :: {s[i].Offset} 0 <= i && i < len(s) ==> packed(k, s[i].Offset) == ite(i == 0, 0, packed(k, s[i - 1].Offset + s[i - 1].Length)) && packed(k, s[i].Offset + s[i].Length) == packed(k, s[i].Offset) + s[i].Length) && packed(k, size) == ite(len(s) == 0, 0, packed(k, s[len(s) - 1].Offset + s[len(s) - 1].Length))

func tarfs.invertSparseEntries(src, size) (r)
  requires valid(src, size) && fragments(src) && packingd(which, src, size)
  modifies elemsof("tarfs.sparseEntry")
  ensures [some] len(r) > 0
  ensures [ordered] ordered(r)
  ensures [end] r[len(r) - 1].Offset + r[len(r) - 1].Length == size
  ensures [inverse] inverse(r)
  ensures [packing] packing(which, r)
  ensures [present] backing(r) != 0
  loop 0 invariant backing(dst) == backing(src) && offset(dst) == offset(src) && len(dst) <= rangeindex + 1 && cap(dst) == cap(src)
  loop 0 invariant forall i int :: {src[i].Offset} rangeindex < i && i < len(src) ==> src[i].Offset == old(src[i].Offset) && src[i].Length == old(src[i].Length)
  loop 0 invariant pre.Offset >= 0 && pre.Offset <= size && (rangeindex < 0 ==> pre.Offset == 0) && (rangeindex >= 0 ==> pre.Offset <= old(src[rangeindex].Offset) + old(src[rangeindex].Length))
  loop 0 invariant ordered(dst) && inverse(dst) && (len(dst) > 0 ==> dst[len(dst) - 1].Offset + dst[len(dst) - 1].Length <= pre.Offset)
  loop 0 invariant forall x int :: {isdata(which, x)} (len(dst) == 0 || x >= dst[len(dst) - 1].Offset + dst[len(dst) - 1].Length) && 0 <= x && x < pre.Offset ==> isdata(which, x)
  loop 0 invariant forall x int :: {isdata(which, x)} pre.Offset <= x && rangeindex >= 0 && x < old(src[rangeindex].Offset) + old(src[rangeindex].Length) ==> !isdata(which, x)
  loop 0 invariant packing(which, dst)
  loop 0 invariant packed(which, pre.Offset) == ite(len(dst) == 0, 0, packed(which, dst[len(dst) - 1].Offset + dst[len(dst) - 1].Length)) + pre.Offset - ite(len(dst) == 0, 0, dst[len(dst) - 1].Offset + dst[len(dst) - 1].Length)
  loop 0 invariant packed(which, pre.Offset) == ite(rangeindex < 0, 0, packed(which, old(src[rangeindex].Offset) + old(src[rangeindex].Length)))

# Readers made: where each stands in the file, and what it reads.
ghost laid int = 0
ghost pos int
ghost arch int
ghost fsize int
spec lstart(k int) int
spec llen(k int) int
spec loff(k int) int
spec lsrc(k int) int
spec lfill(k int) int
extern io.NewSectionReader(r, off, n) (s)
  requires [range] off >= 0 && n >= 0
  sets laid = laid + n
  sets pos = off
  ensures s != nil && lstart(key(s)) == old(laid) && llen(key(s)) == n && loff(key(s)) == off && lsrc(key(s)) == key(r) && lfill(key(s)) == ite(is(r, "*stream.ByteRepeater"), cast(r, "*stream.ByteRepeater").b, 0 - 1)

# archive/tar, reading the headers through a countingReader
ghost src int
ghost nextAt int
ghost over bool
extern tar.NewReader(r) (t)
  sets src = key(r)
  ensures t != nil
extern (*tar.Reader).Next(t) (h, err)
  modifies tarfs.countingReader.Count, ghost fsize, ghost which, ghost nextAt, ghost over
  ensures err == nil ==> h != nil && which == key(h) && hstart(which) == old(nextAt) && hstart(which) <= hend(which) && h.Size >= 0 && stored(which) >= 0 && fsize == h.Size && hstart(which) >= 0 && (h.Typeflag == 'S' ==> sparse(which)) && (h.Typeflag == 'g' ==> !sparse(which))
  ensures err == nil ==> cast(src, "*tarfs.countingReader").Count == hend(which) && nextAt == roundup(hend(which) + stored(which))
  ensures err == nil ==> stored(which) == ite(headeronly(h.Typeflag) || h.Typeflag == 'g', 0, ite(sparse(which), packed(which, h.Size), h.Size))
  ensures err == nil ==> h.Typeflag != 'x' && h.Typeflag != 'L' && h.Typeflag != 'K'
  ensures err == nil ==> over == old(over)
  ensures err == io.EOF ==> over
# The header blocks of an entry: extension headers, with their bodies, before the main one.
spec flagat(p int) int
spec sizeat(p int) int
spec mainat(p int) int
define extension(f) = f == 'x' || f == 'g' || f == 'L' || f == 'K'
extern io.ReadFull(r, b) (n, err)
  requires [headers] lsrc(key(r)) == arch && loff(key(r)) == hstart(which) && llen(key(r)) == hend(which) - hstart(which)
  modifies elems(b), ghost pos
  ensures 0 <= n && n <= len(b) && (err == nil ==> n == len(b)) && (n == len(b) ==> err == nil) && (err == io.EOF ==> n == 0)
  ensures err == nil ==> pos == old(pos) + len(b)
  ensures err == nil && len(b) > 156 ==> b[156] == flagat(pos - len(b))
  ensures err == nil ==> mainat(pos - len(b)) == ite(extension(flagat(pos - len(b))), mainat(pos + roundup(sizeat(pos - len(b)))), pos - len(b))
extern (*io.SectionReader).Seek(r, o, w) (n, err)
  requires [relative] w == 1 && pos >= 0
  sets pos = pos + o
extern (*tarfs.parser).parseNumeric(p, b) (n)
  modifies tarfs.parser.err
  requires [size field] offset(b) == 124 && len(b) == 12
  ensures n == sizeat(pos - 512) && n >= 0

# The map parsers, which are copied from archive/tar and only see maps that it accepted (trusted; compared with archive/tar by the harness).
extern tarfs.readOldGNUSparseMap(r, b) (m, err)
  requires sparse(which)
  requires [main header] pos - 512 == mainat(hstart(which))
  modifies elems(b)
  ensures err == nil ==> backing(m) != 0 && valid(m, fsize) && fragments(m) && packingd(which, m, fsize)
extern tarfs.readGNUSparsePAXHeaders(r, hdr) (m, err)
  requires [after the header] pos - 512 == mainat(hstart(which))
  requires hdr.h != nil && key(hdr.h) == which
  ensures err == nil && m == nil ==> !sparse(which)
  ensures err == nil && backing(m) != 0 ==> sparse(which) && valid(m, fsize) && fragments(m) && packingd(which, m, fsize)

func tarfs.handleSparseFile(sr, hdr, raw) (h, err)
  requires hdr.h != nil && key(hdr.h) == which && hdr.h.Size == fsize && pos - 512 == mainat(hstart(which))
  requires hdr.h.Typeflag == 'S' ==> sparse(which)
  modifies elemsof("uint8"), elemsof("tarfs.sparseEntry")
  ensures [holes] err == nil && sparse(which) ==> holes(h, hdr.h.Size) && packing(which, h) && backing(h) != 0
  ensures [plain] err == nil && !sparse(which) ==> h == nil
func tarfs.reconstructSparse(r, hdr, blk) (h, err)
  requires [entry] hdr.h != nil && key(hdr.h) == which && hdr.headerStart == hstart(which) && hdr.headerEnd == hend(which)
  requires hstart(which) >= 0 && hstart(which) <= hend(which) && fsize == hdr.h.Size && arch == key(r) && (hdr.h.Typeflag == 'S' ==> sparse(which)) && (hdr.h.Typeflag == 'g' ==> !sparse(which))
  modifies elemsof("uint8"), elemsof("tarfs.sparseEntry"), ghost pos, ghost laid, tarfs.parser.err
  ensures [holes] err == nil && sparse(which) ==> holes(h, hdr.h.Size) && packing(which, h) && backing(h) != 0
  ensures [plain] err == nil && !sparse(which) ==> h == nil
  loop 0 invariant mainat(pos) == mainat(hstart(which)) && pos >= 0
callback yield(s, err) (more)
  requires [error] s == nil ==> err != nil
  requires [entry] err == nil ==> s != nil && s.h != nil && key(s.h) == which && s.headerStart == hstart(which) && s.headerEnd == hend(which) && s.bodyEnd == s.headerEnd + stored(which)
  requires [holes] err == nil ==> ite(sparse(which), holes(s.holes, s.h.Size) && packing(which, s.holes), s.holes == nil)
  modifies ghost over
  ensures !more || err != nil ==> over
  ensures more && err == nil ==> over == old(over)
verify tarfs.Sections$1(yield)
  requires nextAt == 0 && !over && arch == key(r)
  ensures [all] over
  loop 0 invariant prev == nil ==> nextAt == 0
  loop 0 invariant prev != nil ==> nextAt == roundup(prev.bodyEnd) && prev.bodyEnd >= 0
  loop 0 invariant src == key(countingR) && !over
  loop 1 invariant holeSize == ite(rangeindex < 0, 0, hh.holes[rangeindex].Offset + hh.holes[rangeindex].Length - packed(which, hh.holes[rangeindex].Offset + hh.holes[rangeindex].Length))
  loop 1 invariant rangeindex < len(hh.holes)

# The reader of a file's logical content.
define tiled(rs) = (forall i int :: {rs[i].Size} 0 <= i && i < len(rs) ==> rs[i].Size == llen(key(rs[i].R)) && rs[i].Size >= 0 && lstart(key(rs[i].R)) == ite(i == 0, 0, lstart(key(rs[i - 1].R)) + rs[i - 1].Size))
define sourced(rs) = (forall i int :: {rs[i].Size} 0 <= i && i < len(rs) && rs[i].Size > 0 ==> ite(lfill(key(rs[i].R)) == 0, true, lsrc(key(rs[i].R)) == arch && loff(key(rs[i].R)) == hend(which) + packed(which, lstart(key(rs[i].R)))))
define filled(rs) = (forall i int, x int :: {rs[i].Size, isdata(which, x)} 0 <= i && i < len(rs) && lstart(key(rs[i].R)) <= x && x < lstart(key(rs[i].R)) + rs[i].Size ==> isdata(which, x) == (lfill(key(rs[i].R)) != 0))
define upto(rs) = ite(len(rs) == 0, 0, lstart(key(rs[len(rs) - 1].R)) + rs[len(rs) - 1].Size)
func stream.NewByteRepeater(b) (r)
  ensures [byte] r != nil && r.b == b
extern (*io.SectionReader).Size(s) (n)
  ensures n == llen(key(s))
extern stream.NewMultiReadAtSeekCloser(rs) (r)
  requires [in order] tiled(rs)
  requires [source] sourced(rs)
  requires [content] filled(rs)
  requires [whole] upto(rs) == fsize
verify tarfs.makeReader(ra, h) (r)
  requires laid == 0 && h.h != nil && key(h.h) == which && h.h.Size == fsize && h.headerEnd == hend(which) && h.headerEnd >= 0 && h.bodyEnd == h.headerEnd + stored(which) && stored(which) >= 0 && key(ra) == arch && !is(ra, "*stream.ByteRepeater")
  requires h.holes != nil ==> holes(h.holes, fsize) && packing(which, h.holes)
  loop 0 invariant upto(readers) == laid && laid == size
  loop 0 invariant tiled(readers)
  loop 0 invariant sourced(readers)
  loop 0 invariant filled(readers)
  loop 0 invariant size == ite(rangeindex < 0, 0, h.holes[rangeindex].Offset + h.holes[rangeindex].Length) && cur == ite(rangeindex < 0, 0, packed(which, size))
  loop 0 invariant len(readers) >= rangeindex + 1 && rangeindex < len(h.holes) && cur >= 0
  ensures [plain] h.holes == nil ==> lsrc(key(r)) == arch && loff(key(r)) == hend(which) && llen(key(r)) == stored(which)
verify (*stream.ByteRepeater).Read(r, p) (n, err)
  ensures [all] n == len(p) && err == nil
  ensures [filled] forall i int :: {p[i]} 0 <= i && i < len(p) ==> p[i] == r.b
  loop 0 invariant forall i int :: {p[i]} 0 <= i && i <= rangeindex ==> p[i] == r.b
verify (*stream.ByteRepeater).ReadAt(r, p, off) (n, err)
  ensures [all] n == len(p) && err == nil
  ensures [filled] forall i int :: {p[i]} 0 <= i && i < len(p) ==> p[i] == r.b
  loop 0 invariant forall i int :: {p[i]} 0 <= i && i <= rangeindex ==> p[i] == r.b

# A file opened: reads go to its own reader, unchanged.
ghost got int
ghost gotfail bool
ghost goteof bool
ghost gotkey int
ghost askat int
ghost askwhence int
extern (*sync.Mutex).Lock(m)
extern (*sync.Mutex).Unlock(m)
invoke *.Read(r, p) (n, err)
  modifies elems(p)
  sets gotkey = key(r)
  modifies ghost got, ghost gotfail, ghost goteof
  ensures n == got && (err != nil) == gotfail && (err == io.EOF) == goteof
invoke *.ReadAt(r, p, off) (n, err)
  modifies elems(p)
  sets gotkey = key(r)
  modifies ghost got, ghost gotfail, ghost goteof
  requires [at] off == askat
  ensures n == got && (err != nil) == gotfail && (err == io.EOF) == goteof
invoke *.Seek(r, off, whence) (n, err)
  sets gotkey = key(r)
  modifies ghost got, ghost gotfail, ghost goteof
  requires [at] off == askat && whence == askwhence
  ensures n == got && (err != nil) == gotfail && (err == io.EOF) == goteof
verify (*tarfs.openFile).Read(f, p) (n, err)
  ensures [closed] old(f.closed) ==> n == 0 && err != nil && err != io.EOF
  ensures [count] !old(f.closed) ==> n == got && gotkey == key(old(f.r))
  ensures [error] !old(f.closed) ==> (err != nil) == gotfail && (err == io.EOF) == goteof
verify (*tarfs.openFile).ReadAt(f, p, off) (n, err)
  requires askat == off
  ensures [closed] old(f.closed) ==> n == 0 && err != nil && err != io.EOF
  ensures [count] !old(f.closed) ==> n == got && gotkey == key(old(f.r))
  ensures [error] !old(f.closed) ==> (err != nil) == gotfail && (err == io.EOF) == goteof
verify (*tarfs.openFile).Seek(f, off, whence) (n, err)
  requires askat == off && askwhence == whence
  ensures [closed] old(f.closed) ==> n == 0 && err != nil
  ensures [moves] !old(f.closed) ==> n == got && gotkey == key(old(f.r)) && (err != nil) == gotfail
verify (*tarfs.openFile).Close(f) (err)
  ensures [closed] f.closed && err == nil
func (*tarfs.openFile).checkClosed(f, op) (err)
  ensures [closed] (err != nil) == f.closed && err != io.EOF
