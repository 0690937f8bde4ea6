# The in-memory buffer of a file and the handles into it (units Y03 and Y04).
assumption memory between the length and the capacity of a slice grown by append is zero (the runtime clears it)
assumption no slice of bytes is as long as half the range of int
assumption the content array of a buffer is not reachable from outside the buffer: reads copy out of it and writes copy into it
# ---- one lock, one state: what the buffer is when its lock is taken and left ----
spec owner(m int) int
ghost held int
ghost outer int
ghost glen int
ghost goff int
ghost grows map[int]int
ghost ulen int
ghost uoff int
ghost urow map[int]int
ghost ops int
ghost hoff int
ghost uhoff int
ghost hops int
ghost hheld int

define zt(b) = forall i int :: {b.content[i]} len(b.content) <= i && i < cap(b.content) ==> b.content[i] == 0
define buf(m) = cast(owner(ref(m)), "*synthfs.memBuf")
define hdl(m) = cast(owner(ref(m)), "*synthfs.memHandle")

extern (*sync.RWMutex).Lock(m)
  requires held == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies ghost held, ghost glen, ghost goff, ghost grows
  ensures held == 2
  ensures len(buf(m).content) <= 4611686018427387903
  ensures zt(buf(m)) && backing(buf(m).content) != outer
  ensures glen == len(buf(m).content) && goff == offset(buf(m).content) && grows == row(buf(m).content)
extern (*sync.RWMutex).RLock(m)
  requires held == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies ghost held, ghost glen, ghost goff, ghost grows
  ensures held == 1
  ensures len(buf(m).content) <= 4611686018427387903
  ensures zt(buf(m)) && backing(buf(m).content) != outer
  ensures glen == len(buf(m).content) && goff == offset(buf(m).content) && grows == row(buf(m).content)
extern (*sync.RWMutex).Unlock(m)
  requires [locked] held == 2
  requires [inv] zt(buf(m))
  modifies ghost held, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures held == 0 && ops == old(ops) + 1
  ensures ulen == len(buf(m).content) && uoff == offset(buf(m).content) && urow == row(buf(m).content)
extern (*sync.RWMutex).RUnlock(m)
  requires [locked] held == 1
  requires [unchanged] len(buf(m).content) == glen && offset(buf(m).content) == goff && row(buf(m).content) == grows
  modifies ghost held, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures held == 0 && ops == old(ops) + 1
  ensures ulen == glen && uoff == goff && urow == grows
invoke clock.WallClock.Now(c) (t)

# ---- the buffer ----
define same() = ulen == glen && (forall i int :: {urow[uoff + i]} 0 <= i && i < glen ==> urow[uoff + i] == grows[goff + i])
define stored(p, off) = (forall i int :: {urow[uoff + i]} off <= i && i < off + len(p) ==> urow[uoff + i] == p[i - off])
define rest(lo, hi) = (forall i int :: {urow[uoff + i]} 0 <= i && i < ulen && !(lo <= i && i < hi) ==> urow[uoff + i] == ite(i < glen, grows[goff + i], 0))
define top(a, b) = ite(a < b, b, a)

func (*synthfs.memBuf).stat(b, name) (s)
  requires owner(ref(b.mu)) == ref(b) && held == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures [size] s.size == glen
  ensures [one] held == 0 && ops == old(ops) + 1 && same()
func (*synthfs.memBuf).length(b) (n)
  requires owner(ref(b.mu)) == ref(b) && held == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures [len] n == glen && n >= 0
  ensures [one] held == 0 && ops == old(ops) + 1 && same()
func (*synthfs.memBuf).readAt(b, p, off) (n, err)
  option nooverflow safe
  requires outer == backing(p)
  requires owner(ref(b.mu)) == ref(b) && held == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies elems(p)
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures [neg] off < 0 ==> n == 0 && err != nil && err != io.EOF && ops == old(ops)
  ensures [one] off >= 0 ==> ops == old(ops) + 1
  ensures [unlocked] held == 0
  ensures [count] off >= 0 ==> n == ite(off >= glen, 0, ite(len(p) < glen - off, len(p), glen - off))
  ensures [err] off >= 0 ==> (err == nil || err == io.EOF) && (err == nil) == (n == len(p) && off < glen)
  ensures [bytes] off >= 0 ==> (forall i int :: {p[i]} 0 <= i && i < n ==> p[i] == grows[goff + off + i])
  ensures [same] off >= 0 ==> same() && 0 <= glen && glen <= 4611686018427387903
  ensures [tail] forall i int :: {p[i]} n <= i && i < len(p) ==> p[i] == old(p[i])
func (*synthfs.memBuf).grow(b, by) (err)
  option nooverflow safe growzero
  requires by > 0 && by + len(b.content) <= 9223372036854775807 && zt(b)
  modifies b.content
  ensures [fail] err != nil ==> err != io.EOF && len(b.content) == old(len(b.content)) && (forall i int :: {b.content[i]} 0 <= i && i < len(b.content) ==> b.content[i] == old(b.content[i]))
  ensures [grown] err == nil ==> len(b.content) == old(len(b.content)) + by
  ensures [kept] err == nil ==> (forall i int :: {b.content[i]} 0 <= i && i < len(b.content) ==> b.content[i] == ite(i < old(len(b.content)), old(b.content[i]), 0))
  ensures [tail] zt(b)
func (*synthfs.memBuf).writeLocked(b, p, off) (n, err)
  option nooverflow safe
  requires held == 2 && b.clock != nil && off >= 0 && off + len(p) <= 9223372036854775807 && len(p) > 0 && zt(b)
  modifies b.content
  modifies b.modTime
  modifies elemsof("uint8")
  ensures [fail] err != nil ==> n == 0 && err != io.EOF && len(b.content) == old(len(b.content)) && (forall i int :: {b.content[i]} 0 <= i && i < len(b.content) ==> b.content[i] == old(b.content[i]))
  ensures [size] err == nil ==> n == len(p) && len(b.content) == top(old(len(b.content)), off + len(p))
  ensures [stored] err == nil ==> (forall i int :: {b.content[i]} off <= i && i < off + len(p) ==> b.content[i] == old(p[i - off]))
  ensures [rest] err == nil ==> (forall i int :: {b.content[i]} 0 <= i && i < len(b.content) && !(off <= i && i < off + len(p)) ==> b.content[i] == ite(i < old(len(b.content)), old(b.content[i]), 0))
  ensures [tail] zt(b)
func (*synthfs.memBuf).writeAt(b, p, off) (n, err)
  option nooverflow safe
  requires owner(ref(b.mu)) == ref(b) && held == 0 && b.clock != nil
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies elemsof("uint8")
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures [unlocked] held == 0
  ensures [neg] off < 0 || off + len(p) > 9223372036854775807 ==> err != nil && n == 0 && ops == old(ops)
  ensures [empty] len(p) == 0 ==> n == 0 && ops == old(ops)
  ensures [fail] err != nil ==> n == 0 && err != io.EOF && (ops == old(ops) || ops == old(ops) + 1 && same())
  ensures [count] err == nil ==> n == len(p)
  ensures [one] err == nil && len(p) > 0 ==> ops == old(ops) + 1 && ulen == top(glen, off + len(p))
  ensures [stored] err == nil && len(p) > 0 ==> (forall i int :: {urow[uoff + i]} off <= i && i < off + len(p) ==> urow[uoff + i] == old(p[i - off]))
  ensures [rest] err == nil && len(p) > 0 ==> rest(off, off + len(p))
func (*synthfs.memBuf).appendBytes(b, p) (off, n, err)
  option nooverflow safe
  requires len(p) <= 4611686018427387903
  requires owner(ref(b.mu)) == ref(b) && held == 0 && b.clock != nil
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies elemsof("uint8")
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures [one] held == 0 && ops == old(ops) + 1
  ensures [end] off == glen && 0 <= glen && glen <= 4611686018427387903
  ensures [fail] err != nil ==> n == 0 && err != io.EOF && same()
  ensures [count] err == nil ==> n == len(p) && ulen == glen + len(p)
  ensures [stored] err == nil ==> (forall i int :: {urow[uoff + i]} off <= i && i < off + len(p) ==> urow[uoff + i] == old(p[i - off]))
  ensures [rest] err == nil ==> rest(off, off + len(p))
func (*synthfs.memBuf).truncate(b, size) (err)
  option nooverflow safe
  requires owner(ref(b.mu)) == ref(b) && held == 0 && b.clock != nil
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures [unlocked] held == 0
  ensures [neg] size < 0 ==> err != nil && ops == old(ops)
  ensures [one] size >= 0 ==> ops == old(ops) + 1
  ensures [fail] err != nil && size >= 0 ==> same()
  ensures [size] err == nil ==> ulen == size
  ensures [kept] err == nil ==> (forall i int :: {urow[uoff + i]} 0 <= i && i < size ==> urow[uoff + i] == ite(i < glen, grows[goff + i], 0))

# ---- open flags ----
define rdmode(f) = f & os.O_WRONLY == 0 || f & os.O_RDWR != 0
define wrmode(f) = f & os.O_WRONLY != 0 || f & os.O_RDWR != 0
define apmode(f) = f & os.O_APPEND != 0
func openflag.WriteOnly(flag) (r)
  ensures r == !rdmode(flag)
func openflag.Readable(flag) (r)
  ensures r == rdmode(flag)
func openflag.Writable(flag) (r)
  ensures r == wrmode(flag)

# ---- handles into the buffer ----
extern (*sync.Mutex).Lock(m)
  requires hheld == 0
  modifies synthfs.memHandle.off
  modifies ghost hoff, ghost hheld
  ensures hheld == 1 && hdl(m).off >= 0 && hoff == hdl(m).off
extern (*sync.Mutex).Unlock(m)
  requires [locked] hheld == 1
  requires [position] hdl(m).off >= 0
  modifies ghost uhoff, ghost hops, ghost hheld
  ensures hheld == 0 && hops == old(hops) + 1 && uhoff == hdl(m).off
extern fsutil.WrapPathErr(op, path, err) (e)
  ensures err != nil ==> e != nil && e != io.EOF
define none() = ops == old(ops) && hops == old(hops)
define base(whence) = ite(whence == io.SeekStart, 0, ite(whence == io.SeekCurrent, hoff, glen))
define avail(off, l) = ite(off >= glen, 0, ite(l < glen - off, l, glen - off))

func (*synthfs.memHandle).Read(h, p) (n, err)
  option nooverflow safe
  requires outer == backing(p)
  requires owner(ref(h.mu)) == ref(h) && h.buf != nil && owner(ref(h.buf.mu)) == ref(h.buf) && h.buf.clock != nil && held == 0 && hheld == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies synthfs.memHandle.off
  modifies elems(p)
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  modifies ghost hoff, ghost uhoff, ghost hops, ghost hheld
  ensures [mode] !rdmode(h.flag) ==> n == 0 && err != nil && err != io.EOF && none()
  ensures [one] rdmode(h.flag) ==> ops == old(ops) + 1 && hops == old(hops) + 1
  ensures [count] rdmode(h.flag) ==> n == avail(hoff, len(p)) && (err == nil || err == io.EOF) && (err == nil) == (n == len(p) && hoff < glen)
  ensures [bytes] rdmode(h.flag) ==> (forall i int :: {p[i]} 0 <= i && i < n ==> p[i] == grows[goff + hoff + i])
  ensures [advance] rdmode(h.flag) ==> uhoff == hoff + n
  ensures [same] rdmode(h.flag) ==> same()
func (*synthfs.memHandle).ReadAt(h, p, off) (n, err)
  option nooverflow safe
  requires outer == backing(p)
  requires owner(ref(h.mu)) == ref(h) && h.buf != nil && owner(ref(h.buf.mu)) == ref(h.buf) && h.buf.clock != nil && held == 0 && hheld == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies elems(p)
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures [mode] !rdmode(h.flag) || off < 0 ==> n == 0 && err != nil && err != io.EOF && none()
  ensures [count] rdmode(h.flag) && off >= 0 ==> ops == old(ops) + 1 && n == avail(off, len(p)) && (err == nil || err == io.EOF) && (err == nil) == (n == len(p) && off < glen)
  ensures [bytes] rdmode(h.flag) && off >= 0 ==> (forall i int :: {p[i]} 0 <= i && i < n ==> p[i] == grows[goff + off + i])
  ensures [position] hops == old(hops)
  ensures [same] rdmode(h.flag) && off >= 0 ==> same()
func (*synthfs.memHandle).Write(h, p) (n, err)
  option nooverflow safe
  requires len(p) <= 4611686018427387903
  requires owner(ref(h.mu)) == ref(h) && h.buf != nil && owner(ref(h.buf.mu)) == ref(h.buf) && h.buf.clock != nil && held == 0 && hheld == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies synthfs.memHandle.off
  modifies elemsof("uint8")
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  modifies ghost hoff, ghost uhoff, ghost hops, ghost hheld
  ensures [mode] !wrmode(h.flag) ==> n == 0 && err != nil && none()
  ensures [one] wrmode(h.flag) ==> hops == old(hops) + 1 && ops <= old(ops) + 1
  ensures [fail] err != nil ==> n == 0 && (ops == old(ops) || same())
  ensures [append] wrmode(h.flag) && apmode(h.flag) && err == nil ==> ops == old(ops) + 1 && uhoff == ulen
  ensures [advance] wrmode(h.flag) && !apmode(h.flag) ==> uhoff == hoff + n
  ensures [count] err == nil ==> n == len(p)
  ensures [stored] err == nil && len(p) > 0 ==> ops == old(ops) + 1 && ulen == top(glen, uhoff) && (forall i int :: {urow[uoff + i]} uhoff - len(p) <= i && i < uhoff ==> urow[uoff + i] == old(row(p))[offset(p) + i - (uhoff - len(p))])
  ensures [where] err == nil && apmode(h.flag) ==> uhoff == glen + len(p)
  ensures [rest] err == nil && len(p) > 0 ==> rest(uhoff - len(p), uhoff)
func (*synthfs.memHandle).WriteAt(h, p, off) (n, err)
  option nooverflow safe
  requires owner(ref(h.mu)) == ref(h) && h.buf != nil && owner(ref(h.buf.mu)) == ref(h.buf) && h.buf.clock != nil && held == 0 && hheld == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies elemsof("uint8")
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures [mode] !wrmode(h.flag) || apmode(h.flag) || off < 0 ==> n == 0 && err != nil && none()
  ensures [fail] err != nil ==> n == 0 && (ops == old(ops) || same())
  ensures [count] err == nil ==> n == len(p)
  ensures [stored] err == nil && len(p) > 0 ==> ops == old(ops) + 1 && ulen == top(glen, off + len(p)) && (forall i int :: {urow[uoff + i]} off <= i && i < off + len(p) ==> urow[uoff + i] == old(p[i - off]))
  ensures [rest] err == nil && len(p) > 0 ==> rest(off, off + len(p))
  ensures [position] hops == old(hops)
func (*synthfs.memHandle).WriteString(h, s) (n, err)
  requires len(s) <= 4611686018427387903
  requires owner(ref(h.mu)) == ref(h) && h.buf != nil && owner(ref(h.buf.mu)) == ref(h.buf) && h.buf.clock != nil && held == 0 && hheld == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies synthfs.memHandle.off
  modifies elemsof("uint8")
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  modifies ghost hoff, ghost uhoff, ghost hops, ghost hheld
  ensures [mode] !wrmode(h.flag) ==> n == 0 && err != nil && none()
  ensures [count] err == nil ==> n == len(s) && uhoff == ite(apmode(h.flag), glen, hoff) + len(s)
  ensures [stored] err == nil && len(s) > 0 ==> ops == old(ops) + 1 && ulen == top(glen, uhoff) && (forall i int :: {urow[uoff + i]} uhoff - len(s) <= i && i < uhoff ==> urow[uoff + i] == s[i - (uhoff - len(s))])
  ensures [rest] err == nil && len(s) > 0 ==> rest(uhoff - len(s), uhoff)
func (*synthfs.memHandle).Seek(h, offset, whence) (r, err)
  option exact safe
  requires owner(ref(h.mu)) == ref(h) && h.buf != nil && owner(ref(h.buf.mu)) == ref(h.buf) && h.buf.clock != nil && held == 0 && hheld == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies synthfs.memHandle.off
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  modifies ghost hoff, ghost uhoff, ghost hops, ghost hheld
  ensures [whence] whence < 0 || whence > 2 ==> err != nil
  ensures [accept] 0 <= whence && whence <= 2 ==> (err == nil) == (0 <= base(whence) + offset && base(whence) + offset <= 9223372036854775807)
  ensures [to] err == nil ==> r == base(whence) + offset && uhoff == r
  ensures [fail] err != nil ==> uhoff == hoff
  ensures [one] hops == old(hops) + 1
  ensures [same] ops == old(ops) || same()
func (*synthfs.memHandle).Truncate(h, size) (err)
  option safe
  requires owner(ref(h.mu)) == ref(h) && h.buf != nil && owner(ref(h.buf.mu)) == ref(h.buf) && h.buf.clock != nil && held == 0 && hheld == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures [mode] !wrmode(h.flag) || size < 0 ==> err != nil && none()
  ensures [size] err == nil ==> ops == old(ops) + 1 && ulen == size
  ensures [kept] err == nil ==> (forall i int :: {urow[uoff + i]} 0 <= i && i < size ==> urow[uoff + i] == ite(i < glen, grows[goff + i], 0))
  ensures [fail] err != nil ==> ops == old(ops) || same()
  ensures [position] hops == old(hops)
func (*synthfs.memHandle).Stat(h) (i, err)
  requires h.buf != nil && owner(ref(h.buf.mu)) == ref(h.buf) && held == 0
  modifies synthfs.memBuf.content
  modifies synthfs.memBuf.modTime
  modifies synthfs.memBuf.mode
  modifies ghost held, ghost glen, ghost goff, ghost grows, ghost ulen, ghost uoff, ghost urow, ghost ops
  ensures [size] err == nil && cast(i, "synthfs.stat").size == glen && same() && ops == old(ops) + 1

# ---- new files ----
extern clock.RealWallClock() (c)
  ensures c != nil
define view(v) = cast(key(v), "*synthfs.memView")
define hnd(f) = cast(key(f), "*synthfs.memHandle")
verify synthfs.NewMemAllocator(c) (a)
  ensures [clock] a != nil && cast(key(a), "*synthfs.memAllocator").clock != nil
func (*synthfs.memAllocator).Allocate(a, name, perm) (v, err)
  requires a.clock != nil
  ensures [empty] err == nil && v != nil && view(v).buf != nil && len(view(v).buf.content) == 0 && cap(view(v).buf.content) == 0
  ensures [clock] view(v).buf.clock == a.clock && view(v).buf.mode == perm & fs.ModePerm && view(v).name == name
func (*synthfs.memView).Open(v, flag) (f, err)
  ensures [handle] err == nil && f != nil && hnd(f).buf == v.buf && hnd(f).flag == flag && hnd(f).off == 0 && fresh(f)
func (*synthfs.memView).Close(v) (err)
  ensures err == nil
func (*synthfs.memHandle).Close(h) (err)
  ensures err == nil
func (*synthfs.memHandle).ReadDir(h, n) (l, err)
  ensures err != nil
func (*synthfs.memHandle).Readdir(h, n) (l, err)
  ensures err != nil
func (*synthfs.memHandle).Readdirnames(h, n) (l, err)
  ensures err != nil

# ---- read-only views over a byte slice ----
ghost rcalls int
ghost rn int
ghost rerr bool
ghost reof bool
# 1603 = O_WRONLY | O_RDWR | O_APPEND | O_CREATE | O_TRUNC on this platform
spec rsrc(r int) int
spec rlen(r int) int
spec roff(r int) int
extern bytes.NewReader(b) (r)
  ensures r != nil && rsrc(ref(r)) == backing(b) && rlen(ref(r)) == len(b) && roff(ref(r)) == offset(b)
extern (*bytes.Reader).Size(r) (n)
  ensures n == rlen(ref(r))
extern (*bytes.Reader).Read(r, p) (n, err)
  modifies elems(p)
  modifies ghost rcalls, ghost rn, ghost rerr, ghost reof
  ensures rcalls == old(rcalls) + 1 && rn == n && rerr == (err != nil) && reof == (err == io.EOF)
extern (*bytes.Reader).ReadAt(r, p, off) (n, err)
  modifies elems(p)
  modifies ghost rcalls, ghost rn, ghost rerr, ghost reof
  ensures rcalls == old(rcalls) + 1 && rn == n && rerr == (err != nil) && reof == (err == io.EOF)
extern (*bytes.Reader).Seek(r, off, whence) (n, err)
  modifies ghost rcalls, ghost rn, ghost rerr, ghost reof
  ensures rcalls == old(rcalls) + 1 && rn == n && rerr == (err != nil)
func (*synthfs.bytesView).Open(v, flag) (f, err)
  ensures [refused] flag & 1603 != 0 ==> err != nil && f == nil
  ensures [opened] flag & 1603 == 0 ==> err == nil && cast(key(f), "*synthfs.bytesHandle").view == v && cast(key(f), "*synthfs.bytesHandle").r != nil && rsrc(ref(cast(key(f), "*synthfs.bytesHandle").r)) == backing(v.data) && rlen(ref(cast(key(f), "*synthfs.bytesHandle").r)) == len(v.data) && roff(ref(cast(key(f), "*synthfs.bytesHandle").r)) == offset(v.data)
func openflag.WriteOp(flag) (r)
  ensures r == (flag & 1603 != 0)
func (*synthfs.bytesHandle).Read(h, p) (n, err)
  requires h.r != nil
  modifies elems(p)
  modifies ghost rcalls, ghost rn, ghost rerr, ghost reof
  ensures [forwarded] rcalls == old(rcalls) + 1 && n == rn && (err != nil) == rerr && (err == io.EOF) == reof
func (*synthfs.bytesHandle).ReadAt(h, p, off) (n, err)
  requires h.r != nil
  modifies elems(p)
  modifies ghost rcalls, ghost rn, ghost rerr, ghost reof
  ensures [forwarded] rcalls == old(rcalls) + 1 && n == rn && (err != nil) == rerr && (err == io.EOF) == reof
func (*synthfs.bytesHandle).Seek(h, off, whence) (n, err)
  requires h.r != nil
  modifies ghost rcalls, ghost rn, ghost rerr, ghost reof
  ensures [forwarded] 0 <= whence && whence <= 2 ==> rcalls == old(rcalls) + 1 && n == rn && (err != nil) == rerr
  ensures [whence] whence < 0 || whence > 2 ==> err != nil && rcalls == old(rcalls)
func (*synthfs.bytesHandle).Write(h, p) (n, err)
  ensures n == 0 && err != nil
func (*synthfs.bytesHandle).WriteAt(h, p, off) (n, err)
  ensures n == 0 && err != nil
func (*synthfs.bytesHandle).WriteString(h, s) (n, err)
  ensures n == 0 && err != nil
func (*synthfs.bytesHandle).Truncate(h, size) (err)
  ensures err != nil
