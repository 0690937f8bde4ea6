unit S02
title sequential and cancellable readers deliver an exact, gap-free prefix
packages stream stream/internal/serr
include std

# The bytes of the sequential source; where each opened stream stands; which
# streams are open.
spec sbyte(off int) int
ghost spos map[int]int
ghost open map[int]int
ghost nopen int
ghost opens int = 0

ghost reads int = 0
ghost lasterr int = 0
ghost lasterrt int = 0
ghost lastn int = 0
define sameerr(e) = ref(e) == lasterr && tag(e) == lasterrt

# io.Reader: some bytes from where it stands.
invoke *.Read(r, p) (n, err)
  modifies elems(p)
  ensures 0 <= n && n <= len(p)
  ensures forall i int :: {p[i]} 0 <= i && i < n ==> p[i] == sbyte(old(spos[key(r)]) + i)
  sets spos = update(spos, key(r), spos[key(r)] + n)
  sets reads = reads + 1
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lastn = n
invoke *.Close(c) (err)
  requires [open_once] open[key(c)] == 1
  sets open = update(open, key(c), 0)
  sets nopen = nopen - 1
# the opener: a new stream at the offset
callback open(off) (rc, err)
  requires [within] off >= 0
  requires [one_at_a_time] nopen == 0
  ensures err == nil ==> rc != nil && open[key(rc)] == 1 && spos[key(rc)] == off
  ensures err != nil ==> nopen == old(nopen)
  ensures err == nil ==> nopen == old(nopen) + 1
  modifies ghost open
  modifies ghost spos
  modifies ghost nopen
  sets opens = opens + 1

define held(r) = (r.current == nil ==> nopen == 0) && (r.current != nil ==> nopen == 1 && open[key(r.current)] == 1 && spos[key(r.current)] == r.off)

verify (*stream.seqReaderAt).ReadAt(r, b, o) (n, err)
  requires held(r) && r.size >= 0
  loop 0 invariant held(r) && r.current != nil && total >= 0 && r.off == o + total && backing(p) == backing(b) && offset(p) == offset(b) + total && len(p) == min(len(b), r.size - o) - total && len(p) >= 0 && maxExceeded == (len(b) > r.size - o)
  loop 0 invariant forall i int :: {b[i]} 0 <= i && i < total ==> b[i] == sbyte(o + i)
  loop 0 invariant r.size == old(r.size) && 0 <= o && o < r.size
  ensures [held] held(r) && r.size == old(r.size)
  ensures [count] 0 <= n && n <= len(b)
  ensures [bytes] forall i int :: {b[i]} 0 <= i && i < n ==> b[i] == sbyte(o + i)
  ensures [negative] o < 0 ==> n == 0 && err != nil && err != io.EOF && opens == 0
  ensures [beyond] o >= r.size ==> n == 0 && (o >= 0 ==> err == io.EOF) && opens == 0 && reads == 0
  ensures [within] n > 0 ==> o + n <= r.size
  ensures [full] err == nil ==> n == len(b)
  ensures [sequential] old(r.current) != nil && old(r.off) == o ==> opens == 0
verify (*stream.seqReaderAt).Close(r) (err)
  requires held(r)
  ensures [closed] r.current == nil && nopen == 0
verify (*stream.seqReaderAt).Size(r) (n)
  ensures n == r.size && r.size == old(r.size)
verify stream.NewSeqReaderAt(o, size) (r)
  ensures [new] is(r, "*stream.seqReaderAt") && cast(r, "*stream.seqReaderAt").current == nil && cast(r, "*stream.seqReaderAt").size == size && opens == 0

# A context is cancelled from some moment on.
ghost cancelled int
ghost cerr int
ghost cerrt int
invoke context.Context.Err(c) (err)
  ensures (err != nil) == (cancelled == 1)
  ensures err != nil ==> ref(err) == cerr && tag(err) == cerrt
verify (*stream.cancellable).Read(c, b) (n, err)
  ensures [sticky] old(c.err) != nil ==> n == 0 && err == old(c.err) && reads == 0 && c.err == old(c.err)
  ensures [cancelled] old(c.err) == nil && cancelled == 1 ==> n == 0 && err != nil && ref(err) == cerr && tag(err) == cerrt && reads == 0
  ensures [passes] old(c.err) == nil && cancelled == 0 ==> reads == 1 && n == lastn && sameerr(err)
  ensures [bytes] forall i int :: {b[i]} 0 <= i && i < n ==> b[i] == sbyte(old(spos[key(c.r)]) + i)
  ensures [kept] err != nil ==> c.err == err
  ensures [same] c.r == old(c.r) && c.ctx == old(c.ctx)
verify stream.NewCancellable(ctx, src) (r)
  ensures [new] is(r, "*stream.cancellable") && cast(r, "*stream.cancellable").err == nil && cast(r, "*stream.cancellable").r == src && cast(r, "*stream.cancellable").ctx == ctx

verify (*stream.ByteRepeater).Read(r, b) (n, err)
  loop 0 invariant forall i int :: {b[i]} 0 <= i && i <= rangeindex ==> b[i] == r.b
  ensures [all] n == len(b) && err == nil && (forall i int :: {b[i]} 0 <= i && i < len(b) ==> b[i] == r.b) && r.b == old(r.b)
verify (*stream.ByteRepeater).ReadAt(r, b, o) (n, err)
  loop 0 invariant forall i int :: {b[i]} 0 <= i && i <= rangeindex ==> b[i] == r.b
  ensures [all] n == len(b) && err == nil && (forall i int :: {b[i]} 0 <= i && i < len(b) ==> b[i] == r.b) && r.b == old(r.b)
verify stream.NewByteRepeater(x) (r)
  ensures [new] r.b == x
