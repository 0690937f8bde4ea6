//overlay: stream/zz_verif_S01_test.go

package stream_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/stream"
)

var mcErr = errors.New("injected failure")

// mcSeg is a segment: Len bytes are there, Size are declared.
type mcSeg struct {
	Size, Len int
	EagerEOF  bool // io.EOF together with the last bytes
	FailAt    int  // reads touching this offset fail (-1: none)
	data      []byte
	closed    *int
}

func (m *mcSeg) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(m.data)) {
		if m.FailAt >= 0 && off == int64(m.FailAt) {
			return 0, mcErr
		}
		return 0, io.EOF
	}
	n := copy(p, m.data[off:])
	if m.FailAt >= 0 && off <= int64(m.FailAt) && int64(m.FailAt) < off+int64(n) {
		n = m.FailAt - int(off)
		return n, mcErr
	}
	if n < len(p) || m.EagerEOF && off+int64(n) == int64(len(m.data)) {
		return n, io.EOF
	}
	return n, nil
}

type mcClosing struct{ *mcSeg }

func (m mcClosing) Close() error { *m.closed++; return nil }

type mcFail struct{ *mcSeg }

func (m mcFail) Close() error { *m.closed++; return mcErr }

type mcOp struct {
	Op     string
	N      int
	Off    int64
	Whence int
}

func TestVerifS01(t *testing.T) {
	s := vfNew()
	type conf struct {
		Segs []mcSeg
		Ops  []mcOp
	}
	one := func(c conf) {
		key := "concat"
		if len(c.Segs) > 32 {
			key = "concat-many"
		}
		s.limit(key, c, 5*time.Second, func() {
			var want []byte // the concatenation
			var have []bool // which of its bytes exist
			var rs []stream.SizedReaderAt
			long, bad := false, false
			closes := make([]int, len(c.Segs))
			seq := 0
			for i := range c.Segs {
				g := c.Segs[i]
				g.closed = &closes[i]
				g.data = make([]byte, g.Len)
				for k := range g.data {
					seq++
					g.data[k] = byte(seq*7 + seq/256)
				}
				for k := 0; k < g.Size; k++ {
					if k < g.Len {
						want = append(want, g.data[k])
					} else {
						want = append(want, 0)
					}
					ok := k < g.Len && !(g.FailAt >= 0 && k == g.FailAt)
					have = append(have, ok)
					bad = bad || !ok
				}
				long = long || g.Len > g.Size
				var r io.ReaderAt = &g
				switch i % 3 {
				case 0:
					r = mcClosing{&g}
				case 1:
					r = mcFail{&g}
				}
				rs = append(rs, stream.SizedReaderAt{R: r, Size: int64(g.Size)})
			}
			r := stream.NewMultiReadAtSeekCloser(rs)
			total := int64(len(want))
			pos := int64(0)
			check := func(o mcOp, off int64, b []byte, n int, err error) {
				k := key + "/" + o.Op
				if n < 0 || n > len(b) {
					s.fail(k+"/count", c, "%+v at %d: n = %d", o, off, n)
					return
				}
				if errors.Is(err, stream.ErrInvalidSize) {
					if !long {
						s.fail(k+"/invalidsize", c, "%+v at %d: %v", o, off, err)
					}
					return
				}
				if n == 0 {
					off = min(off, total)
				}
				if off+int64(n) > total || !bytes.Equal(b[:n], want[min(off, total):min(off+int64(n), total)]) {
					s.fail(k+"/data", c, "%+v at %d: got %d bytes %x, want %x", o, off, n, b[:n], want[min(off, total):min(off+int64(n), total)])
					return
				}
				for i := off; i < off+int64(n); i++ {
					if !have[i] {
						s.fail(k+"/missing", c, "%+v at %d: delivered byte %d, which no segment has", o, off, i)
						return
					}
				}
				switch {
				case err == io.EOF && off+int64(n) < total:
					s.fail(k+"/early-eof", c, "%+v at %d: %d bytes and EOF, total is %d", o, off, n, total)
				case err == nil && o.Op == "readat" && n < len(b):
					s.fail(k+"/short", c, "%+v at %d: %d bytes and no error", o, off, n)
				case err == nil && n == 0 && len(b) > 0:
					s.fail(k+"/nothing", c, "%+v at %d: neither data nor error", o, off)
				case err != nil && err != io.EOF && !errors.Is(err, mcErr) && !errors.Is(err, io.ErrUnexpectedEOF):
					s.fail(k+"/error", c, "%+v at %d: %v", o, off, err)
				case err != nil && err != io.EOF && !bad && !long:
					s.fail(k+"/error", c, "%+v at %d: %v", o, off, err)
				case errors.Is(err, io.ErrUnexpectedEOF) && have[off+int64(n)]:
					s.fail(k+"/unexpected", c, "%+v at %d: %d bytes, %v, but the next byte is there", o, off, n, err)
				}
			}
			for _, o := range c.Ops {
				b := bytes.Repeat([]byte{0xAA}, o.N)
				switch o.Op {
				case "read":
					n, err := r.Read(b)
					if errors.Is(err, stream.ErrInvalidSize) {
						if !long {
							s.fail(key+"/read/invalidsize", c, "at %d: %v", pos, err)
						}
						return
					}
					check(o, pos, b, n, err)
					pos += int64(n)
				case "readat":
					n, err := r.ReadAt(b, o.Off)
					if o.Off < 0 {
						if n != 0 || err == nil {
							s.fail(key+"/readat/negative", c, "%+v: %d, %v", o, n, err)
						}
						continue
					}
					check(o, o.Off, b, n, err)
				case "seek":
					want := o.Off
					switch o.Whence {
					case 1:
						want += pos
					case 2:
						want += total
					}
					ok := o.Whence >= 0 && o.Whence <= 2 && want >= 0
					n, err := r.Seek(o.Off, o.Whence)
					if (err == nil) != ok || ok && n != want {
						s.fail(key+"/seek", c, "%+v from %d: %d, %v; want %d, accepted %v", o, pos, n, err, want, ok)
						return
					}
					if ok {
						pos = want
					}
				case "all":
					got, err := io.ReadAll(r)
					from := min(pos, total)
					switch {
					case errors.Is(err, stream.ErrInvalidSize):
						if !long {
							s.fail(key+"/all/invalidsize", c, "%v", err)
						}
						return
					case int64(len(got)) > total-from || !bytes.Equal(got, want[from:from+int64(len(got))]):
						s.fail(key+"/all/data", c, "from %d: %x want %x", pos, got, want[from:])
						return
					case err == nil && int64(len(got)) < total-from:
						s.fail(key+"/all/short", c, "from %d: %d of %d bytes and no error", pos, len(got), total-from)
					}
					pos += int64(len(got))
				}
			}
			err := r.Close()
			wantErr := false
			for i, n := range closes {
				w := 1
				if i%3 == 2 {
					w = 0
				}
				wantErr = wantErr || i%3 == 1
				if n != w {
					s.fail(key+"/close", c, "segment %d closed %d times", i, n)
				}
			}
			if wantErr != (err != nil) || wantErr && !errors.Is(err, mcErr) {
				s.fail(key+"/closeerr", c, "close: %v", err)
			}
		})
		s.eval(fmt.Sprintf("%d %+v", len(c.Segs), c.Ops), c)
	}
	for s.more() {
		var c conf
		n := s.rng.Intn(5)
		if s.rng.Intn(4) == 0 {
			n = 30 + s.rng.Intn(40)
		}
		total := 0
		for i := 0; i < n; i++ {
			z := s.rng.Intn(6)
			g := mcSeg{Size: z, Len: z, EagerEOF: s.rng.Intn(2) == 0, FailAt: -1}
			switch s.rng.Intn(20) {
			case 0:
				g.Len = s.rng.Intn(z + 1)
			case 1:
				g.Len = z + 1 + s.rng.Intn(3)
			case 2:
				g.FailAt = s.rng.Intn(z + 1)
			}
			total += z
			c.Segs = append(c.Segs, g)
		}
		for i := 1 + s.rng.Intn(8); i > 0; i-- {
			o := mcOp{Op: vfPick(s, []string{"read", "read", "read", "readat", "readat", "seek", "all"}), N: s.rng.Intn(total + 8), Off: int64(s.rng.Intn(total+6) - 2), Whence: s.rng.Intn(3)}
			if s.rng.Intn(2) == 0 {
				o.N = s.rng.Intn(8)
			}
			if o.Op == "seek" {
				switch s.rng.Intn(8) {
				case 0:
					o.Whence = vfPick(s, []int{-1, 3, 7})
				case 1:
					o.Off = vfPick(s, append([]int64{0, -1, 1 << 40, 1 << 62, -1 << 62, 1<<63 - 1, -1 << 63}, s.ints...))
				case 2, 3:
					o.Off = -o.Off
				}
			}
			c.Ops = append(c.Ops, o)
		}
		one(c)
	}
	s.done("reads, positional reads and seeks agree with the concatenation of the declared segments; a segment that is short, long or failing is reported; close closes each closer once")
}
