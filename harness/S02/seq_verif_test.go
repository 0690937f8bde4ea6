//overlay: stream/zz_verif_S02_test.go

package stream_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/stream"
)

var sqErr = errors.New("injected failure")

// sqSrc is a stream over data from some offset on, which delivers as it likes.
type sqSrc struct {
	data   []byte
	off    int
	step   []int // sizes of the deliveries, 0 = nothing this time
	eager  bool  // io.EOF with the last bytes
	failAt int   // fails before this offset's byte; -1 never
	closed int
	open   *int
	cerr   error
	reads  int
	ferr   error // the failure, sqErr when nil
	gone   *bool // set when it failed; with once it does not fail again
	once   bool
}

func (r *sqSrc) Read(p []byte) (int, error) {
	r.reads++
	n := len(p)
	if len(r.step) > 0 {
		n = min(n, r.step[0])
		r.step = append(r.step[1:], r.step[0])
	}
	n = min(n, len(r.data)-r.off)
	var err error
	if r.failAt >= r.off && r.failAt <= r.off+n && !(r.once && *r.gone) {
		n = r.failAt - r.off
		err = sqErr
		if r.ferr != nil {
			err = r.ferr
		}
		if r.gone != nil {
			*r.gone = true
		}
	}
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	if err == nil && r.off == len(r.data) && (n == 0 && len(p) > 0 || r.eager) {
		err = io.EOF
	}
	return n, err
}

type sqTemp struct{ error }

func (sqTemp) Temporary() bool { return true }
func (sqTemp) Timeout() bool   { return true }
func (t sqTemp) Unwrap() error { return t.error }

func sqKind(k string) error {
	switch k {
	case "timeout":
		return fmt.Errorf("%w: %w", sqErr, os.ErrDeadlineExceeded)
	case "interrupted":
		return fmt.Errorf("%w: %w", sqErr, syscall.EINTR)
	case "again":
		return fmt.Errorf("%w: %w", sqErr, syscall.EAGAIN)
	case "net":
		return &net.OpError{Op: "read", Err: sqTemp{sqErr}}
	case "unexpected":
		return fmt.Errorf("%w: %w", sqErr, io.ErrUnexpectedEOF)
	case "cancelled":
		return fmt.Errorf("%w: %w", sqErr, context.Canceled)
	case "temporary":
		return sqTemp{sqErr}
	}
	return sqErr
}

func (r *sqSrc) Close() error {
	r.closed++
	*r.open--
	return r.cerr
}

type sqOp struct {
	N   int
	Off int64
}

func TestVerifS02(t *testing.T) {
	s := vfNew()
	type conf struct {
		Size, Len  int
		Steps      []int
		Eager      bool
		FailAt     int
		OpenFail   int // the n-th open fails, 0 none
		CloseFails bool
		Once       bool   // fails once, and goes on after that
		Kind       string // of failure
		Ops        []sqOp
	}
	one := func(c conf) {
		s.limit("seq", c, 5*time.Second, func() {
			data := make([]byte, c.Len)
			for i := range data {
				data[i] = byte(i*7 + 1 + i/256)
			}
			open, opens := 0, 0
			gone := false
			var cur *sqSrc
			var cerr error
			if c.CloseFails {
				cerr = sqErr
			}
			r := stream.NewSeqReaderAt(func(off int64) (io.ReadCloser, error) {
				opens++
				if open > 0 {
					s.fail("seq/two-open", c, "opened at %d while another stream is open", off)
				}
				if opens == c.OpenFail {
					return nil, sqErr
				}
				if off < 0 || off >= int64(c.Size) {
					s.fail("seq/open-outside", c, "opened at %d of %d", off, c.Size)
				}
				open++
				cur = &sqSrc{data: data, off: min(int(off), len(data)), step: append([]int{}, c.Steps...), eager: c.Eager, failAt: c.FailAt, open: &open, cerr: cerr, gone: &gone, once: c.Once, ferr: sqKind(c.Kind)}
				return cur, nil
			}, int64(c.Size))
			if r.Size() != int64(c.Size) {
				s.fail("seq/size", c, "size %d", r.Size())
			}
			next := int64(-1) // where a stream that is open stands
			for _, o := range c.Ops {
				b := bytes.Repeat([]byte{0xAA}, o.N)
				before := opens
				n, err := r.ReadAt(b, o.Off)
				if n < 0 || n > len(b) {
					s.fail("seq/count", c, "%+v: %d, %v", o, n, err)
					return
				}
				if o.Off < 0 || o.Off >= int64(c.Size) {
					if n != 0 || err == nil || o.Off < 0 && err == io.EOF || o.Off >= 0 && err != io.EOF || opens != before {
						s.fail("seq/outside", c, "%+v: %d, %v", o, n, err)
					}
					continue
				}
				end := o.Off + int64(n)
				if n > 0 && (end > int64(min(c.Size, c.Len)) || !bytes.Equal(b[:n], data[o.Off:end])) {
					s.fail("seq/data", c, "%+v: %x", o, b[:n])
					return
				}
				switch {
				case err == nil && n < len(b):
					s.fail("seq/short", c, "%+v: %d bytes and no error", o, n)
				case err == io.EOF && end < int64(min(c.Size, c.Len)):
					s.fail("seq/early-eof", c, "%+v: %d bytes and EOF", o, n)
				case err != nil && err != io.EOF && !errors.Is(err, sqErr):
					s.fail("seq/error", c, "%+v: %v", o, err)
				case err == nil && c.FailAt >= 0 && !c.Once && o.Off <= int64(c.FailAt) && int64(c.FailAt) < end:
					s.fail("seq/failure-lost", c, "%+v: read past the failing byte", o)
				}
				if next == o.Off && opens != before {
					s.fail("seq/reopened", c, "%+v: reopened although the stream stood there", o)
				}
				next = -1
				if err == nil || err == io.EOF && end == int64(c.Size) && open > 0 {
					next = end
				}
			}
			err := r.Close()
			if open != 0 {
				s.fail("seq/leak", c, "%d streams open after close: %v", open, err)
			}
			if err := r.Close(); err != nil {
				s.fail("seq/close2", c, "second close: %v", err)
			}
		})
		s.eval(fmt.Sprintf("%+v", c), c)
	}
	type cconf struct {
		Len    int
		Steps  []int
		Eager  bool
		FailAt int
		Cancel int // before this read
		Sizes  []int
	}
	cancellable := func(c cconf) {
		s.limit("cancellable", c, 5*time.Second, func() {
			data := make([]byte, c.Len)
			for i := range data {
				data[i] = byte(i*7 + 1)
			}
			open := 1
			src := &sqSrc{data: data, step: append([]int{}, c.Steps...), eager: c.Eager, failAt: c.FailAt, open: &open}
			ref := &sqSrc{data: data, step: append([]int{}, c.Steps...), eager: c.Eager, failAt: c.FailAt, open: &open}
			cause := errors.New("cause")
			ctx, cancel := context.WithCancelCause(context.Background())
			defer cancel(nil)
			r := stream.NewCancellable(ctx, src)
			var first error
			for i, z := range c.Sizes {
				if i == c.Cancel {
					cancel(cause)
				}
				a, b := bytes.Repeat([]byte{0xAA}, z), bytes.Repeat([]byte{0xAA}, z)
				reads := src.reads
				n, err := r.Read(a)
				switch {
				case first != nil:
					if n != 0 || err != first || src.reads != reads {
						s.fail("cancellable/sticky", c, "read %d: %d, %v after %v (%d reads of the source)", i, n, err, first, src.reads-reads)
					}
				case ctx.Err() != nil:
					if n != 0 || err != ctx.Err() || src.reads != reads {
						s.fail("cancellable/cancelled", c, "read %d: %d, %v, %d reads of the source", i, n, err, src.reads-reads)
					}
				default:
					m, e := ref.Read(b)
					if n != m || err != e || !bytes.Equal(a, b) {
						s.fail("cancellable/passes", c, "read %d: %d, %v, %x; want %d, %v, %x", i, n, err, a, m, e, b)
					}
				}
				if first == nil {
					first = err
				}
			}
		})
		s.eval(fmt.Sprintf("%+v", c), c)
	}
	for i := 0; s.more(); i++ {
		if i%3 == 0 {
			c := cconf{Len: s.rng.Intn(20), Eager: s.rng.Intn(2) == 0, FailAt: -1, Cancel: s.rng.Intn(8)}
			if s.rng.Intn(3) == 0 {
				c.FailAt = s.rng.Intn(20)
			}
			for k := s.rng.Intn(4); k > 0; k-- {
				c.Steps = append(c.Steps, s.rng.Intn(5))
			}
			for k := s.rng.Intn(9) + 1; k > 0; k-- {
				c.Sizes = append(c.Sizes, s.rng.Intn(6))
			}
			cancellable(c)
			continue
		}
		if i%50 == 1 {
			x := byte(s.rng.Intn(256))
			b := make([]byte, s.rng.Intn(3000))
			rp := stream.NewByteRepeater(x)
			n, err := rp.Read(b)
			m, err2 := rp.ReadAt(b, vfPick(s, []int64{0, 5, 1 << 40}))
			if n != len(b) || err != nil || m != n || err2 != nil || !bytes.Equal(b, bytes.Repeat([]byte{x}, len(b))) {
				s.fail("repeat", []int{int(x), len(b)}, "%d %v %d %v", n, err, m, err2)
			}
		}
		z := s.rng.Intn(24)
		c := conf{Size: z, Len: z, Eager: s.rng.Intn(2) == 0, FailAt: -1, CloseFails: s.rng.Intn(10) == 0}
		switch s.rng.Intn(8) {
		case 0:
			c.Len = s.rng.Intn(z + 1)
		case 1:
			c.Len = z + s.rng.Intn(4)
		case 2:
			c.FailAt = s.rng.Intn(z + 1)
			c.Once = s.rng.Intn(3) > 0
			c.Kind = vfPick(s, []string{"", "timeout", "interrupted", "again", "net", "unexpected", "cancelled", "temporary"})
		case 3:
			c.OpenFail = 1 + s.rng.Intn(3)
		}
		for k := s.rng.Intn(4); k > 0; k-- {
			c.Steps = append(c.Steps, s.rng.Intn(5))
		}
		if len(c.Steps) > 0 {
			c.Steps = append(c.Steps, 1)
		}
		pos := int64(0)
		for k := s.rng.Intn(9) + 1; k > 0; k-- {
			o := sqOp{s.rng.Intn(9), pos}
			switch s.rng.Intn(5) {
			case 0:
				o.Off = int64(s.rng.Intn(z+5) - 2)
			case 1:
				o.N = s.rng.Intn(z + 4)
			case 2:
				o.Off = max(0, pos-int64(s.rng.Intn(3)))
			}
			if s.rng.Intn(30) == 0 {
				o.Off = vfPick(s, append([]int64{1 << 40, 1<<63 - 1, -1 << 63}, s.ints...))
			}
			pos = o.Off + int64(o.N)
			if pos < 0 || pos > 1000 {
				pos = 0
			}
			c.Ops = append(c.Ops, o)
		}
		one(c)
	}
	s.done("positional reads of a sequential source give its bytes at the offset, from one stream at a time; a cancelled reader delivers nothing; a repeater repeats")
}
