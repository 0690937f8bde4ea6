//overlay: vroot/synthfs/zz_verif_Y03_test.go
//race

package synthfs_test

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
)

type mbOp struct {
	Op     string
	H      int
	Off    int64
	N      int
	Whence int
	Flag   int
}

type mbHandle struct {
	f      vroot.File
	flag   int
	off    int64
	closed bool
}

func mbBytes(seed, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + (seed*31+i*7)%255)
	}
	return b
}

func TestVerifY03(t *testing.T) {
	s := vfNew()
	rd := func(f int) bool { return f&os.O_WRONLY == 0 || f&os.O_RDWR != 0 }
	wr := func(f int) bool { return f&(os.O_WRONLY|os.O_RDWR) != 0 }

	one := func(ops []mbOp) {
		s.limit("seq", ops, 10*time.Second, func() {
			s.eval(fmt.Sprintf("%d/%v", len(ops), ops[0].Op), ops)
			r := synthfs.NewRoot("m", nil)
			f0, err := r.OpenFile("f", os.O_RDWR|os.O_CREATE, 0o666)
			if err != nil {
				s.fail("open", ops, "create: %v", err)
				return
			}
			hs := []*mbHandle{{f: f0, flag: os.O_RDWR}}
			var data []byte
			for k, o := range ops {
				h := hs[o.H%len(hs)]
				at := fmt.Sprintf("step %d %+v", k, o)
				switch o.Op {
				case "open":
					if len(hs) >= 5 {
						continue
					}
					f, err := r.OpenFile("f", o.Flag, 0o666)
					if err != nil {
						s.fail("open", ops, "%s: %v", at, err)
						return
					}
					if o.Flag&os.O_TRUNC != 0 && wr(o.Flag) {
						data = nil
					}
					hs = append(hs, &mbHandle{f: f, flag: o.Flag})
				case "read", "readat":
					p := bytes.Repeat([]byte{0xEE}, o.N)
					off := o.Off
					if o.Op == "read" {
						off = h.off
					}
					var n int
					var err error
					if o.Op == "read" {
						n, err = h.f.Read(p)
					} else {
						n, err = h.f.ReadAt(p, off)
					}
					if !rd(h.flag) || off < 0 {
						if n != 0 || err == nil || err == io.EOF {
							s.fail("read/refused", ops, "%s: %d, %v, want an error", at, n, err)
						}
						continue
					}
					want := 0
					if off < int64(len(data)) {
						want = min(o.N, len(data)-int(off))
					}
					if n != want || (want > 0 && !bytes.Equal(p[:n], data[off:off+int64(n)])) {
						s.fail("read/bytes", ops, "%s: read %d %x at %d of %x", at, n, p[:max(0, min(n, len(p)))], off, data)
						return
					}
					if (o.N > want && err != io.EOF) || (o.N > 0 && o.N == want && err != nil) {
						s.fail("read/err", ops, "%s: %d of %d bytes with error %v", at, n, o.N, err)
					}
					if o.Op == "read" {
						h.off += int64(n)
					}
				case "write", "writeat", "writestring":
					p := mbBytes(k, o.N)
					off := o.Off
					if o.Op != "writeat" {
						off = h.off
						if h.flag&os.O_APPEND != 0 {
							off = int64(len(data))
						}
					}
					var n int
					var err error
					switch o.Op {
					case "write":
						n, err = h.f.Write(p)
					case "writeat":
						n, err = h.f.WriteAt(p, off)
					default:
						n, err = h.f.WriteString(string(p))
					}
					bad := !wr(h.flag) || off < 0 || (o.N > 0 && off > 1<<40) || (o.Op == "writeat" && h.flag&os.O_APPEND != 0)
					if bad {
						if n != 0 || err == nil {
							s.fail("write/refused", ops, "%s: %d, %v, want an error", at, n, err)
						}
					} else if off <= 1<<40 {
						if n != o.N || err != nil {
							s.fail("write/count", ops, "%s: %d, %v", at, n, err)
							return
						}
						if n > 0 {
							for int64(len(data)) < off+int64(n) {
								data = append(data, 0)
							}
							copy(data[off:], p)
						}
						if o.Op != "writeat" {
							h.off = off + int64(n)
						}
					}
				case "seek":
					base := int64(0)
					switch o.Whence {
					case io.SeekCurrent:
						base = h.off
					case io.SeekEnd:
						base = int64(len(data))
					}
					ok := o.Whence >= 0 && o.Whence <= 2 && !(o.Off > 0 && base > math.MaxInt64-o.Off) && base+o.Off >= 0
					got, err := h.f.Seek(o.Off, o.Whence)
					if (err == nil) != ok || (ok && got != base+o.Off) {
						s.fail("seek", ops, "%s: %d, %v from base %d", at, got, err, base)
						return
					}
					if ok {
						h.off = got
					}
				case "truncate":
					err := h.f.Truncate(o.Off)
					ok := wr(h.flag) && o.Off >= 0 && o.Off <= 1<<40
					if (err == nil) != ok {
						s.fail("truncate", ops, "%s: %v", at, err)
						return
					}
					if ok {
						for int64(len(data)) < o.Off {
							data = append(data, 0)
						}
						data = append([]byte(nil), data[:o.Off]...)
					}
				}
				// position of every handle, content, size
				for i, h := range hs {
					if p, err := h.f.Seek(0, io.SeekCurrent); err != nil || p != h.off {
						s.fail("position", ops, "%s: handle %d is at %d (%v), want %d", at, i, p, err, h.off)
						return
					}
				}
				got := make([]byte, len(data)+1)
				n, err := f0.ReadAt(got, 0)
				if n != len(data) || err != io.EOF || !bytes.Equal(got[:n], data) {
					s.fail("content", ops, "%s: content %x (%v), want %x", at, got[:n], err, data)
					return
				}
				if i, err := f0.Stat(); err != nil || i.Size() != int64(len(data)) {
					s.fail("size", ops, "%s: size %v (%v), want %d", at, i.Size(), err, len(data))
					return
				}
				if i, err := r.Stat("f"); err != nil || i.Size() != int64(len(data)) {
					s.fail("size", ops, "%s: stat size %v (%v), want %d", at, i.Size(), err, len(data))
					return
				}
			}
		})
	}

	// appends from several handles at once: every record is there, whole, once
	appends := func(g, each, size int) {
		in := []int{g, each, size}
		s.limit("append", in, 20*time.Second, func() {
			s.eval(fmt.Sprintf("append/%d", g), in)
			r := synthfs.NewRoot("m", nil)
			var wg sync.WaitGroup
			for i := 0; i < g; i++ {
				f, err := r.OpenFile("f", os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o666)
				if err != nil {
					s.fail("open", in, "%v", err)
					return
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < each; j++ {
						if n, err := f.Write(bytes.Repeat([]byte{byte(i + 1)}, size)); n != size || err != nil {
							s.fail("append/count", in, "%d %v", n, err)
						}
					}
				}()
			}
			wg.Wait()
			f, _ := r.Open("f")
			b, err := io.ReadAll(f)
			if err != nil || len(b) != g*each*size {
				s.fail("append/lost", in, "%d bytes after appends of %d (%v)", len(b), g*each*size, err)
				return
			}
			seen := map[byte]int{}
			for k := 0; k < len(b); k += size {
				rec := b[k : k+size]
				if !bytes.Equal(rec, bytes.Repeat(rec[:1], size)) {
					s.fail("append/torn", in, "record at %d is %x", k, rec)
					return
				}
				seen[rec[0]]++
			}
			for i := 0; i < g; i++ {
				if seen[byte(i+1)] != each {
					s.fail("append/lost", in, "writer %d: %d records of %d", i, seen[byte(i+1)], each)
				}
			}
		})
	}

	// reads through one handle at once: every record is delivered once
	reads := func(g, recs int) {
		in := []int{g, recs}
		s.limit("reads", in, 20*time.Second, func() {
			s.eval(fmt.Sprintf("reads/%d", g), in)
			r := synthfs.NewRoot("m", nil)
			w, _ := r.OpenFile("f", os.O_RDWR|os.O_CREATE, 0o666)
			b := make([]byte, 2*recs)
			for i := 0; i < recs; i++ {
				b[2*i], b[2*i+1] = byte(i), byte(i>>8)
			}
			w.Write(b)
			f, err := r.Open("f")
			if err != nil {
				s.fail("open", in, "%v", err)
				return
			}
			seen := make([]int, recs)
			var mu sync.Mutex
			var wg sync.WaitGroup
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					p := make([]byte, 2)
					var mine []int
					for {
						if n, err := f.Read(p); n < 2 || err != nil {
							break
						}
						mine = append(mine, int(p[0])|int(p[1])<<8)
					}
					mu.Lock()
					defer mu.Unlock()
					for _, k := range mine {
						seen[k]++
					}
				}()
			}
			wg.Wait()
			for k, n := range seen {
				if n != 1 {
					s.fail("reads/once", in, "record %d was read %d times", k, n)
					return
				}
			}
		})
	}

	flags := []int{os.O_RDWR, os.O_RDONLY, os.O_WRONLY, os.O_RDWR | os.O_APPEND, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_TRUNC, os.O_RDONLY | os.O_TRUNC, os.O_WRONLY | os.O_TRUNC}
	offs := []int64{0, 0, 1, 2, 3, 5, 8, 13, 40, 100, 511, 513, 4095, 4097, -1, math.MinInt64, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 4, 1 << 62}
	lens := []int{0, 1, 1, 2, 3, 5, 7, 16, 33, 100, 512, 700}
	names := []string{"open", "read", "readat", "write", "write", "writeat", "writeat", "writestring", "seek", "seek", "truncate"}
	draw := func() mbOp {
		o := mbOp{Op: vfPick(s, names), H: s.rng.Intn(5), Off: vfPick(s, offs), N: vfPick(s, lens), Whence: s.rng.Intn(5) - 1, Flag: vfPick(s, flags)}
		if o.Op == "seek" && s.rng.Intn(3) == 0 {
			o.Off = int64(s.rng.Intn(40) - 20)
		}
		if o.Op == "seek" && s.rng.Intn(4) > 0 {
			o.Whence = s.rng.Intn(3)
		}
		for _, v := range s.ints {
			if s.rng.Intn(40) == 0 && (v < 1<<20 || v >= 1<<60) {
				o.Off = v
			}
		}
		return o
	}

	// shrinking, then growing by each way, leaves zeros behind
	for _, first := range []int{1, 5, 8, 33} {
		for _, cut := range []int64{0, 1, 4} {
			for _, g := range []mbOp{{Op: "truncate", Off: 40}, {Op: "writeat", Off: 20, N: 1}, {Op: "writeat", Off: 6, N: 1}, {Op: "write", N: 3}} {
				one([]mbOp{{Op: "write", N: first}, {Op: "truncate", Off: cut}, {Op: "seek", Off: 7}, g, {Op: "truncate", Off: 60}})
				one([]mbOp{{Op: "write", N: first}, {Op: "write", N: 1}, {Op: "truncate", Off: cut}, {Op: "writeat", Off: cut + 1, N: 1}, g})
			}
		}
	}
	for _, off := range offs {
		for _, n := range []int{0, 1, 5} {
			one([]mbOp{{Op: "write", N: 3}, {Op: "writeat", Off: off, N: n}, {Op: "readat", Off: off, N: n}})
			one([]mbOp{{Op: "write", N: 3}, {Op: "seek", Off: off}, {Op: "write", N: n}, {Op: "read", N: n}})
		}
		one([]mbOp{{Op: "write", N: 3}, {Op: "truncate", Off: off}})
	}
	for _, g := range []int{2, 4} {
		appends(g, 200, 3)
		reads(g, 20000)
	}
	for s.more() {
		ops := make([]mbOp, 1+s.rng.Intn(14))
		for i := range ops {
			ops[i] = draw()
		}
		one(ops)
		if s.rng.Intn(400) == 0 {
			appends(2+s.rng.Intn(4), 100, 1+s.rng.Intn(40))
			reads(2+s.rng.Intn(6), 10000)
		}
	}
	s.done("every operation sequence on handles of one in-memory file, compared with a byte array, positions and sizes")
}
