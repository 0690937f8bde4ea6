//overlay: vroot/synthfs/zz_verif_Y04_test.go

package synthfs_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"sort"
	"testing"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
)

var hmErr = errors.New("injected failure")

// hmView is a view whose handles count the calls they get.
type hmView struct {
	openErr, truncErr error
	opened, closed    int
	log               []string
}

func (v *hmView) Open(flag int) (vroot.File, error) {
	if v.openErr != nil {
		return nil, v.openErr
	}
	v.opened++
	return &hmFile{v: v}, nil
}
func (v *hmView) Stat() (fs.FileInfo, error) {
	return fs.Stat(fstest.MapFS{"x": {Data: []byte("abc")}}, "x")
}
func (v *hmView) Close() error { v.closed++; return nil }

type hmFile struct {
	vroot.File
	v *hmView
}

func (f *hmFile) rec(s string, a ...any)                   { f.v.log = append(f.v.log, fmt.Sprintf(s, a...)) }
func (f *hmFile) Read(p []byte) (int, error)               { f.rec("Read %d", len(p)); return 3, io.EOF }
func (f *hmFile) ReadAt(p []byte, off int64) (int, error)  { f.rec("ReadAt %d %d", len(p), off); return 2, hmErr }
func (f *hmFile) Write(p []byte) (int, error)              { f.rec("Write %s", p); return 1, hmErr }
func (f *hmFile) WriteAt(p []byte, off int64) (int, error) { f.rec("WriteAt %s %d", p, off); return 2, nil }
func (f *hmFile) WriteString(s string) (int, error)        { f.rec("WriteString %s", s); return 3, nil }
func (f *hmFile) Seek(off int64, w int) (int64, error)     { f.rec("Seek %d %d", off, w); return 77, hmErr }
func (f *hmFile) Truncate(n int64) error                   { f.rec("Truncate %d", n); return f.v.truncErr }
func (f *hmFile) Sync() error                              { f.rec("Sync"); return hmErr }
func (f *hmFile) Close() error                             { f.rec("Close"); f.v.closed++; return hmErr }

type hmAlloc struct{ v *hmView }

func (a hmAlloc) Allocate(string, fs.FileMode) (synthfs.FileView, error) { return a.v, nil }

func TestVerifY04(t *testing.T) {
	s := vfNew()
	rd := func(f int) bool { return f&os.O_WRONLY == 0 || f&os.O_RDWR != 0 }
	wr := func(f int) bool { return f&(os.O_WRONLY|os.O_RDWR) != 0 }
	wop := func(f int) bool {
		return f&(os.O_WRONLY|os.O_RDWR|os.O_APPEND|os.O_CREATE|os.O_TRUNC) != 0
	}

	// every operation of a handle: name, needs reading, needs writing
	type mop struct {
		name   string
		rd, wr bool
		run    func(f vroot.File) (string, error)
	}
	ops := []mop{
		{"Read", true, false, func(f vroot.File) (string, error) { n, err := f.Read(make([]byte, 4)); return fmt.Sprint(n), err }},
		{"ReadAt", true, false, func(f vroot.File) (string, error) { n, err := f.ReadAt(make([]byte, 2), 1); return fmt.Sprint(n), err }},
		{"Write", false, true, func(f vroot.File) (string, error) { n, err := f.Write([]byte("ab")); return fmt.Sprint(n), err }},
		{"WriteAt", false, true, func(f vroot.File) (string, error) { n, err := f.WriteAt([]byte("ab"), 1); return fmt.Sprint(n), err }},
		{"WriteString", false, true, func(f vroot.File) (string, error) { n, err := f.WriteString("ab"); return fmt.Sprint(n), err }},
		{"Truncate", false, true, func(f vroot.File) (string, error) { return "0", f.Truncate(2) }},
		{"Seek", false, false, func(f vroot.File) (string, error) { n, err := f.Seek(1, io.SeekStart); return fmt.Sprint(n), err }},
		{"Sync", false, false, func(f vroot.File) (string, error) { return "0", f.Sync() }},
		{"Stat", false, false, func(f vroot.File) (string, error) { _, err := f.Stat(); return "0", err }},
		{"Chmod", false, false, func(f vroot.File) (string, error) { return "0", f.Chmod(0o600) }},
		{"Chown", false, false, func(f vroot.File) (string, error) { return "0", f.Chown(1, 2) }},
	}
	want := map[string][2]string{"Read": {"3", "EOF"}, "ReadAt": {"2", hmErr.Error()}, "Write": {"1", hmErr.Error()}, "WriteAt": {"2", ""}, "WriteString": {"3", ""}, "Truncate": {"0", ""}, "Seek": {"77", hmErr.Error()}, "Sync": {"0", hmErr.Error()}}
	wantLog := map[string]string{"Read": "Read 4", "ReadAt": "ReadAt 2 1", "Write": "Write ab", "WriteAt": "WriteAt ab 1", "WriteString": "WriteString ab", "Truncate": "Truncate 2", "Seek": "Seek 1 0", "Sync": "Sync"}

	modes := func(flag int, closed bool, o mop) {
		in := []any{flag, closed, o.name}
		s.limit("mode", in, 5*time.Second, func() {
			s.eval(fmt.Sprintf("mode/%s/%v", o.name, closed), in)
			v := &hmView{}
			r := synthfs.NewRoot("m", nil)
			if err := r.AddFile("f", v, nil); err != nil {
				s.fail("mode/setup", in, "%v", err)
				return
			}
			f, err := r.OpenFile("f", flag, 0)
			if err != nil {
				s.fail("mode/open", in, "%v", err)
				return
			}
			trunc := flag&os.O_TRUNC != 0 && wr(flag)
			if trunc != (len(v.log) == 1) || (trunc && v.log[0] != "Truncate 0") {
				s.fail("mode/trunc", in, "flags %#x: calls on opening %v", flag, v.log)
			}
			v.log = nil
			if closed {
				if err := f.Close(); err != hmErr {
					s.fail("mode/close", in, "close answered %v", err)
				}
				if err := f.Close(); err != nil || len(v.log) != 1 {
					s.fail("mode/close", in, "second close: %v, calls %v", err, v.log)
				}
				v.log = nil
			}
			before, _ := r.Stat("f")
			n, err := o.run(f)
			switch {
			case closed:
				if !errors.Is(err, fs.ErrClosed) || len(v.log) != 0 {
					s.fail("mode/closed", in, "%s on a closed handle: %v, calls %v", o.name, err, v.log)
				}
				if a, _ := r.Stat("f"); a.Mode() != before.Mode() {
					s.fail("mode/closed", in, "%s on a closed handle changed the mode", o.name)
				}
			case o.rd && !rd(flag), o.wr && !wr(flag):
				if err == nil || n != "0" || len(v.log) != 0 {
					s.fail("mode/refused", in, "%s with flags %#x: %s %v, calls %v", o.name, flag, n, err, v.log)
				}
			default:
				w, ok := want[o.name]
				if !ok {
					if err != nil {
						s.fail("mode/allowed", in, "%s with flags %#x: %v", o.name, flag, err)
					}
					return
				}
				es := ""
				if err != nil {
					es = err.Error()
				}
				if len(v.log) != 1 || v.log[0] != wantLog[o.name] || n != w[0] || es != w[1] {
					s.fail("mode/forward", in, "%s with flags %#x: answered %s %q, calls %v", o.name, flag, n, es, v.log)
				}
			}
		})
	}

	// opening: what the flags ask for
	open := func(flag int, kind string, perm fs.FileMode) {
		in := []any{flag, kind, int(perm)}
		s.limit("open", in, 5*time.Second, func() {
			s.eval("open/"+kind, in)
			r := synthfs.NewRoot("m", nil)
			w, _ := r.Create("old")
			w.Write([]byte("hello"))
			w.Close()
			r.Mkdir("d", 0o755)
			r.Symlink("old", "lf")
			r.Symlink("d", "ld")
			r.Symlink("gone", "lx")
			f, err := r.OpenFile(kind, flag, perm)
			exists := kind != "new" && kind != "lx" && kind != "d/new"
			isDir := kind == "d" || kind == "ld"
			switch {
			case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 && (exists || kind == "lx"):
				if err == nil {
					s.fail("open/excl", in, "O_EXCL opened an existing entry")
				}
			case kind == "lx":
				if err == nil {
					s.fail("open/dangling", in, "a dangling link opened")
				}
			case !exists && flag&os.O_CREATE == 0:
				if !errors.Is(err, fs.ErrNotExist) {
					s.fail("open/missing", in, "%v", err)
				}
			case isDir && wop(flag):
				if err == nil {
					s.fail("open/dir", in, "a directory opened for writing with %#x", flag)
				}
			case err != nil:
				s.fail("open/refused", in, "%v", err)
			default:
				i, err := f.Stat()
				if err != nil || i.IsDir() != isDir {
					s.fail("open/kind", in, "%v %v", i, err)
				}
				if !isDir {
					size := int64(5)
					if !exists || (flag&os.O_TRUNC != 0 && wr(flag)) {
						size = 0
					}
					if i.Size() != size {
						s.fail("open/size", in, "size %d after opening with %#x, want %d", i.Size(), flag, size)
					}
					n, err := f.Write([]byte("XY"))
					if wr(flag) != (err == nil) || wr(flag) != (n == 2) {
						s.fail("open/write", in, "flags %#x: %d %v", flag, n, err)
					}
					got, _ := fs.ReadFile(vroot.ToIoFsRoot(r), map[bool]string{true: kind, false: kind}[true])
					body := []byte("hello")[:size]
					if wr(flag) {
						if flag&os.O_APPEND != 0 {
							body = append(append([]byte(nil), body...), "XY"...)
						} else {
							body = append([]byte("XY"), body[min(2, len(body)):]...)
						}
					}
					if !bytes.Equal(got, body) {
						s.fail("open/content", in, "flags %#x: content %q, want %q", flag, got, body)
					}
				}
			}
			if err != nil {
				if _, e := r.Lstat("new"); e == nil {
					s.fail("open/left", in, "a failed open left an entry")
				}
			}
		})
	}

	// failures of the view while opening: they end, and leave nothing
	faults := func(flag int, create, openFails bool) {
		in := []any{flag, create, openFails}
		s.limit("fault", in, 3*time.Second, func() {
			s.eval("fault", in)
			v := &hmView{truncErr: hmErr}
			if openFails {
				v.openErr = hmErr
			}
			r := synthfs.NewRoot("m", &synthfs.Option{Allocator: hmAlloc{v}, DisableOpenFileRemoval: true})
			if !create {
				r.AddFile("f", v, nil)
			}
			f, err := r.OpenFile("f", flag, 0o666)
			fails := openFails || (!create && flag&os.O_TRUNC != 0 && wr(flag))
			if (err != nil) != fails {
				s.fail("fault/err", in, "%v", err)
				return
			}
			_, serr := r.Stat("f")
			if create && fails && serr == nil {
				s.fail("fault/left", in, "the failed create left an entry")
			}
			if !create && serr != nil {
				s.fail("fault/lost", in, "%v", serr)
			}
			if fails && !create {
				if !openFails && v.log[len(v.log)-1] != "Close" {
					s.fail("fault/handle", in, "the handle was not closed: %v", v.log)
				}
				if err := r.Remove("f"); err != nil {
					s.fail("fault/count", in, "still counted as open: %v", err)
				}
			}
			if !fails {
				if err := r.Remove("f"); err == nil {
					s.fail("fault/count", in, "an open file was removed")
				}
				f.Close()
				f.Close()
				if err := r.Remove("f"); err != nil {
					s.fail("fault/count", in, "closed, yet not removable: %v", err)
				}
			}
		})
	}

	// directories: batches concatenate to the listing
	dirs := func(n int, counts []int, kind int) {
		in := []any{n, counts, kind}
		s.limit("dir", in, 5*time.Second, func() {
			s.eval(fmt.Sprintf("dir/%d", kind), in)
			r := synthfs.NewRoot("m", nil)
			r.Mkdir("d", 0o755)
			var want []string
			for i := 0; i < n; i++ {
				nm := fmt.Sprintf("e%d", (i*7)%13)
				want = append(want, nm)
				if i%3 == 0 {
					r.Mkdir("d/"+nm, 0o755)
				} else {
					f, _ := r.Create("d/" + nm)
					f.Close()
				}
			}
			sort.Strings(want)
			f, err := r.Open("d")
			if err != nil {
				s.fail("dir/open", in, "%v", err)
				return
			}
			var got []string
			left := n
			for _, c := range counts {
				if c == -1000 {
					if _, err := f.Seek(0, io.SeekStart); err != nil {
						s.fail("dir/rewind", in, "%v", err)
					}
					got, left = nil, n
					continue
				}
				var names []string
				var err error
				switch kind {
				case 0:
					var es []fs.DirEntry
					es, err = f.ReadDir(c)
					for _, e := range es {
						names = append(names, e.Name())
					}
				case 1:
					var es []fs.FileInfo
					es, err = f.Readdir(c)
					for _, e := range es {
						names = append(names, e.Name())
					}
				default:
					names, err = f.Readdirnames(c)
				}
				k := left
				if c > 0 && c < left {
					k = c
				}
				if len(names) != k {
					s.fail("dir/count", in, "ReadDir(%d) with %d left gave %d", c, left, len(names))
					return
				}
				if (c > 0 && left == 0) != (err == io.EOF) || (err != nil && err != io.EOF) {
					s.fail("dir/err", in, "ReadDir(%d) with %d left: %v", c, left, err)
				}
				got = append(got, names...)
				left -= k
			}
			if left == 0 {
				sort.Strings(got)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					s.fail("dir/names", in, "%v, want %v", got, want)
				}
			}
			f.Close()
			if _, err := f.ReadDir(1); !errors.Is(err, fs.ErrClosed) {
				s.fail("dir/closed", in, "ReadDir after close: %v", err)
			}
			for _, o := range ops {
				if o.rd || o.wr {
					if n, err := o.run(f); err == nil || n != "0" {
						s.fail("dir/io", in, "%s on a directory: %s %v", o.name, n, err)
					}
				} else if _, err := o.run(f); !errors.Is(err, fs.ErrClosed) {
					s.fail("dir/closed", in, "%s after close: %v", o.name, err)
				}
			}
		})
	}

	// positions and appends of handles into memory
	pos := func(flag int, steps []int64) {
		in := []any{flag, steps}
		s.limit("pos", in, 5*time.Second, func() {
			s.eval("pos", in)
			r := synthfs.NewRoot("m", nil)
			w, _ := r.Create("f")
			data := []byte("0123456789")
			w.Write(data)
			f, err := r.OpenFile("f", flag, 0)
			if err != nil {
				s.fail("pos/open", in, "%v", err)
				return
			}
			if flag&os.O_TRUNC != 0 && wr(flag) {
				data = nil
			}
			at := int64(0)
			for i, x := range steps {
				switch i % 5 {
				case 0:
					k := x % 3
					if k < 0 {
						k = -k
					}
					base := []int64{0, at, int64(len(data))}[k]
					ok := !(x > 0 && base > math.MaxInt64-x) && base+x >= 0
					n, err := f.Seek(x, int(k))
					if (err == nil) != ok || (ok && n != base+x) {
						s.fail("pos/seek", in, "Seek(%d, %d) from %d: %d %v", x, k, at, n, err)
						return
					}
					if ok {
						at = n
					}
				case 1:
					p := make([]byte, 3)
					n, err := f.Read(p)
					k := 0
					if rd(flag) && at < int64(len(data)) {
						k = copy(make([]byte, 3), data[at:])
					}
					if n != k || (k > 0 && !bytes.Equal(p[:n], data[at:at+int64(n)])) || (!rd(flag) && err == nil) {
						s.fail("pos/read", in, "read %d %q at %d of %q (%v)", n, p, at, data, err)
						return
					}
					at += int64(n)
				case 2, 4:
					o := at
					if flag&os.O_APPEND != 0 {
						o = int64(len(data))
					}
					n, err := f.Write([]byte("ab"))
					if !wr(flag) {
						if n != 0 || err == nil {
							s.fail("pos/write", in, "%d %v", n, err)
						}
					} else if o < 1<<30 {
						if n != 2 || err != nil {
							s.fail("pos/write", in, "%d %v", n, err)
							return
						}
						for int64(len(data)) < o+2 {
							data = append(data, 0)
						}
						copy(data[o:], "ab")
						at = o + 2
					}
				case 3:
					f.ReadAt(make([]byte, 2), 1)
					if n, err := f.WriteAt([]byte("zz"), 3); err == nil {
						if !wr(flag) || flag&os.O_APPEND != 0 || n != 2 {
							s.fail("pos/writeat", in, "WriteAt with flags %#x: %d", flag, n)
							return
						}
						for len(data) < 5 {
							data = append(data, 0)
						}
						copy(data[3:], "zz")
					}
				}
				if n, err := f.Seek(0, io.SeekCurrent); n != at || err != nil {
					s.fail("pos/position", in, "at %d after step %d, want %d (%v)", n, i, at, err)
					return
				}
			}
			got, _ := fs.ReadFile(vroot.ToIoFsRoot(r), "f")
			if !bytes.Equal(got, data) {
				s.fail("pos/content", in, "%q, want %q", got, data)
			}
		})
	}

	var flags []int
	for _, a := range []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR} {
		for _, b := range []int{0, os.O_APPEND} {
			for _, c := range []int{0, os.O_TRUNC} {
				flags = append(flags, a|b|c)
			}
		}
	}
	for _, f := range flags {
		for _, o := range ops {
			modes(f, false, o)
			modes(f, true, o)
		}
		for _, k := range []string{"old", "new", "d", "lf", "ld", "lx", "d/new"} {
			for _, c := range []int{0, os.O_CREATE, os.O_CREATE | os.O_EXCL, os.O_EXCL} {
				open(f|c, k, 0o644)
			}
		}
		for i := 0; i < 4; i++ {
			faults(f|(i%2)*os.O_CREATE, i%2 == 1, i > 1)
		}
	}
	for kind := 0; kind < 3; kind++ {
		dirs(5, []int{1, math.MaxInt, 1}, kind)
		dirs(5, []int{2, 2, 2, 2}, kind)
		dirs(5, []int{0, 0, 1}, kind)
		dirs(0, []int{-1, 1}, kind)
		dirs(3, []int{1, -1000, -1, 3}, kind)
	}
	offs := []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 20, -1, -2, -3, -10, -11, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 2, math.MinInt64, math.MinInt64 + 1, 1 << 62}
	for s.more() {
		st := make([]int64, 1+s.rng.Intn(12))
		for i := range st {
			st[i] = vfPick(s, offs)
			for _, v := range s.ints {
				if s.rng.Intn(30) == 0 {
					st[i] = v
				}
			}
		}
		pos(vfPick(s, flags), st)
		if s.rng.Intn(10) == 0 {
			var c []int
			for k := s.rng.Intn(6); k >= 0; k-- {
				c = append(c, []int{-1, 0, 1, 2, 3, 5, math.MaxInt, math.MaxInt - 1, -1000}[s.rng.Intn(9)])
			}
			dirs(s.rng.Intn(9), c, s.rng.Intn(3))
		}
	}
	s.done("every open mode against every operation, before and after close; every way to open every kind of entry; positions and directory batches")
}
