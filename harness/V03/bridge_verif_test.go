//overlay: vroot/zz_verif_V03_test.go
//lib: vfs vrec

package vroot_test

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
	"github.com/ngicks/go-fsys-helper/vroot"
	"syscall"
)

// an io/fs tree that records what it is asked
type vfIo struct {
	r *vfRecFs
	// capabilities of the handles
	readat, seek, readdir, half bool
	vanish                map[string]error // errors of entries' Info
}

func (v *vfIo) Open(n string) (fs.File, error) {
	v.r.rec("Open(%q)", n)
	if v.r.fail != nil && !v.half {
		return nil, v.r.fail
	}
	if v.r.fail != nil {
		// an unusable file value next to the error
		return &vfIoFile{v: v, f: &vfRecFile{r: v.r, n: n}}, v.r.fail
	}
	base := &vfIoFile{v: v, f: &vfRecFile{r: v.r, n: n}}
	switch {
	case v.readat && v.seek && v.readdir:
		return struct {
			*vfIoFile
			vfIoAt
			vfIoSeek
			vfIoDir
		}{base, vfIoAt{base}, vfIoSeek{base}, vfIoDir{base}}, nil
	case v.readdir && !v.readat:
		return struct {
			*vfIoFile
			vfIoDir
		}{base, vfIoDir{base}}, nil
	case v.readat && v.readdir:
		return struct {
			*vfIoFile
			vfIoAt
			vfIoDir
		}{base, vfIoAt{base}, vfIoDir{base}}, nil
	case v.readat:
		return struct {
			*vfIoFile
			vfIoAt
		}{base, vfIoAt{base}}, nil
	}
	return base, nil
}
func (v *vfIo) Lstat(n string) (fs.FileInfo, error)  { return v.r.Lstat(n) }
func (v *vfIo) Stat(n string) (fs.FileInfo, error)   { return v.r.Stat(n) }
func (v *vfIo) ReadLink(n string) (string, error)    { return v.r.ReadLink(n) }

type vfIoFile struct {
	v *vfIo
	f *vfRecFile
}

func (f *vfIoFile) Read(b []byte) (int, error)   { return f.f.Read(b) }
func (f *vfIoFile) Stat() (fs.FileInfo, error)   { return f.f.Stat() }
func (f *vfIoFile) Close() error                 { return f.f.Close() }

type vfIoAt struct{ b *vfIoFile }

func (f vfIoAt) ReadAt(b []byte, o int64) (int, error) { return f.b.f.ReadAt(b, o) }

type vfIoSeek struct{ b *vfIoFile }

func (f vfIoSeek) Seek(o int64, w int) (int64, error) { return f.b.f.Seek(o, w) }

type vfIoDir struct{ b *vfIoFile }

type vfIoEnt struct {
	fs.DirEntry
	err error
}

func (e vfIoEnt) Info() (fs.FileInfo, error) {
	if e.err != nil {
		return nil, e.err
	}
	return e.DirEntry.Info()
}

func (f vfIoDir) ReadDir(n int) ([]fs.DirEntry, error) {
	es, err := f.b.f.ReadDir(n)
	for i := range es {
		if e := f.b.v.vanish[es[i].Name()]; e != nil {
			es[i] = vfIoEnt{es[i], e}
		}
	}
	return es, err
}

func TestVerifV03(t *testing.T) {
	s := vfNew()
	names := append(append([]string{}, vfNames...), vfBadNames...)
	names = append(names, "...", "..a", "./a", "a/.", "//", "a\\b", "a:b", "é", "a\x00b", "\x00", "\xff", "a/\xfe", "..", "a/..", "a/b/", " ")
	names = append(names, s.strs...)
	valid := func(n string) bool { return fs.ValidPath(n) && !strings.Contains(n, "\x00") }

	export := func(kind, op, name string, fail, noat bool) {
		in := map[string]any{"bridge": kind, "op": op, "name": name, "backingfails": fail, "noreadat": noat}
		s.guard("panic/"+kind+"/"+op, in, func() {
			r := newVfRec()
			r.data, r.ents, r.noat = "some data", []string{"b", "c", "a"}, noat
			if fail {
				r.fail = vfSentinel
			}
			var x fs.FS
			if kind == "fs" {
				x = vroot.ToIoFs[vroot.File](r)
			} else {
				x = vroot.ToIoFsRoot[vroot.File, *vfRecFs](r)
			}
			var err error
			out, wantCall, want := "", "", ""
			switch op {
			case "Open":
				var f fs.File
				f, err = x.Open(name)
				wantCall = fmt.Sprintf("Open(%q)", name)
				if err == nil {
					b, e2 := io.ReadAll(f)
					fi, e3 := f.Stat()
					out = fmt.Sprintf("%q %v %v %v", b, e2, fi.Name(), e3)
					want = fmt.Sprintf("%q %v %v %v", "some data", nil, "info:"+name, nil)
					_, isAt := f.(io.ReaderAt)
					if isAt == noat {
						s.fail("readat/"+kind, in, "the handle offers positional reads: %v", isAt)
					}
					r.fail = nil
					ds, e4 := f.(fs.ReadDirFile).ReadDir(-1)
					r.calls = new([]string)
					r.rec("Open(%q)", name)
					var got []string
					for _, d := range ds {
						got = append(got, d.Name())
					}
					if e4 != nil || len(got) != 3 {
						s.fail("filereaddir/"+kind, in, "listing %v, %v", got, e4)
					}
				} else if f != nil {
					out = "handle with error"
				}
			case "ReadDir":
				var ds []fs.DirEntry
				ds, err = x.(fs.ReadDirFS).ReadDir(name)
				wantCall = fmt.Sprintf("Open(%q)", name)
				for _, d := range ds {
					out += d.Name() + ";"
				}
				want = "a;b;c;"
				if c := r.take(); len(c) > 0 && c[len(c)-1] == name+".Close" {
					for _, k := range c[:len(c)-1] {
						r.rec("%s", k)
					}
				} else {
					for _, k := range c {
						r.rec("%s", k)
					}
				}
			case "ReadFile":
				var b []byte
				b, err = x.(fs.ReadFileFS).ReadFile(name)
				out, want = string(b), "some data"
				wantCall = fmt.Sprintf("Open(%q)", name)
				if c := r.take(); len(c) > 0 && c[len(c)-1] == name+".Close" {
					for _, k := range c[:len(c)-1] {
						r.rec("%s", k)
					}
				} else {
					for _, k := range c {
						r.rec("%s", k)
					}
				}
			case "ReadLink":
				out, err = x.(fs.ReadLinkFS).ReadLink(name)
				want = "target-of-" + name
				wantCall = fmt.Sprintf("ReadLink(%q)", name)
			case "Lstat", "Stat":
				var fi fs.FileInfo
				if op == "Lstat" {
					fi, err = x.(fs.ReadLinkFS).Lstat(name)
				} else {
					fi, err = x.(fs.StatFS).Stat(name)
				}
				if fi != nil {
					out = fi.Name()
				}
				want = "info:" + name
				wantCall = fmt.Sprintf("%s(%q)", op, name)
			case "Sub":
				var sub fs.FS
				sub, err = x.(fs.SubFS).Sub(name)
				if sub != nil {
					out = "sub"
				}
				want = "sub"
				if kind == "fs" {
					wantCall = fmt.Sprintf("Stat(%q)", name)
				} else {
					wantCall = fmt.Sprintf("OpenRoot(%q)", name)
				}
			}
			calls := r.take()
			s.eval(fmt.Sprint(kind, op, calls, err, out), in)
			if !valid(name) {
				if !errors.Is(err, fs.ErrInvalid) || len(calls) != 0 || out != "" {
					s.fail("invalidname/"+kind+"/"+op, in, "an invalid name gave %q, %v and the calls %v", out, err, calls)
				}
				return
			}
			if fail {
				if err != vfSentinel || out != "" || len(calls) != 1 || calls[0] != wantCall {
					s.fail("failure/"+kind+"/"+op, in, "answer %q, %v with calls %v, want the backing error and [%s]", out, err, calls, wantCall)
				}
				return
			}
			if err != nil || out != want || len(calls) != 1 || calls[0] != wantCall {
				s.fail("answer/"+kind+"/"+op, in, "answer %q, %v with calls %v, want %q and [%s]", out, err, calls, want, wantCall)
			}
		})
	}

	imp := func(op, name, b string, flag int, fail bool, caps int, vanish error) {
		in := map[string]any{"bridge": "import", "op": op, "name": name, "flag": flag, "backingfails": fail, "caps": caps, "infoerror": fmt.Sprint(vanish)}
		s.guard("panic/import/"+op, in, func() {
			r := newVfRec()
			r.data, r.ents = "some data", []string{"b", "c", "a"}
			if fail {
				r.fail = vfSentinel
			}
			v := &vfIo{r: r, readat: caps&1 != 0, seek: caps&2 != 0, readdir: caps&4 != 0, half: caps&8 != 0, vanish: map[string]error{}}
			if vanish != nil {
				v.vanish["c"] = vanish
			}
			x := vroot.FromIoFs(v, "named")
			out, err := vfCall[vroot.File](x, op, name, b, flag, 0o640)
			calls := r.take()
			s.eval(fmt.Sprint(op, calls, err, out), in)
			mut := !(op == "Open" || op == "Lstat" || op == "Stat" || op == "ReadLink" || op == "OpenFile" && flag&(os.O_WRONLY|os.O_RDWR|os.O_APPEND|os.O_CREATE|os.O_TRUNC) == 0)
			if mut {
				if !errors.Is(err, errdef.EROFS) || len(calls) != 0 || out != "" {
					s.fail("notrefused/"+op, in, "answer %q, %v with calls %v", out, err, calls)
				}
				return
			}
			c := vfClean(name)
			if !vfLocal(c) {
				if !errors.Is(err, vroot.ErrPathEscapes) || len(calls) != 0 || out != "" {
					s.fail("escape/"+op, in, "answer %q, %v with calls %v", out, err, calls)
				}
				return
			}
			wop := op
			want := map[string]string{"Lstat": "info info:" + c, "Stat": "info info:" + c, "ReadLink": "target-of-" + c, "Open": "file " + c, "OpenFile": "file " + c}[op]
			if op == "OpenFile" {
				wop = "Open"
			}
			if len(calls) != 1 || calls[0] != fmt.Sprintf("%s(%q)", wop, c) {
				s.fail("forward/"+op, in, "calls %v, want %s(%q)", calls, wop, c)
				return
			}
			if fail {
				if err != vfSentinel || out != "" {
					s.fail("failure/"+op, in, "answer %q, %v, want the source's error", out, err)
				}
				return
			}
			if err != nil || out != want {
				s.fail("answer/"+op, in, "answer %q, %v, want %q", out, err, want)
				return
			}
			if wop == "Open" {
				f, err := x.OpenFile(name, flag, 0)
				if op == "Open" {
					f, err = x.Open(name)
				}
				if err != nil {
					s.fail("answer/reopen", in, "%v", err)
					return
				}
				r.take()
				for _, m := range []struct {
					n string
					e error
				}{{"chmod", f.Chmod(0)}, {"chown", f.Chown(0, 0)}, {"truncate", f.Truncate(0)}, {"write", vfE(f.Write([]byte("x")))}, {"writeat", vfE(f.WriteAt([]byte("x"), 0))}, {"writestring", vfE(f.WriteString("x"))}} {
					if !errors.Is(m.e, syscall.EPERM) {
						s.fail("handlewrite/"+m.n, in, "%s on an imported handle: %v", m.n, m.e)
					}
				}
				data, e := io.ReadAll(f)
				if string(data) != "some data" || e != nil {
					s.fail("handleread", in, "read %q, %v", data, e)
				}
				buf := make([]byte, 4)
				n, e := f.ReadAt(buf, 5)
				if v.readat && (string(buf[:n]) != "data" || e != nil) || !v.readat && (n != 0 || !errors.Is(e, vroot.ErrOpNotSupported)) {
					s.fail("handlereadat", in, "positional read %q, %v", buf[:n], e)
				}
				infos, e := f.Readdir(-1)
				var got []string
				for _, i := range infos {
					if i == nil {
						s.fail("nilinfo", in, "Readdir lists a nil FileInfo (error %v)", e)
						return
					}
					got = append(got, strings.TrimPrefix(i.Name(), "info:"))
				}
				sort.Strings(got)
				g := strings.Join(got, ",")
				switch {
				case !v.readdir:
					if e == nil {
						s.fail("handlereaddir", in, "listing %v without the capability", got)
					}
				case vanish == nil && (g != "a,b,c" || e != nil), errors.Is(vanish, fs.ErrNotExist) && (g != "a,b" || e != nil), vanish != nil && !errors.Is(vanish, fs.ErrNotExist) && e == nil:
					s.fail("handlereaddir", in, "listing %v, %v", got, e)
				}
				if v.readdir {
					f2, err := x.Open(name)
					if err == nil {
						ns, e := f2.Readdirnames(-1)
						sort.Strings(ns)
						if strings.Join(ns, ",") != "a,b,c" || e != nil {
							s.fail("handlereaddirnames", in, "%v, %v", ns, e)
						}
					}
				}
				if len(r.take()) > 1 {
					s.fail("handlecalls", in, "mutating calls reached the source")
				}
			}
		})
	}
	exOps := []string{"Open", "ReadDir", "ReadFile", "ReadLink", "Lstat", "Stat", "Sub"}
	vans := []error{nil, fs.ErrNotExist, &fs.PathError{Op: "lstat", Path: "c", Err: syscall.ENOENT}, vfSentinel}
	for _, n := range names {
		for _, op := range exOps {
			for _, k := range []string{"fs", "root"} {
				export(k, op, n, false, false)
				export(k, op, n, true, false)
				export(k, op, n, false, true)
			}
		}
		for _, op := range vfAllOps {
			for i, van := range vans {
				for _, fl := range vfFlags {
					imp(op, n, "b", fl, i%2 == 0, 7+i/2*8, nil)
					imp(op, n, "b", fl, false, i*2%8, van)
					imp(op, n, "b", fl, false, 7, van)
					if op != "OpenFile" {
						break
					}
				}
			}
		}
		if !s.more() {
			break
		}
	}
	for s.more() {
		n := vfGenName(s)
		export(vfPick(s, []string{"fs", "root"}), vfPick(s, exOps), n, s.rng.Intn(2) == 0, s.rng.Intn(2) == 0)
		imp(vfPick(s, vfAllOps), n, vfGenName(s), s.rng.Intn(1<<13)&(os.O_WRONLY|os.O_RDWR|os.O_APPEND|os.O_CREATE|os.O_TRUNC|os.O_EXCL|os.O_SYNC), s.rng.Intn(2) == 0, s.rng.Intn(16), vfPick(s, vans))
	}
	s.done("every operation of both bridges x listed names x backing outcomes and handle capabilities, then random ones; distinct by operation, calls and outcome")
}

func vfE[T any](_ T, err error) error { return err }
