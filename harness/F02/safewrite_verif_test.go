//overlay: fsutil/zz_verif_F02_test.go
//lib: vmem

package fsutil_test

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path/filepath"
	"strings"
	"testing"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/fsutil"
)

type vfSW = fsutil.SafeWriteOption[*vmFs, *vmFile]

type vfReader struct {
	s    string
	n    int
	fail bool
	m    *vmFs
}

func (r *vfReader) Read(p []byte) (int, error) {
	if r.n < len(r.s) {
		k := copy(p, r.s[r.n:min(len(r.s), r.n+3)])
		r.n += k
		return k, nil
	}
	if r.fail {
		return 0, vmErr
	}
	return 0, io.EOF
}

// Replay search for F02: safe writes and copies over an in-memory file system
// with failures injected at every operation, hook and content step.
func TestVerifF02(t *testing.T) {
	s := vfNew()
	type conf struct {
		Kind    string
		Policy  string
		Name    string
		Dest    string // "", "file", "dir"
		Hooks   [4]int
		BadHook int // 1-based, 0 = none
		BadSrc  bool
		Ignore  bool
		Fail    []int
		Crash   int
	}
	one := func(c conf) (steps int) {
		key := c.Kind + "/" + c.Policy
		s.guard(key, c, func() {
			m := newVm()
			m.put("d", &vmNode{dir: true})
			m.put("e", &vmNode{dir: true})
			m.file("d/other", "keep")
			m.put("tmp", &vmNode{dir: true})
			clean := filepath.Clean(c.Name)
			switch c.Dest {
			case "file":
				m.file(clean, "OLD")
			case "dir":
				m.put(clean, &vmNode{dir: true})
			}
			for _, f := range c.Fail {
				m.fail[f] = true
			}
			m.crash = c.Crash
			before := m.snap()
			old := func() string {
				x := m.nodes[clean]
				if x == nil {
					return "absent"
				}
				return fmt.Sprintf("%v %q", x.dir, x.data)
			}
			was := old()
			var calls []string
			written, renames, opsBefore := false, 0, true
			var bad []string
			m.watch = func(op, a, b string) {
				if renames == 0 && old() != was {
					bad = append(bad, "destination changed before the rename, seen at "+op+" "+a)
				}
				switch {
				case op == "Rename":
					renames++
					if b != clean {
						bad = append(bad, "renamed to "+b)
					}
					if !written {
						bad = append(bad, "renamed before the content was written")
					}
					if m.open != 0 {
						bad = append(bad, "renamed with the temporary file open")
					}
				case vmNm(a) == clean && op != "Stat" && op != "Lstat":
					bad = append(bad, op+" on the destination name")
				}
			}
			opt := vfSW{IgnoreCloseErr: c.Ignore}
			switch c.Policy {
			case "random":
				opt.TempFilePolicy = fsutil.NewTempFilePolicyRandom[*vmFs, *vmFile]()
			case "dir":
				opt.TempFilePolicy = fsutil.NewTempFilePolicyDir[*vmFs, *vmFile]("tmp")
			case "newdir":
				opt.TempFilePolicy = fsutil.NewTempFilePolicyDir[*vmFs, *vmFile]("fresh")
			}
			nh, hookFailed := 0, false
			mk := func(kind string, n int) (out []func(f *vmFile, path string) error) {
				for i := 0; i < n; i++ {
					nh++
					me, id := nh, fmt.Sprint(kind, i)
					out = append(out, func(f *vmFile, path string) error {
						calls = append(calls, id)
						if f == nil || f.closed {
							bad = append(bad, "hook got a closed file")
						}
						if renames != 0 {
							bad = append(bad, "hook after the rename")
						}
						if path != c.Name {
							bad = append(bad, "hook got path "+path)
						}
						if (kind == "post" || kind == "Post") != written {
							bad = append(bad, kind+" hook at the wrong time")
						}
						if me == c.BadHook {
							hookFailed = true
							return vmErr
						}
						return nil
					})
				}
				return
			}
			opt.PreHooks = mk("Pre", c.Hooks[0])
			pre := mk("pre", c.Hooks[1])
			post := mk("post", c.Hooks[2])
			opt.PostHooks = mk("Post", c.Hooks[3])
			var err error
			content := "new content of the file"
			switch c.Kind {
			case "Write":
				err = opt.Write(m, c.Name, func(w io.Writer) error {
					if _, e := io.WriteString(w, content[:5]); e != nil {
						return e
					}
					if c.BadSrc {
						return vmErr
					}
					_, e := io.WriteString(w, content[5:])
					written = e == nil
					return e
				}, 0o600, pre, post)
			case "Copy":
				m.watch = func(w func(string, string, string)) func(string, string, string) {
					return func(op, a, b string) {
						if x := m.nodes[vmNm(a)]; x != nil && string(x.data) == content {
							written = true
						}
						w(op, a, b)
					}
				}(m.watch)
				content = "new content"
				r := &vfReader{s: content, fail: c.BadSrc}
				if nh > 0 {
					// the post hooks learn of the end of the copy here
					post = append([]func(*vmFile, string) error{func(f *vmFile, _ string) error {
						written = string(f.x.data) == content
						return nil
					}}, post...)
				}
				err = opt.Copy(m, c.Name, r, 0o600, pre, post)
			case "CopyFs":
				src := fstest.MapFS{"a": {Data: []byte("AA"), Mode: 0o644}, "sub/b": {Data: []byte("BB"), Mode: 0o600}, "sub": {Mode: fs.ModeDir | 0o755}}
				if c.BadSrc {
					src["zz"] = &fstest.MapFile{Mode: fs.ModeDir | 0o755}
				}
				var fsys fs.FS = src
				if c.BadSrc {
					fsys = vfBadSrc{src}
				}
				post = append([]func(*vmFile, string) error{func(f *vmFile, _ string) error { written = true; return nil }}, post...)
				err = opt.CopyFs(m, c.Name, fsys, 0o755, pre, post)
			}
			_ = opsBefore
			steps = m.step
			s.eval(fmt.Sprint(key, c.Dest, c.Hooks, c.BadHook, c.BadSrc, c.Ignore, c.Fail, c.Crash, err == nil), c)
			m.watch = nil
			for _, b := range bad {
				s.fail(key+"/order", c, "%s\ntrace %v\nerror %v", b, m.trace, err)
				return
			}
			if renames > 1 {
				s.fail(key+"/renames", c, "%d renames: %v", renames, m.trace)
			}
			renamed := renames == 1 && !strings.HasSuffix(vfLastRename(m.trace), "!") && old() != was
			left := 0
			for n := range m.nodes {
				if strings.HasSuffix(n, ".tmp") {
					left++
				}
			}
			closeIgnored, otherFail := false, hookFailed || c.BadSrc
			removeFailed := false
			for _, x := range m.trace {
				if !strings.HasSuffix(x, "!") {
					continue
				}
				switch {
				case strings.HasPrefix(x, "Close(") && strings.HasSuffix(x, ".tmp,)!"):
					closeIgnored = true
				case strings.HasPrefix(x, "RemoveAll("):
					removeFailed = true
				case strings.HasPrefix(x, "Write(") || strings.HasPrefix(x, "Rename(") || strings.HasPrefix(x, "OpenFile(") || strings.HasPrefix(x, "Mkdir(") || strings.HasPrefix(x, "Chmod(") || strings.HasPrefix(x, "Close("):
					otherFail = true
				}
			}
			if err != nil {
				if renamed {
					s.fail(key+"/falsefail", c, "error %v although the destination was replaced\ntrace %v", err, m.trace)
				}
				if old() != was {
					s.fail(key+"/dest", c, "error %v, but the destination changed from %s to %s\ntrace %v", err, was, old(), m.trace)
				}
				if left > 0 && !removeFailed {
					s.fail(key+"/leftover", c, "error %v, temporary names left behind\n%s\ntrace %v", err, m.snap(), m.trace)
				}
				if (c.BadSrc || hookFailed || len(c.Fail) > 0 || c.Crash > 0) && c.Dest != "dir" && !errors.Is(err, vmErr) {
					s.fail(key+"/err", c, "error %v is not the one that occurred\ntrace %v", err, m.trace)
				}
				if m.open != 0 {
					s.fail(key+"/open", c, "file left open\ntrace %v", m.trace)
				}
				return
			}
			if otherFail || closeIgnored && !c.Ignore {
				s.fail(key+"/falseok", c, "success although a step failed\ntrace %v", m.trace)
				return
			}
			if !renamed && c.Dest != "dir" {
				s.fail(key+"/norename", c, "success without a rename\ntrace %v", m.trace)
			}
			if left > 0 {
				s.fail(key+"/leftover", c, "success, temporary names left behind\n%s", m.snap())
			}
			want := ""
			for k, n := range []string{"Pre", "pre", "post", "Post"} {
				for i := 0; i < c.Hooks[k]; i++ {
					want += fmt.Sprint(n, i, " ")
				}
			}
			if got := strings.Join(append(calls, ""), " "); got != want {
				s.fail(key+"/hooks", c, "hooks run: %s, want %s", got, want)
			}
			if c.Kind == "CopyFs" {
				a, _ := m.get(clean + "/a")
				b, _ := m.get(clean + "/sub/b")
				if a != "AA" || b != "BB" {
					s.fail(key+"/content", c, "destination tree is\n%s", m.snap())
				}
			} else if got, _ := m.get(clean); got != content {
				s.fail(key+"/content", c, "destination holds %q, want %q", got, content)
			}
			for n := range m.nodes {
				if !strings.Contains(before, n+":") && n != clean && !strings.HasPrefix(n, clean+"/") && n != "fresh" {
					s.fail(key+"/stray", c, "stray entry %s", n)
				}
			}
			if m.open != 0 {
				s.fail(key+"/open", c, "file left open\ntrace %v", m.trace)
			}
		})
		return
	}
	kinds := []string{"Write", "Copy", "CopyFs"}
	pols := []string{"", "random", "dir", "newdir"}
	names := []string{"f", "d/f", "./d//f", "d/../e/f"}
	for _, k := range kinds {
		for _, p := range pols {
			for ni, n := range names {
				for _, dest := range []string{"", "file", "dir"} {
					if dest == "file" && k == "CopyFs" || dest == "dir" && k != "CopyFs" {
						continue
					}
					h := [4]int{ni % 2, 1, 1, 1 + ni%2}
					base := conf{Kind: k, Policy: p, Name: n, Dest: dest, Hooks: h}
					st := one(base)
					for i := 1; i <= st+1; i++ {
						for _, ig := range []bool{false, true} {
							c := base
							c.Fail, c.Ignore = []int{i}, ig
							one(c)
							c.Fail, c.Crash = nil, i
							one(c)
						}
						c := base
						c.Fail = []int{i, i + 1}
						one(c)
					}
					for b := 1; b <= h[0]+h[1]+h[2]+h[3]; b++ {
						c := base
						c.BadHook = b
						one(c)
					}
					c := base
					c.BadSrc = true
					one(c)
				}
			}
		}
	}
	for s.more() {
		c := conf{Kind: vfPick(s, kinds), Policy: vfPick(s, pols), Name: vfPick(s, names), Hooks: [4]int{s.rng.Intn(3), s.rng.Intn(3), s.rng.Intn(3), s.rng.Intn(3)}, Ignore: s.rng.Intn(2) == 0, BadSrc: s.rng.Intn(6) == 0}
		if s.rng.Intn(4) == 0 {
			c.BadHook = 1 + s.rng.Intn(8)
		}
		if c.Kind != "CopyFs" && s.rng.Intn(2) == 0 {
			c.Dest = "file"
		}
		for k := s.rng.Intn(3); k > 0; k-- {
			c.Fail = append(c.Fail, 1+s.rng.Intn(25))
		}
		one(c)
	}
	s.done("every single, double and permanent failure point x {Write, Copy, CopyFs} x four policies x names x destination states, then random combinations; distinct by configuration and outcome")
}

func vfLastRename(tr []string) string {
	for i := len(tr) - 1; i >= 0; i-- {
		if strings.HasPrefix(tr[i], "Rename(") {
			return tr[i]
		}
	}
	return ""
}

type vfBadSrc struct{ fs.FS }

func (b vfBadSrc) Open(n string) (fs.File, error) {
	if n == "zz" {
		return nil, vmErr
	}
	return b.FS.Open(n)
}
