//overlay: fsutil/zz_verif_F01_test.go

package fsutil_test

import (
	"errors"
	"fmt"
	"io/fs"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
)

// A tree of directories, files and links which records what it is asked.
type rlFs struct {
	nodes map[string]string // "d", "f" or "l" + target
	asked []string
	links int
	fail  string // the name whose query fails
}

var rlErr = errors.New("injected failure")

type rlInfo struct {
	n string
	m fs.FileMode
}

func (i rlInfo) Name() string       { return filepath.Base(i.n) }
func (i rlInfo) Size() int64        { return 0 }
func (i rlInfo) Mode() fs.FileMode  { return i.m }
func (i rlInfo) ModTime() time.Time { return time.Time{} }
func (i rlInfo) IsDir() bool        { return i.m.IsDir() }
func (i rlInfo) Sys() any           { return nil }

func (r *rlFs) Lstat(n string) (fs.FileInfo, error) {
	r.asked = append(r.asked, n)
	if n == r.fail {
		return nil, rlErr
	}
	switch x := r.nodes[n]; {
	case n == ".":
		return rlInfo{n, fs.ModeDir | 0o755}, nil
	case x == "":
		return nil, &fs.PathError{Op: "lstat", Path: n, Err: fs.ErrNotExist}
	case x == "d":
		return rlInfo{n, fs.ModeDir | 0o755}, nil
	case x == "f":
		return rlInfo{n, 0o644}, nil
	}
	return rlInfo{n, fs.ModeSymlink | 0o777}, nil
}

func (r *rlFs) ReadLink(n string) (string, error) {
	r.asked = append(r.asked, n)
	r.links++
	if x := r.nodes[n]; strings.HasPrefix(x, "l") {
		return x[1:], nil
	}
	return "", &fs.PathError{Op: "readlink", Path: n, Err: syscall.EINVAL}
}

// rlResolve walks the way a kernel does: component by component, ".." leaving
// the directory reached, links replaced by their targets.
func rlResolve(nodes map[string]string, name string, keep bool) (string, string) {
	name = filepath.Clean(name)
	if name == "." {
		return ".", ""
	}
	if !filepath.IsLocal(name) {
		return "", "escape"
	}
	todo := strings.Split(name, "/")
	tail := ""
	if keep {
		tail = todo[len(todo)-1]
		todo = todo[:len(todo)-1]
	}
	var cur []string
	links := 0
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		switch c {
		case ".":
			continue
		case "..":
			if len(cur) == 0 {
				return "", "escape"
			}
			cur = cur[:len(cur)-1]
			continue
		}
		p := strings.Join(append(append([]string{}, cur...), c), "/")
		x := nodes[p]
		switch {
		case x == "":
			return "", "missing"
		case x[0] != 'l':
			cur = append(cur, c)
		default:
			if links++; links >= 40 {
				return "", "loop"
			}
			t := filepath.Clean(x[1:])
			if filepath.IsAbs(t) {
				return "", "escape"
			}
			todo = append(strings.Split(t, "/"), todo...)
		}
	}
	r := strings.Join(append(cur, tail), "/")
	return filepath.Clean(r), ""
}

func TestVerifF01(t *testing.T) {
	s := vfNew()
	type conf struct {
		Nodes map[string]string
		Name  string
		Keep  bool
		Fail  string
	}
	one := func(c conf) {
		key := fmt.Sprintf("resolve/keep=%v", c.Keep)
		s.limit(key, c, 5*time.Second, func() {
			r := &rlFs{nodes: c.Nodes, fail: c.Fail}
			got, err := fsutil.ResolvePath(r, c.Name, c.Keep)
			want, kind := rlResolve(c.Nodes, c.Name, c.Keep)
			for _, q := range r.asked {
				if !filepath.IsLocal(q) || filepath.Clean(q) != q {
					s.fail(key+"/outside", c, "asked for %q", q)
				}
				for d := filepath.Dir(q); d != "."; d = filepath.Dir(d) {
					if strings.HasPrefix(c.Nodes[d], "l") {
						s.fail(key+"/through", c, "asked for %q, below the link %q", q, d)
					}
				}
			}
			if r.links > 40 {
				s.fail(key+"/bound", c, "%d links read", r.links)
			}
			if c.Fail != "" && len(r.asked) > 0 && r.asked[len(r.asked)-1] == c.Fail {
				if !errors.Is(err, rlErr) {
					s.fail(key+"/failure", c, "query of %q failed, answer %q, %v", c.Fail, got, err)
				}
				return
			}
			switch kind {
			case "":
				if err != nil || got != want {
					s.fail(key+"/answer", c, "answer %q, %v; want %q", got, err, want)
				}
			case "escape":
				if !errors.Is(err, fsutil.ErrPathEscapes) {
					s.fail(key+"/escape", c, "answer %q, %v; want an escape error", got, err)
				}
			case "missing":
				if !errors.Is(err, fs.ErrNotExist) {
					s.fail(key+"/missing", c, "answer %q, %v; want not-exist", got, err)
				}
			case "loop":
				if !errors.Is(err, errdef.ELOOP) {
					s.fail(key+"/loop", c, "answer %q, %v; want too many links", got, err)
				}
			}
			s.eval(kind+fmt.Sprintf("%v %d %q", c.Keep, r.links, c.Name), c)
		})
	}
	// Chains and cycles.
	for _, n := range []int{1, 2, 5, 37, 38, 39, 40, 41, 60} {
		for _, via := range []string{"", "d/", "s/"} {
			for _, tail := range []string{"", "/x"} {
				m := map[string]string{"d": "d", "s": "ld", "d/x": "f", "x": "f", "end": "d", "end/x": "f", "d/end": "d", "d/end/x": "f"}
				if via == "s/" {
					m["d/end"] = "l../end"
				}
				for i := 0; i < n; i++ {
					p := fmt.Sprintf("%sc%d", map[string]string{"": "", "d/": "d/", "s/": "d/"}[via], i)
					if i == n-1 {
						m[p] = "lend"
					} else {
						m[p] = fmt.Sprintf("lc%d", i+1)
					}
				}
				one(conf{m, via + "c0" + tail, false, ""})
				one(conf{m, via + "c0" + tail, true, ""})
			}
		}
	}
	one(conf{map[string]string{"a": "la"}, "a", false, ""})
	one(conf{map[string]string{"a": "lb", "b": "la"}, "a/c", true, ""})
	one(conf{map[string]string{"a": "la/b"}, "a", false, ""})
	names := []string{"a", "b", "..a", "b.", "...", "ab"}
	targets := []string{"a", "b", ".", "..", "../a", "../../b", "a/b", "b/a", "./a", "a/", "/", "/a", "../..", "b/../a", "..a", "a/../../b", "..a/b", "ab", "../ab"}
	for _, x := range s.strs {
		if x != "" && !strings.ContainsRune(x, 0) {
			targets = append(targets, x)
			if !strings.Contains(x, "/") && x != "." && x != ".." {
				names = append(names, x)
			}
		}
	}
	for s.more() {
		m := map[string]string{}
		var dirs = []string{""}
		for i := s.rng.Intn(9) + 1; i > 0; i-- {
			p := vfPick(s, dirs) + vfPick(s, names)
			if m[p] != "" {
				continue
			}
			switch s.rng.Intn(5) {
			case 0:
				m[p] = "f"
			case 1, 2:
				m[p] = "d"
				dirs = append(dirs, p+"/")
			default:
				m[p] = "l" + vfPick(s, targets)
			}
		}
		n := vfPick(s, names)
		for k := s.rng.Intn(4); k > 0; k-- {
			n += "/" + vfPick(s, []string{"a", "b", "..a", "..", ".", "", "x", "..."})
		}
		if s.rng.Intn(12) == 0 {
			n = vfPick(s, []string{"", ".", "/", "/a", "..", "../a", "a/../..", "./a"})
		}
		f := ""
		if s.rng.Intn(6) == 0 {
			f = vfPick(s, []string{"a", "b", "a/b"})
		}
		for i := 0; i < 2; i++ {
			one(conf{m, n, i == 1, f})
		}
	}
	s.done("every query stays inside the root and below no link; the answer is the kernel's; at most 40 links are followed")
}
