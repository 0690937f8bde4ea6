//overlay: vroot/synthfs/zz_verif_Y02_test.go

package synthfs_test

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
)

// hrWalk answers where a name leads from directory base, as the property has it:
// one component at a time, at most 40 links, nothing above base.
func hrWalk(nodes map[string]string, base, name string, follow bool) (string, string) {
	name = filepath.Clean(name)
	if name == "." {
		return base, ""
	}
	if !filepath.IsLocal(name) {
		return "", "escape"
	}
	todo := strings.Split(name, "/")
	var cur []string
	at := func(c ...string) string { return path.Join(append(append([]string{base}, cur...), c...)...) }
	links := 0
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		switch c {
		case "", ".":
			continue
		case "..":
			if len(cur) == 0 {
				return "", "escape"
			}
			cur = cur[:len(cur)-1]
			continue
		}
		p := at(c)
		x := nodes[p]
		switch {
		case x == "":
			return "", "missing"
		case x[0] == 'l' && (len(todo) > 0 || follow):
			if links++; links > 40 {
				return "", "loop"
			}
			if strings.HasPrefix(x[1:], "/") {
				return "", "escape"
			}
			todo = append(strings.Split(x[1:], "/"), todo...)
		case len(todo) == 0:
			return p, ""
		case x[0] != 'd':
			return "", "notdir"
		default:
			cur = append(cur, c)
		}
	}
	return at(), ""
}

func hrKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, vroot.ErrPathEscapes):
		return "escape"
	case errors.Is(err, syscall.ELOOP):
		return "loop"
	case errors.Is(err, syscall.ENOTDIR):
		return "notdir"
	case errors.Is(err, fs.ErrNotExist):
		return "missing"
	}
	return err.Error()
}

func hrBuild(nodes map[string]string) *synthfs.Root {
	r := synthfs.NewRoot("m", nil)
	var ks []string
	for k := range nodes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch x := nodes[k]; x[0] {
		case 'd':
			r.Mkdir(k, 0o755)
		case 'f':
			f, err := r.Create(k)
			if err != nil {
				panic(err)
			}
			f.WriteString(k)
			f.Close()
		}
	}
	// links last, so that nothing above was made through one
	for _, k := range ks {
		if x := nodes[k]; x[0] == 'l' {
			r.Symlink(x[1:], k)
		}
	}
	return r
}

// hrSnap lists everything of a tree but what lies below skip.
func hrSnap(r *synthfs.Root, skip string) string {
	var sb strings.Builder
	var rec func(p string)
	rec = func(p string) {
		fi, err := r.Lstat(p)
		if err != nil {
			fmt.Fprintf(&sb, "%s: %v\n", p, err)
			return
		}
		if p == skip {
			fmt.Fprintf(&sb, "%s\n", p)
			return
		}
		fmt.Fprintf(&sb, "%s %v %v", p, fi.Mode(), fi.ModTime())
		switch {
		case fi.Mode()&fs.ModeSymlink != 0:
			t, _ := r.ReadLink(p)
			fmt.Fprintf(&sb, " -> %s\n", t)
		case fi.IsDir():
			sb.WriteString("\n")
			f, err := r.Open(p)
			if err != nil {
				fmt.Fprintf(&sb, "%v\n", err)
				return
			}
			es, err := f.ReadDir(-1)
			f.Close()
			if err != nil {
				fmt.Fprintf(&sb, "%v\n", err)
			}
			for _, e := range es {
				rec(path.Join(p, e.Name()))
			}
		default:
			f, err := r.Open(p)
			if err != nil {
				fmt.Fprintf(&sb, " %v\n", err)
				return
			}
			b, _ := io.ReadAll(f)
			f.Close()
			fmt.Fprintf(&sb, " %q\n", b)
		}
	}
	rec(".")
	return sb.String()
}

var hrView, _ = synthfs.NewFsView(fstest.MapFS{"x": {Data: []byte("added")}}, "x")

// hrOps: how an operation names things: 0 its parent, 1 the node, 2 the link itself.
var hrOps = map[string]struct {
	kind int
	run  func(r *synthfs.Root, n, n2 string) error
}{
	"Mkdir":    {0, func(r *synthfs.Root, n, _ string) error { return r.Mkdir(n, 0o755) }},
	"MkdirAll": {3, func(r *synthfs.Root, n, _ string) error { return r.MkdirAll(n, 0o755) }},
	"Create": {0, func(r *synthfs.Root, n, _ string) error {
		f, err := r.Create(n)
		if err == nil {
			f.WriteString("new")
			f.Close()
		}
		return err
	}},
	"OpenRW": {1, func(r *synthfs.Root, n, _ string) error {
		f, err := r.OpenFile(n, os.O_RDWR|os.O_TRUNC, 0)
		if err == nil {
			f.WriteString("new")
			f.Chmod(0o600)
			f.Close()
		}
		return err
	}},
	"OpenChmod": {1, func(r *synthfs.Root, n, _ string) error {
		f, err := r.Open(n)
		if err == nil {
			f.Chmod(0o700)
			f.Close()
		}
		return err
	}},
	"Remove":    {0, func(r *synthfs.Root, n, _ string) error { return r.Remove(n) }},
	"RemoveAll": {0, func(r *synthfs.Root, n, _ string) error { return r.RemoveAll(n) }},
	"Rename":    {0, func(r *synthfs.Root, n, n2 string) error { return r.Rename(n, n2) }},
	"RenameTo":  {4, func(r *synthfs.Root, n, n2 string) error { return r.Rename(n2, n) }},
	"Symlink":   {0, func(r *synthfs.Root, n, n2 string) error { return r.Symlink(n2, n) }},
	"Link":      {1, func(r *synthfs.Root, n, n2 string) error { return r.Link(n, n2) }},
	"LinkTo":    {4, func(r *synthfs.Root, n, n2 string) error { return r.Link(n2, n) }},
	"Chmod":     {1, func(r *synthfs.Root, n, _ string) error { return r.Chmod(n, 0o700) }},
	"Chown":     {1, func(r *synthfs.Root, n, _ string) error { return r.Chown(n, 3, 4) }},
	"Lchown":    {2, func(r *synthfs.Root, n, _ string) error { return r.Lchown(n, 3, 4) }},
	"Chtimes":   {1, func(r *synthfs.Root, n, _ string) error { return r.Chtimes(n, time.Unix(5, 0), time.Unix(6, 0)) }},
	"AddFile":   {3, func(r *synthfs.Root, n, _ string) error { return r.AddFile(n, hrView, nil) }},
	"AddFS": {3, func(r *synthfs.Root, n, _ string) error {
		return r.AddFS(n, fstest.MapFS{"q/z": {Data: []byte("z")}}, nil)
	}},
	"OpenRoot": {1, func(r *synthfs.Root, n, _ string) error {
		x, err := r.OpenRoot(n)
		if err == nil {
			x.Mkdir("sub", 0o755)
			if err := x.Mkdir("../sub", 0o755); !errors.Is(err, vroot.ErrPathEscapes) {
				return fmt.Errorf("sub-root left by ..: %v", err)
			}
		}
		return err
	}},
	"Stat":     {1, func(r *synthfs.Root, n, _ string) error { _, err := r.Stat(n); return err }},
	"Lstat":    {2, func(r *synthfs.Root, n, _ string) error { _, err := r.Lstat(n); return err }},
	"ReadLink": {2, func(r *synthfs.Root, n, _ string) error { _, err := r.ReadLink(n); return err }},
}

func TestVerifY02(t *testing.T) {
	s := vfNew()
	type conf struct {
		Nodes  map[string]string
		Base   string
		Op     string
		N1, N2 string
	}
	one := func(c conf) {
		s.limit("op/"+c.Op, c, 10*time.Second, func() {
			s.eval(fmt.Sprintf("%s/%v", c.Op, c.Base != "."), c)
			r := hrBuild(c.Nodes)
			sub := r
			if c.Base != "." {
				x, err := r.OpenRoot(c.Base)
				if err != nil {
					s.fail("openroot", c, "%v", err)
					return
				}
				sub = x
			}
			// lookups answer what the definition says
			for _, follow := range []bool{true, false} {
				p, want := hrWalk(c.Nodes, c.Base, c.N1, follow)
				var fi fs.FileInfo
				var err error
				if follow {
					fi, err = sub.Stat(c.N1)
				} else {
					fi, err = sub.Lstat(c.N1)
				}
				if got := hrKind(err); got != want {
					s.fail("resolve", c, "follow=%v: got %q, want %q", follow, got, want)
					return
				}
				if err == nil {
					w, err := r.Lstat(p)
					if err != nil || w.Mode() != fi.Mode() || p != "." && fi.Name() != path.Base(p) || w.Size() != fi.Size() {
						s.fail("resolve", c, "follow=%v: reached %v %v, want %s (%v)", follow, fi.Name(), fi.Mode(), p, err)
						return
					}
					if fi.Mode().IsRegular() {
						f, err := sub.Open(c.N1)
						if err != nil {
							s.fail("resolve", c, "open: %v", err)
							return
						}
						b, _ := io.ReadAll(f)
						f.Close()
						if string(b) != p {
							s.fail("resolve", c, "opened %q, want %q", b, p)
							return
						}
					}
				}
			}
			// operations stay inside
			o := hrOps[c.Op]
			before := hrSnap(r, c.Base)
			err := o.run(sub, c.N1, c.N2)
			if after := hrSnap(r, c.Base); c.Base != "." && after != before {
				s.fail("outside", c, "changed outside the sub-root:\n%s\nwas\n%s", after, before)
				return
			}
			want := ""
			clean := filepath.Clean(c.N1)
			switch {
			case clean != "." && !filepath.IsLocal(clean):
				want = "escape"
			case o.kind == 1 || o.kind == 2:
				_, want = hrWalk(c.Nodes, c.Base, c.N1, o.kind == 1)
			case o.kind == 0 && clean != ".":
				_, want = hrWalk(c.Nodes, c.Base, path.Dir(clean), true)
			}
			if c.Op == "RemoveAll" && (strings.HasSuffix(c.N1, "/.") || clean == ".") {
				want = ""
			}
			if o.kind == 4 { // the other name may be at fault first
				if want != "" && err == nil {
					s.fail("escape", c, "leads out of the root, yet done")
				}
				want = ""
			}
			if want == "escape" && !errors.Is(err, vroot.ErrPathEscapes) {
				s.fail("escape", c, "leads out of the root, yet: %v", err)
			}
			if want == "loop" && !errors.Is(err, syscall.ELOOP) {
				s.fail("loop", c, "a circle of links, yet: %v", err)
			}
			if want == "missing" && err == nil && c.Op != "RemoveAll" {
				s.fail("missing", c, "no such file, yet done")
			}
		})
	}
	var names []string
	for k := range hrOps {
		names = append(names, k)
	}
	sort.Strings(names)
	base := map[string]string{"d": "d", "d/e": "d", "d/f": "f", "d/e/g": "f", "x": "d", "x/f": "f", "f": "f",
		"d/up": "l..", "d/upf": "l../f", "d/e/upup": "l../../x/f", "d/abs": "l/x", "loop": "lloop", "d/l1": "ll2", "d/l2": "ll1",
		"toe": "ld/e", "d/here": "l.", "d/hf": "lhere/f", "d/e/back": "l../e/../f", "d/dots": "le/./..//e/g", "gone": "lnope/..", "d/thru": "lf/../f"}
	chain := map[string]string{"c41": "f", "d": "d"}
	for i := 0; i < 41; i++ {
		chain[fmt.Sprintf("c%d", i)] = fmt.Sprintf("lc%d", i+1)
	}
	for _, n := range []string{"c0", "c1", "c2", "c40"} {
		for _, op := range []string{"Stat", "Chmod", "OpenRW"} {
			one(conf{chain, ".", op, n, "d/n"})
		}
	}
	for _, op := range names {
		for _, b := range []string{".", "d", "d/e"} {
			for _, n := range []string{"f", "up", "up/f", "upf", "e/upup", "upup", "abs", "abs/f", "..", "../f", "/f", "e/../..", "", ".", "here/f", "hf", "e/back", "back", "dots", "l1", "l1/x", "loop", "thru", "gone", "d/up/f", "d/up/..", "e/new", "up/new", "here/../x", "toe/upup", "toe/g", "f/x", "d/abs/n"} {
				one(conf{base, b, op, n, "m"})
			}
		}
	}
	comps := []string{"a", "b", "c", "..", ".", "l"}
	for s.more() {
		m := map[string]string{}
		dirs := []string{""}
		for i := s.rng.Intn(12) + 1; i > 0; i-- {
			p := vfPick(s, dirs) + vfPick(s, []string{"a", "b", "c", "l", "..a"})
			if m[p] != "" {
				continue
			}
			switch s.rng.Intn(5) {
			case 0:
				m[p] = "f"
			case 1, 2:
				m[p] = "d"
				dirs = append(dirs, p+"/")
			default:
				t := vfPick(s, comps)
				for k := s.rng.Intn(4); k > 0; k-- {
					t += "/" + vfPick(s, comps)
				}
				if s.rng.Intn(12) == 0 {
					t = "/" + t
				}
				m[p] = "l" + t
			}
		}
		name := func() string {
			n := vfPick(s, comps)
			for k := s.rng.Intn(4); k > 0; k-- {
				n += "/" + vfPick(s, comps)
			}
			if s.rng.Intn(15) == 0 {
				n = vfPick(s, []string{"", "/", "/" + n, "../" + n, n + "/../../.."})
			}
			return n
		}
		b := "."
		if len(dirs) > 1 && s.rng.Intn(3) > 0 {
			b = strings.TrimSuffix(dirs[1+s.rng.Intn(len(dirs)-1)], "/")
		}
		one(conf{m, b, vfPick(s, names), name(), name()})
	}
	s.done("lookups through names and links end where the definition says; nothing outside a sub-root changes; escapes and circles are reported")
}
