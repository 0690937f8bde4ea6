//overlay: vroot/synthfs/zz_verif_Y01_test.go

package synthfs_test

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"testing"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
)

// tn is a node of the model: what the tree is expected to be.
type tn struct {
	kind byte // 'd', 'f' or 'l'
	kids map[string]*tn
	text string // content of a file, target of a link
}

type tstep struct {
	Op, A, B string
	K        int
	Sub      bool
}

type tcase struct {
	Sub   string
	Steps []tstep
}

func tdir() *tn { return &tn{kind: 'd', kids: map[string]*tn{}} }

func (n *tn) String() string {
	switch n.kind {
	case 'f', 'l':
		return string(n.kind) + n.text
	}
	var names []string
	for k := range n.kids {
		names = append(names, k)
	}
	sort.Strings(names)
	s := "{"
	for _, k := range names {
		s += k + ":" + n.kids[k].String() + " "
	}
	return s + "}"
}

func (n *tn) clone() *tn {
	c := *n
	if n.kids != nil {
		c.kids = map[string]*tn{}
		for k, v := range n.kids {
			c.kids[k] = v.clone()
		}
	}
	return &c
}

// at finds name below n without passing links.
func (n *tn) at(name string) *tn {
	if name == "." {
		return n
	}
	for _, c := range strings.Split(name, "/") {
		if n == nil || n.kind != 'd' {
			return nil
		}
		n = n.kids[c]
	}
	return n
}

// links tells whether name passes a link, the last component counting when last is set.
func (n *tn) links(name string, last bool) bool {
	for p := name; p != "."; p = path.Dir(p) {
		if (p != name || last) && n.at(p) != nil && n.at(p).kind == 'l' {
			return true
		}
	}
	return false
}

func (n *tn) holds(x *tn) bool {
	if n == x {
		return true
	}
	for _, k := range n.kids {
		if k.holds(x) {
			return true
		}
	}
	return false
}

// tsee reads the tree below name: what is listed, and that lookups agree with it.
func tsee(r *synthfs.Root, name string, depth int) (*tn, error) {
	if depth > 30 {
		return nil, fmt.Errorf("%s: endless tree", name)
	}
	f, err := r.Open(name)
	if err != nil {
		return nil, fmt.Errorf("open %s: %w", name, err)
	}
	des, err := f.ReadDir(-1)
	f.Close()
	if err != nil {
		return nil, fmt.Errorf("list %s: %w", name, err)
	}
	d := tdir()
	for _, de := range des {
		if d.kids[de.Name()] != nil {
			return nil, fmt.Errorf("%s: %q listed twice", name, de.Name())
		}
		p := path.Join(name, de.Name())
		fi, err := r.Lstat(p)
		if err != nil {
			return nil, fmt.Errorf("%s listed, but %w", p, err)
		}
		if fi.Name() != de.Name() || fi.Mode().Type() != de.Type() {
			return nil, fmt.Errorf("%s: listed as %s %v, found as %s %v", p, de.Name(), de.Type(), fi.Name(), fi.Mode())
		}
		var k *tn
		switch fi.Mode().Type() {
		case fs.ModeDir:
			if k, err = tsee(r, p, depth+1); err != nil {
				return nil, err
			}
		case fs.ModeSymlink:
			t, err := r.ReadLink(p)
			if err != nil {
				return nil, err
			}
			k = &tn{kind: 'l', text: t}
		default:
			f, err := r.Open(p)
			if err != nil {
				return nil, err
			}
			b, err := io.ReadAll(f)
			f.Close()
			if err != nil {
				return nil, err
			}
			k = &tn{kind: 'f', text: string(b)}
		}
		d.kids[de.Name()] = k
	}
	for _, n := range []string{"a", "b", "c", "d"} {
		if _, err := r.Lstat(path.Join(name, n)); d.kids[n] == nil && !errors.Is(err, fs.ErrNotExist) {
			return nil, fmt.Errorf("%s/%s found (%v), but not listed", name, n, err)
		}
	}
	return d, nil
}

var terr = errors.New("injected failure")

type tfail struct{ synthfs.FileView }

func (tfail) Open(int) (vroot.File, error) { return nil, terr }

type talloc struct {
	synthfs.FileViewAllocator
	mode *int
}

func (a talloc) Allocate(n string, p fs.FileMode) (synthfs.FileView, error) {
	m := *a.mode
	*a.mode = 0
	if m == 1 {
		return nil, terr
	}
	v, err := a.FileViewAllocator.Allocate(n, p)
	if m == 2 && err == nil {
		return tfail{v}, nil
	}
	return v, err
}

func TestVerifY01(t *testing.T) {
	s := vfNew()
	run := func(c tcase) {
		s.eval("history", c)
		s.guard("history", c, func() {
			mode := 0
			top := synthfs.NewRoot("t", &synthfs.Option{Allocator: talloc{synthfs.NewMemAllocator(nil), &mode}})
			mtop := tdir()
			sub, msub := top, mtop
			id := 0
			for i, st := range c.Steps {
				r, m := top, mtop
				if st.Sub {
					r, m = sub, msub
				}
				id++
				text := fmt.Sprint("#", id)
				before := mtop.String()
				subBefore := msub.String()
				da, ba := path.Dir(st.A), path.Base(st.A)
				db, bb := path.Dir(st.B), path.Base(st.B)
				pa, pb := m.at(da), m.at(db)
				na, nb := m.at(st.A), m.at(st.B)
				if m.links(st.A, false) || m.links(st.B, false) {
					continue // names through links: Y02
				}
				okDir := func(n *tn) bool { return n != nil && n.kind == 'd' }
				var err error
				must := 0 // 1: has to succeed, 2: has to fail
				apply := func() {}
				resync := false
				switch st.Op {
				case "mkdir":
					err = r.Mkdir(st.A, 0o755)
					must = 2
					if okDir(pa) && na == nil {
						must, apply = 1, func() { pa.kids[ba] = tdir() }
					}
				case "mkdirall":
					if m.links(st.A, true) {
						continue
					}
					err = r.MkdirAll(st.A, 0o755)
					must = 1
					d := m
					for _, n := range strings.Split(st.A, "/") { // what leads there is made even if the rest fails
						k := d.kids[n]
						if k == nil {
							k = tdir()
							d.kids[n] = k
						}
						if k.kind != 'd' {
							must = 2
							break
						}
						d = k
					}
					if err != nil {
						before, subBefore = mtop.String(), msub.String()
					}
				case "symlink":
					err = r.Symlink("gone"+text, st.A)
					must = 2
					if okDir(pa) && na == nil {
						must, apply = 1, func() { pa.kids[ba] = &tn{kind: 'l', text: "gone" + text} }
					}
				case "link":
					if m.links(st.A, true) {
						continue
					}
					err = r.Link(st.A, st.B)
					must = 2
					if na != nil && na.kind == 'f' && okDir(pb) && nb == nil {
						must, apply = 1, func() { pb.kids[bb] = &tn{kind: 'f', text: na.text} }
					}
				case "remove":
					err = r.Remove(st.A)
					must = 2
					if na != nil && (na.kind != 'd' || len(na.kids) == 0) {
						must, apply = 1, func() { delete(pa.kids, ba) }
					}
				case "removeall":
					err = r.RemoveAll(st.A)
					if okDir(pa) {
						must = 1
						apply = func() {
							var empty func(n *tn)
							empty = func(n *tn) {
								for k, v := range n.kids {
									empty(v)
									delete(n.kids, k)
								}
							}
							if na != nil {
								empty(na)
							}
							delete(pa.kids, ba)
						}
					}
				case "rename":
					err = r.Rename(st.A, st.B)
					switch {
					case na == nil || !okDir(pb):
						must = 2
					case na == nb:
						must = 1
					case na.kind == 'd' && na.holds(pb):
						must = 2
					case nb != nil && nb.kind == 'd' && len(nb.kids) > 0:
						must = 2
					default:
						if nb == nil || na.kind != 'd' && nb.kind != 'd' {
							must = 1
						}
						apply = func() { delete(pa.kids, ba); pb.kids[bb] = na }
					}
				case "create":
					flag := []int{os.O_CREATE | os.O_RDWR, os.O_CREATE | os.O_RDWR | os.O_EXCL, os.O_RDWR, os.O_CREATE | os.O_RDWR}[st.K%4]
					if m.links(st.A, true) && flag&os.O_EXCL == 0 {
						continue
					}
					if st.K >= 4 {
						mode = st.K%2 + 1
					}
					injected := mode != 0
					f, e := r.OpenFile(st.A, flag, 0o644)
					injected = injected && mode == 0
					mode = 0
					err = e
					switch {
					case na == nil && (flag&os.O_CREATE == 0 || !okDir(pa) || injected):
						must = 2
					case na == nil:
						must, apply = 1, func() { pa.kids[ba] = &tn{kind: 'f', text: text} }
					case flag&os.O_EXCL != 0 || na.kind == 'd':
						must = 2
					}
					if e == nil {
						if na == nil {
							io.WriteString(f, text)
						}
						f.Close()
					}
				case "addfile":
					cb := []synthfs.AddFunc{nil, synthfs.MergeKeep, synthfs.FailOnConflict}[st.K%3]
					err = r.AddFile(st.A, synthfs.NewBytesView([]byte(text), 0o644, time.Unix(1, 0)), cb)
					blocked := false
					for p := da; p != "."; p = path.Dir(p) {
						blocked = blocked || m.at(p) != nil && m.at(p).kind != 'd'
					}
					switch {
					case blocked || na != nil && st.K%3 == 2:
						must, resync = 2, true
					default:
						must, apply = 1, func() {
							d := m
							if da != "." {
								for _, n := range strings.Split(da, "/") {
									if d.kids[n] == nil {
										d.kids[n] = tdir()
									}
									d = d.kids[n]
								}
							}
							if na == nil || st.K%3 == 0 {
								d.kids[ba] = &tn{kind: 'f', text: text}
							}
						}
					}
				case "addfs":
					src := fstest.MapFS{"a/b": {Data: []byte(text + "x")}, "b": {Data: []byte(text + "y")}, "c": {Mode: fs.ModeDir | 0o755}, "a/d/a": {Data: []byte(text + "z")}}
					cb := []synthfs.AddFunc{nil, synthfs.MergeKeep, synthfs.FailOnConflict, func(in, ex synthfs.AddEntry) (synthfs.AddDecision, error) {
						return synthfs.AddDecisionOverride, nil
					}, func(in, ex synthfs.AddEntry) (synthfs.AddDecision, error) {
						if path.Base(in.Path()) == "b" {
							return 0, terr
						}
						return synthfs.MergeOverwrite(in, ex)
					}}[st.K%5]
					err = r.AddFS(st.A, src, cb)
					resync = true
					must = 0
					if st.K%5 == 0 && err == nil {
						want := map[string]string{"a/b": "x", "b": "y", "a/d/a": "z"}
						for n, x := range want {
							f, err := r.Open(path.Join(st.A, n))
							if err != nil {
								s.fail("addfs", c, "step %d: %s added, but %v", i, path.Join(st.A, n), err)
								return
							}
							b, _ := io.ReadAll(f)
							f.Close()
							if string(b) != text+x {
								s.fail("addfs", c, "step %d: %s is %q, want %q", i, path.Join(st.A, n), b, text+x)
								return
							}
						}
					}
				case "sub":
					if m.links(st.A, true) {
						continue
					}
					var x *synthfs.Root
					x, err = r.OpenRoot(st.A)
					must = 2
					if okDir(na) {
						must, apply = 1, func() { sub, msub = x, na }
					}
					if x == nil && err == nil {
						s.fail("root", c, "step %d: no root, no error", i)
						return
					}
				}
				if err == nil && must == 2 {
					s.fail("done", c, "step %d %+v: done, though it cannot be; tree was %s", i, st, before)
					return
				}
				if err != nil && must == 1 {
					s.fail("refused", c, "step %d %+v: %v; tree was %s", i, st, err, before)
					return
				}
				if err == nil {
					apply()
				}
				got, e := tsee(top, ".", 0)
				if e != nil {
					s.fail("tree", c, "after step %d %+v: %v", i, st, e)
					return
				}
				gsub, e := tsee(sub, ".", 0)
				if e != nil {
					s.fail("tree", c, "after step %d %+v, in the sub-root: %v", i, st, e)
					return
				}
				if resync && (err != nil || st.Op == "addfs") {
					// what a failed or merged-in tree leaves is only required to be a tree
					mtop.sync(got)
					sub, msub, gsub = top, mtop, got
				} else if err != nil && (got.String() != before || gsub.String() != subBefore) {
					s.fail("atomic", c, "step %d %+v failed (%v), yet the tree changed:\n%s\nwas\n%s", i, st, err, got, before)
					return
				}
				if got.String() != mtop.String() {
					s.fail("effect", c, "after step %d %+v (%v):\n%s\nwant\n%s\nwas\n%s", i, st, err, got, mtop, before)
					return
				}
				if gsub.String() != msub.String() {
					s.fail("effect", c, "after step %d %+v (%v), in the sub-root:\n%s\nwant\n%s", i, st, err, gsub, msub)
					return
				}
			}
		})
	}
	add := func(a ...string) (r []tstep) {
		for _, x := range a {
			f := strings.Fields(x)
			st := tstep{Op: f[0], A: f[1], B: "."}
			if len(f) > 2 {
				fmt.Sscan(f[2], &st.K)
				st.B = f[2]
				if st.B[0] >= '0' && st.B[0] <= '9' {
					st.B = "."
				}
			}
			r = append(r, st)
		}
		return r
	}
	base := []string{"mkdir a", "mkdir a/b", "mkdir a/b/c", "create a/f 0", "create f 0", "symlink a/l", "mkdir d", "create a/b/f 0", "link f g"}
	for _, x := range []string{"rename a a/b", "rename a a/x", "rename a a/b/x", "rename a a/b/c/x", "rename a a", "rename a/f a/f", "rename f g", "rename f a/f", "rename f d", "rename d f", "rename a/b d",
		"rename d a/b", "rename d d/x", "rename a/l l", "rename a/l f", "rename a/b/c c", "rename a/b b", "remove a", "remove d", "remove a/l", "remove a/f", "remove x", "removeall a", "removeall a/b", "removeall x", "removeall f",
		"link f a/g", "link a g2", "link x y", "link f a/f", "mkdir a", "mkdir x/y", "mkdir f/x", "mkdirall x/y/z", "mkdirall a/b/c/a", "mkdirall f/x", "mkdirall x/y", "create x 4", "create x 5", "create x/y 0", "create a 0", "create a/f 1",
		"addfile p/q/r 0", "addfile a/f 0", "addfile a/f 1", "addfile a/f 2", "addfile a 0", "addfile a 1", "addfile f/x 0", "addfs . 0", "addfs a 0", "addfs f 0", "addfs a 1", "addfs a 2", "addfs a 3", "addfs p/q 0", "addfs a 4", "addfs . 4"} {
		for _, y := range []string{"removeall a", "rename a n", "rename a/b m", "mkdirall a/b/x", "addfs a 3"} {
			run(tcase{"", append(append(add(base...), add("sub a/b")...), add(x, y)...)})
		}
	}
	ops := []string{"mkdir", "mkdir", "mkdir", "mkdirall", "symlink", "link", "remove", "removeall", "rename", "rename", "rename", "rename", "create", "create", "addfile", "addfs", "sub"}
	name := func() string {
		n := vfPick(s, []string{"a", "b", "c", "d"})
		for s.rng.Intn(5) > 1 && len(n) < 9 {
			n += "/" + vfPick(s, []string{"a", "b", "c", "d"})
		}
		return n
	}
	for s.more() {
		var c tcase
		for i := s.rng.Intn(25) + 2; i > 0; i-- {
			st := tstep{Op: vfPick(s, ops), A: name(), B: name(), K: s.rng.Intn(8), Sub: s.rng.Intn(4) == 0}
			if st.Op == "rename" && s.rng.Intn(4) == 0 {
				st.B = st.A + "/" + vfPick(s, []string{"a", "b", "a/b"})
			}
			if st.Op != "rename" && st.Op != "link" {
				st.B = "."
			}
			if len(c.Steps) < 4 {
				st.Op = vfPick(s, []string{"mkdir", "mkdirall", "create", "addfs"})
			}
			c.Steps = append(c.Steps, st)
		}
		run(c)
	}
	s.done("after every step the tree is what an independent model says; listing and lookups agree; a failed step changes nothing")
}

// sync makes n say what was seen, keeping the nodes that are still there.
func (n *tn) sync(g *tn) {
	n.kind, n.text = g.kind, g.text
	if g.kids == nil {
		n.kids = nil
		return
	}
	if n.kids == nil {
		n.kids = map[string]*tn{}
	}
	for k := range n.kids {
		if g.kids[k] == nil {
			delete(n.kids, k)
		}
	}
	for k, v := range g.kids {
		if n.kids[k] == nil || n.kids[k].kind != v.kind {
			n.kids[k] = &tn{}
		}
		n.kids[k].sync(v)
	}
}
