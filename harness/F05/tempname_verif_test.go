//overlay: fsutil/zz_verif_F05_test.go
//lib: vmem

package fsutil_test

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/fsutil"
)

// Replay search for F05: temporary names over an in-memory file system whose
// exclusive creations collide or fail at will.
func TestVerifF05(t *testing.T) {
	s := vfNew()
	digits := func(x string) bool {
		for i := 0; i < len(x); i++ {
			if x[i] < '0' || x[i] > '9' {
				return false
			}
		}
		return true
	}
	recR := func(p string) bool {
		b := filepath.Base(p)
		return len(b) >= 16 && strings.HasSuffix(b, ".tmp") && digits(b[len(b)-14:len(b)-4]) && b[len(b)-15] == '.'
	}
	recD := func(p string) bool {
		b := filepath.Base(p)
		return len(b) == 14 && strings.HasSuffix(b, ".tmp") && digits(b[:10])
	}
	under := func(d, p string) bool {
		d, p = filepath.Clean(d), filepath.Clean(p)
		if d == "." {
			return filepath.IsLocal(p)
		}
		if !strings.HasSuffix(d, "/") {
			return p == d || strings.HasPrefix(p, d+"/")
		}
		return strings.HasPrefix(p, d)
	}
	type conf struct {
		Kind, Policy, TempDir, Target, Pattern string
		Collide                                int // the first N creations collide
		Fail                                   int // then the creation fails
		NoOpen                                 bool
	}
	collided := map[string]bool{}
	one := func(c conf) {
		key := c.Kind + "/" + c.Policy
		s.guard(key, c, func() {
			m := newVm()
			for _, d := range []string{"d", "d/e", "tmp", "/", "/abs", "..", "../up", filepath.Dir(filepath.Clean(c.Target))} {
				m.put(d, &vmNode{dir: true})
			}
			m.file("d/keep", "keep")
			var bad []string
			n, created := 0, ""
			removed := ""
			m.watch = func(op, a, b string) {
				switch op {
				case "OpenFile", "Mkdir":
					if op == "OpenFile" {
						var flag int
						fmt.Sscanf(b, "0x%x", &flag)
						if flag&os.O_CREATE == 0 {
							if a != created {
								bad = append(bad, "opened "+a+", created "+created)
							}
							if c.NoOpen {
								m.fail[m.step] = true
							}
							return
						}
						if flag&os.O_EXCL == 0 || flag&os.O_TRUNC != 0 {
							bad = append(bad, fmt.Sprintf("creation of %q with flags %#x", a, flag))
						}
					} else if !strings.HasPrefix(c.Kind, "mkdir") && m.nodes[vmNm(a)] != nil {
						return // the policy's own directory
					} else if vmNm(a) == vmNm(c.TempDir) {
						return
					}
					n++
					created = a
					if n <= c.Collide {
						m.file(a, "EXISTING")
						collided[a] = true
					} else if c.Fail > 0 && n == c.Collide+1 {
						m.fail[m.step] = true
					}
				case "RemoveAll", "Remove":
					removed = a
				}
			}
			var f *vmFile
			var dir string
			var err error
			var policy fsutil.TempFilePolicy[*vmFs, *vmFile]
			switch c.Policy {
			case "random":
				policy = fsutil.NewTempFilePolicyRandom[*vmFs, *vmFile]()
			case "dir":
				policy = fsutil.NewTempFilePolicyDir[*vmFs, *vmFile](c.TempDir)
			}
			switch c.Kind {
			case "create":
				f, dir, err = policy.Create(m, c.Target, 0o600)
			case "mkdir":
				f, dir, err = policy.Mkdir(m, c.Target, 0o700)
			case "openrandom":
				f, err = fsutil.OpenFileRandom(m, "d", c.Pattern, 0o600)
			case "mkdirrandom":
				f, err = fsutil.MkdirRandom(m, "d", c.Pattern, 0o700)
			}
			for _, b := range bad {
				s.fail(key+"/flags", c, "%s\n%.800s", b, strings.Join(m.trace, "\n"))
			}
			for name, x := range m.nodes {
				if string(x.data) == "EXISTING" {
					delete(collided, name)
				}
			}
			for name := range collided {
				s.fail(key+"/existing", c, "existing file %q was opened or replaced", name)
				delete(collided, name)
			}
			if strings.HasPrefix(c.Kind, "openr") || strings.HasPrefix(c.Kind, "mkdirr") {
				if strings.Contains(c.Pattern, "/") {
					if !errors.Is(err, fsutil.ErrBadPattern) || n > 0 {
						s.fail(key+"/badpattern", c, "err %v after %d creations", err, n)
					}
					return
				}
			}
			switch {
			case n > 10000:
				s.fail(key+"/bound", c, "%d creations", n)
			case c.Collide >= 10000:
				if n != 10000 || !errors.Is(err, fsutil.ErrMaxRetry) {
					s.fail(key+"/giveup", c, "%d creations, err %v", n, err)
				}
			case c.Fail > 0:
				if n != c.Collide+1 || !errors.Is(err, vmErr) {
					s.fail(key+"/failure", c, "%d creations, err %v", n, err)
				}
			case c.NoOpen && strings.HasPrefix(c.Kind, "mkdir"):
				if err == nil || removed != created || m.nodes[vmNm(created)] != nil {
					s.fail(key+"/leftover", c, "err %v, created %q, removed %q", err, created, removed)
				}
			case err != nil:
				s.fail(key+"/error", c, "unexpected error %v\n%.800s", err, strings.Join(m.trace, "\n"))
			case n != c.Collide+1 || f == nil || f.name != created:
				s.fail(key+"/handle", c, "%d creations, file %+v, created %q", n, f, created)
			}
			if err != nil || policy == nil {
				return
			}
			want := filepath.Dir(filepath.Clean(c.Target))
			if c.Policy == "dir" {
				want = filepath.Clean(c.TempDir)
			}
			if dir != want || filepath.Join(dir, filepath.Base(f.name)) != filepath.Clean(f.name) {
				s.fail(key+"/dir", c, "file %q in directory %q, want %q", f.name, dir, want)
			}
			if !policy.Match(f.name) {
				s.fail(key+"/unrecognised", c, "%q is not matched by its policy", f.name)
			}
			if b := filepath.Base(f.name); len(b) > 255 {
				s.fail(key+"/toolong", c, "name of %d bytes", len(b))
			}
			// Cleaning up removes it and nothing else.
			m.watch = nil
			f.Close()
			mine := filepath.Clean(f.name)
			other := m.snap(mine)
			var names []string
			for k := range m.nodes {
				names = append(names, k)
			}
			for _, k := range names {
				x := m.nodes[k]
				if x == nil || k == "." || k == "/" || k == ".." {
					continue
				}
				mt := policy.Match(k)
				werr := policy.WalkFunc(m, k, fs.FileInfoToDirEntry(vmInfo{k, *x}), nil)
				if werr != nil && !(errors.Is(werr, fs.SkipDir) && x.dir && (mt || !strings.HasPrefix(mine, k+"/"))) {
					s.fail(key+"/walkerr", c, "walk of %q: %v", k, werr)
				}
				if (m.nodes[k] == nil) != (mt && !(c.Policy == "dir" && k == filepath.Clean(c.TempDir))) {
					s.fail(key+"/walk", c, "walk of %q: matched %v, removed %v", k, mt, m.nodes[k] == nil)
				}
			}
			if m.nodes[mine] != nil {
				s.fail(key+"/leftover", c, "%q left after cleanup", mine)
			}
			if c.Collide == 0 && m.snap(mine) != other {
				s.fail(key+"/walkother", c, "cleanup changed other entries:\n%s\nwas\n%s", m.snap(mine), other)
			}
		})
		s.eval(fmt.Sprintf("%+v", c), c)
	}
	targets := []string{"a", "d/a", "d/e/./b", "./x", "d/../y", "d/*", "**", "*.tmp", ".0123456789.tmp", "0123456789.tmp", "..data", "d/" + strings.Repeat("n", 250), strings.Repeat("é", 130), strings.Repeat("\xff", 241), strings.Repeat("x", 240), strings.Repeat("x", 239) + "é", strings.Repeat("x", 238) + "\xe3\x81", "a b", "\xffz", "d/%s", "/abs/f"}
	tempdirs := []string{"tmp", ".", "/", "./tmp", "d/e", "/abs", "tmp/", "d//e", "../up", "fresh", "..data"}
	patterns := []string{"", "*", "a", "a*b", "a*b*c", "*.tmp", "x/y", "/", "a*/", "日*本", "é"}
	targets = append(targets, s.strs...)
	for _, x := range s.strs {
		if x != "" {
			tempdirs = append(tempdirs, x)
		}
	}
	patterns = append(patterns, s.strs...)
	ok := func(c conf) bool {
		if strings.ContainsRune(c.Target+c.Pattern+c.TempDir, 0) {
			return false
		}
		if c.Kind == "create" || c.Kind == "mkdir" {
			cl := filepath.Clean(c.Target)
			return cl != "." && cl != "/" && filepath.Base(cl) != ".."
		}
		return true
	}
	run := func(c conf) {
		if ok(c) {
			one(c)
		}
	}
	for _, col := range []int{0, 1, 3} {
		for fail := 0; fail < 3; fail++ {
			for _, k := range []string{"create", "mkdir"} {
				for _, tg := range targets {
					run(conf{Kind: k, Policy: "random", Target: tg, Collide: col, Fail: fail & 1, NoOpen: fail == 2})
					for _, td := range tempdirs {
						run(conf{Kind: k, Policy: "dir", Target: tg, TempDir: td, Collide: col, Fail: fail & 1, NoOpen: fail == 2})
					}
				}
			}
			for _, k := range []string{"openrandom", "mkdirrandom"} {
				for _, p := range patterns {
					run(conf{Kind: k, Policy: "none", Pattern: p, Collide: col, Fail: fail & 1, NoOpen: fail == 2})
				}
			}
		}
	}
	for _, k := range []string{"openrandom", "mkdirrandom"} {
		for _, col := range []int{9999, 10000, 12000} {
			run(conf{Kind: k, Policy: "none", Pattern: "p*", Collide: col})
		}
	}
	// recognition against an independent definition
	piece := []string{".", "0123456789", "1", "tmp", ".tmp", "/", "a", "tmp/", "..", "é", "\xff", "99999999999", "000000000x", "０１２３４５６７８９", "*", "../", "*.tmp", "٠"}
	rp := fsutil.NewTempFilePolicyRandom[*vmFs, *vmFile]()
	match := func(p, td string) {
		s.guard("match", []string{p, td}, func() {
			if rp.Match(p) != recR(p) {
				s.fail("match/random", p, "Match %v", rp.Match(p))
			}
			dp := fsutil.NewTempFilePolicyDir[*vmFs, *vmFile](td)
			if want := recD(p) && under(td, p); dp.Match(p) != want {
				s.fail("match/dir", []string{p, td}, "Match %v", dp.Match(p))
			}
			s.eval("match"+p+"|"+td, p)
			// walking an entry removes it exactly if it is recognised
			for i, pol := range []fsutil.TempFilePolicy[*vmFs, *vmFile]{rp, dp} {
				m := newVm()
				got := 0
				m.watch = func(op, a, b string) {
					if op != "RemoveAll" || a != p {
						s.fail("walk/other", []string{p, td}, "%s(%s)", op, a)
					}
					got++
				}
				if err := pol.WalkFunc(m, p, fs.FileInfoToDirEntry(vmInfo{p, vmNode{}}), vmErr); got != 0 || err == nil {
					s.fail("walk/error", p, "removal of an entry reported with an error")
				}
				pol.WalkFunc(m, p, fs.FileInfoToDirEntry(vmInfo{p, vmNode{}}), nil)
				if (got > 0) != (pol.Match(p) && !(i == 1 && filepath.Clean(p) == filepath.Clean(td))) {
					s.fail(fmt.Sprint("walk/match", i), []string{p, td}, "%d removals", got)
				}
			}
		})
	}
	for _, x := range s.strs {
		for _, td := range tempdirs {
			match(x, td)
		}
	}
	for s.more() {
		var p string
		switch s.rng.Intn(3) {
		case 0:
			for i := 0; i < 1+s.rng.Intn(5); i++ {
				p += vfPick(s, piece)
			}
		case 1:
			p = fmt.Sprintf("%s/%010d.tmp", vfPick(s, tempdirs), s.rng.Uint32())
		case 2:
			p = fmt.Sprintf("%s/%s.%010d.tmp", vfPick(s, tempdirs), vfPick(s, piece), s.rng.Uint32())
		}
		match(p, vfPick(s, tempdirs))
		if s.rng.Intn(10) == 0 {
			run(conf{Kind: vfPick(s, []string{"create", "mkdir"}), Policy: vfPick(s, []string{"random", "dir"}), TempDir: vfPick(s, tempdirs), Target: vfPick(s, piece) + vfPick(s, piece) + vfPick(s, targets), Collide: s.rng.Intn(3)})
		}
	}
	s.done("creations with collisions and failures for listed targets, directories and patterns; recognition of random paths against an independent definition")
}
