//overlay: vroot/zz_verif_V01_test.go
//lib: vfs vrec

package vroot_test

import (
	"errors"
	"fmt"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
)

// Replay search for V01: every operation through a prefix view, against a
// recording file system and an independent model of cleaning and joining.
func TestVerifV01(t *testing.T) {
	s := vfNew()
	prefixes := []string{"p", "p/q", "./p", "p/../q", "../up", "/abs/p", ".", "/", "..", "a//b/", "p/.."}
	names := append(append([]string{}, vfNames...), vfBadNames...)
	names = append(names, "...", "..a", "a..", "a/..", "a/../b", "./", "a/.", "//", "a/b/..", "a/./b//c", "x/../../y", "../p/x", "p/../../p", "\x00", "a\\b")
	names = append(names, s.strs...)
	place := func(pfx, n string) (string, bool) {
		c := vfClean(n)
		if !vfLocal(c) {
			return "", false
		}
		switch {
		case c == ".":
			return pfx, true
		case pfx == ".":
			return c, true
		case pfx == "/":
			return "/" + c, true
		}
		return vfClean(pfx + "/" + c), true
	}
	one := func(pfx, op, a, b string, n, m int, fail bool) {
		in := map[string]any{"prefix": pfx, "op": op, "name": a, "newname": b, "flag": n, "mode": m, "backingfails": fail}
		s.guard("panic/"+op, in, func() {
			r := newVfRec()
			v, err := vroot.NewPathPrefixFs[vroot.File](r, pfx)
			if pfx == "" {
				if err == nil {
					s.fail("emptyprefix", in, "an empty prefix was accepted")
				}
				return
			}
			if err != nil {
				s.fail("construct", in, "construction failed: %v", err)
				return
			}
			r.take()
			if fail {
				r.fail = vfSentinel
			}
			out, err := vfCall[vroot.File](v, op, a, b, n, m)
			calls := r.take()
			cp := vfClean(pfx)
			pa, oka := place(cp, a)
			pb, okb := place(cp, b)
			if op == "Symlink" {
				pa, oka = a, true
			}
			two := op == "Link" || op == "Rename" || op == "Symlink"
			s.eval(fmt.Sprint(op, calls, err), in)
			if !oka || two && !okb {
				if !errors.Is(err, vroot.ErrPathEscapes) || len(calls) != 0 || out != "" {
					s.fail("escape/"+op, in, "an escaping name gave %q, %v and the calls %v", out, err, calls)
				}
				return
			}
			if op == "RemoveAll" && vfClean(a) == "." {
				if err == nil || len(calls) != 0 {
					s.fail("rootremoved", in, "removing the view's root gave %v and the calls %v", err, calls)
				}
				return
			}
			want := vfWant(op, pa, pb, n, m)
			if len(calls) != 1 || calls[0] != want {
				s.fail("forward/"+op, in, "calls %v, want [%s]", calls, want)
				return
			}
			r2 := newVfRec()
			r2.fail = r.fail
			wout, werr := vfCall[vroot.File](r2, op, pa, pb, n, m)
			if out != wout || err != werr {
				s.fail("result/"+op, in, "answer %q, %v; the backing file system's is %q, %v", out, err, wout, werr)
			}
		})
	}
	for _, pfx := range prefixes {
		for _, op := range vfAllOps {
			for _, a := range names {
				for _, f := range []bool{false, true} {
					one(pfx, op, a, "x/../n", 0x241, 0o640, f)
					one(pfx, op, "o/./x", a, 0, 0o755, f)
				}
			}
			if !s.more() {
				break
			}
		}
	}
	for s.more() {
		pfx := vfPick(s, prefixes)
		if s.rng.Intn(3) == 0 {
			pfx = vfGenName(s)
		}
		one(pfx, vfPick(s, vfAllOps), vfGenName(s), vfGenName(s), vfPick(s, vfOpenFlags), s.rng.Intn(0o1000), s.rng.Intn(2) == 0)
	}
	s.done("every operation x listed names x listed prefixes, then random names and prefixes; distinct by operation, calls made and error")
}
