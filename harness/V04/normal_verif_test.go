//overlay: vroot/zz_verif_V04_test.go
//lib: vfs vrec

package vroot_test

import (
	"fmt"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
)

// Replay search for V04: every operation through the normalising and localising
// views, against a recording file system and an independent cleaner.
func TestVerifV04(t *testing.T) {
	s := vfNew()
	names := append(append([]string{}, vfNames...), vfBadNames...)
	names = append(names, "...", "..a", "./a", "a/.", "//", ".//a", "././a", "./..", "././../x", "\x00", "a\\b", "./.a", "./..a")
	names = append(names, s.strs...)
	type view struct {
		name string
		mk   func(r *vfRecFs) vroot.Fs[vroot.File]
	}
	views := []view{
		{"normalizer", func(r *vfRecFs) vroot.Fs[vroot.File] { return vroot.NewPathNormalizerFs[vroot.File](r) }},
		{"localizer", func(r *vfRecFs) vroot.Fs[vroot.File] { return vroot.NewPathLocalizerFs[vroot.File](r) }},
		{"normalizerroot", func(r *vfRecFs) vroot.Fs[vroot.File] { return vroot.NewPathNormalizerRoot[vroot.File, *vfRecFs](r) }},
		{"localizerroot", func(r *vfRecFs) vroot.Fs[vroot.File] { return vroot.NewPathLocalizerRoot[vroot.File, *vfRecFs](r) }},
		{"subnormalizer", func(r *vfRecFs) vroot.Fs[vroot.File] {
			x, err := vroot.NewPathNormalizerRoot[vroot.File, *vfRecFs](r).OpenRoot("./s/../t")
			if c := r.take(); err != nil || fmt.Sprint(c) != `[OpenRoot("t")]` {
				s.fail("openroot/normalizer", "./s/../t", "calls %v, error %v", c, err)
			}
			return x
		}},
		{"sublocalizer", func(r *vfRecFs) vroot.Fs[vroot.File] {
			x, err := vroot.NewPathLocalizerRoot[vroot.File, *vfRecFs](r).OpenRoot("./s/../t")
			if c := r.take(); err != nil || fmt.Sprint(c) != `[OpenRoot("t")]` {
				s.fail("openroot/localizer", "./s/../t", "calls %v, error %v", c, err)
			}
			return x
		}},
	}
	one := func(v view, op, a, b string, n, m int, fail bool) {
		in := map[string]any{"view": v.name, "op": op, "name": a, "newname": b, "flag": n, "mode": m, "backingfails": fail}
		s.guard("panic/"+op, in, func() {
			r := newVfRec()
			w := v.mk(r)
			if fail {
				r.fail = vfSentinel
			}
			out, err := vfCall[vroot.File](w, op, a, b, n, m)
			calls := r.take()
			s.eval(fmt.Sprint(v.name, op, calls, err), in)
			pa, pb := vfClean(a), vfClean(b)
			if op == "Symlink" {
				pa = a
			}
			want := vfWant(op, pa, pb, n, m)
			if len(calls) != 1 || calls[0] != want {
				s.fail("forward/"+v.name+"/"+op, in, "calls %v, want [%s]", calls, want)
				return
			}
			r2 := newVfRec()
			r2.fail = r.fail
			wout, werr := vfCall[vroot.File](r2, op, pa, pb, n, m)
			if out != wout || err != werr {
				s.fail("result/"+v.name+"/"+op, in, "answer %q, %v; the backing file system's is %q, %v", out, err, wout, werr)
			}
		})
	}
	for _, v := range views {
		for _, op := range vfAllOps {
			for _, a := range names {
				for _, f := range []bool{false, true} {
					one(v, op, a, "x/../n", 0x241, 0o640, f)
					one(v, op, "o/./x", a, 0, 0o755, f)
				}
			}
		}
		if !s.more() {
			break
		}
	}
	for s.more() {
		one(vfPick(s, views), vfPick(s, vfAllOps), vfGenName(s), vfGenName(s), vfPick(s, vfOpenFlags), s.rng.Intn(0o1000), s.rng.Intn(2) == 0)
	}
	s.done("every operation x listed names x six views, then random names; distinct by view, operation, calls and error")
}
