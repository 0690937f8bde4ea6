//overlay: vroot/zz_verif_V02_test.go
//lib: vfs vrec

package vroot_test

import (
	"os"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
)

// Bounded stand-in and replay search for V02: operations through read-only
// views of a real directory leave it byte-for-byte as it was, reads agree with
// the wrapped file system, writes report failure.
func TestVerifV02(t *testing.T) {
	s := vfNew()
	base := t.TempDir()
	dir := base + "/root"
	vfTree(dir)
	rr, err := osfs.NewRoot(dir)
	if err != nil {
		t.Fatal(err)
	}
	uu, err := osfs.NewFs(dir)
	if err != nil {
		t.Fatal(err)
	}
	roFs := vroot.NewReadOnlyFs[*osfs.File](uu)
	roFs2 := vroot.NewReadOnlyFs[*osfs.File](rr)
	roRoot := vroot.NewReadOnlyRoot[*osfs.File, *osfs.Root](rr)
	sub, err := roRoot.OpenRoot("a")
	if err != nil {
		s.fail("openroot", "a", "OpenRoot through a read-only root failed: %v", err)
		s.done("")
		return
	}
	if _, err := roRoot.OpenRoot("missing"); err == nil {
		s.fail("openroot-missing", "missing", "OpenRoot of a missing directory succeeded")
	}
	innerSub, _ := rr.OpenRoot("a")
	before := vfSnap(dir)
	views := []struct {
		name  string
		view  func(o vfOp) string
		inner func(o vfOp) string
	}{
		{"ReadOnlyFs(osfs.Fs)", func(o vfOp) string { return vfRun[*vroot.ReadOnlyFile](roFs, o, true) }, func(o vfOp) string { return vfRun[*osfs.File](uu, o, false) }},
		{"ReadOnlyFs(osfs.Root)", func(o vfOp) string { return vfRun[*vroot.ReadOnlyFile](roFs2, o, true) }, func(o vfOp) string { return vfRun[*osfs.File](rr, o, false) }},
		{"ReadOnlyRoot", func(o vfOp) string { return vfRun[*vroot.ReadOnlyFile](roRoot, o, true) }, func(o vfOp) string { return vfRun[*osfs.File](rr, o, false) }},
		{"ReadOnlyRoot.OpenRoot", func(o vfOp) string { return vfRun[*vroot.ReadOnlyFile](sub, o, true) }, func(o vfOp) string { return vfRun[*osfs.File](innerSub, o, false) }},
	}
	strip := func(r string) string {
		// handle descriptions: drop the mutation outcomes
		var out []string
		for _, p := range strings.Split(r, ";") {
			if strings.HasPrefix(p, "write") || strings.HasPrefix(p, "chmod") || strings.HasPrefix(p, "trunc") {
				continue
			}
			out = append(out, p)
		}
		return strings.Join(out, ";")
	}
	// a failing wrapped file system never yields a handle, and every call that is
	// passed on arrives unchanged
	for _, op := range []string{"Open", "OpenFile", "Lstat", "Stat", "ReadLink"} {
		for _, fail := range []bool{false, true} {
			for _, n := range append(append([]string{}, vfNames...), vfBadNames...) {
				for i, mk := range []func(r *vfRecFs) vroot.Fs[*vroot.ReadOnlyFile]{
					func(r *vfRecFs) vroot.Fs[*vroot.ReadOnlyFile] { return vroot.NewReadOnlyFs[vroot.File](r) },
					func(r *vfRecFs) vroot.Fs[*vroot.ReadOnlyFile] { return vroot.NewReadOnlyRoot[vroot.File, *vfRecFs](r) },
				} {
					in := map[string]any{"view": i, "op": op, "name": n, "wrappedfails": fail}
					s.guard("panic/"+op, in, func() {
						r := newVfRec()
						if fail {
							r.fail = vfSentinel
						}
						out, err := vfCall[*vroot.ReadOnlyFile](mk(r), op, n, "", os.O_SYNC, 0o600)
						c := r.take()
						r2 := newVfRec()
						r2.fail = r.fail
						wout, werr := vfCall[vroot.File](r2, op, n, "", os.O_SYNC, 0o600)
						if w := r2.take(); out != wout || err != werr || strings.Join(c, ";") != strings.Join(w, ";") {
							s.fail("forward/"+op, in, "answer %q, %v with calls %v; the wrapped one's is %q, %v with %v", out, err, c, wout, werr, w)
						}
						s.eval("fwd"+op+out, in)
					})
				}
			}
		}
	}
	names := append(append([]string{}, vfNames...), vfBadNames...)
	names = append(names, s.strs...)
	one := func(i int, o vfOp) bool {
		v := views[i]
		in := map[string]any{"view": v.name, "op": o.String()}
		ok := true
		s.guard("panic/"+v.name+"/"+o.Op, in, func() {
			r := v.view(o)
			s.eval(v.name+o.Op+r, in)
			mut := o.Op != "Open" && !strings.HasPrefix(o.Op, "Read") && o.Op != "Stat" && o.Op != "Lstat"
			wf := o.N&(os.O_WRONLY|os.O_RDWR|os.O_APPEND|os.O_CREATE|os.O_TRUNC) != 0
			if o.Op == "OpenFile" && !wf {
				mut = false
			}
			if mut {
				if r != "rofs" {
					s.fail("notrefused/"+o.Op, in, "outcome %q, want a read-only error", r)
					ok = false
				}
			} else if o.Op != "OpenFile" || wf == false {
				for _, p := range []string{"write=0,perm", "writestring=0,perm", "chmod=perm", "trunc=perm", "writeat=0,false"} {
					if strings.Contains(r, "write=") && !strings.Contains(r, p) {
						s.fail("handlewrite/"+p[:5], in, "a handle of a read-only view answered %q", r)
						ok = false
					}
				}
				if w := v.inner(o); strip(r) != strip(w) {
					s.fail("readdiffers/"+o.Op, in, "view %q, wrapped %q", r, w)
					ok = false
				}
			}
			if d := vfDiff(before, vfSnap(dir)); d != "" {
				s.fail("mutated/"+o.Op, in, "%s", d)
				ok = false
			}
		})
		return ok
	}
	for i := range views {
		for _, op := range append(append([]string{}, vfMutOps...), vfReadOps...) {
			for _, n := range names {
				if op == "OpenFile" {
					for _, fl := range vfFlags {
						if !one(i, vfOp{Op: op, A: n, N: fl, Data: "data"}) {
							break
						}
					}
					continue
				}
				if !one(i, vfOp{Op: op, A: n, B: "target", N: 0o640, Data: "data"}) {
					break
				}
			}
			if !s.more() {
				break
			}
		}
	}
	for s.more() {
		i := s.rng.Intn(len(views))
		o := vfRandOp(s, append(append([]string{}, vfMutOps...), vfReadOps...), names)
		if o.Op == "OpenFile" {
			o.N = s.rng.Intn(1 << 13)
			o.N |= vfPick(s, vfFlags)
			o.N &= os.O_WRONLY | os.O_RDWR | os.O_APPEND | os.O_CREATE | os.O_TRUNC | os.O_EXCL | os.O_SYNC
		}
		if !one(i, o) {
			break
		}
	}
	s.done("every operation x name x open flag over four read-only views of a real directory, then random ones; distinct by view, operation and outcome")
}
