//overlay: tarfs/zzverif/t01_test.go

package tarfs_test

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/tarfs"
)

// tcEntry describes one entry of an archive that is put together byte by byte.
type tcEntry struct {
	Kind string // plain, regA, cont, other, dir, symlink, link, fifo, global, gnu, pax00, pax01, pax10
	Name string
	Data []byte   // stored data
	Map  [][2]int // sparse fragments
	Real int      // logical size of a sparse file
	Long bool     // the header is preceded by another one
	B256 bool
}

func (e tcEntry) sparse() bool { return e.Kind == "gnu" || strings.HasPrefix(e.Kind, "pax") }

func (e tcEntry) logical() []byte {
	if !e.sparse() {
		return e.Data
	}
	out := make([]byte, e.Real)
	at := 0
	for _, m := range e.Map {
		copy(out[m[0]:m[0]+m[1]], e.Data[at:at+m[1]])
		at += m[1]
	}
	return out
}

func tcNum(b []byte, v int, b256 bool) {
	if b256 && len(b) >= 12 {
		for i := range b {
			b[i] = 0
		}
		b[0] = 0x80
		for i, n := len(b)-1, v; n > 0; i, n = i-1, n>>8 {
			b[i] = byte(n)
		}
		return
	}
	copy(b, fmt.Sprintf("%0*o\x00", len(b)-1, v))
}

func tcHeader(name string, flag byte, size int, gnu bool, b256 bool) []byte {
	b := make([]byte, 512)
	copy(b[:100], name)
	tcNum(b[100:108], 0o644, false)
	tcNum(b[108:116], 0, false)
	tcNum(b[116:124], 0, false)
	tcNum(b[124:136], size, b256)
	tcNum(b[136:148], 1000000000, false)
	b[156] = flag
	if gnu {
		copy(b[257:265], "ustar  \x00")
	} else {
		copy(b[257:265], "ustar\x0000")
	}
	return b
}

func tcSum(b []byte) []byte {
	copy(b[148:156], "        ")
	sum := 0
	for _, c := range b[:512] {
		sum += int(c)
	}
	copy(b[148:156], fmt.Sprintf("%06o\x00 ", sum))
	return b
}

func tcPad(b []byte) []byte {
	if r := len(b) % 512; r != 0 {
		b = append(b, make([]byte, 512-r)...)
	}
	return b
}

func tcRecord(k, v string) string {
	n := len(k) + len(v) + 3
	s := ""
	for i := 0; i < 4; i++ {
		s = fmt.Sprintf("%d %s=%s\n", n, k, v)
		n = len(s)
	}
	return s
}

func (e tcEntry) bytes() []byte {
	var out []byte
	meta := func(flag byte, name, body string) {
		out = append(out, tcSum(tcHeader(name, flag, len(body), flag == 'L' || flag == 'K', e.B256))...)
		out = append(out, tcPad([]byte(body))...)
	}
	body := e.Data
	gnu := false
	flag := byte('0')
	switch e.Kind {
	case "regA":
		flag = 0
	case "cont":
		flag = '7'
	case "other":
		flag = 'Z'
	case "dir":
		flag = '5'
	case "symlink":
		flag = '2'
	case "link":
		flag = '1'
	case "fifo":
		flag = '6'
	case "global":
		meta('g', "global", tcRecord("comment", strings.Repeat("c", len(e.Data))))
		return out
	case "gnu":
		gnu, flag = true, 'S'
	}
	var pairs []string
	for _, m := range e.Map {
		pairs = append(pairs, fmt.Sprint(m[0]), fmt.Sprint(m[1]))
	}
	recs := ""
	switch e.Kind {
	case "pax00":
		recs += tcRecord("GNU.sparse.size", fmt.Sprint(e.Real)) + tcRecord("GNU.sparse.numblocks", fmt.Sprint(len(e.Map)))
		for i := 0; i < len(pairs); i += 2 {
			recs += tcRecord("GNU.sparse.offset", pairs[i]) + tcRecord("GNU.sparse.numbytes", pairs[i+1])
		}
	case "pax01":
		if len(pairs) == 0 || e.B256 {
			recs += tcRecord("GNU.sparse.major", "0") + tcRecord("GNU.sparse.minor", "1")
		}
		recs += tcRecord("GNU.sparse.size", fmt.Sprint(e.Real)) + tcRecord("GNU.sparse.numblocks", fmt.Sprint(len(e.Map))) +
			tcRecord("GNU.sparse.map", strings.Join(pairs, ",")) + tcRecord("GNU.sparse.name", e.Name)
	case "pax10":
		recs += tcRecord("GNU.sparse.major", "1") + tcRecord("GNU.sparse.minor", "0") +
			tcRecord("GNU.sparse.name", e.Name) + tcRecord("GNU.sparse.realsize", fmt.Sprint(e.Real))
		m := fmt.Sprintf("%d\n", len(e.Map)) + strings.Join(pairs, "\n")
		if len(pairs) > 0 {
			m += "\n"
		}
		body = append(tcPad([]byte(m)), e.Data...)
	default:
		if e.Long && !gnu {
			recs += tcRecord("comment", strings.Repeat("x", len(e.Data)%1500))
		}
	}
	if recs != "" {
		meta('x', "pax", recs)
	}
	if e.Long && gnu {
		n := 1
		if len(e.Data)%2 == 0 {
			n = 512 - len(e.Name) // a whole block
		}
		meta('L', "././@LongLink", e.Name+strings.Repeat("\x00", n))
	}
	h := tcHeader(e.Name, flag, len(body), gnu, e.B256)
	var ext []byte
	switch e.Kind {
	case "symlink", "link":
		copy(h[157:257], "f0")
	case "gnu":
		put := func(b []byte, max int, ms [][2]int) [][2]int {
			for i := 0; i < max && len(ms) > 0; i++ {
				tcNum(b[24*i:][:12], ms[0][0], e.B256)
				tcNum(b[24*i+12:][:12], ms[0][1], e.B256)
				ms = ms[1:]
			}
			if len(ms) > 0 {
				b[24*max] = 1
			}
			return ms
		}
		rest := put(h[386:], 4, e.Map)
		tcNum(h[483:495], e.Real, e.B256)
		for len(rest) > 0 {
			b := make([]byte, 512)
			rest = put(b, 21, rest)
			ext = append(ext, b...)
		}
	}
	out = append(out, tcSum(h)...)
	out = append(out, ext...)
	switch flag {
	case '1', '2', '5', '6':
		return out
	}
	return append(out, tcPad(append([]byte{}, body...))...)
}

func tcArchive(es []tcEntry) []byte {
	var out []byte
	for _, e := range es {
		out = append(out, e.bytes()...)
	}
	return append(out, make([]byte, 1024)...)
}

// tcFault fails reads that touch a byte.
type tcFault struct {
	*bytes.Reader
	at int64
}

var errFault = errors.New("injected read failure")

func (f tcFault) ReadAt(p []byte, off int64) (int, error) {
	if f.at >= off && f.at < off+int64(len(p)) {
		n, _ := f.Reader.ReadAt(p[:f.at-off], off)
		return n, errFault
	}
	return f.Reader.ReadAt(p, off)
}

func tcGen(s *vfState, n int) []tcEntry {
	kinds := []string{"plain", "plain", "regA", "cont", "other", "dir", "symlink", "link", "fifo", "global", "gnu", "gnu", "pax00", "pax01", "pax01", "pax10", "pax10"}
	var es []tcEntry
	for i := 0; i < n; i++ {
		e := tcEntry{Kind: vfPick(s, kinds), Name: fmt.Sprintf("f%d", i), Long: s.rng.Intn(3) == 0, B256: s.rng.Intn(3) == 0}
		if s.rng.Intn(6) == 0 {
			e.Name = fmt.Sprintf("d/f%d", i)
		}
		if s.rng.Intn(8) == 0 && i > 0 {
			e.Name = es[i-1].Name
		}
		size := vfPick(s, []int{0, 1, 3, 511, 512, 513, 700, 1024, 1500})
		if e.sparse() {
			at, frags := 0, vfPick(s, []int{0, 1, 2, 3, 4, 5, 6, 25, 30})
			for j := 0; j < frags; j++ {
				at += vfPick(s, []int{0, 0, 1, 7, 100, 512, 600})
				l := vfPick(s, []int{0, 1, 2, 5, 100, 512, 513})
				e.Map = append(e.Map, [2]int{at, l})
				at += l
				for k := 0; k < l; k++ {
					e.Data = append(e.Data, byte(1+s.rng.Intn(255)))
				}
			}
			if e.Kind == "pax00" && frags == 0 {
				e.Kind = "pax01"
			}
			e.Real = at + vfPick(s, []int{0, 0, 1, 10, 512, 1000})
		} else {
			for k := 0; k < size; k++ {
				e.Data = append(e.Data, byte(1+s.rng.Intn(255)))
			}
		}
		es = append(es, e)
	}
	return es
}

func tcRead(s *vfState, in string, f io.ReadSeeker, want []byte, name string) {
	var got []byte
	for {
		p := make([]byte, vfPick(s, []int{1, 2, 7, 100, 512, 4096}))
		n, err := f.Read(p)
		if n < 0 || n > len(p) {
			s.fail("count", in, "%s: Read returned %d for %d bytes", name, n, len(p))
			return
		}
		got = append(got, p[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			s.fail("read", in, "%s: Read at %d: %v", name, len(got), err)
			return
		}
		if len(got) > len(want)+10 {
			break
		}
	}
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		s.fail("content", in, "%s: sequential content differs at byte %d (%d bytes read, %d expected)", name, i, len(got), len(want))
		return
	}
	ra := f.(io.ReaderAt)
	for k := 0; k < 6; k++ {
		off := s.rng.Intn(len(want) + 3)
		p := bytes.Repeat([]byte{0xee}, s.rng.Intn(len(want)+20))
		n, err := ra.ReadAt(p, int64(off))
		w := want[min(off, len(want)):]
		w = w[:min(len(w), len(p))]
		if n < 0 || n > len(p) || !bytes.Equal(p[:n], w) && (err == nil || err == io.EOF) || n < len(p) && err != io.EOF {
			s.fail("readat", in, "%s: ReadAt(%d bytes, %d) = %d, %v; %d bytes expected there, or other bytes", name, len(p), off, n, err, len(w))
			return
		}
		// seek, then read some
		pos, err := f.Seek(int64(off)-int64(len(want)), io.SeekEnd)
		if err != nil || pos != int64(off) {
			s.fail("seek", in, "%s: Seek(%d, end) = %d, %v; want %d", name, off-len(want), pos, err, off)
			return
		}
		n, err = io.ReadFull(f, p)
		if !bytes.Equal(p[:n], w) || n < len(p) && err != io.EOF && err != io.ErrUnexpectedEOF {
			s.fail("seekread", in, "%s: after Seek to %d reading %d bytes gives %d, %v; %d bytes expected, or other bytes", name, off, len(p), n, err, len(w))
			return
		}
		cur, err := f.Seek(0, io.SeekCurrent)
		if err != nil || cur != int64(off+len(w)) && off <= len(want) {
			s.fail("position", in, "%s: position %d, %v after reading %d at %d", name, cur, err, len(w), off)
			return
		}
	}
}

func tcCheck(s *vfState, es []tcEntry) {
	var kinds []string
	for _, e := range es {
		kinds = append(kinds, fmt.Sprintf("%s(%s,%d,map=%v,real=%d,long=%v,b256=%v)", e.Kind, e.Name, len(e.Data), e.Map, e.Real, e.Long, e.B256))
	}
	in := strings.Join(kinds, " ")
	s.eval(strings.Join(kinds, ""), "")
	arc := tcArchive(es)
	// the oracle: archive/tar
	want := map[string][]byte{}
	flags := map[string]byte{}
	tr := tar.NewReader(bytes.NewReader(arc))
	count := 0
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			panic(fmt.Sprintf("the harness made an archive that archive/tar refuses: %v\n%s", err, in))
		}
		b, err := io.ReadAll(tr)
		if err != nil || int64(len(b)) != h.Size && strings.IndexByte("12356g", h.Typeflag) < 0 {
			panic(fmt.Sprintf("archive/tar reads %d of %d bytes, %v\n%s", len(b), h.Size, err, in))
		}
		if h.Typeflag != 'g' {
			if w := es[count].logical(); !bytes.Equal(b, w) && strings.IndexByte("01256", h.Typeflag) < 0 {
				panic(fmt.Sprintf("archive/tar and the harness disagree on %s\n%s", h.Name, in))
			}
			want[h.Name] = b
			flags[h.Name] = h.Typeflag
		}
		count++
	}
	n := 0
	for sec, err := range tarfs.Sections(bytes.NewReader(arc)) {
		if err != nil {
			s.fail("sections", in, "Sections: %v", err)
			return
		}
		if sec.HeaderStart() > sec.HeaderEnd() || sec.BodyStart() != sec.HeaderEnd() || sec.BodyEnd() < sec.BodyStart() || sec.BodyEnd() > int64(len(arc)) {
			s.fail("section", in, "%s: header %d-%d, body %d-%d", sec.Header().Name, sec.HeaderStart(), sec.HeaderEnd(), sec.BodyStart(), sec.BodyEnd())
			return
		}
		n++
	}
	if n != count {
		s.fail("sections", in, "%d sections, the archive has %d", n, count)
	}
	fsys, err := tarfs.New(bytes.NewReader(arc), nil)
	if err != nil {
		s.fail("new", in, "New: %v", err)
		return
	}
	check := func(fsys *tarfs.Fs, faulty bool) {
		for name, w := range want {
			if strings.IndexByte("0\x00S", flags[name]) < 0 {
				continue
			}
			f, err := fsys.Open(name)
			if err != nil {
				s.fail("open", in, "Open(%q): %v", name, err)
				return
			}
			st, err := f.Stat()
			if err != nil || st.Size() != int64(len(w)) {
				s.fail("size", in, "%s: Stat size %v, %v; want %d", name, st, err, len(w))
				return
			}
			if faulty {
				got, err := io.ReadAll(f)
				if err == nil && !bytes.Equal(got, w) || !bytes.HasPrefix(w, got) {
					s.fail("fault", in, "%s: with a read failure in the archive, %d bytes that are not the content, error %v", name, len(got), err)
				}
			} else {
				tcRead(s, in, f.(io.ReadSeeker), w, name)
			}
			f.Close()
			if _, err := f.Read(make([]byte, 1)); err == nil || err == io.EOF {
				s.fail("closed", in, "%s: Read after Close: %v", name, err)
			}
		}
	}
	check(fsys, false)
	// reading that fails somewhere never passes for content
	for k := 0; k < 4; k++ {
		at := int64(s.rng.Intn(len(arc)))
		if fsys, err := tarfs.New(tcFault{bytes.NewReader(arc), at}, nil); err == nil {
			check(fsys, true)
		}
	}
}

// tcFlaky fails the k-th read.
type tcFlaky struct {
	*bytes.Reader
	n *int
}

func (f tcFlaky) ReadAt(p []byte, off int64) (int, error) {
	*f.n--
	if *f.n == 0 {
		return 0, errFault
	}
	return f.Reader.ReadAt(p, off)
}

func tcFlakyCheck(s *vfState, es []tcEntry) {
	arc := tcArchive(es)
	var in []string
	for _, e := range es {
		in = append(in, fmt.Sprintf("%s(%s,map=%v,real=%d)", e.Kind, e.Name, e.Map, e.Real))
	}
	for k := 1; k < 12; k++ {
		n := k
		fsys, err := tarfs.New(tcFlaky{bytes.NewReader(arc), &n}, nil)
		if err != nil {
			continue
		}
		n = 1 << 30
		for i, e := range es {
			last := true
			for _, o := range es[i+1:] {
				last = last && o.Name != e.Name
			}
			if !last || e.Kind != "plain" && e.Kind != "regA" && !e.sparse() {
				continue
			}
			f, err := fsys.Open(e.Name)
			if err != nil {
				continue
			}
			if got, err := io.ReadAll(f); err == nil && !bytes.Equal(got, e.logical()) {
				s.fail("flaky", strings.Join(in, " "), "%s: the %d-th read of the archive failed, and its content came out as %d other bytes", e.Name, k, len(got))
			}
			f.Close()
		}
	}
}

func TestVerifT01(t *testing.T) {
	s := vfNew()
	fixed := [][]tcEntry{
		{{Kind: "cont", Name: "c", Data: bytes.Repeat([]byte("c"), 700)}, {Kind: "pax01", Name: "f1", Data: []byte("abc"), Map: [][2]int{{3, 1}, {600, 2}}, Real: 700}, {Kind: "plain", Name: "p", Data: []byte("plain")}},
		{{Kind: "gnu", Name: "f1", Data: []byte("abcdefgh"), Map: [][2]int{{2, 5}, {18, 3}}, Real: 25}},
		{{Kind: "pax10", Name: "f1", Data: nil, Map: nil, Real: 1000}, {Kind: "plain", Name: "p", Data: []byte("plain")}},
		{{Kind: "pax01", Name: "f1", Data: []byte("abcdefgh"), Map: [][2]int{{0, 3}, {3, 0}, {3, 5}}, Real: 8}, {Kind: "gnu", Name: "g", Real: 0}},
	}
	var many tcEntry
	many = tcEntry{Kind: "gnu", Name: "many"}
	for i := 0; i < 60; i++ {
		many.Map = append(many.Map, [2]int{i*10 + 3, 4})
		many.Data = append(many.Data, byte('a'+i%26), 'x', 'y', byte(i+1))
	}
	many.Real = 700
	fixed = append(fixed, []tcEntry{many, {Kind: "plain", Name: "p", Data: []byte("after")}})
	for s.more() {
		var es []tcEntry
		if len(fixed) > 0 {
			es, fixed = fixed[0], fixed[1:]
		} else {
			es = tcGen(s, 1+s.rng.Intn(5))
		}
		s.limit("hang", fmt.Sprint(len(es)), 20*time.Second, func() { tcCheck(s, es); tcFlakyCheck(s, es) })
	}
	s.done("an archive with entries of every kind and sparse layout (old GNU, PAX 0.0, 0.1, 1.0), read in full, by offset and after seeks, also with a read of the archive failing, against archive/tar")
}
