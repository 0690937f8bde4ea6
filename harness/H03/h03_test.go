//overlay: stream/fileserver/zz_verif_H03_test.go

package fileserver_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"net/http"
	"net/url"
	"os"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/stream/fileserver"
)

var csErr = errors.New("injected failure")

type csPut struct {
	name string
	size int64
	data []byte
}

// csServer keeps objects in memory and fails when told to.
type csServer struct {
	objs     map[string][]byte
	sizes    map[string]int64 // what Stat answers instead
	puts     []csPut
	stats    []string
	failPut  int // the k-th put fails, -1 never
	failStat int
	step     int // sizes of deliveries
}

func (c *csServer) Get(_ context.Context, name string, off int64) (io.ReadCloser, int64, error) {
	b, ok := c.objs[name]
	if !ok {
		return nil, 0, fmt.Errorf("get %q: %w", name, fs.ErrNotExist)
	}
	if off < 0 || off > int64(len(b)) {
		return nil, 0, fmt.Errorf("get %q: offset %d out of %d", name, off, len(b))
	}
	return io.NopCloser(&csReader{b: b[off:], step: c.step}), int64(len(b)), nil
}

func (c *csServer) Stat(_ context.Context, name string) (int64, error) {
	c.stats = append(c.stats, name)
	if c.failStat == len(c.stats)-1 {
		return 0, csErr
	}
	if n, ok := c.sizes[name]; ok {
		return n, nil
	}
	b, ok := c.objs[name]
	if !ok {
		return 0, fmt.Errorf("stat %q: %w", name, fs.ErrNotExist)
	}
	return int64(len(b)), nil
}

func (c *csServer) Put(_ context.Context, name string, size int64, r io.Reader) error {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	c.puts = append(c.puts, csPut{name, size, b})
	if c.failPut == len(c.puts)-1 {
		return csErr
	}
	c.objs[name] = b
	return nil
}

type csReader struct {
	b    []byte
	step int
	fail bool // an error at the end instead of io.EOF
}

func (r *csReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		if r.fail {
			return 0, csErr
		}
		return 0, io.EOF
	}
	n := min(len(p), len(r.b))
	if r.step > 0 {
		n = min(n, r.step)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

func csName(i int) string { return fmt.Sprintf("chunk-%d", i) }

// csChunks is the partition by its definition.
func csChunks(data []byte, cs int64) [][]byte {
	if len(data) == 0 {
		return [][]byte{{}}
	}
	var out [][]byte
	for len(data) > 0 {
		n := len(data)
		if int64(n) > cs {
			n = int(cs)
		}
		out = append(out, data[:n])
		data = data[n:]
	}
	return out
}

func csData(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + 1)
	}
	return b
}

func TestVerifH03(t *testing.T) {
	s := vfNew()
	tmp := t.TempDir()
	t.Setenv("TMPDIR", tmp)
	ctx := context.Background()
	for s.more() {
		size := vfPick(s, append([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 25, 31, 33, 64, 100}, s.rng.Intn(90)))
		cs := int64(vfPick(s, append([]int{1, 2, 3, 4, 5, 7, 8, 10, 16, 25, 33, 100, 1000, math.MaxInt32, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 50}, 1+s.rng.Intn(20))))
		switch s.rng.Intn(5) {
		case 0:
			csState(s, ctx, size, cs)
		case 1, 2:
			csPush(s, ctx, size, cs, tmp)
		case 3:
			csPull(s, ctx, size, cs)
		case 4:
			csHTTP(s, ctx, size)
		}
	}
	s.done("sizes 0 to 100, chunk sizes 1 to MaxInt64, all prefixes of stored chunks with one wrong or failing, short and failing readers and puts, all offsets; HTTP answers of all kinds")
}

func csState(s *vfState, ctx context.Context, size int, cs int64) {
	data := csData(size)
	chunks := csChunks(data, cs)
	srv := &csServer{objs: map[string][]byte{}, sizes: map[string]int64{}, failPut: -1, failStat: -1}
	stored := s.rng.Intn(len(chunks) + 1)
	if s.rng.Intn(3) == 0 {
		stored = len(chunks)
	}
	for i := range stored {
		srv.objs[csName(i)] = chunks[i]
	}
	// something further behind the hole must not count
	for i := stored + 1; i < len(chunks); i++ {
		if s.rng.Intn(3) == 0 {
			srv.objs[csName(i)] = chunks[i]
		}
	}
	want := stored
	if stored > 0 && s.rng.Intn(3) == 0 {
		k := s.rng.Intn(stored)
		srv.sizes[csName(k)] = vfPick(s, []int64{0, int64(len(chunks[k])) + 1, int64(len(chunks[k])) - 1, int64(len(chunks[k])) * 2, cs})
		if srv.sizes[csName(k)] < 0 {
			srv.sizes[csName(k)] = 3
		}
		if srv.sizes[csName(k)] != int64(len(chunks[k])) {
			want = k
		}
	}
	if s.rng.Intn(5) == 0 {
		srv.failStat = s.rng.Intn(len(chunks) + 1)
	}
	in := map[string]any{"size": size, "chunk_size": cs, "stored": stored, "sizes": fmt.Sprint(srv.sizes), "fail_stat": srv.failStat}
	s.guard("State", in, func() {
		off, complete, err := fileserver.NewChunkedSink(srv, csName, int64(size), cs).State(ctx)
		if srv.failStat >= 0 && srv.failStat <= want && srv.failStat < len(chunks) {
			if err == nil || complete {
				s.fail("State", in, "a failing probe was not reported: (%d, %v, %v)", off, complete, err)
			}
		} else if err != nil {
			s.fail("State", in, "unexpected error %v", err)
		} else if want == len(chunks) {
			if !complete || off != int64(size) {
				s.fail("State", in, "all chunks are there, State says (%d, %v)", off, complete)
			}
		} else if complete || off != int64(want)*cs {
			s.fail("State", in, "chunk %d is the first that is missing or wrong, State says (%d, %v)", want, off, complete)
		}
		s.eval("state", in)
	})
}

func csPush(s *vfState, ctx context.Context, size int, cs int64, tmp string) {
	data := csData(size)
	chunks := csChunks(data, cs)
	srv := &csServer{objs: map[string][]byte{}, failPut: -1, failStat: -1}
	start := s.rng.Intn(len(chunks))
	if s.rng.Intn(2) == 0 {
		start = 0
	}
	for i := range start {
		srv.objs[csName(i)] = chunks[i]
	}
	if s.rng.Intn(4) == 0 {
		srv.failPut = s.rng.Intn(len(chunks))
	}
	off := int64(start) * cs
	misaligned := s.rng.Intn(8) == 0 && cs > 1 && cs < 1000
	if misaligned {
		off += 1 + int64(s.rng.Intn(int(cs-1)))
	}
	have := []byte{}
	if off < int64(size) {
		have = data[off:]
	}
	r := &csReader{b: have, step: s.rng.Intn(5)}
	short := s.rng.Intn(3) == 0 && len(have) > 0
	if short {
		r.b = have[:s.rng.Intn(len(have))]
		r.fail = s.rng.Intn(2) == 0
	}
	in := map[string]any{"size": size, "chunk_size": cs, "offset": off, "reader_bytes": len(r.b), "reader_fails": r.fail, "fail_put": srv.failPut}
	s.guard("Append", in, func() {
		got := r.b
		sink := fileserver.NewChunkedSink(srv, csName, int64(size), cs)
		err := sink.Append(ctx, off, r)
		if l, _ := os.ReadDir(tmp); len(l) > 0 {
			s.fail("Append", in, "%d temporary files are left", len(l))
			for _, e := range l {
				os.Remove(tmp + "/" + e.Name())
			}
		}
		if misaligned {
			if err == nil || len(srv.puts) > 0 {
				s.fail("Append", in, "an offset inside a chunk was accepted: %v, %d puts", err, len(srv.puts))
			}
			return
		}
		sent, failed := start, false
		for k, p := range srv.puts {
			i := sent
			if failed = k == srv.failPut; !failed {
				sent++
			}
			if i >= len(chunks) || p.name != csName(i) {
				s.fail("Append", in, "put %d went to %q, expected %q of %d chunks", k, p.name, csName(i), len(chunks))
				return
			}
			if p.size != int64(len(chunks[i])) || !bytes.Equal(p.data, chunks[i]) {
				s.fail("Append", in, "%q was sent with size %d and %d bytes %x, the chunk is %x", p.name, p.size, len(p.data), p.data, chunks[i])
				return
			}
		}
		all := sent == len(chunks) && !failed
		if (err == nil) != all {
			s.fail("Append", in, "Append says %v after %d of %d chunks", err, sent-start, len(chunks)-start)
		}
		if len(got) < len(have) && err == nil {
			s.fail("Append", in, "success although the reader held %d of %d bytes", len(got), len(have))
		}
		if !short && srv.failPut < 0 && err != nil {
			s.fail("Append", in, "unexpected error %v", err)
		}
		if err == nil {
			o, complete, serr := sink.State(ctx)
			if serr != nil || !complete || o != int64(size) {
				s.fail("Append", in, "Append succeeded, State says (%d, %v, %v)", o, complete, serr)
			}
			if cerr := sink.Commit(ctx); cerr != nil {
				s.fail("Append", in, "Commit says %v", cerr)
			}
		}
		s.eval("append", in)
	})
}

func csPull(s *vfState, ctx context.Context, size int, cs int64) {
	data := csData(size)
	srv := &csServer{objs: map[string][]byte{}, failPut: -1, failStat: -1, step: s.rng.Intn(5)}
	for i, c := range csChunks(data, cs) {
		srv.objs[csName(i)] = c
	}
	off := int64(s.rng.Intn(size+3)) - 1
	in := map[string]any{"size": size, "chunk_size": cs, "offset": off, "step": srv.step}
	s.limit("Open", in, 5*time.Second, func() {
		r, err := fileserver.NewChunkedSource(srv, csName, int64(size), cs).Open(ctx, off)
		if off < 0 || off > int64(size) {
			if err == nil {
				s.fail("Open", in, "an offset outside the object was accepted")
			}
			return
		}
		if err != nil {
			s.fail("Open", in, "unexpected error %v", err)
			return
		}
		b, err := io.ReadAll(r)
		if err != nil || !bytes.Equal(b, data[off:]) {
			s.fail("Open", in, "read %x (%v), the content from there on is %x", b, err, data[off:])
		}
		r.Close()
		s.eval("open", in)
	})
	// one chunk is not what it should be: no success
	chunks := csChunks(data, cs)
	if off >= 0 && off < int64(size) {
		k := int(off/cs) + s.rng.Intn(len(chunks)-int(off/cs))
		if len(chunks[k]) > 0 {
			srv.objs[csName(k)] = chunks[k][:s.rng.Intn(len(chunks[k]))]
			in["truncated_chunk"] = k
			s.limit("Open", in, 5*time.Second, func() {
				r, err := fileserver.NewChunkedSource(srv, csName, int64(size), cs).Open(ctx, off)
				if err != nil {
					return
				}
				b, err := io.ReadAll(r)
				if err == nil {
					s.fail("Open", in, "a truncated chunk went unnoticed: %d of %d bytes", len(b), len(data[off:]))
				} else if !bytes.HasPrefix(data[off:], b) {
					s.fail("Open", in, "bytes are out of place: %x, the content from there on is %x", b, data[off:])
				}
				r.Close()
			})
		}
	}
}

type csDoer func(*http.Request) (*http.Response, error)

func (f csDoer) Do(r *http.Request) (*http.Response, error) { return f(r) }

type csBody struct {
	io.Reader
	closed int
}

func (b *csBody) Close() error { b.closed++; return nil }

func csHTTP(s *vfState, ctx context.Context, size int) {
	data := csData(size)
	off := int64(s.rng.Intn(size+2)) - 1
	base, _ := url.Parse("http://example.com/base/")
	status := vfPick(s, []int{200, 206, 206, 206, 404, 410, 500, 204, 416, 403, 301})
	from := off
	if s.rng.Intn(3) == 0 {
		from = int64(s.rng.Intn(size + 1))
	}
	from = max(from, 0)
	header := vfPick(s, []string{"", "x", "bytes */5", "bytes 0-0", "bytes a-b/c", "bytes -/", "bytes 1-2/*", fmt.Sprintf("bytes %d-%d/%d", from, size-1, size), fmt.Sprintf("bytes %d-%d/%d", from, size-1, size), fmt.Sprintf("bytes %d-%d/%d", from, size-1, size)})
	fails := s.rng.Intn(8) == 0
	in := map[string]any{"size": size, "offset": off, "status": status, "content_range": header, "doer_fails": fails}
	var req *http.Request
	var body *csBody
	var sent []byte
	cl := &fileserver.HTTPClient{BaseURL: base, Header: http.Header{"X-Test": {"a", "b"}}, Client: csDoer(func(r *http.Request) (*http.Response, error) {
		req = r
		if r.Body != nil {
			sent, _ = io.ReadAll(r.Body)
		}
		if fails {
			return nil, csErr
		}
		b := data
		if status == 206 {
			b = data[from:]
		}
		body = &csBody{Reader: bytes.NewReader(b)}
		h := http.Header{}
		if header != "" && status == 206 {
			h.Set("Content-Range", header)
		}
		return &http.Response{StatusCode: status, Header: h, Body: body, ContentLength: int64(len(b)), Request: r}, nil
	})}
	s.guard("HTTP Get", in, func() {
		r, total, err := cl.Get(ctx, "a b/c", off)
		if req.Method != http.MethodGet || req.URL.String() != "http://example.com/base/a%20b%2Fc" || len(req.Header["X-Test"]) != 2 {
			s.fail("HTTP Get", in, "request %s %s %v", req.Method, req.URL, req.Header)
		}
		want := ""
		if off > 0 {
			want = fmt.Sprintf("bytes=%d-", off)
		}
		if req.Header.Get("Range") != want {
			s.fail("HTTP Get", in, "asked for range %q instead of %q", req.Header.Get("Range"), want)
		}
		if err == nil {
			b, _ := io.ReadAll(r)
			if !bytes.Equal(b, data[max(off, 0):]) || total != int64(size) {
				s.fail("HTTP Get", in, "delivers %x of total %d, the object from there on is %x of %d", b, total, data[max(off, 0):], size)
			}
		} else if body != nil && body.closed == 0 {
			s.fail("HTTP Get", in, "the body of a refused answer is not closed")
		}
		good := !fails && (status == 200 && off <= 0 || status == 206 && header == fmt.Sprintf("bytes %d-%d/%d", max(off, 0), size-1, size))
		if good != (err == nil) {
			s.fail("HTTP Get", in, "says %v", err)
		}
		if err != nil && !fails && errors.Is(err, fs.ErrNotExist) != (status == 404 || status == 410) {
			s.fail("HTTP Get", in, "absence misreported: %v", err)
		}
		s.eval("get", in)
	})
	s.guard("HTTP Stat", in, func() {
		n, err := cl.Stat(ctx, "x")
		if req.Method != http.MethodHead {
			s.fail("HTTP Stat", in, "asked with %s", req.Method)
		}
		good := !fails && (status == 200 || status == 204)
		if good != (err == nil) || good && n != int64(size) {
			s.fail("HTTP Stat", in, "says (%d, %v)", n, err)
		}
		if err != nil && !fails && errors.Is(err, fs.ErrNotExist) != (status == 404 || status == 410) {
			s.fail("HTTP Stat", in, "absence misreported: %v", err)
		}
	})
	s.guard("HTTP Put", in, func() {
		err := cl.Put(ctx, "x", int64(size), bytes.NewReader(data))
		if req.Method != http.MethodPut || req.ContentLength != int64(size) || !bytes.Equal(sent, data) {
			s.fail("HTTP Put", in, "%s declared %d bytes and sent %x of %x", req.Method, req.ContentLength, sent, data)
		}
		good := !fails && status >= 200 && status < 300
		if good != (err == nil) {
			s.fail("HTTP Put", in, "says %v", err)
		}
	})
}
