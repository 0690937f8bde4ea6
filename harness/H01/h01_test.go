//overlay: stream/httprange/zz_verif_H01_test.go

package httprange

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// h1Resp is how the server answers one request.
type h1Resp struct {
	Status   int
	Ver      int    // which version of the object it speaks of
	Range    string // how Content-Range is made: "", honest, shift, wide, short, total, star, none, garbage
	Body     string // honest, short, long, fail
	Tag      string // honest, none, other, weak
	LM       string // honest, none, other
	Enc      string
	Host     string // "", "other", "none"
	Len      int64  // ContentLength (-2: honest)
	Unzipped bool
	Err      bool
}

type h1Req struct {
	Off int64
	Len int
}

type h1Case struct {
	Size   int
	Lane   bool
	Off, N int64
	Prior  string // "", etag, lm, size, all
	Script []h1Resp
	Reqs   []h1Req
}

// h1Got is one response as the oracle remembers it.
type h1Got struct {
	id                   int
	status               int
	ok                   bool
	first, last, total   int64
	etag, lm, origin     string
	identity             bool
	body                 []byte
	asked                string
}

type h1Server struct {
	c    *h1Case
	n    int
	got  []*h1Got
	sent []string
}

type h1Body struct {
	r    io.Reader
	fail bool
}

func (b *h1Body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail {
		return n, errors.New("connection reset")
	}
	return n, err
}
func (b *h1Body) Close() error { return nil }

// h1Slow lets other readers arrive while a body is being read.
type h1Slow struct {
	mu  sync.Mutex
	srv *h1Server
}

func (d *h1Slow) Do(req *http.Request) (*http.Response, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	resp, err := d.srv.Do(req)
	if err == nil {
		resp.Body = &h1SlowBody{resp.Body}
	}
	return resp, err
}

type h1SlowBody struct{ io.ReadCloser }

func (b *h1SlowBody) Read(p []byte) (int, error) {
	time.Sleep(2 * time.Millisecond)
	return b.ReadCloser.Read(p)
}

func h1Byte(ver int, i int64) byte { return byte(int64(ver)*101 + i*7 + i/13 + 1) }

func (s *h1Server) Do(req *http.Request) (*http.Response, error) {
	var sp h1Resp
	if s.n < len(s.c.Script) {
		sp = s.c.Script[s.n]
	} else {
		sp = h1Resp{Status: 206, Range: "honest", Body: "honest", Tag: "honest", LM: "honest", Len: -2}
	}
	s.n++
	if sp.Err {
		return nil, &url.Error{Op: "Get", URL: "http://h/x", Err: io.EOF}
	}
	size := int64(s.c.Size) + int64(sp.Ver)
	asked := req.Header.Get("Range")
	s.sent = append(s.sent, asked+"|"+req.Header.Get("If-Range"))
	var a, b int64
	lo, hi, _ := strings.Cut(strings.TrimPrefix(asked, "bytes="), "-")
	a, _ = strconv.ParseInt(lo, 10, 64)
	if hi == "" {
		b = size - 1
	} else {
		b, _ = strconv.ParseInt(hi, 10, 64)
	}
	if b >= size {
		b = size - 1
	}
	status := sp.Status
	if status == 206 && a >= size {
		status = 416
	}
	h := http.Header{}
	g := &h1Got{id: len(s.got), status: status, asked: asked}
	switch sp.Tag {
	case "honest":
		g.etag = fmt.Sprintf(`"v%d"`, sp.Ver)
	case "weak":
		g.etag = fmt.Sprintf(`W/"v%d"`, sp.Ver)
	case "other":
		g.etag = `"x"`
	}
	switch sp.LM {
	case "honest":
		g.lm = fmt.Sprintf("Mon, 0%d Jan 2024 00:00:00 GMT", sp.Ver+1)
	case "other":
		g.lm = "Tue, 09 Jan 2024 00:00:00 GMT"
	}
	if g.etag != "" {
		h.Set("ETag", g.etag)
	}
	if g.lm != "" {
		h.Set("Last-Modified", g.lm)
	}
	if sp.Enc != "" {
		h.Set("Content-Encoding", sp.Enc)
	}
	g.identity = !sp.Unzipped && (sp.Enc == "" || strings.EqualFold(sp.Enc, "identity"))
	var body []byte
	if status == 206 {
		f, l, t := a, b, size
		switch sp.Range {
		case "shift":
			f++
			if l < t-1 {
				l++
			}
		case "back":
			if f > 0 {
				f--
			}
		case "wide":
			if l < t-1 {
				l++
			}
		case "short":
			if l > f {
				l--
			}
		case "total":
			t += 3
		}
		if f > l {
			f = l
		}
		cr := fmt.Sprintf("bytes %d-%d/%d", f, l, t)
		g.first, g.last, g.total, g.ok = f, l, t, true
		switch sp.Range {
		case "none":
			cr, g.ok = "", false
		case "star":
			cr, g.ok = fmt.Sprintf("bytes */%d", t), false
		case "unknown":
			cr, g.ok = fmt.Sprintf("bytes %d-%d/*", f, l), false
		case "garbage":
			cr, g.ok = "bytes x-y/z", false
		}
		if cr != "" {
			h.Set("Content-Range", cr)
		}
		for i := f; i <= l; i++ {
			body = append(body, h1Byte(sp.Ver, i))
		}
	} else {
		g.total = size
		if status == 416 {
			if sp.Range == "total" {
				g.total = size + 3
			}
			if sp.Range != "none" {
				h.Set("Content-Range", fmt.Sprintf("bytes */%d", g.total))
			}
		}
		if status == 200 {
			for i := int64(0); i < size; i++ {
				body = append(body, h1Byte(sp.Ver, i))
			}
		}
	}
	full := int64(len(body))
	fail := false
	switch sp.Body {
	case "short":
		if len(body) > 0 {
			body = body[:len(body)-1]
		}
	case "long":
		body = append(body, 0xEE, 0xEE)
	case "fail":
		body, fail = body[:len(body)/2], true
	case "empty":
		body = nil
	}
	g.body = body
	s.got = append(s.got, g)
	n := full
	if sp.Len != -2 {
		n = sp.Len
	}
	host := "h"
	if sp.Host == "other" {
		host = "other"
	}
	resp := &http.Response{StatusCode: status, Header: h, Body: &h1Body{r: bytes.NewReader(body), fail: fail}, ContentLength: n, Uncompressed: sp.Unzipped}
	if sp.Host != "none" {
		resp.Request = &http.Request{URL: &url.URL{Scheme: "http", Host: host}}
		g.origin = "http://" + host
	}
	return resp, nil
}

func TestVerifH01(t *testing.T) {
	s := vfNew()
	run := func(c h1Case) {
		key := fmt.Sprintf("%+v", c)
		s.limit("terminates", key, 10*time.Second, func() {
			srv := &h1Server{c: &c}
			cfg := &Config{Client: srv}
			prior := &h1Got{}
			if c.Prior == "etag" || c.Prior == "all" {
				prior.etag = `"v0"`
			}
			if c.Prior == "lm" || c.Prior == "all" {
				prior.lm = "Mon, 01 Jan 2024 00:00:00 GMT"
			}
			if (c.Prior == "size" || c.Prior == "all") && c.Size > 0 {
				prior.total = int64(c.Size)
			}
			cfg.PriorKnowledge = Metadata{ETag: prior.etag, LastModified: prior.lm, Size: prior.total}
			var r *ReaderAt
			var err error
			base, end := int64(0), int64(math.MaxInt64)
			if c.Lane {
				r, err = NewRange(context.Background(), "http://h/x", c.Off, c.N, cfg)
				base = c.Off
				if c.N >= 0 && c.Off <= math.MaxInt64-c.N {
					end = c.Off + c.N
				}
			} else {
				r, err = New(context.Background(), "http://h/x", cfg)
			}
			if err != nil {
				if !c.Lane || c.Off >= 0 {
					s.fail("opens", key, "constructor: %v", err)
				}
				return
			}
			defer r.Close()
			// the versions data was taken from must agree with each other
			var used []*h1Got
			honest := true
			for _, sp := range c.Script {
				if sp.Status != 206 || sp.Ver != 0 || sp.Range != "honest" || sp.Body != "honest" && sp.Body != "long" || sp.Enc != "" || sp.Unzipped || sp.Err || sp.Host != "" || sp.Tag == "other" || sp.Tag == "weak" || sp.LM == "other" {
					honest = false
				}
			}
			for qi, q := range c.Reqs {
				buf := make([]byte, q.Len)
				for i := range buf {
					buf[i] = 0xAA
				}
				before := len(srv.got)
				n, err := r.ReadAt(buf, q.Off)
				where := fmt.Sprintf("read %d: ReadAt(len %d, %d) = %d, %v (requests %q)", qi, q.Len, q.Off, n, err, srv.sent)
				sig := "data"
				if n == 0 {
					sig = "nothing"
				}
				if err != nil {
					sig += "+err"
				}
				if err == io.EOF {
					sig = "eof"
				}
				s.eval(sig, key)
				if n < 0 || n > len(buf) {
					s.fail("count", key, "%s", where)
					return
				}
				if q.Off < 0 {
					if err == nil || n != 0 || len(srv.got) != before {
						s.fail("negative", key, "%s", where)
					}
					continue
				}
				if err == nil && n != len(buf) {
					s.fail("full", key, "%s", where)
				}
				if q.Off >= end-base {
					if n != 0 || err != io.EOF || len(srv.got) != before {
						s.fail("beyond", key, "%s", where)
					}
					continue
				}
				abs := base + q.Off
				if n > 0 && abs+int64(n) > end {
					s.fail("view", key, "%s", where)
				}
				if n > 0 {
					// some response really granted these bytes
					var from *h1Got
					for i := len(srv.got) - 1; i >= 0 && from == nil; i-- {
						g := srv.got[i]
						if g.status != 206 || !g.ok || !g.identity || abs < g.first || abs+int64(n)-1 > g.last {
							continue
						}
						lo := abs - g.first
						if lo+int64(n) > int64(len(g.body)) || !bytes.Equal(g.body[lo:lo+int64(n)], buf[:n]) {
							continue
						}
						clash := false
						for _, u := range append(used, prior) {
							if u.etag != "" && g.etag != "" && u.etag != g.etag || u.lm != "" && g.lm != "" && u.lm != g.lm || u.origin != "" && g.origin != "" && u.origin != g.origin || u.total != 0 && u.total != g.total {
								clash = true
							}
						}
						if clash {
							continue
						}
						from = g
					}
					if from == nil {
						s.fail("bytes", key, "%s: the bytes %x come from no acceptable response", where, buf[:n])
						return
					}
					used = append(used, from)
				}
				if err == io.EOF {
					m, _ := r.Metadata()
					size, known := r.knownSize()
					if !(known && abs+int64(n) >= size) && abs+int64(n) < end {
						s.fail("eof", key, "%s: size %d %v, view end %d, %+v", where, size, known, end, m)
					}
				}
				if honest {
					size := int64(c.Size)
					want := min(size, end) - abs
					if want < 0 {
						want = 0
					}
					if int64(q.Len) < want {
						want = int64(q.Len)
					}
					if int64(n) != want || err != nil && err != io.EOF || int64(n) < int64(q.Len) && err != io.EOF {
						s.fail("honest", key, "%s: an honest server of %d bytes, want %d", where, size, want)
						return
					}
					for i := 0; i < n; i++ {
						if buf[i] != h1Byte(0, abs+int64(i)) {
							s.fail("content", key, "%s: byte %d", where, i)
							return
						}
					}
				}
			}
		})
	}
	pickResp := func(hon bool) h1Resp {
		sp := h1Resp{Status: 206, Range: "honest", Body: "honest", Tag: "honest", LM: "honest", Len: -2}
		if s.rng.Intn(3) == 0 {
			sp.Tag = "none"
		}
		if s.rng.Intn(3) == 0 {
			sp.LM = "none"
		}
		if s.rng.Intn(5) == 0 {
			sp.Body = "long"
		}
		if hon {
			return sp
		}
		for k := s.rng.Intn(3); k > 0; k-- {
			switch s.rng.Intn(12) {
			case 0:
				sp.Status = vfPick(s, []int{200, 200, 416, 500, 204, 304, 404})
			case 1:
				sp.Ver = 1 + s.rng.Intn(2)
			case 2, 3, 4:
				sp.Range = vfPick(s, []string{"shift", "back", "wide", "short", "total", "star", "none", "garbage", "unknown"})
			case 5, 6:
				sp.Body = vfPick(s, []string{"short", "long", "fail", "empty"})
			case 7:
				sp.Tag = vfPick(s, []string{"none", "other", "weak"})
			case 8:
				sp.LM = vfPick(s, []string{"none", "other"})
			case 9:
				sp.Enc = vfPick(s, []string{"gzip", "identity", "IDENTITY", "br", "gzip, identity", "identity;x"})
			case 10:
				sp.Host = vfPick(s, []string{"other", "none"})
			default:
				switch s.rng.Intn(3) {
				case 0:
					sp.Unzipped = true
				case 1:
					sp.Len = vfPick(s, []int64{0, -1, 5})
				default:
					sp.Err = true
				}
			}
		}
		return sp
	}
	// readers meeting at the same offset of one lane
	together := func(size, n, chunk int) {
		key := fmt.Sprintf("%d readers, lane over %d bytes, chunks of %d", n, size, chunk)
		s.limit("together", key, 10*time.Second, func() {
			c := h1Case{Size: size}
			d := &h1Slow{srv: &h1Server{c: &c}}
			r, err := NewRange(context.Background(), "http://h/x", 0, int64(size), &Config{Client: d})
			if err != nil {
				s.fail("opens", key, "%v", err)
				return
			}
			defer r.Close()
			for off := 0; off < size; off += chunk {
				var wg sync.WaitGroup
				for g := 0; g < n; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						b := make([]byte, chunk)
						got, err := r.ReadAt(b, int64(off))
						if want := min(chunk, size-off); got != want || err != nil && err != io.EOF {
							s.fail("together", key, "ReadAt(len %d, %d) = %d, %v", chunk, off, got, err)
							return
						}
						for i := 0; i < got; i++ {
							if b[i] != h1Byte(0, int64(off+i)) {
								s.fail("together", key, "ReadAt(len %d, %d): byte %d belongs elsewhere", chunk, off, i)
								return
							}
						}
					}()
				}
				wg.Wait()
				s.eval("together", key)
			}
		})
	}
	for n := 2; n <= 4; n++ {
		together(24, n, 4)
		together(20, n, 6)
	}
	for s.more() {
		c := h1Case{Size: vfPick(s, []int{0, 1, 2, 5, 9, 16, 40}), Prior: vfPick(s, []string{"", "", "etag", "lm", "size", "all"})}
		if s.rng.Intn(2) == 0 {
			c.Lane = true
			c.Off = vfPick(s, []int64{0, 0, 1, 3, 7, int64(c.Size), int64(c.Size) + 1, math.MaxInt64 - 3, math.MaxInt64, -1})
			c.N = vfPick(s, []int64{0, 1, 2, 4, 8, int64(c.Size), int64(c.Size) + 5, 100, math.MaxInt64, math.MaxInt64 - 2, -1, math.MinInt64})
		}
		hon := s.rng.Intn(4) == 0
		for k := s.rng.Intn(5); k > 0; k-- {
			c.Script = append(c.Script, pickResp(hon))
		}
		var pos int64
		for k := 1 + s.rng.Intn(6); k > 0; k-- {
			l := vfPick(s, []int{0, 1, 1, 2, 3, 5, 8, 64})
			q := h1Req{Off: pos, Len: l}
			switch s.rng.Intn(6) {
			case 0:
				q.Off = int64(s.rng.Intn(c.Size + 3))
			case 1:
				q.Off = vfPick(s, []int64{-1, int64(c.Size), int64(c.Size) - 1, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 5})
			}
			pos = q.Off + int64(l)
			if pos < 0 || pos > 1000 {
				pos = 0
			}
			c.Reqs = append(c.Reqs, q)
		}
		run(c)
	}
	s.done("every byte and every end handed out is granted by a matching response of one version")
}
