package httpclient

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"sync"
	"testing"
	"time"
)

func fail27(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

type req27 struct {
	method, path, query string
	body                []byte
	hdr                 http.Header
	clen                int64
}

func post27(t *testing.T, bs []byte, close bool, url string, h map[string]string, c *http.Cookie) (r []byte, err error) {
	defer func() {
		if x := recover(); x != nil {
			fail27(t, "Post3(%d bytes, %v, %q, %v, %v) panicked: %v", len(bs), close, url, h, c, x)
		}
	}()
	if h == nil && c == nil {
		if close {
			return Post2(bs, true, url)
		}
		return Post(bs, url)
	}
	return Post3(bs, close, url, h, c)
}

func TestVerifReplay(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback: ", err)
	}
	var mu sync.Mutex
	var got []req27
	open := map[net.Conn]bool{}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		got = append(got, req27{r.Method, r.URL.Path, r.URL.RawQuery, b, r.Header.Clone(), r.ContentLength})
		mu.Unlock()
		switch r.URL.Path {
		case "/short": // a body that is cut off
			w.Header().Set("Content-Length", "1000")
			w.WriteHeader(200)
			w.Write([]byte("partial"))
			w.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		case "/status":
			n, _ := strconv.Atoi(r.URL.RawQuery)
			w.WriteHeader(n)
			if n != 204 && n != 304 {
				w.Write([]byte("status body"))
			}
		case "/big":
			w.Write(bytes.Repeat([]byte{'z'}, 3<<20))
		case "/reset":
			panic(http.ErrAbortHandler)
		default:
			w.Write(append([]byte("echo:"), b...))
		}
	}), ConnState: func(c net.Conn, s http.ConnState) {
		mu.Lock()
		defer mu.Unlock()
		if s == http.StateClosed {
			delete(open, c)
		} else {
			open[c] = true
		}
	}}
	srv.ErrorLog = nil
	go srv.Serve(l)
	base := "http://" + l.Addr().String()
	take := func() []req27 {
		mu.Lock()
		defer mu.Unlock()
		g := got
		got = nil
		return g
	}
	hs := []map[string]string{nil, {}, {"X-A": "1"}, {"x-lower": "v", "Content-Type": "text/plain", "User-Agent": "ua"}, {"X-Empty": "", "X-B": "b", "X-C": "c", "X-D": "d", "Authorization": "t"},
		{"Cookie": "k=v"}}
	cs := []*http.Cookie{nil, {Name: "sid", Value: "abc"}, {Name: "_", Value: ""}}
	for _, bs := range [][]byte{nil, {}, {0}, []byte("hello"), bytes.Repeat([]byte("x\x00\xff"), 100), bytes.Repeat([]byte("big"), 1<<18)} {
		for _, cl := range []bool{false, true} {
			for _, h := range hs {
				for _, c := range cs {
					keep := append([]byte{}, bs...)
					r, err := post27(t, bs, cl, base+"/echo/p?q=1&r=%20", h, c)
					g := take()
					in := fmt.Sprintf("Post3(%d bytes, close=%v, %v, %v)", len(bs), cl, h, c)
					if err != nil {
						fail27(t, "%s against a working server reports %v", in, err)
					}
					if len(g) != 1 {
						fail27(t, "%s made %d requests", in, len(g))
					}
					q := g[0]
					if q.method != "POST" || q.path != "/echo/p" || q.query != "q=1&r=%20" {
						fail27(t, "%s sent %s %s?%s", in, q.method, q.path, q.query)
					}
					if !bytes.Equal(q.body, keep) || !bytes.Equal(bs, keep) || q.clen != int64(len(keep)) {
						fail27(t, "%s: the server received a body of %d bytes (Content-Length %d)", in, len(q.body), q.clen)
					}
					if !bytes.Equal(r, append([]byte("echo:"), keep...)) {
						fail27(t, "%s returned %d bytes that are not the response body", in, len(r))
					}
					for k, v := range h {
						if c != nil && http.CanonicalHeaderKey(k) == "Cookie" {
							continue
						}
						if vs := q.hdr.Values(k); len(vs) != 1 || vs[0] != v {
							if k == "User-Agent" && v == "" {
								continue
							}
							fail27(t, "%s: header %s arrived as %q", in, k, vs)
						}
					}
					if c != nil {
						found := false
						for _, x := range (&http.Request{Header: q.hdr}).Cookies() {
							found = found || x.Name == c.Name && x.Value == c.Value
						}
						if !found {
							fail27(t, "%s: the cookie did not arrive", in)
						}
					} else if _, ok := h["Cookie"]; !ok && q.hdr.Get("Cookie") != "" {
						fail27(t, "%s: a cookie was sent", in)
					}
				}
			}
		}
	}
	for _, n := range []int{200, 201, 204, 304, 400, 404, 500, 503} {
		r, err := post27(t, []byte("b"), false, base+"/status?"+strconv.Itoa(n), map[string]string{"X": "y"}, nil)
		want := "status body"
		if n == 204 || n == 304 {
			want = ""
		}
		if err == nil && string(r) != want {
			fail27(t, "a response with status %d and body %q returned %q and no error", n, want, r)
		}
		if g := take(); len(g) != 1 {
			fail27(t, "a post answered with status %d made %d requests", n, len(g))
		}
	}
	if r, err := post27(t, nil, false, base+"/big", nil, nil); err != nil || len(r) != 3<<20 {
		fail27(t, "a response of 3 MB returned %d bytes, error %v", len(r), err)
	}
	take()
	for _, u := range []string{base + "/short", base + "/reset", "http://127.0.0.1:1/", "http://bad host/", "://", "", "nope://x/", "https://" + l.Addr().String() + "/", "http://[::1", "http://127.0.0.1:99999/", "http:///"} {
		for i, h := range hs[:3] {
			r, err := post27(t, []byte("x"), i == 1, u, h, cs[i])
			if err == nil {
				fail27(t, "a post to %q that cannot succeed returned %q and no error", u, r)
			}
		}
	}
	take()
	for i := 0; i < 30; i++ {
		mu.Lock()
		n := len(open)
		mu.Unlock()
		if n == 0 {
			break
		}
		if i == 29 {
			fail27(t, "%d connections are still open 3 s after every post returned: a response body was not closed", n)
		}
		time.Sleep(100 * time.Millisecond)
	}
	srv.Close()
}
