package websocket

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	wss "golang.org/x/net/websocket"
)

type srv26 struct {
	url  string
	msgs chan []byte
	kill chan bool
	l    net.Listener
}

func serve26(t *testing.T) *srv26 {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback: ", err)
	}
	s := &srv26{url: "ws://" + l.Addr().String() + "/", msgs: make(chan []byte, 4096), kill: make(chan bool), l: l}
	go http.Serve(l, wss.Handler(func(c *wss.Conn) {
		go func() { <-s.kill; c.Close() }()
		for {
			var b []byte
			if err := wss.Message.Receive(c, &b); err != nil {
				return
			}
			s.msgs <- b
		}
	}))
	return s
}

func fail26(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func (s *srv26) next() ([]byte, bool) {
	select {
	case b := <-s.msgs:
		return b, true
	case <-time.After(2 * time.Second):
		return nil, false
	}
}

func TestVerifReplay(t *testing.T) {
	if h, err := NewHandler(&Config{Url: "http://127.0.0.1/", Origin: "http://x/"}); err == nil || h != nil {
		fail26(t, "a bad protocol is accepted")
	}
	if h, err := NewHandler(&Config{Url: "ws://127.0.0.1:1/", Origin: "http://x/", TimeOut: time.Second}); err == nil || h != nil {
		fail26(t, "a refused connection is reported as success")
	}
	s := serve26(t)
	defer s.l.Close()
	h, err := NewHandler(&Config{Url: s.url, Origin: "http://localhost/"})
	if err != nil {
		t.Skip(err)
	}
	if h == nil {
		fail26(t, "no handler and no error")
	}
	for _, n := range []int{1, 2, 125, 126, 65535, 65536, 200000, 0} {
		b := bytes.Repeat([]byte{byte(n)}, n)
		for i := range b {
			b[i] = byte(i * 7)
		}
		want := append([]byte{}, b...)
		if err := h.Send(b); err != nil {
			fail26(t, "Send of %d bytes: %v", n, err)
		}
		got, ok := s.next()
		if !ok || !bytes.Equal(got, want) {
			fail26(t, "Send of %d bytes arrived as %d bytes (arrived=%v)", n, len(got), ok)
		}
	}
	if n := len(s.msgs); n != 0 {
		fail26(t, "%d messages too many", n)
	}
	// a send waits for the one in progress
	h.mux.Lock()
	done := make(chan error, 1)
	go func() { done <- h.Send([]byte("second")) }()
	select {
	case m := <-s.msgs:
		fail26(t, "Send transmitted %q while another send held the connection", m)
	case <-done:
		fail26(t, "Send returned while another send held the connection")
	case <-time.After(200 * time.Millisecond):
	}
	h.mux.Unlock()
	if err := <-done; err != nil {
		fail26(t, "Send: %v", err)
	}
	s.next()
	// the handler's lock is free again
	for i := 0; i < 50 && !h.mux.TryLock(); i++ {
		if i == 49 {
			fail26(t, "the send lock is still held after Send returned")
		}
		time.Sleep(time.Millisecond)
	}
	h.mux.Unlock()
	var wg sync.WaitGroup
	const G, M = 8, 40
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < M; i++ {
				if err := h.Send([]byte(strings.Repeat(fmt.Sprintf("%d.%d;", g, i), 200))); err != nil {
					fmt.Printf("REPLAY-FAIL concurrent Send: %v\n", err)
					t.Fail()
					return
				}
			}
		}(g)
	}
	wg.Wait()
	seen := map[string]int{}
	for i := 0; i < G*M; i++ {
		b, ok := s.next()
		if !ok {
			fail26(t, "%d of %d concurrent messages arrived", i, G*M)
		}
		seen[string(b)]++
	}
	for g := 0; g < G; g++ {
		for i := 0; i < M; i++ {
			if seen[strings.Repeat(fmt.Sprintf("%d.%d;", g, i), 200)] != 1 {
				fail26(t, "concurrent message %d.%d did not arrive exactly once", g, i)
			}
		}
	}
	// closed by us
	h.Close()
	for i := 0; i < 3; i++ {
		if err := h.Send([]byte("late")); err == nil {
			fail26(t, "Send after Close reports success")
		}
		if h.Error() == nil {
			fail26(t, "Error after Close is nil")
		}
		h.Close()
		time.Sleep(20 * time.Millisecond)
	}
	// a connection that cannot be written to, and closes racing with sends
	h3, err := NewHandler(&Config{Url: s.url, Origin: "http://localhost/"})
	if err != nil {
		t.Skip(err)
	}
	h3.conn.SetWriteDeadline(time.Now().Add(-time.Second))
	for i := 0; i < 2; i++ {
		done := make(chan error, 1)
		go func() { done <- h3.Send([]byte("x")) }()
		select {
		case err := <-done:
			if err == nil {
				fail26(t, "Send number %d on a connection past its write deadline reports success", i+1)
			}
		case <-time.After(5 * time.Second):
			fail26(t, "Send number %d on a connection past its write deadline does not return", i+1)
		}
	}
	h3.Close()
	for n := 0; n < 20; n++ {
		h4, err := NewHandler(&Config{Url: s.url, Origin: "http://localhost/"})
		if err != nil {
			t.Skip(err)
		}
		bad := make(chan any, 16)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						bad <- x
					}
				}()
				for i := 0; i < 30 && h4.Send([]byte("x")) == nil; i++ {
				}
			}()
		}
		time.Sleep(time.Millisecond)
		h4.Close()
		wg.Wait()
		if len(bad) > 0 {
			fail26(t, "Send concurrent with Close panicked: %v", <-bad)
		}
	}
	// failed by the peer
	closed := make(chan bool, 8)
	h2, err := NewHandler(&Config{Url: s.url, Origin: "http://localhost/", OnClose: func(*Handler) { closed <- true }, OnError: func(*Handler, error) {}})
	if err != nil {
		t.Skip(err)
	}
	close(s.kill)
	select {
	case <-closed:
	case <-time.After(3 * time.Second):
		fail26(t, "OnClose was not called after the connection failed")
	}
	for i := 0; i < 3; i++ {
		if err := h2.Send([]byte("late")); err == nil {
			fail26(t, "Send after the connection failed reports success")
		}
	}
	// a handler without a connection
	(&Handler{mux: &sync.Mutex{}}).Close()
}
