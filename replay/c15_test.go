package lock_test

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
)

type awaiter interface {
	Wait(idx int64, timeout time.Duration) (int, error)
	WaitWithCancel(ctx context.Context, idx int64, timeout time.Duration) (int, bool, error)
	CloseAndPut(idx int64, v int) error
	Close(idx int64) error
}

type out struct {
	v      int
	cancel bool
	err    error
}

func within(t *testing.T, what string, d time.Duration, f func()) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprint("panic: ", r)
			} else {
				done <- ""
			}
		}()
		f()
	}()
	select {
	case s := <-done:
		if s != "" {
			t.Fatalf("REPLAY-FAIL %s: %s", what, s)
		}
	case <-time.After(d):
		t.Fatalf("REPLAY-FAIL %s: still blocked after %v", what, d)
	}
}

func TestVerifReplay(t *testing.T) {
	for _, c := range []struct {
		name string
		mk   func() awaiter
	}{
		{"Await(1)", func() awaiter { return lock.NewAwait[int](1) }},
		{"Await(16)", func() awaiter { return lock.NewAwait[int](16) }},
		{"FastAwait", func() awaiter { return lock.NewFastAwait[int]() }},
		{"FastAwait2(100)", func() awaiter { return lock.NewFastAwait2[int](100) }},
	} {
		c := c
		t.Run(c.name, func(t *testing.T) {
			t.Parallel()
			for _, to := range []time.Duration{0, -1, time.Minute} {
				a := c.mk()
				id := int64(-7)
				// value
				within(t, fmt.Sprintf("%s Wait(%d,%v) with CloseAndPut", c.name, id, to), 10*time.Second, func() {
					ch := make(chan out, 1)
					go func() { v, err := a.Wait(id, to); ch <- out{v, false, err} }()
					time.Sleep(30 * time.Millisecond)
					if err := a.CloseAndPut(id, 41); err != nil {
						t.Errorf("REPLAY-FAIL %s CloseAndPut: %v", c.name, err)
					}
					if o := <-ch; o.err != nil || o.v != 41 {
						t.Errorf("REPLAY-FAIL %s Wait(%d,%v) = %d,%v after CloseAndPut(41)", c.name, id, to, o.v, o.err)
					}
				})
				// closed without a value
				for _, cancelable := range []bool{false, true} {
					a = c.mk()
					within(t, fmt.Sprintf("%s wait(%d,%v) with Close", c.name, id, to), 10*time.Second, func() {
						ch := make(chan out, 1)
						go func() {
							if cancelable {
								v, b, err := a.WaitWithCancel(context.Background(), id, to)
								ch <- out{v, b, err}
							} else {
								v, err := a.Wait(id, to)
								ch <- out{v, false, err}
							}
						}()
						time.Sleep(30 * time.Millisecond)
						if err := a.Close(id); err != nil {
							t.Errorf("REPLAY-FAIL %s Close: %v", c.name, err)
						}
						if o := <-ch; o.err == nil || o.cancel {
							t.Errorf("REPLAY-FAIL %s wait(%d,%v) closed without a value = %d,%v,%v", c.name, id, to, o.v, o.cancel, o.err)
						}
					})
				}
				// cancelled, and another id untouched
				a = c.mk()
				within(t, fmt.Sprintf("%s WaitWithCancel(%d,%v) with cancel", c.name, id, to), 10*time.Second, func() {
					ctx, cancel := context.WithCancel(context.Background())
					ch, other := make(chan out, 1), make(chan out, 1)
					go func() { v, b, err := a.WaitWithCancel(ctx, id, to); ch <- out{v, b, err} }()
					go func() { v, b, err := a.WaitWithCancel(context.Background(), id+1, to); other <- out{v, b, err} }()
					time.Sleep(30 * time.Millisecond)
					cancel()
					if o := <-ch; o.err == nil || !o.cancel {
						t.Errorf("REPLAY-FAIL %s WaitWithCancel(%d,%v) cancelled = %d,%v,%v", c.name, id, to, o.v, o.cancel, o.err)
					}
					a.CloseAndPut(id+1, 9)
					if o := <-other; o.err != nil || o.v != 9 {
						t.Errorf("REPLAY-FAIL %s WaitWithCancel(%d,%v) = %d,%v,%v after CloseAndPut(9)", c.name, id+1, to, o.v, o.cancel, o.err)
					}
				})
			}
			// an id is free again after every way to end a wait
			for _, id := range []int64{-3, 0, 5, 1 << 40, -1 << 62} {
				a := c.mk()
				within(t, fmt.Sprintf("%s id %d used again", c.name, id), 20*time.Second, func() {
					for k := 0; k < 4; k++ {
						ch := make(chan out, 1)
						to := time.Minute
						if k == 2 {
							to = 30 * time.Millisecond
						}
						go func() { v, err := a.Wait(id, to); ch <- out{v, false, err} }()
						time.Sleep(20 * time.Millisecond)
						switch k {
						case 0, 3:
							a.CloseAndPut(id, 60+k)
						case 1:
							a.Close(id)
						}
						o := <-ch
						if (k == 0 || k == 3) != (o.err == nil) || o.err == nil && o.v != 60+k {
							t.Errorf("REPLAY-FAIL %s wait %d on id %d = %d,%v", c.name, k, id, o.v, o.err)
						}
						if k == 0 || k == 1 {
							a.Close(id)
						}
					}
				})
			}
			// time out, alone and beside a waiter of another id
			a := c.mk()
			within(t, c.name+" Wait times out", 10*time.Second, func() {
				other := make(chan out, 1)
				go func() { v, err := a.Wait(2, 20*time.Second); other <- out{v, false, err} }()
				time.Sleep(20 * time.Millisecond)
				if v, err := a.Wait(1, 30*time.Millisecond); err == nil {
					t.Errorf("REPLAY-FAIL %s Wait timed out with %d and no error", c.name, v)
				}
				a.CloseAndPut(2, 5)
				if o := <-other; o.err != nil || o.v != 5 {
					t.Errorf("REPLAY-FAIL %s Wait(2)=%d,%v after CloseAndPut(2,5) while Wait(1) timed out", c.name, o.v, o.err)
				}
			})
			// races of completers, closers and short timeouts: no panic, no error from them, no foreign value
			a = c.mk()
			within(t, c.name+" races", 40*time.Second, func() {
				var wg sync.WaitGroup
				for i := 0; i < 400; i++ {
					i := i
					id := int64(1000 + i)
					if i%2 == 1 {
						id = -id
					}
					wg.Add(3)
					go func() {
						defer wg.Done()
						d := time.Duration(1+i%4) * time.Millisecond
						v, err := a.Wait(id, d)
						if err == nil && v != int(id) && v != int(-id) {
							t.Errorf("REPLAY-FAIL %s Wait(%d)=%d, which nobody put under that id", c.name, id, v)
						}
					}()
					for _, s := range []int{1, -1} {
						s := s
						go func() {
							defer wg.Done()
							time.Sleep(time.Duration(i%3) * time.Millisecond)
							var err error
							if i%5 < 2 && s*(i%5) <= 0 {
								err = a.Close(id)
							} else {
								err = a.CloseAndPut(id, s*int(id))
							}
							if err != nil {
								t.Errorf("REPLAY-FAIL %s completing %d: %v", c.name, id, err)
							}
						}()
					}
				}
				wg.Wait()
			})
			if at, ok := a.(*lock.Await[int]); ok {
				within(t, c.name+" SyncWait", 10*time.Second, func() {
					for _, to := range []time.Duration{0, time.Minute} {
						var wg sync.WaitGroup
						wg.Add(1)
						ch := make(chan out, 1)
						go func() { v, err := at.SyncWait(&wg, 77, to); ch <- out{v, false, err} }()
						wg.Wait()
						at.CloseAndPut(77, 3)
						if o := <-ch; o.err != nil || o.v != 3 {
							t.Errorf("REPLAY-FAIL SyncWait(%v)=%d,%v", to, o.v, o.err)
						}
						wg.Add(1)
						go func() { v, err := at.SyncWait(&wg, 77, to); ch <- out{v, false, err} }()
						wg.Wait()
						at.Close(77)
						if o := <-ch; o.err == nil {
							t.Errorf("REPLAY-FAIL SyncWait(%v)=%d without error after Close", to, o.v)
						}
					}
				})
			}
		})
	}
}
