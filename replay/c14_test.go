package lock_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
)

func TestVerifReplayC14(t *testing.T) {
	for limit := 1; limit <= 4; limit++ {
		to := 40 * time.Millisecond
		ll := lock.NewLimitLock(limit, to)
		for round := 0; round < 3; round++ {
			for i := 0; i < limit; i++ {
				if err := ll.Lock(); err != nil {
					t.Fatalf("REPLAY-FAIL NewLimitLock(%d): Lock %d of round %d failed: %v", limit, i+1, round, err)
				}
				if n := ll.Cc(); n != int64(i+1) {
					t.Fatalf("REPLAY-FAIL NewLimitLock(%d): Cc()=%d with %d holders", limit, n, i+1)
				}
			}
			for i := 0; i < 2; i++ {
				t0 := time.Now()
				err := ll.Lock()
				if err == nil {
					t.Fatalf("REPLAY-FAIL NewLimitLock(%d): more than the limit hold the lock", limit)
				}
				if d := time.Since(t0); d < to/2 || d > 20*time.Second {
					t.Fatalf("REPLAY-FAIL NewLimitLock(%d): Lock timed out after %v instead of %v", limit, d, to)
				}
			}
			// refused callers, several at once, leave no trace
			var tw sync.WaitGroup
			for i := 0; i < 12; i++ {
				tw.Add(1)
				go func() { defer tw.Done(); ll.Lock() }()
			}
			tw.Wait()
			if n := ll.Cc(); n != int64(limit) {
				t.Fatalf("REPLAY-FAIL NewLimitLock(%d): Cc()=%d with %d holders after 12 concurrent timeouts", limit, n, limit)
			}
			if n := ll.LockCount(); n != int64((round+1)*limit) {
				t.Fatalf("REPLAY-FAIL NewLimitLock(%d): LockCount()=%d want %d", limit, n, (round+1)*limit)
			}
			for i := 0; i < limit; i++ {
				done := make(chan bool)
				go func() { ll.Unlock(); close(done) }()
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					t.Fatalf("REPLAY-FAIL NewLimitLock(%d): Unlock blocks", limit)
				}
				if n := ll.Cc(); n != int64(limit-i-1) {
					t.Fatalf("REPLAY-FAIL NewLimitLock(%d): Cc()=%d with %d holders", limit, n, limit-i-1)
				}
			}
		}
		var in, max, got int64
		var wg sync.WaitGroup
		ll = lock.NewLimitLock(limit, time.Minute)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 300; i++ {
					if ll.Lock() != nil {
						continue
					}
					atomic.AddInt64(&got, 1)
					n := atomic.AddInt64(&in, 1)
					for {
						m := atomic.LoadInt64(&max)
						if n <= m || atomic.CompareAndSwapInt64(&max, m, n) {
							break
						}
					}
					ll.Cc()
					atomic.AddInt64(&in, -1)
					ll.Unlock()
				}
			}()
		}
		wg.Wait()
		if max > int64(limit) {
			t.Fatalf("REPLAY-FAIL NewLimitLock(%d): %d callers held the lock at once", limit, max)
		}
		if ll.Cc() != 0 || ll.LockCount() != got {
			t.Fatalf("REPLAY-FAIL NewLimitLock(%d): at rest Cc()=%d LockCount()=%d after %d acquisitions", limit, ll.Cc(), ll.LockCount(), got)
		}
	}
}
