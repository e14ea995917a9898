package lock_test

import (
	"math"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/lock"
)

func TestVerifReplayC13(t *testing.T) {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(n))
	for _, size := range []int{1, 2, 3, 7, 16, 100} {
		keys := []int64{0, 1, -1, 2, -2, 3, -7, 127, 128, -128, 1 << 32, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}
		for i := 0; i < 200; i++ {
			keys = append(keys, int64(rnd.Uint64()))
		}
		nl := lock.NewNumLock(size)
		all := map[*sync.Mutex]bool{}
		for i := 0; i < size; i++ {
			m := nl.Lock(int64(i))
			all[m] = true
			nl.Unlock(int64(i))
		}
		one := map[int64]*sync.Mutex{}
		check := func(k int64, m *sync.Mutex, op string) {
			if m == nil {
				t.Fatalf("REPLAY-FAIL NewNumLock(%d): %s(%d) returned no mutex", size, op, k)
			}
			if o, ok := one[k]; ok && o != m {
				t.Fatalf("REPLAY-FAIL NewNumLock(%d): %s(%d) used a different mutex than before", size, op, k)
			}
			one[k] = m
			if m.TryLock() {
				t.Fatalf("REPLAY-FAIL NewNumLock(%d): after %s(%d) the returned mutex is not held", size, op, k)
			}
			for x := range all {
				if x != m {
					if !x.TryLock() {
						t.Fatalf("REPLAY-FAIL NewNumLock(%d): %s(%d) also holds another mutex", size, op, k)
					}
					x.Unlock()
				}
			}
			if _, ok := nl.TryLock(k); ok {
				t.Fatalf("REPLAY-FAIL NewNumLock(%d): TryLock(%d) succeeds while the key is locked", size, k)
			}
			for i := 0; i < 3; i++ { // a key of another stripe
				o := keys[rnd.Intn(len(keys))]
				if om, ok := nl.TryLock(o); ok {
					if om == m {
						t.Fatalf("REPLAY-FAIL NewNumLock(%d): TryLock(%d) reports a held mutex as acquired", size, o)
					}
					if om.TryLock() {
						t.Fatalf("REPLAY-FAIL NewNumLock(%d): TryLock(%d) reported success without holding the mutex", size, o)
					}
					nl.Unlock(o)
					if !om.TryLock() {
						t.Fatalf("REPLAY-FAIL NewNumLock(%d): Unlock(%d) did not release the mutex", size, o)
					}
					om.Unlock()
				}
			}
			nl.Unlock(k)
			if !m.TryLock() {
				t.Fatalf("REPLAY-FAIL NewNumLock(%d): Unlock(%d) did not release the mutex %s took", size, k, op)
			}
			m.Unlock()
		}
		for round := 0; round < 2; round++ {
			for _, k := range keys {
				check(k, nl.Lock(k), "Lock")
				m, ok := nl.TryLock(k)
				if !ok {
					t.Fatalf("REPLAY-FAIL NewNumLock(%d): TryLock(%d) fails on a free key", size, k)
				}
				check(k, m, "TryLock")
			}
		}
		strs := []string{"", "a", "\x00", "key", "\xff\xfe"}
		for i := 0; i < 200; i++ {
			b := make([]byte, rnd.Intn(300))
			rnd.Read(b)
			strs = append(strs, string(b))
		}
		sl := lock.NewStrlock(size)
		ones := map[string]*sync.RWMutex{}
		same := func(k string, m *sync.RWMutex, op string) {
			if m == nil {
				t.Fatalf("REPLAY-FAIL NewStrlock(%d): %s(%q) returned no mutex", size, op, k)
			}
			if o, ok := ones[k]; ok && o != m {
				t.Fatalf("REPLAY-FAIL NewStrlock(%d): %s(%q) used a different mutex than before", size, op, k)
			}
			ones[k] = m
		}
		free := func(k string, m *sync.RWMutex, op string) {
			if !m.TryLock() {
				t.Fatalf("REPLAY-FAIL NewStrlock(%d): %s(%q) did not release the mutex", size, op, k)
			}
			m.Unlock()
		}
		excl := func(k string, m *sync.RWMutex, op string) {
			same(k, m, op)
			if m.TryRLock() {
				t.Fatalf("REPLAY-FAIL NewStrlock(%d): after %s(%q) the mutex is not held exclusively", size, op, k)
			}
			if _, ok := sl.TryLock(k); ok {
				t.Fatalf("REPLAY-FAIL NewStrlock(%d): TryLock(%q) succeeds while locked", size, k)
			}
			if _, ok := sl.TryRLock(k); ok {
				t.Fatalf("REPLAY-FAIL NewStrlock(%d): TryRLock(%q) succeeds while locked", size, k)
			}
			sl.Unlock(k)
			free(k, m, "Unlock")
		}
		shared := func(k string, m *sync.RWMutex, op string) {
			same(k, m, op)
			if m.TryLock() {
				t.Fatalf("REPLAY-FAIL NewStrlock(%d): after %s(%q) the mutex is not held", size, op, k)
			}
			if _, ok := sl.TryLock(k); ok {
				t.Fatalf("REPLAY-FAIL NewStrlock(%d): TryLock(%q) succeeds while read-locked", size, k)
			}
			m2, ok := sl.TryRLock(k)
			if !ok {
				t.Fatalf("REPLAY-FAIL NewStrlock(%d): TryRLock(%q) fails while only read-locked", size, k)
			}
			same(k, m2, "TryRLock")
			sl.RUnlock(k)
			sl.RUnlock(k)
			free(k, m, "RUnlock")
		}
		for round := 0; round < 2; round++ {
			for _, k := range strs {
				excl(k, sl.Lock(k), "Lock")
				if m, ok := sl.TryLock(k); ok {
					excl(k, m, "TryLock")
				} else {
					t.Fatalf("REPLAY-FAIL NewStrlock(%d): TryLock(%q) fails on a free key", size, k)
				}
				shared(k, sl.RLock(k), "RLock")
				if m, ok := sl.TryRLock(k); ok {
					shared(k, m, "TryRLock")
				} else {
					t.Fatalf("REPLAY-FAIL NewStrlock(%d): TryRLock(%q) fails on a free key", size, k)
				}
			}
		}
	}
}
