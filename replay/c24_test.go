package hashmap_test

import (
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

// many goroutines call every method of one container; the race detector reports an access outside the lock,
// and a lock that is not released hangs the run
func TestVerifReplayC24(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	run := func(name string, n int, ops ...func(k int)) {
		t.Log("concurrent calls on", name)
		for round := 0; round < n; round++ {
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				wg.Add(1)
				rnd := rand.New(rand.NewSource(seed + int64(round*100+g)))
				go func() {
					defer wg.Done()
					for i := 0; i < 40; i++ {
						ops[rnd.Intn(len(ops))](rnd.Intn(8))
					}
				}()
			}
			wg.Wait()
		}
	}
	lm := hashmap.NewLimitMap[int, int](4)
	run("LimitMap", 30, func(k int) { lm.Get(k) }, func(k int) { lm.Put(k, k) }, func(k int) { lm.Put(k, k+1) }, func(k int) { lm.Del(k) },
		func(k int) { lm.RemoveMulti([]int{k, k + 1}) }, func(k int) { lm.Len() })
	lh := hashmap.NewLimitHashMapWithSegment[int, int](8, 2)
	run("LimitHashMap", 30, func(k int) { lh.Get(k) }, func(k int) { lh.Put(k, k) }, func(k int) { lh.Put(k, k+1) }, func(k int) { lh.Del(k) },
		func(k int) { lh.Contains(k) }, func(k int) { lh.Len() }, func(k int) {
			if k == 0 {
				lh.Clear()
			}
		})
	for _, lim := range []int64{0, 4} {
		lk := hashmap.NewLinkedHashMap[int, int](lim)
		run("LinkedHashMap", 30, func(k int) { lk.Get(k) }, func(k int) { lk.Put(k, k) }, func(k int) { lk.LoadOrStore(k, k) }, func(k int) { lk.Delete(k) },
			func(k int) { lk.Back() }, func(k int) { lk.Front() }, func(k int) { lk.Len() }, func(k int) { lk.MoveToFront(k) }, func(k int) {
				it := lk.Iterator(k%2 == 0)
				for i := 0; i < 5; i++ {
					it.Next()
				}
			}, func(k int) {
				if k == 0 {
					lk.Clear()
				}
			})
	}
	tm := hashmap.NewTreeMap[int, int](2)
	run("TreeMap", 30, func(k int) { tm.Get(k) }, func(k int) { tm.Put(k, k) }, func(k int) { tm.Put(k, k+1) }, func(k int) { tm.Del(k) },
		func(k int) { tm.Ascend(func(a, b int) bool { return a < k }) }, func(k int) { tm.Descend(func(a, b int) bool { return a > k }) })
	ch := hashmap.NewConsistenthash(3)
	run("Consistenthash", 30, func(k int) { ch.Get(int64(k)) }, func(k int) { ch.GetStr(strconv.Itoa(k)) }, func(k int) { ch.GetNextNodeStr(strconv.Itoa(k), 2) },
		func(k int) { ch.Add(int64(k)) }, func(k int) { ch.Del(int64(k)) }, func(k int) { ch.Nodes() })
}
