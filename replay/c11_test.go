package hashmap_test

import (
	"cmp"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func seed11() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func run11[K cmp.Ordered](t *testing.T, rnd *rand.Rand, keys []K) {
	for round := 0; round < 150; round++ {
		deg := 2 + rnd.Intn(3)
		m := hashmap.NewTreeMap[K, any](deg)
		ref := map[K]any{}
		trace := fmt.Sprintf("NewTreeMap[%T](%d)", keys[0], deg)
		for step := 0; step < 60; step++ {
			k := keys[rnd.Intn(len(keys))]
			if rnd.Intn(4) == 0 {
				trace += fmt.Sprintf(" Del(%v)", k)
				m.Del(k)
				delete(ref, k)
			} else {
				var v any = rnd.Intn(4)
				if v == 0 {
					v = nil
				}
				trace += fmt.Sprintf(" Put(%v,%v)", k, v)
				p, ok := m.Put(k, v)
				rp, rok := ref[k]
				if ok != rok || p != rp {
					t.Fatalf("REPLAY-FAIL %s returned (%v,%v) want (%v,%v)", trace, p, ok, rp, rok)
				}
				ref[k] = v
			}
			for _, x := range keys {
				v, ok := m.Get(x)
				rv, rok := ref[x]
				if ok != rok || v != rv {
					t.Fatalf("REPLAY-FAIL %s: Get(%v)=(%v,%v) want (%v,%v)", trace, x, v, ok, rv, rok)
				}
			}
			ks := []K{}
			for x := range ref {
				ks = append(ks, x)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
			stop := rnd.Intn(len(ks) + 2)
			n := 0
			m.Ascend(func(k K, v any) bool {
				if n >= len(ks) || k != ks[n] || v != ref[k] {
					t.Fatalf("REPLAY-FAIL %s: Ascend visit %d is (%v,%v), keys %v", trace, n, k, v, ks)
				}
				n++
				return n != stop
			})
			if stop == 0 || stop > len(ks) {
				stop = len(ks)
			}
			if n != stop {
				t.Fatalf("REPLAY-FAIL %s: Ascend made %d visits want %d", trace, n, stop)
			}
			n = 0
			m.Descend(func(k K, v any) bool {
				if n >= len(ks) || k != ks[len(ks)-1-n] || v != ref[k] {
					t.Fatalf("REPLAY-FAIL %s: Descend visit %d is (%v,%v), keys %v", trace, n, k, v, ks)
				}
				n++
				return n != stop
			})
			if n != stop {
				t.Fatalf("REPLAY-FAIL %s: Descend made %d visits want %d", trace, n, stop)
			}
		}
	}
}

func TestVerifReplay(t *testing.T) {
	rnd := rand.New(rand.NewSource(seed11()))
	run11(t, rnd, []int{math.MinInt, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, math.MaxInt})
	run11(t, rnd, []string{"", "a", "aa", "ab", "b", "B", "é", "\xff"})
	run11(t, rnd, []float64{math.Inf(-1), -1.5, 0, 5e-324, 1, 1e300, math.Inf(1)})
	run11(t, rnd, []uint8{0, 1, 127, 128, 255})
}
