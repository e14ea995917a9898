package hashmap_test

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestVerifReplayC12(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	vals := []int64{0, 1, -1, 1 << 62, -1 << 63}
	for i := 0; i < 60; i++ {
		vals = append(vals, int64(rnd.Uint64()))
	}
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("REPLAY-FAIL panic: %v", e)
		}
	}()
	for _, rep := range []int{1, 2, 7, 64} {
		ring := hashmap.NewConsistenthash(rep)
		live := map[int64]bool{}
		trace := fmt.Sprintf("NewConsistenthash(%d)", rep)
		for step := 0; step < 60; step++ {
			k := int64(rnd.Intn(6)) - 2
			switch rnd.Intn(5) {
			case 0, 1:
				ring.Del(k)
				delete(live, k)
				trace += fmt.Sprintf(" Del(%d)", k)
			case 2:
				ring.Add(k, k+1, k)
				live[k], live[k+1] = true, true
				trace += fmt.Sprintf(" Add(%d,%d,%d)", k, k+1, k)
			default:
				ring.Add(k)
				live[k] = true
				trace += fmt.Sprintf(" Add(%d)", k)
			}
			want := []int64{}
			for n := range live {
				want = append(want, n)
			}
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			got := append([]int64{}, ring.Nodes()...)
			sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fatalf("REPLAY-FAIL %s: Nodes()=%v want %v", trace, got, want)
			}
			// a second ring with the same nodes, built in one go, must give the same answers
			other := hashmap.NewConsistenthash(rep)
			for i := len(want) - 1; i >= 0; i-- {
				other.Add(want[i])
			}
			check := func(op string, n int64, ok bool, on int64, ook bool) {
				if ok != (len(want) > 0) || ok && !live[n] {
					t.Fatalf("REPLAY-FAIL %s: %s=(%d,%v) with nodes %v", trace, op, n, ok, want)
				}
				if n != on || ok != ook {
					t.Fatalf("REPLAY-FAIL %s: %s=(%d,%v), a ring with the same nodes %v says (%d,%v)", trace, op, n, ok, want, on, ook)
				}
			}
			for _, v := range vals {
				n, ok := ring.Get(v)
				on, ook := other.Get(v)
				check(fmt.Sprintf("Get(%d)", v), n, ok, on, ook)
				s := strconv.FormatInt(v, 36)
				n, ok = ring.GetStr(s)
				on, ook = other.GetStr(s)
				check(fmt.Sprintf("GetStr(%q)", s), n, ok, on, ook)
				nx, nok := ring.GetNextNodeStr(s, 100)
				onx, _ := other.GetNextNodeStr(s, 100)
				if nok != ok || ok && len(nx) != len(want)-1 || fmt.Sprint(nx) != fmt.Sprint(onx) {
					t.Fatalf("REPLAY-FAIL %s: GetNextNodeStr(%q,100)=(%v,%v) with nodes %v, value on %d; same nodes say %v", trace, s, nx, nok, want, n, onx)
				}
				seen := map[int64]bool{n: true}
				for _, x := range nx {
					if !live[x] || seen[x] {
						t.Fatalf("REPLAY-FAIL %s: GetNextNodeStr(%q,100)=%v with nodes %v, value on %d", trace, s, nx, want, n)
					}
					seen[x] = true
				}
			}
		}
	}
}
