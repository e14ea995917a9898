package hashmap_test

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func TestVerifReplayC09(t *testing.T) {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(n))
	for round := 0; round < 3000; round++ {
		limit := 1 + rnd.Intn(4)
		m := hashmap.NewLinkedHashMap[int, int](int64(limit))
		var ord []int // most recent first
		val := map[int]int{}
		trace := fmt.Sprintf("NewLinkedHashMap(%d)", limit)
		bad := func(f string, a ...any) {
			t.Fatalf("REPLAY-FAIL %s: %s", trace, fmt.Sprintf(f, a...))
		}
		drop := func(k int) {
			for i, x := range ord {
				if x == k {
					ord = append(append([]int{}, ord[:i]...), ord[i+1:]...)
					break
				}
			}
		}
		add := func(k, v int) {
			drop(k)
			ord = append([]int{k}, ord...)
			val[k] = v
			if len(ord) > limit {
				delete(val, ord[len(ord)-1])
				ord = ord[:len(ord)-1]
			}
		}
		for step := 0; step < 25; step++ {
			k := rnd.Intn(6)
			switch rnd.Intn(10) {
			case 0:
				trace += fmt.Sprintf(" Delete(%d)", k)
				m.Delete(k)
				drop(k)
				delete(val, k)
			case 1:
				trace += fmt.Sprintf(" MoveToFront(%d)", k)
				m.MoveToFront(k)
				if _, ok := val[k]; ok {
					drop(k)
					ord = append([]int{k}, ord...)
				}
			case 2, 3:
				v := rnd.Intn(100) + 1
				trace += fmt.Sprintf(" LoadOrStore(%d,%d)", k, v)
				a, l := m.LoadOrStore(k, v)
				pv, ok := val[k]
				if ok {
					if !l || a != pv {
						bad("got %v,%v want %v,true", a, l, pv)
					}
				} else {
					if l || a != v {
						bad("got %v,%v want %v,false", a, l, v)
					}
					add(k, v)
				}
			case 4:
				if rnd.Intn(6) == 0 {
					trace += " Clear()"
					m.Clear()
					ord = nil
					val = map[int]int{}
				}
			default:
				v := rnd.Intn(100) + 1
				trace += fmt.Sprintf(" Put(%d,%d)", k, v)
				m.Put(k, v)
				add(k, v)
			}
			if m.Len() != int64(len(ord)) {
				bad("Len()=%d want %d", m.Len(), len(ord))
			}
			for k := 0; k < 6; k++ {
				v, ok := m.Get(k)
				w, wok := val[k]
				if ok != wok || v != w {
					bad("Get(%d)=%v,%v want %v,%v", k, v, ok, w, wok)
				}
			}
			for _, front := range []bool{true, false} {
				it := m.Iterator(front)
				for i := range ord {
					want := ord[i]
					if !front {
						want = ord[len(ord)-1-i]
					}
					gk, gv, ok := it.Next()
					if !ok || gk != want || gv != val[want] {
						bad("Iterator(%v) step %d = %v,%v,%v want %v,%v", front, i, gk, gv, ok, want, val[want])
					}
				}
				for i := 0; i < 2; i++ {
					if _, _, ok := it.Next(); ok {
						bad("Iterator(%v) has more than %d entries", front, len(ord))
					}
				}
			}
			fk, fv, ok := m.Front()
			if ok != (len(ord) > 0) || ok && (fk != ord[0] || fv != val[fk]) {
				bad("Front()=%v,%v,%v", fk, fv, ok)
			}
			bk, bv, ok := m.Back()
			if ok != (len(ord) > 0) || ok && (bk != ord[len(ord)-1] || bv != val[bk]) {
				bad("Back()=%v,%v,%v", bk, bv, ok)
			}
		}
	}
}
