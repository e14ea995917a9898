package hashmap_test

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func seed7() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

// reference: map plus keys from most to least recently written
type ref7 struct {
	m    map[any]any
	ord  []any
	capy int
}

func (r *ref7) drop(k any) {
	delete(r.m, k)
	for i, x := range r.ord {
		if x == k {
			r.ord = append(append([]any{}, r.ord[:i]...), r.ord[i+1:]...)
			return
		}
	}
}

func (r *ref7) put(k, v any) (prev any, ok bool) {
	prev, ok = r.m[k]
	if ok {
		r.drop(k)
	} else if len(r.m) >= r.capy {
		r.drop(r.ord[len(r.ord)-1])
	}
	r.m[k] = v
	r.ord = append([]any{k}, r.ord...)
	return
}

func run7[K comparable](t *testing.T, rnd *rand.Rand, keys []K) {
	for round := 0; round < 400; round++ {
		capy := 1 + rnd.Intn(5)
		m := hashmap.NewLimitMap[K, int](capy)
		r := &ref7{m: map[any]any{}, capy: capy}
		trace := fmt.Sprintf("NewLimitMap(%d)", capy)
		for step := 0; step < 40; step++ {
			k := keys[rnd.Intn(len(keys))]
			switch rnd.Intn(8) {
			case 0:
				trace += fmt.Sprintf(" Del(%v)", k)
				m.Del(k)
				r.drop(k)
			case 1:
				ks := []K{}
				for i := rnd.Intn(4); i > 0; i-- {
					ks = append(ks, keys[rnd.Intn(len(keys))])
				}
				trace += fmt.Sprintf(" RemoveMulti(%v)", ks)
				m.RemoveMulti(ks)
				for _, x := range ks {
					r.drop(x)
				}
			default:
				v := rnd.Intn(5)
				trace += fmt.Sprintf(" Put(%v,%d)", k, v)
				p, ok := m.Put(k, v)
				rp, rok := r.put(k, v)
				if rp == nil {
					rp = 0
				}
				if ok != rok || p != rp.(int) {
					t.Fatalf("REPLAY-FAIL %s returned (%d,%v) want (%v,%v)", trace, p, ok, rp, rok)
				}
			}
			if m.Len() != len(r.m) {
				t.Fatalf("REPLAY-FAIL %s: Len()=%d want %d", trace, m.Len(), len(r.m))
			}
			for _, x := range keys {
				v, ok := m.Get(x)
				rv, rok := r.m[x]
				if rv == nil {
					rv = 0
				}
				if ok != rok || v != rv.(int) {
					t.Fatalf("REPLAY-FAIL %s: Get(%v)=(%d,%v) want (%v,%v)", trace, x, v, ok, rv, rok)
				}
			}
		}
	}
}

func TestVerifReplay(t *testing.T) {
	rnd := rand.New(rand.NewSource(seed7()))
	run7(t, rnd, []int{0, 1, 2, 3, 4, 5, 6})
	run7(t, rnd, []string{"", "a", "b", "ab", "c", "d"})
	run7(t, rnd, []any{0, "a", int64(0), nil, 3, uint8(0), "b"})
}
