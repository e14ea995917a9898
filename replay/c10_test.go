package hashmap

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
)

type api10[K comparable, V any] interface {
	Put(K, V) (V, bool)
	Get(K) (V, bool)
	Has(K) bool
	Del(K) bool
	Range(func(K, V) bool)
}

func seq10[V comparable](t *testing.T, name string, m api10[int, V], ln func() int64, vals []V, rnd *rand.Rand) {
	ref := map[int]V{}
	log := name
	fail := func(f string, a ...any) {
		t.Helper()
		fmt.Printf("REPLAY-FAIL %s: "+f+"\n", append([]any{log}, a...)...)
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic %v", e)
		}
	}()
	var zero V
	for i := 0; i < 400; i++ {
		k := rnd.Intn(6)
		if len(log) > 600 {
			log = log[:100] + " ..." + log[len(log)-300:]
		}
		switch rnd.Intn(5) {
		case 0, 1:
			v := vals[rnd.Intn(len(vals))]
			log += fmt.Sprintf(" Put(%d,%v)", k, v)
			p, b := m.Put(k, v)
			wp, wb := ref[k]
			if p != wp || b != wb {
				fail("= %v,%v want %v,%v", p, b, wp, wb)
			}
			ref[k] = v
		case 2:
			log += fmt.Sprintf(" Del(%d)", k)
			_, wb := ref[k]
			if b := m.Del(k); b != wb {
				fail("= %v want %v", b, wb)
			}
			delete(ref, k)
		case 3:
			log += fmt.Sprintf(" Get(%d)", k)
			v, b := m.Get(k)
			wv, wb := ref[k]
			if v != wv || b != wb || !b && v != zero {
				fail("= %v,%v want %v,%v", v, b, wv, wb)
			}
			if m.Has(k) != wb {
				fail("Has(%d) = %v", k, !wb)
			}
		case 4:
			log += " Range"
			seen := map[int]V{}
			m.Range(func(k int, v V) bool {
				if _, ok := seen[k]; ok {
					fail("visited %d twice", k)
				}
				seen[k] = v
				return true
			})
			if len(seen) != len(ref) {
				fail("visited %v want %v", seen, ref)
			}
			for k, v := range ref {
				if w, ok := seen[k]; !ok || w != v {
					fail("visited %v want %v", seen, ref)
				}
			}
			n, stop := 0, 1+rnd.Intn(3)
			m.Range(func(int, V) bool { n++; return n < stop })
			if n > stop || n < stop && n < len(ref) {
				fail("Range visited %d pairs, told to stop after %d of %d", n, stop, len(ref))
			}
		}
		if ln != nil && ln() != int64(len(ref)) {
			fail("Len() = %d want %d", ln(), len(ref))
		}
	}
}

func conc10(t *testing.T, name string, m api10[int, int], ln func() int64, rounds int) {
	for r := 0; r < rounds; r++ {
		var news, dels, puts int64
		var wg sync.WaitGroup
		var start sync.WaitGroup
		start.Add(1)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(int64(r*100 + g)))
				start.Wait()
				for i := 0; i < 40; i++ {
					k := rnd.Intn(3)
					if rnd.Intn(3) > 0 {
						atomic.AddInt64(&puts, 1)
						if _, b := m.Put(k, i); !b {
							atomic.AddInt64(&news, 1)
						}
					} else if m.Del(k) {
						atomic.AddInt64(&dels, 1)
					}
				}
			}(g)
		}
		start.Done()
		wg.Wait()
		n := int64(0)
		m.Range(func(int, int) bool { n++; return true })
		if ln != nil && ln() != n {
			fmt.Printf("REPLAY-FAIL %s: after concurrent Put/Del of 3 keys by 8 goroutines Len() = %d but %d keys are present\n", name, ln(), n)
			t.FailNow()
		}
		if news-dels != n {
			fmt.Printf("REPLAY-FAIL %s: concurrent Put/Del: %d insertions reported, %d removals reported, %d keys present\n", name, news, dels, n)
			t.FailNow()
		}
		m.Range(func(k int, _ int) bool { m.Del(k); return true })
	}
}

func TestVerifReplay(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	e1, e2 := fmt.Errorf("a"), fmt.Errorf("b")
	for i := 0; i < 40; i++ {
		seq10[int](t, "Map[int,int]", NewMap[int, int](), nil, []int{0, 1, 2}, rnd)
		seq10[error](t, "Map[int,error]", NewMap[int, error](), nil, []error{nil, e1, e2}, rnd)
		l := NewMapL[int, int]()
		seq10[int](t, "MapL[int,int]", l, l.Len, []int{0, 1, 2}, rnd)
		l2 := NewMapL[int, error]()
		seq10[error](t, "MapL[int,error]", l2, l2.Len, []error{nil, e1, e2}, rnd)
	}
	m := NewMap[int, int]()
	conc10(t, "Map[int,int]", m, nil, 6000)
	l := NewMapL[int, int]()
	conc10(t, "MapL[int,int]", l, l.Len, 6000)
}
