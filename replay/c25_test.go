package cache_test

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func seed25() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

type st25 struct{ a, b int }

func run25[T any](t *testing.T, rnd *rand.Rand, vals []T) {
	keys := []any{"", "a", "b", "c", "1", 1, int64(1), 2.5, st25{1, 2}, [2]int{3, 4}}
	var zero T
	for round := 0; round < 150; round++ {
		capy := rnd.Intn(6)
		m := cache.NewLruCache[T](capy)
		ref := map[any]T{}
		ord := []any{} // most recently used first
		drop := func(k any) {
			delete(ref, k)
			for i, x := range ord {
				if x == k {
					ord = append(append([]any{}, ord[:i]...), ord[i+1:]...)
					return
				}
			}
		}
		touch := func(k any) {
			v := ref[k]
			drop(k)
			ref[k] = v
			ord = append([]any{k}, ord...)
		}
		trace := fmt.Sprintf("NewLruCache[%T](%d)", zero, capy)
		for step := 0; step < 60; step++ {
			k := keys[rnd.Intn(len(keys))]
			switch rnd.Intn(8) {
			case 0:
				trace += fmt.Sprintf(" Remove(%#v)", k)
				m.Remove(k)
				drop(k)
			case 1:
				ks := []string{}
				for i := rnd.Intn(4); i > 0; i-- {
					ks = append(ks, []string{"", "a", "x", "b", "c", "1"}[rnd.Intn(6)])
				}
				trace += fmt.Sprintf(" RemoveMulti(%q)", ks)
				m.RemoveMulti(ks)
				for _, x := range ks {
					drop(x)
				}
			case 2:
				trace += " Add(nil)"
				m.Add(nil, vals[0])
			case 3, 4:
				trace += fmt.Sprintf(" Get(%#v)", k)
				v, ok := m.Get(k)
				rv, rok := ref[k]
				if ok != rok || any(v) != any(rv) {
					t.Fatalf("REPLAY-FAIL %s=(%v,%v) want (%v,%v)", trace, v, ok, rv, rok)
				}
				if rok {
					touch(k)
				}
			default:
				v := vals[rnd.Intn(len(vals))]
				trace += fmt.Sprintf(" Add(%#v,%v)", k, v)
				m.Add(k, v)
				ref[k] = v
				touch(k)
				if capy > 0 && len(ref) > capy {
					drop(ord[len(ord)-1])
				}
			}
		}
		// finally every key, least recently used last so that Get does not disturb later answers
		for _, x := range keys {
			v, ok := m.Get(x)
			rv, rok := ref[x]
			if ok != rok || any(v) != any(rv) {
				t.Fatalf("REPLAY-FAIL %s: Get(%#v)=(%v,%v) want (%v,%v)", trace, x, v, ok, rv, rok)
			}
		}
		if v, ok := m.Get(nil); ok || any(v) != any(zero) {
			t.Fatalf("REPLAY-FAIL %s: Get(nil)=(%v,%v)", trace, v, ok)
		}
	}
}

func TestVerifReplay(t *testing.T) {
	rnd := rand.New(rand.NewSource(seed25()))
	run25(t, rnd, []int{0, 1, 2})
	run25(t, rnd, []string{"", "x"})
	run25(t, rnd, []any{nil, 0, "s", 2.5})
	run25(t, rnd, []error{nil, errors.New("e")})
	run25(t, rnd, []*int{nil, new(int)})
	run25(t, rnd, []st25{{}, {1, 2}})
}
