package hashmap_test

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
)

func seed8() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

type key8 interface {
	int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string
}

// id8 identifies a key: floats by bit pattern
func id8[K key8](k K) any {
	switch x := any(k).(type) {
	case float64:
		return math.Float64bits(x)
	case float32:
		return math.Float32bits(x)
	}
	return k
}

func run8[K key8, V any](t *testing.T, rnd *rand.Rand, keys []K, vals []V) {
	var zero V
	for round := 0; round < 150; round++ {
		capy := 1 + rnd.Intn(6)
		segs := 1 + rnd.Intn(4)
		var m *hashmap.LimitHashMap[K, V]
		var trace string
		switch rnd.Intn(3) {
		case 0:
			segs, trace = 1, fmt.Sprintf("NewLimitHashMapWithSegment[%T](%d,1)", keys[0], capy)
			m = hashmap.NewLimitHashMapWithSegment[K, V](capy, 1)
		case 1:
			trace = fmt.Sprintf("NewLimitHashMapWithSegment[%T](%d,%d)", keys[0], capy, segs)
			m = hashmap.NewLimitHashMapWithSegment[K, V](capy, segs)
		default:
			segs = 64
			capy = []int{1, 3, 63, 64, 100, 1000}[rnd.Intn(6)]
			trace = fmt.Sprintf("NewLimitHashMap[%T](%d)", keys[0], capy)
			m = hashmap.NewLimitHashMap[K, V](capy)
		}
		ref := map[any]V{} // last value written
		held := map[any]bool{}
		ord := []any{} // newest insertion first
		for step := 0; step < 40; step++ {
			k := keys[rnd.Intn(len(keys))]
			switch rnd.Intn(9) {
			case 0:
				trace += fmt.Sprintf(" Del(%v)", k)
				m.Del(k)
				delete(held, id8(k))
			case 1:
				if rnd.Intn(5) == 0 {
					trace += " Clear()"
					m.Clear()
					held = map[any]bool{}
				}
			default:
				v := vals[rnd.Intn(len(vals))]
				trace += fmt.Sprintf(" Put(%v,%v)", k, v)
				was := held[id8(k)]
				p, ok := m.Put(k, v)
				if ok != was || was && any(p) != any(ref[id8(k)]) || !was && any(p) != any(zero) {
					t.Fatalf("REPLAY-FAIL %s returned (%v,%v) want (%v,%v)", trace, p, ok, ref[id8(k)], was)
				}
				ref[id8(k)] = v
				if !was {
					ord = append([]any{id8(k)}, ord...)
				}
				held[id8(k)] = true
			}
			gone := []any{}
			for _, x := range keys {
				v, ok := m.Get(x)
				if c := m.Contains(x); c != ok {
					t.Fatalf("REPLAY-FAIL %s: Contains(%v)=%v but Get ok=%v", trace, x, c, ok)
				}
				if ok && !held[id8(x)] {
					t.Fatalf("REPLAY-FAIL %s: Get(%v) finds a key not held", trace, x)
				}
				if ok && any(v) != any(ref[id8(x)]) || !ok && any(v) != any(zero) {
					t.Fatalf("REPLAY-FAIL %s: Get(%v)=(%v,%v) want %v", trace, x, v, ok, ref[id8(x)])
				}
				if !ok && held[id8(x)] {
					gone = append(gone, id8(x))
					delete(held, id8(x))
				}
			}
			if len(gone) > 1 {
				t.Fatalf("REPLAY-FAIL %s: one operation lost %v", trace, gone)
			}
			if len(gone) == 1 && len(held)+1 <= capy/segs {
				t.Fatalf("REPLAY-FAIL %s: lost %v though no segment can be full", trace, gone)
			}
			if len(gone) == 1 && segs == 1 {
				// the single segment drops the key it has held longest
				for i := len(ord) - 1; i >= 0; i-- {
					if ord[i] == gone[0] {
						break
					}
					if held[ord[i]] {
						last := i
						for j := 0; j < i; j++ {
							if ord[j] == ord[i] {
								last = j
								break
							}
						}
						if last == i {
							t.Fatalf("REPLAY-FAIL %s: dropped %v although %v is older", trace, gone[0], ord[i])
						}
					}
				}
			}
			if m.Len() != len(held) {
				t.Fatalf("REPLAY-FAIL %s: Len()=%d but %d keys are held", trace, m.Len(), len(held))
			}
			if m.Len() > capy {
				t.Fatalf("REPLAY-FAIL %s: Len()=%d exceeds the capacity", trace, m.Len())
			}
		}
	}
}

func ints8[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | uintptr](t *testing.T, rnd *rand.Rand) {
	ks := []K{0, 1, 2, 3, 64, 65, 127}
	var m K
	m--
	ks = append(ks, m, m-1, m-63, m>>1)
	seen := map[K]bool{}
	u := ks[:0]
	for _, k := range ks {
		if !seen[k] {
			seen[k] = true
			u = append(u, k)
		}
	}
	run8(t, rnd, u, []int{0, 1, 2})
	run8(t, rnd, u, []any{nil, 0, "x", 3.5})
}

func TestVerifReplay(t *testing.T) {
	rnd := rand.New(rand.NewSource(seed8()))
	ints8[int](t, rnd)
	ints8[int64](t, rnd)
	ints8[int8](t, rnd)
	ints8[int16](t, rnd)
	ints8[int32](t, rnd)
	ints8[uint](t, rnd)
	ints8[uint64](t, rnd)
	ints8[uint8](t, rnd)
	ints8[uint16](t, rnd)
	ints8[uint32](t, rnd)
	ints8[uintptr](t, rnd)
	ss := []string{"", "a", "b", "ab", "\x34\xd7\xc8\x42\x29\x53\x02\x10", "\x9e\xf1\x84\x98\xd2\xb9\xc8\xf7", "\x00"}
	run8(t, rnd, ss, []int{0, 1, 2})
	run8(t, rnd, ss, []error{nil, fmt.Errorf("e")})
	run8(t, rnd, []float64{0, math.Copysign(0, -1), 1, math.NaN(), math.Inf(1), math.Float64frombits(0x7ff8000000000002), 1e300}, []int{0, 1, 2})
	run8(t, rnd, []float32{0, float32(math.Copysign(0, -1)), 1, float32(math.NaN()), math.Float32frombits(0x7fc00002), 1e30}, []int{0, 1, 2})
}
