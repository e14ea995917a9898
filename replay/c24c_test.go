package cache_test

import (
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/cache"
)

func TestVerifReplayC24(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	for round := 0; round < 40; round++ {
		c := cache.NewLruCache[int](4)
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			rnd := rand.New(rand.NewSource(seed + int64(round*100+g)))
			go func() {
				defer wg.Done()
				for i := 0; i < 40; i++ {
					k := strconv.Itoa(rnd.Intn(8))
					switch rnd.Intn(5) {
					case 0, 1:
						c.Get(k)
					case 2:
						c.Add(k, i)
					case 3:
						c.Remove(k)
					default:
						c.RemoveMulti([]string{k, "0"})
					}
				}
			}()
		}
		wg.Wait()
	}
}
