package uuid_test

import (
	"encoding/binary"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/uuid"
)

func TestVerifReplay(t *testing.T) {
	const G, N = 8, 40000
	all := make([][]uuid.UUID, G)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			r := make([]uuid.UUID, 0, N)
			for i := 0; i < N; i++ {
				r = append(r, *uuid.NewUUID())
			}
			all[g] = r
		}(g)
	}
	close(start)
	wg.Wait()
	seen := map[uuid.UUID]bool{}
	seq := map[uint64]bool{}
	for _, r := range all {
		for _, u := range r {
			if seen[u] {
				t.Fatalf("REPLAY-FAIL the UUID %s was generated twice", u.String())
			}
			seen[u] = true
			s := binary.BigEndian.Uint64(u[8:]) & (1<<62 - 1)
			if seq[s] {
				t.Fatalf("REPLAY-FAIL two UUIDs carry the sequence number %x", s)
			}
			seq[s] = true
			if u.Version() != 4 || u[8]&0xc0 != 0x80 {
				t.Fatalf("REPLAY-FAIL version or variant bits of %s", u.String())
			}
		}
	}
}
