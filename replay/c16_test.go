package mmap

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"
)

func fail16(t *testing.T, f string, a ...any) {
	t.Helper()
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func TestVerifReplay(t *testing.T) {
	doing := ""
	defer func() {
		if e := recover(); e != nil {
			fail16(t, "%s: panic %v", doing, e)
		}
	}()
	dir := t.TempDir()
	nf := 0
	mk := func(size int, start int64) (*Mmap, *os.File, error) {
		nf++
		f, err := os.OpenFile(filepath.Join(dir, fmt.Sprint(nf)), os.O_RDWR|os.O_CREATE, 0o600)
		if err != nil {
			t.Fatal(err)
		}
		f.Truncate(int64(size))
		doing = fmt.Sprintf("NewMMAP(%d bytes, %d)", size, start)
		m, err := NewMMAP(f, start)
		return m, f, err
	}
	rnd := rand.New(rand.NewSource(1))
	for _, size := range []int{0, 1, 10, 4096, 5000} {
		for _, start := range []int64{math.MinInt64, -1, 0, 1, 9, 10, 11, 4095, 4096, 4097, math.MaxInt64} {
			m, f, err := mk(size, start)
			ok := start >= 0 && start < int64(size)
			if ok != (err == nil) || ok && (m == nil || len(m.Bytes()) != size || m.FileSize() != int64(size)) {
				fail16(t, "%s: %v, %v", doing, m, err)
			}
			if ok {
				m.Unmap()
			}
			f.Close()
		}
	}
	for round := 0; round < 150; round++ {
		size := []int{1, 7, 64, 300, 4096, 4097, 9000, 20000}[rnd.Intn(8)]
		start := rnd.Intn(size)
		m, f, err := mk(size, int64(start))
		if err != nil {
			fail16(t, "%s: %v", doing, err)
		}
		log := doing
		ref, off := make([]byte, size), start
		for i := 0; i < 40; i++ {
			n := rnd.Intn(size/8 + 3)
			switch rnd.Intn(8) {
			case 0:
				n = 0
			case 1:
				n = size - off
			case 2:
				n = size - off + 1
			}
			if n < 0 {
				n = 0
			}
			b := make([]byte, n)
			rnd.Read(b)
			sync := rnd.Intn(4) == 0
			if rnd.Intn(2) == 0 {
				doing = fmt.Sprintf("%s Append(%d bytes at %d)", log, n, off)
				var at int64
				if sync {
					at, err = m.AppendSync(b)
				} else {
					at, err = m.Append(b)
				}
				if ok := off+n <= size; ok != (err == nil) || ok && at != int64(off) {
					fail16(t, "%s = %d, %v", doing, at, err)
				} else if ok {
					copy(ref[off:], b)
					off += n
				}
			} else {
				o := rnd.Intn(size + 2)
				switch rnd.Intn(12) {
				case 0:
					o = size - n
				case 1:
					o = size - n + 1
				case 2:
					o = size
				case 3:
					o = -1 - rnd.Intn(20)
				case 4:
					o = math.MaxInt - rnd.Intn(3)
				case 5:
					o = math.MinInt + rnd.Intn(3)
				case 6:
					o = off
				case 7:
					o = math.MaxInt - n + 1
				}
				doing = fmt.Sprintf("%s WriteAt(%d bytes, %d)", log, n, o)
				if sync {
					err = m.WriteAtSync(b, o)
				} else {
					err = m.WriteAt(b, o)
				}
				if ok := o >= 0 && o <= size-n; ok != (err == nil) {
					fail16(t, "%s = %v", doing, err)
				} else if ok {
					copy(ref[o:], b)
					off = max(off, o+n)
				}
			}
			if len(doing) < 400 {
				log = doing
			}
			if !bytes.Equal(m.Bytes(), ref) {
				fail16(t, "%s: the mapping is not what was written", doing)
			}
		}
		doing = "Close"
		if err := m.Close(); err != nil {
			fail16(t, "%s Close: %v", log, err)
		}
		f.Close()
		if d, _ := os.ReadFile(f.Name()); !bytes.Equal(d, ref) {
			fail16(t, "%s: the file is not what was written", log)
		}
	}
	// concurrent appends around the end of the file, some of them too long
	for round := 0; round < 400; round++ {
		const size = 4096
		m, f, err := mk(size, size-64)
		if err != nil {
			fail16(t, "%s: %v", doing, err)
		}
		var mu sync.Mutex
		used := map[int64]int{}
		bad := ""
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						bad = fmt.Sprint("panic ", e)
						mu.Unlock()
					}
				}()
				for i := 0; i < 12; i++ {
					n := 1
					if g%2 == 0 {
						n = 65 + i
					}
					if at, err := m.Append(make([]byte, n)); err == nil {
						mu.Lock()
						for j := 0; j < n; j++ {
							used[at+int64(j)]++
						}
						mu.Unlock()
					} else if n == 1 {
						mu.Lock()
						bad = fmt.Sprint("a byte that fits is refused: ", err)
						mu.Unlock()
					}
				}
			}(g)
		}
		wg.Wait()
		for at, k := range used {
			if k != 1 || at < size-64 || at >= size {
				bad = fmt.Sprintf("offset %d given %d times", at, k)
			}
		}
		if bad == "" && len(used) != 48 {
			bad = fmt.Sprintf("%d bytes appended, %d offsets", 48, len(used))
		}
		if bad != "" {
			fail16(t, "8 goroutines append 1 byte or more than fit near the end of the file: %s", bad)
		}
		m.Unmap()
		f.Close()
	}
	// concurrent appends
	for round := 0; round < 60; round++ {
		m, f, err := mk(1<<16, int64(rnd.Intn(100)))
		if err != nil {
			fail16(t, "%s: %v", doing, err)
		}
		type iv struct {
			at int64
			b  []byte
		}
		var mu sync.Mutex
		var got []iv
		var bad string
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						bad = fmt.Sprint("panic ", e)
						mu.Unlock()
					}
				}()
				r := rand.New(rand.NewSource(int64(round*8 + g)))
				for i := 0; i < 150; i++ {
					b := make([]byte, 1+r.Intn(90))
					r.Read(b)
					if at, err := m.Append(b); err == nil {
						mu.Lock()
						got = append(got, iv{at, b})
						mu.Unlock()
					}
				}
			}(g)
		}
		wg.Wait()
		if bad != "" {
			fail16(t, "concurrent appends: %s", bad)
		}
		sort.Slice(got, func(i, j int) bool { return got[i].at < got[j].at })
		for i, x := range got {
			if i > 0 && got[i-1].at+int64(len(got[i-1].b)) != x.at {
				fail16(t, "concurrent appends: %d bytes at %d, then %d at %d", len(got[i-1].b), got[i-1].at, len(x.b), x.at)
			}
			if !bytes.Equal(m.Bytes()[x.at:x.at+int64(len(x.b))], x.b) {
				fail16(t, "concurrent appends: the bytes at %d are not those given", x.at)
			}
		}
		m.Unmap()
		f.Close()
	}
}
