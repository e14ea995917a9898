package util

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func be01(n uint64, w int) []byte {
	b := make([]byte, w)
	for i := w - 1; i >= 0; i-- {
		b[i] = byte(n)
		n >>= 8
	}
	return b
}

func dec01(bs []byte, w int) uint64 {
	if len(bs) > w {
		bs = bs[:w]
	}
	return new(big.Int).SetBytes(bs).Uint64()
}

func fail01(t *testing.T, f string, a ...any) {
	t.Helper()
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func TestVerifReplay(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	what := ""
	defer func() {
		if e := recover(); e != nil {
			fail01(t, "%s panicked: %v", what, e)
		}
	}()
	ints := []int64{0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, -32768, 65535, 1 << 31, -1 << 31, math.MaxInt64, math.MinInt64, 0x0102030405060708, -0x0102030405060708}
	for i := 0; i < 64; i++ {
		ints = append(ints, 1<<i, -1<<i, 0xff<<i)
	}
	for i := 0; i < 4000; i++ {
		ints = append(ints, int64(rnd.Uint64())>>uint(rnd.Intn(64)))
	}
	for _, n := range ints {
		what = fmt.Sprintf("Int64ToBytes(%d)", n)
		if b := Int64ToBytes(n); !bytes.Equal(b, be01(uint64(n), 8)) {
			fail01(t, "%s = %x", what, b)
		}
		what = fmt.Sprintf("Int32ToBytes(%d)", int32(n))
		if b := Int32ToBytes(int32(n)); !bytes.Equal(b, be01(uint64(uint32(n)), 4)) {
			fail01(t, "%s = %x", what, b)
		}
		what = fmt.Sprintf("Int16ToBytes(%d)", int16(n))
		if b := Int16ToBytes(int16(n)); !bytes.Equal(b, be01(uint64(uint16(n)), 2)) {
			fail01(t, "%s = %x", what, b)
		}
	}
	for i := 0; i < 60000; i++ {
		bs := make([]byte, rnd.Intn(20))
		rnd.Read(bs)
		if rnd.Intn(3) == 0 {
			for j := range bs {
				bs[j] = []byte{0, 0x7f, 0x80, 0xff}[rnd.Intn(4)]
			}
		}
		keep := append([]byte{}, bs...)
		what = fmt.Sprintf("BytesToInt64(%x)", bs)
		if n := BytesToInt64(bs); n != int64(dec01(keep, 8)) {
			fail01(t, "%s = %d", what, n)
		}
		what = fmt.Sprintf("BytesToInt32(%x)", bs)
		if n := BytesToInt32(bs); n != int32(dec01(keep, 4)) {
			fail01(t, "%s = %d", what, n)
		}
		what = fmt.Sprintf("BytesToInt16(%x)", bs)
		if n := BytesToInt16(bs); n != int16(dec01(keep, 2)) {
			fail01(t, "%s = %d", what, n)
		}
		if !bytes.Equal(bs, keep) {
			fail01(t, "decoding changed its input %x", keep)
		}
	}
	for i := 0; i < 3000; i++ {
		a := make([]int64, rnd.Intn(40))
		if i > 2990 {
			a = make([]int64, rnd.Intn(5000))
		}
		var want []byte
		for j := range a {
			a[j] = ints[rnd.Intn(len(ints))]
			want = append(want, be01(uint64(a[j]), 8)...)
		}
		what = fmt.Sprintf("IntArrayToBytes(%d ints)", len(a))
		b := IntArrayToBytes(a)
		if !bytes.Equal(b, want) {
			fail01(t, "%s wrong for %v", what, a)
		}
		extra := rnd.Intn(8)
		what = fmt.Sprintf("BytesToIntArray(%d ints and %d bytes)", len(a), extra)
		c := BytesToIntArray(append(append([]byte{}, b...), make([]byte, extra)...))
		if len(c) != len(a) {
			fail01(t, "%s has %d ints", what, len(c))
		}
		for j := range c {
			if c[j] != a[j] {
				fail01(t, "%s [%d] = %d, want %d", what, j, c[j], a[j])
			}
		}
	}
}
