package base58

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

const alpha02 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func enc02(n uint64) []byte {
	var out []byte
	b := new(big.Int).SetUint64(n)
	d, m := big.NewInt(58), new(big.Int)
	for b.Sign() > 0 {
		b.DivMod(b, d, m)
		out = append([]byte{alpha02[m.Int64()]}, out...)
	}
	return out
}

func dec02(s []byte) (uint64, bool) {
	v := new(big.Int)
	for _, c := range s {
		i := bytes.IndexByte([]byte(alpha02), c)
		if i < 0 {
			return 0, false
		}
		v.Mul(v, big.NewInt(58)).Add(v, big.NewInt(int64(i)))
	}
	return v.Uint64(), v.IsUint64()
}

func fail02(t *testing.T, f string, a ...any) {
	t.Helper()
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func TestVerifReplay(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	what := ""
	defer func() {
		if e := recover(); e != nil {
			fail02(t, "%s panicked: %v", what, e)
		}
	}()
	nums := []uint64{0, 1, 57, 58, 59, 3363, 3364, math.MaxUint64, math.MaxUint64 - 1, math.MaxInt64, 1 << 63}
	p := uint64(1)
	for i := 0; i < 11; i++ {
		for d := uint64(0); d < 58; d++ {
			nums = append(nums, p*d, p*d-1, p*d+1)
		}
		p *= 58
	}
	for i := 0; i < 64; i++ {
		nums = append(nums, 1<<i, 1<<i-1)
	}
	for i := 0; i < 30000; i++ {
		nums = append(nums, rnd.Uint64()>>uint(rnd.Intn(64)))
	}
	for n := uint64(0); n < 60000; n++ {
		nums = append(nums, n)
	}
	for _, n := range nums {
		what = fmt.Sprintf("EncodeForInt64(%d)", n)
		e := EncodeForInt64(n)
		if !bytes.Equal(e, enc02(n)) {
			fail02(t, "%s = %q want %q", what, e, enc02(n))
		}
		what = fmt.Sprintf("DecodeForInt64(%q)", e)
		if r, ok := DecodeForInt64(e); !ok || r != n {
			fail02(t, "%s = %d,%v want %d,true", what, r, ok, n)
		}
	}
	dec := func(s []byte) {
		what = fmt.Sprintf("DecodeForInt64(%q)", s)
		in := append([]byte(nil), s...)
		r, ok := DecodeForInt64(s)
		wr, wok := dec02(in)
		if ok != wok || ok && r != wr {
			fail02(t, "%s = %d,%v want %d,%v", what, r, ok, wr, wok)
		}
		if !bytes.Equal(in, s) {
			fail02(t, "%s changed its input", what)
		}
	}
	for c := 0; c < 256; c++ {
		dec([]byte{byte(c)})
		for k := 0; k < 12; k++ {
			s := []byte("21111111111"[:rnd.Intn(12)])
			if k < len(s) {
				s[k] = byte(c)
			}
			dec(s)
		}
	}
	top := enc02(math.MaxUint64)
	for pos := range top {
		for _, c := range []byte(alpha02) {
			s := append([]byte(nil), top...)
			s[pos] = c
			dec(s)
			dec(append([]byte("1"), s...))
			dec(append(s, c))
		}
	}
	for i := 0; i < 60000; i++ {
		s := make([]byte, rnd.Intn(24))
		for j := range s {
			s[j] = alpha02[rnd.Intn(58)]
		}
		if len(s) > 0 && rnd.Intn(4) == 0 {
			s[rnd.Intn(len(s))] = byte(rnd.Intn(256))
		}
		dec(s)
	}
}
