package compress_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/donnie4w/gofer/compress"
	"github.com/donnie4w/gofer/util"
	"github.com/klauspost/compress/zstd"
)

func fail20(t *testing.T, f string, a ...any) {
	t.Helper()
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

type codec struct {
	name   string
	pack   func([]byte) ([]byte, error)
	unpack func([]byte) ([]byte, error)
	silent bool // no error result
	anyok  bool // the encoder may refuse
	sums   bool // the format has a checksum: damage is always noticed
}

func TestVerifReplay(t *testing.T) {
	doing := ""
	defer func() {
		if e := recover(); e != nil {
			fail20(t, "%s: panic %v", doing, e)
		}
	}()
	cs := []codec{
		{"compress.Zlib", compress.Zlib, compress.UnZlib, false, false, true},
		{"compress.Gzip", compress.Gzip, compress.UnGzip, false, false, true},
		{"compress.Snappy", func(b []byte) ([]byte, error) { return compress.Snappy(b), nil }, compress.UnSnappy, false, false, false},
		{"compress.Zstd", compress.Zstd, compress.UnZstd, false, false, true},
		{"util.Zlib", util.Zlib, util.UnZlib, false, false, true},
		{"util.Gzip", func(b []byte) ([]byte, error) { x, e := util.Gzip(b); return x.Bytes(), e }, func(b []byte) ([]byte, error) { x, e := util.UnGzip(b); return x.Bytes(), e }, false, false, true},
		{"util.Snappy", func(b []byte) ([]byte, error) { return util.SnappyEncode(b), nil }, func(b []byte) ([]byte, error) { return util.SnappyDecode(b), nil }, true, false, false},
	}
	for l := -4; l <= 12; l++ {
		l := l
		cs = append(cs, codec{fmt.Sprintf("compress.ZlibLevel(%d)", l), func(b []byte) ([]byte, error) { return compress.ZlibLevel(b, l) }, compress.UnZlib, false, l < -2 || l > 9, true})
	}
	for l := 0; l <= 6; l++ {
		l := l
		cs = append(cs, codec{fmt.Sprintf("compress.ZstdLevel(%d)", l), func(b []byte) ([]byte, error) { return compress.ZstdLevel(b, zstd.EncoderLevel(l)) }, compress.UnZstd, false, l < 1 || l > 4, true})
	}
	rnd := rand.New(rand.NewSource(1))
	for ci, c := range cs {
		var in [][]byte
		for _, n := range []int{0, 1, 2, 3, 15, 16, 17, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 1 << 20, 1<<20 + 1} {
			r := make([]byte, n)
			rnd.Read(r)
			in = append(in, r, bytes.Repeat([]byte{'a'}, n), bytes.Repeat([]byte("gofer"), n/5+1))
		}
		if ci < 7 {
			in = append(in, make([]byte, 40<<20))
			r := make([]byte, 9<<20)
			rnd.Read(r)
			in = append(in, r)
		}
		for i, b := range in {
			doing = fmt.Sprintf("%s of %d bytes", c.name, len(b))
			keep := append([]byte(nil), b...)
			p, err := c.pack(b)
			if err != nil {
				if c.anyok {
					continue
				}
				fail20(t, "%s: error %v", doing, err)
			}
			q, err := c.unpack(p)
			if err != nil || !bytes.Equal(q, keep) {
				fail20(t, "%s: decompressed to %d other bytes, err=%v", doing, len(q), err)
			}
			if !bytes.Equal(b, keep) {
				fail20(t, "%s changed its input", doing)
			}
			if i >= 30 && len(b) > 5000 || len(p) == 0 {
				continue
			}
			// cut off
			for _, k := range []int{len(p) - 1, len(p) - 4, len(p) - 5, len(p) / 2, 1} {
				if k <= 0 || k >= len(p) {
					continue
				}
				q, err := c.unpack(append([]byte(nil), p[:k]...))
				if c.silent && q != nil && !(len(q) == 0 && len(b) == 0) || !c.silent && err == nil {
					fail20(t, "%s: the first %d of %d bytes decompress without an error to %d bytes", doing, k, len(p), len(q))
				}
			}
			// damaged
			for k := 0; c.sums && k < 8; k++ {
				d := append([]byte(nil), p...)
				d[rnd.Intn(len(d))] ^= 1 << rnd.Intn(8)
				q, err := c.unpack(d)
				if err == nil && !bytes.Equal(q, keep) {
					fail20(t, "%s: damaged bytes decompress without an error to %d other bytes", doing, len(q))
				}
			}
			// more than one byte of rubbish in front
			q, err = c.unpack(append([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, p...))
			if c.silent && q != nil || !c.silent && err == nil {
				fail20(t, "%s: rubbish decompresses without an error", doing)
			}
		}
	}
}
