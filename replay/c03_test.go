package util_test

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/donnie4w/gofer/util"
	"golang.org/x/crypto/blake2b"
)

func crc8ref(bs []byte) (r byte) {
	for _, b := range bs {
		r ^= b
		for i := 0; i < 8; i++ {
			if r&0x80 != 0 {
				r = r<<1 ^ 7
			} else {
				r <<= 1
			}
		}
	}
	return
}

func TestVerifReplay(t *testing.T) {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(n))
	seen := map[string]uint64{}
	check := func(bs []byte) {
		o := append([]byte{}, bs...)
		f32, f64 := fnv.New32a(), fnv.New64a()
		f32.Write(bs)
		f64.Write(bs)
		m, s, b := md5.Sum(bs), sha1.Sum(bs), blake2b.Sum256(bs)
		show := fmt.Sprintf("%d bytes %.80x", len(bs), bs)
		for _, c := range []struct {
			name      string
			got, want any
		}{
			{"CRC8", util.CRC8(bs), crc8ref(bs)},
			{"CRC32", util.CRC32(bs), crc32.ChecksumIEEE(bs)},
			{"CRC64", util.CRC64(bs), crc64.Checksum(bs, crc64.MakeTable(crc64.ECMA))},
			{"FNVHash32", util.FNVHash32(bs), f32.Sum32()},
			{"FNVHash64", util.FNVHash64(bs), f64.Sum64()},
			{"MD5", string(util.MD5(bs)), string(m[:])},
			{"SHA1", string(util.SHA1(bs)), string(s[:])},
			{"Md5Str", util.Md5Str(string(bs)), strings.ToUpper(fmt.Sprintf("%x", m))},
			{"Sha1Str", util.Sha1Str(string(bs)), strings.ToUpper(fmt.Sprintf("%x", s))},
			{"Hash64", util.Hash64(bs), util.Hash64(append([]byte{}, bs...))},
		} {
			if c.got != c.want {
				t.Fatalf("REPLAY-FAIL %s(%s) = %x want %x", c.name, show, c.got, c.want)
			}
		}
		if r, err := util.Blake2b(bs); err != nil || !bytes.Equal(r, b[:]) {
			t.Fatalf("REPLAY-FAIL Blake2b(%s) = %x, %v", show, r, err)
		}
		if !bytes.Equal(o, bs) {
			t.Fatalf("REPLAY-FAIL the input %s was changed", show)
		}
		if len(bs) < 5000 {
			h := util.Hash64(bs)
			if w, ok := seen[string(bs)]; ok && w != h {
				t.Fatalf("REPLAY-FAIL Hash64(%s) gave %x and %x", show, w, h)
			}
			seen[string(bs)] = h
		}
	}
	round := func() {
		check(nil)
		for i := 0; i < 256; i++ {
			check([]byte{byte(i)})
			check([]byte{byte(i), 0})
			check([]byte{0, byte(i)})
		}
		for _, l := range []int{3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20} {
			check(bytes.Repeat([]byte{0xff}, l))
			check(bytes.Repeat([]byte{0}, l))
		}
	}
	round()
	round()
	for i := 0; i < 300; i++ {
		bs := make([]byte, rnd.Intn(3000))
		rnd.Read(bs)
		check(bs)
	}
	diff := map[uint64]bool{}
	for _, h := range seen {
		diff[h] = true
	}
	if len(diff) < len(seen)-3 {
		t.Fatalf("REPLAY-FAIL Hash64 of %d inputs takes %d values", len(seen), len(diff))
	}
	for i := 0; i < 300; i++ {
		ss := make([]string, rnd.Intn(8))
		want := ""
		for j := range ss {
			ss[j] = strings.Repeat(string(rune('a'+rnd.Intn(3))), rnd.Intn(70)*rnd.Intn(2))
			want += ss[j]
		}
		if r := util.Concat(ss...); r != want {
			t.Fatalf("REPLAY-FAIL Concat(%q) = %q", ss, r)
		}
	}
	many := make([]string, 3000)
	for i := range many {
		many[i] = strconv.Itoa(i)
	}
	if r := util.Concat(many...); r != strings.Join(many, "") {
		t.Fatalf("REPLAY-FAIL Concat of 3000 strings")
	}
}
