package keystore

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"testing"
)

func fail18(t *testing.T, f string, a ...any) {
	t.Helper()
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func TestVerifReplay(t *testing.T) {
	doing := ""
	defer func() {
		if e := recover(); e != nil {
			fail18(t, "%s: panic %v", doing, e)
		}
	}()
	rnd := rand.New(rand.NewSource(1))
	keys := []string{"", "k", "123456", "0123456789abcdef", "0123456789abcdef0123456789abcdefXYZ", "钥匙"}
	for round := 0; round < 400; round++ {
		k, v := keys[rnd.Intn(len(keys))], keys[rnd.Intn(len(keys))]
		n := rnd.Intn(70)
		switch round % 40 {
		case 36, 37:
			n = 16 * rnd.Intn(40)
		case 35:
			n = rnd.Intn(600)
		case 38:
			n = 4096 - 8 + rnd.Intn(16)
		case 39:
			n = 65536 + rnd.Intn(32)
		}
		mem := make([]byte, n+40)
		rnd.Read(mem)
		if n > 0 && round%3 == 0 {
			mem[n-1] = byte(rnd.Intn(20))
			for i := 0; i < n && i < rnd.Intn(20); i++ {
				mem[n-1-i] = mem[n-1]
			}
		}
		keep := append([]byte(nil), mem...)
		m := mem[:n]
		if n == 0 && round%2 == 0 {
			m = nil
		}
		pass := round%2 == 0
		var c []byte
		var err error
		doing = fmt.Sprintf("encrypting %x with iv %q, key %q", keep[:min(n, 64)], v, k)
		if pass {
			v = k
			c, err = AesEncrypter(m, k)
		} else {
			c, err = NewAes(v, k).EncrypterCbc(m)
		}
		if err != nil {
			fail18(t, "%s: %v", doing, err)
		}
		if !bytes.Equal(mem, keep) {
			fail18(t, "%s changes the caller's memory (spare capacity included)", doing)
		}
		key, iv := sha256.Sum256([]byte(k)), md5.Sum([]byte(v))
		blk, _ := aes.NewCipher(key[:])
		pad := 16 - n%16
		want := append(append([]byte(nil), keep[:n]...), bytes.Repeat([]byte{byte(pad)}, pad)...)
		cipher.NewCBCEncrypter(blk, iv[:]).CryptBlocks(want, want)
		if !bytes.Equal(c, want) {
			fail18(t, "%s gives another ciphertext than AES-CBC of the padded message", doing)
		}
		dec := func(x []byte) ([]byte, error) {
			if pass {
				return AesDecrypter(x, k)
			}
			return NewAes(v, k).DecrypterCbc(x)
		}
		doing = "decrypting what " + doing + " gave"
		ck := append([]byte(nil), c...)
		p, err := dec(c)
		if err != nil || !bytes.Equal(p, keep[:n]) {
			fail18(t, "%s: %x, %v", doing, p[:min(len(p), 64)], err)
		}
		if !bytes.Equal(c, ck) {
			fail18(t, "%s changes the ciphertext", doing)
		}
		// any other bytes
		for i := 0; i < 12; i++ {
			x := append([]byte(nil), c...)
			switch i {
			case 0:
				x = nil
			case 1:
				x = []byte{}
			case 2:
				x = x[:rnd.Intn(len(x))]
			case 3:
				x = append(x, byte(i))
			case 4:
				x = x[:len(x)-1]
			case 5:
				x = x[:16*rnd.Intn(len(x)/16+1)]
			case 6, 7, 8, 9:
				// a text whose plain bytes end in a chosen way
				pl := make([]byte, 16*(1+rnd.Intn(3)))
				rnd.Read(pl)
				b := byte(rnd.Intn(20))
				for j := 0; j < rnd.Intn(18) && j < len(pl); j++ {
					pl[len(pl)-1-j] = b
				}
				pl[len(pl)-1] = b
				cipher.NewCBCEncrypter(blk, iv[:]).CryptBlocks(pl, pl)
				x = pl
			default:
				x[rnd.Intn(len(x))] ^= byte(1 + rnd.Intn(255))
			}
			doing = fmt.Sprintf("decrypting %x (%d bytes) with iv %q, key %q", x[:min(len(x), 64)], len(x), v, k)
			ok := len(x) > 0 && len(x)%16 == 0
			var want []byte
			if ok {
				want = make([]byte, len(x))
				cipher.NewCBCDecrypter(blk, iv[:]).CryptBlocks(want, x)
				q := int(want[len(want)-1])
				ok = q >= 1 && q <= 16 && bytes.Equal(want[len(want)-q:], bytes.Repeat([]byte{byte(q)}, q))
				if ok {
					want = want[:len(want)-q]
				}
			}
			p, err := dec(x)
			if ok && (err != nil || !bytes.Equal(p, want)) || !ok && err == nil {
				fail18(t, "%s: %x, err=%v; a possible ciphertext: %v", doing, p[:min(len(p), 64)], err, ok)
			}
		}
	}
}
