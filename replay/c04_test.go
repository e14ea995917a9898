package uuid_test

import (
	"encoding/hex"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/donnie4w/gofer/uuid"
)

func TestVerifReplay(t *testing.T) {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(n))
	check := func(u uuid.UUID) {
		h := hex.EncodeToString(u[:])
		want := h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
		o := u
		if s := u.String(); s != want {
			t.Fatalf("REPLAY-FAIL String of %x = %q want %q", o, s, want)
		}
		for _, s := range []string{want, strings.ToUpper(want)} {
			v, err := uuid.Parse(s)
			if err != nil || *v != o {
				t.Fatalf("REPLAY-FAIL Parse(%q) = %v, %v", s, v, err)
			}
			if !v.Equals(&u) || !u.Equals(v) {
				t.Fatalf("REPLAY-FAIL %v.Equals of an equal value is false", v)
			}
			v[rnd.Intn(16)] ^= 1 << rnd.Intn(8)
			if v.Equals(&u) || u.Equals(v) {
				t.Fatalf("REPLAY-FAIL %v.Equals(%v) is true", v, u)
			}
		}
		if b := u.Bytes(); hex.EncodeToString(b) != h {
			t.Fatalf("REPLAY-FAIL Bytes of %s = %x", h, b)
		}
		if u.Version() != int(o[6]>>4) {
			t.Fatalf("REPLAY-FAIL Version of %s = %d", h, u.Version())
		}
		vr := byte(0)
		if o[8]&0xc0 == 0x80 {
			vr = 1
		} else if o[8]&0xe0 == 0xc0 {
			vr = 2
		}
		if u.Variant() != vr {
			t.Fatalf("REPLAY-FAIL Variant of %s = %d want %d", h, u.Variant(), vr)
		}
		if u != o {
			t.Fatalf("REPLAY-FAIL %x changed to %x", o, u)
		}
	}
	for i := 0; i < 16; i++ {
		for b := 0; b < 256; b++ {
			var u uuid.UUID
			u[i] = byte(b)
			check(u)
		}
	}
	for i := 0; i < 2000; i++ {
		var u uuid.UUID
		rnd.Read(u[:])
		check(u)
	}
	var nu *uuid.UUID
	if (&uuid.UUID{}).Equals(nil) || nu.Equals(&uuid.UUID{}) {
		t.Fatalf("REPLAY-FAIL Equals with nil is true")
	}
	good := "01234567-89ab-cdef-ABCD-EF0123456789"
	reject := func(s string) {
		defer func() {
			if e := recover(); e != nil {
				t.Fatalf("REPLAY-FAIL Parse(%q) panics: %v", s, e)
			}
		}()
		if v, err := uuid.Parse(s); err == nil || v != nil {
			t.Fatalf("REPLAY-FAIL Parse(%q) = %v, %v", s, v, err)
		}
	}
	for i := 0; i < len(good); i++ {
		reject(good[:i])
		reject(good[:i] + good[i+1:])
		reject(good[:i] + "-" + good[i:])
		for c := 0; c < 256; c++ {
			hexd := c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
			hy := i == 8 || i == 13 || i == 18 || i == 23
			s := good[:i] + string([]byte{byte(c)}) + good[i+1:]
			if hy && c != '-' || !hy && !hexd {
				reject(s)
			} else if _, err := uuid.Parse(s); err != nil {
				t.Fatalf("REPLAY-FAIL Parse(%q) fails: %v", s, err)
			}
		}
	}
	reject(good + "0")
	reject("{" + good + "}")
	reject(strings.Repeat("-", 36))
	reject(strings.Repeat("0", 36))
}
