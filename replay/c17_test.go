package buffer

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"testing"
)

func fail17(t *testing.T, f string, a ...any) {
	t.Helper()
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func TestVerifReplay(t *testing.T) {
	log := ""
	defer func() {
		if e := recover(); e != nil {
			fail17(t, "%s: panic %v", log, e)
		}
	}()
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < 300; round++ {
		log = "NewBuffer"
		b := NewBuffer()
		switch round % 4 {
		case 1:
			b, log = NewBufferWithCapacity(round%17), "NewBufferWithCapacity"
		case 2:
			b, log = NewBufferByPool(), "NewBufferByPool"
		}
		var ref []byte
		if round%4 == 3 {
			log = "NewBufferBySlice(abc)"
			b, ref = NewBufferBySlice([]byte("abc")), []byte("abc")
		}
		if b == nil || b.Len() != len(ref) {
			fail17(t, "%s is not clean", log)
		}
		for i := 0; i < 30; i++ {
			switch rnd.Intn(7) {
			case 0:
				p := make([]byte, rnd.Intn(20))
				rnd.Read(p)
				log += fmt.Sprintf(" Write(%x)", p)
				n, err := b.Write(p)
				if n != len(p) || err != nil {
					fail17(t, "%s = %d,%v", log, n, err)
				}
				ref = append(ref, p...)
			case 1:
				s := fmt.Sprint(rnd.Int31())
				log += fmt.Sprintf(" WriteString(%s)", s)
				n, err := b.WriteString(s)
				if n != len(s) || err != nil {
					fail17(t, "%s = %d,%v", log, n, err)
				}
				ref = append(ref, s...)
			case 2:
				v := int(rnd.Uint64()) >> (uint(rnd.Intn(4)) * 16)
				log += fmt.Sprintf(" WriteInt32(%d)", v)
				n, err := b.WriteInt32(v)
				if n != 4 || err != nil {
					fail17(t, "%s = %d,%v", log, n, err)
				}
				ref = append(ref, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
			case 3:
				c := byte(rnd.Intn(256))
				log += fmt.Sprintf(" WriteByte(%x)", c)
				if err := b.WriteByte(c); err != nil {
					fail17(t, "%s = %v", log, err)
				}
				ref = append(ref, c)
			case 4:
				p := make([]byte, rnd.Intn(30))
				log += fmt.Sprintf(" Read(%d)", len(p))
				n, err := b.Read(p)
				w := copy(make([]byte, len(p)), ref)
				var we error
				if len(ref) == 0 && len(p) > 0 {
					we = io.EOF
				}
				if n != w || err != we || !bytes.Equal(p[:n], ref[:n]) {
					fail17(t, "%s = %d,%v,%x want %d,%v", log, n, err, p[:n], w, we)
				}
				ref = ref[n:]
			case 5:
				if rnd.Intn(5) == 0 {
					log += " Reset"
					b.Reset()
					ref = nil
				}
			case 6:
				log += " Len/String"
				if b.Len() != len(ref) || b.String() != string(ref) {
					fail17(t, "%s = %d", log, b.Len())
				}
			}
			if !bytes.Equal(b.Bytes(), ref) {
				fail17(t, "%s: content %x want %x", log, b.Bytes(), ref)
			}
		}
		if round%4 == 2 {
			log += " Free"
			b.Free()
		}
	}
	var nb *Buffer
	log = "nil buffer"
	if n, err := nb.Write([]byte("x")); n != 0 || err == nil {
		fail17(t, "Write on nil = %d,%v", n, err)
	}
	if n, err := nb.Read(make([]byte, 3)); n != 0 || err != io.EOF {
		fail17(t, "Read on nil = %d,%v", n, err)
	}
	for i := 0; i < 50; i++ {
		a := NewBufferByPool()
		a.Write(bytes.Repeat([]byte("secret"), []int{1, 20, 200, 2000, 20000}[i%5]))
		a.Free()
		x, y := NewBufferByPool(), NewBufferByPool()
		if x == y {
			fail17(t, "the pool handed out one buffer twice")
		}
		if x.Len() != 0 || y.Len() != 0 {
			fail17(t, "pooled buffer is not clean: %q %q", x.String(), y.String())
		}
	}
}
