package buffer

import (
	"bytes"
	"fmt"
	"testing"
)

type obj17 struct{ a, b int }

func fail17(t *testing.T, f string, a ...any) {
	t.Helper()
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func TestVerifReplay(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			fail17(t, "panic %v", e)
		}
	}()
	for _, ctor := range []func() *obj17{nil, func() *obj17 { return &obj17{7, 7} }} {
		resets := map[*obj17]int{}
		p := NewPool[obj17](ctor, func(o *obj17) { resets[o]++; *o = obj17{} })
		for i := 0; i < 200; i++ {
			before := len(resets)
			_ = before
			o := p.Get()
			if o == nil || *o != (obj17{}) {
				fail17(t, "Get gave %v, not a reset object", o)
			}
			o2 := p.Get()
			if o2 == o {
				fail17(t, "Get gave one object twice")
			}
			o.a, o2.b = 1, 2
			if !p.Put(&o) || o != nil {
				fail17(t, "Put left the caller's reference %v", o)
			}
			if p.Put(&o) {
				fail17(t, "second Put through one reference kept an object")
			}
			p.Put(&o2)
		}
	}
	n := NewPool[obj17](nil, nil)
	if n.Get() == nil {
		fail17(t, "pool without reset gave nil")
	}
	for _, size := range []int{1, 2, 5, 10} {
		bp := NewBufferPool(size)
		if bp.Put(nil) {
			fail17(t, "BufferPool.Put(nil) = true")
		}
		for i := 0; i < 2000; i++ {
			a := bp.Get(i % 1500)
			b := bp.Get(i % 1500)
			if a == b {
				fail17(t, "BufferPool(%d).Get(%d) gave one buffer twice", size, i%1500)
			}
			if a == nil || a.Len() != 0 || b.Len() != 0 {
				fail17(t, "BufferPool(%d).Get(%d) is not clean", size, i%1500)
			}
			a.Write(bytes.Repeat([]byte("x"), i%300))
			b.WriteString("y")
			if !bp.Put(a) || !bp.Put(b) {
				fail17(t, "BufferPool.Put of a buffer = false")
			}
		}
	}
}
