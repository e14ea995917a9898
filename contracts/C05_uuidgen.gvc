// UUID generation: every call claims one number from one atomic counter, and the number can be read back from the result
option mode bv
option unroll 9
option interfere yes
option atomic uuid.localbase.seq
def b8(n, k) := as(byte, n >> (8 * k))
def lb() := global("uuid.base")

func uuid.NewUUID() (u)
  requires lb() != nil
  ensures initonly: initonly("uuid.base") && lb() == old(lb())
  ensures one-number: delta(lb().seq) == 1
  ensures carries: u[9] == b8(claimed(lb().seq), 6) && u[10] == b8(claimed(lb().seq), 5) && u[11] == b8(claimed(lb().seq), 4) && u[12] == b8(claimed(lb().seq), 3) && u[13] == b8(claimed(lb().seq), 2) && u[14] == b8(claimed(lb().seq), 1) && u[15] == b8(claimed(lb().seq), 0)
  ensures carries-top: (u[8] & 0x3f) == (b8(claimed(lb().seq), 7) & 0x3f)
  ensures version: u[6] >> 4 == 4
  ensures variant: u[8] & 0xc0 == 0x80
  ensures fresh: u != nil && fresh(u)

// numbers of one counter that are less than 2^62 steps apart differ in the carried bits
proc distinct(a uint64, b uint64)
  assume (a & 0x3fffffffffffffff) != (b & 0x3fffffffffffffff)
  assert differ: b8(a, 0) != b8(b, 0) || b8(a, 1) != b8(b, 1) || b8(a, 2) != b8(b, 2) || b8(a, 3) != b8(b, 3) || b8(a, 4) != b8(b, 4) || b8(a, 5) != b8(b, 5) || b8(a, 6) != b8(b, 6) || (b8(a, 7) & 0x3f) != (b8(b, 7) & 0x3f)
