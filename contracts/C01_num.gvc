// integer <-> big-endian bytes
option mode bv
option unroll 9
def b8(n, k) := as(byte, n >> (8 * k))

func util.Int64ToBytes(n) (r)
  ensures len: len(r) == 8
  ensures fresh: fresh(r)
  ensures be: r[0] == b8(n, 7) && r[1] == b8(n, 6) && r[2] == b8(n, 5) && r[3] == b8(n, 4) && r[4] == b8(n, 3) && r[5] == b8(n, 2) && r[6] == b8(n, 1) && r[7] == b8(n, 0)

func util.Int32ToBytes(n) (r)
  ensures len: len(r) == 4
  ensures fresh: fresh(r)
  ensures be: r[0] == b8(n, 3) && r[1] == b8(n, 2) && r[2] == b8(n, 1) && r[3] == b8(n, 0)

func util.Int16ToBytes(n) (r)
  ensures len: len(r) == 2
  ensures fresh: fresh(r)
  ensures be: r[0] == b8(n, 1) && r[1] == b8(n, 0)

// byte k from the left of the w-byte number denoted by bs (the whole of bs when it is shorter than w)
def bat(bs, k, w) := if len(bs) >= w then old(bs[k]) else (if k + len(bs) >= w then old(bs[k + len(bs) - w]) else as(byte, 0))

func util.BytesToInt64(bs) (r)
  ensures be: b8(r, 7) == bat(bs, 0, 8) && b8(r, 6) == bat(bs, 1, 8) && b8(r, 5) == bat(bs, 2, 8) && b8(r, 4) == bat(bs, 3, 8) && b8(r, 3) == bat(bs, 4, 8) && b8(r, 2) == bat(bs, 5, 8) && b8(r, 1) == bat(bs, 6, 8) && b8(r, 0) == bat(bs, 7, 8)
  ensures input: forall i int :: 0 <= i && i < len(bs) ==> bs[i] == old(bs[i])

func util.BytesToInt32(bs) (r)
  ensures be: b8(r, 3) == bat(bs, 0, 4) && b8(r, 2) == bat(bs, 1, 4) && b8(r, 1) == bat(bs, 2, 4) && b8(r, 0) == bat(bs, 3, 4)
  ensures input: forall i int :: 0 <= i && i < len(bs) ==> bs[i] == old(bs[i])

func util.BytesToInt16(bs) (r)
  ensures be: b8(r, 1) == bat(bs, 0, 2) && b8(r, 0) == bat(bs, 1, 2)
  ensures input: forall i int :: 0 <= i && i < len(bs) ==> bs[i] == old(bs[i])

proc roundtrip64(n int64)
  b := call util.Int64ToBytes(n)
  m := call util.BytesToInt64(b)
  assert same: m == n

proc roundtrip32(n int32)
  b := call util.Int32ToBytes(n)
  m := call util.BytesToInt32(b)
  assert same: m == n

proc roundtrip16(n int16)
  b := call util.Int16ToBytes(n)
  m := call util.BytesToInt16(b)
  assert same: m == n

func util.IntArrayToBytes(n) (r)
  ensures len: len(r) == 8 * len(n)
  ensures be: forall k int {r[k]} :: 0 <= k && k < len(r) ==> r[k] == b8(n[k >> 3], 7 - (k & 7))
  ensures fresh: fresh(r)
  ensures input: forall i int :: 0 <= i && i < len(n) ==> n[i] == old(n[i])
  loop i int, s []byte :: len(s) == 8 * i && fresh(s)
  loop i int, s []byte :: forall k int {s[k]} :: 0 <= k && k < 8 * i ==> s[k] == b8(n[k >> 3], 7 - (k & 7))
  loop :: forall i int :: 0 <= i && i < len(n) ==> n[i] == old(n[i])

func util.BytesToIntArray(bs) (data)
  ensures len: len(data) == len(bs) / 8
  ensures be: forall i int {data[i]} :: 0 <= i && i < len(data) ==> b8(data[i], 7) == bs[8*i] && b8(data[i], 6) == bs[8*i+1] && b8(data[i], 5) == bs[8*i+2] && b8(data[i], 4) == bs[8*i+3] && b8(data[i], 3) == bs[8*i+4] && b8(data[i], 2) == bs[8*i+5] && b8(data[i], 1) == bs[8*i+6] && b8(data[i], 0) == bs[8*i+7]
  ensures input: forall i int :: 0 <= i && i < len(bs) ==> bs[i] == old(bs[i])
