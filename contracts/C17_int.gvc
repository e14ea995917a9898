// the integer writer appends the 4-byte big-endian form
option mode bv
option unroll 5
func (*buffer.Buffer).WriteInt32(b, i) (n, err)
  ensures nil: b == nil ==> n == 0 && err != nil
  ensures ok: b != nil ==> n == 4 && err == nil && len(*b) == old(len(*b)) + 4
  ensures kept: b != nil ==> forall k int :: 0 <= k && k < old(len(*b)) ==> (*b)[k] == old((*b)[k])
  ensures big-endian: b != nil ==> (*b)[old(len(*b))] == as(byte, as(int32, i) >> 24) && (*b)[old(len(*b)) + 1] == as(byte, as(int32, i) >> 16) && (*b)[old(len(*b)) + 2] == as(byte, as(int32, i) >> 8) && (*b)[old(len(*b)) + 3] == as(byte, as(int32, i))
