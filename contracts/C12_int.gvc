// the bytes of a number are its 8-byte big-endian form: they are a function of it
option mode bv
option unroll 9
func hashmap.int64ToBytes(n) (r)
  ensures eight: len(r) == 8
  ensures big-endian: r[0] == as(byte, n >> 56) && r[1] == as(byte, n >> 48) && r[2] == as(byte, n >> 40) && r[3] == as(byte, n >> 32) && r[4] == as(byte, n >> 24) && r[5] == as(byte, n >> 16) && r[6] == as(byte, n >> 8) && r[7] == as(byte, n)
