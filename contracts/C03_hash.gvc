// checksums and hashes: each is the named function of the whole input
option mode bv
option tableground no
option budget 120
def s1(x) := if (x & 128) != 0 then as(byte, as(byte, x << 1) ^ 7) else as(byte, x << 1)
// eight shift steps of CRC-8 with polynomial x^8+x^2+x+1
opaque step8(x byte) byte := s1(s1(s1(s1(s1(s1(s1(s1(x))))))))
uf crc8(string, int) byte
axiom crc0: forall s string {crc8(s, 0)} :: crc8(s, 0) == 0
axiom crcn: forall s string, n int {crc8(s, n), s[n]} :: 0 <= n && n < len(s) ==> crc8(s, n + 1) == step8(crc8(s, n) ^ s[n])
tablefact b, k :: b == step8(as(byte, k))

func util.CRC8(bs) (r)
  ensures crc8: r == crc8(bytes(bs), len(bs))
  ensures input: bytes(bs) == old(bytes(bs))
  loop i int, r byte :: i < len(bs) && r == crc8(bytes(bs), i + 1)
  loop i int, r byte :: i <= len(bs) && r == crc8(bytes(bs), i)

func util.CRC32(bs) (r)
  ensures ieee: r == lib("crc32ieee", bytes(bs))

func util.CRC64(bs) (r)
  ensures ecma: r == lib("crc64", 0xC96C5795D7870F42, bytes(bs))

func util.Hash64(bs) (r)
  ensures one-seed: initonly("util.seed")
  ensures hash: r == lib("maphash", seedid(global("util.seed")), bytes(bs))

func util.FNVHash32(bs) (r)
  ensures fnv1a: r == lib("fnv32a", bytes(bs))

func util.FNVHash64(bs) (r)
  ensures fnv1a: r == lib("fnv64a", bytes(bs))

func util.MD5(bs) (r)
  ensures md5: bytes(r) == lib("md5", bytes(bs))

func util.SHA1(bs) (r)
  ensures sha1: bytes(r) == lib("sha1", bytes(bs))

func util.Md5Str(s) (r)
  ensures text: r == lib("upper", lib("hex", lib("md5", s)))

func util.Sha1Str(s) (r)
  ensures text: r == lib("upper", lib("hex", lib("sha1", s)))

func util.Blake2b(bs) (r, err)
  ensures ok: err == nil && bytes(r) == lib("blake2b256", bytes(bs))

