// Compressors: the output decompresses to the input; the decoders report whatever is not valid
def small(bs) := len(bs) <= 0x80000000

func compress.Zlib(input) (r, err)
  ensures ok: err == nil
  ensures packed: lib("validzlib", bytes(r)) && lib("unzlib", bytes(r)) == old(bytes(input))

func compress.ZlibLevel(bs, level) (r, err)
  ensures ok: -2 <= level && level <= 9 ==> err == nil
  ensures packed: err == nil ==> lib("validzlib", bytes(r)) && lib("unzlib", bytes(r)) == old(bytes(bs))

func compress.UnZlib(compressed) (r, err)
  ensures ok: lib("validzlib", old(bytes(compressed))) ==> err == nil
  ensures unpacked: err == nil ==> lib("validzlib", old(bytes(compressed))) && bytes(r) == lib("unzlib", old(bytes(compressed)))

func compress.Gzip(input) (r, err)
  ensures ok: err == nil
  ensures packed: lib("validgzip", bytes(r)) && lib("ungzip", bytes(r)) == old(bytes(input))

func compress.UnGzip(compressed) (r, err)
  ensures ok: lib("validgzip", old(bytes(compressed))) ==> err == nil
  ensures unpacked: err == nil ==> lib("validgzip", old(bytes(compressed))) && bytes(r) == lib("ungzip", old(bytes(compressed)))

func compress.Snappy(bs) (r)
  requires small(bs)
  ensures packed: lib("validsnappy", bytes(r)) && lib("unsnappy", bytes(r)) == old(bytes(bs))

func compress.UnSnappy(bs) (r, err)
  ensures ok: lib("validsnappy", old(bytes(bs))) ==> err == nil
  ensures unpacked: err == nil ==> lib("validsnappy", old(bytes(bs))) && bytes(r) == lib("unsnappy", old(bytes(bs)))

func compress.Zstd(bs) (r, err)
  ensures ok: err == nil
  ensures packed: lib("validzstd", bytes(r)) && lib("unzstd", bytes(r)) == old(bytes(bs))

func compress.ZstdLevel(bs, level) (r, err)
  ensures ok: 1 <= level && level <= 4 ==> err == nil
  ensures packed: err == nil ==> lib("validzstd", bytes(r)) && lib("unzstd", bytes(r)) == old(bytes(bs))

func compress.UnZstd(bs) (r, err)
  ensures ok: lib("validzstd", old(bytes(bs))) ==> err == nil
  ensures unpacked: err == nil ==> lib("validzstd", old(bytes(bs))) && bytes(r) == lib("unzstd", old(bytes(bs)))

func util.Zlib(bs) (r, err)
  ensures ok: err == nil
  ensures packed: lib("validzlib", bytes(r)) && lib("unzlib", bytes(r)) == old(bytes(bs))

func util.UnZlib(bs) (r, err)
  ensures ok: lib("validzlib", old(bytes(bs))) ==> err == nil
  ensures unpacked: err == nil ==> lib("validzlib", old(bytes(bs))) && bytes(r) == lib("unzlib", old(bytes(bs)))

func util.Gzip(bs) (r, err)
  ensures ok: err == nil
  ensures packed: lib("validgzip", bytes(r)) && lib("ungzip", bytes(r)) == old(bytes(bs))

func util.UnGzip(bs) (r, err)
  ensures ok: lib("validgzip", old(bytes(bs))) ==> err == nil
  ensures unpacked: err == nil ==> lib("validgzip", old(bytes(bs))) && bytes(r) == lib("ungzip", old(bytes(bs)))

func util.CheckGzipType(bs) (err)
  ensures accepts: lib("validgzip", old(bytes(bs))) ==> err == nil

func util.SnappyEncode(bs) (r)
  requires small(bs)
  ensures packed: lib("validsnappy", bytes(r)) && lib("unsnappy", bytes(r)) == old(bytes(bs))

func util.SnappyDecode(bs) (r)
  ensures unpacked: lib("validsnappy", old(bytes(bs))) ==> bytes(r) == lib("unsnappy", old(bytes(bs)))
  ensures rejected: !lib("validsnappy", old(bytes(bs))) ==> r == nil
