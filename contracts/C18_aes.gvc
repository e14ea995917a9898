// AES helper: the ciphertext is AES-CBC of the message with its padding; decryption accepts exactly that
def key(a) := bytes(a.commonKey256)
def iv(a) := bytes(a.commonIV)
def last(a, c) := plain(a, c)[len(c)-1]
def plaink(k, c) := lib("unaescbc", lib("sha256", k), lib("md5", k), c)
def pad(s) := s + rep(16 - len(s) % 16, 16 - len(s) % 16)
def plain(a, c) := lib("unaescbc", key(a), iv(a), c)
def padn(p, n) := 1 <= n && n <= 16 && forall i int {p[i]} :: len(p) - n <= i && i < len(p) ==> p[i] == n
def padded(p) := padn(p, p[len(p)-1])
def possible(a, c) := len(c) > 0 && len(c) % 16 == 0 && padded(plain(a, c))

func keystore.NewAes(iv, key) (a)
  option modular
  ensures key: a != nil && bytes(a.commonKey256) == lib("sha256", key)
  ensures iv: bytes(a.commonIV) == lib("md5", iv)

func (*keystore.Aes).EncrypterCbc(a, src) (r, err)
  requires a != nil
  option modular
  ensures ok: err == nil
  ensures cipher: bytes(r) == lib("aescbc", key(a), iv(a), pad(old(bytes(src))))

func (*keystore.Aes).DecrypterCbc(a, bs) (r, err)
  requires a != nil
  option modular
  loop k int :: forall i int {plain(a, old(bytes(bs)))[i]} :: len(bs) - last(a, old(bytes(bs))) <= i && i <= len(bs) - last(a, old(bytes(bs))) + k ==> plain(a, old(bytes(bs)))[i] == last(a, old(bytes(bs)))
  loop k int :: forall i int {plain(a, old(bytes(bs)))[i]} :: len(bs) - last(a, old(bytes(bs))) <= i && i < len(bs) - last(a, old(bytes(bs))) + k ==> plain(a, old(bytes(bs)))[i] == last(a, old(bytes(bs)))
  loop k int :: forall i int {plain(a, old(bytes(bs)))[i]} :: len(bs) - last(a, old(bytes(bs))) <= i && i < k && i < len(bs) ==> plain(a, old(bytes(bs)))[i] == last(a, old(bytes(bs)))
  loop k int :: forall i int {plain(a, old(bytes(bs)))[i]} :: k < i && i < len(bs) ==> plain(a, old(bytes(bs)))[i] == last(a, old(bytes(bs)))
  loop k int :: forall i int {plain(a, old(bytes(bs)))[i]} :: len(bs) - k < i && i < len(bs) ==> plain(a, old(bytes(bs)))[i] == last(a, old(bytes(bs)))
  ensures checked: err == nil <==> possible(a, old(bytes(bs)))
  ensures plain: err == nil ==> len(r) == len(bs) - plain(a, old(bytes(bs)))[len(bs)-1] && forall i int :: 0 <= i && i < len(r) ==> r[i] == plain(a, old(bytes(bs)))[i]

// decrypting what was encrypted gives the message back
proc roundtrip(a *keystore.Aes, m []byte)
  requires a != nil
  snapshot start
  c, e := call a.EncrypterCbc(m)
  assert encrypted: e == nil && bytes(m) == at(start, bytes(m))
  r, e2 := call a.DecrypterCbc(c)
  assert accepted: e2 == nil
  assert same: bytes(r) == at(start, bytes(m))

proc roundtrip_by_password(m []byte, k string)
  snapshot start
  c, e := call keystore.AesEncrypter(m, k)
  assert encrypted: e == nil
  r, e2 := call keystore.AesDecrypter(c, k)
  assert accepted: e2 == nil
  assert same: bytes(r) == at(start, bytes(m))

func keystore.AesEncrypter(src, k) (r, err)
  option modular
  ensures ok: err == nil
  ensures cipher: bytes(r) == lib("aescbc", lib("sha256", k), lib("md5", k), pad(old(bytes(src))))

func keystore.AesDecrypter(bs, k) (r, err)
  option modular
  ensures checked: err == nil <==> len(bs) > 0 && len(bs) % 16 == 0 && padded(plaink(k, old(bytes(bs))))
  ensures plain: err == nil ==> len(r) == len(bs) - plaink(k, old(bytes(bs)))[len(bs)-1] && forall i int :: 0 <= i && i < len(r) ==> r[i] == plaink(k, old(bytes(bs)))[i]
