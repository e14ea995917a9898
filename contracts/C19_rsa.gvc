// RSA helpers: the result of the RSA operation under the given key, or an error
def pubusable(k) := lib("pemok", k) && lib("rsapubok", lib("pemder", k))
def privusable(k) := lib("pemok", k) && lib("rsaprivok", lib("pemder", k))
def encrypted(k, m, c) := pubusable(k) && lib("rsaencrypted", lib("pemder", k), m, c)
def encryptable(k, m) := pubusable(k) && lib("rsaencok", lib("pemder", k), m)
def decryptable(k, c) := privusable(k) && lib("rsadecok", lib("pemder", k), c)
def pubkey(p) := if p == "" then global("keystore.defaultPubKey") else lib("filetext", p)
def privkey(p) := if p == "" then global("keystore.defaultPriKey") else lib("filetext", p)
def readable(p) := p == "" || lib("filereadable", p)

func keystore.RsaEncryptByBytes(msg, k) (c, err)
  ensures reported: err == nil <==> old(encryptable(bytes(k), bytes(msg)))
  ensures encrypted: err == nil ==> encrypted(old(bytes(k)), old(bytes(msg)), bytes(c))

func keystore.RsaDecryptByBytes(c, k) (msg, err)
  ensures reported: err == nil <==> old(decryptable(bytes(k), bytes(c)))
  ensures decrypted: err == nil ==> bytes(msg) == lib("rsadecrypted", lib("pemder", old(bytes(k))), old(bytes(c)))

func keystore.RsaEncrypt(msg, path) (c, err)
  ensures reported: err == nil <==> old(readable(path) && encryptable(pubkey(path), bytes(msg)))
  ensures encrypted: err == nil ==> encrypted(old(pubkey(path)), old(bytes(msg)), bytes(c))

func keystore.RsaDecrypt(c, path) (msg, err)
  ensures reported: err == nil <==> old(readable(path) && decryptable(privkey(path), bytes(c)))
  ensures decrypted: err == nil ==> bytes(msg) == lib("rsadecrypted", lib("pemder", old(privkey(path))), old(bytes(c)))
