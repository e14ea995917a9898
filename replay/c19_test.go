package keystore

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"testing"
)

func fail19(t *testing.T, f string, a ...any) {
	t.Helper()
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func TestVerifReplay(t *testing.T) {
	doing := ""
	defer func() {
		if e := recover(); e != nil {
			fail19(t, "%s: panic %v", doing, e)
		}
	}()
	dir := t.TempDir()
	enc := func(ty string, der []byte) []byte { return pem.EncodeToMemory(&pem.Block{Type: ty, Bytes: der}) }
	k1, _ := rsa.GenerateKey(rand.Reader, 1024)
	k2, _ := rsa.GenerateKey(rand.Reader, 2048)
	pub := func(k any) []byte { b, _ := x509.MarshalPKIXPublicKey(k); return b }
	ec, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	ed, edp, _ := ed25519.GenerateKey(rand.Reader)
	p8, _ := x509.MarshalPKCS8PrivateKey(k1)
	p8ed, _ := x509.MarshalPKCS8PrivateKey(edp)
	ecd, _ := x509.MarshalECPrivateKey(ec)
	type key struct {
		name string
		bs   []byte
		rsa  *rsa.PrivateKey
	}
	def := func() *rsa.PrivateKey {
		b, _ := pem.Decode([]byte(defaultPriKey))
		k, _ := x509.ParsePKCS1PrivateKey(b.Bytes)
		return k
	}()
	good := enc("PUBLIC KEY", pub(&k1.PublicKey))
	cut := append([]byte(nil), good...)[:len(good)/2]
	pubs := []key{{"a 1024-bit key", good, k1}, {"a 2048-bit key", enc("PUBLIC KEY", pub(&k2.PublicKey)), k2}, {"text before the key", append([]byte("hello\n"), good...), k1},
		{"nil", nil, nil}, {"no bytes", []byte{}, nil}, {"no PEM", []byte("garbage"), nil}, {"a cut-off key", cut, nil}, {"bare DER", pub(&k1.PublicKey), nil},
		{"an EC key", enc("PUBLIC KEY", pub(&ec.PublicKey)), nil}, {"an Ed25519 key", enc("PUBLIC KEY", pub(ed)), nil}, {"PEM around garbage", enc("PUBLIC KEY", []byte{1, 2, 3}), nil},
		{"PEM around nothing", enc("PUBLIC KEY", nil), nil}, {"a private key", enc("RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k1)), nil}, {"a PKCS1 public key", enc("RSA PUBLIC KEY", x509.MarshalPKCS1PublicKey(&k1.PublicKey)), nil}}
	privs := []key{{"a 1024-bit key", enc("RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k1)), k1}, {"a 2048-bit key", enc("RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k2)), k2},
		{"nil", nil, nil}, {"no bytes", []byte{}, nil}, {"no PEM", []byte("garbage"), nil}, {"PEM around garbage", enc("RSA PRIVATE KEY", []byte{1, 2, 3}), nil},
		{"an EC key", enc("EC PRIVATE KEY", ecd), nil}, {"a PKCS8 key", enc("PRIVATE KEY", p8), nil}, {"an Ed25519 key", enc("PRIVATE KEY", p8ed), nil}, {"a public key", good, nil}}
	msgs := [][]byte{nil, {}, []byte("a"), []byte("hello world"), bytes.Repeat([]byte{7}, 117), bytes.Repeat([]byte{7}, 118), bytes.Repeat([]byte{9}, 245), bytes.Repeat([]byte{9}, 246), make([]byte, 5000)}
	file := func(i int, kind string, bs []byte) string {
		p := filepath.Join(dir, fmt.Sprintf("%s%d", kind, i))
		os.WriteFile(p, bs, 0o600)
		return p
	}
	type op struct {
		by  string
		enc func(m []byte, k key, i int) ([]byte, error)
		dec func(c []byte, k key, i int) ([]byte, error)
	}
	ops := []op{
		{"bytes", func(m []byte, k key, i int) ([]byte, error) { return RsaEncryptByBytes(m, k.bs) }, func(c []byte, k key, i int) ([]byte, error) { return RsaDecryptByBytes(c, k.bs) }},
		{"file", func(m []byte, k key, i int) ([]byte, error) { return RsaEncrypt(m, file(i, "pub", k.bs)) }, func(c []byte, k key, i int) ([]byte, error) { return RsaDecrypt(c, file(i, "priv", k.bs)) }},
	}
	for _, o := range ops {
		for i, k := range pubs {
			for _, m := range msgs {
				doing = fmt.Sprintf("encrypting %d bytes by %s with %s", len(m), o.by, k.name)
				c, err := o.enc(m, k, i)
				ok := k.rsa != nil && len(m) <= k.rsa.Size()-11
				if ok && err != nil || !ok && err == nil {
					fail19(t, "%s: %d bytes, err=%v", doing, len(c), err)
				}
				if ok {
					p, err := rsa.DecryptPKCS1v15(nil, k.rsa, c)
					if err != nil || !bytes.Equal(p, m) {
						fail19(t, "%s: the key's owner decrypts it to %x, %v", doing, p, err)
					}
				}
			}
		}
		for i, k := range privs {
			for _, m := range msgs {
				for who, by := range []*rsa.PrivateKey{k1, k2, nil} {
					c := []byte("no ciphertext")
					if by != nil {
						var err error
						if c, err = rsa.EncryptPKCS1v15(rand.Reader, &by.PublicKey, m); err != nil {
							continue
						}
					}
					doing = fmt.Sprintf("decrypting by %s with %s what key %d encrypted (%d bytes)", o.by, k.name, who, len(m))
					p, err := o.dec(c, k, i)
					ok := k.rsa != nil && k.rsa == by
					if ok && (err != nil || !bytes.Equal(p, m)) || !ok && by == nil && err == nil || k.rsa == nil && err == nil {
						fail19(t, "%s: %x, err=%v", doing, p, err)
					}
					if !ok && k.rsa != nil {
						q, e := rsa.DecryptPKCS1v15(nil, k.rsa, c)
						if (e == nil) != (err == nil) || !bytes.Equal(q, p) {
							fail19(t, "%s: %x, %v; the RSA operation gives %x, %v", doing, p, err, q, e)
						}
					}
				}
			}
		}
	}
	doing = "the default keys"
	c, err := RsaEncrypt([]byte("abc"), "")
	if err != nil {
		fail19(t, "%s: %v", doing, err)
	}
	if p, err := rsa.DecryptPKCS1v15(nil, def, c); err != nil || string(p) != "abc" {
		fail19(t, "%s encrypt to something else: %x, %v", doing, p, err)
	}
	if p, err := RsaDecrypt(c, ""); err != nil || string(p) != "abc" {
		fail19(t, "%s: %x, %v", doing, p, err)
	}
	for _, p := range []string{filepath.Join(dir, "missing"), dir, filepath.Join(dir, "pub0", "x")} {
		doing = "key file " + p
		if c, err := RsaEncrypt([]byte("abc"), p); err == nil {
			fail19(t, "%s: encrypting gives %d bytes and no error", doing, len(c))
		}
		if m, err := RsaDecrypt(c, p); err == nil {
			fail19(t, "%s: decrypting gives %d bytes and no error", doing, len(m))
		}
	}
}
