// UUID text form, parsing, comparison
option mode bv
option unroll 17
def hx(d) := if d < 10 then as(byte, 48 + d) else as(byte, 87 + d)
def ishex(c) := (c >= 48 && c <= 57) || (c >= 97 && c <= 102) || (c >= 65 && c <= 70)
def hv(c) := if c <= 57 then as(byte, c - 48) else if c >= 97 then as(byte, c - 87) else as(byte, c - 55)
def enc(u, r, b, p) := r[p] == hx(u[b] >> 4) && r[p+1] == hx(u[b] & 15)
def dec(u, s, b, p) := u[b] == as(byte, (hv(s[p]) << 4) | hv(s[p+1]))
def okp(s, p) := ishex(s[p]) && ishex(s[p+1])
def all8(s) := okp(s,0) && okp(s,2) && okp(s,4) && okp(s,6) && okp(s,9) && okp(s,11) && okp(s,14) && okp(s,16) && okp(s,19) && okp(s,21) && okp(s,24) && okp(s,26) && okp(s,28) && okp(s,30) && okp(s,32) && okp(s,34)
def valid(s) := len(s) == 36 && s[8] == 45 && s[13] == 45 && s[18] == 45 && s[23] == 45 && all8(s)

func (*uuid.UUID).String(u) (r)
  requires u != nil
  ensures len: len(r) == 36
  ensures hyphens: r[8] == 45 && r[13] == 45 && r[18] == 45 && r[23] == 45
  ensures a: enc(u, r, 0, 0) && enc(u, r, 1, 2) && enc(u, r, 2, 4) && enc(u, r, 3, 6)
  ensures b: enc(u, r, 4, 9) && enc(u, r, 5, 11) && enc(u, r, 6, 14) && enc(u, r, 7, 16) && enc(u, r, 8, 19) && enc(u, r, 9, 21)
  ensures c: enc(u, r, 10, 24) && enc(u, r, 11, 26) && enc(u, r, 12, 28) && enc(u, r, 13, 30) && enc(u, r, 14, 32) && enc(u, r, 15, 34)
  ensures unchanged: forall i int :: 0 <= i && i < 16 ==> u[i] == old(u[i])

func uuid.Parse(s) (u, err)
  ensures accepts: err == nil <==> valid(s)
  ensures nil-on-error: err != nil ==> u == nil
  ensures result: err == nil ==> u != nil && fresh(u)
  ensures a: err == nil ==> dec(u, s, 0, 0) && dec(u, s, 1, 2) && dec(u, s, 2, 4) && dec(u, s, 3, 6)
  ensures b: err == nil ==> dec(u, s, 4, 9) && dec(u, s, 5, 11) && dec(u, s, 6, 14) && dec(u, s, 7, 16) && dec(u, s, 8, 19) && dec(u, s, 9, 21)
  ensures c: err == nil ==> dec(u, s, 10, 24) && dec(u, s, 11, 26) && dec(u, s, 12, 28) && dec(u, s, 13, 30) && dec(u, s, 14, 32) && dec(u, s, 15, 34)

// parsing inverts formatting: one byte at a time, the digits of x denote x
proc inverse(x byte)
  assert digits: ishex(hx(x >> 4)) && ishex(hx(x & 15)) && as(byte, (hv(hx(x >> 4)) << 4) | hv(hx(x & 15))) == x

proc roundtrip(u *uuid.UUID)
  assume u != nil
  s := call u.String()
  v, err := call uuid.Parse(s)
  assert same: err == nil && forall i int :: 0 <= i && i < 16 ==> v[i] == u[i]

func (*uuid.UUID).Equals(u, other) (r)
  ensures nil: u == nil || other == nil ==> !r
  ensures equal: u != nil && other != nil ==> (r <==> (forall i int :: 0 <= i && i < 16 ==> u[i] == other[i]))

func (*uuid.UUID).Bytes(u) (r)
  requires u != nil
  ensures bytes: len(r) == 16 && forall i int :: 0 <= i && i < 16 ==> r[i] == u[i]

func (*uuid.UUID).Version(u) (r)
  requires u != nil
  ensures version: r == as(int, u[6] >> 4)

func (*uuid.UUID).Variant(u) (r)
  requires u != nil
  ensures rfc: r == 1 <==> u[8] & 0xc0 == 0x80
  ensures microsoft: r == 2 <==> u[8] & 0xe0 == 0xc0
  ensures other: r == 0 || r == 1 || r == 2
