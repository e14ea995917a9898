// base-58 digits of the Bitcoin alphabet 123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz
option tableground no
option budget 120
option timeout 20000
opaque isdig(b byte) bool := (49 <= b && b <= 57) || (65 <= b && b <= 72) || (74 <= b && b <= 78) || (80 <= b && b <= 90) || (97 <= b && b <= 107) || (109 <= b && b <= 122)
opaque dig(b byte) int := if b <= 57 then b - 49 else (if b <= 72 then b - 56 else (if b <= 78 then b - 57 else (if b <= 90 then b - 58 else (if b <= 107 then b - 64 else b - 65))))
// number denoted by the first n bytes of s (most significant first), and: the first n bytes are digits
uf val(string, int) int
uf good(string, int) bool
axiom val0: forall s string {val(s, 0)} :: val(s, 0) == 0
axiom good0: forall s string {good(s, 0)} :: good(s, 0)
axiom valn: forall s string, n int {val(s, n)} :: 0 < n && n <= len(s) ==> val(s, n) == val(s, n - 1) * 58 + dig(s[n - 1])
axiom goodn: forall s string, n int {good(s, n)} :: 0 < n && n <= len(s) ==> (good(s, n) <==> good(s, n - 1) && isdig(s[n - 1]))
axiom valn1: forall s string, n int {val(s, n), s[n]} :: 0 <= n && n < len(s) ==> val(s, n + 1) == val(s, n) * 58 + dig(s[n])
axiom goodn1: forall s string, n int {good(s, n), s[n]} :: 0 <= n && n < len(s) ==> (good(s, n + 1) <==> good(s, n) && isdig(s[n]))
// facts about single digits, proved below from the definitions
axiom digits: forall b byte {isdig(b)} :: isdig(b) ==> 0 <= dig(b) && dig(b) < 58
axiom zero: dig(49) == 0
// consequences of the definitions, proved by the induction lemmas below
axiom nonneg: forall s string, n int {val(s, n)} :: good(s, n) && 0 <= n && n <= len(s) ==> 0 <= val(s, n)
axiom mono: forall s string, n, m int {good(s, n), good(s, m)} :: good(s, m) && 0 <= n && n <= m && m <= len(s) ==> good(s, n) && val(s, n) <= val(s, m)
axiom each: forall s string, n, i int {good(s, n), s[i]} :: good(s, n) && 0 <= i && i < n && n <= len(s) ==> isdig(s[i])

tablefact b, k :: isdig(b) && dig(b) == k
tableinv isdig dig

lemma digits: forall b byte :: isdig(b) ==> 0 <= dig(b) && dig(b) < 58
  option reveal isdig dig
lemma zero: dig(49) == 0
  option reveal isdig dig
lemma nonneg_base: forall s string :: 0 <= val(s, 0)
  option without nonneg mono each
lemma nonneg_step: forall s string, n int :: (good(s, n - 1) ==> 0 <= val(s, n - 1)) && 0 < n && n <= len(s) && good(s, n) ==> 0 <= val(s, n)
  option without nonneg mono each
lemma mono_step: forall s string, n, m int :: (good(s, m - 1) ==> good(s, n) && val(s, n) <= val(s, m - 1)) && 0 <= n && n < m && m <= len(s) && good(s, m) ==> good(s, n) && val(s, n) <= val(s, m)
  option without mono each
lemma each_step: forall s string, n, i int :: (good(s, n - 1) && i < n - 1 ==> isdig(s[i])) && 0 <= i && i < n && n <= len(s) && good(s, n) ==> isdig(s[i])
  option without each mono

func base58.EncodeForInt64(v) (r)
  option unroll 12
  option modular
  ensures digits: good(bytes(r), len(r))
  ensures value: val(bytes(r), len(r)) == v
  ensures canonical: len(r) > 0 ==> r[0] != 49
  ensures size: len(r) <= 11

func base58.DecodeForInt64(bs) (r, ok)
  option without valn goodn
  option modular
  ensures ok: ok <==> good(bytes(bs), len(bs)) && val(bytes(bs), len(bs)) <= maxof(uint64)
  ensures value: ok ==> r == val(bytes(bs), len(bs))
  ensures input: bytes(bs) == old(bytes(bs))
  loop i int, r uint64 :: i < len(bs) && r == val(bytes(bs), i + 1)
  loop i int, r uint64 :: i <= len(bs) && r == val(bytes(bs), i)
  loop i int :: i < len(bs) && good(bytes(bs), i + 1)
  loop i int :: i <= len(bs) && good(bytes(bs), i)

proc roundtrip(v uint64)
  b := call base58.EncodeForInt64(v)
  assert digits: forall i int :: 0 <= i && i < len(b) ==> isdig(bytes(b)[i])
  assert value: val(bytes(b), len(b)) == v
  r, ok := call base58.DecodeForInt64(b)
  assert back: ok && r == v
