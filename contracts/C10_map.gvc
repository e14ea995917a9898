// typed wrappers of sync.Map: every operation is one atomic operation of the underlying map
def stored(m) := forall k any {smhas(m, k)} :: smhas(m, k) ==> istype(k, K) && (if smval(m, k) == nil then box(zero(V)) == nil else istype(smval(m, k), V))
def kept(m, key) := forall k any {smhas(m, k)} :: k != box(key) ==> (smhas(m, k) <==> old(smhas(m, k))) && (smhas(m, k) ==> smval(m, k) == old(smval(m, k)))
def same(m) := forall k any {smhas(m, k)} :: (smhas(m, k) <==> old(smhas(m, k))) && (smhas(m, k) ==> smval(m, k) == old(smval(m, k)))
option interfere yes
option atomic hashmap.MapL.len

func (*hashmap.Map).Put(t, key, value) (prev, b)
  requires t != nil && box(key) != nil
  rely stored: stored(t.m)
  linear put: smhas(t.m, box(key)) && smval(t.m, box(key)) == box(value) && kept(t.m, key) && (b <==> old(smhas(t.m, box(key)))) && (if b then box(prev) == old(smval(t.m, box(key))) else prev == zero(V))

func (*hashmap.Map).Get(t, key) (v, b)
  requires t != nil && box(key) != nil
  rely stored: stored(t.m)
  linear get: same(t.m) && (b <==> old(smhas(t.m, box(key)))) && (if b then box(v) == old(smval(t.m, box(key))) else v == zero(V))

func (*hashmap.Map).Has(t, key) (ok)
  requires t != nil && box(key) != nil
  rely stored: stored(t.m)
  linear has: same(t.m) && (ok <==> old(smhas(t.m, box(key))))

func (*hashmap.Map).Del(t, key) (ok)
  requires t != nil && box(key) != nil
  rely stored: stored(t.m)
  linear del: !smhas(t.m, box(key)) && kept(t.m, key) && (ok <==> old(smhas(t.m, box(key))))

func (*hashmap.Map).Range(t, f)
  requires t != nil && f != nil
  requires stored: stored(t.m)
  iter k, v, more :: ncalls(f) == 1 && box(callarg(f, 0, 0)) == k && box(callarg(f, 0, 1)) == v && more == callret(f, 0, 0)
  ensures once: nevents("range") == 1
  ensures unchanged: same(t.m)

func hashmap.NewMap() (t)
  ensures empty: t != nil && fresh(t) && smlen(t.m) == 0 && forall k any :: !smhas(t.m, k)

func (*hashmap.MapL).Put(t, key, value) (prev, b)
  requires t != nil && box(key) != nil
  rely stored: stored(t.m)
  linear put: smhas(t.m, box(key)) && smval(t.m, box(key)) == box(value) && kept(t.m, key) && (b <==> old(smhas(t.m, box(key)))) && (if b then box(prev) == old(smval(t.m, box(key))) else prev == zero(V))
     && delta(t.len) == (if b then 0 else 1)

func (*hashmap.MapL).Get(t, key) (v, b)
  requires t != nil && box(key) != nil
  rely stored: stored(t.m)
  linear get: same(t.m) && (b <==> old(smhas(t.m, box(key)))) && (if b then box(v) == old(smval(t.m, box(key))) else v == zero(V)) && delta(t.len) == 0

func (*hashmap.MapL).Has(t, key) (ok)
  requires t != nil && box(key) != nil
  rely stored: stored(t.m)
  linear has: same(t.m) && (ok <==> old(smhas(t.m, box(key)))) && delta(t.len) == 0

func (*hashmap.MapL).Del(t, key) (ok)
  requires t != nil && box(key) != nil
  rely stored: stored(t.m)
  linear del: !smhas(t.m, box(key)) && kept(t.m, key) && (ok <==> old(smhas(t.m, box(key)))) && delta(t.len) == (if ok then -1 else 0)

func (*hashmap.MapL).Range(t, f)
  requires t != nil && f != nil
  requires stored: stored(t.m)
  iter k, v, more :: ncalls(f) == 1 && box(callarg(f, 0, 0)) == k && box(callarg(f, 0, 1)) == v && more == callret(f, 0, 0)
  ensures once: nevents("range") == 1
  ensures unchanged: same(t.m) && delta(t.len) == 0

func (*hashmap.MapL).Len(t) (n)
  requires t != nil
  ensures read-last: n == t.len
  ensures unchanged: delta(t.len) == 0

func hashmap.NewMapL() (t)
  ensures empty: t != nil && fresh(t) && smlen(t.m) == 0 && t.len == 0 && forall k any :: !smhas(t.m, k)
