// LruCache: typed least-recently-used cache (the groupcache code it calls is verified inline)
def ent(e) := e.Value.(*lru.entry)
def hs(c, k) := has(c.cache.cache, k)
def el(c, k) := c.cache.cache[k]
def val(c, k) := ent(el(c, k)).value
def tval(c, k) := if val(c, k) == nil then zero(T) else val(c, k).(T)
def rk(c, k) := rank(el(c, k))
def isval(x) := if x == nil then box(zero(T)) == nil else istype(x, T)
def lwf(m) := m != nil && m.cache != nil && m.ll != nil && m.OnEvicted == nil
   && (forall k any {has(m.cache, k)} :: has(m.cache, k) ==> allocated(m.cache[k]) && inlist(m.cache[k], m.ll) && !stale(m.cache[k]) && istype(m.cache[k].Value, *lru.entry) && ent(m.cache[k]) != nil && ent(m.cache[k]).key == k && isval(ent(m.cache[k]).value))
   && (forall e *container/list.Element {inlist(e, m.ll)} :: inlist(e, m.ll) ==> istype(e.Value, *lru.entry) && ent(e) != nil && has(m.cache, ent(e).key) && m.cache[ent(e).key] == e)
   && (forall e, f *container/list.Element {ent(e), ent(f)} :: inlist(e, m.ll) && inlist(f, m.ll) && ent(e) == ent(f) ==> e == f)
   && llen(m.ll) == len(m.cache)
def wf(c) := c != nil && c.lock != nil && lwf(c.cache)
def cap(c) := c.cache.MaxEntries
def n(c) := len(c.cache.cache)
def bounded(c) := cap(c) >= 1 ==> n(c) <= cap(c)
def same(c, k) := (hs(c, k) <==> old(hs(c, k))) && (old(hs(c, k)) ==> val(c, k) == old(val(c, k)))

func cache.NewLruCache(maxEntries) (c)
  ensures wf: wf(c)
  ensures empty: n(c) == 0 && (forall k any :: !hs(c, k))
  ensures cap: cap(c) == maxEntries

func (*cache.LruCache).Get(c, key) (value, ok)
  requires wf(c)
  ensures found: ok <==> hs(c, key)
  ensures value: if ok then value == tval(c, key) else value == zero(T)
  ensures wf: wf(c)
  ensures unchanged: forall k any :: same(c, k)
  ensures cap: cap(c) == old(cap(c)) && n(c) == old(n(c))
  ensures used: ok ==> forall k any :: k != key && hs(c, k) ==> rk(c, key) < rk(c, k)
  ensures order: forall a, b any :: a != key && b != key && hs(c, a) && hs(c, b) && old(rk(c, a)) < old(rk(c, b)) ==> rk(c, a) < rk(c, b)

func (*cache.LruCache).Add(c, key, value)
  requires wf(c) && bounded(c) && cap(c) >= 0
  ensures nilkey: key == nil ==> forall k any :: same(c, k)
  ensures stored: key != nil ==> hs(c, key) && tval(c, key) == value
  ensures wf: wf(c)
  ensures bounded: bounded(c) && cap(c) == old(cap(c))
  ensures values: forall k any :: k != key && hs(c, k) ==> old(hs(c, k)) && val(c, k) == old(val(c, k))
  ensures keeps: (cap(c) == 0 || old(n(c)) < cap(c) || old(hs(c, key))) ==> forall k any :: old(hs(c, k)) ==> hs(c, k)
  ensures evicts-oldest: forall k any :: old(hs(c, k)) && !hs(c, k) ==> forall j any :: old(hs(c, j)) ==> old(rk(c, j)) <= old(rk(c, k))
  ensures count: key != nil ==> n(c) == (if old(hs(c, key)) || (cap(c) > 0 && old(n(c)) == cap(c)) then old(n(c)) else old(n(c)) + 1)
  ensures used: key != nil ==> forall k any :: k != key && hs(c, k) ==> rk(c, key) < rk(c, k)
  ensures order: forall a, b any :: a != key && b != key && hs(c, a) && hs(c, b) && old(rk(c, a)) < old(rk(c, b)) ==> rk(c, a) < rk(c, b)

func (*cache.LruCache).Remove(c, key)
  requires wf(c)
  ensures gone: !hs(c, key)
  ensures wf: wf(c)
  ensures others: forall k any :: k != key ==> same(c, k)
  ensures cap: cap(c) == old(cap(c)) && n(c) <= old(n(c))
  ensures order: forall a any :: hs(c, a) ==> rk(c, a) == old(rk(c, a))

func (*cache.LruCache).RemoveMulti(c, keys)
  requires wf(c)
  loop i int :: forall j int {keys[j]} :: 0 <= j && j <= i ==> !hs(c, box(keys[j]))
  loop i int :: forall j int {keys[j]} :: 0 <= j && j < i ==> !hs(c, box(keys[j]))
  loop :: forall k any :: hs(c, k) ==> old(hs(c, k)) && el(c, k) == old(el(c, k))
  loop i int :: forall k any :: (forall j int :: 0 <= j && j <= i ==> k != box(keys[j])) ==> same(c, k)
  loop i int :: forall k any :: (forall j int :: 0 <= j && j < i ==> k != box(keys[j])) ==> same(c, k)
  loop :: held(c.lock) == 1
  loop :: n(c) <= old(n(c)) && cap(c) == old(cap(c))
  ensures gone: forall i int :: 0 <= i && i < len(keys) ==> !hs(c, box(keys[i]))
  ensures wf: wf(c)
  ensures cap: cap(c) == old(cap(c)) && n(c) <= old(n(c))
  ensures others: forall k any :: (forall i int :: 0 <= i && i < len(keys) ==> k != box(keys[i])) ==> same(c, k)
