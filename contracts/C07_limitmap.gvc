// LimitMap: bounded map, least recently written key is dropped
def wf(m) := m != nil && m.cache != nil && m.order != nil
   && (forall k any {has(m.cache, k)} :: has(m.cache, k) ==> allocated(m.cache[k]) && inlist(m.cache[k], m.order) && !stale(m.cache[k])
        && istype(m.cache[k].Value, *hashmap.limitEntry[K,V]) && ent(m.cache[k]) != nil && box(ent(m.cache[k]).key) == k)
   && (forall e *container/list.Element {inlist(e, m.order)} :: inlist(e, m.order) ==> istype(e.Value, *hashmap.limitEntry[K,V]) && ent(e) != nil && has(m.cache, box(ent(e).key)) && m.cache[box(ent(e).key)] == e)
   && (forall e, f *container/list.Element {ent(e), ent(f)} :: inlist(e, m.order) && inlist(f, m.order) && ent(e) == ent(f) ==> e == f)
   && llen(m.order) == len(m.cache)
def ent(e) := e.Value.(*hashmap.limitEntry[K,V])
def hasK(m, k) := has(m.cache, box(k))
def valK(m, k) := ent(m.cache[box(k)]).value
def rankK(m, k) := rank(m.cache[box(k)])
def same(m, k) := (hasK(m, k) <==> old(hasK(m, k))) && (old(hasK(m, k)) ==> valK(m, k) == old(valK(m, k)))

func hashmap.NewLimitMap(capacity) (m)
  ensures wf: wf(m)
  ensures empty: len(m.cache) == 0
  ensures cap: m.capacity == capacity
  ensures fresh: fresh(m) && fresh(m.cache) && fresh(m.order)

func (*hashmap.LimitMap).Get(m, key) (value, ok)
  requires wf(m)
  ensures found: ok <==> hasK(m, key)
  ensures value: ok ==> value == valK(m, key)
  ensures absent: !ok ==> value == zero(V)
  ensures wf: wf(m)
  ensures unchanged: forall k K :: same(m, k)
  ensures order: forall a K :: hasK(m, a) ==> rankK(m, a) == old(rankK(m, a))

func (*hashmap.LimitMap).Put(m, key, value) (prev, existed)
  requires wf(m)
  requires bound: m.capacity >= 1
  requires size: len(m.cache) <= m.capacity
  ensures stored: m.capacity > 0 ==> hasK(m, key) && valK(m, key) == value
  ensures existed: existed <==> old(hasK(m, key))
  ensures prev: (existed ==> prev == old(valK(m, key))) && (!existed ==> prev == zero(V))
  ensures wf: wf(m)
  ensures bounded: len(m.cache) <= m.capacity
  ensures values: forall k K :: k != key && hasK(m, k) ==> old(hasK(m, k)) && valK(m, k) == old(valK(m, k))
  ensures keeps: (old(len(m.cache)) < m.capacity || old(hasK(m, key))) ==> forall k K :: old(hasK(m, k)) ==> hasK(m, k)
  ensures evicts-oldest: forall k K :: old(hasK(m, k)) && !hasK(m, k) ==> forall j K :: old(hasK(m, j)) ==> old(rankK(m, j)) <= old(rankK(m, k))
  ensures evicts-one: m.capacity > 0 ==> len(m.cache) == (if old(hasK(m, key)) || old(len(m.cache)) == m.capacity then old(len(m.cache)) else old(len(m.cache)) + 1)
  ensures recency: forall k K :: k != key && hasK(m, k) ==> rankK(m, key) < rankK(m, k)
  ensures order: forall a, b K :: a != key && b != key && hasK(m, a) && hasK(m, b) && old(rankK(m, a)) < old(rankK(m, b)) ==> rankK(m, a) < rankK(m, b)

func (*hashmap.LimitMap).Del(m, key)
  requires wf(m)
  ensures gone: !hasK(m, key)
  ensures wf: wf(m)
  ensures others: forall k K :: k != key ==> same(m, k)
  ensures size: len(m.cache) == old(len(m.cache)) - (if old(hasK(m, key)) then 1 else 0)
  ensures order: forall a K :: hasK(m, a) ==> rankK(m, a) == old(rankK(m, a))

func (*hashmap.LimitMap).RemoveMulti(m, keys)
  requires wf(m)
  ensures wf: wf(m)
  ensures gone: forall i int :: 0 <= i && i < len(keys) ==> !hasK(m, keys[i])
  loop i int :: forall j int :: 0 <= j && j <= i ==> !hasK(m, keys[j])
  loop i int :: forall j int :: 0 <= j && j < i ==> !hasK(m, keys[j])
  loop :: forall k K :: hasK(m, k) ==> old(hasK(m, k)) && m.cache[box(k)] == old(m.cache[box(k)])
  loop i int :: forall k K :: (forall j int :: 0 <= j && j <= i ==> k != keys[j]) ==> same(m, k)
  loop i int :: forall k K :: (forall j int :: 0 <= j && j < i ==> k != keys[j]) ==> same(m, k)
  loop :: held(m.lock) == 1
  ensures others: forall k K :: (forall i int :: 0 <= i && i < len(keys) ==> k != keys[i]) ==> same(m, k)

func (*hashmap.LimitMap).Len(m) (n)
  requires wf(m)
  ensures n: n == len(m.cache)
