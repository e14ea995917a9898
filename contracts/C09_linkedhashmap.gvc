// LinkedHashMap: hash map and recency list describe the same entries
def el(v) := v.(*container/list.Element)
def ent(e) := e.Value.(*hashmap.entrykv[K,V])
def hasK(t, k) := smhas(t.m, box(k))
def elK(t, k) := el(smval(t.m, box(k)))
def valK(t, k) := ent(elK(t, k)).value
def rankK(t, k) := rank(elK(t, k))
def wf(t) := t != nil && t.m != nil && t.list != nil
   && (forall k any {smhas(t.m, k)} :: smhas(t.m, k) ==> istype(smval(t.m, k), *container/list.Element) && allocated(el(smval(t.m, k))) && inlist(el(smval(t.m, k)), t.list) && !stale(el(smval(t.m, k)))
        && istype(el(smval(t.m, k)).Value, *hashmap.entrykv[K,V]) && ent(el(smval(t.m, k))) != nil && box(ent(el(smval(t.m, k))).key) == k)
   && (forall e *container/list.Element {inlist(e, t.list)} :: inlist(e, t.list) ==> istype(e.Value, *hashmap.entrykv[K,V]) && ent(e) != nil && smhas(t.m, box(ent(e).key)) && smval(t.m, box(ent(e).key)) == box(e))
   && (forall e, f *container/list.Element {ent(e), ent(f)} :: inlist(e, t.list) && inlist(f, t.list) && ent(e) == ent(f) ==> e == f)
   && llen(t.list) == t.count && smlen(t.m) == t.count
def same(t, k) := (hasK(t, k) <==> old(hasK(t, k))) && (old(hasK(t, k)) ==> valK(t, k) == old(valK(t, k)))

func hashmap.NewLinkedHashMap(limit) (t)
  ensures wf: wf(t)
  ensures empty: t.count == 0 && t.limit == limit
  ensures fresh: fresh(t) && fresh(t.m) && fresh(t.list)

func (*hashmap.LinkedHashMap).Put(t, key, value)
  requires wf(t)
  requires bound: t.limit >= 1 && t.count <= t.limit && t.count < maxof(int64)
  ensures stored: hasK(t, key) && valK(t, key) == value
  ensures wf: wf(t)
  ensures bounded: t.count <= t.limit && t.limit == old(t.limit)
  ensures values: forall k K :: k != key && hasK(t, k) ==> old(hasK(t, k)) && valK(t, k) == old(valK(t, k))
  ensures keeps: (old(t.count) < t.limit || old(hasK(t, key))) ==> forall k K :: old(hasK(t, k)) ==> hasK(t, k)
  ensures evicts-oldest: forall k K :: old(hasK(t, k)) && !hasK(t, k) ==> forall j K :: old(hasK(t, j)) ==> old(rankK(t, j)) <= old(rankK(t, k))
  ensures count: t.count == (if old(hasK(t, key)) || old(t.count) == t.limit then old(t.count) else old(t.count) + 1)
  ensures recency: forall k K :: k != key && hasK(t, k) ==> rankK(t, key) < rankK(t, k)
  ensures order: forall a, b K :: a != key && b != key && hasK(t, a) && hasK(t, b) && old(rankK(t, a)) < old(rankK(t, b)) ==> rankK(t, a) < rankK(t, b)

func (*hashmap.LinkedHashMap).LoadOrStore(t, key, value) (actual, loaded)
  requires wf(t)
  requires bound: t.limit >= 1 && t.count <= t.limit && t.count < maxof(int64)
  ensures loaded: loaded <==> old(hasK(t, key))
  ensures actual: if loaded then actual == old(valK(t, key)) else actual == value
  ensures stored: hasK(t, key) && valK(t, key) == actual
  ensures wf: wf(t)
  ensures bounded: t.count <= t.limit && t.limit == old(t.limit)
  ensures values: forall k K :: k != key && hasK(t, k) ==> old(hasK(t, k)) && valK(t, k) == old(valK(t, k))
  ensures keeps: (old(t.count) < t.limit || loaded) ==> forall k K :: old(hasK(t, k)) ==> hasK(t, k)
  ensures evicts-oldest: forall k K :: old(hasK(t, k)) && !hasK(t, k) ==> forall j K :: old(hasK(t, j)) ==> old(rankK(t, j)) <= old(rankK(t, k))
  ensures count: t.count == (if loaded || old(t.count) == t.limit then old(t.count) else old(t.count) + 1)
  ensures recency: !loaded ==> forall k K :: k != key && hasK(t, k) ==> rankK(t, key) < rankK(t, k)
  ensures order: forall a, b K :: a != key && b != key && hasK(t, a) && hasK(t, b) && old(rankK(t, a)) < old(rankK(t, b)) ==> rankK(t, a) < rankK(t, b)

func (*hashmap.LinkedHashMap).Get(t, key) (value, ok)
  requires wf(t)
  ensures found: ok <==> hasK(t, key)
  ensures value: if ok then value == valK(t, key) else value == zero(V)
  ensures wf: wf(t)
  ensures unchanged: (forall k K :: same(t, k)) && t.count == old(t.count)
  ensures order: forall a K :: hasK(t, a) ==> rankK(t, a) == old(rankK(t, a))

func (*hashmap.LinkedHashMap).Delete(t, key)
  requires wf(t)
  ensures gone: !hasK(t, key)
  ensures wf: wf(t)
  ensures others: forall k K :: k != key ==> same(t, k)
  ensures count: t.count == old(t.count) - (if old(hasK(t, key)) then 1 else 0)
  ensures order: forall a K :: hasK(t, a) ==> rankK(t, a) == old(rankK(t, a))

func (*hashmap.LinkedHashMap).Back(t) (k, v, ok)
  requires wf(t)
  ensures ok: ok <==> t.count > 0
  ensures entry: ok ==> hasK(t, k) && valK(t, k) == v
  ensures oldest: ok ==> forall j K :: hasK(t, j) ==> rankK(t, j) <= rankK(t, k)
  ensures unchanged: wf(t) && (forall j K :: same(t, j)) && forall a K :: hasK(t, a) ==> rankK(t, a) == old(rankK(t, a))

func (*hashmap.LinkedHashMap).Front(t) (k, v, ok)
  requires wf(t)
  ensures ok: ok <==> t.count > 0
  ensures entry: ok ==> hasK(t, k) && valK(t, k) == v
  ensures newest: ok ==> forall j K :: hasK(t, j) ==> rankK(t, k) <= rankK(t, j)
  ensures unchanged: wf(t) && (forall j K :: same(t, j)) && forall a K :: hasK(t, a) ==> rankK(t, a) == old(rankK(t, a))

func (*hashmap.LinkedHashMap).Clear(t)
  requires wf(t)
  ensures empty: t.count == 0 && forall k K :: !hasK(t, k)
  ensures wf: wf(t)

func (*hashmap.LinkedHashMap).Len(t) (n)
  requires wf(t)
  ensures n: n == t.count
  ensures unchanged: wf(t) && (forall j K :: same(t, j))

func (*hashmap.LinkedHashMap).MoveToFront(t, key)
  requires wf(t)
  ensures wf: wf(t)
  ensures unchanged: (forall k K :: same(t, k)) && t.count == old(t.count)
  ensures front: old(hasK(t, key)) ==> forall k K :: k != key && hasK(t, k) ==> rankK(t, key) < rankK(t, k)
  ensures order: forall a, b K :: a != key && b != key && hasK(t, a) && hasK(t, b) && old(rankK(t, a)) < old(rankK(t, b)) ==> rankK(t, a) < rankK(t, b)
  ensures absent: !old(hasK(t, key)) ==> forall a K :: hasK(t, a) ==> rankK(t, a) == old(rankK(t, a))

func (*hashmap.LinkedHashMap).Iterator(t, front) (it)
  requires wf(t)
  ensures start: it != nil && it.mapRef == t && it.front == front
  ensures empty: (it.current == nil) <==> (t.count == 0)
  ensures newest: it.current != nil && front ==> inlist(it.current, t.list) && forall j K :: hasK(t, j) ==> rank(it.current) <= rankK(t, j)
  ensures oldest: it.current != nil && !front ==> inlist(it.current, t.list) && forall j K :: hasK(t, j) ==> rank(it.current) >= rankK(t, j)
  ensures unchanged: wf(t) && (forall j K :: same(t, j)) && forall a K :: hasK(t, a) ==> rankK(t, a) == old(rankK(t, a))

func (*hashmap.LinkedHashMapIterator).Next(it) (k, v, ok)
  requires it != nil && wf(it.mapRef)
  requires position: it.current != nil ==> allocated(it.current) && inlist(it.current, it.mapRef.list) && !stale(it.current)
  ensures ok: ok <==> old(it.current) != nil
  ensures entry: ok ==> hasK(it.mapRef, k) && valK(it.mapRef, k) == v && elK(it.mapRef, k) == old(it.current)
  ensures next: ok && it.front && it.current != nil ==> inlist(it.current, it.mapRef.list) && rankK(it.mapRef, k) < rank(it.current) && forall j K :: hasK(it.mapRef, j) && rankK(it.mapRef, j) > rankK(it.mapRef, k) ==> rankK(it.mapRef, j) >= rank(it.current)
  ensures prev: ok && !it.front && it.current != nil ==> inlist(it.current, it.mapRef.list) && rankK(it.mapRef, k) > rank(it.current) && forall j K :: hasK(it.mapRef, j) && rankK(it.mapRef, j) < rankK(it.mapRef, k) ==> rankK(it.mapRef, j) <= rank(it.current)
  ensures last: ok && it.current == nil ==> forall j K :: hasK(it.mapRef, j) ==> (if it.front then rankK(it.mapRef, j) <= rankK(it.mapRef, k) else rankK(it.mapRef, j) >= rankK(it.mapRef, k))
  ensures stays: !ok ==> it.current == nil
  ensures same: it.mapRef == old(it.mapRef) && it.front == old(it.front)
  ensures unchanged: wf(it.mapRef) && (forall j K :: same(it.mapRef, j)) && forall a K :: hasK(it.mapRef, a) ==> rankK(it.mapRef, a) == old(rankK(it.mapRef, a))
