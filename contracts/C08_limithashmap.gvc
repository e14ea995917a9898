// LimitHashMap: segmented bounded map; a key lives in the segment its hash selects, under its own identity
option purecalls yes
def ent(e) := e.Value.(*hashmap.entry)
def ck(c, k) := if istype(box(k), float64) || istype(box(k), float32) then box(pcall(c.hashFunc, k)) else box(k)
def seg(c, k) := c.segments[pcall(c.hashFunc, k) % c.segmentNumber]
def hasK(c, k) := has(seg(c, k).cache, ck(c, k))
def entK(c, k) := ent(seg(c, k).cache[ck(c, k)])
def isval(x) := if x == nil then box(zero(V)) == nil else istype(x, V)
def valK(c, k) := if entK(c, k).value == nil then zero(V) else entK(c, k).value.(V)
def rankK(c, k) := rank(seg(c, k).cache[ck(c, k)])
def wfs(s) := s != nil && s.cache != nil && s.order != nil
   && (forall k any {has(s.cache, k)} :: has(s.cache, k) ==> allocated(s.cache[k]) && inlist(s.cache[k], s.order) && !stale(s.cache[k]) && istype(s.cache[k].Value, *hashmap.entry) && ent(s.cache[k]) != nil && ent(s.cache[k]).cacheKey == k && isval(ent(s.cache[k]).value))
   && (forall e *container/list.Element {inlist(e, s.order)} :: inlist(e, s.order) ==> istype(e.Value, *hashmap.entry) && ent(e) != nil && has(s.cache, ent(e).cacheKey) && s.cache[ent(e).cacheKey] == e)
   && llen(s.order) == len(s.cache)
def one(c) := (forall e *container/list.Element {lst(e)} :: lst(e) != 0 ==> allocated(e)) && forall e, f *container/list.Element {ent(e), ent(f)} :: lst(e) != 0 && lst(f) != 0 && istype(e.Value, *hashmap.entry) && istype(f.Value, *hashmap.entry) && ent(e) == ent(f) ==> e == f
def shape(c) := c != nil && c.segmentNumber >= 1 && len(c.segments) == c.segmentNumber && c.hashFunc != nil
   && (forall i, j int {c.segments[i], c.segments[j]} :: 0 <= i && i < j && j < c.segmentNumber ==> c.segments[i] != c.segments[j] && c.segments[i].cache != c.segments[j].cache && c.segments[i].order != c.segments[j].order)
def wf(c) := shape(c) && one(c) && (forall i int {c.segments[i]} :: 0 <= i && i < c.segmentNumber ==> wfs(c.segments[i]))
def bounded(c) := c.capacity >= 1 && forall i int {c.segments[i]} :: 0 <= i && i < c.segmentNumber ==> llen(c.segments[i].order) <= c.capacity
def same(c, k) := (hasK(c, k) <==> old(hasK(c, k))) && (old(hasK(c, k)) ==> valK(c, k) == old(valK(c, k)))
def ne(c, j, k) := ck(c, j) != ck(c, k)

func (*hashmap.LimitHashMap).Get(c, key) (value, ok)
  requires wf(c)
  ensures found: ok <==> hasK(c, key)
  ensures value: if ok then value == valK(c, key) else value == zero(V)
  ensures wf: wf(c)
  ensures unchanged: forall k K :: same(c, k)
  ensures order: forall k K :: hasK(c, k) ==> rankK(c, k) == old(rankK(c, k))

func (*hashmap.LimitHashMap).Contains(c, key) (ok)
  requires wf(c)
  ensures found: ok <==> hasK(c, key)
  ensures wf: wf(c)
  ensures unchanged: forall k K :: same(c, k)
  ensures order: forall k K :: hasK(c, k) ==> rankK(c, k) == old(rankK(c, k))

func (*hashmap.LimitHashMap).Put(c, key, value) (prev, existed)
  requires wf(c) && bounded(c)
  ensures stored: hasK(c, key) && valK(c, key) == value
  ensures existed: existed <==> old(hasK(c, key))
  ensures prev: if existed then prev == old(valK(c, key)) else prev == zero(V)
  ensures wf: wf(c)
  ensures bounded: bounded(c)
  ensures values: forall k K :: ne(c, k, key) && hasK(c, k) ==> old(hasK(c, k)) && valK(c, k) == old(valK(c, k))
  ensures keeps: forall k K :: old(hasK(c, k)) && !hasK(c, k) ==> seg(c, k) == seg(c, key) && old(llen(seg(c, key).order)) == c.capacity && !existed
  ensures evicts-oldest: forall k K :: old(hasK(c, k)) && !hasK(c, k) ==> forall j K :: seg(c, j) == seg(c, k) && old(hasK(c, j)) ==> old(rankK(c, j)) <= old(rankK(c, k))
  ensures order: forall a, b K :: seg(c, a) == seg(c, b) && ne(c, a, key) && ne(c, b, key) && hasK(c, a) && hasK(c, b) && old(rankK(c, a)) < old(rankK(c, b)) ==> rankK(c, a) < rankK(c, b)

func (*hashmap.LimitHashMap).Del(c, key)
  requires wf(c)
  ensures gone: !hasK(c, key)
  ensures wf: wf(c)
  ensures others: forall k K :: ne(c, k, key) ==> same(c, k) && (hasK(c, k) ==> rankK(c, k) == old(rankK(c, k)))

func (*hashmap.LimitHashMap).Clear(c)
  requires wf(c)
  ensures empty: forall k K :: !hasK(c, k)
  loop :: forall m *sync.RWMutex {held(m)} :: held(m) == 0
  loop i int :: forall j int {c.segments[j]} :: 0 <= j && j <= i && j < c.segmentNumber ==> forall k any {has(c.segments[j].cache, k)} :: !has(c.segments[j].cache, k)
  loop i int :: forall j int {c.segments[j]} :: 0 <= j && j < i && j < c.segmentNumber ==> forall k any {has(c.segments[j].cache, k)} :: !has(c.segments[j].cache, k)
  ensures wf: wf(c)
  ensures same: c.capacity == old(c.capacity) && c.segmentNumber == old(c.segmentNumber)

func (*hashmap.LimitHashMap).Len(c) (n)
  requires wf(c)
  ensures n: n == wrap(int, sumof(i, c.segmentNumber, llen(c.segments[i].order)))
  loop :: forall m *sync.RWMutex {held(m)} :: held(m) == 0
  loop i int, t int :: t == wrap(int, sumof(j, i + 1, llen(c.segments[j].order)))
  loop i int, t int :: t == wrap(int, sumof(j, i, llen(c.segments[j].order)))
  ensures wf: wf(c)
  ensures unchanged: forall k K :: same(c, k)

func hashmap.NewLimitHashMapWithSegment(capacity, segmentNumber) (c)
  option modular
  requires one(capacity)
  loop i int, s []*hashmap.segment :: forall j int {s[j]} :: 0 <= j && j < i ==> s[j] != nil && s[j].cache != nil && s[j].order != nil && allocated(s[j]) && allocated(s[j].cache) && allocated(s[j].order)
  loop i int, s []*hashmap.segment :: forall j int {s[j]} :: 0 <= j && j < i ==> llen(s[j].order) == 0 && len(s[j].cache) == 0
  loop i int, s []*hashmap.segment :: forall j int {s[j]} :: 0 <= j && j < i ==> forall k any {has(s[j].cache, k)} :: !has(s[j].cache, k)
  loop i int, s []*hashmap.segment :: forall j int {s[j]} :: 0 <= j && j < i ==> forall e *container/list.Element {inlist(e, s[j].order)} :: !inlist(e, s[j].order)
  loop i int, s []*hashmap.segment :: forall j, l int {s[j], s[l]} :: 0 <= j && j < l && l < i ==> s[j] != s[l] && s[j].cache != s[l].cache && s[j].order != s[l].order
  loop :: one(0)
  loop :: forall m *sync.RWMutex {held(m)} :: held(m) == 0
  ensures segments: c != nil && c.segmentNumber >= 1 && len(c.segments) == c.segmentNumber && c.hashFunc != nil
  ensures wf: wf(c)
  ensures bound: capacity >= 1 ==> c.capacity >= 1 && c.capacity * c.segmentNumber <= capacity
  ensures empty: forall i int :: 0 <= i && i < c.segmentNumber ==> llen(c.segments[i].order) == 0

func hashmap.NewLimitHashMap(capacity) (c)
  requires one(capacity)
  ensures wf: wf(c)
  ensures bound: capacity >= 1 ==> c.capacity >= 1 && c.capacity * c.segmentNumber <= capacity
  ensures empty: forall i int :: 0 <= i && i < c.segmentNumber ==> llen(c.segments[i].order) == 0
