// Consistenthash: the ring is a function of the set of live nodes; a value belongs to the owner of the next point
uf be64(int64) string
def pt(i, k) := lib("crc64", 0xC96C5795D7870F42, be64(i) + be64(k))
def hv(v) := lib("crc64", 0xC96C5795D7870F42, be64(v))
def hs(s) := lib("crc64", 0xC96C5795D7870F42, s)
def onring(t, h) := smhas(t.m.m, box(h))
def owner(t, h) := smval(t.m.m, box(h)).(int64)
def haspt(t, k, h) := exists i int {pt(i, k)} :: 0 <= i && i < t.replicas && pt(i, k) == h
def base(t) := t != nil && t.m != nil && t.mux != nil && t._m != nil && t.replicas >= 1
def typed(t) := forall h any {smhas(t.m.m, h)} :: smhas(t.m.m, h) ==> istype(h, uint64) && istype(smval(t.m.m, h), int64)
def owners(t) := forall h uint64 {onring(t, h)} :: onring(t, h) ==> has(t._m, owner(t, h)) && haspt(t, owner(t, h), h)
def points(t) := (forall k int64, i int {has(t._m, k), pt(i, k)} :: has(t._m, k) && 0 <= i && i < t.replicas ==> onring(t, pt(i, k)) && owner(t, pt(i, k)) <= k) && forall k int64 {has(t._m, k)} :: has(t._m, k) ==> onring(t, pt(0, k))
def sound(t) := forall i int {t.keys[i]} :: 0 <= i && i < len(t.keys) ==> onring(t, t.keys[i])
def covers(t) := forall h uint64 {onring(t, h)} :: onring(t, h) ==> exists i int {t.keys[i]} :: 0 <= i && i < len(t.keys) && t.keys[i] == h
def distinct(t) := forall i, j int {t.keys[i], t.keys[j]} :: 0 <= i && i < j && j < len(t.keys) ==> t.keys[i] != t.keys[j]
def sorted(t) := forall i, j int {t.keys[i], t.keys[j]} :: 0 <= i && i < j && j < len(t.keys) ==> t.keys[i] < t.keys[j]
def wf(t) := base(t) && typed(t) && owners(t) && points(t) && sound(t) && covers(t) && sorted(t)
def nearest(t, v, h) := onring(t, h) && (if h >= v then (forall g uint64 {onring(t, g)} :: onring(t, g) && g >= v ==> h <= g) else (forall g uint64 {onring(t, g)} :: onring(t, g) ==> g < v && h <= g))

func hashmap.int64ToBytes(n) (r)
  option assumed
  option modular
  ensures bytes(r) == be64(n)

func buffer.NewBufferByPool() (b)
  option newcell b
  option assumed
  option modular
  ensures b != nil && fresh(b) && fresh(*b) && bytes(*b) == ""

func (*buffer.Buffer).Write(b, p) (n, err)
  option modular
  option modifies cell b, elems *b
  requires b != nil
  ensures arr: arr(*b) == old(arr(*b)) || fresh(*b)
  ensures bytes: bytes(*b) == old(bytes(*b)) + old(bytes(p))

func (*buffer.Buffer).Free(b)
  option assumed
  option modular

func hashmap.NewConsistenthash(replicas) (t)
  requires replicas >= 1
  ensures wf: wf(t) && fresh(t)
  ensures empty: forall k int64 :: !has(t._m, k)
  ensures replicas: t.replicas == replicas

func (*hashmap.Consistenthash).Get(t, value) (node, ok)
  requires wf(t)
  ensures found: ok ==> has(t._m, node)
  ensures live: forall k int64 {has(t._m, k)} :: has(t._m, k) ==> ok
  ensures point: ok ==> exists i int {t.keys[i]} :: 0 <= i && i < len(t.keys) && nearest(t, hv(value), t.keys[i]) && node == owner(t, t.keys[i])

func (*hashmap.Consistenthash).GetStr(t, value) (node, ok)
  requires wf(t)
  ensures found: ok ==> has(t._m, node)
  ensures live: forall k int64 {has(t._m, k)} :: has(t._m, k) ==> ok
  ensures point: ok ==> exists i int {t.keys[i]} :: 0 <= i && i < len(t.keys) && nearest(t, hs(value), t.keys[i]) && node == owner(t, t.keys[i])

// the points of one node are put on the ring; a point that two nodes share belongs to the smaller of them
func (*hashmap.Consistenthash).addPoints(t, key)
  option fallback on
  option append both
  option optional
  option modular
  option branch ground
  option budget 500
  option modifies t.keys, elems t.keys, smap t.m.m
  option locked t.mux
  requires base(t) && typed(t) && held(t.mux) == 1
  requires sound(t) && distinct(t) && covers(t)
  loop :: fresh(t.keys) || arr(t.keys) == old(arr(t.keys))
  loop :: base(t) && typed(t)
  loop :: sound(t)
  loop :: distinct(t)
  loop :: covers(t)
  loop :: forall h uint64 {onring(t, h)} :: old(onring(t, h)) ==> onring(t, h) && owner(t, h) <= old(owner(t, h)) && (owner(t, h) == old(owner(t, h)) || owner(t, h) == key && haspt(t, key, h))
  loop :: forall h uint64 {onring(t, h)} :: onring(t, h) && !old(onring(t, h)) ==> owner(t, h) == key && haspt(t, key, h)
  loop i int :: 0 <= i && forall j int {pt(j, key)} :: 0 <= j && j < i ==> onring(t, pt(j, key)) && owner(t, pt(j, key)) <= key
  ensures wf: base(t) && typed(t)
  ensures keys: sound(t) && distinct(t) && covers(t)
  ensures before: forall h uint64 {onring(t, h)} {old(onring(t, h))} :: old(onring(t, h)) ==> onring(t, h) && owner(t, h) <= old(owner(t, h)) && (owner(t, h) == old(owner(t, h)) || owner(t, h) == key && haspt(t, key, h))
  ensures new: forall h uint64 {onring(t, h)} :: onring(t, h) && !old(onring(t, h)) ==> owner(t, h) == key && haspt(t, key, h)
  ensures all: forall j int {pt(j, key)} :: 0 <= j && j < t.replicas ==> onring(t, pt(j, key)) && owner(t, pt(j, key)) <= key

func (*hashmap.Consistenthash).Add(t, keys)
  option budget 500
  option branch ground
  requires wf(t)
  loop :: base(t) && typed(t)
  loop :: owners(t)
  loop :: points(t)
  loop :: sound(t) && distinct(t)
  loop :: covers(t)
  loop i int :: forall k int64 {has(t._m, k)} :: has(t._m, k) ==> old(has(t._m, k)) || (exists j int {keys[j]} :: 0 <= j && j <= i && j < len(keys) && keys[j] == k)
  loop i int :: forall j int {keys[j]} :: 0 <= j && j <= i && j < len(keys) ==> has(t._m, keys[j])
  loop :: forall k int64 {has(t._m, k)} :: old(has(t._m, k)) ==> has(t._m, k)
  ensures wf: wf(t)
  ensures added: forall j int {keys[j]} :: 0 <= j && j < len(keys) ==> has(t._m, keys[j])
  ensures kept: forall k int64 {has(t._m, k)} :: old(has(t._m, k)) ==> has(t._m, k)
  ensures only: forall k int64 {has(t._m, k)} :: has(t._m, k) && !old(has(t._m, k)) ==> (exists j int {keys[j]} :: 0 <= j && j < len(keys) && keys[j] == k)
  ensures replicas: t.replicas == old(t.replicas)

func (*hashmap.Consistenthash).Del(t, key)
  option budget 500
  option branch ground
  requires wf(t)
  loop :: base(t) && typed(t)
  loop :: sound(t) && distinct(t)
  loop :: covers(t)
  loop :: forall h uint64 {onring(t, h)} :: onring(t, h) ==> ranged(owner(t, h)) && has(t._m, owner(t, h)) && haspt(t, owner(t, h), h)
  loop :: forall k int64, i int {ranged(k), pt(i, k)} :: ranged(k) && 0 <= i && i < t.replicas ==> onring(t, pt(i, k)) && owner(t, pt(i, k)) <= k
  loop :: forall k int64 {ranged(k)} :: ranged(k) ==> has(t._m, k) && onring(t, pt(0, k))
  ensures wf: wf(t)
  ensures gone: !has(t._m, key)
  ensures others: forall k int64 {has(t._m, k)} :: k != key ==> (has(t._m, k) <==> old(has(t._m, k)))
  ensures replicas: t.replicas == old(t.replicas)

func (*hashmap.Consistenthash).Nodes(t) (r)
  option fallback on
  option append both
  requires wf(t)
  loop r []int64 :: forall j int {r[j]} :: 0 <= j && j < len(r) ==> ranged(r[j])
  loop r []int64 :: forall k int64 {ranged(k)} :: ranged(k) ==> (exists j int {r[j]} :: 0 <= j && j < len(r) && r[j] == k)
  loop r []int64 :: forall i, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  loop :: forall k int64 {ranged(k)} :: ranged(k) ==> has(t._m, k)
  ensures live: forall j int {r[j]} :: 0 <= j && j < len(r) ==> has(t._m, r[j])
  ensures all: forall k int64 {has(t._m, k)} :: has(t._m, k) ==> (exists j int {r[j]} :: 0 <= j && j < len(r) && r[j] == k)
  ensures once: forall i, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  ensures unchanged: wf(t) && forall k int64 {has(t._m, k)} :: has(t._m, k) <==> old(has(t._m, k))

// the set of live nodes alone decides who gets a value, whatever the history
proc same_nodes_same_answer(a *hashmap.Consistenthash, b *hashmap.Consistenthash, v int64)
  requires wf(a) && wf(b) && a.replicas == b.replicas && own(a.mux) != own(b.mux) && a.m != b.m && a._m != b._m
  requires forall k int64 {has(a._m, k)} :: has(a._m, k) <==> has(b._m, k)
  requires forall k int64 {has(b._m, k)} :: has(a._m, k) <==> has(b._m, k)
  x, p := call a.Get(v)
  y, q := call b.Get(v)
  assert same: p == q && x == y

proc same_nodes_same_answer_str(a *hashmap.Consistenthash, b *hashmap.Consistenthash, v string)
  requires wf(a) && wf(b) && a.replicas == b.replicas && own(a.mux) != own(b.mux) && a.m != b.m && a._m != b._m
  requires forall k int64 {has(a._m, k)} :: has(a._m, k) <==> has(b._m, k)
  requires forall k int64 {has(b._m, k)} :: has(a._m, k) <==> has(b._m, k)
  x, p := call a.GetStr(v)
  y, q := call b.GetStr(v)
  assert same: p == q && x == y
