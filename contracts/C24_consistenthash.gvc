// Consistenthash: the ring and the set of nodes are only touched under the lock, one critical section per operation
def base(t) := t != nil && t.m != nil && t.mux != nil && t._m != nil
def typed(t) := forall h any {smhas(t.m.m, h)} :: smhas(t.m.m, h) ==> istype(h, uint64) && istype(smval(t.m.m, h), int64)
guardtype hashmap.Consistenthash lock=mux immutable=mux,replicas contents=_m elems=keys
every section: nlockops("Lock", "RLock") + nevents("smfree") <= 1

func buffer.NewBufferByPool() (b)
  option newcell b
  option assumed
  option modular
  ensures b != nil && fresh(b) && fresh(*b) && bytes(*b) == ""

func (*buffer.Buffer).Write(b, p) (n, err)
  option modular
  option modifies cell b, elems *b
  requires b != nil
  ensures arr: arr(*b) == old(arr(*b)) || fresh(*b)
  ensures bytes: bytes(*b) == old(bytes(*b)) + old(bytes(p))

func (*buffer.Buffer).Free(b)
  option assumed
  option modular

func hashmap.int64ToBytes(n) (r)
  option modular
  loop i int :: 0 <= i && i <= 8
  ensures len(r) == 8 && fresh(r)

func hashmap.NewConsistenthash(replicas) (t)
  ensures wf: base(t) && typed(t) && fresh(t)

func (*hashmap.Consistenthash).Get(t, value) (node, ok)
  requires base(t) && typed(t)
  ensures wf: base(t)

func (*hashmap.Consistenthash).GetStr(t, value) (node, ok)
  requires base(t) && typed(t)
  ensures wf: base(t)

func (*hashmap.Consistenthash).GetNextNodeStr(t, value, step) (nodes, ok)
  option branch ground
  option budget 500
  requires base(t) && typed(t)
  loop :: base(t) && typed(t)
  loop i int :: 1 <= i
  ensures wf: base(t)

// the ring part of Add and Del, which runs under their lock
func (*hashmap.Consistenthash).addPoints(t, key)
  option optional
  option modular
  option branch ground
  option modifies t.keys, elems t.keys, smap t.m.m
  option locked t.mux
  requires base(t) && typed(t) && held(t.mux) == 1
  loop :: fresh(t.keys) || arr(t.keys) == old(arr(t.keys))
  loop :: base(t) && typed(t)
  ensures wf: base(t) && typed(t)

func (*hashmap.Consistenthash).Add(t, keys)
  option budget 600
  option branch ground
  requires base(t) && typed(t)
  loop :: base(t) && typed(t)
  ensures wf: base(t) && typed(t)

func (*hashmap.Consistenthash).Del(t, key)
  option budget 600
  option branch ground
  requires base(t) && typed(t)
  loop :: base(t) && typed(t)
  ensures wf: base(t) && typed(t)

func (*hashmap.Consistenthash).Nodes(t) (r)
  requires base(t) && typed(t)
  ensures wf: base(t)
