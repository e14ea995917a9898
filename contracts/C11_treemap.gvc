// TreeMap: ordered map over google/btree; Less is the real method, executed to define the tree's order
def it(a) := a.(hashmap.treeItem[K,V])
def wf(m) := m != nil && m.tree != nil
   && (forall a any {initems(m.tree, a)} :: initems(m.tree, a) ==> istype(a, hashmap.treeItem[K,V]))
   && (forall a, b any {initems(m.tree, a), initems(m.tree, b)} :: initems(m.tree, a) && initems(m.tree, b) && it(a).Key == it(b).Key ==> a == b)
def hasK(m, k) := exists a any {initems(m.tree, a)} :: initems(m.tree, a) && it(a).Key == k
def same(m) := forall a any {initems(m.tree, a)} :: initems(m.tree, a) <==> old(initems(m.tree, a))

func hashmap.NewTreeMap(degree) (m)
  requires degree >= 2
  ensures wf: wf(m)
  ensures empty: forall a any :: !initems(m.tree, a)
  ensures fresh: fresh(m) && fresh(m.tree)

func (hashmap.treeItem).Less(a, b) (r)
  requires istype(b, hashmap.treeItem[K,V])
  ensures less: r <==> a.Key < it(b).Key

func (*hashmap.TreeMap).Put(m, key, value) (prev, b)
  requires wf(m)
  ensures wf: wf(m)
  ensures stored: exists a any {initems(m.tree, a)} :: initems(m.tree, a) && it(a).Key == key && it(a).Value == value
  ensures others: forall a any :: istype(a, hashmap.treeItem[K,V]) && it(a).Key != key ==> (initems(m.tree, a) <==> old(initems(m.tree, a)))
  ensures existed: b <==> old(hasK(m, key))
  ensures prev: if b then forall a any :: old(initems(m.tree, a)) && it(a).Key == key ==> prev == it(a).Value else prev == zero(V)

func (*hashmap.TreeMap).Get(m, key) (value, b)
  requires wf(m)
  ensures found: b <==> hasK(m, key)
  ensures value: if b then forall a any :: initems(m.tree, a) && it(a).Key == key ==> value == it(a).Value else value == zero(V)
  ensures unchanged: same(m)

func (*hashmap.TreeMap).Del(m, key)
  requires wf(m)
  ensures wf: wf(m)
  ensures gone: !hasK(m, key)
  ensures others: forall a any :: istype(a, hashmap.treeItem[K,V]) && it(a).Key != key ==> (initems(m.tree, a) <==> old(initems(m.tree, a)))

func (*hashmap.TreeMap).Ascend(m, f)
  requires wf(m) && f != nil
  iter a, more :: ncalls(f) == 1 && callarg(f, 0, 0) == it(a).Key && callarg(f, 0, 1) == it(a).Value && more == callret(f, 0, 0)
  ensures once: nevents("ascend") == 1 && nevents("descend") == 0
  ensures unchanged: same(m)

func (*hashmap.TreeMap).Descend(m, f)
  requires wf(m) && f != nil
  iter a, more :: ncalls(f) == 1 && callarg(f, 0, 0) == it(a).Key && callarg(f, 0, 1) == it(a).Value && more == callret(f, 0, 0)
  ensures once: nevents("descend") == 1 && nevents("ascend") == 0
  ensures unchanged: same(m)
