// striped locks: a key always selects the same lock of the table, Unlock releases what Lock took
def cell(l, i) := smval(l.lockm.m, box(i))
def wfN(l) := l != nil && l.lockm != nil && l.muxNum >= 1 && forall i int64 {cell(l, i)} :: 0 <= i && i < l.muxNum ==> smhas(l.lockm.m, box(i)) && istype(cell(l, i), *sync.Mutex) && cell(l, i).(*sync.Mutex) != nil && allocated(cell(l, i).(*sync.Mutex))
def wfS(l) := l != nil && l.lockm != nil && l.muxNum >= 1 && forall i int64 {cell(l, i)} :: 0 <= i && i < l.muxNum ==> smhas(l.lockm.m, box(i)) && istype(cell(l, i), *sync.RWMutex) && cell(l, i).(*sync.RWMutex) != nil && allocated(cell(l, i).(*sync.RWMutex))
def ownN(l, m) := exists i int64 :: 0 <= i && i < l.muxNum && box(m) == cell(l, i)
def ownS(l, m) := exists i int64 :: 0 <= i && i < l.muxNum && box(m) == cell(l, i)
def freeN(l) := forall m *sync.Mutex {held(m)} :: held(m) == 0
def freeS(l) := forall m *sync.RWMutex {held(m)} :: held(m) == 0
def othersN(m) := forall x *sync.Mutex {held(x)} :: x != m ==> held(x) == old(held(x))
def othersS(m) := forall x *sync.RWMutex {held(x)} :: x != m ==> held(x) == old(held(x))
def table(l) := l.muxNum == old(l.muxNum) && l.lockm == old(l.lockm) && forall i int64 :: cell(l, i) == old(cell(l, i))

func lock.NewNumLock(muxNum) (l)
  option locks nocheck
  requires size: muxNum >= 1
  ensures wf: wfN(l)
  ensures size: l.muxNum == muxNum
  loop i int, ml *lock.Numlock :: 0 <= i && i <= muxNum && ml.muxNum == muxNum && ml.lockm != nil && (forall j int64 {smhas(ml.lockm.m, box(j))} :: (0 <= j && j < i) <==> smhas(ml.lockm.m, box(j))) && (forall j int64 {smval(ml.lockm.m, box(j))} :: 0 <= j && j < i ==> istype(smval(ml.lockm.m, box(j)), *sync.Mutex) && smval(ml.lockm.m, box(j)).(*sync.Mutex) != nil && allocated(smval(ml.lockm.m, box(j)).(*sync.Mutex))) && (forall j, k int64 {smval(ml.lockm.m, box(j)), smval(ml.lockm.m, box(k))} :: 0 <= j && j < k && k < i ==> smval(ml.lockm.m, box(j)) != smval(ml.lockm.m, box(k)))
  ensures distinct: forall i, j int64 :: 0 <= i && i < j && j < muxNum ==> cell(l, i) != cell(l, j)

func lock.NewStrlock(muxNum) (l)
  option locks nocheck
  requires size: muxNum >= 1
  ensures wf: wfS(l)
  ensures size: l.muxNum == muxNum
  loop i int, ml *lock.Strlock :: 0 <= i && i <= muxNum && ml.muxNum == muxNum && ml.lockm != nil && (forall j int64 {smhas(ml.lockm.m, box(j))} :: (0 <= j && j < i) <==> smhas(ml.lockm.m, box(j))) && (forall j int64 {smval(ml.lockm.m, box(j))} :: 0 <= j && j < i ==> istype(smval(ml.lockm.m, box(j)), *sync.RWMutex) && smval(ml.lockm.m, box(j)).(*sync.RWMutex) != nil && allocated(smval(ml.lockm.m, box(j)).(*sync.RWMutex))) && (forall j, k int64 {smval(ml.lockm.m, box(j)), smval(ml.lockm.m, box(k))} :: 0 <= j && j < k && k < i ==> smval(ml.lockm.m, box(j)) != smval(ml.lockm.m, box(k)))
  ensures distinct: forall i, j int64 :: 0 <= i && i < j && j < muxNum ==> cell(l, i) != cell(l, j)

func (*lock.Numlock).Lock(l, key) (m)
  option locks nocheck
  requires wfN(l) && freeN(l)
  ensures held: held(m) == 1 && ownN(l, m)
  ensures others: othersN(m)
  ensures table: table(l)

func (*lock.Numlock).TryLock(l, key) (m, ok)
  option locks nocheck
  requires wfN(l) && freeN(l)
  ensures held: ok ==> held(m) == 1 && ownN(l, m) && othersN(m)
  ensures refused: !ok ==> m == nil && freeN(l)
  ensures nonblocking: nlockops("Lock", "RLock") == 0
  ensures busy: !ok ==> nlockops("TryLock") >= 1
  ensures table: table(l)

func (*lock.Strlock).Lock(l, key) (m)
  option locks nocheck
  requires wfS(l) && freeS(l)
  ensures held: held(m) == 1 && ownS(l, m)
  ensures others: othersS(m)
  ensures table: table(l)

func (*lock.Strlock).TryLock(l, key) (m, ok)
  option locks nocheck
  requires wfS(l) && freeS(l)
  ensures held: ok ==> held(m) == 1 && ownS(l, m) && othersS(m)
  ensures refused: !ok ==> m == nil && freeS(l)
  ensures nonblocking: nlockops("Lock", "RLock") == 0
  ensures busy: !ok ==> nlockops("TryLock") >= 1
  ensures table: table(l)

func (*lock.Strlock).RLock(l, key) (m)
  option locks nocheck
  requires wfS(l) && freeS(l)
  ensures held: held(m) == 2 && ownS(l, m)
  ensures others: othersS(m)
  ensures table: table(l)

func (*lock.Strlock).TryRLock(l, key) (m, ok)
  option locks nocheck
  requires wfS(l) && freeS(l)
  ensures held: ok ==> held(m) == 2 && ownS(l, m) && othersS(m)
  ensures refused: !ok ==> m == nil && freeS(l)
  ensures nonblocking: nlockops("Lock", "RLock") == 0
  ensures busy: !ok ==> nlockops("TryRLock") >= 1
  ensures table: table(l)

proc num_lock_unlock(l *lock.Numlock, key int64)
  option locks nocheck
  assume wfN(l) && freeN(l)
  m := call l.Lock(key)
  call l.Unlock(key)
  assert released: freeN(l)
  m2 := call l.Lock(key)
  assert same: m2 == m

proc num_trylock_unlock(l *lock.Numlock, key int64)
  option locks nocheck
  assume wfN(l) && freeN(l)
  m, ok := call l.TryLock(key)
  assume ok
  call l.Unlock(key)
  assert released: freeN(l)
  m2 := call l.Lock(key)
  assert same: m2 == m

proc str_lock_unlock(l *lock.Strlock, key string)
  option locks nocheck
  assume wfS(l) && freeS(l)
  m := call l.Lock(key)
  call l.Unlock(key)
  assert released: freeS(l)
  m2 := call l.RLock(key)
  assert same: m2 == m

proc str_trylock_unlock(l *lock.Strlock, key string)
  option locks nocheck
  assume wfS(l) && freeS(l)
  m, ok := call l.TryLock(key)
  assume ok
  call l.Unlock(key)
  assert released: freeS(l)
  m2 := call l.Lock(key)
  assert same: m2 == m

proc str_rlock_runlock(l *lock.Strlock, key string)
  option locks nocheck
  assume wfS(l) && freeS(l)
  m := call l.RLock(key)
  call l.RUnlock(key)
  assert released: freeS(l)
  m2 := call l.Lock(key)
  assert same: m2 == m

proc str_tryrlock_runlock(l *lock.Strlock, key string)
  option locks nocheck
  assume wfS(l) && freeS(l)
  m, ok := call l.TryRLock(key)
  assume ok
  call l.RUnlock(key)
  assert released: freeS(l)
  m2 := call l.Lock(key)
  assert same: m2 == m
