From 0868bd88643dbf893130fb6466d7ca6780fb2c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 01/34] fix: LimitMap never holds more than capacity entries

---
 hashmap/limitmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/limitmap.go b/hashmap/limitmap.go
index c7e4eaf..4688fde 100644
--- a/hashmap/limitmap.go
+++ b/hashmap/limitmap.go
@@ -53,7 +53,7 @@ func (mc *LimitMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		mc.order.MoveToFront(elem)
 		return
 	}
-	if len(mc.cache) > mc.capacity {
+	if len(mc.cache) >= mc.capacity {
 		oldest := mc.order.Back()
 		if oldest != nil {
 			mc.order.Remove(oldest)
-- 
2.43.0


From 99167fdcee232d51fcd4139cb04eafdcd689ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 02/34] fix: base58 decoding rejects numbers above 64 bits
 instead of wrapping

---
 base58/base58.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base58/base58.go b/base58/base58.go
index 77639ca..e19dc02 100644
--- a/base58/base58.go
+++ b/base58/base58.go
@@ -8,7 +8,10 @@
 
 package base58
 
-import "bytes"
+import (
+	"bytes"
+	"math"
+)
 
 var b58Alphabet = []byte("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
 
@@ -34,6 +37,9 @@ func DecodeForInt64(bs []byte) (_r uint64, ok bool) {
 	defer func() { recover() }()
 	for _, b := range bs {
 		if idx := bytes.IndexByte(b58Alphabet, b); idx >= 0 {
+			if _r > (math.MaxUint64-uint64(idx))/58 {
+				return 0, false
+			}
 			_r *= 58
 			_r += uint64(idx)
 		} else {
-- 
2.43.0


From 06efc5e678f7b98623769533d58b168e234e8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:57 +0000
Subject: [PATCH 03/34] fix: Map.Put reports a replaced nil interface value,
 MapL.Len reads atomically

---
 hashmap/map.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 1ba9b7a..35fa823 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -28,8 +28,11 @@ func NewMapL[K any, V any]() *MapL[K, V] {
 func (t *MapL[K, V]) Put(key K, value V) (prev V, b bool) {
 	if v, ok := t.m.Swap(key, value); !ok {
 		atomic.AddInt64(&t.len, 1)
-	} else if v != nil {
-		prev, b = v.(V), true
+	} else {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
@@ -71,7 +74,7 @@ func (t *MapL[K, V]) Range(f func(k K, v V) bool) {
 }
 
 func (t *MapL[K, V]) Len() int64 {
-	return t.len
+	return atomic.LoadInt64(&t.len)
 }
 
 // Map  Define a generic synchronized map structure using sync.Map as the underlying data structure.
@@ -85,8 +88,11 @@ func NewMap[K any, V any]() *Map[K, V] {
 }
 
 func (t *Map[K, V]) Put(key K, value V) (prev V, b bool) {
-	if v, ok := t.m.Swap(key, value); ok && v != nil {
-		prev, b = v.(V), true
+	if v, ok := t.m.Swap(key, value); ok {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
-- 
2.43.0


From a7e04c62c1a4b3348cbd6dd0bb782909734156f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 04/34] fix: LinkedHashMap.LoadOrStore keeps an existing value
 and returns the stored one, Clear does not replace the shared map

---
 hashmap/linkedhashmap.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index 88f20ae..aae9110 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -54,27 +54,21 @@ func (t *LinkedHashMap[K, V]) Put(k K, v V) {
 }
 
 func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
-	kv := &entrykv[K, V]{k, v}
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	elem := t.list.PushFront(kv)
-	if preelem, ok := t.m.Swap(k, elem); !ok {
-		t.count++
-		if t.count > t.limit {
-			if oldest := t.list.Back(); oldest != nil {
-				t.list.Remove(oldest)
-				t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
-			}
-			t.count--
-		}
-	} else if preelem != nil {
-		t.list.Remove(preelem.(*list.Element))
-		if v := preelem.(*list.Element).Value; v != nil {
-			actual = v.(*entrykv[K, V]).value
-			loaded = true
+	if preelem, ok := t.m.Load(k); ok {
+		return preelem.(*list.Element).Value.(*entrykv[K, V]).value, true
+	}
+	t.m.Store(k, t.list.PushFront(&entrykv[K, V]{k, v}))
+	t.count++
+	if t.count > t.limit {
+		if oldest := t.list.Back(); oldest != nil {
+			t.list.Remove(oldest)
+			t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
 		}
+		t.count--
 	}
-	return
+	return v, false
 }
 
 func (t *LinkedHashMap[K, V]) Get(k K) (_r V, b bool) {
@@ -128,7 +122,7 @@ func (t *LinkedHashMap[K, V]) Clear() {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
-	t.m = &sync.Map{}
+	t.m.Clear()
 	t.list.Init()
 	t.count = 0
 }
-- 
2.43.0


From 4ba80eec7d0084614e84420a6ed4e67378f0f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 05/34] fix: LimitLock.Cc reads its counters atomically

---
 lock/lock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/lock.go b/lock/lock.go
index 2200a39..c8558ec 100644
--- a/lock/lock.go
+++ b/lock/lock.go
@@ -156,7 +156,7 @@ func (ll *LimitLock) Unlock() {
 
 // Cc returns the current concurrency count.
 func (ll *LimitLock) Cc() int64 {
-	return ll.count - ll._count // Difference between acquisitions and releases (always zero)
+	return atomic.LoadInt64(&ll.count) - atomic.LoadInt64(&ll._count) // Difference between acquisitions and releases
 }
 
 // LockCount returns the total number of lock acquisitions.
-- 
2.43.0


From 98974115f5d98474ead40da9e43b1ea411a2231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 06/34] fix: LimitHashMap keeps keys with equal hashes apart,
 respects small capacities and handles nil interface values

---
 hashmap/limithashmap.go | 62 ++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index c3aeb06..617470b 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -17,7 +17,7 @@ import (
 const numSegments = 1 << 6
 
 type segment struct {
-	cache map[uint64]*list.Element
+	cache map[any]*list.Element
 	order *list.List
 	mu    sync.RWMutex
 }
@@ -31,9 +31,9 @@ type LimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 |
 }
 
 type entry struct {
-	hashedKey uint64
-	key       any
-	value     any
+	cacheKey any
+	key      any
+	value    any
 }
 
 // NewLimitHashMap creates a new LimitHashMap with a specified capacity.
@@ -58,10 +58,17 @@ func NewLimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint
 //
 //	*LimitHashMap[K, V] - A new instance of a capacity-limited LimitHashMap divided into segments.
 func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string, V any](capacity, segmentNumber int) *LimitHashMap[K, V] {
+	// every segment must be able to hold an entry without exceeding the total capacity
+	if segmentNumber > capacity {
+		segmentNumber = capacity
+	}
+	if segmentNumber < 1 {
+		segmentNumber = 1
+	}
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-			cache: make(map[uint64]*list.Element),
+			cache: make(map[any]*list.Element),
 			order: list.New(),
 		}
 	}
@@ -106,7 +113,7 @@ func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | ui
 		}
 	case float32:
 		hashFunc = func(key K) uint64 {
-			return math.Float64bits(float64(any(key).(float32)))
+			return uint64(math.Float32bits(any(key).(float32)))
 		}
 	case int8:
 		hashFunc = func(key K) uint64 {
@@ -143,16 +150,25 @@ func (c *LimitHashMap[K, V]) getSegment(key K) *segment {
 	return c.segments[uint(hashedKey%uint64(c.segmentNumber))]
 }
 
+// cacheKey identifies a key inside its segment: the key itself, since different keys may have the same hash,
+// and the bit pattern for floating-point keys, since NaN is not equal to itself.
+func (c *LimitHashMap[K, V]) cacheKey(key K) any {
+	switch any(key).(type) {
+	case float64, float32:
+		return c.hashFunc(key)
+	}
+	return key
+}
+
 func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	segment := c.getSegment(key)
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
-		if v := ele.Value.(*entry).value; v != nil {
-			return v.(V), true
-		}
+	cacheKey := c.cacheKey(key)
+	if ele, ok := segment.cache[cacheKey]; ok {
+		r, _ = ele.Value.(*entry).value.(V)
+		return r, true
 	}
 	return
 }
@@ -162,9 +178,10 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
-		prev, b = ele.Value.(*entry).value.(V), true
+	cacheKey := c.cacheKey(key)
+	if ele, ok := segment.cache[cacheKey]; ok {
+		prev, _ = ele.Value.(*entry).value.(V)
+		b = true
 		ele.Value.(*entry).value = value
 		return
 	}
@@ -173,12 +190,12 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		oldest := segment.order.Back()
 		if oldest != nil {
 			segment.order.Remove(oldest)
-			delete(segment.cache, oldest.Value.(*entry).hashedKey)
+			delete(segment.cache, oldest.Value.(*entry).cacheKey)
 		}
 	}
 
-	ele := segment.order.PushFront(&entry{hashedKey: hashedKey, key: key, value: value})
-	segment.cache[hashedKey] = ele
+	ele := segment.order.PushFront(&entry{cacheKey: cacheKey, key: key, value: value})
+	segment.cache[cacheKey] = ele
 	return
 }
 
@@ -187,10 +204,10 @@ func (c *LimitHashMap[K, V]) Del(key K) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
+	cacheKey := c.cacheKey(key)
+	if ele, ok := segment.cache[cacheKey]; ok {
 		segment.order.Remove(ele)
-		delete(segment.cache, hashedKey)
+		delete(segment.cache, cacheKey)
 	}
 }
 
@@ -199,15 +216,14 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
-	_, ok := segment.cache[hashedKey]
+	_, ok := segment.cache[c.cacheKey(key)]
 	return ok
 }
 
 func (c *LimitHashMap[K, V]) Clear() {
 	for _, segment := range c.segments {
 		segment.mu.Lock()
-		segment.cache = make(map[uint64]*list.Element)
+		segment.cache = make(map[any]*list.Element)
 		segment.order.Init()
 		segment.mu.Unlock()
 	}
-- 
2.43.0


From 2c0f82a1e5c9839b0e81b660afb07c414ad3188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:27 +0000
Subject: [PATCH 07/34] fix: UUID.Equals compares the 16 bytes instead of the
 pointers

---
 uuid/uuid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 1614be8..865e03a 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -75,10 +75,10 @@ func (u *UUID) Base58() []byte {
 }
 
 func (u *UUID) Equals(other *UUID) bool {
-	if other == nil {
+	if u == nil || other == nil {
 		return false
 	}
-	return u == other
+	return *u == *other
 }
 
 func (u *UUID) Variant() byte {
-- 
2.43.0


From 786c8ecc50922d300fde6f89159cb029e15daa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:27 +0000
Subject: [PATCH 08/34] fix: UUID.Variant recognises every RFC 4122 variant
 byte

---
 uuid/uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 865e03a..3afa3da 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -83,7 +83,7 @@ func (u *UUID) Equals(other *UUID) bool {
 
 func (u *UUID) Variant() byte {
 	switch u[8] & 0xe0 {
-	case 0x80:
+	case 0x80, 0xa0:
 		return 1 // RFC 4122
 	case 0xc0:
 		return 2 // Microsoft
-- 
2.43.0


From 53b9b2efcd4f9095278706e84a24004ea91dd8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:27 +0000
Subject: [PATCH 09/34] fix: uuid.Parse rejects texts without the four hyphens

---
 uuid/uuid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 3afa3da..9296994 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -96,6 +96,9 @@ func Parse(uuidStr string) (*UUID, error) {
 	if len(uuidStr) != 36 {
 		return nil, errors.New("invalid UUID string length")
 	}
+	if uuidStr[8] != '-' || uuidStr[13] != '-' || uuidStr[18] != '-' || uuidStr[23] != '-' {
+		return nil, errors.New("invalid UUID string format")
+	}
 	var uuid UUID
 	strippedUUID := []byte(uuidStr[:8] + uuidStr[9:13] + uuidStr[14:18] + uuidStr[19:23] + uuidStr[24:])
 	if _, err := hex.Decode(uuid[:], strippedUUID); err != nil {
-- 
2.43.0


From 37a8fa980fa24c5d7b1e77919579803905fd3dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:44 +0000
Subject: [PATCH 10/34] fix: Buffer.WriteInt32 reports the four bytes it writes

---
 buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 8e35e2c..89c56a7 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -64,7 +64,7 @@ func (b *Buffer) WriteString(s string) (int, error) {
 func (b *Buffer) WriteInt32(i int) (int, error) {
 	if b != nil {
 		*b = append(*b, int32ToBytes(int32(i))...)
-		return 8, nil
+		return 4, nil
 	} else {
 		return 0, fmt.Errorf("WriteInt32: buffer is nil")
 	}
-- 
2.43.0


From 0bb90c49ad556878eb95a48fa7b7b333ebf9644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:44 +0000
Subject: [PATCH 11/34] fix: Buffer.Read consumes what it copies and ends with
 io.EOF

---
 buffer/buffer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 89c56a7..dd94b8e 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -97,15 +97,14 @@ func (b *Buffer) Len() int {
 }
 
 func (b *Buffer) Read(p []byte) (n int, err error) {
-	if b == nil {
+	if b == nil || b.Len() == 0 {
 		if len(p) == 0 {
 			return 0, nil
 		}
 		return 0, io.EOF
 	}
-	if n = copy(p, *b); n < b.Len() {
-		*b = (*b)[n:]
-	}
+	n = copy(p, *b)
+	*b = (*b)[n:]
 	return n, nil
 }
 
-- 
2.43.0


From 8968e188d36d46333798b8d578aa3c8c8d744fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:44 +0000
Subject: [PATCH 12/34] fix: BufferPool.Put reports that a nil buffer was not
 kept

---
 pool/buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/buffer/buffer.go b/pool/buffer/buffer.go
index be8b532..d0ffc4b 100644
--- a/pool/buffer/buffer.go
+++ b/pool/buffer/buffer.go
@@ -41,7 +41,7 @@ func (this *BufferPool) Put(buf *bytes.Buffer) (ok bool) {
 		this.pool[pre].Put(buf)
 		ok = true
 	}
-	return true
+	return
 }
 
 func (this *BufferPool) getRouter(len int) (pre int) {
-- 
2.43.0


From b821d23aeb2019be4d94968a8101769708c17d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 13/34] fix: Consistenthash answers ok=false after its last
 node is deleted

---
 hashmap/consistenthash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index d8a9c7f..6237dbb 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -67,7 +67,7 @@ func (t *Consistenthash) Add(keys ...int64) {
 func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash(int64ToBytes(value))
@@ -82,7 +82,7 @@ func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
@@ -97,7 +97,7 @@ func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
-- 
2.43.0


From 7366f55bdfadbc342300c39b817bc8362ec9c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 14/34] fix: Consistenthash.GetNextNodeStr wraps past the end
 of the ring

---
 hashmap/consistenthash.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index 6237dbb..132df38 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -108,9 +108,8 @@ func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64,
 	n1, ok := t.m.Get(t.keys[idx])
 	m := map[int64]int8{}
 	nodes = make([]int64, 0)
-	for idx < len(t.keys)-1 {
-		idx++
-		if node, ok := t.m.Get(t.keys[idx]); ok && node != n1 {
+	for i := 1; i < len(t.keys); i++ {
+		if node, ok := t.m.Get(t.keys[(idx+i)%len(t.keys)]); ok && node != n1 {
 			if _, ok := m[node]; !ok {
 				m[node] = 0
 				nodes = append(nodes, node)
-- 
2.43.0


From 903407e40b0063e8dda5d401752e3805249fc73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 15/34] fix: Consistenthash keeps every node's points when
 nodes share one

---
 hashmap/consistenthash.go | 43 +++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index 132df38..670d77b 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -50,20 +50,31 @@ func (t *Consistenthash) Add(keys ...int64) {
 	for _, key := range keys {
 		if _, ok := t._m[key]; !ok {
 			t._m[key] = 0
-			for i := 0; i < t.replicas; i++ {
-				buf := NewBufferByPool()
-				buf.Write(int64ToBytes(int64(i)))
-				buf.Write(int64ToBytes(key))
-				h := hash(buf.Bytes())
-				buf.Free()
-				t.keys = append(t.keys, h)
-				t.m.Put(h, key)
-			}
+			t.addPoints(key)
 		}
 	}
 	sort.Slice(t.keys, func(i, j int) bool { return t.keys[i] < t.keys[j] })
 }
 
+// addPoints puts the points of a node on the ring. A point that two nodes
+// share belongs to the smaller of them, whatever the order they came in.
+func (t *Consistenthash) addPoints(key int64) {
+	for i := 0; i < t.replicas; i++ {
+		buf := NewBufferByPool()
+		buf.Write(int64ToBytes(int64(i)))
+		buf.Write(int64ToBytes(key))
+		h := hash(buf.Bytes())
+		buf.Free()
+		node, ok := t.m.Get(h)
+		if !ok {
+			t.keys = append(t.keys, h)
+		}
+		if !ok || key < node {
+			t.m.Put(h, key)
+		}
+	}
+}
+
 func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
@@ -126,17 +137,13 @@ func (t *Consistenthash) Del(key int64) {
 	t.mux.Lock()
 	defer t.mux.Unlock()
 	if _, ok := t._m[key]; ok {
+		delete(t._m, key)
 		t.keys = t.keys[:0]
-		t.m.Range(func(k uint64, v int64) bool {
-			if v == key {
-				t.m.Del(k)
-			} else {
-				t.keys = append(t.keys, k)
-			}
-			return true
-		})
+		t.m = NewMap[uint64, int64]()
+		for k := range t._m {
+			t.addPoints(k)
+		}
 		sort.Slice(t.keys, func(i, j int) bool { return t.keys[i] < t.keys[j] })
-		delete(t._m, key)
 	}
 }
 
-- 
2.43.0


From 550df6d626ed5b051cf7d0c867b347d0e9ee762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:04 +0000
Subject: [PATCH 16/34] fix: BloomFilter has at least one word for every size
 and rate

---
 cache/bloom.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cache/bloom.go b/cache/bloom.go
index 4a1eb41..9408845 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -28,6 +28,12 @@ type BloomFilter struct {
 
 // NewBloomFilter creates a new bloom filter with the specified size, hash function count, and capacity.
 func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFilter) {
+	if expectedItems == 0 {
+		expectedItems = 1
+	}
+	if !(falsePositiveRate > 0 && falsePositiveRate < 1) {
+		falsePositiveRate = 0.01
+	}
 	m := uint(-float64(expectedItems) * math.Log(falsePositiveRate) / (math.Log(2) * math.Log(2)))
 	k := int(float64(m) / float64(expectedItems) * math.Log(2))
 	if k == 0 {
@@ -37,6 +43,9 @@ func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFi
 	}
 	wordSize := uint64(64)
 	words := (uint64(m) + wordSize - 1) / wordSize
+	if words == 0 {
+		words = 1
+	}
 	seeds := make([]maphash.Seed, k)
 	for i := range seeds {
 		seeds[i] = maphash.MakeSeed()
-- 
2.43.0


From 5a63f8b5b7a78a5032852009eaf6cb9167d56e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:04 +0000
Subject: [PATCH 17/34] fix: BloomFilter adds and tests its bits under its lock

---
 cache/bloom.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cache/bloom.go b/cache/bloom.go
index 9408845..0ad5453 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -20,7 +20,7 @@ type BloomFilter struct {
 	bits          [3][]uint64 // Bit array to store the presence information for each segment.
 	hashCount     int         // Number of hash functions.
 	seeds         []maphash.Seed
-	mux           sync.Mutex
+	mux           sync.RWMutex
 	numCount      atomic.Uint64
 	arraySize     uint64
 	expectedItems uint64
@@ -85,6 +85,8 @@ func (bf *BloomFilter) testBit(index uint64) bool {
 // Add adds an item (as byte slice) to the bloom filter using multiple hash functions.
 func (bf *BloomFilter) Add(item []byte) {
 	defer recoverPanic(nil)
+	bf.mux.Lock()
+	defer bf.mux.Unlock()
 	bf.numCount.Add(1)
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
@@ -95,6 +97,8 @@ func (bf *BloomFilter) Add(item []byte) {
 // Contains if an item (as byte slice) is possibly in the bloom filter.
 func (bf *BloomFilter) Contains(item []byte) bool {
 	defer recoverPanic(nil)
+	bf.mux.RLock()
+	defer bf.mux.RUnlock()
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
 		if !bf.testBit(index) {
@@ -104,6 +108,8 @@ func (bf *BloomFilter) Contains(item []byte) bool {
 	return true
 }
 
+// getBitIndex gives the current and the previous segment; it makes a new
+// current segment when the window moves on. The caller holds the lock.
 func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
 	f := bf.numCount.Load() % (bf.expectedItems*3 + 1)
 	rmIndex := 0
@@ -115,14 +121,8 @@ func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
 		index, rmIndex, prevIndex = 2, 0, 1
 	}
 	if bf.bits[index] == nil {
-		bf.mux.Lock()
-		if bf.bits[index] == nil {
-			bf.bits[index] = make([]uint64, bf.arraySize)
-		}
-		if bf.bits[rmIndex] != nil {
-			bf.bits[rmIndex] = nil
-		}
-		bf.mux.Unlock()
+		bf.bits[index] = make([]uint64, bf.arraySize)
+		bf.bits[rmIndex] = nil
 	}
 	return
 }
-- 
2.43.0


From c6be269cd92fd416ff8bfdeaaebf12b3f6a1818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 18/34] fix: util.Zlib closes the stream before returning it

---
 util/compress.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/compress.go b/util/compress.go
index a1233fb..4848ec1 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -19,10 +19,12 @@ func Zlib(bs []byte) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, zlib.DefaultCompression); err == nil {
-		defer compressor.Close()
 		if _, err = compressor.Write(bs); err != nil {
 			return nil, err
 		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From d71dba3be279c6b5bace31497a966a8addb3745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 19/34] fix: util.UnZlib and UnGzip report a broken stream

---
 util/compress.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/util/compress.go b/util/compress.go
index 4848ec1..8922b84 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -37,7 +37,9 @@ func UnZlib(bs []byte) (_r []byte, err error) {
 	var read io.ReadCloser
 	if read, err = zlib.NewReader(bytes.NewReader(bs)); err == nil {
 		defer read.Close()
-		io.Copy(&obuf, read)
+		if _, err = io.Copy(&obuf, read); err != nil {
+			return nil, err
+		}
 		_r = obuf.Bytes()
 	}
 	return
@@ -53,15 +55,7 @@ func Gzip(bs []byte) (buf bytes.Buffer, err error) {
 func UnGzip(bs []byte) (_bb bytes.Buffer, err error) {
 	if gz, er := gzip.NewReader(bytes.NewBuffer(bs)); er == nil {
 		defer gz.Close()
-		var bs = make([]byte, 1024)
-		for {
-			var n int
-			n, err := gz.Read(bs)
-			if (err != nil && err != io.EOF) || n == 0 {
-				break
-			}
-			_bb.Write(bs[:n])
-		}
+		_, err = _bb.ReadFrom(gz)
 	} else {
 		err = er
 	}
-- 
2.43.0


From 4a95099c1189ec19693c837d23862b725cd65687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 20/34] fix: compress.ZlibLevel finishes the stream it returns

---
 compress/compress.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/compress/compress.go b/compress/compress.go
index e834463..eeed2c8 100644
--- a/compress/compress.go
+++ b/compress/compress.go
@@ -32,9 +32,12 @@ func ZlibLevel(bs []byte, level int) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, level); err == nil {
-		defer compressor.Close()
-		compressor.Write(bs)
-		compressor.Flush()
+		if _, err = compressor.Write(bs); err != nil {
+			return nil, err
+		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From 8b0baaa8cc54fa97f240e1409c581166acc39fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 21/34] fix: EncrypterCbc leaves the caller's slice alone

---
 keystore/aes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 4d7d32e..54635ef 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -31,7 +31,8 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
 		blockSize := c.BlockSize()
 		bs := bytes.Repeat([]byte{byte(blockSize - len(src)%blockSize)}, blockSize-len(src)%blockSize)
-		_r = append(src, bs...)
+		_r = append(make([]byte, 0, len(src)+len(bs)), src...)
+		_r = append(_r, bs...)
 		encrypter := cipher.NewCBCEncrypter(c, this.commonIV[:])
 		encrypter.CryptBlocks(_r, _r)
 	} else {
-- 
2.43.0


From dd81eb021d726210852a62ebafca2c7bb9b91be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 22/34] fix: DecrypterCbc reports bytes that are no ciphertext

---
 keystore/aes.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 54635ef..1defd06 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -11,6 +11,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/sha256"
+	"errors"
 )
 
 type Aes struct {
@@ -43,10 +44,23 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 
 func (this *Aes) DecrypterCbc(bs []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
+		blockSize := c.BlockSize()
+		if len(bs) == 0 || len(bs)%blockSize != 0 {
+			return nil, errors.New("aes: the ciphertext is not a whole number of blocks")
+		}
 		decrypter := cipher.NewCBCDecrypter(c, this.commonIV[:])
 		_r = make([]byte, len(bs))
 		decrypter.CryptBlocks(_r, bs)
-		_r = _r[:len(_r)-(int(_r[len(_r)-1]))]
+		n := int(_r[len(_r)-1])
+		if n == 0 || n > blockSize {
+			return nil, errors.New("aes: invalid padding")
+		}
+		for _, b := range _r[len(_r)-n:] {
+			if int(b) != n {
+				return nil, errors.New("aes: invalid padding")
+			}
+		}
+		_r = _r[:len(_r)-n]
 	} else {
 		err = e
 	}
-- 
2.43.0


From 0d3db7ce53c74506c838eaef37388b3f8b2277fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:08 +0000
Subject: [PATCH 23/34] fix: the RSA helpers report every key they cannot use

---
 keystore/key.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/keystore/key.go b/keystore/key.go
index 3b93680..23edea1 100644
--- a/keystore/key.go
+++ b/keystore/key.go
@@ -13,6 +13,7 @@ import (
 	"crypto/x509"
 	"encoding/pem"
 	"errors"
+	"fmt"
 	"os"
 
 	"github.com/donnie4w/gofer/util"
@@ -91,7 +92,7 @@ fugwl2R114U+R6on5tyKY3vTCamRYpo+cpaeajsPGUeHSm9e4tKV
 -----END RSA PRIVATE KEY-----`
 
 func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	var buf []byte
 	if publickeypath != "" {
 		if util.IsFileExist(publickeypath) {
@@ -109,17 +110,24 @@ func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error)
 }
 
 func RsaEncryptByBytes(msg []byte, publickeyBs []byte) (cipherText []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	pubDecodeBlock, _ := pem.Decode(publickeyBs)
-	if parsePublicKey, e := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes); e == nil {
-		publicKey := parsePublicKey.(*rsa.PublicKey)
-		cipherText, err = rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
+	if pubDecodeBlock == nil {
+		return nil, errors.New("the public key is not PEM")
 	}
-	return
+	parsePublicKey, err := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes)
+	if err != nil {
+		return nil, err
+	}
+	publicKey, ok := parsePublicKey.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("the public key is not an RSA key")
+	}
+	return rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
 }
 
 func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	var buf []byte
 	if privatekeypath != "" {
 		if util.IsFileExist(privatekeypath) {
@@ -137,15 +145,20 @@ func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error
 }
 
 func RsaDecryptByBytes(cipherText []byte, privateBs []byte) (msg []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	priDecodeBlock, _ := pem.Decode(privateBs)
-	if privateKey, e := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes); e == nil {
-		msg, err = rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
+	if priDecodeBlock == nil {
+		return nil, errors.New("the private key is not PEM")
+	}
+	privateKey, err := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes)
+	if err != nil {
+		return nil, err
 	}
-	return
+	return rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
 }
 
-func _recovr() {
-	if err := recover(); err != nil {
+func _recovr(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("%v", r)
 	}
 }
-- 
2.43.0


From 522bd2daf1959ffd0e5faaf70f6f4520a4785f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:08 +0000
Subject: [PATCH 24/34] fix: NewMMAP rejects a negative start offset and leaves
 no mapping behind

---
 mmap/mmap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index a999493..889d716 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -28,7 +28,8 @@ func NewMMAP(f *os.File, startOffset int64) (m *Mmap, err error) {
 	if err != nil {
 		return nil, err
 	}
-	if startOffset >= fif.Size() {
+	if startOffset < 0 || startOffset >= fif.Size() {
+		_mmap.Unmap()
 		return nil, errors.New("offset Exceeds the file limit")
 	}
 	m = &Mmap{file: f, _mmap: _mmap, maxsize: fif.Size(), mux: &sync.Mutex{}, offset: startOffset}
-- 
2.43.0


From 2b479623511010c7b69a250dffc4bcab525ca291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:08 +0000
Subject: [PATCH 25/34] fix: Mmap.WriteAt rejects negative and overflowing
 offsets

---
 mmap/mmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index 889d716..97f3645 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -67,7 +67,7 @@ func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
 
 func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 	t.mux.Lock()
-	if offset+len(bs) > int(t.maxsize) {
+	if offset < 0 || len(bs) > int(t.maxsize)-offset {
 		err = errors.New("exceeding file size limit")
 		t.mux.Unlock()
 		return
-- 
2.43.0


From 18c6cb933b76223b6f00da71b43c2862576c23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:08 +0000
Subject: [PATCH 26/34] fix: Mmap syncs of an empty slice at the end of the
 file do not panic

---
 mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index 97f3645..4b2be11 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -59,7 +59,7 @@ func (t *Mmap) Append(bs []byte) (n int64, err error) {
 }
 
 func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
-	if n, err = t.Append(bs); err == nil {
+	if n, err = t.Append(bs); err == nil && len(bs) > 0 {
 		err = mmapSyncToDisk(t.file, t._mmap, n, len(bs))
 	}
 	return
@@ -81,7 +81,7 @@ func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 }
 
 func (t *Mmap) WriteAtSync(bs []byte, offset int) (err error) {
-	if err = t.WriteAt(bs, offset); err == nil {
+	if err = t.WriteAt(bs, offset); err == nil && len(bs) > 0 {
 		err = mmapSyncToDisk(t.file, t._mmap, int64(offset), len(bs))
 	}
 	return
-- 
2.43.0


From d0ae6f390d8bbd9e857e61c194b5d5e02d4f7093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:19 +0000
Subject: [PATCH 27/34] fix: an Await waiter that gives up removes and closes
 only its own channel

---
 lock/await.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index 652e469..0e2fca7 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -87,23 +87,15 @@ START:
 // WaitWithCancel wait for the channel data to return or close, and set the timeout period
 func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.Duration) (r T, isCancel bool, err error) {
 	defer recoverpanic(&err)
-	defer at.m.Del(idx)
 	ch := at.Get(idx)
+	defer at.release(idx, ch)
 	if timeout > 0 {
 		timer := time.NewTimer(timeout)
 		defer timer.Stop()
 		select {
 		case <-ctx.Done():
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, true, fmt.Errorf("cancel %d", idx)
 		case <-timer.C:
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, false, fmt.Errorf("wait %d timeout", idx)
 		case r = <-ch:
 			return r, false, nil
@@ -114,20 +106,27 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 	return
 }
 
+// release removes and closes the channel of a waiter that gives up,
+// unless a completer or another waiter of the same id has done so.
+func (at *Await[T]) release(idx int64, ch chan T) {
+	at.mux.Lock(idx)
+	defer at.mux.Unlock(idx)
+	if c, ok := at.m.Get(idx); ok && c == ch {
+		at.m.Del(idx)
+		close(ch)
+	}
+}
+
 // Wait wait for the channel data to return or close, and set the timeout period
 func (at *Await[T]) Wait(idx int64, timeout time.Duration) (r T, err error) {
 	defer recoverpanic(&err)
-	defer at.m.Del(idx)
 	ch := at.Get(idx)
+	defer at.release(idx, ch)
 	if timeout > 0 {
 		timer := time.NewTimer(timeout)
 		defer timer.Stop()
 		select {
 		case <-timer.C:
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, fmt.Errorf("wait %d timeout", idx)
 		case r = <-ch:
 			return r, nil
@@ -141,8 +140,8 @@ func (at *Await[T]) Wait(idx int64, timeout time.Duration) (r T, err error) {
 // SyncWait wait for the channel data to return or close, and set the timeout period
 func (at *Await[T]) SyncWait(wg *sync.WaitGroup, idx int64, timeout time.Duration) (r T, err error) {
 	defer recoverpanic(&err)
-	defer at.m.Del(idx)
 	ch := at.Get(idx)
+	defer at.release(idx, ch)
 	if timeout > 0 {
 		if wg != nil {
 			wg.Done()
@@ -151,10 +150,6 @@ func (at *Await[T]) SyncWait(wg *sync.WaitGroup, idx int64, timeout time.Duratio
 		defer timer.Stop()
 		select {
 		case <-timer.C:
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, fmt.Errorf("wait %d timeout", idx)
 		case r = <-ch:
 			return r, nil
-- 
2.43.0


From 9c117af403f787ddbe113e3e152315bddbf9efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:19 +0000
Subject: [PATCH 28/34] fix: waiting on an id that is closed without a value is
 an error

---
 lock/await.go     | 39 ++++++++++++++++++++++++++++++---------
 lock/fastawait.go | 24 ++++++++++++++++++++----
 2 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index 0e2fca7..dad7d43 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -97,11 +97,18 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 			return r, true, fmt.Errorf("cancel %d", idx)
 		case <-timer.C:
 			return r, false, fmt.Errorf("wait %d timeout", idx)
-		case r = <-ch:
-			return r, false, nil
+		case v, ok := <-ch:
+			if !ok {
+				return r, false, fmt.Errorf("wait %d closed", idx)
+			}
+			return v, false, nil
 		}
 	} else {
-		r = <-ch
+		v, ok := <-ch
+		if !ok {
+			return r, false, fmt.Errorf("wait %d closed", idx)
+		}
+		r = v
 	}
 	return
 }
@@ -128,11 +135,18 @@ func (at *Await[T]) Wait(idx int64, timeout time.Duration) (r T, err error) {
 		select {
 		case <-timer.C:
 			return r, fmt.Errorf("wait %d timeout", idx)
-		case r = <-ch:
-			return r, nil
+		case v, ok := <-ch:
+			if !ok {
+				return r, fmt.Errorf("wait %d closed", idx)
+			}
+			return v, nil
 		}
 	} else {
-		r = <-ch
+		v, ok := <-ch
+		if !ok {
+			return r, fmt.Errorf("wait %d closed", idx)
+		}
+		r = v
 	}
 	return
 }
@@ -151,14 +165,21 @@ func (at *Await[T]) SyncWait(wg *sync.WaitGroup, idx int64, timeout time.Duratio
 		select {
 		case <-timer.C:
 			return r, fmt.Errorf("wait %d timeout", idx)
-		case r = <-ch:
-			return r, nil
+		case v, ok := <-ch:
+			if !ok {
+				return r, fmt.Errorf("wait %d closed", idx)
+			}
+			return v, nil
 		}
 	} else {
 		if wg != nil {
 			wg.Done()
 		}
-		r = <-ch
+		v, ok := <-ch
+		if !ok {
+			return r, fmt.Errorf("wait %d closed", idx)
+		}
+		r = v
 	}
 	return
 }
diff --git a/lock/fastawait.go b/lock/fastawait.go
index 2f562f1..3f0e461 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -53,11 +53,19 @@ func (fa *FastAwait[T]) Wait(syncId int64, timeout time.Duration) (r T, err erro
 				close(ch)
 			}()
 			return r, fmt.Errorf("wait %d timeout", syncId)
-		case r = <-ch:
+		case v, ok := <-ch:
+			if !ok {
+				return r, fmt.Errorf("wait %d closed", syncId)
+			}
+			r = v
 			return
 		}
 	} else {
-		r = <-ch
+		v, ok := <-ch
+		if !ok {
+			return r, fmt.Errorf("wait %d closed", syncId)
+		}
+		r = v
 	}
 	return
 }
@@ -83,11 +91,19 @@ func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeou
 				close(ch)
 			}()
 			return r, false, fmt.Errorf("wait %d timeout", syncId)
-		case r = <-ch:
+		case v, ok := <-ch:
+			if !ok {
+				return r, false, fmt.Errorf("wait %d closed", syncId)
+			}
+			r = v
 			return
 		}
 	} else {
-		r = <-ch
+		v, ok := <-ch
+		if !ok {
+			return r, false, fmt.Errorf("wait %d closed", syncId)
+		}
+		r = v
 	}
 	return
 }
-- 
2.43.0


From 55d337baf5d218d9cf71d9dbb7b84f830cd0f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:19 +0000
Subject: [PATCH 29/34] fix: WaitWithCancel without a timeout ends when its
 context is cancelled

---
 lock/await.go     | 12 ++++++++----
 lock/fastawait.go | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index dad7d43..539e8c8 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -104,11 +104,15 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 			return v, false, nil
 		}
 	} else {
-		v, ok := <-ch
-		if !ok {
-			return r, false, fmt.Errorf("wait %d closed", idx)
+		select {
+		case <-ctx.Done():
+			return r, true, fmt.Errorf("cancel %d", idx)
+		case v, ok := <-ch:
+			if !ok {
+				return r, false, fmt.Errorf("wait %d closed", idx)
+			}
+			r = v
 		}
-		r = v
 	}
 	return
 }
diff --git a/lock/fastawait.go b/lock/fastawait.go
index 3f0e461..0033c6d 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -99,11 +99,15 @@ func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeou
 			return
 		}
 	} else {
-		v, ok := <-ch
-		if !ok {
-			return r, false, fmt.Errorf("wait %d closed", syncId)
+		select {
+		case <-ctx.Done():
+			return r, true, fmt.Errorf("wait %d cancel", syncId)
+		case v, ok := <-ch:
+			if !ok {
+				return r, false, fmt.Errorf("wait %d closed", syncId)
+			}
+			r = v
 		}
-		r = v
 	}
 	return
 }
-- 
2.43.0


From 88d69789e8bf4d2736eaa797a8e6c6015c4f2dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:19 +0000
Subject: [PATCH 30/34] fix: one party of a FastAwait id takes its channel and
 closes it

---
 lock/fastawait.go | 48 +++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/lock/fastawait.go b/lock/fastawait.go
index 0033c6d..693822b 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -13,12 +13,14 @@ import (
 	"github.com/donnie4w/gofer/cache"
 	"github.com/donnie4w/gofer/hashmap"
 	"github.com/donnie4w/gofer/util"
+	"sync"
 	"time"
 )
 
 type FastAwait[T any] struct {
-	db *hashmap.Map[int64, chan T]
-	bf *cache.BloomFilter
+	db  *hashmap.Map[int64, chan T]
+	bf  *cache.BloomFilter
+	mux sync.Mutex
 }
 
 func NewFastAwait[T any]() *FastAwait[T] {
@@ -29,9 +31,25 @@ func NewFastAwait2[T any](expectedItems uint64) *FastAwait[T] {
 	return &FastAwait[T]{db: hashmap.NewMap[int64, chan T](), bf: cache.NewBloomFilter(expectedItems, 0.001)}
 }
 
-func (fa *FastAwait[T]) del(syncId int64) {
+// take removes and returns the channel waiting for syncId; one caller gets it.
+func (fa *FastAwait[T]) take(syncId int64) (ch chan T, ok bool) {
+	fa.mux.Lock()
+	defer fa.mux.Unlock()
+	if ch, ok = fa.db.Get(syncId); ok {
+		fa.db.Del(syncId)
+	}
+	return
+}
+
+// release marks syncId as done and removes and closes the waiter's own channel.
+func (fa *FastAwait[T]) release(syncId int64, ch chan T) {
 	fa.bf.Add(util.Int64ToBytes(syncId))
-	fa.db.Del(syncId)
+	fa.mux.Lock()
+	defer fa.mux.Unlock()
+	if c, ok := fa.db.Get(syncId); ok && c == ch {
+		fa.db.Del(syncId)
+		close(ch)
+	}
 }
 
 func (fa *FastAwait[T]) isDel(syncId int64) bool {
@@ -42,16 +60,12 @@ func (fa *FastAwait[T]) Wait(syncId int64, timeout time.Duration) (r T, err erro
 	defer recoverpanic(&err)
 	ch := make(chan T, 1)
 	fa.db.Put(syncId, ch)
-	defer fa.del(syncId)
+	defer fa.release(syncId, ch)
 	if timeout > 0 {
 		timer := time.NewTimer(timeout)
 		defer timer.Stop()
 		select {
 		case <-timer.C:
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, fmt.Errorf("wait %d timeout", syncId)
 		case v, ok := <-ch:
 			if !ok {
@@ -74,22 +88,14 @@ func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeou
 	defer recoverpanic(&err)
 	ch := make(chan T, 1)
 	fa.db.Put(syncId, ch)
-	defer fa.del(syncId)
+	defer fa.release(syncId, ch)
 	if timeout > 0 {
 		timer := time.NewTimer(timeout)
 		defer timer.Stop()
 		select {
 		case <-ctx.Done():
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, true, fmt.Errorf("wait %d cancel", syncId)
 		case <-timer.C:
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, false, fmt.Errorf("wait %d timeout", syncId)
 		case v, ok := <-ch:
 			if !ok {
@@ -116,9 +122,8 @@ func (fa *FastAwait[T]) CloseAndPut(syncId int64, v T) (err error) {
 	defer recoverpanic(&err)
 	loop := 30
 START:
-	if ch, ok := fa.db.Get(syncId); ok {
+	if ch, ok := fa.take(syncId); ok {
 		defer close(ch)
-		fa.db.Del(syncId)
 		ch <- v
 	} else if !fa.isDel(syncId) && loop > 0 {
 		loop--
@@ -132,9 +137,8 @@ func (fa *FastAwait[T]) Close(syncId int64) (err error) {
 	defer recoverpanic(&err)
 	loop := 30
 START:
-	if ch, ok := fa.db.Get(syncId); ok {
+	if ch, ok := fa.take(syncId); ok {
 		defer close(ch)
-		fa.db.Del(syncId)
 	} else if !fa.isDel(syncId) && loop > 0 {
 		loop--
 		<-time.After(100 * time.Millisecond)
-- 
2.43.0


From 1c1bc2cb074f891726f2b2caa0e3346563b11d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:59 +0000
Subject: [PATCH 31/34] fix: FastAwait registers a waiter under its lock and
 ends the one it replaces

---
 lock/fastawait.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lock/fastawait.go b/lock/fastawait.go
index 693822b..c893195 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -31,6 +31,17 @@ func NewFastAwait2[T any](expectedItems uint64) *FastAwait[T] {
 	return &FastAwait[T]{db: hashmap.NewMap[int64, chan T](), bf: cache.NewBloomFilter(expectedItems, 0.001)}
 }
 
+// register makes the channel waiting for syncId; a waiter it replaces ends.
+func (fa *FastAwait[T]) register(syncId int64) (ch chan T) {
+	fa.mux.Lock()
+	defer fa.mux.Unlock()
+	ch = make(chan T, 1)
+	if old, ok := fa.db.Put(syncId, ch); ok {
+		close(old)
+	}
+	return
+}
+
 // take removes and returns the channel waiting for syncId; one caller gets it.
 func (fa *FastAwait[T]) take(syncId int64) (ch chan T, ok bool) {
 	fa.mux.Lock()
@@ -58,8 +69,7 @@ func (fa *FastAwait[T]) isDel(syncId int64) bool {
 
 func (fa *FastAwait[T]) Wait(syncId int64, timeout time.Duration) (r T, err error) {
 	defer recoverpanic(&err)
-	ch := make(chan T, 1)
-	fa.db.Put(syncId, ch)
+	ch := fa.register(syncId)
 	defer fa.release(syncId, ch)
 	if timeout > 0 {
 		timer := time.NewTimer(timeout)
@@ -86,8 +96,7 @@ func (fa *FastAwait[T]) Wait(syncId int64, timeout time.Duration) (r T, err erro
 
 func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeout time.Duration) (r T, cancel bool, err error) {
 	defer recoverpanic(&err)
-	ch := make(chan T, 1)
-	fa.db.Put(syncId, ch)
+	ch := fa.register(syncId)
 	defer fa.release(syncId, ch)
 	if timeout > 0 {
 		timer := time.NewTimer(timeout)
-- 
2.43.0


From 38e3cbaff6d32f04219288a61046445542d27443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:59 +0000
Subject: [PATCH 32/34] fix: fastio gives every writer its own result and never
 stays locked

---
 fastio/fw.go | 121 ++++++++++++++++-----------------------------------
 1 file changed, 38 insertions(+), 83 deletions(-)

diff --git a/fastio/fw.go b/fastio/fw.go
index 4028d18..eb573f2 100644
--- a/fastio/fw.go
+++ b/fastio/fw.go
@@ -8,10 +8,7 @@
 package fastio
 
 import (
-	"bufio"
 	"sync"
-	"sync/atomic"
-	"time"
 )
 
 type writer interface {
@@ -22,106 +19,64 @@ type writer interface {
 type writeData struct {
 	data   []byte
 	offset int64
+	err    error
 	done   chan struct{}
 }
 
 type mwriter struct {
-	ch    chan *writeData
-	mu    sync.RWMutex
-	wc    int32
-	cc    int32
-	fh    *fileHandle
-	ioend bool
+	ch chan *writeData
+	mu sync.Mutex
+	fh *fileHandle
 }
 
 func newWriter(fh *fileHandle) writer {
-	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16), ioend: true}
+	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16)}
 }
 
+// WriteSync queues bs; the first writer to get the lock writes all that is
+// queued, and every writer returns when its own bytes have been dealt with.
 func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
-	defer atomic.AddInt32(&m.cc, -1)
-	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.Lock()
-		defer m.mu.Unlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		n := 0
-		n, err = m.fh.file.Write(bs)
-		offset = m.fh.offset
-		atomic.AddInt64(&m.fh.offset, int64(n))
-		return
-	}
-	atomic.AddInt32(&m.wc, 1)
 	wd := &writeData{data: bs, done: make(chan struct{})}
 	m.ch <- wd
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else {
-		select {
-		case <-wd.done:
-			goto END
-		case <-time.After(time.Microsecond):
-			goto START
-		}
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	select {
+	case <-wd.done:
+	default:
+		m.ioWrite()
 	}
-END:
-	offset = wd.offset
-	return
+	return wd.offset, wd.err
 }
 
 func (m *mwriter) Write(bs []byte) (n int, err error) {
-	defer atomic.AddInt32(&m.cc, -1)
-	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.RLock()
-		defer m.mu.RUnlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		if n, err = m.fh.file.Write(bs); n > 0 {
-			atomic.AddInt64(&m.fh.offset, int64(n))
-		}
-		return n, err
+	if _, err = m.WriteSync(bs); err == nil {
+		n = len(bs)
 	}
-	atomic.AddInt32(&m.wc, 1)
-	m.ch <- &writeData{data: bs}
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else if m.ioend {
-		goto START
-	}
-	return len(bs), nil
+	return
 }
 
-func (m *mwriter) ioWrite() (err error) {
-	if m.wc == 0 {
-		return
-	}
-	m.ioend = false
-	defer recoverable(&err)
-	bw := bufio.NewWriter(m.fh.file)
-	for wd := range m.ch {
-		if wd.done != nil {
-			defer func() { close(wd.done) }()
-		}
-		wd.offset = m.fh.offset
-		if _, err = bw.Write(wd.data); err != nil {
-			return
+// ioWrite writes the queued slices in one go. The caller holds the lock.
+func (m *mwriter) ioWrite() {
+	var batch []*writeData
+	var buf []byte
+	for more := true; more; {
+		select {
+		case wd := <-m.ch:
+			batch = append(batch, wd)
+			buf = append(buf, wd.data...)
+		default:
+			more = false
 		}
-		atomic.AddInt64(&m.fh.offset, int64(len(wd.data)))
-		if atomic.AddInt32(&m.wc, -1) == 0 {
-			break
+	}
+	n, err := m.fh.file.Write(buf)
+	offset := m.fh.offset
+	m.fh.offset += int64(n)
+	for _, wd := range batch {
+		wd.offset = offset
+		offset += int64(len(wd.data))
+		if offset > m.fh.offset {
+			wd.err = err
 		}
+		close(wd.done)
 	}
-	m.ioend = true
-	err = bw.Flush()
-	return
 }
-- 
2.43.0


From 26ebc4c059cde5afef485f1c23802e8d73be8cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:59 +0000
Subject: [PATCH 33/34] fix: the websocket handler reads and writes its error
 under a lock

---
 websocket/wshandle.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 493d6d3..5fba2ab 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -39,6 +39,7 @@ type Handler struct {
 	conn *wss.Conn
 	mux  *sync.Mutex
 	err  error
+	emux sync.Mutex
 }
 
 func NewHandler(cfg *Config) (wh *Handler, err error) {
@@ -78,7 +79,7 @@ func NewHandler(cfg *Config) (wh *Handler, err error) {
 		}
 	}
 	if err == nil && conn != nil {
-		wh = &Handler{cfg, conn, &sync.Mutex{}, nil}
+		wh = &Handler{Cfg: cfg, conn: conn, mux: &sync.Mutex{}}
 		if cfg.OnOpen != nil {
 			cfg.OnOpen(wh)
 		}
@@ -94,14 +95,14 @@ func (wh *Handler) sendws(bs []byte) (err error) {
 }
 
 func (wh *Handler) Send(bs []byte) error {
-	if wh.err != nil {
-		return wh.err
+	if err := wh.Error(); err != nil {
+		return err
 	}
 	return wh.sendws(bs)
 }
 
 func (wh *Handler) Close() (err error) {
-	wh.err = errors.New("connection is closed")
+	wh.setError(errors.New("connection is closed"))
 	if wh.conn != nil {
 		err = wh.conn.Close()
 	}
@@ -109,15 +110,23 @@ func (wh *Handler) Close() (err error) {
 }
 
 func (wh *Handler) Error() error {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
 	return wh.err
 }
 
+func (wh *Handler) setError(err error) {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
+	wh.err = err
+}
+
 func (wh *Handler) read() {
 	var err error
-	for wh.err == nil {
+	for wh.Error() == nil {
 		var byt []byte
 		if err = wss.Message.Receive(wh.conn, &byt); err != nil {
-			wh.err = err
+			wh.setError(err)
 			break
 		}
 		if byt != nil && wh.Cfg.OnMessage != nil {
-- 
2.43.0


From 742fe403a0f0f2d97ca44dc0dc63c4988261e578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:46 +0000
Subject: [PATCH 34/34] fix: the key store reports a file it cannot stat

---
 keystore/bin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keystore/bin.go b/keystore/bin.go
index 9bbc77b..196d2d5 100644
--- a/keystore/bin.go
+++ b/keystore/bin.go
@@ -58,6 +58,9 @@ func (this *_keyStore) Read() (bs []byte, err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
 	fi, err := this._fileHandler.Stat()
+	if err != nil {
+		return nil, err
+	}
 	if fi.Size() > 0 {
 		if bs, err = util.ReadFile(this.fname); err == nil && bs != nil {
 			if obs, er := util.UnZlib(bs); er == nil {
-- 
2.43.0

