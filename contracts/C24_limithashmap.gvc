// LimitHashMap: a segment's map and list are only touched under its lock, one critical section per operation and segment
reuse C08_limithashmap.gvc
guardtype hashmap.segment lock=mu immutable=order contents=cache,order
immutable container/list.Element.Value hashmap.LimitHashMap.capacity hashmap.LimitHashMap.segments hashmap.LimitHashMap.hashFunc hashmap.LimitHashMap.segmentNumber
under hashmap.entry
every section except .Clear .Len .NewLimitHashMap .NewLimitHashMapWithSegment: nlockops("Lock", "RLock") <= 1
