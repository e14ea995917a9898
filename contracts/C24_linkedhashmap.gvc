// LinkedHashMap: the list and the count are only touched under the lock; the sync.Map is only written under it,
// and an operation is either one critical section or one lock-free read
reuse C09_linkedhashmap.gvc
guardtype hashmap.LinkedHashMap lock=mu immutable=m,list,limit contents=list
immutable container/list.Element.Value hashmap.entrykv.key hashmap.entrykv.value hashmap.LinkedHashMapIterator.mapRef hashmap.LinkedHashMapIterator.front
every section: nlockops("Lock", "RLock") + nevents("smfree") <= 1
