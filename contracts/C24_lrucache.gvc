// LruCache: the cache (whose lookups move entries, and so write) is only touched under the lock
reuse C25_lrucache.gvc
guardtype cache.LruCache lock=lock immutable=cache,lock contents=cache.cache,cache.ll
immutable container/list.Element.Value github.com/golang/groupcache/lru.entry.key
under github.com/golang/groupcache/lru.Cache github.com/golang/groupcache/lru.entry
every section: nlockops("Lock", "RLock") <= 1
