// LimitMap: the map and the list are only touched under the lock, one critical section per operation
reuse C07_limitmap.gvc
guardtype hashmap.LimitMap lock=lock immutable=capacity,order contents=cache,order
immutable container/list.Element.Value
under hashmap.limitEntry
every section: nlockops("Lock", "RLock") <= 1
