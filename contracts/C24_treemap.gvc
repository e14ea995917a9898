// TreeMap: the tree is only touched under the lock, exclusively when it changes
reuse C11_treemap.gvc
guardtype hashmap.TreeMap lock=mutex immutable=tree contents=tree
every section: nlockops("Lock", "RLock") <= 1
