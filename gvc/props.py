"""Which contract files and replay drivers decide which property."""
PROPS = {
    "C01": dict(specs=["C01_num.gvc"], replay=[("util", "c01_test.go")], assumptions=[]),
    "C02": dict(specs=["C02_base58.gvc"], replay=[("base58", "c02_test.go")], assumptions=[]),
    "C03": dict(specs=["C03_hash.gvc", "C03_concat.gvc"], replay=[("util", "c03_test.go")],
                assumptions=["The digests of the standard library and x/crypto compute the functions they are named after (uninterpreted functions of the bytes written); CRC-8 is proved from its polynomial."]),
    "C04": dict(specs=["C04_uuid.gvc"], replay=[("uuid", "c04_test.go")], assumptions=[]),
    "C05": dict(specs=["C05_uuidgen.gvc"], replay=[("uuid", "c05_test.go")], race=True,
                assumptions=["Fewer than 2^62 UUIDs are generated by one process.",
                             "Atomic additions to one counter are totally ordered, so the values two calls obtain differ by the number of additions between them."]),
    "C07": dict(specs=["C07_limitmap.gvc"], replay=[("hashmap", "c07_test.go")],
                assumptions=["Key type K is compared with a reflexive == (no NaN keys)."]),
    "C08": dict(specs=["C08_limithashmap.gvc"], replay=[("hashmap", "c08_test.go")],
                assumptions=["The hash function held by a map is a function of the key (it is fixed by the constructor and never replaced).", "capacity >= 1."]),
    "C09": dict(specs=["C09_linkedhashmap.gvc"], replay=[("hashmap", "c09_test.go")],
                assumptions=["Key type K is compared with a reflexive == (no NaN keys).", "limit >= 1 for the operations that insert."]),
    "C10": dict(specs=["C10_map.gvc"], replay=[("hashmap", "c10_test.go")], race=True,
                assumptions=["Keys are non-nil and comparable."]),
    "C11": dict(specs=["C11_treemap.gvc"], replay=[("hashmap", "c11_test.go")],
                assumptions=["Keys are totally ordered by < (no NaN keys); degree >= 2, as btree.New requires.",
                             "btree.BTree is a set ordered by the items' Less; the engine executes the real Less to obtain that order and proves that it is a strict weak order.",
                             "Callbacks given to Ascend and Descend do not modify the map (the lock is held)."]),
    "C13": dict(specs=["C13_striped.gvc"], replay=[("lock", "c13_test.go")], hang_is_failure=True,
                assumptions=["A goroutine does not lock a stripe it already holds (two keys of one stripe deadlock by design of lock striping)."]),
    "C14": dict(specs=["C14_limitlock.gvc"], replay=[("lock", "c14_test.go")], race=True, hang_is_failure=True,
                assumptions=["A Go channel of capacity n holds at most n values, so sends minus receives never exceed n; the property follows from one send per successful Lock and one receive per Unlock.",
                             "Each caller unlocks only what it locked."]),
    "C17": dict(specs=["C17_buffer.gvc", "C17_int.gvc"], replay=[("buffer", "c17_test.go"), ("pool/buffer", "c17p_test.go")],
                assumptions=["sync.Pool.Get returns an object made by New or one put earlier, and never one object to two callers without a Put in between.",
                             "poolsize >= 1 for NewBufferPool.", "The reset function given to NewPool cleans the object it is given."]),
    "C25": dict(specs=["C25_lrucache.gvc"], replay=[("cache", "c25_test.go")],
                assumptions=["Keys are comparable and equal to themselves (no NaN keys); maxEntries >= 0."]),
    "C20": dict(specs=["C20_compress.gvc"], replay=[("compress", "c20_test.go")],
                assumptions=["The codecs themselves are correct: what an encoder writes up to a successful Close (or returns from Encode/EncodeAll) is a valid text that the matching decoder maps back to the input, and a decoder reports every text that is not valid.", "Snappy inputs are at most 2^31 bytes (the format has a 32-bit length)."]),
    "C18": dict(specs=["C18_aes.gvc"], replay=[("keystore", "c18_test.go")],
                assumptions=["crypto/aes and crypto/cipher: CBC decryption under a key and iv is the inverse of CBC encryption under them on whole blocks (uninterpreted functions); SHA-256 and MD5 are functions of the bytes."]),
    "C19": dict(specs=["C19_rsa.gvc"], replay=[("keystore", "c19_test.go")],
                assumptions=["encoding/pem, crypto/x509 and crypto/rsa do what their names say (uninterpreted functions and relations of the bytes given to them); a key file does not change while one call reads it.", "The random source does not fail."]),
    "C16": dict(specs=["C16_mmap.gvc"], replay=[("mmap", "c16_test.go")], race=True,
                assumptions=["mmap-go maps the whole file as one slice of its size, and the file is not truncated while it is mapped.", "The mapping is in use (not unmapped).", "Getpagesize is between 512 and 2^30.",
                             "Concurrent calls are modelled by arbitrary changes of the write position, keeping its invariant, at every acquisition of the lock; calls write outside the lock only to the range they claimed or, for WriteAt, were given."]),
    "C15": dict(specs=["C15_await.gvc"], replay=[("lock", "c15_test.go")], race=True, hang_is_failure=True,
                assumptions=["Numlock gives each key one lock (C13); two different keys locked at once by one goroutine do not occur.", "A waiter of FastAwait does not find its id marked as done by a false positive of the Bloom filter (the filter only shortens the time a completer waits for a waiter to appear).",
                             "Between a channel leaving the table and its owner closing it nothing else touches it; other goroutines change the table arbitrarily whenever the lock is free, keeping its invariant."]),
    "C26": dict(specs=["C26_websocket.gvc"], replay=[("websocket", "c26_test.go")], race=True, hang_is_failure=True, assumptions=["golang.org/x/net/websocket: Message.Send transmits its argument as one message or returns an error; the connection is not used by anything but the handler."]),
    "C27": dict(specs=["C27_http.gvc"], replay=[("httpclient", "c27_test.go")], hang_is_failure=True, assumptions=["net/http: NewRequest returns a request with the given method, url and body or an error; Client.Do sends its request once (redirects are followed as net/http defines) and returns a response with a readable, closable body or an error; reading a body gives its content or an error.", "The header map does not hold two names that are the same header (they differ in letter case only): which of them wins is unspecified."]),
    "C24": dict(specs=["C24_limitmap.gvc", "C24_limithashmap.gvc", "C24_linkedhashmap.gvc", "C24_treemap.gvc", "C24_lrucache.gvc", "C24_consistenthash.gvc"], replay=[("hashmap", "c24_test.go"), ("cache", "c24c_test.go")], race=True, hang_is_failure=True, assumptions=["sync.Mutex, sync.RWMutex and sync.Map behave as documented; container/list, google/btree and groupcache/lru keep their contents only in the objects the guard declarations name (reads and writes of those objects are the accesses checked).", "The buffers of the pool used to hash a point are owned by their taker (assumed contract of NewBufferByPool/Free)."]),
    "C12": dict(specs=["C12_int.gvc", "C12_ring.gvc"], replay=[("hashmap", "c12_test.go")], assumptions=["hash/crc64 is a function of the bytes and the table; sort.Search and sort.Slice do what their documentation says when the predicate is monotone / the comparison a strict weak order (both proved at the call).", "A buffer from the pool is empty, owned by its taker and not used by anyone else (assumed contract of NewBufferByPool/Free).", "The byte string of an integer (be64) is an uninterpreted function in the ring contracts; that int64ToBytes computes the big-endian bytes is proved separately (C12_int).", "replicas >= 1; GetNextNodeStr is not under a functional contract (C24 covers its locking and absence of panics)."]),
}
NA = {
    "C28": "The image package does not compile in this sandbox (its third-party imports are missing from the module cache), so no obligation can be generated from its source.",
}
