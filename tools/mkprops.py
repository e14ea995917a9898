#!/usr/bin/env python3
"""Writes properties.jsonl (source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Integer/byte codecs are exact inverses in big-endian order",
  "Int64ToBytes, Int32ToBytes and Int16ToBytes give the 8, 4 and 2 byte big-endian two's-complement form of every integer, and the matching decoders return that integer back; a decoder given a shorter slice reads it as the big-endian number its bytes denote, without panicking, and one given a longer slice only uses the leading bytes. IntArrayToBytes gives the concatenation of the 8-byte forms and BytesToIntArray inverts it for every slice.",
  ["inputs"], "every integer value, every byte slice length and content, every []int64",
  "No test decodes short, long or negative inputs; the domain (2^64 values, all lengths) cannot be sampled.",
  ["util/num.go"], [("Int64ToBytes / BytesToInt64", "util/num.go:15"), ("Int32ToBytes / BytesToInt32", "util/num.go:38"), ("IntArrayToBytes / BytesToIntArray", "util/num.go:84")])
p("C02", "Base58 of a 64-bit id is canonical, reversible and rejects bad input",
  "Encoding any 64-bit unsigned value gives its base-58 digits, most significant first, over the Bitcoin alphabet with no leading zero digit (zero, having no significant digit, encodes as the empty string), and decoding it returns the same value with ok=true. Decoding a byte string returns ok=false exactly when it contains a byte outside the alphabet or denotes a number above 2^64-1, and otherwise the number it denotes.",
  ["inputs"], "every uint64 value and every byte string of any length",
  "Tests encode a handful of values; overflow and foreign bytes are never decoded.",
  ["base58/base58.go"], [("EncodeForInt64", "base58/base58.go:16"), ("DecodeForInt64", "base58/base58.go:33")])
p("C03", "Checksum and hash helpers compute the named function of all their input",
  "CRC8, CRC32, CRC64, Hash64, FNVHash32, FNVHash64, MD5, SHA1, Blake2b and the string forms depend only on the whole input bytes: CRC32 is the IEEE CRC-32, CRC8 the CRC-8 of polynomial 0x07 with zero start value, CRC64 the ECMA CRC-64, Hash64 a hash under one seed fixed for the life of the process (equal inputs give equal results), FNV the 1a variants, MD5/SHA1/Blake2b (256 bits) the standard digests and the string forms their upper-case hex. Concat joins all its arguments in order.",
  ["inputs"], "every byte slice and string, any number of arguments",
  "Tests print a few digests; equality with the named function for all inputs is never asserted.",
  ["util/encode.go"], [("CRC8/CRC32/CRC64/Hash64", "util/encode.go:61"), ("FNVHash32/FNVHash64", "util/encode.go:82"), ("MD5/SHA1 and string forms", "util/encode.go:39"), ("Concat", "util/encode.go:31")])
p("C04", "UUID text form, parsing and comparison agree with the 16 bytes",
  "String gives the canonical 36-character form 8-4-4-4-12 in lower-case hex of the UUID's 16 bytes, and Parse of it returns a UUID with those bytes; Parse returns an error, never a panic or a partial UUID, for every text that is not 36 characters long with hyphens at the four positions and hex digits (of either case) elsewhere. Equals is true exactly when both are non-nil and their 16-byte values are equal, Bytes returns exactly those bytes, Version is the high nibble of byte 6, and Variant is 1 exactly for the RFC 4122 variant (bits 10), 2 exactly for the Microsoft one (bits 110) and 0 otherwise.",
  ["inputs"], "every 16-byte value and every string",
  "Tests parse a generated UUID only; malformed texts, equal-valued distinct objects and variant classes are not covered.",
  ["uuid/uuid.go"], [("String / Parse", "uuid/uuid.go:42"), ("Equals", "uuid/uuid.go:77"), ("Version / Variant", "uuid/uuid.go:69")])
p("C05", "UUID generation consumes a fresh sequence number each time, on every schedule",
  "Any two of the first 2^62 UUIDs generated by one process, on any number of goroutines, differ: every call takes a sequence number no other call of the process gets, and the low 62 bits of that number can be read back from the last eight bytes of the UUID. The version nibble of every generated UUID is 4 and its variant bits are 10.",
  ["schedules", "histories"], "any number of concurrent generator calls, any interleaving, any sequence value",
  "A test generates some UUIDs and looks for duplicates; a lost increment or truncated sequence shows only on rare schedules or after many ids.",
  ["uuid/uuid.go"], [("sequence counter and hash input", "uuid/uuid.go:130"), ("NewUUID", "uuid/uuid.go:32")])
p("C06", "Bloom filter never forgets an item it has been given",
  "After Add(x) returns, Contains(y) is true for every y with the same bytes as x until the filter has been rotated by the adds its documented window allows; whatever expected size and false-positive rate it was built with, no operation panics. Bits set in the filter are never cleared except when a whole window is recycled.",
  ["inputs", "histories", "schedules"], "every construction parameter, item, number of adds and interleaving",
  "Tests add a few items to one configuration; degenerate parameters, rotation boundaries and concurrent adds are not reached.",
  ["cache/bloom.go"], [("Add / Contains", "cache/bloom.go:77"), ("setBit / testBit", "cache/bloom.go:59"), ("window rotation", "cache/bloom.go:98")])
p("C07", "LimitMap is a bounded map that drops the least recently written key",
  "A LimitMap of capacity c >= 1 never holds more than c entries; Get returns the last value Put for a key that is still held and absent otherwise; Put reports the previous value and whether there was one, and writing a new key into a full map removes exactly the least recently written key, while Get does not change that order. Del and RemoveMulti remove exactly the named keys.",
  ["inputs", "histories"], "every key and value type and value, every capacity >= 1, every operation history",
  "The test puts a few ints and looks at the output; the capacity bound and the eviction order after overwrites and deletes are not asserted.",
  ["hashmap/limitmap.go"], [("Put and eviction", "hashmap/limitmap.go:47"), ("Del / RemoveMulti", "hashmap/limitmap.go:70")],
  [("cache and order", "key -> list element, most recently written first", "hashmap/limitmap.go:14")])
p("C08", "LimitHashMap keeps keys apart and stays within its capacity",
  "In a LimitHashMap distinct keys never share an entry, whatever their hash: Get returns the value last Put under an equal key if it is still held and absent otherwise, and Put reports the previous value and whether there was one; floating-point keys are identified by their bit pattern. The map never holds more entries than its capacity, each full segment dropping the key it has held longest to admit a new one, and Del, Clear, Contains and Len describe exactly the held entries.",
  ["inputs", "histories"], "every supported key type and key, every value including nil interfaces, every capacity and segment count >= 1, every history",
  "Tests use few keys; hash collisions (needed for the failure) and capacities smaller than the segment count are not reached.",
  ["hashmap/limithashmap.go"], [("per-type hash functions", "hashmap/limithashmap.go:60"), ("Get/Put/Del", "hashmap/limithashmap.go:146")])
p("C09", "LinkedHashMap: map and recency list always describe the same entries",
  "The keys reachable by iteration are exactly the keys Get finds, each once, with the same value, in order from most to least recently added or moved to the front; with a limit the map never holds more than that many entries and drops the oldest. LoadOrStore leaves an existing value in place and returns it, and otherwise stores and returns the given value; Delete, Clear, MoveToFront, Front and Back act on exactly the entry they name.",
  ["inputs", "histories"], "every key, value, limit and operation history",
  "Tests walk one short history; LoadOrStore on an existing key, operations after Clear and eviction order are not asserted.",
  ["hashmap/linkedhashmap.go"], [("Put / LoadOrStore", "hashmap/linkedhashmap.go:37"), ("Clear", "hashmap/linkedhashmap.go:127"), ("Iterator.Next", "hashmap/linkedhashmap.go:156")])
p("C10", "Map and MapL behave as a typed map with exact previous values and length",
  "Each Map/MapL operation is one atomic map operation: Put stores and reports the previous value and whether the key was present, Get and Has report exactly the stored value, Del reports whether it removed the key, Range visits stored pairs with their own key and value and stops when told. MapL's length changes by exactly one when a key appears or disappears, so that after all operations finish Len equals the number of keys, on every interleaving.",
  ["inputs", "histories", "schedules"], "every key/value type including nil interface values (keys non-nil), every history and interleaving of operations",
  "Tests do sequential puts; the counter can only drift under particular interleavings or nil values.",
  ["hashmap/map.go"], [("MapL counter updates", "hashmap/map.go:28"), ("Map.Put/Get/Del/Range", "hashmap/map.go:87")])
p("C11", "TreeMap is an ordered map",
  "Get returns the value last Put under an equal key that has not been deleted since, Put reports the replaced value and whether there was one. Ascend visits every pair exactly once in increasing key order and Descend in decreasing order, each stopping when the callback says so.",
  ["inputs", "histories"], "every ordered key type and key, every degree, every history",
  "The test puts a few ints and prints them; ordering and replacement are not asserted for other types or histories.",
  ["hashmap/treemap.go"], [("treeItem.Less", "hashmap/treemap.go:21"), ("Put/Get/Del/Ascend/Descend", "hashmap/treemap.go:37")])
p("C12", "Consistent hashing always answers with a live node and is stable",
  "On a ring with at least one point per node (replicas >= 1): as long as at least one node is present, Get and GetStr return a node that was added and not deleted, with ok=true, and which node that is depends only on the value and the set of live nodes, not on the history of Add and Del that led to it; with no node they return ok=false and never panic. Add makes exactly the named nodes live in addition to those there, Del removes exactly the named one, and Nodes returns exactly the live nodes, each once.",
  ["inputs", "histories"], "every set of nodes, every replica count, every value, every history of Add and Del",
  "No test; positions past the last ring point and an emptied ring need particular hashes or histories.",
  ["hashmap/consistenthash.go"], [("Get / GetStr ring search", "hashmap/consistenthash.go:67"), ("Add / Del", "hashmap/consistenthash.go:47")])
p("C13", "Striped locks: one key always uses one lock, and unlock matches lock",
  "For every key, Lock, TryLock, Unlock (and RLock, TryRLock, RUnlock) of a Numlock or Strlock operate on the same mutex, which is one of the table's own for every key value including negative numbers and the empty string. Lock returns only with that mutex held exclusively (RLock shared), TryLock returns true exactly when it acquired it, Unlock releases exactly that mutex and no other.",
  ["inputs", "schedules"], "every key, every table size >= 1, every interleaving of callers",
  "No test; negative keys and stripe collisions decide whether the index is in range and whether both sides pick the same mutex.",
  ["lock/lock.go"], [("Numlock", "lock/lock.go:28"), ("Strlock", "lock/lock.go:66")])
p("C14", "LimitLock admits at most its limit and accounts for every admission",
  "At any moment at most limit callers hold the lock: Lock takes exactly one slot when it returns nil and none when it returns the timeout error, and Unlock gives back exactly one slot and never blocks or frees more than were taken. The reported counts change by exactly one per acquisition and release.",
  ["schedules", "histories"], "every limit, timeout and interleaving of Lock and Unlock",
  "No test; over-admission needs a timeout racing an unlock.",
  ["lock/lock.go"], [("LimitLock.Lock / Unlock", "lock/lock.go:141")])
p("C15", "Await delivers a value to the waiter registered for that id, once, or times out",
  "A wait on an id returns the value given to CloseAndPut for that id, or an error when it is closed without value, when the timeout passes or when the context is cancelled, whatever the timeout; it never returns the zero value as a success. Waiting, timing out, closing and putting never panic, never double-close a channel and never remove or complete another id's waiter.",
  ["schedules", "histories", "inputs"], "every id, timeout and interleaving of waiters and completers",
  "Tests run one wait and one put; cancellation without timeout and close/put races are not reached.",
  ["lock/await.go", "lock/fastawait.go"], [("Await.Wait/CloseAndPut/Close", "lock/await.go:30"), ("FastAwait", "lock/fastawait.go:32")])
p("C16", "Memory map writes stay in bounds and appends never overlap",
  "Append returns the offset at which exactly the given bytes were placed, advances the write position by exactly their length, and successive or concurrent appends never overlap; when the bytes do not fit it returns an error and changes nothing. WriteAt places exactly the given bytes at the given offset or, when any of them would fall outside the mapping (including negative and huge offsets), returns an error and changes nothing; while the file is mapped no call panics.",
  ["inputs", "histories", "schedules"], "every byte slice, offset, mapping size and history",
  "No test; boundary lengths, negative and overflowing offsets and concurrent appends are not exercised.",
  ["mmap/mmap.go", "mmap/sync_unix.go"], [("Append", "mmap/mmap.go:46"), ("WriteAt", "mmap/mmap.go:67"), ("mmapSyncToDisk", "mmap/sync_unix.go:21")])
p("C17", "Buffer and object pools hand out clean, unshared objects",
  "A Buffer's content is exactly the bytes written to it since the last reset or free, in order; every write reports the number of bytes it appended, reads copy out and consume the content from the front without going past its end (io.EOF once it is empty), and the integer writer appends the 4-byte big-endian form. An object obtained from a pool has been reset, and Put empties the caller's reference so that it cannot put the same object twice through it.",
  ["inputs", "histories"], "every sequence of writes, reads, resets, gets and puts",
  "No test; return counts, truncation and reuse after Free are not asserted.",
  ["buffer/buffer.go", "pool/buffer/pool.go", "pool/buffer/buffer.go"], [("Buffer", "buffer/buffer.go:42"), ("pool.Get/Put", "pool/buffer/pool.go:35"), ("BufferPool", "pool/buffer/buffer.go:31")])
p("C18", "AES helper round-trips every message and fails safely on anything else",
  "Decrypting what was encrypted under the same key and iv gives back exactly the message, for every message including the empty one, and encryption leaves the caller's memory untouched. Decrypting bytes that are not a possible ciphertext (empty, not a multiple of the block size, invalid padding) returns an error and never panics.",
  ["inputs"], "every message, key, iv and every byte string given to decryption",
  "The test encrypts one string; malformed ciphertexts and spare capacity in the caller's slice are not tried.",
  ["keystore/aes.go"], [("EncrypterCbc / DecrypterCbc", "keystore/aes.go:30")])
p("C19", "RSA helpers report every failure",
  "The RSA encrypt and decrypt helpers return either the result of the RSA operation under the given key or a non-nil error; a key that is not PEM, cannot be parsed or is of another kind, or an unreadable key file, always yields an error and never a nil result with a nil error. Encryption uses the public key and decryption the private key exactly as given.",
  ["inputs", "fault_sequences"], "every message, key text and file content",
  "Tests use one good key pair; malformed keys are not tried.",
  ["keystore/key.go"], [("RsaEncrypt(ByBytes)", "keystore/key.go:93"), ("RsaDecrypt(ByBytes)", "keystore/key.go:121")])
p("C20", "Every compressor's output decompresses to the input, and bad input is an error",
  "For each of zlib (any level), gzip, snappy and zstd (any level), in compress and in util, decompressing the compressor's output gives exactly the original bytes. Decompressing bytes the decoder rejects returns an error (or, for the functions without an error result, nil), never truncated data reported as success.",
  ["inputs", "fault_sequences"], "every byte slice, every valid level, every stream",
  "Tests compress one string and print sizes; whether the stream was flushed and closed before being returned is not checked for all.",
  ["compress/compress.go", "util/compress.go"], [("Zlib/ZlibLevel/UnZlib", "compress/compress.go:18"), ("util.Zlib/UnZlib/Gzip/UnGzip", "util/compress.go:18")])
p("C21", "The key store gives back exactly what was put in it",
  "After a Put of an admin, client, mq or other entry, the matching Get returns it (for users: the md5-hashed password and the type given), the matching Del removes exactly it, and the lists name exactly the present entries; the four kinds do not interfere. What is written to the key file is what a later load reads.",
  ["inputs", "histories"], "every name, password and type, every history of puts and deletes",
  "One test on a real file; kind interference and nil maps are not exercised for all histories.",
  ["keystore/keystore.go", "keystore/bin.go"], [("storeAdmin", "keystore/keystore.go:21"), ("Write / Read", "keystore/bin.go:44")])
p("C22", "fastio writes every byte once, in order, and reports the truth",
  "Every byte slice accepted by Write or WriteSync reaches the file exactly once and contiguously, in an order consistent with the calls, and the offset WriteSync returns is where its bytes start. An I/O error is returned to every caller whose bytes were not written, and no error leaves the file permanently locked.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of writers and every failing write",
  "No test; failing writes and grouped concurrent writers are not exercised.",
  ["fastio/fw.go", "fastio/file.go"], [("mwriter.WriteSync/Write/ioWrite", "fastio/fw.go:41")])
p("C23", "The goroutine pool runs every submitted task exactly once within its limit",
  "Every function given to Go before Close runs exactly once, functions run on at most the pool's maximum number of goroutines at a time, and a panicking function neither kills the process nor stops later ones. No interleaving leaves a queued function without a goroutine that will run it.",
  ["schedules", "histories"], "every interleaving of submissions and completions, every limit",
  "No test in the reliable set drives the hand-over between a finishing worker and a submitter.",
  ["pool/gopool/gopool.go"], [("Go / _funcn / put", "pool/gopool/gopool.go:85"), ("funcn.run", "pool/gopool/gopool.go:31")])
p("C24", "Shared containers only touch their state under their lock",
  "In the containers documented as safe for concurrent use (LimitMap, LimitHashMap, LinkedHashMap, TreeMap, Consistenthash, LruCache) every read of the shared state happens while the guarding lock is held and every write while it is held exclusively, within a single critical section per operation (for LimitHashMap's Len and Clear: one per segment; a LinkedHashMap lookup may instead be one lock-free read of its sync.Map). Every operation releases every lock it took on every path, so no call leaves the container locked.",
  ["schedules"], "every interleaving of any number of goroutines calling any methods",
  "Tests do not run concurrently with the race detector; an unlocked read shows only on particular schedules.",
  ["hashmap/limitmap.go", "hashmap/limithashmap.go", "hashmap/linkedhashmap.go", "hashmap/treemap.go", "hashmap/consistenthash.go", "cache/lrucache.go"],
  [("lock acquisition in each method", "hashmap/limitmap.go:37"), ("LruCache mutex", "cache/lrucache.go:26")])
p("C25", "LruCache returns what was added under the same key, typed",
  "Get returns the value most recently added under an equal key if it has been neither removed nor evicted, and otherwise the zero value and false; a miss or a value of another type never panics. The cache never holds more than its maximum number of entries (when positive) and evicts the least recently used one; Remove and RemoveMulti remove exactly the named keys.",
  ["inputs", "histories"], "every value type and value including nil, every capacity, every history",
  "Tests add a few strings; nil values, misses and eviction order are not asserted.",
  ["cache/lrucache.go"], [("Get/Add/Remove/RemoveMulti", "cache/lrucache.go:26")])
p("C26", "WebSocket handler serialises sends and reports failures",
  "Two sends on one handler never overlap on the connection, each send transmits exactly the given bytes as one message or returns an error, and after Close or a failed connection every send returns an error instead of panicking.",
  ["schedules", "fault_sequences"], "every interleaving of Send and Close and every connection failure",
  "No test; overlap and sends after close need particular timing.",
  ["websocket/wshandle.go"], [("Send / sendws / Close", "websocket/wshandle.go:90")])
p("C27", "HTTP post helper sends the given body and headers and reports failures",
  "A post hands net/http exactly one POST request with the given url, body, every given header (no two of whose names are the same header) and the cookie if there is one, and returns the complete response body on success. Any failure to build, send or read is returned as an error and never panics, and the response body is always closed.",
  ["inputs", "fault_sequences"], "every body, url, header map and failure",
  "No test; failing requests and body leaks are not exercised.",
  ["httpclient/post.go"], [("Post3", "httpclient/post.go:26")])
p("C28", "Image operations keep the geometry their parameters ask for",
  "Resizing, cropping, rotating and flipping an image produce an image of exactly the requested geometry whose pixels come from the source as the operation's name says.",
  ["inputs"], "every image and parameter",
  "No test asserts pixels.",
  ["image/image.go"], [("Encode / adjust", "image/image.go:1")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
