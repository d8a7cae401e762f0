#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here, one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
c = "collections/"
p("C01", "SimpleMap is linearizable",
  "Every concurrent history of SimpleMap operations (Get, Set, Delete, Has, SetIfNotExists, SetIfNotExistsWithFunc, Size) is explained by some sequential order, respecting real time, of an ordinary map. Of several callers racing to create an absent key with SetIfNotExists or SetIfNotExistsWithFunc exactly one is told it created it, all others see the winner's value, and a creation function runs only in the call that wins. Values of every type count alike, nil and zero values too. Sharing the map between goroutines is free of data races.",
  ["schedules", "histories"], "all interleavings of any number of goroutines over any keys and values",
  "the tests call the methods from one goroutine; linearizability is a statement about every interleaving",
  [c+"map.go"], [("one RWMutex around every operation", c+"map.go")], ["call and return of every method"])
p("C02", "ShardMap is linearizable per key and complete across shards",
  "For every shard count and every shard function that maps a key to a valid shard, the operations on each key of a ShardMap are linearizable as an ordinary map entry, including SetIfNotExists(WithFunc) electing exactly one creator, for values of every type, nil and zero values too. Keys never influence each other, whether or not they share a shard; Clear removes every entry written before it began, and Size equals the exact number of stored keys whenever no operation is in flight, and while others write always counts the keys that are there throughout. Sharing the map between goroutines is free of data races.",
  ["schedules", "histories", "configurations"], "all interleavings, shard counts and shard functions",
  "the tests use one shard layout and mostly one goroutine",
  [c+"shard_map.go"], [("one RWMutex per shard", c+"shard_map.go")], ["call and return of every method"])
p("C03", "Per-key locks exclude, share and stay independent",
  "With MapMutex, and with write locks of MapRWMutex, at most one goroutine at a time is between Lock(k) and Unlock(k) of a key, also when the key is locked for the very first time by several goroutines at once, and what one holder wrote is visible to the next. MapRWMutex lets any number of readers of a key hold it together while excluding writers of that key, and a lock held on one key never blocks another key. Unlocking a key that was never locked has no effect, and every Lock returns once the holders before it have released, however many readers keep coming.",
  ["schedules"], "all interleavings of lockers, readers and writers over any keys",
  "tests show one interleaving of two goroutines at most",
  [c+"lock_map.go"], [("one mutex per key created on demand under the map's own lock", c+"lock_map.go")], ["entry and exit of critical sections"])
p("C04", "TwoKeyMap keeps its two key spaces a bijection",
  "After any sequence of Put, Remove and RemoveByK2, the stored pairs form a one-to-one relation of first keys and second keys: Get(k1) and GetByK2(k2) of a pair return the same, most recently put value, Len, Keys and KeysK2 list exactly the stored pairs, and no key of a replaced or removed pair can be found any more. Putting a pair that shares a key with older pairs replaces those pairs, and removing an unknown key changes nothing. Concurrent use is linearizable and free of data races.",
  ["histories", "schedules"], "all operation sequences over any keys and all interleavings of concurrent callers",
  "the tests put a few disjoint pairs",
  [c+"two_key_map.go"], [("two index maps updated together under one lock", c+"two_key_map.go")], ["every method's result"])
p("C05", "HashSet holds exactly its members, bounded, oldest evicted first",
  "A HashSet contains exactly the keys added and not since deleted, cleared or evicted; Has, Count and Keys agree on that, and adding a present key changes nothing, not even its age. With WithMaxCount(n) it never holds more than n keys and each addition beyond n evicts exactly the key that was added earliest. Concurrent use is linearizable and free of data races, and HasOrCreate returns false to exactly one of the callers racing to create a key. The memory it holds follows the keys it contains, however many have passed through.",
  ["histories", "schedules", "configurations"], "all operation sequences, capacities and interleavings",
  "tests add a handful of keys once from one goroutine",
  [c+"hash_set.go"], [("map plus insertion-ordered slice under one lock", c+"hash_set.go")], ["every method's result"])
p("C06", "Set behaves as a mathematical set",
  "After any sequence of Add, AddAll, Remove and Clear, a Set contains exactly the values added and not removed since: Has, HasAll, HasAny, Size, Values and All agree with that membership for every query, including empty argument lists, and each value is listed once. Equals is true exactly for sets with the same members, and a Clone, or a slice returned by Values, stays unaffected by later changes to the original and the other way round.",
  ["histories", "inputs"], "all operation sequences and argument lists",
  "tests cover a few fixed sets",
  [c+"set.go"], [("map of members", c+"set.go")], ["every method's result"])
g = c+"guava_map.go"
p("C07", "GuavaMap is linearizable and race free",
  "Every concurrent history of a GuavaMap's operations (Set, Get with or without a load function, Has, HasOrCreate, Delete, Clear, Size, GetStored, LockForUpdate) is explained by some sequential order, respecting real time, of an ordinary map whose Get of an absent key may store the loaded value. HasOrCreate returns false to exactly one of the callers racing to create a key, and GetStored is a consistent snapshot that later changes of the map do not alter. Concurrent use, with timeouts, capacity and callbacks configured, is free of data races, panics and deadlocks.",
  ["schedules", "histories", "configurations"], "all interleavings, keys and builder configurations",
  "tests are single-goroutine or check one race",
  [g], [("one RWMutex over the stored entries", g)], ["call and return of every method", "load and unload callbacks"])
p("C08", "GuavaMap never exceeds its capacity and evicts in insertion order",
  "With WithMaxCount(n), a GuavaMap never shows more than n entries to anyone at any time, whichever operation adds them (Set, HasOrCreate, a loading Get, LockForUpdate). Adding to a full map evicts exactly one entry, the one whose key was inserted earliest among those present (overwriting keeps a key's place, deletion and re-insertion renews it), and never an entry when there is room. Deleted, cleared and expired entries free their room, and the memory a bounded map holds follows its capacity, however many keys have passed through (the locks per key of lock loading excepted).",
  ["histories", "schedules", "configurations"], "all operation histories and capacities, sequential and concurrent",
  "tests insert one key too many once",
  [g], [("insertion-ordered key list", g)], ["Size, Has, GetStored after each operation"])
p("C09", "GuavaMap loads missing keys correctly, once per key when locked",
  "Get of an absent key calls the load function with that key and stores and returns its result; a present key is returned without loading, a failing load returns that error and a zero value and stores nothing, and without a load function Get of an absent key returns the zero value, no error, and stores nothing. With WithLockLoad(true), concurrent Gets of one absent key run the load function one at a time and, when it succeeds, exactly once, all returning the loaded value, while loads of different keys do not wait for each other. A key deleted, cleared, evicted or expired is loaded again by the next Get.",
  ["schedules", "histories", "inputs"], "all schedules of concurrent Gets, load outcomes and durations",
  "tests run a single load; the lock-load race needs an interleaving",
  [g, c+"lock_map.go"], [("double-checked lookup under a per-key lock", g)], ["load function calls", "Get results"])
p("C10", "GuavaMap entries expire on time, neither early nor late",
  "With a write timeout an entry disappears that long after its last write, and with a read timeout that long after it was last read (Get, Has, HasOrCreate) or written; with both, the most recent access sets the deadline (write timeout after a write, read timeout after a read). Until then it stays readable, from then on every operation treats it as absent, and no deadline of an earlier, since deleted, evicted, cleared or replaced entry of the same key ever removes a newer one. Without timeouts entries never expire.",
  ["histories", "schedules", "configurations"], "all timelines of operations and all timeout settings",
  "tests sleep through one expiry of one key",
  [g], [("one timer per entry, re-armed by accesses, compared by identity before deleting", g)], ["Has/Get/Size over virtual time"])
p("C11", "GuavaMap unloads every departing entry exactly once",
  "The unload function runs exactly once, with the right key and the entry's current value, for every entry that leaves a GuavaMap by Delete, Clear, eviction or expiry, and for nothing else: not for values overwritten in place, not for deletions of absent keys, not for entries still stored, and whatever the value, nil or zero too. Deleted and cleared entries are unloaded also after the map's context is cancelled. So at quiescence the insertions of every key equal its unload calls plus the entries still present. A slow or re-entrant unload function never blocks the map.",
  ["histories", "schedules"], "all operation histories and races between deletion, eviction and expiry",
  "tests look at one deletion",
  [g], [("asynchronous callback at each removal", g)], ["unload callback log versus the history"])
p("C12", "GuavaMap.LockForUpdate loses no update",
  "Updates of one key through LockForUpdate never overlap: each update function runs exactly once, alone for its key, sees all earlier updates, and its result is returned, stored and visible to every operation that starts after the call returned. Updates of different keys, and reads, do not wait for a running update function, and the stored entry gets a fresh timeout and counts towards the capacity as any other write.",
  ["schedules"], "all interleavings of updaters and readers",
  "the tests increment from few goroutines, once",
  [g], [("reference-counted per-key lock around update and store", g)], ["read-modify-write chains through the API"])
w = c+"wait_map.go"
p("C13", "WaitMap delivers the first value to every waiter",
  "Every Wait(key) returns, to every waiter before and after it, the first value Set for that key while none was stored (a nil or zero value is a value like any other); further Sets of a key whose value is stored are ignored. Each waiter is answered exactly once, no Set or Wait of one key affects another key, and no interleaving of Wait and Set loses a waiter, panics, deadlocks or races.",
  ["schedules", "histories"], "all interleavings of waiters and setters over any keys",
  "tests run one waiter and one setter with sleeps",
  [w], [("double-checked registration under the lock; setter answers all registered channels", w)], ["Wait results versus Set history"])
p("C14", "WaitMap honours timeouts, TTL and cancellation",
  "A Wait not answered within the request timeout, counted from the first of the waiters currently waiting for the key, returns the zero value at that moment together with all of them, and that zero value is then the stored response. A stored response is returned by every Wait until its TTL has passed and never after, after which the key starts afresh; a request timeout or TTL of zero or less runs out at once. A timeout or TTL of an earlier round never touches a later one. Cancelling the context answers all waiters at once with the zero value and forgets stored responses, later Waits return instead of blocking, and Count is the number of keys being waited for plus responses stored.",
  ["histories", "schedules", "fault_sequences"], "all timelines of Wait, Set and cancel over any keys and durations",
  "tests sleep through one timeout",
  [w], [("one goroutine per round selecting on context and timer", w)], ["Wait result and virtual return time", "Count"])
r = c+"response_map.go"
p("C15", "ResponseMap delivers the first value to every waiter",
  "Until a key is cleared, every Wait(key) answered with a value gets the first value Set for the key, whether it started before or after that Set; later Sets are ignored and a waiter never receives two answers or another key's value. No interleaving of Wait and Set, on keys new or known, loses a waiter, panics, deadlocks or races.",
  ["schedules", "histories"], "all interleavings of waiters and setters",
  "tests run one waiter and one setter",
  [r], [("one holder per key storing the first value and answering listeners", r)], ["Wait results versus Set history"])
p("C16", "ResponseMap honours timeouts, clearing and cancellation",
  "A Wait on a key without a value returns the zero value once the response timeout of the key's current waiting round has run out, and never later than one response timeout after it began; a value set afterwards is still returned to later Waits. A key is forgotten at a clearing run (every clear timeout) once it is older than the clear timeout and never while younger; its waiters are then answered with the zero value, and later operations on the key start afresh. Cancelling the context answers every waiter with the zero value, and the map leaves no goroutine behind.",
  ["histories", "schedules", "fault_sequences"], "all timelines of Wait, Set, clearing runs and cancel",
  "tests sleep through one timeout",
  [r], [("timer per holder, ticker per map, context per holder", r)], ["Wait result and virtual return time"])
h = c+"holder_map.go"
p("C17", "HolderMap releases every waiter with the one outcome",
  "All Waits on a key return the same single outcome: nil after Release, the given error after Error, a timeout error when neither happened within the timeout of the first Wait, the context's error on cancellation; whichever comes first counts, later Release, Error, or Wait calls see that same outcome until the key's TTL has run out. Get returns the object of the first Wait or the latest Update (whatever it is, nil too) together with the outcome so far, Get, Update, Release and Error of an unknown key return an error, Count is the number of known keys, and after the TTL following the outcome the key is unknown again. No interleaving loses a waiter, blocks Release or Error, panics, deadlocks or races.",
  ["schedules", "histories", "fault_sequences"], "all interleavings and timelines of Wait, Get, Update, Release, Error, timeout and cancel",
  "tests cover a single release and a single timeout",
  [h], [("holder goroutine selecting on timer, context and outcome channel", h)], ["Wait/Get results and virtual return times"])
q = c+"request_map.go"
p("C18", "RequestMap runs each request once and shares its result",
  "While a key's result is being computed or is cached, every GetOrCreate and GetOrCreateWithErr of that key returns that result, value and error, and the given functions of all but one of those callers are never called; of several results given at construction for one key the last counts. Requests of different keys do not wait for each other, the function is called with the requested key, Count is the number of keys in flight plus cached, and concurrent use is free of lost callers, panics, deadlocks and data races.",
  ["schedules", "histories"], "all interleavings of callers over any keys and function durations",
  "tests start a few callers of one key",
  [q], [("registration of waiters under the lock; first registrant computes", q)], ["function invocations and results"])
p("C19", "RequestMap results live for their TTL and then are recomputed",
  "A result, also an error and also an entry given at construction, is served from the cache for at least its TTL after it was produced, and is forgotten no later than the cleaning interval (100 ms) after the TTL ran out, so that the next request computes afresh. The expiry of one result never removes a newer result, a different key, or a request in flight. Once the context is cancelled the cleaning ends and requests still work.",
  ["histories", "schedules"], "all timelines of requests, TTLs and computation times",
  "tests sleep through one TTL",
  [q], [("time-ordered slice of results trimmed by one worker", q)], ["function invocations over virtual time", "Count"])
p("C20", "RequestMap.Timeout bounds a call without changing it",
  "A function wrapped with Timeout(d) returns exactly what the wrapped function returned, value and error, if that finished within d, and otherwise the zero value with the timeout error at d (at once for a d of zero or less). It calls the wrapped function once per call with the same key, and an overdue call leaves no goroutine behind once the wrapped function ends.",
  ["schedules", "inputs"], "all durations, results and concurrent calls",
  "tests try one slow call",
  [q], [("buffered result channel and timer", q)], ["result and virtual return time"])
s = c+"struct_uniq_set.go"
p("C21", "StructUniqSet tells equal values from different ones",
  "Add returns true exactly when no equal value is present and otherwise false without changing anything, Has reports presence, Remove removes and reports it, and Count is the number of distinct values present. Equality is that of the hash of the function given to WithBuildFunc, or, by default, of the values' exported content: equal content is always recognised and different content never confused. Errors of the hash function are returned and change nothing; of several goroutines adding equal values exactly one is told true, and concurrent use is free of data races.",
  ["inputs", "histories", "schedules"], "all values, operation sequences and interleavings",
  "tests add two or three fixed structs",
  [s], [("hash of the gob encoding as map key", s)], ["method results"])
p("C22", "StructUniqSet elements live for their TTL",
  "An added value stays present for at least its TTL and is gone no later than one check interval after the TTL (which may be zero or less) ran out; a present value's age is not renewed by adding it again. The expiry of a removed value never removes the same value added later, nor any other. Cancelling the context ends the cleaning goroutine.",
  ["histories", "schedules"], "all timelines of Add, Remove, TTLs and intervals",
  "tests sleep through one TTL",
  [s], [("time-ordered element list trimmed periodically, compared by identity", s)], ["Has/Count over virtual time"])
k = "chans/chunk_chan.go"
p("C23", "ChunkChan passes every item on once, in order, in bounded chunks",
  "The concatenation of the chunks a ChunkChan emits is exactly the sequence of items it took in: nothing lost, duplicated, reordered or invented, also when consumers are slow or the buffers are unbuffered. No chunk is empty or longer than the chunk size, a full chunk is emitted without waiting for the timer, a shorter one only when a chunk timeout has passed (so, if promptly taken, they are a timeout apart) or at closing, and a chunk handed out is never modified afterwards and is its receiver's, to change or append to without effect on later chunks. Items added by one producer keep their order, the chunk function (if any) gets every chunk exactly once, and when the incoming channel is closed the remaining items are emitted and nothing else follows.",
  ["schedules", "histories", "configurations"], "all item streams, sizes, buffers, timeouts and consumer speeds",
  "tests push one stream through one configuration",
  [k], [("single goroutine collecting items into a fresh slice per chunk", k)], ["items in versus chunks out"])
p("C24", "ChunkChan flushes a partial chunk within the chunk timeout",
  "No item accepted by a ChunkChan whose output is being consumed waits longer than one chunk timeout before it is emitted, even if no further item arrives; what fell due while its consumer was away is there the moment the consumer is back. With no items pending the timer emits nothing.",
  ["histories", "schedules"], "all arrival timelines, chunk sizes and timeouts",
  "tests wait for one flush",
  [k], [("ticker in the collecting loop", k)], ["virtual time of arrival and emission"])
sc = "chans/shard_chan.go"
p("C25", "ShardChan routes every item to its shard, in order, exactly once",
  "Every item added to a ShardChan appears exactly once, and only on the shard equal to its shard function result modulo the shard count (a valid shard also for negative results), in the order in which items of that shard were added. C(k) is that shard's channel for 0<=k<count and nil otherwise, a worker function is called with the shard number and item exactly once per item and one at a time per shard, and building without a shard function fails with the documented error. Slow consumers delay but never lose or misroute items, and closing the incoming channel adds none.",
  ["schedules", "inputs", "configurations"], "all items, shard functions, counts, buffer sizes and consumer speeds",
  "tests route a few non-negative keys",
  [sc], [("single distributing goroutine, one channel per shard", sc)], ["items per shard versus items added"])
scc = "chans/shard_chunk_chan.go"
p("C26", "ShardChunk delivers every item in one chunk of its shard",
  "Every item sent into a ShardChunk comes out exactly once, within a chunk of the shard its shard function selects, in the order sent per shard; chunks are non-empty, never longer than the chunk size, are flushed within the chunk timeout when the output is consumed, and are their receiver's to change. The shard worker gets every chunk with its shard number exactly once and one at a time per shard, C(k) and ShardCount describe the shards (nil outside the range), and a missing shard function is reported by Build.",
  ["schedules", "inputs", "configurations"], "all item streams, shard functions, sizes and consumer speeds",
  "tests push one stream",
  [scc, sc, k], [("sharder feeding one chunker per shard", scc)], ["items in versus chunks out per shard"])
p("C27", "Cancelling the context stops chunkers and sharders completely",
  "After the context of a ChunkChan, ShardChan or ShardChunk is cancelled, at whatever point and however full or empty its channels are, all goroutines it started end without anybody consuming its output, and callers blocked in Add, or calling it later, return instead of hanging (ShardChan with the context's error exactly when it did not take the item). Nothing is emitted that was not put in, and cancellation never panics.",
  ["schedules", "fault_sequences"], "cancellation at every point of every schedule",
  "no test cancels with full buffers",
  [k, sc, scc], [("every channel operation selects on the context", k)], ["goroutines left in the bubble after cancel", "return of Add"])
ru = "workers/runner.go"
p("C28", "Runner executes every task once on at most its workers",
  "Every function submitted with Run or RunWithContext to a Runner that is not cancelled is executed exactly once, RunWithContext functions with the runner's own context. Never more than the configured number of functions run at the same time, and that many can: as long as a task waits, no worker idles. Concurrent submission is free of races, tasks submitted from within tasks are executed too while the queue has room, and neither kind of function keeps the other waiting for good, however many keep coming.",
  ["schedules", "configurations"], "all interleavings of submitters, worker counts and task durations",
  "tests run a few tasks",
  [ru], [("fixed pool of goroutines receiving from two buffered channels", ru)], ["task execution log and concurrency level"])
p("C29", "Runner stops on cancellation without stranding callers",
  "After the runner's context is cancelled, tasks already running finish, every worker ends soon after its current task without working off the queue, and callers blocked in or later calling Run or RunWithContext return promptly even with a full queue. No task runs twice because of the cancellation.",
  ["schedules", "fault_sequences"], "cancellation at every point, queue states and worker counts",
  "no test cancels a runner with a full queue",
  [ru], [("context selected in workers and submitters", ru)], ["goroutines left after cancel", "return of Run"])
p("C30", "Processor runs its chains in order until the first error",
  "A built Processor runs, for each event, the steps of its routes in the order they were declared, each with the event and state it was given; a false condition or a failing step stops everything after it and its error is returned (the step's own error unchanged, whatever its type and text), and with no failing step the result is nil. RouteOn checks its condition before each of its functions, Route and RouteOn never affect other routes, and using one built processor from many goroutines, or within a step of its own, runs each event independently.",
  ["programs", "inputs", "schedules"], "all chains, conditions, errors and events",
  "tests build two routes and send two events",
  ["flow/processor.go"], [("nested loops over routes and chain", "flow/processor.go")], ["step execution log and result"])
a = "crypto/aes.go"
p("C31", "AES decrypts what it encrypted, and hides it",
  "For every 16-, 24- or 32-byte key and every plaintext, including the empty one, Decrypt(Encrypt(p)) equals p for any AES value with the same key, neither call changes its input or the key, and what they return stays unchanged by later calls. Every encryption is randomised: no two ciphertexts ever share their nonce or are equal, and a ciphertext does not contain its plaintext. Keys of any other length give an error from both calls, and one AES value may be used by many goroutines at once.",
  ["inputs", "schedules"], "all keys, plaintexts and concurrent uses",
  "tests encrypt one string",
  [a], [("AES-GCM with a random 12-byte nonce prepended", a)], ["ciphertexts and plaintexts"])
p("C32", "AES rejects everything it did not encrypt",
  "Decrypt returns an error and no data, and never panics, for every input that is not a ciphertext made with the same key: any truncation, extension, bit flip in any position, reordering, ciphertext of another key (also one with the same beginning, and also a key of invalid length), and arbitrary bytes of any length including none.",
  ["inputs", "fault_sequences"], "all modifications of ciphertexts and arbitrary inputs",
  "tests only decrypt genuine ciphertexts",
  [a], [("GCM authentication tag, length check", a)], ["Decrypt results"])
f = "crypto_fs/crypto_fs.go"
p("C33", "CryptoFS gives back exactly the files and folders archived",
  "For every file and folder tree added to a CryptoFSBuilder and saved, with or without encryption, the loaded file system has for every added file, under the path it was added by (exactly as given to AddFile), exactly its content, base name and size, and for every folder exactly its entries (names, kinds) as they were when last added, however deeply nested; nothing else is in it. A root directory tells where the folders added with it are found, not single files. Files whose bytes are empty, binary or large, and any number of files, survive unchanged, also when many builders add and save at the same time, and later changes on disk do not affect a saved archive. A Save that cannot write everything reports an error, and neither adding, saving nor loading leaves a file open.",
  ["inputs"], "all directory trees, file contents, names and keys",
  "tests archive one small folder",
  [f], [("gob encoding of the path map, sealed with AES", f)], ["loaded tree versus tree on disk"])
p("C34", "An encrypted CryptoFS archive is confidential and tamper-proof",
  "An archive saved with a key can be loaded only with that key and unmodified: a wrong, missing or invalid key, any changed byte, truncation or extension makes loading fail with an error, never a panic and never a partial or altered file system. The saved file contains neither names nor contents of the archived files in the clear, and saving with an invalid key fails, writes none of the data and leaves an archive saved there before as it was.",
  ["inputs", "fault_sequences"], "all keys and all modifications of archives",
  "tests load with the right key only",
  [f, a], [("AES-GCM over the whole archive", f)], ["load result of every mutated archive", "bytes on disk"])
p("C35", "CryptoFS files and folders obey the fs contract",
  "Every file opened from a CryptoFS can be read to its end, with any buffer sizes, yielding exactly its content followed by io.EOF, independently of and concurrently with other openings of the same or other files; Stat reports its name, size and kind, the same whenever it is asked, and the same modification time. ReadDir lists the folder's entries whose Info and kinds are right, fails on files and unknown names, Open of an unknown name fails with fs.ErrNotExist, and walking the file system visits every archived path below the start exactly once.",
  ["inputs", "schedules"], "all read patterns and concurrent readers",
  "tests read one file once",
  [f], [("read position per opening", f)], ["fs interfaces' results"])
z = "zip/gzip.go"
p("C36", "GZip round-trips every input and never returns wrong data",
  "GUnzipData(GZipData(d)) equals d for every d, including empty, large and incompressible ones, GZipData's output is one complete standard gzip stream of d, and neither changes its input or keeps a reference to it. For input that is not intact gzip data (truncated, altered, arbitrary) GUnzipData returns an error and never panics and never reports success with data other than the original; both may be called from many goroutines.",
  ["inputs", "fault_sequences"], "all byte strings and all damages",
  "tests compress one string",
  [z], [("gzip writer flushed and closed; reader verifies the checksum", z)], ["results"])
n = "net/to_bytes.go"
p("C37", "net byte codecs are exact inverses in little-endian layout",
  "GetIntFromBytes(GetBytesFromInt(v,n)) is v for every v that fits n bytes (n may exceed 8), PackUint/UnpackUint invert each other for every unsigned type and byte order (unsupported types panic, respectively return the documented error), and the fixed-width helpers encode little-endian in exactly 2 or 4 bytes. AddSize16/AddSize32 prefix the data with its length, Chunk(d,n) splits d into consecutive pieces of n bytes with only the last shorter that concatenate to d, BoolArrayToByte/ByteToBoolArray map bit i of byte j to element 8j+i in both directions, CopyBytes copies the first l bytes independently of the source, and CreateAllTrueBoolArray(n) is n times true. None of them changes its input.",
  ["inputs"], "all values, widths, slices and sizes",
  "tests check a few values",
  [n], [("shifts and encoding/binary", n)], ["results"])
p("C38", "Reading n bytes returns exactly the next n bytes, or an error",
  "ReadNBytes and ReadNBytesWithTimeout return exactly the next n bytes of the stream however it is fragmented and leave all bytes after them unread for the next call, and what was returned stays unchanged by later reads; if the connection ends, fails or (with timeout) delivers too few bytes in time they return an error and never a short or padded result as success. With a timeout the call returns no later than the timeout (at once if that is zero or less), and not with a timeout error before it; a read, also one that timed out, leaves writing on the connection as it was.",
  ["inputs", "fault_sequences", "schedules"], "all stream contents, fragmentations, failures and timings",
  "tests do not cover fragmentation or failures",
  ["net/read.go"], [("io.ReadFull, read deadline", "net/read.go")], ["results versus bytes sent"])
p("C39", "CompareSlice partitions both slices by id",
  "CompareSlice(current, mod) returns the elements of current whose id does not occur in mod, the elements of mod whose id does not occur in current, and the elements of current whose id occurs in mod, each in the original order with duplicates kept. So every element of current is in exactly one of the first and third results, the inputs are left unchanged, and appending to or changing a result changes no other one and neither input.",
  ["inputs"], "all slices, ids, duplicates and empty inputs",
  "tests compare one pair of slices",
  ["comparer/comparer.go"], [("id sets of both slices", "comparer/comparer.go")], ["results"])
p("C40", "math helpers return the right number for every argument",
  "Every Min and Max variant returns, for all arguments of its type including the extremes and equal ones, the smaller respectively larger of the two. IntPointMove(v, s) is v times 10^s for s>0 as long as that fits an int, v for s=0, and v divided by 10^-s truncated towards zero for s<0.",
  ["inputs"], "all argument pairs of all types",
  "tests check one or no value per function",
  ["math/minmax.go", "math/decimal_int.go"], [("comparisons; repeated multiplication or division", "math/minmax.go")], ["results"])
p("C41", "MD5 helpers agree with the standard",
  "GetMD5Hash(s) is the lower-case hexadecimal form, and GetMD5HashBytes(s) the 16 bytes, of the RFC 1321 MD5 digest of exactly the bytes of s, for every string including empty, binary and long ones, and from any number of goroutines.",
  ["inputs", "schedules"], "all strings",
  "no reference comparison in the tests",
  ["crypto/hash.go"], [("crypto/md5", "crypto/hash.go")], ["results"])
p("C42", "Chunkers and sharders hold producers back only when full",
  "With nobody taking its output, a ChunkChan or ShardChan accepts without waiting as many items as its configured buffers hold (incoming items plus, for a ChunkChan, outgoing chunks of the chunk size, for a ShardChan the outgoing items of the shard), then makes producers wait having accepted no more than that and what it has in hand (at most two more chunks or items); a ShardChunk likewise accepts at least its outgoing buffer's chunks and a bounded number of items. Producers go on as soon as output is taken, items for a full shard do not disturb others while its buffer has room, and Sizes reports the items and chunks waiting in the queues, whoever asks and however many at once, in a list that is the caller's.",
  ["configurations", "schedules"], "all buffer and chunk sizes, shard counts and consumption patterns",
  "tests use default buffers and consume everything",
  ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go"], [("buffered channels between the stages", "chans/chunk_chan.go")], ["sends that returned, Sizes, chunks received"])
p("C43", "What is gone leaves no memory and no goroutine behind",
  "Once entries have been deleted, cleared, evicted, replaced or have expired (SimpleMap, ShardMap, TwoKeyMap, HashSet, Set, GuavaMap, WaitMap, ResponseMap, HolderMap, RequestMap, StructUniqSet), and once items and functions have passed through (ChunkChan, ShardChan, ShardChunk, Runner), nothing keeps their keys, values, timers or goroutines, so memory and goroutines follow what is held and do not grow with how much has passed through, under a long-lived context too; and after its own context is cancelled a collection, channel or runner nobody refers to any more costs nothing. (The locks that MapMutex, MapRWMutex and a lock-loading GuavaMap keep per key are excepted.)",
  ["histories", "configurations"], "all ways entries come and go, in any number",
  "tests look at results, never at what is retained",
  [c+x for x in ("map.go","shard_map.go","two_key_map.go","hash_set.go","set.go","guava_map.go","wait_map.go","response_map.go","holder_map.go","request_map.go","struct_uniq_set.go")] + ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", "workers/runner.go"],
  [("entries removed from every index, timers and contexts stopped with their entry", c+"guava_map.go")], ["heap and goroutines after rounds of entries that came and went"])
p("C44", "What one builder builds stands on its own",
  "A builder (of ChunkChan, ShardChan, ShardChunk, GuavaMap, HashSet, ShardMap, WaitMap, ResponseMap, HolderMap, StructUniqSet, Runner, Processor, CryptoFSBuilder) may be used again: every Build makes a new value configured as the builder is at that moment, and every Save writes an archive of what had been added by then. Values built by the same or by different builders share no items, entries, limits, timeouts or functions (unless given the same channel, context or function), and none waits for another, however they are used side by side; and whatever is done to the builder afterwards (other options, more routes, another Build) changes nothing about what was built before and races with none of it.",
  ["configurations", "histories", "schedules"], "all configurations before and between the builds, and all uses of the built values",
  "tests build once from each builder",
  ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", c+"guava_map.go", c+"hash_set.go", c+"shard_map.go", c+"wait_map.go", c+"response_map.go", c+"holder_map.go", c+"struct_uniq_set.go", "workers/runner.go", "flow/processor.go", "crypto_fs/crypto_fs.go"],
  [("Build copies the configuration into the new value", "chans/chunk_chan.go")], ["results of several values built one after the other and used together"])
p("C45", "A callback that panics or exits leaves everything usable",
  "When a function of the user does not return but panics or ends its goroutine (runtime.Goexit) inside a call of SimpleMap.SetIfNotExistsWithFunc, any ShardMap operation (shard function too), GuavaMap.Get (load, with and without WithLockLoad), GuavaMap.LockForUpdate, StructUniqSet.Add, Has or Remove (build function), or a built Processor (condition or step), exactly that caller sees exactly that panic or exit. Nothing is stored, removed, evicted or unloaded by the call, no lock stays held, and callers waiting for the same key at the time, or coming later, go on as if the call had not been made.",
  ["inputs", "schedules", "histories"], "all places where callbacks are called, all ways for them not to return, any number of others waiting",
  "no test has a callback that panics",
  [c+"map.go", c+"shard_map.go", c+"guava_map.go", c+"lock_map.go", c+"struct_uniq_set.go", "flow/processor.go"],
  [("locks around callbacks are released by defer", c+"map.go")], ["how calls end, what is stored afterwards, whether others proceed"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fh.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
