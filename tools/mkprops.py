#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
HOOK = "cfg scc_sim: the crate's `std` is the simulator's (atomics, spin hints, park, allocation)"
T = "The unit tests use a handful of real threads on whatever interleaving the OS happens to produce, and the loom models cover two threads and two or three fixed operations; "

p("H01", "HashMap operations are linearizable per key",
  "Every HashMap point operation (insert, upsert, update, replace, entry, get, read, contains, remove, remove_if and their async forms) takes effect atomically between its call and its return, so that the results seen by all callers of a key agree with one sequential order of a plain map. An operation that reports failure changes nothing, try_entry gives up only if somebody else uses the container, and a failed insertion hands the caller exactly the key and value it passed in.",
  ["schedules", "histories", "inputs"],
  "For every set of concurrent callers, every mix of point operations on any keys, every hash function including colliding ones, every initial capacity and every interleaving, including those in which the table grows or shrinks meanwhile.",
  T + "no test checks whole histories against a sequential map under interleavings chosen to be hostile.",
  ["src/hash_map.rs", "src/hash_table.rs", "src/hash_table/bucket.rs", "src/hash_table/bucket_array.rs"],
  [("one reader-writer lock per bucket, acquired before any access", "src/hash_table.rs writer_async/writer_sync/reader_async/reader_sync"),
   ("relocation of the old bucket before the new one is used", "src/hash_table.rs dedup_bucket_async/dedup_bucket_sync"),
   ("slot publication", "src/hash_table/bucket.rs insert/remove/search_entry")],
  [("occupied bitmap and partial hashes", "which slots of a bucket hold live entries", "src/hash_table/bucket.rs"),
   ("linked old and current arrays", "where a key may currently live", "src/hash_table/bucket_array.rs")],
  ["results of public calls"], HOOK)
p("H02", "HashSet operations are linearizable per key",
  "Every HashSet operation on a key (insert, replace, read, contains, remove, remove_if and their async forms) takes effect atomically between its call and its return and agrees with one sequential order of a plain set. Exactly one of several concurrent insertions of an absent key succeeds, replace returns exactly the key instance it displaced, and remove returns the instance that was stored.",
  ["schedules", "histories", "inputs"],
  "For every set of concurrent callers, every mix of operations, every hash function and every interleaving, including during resizing.",
  T + "HashSet is exercised by very few tests and never under a checked concurrent history; which of two equal key instances is stored is never observed.",
  ["src/hash_set.rs", "src/hash_map.rs"],
  [("delegation to HashMap with unit values", "src/hash_set.rs"), ("in-place key replacement", "src/hash_set.rs replace_async/replace_sync")],
  [], ["results of public calls, identity of returned keys"], HOOK)
p("H03", "HashIndex operations, lock-free reads included, are linearizable per key",
  "Every HashIndex point operation (insert, entry, update, get, remove, remove_if, and the lock-free peek, peek_with and contains) takes effect atomically between its call and its return in one sequential order of a plain map per key. A lock-free read never misses an entry that is present for the whole duration of the read and never returns a value other than one current at some instant during the read, also while the entry is being moved by a resize.",
  ["schedules", "histories", "inputs"],
  "For every set of concurrent callers, operation mix, hash function, capacity and interleaving, on sequentially consistent memory (the documentation leaves linearizability of reads on weaker memory to the architecture).",
  T + "the two HashIndex loom models cover a single insertion or relocation against one reader.",
  ["src/hash_index.rs", "src/hash_table.rs", "src/hash_table/bucket.rs"],
  [("optimistic search of old and current arrays", "src/hash_table.rs peek_entry"),
   ("entry kept readable after removal until no reader can hold it", "src/hash_table/bucket.rs mark_removed/drop_removed_unreachable_entries"),
   ("copy before removal when relocating", "src/hash_table.rs relocate_bucket / src/hash_table/bucket.rs extract_from")],
  [("removed bitmap and garbage epoch", "entries removed but still readable", "src/hash_table/bucket.rs")],
  ["results of public calls"], HOOK)
p("H04", "HashCache agrees with a map that may only lose entries it evicts",
  "Every HashCache operation on a key takes effect atomically in one sequential order of a plain map in which, besides explicit removals, an entry disappears only when an insertion evicts it. Every evicted key and value is handed to exactly the caller whose insertion displaced it, exactly once, and no entry vanishes or reappears otherwise.",
  ["schedules", "histories", "inputs"],
  "For every set of concurrent callers, operation mix, capacity bounds, hash function and interleaving, including growth and shrinkage of the cache.",
  T + "the cache tests check sizes and single-threaded eviction only.",
  ["src/hash_cache.rs", "src/hash_table/bucket.rs", "src/hash_table.rs"],
  [("eviction under the bucket lock before insertion", "src/hash_cache.rs put_async/put_sync/put_entry, src/hash_table/bucket.rs evict_lru_head"),
   ("LRU list in the bucket", "src/hash_table/bucket.rs update_lru_tail/remove_from_lru_list")],
  [], ["results of public calls, evicted entries"], HOOK)
p("H05", "Iteration and bulk operations visit every stable entry and act only as told",
  "A scan of a hash container (iter, iter_mut, retain, any, clear, entry-by-entry walking with begin/next, and HashIndex's guarded iterator) visits every entry that exists from before the scan is called until it returns, and never shows a key with a value it did not hold at some moment during the scan. retain, iter_mut and clear remove exactly the entries their predicate selected and keep all others; entries added meanwhile may be missed and, if the container is resized meanwhile, entries may be visited again.",
  ["schedules", "histories", "inputs"],
  "For every container state, every predicate, every concurrent mix of insertions, removals and resizes by other callers and every interleaving.",
  T + "scans concurrent with resizing are sampled by a few timing-dependent tests that only check counts.",
  ["src/hash_table.rs", "src/hash_map.rs", "src/hash_index.rs", "src/hash_set.rs", "src/hash_cache.rs"],
  [("scan restarts on a new array after draining the old", "src/hash_table.rs for_each_reader_*/for_each_writer_*"),
   ("entry cursor to next bucket", "src/hash_table.rs LockedBucket::next_*/remove_and_*"),
   ("lock-free iterator over old and current arrays", "src/hash_index.rs Iter::next")],
  [], ["visited pairs, contents afterwards"], HOOK)
p("H06", "Growing and shrinking neither loses, duplicates nor resurrects entries",
  "However many threads use a hash container while it grows or shrinks, every key that was inserted and not removed is found exactly once with its latest value, and no removed key comes back. Once all callers are done, a scan yields each remaining key exactly once and every remaining key can be looked up, updated and removed normally.",
  ["schedules", "histories", "inputs", "configurations"],
  "For every table size, load pattern, hash distribution (including many keys in one bucket), sequence of growth and shrinkage, and every interleaving of the threads that share the incremental move.",
  T + "incremental rehashing by several threads with stalls in the middle of a bucket move is reached only by chance.",
  ["src/hash_table.rs", "src/hash_table/bucket.rs", "src/hash_table/bucket_array.rs"],
  [("claiming of ranges of old buckets", "src/hash_table.rs incremental_rehash_async/incremental_rehash_sync"),
   ("bucket relocation", "src/hash_table.rs relocate_bucket_async/relocate_bucket_sync"),
   ("resize decision and installation of the new array", "src/hash_table.rs try_enlarge/try_shrink/try_resize")],
  [("old array link", "the predecessor that is being emptied", "src/hash_table/bucket_array.rs")],
  ["contents at rest, results of calls"], HOOK)
p("H07", "An occupied entry gives exclusive access; readers never overlap a writer",
  "While a caller holds an entry handle or runs a closure with mutable access to an entry of HashMap or HashCache, no other caller observes or modifies that entry by any means; shared readers of an entry may overlap one another but never a mutable access. A read-modify-write through a handle or closure is never lost.",
  ["schedules", "histories"],
  "For every combination of handles, closures, scans and point operations in sync and async form by any number of callers, and every interleaving, including handles held across suspension and resizing.",
  T + "mutual exclusion across all pairs of access paths (entry, update, iter_mut, retain, cursor, replace) is not enumerated by any test.",
  ["src/hash_table.rs", "src/hash_table/bucket.rs", "src/hash_map.rs", "src/hash_cache.rs"],
  [("bucket writer and reader locks", "src/hash_table/bucket.rs Writer/Reader"), ("entry handles own the writer lock", "src/hash_table.rs LockedBucket")],
  [], ["markers inside user values and closures"], HOOK)
p("H08", "Capacity follows its bounds; a live reservation keeps its space",
  "The capacity of a hash container is zero or a power of two within its declared range at any moment, including during a resize, and never falls below the requested minimum. While a reservation handle is alive the container never shrinks below the reserved amount whatever is removed or cleared concurrently; all reservations add up, each is released exactly once when dropped, a refused reservation changes nothing, and an emptied unreserved container can shrink again.",
  ["schedules", "inputs", "histories"],
  "For every sequence and interleaving of reservations, releases, insertions, removals and clears by any number of callers, and every requested amount up to the largest integer.",
  T + "reservations are tested on a quiet container only.",
  ["src/hash_table.rs", "src/hash_map.rs", "src/hash_index.rs", "src/hash_set.rs", "src/hash_cache.rs"],
  [("minimum-capacity counter shared with the resize flag", "src/hash_table.rs reserve_capacity, try_resize"), ("reservation handle", "src/hash_map.rs Reserve, src/hash_index.rs Reserve")],
  [("minimum capacity", "sum of initial minimum and live reservations", "src/hash_map.rs minimum_capacity")],
  ["capacity(), capacity_range(), additional_capacity()"], HOOK)
p("C01", "HashCache stays within its maximum and evicts the least recently used",
  "The number of entries in a HashCache never exceeds its maximum capacity at any instant. When an insertion into a full bucket must evict, the evicted entry is the least recently used one of those sharing the bucket, where inserting an entry or getting a handle to it makes it the most recently used (entries just moved by a change of capacity have no rank until used again); a successful insertion evicts at most one entry and evicts nothing while the bucket has room.",
  ["schedules", "histories", "inputs", "configurations"],
  "For every capacity bound, access sequence, hash distribution and interleaving of callers.",
  "Tests check total size after random single-threaded or statistical workloads; the recency order under mixed access paths and concurrent callers is not modelled.",
  ["src/hash_cache.rs", "src/hash_table/bucket.rs"],
  [("per-bucket doubly linked LRU list", "src/hash_table/bucket.rs update_lru_tail/evict_lru_head/remove_from_lru_list"), ("maximum capacity", "src/hash_cache.rs maximum_capacity")],
  [], ["evicted entries, len()"], HOOK)
p("T01", "TreeIndex point operations are linearizable",
  "Every TreeIndex point operation (insert, remove, remove_if, peek, peek_with, peek_entry, contains, sync and async) takes effect atomically between its call and its return, in agreement with one sequential order of a plain ordered map. Exactly one of several concurrent insertions of an absent key succeeds, exactly one of several concurrent removals of one stored entry succeeds, and a single successful removal removes a single entry, the one whose value its condition approved.",
  ["schedules", "histories", "inputs"],
  "For every set of concurrent callers, operation mix, key order, tree depth and interleaving, including node splits, node removal and root replacement.",
  T + "structural changes of inner nodes concurrent with point operations are sampled only.",
  ["src/tree_index.rs", "src/tree_index/leaf.rs", "src/tree_index/leaf_node.rs", "src/tree_index/internal_node.rs", "src/tree_index/node.rs"],
  [("per-leaf metadata with CAS", "src/tree_index/leaf.rs Metadata, insert, remove_if"), ("node lock for splits and clean-up", "src/tree_index/leaf_node.rs, src/tree_index/internal_node.rs"), ("root replacement", "src/tree_index/node.rs split_root/cleanup_root")],
  [("leaf metadata", "slot states, freeze and retire flags", "src/tree_index/leaf.rs")],
  ["results of public calls"], HOOK)
p("T02", "TreeIndex scans are ordered, in range and complete",
  "iter and range yield strictly increasing keys inside the requested bounds, hence without repetition. Every entry present from before the first step of the scan until its end is yielded, each yielded pair was stored in the tree, and an entry whose removal had returned before the scan started, and that was not inserted again, is not yielded.",
  ["schedules", "histories", "inputs"],
  "For every tree shape, all kinds of bounds, scans abandoned or suspended at any step, and every interleaving with insertions, removals, range removals, splits and clean-ups.",
  T + "the scan tests run against one fixed concurrent pattern at a time.",
  ["src/tree_index.rs", "src/tree_index/leaf.rs", "src/tree_index/leaf_node.rs"],
  [("leaf linked list with validation", "src/tree_index/leaf.rs Scanner, forward and backward links"), ("restart from the last key", "src/tree_index.rs Iter/Range next")],
  [], ["yielded sequences"], HOOK)
p("T03", "TreeIndex range removal removes all stable entries in range and no others",
  "When remove_range returns, every entry that was in the range when it was called and was not removed by somebody else has been removed, and no entry outside the range has been removed by it. Entries inserted into the range meanwhile may or may not be removed, and clear leaves no entry that was present when it was called.",
  ["schedules", "histories", "inputs"],
  "For every tree shape, every kind of bounds including empty and unbounded ones, and every interleaving with insertions, removals, splits and scans.",
  T + "bulk unlinking of whole subtrees concurrent with insertion at the edges of the range is not checked.",
  ["src/tree_index.rs", "src/tree_index/internal_node.rs", "src/tree_index/leaf_node.rs", "src/tree_index/leaf.rs"],
  [("recursive range removal with contained-node unlinking", "src/tree_index/internal_node.rs remove_range, src/tree_index/leaf_node.rs remove_range"), ("per-entry removal at the edges", "src/tree_index/leaf.rs remove_range")],
  [], ["contents during and after"], HOOK)
p("R01", "Every key and value is dropped exactly once and no memory is leaked",
  "Every key and value handed to a container is either handed back to a caller or dropped, exactly once, no matter which operations, resizes, evictions and removals happened; a refused insertion hands back or drops its arguments once. Once a container is dropped and all threads have finished, no key, value or internal allocation remains.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "For every operation sequence on every container type, every interleaving, and drop of the container at any state, including in the middle of a resize.",
  T + "drop counting is done for a few fixed scenarios; memory reuse after concurrent structural changes is not tracked.",
  ["src/hash_table/bucket.rs", "src/hash_table/bucket_array.rs", "src/hash_table.rs", "src/tree_index/leaf.rs", "src/tree_index/leaf_node.rs", "src/tree_index/internal_node.rs"],
  [("bucket clean-up on drop", "src/hash_table/bucket.rs drop_entries, src/hash_table/bucket_array.rs Drop"), ("deferred reclamation of linked buckets, leaves and nodes", "src/hash_table/bucket.rs, src/tree_index/leaf_node.rs")],
  [], ["drop registry, simulated heap"], HOOK)
p("R02", "References obtained under a guard stay valid and unchanged",
  "A reference to a key or value obtained from a lock-free read or scan of HashIndex or TreeIndex remains valid, points to the same undropped instance and shows the same contents for as long as its guard lives, whatever other callers remove, replace, resize or clear meanwhile. No memory is accessed by the library after it was released.",
  ["schedules", "histories"],
  "For every number of guards held for any length of time and every concurrent sequence of removals, replacements, resizes, clears and garbage collections, and every interleaving.",
  T + "no test keeps guarded references while every kind of reclamation is driven to completion, and a use after free usually stays unnoticed.",
  ["src/hash_index.rs", "src/hash_table/bucket.rs", "src/tree_index/leaf.rs", "src/tree_index.rs"],
  [("epoch-based reclamation of entries, buckets, arrays and nodes", "src/hash_index.rs defer_reclaim, src/hash_table/bucket.rs garbage_epoch"), ("leaf retirement", "src/tree_index/leaf_node.rs, src/tree_index/internal_node.rs")],
  [("garbage chain", "retired bucket arrays waiting for readers", "src/hash_index.rs garbage_chain")],
  ["guarded references, simulated heap"], HOOK)
p("A01", "Dropping an asynchronous operation half-way leaves the container consistent",
  "If a future of any container is dropped before completion, the operation has either taken full effect or none at all for each key it may touch, its arguments are dropped exactly once or stored, and every lock it held or waited for is given up. Afterwards all other callers go on normally and no entry is lost, duplicated or inaccessible, even if the future was dropped while moving entries during a resize or a node split. A future may be moved to another thread at any suspension point.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "For every asynchronous operation, every suspension point at which its future may be dropped, every concurrent activity and every interleaving.",
  "The existing cancellation tests drop futures at whatever suspension the runtime happens to produce; suspension points in the middle of rehashing or splitting are practically never hit.",
  ["src/hash_table.rs", "src/async_helper.rs", "src/tree_index.rs", "src/tree_index/leaf_node.rs", "src/tree_index/internal_node.rs", "src/exit_guard.rs"],
  [("scope guards around multi-step moves", "src/exit_guard.rs, src/hash_table.rs relocate_bucket_async/incremental_rehash_async"), ("unregistration of waiters", "src/async_helper.rs AsyncWait/TryWait")],
  [], ["contents, drops, progress after cancellation"], HOOK)
p("A02", "No deadlock, lost wake-up or livelock, in sync and async use",
  "Whenever every caller that holds an entry, lock or guard eventually lets go and is given a chance to run, every pending operation on a container, blocking or asynchronous, completes within a bounded number of steps. Waiting tasks are woken when they can proceed, also if tasks move between threads, are polled spuriously, wait alongside blocking threads, or other waiting tasks are dropped.",
  ["schedules", "fault_sequences", "histories"],
  "For every mixture of blocking and asynchronous callers on any container, every executor schedule and every thread interleaving.",
  T + "a lost wake-up needs a particular interleaving of unlock, registration and cancellation and shows only as a rare hang.",
  ["src/hash_table.rs", "src/async_helper.rs", "src/hash_table/bucket.rs", "src/tree_index.rs", "src/tree_index/leaf_node.rs", "src/tree_index/internal_node.rs"],
  [("wait queues on bucket and node locks", "src/async_helper.rs, src/tree_index/leaf_node.rs lock/wait, src/tree_index/internal_node.rs"), ("retry loops", "src/hash_table.rs, src/tree_index.rs")],
  [], ["termination of every simulated run"], HOOK)
p("F01", "Panicking user code and failing allocation leave the container usable",
  "If a user-supplied comparison, hash, clone, predicate, closure or constructor panics, or a memory allocation made by the library fails, inside any operation, that operation has either its full effect or none for each entry it was to touch, apart from entries its own predicate had already dealt with. No lock stays held, nothing is dropped twice, no other entry is lost or duplicated, and later operations by any caller succeed.",
  ["fault_sequences", "crash_points", "schedules", "inputs"],
  "For every operation of every container, every point at which user code or an allocation in it fails, any number of failures, and every interleaving with other callers.",
  "A few panic tests exist for fixed call sites; allocation failure and panics in the middle of a resize or a split under concurrency are not tested.",
  ["src/exit_guard.rs", "src/hash_table.rs", "src/hash_table/bucket.rs", "src/hash_table/bucket_array.rs", "src/tree_index/leaf_node.rs", "src/tree_index/internal_node.rs", "src/tree_index/leaf.rs"],
  [("exit guards that undo on unwinding", "src/exit_guard.rs and its uses"), ("null checks in array allocation", "src/hash_table/bucket_array.rs new"), ("rollback of splits", "src/tree_index/leaf_node.rs, src/tree_index/internal_node.rs")],
  [], ["contents, drops, progress after the fault"], HOOK)
p("L01", "Lock-free reads finish even if every other thread stops",
  "HashIndex::peek, peek_with, contains and its guarded iterator, TreeIndex::peek, peek_with, peek_entry, contains and its scans, complete in a bounded number of their own steps even if all other threads are suspended indefinitely at arbitrary points, in the middle of an insertion, removal, resize, split or while holding an entry. They still return a correct result then.",
  ["schedules", "crash_points", "histories"],
  "For every reader operation, every container state and every set of points at which the other threads are frozen.",
  "A test cannot freeze real threads between two instructions of a critical section; a reader that waits for a lock only shows up as latency.",
  ["src/hash_table.rs", "src/hash_index.rs", "src/hash_table/bucket.rs", "src/tree_index.rs", "src/tree_index/leaf.rs", "src/tree_index/leaf_node.rs", "src/tree_index/internal_node.rs"],
  [("reads without locks", "src/hash_table.rs peek_entry, src/hash_index.rs Iter, src/tree_index/internal_node.rs search_entry, src/tree_index/leaf_node.rs search_entry")],
  [], ["step count of a reader that runs alone"], HOOK)
p("V01", "What is read was fully written: happens-before from writer to reader",
  "Everything done by the thread that inserted or updated an entry before doing so is visible to every thread that obtains the entry or learns of it through the container, by lock, by lock-free read or by iteration, as the memory model of the language defines it and not merely on strongly ordered processors. Exclusive accesses to one entry are likewise ordered one after another, and destruction of an entry after all accesses to it.",
  ["schedules", "histories", "configurations"],
  "For every pair of publishing and observing operations of each container, every interleaving, and every outcome the language's memory model allows for the orderings declared in the code.",
  "Tests run on x86-64 hardware, where most missing acquire or release orderings have no effect; loom models cover a few operations only.",
  ["src/hash_table.rs", "src/hash_table/bucket.rs", "src/hash_index.rs", "src/tree_index/leaf.rs", "src/tree_index/leaf_node.rs", "src/tree_index/internal_node.rs"],
  [("release publication of bitmaps, metadata and links with acquire reads", "src/hash_table/bucket.rs occupied_bitmap/removed_bitmap, src/tree_index/leaf.rs metadata and links"), ("lock acquire and release", "bucket and node locks")],
  [], ["race detector on user data driven by declared orderings; stale loads"], HOOK)
p("M01", "Aggregate views are exact at rest, and copies are equal and independent",
  "When no operation is in progress, len and is_empty of every container equal the number of entries left by the operations that completed, whatever concurrency preceded, and equality of two containers holds exactly if they contain the same entries. clone produces a container with the same entries, which shares nothing that later changes to either could reveal, and while other callers are active it contains every entry that exists throughout.",
  ["schedules", "histories", "inputs"],
  "For every container type, every concurrent history that led to the state, with or without an unfinished resize, and every interleaving.",
  "Tests compare counts after a few fixed workloads; counts after interrupted moves, evictions and concurrent structural changes are not compared with a model.",
  ["src/hash_table.rs", "src/hash_map.rs", "src/hash_index.rs", "src/hash_cache.rs", "src/hash_set.rs", "src/tree_index.rs"],
  [("per-bucket counts", "src/hash_table.rs num_entries/has_entry, src/hash_table/bucket.rs len"), ("Clone and PartialEq implementations", "src/hash_map.rs, src/hash_index.rs, src/hash_cache.rs, src/hash_set.rs, src/tree_index.rs")],
  [], ["len, is_empty, eq, clone"], HOOK)
p("S01", "Serialized containers round-trip, also while in use and when I/O fails",
  "Serializing a container records every entry that exists throughout the call with a value current at some moment of it and nothing that was never there, whatever other callers do meanwhile; at rest it records each entry exactly once and announces the right number (a HashCache: its maximum capacity). Deserializing any recorded form, with a right, wrong or absent size hint, yields a container with exactly its entries (a cache may evict some), equal to the original if that was at rest. An error of the serializer or of the input, at any element, is returned as that error, ends the conversion, and leaks or drops twice neither keys nor values.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "For every container type, content, state of an unfinished resize or structural change, concurrent history, serialization format, size hint, and failing element.",
  "Five small token-based tests exist; larger contents, conversions while others act, and errors in the middle are not covered.",
  ["src/serde.rs"],
  [("Serialize implementations over the container's iterators", "src/serde.rs serialize"), ("Visitors that fill a new container", "src/serde.rs visit_map/visit_seq")],
  [], ["sequence of serde calls, returned container or error"], HOOK)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
