#!/usr/bin/env python3
"""Readable source of properties.jsonl: run it to regenerate ../properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m} for n, m in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

NOFS = "No test runs the daemon, links anything under src/, or has a btrfs filesystem to run on; "

prop("C01", "User file content, size and attributes are never changed",
 "Whatever the daemon does to a filesystem, every byte of every user file reads back exactly as it did before, and each file's size, timestamps-relevant writes and inode flags are left alone: data blocks are only ever replaced through the kernel's compare-and-share operation. This holds on every file layout, for every mix of answers the kernel may give (shared, differs, partial, error), and when a user program rewrites the file at any moment during the scan, in which case exactly the user's writes survive.",
 ["inputs", "schedules", "fault_sequences"],
 "every arrangement of the data blocks, holes, preallocated, inline and compressed extents in a small filesystem, every kernel answer to a share request, and every point at which a concurrent writer may overwrite a block",
 NOFS + "so no layout, kernel answer or racing writer is ever exercised.",
 ["src/bees-context.cc", "src/bees-resolve.cc", "src/bees-types.cc", "src/bees.cc", "lib/fs.cc"],
 [("dedupe-only modification of user data", "src/bees-context.cc BeesContext::dedup"),
  ("compare before share", "lib/fs.cc btrfs_extent_same / BtrfsExtentSame::do_ioctl"),
  ("writes only to the private temporary file", "src/bees.cc BeesTempFile")],
 observe=["file contents before and after", "writes reaching user inodes"])

prop("C02", "Duplicate data is actually deduplicated",
 "When a complete pass over an unchanging filesystem has finished, with room in the hash table for every block and a kernel that grants every share request, no two data extents that existed when the pass began, are wholly referenced, checksummed and not all zero still hold the same content while both are referenced by user files. An extent all of whose data was already stored in extents scanned before it and still in use is replaced at every reference, so that the space it occupied is really freed.",
 ["inputs", "configurations"],
 "every small filesystem built from an alphabet of extents and references (duplicate, partially duplicate, shared, reflinked, compressed, snapshotted), under each scan mode",
 NOFS + "the matching, resolving and replacing code has no test at all.",
 ["src/bees-context.cc", "src/bees-resolve.cc", "src/bees-roots.cc", "src/bees-hash.cc"],
 [("extent scan and dedupe decision", "src/bees-context.cc BeesContext::scan_one_extent"),
  ("replacing every reference", "src/bees-resolve.cc BeesResolver::replace_dst, find_all_matches")],
 observe=["set of extents referenced by user files after a pass"])

prop("C03", "A scan never increases the space used by user files",
 "At the end of every scanned extent and of every pass, the data space referenced by user files is no larger than it was before, where each extent larger than two blocks is referenced in one piece (an extent referenced in several pieces is decided upon piece by piece) and also when the kernel refuses to share with user files from any moment on: unique blocks of a partly duplicate extent are copied out only when the duplicate part that is freed outweighs the copy. Files whose data has no duplicate and no zero block keep exactly the extents they had.",
 ["inputs", "fault_sequences"],
 "every arrangement of unique, duplicate and zero blocks within the extents of a small filesystem, and every kernel answer to the share requests",
 NOFS + "space accounting is never observed.",
 ["src/bees-context.cc", "src/bees.cc"],
 [("cost/benefit rule before rewriting unique blocks", "src/bees-context.cc BeesContext::scan_one_extent"),
  ("copy to temporary file", "src/bees.cc BeesTempFile::make_copy")],
 observe=["bytes of distinct extents referenced by user files"])

prop("C04", "Zero-filled blocks become holes without changing what is read",
 "After a pass, an uncompressed or compressed data block consisting only of zero bytes that shares its extent with no unique data no longer occupies space, and reads as zeros as before. An extent that had to be rewritten contains no zero blocks afterwards; file size, the bytes around the block, and a zero tail that ends in the middle of a block are unaffected.",
 ["inputs"],
 "every pattern of zero, unique and duplicate blocks over extents of a few blocks, with and without a partial last block",
 NOFS + "hole punching by sharing with a sparse temporary file is never run.",
 ["src/bees-context.cc", "src/bees.cc", "src/bees-types.cc"],
 [("zero block detection", "src/bees-types.cc BeesBlockData::is_data_zero"),
  ("hole source", "src/bees.cc BeesTempFile::make_hole")],
 observe=["extent map and contents after a pass"])

prop("C05", "Stale, colliding or forged hash table entries are harmless",
 "Whatever the hash table file contains at startup, including entries for freed, reused, misaligned, out of range or toxic-marked blocks and entries whose hash collides with different data, the daemon starts, finishes its pass, never shares blocks with different content, and still deduplicates what a fresh table would let it deduplicate. An entry found not to match the data it names is removed from the table.",
 ["inputs", "histories"],
 "every choice of a forged entry out of a menu of stale, colliding, misaligned, out-of-range and toxic addresses for a block about to be looked up, alone and in pairs with a valid entry",
 NOFS + "a corrupt or stale table is never loaded.",
 ["src/bees-hash.cc", "src/bees-context.cc", "src/bees-resolve.cc", "src/bees-types.cc"],
 [("verification of each candidate", "src/bees-resolve.cc BeesResolver::chase_extent_ref"),
  ("removal of stale entries", "src/bees-context.cc scan_one_extent; src/bees-hash.cc erase_hash_addr")],
 observe=["share requests issued", "contents of the hash table file after shutdown"])

prop("C06", "The hash table is a bounded recency-ordered multimap of block addresses",
 "For every sequence of operations on the table: a lookup returns exactly the stored addresses of that hash that have not been removed or displaced, the same pair is never stored twice, a pair just stored or used is found at once, and a removal removes that pair and nothing else. Storing displaces another pair only when its bucket is full, and then only the last of the bucket; a used pair moves to the front, and new pairs may be placed anywhere in the bucket.",
 ["histories", "inputs"],
 "every operation sequence up to a bounded depth over hashes that collide in one bucket and neighbours that do not, from empty, part-full and full buckets, and every random placement",
 NOFS + "the table has no test.",
 ["src/bees-hash.cc"],
 [("lookup", "src/bees-hash.cc BeesHashTable::find_cell"),
  ("insert, promote and erase", "push_random_hash_addr, push_front_hash_addr, erase_hash_addr")],
 state=[("bucket", "256 cells of (hash, address) in recency order")],
 observe=["lookup results", "table file contents"])

prop("C07", "Hash table contents survive shutdown and crashes",
 "After an orderly shutdown the table file holds every change made to the table, including changes made while an earlier flush of the same region was being written. After a crash or write error at any point the next start loads the table, each region holding a state it had between its last completed flush and the crash, and a failed write is retried rather than forgotten.",
 ["crash_points", "schedules", "fault_sequences"],
 "every interleaving of table updates with the background flush and with shutdown, up to a preemption bound, every write error position and every crash point in the write sequence",
 NOFS + "the writeback thread never runs in a test.",
 ["src/bees-hash.cc", "src/bees-context.cc"],
 [("dirty tracking and flush", "src/bees-hash.cc flush_dirty_extent, set_extent_dirty_locked, writeback_loop"),
  ("final flush", "src/bees-hash.cc stop_wait")],
 state=[("dirty flag", "region of the table differs from the file")],
 observe=["bytes of the table file"])

prop("C08", "The saved scan position is replaced atomically and reloads as written",
 "At every crash point the scan position file on disk is either the complete previous version or the complete new one, never missing, mixed or truncated, once a first version has been saved. Loading a saved file restores every position that was saved, and a file of a prior version or with damaged or unknown lines never prevents startup.",
 ["crash_points", "inputs", "fault_sequences"],
 "every crash point and every subset of unsynced data lost in the save sequence, every I/O error position, and every small set of positions or damaged line",
 NOFS + "no test saves or loads scan positions or injects a crash.",
 ["src/bees.cc", "src/bees-roots.cc"],
 [("write temporary, sync, rename", "src/bees.cc BeesStringFile::write"),
  ("serialise and parse", "src/bees-roots.cc state_to_stream, state_load")],
 observe=["directory contents after a simulated crash", "positions after a restart"])

prop("C09", "A restart never skips data that had not been scanned",
 "If the daemon stops or crashes at any moment and is started again on the saved files, every extent that existed before the stop is eventually scanned: a position is never recorded as done while work before it is still queued, running, deferred because another task held the extent, or failed to start. Duplicates present before the interruption are therefore still removed after it.",
 ["crash_points", "schedules", "histories"],
 "every crash or shutdown point in the history of a pass over a small filesystem, and every worker interleaving up to a preemption bound, followed by a restart",
 NOFS + "checkpointing is only meaningful with the whole daemon running.",
 ["src/bees-roots.cc", "include/crucible/progress.h"],
 [("position of the oldest unfinished item", "include/crucible/progress.h ProgressTracker"),
  ("position recorded per scan", "src/bees-roots.cc BeesCrawl::get_state_begin, hold_state")],
 observe=["extents scanned in the first and second run"])

prop("C10", "Scan progress is saved periodically and at shutdown",
 "While a scan is under way its progress reaches the saved scan position file at the regular save interval and always at an orderly shutdown, so that a restart resumes at the work not yet finished instead of repeating the whole pass. Whole extents (in the default scan mode) and whole files (in the other modes) finished before the last save are not read again after a restart.",
 ["schedules", "histories"],
 "every point of a pass over a small filesystem at which the termination request may arrive, under each scan mode",
 NOFS + "so saving during a pass is never observed.",
 ["src/bees-roots.cc", "src/bees-context.cc"],
 [("dirty marking and periodic save", "src/bees-roots.cc crawl_state_set_dirty, state_save, writeback_thread"),
  ("save on stop", "src/bees-roots.cc BeesRoots::stop_wait")],
 observe=["contents of the scan position file", "extents scanned after a restart"])

prop("C11", "The default scan visits every data extent once, in its size class",
 "With the default scan mode every data extent created in the pass's transaction range is scanned through at least one of its references, whatever its size, position, number of references or the order extents were allocated; each is handled by exactly one size class. Extents that are metadata, older than the range, or only referenced from unreadable files do not stop the others from being visited.",
 ["inputs", "histories"],
 "every small set of extents over sizes at and around the class boundaries, generations, block groups, gaps and reference layouts",
 NOFS + "the extent tree walk has no test.",
 ["src/bees-roots.cc", "lib/btrfs-tree.cc"],
 [("extent walk per size class", "src/bees-roots.cc BeesScanModeExtent::SizeTier::find_next_extent"),
  ("references of an extent", "create_extent_map")],
 observe=["extents scanned in a pass"])

prop("C12", "Every subvolume scan mode visits every file extent in range",
 "With each of the per-subvolume scan modes every data extent item created in the pass's transaction range, in every readable subvolume and snapshot, is scanned, whatever the number and order of files, extents, holes and other items in between. An extent that could not be scanned at once because another worker held it is scanned later in the same pass.",
 ["inputs", "schedules"],
 "every small set of subvolumes, files and extents, with every inode and offset gap pattern, under each mode and with one or two workers",
 NOFS + "none of the scan modes is run by a test.",
 ["src/bees-roots.cc"],
 [("per-subvolume crawl", "src/bees-roots.cc BeesCrawl::fetch_extents, BeesFileCrawl::scan_one_ref"),
  ("mode policy", "BeesScanModeLockstep, Independent, Sequential, Recent")],
 observe=["extents scanned in a pass"])

prop("C13", "Data written or snapshotted during a pass is found by a later pass",
 "Successive passes cover every transaction without a gap: data committed at any moment, including during a running pass, in a new file, subvolume or snapshot, is scanned in that pass or a following one, and the daemon notices new transactions without a restart. Deleted subvolumes drop out of the scan and do not stall it.",
 ["histories", "schedules"],
 "every short history of writes, snapshot creations and deletions placed at every transaction boundary during and between passes",
 NOFS + "passes and transaction ranges never occur in a test.",
 ["src/bees-roots.cc"],
 [("next pass transaction range", "src/bees-roots.cc BeesCrawl::restart_crawl_unlocked, next_transid"),
  ("new and deleted subvolumes", "insert_new_crawl, crawl_state_erase"),
  ("transaction polling", "crawl_thread, transid_max")],
 observe=["extents scanned over several passes", "saved positions"])

prop("C14", "Every scheduled task runs; never lost, never twice at the same time",
 "A task that is scheduled runs to completion at least once after that request; a request made while the task is already running leads to exactly one further run after it, and requests made while it is already waiting are merged. The same task never executes on two threads at once, and tasks queued normally start in the order queued, with idle-priority tasks only when nothing else is waiting.",
 ["schedules"],
 "every interleaving up to a preemption bound of several threads scheduling, re-scheduling and appending a few tasks on one to three workers",
 "The task test runs a handful of schedules chosen by the operating system; lost requests and double runs need specific interleavings.",
 ["lib/task.cc", "include/crucible/task.h"],
 [("run, re-run and queue state", "lib/task.cc TaskState::run, exec, push_back"),
  ("worker loop", "TaskConsumer::consumer_thread")],
 state=[("run_now / run_again / running", "request state of a task")],
 observe=["start and end of each task run"])

prop("C15", "Worker pool limits, pause, resume and cancel never strand queued work",
 "Never more tasks run at once than the configured number of threads, raising or lowering the number or pausing and resuming takes effect without losing a queued task, and queued work always has a worker as long as at least one thread is allowed and the pool is not paused. After cancellation no further task starts, every queued task is released, and no thread deadlocks, even when tasks go on requesting more runs. A daemon told to pause by SIGUSR1 soon reads and shares nothing more, and told to go on by SIGUSR2 finishes what there is to do.",
 ["schedules", "histories"],
 "every interleaving up to a preemption bound of pool control calls with task submission and worker exit, and every load average history over a small alphabet",
 "The task test changes the thread count only at quiet moments and never pauses or cancels under load.",
 ["lib/task.cc"],
 [("worker start and exit", "lib/task.cc TaskMasterState::start_threads_nolock, consumer_thread"),
  ("load tracking", "calculate_thread_count_nolock"),
  ("cancel", "TaskMasterState::cancel")],
 observe=["number of concurrently running tasks", "tasks run after each control call"])

prop("C16", "Exclusion locks are exclusive and every waiting task gets to run",
 "At most one task at a time holds an exclusion lock, and a task that fails to get it runs again once the holder lets go, so that when the pool is idle no task is left waiting for a lock nobody holds. The same holds when the holder releases early, re-queues itself or is destroyed, and the per-extent locks built on it keep two workers from scanning one extent at the same time.",
 ["schedules"],
 "every interleaving up to a preemption bound of two or three tasks competing for one or two locks with early release and re-run",
 "The task test has one schedule per lock pattern as the operating system happens to run it.",
 ["lib/task.cc", "include/crucible/task.h", "src/bees-context.cc"],
 [("try-lock with deferred run", "lib/task.cc Exclusion::try_lock, Task::append"),
  ("extent lock", "src/bees-context.cc BeesContext::scan_forward")],
 observe=["overlap of critical sections", "task runs at quiescence"])

prop("C17", "A barrier releases its waiting tasks exactly when the last holder is gone",
 "Tasks waiting on a barrier do not run while any holder still holds it, and each of them is scheduled exactly once when the last holder releases it, whether by explicit release or by being destroyed, on any thread. A task added after that point is scheduled at once or with the next release, never lost.",
 ["schedules"],
 "every interleaving up to a preemption bound of adding waiters, copying holders and releasing them on two or three threads",
 "The task test uses one barrier pattern under whatever schedule occurs.",
 ["lib/task.cc", "include/crucible/task.h"],
 [("barrier release", "lib/task.cc BarrierState::release, insert_task")],
 observe=["task runs relative to holder release"])

prop("C18", "Progress tracking never reports unfinished work as complete",
 "For every sequence and interleaving of starting and finishing items, the reported begin position is never beyond the earliest item still held and never moves past an unfinished one, and once everything has finished it equals the furthest item started. The end position always reports the furthest item started.",
 ["histories", "schedules"],
 "every sequence of hold and release operations over a few positions in any order, and every interleaving of two or three threads doing so",
 "The progress test uses a single order of a few operations in one thread.",
 ["include/crucible/progress.h"],
 [("ordered set of in-progress items", "include/crucible/progress.h ProgressTracker")],
 observe=["begin() and end() after each step"])

prop("C19", "Caches return the right value, compute it once and stay within bounds",
 "A cache lookup returns the value computed for exactly those arguments, concurrent lookups of a missing key compute it once, and a failed computation is not remembered and does not block later lookups. The size stays within the configured bound by dropping the least recently used entries, and removing, pruning or clearing affects exactly the entries it names.",
 ["histories", "schedules"],
 "every operation sequence to a bounded depth over three keys and small bounds against a reference model, and every interleaving of two or three threads up to a preemption bound",
 "No test instantiates the cache.",
 ["include/crucible/cache.h"],
 [("lookup with in-flight computation", "include/crucible/cache.h LRUCache::operator()"),
  ("recency list", "recent_use, check_overflow")],
 observe=["values returned, computations made, entries left"])

prop("C20", "Shared handles and pooled objects are unique while in use and freed once",
 "All users asking for the same name or descriptor while it is in use get the same object, a descriptor is closed exactly once and only after its last user is gone, and it is never handed out again after it was closed. An object checked out of a pool is used by one owner only, is cleaned before reuse, and every object is destroyed exactly once.",
 ["schedules", "histories"],
 "every interleaving up to a preemption bound of two or three threads acquiring, copying and dropping handles to the same or different keys",
 "Tests construct and drop handles in a single thread.",
 ["include/crucible/namedptr.h", "include/crucible/resource.h", "include/crucible/pool.h", "include/crucible/fd.h"],
 [("named pointer map", "include/crucible/namedptr.h NamedPtr"),
  ("resource handle", "include/crucible/resource.h ResourceHandle"),
  ("pool", "include/crucible/pool.h Pool")],
 observe=["object identity per user", "construction, close and destruction counts"])

prop("C21", "Lock sets and operation-type locks exclude exactly what they should",
 "Two owners never hold the same item of a lock set at once, no more items are held than its limit allows, and operations of different types under the shared operation lock never overlap while operations of the same type may. Every waiter proceeds once what blocks it is released, with no deadlock and no lost wakeup.",
 ["schedules"],
 "every interleaving up to a preemption bound of two to four threads locking, trying and unlocking over a few items, types and limits",
 "No test covers either lock type.",
 ["include/crucible/lockset.h", "lib/multilock.cc", "include/crucible/multilock.h", "src/bees-context.cc"],
 [("lock set wait and notify", "include/crucible/lockset.h LockSet"),
  ("one operation type at a time", "lib/multilock.cc MultiLocker")],
 observe=["overlap of critical sections", "blocked threads at quiescence"])

prop("C22", "Metadata tree queries return the same answer as a full ordered listing",
 "For every tree content and every query position, the at, next, previous, lower-bound and reverse-lower-bound queries return exactly the item an ordered listing of the matching items of that tree would give, or none, without missing items that lie beyond a kernel result page, between items of other types, or at the extremes of the key space. The same holds for items older than the requested transaction, which are ignored only where that is asked for.",
 ["inputs"],
 "every small tree content over keys adjacent in each key component, every query kind and position, and every result page size the kernel may return",
 "Tree queries need a btrfs ioctl and are not tested.",
 ["lib/btrfs-tree.cc", "lib/fs.cc", "include/crucible/btrfs-tree.h"],
 [("tree fetcher queries", "lib/btrfs-tree.cc BtrfsTreeFetcher"),
  ("key iteration", "lib/fs.cc BtrfsIoctlSearchKey::next_min")],
 observe=["items returned"])

prop("C23", "Backward seeking finds the last item before a position",
 "For every sorted set of positions, every target and every forward fetch behaviour, the backward search returns the greatest position that exists at or before the target, or the documented not-found answer, using a bounded number of fetches. The result does not depend on how many items one fetch returns or on remembered step sizes.",
 ["inputs"],
 "every subset of a small position space, every target, page size and starting step",
 "The seeker test samples a few vectors, one page size and one step.",
 ["include/crucible/seeker.h", "lib/seeker.cc"],
 [("backward search", "include/crucible/seeker.h seek_backward")],
 observe=["returned position", "number of fetches"])

prop("C24", "Extent enumeration tiles a file exactly",
 "Walking a file's extents, forward, backward or from any starting offset, yields consecutive ranges that cover the file without gap or overlap, each with the right physical address, offset, length and hole, preallocated, compressed and last flags, for every layout including one whose metadata changes are larger than one kernel result page. The same extent is reported from whatever direction it is reached.",
 ["inputs"],
 "every layout of data, compressed, preallocated, inline and hole segments over a few blocks, every starting offset and walk direction, and every kernel page size",
 "No test covers the walker, which needs a btrfs filesystem.",
 ["lib/extentwalker.cc", "include/crucible/extentwalker.h"],
 [("extent map from tree or fiemap", "lib/extentwalker.cc BtrfsExtentWalker::get_extent_map, ExtentWalker::run_fiemap"),
  ("cursor", "ExtentWalker::seek, next, prev")],
 observe=["extents yielded"])

prop("C25", "Block addresses identify one block and survive storage",
 "For every file layout, two blocks have equal addresses exactly when they are the same block of the same stored extent, special kinds (hole, zero, unaligned, delayed, unusable) are told apart from data, and an address stored in the hash table and read back resolves to data with the content it was stored for. Marking an address toxic changes no other property of it.",
 ["inputs"],
 "every extent kind, compression, flag combination and offset within small layouts",
 NOFS + "address encoding is never tested.",
 ["src/bees-types.cc"],
 [("address encoding", "src/bees-types.cc BeesAddress")],
 observe=["address equality, ordering and decoded fields"])

prop("C26", "Extending a match covers only equal, non-overlapping, aligned data",
 "Whenever two equal blocks are extended into a longer match, both sides have the same length, stay inside their files, do not overlap each other in the same file, hold identical data throughout, and never stop being block aligned except at the end of both files. The extension never loses the block it started from, and takes in no source block whose hash is toxic, none that is a stored block of zeros outside a compressed extent, and none that is already shared with its counterpart; inside the extent being deduplicated it stops for no other reason.",
 ["inputs"],
 "every pair of block strings over a small alphabet, every starting pair, both in one file and in two, with and without holes, size limits and partial tails",
 NOFS + "match growth is never tested.",
 ["src/bees-types.cc"],
 [("match growth", "src/bees-types.cc BeesRangePair::grow")],
 observe=["share requests issued"])

prop("C27", "Only the intended file beneath the filesystem root is ever opened",
 "A file opened for a given subvolume and inode is that inode of that subvolume on that filesystem, opened read-only without following links out of the root, even when names are renamed, replaced, deleted or turned into links or mount points at any moment during the lookup. Symbolic links and no-copy-on-write files are refused, and a lookup that fails leaks no descriptor.",
 ["schedules", "fault_sequences", "inputs"],
 "every point in the lookup at which another program renames or replaces a path component, every kind of replacement, and every lookup step that fails",
 NOFS + "path races are never exercised.",
 ["src/bees-roots.cc", "lib/fd.cc", "lib/openat2.cc"],
 [("open by inode with verification", "src/bees-roots.cc BeesRoots::open_root_ino_nocache, open_root_nocache")],
 observe=["identity of each descriptor used for reading or sharing"])

prop("C28", "Temporary files are private, empty of stale data and cleaned up",
 "Data the daemon copies goes only to nameless temporary files that are excluded from scanning and from being picked as a dedupe source by hash lookup, each used by one worker at a time; a copy holds exactly the source data at the time it is shared, and errors while copying leave no half-made copy to be used. Temporary space is bounded and released.",
 ["schedules", "fault_sequences", "histories"],
 "every sequence of copies, holes and resets up to a depth, every I/O error position within them, and two workers up to a preemption bound",
 NOFS + "temporary files are never created in a test.",
 ["src/bees.cc", "src/bees-context.cc", "include/crucible/pool.h"],
 [("temporary file", "src/bees.cc BeesTempFile"),
  ("blacklist", "src/bees-roots.cc insert_tmpfile, erase_tmpfile")],
 observe=["operations on temporary files", "sources of share requests"])

prop("C29", "Read-only subvolumes are left alone and running sends are waited for",
 "With the send workaround enabled no share request ever names a file of a read-only subvolume as its target and such subvolumes are not scanned by the per-subvolume scan modes, while writable subvolumes are still fully processed. A subvolume that changes between read-only and writable is treated by its state at the time, at the latest from the next pass on. With or without the workaround, a share request that is refused because a send of its target is in progress is repeated in later transactions, not more often, until the send has ended.",
 ["configurations", "histories", "inputs"],
 "every assignment of read-only flags to the subvolumes of a small filesystem, every scan mode, and every flag flip during or between passes",
 NOFS + "the workaround is never exercised.",
 ["src/bees-roots.cc", "src/bees-context.cc", "src/bees-resolve.cc"],
 [("read-only check", "src/bees-roots.cc is_root_ro"),
  ("skip on scan and dedupe", "BeesContext::dedup, scan modes")],
 observe=["share requests and scanned extents per subvolume"])

prop("C30", "Extents that are slow to resolve are remembered and then avoided",
 "When looking up the references of a block named by the hash table takes more of the kernel's processor time than the limit (time spent waiting does not count), that block address is recorded as toxic, and while it is so recorded that address is not resolved or used in a match again, other data still being processed normally. The records are forgotten when the table is next loaded, and an extent with the maximum number of references gets no more of them.",
 ["inputs", "histories", "fault_sequences"],
 "every choice of which reference lookups are slow or overflow, over a small filesystem and restart histories",
 NOFS + "kernel timing is never simulated.",
 ["src/bees-context.cc", "src/bees-hash.cc", "src/bees-resolve.cc"],
 [("toxic detection", "src/bees-context.cc resolve_addr_uncached"),
  ("toxic marking and clearing", "src/bees-context.cc scan_one_extent; src/bees-hash.cc fetch_missing_extent_by_index")],
 observe=["reference lookups issued", "table file contents"])

prop("C31", "A termination request always ends the daemon cleanly",
 "Whatever the daemon is doing when it is asked to terminate, it ends with a success status in bounded time, having saved the scan position first and then flushed the hash table, without deadlock, crash, or work being started after shutdown began. A second request or errors while saving do not prevent it from ending.",
 ["schedules", "fault_sequences"],
 "every point in the daemon's execution at which the signal may arrive, every preemption up to a bound in the shutdown phase, and every I/O error in the save and flush steps",
 NOFS + "shutdown is never run.",
 ["src/bees-context.cc", "src/bees.cc", "src/bees-roots.cc", "src/bees-hash.cc", "lib/task.cc"],
 [("stop sequence", "src/bees-context.cc BeesContext::stop"),
  ("signal wait", "src/bees.cc bees_main")],
 observe=["exit status, order of file writes"])

prop("C32", "Rate limits and time estimates never stall and never exceed the rate",
 "A rate-limited caller is never let through faster than the configured rate beyond the permitted burst and never sleeps longer than needed, and an event estimator wakes every waiter when its target count is reached and predicts from the observed rate, under every order of updates and clock advances. Work-time throttling never delays one operation by more than its documented maximum.",
 ["histories", "schedules"],
 "every sequence of borrows, updates, resets and clock advances up to a bounded depth, and every interleaving of waiters and updaters up to a preemption bound",
 "No test covers the limiter or estimator, and none controls the clock.",
 ["lib/time.cc", "src/bees.cc"],
 [("token accounting", "lib/time.cc RateLimiter"),
  ("estimator", "lib/time.cc RateEstimator"),
  ("throttle", "src/bees.cc bees_throttle")],
 observe=["sleep durations", "waiter wakeups"])

prop("C33", "Complete-or-fail I/O helpers handle partial transfers and interruptions",
 "The read and write helpers that promise complete transfers return success only when every byte requested was transferred to or from the right place, for every way the kernel may split, interrupt or end the transfer, and report an error otherwise. Reading up to end of file returns exactly the bytes present.",
 ["fault_sequences", "inputs"],
 "every sequence of short transfers, interruptions, end of file and errors over small requests",
 "The fd test reads and writes whole files on a real filesystem, which never splits a transfer.",
 ["lib/fd.cc", "include/crucible/fd.h"],
 [("full and partial transfers", "lib/fd.cc read_or_die, write_or_die, read_partial_or_die, pread_or_die, pwrite_or_die, read_string")],
 observe=["bytes and error reported versus transferred"])

prop("C34", "Byte buffers and views never reach outside their bounds",
 "Every slice, element access, erase and comparison on a byte buffer behaves as on an ordinary array of bytes: a slice shares the bytes of its parent, requests outside the bounds are refused with an error and change nothing, and no operation reads or writes outside the storage. Views obtained earlier stay valid while they are in use.",
 ["histories", "inputs"],
 "every operation sequence up to a bounded depth over buffers of a few bytes with every offset and length at and around the bounds",
 "No test covers the buffer type.",
 ["lib/bytevector.cc", "include/crucible/bytevector.h"],
 [("slices and bounds checks", "lib/bytevector.cc ByteVector")],
 observe=["contents against a reference array, memory errors"])

prop("C35", "One failing operation never stops the rest of the scan",
 "If any single system call, ioctl, open, read or share request fails with any error, or a file vanishes or shrinks at any moment, the daemon neither crashes nor hangs, keeps processing all other files, and leaks no descriptor or lock; what was skipped is only what the failing operation concerned. Failures at startup that make work impossible are reported with a failure status.",
 ["fault_sequences"],
 "every single fault (and pairs in the thorough tier) at every system call of a pass over a small filesystem, for each plausible error",
 NOFS + "no test injects a kernel error into the daemon.",
 ["src/bees-context.cc", "src/bees-roots.cc", "src/bees-trace.cc", "src/bees-thread.cc", "lib/fs.cc"],
 [("exception containment", "lib/error.cc catch_all; src/bees-trace.cc"),
  ("error handling per item", "src/bees-roots.cc, src/bees-context.cc")],
 observe=["process outcome, dedupe result of unaffected files, open descriptors"])

prop("C36", "Nothing that threads share is touched without being ordered",
 "Whenever two threads of the process touch the same memory and at least one of them writes it, a lock, an atomic operation, or the creation or joining of a thread orders the two accesses, on every schedule. Decisions and tables computed once for everyone are complete before any thread uses them, and stopping waits for every thread that was started, including one started while the stop is under way.",
 ["schedules"],
 "every schedule of the library and daemon scenarios within a bound on preemptions, with every access to memory watched; the explored programs cover task control, locks, caches, handles, progress, rate limits, the hash table and its background threads, scanning with several workers, saving, and stopping",
 "The tests run under one schedule of the operating system and nothing watches memory accesses.",
 ["lib/task.cc", "lib/crc64.cc", "lib/fs.cc", "lib/multilock.cc", "lib/time.cc", "src/bees.cc", "src/bees-hash.cc", "src/bees-roots.cc", "src/bees-context.cc", "src/bees-thread.cc", "include/crucible/lockset.h", "include/crucible/cache.h", "include/crucible/progress.h", "include/crucible/pool.h", "include/crucible/namedptr.h"],
 [("scheduler state", "lib/task.cc TaskMasterState, TaskState, ExclusionState, BarrierState"),
  ("hash table flags, buckets and metadata", "src/bees-hash.cc BeesHashTable"),
  ("crawl state", "src/bees-roots.cc BeesRoots, BeesCrawl, scan modes"),
  ("stop order", "src/bees-roots.cc BeesRoots::stop_wait; src/bees-context.cc BeesContext::stop"),
  ("values computed once", "lib/crc64.cc, lib/fs.cc LOGICAL_INO version, src/bees.cc bees_fsync, BEESLOGONCE")],
 observe=["pairs of accesses without an order between them"])

prop("C37", "A dedupe request merges its whole range or says that it did not",
 "A request to share one range of a file with another is reported as done only when the kernel has merged every byte of the range, each byte at the destination that corresponds to its source; it is reported as different data exactly when the kernel found different data, and as an error in every other case. Whatever part of a request the kernel does at a time, the pieces requested stay within the range, are requested once, and the request ends.",
 ["fault_sequences", "inputs"],
 "every sequence of full, shorter, refused, interrupted and failed answers over ranges of a few blocks",
 "No test issues a dedupe request; the pieces a kernel does at a time depend on its version.",
 ["lib/fs.cc", "include/crucible/fs.h"],
 [("request loop", "lib/fs.cc btrfs_extent_same"), ("request encoding", "lib/fs.cc BtrfsExtentSame::do_ioctl")],
 observe=["ranges requested, result reported versus bytes merged"])


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
