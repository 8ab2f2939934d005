From bfa0c4d665aab391fe38b589bee3f18d6f45eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 01/35] fix: don't deadlock when scheduling tasks after the
 queue is cancelled

After TaskMaster::cancel(), scheduling a Task called TaskState::clear() on
a TaskState whose mutex was already held by TaskState::run(), idle() or
exec(), and destroyed Tasks (hence arbitrary closures, which may schedule
other Tasks) with the TaskMasterState mutex held.  Release the locks first.
---
 lib/task.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lib/task.cc b/lib/task.cc
index 2507285..89ba910 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -385,11 +385,12 @@ namespace crucible {
 		swap(this_task, tl_current_task);
 		m_is_running = false;
 
+		bool requeue_idle = false;
 		if (m_run_again) {
 			m_run_again = false;
 			if (m_idle) {
 				// All the way back to the end of the line
-				TaskMasterState::push_back_idle(shared_from_this());
+				requeue_idle = true;
 			} else {
 				// Insert after any dependents waiting for this Task
 				m_post_exec_queue.push_back(shared_from_this());
@@ -399,6 +400,12 @@ namespace crucible {
 		// Splice task post_exec queue at front of local queue
 		TaskState::rescue_queue(m_post_exec_queue, m_sort_queue);
 		m_sort_queue = false;
+
+		if (requeue_idle) {
+			// If the queue has been cancelled, push_back_idle will lock this TaskState
+			lock.unlock();
+			TaskMasterState::push_back_idle(shared_from_this());
+		}
 	}
 
 	string
@@ -426,6 +433,8 @@ namespace crucible {
 		if (m_is_running) {
 			m_run_again = true;
 		} else {
+			// If the queue has been cancelled, push_back will lock this TaskState
+			lock.unlock();
 			TaskMasterState::push_back(shared_from_this());
 		}
 	}
@@ -442,6 +451,8 @@ namespace crucible {
 		if (m_is_running) {
 			m_run_again = true;
 		} else {
+			// If the queue has been cancelled, push_back_idle will lock this TaskState
+			lock.unlock();
 			TaskMasterState::push_back_idle(shared_from_this());
 		}
 	}
@@ -481,6 +492,9 @@ namespace crucible {
 		THROW_CHECK0(runtime_error, task);
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
+			// Destroying tasks may run arbitrary destructors,
+			// including ones that schedule other tasks
+			lock.unlock();
 			task->clear();
 			return;
 		}
@@ -495,6 +509,9 @@ namespace crucible {
 		THROW_CHECK0(runtime_error, task);
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
+			// Destroying tasks may run arbitrary destructors,
+			// including ones that schedule other tasks
+			lock.unlock();
 			task->clear();
 			return;
 		}
@@ -511,6 +528,7 @@ namespace crucible {
 		}
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
+			lock.unlock();
 			TaskState::clear_queue(queue);
 			return;
 		}
-- 
2.43.0


From c2302a4858b8ba561d24d37a004c39b1f0b92a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 02/35] fix: replace workers that exit after TaskMaster is
 unpaused or enlarged

A worker which has decided to exit (pause, or too many threads) still
counts in m_threads until it has erased itself.  If TaskMaster was unpaused
or its thread count raised in that interval, start_threads_nolock() saw
enough threads, and the queue was left with too few workers, or none, until
another Task was queued.
---
 lib/task.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/task.cc b/lib/task.cc
index 89ba910..1fcfd77 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -957,6 +957,11 @@ namespace crucible {
 		// Fun fact:  shared_from_this() isn't usable until the constructor returns...
 		master_copy->m_threads.erase(shared_from_this());
 		master_copy->m_condvar.notify_all();
+
+		// If TaskMaster was unpaused, or the thread count was raised,
+		// after we decided to exit but before we were erased from
+		// m_threads, nobody has started our replacement yet.
+		master_copy->start_threads_nolock();
 	}
 
 	TaskConsumer::TaskConsumer(const shared_ptr<TaskMasterState> &tms) :
-- 
2.43.0


From 7f5b78d41c7f3c5fa005100dabb2621fdd1e213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 03/35] fix: don't strand tasks that wait for each other's
 exclusion locks

When a Task fails to get an Exclusion, it is inserted after the Task which
owns it, together with its own post-exec queue.  If the owner had already
finished running, and was itself waiting in that post-exec queue, it was
moved to its own post-exec queue: both Tasks leaked and never ran again.
---
 lib/task.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/task.cc b/lib/task.cc
index 1fcfd77..05b4a84 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -348,7 +348,12 @@ namespace crucible {
 			// and request a sort of the flattened list.
 			m_sort_queue = true;
 			m_post_exec_queue.push_back(task);
-			m_post_exec_queue.splice(m_post_exec_queue.end(), task->m_post_exec_queue);
+			// If this task has already finished running, it might be
+			// waiting in task's post-exec queue.  It must stay there:
+			// if it was moved to its own queue, it would never run again.
+			if (m_is_running) {
+				m_post_exec_queue.splice(m_post_exec_queue.end(), task->m_post_exec_queue);
+			}
 		}
 		task->m_idle = false;
 	}
-- 
2.43.0


From fb313bc51e70d74b6e1b49a74f67efee47ea915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 04/35] fix: continue after a short read where it ended

read_partial_or_die stored every part of a split read at the start of the
buffer, and then reported success.
---
 lib/fd.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fd.cc b/lib/fd.cc
index dbbfb48..5b91d18 100644
--- a/lib/fd.cc
+++ b/lib/fd.cc
@@ -391,6 +391,7 @@ namespace crucible {
 			if (rv == 0) break;
 			size_read += rv;
 			size -= rv;
+			buf = static_cast<char *>(buf) + rv;
 			// CHATTER("read " << rv << " bytes from fd " << fd);
 		}
 	}
-- 
2.43.0


From 3c626ea98d3aebca59a6040d9a6015818ee9f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 05/35] fix: refuse ByteVector slices that end outside of the
 parent

The check compared start + length with m_size + length, which is always
true once start has been checked.
---
 lib/bytevector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index df2b430..25cc3ed 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -76,7 +76,7 @@ namespace crucible {
 	{
 		THROW_CHECK0(out_of_range, that.m_ptr);
 		THROW_CHECK2(out_of_range, start, that.m_size, start <= that.m_size);
-		THROW_CHECK2(out_of_range, start + length, that.m_size + length, start + length <= that.m_size + length);
+		THROW_CHECK3(out_of_range, start, length, that.m_size, length <= that.m_size - start);
 		m_ptr = Pointer(that.m_ptr, that.m_ptr.get() + start);
 		m_size = length;
 	}
-- 
2.43.0


From b82f732134a7bebc7449b01a92e6295d088c95b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 06/35] fix: refuse to erase beyond the end of a ByteVector

Erasing more than the buffer holds from its beginning wrapped the size.
---
 lib/bytevector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index 25cc3ed..3723312 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -156,6 +156,7 @@ namespace crucible {
 		THROW_CHECK0(out_of_range, m_ptr);
 		const iterator my_begin = m_ptr.get();
 		const iterator my_end = my_begin + m_size;
+		THROW_CHECK4(out_of_range, my_begin, begin, my_end, end, my_begin <= begin && begin <= end && end <= my_end);
 		THROW_CHECK4(out_of_range, my_begin, begin, my_end, end, my_begin == begin || my_end == end);
 		if (begin == my_begin) {
 			if (end == my_end) {
-- 
2.43.0


From 66e34700910714872e9de973522616abcd747050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 07/35] fix: don't hang when a ByteVector is compared with
 itself

---
 lib/bytevector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index 3723312..54f802b 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -129,6 +129,10 @@ namespace crucible {
 	bool
 	ByteVector::operator==(const ByteVector &that) const
 	{
+		// Don't try to lock the same mutex twice
+		if (&that == this) {
+			return true;
+		}
 		unique_lock<mutex> lock_this(m_mutex, defer_lock);
 		unique_lock<mutex> lock_that(that.m_mutex, defer_lock);
 		lock(lock_this, lock_that);
-- 
2.43.0


From fd8fb24e60ebe376b83393272cd361e441aeb2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 08/35] fix: don't read past the end of a ByteVector while
 refusing an erase

The exception text formatted the iterators as null-terminated strings.
---
 lib/bytevector.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index 54f802b..2d84a3a 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -160,8 +160,11 @@ namespace crucible {
 		THROW_CHECK0(out_of_range, m_ptr);
 		const iterator my_begin = m_ptr.get();
 		const iterator my_end = my_begin + m_size;
-		THROW_CHECK4(out_of_range, my_begin, begin, my_end, end, my_begin <= begin && begin <= end && end <= my_end);
-		THROW_CHECK4(out_of_range, my_begin, begin, my_end, end, my_begin == begin || my_end == end);
+		// Don't put the iterators themselves in the error messages:
+		// they would be formatted as if they were null-terminated strings
+		const size_t start = begin - my_begin;
+		THROW_CHECK3(out_of_range, start, size, m_size, start <= m_size && size <= m_size - start);
+		THROW_CHECK3(out_of_range, start, size, m_size, my_begin == begin || my_end == end);
 		if (begin == my_begin) {
 			if (end == my_end) {
 				m_size = 0;
-- 
2.43.0


From d9128700603d0354ad26349668bd8eaa22ee56e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 09/35] fix: wake RateEstimator waiters even if the clock does
 not advance

An update made while the clock stood still or had been set back never woke
the threads waiting for the count it reached.
---
 lib/time.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/time.cc b/lib/time.cc
index 4f991e5..93ba63b 100644
--- a/lib/time.cc
+++ b/lib/time.cc
@@ -197,9 +197,10 @@ namespace crucible {
 		auto delta = max(0.0, m_last_update.lap());
 		m_num += increment;
 		m_den += delta;
+		const bool count_changed = m_last_count != new_count;
 		m_last_count = new_count;
-		// If count increased, wake up any waiters
-		if (delta > 0) {
+		// If count changed, wake up any waiters, even if the clock did not advance
+		if (count_changed) {
 			m_condvar.notify_all();
 		}
 	}
-- 
2.43.0


From f64be03050744222758ea9c8c7e7b42b8a6ebeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 10/35] fix: don't return uninitialized memory for btrfs items
 larger than 16K

---
 lib/fs.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index 356d803..95c19c9 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -771,6 +771,7 @@ namespace crucible {
 		size_t buf_size = max(m_buf_size, sizeof(btrfs_ioctl_search_args_v2) + sizeof(btrfs_ioctl_search_header));
 		ByteVector ioctl_arg;
 		btrfs_ioctl_search_args_v2 *ioctl_ptr;
+		bool overflow = false;
 		do {
 			// ioctl buffer size does not include search key header or buffer size
 			ioctl_arg = ByteVector(buf_size + sizeof(btrfs_ioctl_search_args_v2));
@@ -788,9 +789,10 @@ namespace crucible {
 				ioctl_ptr->key.nr_items = 0;
 				break;
 			}
-			if (rv != 0 && errno != EOVERFLOW) {
+			if (rv != 0 && (errno != EOVERFLOW || buf_size >= 65536)) {
 				return false;
 			}
+			overflow = rv != 0;
 			if (rv == 0 && nr_items <= ioctl_ptr->key.nr_items) {
 				// got all the items we wanted, thanks
 				m_buf_size = max(m_buf_size, buf_size);
@@ -808,12 +810,13 @@ namespace crucible {
 			} else {
 				buf_size *= 2;
 			}
-			// don't automatically raise the buf size higher than 64K, the largest possible btrfs item
+			// don't automatically raise the buf size higher than 64K, the largest possible btrfs item,
+			// and only go that far if there is no result at all without it
 			++s_loops;
 			if (ioctl_ptr->key.nr_items == 0) {
 				++s_loops_empty;
 			}
-		} while (buf_size < 65536);
+		} while (buf_size < 65536 || overflow);
 
 		// ioctl changes nr_items, this has to be copied back
 		static_cast<btrfs_ioctl_search_key&>(*this) = ioctl_ptr->key;
-- 
2.43.0


From 490395b361846190c0351dfda33cc4081bcd57f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 11/35] fix: BtrfsTreeFetcher::next wraps around at the last
 position

---
 lib/btrfs-tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/btrfs-tree.cc b/lib/btrfs-tree.cc
index 2e19a0d..29bc6c4 100644
--- a/lib/btrfs-tree.cc
+++ b/lib/btrfs-tree.cc
@@ -498,7 +498,7 @@ namespace crucible {
 	{
 		CRUCIBLE_BTRFS_TREE_DEBUG("next " << logical);
 		const auto scaled_logical = scale_logical(logical);
-		if (scaled_logical + 1 > scaled_max_logical()) {
+		if (scaled_logical >= scaled_max_logical()) {
 			return BtrfsTreeItem();
 		}
 		return lower_bound(unscale_logical(scaled_logical + 1));
-- 
2.43.0


From f7e8dc1c7e8fc5f9e74e0aa2e30ada15626cc40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 12/35] fix: get_sums finds nothing if the first checksum is
 inside the range

---
 lib/btrfs-tree.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/btrfs-tree.cc b/lib/btrfs-tree.cc
index 29bc6c4..74fb7d0 100644
--- a/lib/btrfs-tree.cc
+++ b/lib/btrfs-tree.cc
@@ -599,6 +599,10 @@ namespace crucible {
 	#endif
 		const uint64_t logical_end = logical + count * block_size();
 		BtrfsTreeItem bti = rlower_bound(logical);
+		if (!bti) {
+			// All the csums are above the start of the range
+			bti = lower_bound(logical);
+		}
 		size_t __attribute__((unused)) loops = 0;
 		BCTFGS_DEBUG("get_sums " << to_hex(logical) << ".." << to_hex(logical_end) << endl);
 		while (!!bti) {
-- 
2.43.0


From bb67326c618669598ee536205dda8baf34d8819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 13/35] fix: extent walker fails on the last file of a subvol
 if it ends in a hole

---
 lib/extentwalker.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index e1d47bc..6ec102d 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -518,7 +518,8 @@ namespace crucible {
 
 		Vec rv;
 
-		bool past_eof = false;
+		// If we didn't get as many items as we asked for, there is nothing else in this tree
+		bool past_eof = sk.m_result.size() < sc_extent_fetch_max;
 		for (auto i : sk.m_result) {
 			// If we're seeing extents from the next file then we're past EOF on this file
 			if (i.objectid > m_stat.st_ino) {
-- 
2.43.0


From 603204bb9258db85380f5d8d45e4801f9aabc530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 14/35] fix: ExtentWalker::prev fails if the cache starts
 inside of the previous extent

---
 lib/extentwalker.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index 6ec102d..a317d6f 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -453,10 +453,12 @@ namespace crucible {
 			return false;
 		}
 		THROW_CHECK1(invalid_argument, (prev_iter != m_extents.begin()), prev_iter != m_extents.begin());
-		--prev_iter;
-		EWTRACE("prev seeking to " << *prev_iter << "->m_begin");
+		// The first extent in the cache may begin with the rest of an extent that
+		// started before the cache, so seek to the end of the previous extent.
 		auto prev_end = current().m_begin;
-		seek(prev_iter->m_begin);
+		auto prev_pos = (prev_end - 1) & ~(FIEMAP_BLOCK_SIZE - 1);
+		EWTRACE("prev seeking to " << to_hex(prev_pos));
+		seek(prev_pos);
 		THROW_CHECK1(runtime_error, (m_current != m_extents.end()), m_current != m_extents.end());
 		THROW_CHECK2(runtime_error, current().m_end, prev_end, current().m_end == prev_end);
 		return true;
-- 
2.43.0


From ed1339e3bd8d7b538d48893b3e02081767f773d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 15/35] fix: test the block being added, not the start of the
 range, for zeros when extending a match forward

---
 src/bees-types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-types.cc b/src/bees-types.cc
index 665f20d..2f26a80 100644
--- a/src/bees-types.cc
+++ b/src/bees-types.cc
@@ -523,7 +523,7 @@ BeesRangePair::grow(shared_ptr<BeesContext> ctx, bool constrained)
 		}
 
 		// Source block cannot be zero in a non-compressed non-magic extent
-		BeesAddress first_addr(first.fd(), new_first.begin());
+		BeesAddress first_addr(first.fd(), first.end());
 		if (first_bbd.is_data_zero() && !first_addr.is_magic() && !first_addr.is_compressed()) {
 			BEESCOUNT(pairforward_zero);
 			break;
-- 
2.43.0


From 2ad73e95f0591cb14fe241beb1bc38c5b657f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 16/35] fix: check that an opened subvol is on the same
 filesystem when openat2 is not available

Without openat2 nothing prevents another filesystem from being mounted on the
path of a subvol, or a symlink leading there.  The subvol ID and inode are the
same on every btrfs with a subvol of that ID, so they do not tell the difference,
and files of the other filesystem would be opened and read.
---
 src/bees-roots.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index b3025d0..67bfae7 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -2109,6 +2109,13 @@ BeesRoots::open_root_nocache(uint64_t rootid)
 	THROW_CHECK2(runtime_error, new_root_id, rootid, new_root_id == rootid);
 	Stat st(rv);
 	THROW_CHECK1(runtime_error, st.st_ino, st.st_ino == BTRFS_FIRST_FREE_OBJECTID);
+
+	// Verify correct filesystem.  Subvol IDs are not unique across filesystems,
+	// and without openat2 another filesystem can be mounted anywhere in the path.
+	BtrfsIoctlFsInfoArgs top_info, new_info;
+	top_info.do_ioctl(m_ctx->root_fd());
+	new_info.do_ioctl(rv);
+	THROW_CHECK1(runtime_error, name, top_info.fsid() == new_info.fsid());
 	// BEESLOGDEBUG("open_root_nocache " << rootid << ": " << name_fd(rv));
 
 	BEESCOUNT(root_ok);
-- 
2.43.0


From 77115ed0cb9bb476ddd48b2909da5fe0f9dc6da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 17/35] fix: a temporary file whose setup fails is closed again

The constructor registered the file in the open file table before setting its
initial size.  If that failed the destructor never ran, and the registered
descriptor stayed open forever.
---
 src/bees.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bees.cc b/src/bees.cc
index 39f57ea..eaa42bb 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -565,6 +565,10 @@ BeesTempFile::BeesTempFile(shared_ptr<BeesContext> ctx) :
 	DIE_IF_MINUS_ONE(m_fd = openat(m_ctx->root_fd(), ".", FLAGS_OPEN_TMPFILE, S_IRUSR | S_IWUSR));
 	BEESCOUNT(tmp_create);
 
+	// Set initial size.  If this fails, the destructor will not run,
+	// so do it before anything that the destructor has to undo.
+	reset();
+
 	// Don't include this file in new extent scans
 	m_ctx->blacklist_insert(BeesFileId(m_fd));
 
@@ -573,9 +577,6 @@ BeesTempFile::BeesTempFile(shared_ptr<BeesContext> ctx) :
 
 	// Count time spent here
 	BEESCOUNTADD(tmp_create_ms, create_timer.age() * 1000);
-
-	// Set initial size
-	reset();
 }
 
 void
-- 
2.43.0


From 34e0500939332f35415c16863cbf61a7d06b0c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 18/35] fix: ignore malformed addresses in the hash table

Addresses with undefined bits or compressed blocks with no offset, e.g.
from a damaged hash table, threw exceptions in every scan of an extent
with a matching hash, so the extent was never deduped.
---
 src/bees-hash.cc  |  6 +++++-
 src/bees-types.cc | 14 ++++++++++++++
 src/bees.h        |  1 +
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 7581fe1..988085d 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -500,7 +500,11 @@ BeesHashTable::find_cell(HashType hash)
 	auto lock = lock_extent_by_hash(hash);
 	auto er = get_cell_range(hash);
 	// FIXME:  Weed out zero addresses in the table due to earlier bugs
-	copy_if(er.first, er.second, back_inserter(rv), [=](const Cell &ip) { return ip.e_hash == hash && ip.e_addr >= 0x1000; });
+	// Also weed out addresses that can't be used, because the exceptions they
+	// cause would prevent the extents that match them from being scanned
+	copy_if(er.first, er.second, back_inserter(rv), [=](const Cell &ip) {
+		return ip.e_hash == hash && ip.e_addr >= 0x1000 && BeesAddress(ip.e_addr).is_well_formed();
+	});
 	BEESCOUNT(hash_lookup);
 	return rv;
 }
diff --git a/src/bees-types.cc b/src/bees-types.cc
index 2f26a80..58d6cdd 100644
--- a/src/bees-types.cc
+++ b/src/bees-types.cc
@@ -782,6 +782,20 @@ BeesAddress::get_physical_or_zero() const
 	}
 }
 
+// Could this address have been constructed from an extent?
+// Addresses that were read from a file might not be.
+
+bool
+BeesAddress::is_well_formed() const
+{
+	// Magic values and extent data both exist
+	if (is_magic()) return true;
+	// Blocks are aligned, all the other bits have a meaning
+	if (m_addr & BLOCK_MASK_CLONE & ~c_all_mask) return false;
+	// Compressed blocks always have an offset, the others never do
+	return is_compressed() == !!(m_addr & c_offset_mask);
+}
+
 // A compressed block address is divided into two fields:
 // the beginning of the physical extent,
 // and the distance (in CLONE blocks) from the start of the extent to the current block.
diff --git a/src/bees.h b/src/bees.h
index 7c0cfca..80afbda 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -367,6 +367,7 @@ public:
 	bool is_toxic() const { return m_addr >= MagicValue::LAST && (m_addr & c_toxic_mask); }
 	bool is_unaligned_eof() const { return m_addr >= MagicValue::LAST && (m_addr & c_eof_mask); }
 	bool is_magic() const { return m_addr < MagicValue::LAST; }
+	bool is_well_formed() const;
 
 	Type get_compressed_offset() const;
 	Type get_physical_or_zero() const;
-- 
2.43.0


From 61ab2df386aa62b1e5f45354a9a83ee9f3d08edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 19/35] fix: forget cached extent references before rewriting
 the rest of an extent

If a stale hash table entry led to a lookup of the address of a compressed
extent that is partially deduped later, the references from before the
dedupe were used to replace the copied blocks, so the copies were not used.
---
 src/bees-context.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index e351ed0..0ee909a 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -810,6 +810,14 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 		}
 	}
 
+	// The refs to the extent have changed, so don't copy using refs that were
+	// cached before (e.g. after a stale hash table entry led to this extent)
+	if (!force_insert) {
+		for (const auto &i : invalidate_addr_list) {
+			m_ctx->invalidate_addr(i);
+		}
+	}
+
 	// Then the copy/rewrites
 	for (const auto &i : copy_list) {
 		if (!force_insert) {
-- 
2.43.0


From 8ae3d4d5ff01f9af391b3e560e660a341cde04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 20/35] fix: a hash table change made while its extent is being
 written stays dirty

---
 src/bees-hash.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 988085d..9facd1b 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -119,21 +119,28 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// Copy the extent because we might be stuck writing for a while
 		ByteVector extent_copy(dirty_extent, dirty_extent_end);
 
+		// Mark extent clean before releasing the lock, so that a change
+		// made while we are writing marks the extent dirty again
+		m_extent_metadata.at(extent_index).m_dirty = false;
+
 		// Release the lock
 		lock.unlock();
 
 		// Write the extent (or not)
-		pwrite_or_die(m_fd, extent_copy, dirty_extent_offset);
+		try {
+			pwrite_or_die(m_fd, extent_copy, dirty_extent_offset);
+		} catch (...) {
+			// Write was not successful, extent is still dirty
+			lock.lock();
+			m_extent_metadata.at(extent_index).m_dirty = true;
+			throw;
+		}
 		BEESCOUNT(hash_extent_out);
 
 		// Nope, this causes a _dramatic_ loss of performance.
 		// const size_t dirty_extent_size   = dirty_extent_end - dirty_extent;
 		// bees_unreadahead(m_fd, dirty_extent_offset, dirty_extent_size);
 
-		// Mark extent clean if write was successful
-		lock.lock();
-		m_extent_metadata.at(extent_index).m_dirty = false;
-
 		wrote_extent = true;
 	});
 
-- 
2.43.0


From 77937c407dcae2c2c7416311cb8cc8d9a025b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 21/35] fix: hold the position and transid range of an inode
 from when it is found until it is scanned

---
 src/bees-roots.cc | 30 ++++++++++++++++++------------
 src/bees.h        |  3 ++-
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 67bfae7..e7d56ed 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -174,13 +174,17 @@ BeesScanModeSubvol::get_crawl_map()
 bool
 BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 {
-	const auto this_state = this_crawl->get_state_end();
-	BEESNOTE("Crawling inode " << this_state);
-	BEESTRACE("Crawling inode " << this_state);
-	const auto this_range = this_crawl->pop_front();
+	BEESNOTE("Crawling inode " << this_crawl->get_state_end());
+	BEESTRACE("Crawling inode " << this_crawl->get_state_end());
+	// The crawl holds the position of each inode it finds.  Take over the hold so that
+	// the position does not advance past the inode until the inode has been scanned.
+	ProgressTracker<BeesCrawlState>::ProgressHolder this_hold;
+	const auto this_range = this_crawl->pop_front(this_hold);
 	if (!this_range) {
 		return false;
 	}
+	// Position and transid range where the inode was found
+	const auto this_state = this_hold->get();
 	const auto subvol = this_range.fid().root();
 	const auto inode = this_range.fid().ino();
 	bool run_the_task = false;
@@ -200,17 +204,12 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 		ostringstream oss;
 		oss << "crawl_" << subvol << "_" << inode;
 		const auto task_title = oss.str();
-		// this_state.m_objectid was advanced to inode+1 by peek_front()->fetch_extents().
-		// Fix: use the actual inode from this_range so BtrfsExtentDataFetcher finds
-		// the correct inode (exact-match search).
-		auto bfc_state = this_state;
-		bfc_state.m_objectid = inode;
 		const auto bfc = make_shared<BeesFileCrawl>((BeesFileCrawl) {
 			.m_ctx = m_ctx,
 			.m_crawl = this_crawl,
 			.m_roots = m_roots,
-			.m_hold = this_crawl->hold_state(this_state),
-			.m_state = bfc_state,
+			.m_hold = this_hold,
+			.m_state = this_state,
 			.m_offset = this_range.begin(),
 		});
 		BEESNOTE("Starting task " << this_range);
@@ -2479,6 +2478,11 @@ BeesCrawl::fetch_extents()
 		// Try to restart immediately if more transids are available.
 		return restart_crawl_unlocked();
 	}
+	// Hold the position of this inode until it has been scanned
+	auto this_state = old_state;
+	this_state.m_objectid = m_next_extent_data.objectid();
+	this_state.m_offset = 0;
+	m_next_hold = hold_state(this_state);
 	auto new_state = old_state;
 	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
 	new_state.m_offset = 0;
@@ -2523,12 +2527,14 @@ BeesCrawl::peek_front()
 }
 
 BeesFileRange
-BeesCrawl::pop_front()
+BeesCrawl::pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold)
 {
 	unique_lock<mutex> lock(m_mutex);
 	fetch_extents_harder();
 	BtrfsTreeItem rv;
 	swap(rv, m_next_extent_data);
+	hold = m_next_hold;
+	m_next_hold.reset();
 	return bti_to_bfr(rv);
 }
 
diff --git a/src/bees.h b/src/bees.h
index 80afbda..7da42b9 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -530,6 +530,7 @@ class BeesCrawl {
 
 	mutex					m_state_mutex;
 	ProgressTracker<BeesCrawlState>		m_state;
+	ProgressTracker<BeesCrawlState>::ProgressHolder m_next_hold;
 
 	BtrfsTreeObjectFetcher			m_btof;
 
@@ -541,7 +542,7 @@ class BeesCrawl {
 public:
 	BeesCrawl(shared_ptr<BeesContext> ctx, BeesCrawlState initial_state);
 	BeesFileRange peek_front();
-	BeesFileRange pop_front();
+	BeesFileRange pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold);
 	ProgressTracker<BeesCrawlState>::ProgressHolder hold_state(const BeesCrawlState &bcs);
 	BeesCrawlState get_state_begin();
 	BeesCrawlState get_state_end() const;
-- 
2.43.0


From a89ec3cc395b06676449acbfa116bb8148b0c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 22/35] fix: save scan positions that have advanced since the
 last save

---
 src/bees-roots.cc | 10 ++++++----
 src/bees.h        |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index e7d56ed..4b01595 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1516,14 +1516,15 @@ BeesRoots::state_save()
 	// We don't have ofstreamat or ofdstream in C++11, so we're building a string and writing it with raw syscalls.
 	ostringstream ofs;
 
-	if (m_crawl_clean == m_crawl_dirty) {
+	state_to_stream(ofs);
+	const auto crawl_saved = m_crawl_dirty;
+
+	// Positions also advance when a holder is destroyed, which does not mark the state dirty
+	if (m_crawl_clean == m_crawl_dirty && ofs.str() == m_crawl_state_saved) {
 		BEESLOGINFO("Nothing to save");
 		return;
 	}
 
-	state_to_stream(ofs);
-	const auto crawl_saved = m_crawl_dirty;
-
 	if (ofs.str().empty()) {
 		BEESLOGWARN("Crawl state empty!");
 		m_crawl_clean = crawl_saved;
@@ -1539,6 +1540,7 @@ BeesRoots::state_save()
 	lock.lock();
 	// This records the version of the crawl state we saved, which is not necessarily the current state
 	m_crawl_clean = crawl_saved;
+	m_crawl_state_saved = ofs.str();
 	BEESLOGINFO("Saved crawl state in " << save_time << "s");
 }
 
diff --git a/src/bees.h b/src/bees.h
index 7da42b9..a97c6aa 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -564,6 +564,7 @@ class BeesRoots : public enable_shared_from_this<BeesRoots> {
 	mutex					m_mutex;
 	uint64_t				m_crawl_dirty = 0;
 	uint64_t				m_crawl_clean = 0;
+	string					m_crawl_state_saved;
 	Timer					m_crawl_timer;
 	BeesThread				m_crawl_thread;
 	BeesThread				m_writeback_thread;
-- 
2.43.0


From bf45683c963074afa230e20f37b55ed6b3978e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 23/35] fix: flush the hash table after the last crawl state
 has been saved

BeesContext::stop asked the hash table to stop before it waited for the
crawl state writeback.  Tasks that were still running when the signal came
could finish between the last hash table flush and the last crawl state
save: their position was saved and their hash table entries were lost, so
their extents were never matched after the restart.  The comment in
BeesHashTable::writeback_loop already expects the order restored here.
---
 src/bees-context.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index 0ee909a..7cc6384 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -1187,6 +1187,15 @@ BeesContext::stop()
 		BEESLOGDEBUG("Crawlers not running");
 	}
 
+	// Wait for crawler writeback to finish
+	BEESNOTE("waiting for crawlers to stop");
+	BEESLOGDEBUG("Waiting for crawlers to stop");
+	if (m_roots) {
+		m_roots->stop_wait();
+	}
+
+	// The last crawl state includes Tasks that were still running after the stop request,
+	// so their hash table updates must be flushed after that state has been saved.
 	BEESNOTE("stopping and flushing hash table");
 	BEESLOGDEBUG("Stopping and flushing hash table");
 	if (m_hash_table) {
@@ -1195,13 +1204,6 @@ BeesContext::stop()
 		BEESLOGDEBUG("Hash table not running");
 	}
 
-	// Wait for crawler writeback to finish
-	BEESNOTE("waiting for crawlers to stop");
-	BEESLOGDEBUG("Waiting for crawlers to stop");
-	if (m_roots) {
-		m_roots->stop_wait();
-	}
-
 	// It is now no longer possible to update progress in $BEESHOME,
 	// so we can destroy Tasks with reckless abandon.
 	BEESNOTE("setting stop_request flag");
-- 
2.43.0


From 5e6fc6c51e783ddd1f29a95d0a43da08a616cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 24/35] fix: do not load a scan position whose transid range is
 reversed

A line of beescrawl.dat with min_transid greater than max_transid made
restart_crawl set a state that the progress tracker does not accept,
because it never moves backward, and the crawl_new task restarted the
same crawl forever.  Treat it like the other bad values checked here.
---
 src/bees-roots.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 4b01595..837bfaa 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1950,6 +1950,12 @@ BeesRoots::state_load()
 			loaded_state.m_max_transid = loaded_state.m_min_transid;
 			BEESCOUNT(bug_bad_max_transid);
 		}
+		if (loaded_state.m_min_transid > loaded_state.m_max_transid) {
+			// ProgressTracker never moves backward, so a crawl could not be restarted from here
+			BEESLOGWARN("WARNING: root " << loaded_state.m_root << ": bad min_transid " << loaded_state.m_min_transid << " > max_transid " << loaded_state.m_max_transid << ", resetting to 0");
+			loaded_state.m_min_transid = 0;
+			BEESCOUNT(bug_bad_min_transid);
+		}
 		insert_root(loaded_state);
 	}
 }
-- 
2.43.0


From fe4019f0fdca861e7705f4783a64b504cb8df16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 25/35] fix: scan a reference again when another worker has its
 extent

In the subvol scan modes the position in the file was advanced before the
reference was scanned.  When another worker held the extent, the file was
queued to be scanned again, but from the next reference on.
---
 src/bees-roots.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 837bfaa..84f5627 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1735,6 +1735,8 @@ BeesFileCrawl::scan_one_ref()
 					if (!scan_again) {
 						m_hold = new_holder;
 					} else {
+						// Another Task has the extent.  Come back to the same ref when it is done.
+						m_offset = bti.offset();
 						BEESCOUNT(crawl_again);
 					}
 				}
-- 
2.43.0


From 95b220ce4788ebead09b2903c492b59620618220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 26/35] fix: do not mistake new data at a reused address for
 data already scanned

The list of extent references that have been scanned is kept for the life of
the process, but the address of a freed extent is used again for other data.
Tell them apart by the generation of the extent.
---
 include/crucible/extentwalker.h | 2 ++
 lib/extentwalker.cc             | 3 +++
 src/bees-context.cc             | 6 ++++--
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/crucible/extentwalker.h b/include/crucible/extentwalker.h
index ed4c906..c911733 100644
--- a/include/crucible/extentwalker.h
+++ b/include/crucible/extentwalker.h
@@ -17,6 +17,7 @@ namespace crucible {
 		off_t		m_physical_len = 0;
 		off_t		m_logical_len = 0;
 		off_t		m_offset = 0;
+		uint64_t	m_generation = 0;
 
 		// fiemap flags are uint32_t, so bits 32..63 are OK for us
 
@@ -38,6 +39,7 @@ namespace crucible {
 		off_t physical_len() const { return m_physical_len; }
 		off_t logical_len() const { return m_logical_len; }
 		off_t offset() const { return m_offset; }
+		uint64_t generation() const { return m_generation; }
 		bool compressed() const;
 		uint64_t bytenr() const;
 		bool operator==(const Extent &that) const;
diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index a317d6f..808f0ae 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -611,6 +611,9 @@ namespace crucible {
 					e.m_logical_len = len;
 					e.m_offset = offset;
 
+					// An address can be used again for other data in a later generation
+					e.m_generation = btrfs_get_member(&btrfs_file_extent_item::generation, i.m_data);
+
 					// To maintain compatibility with FIEMAP we ignore the offset for compressed extents.
 					// At some point we'll grow out of this.
 					if (!compressed) {
diff --git a/src/bees-context.cc b/src/bees-context.cc
index 7cc6384..a60da42 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -331,6 +331,7 @@ BeesContext::rewrite_file_range(const BeesFileRange &bfr)
 
 struct BeesSeenRange {
 	uint64_t bytenr;
+	uint64_t generation;
 	off_t offset;
 	off_t length;
 };
@@ -339,7 +340,7 @@ static
 bool
 operator<(const BeesSeenRange &bsr1, const BeesSeenRange &bsr2)
 {
-	return tie(bsr1.bytenr, bsr1.offset, bsr1.length) < tie(bsr2.bytenr, bsr2.offset, bsr2.length);
+	return tie(bsr1.bytenr, bsr1.generation, bsr1.offset, bsr1.length) < tie(bsr2.bytenr, bsr2.generation, bsr2.offset, bsr2.length);
 }
 
 static
@@ -347,7 +348,7 @@ __attribute__((unused))
 ostream&
 operator<<(ostream &os, const BeesSeenRange &tup)
 {
-	return os << "BeesSeenRange { " << to_hex(tup.bytenr) << ", " << to_hex(tup.offset) << "+" << pretty(tup.length) << " }";
+	return os << "BeesSeenRange { " << to_hex(tup.bytenr) << " gen " << tup.generation << ", " << to_hex(tup.offset) << "+" << pretty(tup.length) << " }";
 }
 
 void
@@ -411,6 +412,7 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 	unique_lock<mutex> lock_seen(s_seen_mutex);
 	const BeesSeenRange tup = {
 		.bytenr = e.bytenr(),
+		.generation = e.generation(),
 		.offset = e.offset(),
 		.length = e.size(),
 	};
-- 
2.43.0


From a71e69b5c0b37ac1dcd466f0b528328e949150dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 27/35] fix: make the choice of LOGICAL_INO version safe to
 share between threads

---
 lib/fs.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index 95c19c9..c0870e2 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -10,6 +10,7 @@
 // FS_IOC_FIEMAP
 #include <linux/fs.h>
 
+#include <atomic>
 #include <cassert>
 #include <cstddef>
 #include <iostream>
@@ -343,7 +344,8 @@ namespace crucible {
 
 		m_iors.clear();
 
-		static unsigned long bili_version = 0;
+		// Shared by all threads.  It only ever changes from "don't know" to a decision.
+		static atomic<unsigned long> bili_version(0);
 
 		if (get_flags() == 0) {
 			// Could use either V1 or V2
-- 
2.43.0


From 0770c6a1f4860d9daff6c904db223e5a8febc186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 28/35] fix: let threads read the stop flags of the hash table
 and of the roots without their lock

---
 src/bees.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bees.h b/src/bees.h
index a97c6aa..fda93b5 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -15,6 +15,7 @@
 #include "crucible/time.h"
 #include "crucible/task.h"
 
+#include <atomic>
 #include <functional>
 #include <list>
 #include <mutex>
@@ -475,7 +476,7 @@ private:
 	// Mutex/condvar to stop
 	mutex			m_stop_mutex;
 	condition_variable	m_stop_condvar;
-	bool			m_stop_requested = false;
+	atomic<bool>		m_stop_requested{false};
 
 	// Per-extent structures
 	struct ExtentMetaData {
@@ -578,7 +579,7 @@ class BeesRoots : public enable_shared_from_this<BeesRoots> {
 
 	mutex					m_stop_mutex;
 	condition_variable			m_stop_condvar;
-	bool					m_stop_requested = false;
+	atomic<bool>				m_stop_requested{false};
 
 	CrawlMap insert_new_crawl();
 	Fd open_root_nocache(uint64_t root);
-- 
2.43.0


From 0380453ba5678569b0e4622e30dc0ac11cee3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 29/35] fix: let threads read the prefetch flag while the
 prefetch thread writes it

---
 src/bees.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees.h b/src/bees.h
index fda93b5..51ca625 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -466,7 +466,7 @@ private:
 	BeesStringFile		m_stats_file;
 
 	// Prefetch readahead hint
-	bool			m_prefetch_running = false;
+	atomic<bool>			m_prefetch_running{false};
 
 	// Mutex/condvar for the writeback thread
 	mutex			m_dirty_mutex;
-- 
2.43.0


From 4ce85895688b62860d488db9f834b696b30314e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 30/35] fix: let several threads save files at once without
 racing on the fsync decision

---
 src/bees.cc | 4 ++--
 src/bees.h  | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bees.cc b/src/bees.cc
index eaa42bb..89524eb 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -441,8 +441,8 @@ bees_fsync(int const fd)
 		return;
 	}
 
-	static bool did_uname = false;
-	static bool do_fsync = false;
+	static atomic<bool> did_uname{false};
+	static atomic<bool> do_fsync{false};
 
 	if (!did_uname) {
 		Uname uname;
diff --git a/src/bees.h b/src/bees.h
index 51ca625..6e064a7 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -141,9 +141,8 @@ extern int bees_trace_level;
 #define BEESLOGDEBUG(x)  BEESLOG(LOG_DEBUG, x)
 
 #define BEESLOGONCE(__x) do { \
-        static bool already_logged = false; \
-        if (!already_logged) { \
-                already_logged = true; \
+        static atomic<bool> already_logged{false}; \
+        if (!already_logged.exchange(true)) { \
                 BEESLOGNOTICE(__x); \
         } \
 } while (false)
-- 
2.43.0


From e172e9ca773f9d8ecabe9fe9d7b986ce3331a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 31/35] fix: let several workers share the throttle state and
 the choice of openat2

---
 src/bees-roots.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 84f5627..a299fab 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -697,7 +697,7 @@ static
 bool
 should_throttle()
 {
-	static bool s_throttled = false;
+	static atomic<bool> s_throttled{false};
 	// If there's too many entries in the queue, stop adding new ones until workers catch up
 	// If there's not too many entries in the queue, restart the scan task
 	const auto instance_count = Task::instance_count();
@@ -2025,7 +2025,7 @@ bees_openat(int const parent_fd, const char *const pathname, uint64_t const flag
 	THROW_CHECK1(invalid_argument, flags, (flags & O_CREAT) == 0);
 
 	// Try openat2 if the kernel has it
-	static bool can_openat2 = true;
+	static atomic<bool> can_openat2{true};
 	if (can_openat2) {
 		open_how how {
 			.flags = flags,
-- 
2.43.0


From ab464b863a4911eed48d6e2960149af8f96a5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 32/35] fix: do not let a thread use the crc64 table while
 another one fills it in

---
 lib/crc64.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/crc64.cc b/lib/crc64.cc
index 7eb5445..956cceb 100644
--- a/lib/crc64.cc
+++ b/lib/crc64.cc
@@ -32,12 +32,12 @@
 
 namespace crucible {
 
-	static bool init = false;
 	static uint64_t CRCTable[8][256];
 
 	static void init_crc64_table()
 	{
-		if (!init) {
+		// Only one thread fills in the table, the others wait for it
+		static const bool init = []() {
 			uint64_t crc;
 
 			// Generate CRCs for all single byte sequences
@@ -61,8 +61,9 @@ namespace crucible {
 					CRCTable[k][n] = crc;
 				}
 			}
-			init = true;
-		}
+			return true;
+		}();
+		(void)init;
 	}
 
 	uint64_t
-- 
2.43.0


From 22d121b02d72d204275facc73bd5608533ef27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 33/35] fix: let several workers update the record number of
 references

---
 src/bees-context.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index a60da42..35653e5 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -1067,7 +1067,7 @@ BeesContext::resolve_addr_uncached(BeesAddress addr)
 	// Count how many times this happens so we can figure out how
 	// important this case is
 	static const size_t max_logical_ino_v1_refs = 2730; // (65536 - header_len) / (sizeof(uint64_t) * 3)
-	static size_t most_refs_ever = max_logical_ino_v1_refs;
+	static atomic<size_t> most_refs_ever{max_logical_ino_v1_refs};
 	if (rv_count > most_refs_ever) {
 		BEESLOGINFO("addr " << addr << " refs " << rv_count << " beats previous record " << most_refs_ever);
 		most_refs_ever = rv_count;
-- 
2.43.0


From 5fc2a3f568eaf8f3593f529eabe5912ce35ce9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 34/35] fix: wait for the thread that saves progress even if it
 starts while bees is stopping

---
 src/bees-roots.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index a299fab..202d49c 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -2004,16 +2004,18 @@ BeesRoots::stop_request()
 void
 BeesRoots::stop_wait()
 {
-	// Stop crawl writeback first because we will break progress
+	// The crawl thread starts the crawl writeback thread, so there is no
+	// knowing whether there is a writeback thread until the crawl thread is done
+	BEESLOGDEBUG("Waiting for crawl thread");
+	BEESNOTE("waiting for crawl_thread thread");
+	m_crawl_thread.join();
+
+	// Stop crawl writeback here because we will break progress
 	// state tracking when we cancel the TaskMaster queue
 	BEESLOGDEBUG("Waiting for crawl writeback");
 	BEESNOTE("waiting for crawl_writeback thread");
 	m_writeback_thread.join();
 
-	BEESLOGDEBUG("Waiting for crawl thread");
-	BEESNOTE("waiting for crawl_thread thread");
-	m_crawl_thread.join();
-
 	BEESLOGDEBUG("BeesRoots stopped");
 }
 
-- 
2.43.0


From edd0125661ccda6617406201db1273f83cb3590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:24 +0000
Subject: [PATCH 35/35] fix: clear the no-copy-on-write flag of temporary files
 while they are empty

btrfs does not change the flag on a file that has a size, so in a
filesystem whose top directory is marked no-copy-on-write every
temporary file stayed so, and nothing could be shared with a copy.
---
 src/bees.cc | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/bees.cc b/src/bees.cc
index 89524eb..f577c74 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -502,22 +502,12 @@ BeesTempFile::resize(off_t offset)
 	BEESNOTE("Resizing temporary file " << name_fd(m_fd) << " to " << to_hex(offset));
 	BEESTRACE("Resizing temporary file " << name_fd(m_fd) << " to " << to_hex(offset));
 
-	// Truncate
-	Timer resize_timer;
-	DIE_IF_NON_ZERO(ftruncate(m_fd, offset));
-	BEESCOUNT(tmp_resize);
-
-	// Success
-	m_end_offset = offset;
-
-	// Count time spent here
-	BEESCOUNTADD(tmp_resize_ms, resize_timer.age() * 1000);
-
 	// Modify flags - every time
 	// - btrfs will keep trying to set FS_NOCOMP_FL behind us when compression heuristics identify
 	//   the data as compressible, but it fails to compress
 	// - clear FS_NOCOW_FL because we can only dedupe between files with the same FS_NOCOW_FL state,
-	//   and we don't open FS_NOCOW_FL files for dedupe.
+	//   and we don't open FS_NOCOW_FL files for dedupe.  btrfs ignores this unless the file is
+	//   still empty, so do it before setting the size.
 	BEESTRACE("Getting FS_COMPR_FL and FS_NOCOMP_FL on m_fd " << name_fd(m_fd));
 	int flags = ioctl_iflags_get(m_fd);
 	const auto orig_flags = flags;
@@ -529,6 +519,17 @@ BeesTempFile::resize(off_t offset)
 		ioctl_iflags_set(m_fd, flags);
 	}
 
+	// Truncate
+	Timer resize_timer;
+	DIE_IF_NON_ZERO(ftruncate(m_fd, offset));
+	BEESCOUNT(tmp_resize);
+
+	// Success
+	m_end_offset = offset;
+
+	// Count time spent here
+	BEESCOUNTADD(tmp_resize_ms, resize_timer.age() * 1000);
+
 	// That may have queued some delayed ref deletes, so throttle them
 	bees_throttle(resize_timer.age(), "tmpfile_resize");
 }
-- 
2.43.0

