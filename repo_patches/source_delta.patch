From f0a2fafc728d518be4c8875d233ba675acb3957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 01/94] fix: do not deliver cancellation while it is paused

cancellation_point() raised the pending cancellation of a coroutine even
inside of cancel_pause(). A remote call (or a job) made by an already
cancelled coroutine returned before its completion and left the request
in flight on a dead stack frame.
---
 amelie/runtime/base/throw.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/base/throw.h b/amelie/runtime/base/throw.h
index b083772..724e9b6 100644
--- a/amelie/runtime/base/throw.h
+++ b/amelie/runtime/base/throw.h
@@ -36,6 +36,8 @@ rethrow(void)
 static inline void
 cancellation_point(void)
 {
-	if (unlikely(am_self()->cancel))
+	// cancellation is not delivered while it is paused
+	auto self = am_self();
+	if (unlikely(self->cancel && self->cancel_pause == 0))
 		error_as(CANCEL, "cancelled");
 }
-- 
2.43.0


From ce0dce60b496377972f3695eb725af620cf62c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 02/94] fix: refresh the cached time of a task after it waited
 for events

---
 amelie/runtime/base/task.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/runtime/base/task.c b/amelie/runtime/base/task.c
index 26d4a85..bf8081e 100644
--- a/amelie/runtime/base/task.c
+++ b/amelie/runtime/base/task.c
@@ -144,6 +144,9 @@ mainloop(Task* self)
 		}
 		poller_step(poller, timeout);
 		bus_set_sleep(bus, false);
+
+		// the cached time is outdated after the wait
+		timer_mgr_reset(timer_mgr);
 	}
 }
 
-- 
2.43.0


From fb5e330d1e0811f60df7dc8dd20e2f4064424166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 03/94] fix: do not report a timeout for a timed wait that was
 signalled

---
 amelie/runtime/base/wait.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/base/wait.h b/amelie/runtime/base/wait.h
index aba9402..db8bfeb 100644
--- a/amelie/runtime/base/wait.h
+++ b/amelie/runtime/base/wait.h
@@ -65,7 +65,7 @@ wait_event_time(Event* event, TimerMgr* timer_mgr, Coroutine* coro, int time_ms)
 	coroutine_suspend(coro);
 	event->wait = NULL;
 
-	bool timedout = time_ms > 0 && !timer.active;
+	bool timedout = time_ms > 0 && !timer.active && !event->signal;
 	if (unlikely(timer.active))
 		timer_stop(&timer);
 
-- 
2.43.0


From 632e9b699a5564195cf54531b401a1c08506f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 04/94] fix: run every deferred action once when one of them
 throws

---
 amelie/runtime/base/exception.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/amelie/runtime/base/exception.h b/amelie/runtime/base/exception.h
index 9e2a5b9..e492f5d 100644
--- a/amelie/runtime/base/exception.h
+++ b/amelie/runtime/base/exception.h
@@ -49,13 +49,15 @@ exception_mgr_throw(ExceptionMgr* self)
 {
 	auto current = self->last;
 	assert(current);
-	for (auto defer = current->defer_stack; defer;
-	     defer = defer->prev)
+	Defer* defer;
+	while ((defer = current->defer_stack))
 	{
-		defer->function(defer->function_arg);
+		// remove before the call, since the function can throw
+		auto function = defer->function;
+		current->defer_stack = defer->prev;
 		defer->function = NULL;
+		function(defer->function_arg);
 	}
-	current->defer_stack = NULL;
 	current->triggered = true;
 	longjmp(self->last->buf, 1);
 }
-- 
2.43.0


From 51fbfc3b521b2e0c29f9338def626d499c1a94af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 05/94] fix: do not clobber the exit event of a reused
 coroutine

---
 amelie/runtime/base/wait.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/base/wait.h b/amelie/runtime/base/wait.h
index db8bfeb..e582071 100644
--- a/amelie/runtime/base/wait.h
+++ b/amelie/runtime/base/wait.h
@@ -40,8 +40,13 @@ wait_event(Event* event, Coroutine* coro)
 	event->wait = coro;
 	// wait for signal
 	coroutine_suspend(coro);
-	event->wait   = NULL;
-	event->signal = false;
+
+	// event of a completed coroutine can be already reused
+	if (event->wait == coro)
+	{
+		event->wait   = NULL;
+		event->signal = false;
+	}
 }
 
 hot static inline bool
-- 
2.43.0


From 6a9cfc2084f6bc6bbb0e238931196e915abdb9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 06/94] fix: attach the event of a lock before it becomes
 visible to other tasks

---
 amelie/runtime/runtime/lock_mgr.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/runtime/lock_mgr.h b/amelie/runtime/runtime/lock_mgr.h
index 4ed464b..745ccc4 100644
--- a/amelie/runtime/runtime/lock_mgr.h
+++ b/amelie/runtime/runtime/lock_mgr.h
@@ -101,6 +101,7 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	} else
 	{
 		// add lock to the relation wait list
+		event_attach(&lock->event);
 		lock->waiting = true;
 		list_append(&rel->lock_wait, &lock->link);
 		rel->lock_wait_count++;
@@ -111,9 +112,7 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	// wait for the lock
 	if (unlikely(! pass))
 	{
-		auto event = &lock->event;
-		event_attach(event);
-		event_wait(event, -1);
+		event_wait(&lock->event, -1);
 	}
 }
 
-- 
2.43.0


From b251ff2dc3434a3fff290e1c1ddb3d9d567f7c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 07/94] fix: remove a cancelled waiter from the lock queue

---
 amelie/runtime/runtime/lock_mgr.h | 67 +++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/amelie/runtime/runtime/lock_mgr.h b/amelie/runtime/runtime/lock_mgr.h
index 745ccc4..b3c1a9c 100644
--- a/amelie/runtime/runtime/lock_mgr.h
+++ b/amelie/runtime/runtime/lock_mgr.h
@@ -81,6 +81,51 @@ lock_resolve(Relation* rel, LockId lock)
 	return false;
 }
 
+hot static inline void
+lock_mgr_wakeup(Relation* rel)
+{
+	// batch wakeup non-conflicting waiters
+	while (rel->lock_wait_count > 0)
+	{
+		auto lock = container_of(list_first(&rel->lock_wait), Lock, link);
+		if (! lock_resolve(lock->rel, lock->rel_lock))
+			break;
+		rel->lock_set[lock->rel_lock]++;
+		rel->lock_wait_count--;
+		lock->waiting = false;
+		list_unlink(&lock->link);
+		event_signal(&lock->event);
+	}
+}
+
+static inline void
+lock_mgr_cancel(LockMgr* self, Lock* lock)
+{
+	// the wait for the lock was cancelled
+	auto rel = lock->rel;
+	spinlock_lock(&rel->lock);
+	if (lock->waiting)
+	{
+		lock->waiting = false;
+		list_unlink(&lock->link);
+		rel->lock_wait_count--;
+	} else
+	{
+		// the lock was granted in between
+		rel->lock_set[lock->rel_lock]--;
+	}
+	lock_mgr_remove(self, lock);
+	lock_mgr_wakeup(rel);
+	spinlock_unlock(&rel->lock);
+
+	// the lock can be reused only after its event is received
+	auto event = &lock->event;
+	while (atomic_u32_of(&event->ipc.refs) > 0)
+		wait_event(event, am_self());
+
+	lock_free(lock);
+}
+
 hot static inline void
 lock_mgr_lock_of(LockMgr* self, Lock* lock)
 {
@@ -112,7 +157,11 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	// wait for the lock
 	if (unlikely(! pass))
 	{
-		event_wait(&lock->event, -1);
+		if (error_catch( event_wait(&lock->event, -1) ))
+		{
+			lock_mgr_cancel(self, lock);
+			rethrow();
+		}
 	}
 }
 
@@ -200,21 +249,7 @@ lock_mgr_unlock(LockMgr* self, Lock* lock)
 	// detach from the lock manager
 	lock_mgr_remove(self, lock);
 
-	// batch wakeup non-conflicting waiters
-	while (rel->lock_wait_count > 0)
-	{
-		auto lock = container_of(list_first(&rel->lock_wait), Lock, link);
-		if (lock_resolve(lock->rel, lock->rel_lock))
-		{
-			rel->lock_set[lock->rel_lock]++;
-			rel->lock_wait_count--;
-			lock->waiting = false;
-			list_unlink(&lock->link);
-			event_signal(&lock->event);
-			continue;
-		}
-		break;
-	}
+	lock_mgr_wakeup(rel);
 
 	spinlock_unlock(&lock->rel->lock);
 
-- 
2.43.0


From 99a94100bbc026b6a28b81d790a12dd69dc5cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 08/94] fix: unlock_all releases reentrant locks

---
 amelie/runtime/runtime/global.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/runtime/global.h b/amelie/runtime/runtime/global.h
index 88eaf5a..e1b3a8a 100644
--- a/amelie/runtime/runtime/global.h
+++ b/amelie/runtime/runtime/global.h
@@ -174,6 +174,11 @@ unlock_all(void)
 	// unlock all locks taken by the coroutine
 	auto locks = &am_self()->locks;
 	list_foreach_reverse_safe(locks)
-		unlock(list_at(Lock, link));
+	{
+		// including reentrant references
+		auto lock = list_at(Lock, link);
+		lock->refs = 1;
+		unlock(lock);
+	}
 	list_init(locks);
 }
-- 
2.43.0


From a511cc7835fd1ae6656ff0112a02f876ea1591f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 09/94] fix: keep the wal files required by the slots

wal_slots() calculated the maximum instead of the minimum of the slots lsn.
---
 amelie/db/wal/wal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 019f238..880df27 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -50,7 +50,7 @@ wal_slots(Wal* self, uint64_t* min)
 	{
 		auto slot = list_at(WalSlot, link);
 		uint64_t lsn = atomic_u64_of(&slot->lsn);
-		if (*min < lsn)
+		if (lsn < *min)
 			*min = lsn;
 	}
 	mutex_unlock(&self->lock);
-- 
2.43.0


From 9f75c81cdf7d1aa7b0e5bc3a4874c056d7a64a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 10/94] fix: do not drop wal worker events together with an
 outdated create request

Sync or shutdown events merged with the create request were lost.
---
 amelie/db/wal/wal_worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_worker.c b/amelie/db/wal/wal_worker.c
index d3e40c5..1d2ac95 100644
--- a/amelie/db/wal/wal_worker.c
+++ b/amelie/db/wal/wal_worker.c
@@ -35,9 +35,10 @@ wal_worker_main(void* arg)
 		self->pending = 0;
 		mutex_unlock(&self->lock);
 
+		// wal file is already rotated, process the rest of the events
 		if (events & WAL_CREATE)
 			if (! wal_overflow(self->wal))
-				continue;
+				events &= ~(WAL_CREATE|WAL_SYNC_CREATE);
 
 		// process events
 		error_catch
-- 
2.43.0


From bd6f576f56b4d66d5bc45aea3380705441fd3a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 11/94] fix: free wal file after truncate

---
 amelie/db/wal/wal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 880df27..087ee63 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -196,6 +196,7 @@ wal_truncate(Wal* self, uint64_t lsn)
 	info("wal: truncate wal (%" PRIu64 " lsn)", lsn);
 
 	auto file = wal_file_allocate(id);
+	defer(wal_file_free, file);
 	defer(wal_file_close, file);
 	wal_file_open(file);
 
-- 
2.43.0


From a942acaeb60186804be5acc94e2b9e1f30336b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 12/94] fix: sync wal file on write under the wal lock

The wal file could be switched between the write and the sync, leaving the
written records unsynced (or using already closed file). A failed sync left
records of the aborted transactions in the wal.
---
 amelie/db/wal/wal.c     | 10 ++++++++--
 amelie/db/wal/wal_mgr.c |  2 --
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 087ee63..9797f0b 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -343,8 +343,14 @@ wal_write(Wal* self, WriteList* list)
 	// do atomical write of a list of wal records
 	auto current = self->current;
 	auto current_offset = current->file.size;
-	auto on_error = error_catch(
-		list->lsn = wal_write_list(self, list)
+	auto on_error = error_catch
+	(
+		list->lsn = wal_write_list(self, list);
+
+		// sync as part of the write, the current file cannot be changed
+		// and failed records will not remain in the wal
+		if (opt_int_of(&config()->wal_sync_on_write))
+			wal_file_sync(current);
 	);
 	if (unlikely(on_error)) {
 		if (error_catch(wal_file_truncate(current, current_offset)))
diff --git a/amelie/db/wal/wal_mgr.c b/amelie/db/wal/wal_mgr.c
index f0da7e3..43187ab 100644
--- a/amelie/db/wal/wal_mgr.c
+++ b/amelie/db/wal/wal_mgr.c
@@ -106,8 +106,6 @@ wal_mgr_write(WalMgr* self, WriteList* write_list)
 	if (! write_list->list_count)
 		return;
 	auto wal_rotate = wal_write(&self->wal, write_list);
-	if (opt_int_of(&config()->wal_sync_on_write))
-		wal_sync(&self->wal, false);
 	if (wal_rotate)
 		wal_mgr_create(self);
 }
-- 
2.43.0


From 24fa4744e10002806ca1602bb8ddba53642b4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 13/94] fix: create next wal file under the wal lock

Records written between the choice of the file id and the switch had been
stored in the previous file with lsn >= id of the next one (cursors skipped
them) and were not synced on close. Concurrent rotation created the same
file twice.
---
 amelie/db/wal/wal.c        | 30 +++++++++++++++++++++++++-----
 amelie/db/wal/wal.h        |  2 +-
 amelie/db/wal/wal_mgr.c    |  7 ++-----
 amelie/db/wal/wal_worker.c |  3 ++-
 4 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 9797f0b..ce3bb4a 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -67,8 +67,8 @@ wal_overflow(Wal* self)
 	return self->current->file.size >= opt_int_of(&config()->wal_size);
 }
 
-void
-wal_create(Wal* self, uint64_t lsn)
+static void
+wal_create_file(Wal* self, uint64_t lsn)
 {
 	// create new wal file
 	WalFile* file = NULL;
@@ -89,10 +89,8 @@ wal_create(Wal* self, uint64_t lsn)
 	id_mgr_add(&self->list, lsn);
 
 	// add to the list and set as current
-	mutex_lock(&self->lock);
 	auto file_prev = self->current;
 	self->current = file;
-	mutex_unlock(&self->lock);
 
 	// close prev file
 	if (! file_prev)
@@ -103,6 +101,28 @@ wal_create(Wal* self, uint64_t lsn)
 	wal_file_free(file_prev);
 }
 
+void
+wal_create(Wal* self, bool sync_close, bool sync_create)
+{
+	// the lock guarantees that the current file is complete and the
+	// next record will have lsn equal to the id of the new file
+	mutex_lock(&self->lock);
+	defer(mutex_unlock, &self->lock);
+
+	// already rotated
+	if (self->current->file.size < opt_int_of(&config()->wal_size))
+		return;
+
+	// sync current file before the next one exists
+	if (sync_close)
+		wal_sync(self, false);
+
+	wal_create_file(self, state_lsn() + 1);
+
+	if (sync_create)
+		wal_sync(self, true);
+}
+
 void
 wal_gc(Wal* self, uint64_t min)
 {
@@ -261,7 +281,7 @@ reopen:
 	// create new wal file
 	if (! self->list.list_count)
 	{
-		wal_create(self, 1);
+		wal_create_file(self, 1);
 		if (opt_int_of(&config()->wal_sync_on_create))
 			wal_sync(self, true);
 		return;
diff --git a/amelie/db/wal/wal.h b/amelie/db/wal/wal.h
index 8c36053..3978c1c 100644
--- a/amelie/db/wal/wal.h
+++ b/amelie/db/wal/wal.h
@@ -29,7 +29,7 @@ void     wal_free(Wal*);
 void     wal_open(Wal*);
 void     wal_close(Wal*);
 bool     wal_overflow(Wal*);
-void     wal_create(Wal*, uint64_t);
+void     wal_create(Wal*, bool, bool);
 void     wal_gc(Wal*, uint64_t);
 void     wal_sync(Wal*, bool);
 bool     wal_write(Wal*, WriteList*);
diff --git a/amelie/db/wal/wal_mgr.c b/amelie/db/wal/wal_mgr.c
index 43187ab..406aba0 100644
--- a/amelie/db/wal/wal_mgr.c
+++ b/amelie/db/wal/wal_mgr.c
@@ -92,11 +92,8 @@ wal_mgr_create(WalMgr* self)
 		wal_worker_request(&self->wal_worker, flags);
 	} else
 	{
-		if (opt_int_of(&config()->wal_sync_on_close))
-			wal_sync(&self->wal, false);
-		wal_create(&self->wal, state_lsn() + 1);
-		if (opt_int_of(&config()->wal_sync_on_create))
-			wal_sync(&self->wal, true);
+		wal_create(&self->wal, opt_int_of(&config()->wal_sync_on_close),
+		           opt_int_of(&config()->wal_sync_on_create));
 	}
 }
 
diff --git a/amelie/db/wal/wal_worker.c b/amelie/db/wal/wal_worker.c
index 1d2ac95..6e98bef 100644
--- a/amelie/db/wal/wal_worker.c
+++ b/amelie/db/wal/wal_worker.c
@@ -49,7 +49,8 @@ wal_worker_main(void* arg)
 
 			// create new wal
 			if (events & WAL_CREATE)
-				wal_create(self->wal, state_lsn() + 1);
+				wal_create(self->wal, opt_int_of(&config()->wal_sync_on_close),
+				           false);
 
 			// sync new wal and the directory
 			if (events & WAL_SYNC_CREATE)
-- 
2.43.0


From 83ef1c6d0055091a99b7135e1576e86fcb149b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 14/94] fix: do not fail a completed wal write because of the
 file rotation

Failed transactions were aborted while their records remained in the wal.
---
 amelie/db/wal/wal_mgr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_mgr.c b/amelie/db/wal/wal_mgr.c
index 406aba0..1215776 100644
--- a/amelie/db/wal/wal_mgr.c
+++ b/amelie/db/wal/wal_mgr.c
@@ -103,6 +103,9 @@ wal_mgr_write(WalMgr* self, WriteList* write_list)
 	if (! write_list->list_count)
 		return;
 	auto wal_rotate = wal_write(&self->wal, write_list);
+
+	// records are already written, failed rotation will be retried by
+	// the next write
 	if (wal_rotate)
-		wal_mgr_create(self);
+		error_catch( wal_mgr_create(self) );
 }
-- 
2.43.0


From 760cfed6558a62f1e0c926e8387220a6c2388e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 15/94] fix: wal cursor skipped records written before the
 rotation

---
 amelie/db/wal/wal_cursor.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/db/wal/wal_cursor.c b/amelie/db/wal/wal_cursor.c
index 7c31223..f99c0d3 100644
--- a/amelie/db/wal/wal_cursor.c
+++ b/amelie/db/wal/wal_cursor.c
@@ -132,6 +132,11 @@ wal_cursor_read(WalCursor* self)
 		if (id == UINT64_MAX)
 			break;
 
+		// current file is complete now, recheck for records which
+		// were written after the last read
+		if (file_update_size(&file->file))
+			continue;
+
 		// close previous file
 		wal_file_close(file);
 		wal_file_free(file);
-- 
2.43.0


From 934ea64bb52f1e0d6d308e77f96ded48793fbaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 16/94] fix: do not remove wal files of a snapshot taken during
 gc

---
 amelie/db/wal/wal.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index ce3bb4a..d06b204 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -44,8 +44,6 @@ wal_free(Wal* self)
 static int
 wal_slots(Wal* self, uint64_t* min)
 {
-	mutex_lock(&self->lock);
-	int count = self->slots_count;
 	list_foreach(&self->slots)
 	{
 		auto slot = list_at(WalSlot, link);
@@ -53,8 +51,7 @@ wal_slots(Wal* self, uint64_t* min)
 		if (lsn < *min)
 			*min = lsn;
 	}
-	mutex_unlock(&self->lock);
-	return count;
+	return self->slots_count;
 }
 
 bool
@@ -126,15 +123,17 @@ wal_create(Wal* self, bool sync_close, bool sync_create)
 void
 wal_gc(Wal* self, uint64_t min)
 {
-	wal_slots(self, &min);
-
 	// remove wal files < min
 	Buf list;
 	buf_init(&list);
 	defer_buf(&list);
 
+	// new slots cannot be added until the list is updated
+	mutex_lock(&self->lock);
+	wal_slots(self, &min);
 	int list_count;
 	list_count = id_mgr_gc_between(&self->list, &list, min);
+	mutex_unlock(&self->lock);
 	if (list_count > 0)
 	{
 		size_t size  = 0;
@@ -490,7 +489,9 @@ wal_status(Wal* self)
 
 	uint64_t slots_min = UINT64_MAX;
 	int      slots_count;
+	mutex_lock(&self->lock);
 	slots_count = wal_slots(self, &slots_min);
+	mutex_unlock(&self->lock);
 
 	// obj
 	auto buf = buf_create();
-- 
2.43.0


From a9b613dc64a909ed1a5bec1e04067e846118b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 17/94] fix: validate sizes of the wal record header before
 reading its data

Damaged or zero filled header caused out of bounds memory access.
---
 amelie/db/transaction/record.h | 7 +++++++
 amelie/db/wal/wal_file.h       | 9 +++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/amelie/db/transaction/record.h b/amelie/db/transaction/record.h
index c23bef4..6832eac 100644
--- a/amelie/db/transaction/record.h
+++ b/amelie/db/transaction/record.h
@@ -67,6 +67,13 @@ record_cmd_is_dml(RecordCmd* self)
 	return self->cmd == CMD_REPLACE || self->cmd == CMD_DELETE;
 }
 
+static inline bool
+record_validate_size(Record* self)
+{
+	auto size = sizeof(*self) + (uint64_t)self->count * sizeof(RecordCmd);
+	return size <= self->size && self->size <= INT32_MAX;
+}
+
 static inline bool
 record_validate(Record* self)
 {
diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index 47d183e..e66fab3 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -79,7 +79,7 @@ wal_file_write(WalFile* self, Iov* iov)
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)
 {
 	return (offset + size) > self->file.size;
 }
@@ -95,7 +95,12 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	uint32_t size_header = sizeof(Record);
 	int start = buf_size(buf);
 	file_pread_buf(&self->file, buf, size_header, offset);
-	uint32_t size = ((Record*)(buf->start + start))->size;
+	auto record = (Record*)(buf->start + start);
+	uint32_t size = record->size;
+
+	// ensure header is valid before using its sizes
+	if (unlikely(! record_validate_size(record)))
+		error("wal/%" PRIu64 " (record size mismatch)", self->id);
 
 	// check for eof
 	if (wal_file_eof(self, offset, size))
-- 
2.43.0


From b7ff6b5d341809ccc7c44c8ab804c3821b40042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 18/94] fix: remove incomplete record from the end of the wal
 on start

Records were appended after the record torn by a crash and could not be
read by the next recovery.
---
 amelie/db/wal/wal.c      | 10 ++++++++++
 amelie/db/wal/wal_file.h | 21 +++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index d06b204..1bb7e23 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -301,6 +301,16 @@ reopen:
 	self->current = wal_file_allocate(last);
 	wal_file_open(self->current);
 	file_seek_to_end(&self->current->file);
+
+	// remove incomplete record (left by a crash), otherwise following
+	// writes cannot be read
+	auto offset = wal_file_end(self->current);
+	if (offset != self->current->file.size)
+	{
+		info("wal/%" PRIu64 " (incomplete record, truncated to %" PRIu64 " bytes)",
+		     last, offset);
+		wal_file_truncate(self->current, offset);
+	}
 }
 
 void
diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index e66fab3..37496a1 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -115,3 +115,24 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	file_pread_buf(&self->file, buf, size_data, offset + size_header);
 	return true;
 }
+
+static inline uint64_t
+wal_file_end(WalFile* self)
+{
+	// find end of the last complete record
+	uint64_t offset = 0;
+	while (! wal_file_eof(self, offset, sizeof(Record)))
+	{
+		Record record;
+		file_pread(&self->file, &record, sizeof(record), offset);
+
+		// damaged records are handled by the recovery
+		if (unlikely(! record_validate_size(&record)))
+			return self->file.size;
+
+		if (wal_file_eof(self, offset, record.size))
+			break;
+		offset += record.size;
+	}
+	return offset;
+}
-- 
2.43.0


From 1e8ae96fe51578b8fea8fe6dd286e88d233e3625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 19/94] fix: do not stream wal records which are not committed
 yet

Records of a write in progress could be delivered to a replica and then
removed from the wal, if the write failed.
---
 amelie/db/wal/wal_cursor.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_cursor.c b/amelie/db/wal/wal_cursor.c
index f99c0d3..6b83bdd 100644
--- a/amelie/db/wal/wal_cursor.c
+++ b/amelie/db/wal/wal_cursor.c
@@ -162,9 +162,11 @@ wal_cursor_readahead(WalCursor* self, int size,
                      uint64_t*  lsn,
                      uint64_t   lsn_max)
 {
+	// note: lsn must be set to the last record read, records after the
+	// lsn_max are not yet committed
 	buf_reset(&self->buf);
 	int collected = 0;
-	while (collected < size)
+	while (collected < size && *lsn < lsn_max)
 	{
 		auto record = wal_cursor_read(self);
 		if (! record)
-- 
2.43.0


From 6abff609e53d7c764f2eba8883c713e1b33dad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 20/94] fix: report incomplete record in the middle of the wal

The rest of the damaged file was skipped without an error and the recovery
continued with the next file.
---
 amelie/db/wal/wal_cursor.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/amelie/db/wal/wal_cursor.c b/amelie/db/wal/wal_cursor.c
index 6b83bdd..ea74f6e 100644
--- a/amelie/db/wal/wal_cursor.c
+++ b/amelie/db/wal/wal_cursor.c
@@ -123,9 +123,6 @@ wal_cursor_read(WalCursor* self)
 		if (file_update_size(&file->file))
 			continue;
 
-		if (! self->file_next)
-			break;
-
 		// get to the next file id
 		uint64_t id;
 		id = id_mgr_next(&wal->list, file->id);
@@ -137,6 +134,13 @@ wal_cursor_read(WalCursor* self)
 		if (file_update_size(&file->file))
 			continue;
 
+		// only the last file can have an incomplete record
+		if (unlikely(self->file_offset != file->file.size))
+			error("wal/%" PRIu64 " (incomplete record)", file->id);
+
+		if (! self->file_next)
+			break;
+
 		// close previous file
 		wal_file_close(file);
 		wal_file_free(file);
-- 
2.43.0


From 9e8bc154e88d368b42a1744c05137464e60c841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 21/94] fix: sync wal after the truncate

Truncated records could appear again after a power failure.
---
 amelie/db/wal/wal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 1bb7e23..3337787 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -267,6 +267,11 @@ wal_truncate(Wal* self, uint64_t lsn)
 		info(" %" PRIu64 " (file removed)", id);
 	}
 
+	// removed records must not appear again after a crash
+	wal_file_sync(file);
+	if (vfs_fsync(self->dirfd) == -1)
+		error_system();
+
 	info("");
 }
 
-- 
2.43.0


From 90d85547ca7f8fd4173603055e89cd7d25b9df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 22/94] fix: apply a pending commit before an abort of later
 transactions

---
 amelie/db/transaction/track.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/amelie/db/transaction/track.h b/amelie/db/transaction/track.h
index eae2a3f..d0fa6f9 100644
--- a/amelie/db/transaction/track.h
+++ b/amelie/db/transaction/track.h
@@ -100,8 +100,17 @@ track_sync(Track* self, Consensus* consensus)
 {
 	auto consensus_pod = &self->consensus_pod;
 
-	// commit all transactions <= abort
-	auto id = consensus->abort;
+	// apply decisions in the order of their transactions: transactions
+	// committed before the aborted ones are still in the prepared list
+	auto id = consensus->commit;
+	if (id > consensus_pod->commit && id < consensus->abort)
+	{
+		tr_commit_list(&self->prepared, &self->cache, id);
+		consensus_pod->commit = id;
+	}
+
+	// abort all transactions <= abort
+	id = consensus->abort;
 	if (unlikely(id > consensus_pod->abort))
 	{
 		tr_abort_list(&self->prepared, &self->cache, id);
-- 
2.43.0


From 8ca34f643d1276e95399b8a75766ebe16bd6098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 23/94] fix: a table without tiers is read from the heap only

---
 amelie/db/tier/tier_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/tier/tier_mgr.h b/amelie/db/tier/tier_mgr.h
index ab307b0..8a21775 100644
--- a/amelie/db/tier/tier_mgr.h
+++ b/amelie/db/tier/tier_mgr.h
@@ -37,7 +37,7 @@ Buf*    tier_mgr_list(TierMgr*, Str*, int);
 static inline bool
 tier_mgr_created(TierMgr* self)
 {
-	return !self->list_count;
+	return self->list_count > 0;
 }
 
 static inline Tier*
-- 
2.43.0


From 33dc5a1d5ca6dd560164c637f56fa5140c69f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 24/94] fix: reads of a tier visit every branch of its object

---
 amelie/db/part/cursor.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/db/part/cursor.c b/amelie/db/part/cursor.c
index aa96196..7fcfb2c 100644
--- a/amelie/db/part/cursor.c
+++ b/amelie/db/part/cursor.c
@@ -58,6 +58,7 @@ cursor_lookup(PartMgr*     self,
 				iterator_close(it);
 				return &branch_it->it;
 			}
+			branch = branch->next;
 		}
 	}
 
@@ -104,6 +105,7 @@ cursor_scan(PartMgr*     self,
 			auto branch_it = branch_iterator_allocate();
 			merge_iterator_add(merge_it, &branch_it->it);
 			branch_iterator_open(branch_it, &config->keys, branch, key);
+			branch = branch->next;
 		}
 	}
 
@@ -154,6 +156,7 @@ cursor_scan_cross(PartMgr*     self,
 			auto branch_it = branch_iterator_allocate();
 			merge_iterator_add(merge_it, &branch_it->it);
 			branch_iterator_open(branch_it, &config->keys, branch, key);
+			branch = branch->next;
 		}
 	}
 
-- 
2.43.0


From 88fcb414c06eaace6168e2e04544ec37c2a2546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 25/94] fix: hash index replaced a key stored after a deleted
 row with a duplicate

---
 amelie/db/index/hash_store.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/amelie/db/index/hash_store.h b/amelie/db/index/hash_store.h
index 8fea624..6a781d5 100644
--- a/amelie/db/index/hash_store.h
+++ b/amelie/db/index/hash_store.h
@@ -64,16 +64,23 @@ hash_store_set(HashStore* self, Row* key)
 {
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	uint64_t place = UINT64_MAX;
 	do
 	{
 		auto ref = self->rows[pos];
-		if (!ref || ref == HT_DELETED)
+		if (! ref)
 		{
-			self->rows[pos] = key;
-			self->count++;
-			return NULL;
+			if (place == UINT64_MAX)
+				place = pos;
+			break;
 		}
 
+		if (ref == HT_DELETED)
+		{
+			// the key can be stored after the deleted row
+			if (place == UINT64_MAX)
+				place = pos;
+		} else
 		if (! compare(self->keys, ref, key))
 		{
 			self->rows[pos] = key;
@@ -83,8 +90,12 @@ hash_store_set(HashStore* self, Row* key)
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
-	return false;
+	if (unlikely(place == UINT64_MAX))
+		error("hashtable overflow");
+
+	self->rows[place] = key;
+	self->count++;
+	return NULL;
 }
 
 hot static inline Row*
-- 
2.43.0


From 361e96f5c01c6300c16c46c5f2927b16168dfde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 26/94] fix: hash index lookup failed when every free slot held
 a deleted row

---
 amelie/db/index/hash_store.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/amelie/db/index/hash_store.h b/amelie/db/index/hash_store.h
index 6a781d5..a9b13c8 100644
--- a/amelie/db/index/hash_store.h
+++ b/amelie/db/index/hash_store.h
@@ -130,17 +130,21 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 {
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	uint64_t place = UINT64_MAX;
 	do
 	{
 		auto ref = self->rows[pos];
 		if (! ref)
 		{
-			*at = pos;
-			return NULL;
+			if (place == UINT64_MAX)
+				place = pos;
+			break;
 		}
 		if (ref == HT_DELETED)
 		{
-			*at = pos;
+			// first place to store the key
+			if (place == UINT64_MAX)
+				place = pos;
 		} else
 		{
 			if (! compare(self->keys, ref, key))
@@ -153,7 +157,10 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
+	if (unlikely(place == UINT64_MAX))
+		error("hashtable overflow");
+
+	*at = place;
 	return NULL;
 }
 
-- 
2.43.0


From 6460f47d7c8f246cee92a3573fceccd0da843ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 27/94] fix: hash index lost rows of the previous table while
 rehashing

---
 amelie/db/index/hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 3802f17..1366370 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -78,7 +78,7 @@ hash_rehash(Hash* self)
 			continue;
 		}
 		hash_store_set(self->current, ref);
-		prev->rows[self->rehashing_pos] = NULL;
+		prev->rows[self->rehashing_pos] = HT_DELETED;
 		prev->count--;
 
 		self->rehashing_pos++;
@@ -131,7 +131,7 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 			{
 				// move to the current
 				self->current->rows[current_pos] = prev;
-				self->prev->rows[prev_pos] = NULL;
+				self->prev->rows[prev_pos] = HT_DELETED;
 				self->prev->count--;
 				self->current->count++;
 			}
-- 
2.43.0


From 6dd5f90b34e157322e318bd8b7b9d4f9606ec392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 28/94] fix: hash index upsert returned a position of the table
 before rehashing

---
 amelie/db/index/hash.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 1366370..a11cd9d 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -117,6 +117,10 @@ hash_set(Hash* self, Row* key)
 hot static inline bool
 hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 {
+	// start rehashing first to return a position in the current table
+	if (!self->rehashing && hash_store_is_full(self->current))
+		hash_rehash_start(self);
+
 	Row* prev = NULL;
 	if (self->rehashing)
 	{
@@ -157,11 +161,6 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 		}
 
 		*pos = current_pos;
-		if (hash_store_is_full(self->current))
-		{
-			hash_rehash_start(self);
-			hash_rehash(self);
-		}
 	}
 
 	return prev != NULL;
-- 
2.43.0


From b0d50499269df6cb977569af9332e7d733682b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 29/94] fix: hash index scan of several partitions stopped
 after the first one

---
 amelie/db/index/index_hash_merge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/index/index_hash_merge.h b/amelie/db/index/index_hash_merge.h
index 4d65070..c4b2adc 100644
--- a/amelie/db/index/index_hash_merge.h
+++ b/amelie/db/index/index_hash_merge.h
@@ -81,7 +81,7 @@ index_hash_merge_next(Iterator* arg)
 	for (;;)
 	{
 		self->current_it_order++;
-		if (self->current_it_order < self->list_count)
+		if (self->current_it_order >= self->list_count)
 			break;
 		auto at = &list[self->current_it_order];
 		if (hash_iterator_has(at))
-- 
2.43.0


From 071436ad6620bed56fef46a17bfa6d866242f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 30/94] fix: tree index scan ended when its key fell between
 two pages

---
 amelie/db/index/tree_iterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/db/index/tree_iterator.h b/amelie/db/index/tree_iterator.h
index 1fdf396..e0ee739 100644
--- a/amelie/db/index/tree_iterator.h
+++ b/amelie/db/index/tree_iterator.h
@@ -38,9 +38,14 @@ tree_iterator_open(TreeIterator* self, Row* key)
 	self->page_pos = pos.page_pos;
 	if (self->page_pos >= self->page->keys_count)
 	{
+		// the key is greater than any in the page, continue
+		// with the next page
+		auto next = rbtree_next(&self->tree->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (! next)
+			return false;
+		self->page = container_of(next, TreePage, node);
 	}
 	self->current = self->page->rows[self->page_pos];
 	return match;
-- 
2.43.0


From 73ba2ad2972ef0c2247dcf1eb2ea84e218a29124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 31/94] fix: tree index merge lost the order of string keys

---
 amelie/db/index/index_tree_merge.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/amelie/db/index/index_tree_merge.h b/amelie/db/index/index_tree_merge.h
index d917966..5d4af89 100644
--- a/amelie/db/index/index_tree_merge.h
+++ b/amelie/db/index/index_tree_merge.h
@@ -54,15 +54,10 @@ index_tree_merge_step(IndexTreeMerge* self)
 		}
 
 		auto rc = compare(current->tree->keys, min, row);
-		switch (rc) {
-		case 0:
-			break;
-		case 1:
+		if (rc > 0)
+		{
 			min_iterator = current;
 			min = row;
-			break;
-		case -1:
-			break;
 		}
 	}
 
-- 
2.43.0


From d9be49ecc48f7b162f4bb13df8e1751afdb154a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 32/94] fix: closing a table left its partitions and objects in
 the volumes being freed

---
 amelie/db/part/part_mgr.c | 1 +
 amelie/db/tier/tier.c     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index 080dbf3..b742e3a 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -45,6 +45,7 @@ part_mgr_free(PartMgr* self)
 	list_foreach_safe(&self->list)
 	{
 		auto part = list_at(Part, link);
+		part_mgr_remove(self, part);
 		part_free(part);
 	}
 	part_mapping_free(&self->mapping);
diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index f542478..c2451af 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -35,6 +35,7 @@ tier_free(Tier* self)
 	list_foreach_safe(&self->list)
 	{
 		auto object = list_at(Object, link);
+		volume_remove(object->id.volume, &object->link_volume);
 		object_free(object);
 	}
 	am_free(self);
-- 
2.43.0


From 8d2e35870f45f95d3ed25b13f94cbab9700cfb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 33/94] fix: truncate left its rows allocated and could restore
 rows of aborted transactions

---
 amelie/db/part/part.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/amelie/db/part/part.c b/amelie/db/part/part.c
index 428027f..e033687 100644
--- a/amelie/db/part/part.c
+++ b/amelie/db/part/part.c
@@ -84,6 +84,17 @@ part_open(Part* self)
 void
 part_truncate(Part* self)
 {
+	// complete commits and aborts not yet known to the partition
+	track_sync(&self->track, &self->track.consensus);
+
+	// free rows
+	auto primary = part_primary(self);
+	auto it = index_iterator(primary);
+	defer(iterator_close, it);
+	iterator_open(it, NULL);
+	for (; iterator_has(it); iterator_next(it))
+		row_free(self->heap, iterator_at(it));
+
 	for (auto index = self->indexes; index; index = index->next)
 		index_truncate(index);
 }
-- 
2.43.0


From 087d2b2b2cc849925bed59271ce49f4744c57684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 34/94] fix: rows larger than a heap page corrupted memory

---
 amelie/db/heap/heap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index 4dc8868..869338e 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -195,7 +195,12 @@ heap_add(Heap* self, int size)
 		heap = self;
 
 	// match bucket by size
+	int size_max = heap->page_mgr.page_size - sizeof(PageHeader);
+	if (unlikely(size > size_max - (int)sizeof(HeapChunk)))
+		error("row is too large");
 	auto bucket = heap_bucket_of(heap, sizeof(HeapChunk) + size);
+	if (unlikely(bucket->size > (uint32_t)size_max))
+		error("row is too large");
 
 	// get chunk from the free list
 	HeapChunk* chunk;
-- 
2.43.0


From 1016731bc2ef0cbf077338ff49c7df70dd31971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 35/94] fix: tree index looked for string keys in a wrong page

---
 amelie/db/index/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/index/tree.c b/amelie/db/index/tree.c
index 7af0a15..f66a069 100644
--- a/amelie/db/index/tree.c
+++ b/amelie/db/index/tree.c
@@ -91,7 +91,7 @@ tree_search_page_for_write(Tree*        self,
 	*page_rel = tree_find(&self->tree, self, key, page_ref);
 	assert(*page_ref != NULL);
 	TreePage* page = tree_of(*page_ref);
-	if (*page_rel == 1)
+	if (*page_rel > 0)
 	{
 		auto prev = rbtree_prev(&self->tree, *page_ref);
 		if (prev)
-- 
2.43.0


From b8aea515785276ab597053e664db121d18eb5582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 36/94] fix: rows added during a snapshot were counted in the
 heap being written

---
 amelie/db/heap/heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index 869338e..4824c5a 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -260,8 +260,8 @@ heap_add(Heap* self, int size)
 	chunk->is_shadow_free = false;
 
 	// update total used metrics
-	self->header->count_used++;
-	self->header->size_used += bucket->size;
+	heap->header->count_used++;
+	heap->header->size_used += bucket->size;
 
 	// support lru (place chunk on top of the list)
 	if (self->lru)
-- 
2.43.0


From 2d5bbf52d02d918cd6659035cd6d8474a0b34955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 37/94] fix: unfinished partition files were not recognised and
 stayed forever

---
 amelie/db/storage/id.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/amelie/db/storage/id.h b/amelie/db/storage/id.h
index 3f58677..09b9892 100644
--- a/amelie/db/storage/id.h
+++ b/amelie/db/storage/id.h
@@ -79,21 +79,18 @@ id_of(const char* name, int64_t* id, int64_t* version)
 	if (! *name)
 		return STATE_COMPLETE;
 
-	// .
-	name++;
-	if (unlikely(! *name))
-		return -1;
-
-	// <version>[.]
-	if (isdigit(*name))
+	// .<version>[.]
+	if (isdigit(name[1]))
 	{
+		name++;
 		name = id_of_next(name, version);
 		if (! name)
 			return -1;
+		if (! *name)
+			return STATE_COMPLETE;
 	}
-	if (unlikely(! *name))
-		return STATE_COMPLETE;
 
+	// .<state>
 	return id_state_of(name);
 }
 
-- 
2.43.0


From 2aba98473130387bcecf79e37ca34220c4201610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 38/94] fix: interrupted table creation left hash ranges
 without a partition

---
 amelie/db/heap/heap_file.c        | 44 ++++++++++++++++++-------
 amelie/db/heap/heap_file.h        |  1 +
 amelie/db/part/part_mgr_recover.c | 55 ++++++++++++++++++++++---------
 3 files changed, 73 insertions(+), 27 deletions(-)

diff --git a/amelie/db/heap/heap_file.c b/amelie/db/heap/heap_file.c
index c927390..b0aef09 100644
--- a/amelie/db/heap/heap_file.c
+++ b/amelie/db/heap/heap_file.c
@@ -64,35 +64,55 @@ heap_create(Heap* self, File* file, Id* id, int state)
 	}
 }
 
-void
-heap_open(Heap* self, Id* id, int state)
+static void
+heap_read_header(Heap* self, File* file)
 {
-	// open heap file
-	File file;
-	file_init(&file);
-	defer(file_close, &file);
-	id_open(id, &file, state);
-
 	// read header
 	auto header = self->header;
 	auto size = sizeof(HeapHeader) + sizeof(HeapBucket) * 385;
-	file_read(&file, header, size);
+	file_read(file, header, size);
 
 	// validate header magic
 	if (header->magic != HEAP_MAGIC)
 		error("heap: file '%s' has invalid header",
-		      str_of(&file.path));
+		      str_of(&file->path));
 
 	// validate header crc
 	uint32_t crc = runtime()->crc(0, &header->magic, size - sizeof(uint32_t));
 	if (crc != header->crc)
 		error("heap: file '%s' header crc mismatch",
-		      str_of(&file.path));
+		      str_of(&file->path));
 
 	// validate version
 	if (header->version != HEAP_VERSION)
 		error("heap: file '%s' has incompatible version",
-		      str_of(&file.path));
+		      str_of(&file->path));
+}
+
+void
+heap_open_header(Heap* self, Id* id, int state)
+{
+	// read header only
+	File file;
+	file_init(&file);
+	defer(file_close, &file);
+	id_open(id, &file, state);
+	heap_read_header(self, &file);
+}
+
+void
+heap_open(Heap* self, Id* id, int state)
+{
+	// open heap file
+	File file;
+	file_init(&file);
+	defer(file_close, &file);
+	id_open(id, &file, state);
+
+	// read header
+	heap_read_header(self, &file);
+	auto header = self->header;
+	uint32_t crc;
 
 	// prepare encoder
 	Encoder ec;
diff --git a/amelie/db/heap/heap_file.h b/amelie/db/heap/heap_file.h
index d3535f4..e8d62d4 100644
--- a/amelie/db/heap/heap_file.h
+++ b/amelie/db/heap/heap_file.h
@@ -12,4 +12,5 @@
 //
 
 void heap_create(Heap*, File*, Id*, int);
+void heap_open_header(Heap*, Id*, int);
 void heap_open(Heap*, Id*, int);
diff --git a/amelie/db/part/part_mgr_recover.c b/amelie/db/part/part_mgr_recover.c
index 26342f6..f0d0357 100644
--- a/amelie/db/part/part_mgr_recover.c
+++ b/amelie/db/part/part_mgr_recover.c
@@ -85,10 +85,30 @@ part_mgr_recover_volume(PartMgr* self, Volume* volume)
 	}
 }
 
+static bool
+part_mgr_has(PartMgr* self, int hash_min)
+{
+	list_foreach(&self->list)
+	{
+		auto part = list_at(Part, link);
+		if (part->heap->header->hash_min == hash_min)
+			return true;
+	}
+	return false;
+}
+
 static void
 part_mgr_create(PartMgr* self)
 {
-	// create initial hash partitions
+	// read hash ranges of the existing partitions
+	list_foreach(&self->list)
+	{
+		auto part = list_at(Part, link);
+		heap_open_header(part->heap, &part->id, STATE_COMPLETE);
+	}
+
+	// create initial hash partitions (or the remaining ones, if the
+	// previous creation was interrupted)
 	auto count = self->config->partitions;
 	if (count < 1 || count > PART_MAPPING_MAX)
 		error("table has invalid partitions number");
@@ -99,6 +119,22 @@ part_mgr_create(PartMgr* self)
 	int range_start    = 0;
 	for (auto order = 0; order < count; order++)
 	{
+		// set hash range
+		int range_step;
+		auto is_last = (order == count - 1);
+		if (is_last)
+			range_step = range_max - range_start;
+		else
+			range_step = range_interval;
+		if ((range_start + range_step) > range_max)
+			range_step = range_max - range_start;
+
+		auto hash_min = range_start;
+		auto hash_max = range_start + range_step;
+		range_start += range_step;
+		if (part_mgr_has(self, hash_min))
+			continue;
+
 		// choose next volume
 		auto volume = volume_mgr_next(&self->config->volumes);
 
@@ -112,19 +148,8 @@ part_mgr_create(PartMgr* self)
 		auto part = part_allocate(&id, self->arg);
 		part_mgr_add(self, part);
 
-		// set hash range
-		int range_step;
-		auto is_last = (order == count - 1);
-		if (is_last)
-			range_step = range_max - range_start;
-		else
-			range_step = range_interval;
-		if ((range_start + range_step) > range_max)
-			range_step = range_max - range_start;
-
-		part->heap->header->hash_min = range_start;
-		part->heap->header->hash_max = range_start + range_step;
-		range_start += range_step;
+		part->heap->header->hash_min = hash_min;
+		part->heap->header->hash_max = hash_max;
 
 		// create <id>.partition.incomplete file
 		File file;
@@ -155,6 +180,6 @@ part_mgr_recover(PartMgr* self)
 	}
 
 	// create initial partitions
-	if (! self->list_count)
+	if (!self->list_count || self->list_count < self->config->partitions)
 		part_mgr_create(self);
 }
-- 
2.43.0


From 563aa023a63aa21bddb6701a220824686ecc6946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 39/94] fix: report decompressed data of an unexpected size

---
 amelie/runtime/lib/codec_compression.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/codec_compression.c b/amelie/runtime/lib/codec_compression.c
index c2b3f4a..f49eb8b 100644
--- a/amelie/runtime/lib/codec_compression.c
+++ b/amelie/runtime/lib/codec_compression.c
@@ -137,7 +137,8 @@ codec_zstd_decode(Codec*   codec,
 	int rc = ZSTD_decompress(dst, dst_size, src, src_size);
 	if (unlikely(ZSTD_isError(rc)))
 		error("zstd: decode failed: %s", ZSTD_getErrorName(rc));
-	assert(rc == dst_size);
+	if (unlikely(rc != dst_size))
+		error("zstd: decode failed: unexpected data size");
 }
 
 static CodecIf codec_zstd =
-- 
2.43.0


From 438d2ed2034d05b936e59fe1f0c0912c0df5f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 40/94] fix: damaged page header of a heap file corrupted
 memory

---
 amelie/db/heap/heap_file.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/amelie/db/heap/heap_file.c b/amelie/db/heap/heap_file.c
index b0aef09..541e856 100644
--- a/amelie/db/heap/heap_file.c
+++ b/amelie/db/heap/heap_file.c
@@ -100,6 +100,31 @@ heap_open_header(Heap* self, Id* id, int state)
 	heap_read_header(self, &file);
 }
 
+static void
+heap_validate_page(Heap* self, File* file, PageHeader* page, uint32_t order)
+{
+	// page header is not covered by the page crc
+	auto size_max  = (uint32_t)self->page_mgr.page_size;
+	auto size_last = (uint32_t)sizeof(HeapChunk);
+	if (page->order != order || page->size > size_max || page->size < size_last ||
+	    page->last < sizeof(PageHeader) ||
+	    page->last > page->size - size_last ||
+	    page->size_compressed > file->size)
+		error("heap: file '%s' has invalid page header",
+		      str_of(&file->path));
+}
+
+static void
+heap_validate_page_last(Heap* self, File* file, PageHeader* page)
+{
+	// last chunk ends the page
+	auto chunk = (HeapChunk*)((uintptr_t)page + page->last);
+	if (!chunk->is_last || chunk->offset != page->last || chunk->bucket > 384 ||
+	    page->last + self->buckets[chunk->bucket].size != page->size)
+		error("heap: file '%s' has invalid page header",
+		      str_of(&file->path));
+}
+
 void
 heap_open(Heap* self, Id* id, int state)
 {
@@ -128,6 +153,7 @@ heap_open(Heap* self, Id* id, int state)
 		auto page = page_mgr_allocate(page_mgr);
 		file_read(&file, page->pointer, sizeof(PageHeader));
 		auto page_header = (PageHeader*)page->pointer;
+		heap_validate_page(self, &file, page_header, i);
 
 		// decode page or read page as is
 		if (encoder_active(&ec))
@@ -166,6 +192,7 @@ heap_open(Heap* self, Id* id, int state)
 					      str_of(&file.path));
 			}
 		}
+		heap_validate_page_last(self, &file, page_header);
 	}
 
 	// restore last page position
-- 
2.43.0


From 1be0288df2ead574c909ca505749378f7b0f7bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 41/94] fix: sequence lost ids or went negative when synced
 with inserted values

---
 amelie/db/row/sequence.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/amelie/db/row/sequence.h b/amelie/db/row/sequence.h
index 0966637..0e04312 100644
--- a/amelie/db/row/sequence.h
+++ b/amelie/db/row/sequence.h
@@ -57,11 +57,20 @@ sequence_get(Sequence* self)
 }
 
 static inline void
-sequence_sync(Sequence* self, uint64_t value)
+sequence_sync(Sequence* self, int64_t value)
 {
-	spinlock_lock(&self->lock);
-	auto next = value + 1;
-	if (self->value < next)
-		self->value = next;
-	spinlock_unlock(&self->lock);
+	// negative ids and the maximum id do not advance the sequence
+	if (value < 0 || value == INT64_MAX)
+		return;
+
+	// sequence_next() does not take any lock
+	uint64_t next    = (uint64_t)value + 1;
+	uint64_t current = sequence_get(self);
+	while (current < next)
+	{
+		auto prev = __sync_val_compare_and_swap(&self->value, current, next);
+		if (prev == current)
+			break;
+		current = prev;
+	}
 }
-- 
2.43.0


From 33134e3559e1fd2fd8a7511a8b964b11215a861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 42/94] fix: drop directories and storage references of a table
 without partitions

A table which failed to create its first partition kept its volume
directories and its references to the storages forever, so those
storages could never be dropped.
---
 amelie/db/part/part_mgr.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index b742e3a..2a87a70 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -97,9 +97,6 @@ part_mgr_close(PartMgr* self)
 void
 part_mgr_drop(PartMgr* self)
 {
-	if (! self->list_count)
-		return;
-
 	list_foreach_safe(&self->list)
 	{
 		auto part = list_at(Part, link);
-- 
2.43.0


From 28a1de76a379c226c1ff90f99ff49e1b28fbe517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:14 +0000
Subject: [PATCH 43/94] fix: opening a table with tiers crashed

An object was added to the key mapping of its tier before its branches
were read, and objects without rows have no key range to map.
---
 amelie/db/object/mapping.h | 19 +++++++++++++++----
 amelie/db/part/cursor.c    |  6 ++++++
 amelie/db/tier/tier.c      |  5 +++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/amelie/db/object/mapping.h b/amelie/db/object/mapping.h
index b9a1873..045495c 100644
--- a/amelie/db/object/mapping.h
+++ b/amelie/db/object/mapping.h
@@ -55,8 +55,6 @@ mapping_max(Mapping* self)
 hot always_inline static inline int
 mapping_compare(Mapping* self, Object* object, Row* key)
 {
-	if (self->tree_count == 1)
-		return 0;
 	return compare(self->keys, branch_min(object->root), key);
 }
 
@@ -66,9 +64,12 @@ rbtree_get(mapping_find, mapping_compare(arg, mapping_of(n), key))
 static inline void
 mapping_add(Mapping* self, Object* object)
 {
+	// empty objects have no key range
 	const auto key = branch_min(object->root);
-	RbtreeNode* node;
-	auto rc = mapping_find(&self->tree, NULL, key, &node);
+	if (! key)
+		return;
+	RbtreeNode* node = NULL;
+	auto rc = mapping_find(&self->tree, self, key, &node);
 	if (rc == 0 && node)
 		assert(0);
 	rbtree_set(&self->tree, node, rc, &object->link_mapping);
@@ -78,6 +79,8 @@ mapping_add(Mapping* self, Object* object)
 static inline void
 mapping_remove(Mapping* self, Object* object)
 {
+	if (! branch_min(object->root))
+		return;
 	rbtree_remove(&self->tree, &object->link_mapping);
 	self->tree_count--;
 	assert(self->tree_count >= 0);
@@ -110,6 +113,14 @@ mapping_prev(Mapping* self, Object* object)
 hot static inline Object*
 mapping_map(Mapping* self, Row* key)
 {
+	// all objects are empty
+	if (unlikely(! self->tree_count))
+		return NULL;
+
+	// without a key start from the first object
+	if (! key)
+		return mapping_min(self);
+
 	// part[n].min >= key && key < part[n + 1].min
 	RbtreeNode* node = NULL;
 	int rc = mapping_find(&self->tree, self, key, &node);
diff --git a/amelie/db/part/cursor.c b/amelie/db/part/cursor.c
index 7fcfb2c..8ed42ee 100644
--- a/amelie/db/part/cursor.c
+++ b/amelie/db/part/cursor.c
@@ -47,6 +47,8 @@ cursor_lookup(PartMgr*     self,
 	{
 		auto tier = list_at(Tier, link);
 		auto object = mapping_map(&tier->mapping, key);
+		if (! object)
+			continue;
 
 		// iterate branches (from hot to cold)
 		auto branch = object->branches;
@@ -97,6 +99,8 @@ cursor_scan(PartMgr*     self,
 		// todo: switch to tier iterator
 		// match object
 		auto object = mapping_map(&tier->mapping, key);
+		if (! object)
+			continue;
 
 		// add branches (from hot to cold)
 		auto branch = object->branches;
@@ -148,6 +152,8 @@ cursor_scan_cross(PartMgr*     self,
 		// todo: switch to tier iterator
 		// match object
 		auto object = mapping_map(&tier->mapping, key);
+		if (! object)
+			continue;
 
 		// add branches (from hot to cold)
 		auto branch = object->branches;
diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index c2451af..399b353 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -172,13 +172,14 @@ tier_open_volume(Tier* self, Volume* volume)
 		switch (state) {
 		case STATE_COMPLETE:
 		{
-			// add object to the tier
 			auto object = object_allocate(&id);
-			tier_add(self, object);
+			errdefer(object_free, object);
 
 			// recover branches
 			object_open(object, STATE_COMPLETE);
 
+			// add object to the tier
+			tier_add(self, object);
 			break;
 		}
 		case STATE_INCOMPLETE:
-- 
2.43.0


From 301a492e1869afb64691d4630066d4d838010a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 44/94] fix: abort of CREATE INDEX crashed

The transaction log kept the address of libc's index() instead of the
index to remove.
---
 amelie/db/catalog/table_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_index.c b/amelie/db/catalog/table_index.c
index 52cc877..1c28362 100644
--- a/amelie/db/catalog/table_index.c
+++ b/amelie/db/catalog/table_index.c
@@ -62,7 +62,7 @@ table_index_add(Table* self, Tr* tr, IndexConfig* config)
 	table_config_index_add(self->config, config);
 
 	// update table
-	log_relation(&tr->log, &add_if, index, &self->rel);
+	log_relation(&tr->log, &add_if, config, &self->rel);
 
 	// use separate log command for create
 	// index processing
-- 
2.43.0


From 30e0846b550d41dd7bcd506d5eeb7578f3dc3242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 45/94] fix: DROP INDEX removed the primary index of a table

---
 amelie/db/catalog/table_index.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amelie/db/catalog/table_index.c b/amelie/db/catalog/table_index.c
index 1c28362..2724158 100644
--- a/amelie/db/catalog/table_index.c
+++ b/amelie/db/catalog/table_index.c
@@ -109,6 +109,14 @@ table_index_drop(Table* self,
 		return false;
 	}
 
+	// primary index cannot be dropped
+	if (index == table_primary(self))
+		error("table '%.*s' index '%.*s': primary index cannot be dropped",
+		      str_size(&self->config->name),
+		      str_of(&self->config->name),
+		      str_size(name),
+		      str_of(name));
+
 	// update table
 	log_relation(&tr->log, &drop_if, index, &self->rel);
 	return true;
-- 
2.43.0


From 6fa773af632e48791c4639fcccda6b9f2e402623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 46/94] fix: objects in compressed storages could not be opened

The checksum of the meta data was compared with the checksum of the
buffer it was not yet decompressed into.
---
 amelie/db/object/object.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index 552f5ca..fce8321 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -46,9 +46,9 @@ object_free(Object* self)
 }
 
 static void
-object_validate_index(Object* self, Branch* branch)
+object_validate_index(Object* self, Branch* branch, Buf* data)
 {
-	uint32_t crc = runtime()->crc(0, branch->meta_data.start, buf_size(&branch->meta_data));
+	uint32_t crc = runtime()->crc(0, data->start, buf_size(data));
 	if (crc != branch->meta.crc_data)
 		error("object: file meta data '%s' crc mismatch",
 		      str_of(&self->file.path));
@@ -73,7 +73,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	if (! encoder_active(&encoder))
 	{
 		file_pread_buf(file, meta_data, meta->size, offset);
-		object_validate_index(self, branch);
+		object_validate_index(self, branch, meta_data);
 		return;
 	}
 
@@ -81,7 +81,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	auto buf = buf_create();
 	defer_buf(buf);
 	file_pread_buf(file, buf, meta->size, offset);
-	object_validate_index(self, branch);
+	object_validate_index(self, branch, buf);
 
 	// decompress index
 	buf_emplace(meta_data, meta->size_origin);
-- 
2.43.0


From 1f0da849f2c3c3f7972fa537f530b9da58a91848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 47/94] fix: objects in uncompressed storages were written with
 a wrong size

Only the first of the buffers of a region, and of the meta data, was
counted, so the header was written over the regions.
---
 amelie/db/object/meta_writer.h |  4 ++--
 amelie/db/storage/encoder.h    | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/amelie/db/object/meta_writer.h b/amelie/db/object/meta_writer.h
index ad30d9e..9fab4a7 100644
--- a/amelie/db/object/meta_writer.h
+++ b/amelie/db/object/meta_writer.h
@@ -90,7 +90,7 @@ meta_writer_stop(MetaWriter* self)
 	meta->magic             = META_MAGIC;
 	meta->version           = META_VERSION;
 	meta->size_origin       = meta->size;
-	meta->size              = encoder_iov(encoder)->iov_len;
+	meta->size              = encoder_iov_size(encoder);
 	meta->size_total        =
 		meta->size_regions + meta->size + sizeof(Meta);
 	meta->size_total_origin =
@@ -109,7 +109,7 @@ meta_writer_add(MetaWriter*   self,
 	assert(region->rows > 0);
 
 	// get region size
-	uint32_t size = encoder_iov(&region_writer->encoder)->iov_len;
+	uint32_t size = encoder_iov_size(&region_writer->encoder);
 
 	// calculate region crc
 	uint32_t crc = 0;
diff --git a/amelie/db/storage/encoder.h b/amelie/db/storage/encoder.h
index 1a120a6..cbea0d9 100644
--- a/amelie/db/storage/encoder.h
+++ b/amelie/db/storage/encoder.h
@@ -114,6 +114,17 @@ encoder_iov_count(Encoder* self)
 	return self->iov.iov_count;
 }
 
+static inline size_t
+encoder_iov_size(Encoder* self)
+{
+	// calculate encoded iov size
+	auto iov = encoder_iov(self);
+	size_t size = 0;
+	for (auto i = 0; i < self->iov.iov_count; i++)
+		size += iov[i].iov_len;
+	return size;
+}
+
 static inline uint32_t
 encoder_iov_crc(Encoder* self)
 {
-- 
2.43.0


From 83294b97a8886001d19a9e199c60bfe8478798a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 48/94] fix: names of tiers and of their storages were
 case-sensitive

All other names are not: the same storage could be added to a tier twice.
---
 amelie/db/storage/volume_mgr.h | 2 +-
 amelie/db/tier/tier_mgr.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/storage/volume_mgr.h b/amelie/db/storage/volume_mgr.h
index 0e4abe7..6662b30 100644
--- a/amelie/db/storage/volume_mgr.h
+++ b/amelie/db/storage/volume_mgr.h
@@ -117,7 +117,7 @@ volume_mgr_find(VolumeMgr* self, Str* name)
 	list_foreach(&self->list)
 	{
 		auto ref = list_at(Volume, link);
-		if (str_compare(&ref->name, name))
+		if (str_compare_case(&ref->name, name))
 			return ref;
 	}
 	return NULL;
diff --git a/amelie/db/tier/tier_mgr.c b/amelie/db/tier/tier_mgr.c
index 64d7568..33b5421 100644
--- a/amelie/db/tier/tier_mgr.c
+++ b/amelie/db/tier/tier_mgr.c
@@ -106,7 +106,7 @@ tier_mgr_find(TierMgr* self, Str* name)
 	list_foreach(&self->list)
 	{
 		auto tier = list_at(Tier, link);
-		if (str_compare(&tier->config->name, name))
+		if (str_compare_case(&tier->config->name, name))
 			return tier;
 	}
 	return NULL;
-- 
2.43.0


From 9f6f75e0b9171e0d5746cbb7f804149c4b3a6df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 49/94] fix: dropping a storage of a tier

It deleted the objects of the other storages of the tier and accepted the
last active one. A storage holding only its initial object without rows
can be dropped: recovery creates that object again when the directory is
gone already, and then failed to repeat the statement.
---
 amelie/db/catalog/table_tier.c | 14 +++++++++++---
 amelie/db/tier/tier.c          | 30 ++++++++++++++++++++++++++++++
 amelie/db/tier/tier.h          |  2 ++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/amelie/db/catalog/table_tier.c b/amelie/db/catalog/table_tier.c
index 7c49393..133e66b 100644
--- a/amelie/db/catalog/table_tier.c
+++ b/amelie/db/catalog/table_tier.c
@@ -308,7 +308,7 @@ storage_drop_if_commit(Log* self, LogOp* op)
 
 	auto volume = volume_mgr_find(&tier->config->volumes, &storage_name);
 	assert(volume);
-	tier_truncate(tier);
+	tier_drop_volume(tier, volume);
 	error_catch (
 		volume_rmdir(volume);
 	);
@@ -366,8 +366,8 @@ table_tier_storage_drop(Table* self,
 		return false;
 	}
 
-	// ensure volume has no deps
-	if (volume->list_count > 0)
+	// ensure volume has no data
+	if (! tier_is_empty(tier, volume))
 		error("table '%.*s' tier '%.*s' storage '%.*s': is not empty",
 		      str_size(&self->config->name),
 		      str_of(&self->config->name),
@@ -376,6 +376,14 @@ table_tier_storage_drop(Table* self,
 		      str_size(name_storage),
 		      str_of(name_storage));
 
+	// ensure at least one volume is still active
+	if (!volume->pause && volume_mgr_count(&tier->config->volumes) <= 1)
+		error("table '%.*s' tier '%.*s': at least one storage must remain active",
+		      str_size(&self->config->name),
+		      str_of(&self->config->name),
+		      str_size(name),
+		      str_of(name));
+
 	// update table
 	log_relation(&tr->log, &storage_drop_if, tier, &self->rel);
 
diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index 399b353..6976604 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -83,6 +83,36 @@ tier_drop(Tier* self)
 	volume_mgr_rmdir(&self->config->volumes);
 }
 
+bool
+tier_is_empty(Tier* self, Volume* volume)
+{
+	// true, if all volume objects have no rows
+	list_foreach(&self->list)
+	{
+		auto object = list_at(Object, link);
+		if (object->id.volume != volume)
+			continue;
+		for (auto branch = object->branches; branch; branch = branch->next)
+			if (branch->meta.rows > 0)
+				return false;
+	}
+	return true;
+}
+
+void
+tier_drop_volume(Tier* self, Volume* volume)
+{
+	// remove volume objects (files are deleted with the volume directory)
+	list_foreach_safe(&self->list)
+	{
+		auto object = list_at(Object, link);
+		if (object->id.volume != volume)
+			continue;
+		tier_remove(self, object);
+		object_free(object);
+	}
+}
+
 Object*
 tier_find(Tier* self, uint64_t psn)
 {
diff --git a/amelie/db/tier/tier.h b/amelie/db/tier/tier.h
index b6b256e..04e2a55 100644
--- a/amelie/db/tier/tier.h
+++ b/amelie/db/tier/tier.h
@@ -29,6 +29,8 @@ void    tier_add(Tier*, Object*);
 void    tier_remove(Tier*, Object*);
 void    tier_truncate(Tier*);
 void    tier_drop(Tier*);
+bool    tier_is_empty(Tier*, Volume*);
+void    tier_drop_volume(Tier*, Volume*);
 Object* tier_find(Tier*, uint64_t);
 
 static inline bool
-- 
2.43.0


From 2229e322d74bc4f30ae7fc91fd5f326e08f26d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 50/94] fix: empty objects in uncompressed storages could not
 be opened

Reading their meta data of zero bytes was taken for the end of the file.
---
 amelie/db/object/object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index fce8321..cbb6f39 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -72,7 +72,8 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	// no compression
 	if (! encoder_active(&encoder))
 	{
-		file_pread_buf(file, meta_data, meta->size, offset);
+		if (meta->size > 0)
+			file_pread_buf(file, meta_data, meta->size, offset);
 		object_validate_index(self, branch, meta_data);
 		return;
 	}
-- 
2.43.0


From e95c9281e4361f239c30c812ba86554949e7c0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 51/94] fix: abort of CREATE TIER left its directories and
 objects

---
 amelie/db/catalog/table_tier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_tier.c b/amelie/db/catalog/table_tier.c
index 133e66b..c347b12 100644
--- a/amelie/db/catalog/table_tier.c
+++ b/amelie/db/catalog/table_tier.c
@@ -54,7 +54,7 @@ create_if_abort(Log* self, LogOp* op)
 	auto relation = log_relation_of(self, op);
 	auto table = table_of(relation->relation);
 	Tier* tier = op->iface_arg;
-	table_tier_delete(table, tier, false);
+	table_tier_delete(table, tier, true);
 }
 
 static LogIf create_if =
-- 
2.43.0


From d6c9b3156ae6170aad61a2becc1bbe00a096afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 52/94] fix: abort of SET LOGGED/UNLOGGED to the current value
 changed it

---
 amelie/db/catalog/table_mgr_alter.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_mgr_alter.c b/amelie/db/catalog/table_mgr_alter.c
index da57bc7..958dd8d 100644
--- a/amelie/db/catalog/table_mgr_alter.c
+++ b/amelie/db/catalog/table_mgr_alter.c
@@ -152,7 +152,10 @@ set_unlogged_if_abort(Log* self, LogOp* op)
 {
 	auto relation = log_relation_of(self, op);
 	auto table = table_of(relation->relation);
-	table_set_unlogged(table, !table->config->unlogged);
+	uint8_t* pos = relation->data;
+	bool value;
+	json_read_bool(&pos, &value);
+	table_set_unlogged(table, value);
 }
 
 static LogIf set_unlogged_if =
@@ -181,6 +184,9 @@ table_mgr_set_unlogged(TableMgr* self,
 	// update table
 	log_relation(&tr->log, &set_unlogged_if, NULL, &table->rel);
 
+	// save previous value
+	encode_bool(&tr->log.data, table->config->unlogged);
+
 	// set table and partitions as unlogged
 	table_set_unlogged(table, value);
 	return true;
-- 
2.43.0


From 5f03b2c0b6d0c09de74005df47b712576f182cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 53/94] fix: ALTER TABLE IF EXISTS .. TIER .. SET ignored IF
 EXISTS

---
 amelie/db/catalog/catalog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/catalog/catalog.c b/amelie/db/catalog/catalog.c
index f1849a9..53c3577 100644
--- a/amelie/db/catalog/catalog.c
+++ b/amelie/db/catalog/catalog.c
@@ -477,8 +477,8 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 		auto table = table_mgr_find(&self->table_mgr, &db, &name, true);
 		auto config = tier_config_read(&config_pos);
 		defer(tier_config_free, config);
-		auto if_not_exists = ddl_if_not_exists(flags);
-		write = table_tier_set(table, tr, config, mask, if_not_exists);
+		auto if_exists = ddl_if_exists(flags);
+		write = table_tier_set(table, tr, config, mask, if_exists);
 		break;
 	}
 	case DDL_TIER_STORAGE_DROP:
-- 
2.43.0


From e4bc986d9cf190b9f0d8ca4b5d6b06fce9c88bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:39 +0000
Subject: [PATCH 54/94] fix: abort of a rename of a storage or database changed
 the case of its name

The name was restored as typed in the statement.
---
 amelie/db/catalog/database_mgr.c | 2 +-
 amelie/db/storage/storage_mgr.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/catalog/database_mgr.c b/amelie/db/catalog/database_mgr.c
index 71eeb97..ac68a6a 100644
--- a/amelie/db/catalog/database_mgr.c
+++ b/amelie/db/catalog/database_mgr.c
@@ -134,7 +134,7 @@ database_mgr_rename(DatabaseMgr* self,
 	log_relation(&tr->log, &rename_if, NULL, &db->rel);
 
 	// save name for rollback
-	encode_string(&tr->log.data, name);
+	encode_string(&tr->log.data, &db->config->name);
 
 	// set new name
 	database_config_set_name(db->config, name_new);
diff --git a/amelie/db/storage/storage_mgr.c b/amelie/db/storage/storage_mgr.c
index 8d9c68f..b8b30d1 100644
--- a/amelie/db/storage/storage_mgr.c
+++ b/amelie/db/storage/storage_mgr.c
@@ -137,7 +137,7 @@ storage_mgr_rename(StorageMgr* self,
 	log_relation(&tr->log, &rename_if, NULL, &storage->rel);
 
 	// save name for rollback
-	encode_string(&tr->log.data, name);
+	encode_string(&tr->log.data, &storage->config->name);
 
 	// set new name
 	storage_config_set_name(storage->config, name_new);
-- 
2.43.0


From 821d0657d012c4eaf27b089bf0dbe500f9e27a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 55/94] fix: dropped columns came back after a restart

---
 amelie/db/row/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/row/column.h b/amelie/db/row/column.h
index ceefd95..28c4128 100644
--- a/amelie/db/row/column.h
+++ b/amelie/db/row/column.h
@@ -77,6 +77,7 @@ column_copy(Column* self)
 	auto copy = column_allocate();
 	column_set_name(copy, &self->name);
 	column_set_type(copy, self->type, self->type_size);
+	column_set_dropped(copy, self->dropped);
 	constraints_copy(&self->constraints, &copy->constraints);
 	return copy;
 }
-- 
2.43.0


From a7a4580164cd67cb838a4262de14e1b13aff3329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 56/94] fix: truncated rows came back after a restart

TRUNCATE did not mark the partitions as changed, so a checkpoint kept
their files with the rows and moved past the statement in the log.
---
 amelie/db/part/part_mgr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index 2a87a70..373e449 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -119,6 +119,9 @@ part_mgr_truncate(PartMgr* self)
 	{
 		auto part = list_at(Part, link);
 		part_truncate(part);
+
+		// partition file still has the rows
+		track_lsn_follow(&part->track, state_lsn());
 	}
 }
 
-- 
2.43.0


From 79e37f9e8425af88a4ed20c8f3da3a5cd261af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 57/94] fix: crash on restart of a table with an added identity
 column

Rows created before the column have no value of it.
---
 amelie/db/part/part_op.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amelie/db/part/part_op.c b/amelie/db/part/part_op.c
index 1ab665b..952a2e7 100644
--- a/amelie/db/part/part_op.c
+++ b/amelie/db/part/part_op.c
@@ -89,11 +89,15 @@ part_sync_sequence(Part* self, Row* row, Columns* columns)
 	// use first identity column to sync the sequence
 	if (! columns->identity)
 		return;
+	// row was created before the column
+	auto data = row_column(row, columns->identity);
+	if (unlikely(! data))
+		return;
 	int64_t value;
 	if (columns->identity->type_size == 4)
-		value = *(int32_t*)row_column(row, columns->identity);
+		value = *(int32_t*)data;
 	else
-		value = *(int64_t*)row_column(row, columns->identity);
+		value = *(int64_t*)data;
 	sequence_sync(self->arg->seq, value);
 }
 
-- 
2.43.0


From 4f458a297ab9e1ddfdce6ea363b93d86a39eba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 58/94] fix: server crashed if the write ahead log cannot be
 opened

wal_mgr_stop() is called after a failed start, too: there was no current file
to sync and no worker to stop. An error of the last sync left the log open.
---
 amelie/db/wal/wal_mgr.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amelie/db/wal/wal_mgr.c b/amelie/db/wal/wal_mgr.c
index 1215776..2e43ccd 100644
--- a/amelie/db/wal/wal_mgr.c
+++ b/amelie/db/wal/wal_mgr.c
@@ -41,7 +41,11 @@ void
 wal_mgr_start(WalMgr* self)
 {
 	// open wal directory
-	wal_open(&self->wal);
+	if (error_catch( wal_open(&self->wal) ))
+	{
+		wal_close(&self->wal);
+		rethrow();
+	}
 
 	// start wal worker
 	if (opt_int_of(&config()->wal_worker))
@@ -54,6 +58,10 @@ wal_mgr_stop(WalMgr* self)
 	// stop periodic sync
 	wal_periodic_stop(&self->wal_periodic);
 
+	// wal was not opened (error during start)
+	if (! self->wal.current)
+		return;
+
 	// stop wal worker
 	if (opt_int_of(&config()->wal_worker))
 	{
@@ -65,7 +73,7 @@ wal_mgr_stop(WalMgr* self)
 	} else
 	{
 		if (opt_int_of(&config()->wal_sync_on_close))
-			wal_sync(&self->wal, false);
+			error_catch( wal_sync(&self->wal, false) );
 	}
 
 	// shutdown wal
-- 
2.43.0


From 734df38297a6fcd71465943f14dc3489b7a84425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 59/94] fix: tables were deleted if they could not be opened on
 start

An error during restore of a table (no file descriptors, read error, damaged
file) aborted its creation, which deletes all its files.
---
 amelie/db/catalog/catalog_file.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/db/catalog/catalog_file.c b/amelie/db/catalog/catalog_file.c
index a89f867..a13b845 100644
--- a/amelie/db/catalog/catalog_file.c
+++ b/amelie/db/catalog/catalog_file.c
@@ -95,7 +95,9 @@ catalog_restore_object(Catalog* self, int type, uint8_t** pos)
 		// commit (without wal write)
 		tr_commit(&tr);
 	)) {
-		tr_abort(&tr);
+		// do not abort, files of the existing objects must be kept
+		// (the object will be freed on catalog close)
+		tr_commit(&tr);
 		rethrow();
 	}
 }
-- 
2.43.0


From dd4028cf52423cb470267c3c49cf2620045c2bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 60/94] fix: errors of file removal interrupted commit or abort
 of a DROP

The object was already removed from the catalog and was never freed, commits
and aborts of following operations of the transaction were not executed.
---
 amelie/db/part/part_mgr.c  | 2 +-
 amelie/db/storage/volume.h | 6 ++++--
 amelie/db/tier/tier.c      | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index 373e449..c08bd0d 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -101,7 +101,7 @@ part_mgr_drop(PartMgr* self)
 	{
 		auto part = list_at(Part, link);
 		part_mgr_remove(self, part);
-		id_delete(&part->id, STATE_COMPLETE);
+		error_catch( id_delete(&part->id, STATE_COMPLETE) );
 		part_free(part);
 	}
 	assert(! self->list_count);
diff --git a/amelie/db/storage/volume.h b/amelie/db/storage/volume.h
index e4fa053..4ccb75f 100644
--- a/amelie/db/storage/volume.h
+++ b/amelie/db/storage/volume.h
@@ -174,6 +174,8 @@ volume_mkdir(Volume* self)
 static inline void
 volume_rmdir(Volume* self)
 {
+	// called on commit or abort and must not fail, leaving files
+	// behind is not an error
 	if (! self->storage)
 		return;
 
@@ -190,7 +192,7 @@ volume_rmdir(Volume* self)
 	auto path_storage = &self->storage->config->path;
 	if (str_empty(path_storage))
 	{
-		fs_rmdir(true, "%s", path);
+		error_catch( fs_rmdir(true, "%s", path) );
 		return;
 	}
 
@@ -205,5 +207,5 @@ volume_rmdir(Volume* self)
 
 	// <storage_path>/<volume_id>
 	if (fs_exists("%s", path_ext))
-		fs_rmdir(true, "%s", path_ext);
+		error_catch( fs_rmdir(true, "%s", path_ext) );
 }
diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index 6976604..c33c786 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -66,7 +66,7 @@ tier_truncate(Tier* self)
 	{
 		auto object = list_at(Object, link);
 		tier_remove(self, object);
-		object_delete(object, STATE_COMPLETE);
+		error_catch( object_delete(object, STATE_COMPLETE) );
 		object_free(object);
 	}
 	self->list_count = 0;
-- 
2.43.0


From 79435eac7f158693a4bb62d6e15b36ba92d65b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 61/94] fix: leftovers of volumes in external storages broke
 following starts

Files left in the external directory by an interrupted creation were not seen
until the next start, which opened them in addition to the new partitions. A
failed removal of the symlink was followed by the removal of its directory.
---
 amelie/db/part/part_mgr_recover.c | 5 ++---
 amelie/db/storage/volume.h        | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amelie/db/part/part_mgr_recover.c b/amelie/db/part/part_mgr_recover.c
index f0d0357..aec765f 100644
--- a/amelie/db/part/part_mgr_recover.c
+++ b/amelie/db/part/part_mgr_recover.c
@@ -29,11 +29,10 @@ part_mgr_recover_volume(PartMgr* self, Volume* volume)
 
 	char path[PATH_MAX];
 	sfmt(path, PATH_MAX, "%s/storage/%s", state_directory(), id);
+	// directory of the external storage can have files of the interrupted
+	// creation
 	if (! fs_exists("%s", path))
-	{
 		volume_mkdir(volume);
-		return;
-	}
 
 	// read directory
 	auto dir = opendir(path);
diff --git a/amelie/db/storage/volume.h b/amelie/db/storage/volume.h
index 4ccb75f..963f697 100644
--- a/amelie/db/storage/volume.h
+++ b/amelie/db/storage/volume.h
@@ -199,7 +199,8 @@ volume_rmdir(Volume* self)
 	// delete symlink
 
 	// <base>/storage/<volume_id>
-	vfs_unlink(path);
+	if (vfs_unlink(path) == -1)
+		return;
 
 	// delete external directory
 	char path_ext[PATH_MAX];
-- 
2.43.0


From e8266111ff24d4979d7cc4148038ada53949332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 62/94] fix: catalog file was lost after an error of its rename

catalog.json was removed before the rename. After an error only the incomplete
file was left, and the next catalog write starts from its removal: a crash
during it left no catalog to start from.
---
 amelie/db/catalog/catalog_file.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/amelie/db/catalog/catalog_file.c b/amelie/db/catalog/catalog_file.c
index a13b845..5b99eb0 100644
--- a/amelie/db/catalog/catalog_file.c
+++ b/amelie/db/catalog/catalog_file.c
@@ -256,14 +256,7 @@ catalog_write(Catalog* self)
 	if (opt_int_of(&config()->catalog_sync))
 		file_sync(&file);
 
-	// remove catalog.json file, if exsists
-	sfmt(path, sizeof(path), "%s/catalog.json",
-	     state_directory());
-
-	if (fs_exists("%s", path))
-		fs_unlink("%s", path);
-
-	// rename
+	// rename (replaces existing catalog.json file)
 	sfmt(path, sizeof(path), "%s/catalog.json.incomplete",
 	     state_directory());
 	fs_rename(path, "%s/catalog.json", state_directory());
-- 
2.43.0


From 58c778ed37a74025d702b4ad6da736b916cc6d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 63/94] fix: truncate of the wal to the position before its
 first record

The first record was read even if the file starts after the position: a
damaged record made it impossible to remove it.
---
 amelie/db/wal/wal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 3337787..1d43b58 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -223,10 +223,10 @@ wal_truncate(Wal* self, uint64_t lsn)
 	buf_init(&buf);
 	defer_buf(&buf);
 
-	// rewind to the lsn
+	// rewind to the lsn (unless the file starts after it)
 	auto crc = opt_int_of(&config()->wal_crc);
 	uint64_t offset = 0;
-	for (;;)
+	while (id <= lsn)
 	{
 		buf_reset(&buf);
 		if (! wal_file_pread(file, offset, &buf))
-- 
2.43.0


From cdd26e11dc40fc9462dac0d8432d25cb486e2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 64/94] fix: config.json and state.json are replaced atomically
 and synced

---
 amelie/runtime/runtime/config.c | 18 +-------------
 amelie/runtime/runtime/opts.c   | 42 +++++++++++++++++++++++++++++++++
 amelie/runtime/runtime/opts.h   |  1 +
 amelie/runtime/runtime/state.c  | 41 +-------------------------------
 4 files changed, 45 insertions(+), 57 deletions(-)

diff --git a/amelie/runtime/runtime/config.c b/amelie/runtime/runtime/config.c
index 14b83ba..4229850 100644
--- a/amelie/runtime/runtime/config.c
+++ b/amelie/runtime/runtime/config.c
@@ -83,23 +83,7 @@ config_prepare(Config* self)
 void
 config_save(Config* self, const char* path)
 {
-	// get a list of options
-	auto buf = opts_list_persistent(&self->opts);
-	defer_buf(buf);
-
-	// convert to json
-	Buf text;
-	buf_init(&text);
-	defer_buf(&text);
-	uint8_t* pos = buf->start;
-	json_export_pretty(&text, NULL, &pos);
-
-	// create config file
-	File file;
-	file_init(&file);
-	defer(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0644);
-	file_write_buf(&file, &text);
+	opts_save(&self->opts, path, 0644);
 }
 
 void
diff --git a/amelie/runtime/runtime/opts.c b/amelie/runtime/runtime/opts.c
index 31786f2..8a0853f 100644
--- a/amelie/runtime/runtime/opts.c
+++ b/amelie/runtime/runtime/opts.c
@@ -233,3 +233,45 @@ opts_print(Opts* self)
 		opt_print(opt);
 	}
 }
+
+void
+opts_save(Opts* self, const char* path, int mode)
+{
+	// get a list of options
+	auto buf = opts_list_persistent(self);
+	defer_buf(buf);
+
+	// convert to json
+	Buf text;
+	buf_init(&text);
+	defer_buf(&text);
+	uint8_t* pos = buf->start;
+	json_export_pretty(&text, NULL, &pos);
+
+	// create <path>.incomplete
+	char path_new[PATH_MAX];
+	sfmt(path_new, sizeof(path_new), "%s.incomplete", path);
+
+	File file;
+	file_init(&file);
+	defer(file_close, &file);
+	file_open_as(&file, path_new, O_CREAT|O_TRUNC|O_RDWR, mode);
+	file_write_buf(&file, &text);
+	file_sync(&file);
+
+	// rename (replaces existing file)
+	fs_rename(path_new, "%s", path);
+
+	// sync directory
+	auto end = strrchr(path, '/');
+	if (! end)
+		return;
+	sfmt(path_new, sizeof(path_new), "%.*s", (int)(end - path) + 1, path);
+	auto fd = vfs_open(path_new, O_DIRECTORY|O_RDONLY, 0);
+	if (unlikely(fd == -1))
+		error_system();
+	auto rc = vfs_fsync(fd);
+	vfs_close(fd);
+	if (unlikely(rc == -1))
+		error_system();
+}
diff --git a/amelie/runtime/runtime/opts.h b/amelie/runtime/runtime/opts.h
index c49a9ea..cc707ad 100644
--- a/amelie/runtime/runtime/opts.h
+++ b/amelie/runtime/runtime/opts.h
@@ -39,5 +39,6 @@ bool opts_set(Opts*, Str*);
 bool opts_set_argv(Opts*, int, char**);
 Buf* opts_list(Opts*);
 Buf* opts_list_persistent(Opts*);
+void opts_save(Opts*, const char*, int);
 Opt* opts_find(Opts*, Str*);
 void opts_print(Opts*);
diff --git a/amelie/runtime/runtime/state.c b/amelie/runtime/runtime/state.c
index ec5d5ac..5abc257 100644
--- a/amelie/runtime/runtime/state.c
+++ b/amelie/runtime/runtime/state.c
@@ -60,49 +60,10 @@ state_prepare(State* self)
 	opts_define(&self->opts, defs);
 }
 
-static void
-state_save_to(State* self, const char* path)
-{
-	// get a list of optiables
-	auto buf = opts_list_persistent(&self->opts);
-	defer_buf(buf);
-
-	// convert to json
-	Buf text;
-	buf_init(&text);
-	defer_buf(&text);
-	uint8_t* pos = buf->start;
-	json_export_pretty(&text, NULL, &pos);
-
-	// create state file
-	File file;
-	file_init(&file);
-	defer(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0600);
-	file_write_buf(&file, &text);
-}
-
 void
 state_save(State* self, const char* path)
 {
-	if (! fs_exists("%s", path))
-	{
-		state_save_to(self, path);
-		return;
-	}
-
-	// remove old saved state, if exists
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
-
-	// save existing state as a old
-	fs_rename(path, "%s.old", path);
-
-	// create state file
-	state_save_to(self, path);
-
-	// remove old state file
-	fs_unlink("%s.old", path);
+	opts_save(&self->opts, path, 0600);
 }
 
 void
-- 
2.43.0


From ac5af0c58f4a12d99d71bac4c5030f5580818b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 65/94] fix: failed save of users left the change in memory

---
 amelie/server/user/user_mgr.c | 43 +++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/amelie/server/user/user_mgr.c b/amelie/server/user/user_mgr.c
index aeefba0..0ce7652 100644
--- a/amelie/server/user/user_mgr.c
+++ b/amelie/server/user/user_mgr.c
@@ -25,18 +25,6 @@ user_mgr_free(UserMgr* self)
 	user_cache_free(&self->cache);
 }
 
-static inline void
-user_mgr_save(UserMgr* self)
-{
-	// create dump
-	auto buf = user_cache_dump(&self->cache);
-	defer_buf(buf);
-
-	// update and save state
-	opt_json_set_buf(&state()->users, buf);
-	control_save_state();
-}
-
 void
 user_mgr_open(UserMgr* self)
 {
@@ -59,6 +47,37 @@ user_mgr_open(UserMgr* self)
 	}
 }
 
+static inline void
+user_mgr_save(UserMgr* self)
+{
+	// create dump
+	auto buf = user_cache_dump(&self->cache);
+	defer_buf(buf);
+
+	// update and save state
+	auto users = &state()->users;
+	auto users_prev = users->string;
+	str_init(&users->string);
+	auto on_error = error_catch
+	(
+		opt_json_set_buf(users, buf);
+		control_save_state();
+	);
+	if (likely(! on_error))
+	{
+		str_free(&users_prev);
+		return;
+	}
+
+	// restore previous users
+	str_free(&users->string);
+	users->string = users_prev;
+	user_cache_free(&self->cache);
+	user_cache_init(&self->cache);
+	user_mgr_open(self);
+	rethrow();
+}
+
 void
 user_mgr_create(UserMgr* self, UserConfig* config, bool if_not_exists)
 {
-- 
2.43.0


From 947fc2b9be1c8607568e04dc1e2826d9d94a7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 66/94] fix: race of counters that follow a value

---
 amelie/runtime/runtime/opt.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/runtime/opt.h b/amelie/runtime/runtime/opt.h
index 40d8e1f..ec94d19 100644
--- a/amelie/runtime/runtime/opt.h
+++ b/amelie/runtime/runtime/opt.h
@@ -105,9 +105,14 @@ static inline void
 opt_int_follow(Opt* self, uint64_t value)
 {
 	assert(self->type == OPT_INT || self->type == OPT_BOOL);
-	// todo: cas loop
-	if (value > atomic_u64_of(&self->integer))
-		atomic_u64_set(&self->integer, value);
+	auto current = atomic_u64_of(&self->integer);
+	while (value > current)
+	{
+		auto prev = __sync_val_compare_and_swap(&self->integer, current, value);
+		if (prev == current)
+			break;
+		current = prev;
+	}
 }
 
 static inline uint64_t
-- 
2.43.0


From 111e1db8edc9476be5740b10e8c8e82e07c9719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 67/94] fix: cached tokens are not freed on removal

---
 amelie/server/auth/auth_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/server/auth/auth_cache.c b/amelie/server/auth/auth_cache.c
index 357b074..96f9895 100644
--- a/amelie/server/auth/auth_cache.c
+++ b/amelie/server/auth/auth_cache.c
@@ -78,6 +78,7 @@ void
 auth_cache_del(AuthCache* self, AuthCacheNode* node)
 {
 	hashtable_delete(&self->ht, &node->node);
+	auth_cache_node_free(node);
 }
 
 hot static inline bool
-- 
2.43.0


From 2af124e6423154a4749ce6619f9e4c52838a8f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 68/94] fix: decode of base64 read behind its table

---
 amelie/runtime/lib/base64.c    | 2 +-
 amelie/runtime/lib/base64url.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/lib/base64.c b/amelie/runtime/lib/base64.c
index 6cf47fb..1a02dbf 100644
--- a/amelie/runtime/lib/base64.c
+++ b/amelie/runtime/lib/base64.c
@@ -105,7 +105,7 @@ base64_decode(Buf* self, Str* str)
 		if (*pos == '=')
 			break;
 
-		auto c = base64_decode_table[*pos];
+		auto c = *pos < sizeof(base64_decode_table) ? base64_decode_table[*pos] : 255;
 		if (unlikely(c == 255))
 			goto error;
 
diff --git a/amelie/runtime/lib/base64url.c b/amelie/runtime/lib/base64url.c
index 5d4d5e3..5cb2911 100644
--- a/amelie/runtime/lib/base64url.c
+++ b/amelie/runtime/lib/base64url.c
@@ -130,7 +130,7 @@ base64url_decode(Buf* self, Str* str)
 	auto end       = (uint8_t*)str->end;
 	for (auto pos = str_u8(str); pos < end; pos++)
 	{
-		auto c = base64url_decode_table[*pos];
+		auto c = *pos < sizeof(base64url_decode_table) ? base64url_decode_table[*pos] : 255;
 		if (unlikely(c == 255))
 			goto error;
 		switch (order & 0x03) {
-- 
2.43.0


From 871d5aa2ac2c0188e2376797bc39515af57464f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 69/94] fix: users without a secret were authenticated by an
 empty key

---
 amelie/server/auth/auth.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/server/auth/auth.c b/amelie/server/auth/auth.c
index 5487726..9a435b7 100644
--- a/amelie/server/auth/auth.c
+++ b/amelie/server/auth/auth.c
@@ -91,6 +91,11 @@ auth_run(Auth* self, Str* token)
 		error("auth: user '%.*s' not found", str_size(&sub),
 		      str_of(&sub));
 
+	// users without a secret cannot be authenticated
+	if (str_empty(&user->config->secret))
+		error("auth: user '%.*s' secret is not set", str_size(&sub),
+		      str_of(&sub));
+
 	// validate digest using user secret
 	jwt_decode_validate(jwt, &user->config->secret);
 
-- 
2.43.0


From cfe2a6882e3520718b83160834704b244cb16e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 70/94] fix: cache of tokens accepted altered tokens with a
 known digest

---
 amelie/server/auth/auth.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/amelie/server/auth/auth.c b/amelie/server/auth/auth.c
index 9a435b7..c0c075e 100644
--- a/amelie/server/auth/auth.c
+++ b/amelie/server/auth/auth.c
@@ -49,8 +49,11 @@ auth_run(Auth* self, Str* token)
 
 	int64_t now = time_ms() / 1000;
 
-	// check auth cache, if the digest is already authenticated
-	auto user_ref = auth_cache_find(&self->cache, &jwt->digest);
+	// check auth cache, if the token (header.payload.digest) is already
+	// authenticated
+	Str id;
+	str_set(&id, jwt->digest_origin.pos, jwt->digest.end - jwt->digest_origin.pos);
+	auto user_ref = auth_cache_find(&self->cache, &id);
 	if (user_ref)
 	{
 		// ensure cached token has not expired
@@ -99,8 +102,8 @@ auth_run(Auth* self, Str* token)
 	// validate digest using user secret
 	jwt_decode_validate(jwt, &user->config->secret);
 
-	// add user and token digest to the cache
-	auth_cache_add(&self->cache, user, &jwt->digest, exp);
+	// add user and token to the cache
+	auth_cache_add(&self->cache, user, &id, exp);
 	return user;
 }
 
-- 
2.43.0


From df19e86261d0b438cecc92ea7f88f60cac21e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:01 +0000
Subject: [PATCH 71/94] fix: executor, backends and commands listed partitions
 by a removed member

---
 amelie/system/backend/backend_mgr.h | 6 +++---
 amelie/vm/executor/dispatch_mgr.h   | 2 +-
 amelie/vm/vm/command.c              | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/amelie/system/backend/backend_mgr.h b/amelie/system/backend/backend_mgr.h
index 785416f..cc32024 100644
--- a/amelie/system/backend/backend_mgr.h
+++ b/amelie/system/backend/backend_mgr.h
@@ -131,7 +131,7 @@ backend_mgr_deploy_all(BackendMgr* self, PartMgr* part_mgr)
 	auto order = 0;
 	list_foreach(&part_mgr->list)
 	{
-		auto part = list_at(Part, id.link);
+		auto part = list_at(Part, link);
 		auto rpc = rpc_set_add(&set, order, MSG_DEPLOY, part);
 		auto backend = backend_mgr_next(self);
 		rpc_send(rpc, &backend->task);
@@ -156,7 +156,7 @@ backend_mgr_undeploy_all(BackendMgr* self, PartMgr* part_mgr)
 	auto count = 0;
 	list_foreach(&part_mgr->list)
 	{
-		auto part = list_at(Part, id.link);
+		auto part = list_at(Part, link);
 		if (part->track.backend)
 			count++;
 	}
@@ -171,7 +171,7 @@ backend_mgr_undeploy_all(BackendMgr* self, PartMgr* part_mgr)
 	auto order = 0;
 	list_foreach(&part_mgr->list)
 	{
-		auto part = list_at(Part, id.link);
+		auto part = list_at(Part, link);
 		if (! part->track.backend)
 			continue;
 		auto rpc = rpc_set_add(&set, order, MSG_UNDEPLOY, part);
diff --git a/amelie/vm/executor/dispatch_mgr.h b/amelie/vm/executor/dispatch_mgr.h
index 5bec455..7e32eee 100644
--- a/amelie/vm/executor/dispatch_mgr.h
+++ b/amelie/vm/executor/dispatch_mgr.h
@@ -147,7 +147,7 @@ dispatch_mgr_snapshot(DispatchMgr* self, Access* access)
 		auto table = table_of(ac->rel);
 		list_foreach(&table->part_mgr.list)
 		{
-			auto part = list_at(Part, id.link);
+			auto part = list_at(Part, link);
 			auto ltr = ltr_create(&self->cache_ltr, part, self->dtr, &self->complete);
 			list_append(&self->ltrs, &ltr->link);
 			self->ltrs_count++;
diff --git a/amelie/vm/vm/command.c b/amelie/vm/vm/command.c
index 3c1d16e..5822c97 100644
--- a/amelie/vm/vm/command.c
+++ b/amelie/vm/vm/command.c
@@ -171,7 +171,7 @@ csend_all(Vm* self, Op* op)
 	// send to all table backends
 	list_foreach(&table->part_mgr.list)
 	{
-		auto part = list_at(Part, id.link);
+		auto part = list_at(Part, link);
 		auto req = dispatch_add(dispatch, &dispatch_mgr->cache_req,
 		                        REQ_EXECUTE,
 		                        send->start,
-- 
2.43.0


From 853222c9c5ab84e863f8204688fe3b6344c429cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:52 +0000
Subject: [PATCH 72/94] fix: native session was freed while its event was
 queued in the frontend bus

---
 amelie/server/client/request_queue.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amelie/server/client/request_queue.h b/amelie/server/client/request_queue.h
index 0cb2e4f..e86999a 100644
--- a/amelie/server/client/request_queue.h
+++ b/amelie/server/client/request_queue.h
@@ -32,6 +32,12 @@ static inline void
 request_queue_free(RequestQueue* self)
 {
 	assert(list_empty(&self->list));
+
+	// the event notification of the last request can be still queued
+	// in the frontend bus, wait for it to be processed
+	while (atomic_u32_of(&self->on_write.ipc.refs) > 0)
+		__asm__("pause");
+
 	spinlock_free(&self->lock);
 }
 
-- 
2.43.0


From e61aea8b9ecf5fe353b928b68873898a4c5adebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 73/94] fix: commit order of transactions which overlap with
 several groups

A transaction joined the group of the last overlapping transaction only,
and two transactions could get the same order in their group: the first let
it commit before a transaction that came before it to a partition, the
second made it wait for ever. Commit in the order of arrival per partition.
---
 amelie/db/transaction/track.h        |  4 ++
 amelie/vm/executor/amelie_executor.h |  1 -
 amelie/vm/executor/commit.c          | 14 ++---
 amelie/vm/executor/dispatch_mgr.h    | 20 ++++---
 amelie/vm/executor/dtr.h             | 14 ++---
 amelie/vm/executor/dtr_group.h       | 88 ----------------------------
 amelie/vm/executor/dtr_queue.h       | 70 ++++------------------
 amelie/vm/executor/executor.h        | 37 +-----------
 amelie/vm/executor/ltr.h             |  3 +
 9 files changed, 42 insertions(+), 209 deletions(-)
 delete mode 100644 amelie/vm/executor/dtr_group.h

diff --git a/amelie/db/transaction/track.h b/amelie/db/transaction/track.h
index d0fa6f9..b4e3d13 100644
--- a/amelie/db/transaction/track.h
+++ b/amelie/db/transaction/track.h
@@ -17,6 +17,8 @@ struct Track
 {
 	Mailbox    queue;
 	uint64_t   seq;
+	uint64_t   order;
+	uint64_t   order_commit;
 	TrList     prepared;
 	TrCache    cache;
 	Consensus  consensus_pod;
@@ -32,6 +34,8 @@ static inline void
 track_init(Track* self)
 {
 	self->seq          = 1;
+	self->order        = 0;
+	self->order_commit = 0;
 	self->lsn          = 0;
 	self->pending      = false;
 	self->pending_link = NULL;
diff --git a/amelie/vm/executor/amelie_executor.h b/amelie/vm/executor/amelie_executor.h
index e911a21..5a5e6d7 100644
--- a/amelie/vm/executor/amelie_executor.h
+++ b/amelie/vm/executor/amelie_executor.h
@@ -31,7 +31,6 @@
 
 // distributed transaction
 #include "executor/dtr.h"
-#include "executor/dtr_group.h"
 #include "executor/dtr_queue.h"
 
 // executor
diff --git a/amelie/vm/executor/commit.c b/amelie/vm/executor/commit.c
index bb7ff51..2133c5c 100644
--- a/amelie/vm/executor/commit.c
+++ b/amelie/vm/executor/commit.c
@@ -21,12 +21,10 @@
 hot static inline void
 commit_add(DtrQueue* queue, Batch* batch, Dtr* dtr)
 {
-	auto group = dtr_queue_add(queue, dtr);
-	while (dtr_group_pending(group))
-	{
-		auto dtr = dtr_group_pop(group);
+	// add transactions in the order of their partitions
+	dtr_queue_add(queue, dtr);
+	while ((dtr = dtr_queue_pop(queue)))
 		batch_add(batch, dtr);
-	}
 }
 
 static void
@@ -36,7 +34,6 @@ commit_main(void* arg)
 
 	DtrQueue queue;
 	dtr_queue_init(&queue);
-	defer(dtr_queue_free, &queue);
 
 	Batch batch;
 	batch_init(&batch);
@@ -74,13 +71,10 @@ commit_main(void* arg)
 		// update global commit/abort metrics and detach
 		// transactions
 		//
-		auto group_min = executor_detach(self->executor, &batch);
+		executor_detach(self->executor, &batch);
 
 		// wakeup and unlock prepared transaction
 		batch_complete(&batch);
-
-		// remove all groups < group_min
-		dtr_queue_gc(&queue, group_min);
 	}
 }
 
diff --git a/amelie/vm/executor/dispatch_mgr.h b/amelie/vm/executor/dispatch_mgr.h
index 7e32eee..71699a2 100644
--- a/amelie/vm/executor/dispatch_mgr.h
+++ b/amelie/vm/executor/dispatch_mgr.h
@@ -112,27 +112,27 @@ dispatch_mgr_find(DispatchMgr* self, Part* part)
 }
 
 hot static inline bool
-dispatch_mgr_overlaps(DispatchMgr* self, DispatchMgr* with)
+dispatch_mgr_is_next(DispatchMgr* self)
 {
+	// all transactions which came before to any of the partitions
+	// are already being committed
 	list_foreach(&self->ltrs)
 	{
 		auto ltr = list_at(Ltr, link);
-		if (dispatch_mgr_find(with, ltr->part))
-			return true;
+		if (ltr->order != ltr->part->track.order_commit)
+			return false;
 	}
-	return false;
+	return true;
 }
 
-hot static inline bool
-dispatch_mgr_overlaps_dispatch(DispatchMgr* self, Dispatch* with)
+hot static inline void
+dispatch_mgr_next(DispatchMgr* self)
 {
 	list_foreach(&self->ltrs)
 	{
 		auto ltr = list_at(Ltr, link);
-		if (dispatch_find(with, ltr->part))
-			return true;
+		ltr->part->track.order_commit++;
 	}
-	return false;
 }
 
 hot static inline void
@@ -167,6 +167,7 @@ dispatch_mgr_send(DispatchMgr* self, Dispatch* dispatch)
 			auto ltr   = list_at(Ltr, link);
 			auto track = &ltr->part->track;
 			ltr->consensus = track->consensus;
+			ltr->order     = track->order++;
 			track_send(track, &ltr->msg);
 		}
 	}
@@ -189,6 +190,7 @@ dispatch_mgr_send(DispatchMgr* self, Dispatch* dispatch)
 			assert(self->list_count == 1);
 			ltr = ltr_create(&self->cache_ltr, req->part, self->dtr, &self->complete);
 			ltr->consensus = track->consensus;
+			ltr->order     = track->order++;
 			list_append(&self->ltrs, &ltr->link);
 			self->ltrs_count++;
 			track_send(track, &ltr->msg);
diff --git a/amelie/vm/executor/dtr.h b/amelie/vm/executor/dtr.h
index b0014a7..ee91057 100644
--- a/amelie/vm/executor/dtr.h
+++ b/amelie/vm/executor/dtr.h
@@ -16,8 +16,7 @@ typedef struct Dtr Dtr;
 struct Dtr
 {
 	Msg         msg;
-	uint64_t    group;
-	uint64_t    group_order;
+	uint64_t    id;
 	DispatchMgr dispatch_mgr;
 	Program*    program;
 	Buf*        error;
@@ -26,7 +25,6 @@ struct Dtr
 	Event       on_commit;
 	Limit       limit;
 	Local*      local;
-	Dtr*        link_group;
 	List        link_batch;
 	List        link;
 };
@@ -34,13 +32,11 @@ struct Dtr
 static inline void
 dtr_init(Dtr* self, Local* local)
 {
-	self->group       = 0;
-	self->group_order = 0;
+	self->id          = 0;
 	self->program     = NULL;
 	self->error       = NULL;
 	self->abort       = false;
 	self->local       = local;
-	self->link_group  = NULL;
 	dispatch_mgr_init(&self->dispatch_mgr, self);
 	event_init(&self->on_commit);
 	limit_init(&self->limit, opt_int_of(&config()->limit_write));
@@ -53,11 +49,9 @@ dtr_init(Dtr* self, Local* local)
 static inline void
 dtr_reset(Dtr* self)
 {
-	self->group       = 0;
-	self->group_order = 0;
+	self->id          = 0;
 	self->program     = NULL;
 	self->abort       = false;
-	self->link_group  = NULL;
 	if (self->error)
 	{
 		buf_free(self->error);
@@ -89,7 +83,7 @@ dtr_prepare(Dtr* self, Program* program)
 static inline bool
 dtr_active(Dtr* self)
 {
-	return self->group != 0;
+	return self->id != 0;
 }
 
 static inline void
diff --git a/amelie/vm/executor/dtr_group.h b/amelie/vm/executor/dtr_group.h
deleted file mode 100644
index 1406aa8..0000000
--- a/amelie/vm/executor/dtr_group.h
+++ /dev/null
@@ -1,88 +0,0 @@
-#pragma once
-
-//
-// amelie.
-//
-// Real-Time SQL OLTP Database.
-//
-// Copyright (c) 2024 Dmitry Simonenko.
-// Copyright (c) 2024 Amelie Labs.
-//
-// AGPL-3.0 Licensed.
-//
-
-typedef struct DtrGroup DtrGroup;
-
-struct DtrGroup
-{
-	uint64_t id;
-	uint64_t id_next;
-	Dtr*     list;
-	List     link;
-};
-
-static inline DtrGroup*
-dtr_group_allocate(void)
-{
-	auto self = (DtrGroup*)am_malloc(sizeof(DtrGroup));
-	self->id      = 0;
-	self->id_next = 0;
-	self->list    = NULL;
-	list_init(&self->link);
-	return self;
-}
-
-static inline void
-dtr_group_free(DtrGroup* self)
-{
-	am_free(self);
-}
-
-static inline void
-dtr_group_reset(DtrGroup* self)
-{
-	self->id      = 0;
-	self->id_next = 0;
-	self->list    = NULL;
-	list_init(&self->link);
-}
-
-static inline bool
-dtr_group_pending(DtrGroup* self)
-{
-	return self->list && self->list->group_order == self->id_next;
-}
-
-static inline void
-dtr_group_add(DtrGroup* self, Dtr* dtr)
-{
-	Dtr* prev = NULL;
-	auto pos = self->list;
-	while (pos)
-	{
-		if (dtr->group_order < pos->group_order)
-			break;
-		prev = pos;
-		pos = pos->link_group;
-	}
-	if (prev)
-	{
-		dtr->link_group = prev->link_group;
-		prev->link_group = dtr;
-	} else
-	{
-		dtr->link_group = self->list;
-		self->list = dtr;
-	}
-}
-
-static inline Dtr*
-dtr_group_pop(DtrGroup* self)
-{
-	assert(dtr_group_pending(self));
-	auto next = self->list;
-	self->list = next->link_group;
-	self->id_next++;
-	next->link_group = NULL;
-	return next;
-}
diff --git a/amelie/vm/executor/dtr_queue.h b/amelie/vm/executor/dtr_queue.h
index 2e8632f..cc5bd06 100644
--- a/amelie/vm/executor/dtr_queue.h
+++ b/amelie/vm/executor/dtr_queue.h
@@ -16,77 +16,33 @@ typedef struct DtrQueue DtrQueue;
 struct DtrQueue
 {
 	List list;
-	List cache;
-	int  cache_count;
 };
 
 static inline void
 dtr_queue_init(DtrQueue* self)
 {
-	self->cache_count = 0;
 	list_init(&self->list);
-	list_init(&self->cache);
-}
-
-static inline void
-dtr_queue_free(DtrQueue* self)
-{
-	list_foreach_safe(&self->cache)
-	{
-		auto group = list_at(DtrGroup, link);
-		dtr_group_free(group);
-	}
 }
 
 hot static inline void
-dtr_queue_gc(DtrQueue* self, uint64_t min)
+dtr_queue_add(DtrQueue* self, Dtr* dtr)
 {
-	list_foreach_safe(&self->list)
-	{
-		auto ref = list_at(DtrGroup, link);
-		if (ref->id < min)
-		{
-			assert(! ref->list);
-			list_unlink(&ref->link);
-			dtr_group_reset(ref);
-			list_append(&self->cache, &ref->link);
-			self->cache_count++;
-		}
-	}
+	list_append(&self->list, &dtr->link_batch);
 }
 
-hot static inline DtrGroup*
-dtr_queue_find(DtrQueue* self, uint64_t id)
+hot static inline Dtr*
+dtr_queue_pop(DtrQueue* self)
 {
-	list_foreach_safe(&self->list)
+	// get the next transaction which is first in the order of
+	// each of its partitions
+	list_foreach(&self->list)
 	{
-		auto ref = list_at(DtrGroup, link);
-		if (ref->id == id)
-			return ref;
+		auto dtr = list_at(Dtr, link_batch);
+		if (! dispatch_mgr_is_next(&dtr->dispatch_mgr))
+			continue;
+		dispatch_mgr_next(&dtr->dispatch_mgr);
+		list_unlink(&dtr->link_batch);
+		return dtr;
 	}
 	return NULL;
 }
-
-hot static inline DtrGroup*
-dtr_queue_add(DtrQueue* self, Dtr* dtr)
-{
-	// find or create new group
-	auto group = dtr_queue_find(self, dtr->group);
-	if (! group)
-	{
-		if (self->cache_count > 0)
-		{
-			auto first = list_pop(&self->cache);
-			self->cache_count--;
-			group = container_of(first, DtrGroup, link);
-			list_init(&group->link);
-		} else {
-			group = dtr_group_allocate();
-		}
-		group->id = dtr->group;
-		list_append(&self->list, &group->link);
-	}
-
-	dtr_group_add(group, dtr);
-	return group;
-}
diff --git a/amelie/vm/executor/executor.h b/amelie/vm/executor/executor.h
index 492f163..467f357 100644
--- a/amelie/vm/executor/executor.h
+++ b/amelie/vm/executor/executor.h
@@ -39,33 +39,8 @@ executor_attach(Executor* self, Dtr* dtr, Dispatch* dispatch)
 {
 	spinlock_lock(&self->lock);
 
-	// match overlapping transaction group
-	auto is_snapshot = dtr->program->snapshot;
-	list_foreach_reverse(&self->list)
-	{
-		auto ref = list_at(Dtr, link);
-		// find overlapping partitions
-		bool overlaps;
-		if (is_snapshot)
-			overlaps = dispatch_mgr_overlaps(&ref->dispatch_mgr, &dtr->dispatch_mgr);
-		else
-			overlaps = dispatch_mgr_overlaps_dispatch(&ref->dispatch_mgr, dispatch);
-
-		// derive transaction group on overlap
-		if (overlaps)
-		{
-			dtr->group = ref->group;
-			dtr->group_order = ref->group_order + 1;
-			break;
-		}
-	}
-
-	// start new transaction group
-	if (! dtr->group)
-	{
-		dtr->group = self->id++;
-		dtr->group_order = 0;
-	}
+	// set transaction id
+	dtr->id = self->id++;
 
 	// register transaction
 	list_append(&self->list, &dtr->link);
@@ -108,7 +83,7 @@ executor_send(Executor* self, Dtr* dtr, Dispatch* dispatch)
 	dispatch_mgr_send(mgr, dispatch);
 }
 
-hot static inline uint64_t
+hot static inline void
 executor_detach(Executor* self, Batch* batch)
 {
 	// group completion (called from Commit)
@@ -136,11 +111,5 @@ executor_detach(Executor* self, Batch* batch)
 		list_unlink(&dtr->link);
 	}
 
-	// get min group as oldest transaction group id
-	uint64_t group_min = UINT64_MAX;
-	if (! list_empty(&self->list))
-		group_min = container_of(list_first(&self->list), Dtr, link)->group;
-
 	spinlock_unlock(&self->lock);
-	return group_min;
 }
diff --git a/amelie/vm/executor/ltr.h b/amelie/vm/executor/ltr.h
index 38367eb..2a24628 100644
--- a/amelie/vm/executor/ltr.h
+++ b/amelie/vm/executor/ltr.h
@@ -22,6 +22,7 @@ struct Ltr
 	Mailbox   queue;
 	Msg       queue_close;
 	Consensus consensus;
+	uint64_t  order;
 	Buf*      error;
 	Part*     part;
 	bool      closed;
@@ -38,6 +39,7 @@ ltr_allocate(Dtr* dtr, Complete* complete)
 	self->error    = NULL;
 	self->part     = NULL;
 	self->closed   = false;
+	self->order    = 0;
 	self->complete = complete;
 	mailbox_init(&self->queue);
 	msg_init(&self->queue_close, MSG_LTR_STOP);
@@ -60,6 +62,7 @@ ltr_reset(Ltr* self)
 	self->error  = NULL;
 	self->part   = NULL;
 	self->closed = false;
+	self->order  = 0;
 	list_init(&self->link);
 }
 
-- 
2.43.0


From 0fda11280fcb3483c6ce421136f10c473fc184dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:28 +0000
Subject: [PATCH 74/94] fix: transactions executed over changes of an aborted
 one were committed

Partitions execute transactions over changes of prepared ones. When one
aborts, those executed on its partitions before the abort is known have to
abort too, in the reverse order. Commit positions of a batch which failed
to be written are not published.
---
 amelie/db/transaction/track.h     |  4 ++--
 amelie/system/backend/pod.c       |  4 ++++
 amelie/vm/executor/batch.h        | 29 ++++++++++++++++++-----------
 amelie/vm/executor/dispatch_mgr.h |  5 +----
 amelie/vm/executor/ltr.h          |  3 +++
 5 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/amelie/db/transaction/track.h b/amelie/db/transaction/track.h
index b4e3d13..913f711 100644
--- a/amelie/db/transaction/track.h
+++ b/amelie/db/transaction/track.h
@@ -113,11 +113,11 @@ track_sync(Track* self, Consensus* consensus)
 		consensus_pod->commit = id;
 	}
 
-	// abort all transactions <= abort
+	// abort the transaction and all which were executed after it
 	id = consensus->abort;
 	if (unlikely(id > consensus_pod->abort))
 	{
-		tr_abort_list(&self->prepared, &self->cache, id);
+		tr_abort_list(&self->prepared, &self->cache, UINT64_MAX);
 		consensus_pod->abort = id;
 	}
 
diff --git a/amelie/system/backend/pod.c b/amelie/system/backend/pod.c
index f9a023f..4d32636 100644
--- a/amelie/system/backend/pod.c
+++ b/amelie/system/backend/pod.c
@@ -144,6 +144,10 @@ pod_run(Pod* self, Ltr* ltr)
 		active = !req->dispatch->close;
 		dispatch_complete(req->dispatch);
 	}
+
+	// transaction can be aborted by the partition before its commit
+	if (ltr->tr)
+		ltr->write = !tr_read_only(ltr->tr);
 	ltr_complete(ltr);
 }
 
diff --git a/amelie/vm/executor/batch.h b/amelie/vm/executor/batch.h
index 9359045..c55ffe2 100644
--- a/amelie/vm/executor/batch.h
+++ b/amelie/vm/executor/batch.h
@@ -76,6 +76,14 @@ batch_add_partition(Batch* self, Ltr* ltr)
 	self->pending = track;
 }
 
+hot static inline bool
+batch_is_dirty(Ltr* ltr)
+{
+	// partition had not known about the last abort before the execution,
+	// transaction will be aborted by the partition together with it
+	return ltr->consensus.abort < ltr->part->track.pending_consensus.abort;
+}
+
 hot static inline void
 batch_process(Batch* self)
 {
@@ -90,17 +98,13 @@ batch_process(Batch* self)
 			auto tr  = ltr->tr;
 			if (! tr)
 				continue;
-			assert(tr->active);
 
 			// collect unique partitions across batch
 			batch_add_partition(self, ltr);
 
-			// abort transaction if its partition transaction id lower then
-			// the partition abort id
-			auto track   = &ltr->part->track;
-			auto pending = &track->pending_consensus;
-			auto last    = &track->consensus;
-			if (pending->abort >= tr->id || last->abort >= tr->id)
+			// abort transaction if it was executed over changes of the
+			// aborted transaction
+			if (batch_is_dirty(ltr))
 				dtr_set_abort(dtr);
 		}
 
@@ -114,14 +118,13 @@ batch_process(Batch* self)
 			auto tr  = ltr->tr;
 			if (! tr)
 				continue;
-			assert(tr->active);
 
 			// sync metrics
 			auto pending = &ltr->part->track.pending_consensus;
 			if (dtr->abort)
 			{
 				// sync abort id
-				if (tr->id > pending->abort)
+				if (! batch_is_dirty(ltr))
 					pending->abort = tr->id;
 			} else
 			{
@@ -157,9 +160,13 @@ batch_abort(Batch* self)
 			auto tr  = ltr->tr;
 			if (! tr)
 				continue;
-			auto pending = &ltr->part->track.pending_consensus;
-			if (tr->id > pending->abort)
+			auto track   = &ltr->part->track;
+			auto pending = &track->pending_consensus;
+			if (! batch_is_dirty(ltr))
 				pending->abort = tr->id;
+
+			// nothing is committed
+			pending->commit = track->consensus.commit;
 		}
 	}
 	write_list_reset(&self->write);
diff --git a/amelie/vm/executor/dispatch_mgr.h b/amelie/vm/executor/dispatch_mgr.h
index 71699a2..afa362c 100644
--- a/amelie/vm/executor/dispatch_mgr.h
+++ b/amelie/vm/executor/dispatch_mgr.h
@@ -225,12 +225,9 @@ dispatch_mgr_complete(DispatchMgr* self, bool* write)
 		auto ltr = list_at(Ltr, link);
 		if (ltr->error && !error)
 			error = ltr->error;
-		auto tr = ltr->tr;
-		if (! tr)
-			continue;
 
 		// is writing transaction
-		if (! tr_read_only(tr))
+		if (ltr->write)
 			*write = true;
 	}
 	return error;
diff --git a/amelie/vm/executor/ltr.h b/amelie/vm/executor/ltr.h
index 2a24628..4093bf0 100644
--- a/amelie/vm/executor/ltr.h
+++ b/amelie/vm/executor/ltr.h
@@ -26,6 +26,7 @@ struct Ltr
 	Buf*      error;
 	Part*     part;
 	bool      closed;
+	bool      write;
 	Complete* complete;
 	List      link;
 };
@@ -39,6 +40,7 @@ ltr_allocate(Dtr* dtr, Complete* complete)
 	self->error    = NULL;
 	self->part     = NULL;
 	self->closed   = false;
+	self->write    = false;
 	self->order    = 0;
 	self->complete = complete;
 	mailbox_init(&self->queue);
@@ -62,6 +64,7 @@ ltr_reset(Ltr* self)
 	self->error  = NULL;
 	self->part   = NULL;
 	self->closed = false;
+	self->write  = false;
 	self->order  = 0;
 	list_init(&self->link);
 }
-- 
2.43.0


From 28cf26405924b5939d4bb6b9944de5c35beada01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:28 +0000
Subject: [PATCH 75/94] fix: insert of an empty result of a query was never
 completed

---
 amelie/vm/executor/dispatch.h     |  2 ++
 amelie/vm/executor/dispatch_mgr.h | 26 +++++++++++++-------------
 amelie/vm/executor/executor.h     | 15 ++++++++++++---
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/amelie/vm/executor/dispatch.h b/amelie/vm/executor/dispatch.h
index 3b7fead..d87132e 100644
--- a/amelie/vm/executor/dispatch.h
+++ b/amelie/vm/executor/dispatch.h
@@ -115,6 +115,8 @@ dispatch_wait(Dispatch* self)
 {
 	// wait for dispatch completion
 	assert(self->returning);
+	if (! self->list_count)
+		return;
 	complete_wait(&self->complete);
 }
 
diff --git a/amelie/vm/executor/dispatch_mgr.h b/amelie/vm/executor/dispatch_mgr.h
index afa362c..deaab65 100644
--- a/amelie/vm/executor/dispatch_mgr.h
+++ b/amelie/vm/executor/dispatch_mgr.h
@@ -34,12 +34,6 @@ dispatch_mgr_at(DispatchMgr* self, int order)
 	return ((Dispatch**)self->list.start)[order];
 }
 
-static inline bool
-dispatch_mgr_is_first(DispatchMgr* self)
-{
-	return self->list_count == 0;
-}
-
 static inline void
 dispatch_mgr_init(DispatchMgr* self, Dtr* dtr)
 {
@@ -156,11 +150,20 @@ dispatch_mgr_snapshot(DispatchMgr* self, Access* access)
 }
 
 hot static inline void
-dispatch_mgr_send(DispatchMgr* self, Dispatch* dispatch)
+dispatch_mgr_add(DispatchMgr* self, Dispatch* dispatch)
+{
+	dispatch->order = self->list_count;
+
+	buf_write(&self->list, &dispatch, sizeof(Dispatch**));
+	self->list_count++;
+}
+
+hot static inline void
+dispatch_mgr_send(DispatchMgr* self, Dispatch* dispatch, bool first)
 {
 	// handle snapshot by starting execution of all prepared ltrs
 	// on first send
-	if (dispatch_mgr_is_first(self) && self->ltrs_count > 0)
+	if (first && self->ltrs_count > 0)
 	{
 		list_foreach(&self->ltrs)
 		{
@@ -173,10 +176,7 @@ dispatch_mgr_send(DispatchMgr* self, Dispatch* dispatch)
 	}
 
 	// add dispatch
-	dispatch->order = self->list_count;
-
-	buf_write(&self->list, &dispatch, sizeof(Dispatch**));
-	self->list_count++;
+	dispatch_mgr_add(self, dispatch);
 
 	// send dispatch requests
 	list_foreach(&dispatch->list)
@@ -187,7 +187,7 @@ dispatch_mgr_send(DispatchMgr* self, Dispatch* dispatch)
 		auto ltr = dispatch_mgr_find(self, req->part);
 		if (! ltr)
 		{
-			assert(self->list_count == 1);
+			assert(first);
 			ltr = ltr_create(&self->cache_ltr, req->part, self->dtr, &self->complete);
 			ltr->consensus = track->consensus;
 			ltr->order     = track->order++;
diff --git a/amelie/vm/executor/executor.h b/amelie/vm/executor/executor.h
index 467f357..0c46417 100644
--- a/amelie/vm/executor/executor.h
+++ b/amelie/vm/executor/executor.h
@@ -46,7 +46,7 @@ executor_attach(Executor* self, Dtr* dtr, Dispatch* dispatch)
 	list_append(&self->list, &dtr->link);
 
 	// begin execution
-	dispatch_mgr_send(&dtr->dispatch_mgr, dispatch);
+	dispatch_mgr_send(&dtr->dispatch_mgr, dispatch, true);
 
 	spinlock_unlock(&self->lock);
 }
@@ -55,7 +55,16 @@ hot static inline void
 executor_send(Executor* self, Dtr* dtr, Dispatch* dispatch)
 {
 	auto mgr = &dtr->dispatch_mgr;
-	auto first = dispatch_mgr_is_first(mgr);
+	auto first = !dtr_active(dtr);
+
+	// nothing to execute
+	if (! dispatch->list_count)
+	{
+		dispatch_mgr_add(mgr, dispatch);
+		if (dispatch->close)
+			dispatch_mgr_close(mgr);
+		return;
+	}
 
 	dispatch_prepare(dispatch);
 
@@ -80,7 +89,7 @@ executor_send(Executor* self, Dtr* dtr, Dispatch* dispatch)
 	}
 
 	// multi-statement request
-	dispatch_mgr_send(mgr, dispatch);
+	dispatch_mgr_send(mgr, dispatch, false);
 }
 
 hot static inline void
-- 
2.43.0


From 7f4b5214753e67a91e9515142cb705f640ab436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 76/94] fix: prepared transactions of a partition were not
 freed with it

---
 amelie/db/transaction/track.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/transaction/track.h b/amelie/db/transaction/track.h
index 913f711..23bf980 100644
--- a/amelie/db/transaction/track.h
+++ b/amelie/db/transaction/track.h
@@ -52,6 +52,7 @@ static inline void
 track_free(Track* self)
 {
 	assert(list_empty(&self->queue.list));
+	tr_list_reset(&self->prepared, &self->cache);
 	tr_cache_free(&self->cache);
 }
 
-- 
2.43.0


From 40e9a6e3ee0fd16f583b8ff3c29d264b692fb1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 77/94] fix: UPDATE and DELETE used the cursor of a secondary
 index

---
 amelie/compiler/parser/parse_delete.c | 4 ++++
 amelie/compiler/parser/parse_update.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/amelie/compiler/parser/parse_delete.c b/amelie/compiler/parser/parse_delete.c
index 02e50db..dd612b5 100644
--- a/amelie/compiler/parser/parse_delete.c
+++ b/amelie/compiler/parser/parse_delete.c
@@ -41,8 +41,12 @@ parse_delete(Stmt* self)
 
 	// ensure primary index is used
 	if (target->from_index)
+	{
 		if (table_primary(stmt->table) != target->from_index)
 			stmt_error(self, from, "DELETE supports only primary index");
+	} else {
+		target->from_index = table_primary(stmt->table);
+	}
 
 	// [WHERE]
 	if (stmt_if(self, KWHERE))
diff --git a/amelie/compiler/parser/parse_update.c b/amelie/compiler/parser/parse_update.c
index d029f08..b5df39c 100644
--- a/amelie/compiler/parser/parse_update.c
+++ b/amelie/compiler/parser/parse_update.c
@@ -165,8 +165,12 @@ parse_update(Stmt* self)
 
 	// ensure primary index is used
 	if (target->from_index)
+	{
 		if (table_primary(stmt->table) != target->from_index)
 			stmt_error(self, NULL, "UPDATE supports only primary index");
+	} else {
+		target->from_index = table_primary(stmt->table);
+	}
 
 	// SET column = expr [, ... ]
 	stmt->expr_update = parse_update_expr(self);
-- 
2.43.0


From b85bd749e5bb89983c34f931a0893010b9a7164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 78/94] fix: direct reads of partitions were not isolated from
 writes

A program which changes a table and also reads its partitions directly (join or
subquery) upgraded its lock from shared_rw to exclusive_ro, which allowed it to
run together with another one like that, and did not wait for its own pending
writes before the direct read.
---
 amelie/compiler/compiler/compiler.c |  6 ++++++
 amelie/runtime/runtime/access.h     |  4 ++++
 amelie/vm/executor/dispatch.h       |  6 +++++-
 amelie/vm/executor/program.h        |  3 +++
 amelie/vm/vm/command.c              | 12 +++++++++---
 5 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/amelie/compiler/compiler/compiler.c b/amelie/compiler/compiler/compiler.c
index f6297d7..5b87953 100644
--- a/amelie/compiler/compiler/compiler.c
+++ b/amelie/compiler/compiler/compiler.c
@@ -886,6 +886,12 @@ compiler_emit(Compiler* self)
 	if (program->access.count > 1)
 		program->snapshot = true;
 
+	// execute statements one by one, if the program changes a relation and
+	// reads its partitions directly (subquery or join)
+	for (auto i = 0; i < program->access.list_count; i++)
+		if (access_at(&program->access, i)->lock == LOCK_EXCLUSIVE)
+			program->sync = true;
+
 	// sort relations by rsn
 	access_sort(&program->access);
 }
diff --git a/amelie/runtime/runtime/access.h b/amelie/runtime/runtime/access.h
index 347bcde..6db68e9 100644
--- a/amelie/runtime/runtime/access.h
+++ b/amelie/runtime/runtime/access.h
@@ -85,6 +85,10 @@ access_add(Access* self, Relation* rel, LockId lock)
 		auto record = access_at(self, i);
 		if (record->rel == rel)
 		{
+			// relation is being changed and read directly
+			if ((record->lock == LOCK_SHARED_RW    && lock == LOCK_EXCLUSIVE_RO) ||
+			    (record->lock == LOCK_EXCLUSIVE_RO && lock == LOCK_SHARED_RW))
+				lock = LOCK_EXCLUSIVE;
 			if (record->lock < lock)
 				record->lock = lock;
 			return;
diff --git a/amelie/vm/executor/dispatch.h b/amelie/vm/executor/dispatch.h
index d87132e..3ca53e6 100644
--- a/amelie/vm/executor/dispatch.h
+++ b/amelie/vm/executor/dispatch.h
@@ -21,6 +21,7 @@ struct Dispatch
 	Complete complete;
 	bool     close;
 	bool     returning;
+	bool     waited;
 	List     link;
 };
 
@@ -31,6 +32,7 @@ dispatch_allocate(void)
 	self->order      = 0;
 	self->list_count = 0;
 	self->returning  = false;
+	self->waited     = false;
 	self->close      = false;
 	list_init(&self->list);
 	list_init(&self->link);
@@ -56,6 +58,7 @@ dispatch_reset(Dispatch* self, ReqCache* cache)
 	list_init(&self->list);
 	self->list_count = 0;
 	self->returning  = false;
+	self->waited     = false;
 	self->close      = false;
 	complete_reset(&self->complete);
 }
@@ -115,9 +118,10 @@ dispatch_wait(Dispatch* self)
 {
 	// wait for dispatch completion
 	assert(self->returning);
-	if (! self->list_count)
+	if (!self->list_count || self->waited)
 		return;
 	complete_wait(&self->complete);
+	self->waited = true;
 }
 
 static inline void
diff --git a/amelie/vm/executor/program.h b/amelie/vm/executor/program.h
index a9ec1ac..c9f7a27 100644
--- a/amelie/vm/executor/program.h
+++ b/amelie/vm/executor/program.h
@@ -23,6 +23,7 @@ struct Program
 	SetList  sets;
 	int      send_last;
 	bool     snapshot;
+	bool     sync;
 	bool     repl;
 	bool     utility;
 	LockId   lock_catalog;
@@ -35,6 +36,7 @@ program_allocate(void)
 	auto self = (Program*)am_malloc(sizeof(Program));
 	self->send_last    = -1;
 	self->snapshot     = false;
+	self->sync         = false;
 	self->repl         = false;
 	self->utility      = false;
 	self->lock_catalog = LOCK_SHARED;
@@ -66,6 +68,7 @@ program_reset(Program* self, SetCache* cache)
 {
 	self->send_last    = -1;
 	self->snapshot     = false;
+	self->sync         = false;
 	self->repl         = false;
 	self->utility      = false;
 	self->lock_catalog = LOCK_SHARED;
diff --git a/amelie/vm/vm/command.c b/amelie/vm/vm/command.c
index 5822c97..c15c8ea 100644
--- a/amelie/vm/vm/command.c
+++ b/amelie/vm/vm/command.c
@@ -32,7 +32,7 @@ csend_shard(Vm* self, Op* op)
 	auto dtr = self->dtr;
 	auto dispatch_mgr = &dtr->dispatch_mgr;
 	auto dispatch = dispatch_create(&dispatch_mgr->cache);
-	if (send->has_result)
+	if (send->has_result || dtr->program->sync)
 		dispatch_set_returning(dispatch);
 
 	if (self->allow_close &&
@@ -100,6 +100,8 @@ csend_shard(Vm* self, Op* op)
 
 	// execute
 	executor_send(share()->executor, dtr, dispatch);
+	if (dtr->program->sync)
+		dispatch_wait(dispatch);
 
 	// return dispatch order
 	value_set_int(reg_at(&self->r, op->a), dispatch->order);
@@ -117,7 +119,7 @@ csend_lookup(Vm* self, Op* op)
 	auto dtr = self->dtr;
 	auto dispatch_mgr = &dtr->dispatch_mgr;
 	auto dispatch = dispatch_create(&dispatch_mgr->cache);
-	if (send->has_result)
+	if (send->has_result || dtr->program->sync)
 		dispatch_set_returning(dispatch);
 
 	if (self->allow_close &&
@@ -145,6 +147,8 @@ csend_lookup(Vm* self, Op* op)
 
 	// execute
 	executor_send(share()->executor, dtr, dispatch);
+	if (dtr->program->sync)
+		dispatch_wait(dispatch);
 
 	// return dispatch order
 	value_set_int(reg_at(&self->r, op->a), dispatch->order);
@@ -161,7 +165,7 @@ csend_all(Vm* self, Op* op)
 	auto dtr = self->dtr;
 	auto dispatch_mgr = &dtr->dispatch_mgr;
 	auto dispatch = dispatch_create(&dispatch_mgr->cache);
-	if (send->has_result)
+	if (send->has_result || dtr->program->sync)
 		dispatch_set_returning(dispatch);
 
 	if (self->allow_close &&
@@ -186,6 +190,8 @@ csend_all(Vm* self, Op* op)
 
 	// execute
 	executor_send(share()->executor, dtr, dispatch);
+	if (dtr->program->sync)
+		dispatch_wait(dispatch);
 
 	// return dispatch order
 	value_set_int(reg_at(&self->r, op->a), dispatch->order);
-- 
2.43.0


From f552f215c3b8c8f6a507898efb8c0eb7b32552d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:17 +0000
Subject: [PATCH 79/94] fix: changes of aborted transactions were seen by
 direct reads of partitions

---
 amelie/vm/executor/commit.c   |  2 ++
 amelie/vm/executor/executor.h | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/amelie/vm/executor/commit.c b/amelie/vm/executor/commit.c
index 2133c5c..e58156a 100644
--- a/amelie/vm/executor/commit.c
+++ b/amelie/vm/executor/commit.c
@@ -111,6 +111,8 @@ commit(Commit* self, Dtr* dtr, Buf* error)
 	{
 		task_send(&self->task, &dtr->msg);
 		event_wait(&dtr->on_commit, -1);
+		if (unlikely(dtr->abort))
+			executor_undo(self->executor, dtr);
 	}
 
 	cancel_resume();
diff --git a/amelie/vm/executor/executor.h b/amelie/vm/executor/executor.h
index 0c46417..1fd2004 100644
--- a/amelie/vm/executor/executor.h
+++ b/amelie/vm/executor/executor.h
@@ -92,6 +92,30 @@ executor_send(Executor* self, Dtr* dtr, Dispatch* dispatch)
 	dispatch_mgr_send(mgr, dispatch, false);
 }
 
+static inline void
+executor_undo(Executor* self, Dtr* dtr)
+{
+	// make sure that changes of the aborted transaction are removed from its
+	// partitions before its locks are released, since partitions can be
+	// read directly
+	auto mgr = &dtr->dispatch_mgr;
+	complete_prepare(&mgr->complete, mgr->ltrs_count);
+
+	spinlock_lock(&self->lock);
+	list_foreach(&mgr->ltrs)
+	{
+		auto ltr   = list_at(Ltr, link);
+		auto track = &ltr->part->track;
+		ltr->tr        = NULL;
+		ltr->consensus = track->consensus;
+		track_send(track, &ltr->msg);
+		track_send(track, &ltr->queue_close);
+	}
+	spinlock_unlock(&self->lock);
+
+	complete_wait(&mgr->complete);
+}
+
 hot static inline void
 executor_detach(Executor* self, Batch* batch)
 {
-- 
2.43.0


From 258621764f91662ce37d22a8505db13c37ffdccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 80/94] fix: a first start that was interrupted left a
 repository that could not be opened

---
 amelie/system/system/repo.c   | 42 ++++++++++++++++++++++++++---------
 amelie/system/system/repo.h   |  1 +
 amelie/system/system/system.c |  4 ++++
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/amelie/system/system/repo.c b/amelie/system/system/repo.c
index f89fe03..54e0dc7 100644
--- a/amelie/system/system/repo.c
+++ b/amelie/system/system/repo.c
@@ -28,12 +28,20 @@ repo_create(Repo* self, char* directory)
 	opt_string_set_raw(&state()->directory, directory, strlen(directory));
 
 	// create directory if not exists
-	self->bootstrap = !fs_exists("%s", state_directory());
+	//
+	// continue the first start if it was interrupted before its completion:
+	// the version file is created last, but before the wal directory
+	//
+	self->bootstrap = !fs_exists("%s/version.json", state_directory()) &&
+	                  !fs_exists("%s/wal", state_directory());
 	if (self->bootstrap)
 	{
-		fs_mkdir(0755, "%s", state_directory());
-		fs_mkdir(0755, "%s/certs", state_directory());
-		fs_mkdir(0755, "%s/storage", state_directory());
+		if (! fs_exists("%s", state_directory()))
+			fs_mkdir(0755, "%s", state_directory());
+		if (! fs_exists("%s/certs", state_directory()))
+			fs_mkdir(0755, "%s/certs", state_directory());
+		if (! fs_exists("%s/storage", state_directory()))
+			fs_mkdir(0755, "%s/storage", state_directory());
 	}
 
 	// open directory fd
@@ -100,12 +108,28 @@ repo_version_create(const char* path)
 	uint8_t* pos = buf->start;
 	json_export_pretty(&text, NULL, &pos);
 
-	// create config file
+	// create <path>.incomplete
+	char path_new[PATH_MAX];
+	sfmt(path_new, sizeof(path_new), "%s.incomplete", path);
+
 	File file;
 	file_init(&file);
 	defer(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0644);
+	file_open_as(&file, path_new, O_CREAT|O_TRUNC|O_RDWR, 0644);
 	file_write_buf(&file, &text);
+	file_sync(&file);
+
+	// rename
+	fs_rename(path_new, "%s", path);
+}
+
+void
+repo_bootstrap_complete(void)
+{
+	// create version file to complete the first start
+	char path[PATH_MAX];
+	sfmt(path, sizeof(path), "%s/version.json", state_directory());
+	repo_version_create(path);
 }
 
 static void
@@ -262,11 +286,7 @@ repo_open(Repo* self, char* directory, int argc, char** argv)
 
 	// read version file
 	sfmt(path, sizeof(path), "%s/version.json", state_directory());
-	if (self->bootstrap)
-	{
-		// create version file
-		repo_version_create(path);
-	} else
+	if (! self->bootstrap)
 	{
 		// read and validate version file
 		repo_version_open(path);
diff --git a/amelie/system/system/repo.h b/amelie/system/system/repo.h
index b9e4704..2f4cca9 100644
--- a/amelie/system/system/repo.h
+++ b/amelie/system/system/repo.h
@@ -22,3 +22,4 @@ struct Repo
 void repo_init(Repo*);
 void repo_open(Repo*, char*, int, char**);
 void repo_close(Repo*);
+void repo_bootstrap_complete(void);
diff --git a/amelie/system/system/system.c b/amelie/system/system/system.c
index f102df0..7c93571 100644
--- a/amelie/system/system/system.c
+++ b/amelie/system/system/system.c
@@ -232,6 +232,10 @@ system_recover(System* self, bool bootstrap)
 	// restore catalog
 	db_open(&self->db, bootstrap);
 
+	// complete bootstrap
+	if (bootstrap)
+		repo_bootstrap_complete();
+
 	// replay wals
 	Recover recover;
 	recover_init(&recover, &self->db, false);
-- 
2.43.0


From f8607b27fa1c91c72e6cea8b7a2dd4f3d9e85413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 81/94] fix: skipped DDL records were read as rows during
 recovery

---
 amelie/db/transaction/record.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amelie/db/transaction/record.h b/amelie/db/transaction/record.h
index 6832eac..bbcdacd 100644
--- a/amelie/db/transaction/record.h
+++ b/amelie/db/transaction/record.h
@@ -56,9 +56,7 @@ record_data(Record* self)
 static inline void
 record_cmd_skip(RecordCmd* self, uint8_t** pos)
 {
-	auto end = *pos + self->size;
-	while (*pos < end)
-		*pos += row_size((Row*)*pos);
+	*pos += self->size;
 }
 
 static inline bool
-- 
2.43.0


From cbd075e1cfd0736b0a6285b7ab0f2dc357c01c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 82/94] fix: truncate was lost or removed later rows after a
 restart

---
 amelie/db/catalog/catalog.c       |  7 +++++
 amelie/db/db/recover.c            | 45 +++++++++++++++++++++++++++++++
 amelie/db/transaction/write_log.h |  8 ++++++
 3 files changed, 60 insertions(+)

diff --git a/amelie/db/catalog/catalog.c b/amelie/db/catalog/catalog.c
index 53c3577..837f2a9 100644
--- a/amelie/db/catalog/catalog.c
+++ b/amelie/db/catalog/catalog.c
@@ -168,6 +168,7 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 {
 	// [op, ...]
 	auto cmd = ddl_of(op);
+	Uuid* id = NULL;
 	bool write = false;
 	switch (cmd) {
 	case DDL_STORAGE_CREATE:
@@ -276,6 +277,10 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 
 		auto if_exists = ddl_if_exists(flags);
 		write = table_mgr_truncate(&self->table_mgr, tr, &db, &name, if_exists);
+
+		// truncate is replayed for each partition file
+		if (write)
+			id = &table_mgr_find(&self->table_mgr, &db, &name, true)->config->id;
 		break;
 	}
 	case DDL_TABLE_SET_IDENTITY:
@@ -607,6 +612,8 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 	if (write)
 	{
 		log_persist_relation(&tr->log, op);
+		if (id)
+			write_log_set_id(&tr->log.write_log, id);
 		return true;
 	}
 	return false;
diff --git a/amelie/db/db/recover.c b/amelie/db/db/recover.c
index 85ee628..a00ca37 100644
--- a/amelie/db/db/recover.c
+++ b/amelie/db/db/recover.c
@@ -71,6 +71,40 @@ recover_map(Recover* self, Record* record, RecordCmd* cmd, Row* row)
 	return part;
 }
 
+static void
+recover_truncate(Recover* self, Record* record, RecordCmd* cmd, uint8_t* op)
+{
+	// truncate partitions which files were created before the operation,
+	// even if the catalog file already includes it
+	auto db = self->db;
+	Table* table = NULL;
+	if (! uuid_empty(&cmd->id))
+	{
+		table = table_mgr_find_by(&db->catalog.table_mgr, &cmd->id, false);
+	} else
+	if (record->lsn > state_catalog())
+	{
+		Str name_db;
+		Str name;
+		table_op_truncate_read(op, &name_db, &name);
+		table = table_mgr_find(&db->catalog.table_mgr, &name_db, &name, true);
+	}
+	if (! table)
+		return;
+
+	if (record->lsn > state_catalog())
+		tier_mgr_truncate(&table->tier_mgr);
+
+	list_foreach(&table->part_mgr.list)
+	{
+		auto part = list_at(Part, link);
+		if (record->lsn <= part->heap->header->lsn)
+			continue;
+		part_truncate(part);
+		track_lsn_follow(&part->track, record->lsn);
+	}
+}
+
 hot static void
 recover_cmd(Recover* self, Record* record, RecordCmd* cmd, uint8_t** pos)
 {
@@ -116,6 +150,17 @@ recover_cmd(Recover* self, Record* record, RecordCmd* cmd, uint8_t** pos)
 	case CMD_DDL:
 	case CMD_DDL_CREATE_INDEX:
 	{
+		// truncate partitions according to their lsn
+		if (cmd->cmd == CMD_DDL && !self->write_wal &&
+		    ddl_of(*pos) == DDL_TABLE_TRUNCATE)
+		{
+			recover_truncate(self, record, cmd, *pos);
+			json_skip(pos);
+			if (record->lsn > state_catalog())
+				opt_int_set(&state()->catalog_pending, record->lsn);
+			break;
+		}
+
 		// skip ddl commands before the last catalog lsn
 		if (record->lsn <= state_catalog())
 		{
diff --git a/amelie/db/transaction/write_log.h b/amelie/db/transaction/write_log.h
index ba93632..4071f84 100644
--- a/amelie/db/transaction/write_log.h
+++ b/amelie/db/transaction/write_log.h
@@ -95,3 +95,11 @@ write_log_add_op(WriteLog* self, int cmd, uint8_t* op)
 	if (opt_int_of(&config()->wal_crc))
 		hdr->crc = runtime()->crc(0, op, hdr->size);
 }
+
+static inline void
+write_log_set_id(WriteLog* self, Uuid* id)
+{
+	// set relation id of the last command
+	auto hdr = (RecordCmd*)(self->meta.position - sizeof(RecordCmd));
+	hdr->id = *id;
+}
-- 
2.43.0


From d72242587388b5edf2e20eeec7edbced7d2402f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:46 +0000
Subject: [PATCH 83/94] fix: DDL statements that could not be written to the
 log were not undone

---
 amelie/system/session/session.c | 48 +++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/amelie/system/session/session.c b/amelie/system/session/session.c
index 4db71ce..974e81a 100644
--- a/amelie/system/session/session.c
+++ b/amelie/system/session/session.c
@@ -149,6 +149,28 @@ session_execute_distributed(Session* self, Output* output)
 	}
 }
 
+static inline void
+session_write_utility(Tr* tr)
+{
+	// respect system read-only state
+	if (opt_int_of(&state()->read_only))
+		error("system is in read-only mode");
+
+	Write write;
+	write_init(&write);
+	defer(write_free, &write);
+	write_begin(&write);
+	write_add(&write, &tr->log.write_log);
+
+	WriteList write_list;
+	write_list_init(&write_list);
+	write_list_add(&write_list, &write);
+	wal_mgr_write(&share()->db->wal_mgr, &write_list);
+
+	// update catalog pending lsn
+	opt_int_set(&state()->catalog_pending, write.header.lsn);
+}
+
 hot static inline void
 session_execute_utility(Session* self, Output* output)
 {
@@ -220,23 +242,15 @@ session_execute_utility(Session* self, Output* output)
 	// wal write
 	if (! tr_read_only(&tr))
 	{
-		// respect system read-only state
-		if (opt_int_of(&state()->read_only))
-			error("system is in read-only mode");
-
-		Write write;
-		write_init(&write);
-		defer(write_free, &write);
-		write_begin(&write);
-		write_add(&write, &tr.log.write_log);
-
-		WriteList write_list;
-		write_list_init(&write_list);
-		write_list_add(&write_list, &write);
-		wal_mgr_write(&share()->db->wal_mgr, &write_list);
-
-		// update catalog pending lsn
-		opt_int_set(&state()->catalog_pending, write.header.lsn);
+		on_error = error_catch
+		(
+			session_write_utility(&tr);
+		);
+		if (unlikely(on_error))
+		{
+			tr_abort(&tr);
+			rethrow();
+		}
 	}
 
 	// commit
-- 
2.43.0


From e63629b428dbe9d7177ef793dbb6253a7f07654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 84/94] fix: wal gc could remove records of transactions that
 were just written

---
 amelie/db/service/op.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/amelie/db/service/op.c b/amelie/db/service/op.c
index a98d22a..31d8817 100644
--- a/amelie/db/service/op.c
+++ b/amelie/db/service/op.c
@@ -102,17 +102,21 @@ service_gc(Service* self)
 	// since pending catalog sets to max ddl lsn, we are using
 	// catalog lsn as min
 	//
-	auto lsn             = UINT64_MAX;
+	// records written from now on are not included
+	//
+	uint64_t lsn         = state_lsn();
 	auto catalog         = state_catalog();
 	auto catalog_pending = state_catalog_pending();
-	if (catalog_pending > catalog)
+	if (catalog_pending > catalog && catalog < lsn)
 		lsn = catalog;
 
 	// calculate min lsn accross partitions files (merged)
 	list_foreach(&self->catalog->table_mgr.mgr.list)
 	{
 		auto table = table_of(list_at(Relation, link));
-		auto table_lock = lock(&table->rel, LOCK_SHARED);
+		// wait for transactions, which were written to the wal but not
+		// yet reflected in the partitions
+		auto table_lock = lock(&table->rel, LOCK_EXCLUSIVE);
 		list_foreach(&table->part_mgr.list)
 		{
 			auto part = list_at(Part, id.link);
-- 
2.43.0


From f07a2149b13929bbcc0ae817f82d8944d6d6bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:51 +0000
Subject: [PATCH 85/94] fix: concurrent ddl could deadlock on catalog and ddl
 locks

---
 amelie/system/session/session.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amelie/system/session/session.c b/amelie/system/session/session.c
index 974e81a..c789f41 100644
--- a/amelie/system/session/session.c
+++ b/amelie/system/session/session.c
@@ -179,15 +179,16 @@ session_execute_utility(Session* self, Output* output)
 	reg_prepare(&self->vm.r, program->code.regs);
 
 	// switch session lock to use program utility lock
-	if (program->lock_catalog != LOCK_SHARED)
+	//
+	// prevent concurrent ddls, ddl lock is always taken before the catalog lock
+	//
+	if (program->lock_catalog != LOCK_SHARED || program->lock_ddl != LOCK_NONE)
 	{
 		unlock(self->lock);
+		lock_system(REL_DDL, program->lock_ddl);
 		self->lock = lock_system(REL_CATALOG, program->lock_catalog);
 	}
 
-	// prevent concurrent ddls
-	lock_system(REL_DDL, program->lock_ddl);
-
 	// [PROFILE]
 	auto profile = &self->profile;
 	if (compiler->program_profile)
-- 
2.43.0


From 36c373c2db56ba89be5da55d99c8e60473f7b47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:51 +0000
Subject: [PATCH 86/94] fix: client was lost if frontend is stopped before its
 first execution

---
 amelie/server/client/client_mgr.h | 7 +++++++
 amelie/system/frontend/frontend.c | 8 +++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/amelie/server/client/client_mgr.h b/amelie/server/client/client_mgr.h
index d2c5410..c7c2d59 100644
--- a/amelie/server/client/client_mgr.h
+++ b/amelie/server/client/client_mgr.h
@@ -56,5 +56,12 @@ client_mgr_shutdown(ClientMgr* self)
 	{
 		auto conn = container_of(self->list.next, Client, link);
 		coroutine_kill(conn->coroutine_id);
+
+		// coroutine was cancelled before its first execution
+		if (self->list_count > 0 && self->list.next == &conn->link)
+		{
+			client_mgr_del(self, conn);
+			client_free(conn);
+		}
 	}
 }
diff --git a/amelie/system/frontend/frontend.c b/amelie/system/frontend/frontend.c
index 0e4958d..c1d1982 100644
--- a/amelie/system/frontend/frontend.c
+++ b/amelie/system/frontend/frontend.c
@@ -23,8 +23,6 @@ client_main(void* arg)
 	auto client = (Client*)arg;
 	auto self   = (Frontend*)client->arg;
 
-	client_mgr_add(&self->client_mgr, client);
-
 	// process client connection
 	error_catch
 	(
@@ -87,7 +85,11 @@ frontend_main(void* arg)
 			// remote client
 			auto client = (Client*)msg;
 			client->arg = self;
-			coroutine_create(client_main, client);
+
+			// register client before its coroutine is executed, so it can
+			// be found on shutdown
+			client_mgr_add(&self->client_mgr, client);
+			client->coroutine_id = coroutine_create(client_main, client);
 			break;
 		}
 		case MSG_NATIVE:
-- 
2.43.0


From 56d5b97555c400b2d59b306a3fbf9019c6f9140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:51 +0000
Subject: [PATCH 87/94] fix: client connect leaked resolved address on cancel

---
 amelie/server/client/client.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amelie/server/client/client.c b/amelie/server/client/client.c
index 81c3847..a326bc9 100644
--- a/amelie/server/client/client.c
+++ b/amelie/server/client/client.c
@@ -136,7 +136,13 @@ client_connect_to(Client* self, Str* host, int port)
 {
 	// resolve host address
 	struct addrinfo* addr = NULL;
-	resolve(str_of(host), port, &addr);
+	if (error_catch( resolve(str_of(host), port, &addr) ))
+	{
+		// can be cancelled after the address is resolved
+		if (addr)
+			freeaddrinfo(addr);
+		rethrow();
+	}
 	defer(freeaddrinfo, addr);
 
 	// prepare for https connection
-- 
2.43.0


From d755497bd59fb3a0cb7d734d9bf8ba1ef166a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:51 +0000
Subject: [PATCH 88/94] fix: replica replayed transactions without table locks
 and could apply one twice

---
 amelie/db/db/recover.c                 |   6 +-
 amelie/runtime/runtime/lockable_mgr.h  |   2 +
 amelie/sync/repl/primary.c             |  13 +++-
 amelie/sync/repl/primary.h             |   1 +
 amelie/system/backend/replay.c         |  17 ++++
 amelie/system/backend/replay.h         |   1 +
 amelie/system/session/session_replay.c | 104 ++++++++++++++++++-------
 7 files changed, 109 insertions(+), 35 deletions(-)

diff --git a/amelie/db/db/recover.c b/amelie/db/db/recover.c
index a00ca37..4c9da64 100644
--- a/amelie/db/db/recover.c
+++ b/amelie/db/db/recover.c
@@ -217,9 +217,6 @@ recover_next_record(Recover* self, Record* record)
 	{
 		state_lsn_follow(record->lsn);
 	}
-
-	// unlock catalog after create index
-	unlock_all();
 }
 
 void
@@ -237,6 +234,9 @@ recover_next(Recover* self, Record* record)
 
 		// commit
 		tr_commit(tr);
+
+		// unlock catalog after create index
+		unlock_all();
 	);
 	if (unlikely(on_error))
 	{
diff --git a/amelie/runtime/runtime/lockable_mgr.h b/amelie/runtime/runtime/lockable_mgr.h
index 538b0cd..26dfc97 100644
--- a/amelie/runtime/runtime/lockable_mgr.h
+++ b/amelie/runtime/runtime/lockable_mgr.h
@@ -18,6 +18,7 @@ typedef enum
 {
 	REL_CATALOG,
 	REL_DDL,
+	REL_REPL,
 	REL_BP_QUERY,
 	REL_BP_REFRESH_1,
 	REL_BP_REFRESH_2,
@@ -69,6 +70,7 @@ lockable_mgr_init(LockableMgr* self)
 	self->list = am_malloc(sizeof(Lockable) * REL_MAX);
 	lockable_init(&self->list[REL_CATALOG], REL_CATALOG, "catalog", false);
 	lockable_init(&self->list[REL_DDL], REL_DDL, "ddl", false);
+	lockable_init(&self->list[REL_REPL], REL_REPL, "repl", false);
 
 	// breakpoints
 	lockable_init(&self->list[REL_BP_QUERY], REL_BP_QUERY, "bp_query", true);
diff --git a/amelie/sync/repl/primary.c b/amelie/sync/repl/primary.c
index 74ced10..84d95f1 100644
--- a/amelie/sync/repl/primary.c
+++ b/amelie/sync/repl/primary.c
@@ -85,8 +85,8 @@ primary_main(Primary* self)
 	}
 }
 
-hot bool
-primary_next(Primary* self)
+hot void
+primary_validate(Primary* self)
 {
 	// this function must be called under session lock
 	auto request = &self->client->request;
@@ -108,6 +108,15 @@ primary_next(Primary* self)
 	// validate primary id
 	if (unlikely(! str_compare(&am_id->value, primary_id)))
 		error("primary id mismatch");
+}
+
+hot bool
+primary_next(Primary* self)
+{
+	// this function must be called under session lock
+	auto request = &self->client->request;
+
+	primary_validate(self);
 
 	// first join request will have no data and no lsn field
 	if (buf_empty(&request->content))
diff --git a/amelie/sync/repl/primary.h b/amelie/sync/repl/primary.h
index 1942aa9..5722bd9 100644
--- a/amelie/sync/repl/primary.h
+++ b/amelie/sync/repl/primary.h
@@ -24,5 +24,6 @@ struct Primary
 };
 
 void primary_init(Primary*, Recover*, Client*, PrimaryReplay, void*);
+void primary_validate(Primary*);
 bool primary_next(Primary*);
 void primary_main(Primary*);
diff --git a/amelie/system/backend/replay.c b/amelie/system/backend/replay.c
index e076cd7..2238212 100644
--- a/amelie/system/backend/replay.c
+++ b/amelie/system/backend/replay.c
@@ -18,6 +18,23 @@
 #include <amelie_frontend.h>
 #include <amelie_backend.h>
 
+void
+replay_access(Record* record, Access* access)
+{
+	auto db = share()->db;
+
+	// collect tables affected by the transaction
+	access_reset(access);
+	auto cmd = record_cmd(record);
+	for (auto i = record->count; i > 0; i--)
+	{
+		auto table = table_mgr_find_by(&db->catalog.table_mgr, &cmd->id, true);
+		access_add(access, &table->rel, LOCK_SHARED_RW);
+		cmd++;
+	}
+	access_sort(access);
+}
+
 static void
 replay_read(Dtr* dtr, Dispatch* dispatch, Record* record)
 {
diff --git a/amelie/system/backend/replay.h b/amelie/system/backend/replay.h
index 4d3872c..dfc8298 100644
--- a/amelie/system/backend/replay.h
+++ b/amelie/system/backend/replay.h
@@ -11,4 +11,5 @@
 // AGPL-3.0 Licensed.
 //
 
+void replay_access(Record*, Access*);
 void replay(Dtr*, Record*);
diff --git a/amelie/system/session/session_replay.c b/amelie/system/session/session_replay.c
index 76ead35..6714baf 100644
--- a/amelie/system/session/session_replay.c
+++ b/amelie/system/session/session_replay.c
@@ -20,23 +20,71 @@
 #include <amelie_backend.h>
 #include <amelie_session.h>
 
-void
-session_execute_replay(Session* self, Primary* primary, Buf* data)
+static void
+session_replay_validate(Primary* primary, Record* record)
 {
-	auto lock = lock_system(REL_CATALOG, LOCK_SHARED);
-	defer(unlock, lock);
+	// server role could be changed in between
+	primary_validate(primary);
+
+	// previous connection of the primary can still be active
+	if (record->lsn != state_lsn() + 1)
+		error("repl: record lsn does not match this server lsn");
+}
+
+static void
+session_replay_dml(Session* self, Primary* primary, Record* record)
+{
+	auto dtr     = &self->dtr;
+	auto program = self->program;
+
+	lock_system(REL_CATALOG, LOCK_SHARED);
+	session_replay_validate(primary, record);
+
+	// lock tables
+	replay_access(record, &program->access);
+	lock_access(&program->access);
+
+	// execute DML
+	dtr_reset(dtr);
+	dtr_prepare(dtr, program);
+	replay(dtr, record);
+}
+
+static void
+session_replay_ddl(Session* self, Primary* primary, Record* record)
+{
+	unused(self);
+
+	// prevent concurrent ddls
+	lock_system(REL_DDL, LOCK_EXCLUSIVE);
+
+	// create index takes catalog lock during execution
+	LockId lock_catalog = LOCK_EXCLUSIVE;
+	if (record_cmd(record)->cmd == CMD_DDL_CREATE_INDEX)
+		lock_catalog = LOCK_SHARED;
+	auto lock = lock_system(REL_CATALOG, lock_catalog);
+	session_replay_validate(primary, record);
+	if (lock_catalog == LOCK_SHARED)
+		unlock(lock);
+
+	// execute DDL
+	recover_next(primary->recover, record);
+}
 
+static void
+session_replay(Session* self, Primary* primary, Buf* data)
+{
 	// validate request fields and check current replication state
+	lock_system(REL_CATALOG, LOCK_SHARED);
 
 	// first join request has no data
 	if (! primary_next(primary))
 		return;
+	unlock_all();
 
 	// switch distributed transaction to replication state to write wal
 	// while in read-only mode
-	auto dtr = &self->dtr;
-	auto program = self->program;
-	program->repl = true;
+	self->program->repl = true;
 
 	// replay writes
 	auto pos = data->start;
@@ -49,37 +97,33 @@ session_execute_replay(Session* self, Primary* primary, Buf* data)
 				error("repl: record crc mismatch, system LSN is: %" PRIu64,
 				      state_lsn());
 
+		// replay records one by one
+		lock_system(REL_REPL, LOCK_EXCLUSIVE);
+
 		switch (record_cmd(record)->cmd) {
 		case CMD_REPLACE:
 		case CMD_DELETE:
-		{
-			// execute DML
-			dtr_reset(dtr);
-			dtr_prepare(dtr, program);
-			replay(dtr, record);
+			session_replay_dml(self, primary, record);
 			break;
-		}
 		case CMD_DDL:
-		{
-			// upgrade to the exclusive lock
-			unlock(lock);
-
-			// (unlocked by recover commit)
-			lock_system(REL_CATALOG, LOCK_EXCLUSIVE);
-
-			// execute DDL
-			recover_next(primary->recover, record);
-			break;
-		}
 		case CMD_DDL_CREATE_INDEX:
-		{
-			unlock(lock);
-
-			// execute CREATE INDEX
-			recover_next(primary->recover, record);
+			session_replay_ddl(self, primary, record);
 			break;
 		}
-		}
+		unlock_all();
+
 		pos += record->size;
 	}
 }
+
+void
+session_execute_replay(Session* self, Primary* primary, Buf* data)
+{
+	auto on_error = error_catch
+	(
+		session_replay(self, primary, data);
+	);
+	unlock_all();
+	if (on_error)
+		rethrow();
+}
-- 
2.43.0


From 9007ee77996d83474c708f381cce9567a4f2db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:46 +0000
Subject: [PATCH 89/94] fix: random generator produced equal values (table and
 volume ids) when used by several threads

---
 amelie/runtime/lib/random.c | 14 ++++++++++----
 amelie/runtime/lib/random.h |  3 ++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/amelie/runtime/lib/random.c b/amelie/runtime/lib/random.c
index 63ac1b3..5f62d0e 100644
--- a/amelie/runtime/lib/random.c
+++ b/amelie/runtime/lib/random.c
@@ -17,6 +17,7 @@
 void
 random_init(Random* self)
 {
+	spinlock_init(&self->lock);
 	self->seed[0] = 0;
 	self->seed[1] = 0;
 }
@@ -50,13 +51,18 @@ hot uint64_t
 random_generate(Random* self)
 {
 	// xorshift128plus
+	//
+	// state is shared between threads, values must be unique
+	//
+	spinlock_lock(&self->lock);
 	auto seed = self->seed;
-	uint64_t a = atomic_u64_of(&seed[0]);
-	uint64_t b = atomic_u64_of(&seed[1]);
-	atomic_u64_set(&seed[0], b);
+	uint64_t a = seed[0];
+	uint64_t b = seed[1];
+	seed[0] = b;
 	a ^= a << 23;
 	uint64_t c = a ^ b ^ (a >> 17) ^ (b >> 26);
-	atomic_u64_set(&seed[1], c);
+	seed[1] = c;
+	spinlock_unlock(&self->lock);
 	return c + b;
 }
 
diff --git a/amelie/runtime/lib/random.h b/amelie/runtime/lib/random.h
index 649a6ae..64454fa 100644
--- a/amelie/runtime/lib/random.h
+++ b/amelie/runtime/lib/random.h
@@ -15,7 +15,8 @@ typedef struct Random Random;
 
 struct Random
 {
-	atomic_u64 seed[2];
+	Spinlock lock;
+	uint64_t seed[2];
 };
 
 void     random_init(Random*);
-- 
2.43.0


From 692ad0927eaa94c55ba20a90380fc44e284afc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:46 +0000
Subject: [PATCH 90/94] fix: functions used a wrong row format after ALTER
 TABLE ADD COLUMN or SET COLUMN

---
 amelie/db/catalog/catalog.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amelie/db/catalog/catalog.c b/amelie/db/catalog/catalog.c
index 837f2a9..88aa890 100644
--- a/amelie/db/catalog/catalog.c
+++ b/amelie/db/catalog/catalog.c
@@ -314,6 +314,9 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 		auto column = table_op_column_add_read(op, &db, &name);
 		defer(column_free, column);
 
+		// ensure no other udfs depend on the table
+		catalog_validate_udfs(self, &name);
+
 		auto if_exists = ddl_if_exists(flags);
 		auto if_column_not_exists = ddl_if_column_not_exists(flags);
 		write = table_mgr_column_add(&self->table_mgr, tr, &db, &name,
@@ -369,6 +372,9 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 		Str value;
 		table_op_column_set_read(op, &db, &name, &name_column, &value);
 
+		// ensure no other udfs depend on the table
+		catalog_validate_udfs(self, &name);
+
 		auto if_exists = ddl_if_exists(flags);
 		auto if_column_exists = ddl_if_column_exists(flags);
 		write = table_mgr_column_set(&self->table_mgr, tr, &db, &name, &name_column,
-- 
2.43.0


From c1d905bc50df77c208349eec80fdf2d58e42266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:46 +0000
Subject: [PATCH 91/94] fix: CREATE INDEX on a column with NULL crashed, its
 NOT NULL was lost on restart and left by errors

---
 amelie/compiler/parser/parse_table.c |  4 +--
 amelie/db/catalog/catalog.c          |  2 +-
 amelie/db/catalog/catalog.h          |  1 +
 amelie/db/catalog/table_index.c      |  1 +
 amelie/db/row/compare.h              | 12 +++++++++
 amelie/db/row/key.h                  |  2 ++
 amelie/db/row/keys.h                 | 39 ++++++++++++++++++++++++++++
 amelie/db/service/indexate.c         |  4 +++
 amelie/db/service/op.c               | 10 +++++++
 9 files changed, 71 insertions(+), 4 deletions(-)

diff --git a/amelie/compiler/parser/parse_table.c b/amelie/compiler/parser/parse_table.c
index 2b39d33..3010398 100644
--- a/amelie/compiler/parser/parse_table.c
+++ b/amelie/compiler/parser/parse_table.c
@@ -48,9 +48,6 @@ parse_key(Stmt* self, Keys* keys)
 		if (stmt_if(self, KDESC))
 			asc = false;
 
-		// force column not_null constraint
-		constraints_set_not_null(&column->constraints, true);
-
 		// create key
 		auto key = key_allocate();
 		key_set_ref(key, column->order);
@@ -268,6 +265,7 @@ parse_columns(Stmt* self, Columns* columns, Keys* keys)
 		if (parse_primary_key(self))
 		{
 			parse_key(self, keys);
+			keys_set_not_null(keys);
 			parse_index_using(self, ast_table_create_of(self->ast)->config_index);
 			break;
 		}
diff --git a/amelie/db/catalog/catalog.c b/amelie/db/catalog/catalog.c
index 88aa890..8087440 100644
--- a/amelie/db/catalog/catalog.c
+++ b/amelie/db/catalog/catalog.c
@@ -149,7 +149,7 @@ catalog_status(Catalog* self)
 	return buf;
 }
 
-static void
+void
 catalog_validate_udfs(Catalog* self, Str* name)
 {
 	// validate udf dependencies on the relation
diff --git a/amelie/db/catalog/catalog.h b/amelie/db/catalog/catalog.h
index 6e40a66..edd302d 100644
--- a/amelie/db/catalog/catalog.h
+++ b/amelie/db/catalog/catalog.h
@@ -35,5 +35,6 @@ void catalog_init(Catalog*, CatalogIf*, void*, PartMgrIf*, void*);
 void catalog_free(Catalog*);
 void catalog_open(Catalog*, bool);
 void catalog_close(Catalog*);
+void catalog_validate_udfs(Catalog*, Str*);
 bool catalog_execute(Catalog*, Tr*, uint8_t*, int);
 Buf* catalog_status(Catalog*);
diff --git a/amelie/db/catalog/table_index.c b/amelie/db/catalog/table_index.c
index 2724158..2101844 100644
--- a/amelie/db/catalog/table_index.c
+++ b/amelie/db/catalog/table_index.c
@@ -47,6 +47,7 @@ add_if_abort(Log* self, LogOp* op)
 	auto relation = log_relation_of(self, op);
 	auto table = table_of(relation->relation);
 	IndexConfig* index = op->iface_arg;
+	keys_unset_not_null(&index->keys);
 	table_index_delete(table, index);
 }
 
diff --git a/amelie/db/row/compare.h b/amelie/db/row/compare.h
index 5a16aee..f55d693 100644
--- a/amelie/db/row/compare.h
+++ b/amelie/db/row/compare.h
@@ -11,6 +11,18 @@
 // AGPL-3.0 Licensed.
 //
 
+static inline bool
+keys_has_null(Keys* self, Row* row)
+{
+	list_foreach(&self->list)
+	{
+		const auto column = list_at(Key, link)->column;
+		if (! row_column(row, column))
+			return true;
+	}
+	return false;
+}
+
 hot static inline int
 compare(Keys* self, Row* a, Row* b)
 {
diff --git a/amelie/db/row/key.h b/amelie/db/row/key.h
index 61c6a1c..db8533e 100644
--- a/amelie/db/row/key.h
+++ b/amelie/db/row/key.h
@@ -19,6 +19,7 @@ struct Key
 	Column* column;
 	int64_t ref;
 	bool    asc;
+	bool    not_null_set;
 	List    link;
 };
 
@@ -28,6 +29,7 @@ key_allocate(void)
 	Key* self = am_malloc(sizeof(Key));
 	self->order  = -1;
 	self->asc    = true;
+	self->not_null_set = false;
 	self->column = NULL;
 	list_init(&self->link);
 	return self;
diff --git a/amelie/db/row/keys.h b/amelie/db/row/keys.h
index c9976af..d276549 100644
--- a/amelie/db/row/keys.h
+++ b/amelie/db/row/keys.h
@@ -123,6 +123,45 @@ keys_copy_distinct(Keys* self, Keys* primary)
 	}
 }
 
+static inline bool
+keys_nullable(Keys* self)
+{
+	list_foreach(&self->list)
+	{
+		auto key = list_at(Key, link);
+		if (! key->column->constraints.not_null)
+			return true;
+	}
+	return false;
+}
+
+static inline void
+keys_set_not_null(Keys* self)
+{
+	// force column not_null constraint
+	list_foreach(&self->list)
+	{
+		auto key = list_at(Key, link);
+		if (key->column->constraints.not_null)
+			continue;
+		constraints_set_not_null(&key->column->constraints, true);
+		key->not_null_set = true;
+	}
+}
+
+static inline void
+keys_unset_not_null(Keys* self)
+{
+	list_foreach(&self->list)
+	{
+		auto key = list_at(Key, link);
+		if (! key->not_null_set)
+			continue;
+		constraints_set_not_null(&key->column->constraints, false);
+		key->not_null_set = false;
+	}
+}
+
 static inline void
 keys_read(Keys* self, uint8_t** pos)
 {
diff --git a/amelie/db/service/indexate.c b/amelie/db/service/indexate.c
index d750702..85fc000 100644
--- a/amelie/db/service/indexate.c
+++ b/amelie/db/service/indexate.c
@@ -120,6 +120,8 @@ indexate_job(intptr_t* argv)
 	for (; heap_iterator_has(&it); heap_iterator_next(&it))
 	{
 		auto row  = heap_iterator_at(&it);
+		if (unlikely(keys_has_null(index_keys(self->index), row)))
+			error("indexate: index key column cannot be NULL");
 		auto prev = index_replace_by(self->index, row);
 		if (unlikely(prev))
 			error("indexate: index unique constraint violation");
@@ -183,6 +185,8 @@ indexate_apply(Indexate* self)
 		part_apply(origin, row, false);
 
 		// update new index
+		if (unlikely(keys_has_null(index_keys(self->index), row)))
+			error("indexate: index key column cannot be NULL");
 		auto prev = index_replace_by(self->index, row);
 		if (unlikely(prev))
 			error("indexate: index unique constraint violation");
diff --git a/amelie/db/service/op.c b/amelie/db/service/op.c
index 31d8817..c6e3f93 100644
--- a/amelie/db/service/op.c
+++ b/amelie/db/service/op.c
@@ -175,6 +175,16 @@ service_create_index(Service* self, Tr* tr, uint8_t* op, int flags)
 		return;
 	}
 
+	// ensure no udfs depend on the table, if its constraints are changed
+	if (keys_nullable(&config->keys))
+		catalog_validate_udfs(self->catalog, &name);
+
+	// force key columns not_null constraint, wait for active writers
+	auto lock_table = lock(&table->rel, LOCK_EXCLUSIVE);
+	keys_set_not_null(&config->keys);
+	unlock(lock_table);
+	errdefer(keys_unset_not_null, &config->keys);
+
 	// incrementally create indexes on every table partition
 	Indexate ix;
 	indexate_init(&ix, self);
-- 
2.43.0


From c880e84240597021cc5d239c1ad913be17d6485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:56 +0000
Subject: [PATCH 92/94] fix: recovery failed on deletes of a table that is
 dropped later

---
 amelie/db/db/recover.c      | 7 ++++++-
 amelie/db/part/part_op.c    | 5 +++--
 amelie/db/part/part_op.h    | 2 +-
 amelie/system/backend/pod.c | 3 ++-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/amelie/db/db/recover.c b/amelie/db/db/recover.c
index 4c9da64..917f238 100644
--- a/amelie/db/db/recover.c
+++ b/amelie/db/db/recover.c
@@ -142,7 +142,12 @@ recover_cmd(Recover* self, Record* record, RecordCmd* cmd, uint8_t** pos)
 		while (*pos < end)
 		{
 			auto row = (Row*)(*pos);
-			part_delete_by(part, tr, row);
+
+			// file of the partition (with row) can be already removed
+			// by drop table, which is not yet replayed
+			if (unlikely(!part_delete_by(part, tr, row) &&
+			             part->heap->header->lsn > 0))
+				error("delete by key does not match");
 			*pos += row_size(row);
 		}
 		break;
diff --git a/amelie/db/part/part_op.c b/amelie/db/part/part_op.c
index 952a2e7..56bff61 100644
--- a/amelie/db/part/part_op.c
+++ b/amelie/db/part/part_op.c
@@ -246,7 +246,7 @@ part_delete(Part* self, Tr* tr, Iterator* it)
 		limit_ensure(tr->limit, row);
 }
 
-hot void
+hot bool
 part_delete_by(Part* self, Tr* tr, Row* row)
 {
 	// note: transaction memory limit is not ensured here
@@ -255,8 +255,9 @@ part_delete_by(Part* self, Tr* tr, Row* row)
 	auto it = index_iterator(primary);
 	defer(iterator_close, it);
 	if (unlikely(! iterator_open(it, row)))
-		error("delete by key does not match");
+		return false;
 	part_delete(self, tr, it);
+	return true;
 }
 
 hot Row*
diff --git a/amelie/db/part/part_op.h b/amelie/db/part/part_op.h
index a69e500..0896f15 100644
--- a/amelie/db/part/part_op.h
+++ b/amelie/db/part/part_op.h
@@ -15,5 +15,5 @@ void part_insert(Part*, Tr*, bool, Row*);
 bool part_upsert(Part*, Tr*, Iterator*, Row*);
 void part_update(Part*, Tr*, Iterator*, Row*);
 void part_delete(Part*, Tr*, Iterator*);
-void part_delete_by(Part*, Tr*, Row*);
+bool part_delete_by(Part*, Tr*, Row*);
 Row* part_apply(Part*, Row*, bool);
diff --git a/amelie/system/backend/pod.c b/amelie/system/backend/pod.c
index 4d32636..4c65bac 100644
--- a/amelie/system/backend/pod.c
+++ b/amelie/system/backend/pod.c
@@ -51,7 +51,8 @@ pod_replay(Pod* self, Tr* tr, Buf* arg)
 			while (data < end)
 			{
 				auto row = (Row*)(data);
-				part_delete_by(self->part, tr, row);
+				if (unlikely(! part_delete_by(self->part, tr, row)))
+					error("delete by key does not match");
 				data += row_size(row);
 			}
 		}
-- 
2.43.0


From fcfbbefb20a2d05409dd5ad7db5e9dce97b6d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:56 +0000
Subject: [PATCH 93/94] fix: recovery applied rows to indexes that were created
 after them

---
 amelie/db/db/recover.c   | 10 ++++++
 amelie/db/part/part.c    | 68 ++++++++++++++++++++++++++++++++++++++--
 amelie/db/part/part.h    |  3 ++
 amelie/db/part/part_op.c |  3 ++
 4 files changed, 81 insertions(+), 3 deletions(-)

diff --git a/amelie/db/db/recover.c b/amelie/db/db/recover.c
index 917f238..2a2b430 100644
--- a/amelie/db/db/recover.c
+++ b/amelie/db/db/recover.c
@@ -120,6 +120,7 @@ recover_cmd(Recover* self, Record* record, RecordCmd* cmd, uint8_t** pos)
 			record_cmd_skip(cmd, pos);
 			break;
 		}
+		part_recover(part);
 		auto end = *pos + cmd->size;
 		while (*pos < end)
 		{
@@ -138,6 +139,7 @@ recover_cmd(Recover* self, Record* record, RecordCmd* cmd, uint8_t** pos)
 			record_cmd_skip(cmd, pos);
 			break;
 		}
+		part_recover(part);
 		auto end = *pos + cmd->size;
 		while (*pos < end)
 		{
@@ -288,6 +290,14 @@ recover_wal_main(Recover* self)
 		if (id == UINT64_MAX)
 			break;
 	}
+
+	// rebuild secondary indexes
+	list_foreach(&self->db->catalog.table_mgr.mgr.list)
+	{
+		auto table = table_of(list_at(Relation, link));
+		list_foreach(&table->part_mgr.list)
+			part_recover_complete(list_at(Part, link));
+	}
 }
 
 void
diff --git a/amelie/db/part/part.c b/amelie/db/part/part.c
index e033687..85dfff6 100644
--- a/amelie/db/part/part.c
+++ b/amelie/db/part/part.c
@@ -27,6 +27,7 @@ part_allocate(Id* id, PartArg* arg)
 	self->id            = *id;
 	self->indexes       = NULL;
 	self->indexes_count = 0;
+	self->indexes_recover = NULL;
 	self->heap          = heap_allocate(false);
 	self->heap_shadow   = NULL;
 	self->arg           = arg;
@@ -47,6 +48,13 @@ part_free(Part* self)
 		index_free(index);
 		index = next;
 	}
+	index = self->indexes_recover;
+	while (index)
+	{
+		auto next = index->next;
+		index_free(index);
+		index = next;
+	}
 	if (self->heap)
 		heap_free(self->heap);
 	if (self->heap_shadow)
@@ -131,10 +139,20 @@ part_index_create(Part* self, IndexConfig* config)
 void
 part_index_drop(Part* self, Str* name)
 {
-	auto index = self->indexes;
+	// secondary indexes can be detached during recovery
+	auto list  = &self->indexes;
+	auto index = *list;
 	auto tail  = (Index*)NULL;
-	for (; index; index = index->next)
+	for (;; index = index->next)
 	{
+		if (!index && list == &self->indexes)
+		{
+			list  = &self->indexes_recover;
+			index = *list;
+			tail  = NULL;
+		}
+		if (! index)
+			break;
 		if (str_compare_case(&index->config->name, name))
 			break;
 		tail = index;
@@ -147,7 +165,7 @@ part_index_drop(Part* self, Str* name)
 	if (tail)
 		tail->next = index->next;
 	else
-		self->indexes = index->next;
+		*list = index->next;
 	self->indexes_count--;
 	index_free(index);
 }
@@ -160,12 +178,56 @@ part_index_find(Part* self, Str* name, bool error_if_not_exists)
 		if (str_compare_case(&index->config->name, name))
 			return index;
 	}
+	for (auto index = self->indexes_recover; index; index = index->next)
+	{
+		if (str_compare_case(&index->config->name, name))
+			return index;
+	}
 	if (error_if_not_exists)
 		error("index '%.*s': not exists", str_size(name),
 		       str_of(name));
 	return NULL;
 }
 
+void
+part_recover(Part* self)
+{
+	// detach secondary indexes before replay
+	//
+	// catalog can be newer then the partition file, rows which existed
+	// before index creation might not be valid for the index
+	//
+	auto primary = part_primary(self);
+	if (self->indexes_recover || !primary->next)
+		return;
+	self->indexes_recover = primary->next;
+	primary->next = NULL;
+}
+
+void
+part_recover_complete(Part* self)
+{
+	// rebuild and attach secondary indexes after replay
+	auto head = self->indexes_recover;
+	if (! head)
+		return;
+	auto tail = head;
+	for (auto index = head; index; index = index->next)
+	{
+		index_truncate(index);
+		HeapIterator it;
+		heap_iterator_init(&it);
+		heap_iterator_open(&it, self->heap, NULL);
+		for (; heap_iterator_has(&it); heap_iterator_next(&it))
+			index_replace_by(index, heap_iterator_at(&it));
+		tail = index;
+	}
+	auto primary = part_primary(self);
+	tail->next = primary->next;
+	primary->next = head;
+	self->indexes_recover = NULL;
+}
+
 void
 part_status(Part* self, Buf* buf, int flags)
 {
diff --git a/amelie/db/part/part.h b/amelie/db/part/part.h
index 75c2274..3bb1d08 100644
--- a/amelie/db/part/part.h
+++ b/amelie/db/part/part.h
@@ -18,6 +18,7 @@ struct Part
 	Id       id;
 	Index*   indexes;
 	int      indexes_count;
+	Index*   indexes_recover;
 	Track    track;
 	Heap*    heap;
 	Heap*    heap_shadow;
@@ -34,6 +35,8 @@ void   part_index_add(Part*, Index*);
 void   part_index_create(Part*, IndexConfig*);
 void   part_index_drop(Part*, Str*);
 Index* part_index_find(Part*, Str*, bool);
+void   part_recover(Part*);
+void   part_recover_complete(Part*);
 void   part_status(Part*, Buf*, int);
 
 static inline Index*
diff --git a/amelie/db/part/part_op.c b/amelie/db/part/part_op.c
index 56bff61..e357b62 100644
--- a/amelie/db/part/part_op.c
+++ b/amelie/db/part/part_op.c
@@ -278,6 +278,9 @@ part_apply(Part* self, Row* row, bool delete)
 	// update secondary indexes
 	for (auto index = primary->next; index; index = index->next)
 	{
+		// row can be created before the index (recovery)
+		if (unlikely(keys_has_null(index_keys(index), row)))
+			continue;
 		if (delete)
 			index_delete_by(index, row);
 		else
-- 
2.43.0


From f3bd3f5b32cf6414d076d481e4c9ca2289dfea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:18 +0000
Subject: [PATCH 94/94] fix: frontends were freed while other tasks could still
 signal them at shutdown

---
 amelie/system/frontend/frontend_mgr.h | 11 +++++++++--
 amelie/system/system/system.c         |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/amelie/system/frontend/frontend_mgr.h b/amelie/system/frontend/frontend_mgr.h
index cce7083..1cee919 100644
--- a/amelie/system/frontend/frontend_mgr.h
+++ b/amelie/system/frontend/frontend_mgr.h
@@ -69,10 +69,17 @@ frontend_mgr_stop(FrontendMgr* self)
 	if (self->workers == NULL)
 		return;
 	for (int i = 0; i < self->workers_count; i++)
-   	{
 		frontend_stop(&self->workers[i]);
+}
+
+static inline void
+frontend_mgr_free(FrontendMgr* self)
+{
+	// note: other tasks can signal frontends until they are stopped
+	if (self->workers == NULL)
+		return;
+	for (int i = 0; i < self->workers_count; i++)
 		frontend_free(&self->workers[i]);
-	}
 	am_free(self->workers);
 	self->workers = NULL;
 }
diff --git a/amelie/system/system/system.c b/amelie/system/system/system.c
index 7c93571..465b24e 100644
--- a/amelie/system/system/system.c
+++ b/amelie/system/system/system.c
@@ -341,6 +341,9 @@ system_stop(System* self)
 
 	// stop backends
 	backend_mgr_stop(&self->backend_mgr);
+
+	// free frontends
+	frontend_mgr_free(&self->frontend_mgr);
 }
 
 static void
-- 
2.43.0

