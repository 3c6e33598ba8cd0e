From be0e01cf7d2b80c0c896ce4381a258a72beb8fc8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 001/104] fix: thread creation handshake must tolerate spurious
 condition wakeups

---
 thread/m_thread.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/thread/m_thread.c b/thread/m_thread.c
index aa937f7..1f50a92 100644
--- a/thread/m_thread.c
+++ b/thread/m_thread.c
@@ -74,6 +74,8 @@ typedef struct {
 	M_threadid_t     *thread_id;  /*!< Pointer to OS thread id */
 	M_thread_cond_t  *cond;       /*!< Pointer for Conditional for signalling when OS thread id has been filled */
 	M_thread_mutex_t *mutex;      /*!< Pointer for Mutex for OS thread id filling */
+	M_bool            id_set;     /*!< Child has filled in the OS thread id (guards against spurious wakeups) */
+	M_bool            proceed;    /*!< Parent has recorded the thread, child may run (guards against spurious wakeups) */
 } M_thread_wrapfunc_data_t;
 
 static M_bool M_thread_once_int(M_thread_once_t *once_control, M_bool atomics_only, void (*init_routine)(M_uint64 flags), M_uint64 init_flags);
@@ -99,10 +101,13 @@ static void *M_thread_wrapfunc(void *arg)
 	/* Notify parent we have set the thread id */
 	M_thread_mutex_lock(data->mutex);
 	*(data->thread_id) = thread_cbs.thread_self(NULL);
+	data->id_set       = M_TRUE;
 	M_thread_cond_signal(data->cond);
 
 	/* Wait for parent to say it is ok to continue */
-	M_thread_cond_wait(data->cond, data->mutex);
+	while (!data->proceed) {
+		M_thread_cond_wait(data->cond, data->mutex);
+	}
 
 	/* Destroy unneeded data */
 	M_thread_mutex_unlock(data->mutex);
@@ -491,7 +496,7 @@ M_threadid_t M_thread_create(const M_thread_attr_t *attr, void *(*func)(void *),
 	if (thread_cbs.thread_create == NULL)
 		return 0;
 
-	data            = M_malloc(sizeof(*data));
+	data            = M_malloc_zero(sizeof(*data));
 	data->func      = func;
 	data->arg       = arg;
 	cond            = M_thread_cond_create(M_THREAD_CONDATTR_NONE);
@@ -522,7 +527,9 @@ M_threadid_t M_thread_create(const M_thread_attr_t *attr, void *(*func)(void *),
 	}
 
 	/* Wait to be signaled that the thread id has been set by the thread */
-	M_thread_cond_wait(cond, mutex);
+	while (!data->id_set) {
+		M_thread_cond_wait(cond, mutex);
+	}
 
 	/* Add to thread map */
 	M_thread_mutex_lock(threadid_mutex);
@@ -540,6 +547,7 @@ M_threadid_t M_thread_create(const M_thread_attr_t *attr, void *(*func)(void *),
 
 	/* Signal thread its ok to continue as we've recorded the necessary information
 	 * NOTE:  it is the responsibility of the thread to destroy cond and mutex */
+	data->proceed = M_TRUE;
 	M_thread_cond_signal(cond);
 	M_thread_mutex_unlock(mutex);
 
-- 
2.43.0


From 47e744b009c7627e076271db21c85b1051426de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 002/104] fix: condition timed wait truncated delays longer
 than 71 minutes

---
 thread/m_thread.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thread/m_thread.c b/thread/m_thread.c
index 1f50a92..56dffc7 100644
--- a/thread/m_thread.c
+++ b/thread/m_thread.c
@@ -823,8 +823,10 @@ M_bool M_thread_cond_timedwait(M_thread_cond_t *cond, M_thread_mutex_t *mutex, M
 
 	M_time_gettimeofday(&tv);
 
-	/* Convert delay to microseconds, add to microseconds field. */
-	tv.tv_usec += (M_uint32)(millisec * 1000);
+	/* Add whole seconds to the seconds field and the remainder to the microseconds field, a delay in microseconds
+	 * would be truncated for long delays. */
+	tv.tv_sec  += (M_time_t)(millisec / 1000);
+	tv.tv_usec += (M_suseconds_t)((millisec % 1000) * 1000);
 
 	/* M_thread_cond_timedwait_abs() will normalize the time struct for us. */
 	return M_thread_cond_timedwait_abs(cond, mutex, &tv);
-- 
2.43.0


From ccb8d176bf208a270e61baef21a548aa2230ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 003/104] fix: waiting writers were not preferred by read/write
 locks with glibc

---
 thread/m_thread_pthread.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thread/m_thread_pthread.c b/thread/m_thread_pthread.c
index ad914f7..c0a5642 100644
--- a/thread/m_thread_pthread.c
+++ b/thread/m_thread_pthread.c
@@ -562,7 +562,8 @@ static M_thread_rwlock_t *M_thread_pthread_rwlock_create(void)
 	int                   ret;
 
 	pthread_rwlockattr_init(&attr);
-#if defined(HAVE_PTHREAD_RWLOCKATTR_SETKIND_NP) && defined(PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP)
+	/* NOTE: glibc provides PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP as an enum member, not as a macro */
+#if defined(HAVE_PTHREAD_RWLOCKATTR_SETKIND_NP) && (defined(PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP) || defined(__GLIBC__))
 	pthread_rwlockattr_setkind_np(&attr, PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP);
 #endif
 
-- 
2.43.0


From f7d409024d580cb20daf14994923f7d818583044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 004/104] fix: threadpool could strand tasks when a thread
 exits due to being idle

---
 thread/m_threadpool.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/thread/m_threadpool.c b/thread/m_threadpool.c
index ee0b176..e547540 100644
--- a/thread/m_threadpool.c
+++ b/thread/m_threadpool.c
@@ -159,7 +159,15 @@ static M_bool M_threadpool_queue_fetch(M_threadpool_t *pool, M_threadpool_queue_
 		/* NOTE: even on a timeout condition, we'll look for a task first before
 		 *       exiting just to make sure we don't have an accidental stall */
 		if (is_timeout && pool->num_threads > pool->min_threads) {
-			break;
+			/* This thread is going away and will not look at the queue again, it must not be counted any longer
+			 * once the lock is released as otherwise a task could be enqueued with no thread left to process it.
+			 * Anyone waiting on a thread may now spawn one. */
+			pool->num_threads--;
+			if (pool->queue_waiters) {
+				M_thread_cond_signal(pool->queue_icond);
+			}
+			M_thread_mutex_unlock(pool->queue_lock);
+			return M_FALSE;
 		}
 		is_timeout = M_FALSE;
 
@@ -188,6 +196,15 @@ static M_bool M_threadpool_queue_fetch(M_threadpool_t *pool, M_threadpool_queue_
 
 		pool->num_idle_threads--;
 	}
+
+	/* Shutting down.  On M_threadpool_destroy() it will block on queue_icond until woken up with the thread count at 0 */
+	if (!acquired) {
+		pool->num_threads--;
+		if (pool->num_threads == 0) {
+			M_thread_cond_broadcast(pool->queue_icond);
+		}
+	}
+
 	M_thread_mutex_unlock(pool->queue_lock);
 
 	return acquired;
@@ -228,14 +245,6 @@ static void *M_threadpool_thread(void *arg)
 		M_thread_mutex_unlock(task.parent->lock);
 	}
 
-	M_thread_mutex_lock(pool->queue_lock);
-	pool->num_threads--;
-	/* On M_threadpool_destroy() it will block on queue_icond until woken up
-	 * with the thread count at 0 */
-	if (!pool->up && pool->num_threads == 0)
-		M_thread_cond_broadcast(pool->queue_icond);
-	M_thread_mutex_unlock(pool->queue_lock);
-
 	return NULL;
 }
 
-- 
2.43.0


From adb50ba99ed121715689cee2306335b4c83f4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 005/104] fix: thread pipeline deadlock on abort and failed
 task reported as aborted

---
 thread/m_thread_pipeline.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thread/m_thread_pipeline.c b/thread/m_thread_pipeline.c
index 4bedfc4..2a6036c 100644
--- a/thread/m_thread_pipeline.c
+++ b/thread/m_thread_pipeline.c
@@ -220,8 +220,8 @@ static void pipeline_finish_step(M_thread_pipeline_step_t *step, M_thread_pipeli
 		M_thread_cond_broadcast(pipeline->cond);
 	}
 
-	/* If system went down, abort, don't pass on */
-	if (!pipeline->status && idx != pipeline->num_steps-1)
+	/* If system went down, abort, don't pass on.  A task that failed on its own is still reported as failed. */
+	if (!pipeline->status && rv == M_THREAD_PIPELINE_RESULT_SUCCESS && idx != pipeline->num_steps-1)
 		rv = M_THREAD_PIPELINE_RESULT_ABORT;
 
 	/* Complete task if last step, or failure */
@@ -229,15 +229,15 @@ static void pipeline_finish_step(M_thread_pipeline_step_t *step, M_thread_pipeli
 		pipeline_finish_task(pipeline, task, rv);
 		return;
 	}
-	/* send to next step in pipeline */
-	while (pipeline->steps[idx+1].task != NULL) {
+	/* send to next step in pipeline, unless the system goes down as the next step may then never take its task */
+	while (pipeline->status && pipeline->steps[idx+1].task != NULL) {
 		/* Wait to be notified */
 		M_thread_cond_wait(step->cond, pipeline->lock);
 	}
 
 	/* Make sure system is still online, if not, don't enqueue, abort! */
 	if (!pipeline->status) {
-		pipeline_finish_task(pipeline, task, M_THREAD_PIPELINE_RESULT_FAIL);
+		pipeline_finish_task(pipeline, task, M_THREAD_PIPELINE_RESULT_ABORT);
 		return;
 	}
 
-- 
2.43.0


From 695053c0c98c0460b69d2589f20838569477dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 006/104] fix: clearing a thread-local value called its
 destructor with NULL at thread end

---
 thread/m_thread_tls.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thread/m_thread_tls.c b/thread/m_thread_tls.c
index 3b05434..fba5b60 100644
--- a/thread/m_thread_tls.c
+++ b/thread/m_thread_tls.c
@@ -178,8 +178,10 @@ M_bool M_thread_tls_setspecific(M_thread_tls_key_t key, const void *value)
 	M_thread_mutex_unlock(M_thread_tls_key_mutex);
 
 	/* If NULL is specified, we're clearing the value */
-	if (value == NULL)
+	if (value == NULL) {
 		M_hash_u64vp_remove(tls_store, key, M_TRUE);
+		return M_TRUE;
+	}
 
 	/* No longer in global context, operating on our own thread-specific pool.
 	 * Don't need to hold the lock any longer */
-- 
2.43.0


From 3998002960130253269fbadf7a588447ec4c6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 007/104] fix: thread-local destructors could not use
 thread-local storage

---
 thread/m_thread_tls.c | 49 ++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/thread/m_thread_tls.c b/thread/m_thread_tls.c
index fba5b60..d688228 100644
--- a/thread/m_thread_tls.c
+++ b/thread/m_thread_tls.c
@@ -71,6 +71,19 @@ static void M_thread_tls_destroy_thread_key(void *value)
 	M_free(tls_value);
 }
 
+/*! Remove the value for a key from the thread's own store and destroy it.  The value is detached
+ *  first as the destructor may access the store. */
+static void M_thread_tls_remove_value(M_hash_u64vp_t *tls_store, M_uint64 key)
+{
+	void *value = NULL;
+
+	if (!M_hash_u64vp_get(tls_store, key, &value))
+		return;
+
+	M_hash_u64vp_remove(tls_store, key, M_FALSE);
+	M_thread_tls_destroy_thread_key(value);
+}
+
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
 /*! Initialize the TLS subsystem, should be called as part of the global thread system
@@ -106,6 +119,7 @@ void M_thread_tls_purge_thread(void)
 	M_list_u64_t        *keylist;
 	size_t               i;
 	size_t               len;
+	size_t               rounds;
 
 	M_thread_mutex_lock(M_thread_tls_key_mutex);
 	tls_store = M_hash_u64vp_get_direct(M_thread_tls_storepool, M_thread_self());
@@ -120,21 +134,27 @@ void M_thread_tls_purge_thread(void)
 	 * take and cause the entire application to stall.  Instead, we are going
 	 * to enumerate the hashtable, store the keys in a list, then iterate 
 	 * over the list and destroy each value ... OUTSIDE of that GLOBAL lock.
+	 *
+	 * A destructor may itself use TLS, so a value is always detached from the
+	 * hashtable before its destructor is called, and we need to keep going
+	 * until no destructor has stored another value (within reason).
 	 */
-	keylist = M_list_u64_create(M_LIST_U64_NONE);
-	M_hash_u64vp_enumerate(tls_store, &hashenum);
-	while (M_hash_u64vp_enumerate_next(tls_store, hashenum, &key, NULL)) {
-		M_list_u64_insert(keylist, key);
-	}
-	M_hash_u64vp_enumerate_free(hashenum);
-
-	/* Iterate across the keys (remember, can't enumerate and remove from a
-	 * hashtable) */
-	len = M_list_u64_len(keylist);
-	for (i=0; i<len; i++) {
-		M_hash_u64vp_remove(tls_store, M_list_u64_at(keylist, i), M_TRUE);
+	for (rounds=0; rounds<32 && M_hash_u64vp_num_keys(tls_store) != 0; rounds++) {
+		keylist = M_list_u64_create(M_LIST_U64_NONE);
+		M_hash_u64vp_enumerate(tls_store, &hashenum);
+		while (M_hash_u64vp_enumerate_next(tls_store, hashenum, &key, NULL)) {
+			M_list_u64_insert(keylist, key);
+		}
+		M_hash_u64vp_enumerate_free(hashenum);
+
+		/* Iterate across the keys (remember, can't enumerate and remove from a
+		 * hashtable) */
+		len = M_list_u64_len(keylist);
+		for (i=0; i<len; i++) {
+			M_thread_tls_remove_value(tls_store, M_list_u64_at(keylist, i));
+		}
+		M_list_u64_destroy(keylist);
 	}
-	M_list_u64_destroy(keylist);
 
 	/* Now we can re-lock that global mutex and remove the thread specific hash */
 	M_thread_mutex_lock(M_thread_tls_key_mutex);
@@ -179,12 +199,13 @@ M_bool M_thread_tls_setspecific(M_thread_tls_key_t key, const void *value)
 
 	/* If NULL is specified, we're clearing the value */
 	if (value == NULL) {
-		M_hash_u64vp_remove(tls_store, key, M_TRUE);
+		M_thread_tls_remove_value(tls_store, key);
 		return M_TRUE;
 	}
 
 	/* No longer in global context, operating on our own thread-specific pool.
 	 * Don't need to hold the lock any longer */
+	M_thread_tls_remove_value(tls_store, key);
 	tls_value             = M_malloc_zero(sizeof(*tls_value));
 	tls_value->destructor = destructor;
 	tls_value->value      = (void *)((M_uintptr)value);
-- 
2.43.0


From b28a0f48209cdbeecaaea83b389d963a86768d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 008/104] fix: M_event_return() behaved like M_event_done()
 unless called on a pool

---
 io/m_event.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/m_event.c b/io/m_event.c
index c417479..4943d8e 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -1159,9 +1159,9 @@ void M_event_return(M_event_t *event)
 
 	if (event->type == M_EVENT_BASE_TYPE_LOOP) {
 		if (event->u.loop.parent) {
-			M_event_done(event->u.loop.parent);
+			M_event_return(event->u.loop.parent);
 		} else {
-			M_event_status_change(event, M_EVENT_STATUS_DONE);
+			M_event_status_change(event, M_EVENT_STATUS_RETURN);
 		}
 		return;
 	}
-- 
2.43.0


From 3a23f809f152ff27cd7cdaa6ad49e219302d32b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 009/104] fix: event loop status was not DONE after exiting
 because it was empty

---
 io/m_event.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/m_event.c b/io/m_event.c
index 4943d8e..ecd559f 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -1384,9 +1384,9 @@ static M_event_err_t M_event_loop_loop(M_event_t *event, M_uint64 timeout_ms)
 
 	} while ((elapsed = M_time_elapsed(&event->u.loop.start_tv)) < event->u.loop.timeout_ms);
 
-	/* Mark as paused */
+	/* Mark as paused, or done if there were no more objects */
 	if (event->u.loop.status == M_EVENT_STATUS_RUNNING)
-		event->u.loop.status = M_EVENT_STATUS_PAUSED;
+		event->u.loop.status = (retval == M_EVENT_ERR_DONE)?M_EVENT_STATUS_DONE:M_EVENT_STATUS_PAUSED;
 
 	/* Handle a status change event */
 	if (event->u.loop.status_change == M_EVENT_STATUS_DONE) {
-- 
2.43.0


From e2ae9a3ca3efb1e92972cd274b5a0d8319fee7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 010/104] fix: M_event_done_with_disconnect() reported a
 timeout and an infinite disconnect timeout ended the loop

---
 io/m_event.c     | 12 ++++++++++--
 io/m_event_int.h |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/io/m_event.c b/io/m_event.c
index ecd559f..8a0a6f5 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -1040,8 +1040,11 @@ static void M_event_done_with_disconnect_cb(M_event_t *event, M_event_type_t typ
 
 	elapsed_ms = M_time_elapsed(&event->u.loop.start_tv);
 
-	if (disconnect_timeout_ms == M_TIMEOUT_INF || elapsed_ms + disconnect_timeout_ms < event->u.loop.timeout_ms) {
-		event->u.loop.timeout_ms = elapsed_ms + disconnect_timeout_ms;
+	/* If exceeding the time allowed for disconnects is what ends the loop, that is completion of the done
+	 * request, not an expiration of the timeout passed to M_event_loop() */
+	if (disconnect_timeout_ms != M_TIMEOUT_INF && elapsed_ms + disconnect_timeout_ms < event->u.loop.timeout_ms) {
+		event->u.loop.timeout_ms      = elapsed_ms + disconnect_timeout_ms;
+		event->u.loop.timeout_is_done = M_TRUE;
 	}
 
 	/* Iterate across all registered IOs and issue a disconnect. We have to generate a
@@ -1287,6 +1290,7 @@ static M_event_err_t M_event_loop_loop(M_event_t *event, M_uint64 timeout_ms)
 		event->u.loop.status_change = 0;
 	}
 	event->u.loop.timeout_ms    = timeout_ms;
+	event->u.loop.timeout_is_done = M_FALSE;
 	event->u.loop.threadid      = M_thread_self();
 
 	M_time_elapsed_start(&event->u.loop.start_tv);
@@ -1384,6 +1388,10 @@ static M_event_err_t M_event_loop_loop(M_event_t *event, M_uint64 timeout_ms)
 
 	} while ((elapsed = M_time_elapsed(&event->u.loop.start_tv)) < event->u.loop.timeout_ms);
 
+	/* Ran out of time to wait on disconnects */
+	if (retval == M_EVENT_ERR_TIMEOUT && event->u.loop.timeout_is_done && event->u.loop.status_change == 0)
+		retval = M_EVENT_ERR_DONE;
+
 	/* Mark as paused, or done if there were no more objects */
 	if (event->u.loop.status == M_EVENT_STATUS_RUNNING)
 		event->u.loop.status = (retval == M_EVENT_ERR_DONE)?M_EVENT_STATUS_DONE:M_EVENT_STATUS_PAUSED;
diff --git a/io/m_event_int.h b/io/m_event_int.h
index bd58f1f..bac4785 100644
--- a/io/m_event_int.h
+++ b/io/m_event_int.h
@@ -133,6 +133,7 @@ struct M_event_loop {
 	M_threadid_t        threadid;             /*!< ThreadID currently processing the event loop              */
 	M_thread_mutex_t   *lock;                 /*!< Lock to prevent concurrent access */
 	M_uint64            timeout_ms;           /*!< Cache variable for tracking the current event loop timeout */
+	M_bool              timeout_is_done;      /*!< timeout_ms was lowered by M_event_done_with_disconnect() */
 	M_timeval_t         start_tv;             /*!< Elapsed timer start of current event loop                  */
 	enum M_EVENT_FLAGS  flags;                /*!< Flags that control behavior */
 	M_event_status_t    status;               /*!< Status of event loop */
-- 
2.43.0


From c818669d1c7766451ef2de08af0a7e53200e0a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 011/104] fix: a timer started from within its own callback was
 scheduled twice

---
 io/m_event_timer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index ea8c773..b7ffef0 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -48,6 +48,7 @@ struct M_event_timer {
 	size_t               cnt;
 	M_timeval_t          next_run;     /* Next run, based on M_time_elapse_start() */
 	M_timeval_t          last_run;     /* Last run time, to prevent starvation of other tasks */
+	M_bool               restarted;    /* Started during execution of its own callback, it is already scheduled */
 	M_bool               executing;    /* If we are currently executing this timer's callback -- make sure we don't really destroy ourselves */
 };
 
@@ -305,6 +306,8 @@ M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 		if (!timer->executing) { /* Recursion! */
 			M_event_timer_enqueue(timer);
 			M_event_wake(timer->event);
+		} else {
+			timer->restarted = M_TRUE;
 		}
 	} else {
 		if (!timer->executing) /* Recursion! */
@@ -545,6 +548,7 @@ void M_event_timer_process(M_event_t *event)
 		/* Trigger callback */
 		if (timer->started) {
 			timer->cnt++;
+			timer->restarted = M_FALSE;
 			timer->executing = M_TRUE;
 
 			/* Unlock event lock since the callback may take some time */
@@ -593,9 +597,10 @@ void M_event_timer_process(M_event_t *event)
 		 * tasks ready to run immediately, thus starving them */
 		M_time_elapsed_start(&timer->last_run);
 
-		/* Reschedule */
-		if (timer->started)
+		/* Reschedule, unless starting the timer during the callback already did so */
+		if (timer->started && !timer->restarted)
 			M_event_timer_schedule(timer);
+		timer->restarted = M_FALSE;
 
 		/* re-enqueue */
 		M_event_timer_enqueue(timer);
-- 
2.43.0


From 450d866e21336cb11f522c8f396445cbded3639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 012/104] fix: stopping or removing an executing timer from
 another thread could use it after it was destroyed

---
 io/m_event_timer.c | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index b7ffef0..354b7d3 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -154,36 +154,32 @@ M_bool M_event_timer_remove(M_event_timer_t *timer)
 	event = timer->event;
 	M_event_lock(event);
 
+	/* Timer is dequeued and currently executing so will be cleaned up at the end of the callback, regardless
+	 * of which thread is asking.  It can't be left to a queued task as the event loop thread might destroy the
+	 * timer first. */
+	if (timer->executing) {
+		timer->started       = M_FALSE;
+		timer->delay_destroy = M_TRUE;
+		M_event_unlock(event);
+		return M_TRUE;
+	}
+
 	/* Queue a destroy task to run for this in the owning event loop */
 	if (event->u.loop.threadid != 0 && event->u.loop.threadid != M_thread_self()) {
 		M_event_queue_task(event, M_event_timer_remove_cb, timer);
 
 		/* Stop the timer so it won't execute before it's destroyed.
-		 * In case destroy needs to be queued. */
+		 * In case destroy needs to be queued.
+		 * Since the timer->started flag is used as part of the sort operation,
+		 * we have to de-queue and re-enqueue the timer. */
+		M_event_timer_dequeue(timer);
 		timer->started = M_FALSE;
-
-		/* Since the timer->started flag is used as part of the sort operation,
-		 * we have to de-queue and re-enqueue the timer.  But if somehow the
-		 * timer is executing at the same time, we skip this since its not
-		 * in queue at all */
-		if (!timer->executing) {
-			M_event_timer_dequeue(timer);
-			M_event_timer_enqueue(timer);
-		}
+		M_event_timer_enqueue(timer);
 
 		M_event_unlock(event);
 		return M_TRUE; /* queued to remove */
 	}
 
-	if (timer->executing) {
-		/* Timer is dequeued and currently executing so will be cleaned up at
-		 * the end of the callback */
-		timer->started       = M_FALSE;
-		timer->delay_destroy = M_TRUE;
-		M_event_unlock(event);
-		return M_TRUE;
-	}
-
 	M_event_timer_dequeue(timer);
 //M_printf("%s(): timer %p destroyed\n", __FUNCTION__, timer); fflush(stdout);
 
@@ -321,20 +317,25 @@ M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 
 static M_bool M_event_timer_stop_int(M_event_timer_t *timer, M_bool allow_autodestroy)
 {
+	M_event_t *event;
+
 	if (timer == NULL || timer->event == NULL)
 		return M_FALSE;
 
-	M_event_lock(timer->event);
+	event = timer->event;
+	M_event_lock(event);
 	if (!timer->executing) /* Recursion! */
 		M_event_timer_dequeue(timer);
 	timer->started = M_FALSE;
 	if (!timer->executing) /* Recursion! */
 		M_event_timer_enqueue(timer);
-	M_event_unlock(timer->event);
 //M_printf("%s(): timer %p stopped\n", __FUNCTION__, timer); fflush(stdout);
 
-	if (allow_autodestroy && timer->autodestroy)
+	/* Must be evaluated while still locked, if the timer is executing then the event loop thread will destroy it as
+	 * soon as its callback returns.  */
+	if (allow_autodestroy && timer->autodestroy && !timer->executing)
 		M_event_timer_remove(timer);
+	M_event_unlock(event);
 
 	return M_TRUE;
 }
-- 
2.43.0


From 15e007b9fcc9a26f515f1e57401dec5f005b1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 013/104] fix: resetting an executing autoremove timer from
 another thread could destroy it

---
 io/m_event_timer.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index 354b7d3..a52a27a 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -349,15 +349,22 @@ M_bool M_event_timer_stop(M_event_timer_t *timer)
 
 M_bool M_event_timer_reset(M_event_timer_t *timer, M_uint64 interval_ms)
 {
+	M_event_t *event;
+	M_bool     rv;
+
 	if (timer == NULL || timer->event == NULL)
 		return M_FALSE;
 
-	if (timer->started) {
-		if (!M_event_timer_stop_int(timer, M_FALSE))
-			return M_FALSE;
-	}
+	/* Must be atomic, otherwise the event loop could observe the temporarily stopped timer and
+	 * destroy it if it is an autoremove timer that is currently executing */
+	event = timer->event;
+	M_event_lock(event);
+	if (timer->started)
+		M_event_timer_stop_int(timer, M_FALSE);
+	rv = M_event_timer_start(timer, (interval_ms == 0)?timer->interval_ms:interval_ms);
+	M_event_unlock(event);
 
-	return M_event_timer_start(timer, (interval_ms == 0)?timer->interval_ms:interval_ms);
+	return rv;
 }
 
 
-- 
2.43.0


From a91d9e2bbb948e387c03db86634c6c5e50ea2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 014/104] fix: event loop dereferenced a queued io object
 destroyed by another object's callback

---
 io/m_event.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io/m_event.c b/io/m_event.c
index 8a0a6f5..284f67f 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -943,7 +943,9 @@ static void M_event_queue_deliver(M_event_t *event)
 
 		io = M_CAST_OFF_CONST(M_io_t *, key);
 
-		if (io->flags & M_IO_FLAG_USER_DESTROY)
+		/* The callback of another object in this batch may have removed and destroyed this one,
+		 * so it must not be dereferenced unless it is still registered. */
+		if (!M_hashtable_get(event->u.loop.reg_ios, io, NULL) || io->flags & M_IO_FLAG_USER_DESTROY)
 			continue;
 
 		/* Process all events, even if there are no events for this layer, the high
-- 
2.43.0


From 3cb0fb20895b50bb8b0b99591b877abb070d204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 015/104] fix: io object destroyed from another thread was
 leaked when its loop ended before running the queued destroy

---
 io/m_event.c  | 23 +++++++++++++++++++++++
 io/m_io.c     |  1 +
 io/m_io_int.h |  3 ++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/io/m_event.c b/io/m_event.c
index 284f67f..125cf4d 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -194,6 +194,26 @@ M_event_t *M_event_pool_create(size_t max_threads)
 }
 
 
+static void M_event_destroy_queued_ios(M_event_t *event)
+{
+	M_hashtable_enum_t  hashenum;
+	const void         *key = NULL;
+	M_io_t             *io;
+
+	do {
+		io = NULL;
+		M_hashtable_enumerate(event->u.loop.reg_ios, &hashenum);
+		while (io == NULL && M_hashtable_enumerate_next(event->u.loop.reg_ios, &hashenum, &key, NULL)) {
+			io = M_CAST_OFF_CONST(M_io_t *, key);
+			if (!(io->flags & M_IO_FLAG_DESTROY_QUEUED))
+				io = NULL;
+		}
+		/* Modifies the list of registered objects, so need to restart enumeration */
+		M_io_destroy(io);
+	} while (io != NULL);
+}
+
+
 static void M_event_destroy_loop(M_event_t *event)
 {
 	M_event_lock(event);
@@ -202,6 +222,9 @@ static void M_event_destroy_loop(M_event_t *event)
 		M_io_destroy(event->u.loop.parent_wake);
 	event->u.loop.parent_wake          = NULL;
 
+	/* Objects whose queued destroy task never got a chance to run won't be destroyed by anyone else */
+	M_event_destroy_queued_ios(event);
+
 	/* Should unregister self from every registered COMM handle */
 	M_hashtable_destroy(event->u.loop.reg_ios, M_TRUE);
 	event->u.loop.reg_ios              = NULL;
diff --git a/io/m_io.c b/io/m_io.c
index 3b5cc11..3874117 100644
--- a/io/m_io.c
+++ b/io/m_io.c
@@ -349,6 +349,7 @@ void M_io_destroy(M_io_t *io)
 	     io->reg_event->u.loop.threadid != 0 &&
 	     io->reg_event->u.loop.threadid != M_thread_self()) {
 		/* Queue a destroy task to run for this on the owning event loop */
+		io->flags |= M_IO_FLAG_DESTROY_QUEUED;
 		M_event_queue_task(io->reg_event, M_io_destroy_cb, io);
 		M_io_unlock(io);
 		return;
diff --git a/io/m_io_int.h b/io/m_io_int.h
index d2f9df7..ed55c18 100644
--- a/io/m_io_int.h
+++ b/io/m_io_int.h
@@ -99,10 +99,11 @@ typedef struct M_io_block_data M_io_block_data_t;
 typedef enum {
 	M_IO_FLAG_NONE            = 0,      /*!< no flags */
 	M_IO_FLAG_USER_DISCONNECT = 1 << 0, /*!< User requested disconnect.  Will persist until user receives disconnect or error event. */
-	M_IO_FLAG_USER_DESTROY    = 1 << 1  /*!< User requested destroy. This marks the object as effectively destroyed so nothing else
+	M_IO_FLAG_USER_DESTROY    = 1 << 1, /*!< User requested destroy. This marks the object as effectively destroyed so nothing else
 	                                     *   Can take place on the object (no events, etc).  This is used mostly for cross-eventloop
 	                                     *   destroys, where the owning event loop should perform the actual destruction to prevent
 	                                     *   any sort of thread syncronization issues */
+	M_IO_FLAG_DESTROY_QUEUED  = 1 << 2  /*!< A destroy task for the object is queued on its event loop, but hasn't run yet */
 } M_io_flags_t;
 
 
-- 
2.43.0


From dee4d394ff9efd88d25a6556bc820800c2bec8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 016/104] fix: CONNECTED event of pipes and network connections
 was overtaken by READ or WRITE events

---
 io/m_io_pipe_posix.c | 2 +-
 io/net/m_io_net.c    | 2 +-
 io/net/m_io_netdns.c | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/io/m_io_pipe_posix.c b/io/m_io_pipe_posix.c
index 49b1357..1446588 100644
--- a/io/m_io_pipe_posix.c
+++ b/io/m_io_pipe_posix.c
@@ -60,7 +60,7 @@ static M_bool M_io_pipe_init_cb(M_io_layer_t *layer)
 		return M_FALSE;
 
 	/* Trigger connected soft event when registered with event handle */
-	M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
+	M_io_layer_softevent_add(layer, M_FALSE /* Self, must not be overtaken by OS events */, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
 
 	/* Add the handles with read wait type if reader, or no waittype if writer */
 	M_event_handle_modify(event, M_EVENT_MODTYPE_ADD_HANDLE, io, handle->handle, M_EVENT_INVALID_SOCKET, (type == M_IO_TYPE_WRITER)?0:M_EVENT_WAIT_READ, (type == M_IO_TYPE_WRITER)?M_EVENT_CAPS_WRITE:M_EVENT_CAPS_READ);
diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index 8805d52..da235fd 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -1063,7 +1063,7 @@ static M_bool M_io_net_start_connect(M_io_layer_t *layer, struct sockaddr *peer,
 #else
 		handle->data.net.evhandle = handle->data.net.sock;
 #endif
-		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
+		M_io_layer_softevent_add(layer, M_FALSE /* Self, must not be overtaken by OS events */, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
 		M_event_handle_modify(event, M_EVENT_MODTYPE_ADD_HANDLE, io, handle->data.net.evhandle, handle->data.net.sock, M_EVENT_WAIT_READ, M_EVENT_CAPS_READ|M_EVENT_CAPS_WRITE);
 		return M_TRUE;
 	}
diff --git a/io/net/m_io_netdns.c b/io/net/m_io_netdns.c
index e67cec9..13c0fd4 100644
--- a/io/net/m_io_netdns.c
+++ b/io/net/m_io_netdns.c
@@ -237,7 +237,7 @@ static void M_io_netdns_handle_connect(M_io_layer_t *layer, M_io_t *realio)
 	handle->data.netdns.io           = realio;
 	handle->state                    = M_IO_NET_STATE_CONNECTED;
 	handle->data.netdns.connect_time = M_time_elapsed(&handle->data.netdns.connect_start);
-	M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
+	M_io_layer_softevent_add(layer, M_FALSE /* Self, must not be overtaken by relayed READ or WRITE events */, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
 
 	/* Clean up */
 	M_free(handle->data.netdns.io_try);
@@ -446,7 +446,7 @@ static M_bool M_io_netdns_init_cb(M_io_layer_t *layer)
 			break;
 		case M_IO_NET_STATE_CONNECTED:
 //M_printf("%s(): already connected\n", __FUNCTION__); fflush(stdout);
-			M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
+			M_io_layer_softevent_add(layer, M_FALSE /* Self, must not be overtaken by relayed READ or WRITE events */, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
 			/* Fallthrough */
 		case M_IO_NET_STATE_DISCONNECTING:
 			/* Re-bind io event handle */
-- 
2.43.0


From f1568e0abf7828cdf862665b5253a407c7715396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 017/104] fix: network client lost its final event when data
 was read after the connection was torn down

---
 io/net/m_io_netdns.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/io/net/m_io_netdns.c b/io/net/m_io_netdns.c
index 13c0fd4..5d58492 100644
--- a/io/net/m_io_netdns.c
+++ b/io/net/m_io_netdns.c
@@ -45,7 +45,8 @@ static M_io_error_t M_io_netdns_read_cb(M_io_layer_t *layer, unsigned char *buf,
 
 	/* Relay to underlying io object */
 	err = M_io_read_meta(handle->data.netdns.io, buf, *read_len, read_len, meta);
-	if (err != M_IO_ERROR_SUCCESS && err != M_IO_ERROR_WOULDBLOCK) {
+	/* Non-critical errors, like not being connected any longer, mean the event is already on its way */
+	if (M_io_error_is_critical(err)) {
 		if (err == M_IO_ERROR_DISCONNECT) {
 			handle->state = M_IO_NET_STATE_DISCONNECTED;
 		} else {
@@ -74,7 +75,7 @@ static M_io_error_t M_io_netdns_write_cb(M_io_layer_t *layer, const unsigned cha
 
 	/* Relay to io object */
 	err = M_io_write_meta(handle->data.netdns.io, buf, *write_len, write_len, meta);
-	if (err != M_IO_ERROR_SUCCESS && err != M_IO_ERROR_WOULDBLOCK) {
+	if (M_io_error_is_critical(err)) {
 		handle->hard_down = M_TRUE;
 		if (err == M_IO_ERROR_DISCONNECT) {
 			handle->state = M_IO_NET_STATE_DISCONNECTED;
-- 
2.43.0


From 906a450e73a74c8ffbd5b5b6e08e9ad0c2ab47e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 018/104] fix: network connection was never reported down when
 the graceful disconnect failed or timed out

---
 io/net/m_io_net.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index da235fd..6c69490 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -171,6 +171,14 @@ static void M_io_net_timeout_cb(M_event_t *event, M_event_type_t type, M_io_t *c
 	(void)type;
 	(void)comm_bogus;
 
+	/* Peer did not finish the graceful disconnect in time, forcibly close */
+	if (handle->state == M_IO_NET_STATE_DISCONNECTING) {
+		handle->hard_down = M_TRUE;
+		M_io_net_handle_close(io, handle);
+		M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_DISCONNECTED, M_IO_ERROR_DISCONNECT);
+		return;
+	}
+
 	if (handle->state != M_IO_NET_STATE_CONNECTING) {
 		return;
 	}
@@ -1171,12 +1179,18 @@ static M_bool M_io_net_disconnect_cb(M_io_layer_t *layer)
 	/* Tell the remote end we want to shutdown */
 #ifdef _WIN32
 	/* If unable to close gracefully, go ahead and say we're disconnected */
-	if (shutdown(handle->data.net.sock, SD_SEND) == SOCKET_ERROR)
+	if (shutdown(handle->data.net.sock, SD_SEND) == SOCKET_ERROR) {
+		handle->hard_down = M_TRUE;
+		M_io_net_handle_close(io, handle);
 		return M_TRUE;
+	}
 #else
 	/* If unable to close gracefully, go ahead and say we're disconnected */
-	if (shutdown(handle->data.net.sock, SHUT_WR) != 0)
+	if (shutdown(handle->data.net.sock, SHUT_WR) != 0) {
+		handle->hard_down = M_TRUE;
+		M_io_net_handle_close(io, handle);
 		return M_TRUE;
+	}
 #endif
 	/* Make sure we re-activate waiting on a read event if it is not active as that is the only
 	 * way we will receive the disconnect notification */
-- 
2.43.0


From abe103515660742b54bb094c4228b1ecdac0dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 019/104] fix: READ event queued when a connection is
 established was overtaken by the connection going down

---
 io/net/m_io_net.c     | 15 +++++++++++++++
 io/net/m_io_net_int.h |  1 +
 2 files changed, 16 insertions(+)

diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index 6c69490..8ae5178 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -608,6 +608,7 @@ static M_bool M_io_net_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 					if (*type == M_EVENT_TYPE_READ) {
 						/* Add another event for the read because this one is transformed to connect */
 						M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
+						handle->data.net.read_queued = M_TRUE;
 					}
 					/* Rewrite event to say connected */
 					*type         = M_EVENT_TYPE_CONNECTED;
@@ -640,6 +641,17 @@ static M_bool M_io_net_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 		}
 	}
 
+	/* The read event queued when connecting is yet to be delivered, it must not be overtaken by the connection
+	 * going down.  Queued events are delivered in order. */
+	if (handle->state == M_IO_NET_STATE_CONNECTED && handle->data.net.read_queued) {
+		if (*type == M_EVENT_TYPE_DISCONNECTED || *type == M_EVENT_TYPE_ERROR) {
+			M_io_layer_softevent_add(layer, M_FALSE, *type, M_IO_ERROR_SUCCESS);
+			return M_TRUE;
+		}
+		if (*type == M_EVENT_TYPE_READ)
+			handle->data.net.read_queued = M_FALSE;
+	}
+
 	/* Attempting to listen */
 	if (ctype == M_IO_TYPE_LISTENER) {
 		if (*type == M_EVENT_TYPE_READ || *type == M_EVENT_TYPE_ACCEPT) {
@@ -739,6 +751,7 @@ static M_bool M_io_net_reset_cb(M_io_layer_t *layer)
 	handle->notify_down              = M_FALSE;
 	handle->data.net.last_error_sys  = 0;
 	handle->data.net.last_error      = M_IO_ERROR_SUCCESS;
+	handle->data.net.read_queued     = M_FALSE;
 
 	M_io_net_handle_close(io, handle);
 	return M_TRUE;
@@ -1220,6 +1233,8 @@ static void M_io_net_unregister_cb(M_io_layer_t *layer)
 		handle->timer = NULL;
 	}
 
+	/* Queued events are dropped */
+	handle->data.net.read_queued = M_FALSE;
 }
 
 static M_io_state_t M_io_net_state_cb(M_io_layer_t *layer)
diff --git a/io/net/m_io_net_int.h b/io/net/m_io_net_int.h
index f610da5..55029e6 100644
--- a/io/net/m_io_net_int.h
+++ b/io/net/m_io_net_int.h
@@ -64,6 +64,7 @@ struct M_io_handle_net {
 	int                  last_error_sys; /*!< Last recorded system error                                     */
 #endif
 	M_io_error_t         last_error;     /*!< Last recorded error mapped                                     */
+	M_bool               read_queued;    /*!< Read event was queued when the connection was established      */
 };
 
 struct M_io_handle_netdns {
-- 
2.43.0


From fa644c373a28b40c6d10ae149a5e336c50f34072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 020/104] fix: poll event loop reported READ continuously for
 readable and writable handles, and ERROR before pending data

---
 io/m_event_poll.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/io/m_event_poll.c b/io/m_event_poll.c
index a937415..7617b6a 100644
--- a/io/m_event_poll.c
+++ b/io/m_event_poll.c
@@ -85,7 +85,7 @@ static void M_event_impl_poll_data_structure(M_event_t *event)
 
 		/* If capabilities for the connection are write-only, we need to always listedn for POLLIN
 		 * to be notified of disconnects for some reason */
-		if (member->caps & M_EVENT_CAPS_WRITE) {
+		if ((member->caps & (M_EVENT_CAPS_READ|M_EVENT_CAPS_WRITE)) == M_EVENT_CAPS_WRITE) {
 			event->u.loop.impl_data->fds[event->u.loop.impl_data->num_fds].events |= POLLIN;
 		}
 
@@ -128,6 +128,7 @@ static void M_event_impl_poll_process(M_event_t *event)
 	/* Process events */
 	for (i=0; i<event->u.loop.impl_data->num_fds; i++) {
 		M_bool stop_writing = M_FALSE;
+		M_bool read_pending = M_FALSE;
 		if (event->u.loop.impl_data->fds[i].revents) {
 			M_event_evhandle_t     *member  = NULL;
 			if (!M_hash_u64vp_get(event->u.loop.evhandles, (M_uint64)event->u.loop.impl_data->fds[i].fd, (void **)&member))
@@ -138,6 +139,9 @@ static void M_event_impl_poll_process(M_event_t *event)
 				if (member->caps & M_EVENT_CAPS_READ) {
 					M_event_deliver_io(event, member->io, M_EVENT_TYPE_READ);
 				}
+			} else if (member->caps & M_EVENT_CAPS_READ) {
+				/* If not waiting on a read, POLLIN was not requested so there may be data pending */
+				read_pending = M_TRUE;
 			}
 
 			/* Error */
@@ -146,7 +150,7 @@ static void M_event_impl_poll_process(M_event_t *event)
 
 				/* NOTE: always deliver READ event first on an error to make sure any
 				 *       possible pending data is flushed. */
-				if (member->waittype & M_EVENT_WAIT_READ) {
+				if (member->waittype & M_EVENT_WAIT_READ || read_pending) {
 					M_event_deliver_io(event, member->io, M_EVENT_TYPE_READ);
 				}
 
@@ -169,7 +173,7 @@ static void M_event_impl_poll_process(M_event_t *event)
 
 				/* NOTE: always deliver READ event first on a disconnect to make sure any
 				 *       possible pending data is flushed. */
-				if (member->waittype & M_EVENT_WAIT_READ) {
+				if (member->waittype & M_EVENT_WAIT_READ || read_pending) {
 					M_event_deliver_io(event, member->io, M_EVENT_TYPE_READ);
 				}
 
-- 
2.43.0


From 6bc0a9e573c8a4be2b2a371db62817a8ad7dac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 021/104] fix: bandwidth shaping layer with latency configured
 fired its timer continuously while waiting on the system

---
 io/m_io_bwshaping.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index fbd3b80..eb0ec3f 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -561,7 +561,10 @@ static M_io_error_t M_io_bwshaping_write_cb(M_io_layer_t *layer, const unsigned
 		}
 
 		/* We can't be throttling if the OS told us we did a partial write or couldn't write at all */
-		if (err == M_IO_ERROR_WOULDBLOCK || (err == M_IO_ERROR_SUCCESS && *write_len < request_len)) {
+		if (err == M_IO_ERROR_WOULDBLOCK) {
+			/* Must wait on an OS event, the latency has already elapsed so a timer would fire continuously */
+			handle->out_waiting = M_FALSE;
+		} else if (err == M_IO_ERROR_SUCCESS && *write_len < request_len) {
 			handle->out_waiting = (handle->settings.out_latency_ms)?M_TRUE:M_FALSE;
 		}
 	} else {
@@ -619,7 +622,11 @@ static M_io_error_t M_io_bwshaping_read_cb(M_io_layer_t *layer, unsigned char *b
 		}
 
 		/* We can't be throttling if the OS told us we did a partial read or couldn't read at all */
-		if (err == M_IO_ERROR_WOULDBLOCK || (err == M_IO_ERROR_SUCCESS && *read_len < request_len)) {
+		if (err == M_IO_ERROR_WOULDBLOCK) {
+			/* Must wait on an OS event, the latency has already elapsed so a timer would fire continuously */
+			handle->in_fullread = M_FALSE;
+			handle->in_waiting  = M_FALSE;
+		} else if (err == M_IO_ERROR_SUCCESS && *read_len < request_len) {
 			handle->in_fullread = M_FALSE;
 			handle->in_waiting  = (handle->settings.in_latency_ms)?M_TRUE:M_FALSE;
 		}
-- 
2.43.0


From 185c38777186bb9704c003b5fdc718f4c56ea8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 022/104] fix: bandwidth shaping layer lost received data when
 the connection went down while it delayed the read

---
 io/m_io_bwshaping.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index eb0ec3f..fe92592 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -122,6 +122,10 @@ struct M_io_handle {
 	M_bool                    out_waiting;
 
 	M_bool                    is_disconnecting;
+	/* Connection is gone, bytes already received must not be held back any longer as there won't
+	 * be another chance to deliver them */
+	M_bool                    is_down;
+	M_bool                    down_queued;
 	M_event_timer_t          *timer;
 };
 
@@ -586,6 +590,10 @@ static M_io_error_t M_io_bwshaping_read_cb(M_io_layer_t *layer, unsigned char *b
 	M_io_error_t   err;
 	size_t         request_len;
 
+	/* No reason to throttle if the connection is already down */
+	if (handle->is_down)
+		return M_io_layer_read(io, M_io_layer_get_index(layer)-1, buf, read_len, meta);
+
 	/* If latency isn't throttling us, then we see if we are throttle via Bps */
 	if (M_io_bwshaping_latency_next_ms(handle, M_IO_BWSHAPING_DIRECTION_IN) == 0) {
 		M_uint64 mymax = M_io_bwshaping_bwtrack_max_size(handle->in_bw, handle->settings.in_Bps, handle->settings.in_period_s,
@@ -693,6 +701,19 @@ static M_bool M_io_bwshaping_process_cb(M_io_layer_t *layer, M_event_type_t *typ
 		case M_EVENT_TYPE_ERROR:
 		case M_EVENT_TYPE_DISCONNECTED:
 			M_event_timer_stop(handle->timer);
+			handle->is_down = M_TRUE;
+			if (handle->down_queued)
+				return M_TRUE;
+			if (handle->in_waiting && !handle->is_disconnecting) {
+				/* We were holding back a read, let that be delivered first (events are delivered in
+				 * priority order), then the event we just got. */
+				handle->in_waiting  = M_FALSE;
+				handle->down_queued = M_TRUE;
+				M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
+				M_io_layer_softevent_add(layer, M_TRUE, *type, M_IO_ERROR_SUCCESS);
+				return M_TRUE;
+			}
+			break;
 		default:
 			break;
 	}
@@ -705,7 +726,8 @@ static void M_io_bwshaping_unregister_cb(M_io_layer_t *layer)
 {
 	M_io_handle_t *handle = M_io_layer_get_handle(layer);
 	M_event_timer_remove(handle->timer);
-	handle->timer = NULL;
+	handle->timer       = NULL;
+	handle->down_queued = M_FALSE; /* Queued events are dropped */
 }
 
 
@@ -726,6 +748,8 @@ static M_bool M_io_bwshaping_reset_cb(M_io_layer_t *layer)
 	M_mem_set(&handle->out_lasttv, 0, sizeof(handle->out_lasttv));
 	handle->out_bytes   = 0;
 	handle->out_waiting = M_FALSE;
+	handle->is_down     = M_FALSE;
+	handle->down_queued = M_FALSE;
 
 	return M_TRUE;
 }
-- 
2.43.0


From 18a428cc6f0c2f311375eb88c5ea7f7b5f5a1ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 023/104] fix: buffer layer stalled when data arrived while its
 read buffer was full

---
 io/m_io_buffer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index 2ea8902..6849f5b 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -77,8 +77,10 @@ static M_bool M_io_buffer_process_read_cb(M_io_layer_t *layer)
 
 	req_size = alloc_size - M_buf_len(handle->readbuf);
 
-	/* Buffer is full, can't read.  Don't pass on event, application already knows there is data. */
+	/* Buffer is full, can't read.  Don't pass on event, application already knows there is data.  Remember
+	 * there may be more data to read once the application makes room. */
 	if (req_size == 0) {
+		handle->hit_max_read = M_TRUE;
 		return M_TRUE; /* consume */
 	}
 	len      = req_size;
-- 
2.43.0


From c91f87e311c6f5639c8ee9e73edafa84ba2dbab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 024/104] fix: buffer layer lost the data still held by the
 layers below when the connection went down

---
 io/m_io_buffer.c | 52 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index 6849f5b..2eff456 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -33,6 +33,8 @@ struct M_io_handle {
 	M_bool        hit_max_read;     /*!< We stopped reading because we hit current max size, track due to being edge triggered */
 	size_t        max_write_buffer; /*!< Maximum size of write buffer allowed */
 	M_buf_t      *writebuf;         /*!< buffer holding buffered write data */
+	M_bool        is_down;          /*!< Connection is down, all remaining data has been read */
+	M_bool        down_queued;      /*!< Connection is down, application is first notified of the remaining data, then of the event */
 	M_bool        hit_max_write;    /*!< we stopped allowing writes because we hit the max size, track due to being edge triggered */
 };
 
@@ -90,6 +92,8 @@ static M_bool M_io_buffer_process_read_cb(M_io_layer_t *layer)
 	if (err != M_IO_ERROR_SUCCESS) {
 		len = 0;
 		rv  = M_TRUE; /* consume */
+		if (M_io_error_is_critical(err))
+			handle->is_down = M_TRUE;
 	}
 	M_buf_direct_write_end(handle->readbuf, len);
 
@@ -139,8 +143,38 @@ static M_bool M_io_buffer_process_write_cb(M_io_layer_t *layer)
 }
 
 
+/* The connection is going down, pull in what is still held by the lower layers as they may never be able to
+ * notify us again.  Returns M_TRUE if the application needs to be notified there is data as it had already
+ * consumed everything it knew about. */
+static M_bool M_io_buffer_process_down(M_io_layer_t *layer)
+{
+	M_io_handle_t *handle = M_io_layer_get_handle(layer);
+	M_bool         empty;
+	M_io_error_t   err;
+
+	if (handle->max_read_buffer == 0 || handle->is_down)
+		return M_FALSE;
+
+	handle->is_down      = M_TRUE;
+	handle->hit_max_read = M_FALSE;
+	empty                = (M_buf_len(handle->readbuf) == 0)?M_TRUE:M_FALSE;
+
+	do {
+		size_t         len = 16 * 1024;
+		unsigned char *buf = M_buf_direct_write_start(handle->readbuf, &len);
+
+		err = M_io_layer_read(M_io_layer_get_io(layer), M_io_layer_get_index(layer)-1, buf, &len, NULL);
+		M_buf_direct_write_end(handle->readbuf, (err == M_IO_ERROR_SUCCESS)?len:0);
+	} while (err == M_IO_ERROR_SUCCESS);
+
+	return (empty && M_buf_len(handle->readbuf) != 0)?M_TRUE:M_FALSE;
+}
+
+
 static M_bool M_io_buffer_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 {
+	M_io_handle_t *handle = M_io_layer_get_handle(layer);
+
 	switch (*type) {
 		case M_EVENT_TYPE_READ:
 			return M_io_buffer_process_read_cb(layer);
@@ -151,8 +185,16 @@ static M_bool M_io_buffer_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 		case M_EVENT_TYPE_OTHER:
 			break;
 		case M_EVENT_TYPE_DISCONNECTED:
-			break;
 		case M_EVENT_TYPE_ERROR:
+			if (handle->down_queued)
+				return M_TRUE; /* consume */
+			if (M_io_buffer_process_down(layer)) {
+				/* Deliver the data first, then this event */
+				handle->down_queued = M_TRUE;
+				M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
+				M_io_layer_softevent_add(layer, M_TRUE, *type, M_IO_ERROR_SUCCESS);
+				return M_TRUE; /* consume */
+			}
 			break;
 		case M_EVENT_TYPE_CONNECTED:
 			break;
@@ -167,8 +209,10 @@ static M_bool M_io_buffer_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 
 static void M_io_buffer_unregister_cb(M_io_layer_t *layer)
 {
-	(void)layer;
-	/* No-op */
+	M_io_handle_t *handle = M_io_layer_get_handle(layer);
+
+	/* Queued events are dropped */
+	handle->down_queued = M_FALSE;
 }
 
 
@@ -244,6 +288,8 @@ static M_bool M_io_buffer_reset_cb(M_io_layer_t *layer)
 	M_io_handle_t *handle = M_io_layer_get_handle(layer);
 	M_buf_truncate(handle->readbuf, 0);
 	handle->hit_max_read = M_FALSE;
+	handle->is_down      = M_FALSE;
+	handle->down_queued  = M_FALSE;
 	M_buf_truncate(handle->writebuf, 0);
 	return M_TRUE;
 }
-- 
2.43.0


From 675211e768c9d680fa359028b790be492aa5ccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 025/104] fix: failure to bind an io object to an event left it
 registered

---
 io/m_event.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/io/m_event.c b/io/m_event.c
index 125cf4d..1a6b809 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -689,7 +689,6 @@ M_bool M_event_add(M_event_t *event, M_io_t *comm, M_event_callback_t callback,
 			continue;
 		if (!layer->cb.cb_init(layer)) {
 			retval = M_FALSE;
-			comm->reg_event = NULL;
 			break;
 		}
 	}
-- 
2.43.0


From 27efb2077e8203b665d2e14daab486fce9177bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 026/104] fix: buffer layer stalled after the io object was
 moved to another event

---
 io/m_io_buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index 2eff456..010992a 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -197,6 +197,11 @@ static M_bool M_io_buffer_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 			}
 			break;
 		case M_EVENT_TYPE_CONNECTED:
+			/* When bound to an event again, resume what was pending as the original events may have been lost */
+			if (handle->hit_max_read)
+				M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
+			if (M_buf_len(handle->writebuf) != 0)
+				M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_WRITE, M_IO_ERROR_SUCCESS);
 			break;
 		case M_EVENT_TYPE_ACCEPT:
 			break;
-- 
2.43.0


From 9c99d70b5e89217b7cd0130cae76764bd6dcc2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 027/104] fix: event loop spun on a disconnecting socket
 waiting for the peer

---
 io/net/m_io_net.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index 8ae5178..7b9adc3 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -571,9 +571,11 @@ static M_bool M_io_net_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 		return M_TRUE;
 	}
 
-	/* While disconnecting, don't send WRITE events */
-	if (handle->state == M_IO_NET_STATE_DISCONNECTING && *type == M_EVENT_TYPE_WRITE)
+	/* While disconnecting, don't send WRITE events.  The socket stays writable, so stop waiting on it. */
+	if (handle->state == M_IO_NET_STATE_DISCONNECTING && *type == M_EVENT_TYPE_WRITE) {
+		M_event_handle_modify(event, M_EVENT_MODTYPE_DEL_WAITTYPE, comm, handle->data.net.evhandle, handle->data.net.sock, M_EVENT_WAIT_WRITE, 0);
 		return M_TRUE;
+	}
 
 	/* While disconnecting, just treat an ERROR event as if it was a DISCONNECT event */
 	if (handle->state == M_IO_NET_STATE_DISCONNECTING && *type == M_EVENT_TYPE_ERROR) {
-- 
2.43.0


From dd1cf02e5c0035c2b8db79bfa2048eed8a331b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 028/104] fix: crash when a connected network client was bound
 to an event again

---
 io/net/m_io_netdns.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io/net/m_io_netdns.c b/io/net/m_io_netdns.c
index 5d58492..7fda0ea 100644
--- a/io/net/m_io_netdns.c
+++ b/io/net/m_io_netdns.c
@@ -304,7 +304,9 @@ static void M_io_netdns_realio_cb(M_event_t *event, M_event_type_t type, M_io_t
 
 	switch (type) {
 		case M_EVENT_TYPE_CONNECTED:
-			M_io_netdns_handle_connect(layer, realio);
+			/* An already established connection re-signals this when it is bound to an event again */
+			if (handle->state == M_IO_NET_STATE_CONNECTING)
+				M_io_netdns_handle_connect(layer, realio);
 			break;
 
 		case M_EVENT_TYPE_READ:
-- 
2.43.0


From 7c3c7e65fe7b102fc993aceaa4cf99767c3dd249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 029/104] fix: no event for an io object bound to an event
 after its connection went down

---
 io/net/m_io_net.c    | 7 +++++++
 io/net/m_io_netdns.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index 7b9adc3..6dee189 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -1164,6 +1164,13 @@ static M_bool M_io_net_stream_init_cb(M_io_layer_t *layer)
 		M_event_timer_reset(handle->timer, handle->settings.disconnect_timeout_ms); /* How long to wait for a disconnect */
 	}
 
+	/* Connection went down before being bound, the original notification may not have been delivered */
+	if (handle->state == M_IO_NET_STATE_DISCONNECTED) {
+		M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_DISCONNECTED, M_IO_ERROR_DISCONNECT);
+	} else if (handle->state == M_IO_NET_STATE_ERROR) {
+		M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_ERROR, handle->data.net.last_error);
+	}
+
 	return M_TRUE;
 }
 
diff --git a/io/net/m_io_netdns.c b/io/net/m_io_netdns.c
index 7fda0ea..0ef604b 100644
--- a/io/net/m_io_netdns.c
+++ b/io/net/m_io_netdns.c
@@ -456,7 +456,14 @@ static M_bool M_io_netdns_init_cb(M_io_layer_t *layer)
 			M_event_add(event, handle->data.netdns.io, M_io_netdns_realio_cb, io);
 			break;
 		case M_IO_NET_STATE_DISCONNECTED:
+			/* Connection went down before being bound, the original notification may not have been delivered */
+			handle->notify_down = M_FALSE;
+			M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_DISCONNECTED, M_IO_ERROR_DISCONNECT);
+			break;
 		case M_IO_NET_STATE_ERROR:
+			handle->notify_down = M_FALSE;
+			M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_ERROR, (handle->data.netdns.io != NULL)?M_io_get_error(handle->data.netdns.io):M_IO_ERROR_NOTFOUND);
+			break;
 		case M_IO_NET_STATE_RESOLVING: /* Not possible */
 		case M_IO_NET_STATE_LISTENING: /* Not possible */
 			/* Do Nothing */
-- 
2.43.0


From 0532d3cadaa3f2291940189157b6869d5613ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 030/104] fix: network client reported disconnected instead of
 an error when connecting failed immediately

---
 io/net/m_io_net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index 6dee189..128a186 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -1141,6 +1141,7 @@ static M_bool M_io_net_stream_init_cb(M_io_layer_t *layer)
 		}
 		if (!M_io_net_start_connect(layer, peer, peer_size, type)) {
 			/* If we can't start to connect, trigger an error immediately */
+			handle->state = M_IO_NET_STATE_ERROR;
 			M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_ERROR, handle->data.net.last_error);
 			M_free(peer);
 			return M_TRUE;
-- 
2.43.0


From b6361629cb5e68a0ae2f57f3db1e2cd54a57a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 031/104] fix: event loop lock never released when an object
 was removed from it by another thread

---
 io/m_event.c |  7 +++++++
 io/m_io.c    | 14 +++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/io/m_event.c b/io/m_event.c
index 1a6b809..c71ae33 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -783,6 +783,13 @@ void M_event_remove(M_io_t *io)
 	/* NOTE: event is guaranteed to be a loop type, no need to check */
 
 	M_event_lock(event);
+
+	/* Another thread may have removed it before we got the lock */
+	if (io->reg_event != event) {
+		M_event_unlock(event);
+		return;
+	}
+
 	M_event_io_unregister(io, M_FALSE);
 	M_hashtable_remove(event->u.loop.reg_ios, io, M_TRUE);
 	M_event_queue_pending_clear(event, io);
diff --git a/io/m_io.c b/io/m_io.c
index 3874117..18aae8e 100644
--- a/io/m_io.c
+++ b/io/m_io.c
@@ -57,11 +57,19 @@ M_io_t *M_io_init(M_io_type_t type)
 
 void M_io_lock(M_io_t *io)
 {
-	if (io == NULL || io->reg_event == NULL) {
+	M_event_t *event;
+
+	if (io == NULL)
 		return;
-	}
 
-	M_event_lock(io->reg_event);
+	/* The event is also the lock, and may change until it is held as another thread
+	 * may remove the object from its event */
+	while ((event = io->reg_event) != NULL) {
+		M_event_lock(event);
+		if (io->reg_event == event)
+			break;
+		M_event_unlock(event);
+	}
 //M_printf("%s(): [%p] io %p event %p\n", __FUNCTION__, (void *)M_thread_self(), io, io->reg_event);  fflush(stdout);
 }
 
-- 
2.43.0


From e3f47e232b4e4228d0266f229cad6f3d784f88ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 032/104] fix: use after free destroying an event loop with a
 network client still connecting

---
 io/m_event.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/io/m_event.c b/io/m_event.c
index c71ae33..dee95d5 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -194,23 +194,24 @@ M_event_t *M_event_pool_create(size_t max_threads)
 }
 
 
-static void M_event_destroy_queued_ios(M_event_t *event)
+static void M_event_destroy_ios(M_event_t *event)
 {
 	M_hashtable_enum_t  hashenum;
 	const void         *key = NULL;
 	M_io_t             *io;
 
-	do {
-		io = NULL;
-		M_hashtable_enumerate(event->u.loop.reg_ios, &hashenum);
-		while (io == NULL && M_hashtable_enumerate_next(event->u.loop.reg_ios, &hashenum, &key, NULL)) {
-			io = M_CAST_OFF_CONST(M_io_t *, key);
-			if (!(io->flags & M_IO_FLAG_DESTROY_QUEUED))
-				io = NULL;
+	/* Removing an object may remove others (e.g. the connection attempts of a network client), so
+	 * need to restart the enumeration each time */
+	while (M_hashtable_enumerate(event->u.loop.reg_ios, &hashenum) != 0 && M_hashtable_enumerate_next(event->u.loop.reg_ios, &hashenum, &key, NULL)) {
+		io = M_CAST_OFF_CONST(M_io_t *, key);
+		/* Event IO objects are private to the event handle, and those whose queued destroy task never
+		 * got a chance to run won't be destroyed by anyone else */
+		if (io->type == M_IO_TYPE_EVENT || io->flags & M_IO_FLAG_DESTROY_QUEUED) {
+			M_io_destroy(io);
+		} else {
+			M_event_remove(io);
 		}
-		/* Modifies the list of registered objects, so need to restart enumeration */
-		M_io_destroy(io);
-	} while (io != NULL);
+	}
 }
 
 
@@ -222,10 +223,8 @@ static void M_event_destroy_loop(M_event_t *event)
 		M_io_destroy(event->u.loop.parent_wake);
 	event->u.loop.parent_wake          = NULL;
 
-	/* Objects whose queued destroy task never got a chance to run won't be destroyed by anyone else */
-	M_event_destroy_queued_ios(event);
-
-	/* Should unregister self from every registered COMM handle */
+	/* Unregister self from every registered COMM handle */
+	M_event_destroy_ios(event);
 	M_hashtable_destroy(event->u.loop.reg_ios, M_TRUE);
 	event->u.loop.reg_ios              = NULL;
 
-- 
2.43.0


From 6b038dc43e581ff4ff07968a1f972b967db0c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 033/104] fix: driver connection password returned the username

---
 sql/m_sql_connpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/m_sql_connpool.c b/sql/m_sql_connpool.c
index 6b6b524..1e1e3ea 100644
--- a/sql/m_sql_connpool.c
+++ b/sql/m_sql_connpool.c
@@ -1256,7 +1256,7 @@ const char *M_sql_driver_conn_get_password(M_sql_conn_t *conn)
 {
 	if (conn == NULL)
 		return NULL;
-	return M_sql_driver_pool_get_username(conn->pool);
+	return M_sql_driver_pool_get_password(conn->pool);
 }
 
 
-- 
2.43.0


From 2f74b24c978937477838876de7f8332222d402bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 034/104] fix: statement retried with a released transaction
 handle

---
 sql/m_sql_stmt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/m_sql_stmt.c b/sql/m_sql_stmt.c
index d3de723..63fcfca 100644
--- a/sql/m_sql_stmt.c
+++ b/sql/m_sql_stmt.c
@@ -494,6 +494,7 @@ M_sql_error_t M_sql_stmt_execute(M_sql_connpool_t *pool, M_sql_stmt_t *stmt)
 		err = M_sql_trans_execute(trans, stmt);
 		if (M_sql_error_is_error(err)) {
 			M_sql_trans_rollback(trans); /* Ignore error, what else could we do? */
+			trans = NULL;
 
 			if (M_sql_error_is_rollback(err)) {
 				rollback = M_TRUE;
@@ -506,6 +507,7 @@ M_sql_error_t M_sql_stmt_execute(M_sql_connpool_t *pool, M_sql_stmt_t *stmt)
 
 		/* Commit the transaction */
 		err = M_sql_trans_commit(trans, stmt->error_msg, sizeof(stmt->error_msg));
+		trans = NULL; /* Released, even on failure */
 		if (M_sql_error_is_error(err)) {
 			if (M_sql_error_is_rollback(err)) {
 				/* Don't try to actually execute the rollback since commit guarantees if it fails it is rolled back */
-- 
2.43.0


From 9d7cea05dcf24801c1d501add14b32fa37ea7b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 035/104] fix: failed commit of a grouped insert reported as
 success

---
 sql/m_sql_stmt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sql/m_sql_stmt.c b/sql/m_sql_stmt.c
index 63fcfca..3c7d757 100644
--- a/sql/m_sql_stmt.c
+++ b/sql/m_sql_stmt.c
@@ -522,6 +522,11 @@ M_sql_error_t M_sql_stmt_execute(M_sql_connpool_t *pool, M_sql_stmt_t *stmt)
 	} while (rollback);
 
 done:
+	/* The begin or commit of an implicit transaction may be what failed, that is the
+	 * result of the statement (and of all those sharing a group insert) */
+	if (M_sql_error_is_error(err))
+		stmt->last_error = err;
+
 	if (conn) {
 		/* Release connection if we're not going to fetch */
 		if (!M_sql_stmt_has_remaining_rows(stmt)) {
-- 
2.43.0


From 77109030fe5d19f86386a87d3a484564f0b0f750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 036/104] fix: use after free committing a transaction whose
 connection failed

---
 sql/m_sql_trans.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/m_sql_trans.c b/sql/m_sql_trans.c
index d45c64e..71336a1 100644
--- a/sql/m_sql_trans.c
+++ b/sql/m_sql_trans.c
@@ -166,10 +166,10 @@ M_sql_error_t M_sql_trans_commit(M_sql_trans_t *trans, char *error, size_t error
 
 	/* Prevent attempting a commit if we must roll back, issue a rollback instead */
 	if (M_sql_conn_get_state(trans->conn) != M_SQL_CONN_STATE_OK) {
-		M_sql_conn_t *conn = trans->conn;
+		/* Connection may no longer exist once the transaction is released */
+		M_bool is_failed = (M_sql_conn_get_state(trans->conn) == M_SQL_CONN_STATE_FAILED)?M_TRUE:M_FALSE;
 		M_snprintf(error, error_size, "forced rollback");
-		M_sql_trans_rollback(trans);
-		if (M_sql_conn_get_state(conn) == M_SQL_CONN_STATE_FAILED) {
+		if (M_sql_error_is_disconnect(M_sql_trans_rollback(trans)) || is_failed) {
 			err = M_SQL_ERROR_CONN_FAILED;
 		} else {
 			err = M_SQL_ERROR_QUERY_DEADLOCK;
-- 
2.43.0


From 3088e236b512839a01f2e60ed002d651aa7b13a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 037/104] fix: connection of a transaction handed out while its
 rows are still being fetched

---
 sql/m_sql_trans.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/m_sql_trans.c b/sql/m_sql_trans.c
index 71336a1..d45680d 100644
--- a/sql/m_sql_trans.c
+++ b/sql/m_sql_trans.c
@@ -209,6 +209,9 @@ M_sql_error_t M_sql_trans_execute(M_sql_trans_t *trans, M_sql_stmt_t *stmt)
 
 	M_time_elapsed_start(&trans->last_tv);
 
+	/* The connection stays with the transaction even if rows remain to be fetched */
+	stmt->trans = trans;
+
 	err = M_sql_conn_execute(trans->conn, stmt);
 
 	/* Capture error message to transaction handle so we can augment errors in
-- 
2.43.0


From c80ccd2f422b77c2689388bc821d7f27a0abe3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 038/104] fix: failed sqlite statement stayed active and
 blocked later commits

---
 sql/sqlite/mstdlib_sql_sqlite.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sql/sqlite/mstdlib_sql_sqlite.c b/sql/sqlite/mstdlib_sql_sqlite.c
index c552fa5..12da172 100644
--- a/sql/sqlite/mstdlib_sql_sqlite.c
+++ b/sql/sqlite/mstdlib_sql_sqlite.c
@@ -861,6 +861,11 @@ static M_sql_error_t sqlite_cb_execute(M_sql_conn_t *conn, M_sql_stmt_t *stmt, s
 		retry_cnt++;
 	}
 
+	/* A failed statement stays active (e.g. waiting to be retried on a busy database) until it is reset, and
+	 * would prevent any other statement on the same connection from being committed */
+	if (M_sql_error_is_error(err))
+		sqlite3_reset(driver_stmt->stmt);
+
 	return err;
 }
 
@@ -953,6 +958,11 @@ static M_sql_error_t sqlite_cb_fetch(M_sql_conn_t *conn, M_sql_stmt_t *stmt, cha
 		retry_cnt++;
 	}
 
+	/* A failed statement stays active (e.g. waiting to be retried on a busy database) until it is reset, and
+	 * would prevent any other statement on the same connection from being committed */
+	if (M_sql_error_is_error(err))
+		sqlite3_reset(driver_stmt->stmt);
+
 	return err;
 }
 
-- 
2.43.0


From 7fe3d9746ae135b6ad3414539ceac0132098b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 039/104] fix: sqlite journal mode only applied to the first
 connection

---
 sql/sqlite/mstdlib_sql_sqlite.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sql/sqlite/mstdlib_sql_sqlite.c b/sql/sqlite/mstdlib_sql_sqlite.c
index 12da172..4596769 100644
--- a/sql/sqlite/mstdlib_sql_sqlite.c
+++ b/sql/sqlite/mstdlib_sql_sqlite.c
@@ -472,20 +472,21 @@ static M_sql_error_t sqlite_cb_connect_runonce(M_sql_conn_t *conn, M_sql_driver_
 	M_sql_error_t           err  = M_SQL_ERROR_SUCCESS;
 	sqlite_connpool_data_t *data = is_readonly?&dpool->readonly:&dpool->primary;
 
-	if (!is_first_in_pool)
-		return M_SQL_ERROR_SUCCESS;
-
-	if (data->integrity_check &&
+	if (is_first_in_pool && data->integrity_check &&
 	    !sqlite_verify_integrity(conn, error, error_size)) {
 		err = M_SQL_ERROR_CONN_FAILED;
 		goto fail;
 	}
 
-	if (data->analyze && !sqlite_analyze(conn, error, error_size)) {
+	if (is_first_in_pool && data->analyze && !sqlite_analyze(conn, error, error_size)) {
 		err = M_SQL_ERROR_CONN_FAILED;
 		goto fail;
 	}
 
+	/* Only WAL is recorded in the database itself, other journal modes have to be set on each connection */
+	if (!is_first_in_pool && M_str_caseeq(data->journal_mode, "WAL"))
+		return M_SQL_ERROR_SUCCESS;
+
 	if (!sqlite_set_journal_mode(conn, data->journal_mode, error, error_size)) {
 		err = M_SQL_ERROR_CONN_FAILED;
 		goto fail;
-- 
2.43.0


From bd8d248d5417dad23a7b687f409e92eaa9aeff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 040/104] fix: async writer lost a message that was rejected
 while its queue was empty

---
 log/m_async_writer.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index c4e7ae8..6f9bc27 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -191,7 +191,12 @@ static void replace_one(M_async_writer_t *writer, char *msg, M_uint64 num_droppe
 		/* If no newer messages have been dropped in the time since we tried to write the old message,
 		 * and if we have room to add the old message back onto the tail end of the buffer:
 		 */
-		M_llist_str_insert_after(M_llist_str_last(writer->msgs), msg);
+		if (M_llist_str_len(writer->msgs) == 0) {
+			/* There's no tail to add to if no newer messages have arrived yet. */
+			M_llist_str_insert_first(writer->msgs, msg);
+		} else {
+			M_llist_str_insert_after(M_llist_str_last(writer->msgs), msg);
+		}
 		writer->stored_bytes += msg_len;
 	} else {
 		/* If newer messages have been dropped, or if the old message won't fit in the queue,
-- 
2.43.0


From 1def32e65182912572d4b6e2c1898dce082ef78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 041/104] fix: async writer start returned with its lock held
 if the thread couldn't be created

---
 log/m_async_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index 6f9bc27..aae2e94 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -462,6 +462,7 @@ M_bool M_async_writer_start(M_async_writer_t *writer)
 
 	/* Start write thread. */
 	if (M_thread_create(NULL, write_thread, writer) == 0) {
+		M_thread_mutex_unlock(writer->lock);
 		return M_FALSE;
 	}
 
-- 
2.43.0


From 03406824d815eae619405f60d4dca90b3e8aa0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 042/104] fix: async writer didn't report dropped messages in a
 non-flushing blocking destroy

---
 log/m_async_writer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index aae2e94..b4aadaf 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -61,6 +61,7 @@ struct M_async_writer {
 	M_bool              command_done;  /* used to indicate a command has completed, if the user sent a blocking command */
 	M_bool              thread_done;
 	M_bool              thread_alive;
+	M_bool              destroy_on_stop; /* set if the writer will be destroyed as soon as it has stopped. */
 
 } /* typedef'd as M_async_writer_t in header. */;
 
@@ -136,7 +137,7 @@ static char *pop_one(M_async_writer_t *writer, M_uint64 *num_dropped, M_uint64 *
 	if (writer->state == M_ASYNC_WRITER_DESTROYING || writer->state == M_ASYNC_WRITER_STOPPED
 		|| (in_flush(writer) && M_llist_str_len(writer->msgs) == 0)) {
 		if (num_dropped != NULL) {
-			if (writer->state == M_ASYNC_WRITER_STOPPED) {
+			if (writer->state == M_ASYNC_WRITER_STOPPED && !writer->destroy_on_stop) {
 				/* If we're not destroying the writer, just leave number of dropped messages in writer. They can be
 				 * output once the writer is started up again.
 				 */
@@ -405,7 +406,8 @@ M_bool M_async_writer_destroy_blocking(M_async_writer_t *writer, M_bool flush, M
 	}
 
 	/* Notify internal thread that it needs to stop at the next opportunity. */
-	writer->state = (flush)? M_ASYNC_WRITER_FLUSHING_TO_STOP : M_ASYNC_WRITER_STOPPED;
+	writer->state           = (flush)? M_ASYNC_WRITER_FLUSHING_TO_STOP : M_ASYNC_WRITER_STOPPED;
+	writer->destroy_on_stop = M_TRUE;
 	M_thread_cond_broadcast(writer->cond_updated);
 
 	/* BLOCKING: Wait for internal thread to finish any leftover processing and stop. */
-- 
2.43.0


From 9b2cae13525f2c8daed4bd7f1ff97bba6ef17466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 043/104] fix: async writer commands were lost with a rejected
 drop notice, released unrelated waiters, and drops were counted twice

---
 log/m_async_writer.c | 59 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index b4aadaf..053ca95 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -100,13 +100,15 @@ static M_bool in_flush(M_async_writer_t *writer)
  * If num_dropped isn't NULL, it will be set to the number of dropped messages since the last call to
  * pop().
  *
+ * cmd_blocking will be set to M_TRUE if the returned commands include one that another thread is waiting for.
+ *
  * If this method returns NULL and sets cmd to 0, it means that we've received a stop request.
  */
-static char *pop_one(M_async_writer_t *writer, M_uint64 *num_dropped, M_uint64 *cmd)
+static char *pop_one(M_async_writer_t *writer, M_uint64 *num_dropped, M_uint64 *cmd, M_bool *cmd_blocking)
 {
 	char *ret;
 
-	if (writer == NULL || cmd == NULL) {
+	if (writer == NULL || cmd == NULL || cmd_blocking == NULL) {
 		return NULL;
 	}
 
@@ -170,6 +172,9 @@ static char *pop_one(M_async_writer_t *writer, M_uint64 *num_dropped, M_uint64 *
 	*cmd = writer->write_command;
 	writer->write_command = 0;
 
+	/* If somebody is waiting for a command to complete, that command is among the ones we just transferred. */
+	*cmd_blocking = (writer->command_done)? M_FALSE : M_TRUE;
+
 	M_thread_mutex_unlock(writer->lock);
 	return ret;
 }
@@ -213,6 +218,25 @@ static void replace_one(M_async_writer_t *writer, char *msg, M_uint64 num_droppe
 }
 
 
+/* Pass a message and/or a command to the writer. */
+static M_bool write_one(M_async_writer_t *writer, char *msg, M_uint64 cmd, M_bool cmd_blocking)
+{
+	M_bool consumed = writer->write_cb(msg, cmd, writer->write_thunk);
+
+	/* If a command was set that somebody is blocking on, signal that it's done. Don't do this for other
+	 * commands, as a blocking command could have been set while they were being processed.
+	 */
+	if (cmd != 0 && cmd_blocking) {
+		M_thread_mutex_lock(writer->lock);
+		writer->command_done = M_TRUE;
+		M_thread_cond_broadcast(writer->cond_done);
+		M_thread_mutex_unlock(writer->lock);
+	}
+
+	return consumed;
+}
+
+
 static void *write_thread(void *arg)
 {
 	M_async_writer_t *writer      = arg;
@@ -222,7 +246,9 @@ static void *write_thread(void *arg)
 	while (M_TRUE) {
 		char     *msg;
 		M_uint64  cmd          = 0;
+		M_bool    cmd_blocking = M_FALSE;
 		M_bool    msg_consumed = M_TRUE;
+		M_bool    stopping;
 
 		/* Wait until at least one message is available, then pop the oldest one from the queue.
 		 *
@@ -230,20 +256,30 @@ static void *write_thread(void *arg)
 		 * counter to zero.
 		 */
 		num_dropped = 0;
-		msg         = pop_one(writer, &num_dropped, &cmd);
+		msg         = pop_one(writer, &num_dropped, &cmd, &cmd_blocking);
+
+		/* NULL message and 0 command indicates that message queue wants us to stop processing. */
+		stopping = (msg == NULL && cmd == 0)? M_TRUE : M_FALSE;
 
 		/* If any messages were dropped, write a message about it. Do this before exit check so that we
 		 * can report any remaining messages in queue as dropped on exit.
+		 *
+		 * If there's a command, it's passed along with the first thing we write. It must not be held back until this
+		 * message has been accepted, as it may be what makes the writer accept messages again.
 		 */
 		if (num_dropped > 0) {
 			char tmp[128];
 			M_snprintf(tmp, sizeof(tmp), "%llu messages were dropped (%s)%s", num_dropped,
-				(msg == NULL && cmd == 0)? "log shutdown" : "buffer full", writer->line_end);
-			msg_consumed = writer->write_cb(tmp, 0, writer->write_thunk);
+				(stopping)? "log shutdown" : "buffer full", writer->line_end);
+			msg_consumed = write_one(writer, tmp, cmd, cmd_blocking);
+			cmd          = 0;
+			if (msg_consumed) {
+				/* These have been reported now, don't count them again if the message itself isn't accepted. */
+				num_dropped = 0;
+			}
 		}
 
-		/* NULL message and 0 command indicates that message queue wants us to stop processing. */
-		if (msg == NULL && cmd == 0) {
+		if (stopping) {
 			break;
 		}
 
@@ -254,14 +290,7 @@ static void *write_thread(void *arg)
 		 * a message again.
 		 */
 		if (msg_consumed) {
-			msg_consumed = writer->write_cb(msg, cmd, writer->write_thunk);
-			/* If a command was set, signal that it's done (in case anyone is blocking on it). */
-			if (cmd != 0) {
-				M_thread_mutex_lock(writer->lock);
-				writer->command_done = M_TRUE;
-				M_thread_cond_broadcast(writer->cond_done);
-				M_thread_mutex_unlock(writer->lock);
-			}
+			msg_consumed = write_one(writer, msg, cmd, cmd_blocking);
 		}
 
 		/* If either the drop message wasn't accepted, or the main message wasn't accepted, replace the
-- 
2.43.0


From 3faa5db862a811124531d615d912dcc13c5ef6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 044/104] fix: log suspend was ignored when it directly
 followed a resume, and commands given while suspended were lost

---
 log/m_log_file.c   | 17 ++++++++++-------
 log/m_log_syslog.c | 15 +++++++++------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/log/m_log_file.c b/log/m_log_file.c
index 7301157..ca6094a 100644
--- a/log/m_log_file.c
+++ b/log/m_log_file.c
@@ -455,12 +455,13 @@ static M_bool writer_write_cb(char *msg, M_uint64 cmd, void *thunk)
 		writer_thunk_rotate_log_files(wdata);
 	}
 
-	/* If a suspend was requested (and we didn't receive a resume at the same time), update the suspend
-	 * flag, close the file stream, and skip writing the current message (will be added back onto queue).
+	/* If a suspend was requested, update the suspend flag, close the file stream, and skip writing the current
+	 * message (will be added back onto queue). If we received a resume at the same time, the suspend came after it:
+	 * whoever requests a suspend is blocked until we've processed it.
 	 *
 	 * This should be the LAST command we process, otherwise we'll lose any commands that are in flight.
 	 */
-	if ((cmd & M_LOG_CMD_SUSPEND) != 0 && (cmd & M_LOG_CMD_RESUME) == 0) {
+	if ((cmd & M_LOG_CMD_SUSPEND) != 0) {
 		M_fs_file_close(wdata->fstream);
 		wdata->fstream   = NULL;
 		wdata->suspended = M_TRUE;
@@ -582,11 +583,13 @@ static M_log_error_t log_resume_cb(M_log_module_t *module, M_event_t *event)
 	writer = module->module_thunk;
 
 	if (!M_async_writer_is_running(writer)) {
- 		/* Start a new internal worker thread. */
- 		M_async_writer_start(writer);
-
-		/* Notify the internal worker to reopen resources and resume write operations. */
+		/* Notify the internal worker to reopen resources and resume write operations. Must be done before it's started,
+		 * otherwise it may still be in suspended state when it picks up the commands requested during the suspend.
+		 */
 		M_async_writer_set_command(writer, M_LOG_CMD_RESUME, M_TRUE);
+
+		/* Start a new internal worker thread. */
+		M_async_writer_start(writer);
 	}
 
 	return M_LOG_SUCCESS;
diff --git a/log/m_log_syslog.c b/log/m_log_syslog.c
index aab951a..be408d8 100644
--- a/log/m_log_syslog.c
+++ b/log/m_log_syslog.c
@@ -117,12 +117,13 @@ static M_bool writer_write_cb(char *msg, M_uint64 cmd, void *thunk)
 		open_syslog(wdata);
 	}
 
-	/* If suspend was requested (and we didn't receive a resume at the same time), update the suspend
-	 * flag, close the file stream, and skip writing the current message (will be added back onto queue).
+	/* If suspend was requested, update the suspend flag, close the file stream, and skip writing the current
+	 * message (will be added back onto queue). If we received a resume at the same time, the suspend came after it:
+	 * whoever requests a suspend is blocked until we've processed it.
 	 *
 	 * This should be the LAST command we process, otherwise we'll lose any commands that are in flight.
 	 */
-	if ((cmd & M_LOG_CMD_SUSPEND) != 0 && (cmd & M_LOG_CMD_RESUME) == 0) {
+	if ((cmd & M_LOG_CMD_SUSPEND) != 0) {
 		closelog();
 		wdata->suspended = M_TRUE;
 		return M_FALSE;
@@ -242,11 +243,13 @@ static M_log_error_t log_resume_cb(M_log_module_t *module, M_event_t *event)
 	mdata = module->module_thunk;
 
 	if (!M_async_writer_is_running(mdata->writer)) {
+		/* Ask internal writer to reopen resources and resume writer operations. Must be done before it's started,
+		 * otherwise it may still be in suspended state when it picks up the commands requested during the suspend.
+		 */
+		M_async_writer_set_command(mdata->writer, M_LOG_CMD_RESUME, M_TRUE);
+
 		/* Start a new internal worker thread. */
 		M_async_writer_start(mdata->writer);
-
-		/* Ask internal writer to reopen resources and resume writer operations. */
-		M_async_writer_set_command(mdata->writer, M_LOG_CMD_RESUME, M_TRUE);
 	}
 
 	return M_LOG_SUCCESS;
-- 
2.43.0


From eae5bc4938f55f742a826bfebe4eb29b2c9f66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 045/104] fix: syslog priority of the notice about dropped
 messages was garbage

---
 log/m_log_syslog.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/log/m_log_syslog.c b/log/m_log_syslog.c
index be408d8..563f5d1 100644
--- a/log/m_log_syslog.c
+++ b/log/m_log_syslog.c
@@ -133,8 +133,13 @@ static M_bool writer_write_cb(char *msg, M_uint64 cmd, void *thunk)
 		return M_TRUE;
 	}
 
-	/* Parse priority byte off of end of message. */
-	priority         = (int)(char_to_priority(msg[msg_len - 1]));
+	/* Parse priority byte off of end of message. The notice about dropped messages that's generated by the writer
+	 * itself doesn't have one, it ends with the line ending.
+	 */
+	priority = (int)(char_to_priority(msg[msg_len - 1]));
+	if (priority < (int)M_SYSLOG_EMERG || priority > (int)M_SYSLOG_DEBUG) {
+		priority = (int)M_SYSLOG_WARNING;
+	}
 	msg[msg_len - 1] = '\0';
 
 	/* Send message to syslog. */
-- 
2.43.0


From 30cb5b7791ae4aafb3c982173ea56be41ea11199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 046/104] fix: M_log_module_take_membuf used a module that had
 expired

---
 log/m_log_membuf.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/log/m_log_membuf.c b/log/m_log_membuf.c
index a35f0b6..911fd31 100644
--- a/log/m_log_membuf.c
+++ b/log/m_log_membuf.c
@@ -176,12 +176,19 @@ M_log_error_t M_log_module_take_membuf(M_log_t *log, M_log_module_t *module, M_b
 		return M_LOG_INVALID_PARAMS;
 	}
 
+	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
+
+	/* Must be checked before looking into the module, a membuf module is removed on its own when it expires. */
+	if (!module_present_locked(log, module)) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_MODULE_NOT_FOUND;
+	}
+
 	if (module->type != M_LOG_MODULE_MEMBUF) {
+		M_thread_rwlock_unlock(log->rwlock);
 		return M_LOG_WRONG_MODULE;
 	}
 
-	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
-
 	if (out_buf != NULL) {
 		module_thunk_t *mdata = module->module_thunk;
 		if (mdata != NULL) {
-- 
2.43.0


From cc49de8eace397cbc1938e22c9bdd72665b1291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 047/104] fix: M_popen_close killed a program that was still
 running instead of waiting for it

---
 thread/m_popen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/m_popen.c b/thread/m_popen.c
index dfce127..7c26aeb 100644
--- a/thread/m_popen.c
+++ b/thread/m_popen.c
@@ -464,7 +464,7 @@ int M_popen_close_ex(M_popen_handle_t *mp, char **stdout_buf, size_t *stdout_buf
 
 int M_popen_close(M_popen_handle_t *mp, M_popen_err_t *errorid)
 {
-	return M_popen_close_ex(mp, NULL, NULL, NULL, NULL, errorid, 0);
+	return M_popen_close_ex(mp, NULL, NULL, NULL, NULL, errorid, M_TIMEOUT_INF);
 }
 
 #ifdef _WIN32
-- 
2.43.0


From cfaf6d6823534c539d5c218fb7a834211b0fcf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 048/104] fix: programs started at the same time inherited each
 other's pipes and never saw the end of their input

---
 thread/m_popen.c | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/thread/m_popen.c b/thread/m_popen.c
index 7c26aeb..90d7d25 100644
--- a/thread/m_popen.c
+++ b/thread/m_popen.c
@@ -575,6 +575,36 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 
 #else
 
+/*! Create a pipe whose ends are not inherited by other child processes. A copy held open by an unrelated process would
+ *  prevent the reading side from ever seeing the end of the stream. */
+static M_bool M_popen_pipe(int *fds)
+{
+#if defined(HAVE_PIPE2) && defined(O_CLOEXEC)
+	if (pipe2(fds, O_CLOEXEC) == 0)
+		return M_TRUE;
+	if (errno != ENOSYS)
+		return M_FALSE;
+#endif
+	if (pipe(fds) != 0)
+		return M_FALSE;
+	(void)fcntl(fds[0], F_SETFD, FD_CLOEXEC);
+	(void)fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+	return M_TRUE;
+}
+
+
+/*! Make fd available as target in the child */
+static void M_popen_redirect(int fd, int target)
+{
+	/* dup2() clears the close on exec flag for the new descriptor, except when it has nothing to do */
+	if (fd == target) {
+		(void)fcntl(fd, F_SETFD, 0);
+	} else {
+		dup2(fd, target);
+	}
+}
+
+
 M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 {
 	M_popen_handle_t *mp;
@@ -593,14 +623,14 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 	mp = M_malloc_zero(sizeof(*mp));
 
 	/* Create stdin pipes */
-	if (pipe(stdin_fd) != 0) {
+	if (!M_popen_pipe(stdin_fd)) {
 		*errorid = M_POPEN_ERR_PIPE;
 		M_free(mp);
 		return NULL;
 	}
 
 	/* Create stdout pipes */
-	if (pipe(stdout_fd) != 0) {
+	if (!M_popen_pipe(stdout_fd)) {
 		*errorid = M_POPEN_ERR_PIPE;
 		M_free(mp);
 		close(stdin_fd[0]);
@@ -609,7 +639,7 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 	}
 
 	/* Create stderr pipes */
-	if (pipe(stderr_fd) != 0) {
+	if (!M_popen_pipe(stderr_fd)) {
 		*errorid = M_POPEN_ERR_PIPE;
 		M_free(mp);
 		close(stdin_fd[0]);
@@ -641,7 +671,7 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 		/* Need to clone the file descriptors to the proper ids */
 
 		/* redirect writefd pipe (read) to STDIN */
-		dup2(stdin_fd[0], STDIN_FILENO);
+		M_popen_redirect(stdin_fd[0], STDIN_FILENO);
 
 		/* close unused writefds */
 		close(stdin_fd[1]);
@@ -649,7 +679,7 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 			close(stdin_fd[0]);
 
 		/* redirect readfd pipe (write) to STDOUT */
-		dup2(stdout_fd[1], STDOUT_FILENO);
+		M_popen_redirect(stdout_fd[1], STDOUT_FILENO);
 
 		/* Close unused readfds */
 		close(stdout_fd[0]);
@@ -657,7 +687,7 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 			close(stdout_fd[1]);
 
 		/* redirect errfd pipe (write) to STDERR */
-		dup2(stderr_fd[1], STDERR_FILENO);
+		M_popen_redirect(stderr_fd[1], STDERR_FILENO);
 
 		/* Close unused errfds */
 		close(stderr_fd[0]);
-- 
2.43.0


From e56dc73123fdcde6e015b9083d82c92143ba3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 049/104] fix: M_popen_write raised SIGPIPE, and
 M_popen_read/write closed the stream when interrupted by a signal

---
 thread/m_popen.c | 71 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 2 deletions(-)

diff --git a/thread/m_popen.c b/thread/m_popen.c
index 90d7d25..6a37ce3 100644
--- a/thread/m_popen.c
+++ b/thread/m_popen.c
@@ -179,7 +179,9 @@ ssize_t M_popen_read(M_popen_handle_t *mp, M_popen_fd_t fd, char *out, size_t ou
 	}
 
 	if (timeout_ms == M_TIMEOUT_INF || fds[0].revents & (POLLIN|POLLHUP|POLLERR)) {
-		retval = read(*handle, out, out_len);
+		do {
+			retval = read(*handle, out, out_len);
+		} while (retval == -1 && errno == EINTR);
 		if (retval == 0) {
 			retval = -2;
 		}
@@ -195,6 +197,64 @@ ssize_t M_popen_read(M_popen_handle_t *mp, M_popen_fd_t fd, char *out, size_t ou
 }
 
 
+#ifndef _WIN32
+#  ifdef HAVE_PTHREAD
+#    define M_POPEN_SIGMASK pthread_sigmask
+#  else
+#    define M_POPEN_SIGMASK sigprocmask
+#  endif
+
+/*! Keep SIGPIPE from being delivered to this thread.
+ *  \return state to pass to M_popen_sigpipe_restore(): 0 if there is nothing to undo, bit 0 set if a signal generated from
+ *          now on is to be consumed, bit 1 set if the signal has to be unblocked. */
+static int M_popen_sigpipe_block(void)
+{
+	sigset_t set;
+	sigset_t old;
+
+	sigemptyset(&set);
+	sigpending(&set);
+	if (sigismember(&set, SIGPIPE))
+		return 0;
+
+	sigemptyset(&set);
+	sigaddset(&set, SIGPIPE);
+	sigemptyset(&old);
+	M_POPEN_SIGMASK(SIG_BLOCK, &set, &old);
+	return sigismember(&old, SIGPIPE) ? 1 : 3;
+}
+
+
+static void M_popen_sigpipe_restore(int state)
+{
+	int      myerrno = errno;
+	sigset_t set;
+	sigset_t pending;
+
+	if (state & 1) {
+		sigemptyset(&set);
+		sigaddset(&set, SIGPIPE);
+		sigemptyset(&pending);
+		sigpending(&pending);
+		if (sigismember(&pending, SIGPIPE)) {
+#  ifdef HAVE_SIGTIMEDWAIT
+			const struct timespec timeout = { 0, 0 };
+			while (sigtimedwait(&set, NULL, &timeout) == -1 && errno == EINTR)
+				;
+#  else
+			int sig = 0;
+			sigwait(&set, &sig);
+#  endif
+		}
+		if (state & 2) {
+			M_POPEN_SIGMASK(SIG_UNBLOCK, &set, NULL);
+		}
+	}
+	errno = myerrno;
+}
+#endif
+
+
 ssize_t M_popen_write(M_popen_handle_t *mp, M_popen_fd_t fd, const char *in, size_t in_len)
 {
 	M_POPEN_HANDLE *handle;
@@ -202,6 +262,8 @@ ssize_t M_popen_write(M_popen_handle_t *mp, M_popen_fd_t fd, const char *in, siz
 #ifdef _WIN32
 	DWORD           d_in_len;
 	DWORD           bytes_written;
+#else
+	int             sigpipe_state;
 #endif
 
 	if (mp == NULL || fd != M_POPEN_FD_WRITE)
@@ -223,7 +285,12 @@ ssize_t M_popen_write(M_popen_handle_t *mp, M_popen_fd_t fd, const char *in, siz
 		retval = (ssize_t)bytes_written;
 	}
 #else
-	retval = write(*handle, in, in_len);
+	/* The process may be gone already, that must come back as an error and not end the calling process by SIGPIPE. */
+	sigpipe_state = M_popen_sigpipe_block();
+	do {
+		retval = write(*handle, in, in_len);
+	} while (retval == -1 && errno == EINTR);
+	M_popen_sigpipe_restore(sigpipe_state);
 	if (retval == 0) {
 		retval = -1;
 	}
-- 
2.43.0


From bd423fe95e2d7c10b5798c18b1593276533b5774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 050/104] fix: closing a popen handle deadlocked when the
 program's output exceeded the pipe

---
 thread/m_popen.c | 126 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 106 insertions(+), 20 deletions(-)

diff --git a/thread/m_popen.c b/thread/m_popen.c
index 6a37ce3..a61e7aa 100644
--- a/thread/m_popen.c
+++ b/thread/m_popen.c
@@ -452,12 +452,96 @@ M_popen_status_t M_popen_check(M_popen_handle_t *mp)
 }
 
 
+/*! Read what is available from a stream of the process, the data is discarded if there is no buffer.
+ *  \return M_TRUE if there may be more data */
+static M_bool M_popen_drain(M_popen_handle_t *mp, M_popen_fd_t fd, M_buf_t *mbuf)
+{
+	char    buf[4096];
+	ssize_t result;
+
+	result = M_popen_read(mp, fd, buf, sizeof(buf), 0);
+	if (result <= 0)
+		return M_FALSE;
+
+	M_buf_add_bytes(mbuf, buf, (size_t)result);
+	return M_TRUE;
+}
+
+
+/*! Wait for the process to exit. A process whose output nobody takes stops when the pipe is full and would never exit, so
+ *  its streams are read while waiting. */
+static M_popen_status_t M_popen_wait(M_popen_handle_t *mp, M_buf_t *out_mbuf, M_buf_t *err_mbuf, M_uint64 timeout_ms)
+{
+#ifdef _WIN32
+	if (mp->done)
+		return M_POPEN_STATUS_DONE;
+	while (1) {
+		M_popen_status_t status = M_popen_check_int(mp, M_MIN(timeout_ms, 15));
+		if (status != M_POPEN_STATUS_RUNNING)
+			return status;
+		if (timeout_ms != M_TIMEOUT_INF) {
+			timeout_ms = (timeout_ms > 15) ? timeout_ms - 15 : 0;
+			if (timeout_ms == 0)
+				return M_POPEN_STATUS_RUNNING;
+		}
+		M_popen_drain(mp, M_POPEN_FD_READ, out_mbuf);
+		M_popen_drain(mp, M_POPEN_FD_ERR, err_mbuf);
+	}
+#else
+	M_timeval_t   start_tv;
+	M_uint64      elapsed;
+	M_uint64      wait_ms;
+	struct pollfd fds[2];
+	nfds_t        nfds;
+
+	M_time_elapsed_start(&start_tv);
+
+	while (1) {
+		M_popen_status_t status = M_popen_check_int(mp, 0);
+		if (status != M_POPEN_STATUS_RUNNING)
+			return status;
+
+		wait_ms = 15;
+		if (timeout_ms != M_TIMEOUT_INF) {
+			elapsed = M_time_elapsed(&start_tv);
+			if (elapsed >= timeout_ms)
+				return M_POPEN_STATUS_RUNNING;
+			wait_ms = M_MIN(wait_ms, timeout_ms - elapsed);
+		}
+
+		M_mem_set(fds, 0, sizeof(fds));
+		nfds = 0;
+		if (mp->stdout_fd != M_POPEN_BAD_FD) {
+			fds[nfds].fd     = mp->stdout_fd;
+			fds[nfds].events = POLLIN;
+			nfds++;
+		}
+		if (mp->stderr_fd != M_POPEN_BAD_FD) {
+			fds[nfds].fd     = mp->stderr_fd;
+			fds[nfds].events = POLLIN;
+			nfds++;
+		}
+
+		if (nfds == 0) {
+			if (timeout_ms == M_TIMEOUT_INF)
+				return M_popen_check_int(mp, M_TIMEOUT_INF);
+			M_thread_sleep(wait_ms * 1000);
+			continue;
+		}
+
+		M_thread_poll(fds, nfds, (int)wait_ms);
+		M_popen_drain(mp, M_POPEN_FD_READ, out_mbuf);
+		M_popen_drain(mp, M_POPEN_FD_ERR, err_mbuf);
+	}
+#endif
+}
+
+
 int M_popen_close_ex(M_popen_handle_t *mp, char **stdout_buf, size_t *stdout_buf_len, char **stderr_buf, size_t *stderr_buf_len, M_popen_err_t *errorid, M_uint64 timeout_ms)
 {
-	M_buf_t *mbuf;
-	char     buf[4096];
+	M_buf_t *out_mbuf = NULL;
+	M_buf_t *err_mbuf = NULL;
 	int      ret;
-	ssize_t  result;
 
 	if (stdout_buf != NULL)
 		*stdout_buf = NULL;
@@ -476,8 +560,14 @@ int M_popen_close_ex(M_popen_handle_t *mp, char **stdout_buf, size_t *stdout_buf
 	 * expecting to read data */
 	M_popen_closefd(mp, M_POPEN_FD_WRITE);
 
+	/* Only streams that are still open are returned */
+	if (stdout_buf != NULL && stdout_buf_len != NULL && mp->stdout_fd != M_POPEN_BAD_FD)
+		out_mbuf = M_buf_create();
+	if (stderr_buf != NULL && stderr_buf_len != NULL && mp->stderr_fd != M_POPEN_BAD_FD)
+		err_mbuf = M_buf_create();
+
 	/* Wait till the process exits or kill it if the timeout elapsed */
-	if (M_popen_check_int(mp, timeout_ms) == M_POPEN_STATUS_RUNNING) {
+	if (M_popen_wait(mp, out_mbuf, err_mbuf, timeout_ms) == M_POPEN_STATUS_RUNNING) {
 #ifdef _WIN32
 		TerminateProcess(mp->processInfo.hProcess, 0);
 #else
@@ -489,22 +579,18 @@ int M_popen_close_ex(M_popen_handle_t *mp, char **stdout_buf, size_t *stdout_buf
 	}
 
 	if (mp->resultcode >= 0) {
-		if (stdout_buf != NULL && stdout_buf_len != NULL && mp->stdout_fd != M_POPEN_BAD_FD) {
-			mbuf = M_buf_create();
-			while ((result = M_popen_read(mp, M_POPEN_FD_READ, buf, sizeof(buf), M_TIMEOUT_INF)) > 0) {
-				M_buf_add_bytes(mbuf, buf, (size_t)result);
-			}
-			*stdout_buf = M_buf_finish_str(mbuf, stdout_buf_len);
-		}
-
-
-		if (stderr_buf != NULL && stderr_buf_len != NULL && mp->stderr_fd != M_POPEN_BAD_FD) {
-			mbuf = M_buf_create();
-			while ((result = M_popen_read(mp, M_POPEN_FD_ERR, buf, sizeof(buf), M_TIMEOUT_INF)) > 0) {
-				M_buf_add_bytes(mbuf, buf, (size_t)result);
-			}
-			*stderr_buf = M_buf_finish_str(mbuf, stderr_buf_len);
-		}
+		/* Everything the process wrote is in the pipes */
+		while (M_popen_drain(mp, M_POPEN_FD_READ, out_mbuf))
+			;
+		while (M_popen_drain(mp, M_POPEN_FD_ERR, err_mbuf))
+			;
+		if (out_mbuf != NULL)
+			*stdout_buf = M_buf_finish_str(out_mbuf, stdout_buf_len);
+		if (err_mbuf != NULL)
+			*stderr_buf = M_buf_finish_str(err_mbuf, stderr_buf_len);
+	} else {
+		M_buf_cancel(out_mbuf);
+		M_buf_cancel(err_mbuf);
 	}
 
 	/* Close handles if they're open */
-- 
2.43.0


From c4ac5fe1182ea1f5eeda869c51abd244aa70014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 051/104] fix: the last bytes of a file were never handed out
 by a buffered read

---
 base/fs/m_fs_file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index e9e2b4a..66483df 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -112,8 +112,9 @@ M_fs_error_t M_fs_file_read(M_fs_file_t *fd, unsigned char *buf, size_t buf_len,
 
 	*read_len = read_total;
 
-	/* Read from the read buffer into the request buffer any additional data. */
-	if (fd->buf_size > 0 && read_total > 0) {
+	/* Read from the read buffer into the request buffer any additional data. At the end of the file what is
+	 * already in the read buffer still needs to be handed out. */
+	if (fd->buf_size > 0 && (read_total > 0 || res == M_FS_ERROR_SUCCESS)) {
 		M_buf_direct_write_end(fd->read_buf, read_total);
 
 		/* Fill the request buffer. */
-- 
2.43.0


From 088982ac3471a093a133c428939d2326c61b22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 052/104] fix: a read succeeded from the wrong place when
 flushing written data failed

---
 base/fs/m_fs_file.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index 66483df..3e5906a 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -83,8 +83,12 @@ M_fs_error_t M_fs_file_read(M_fs_file_t *fd, unsigned char *buf, size_t buf_len,
 		/* flush the write buf because location in the file will have
 		 * moved and writes can't happen at the new location. This also
 		 * invalidates the read buffer since the read location may have changed. */
-		if (M_buf_len(fd->write_buf) > 0)
-			M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+		if (M_buf_len(fd->write_buf) > 0) {
+			res = M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+			if (res != M_FS_ERROR_SUCCESS) {
+				return res;
+			}
+		}
 
 		/* If we can read from the user buffer do so. */
 		if (M_buf_len(fd->read_buf) >= buf_len) {
-- 
2.43.0


From 313066dea4e01d5c78bab7acc79a73499afc0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 053/104] fix: seek moved the location although flushing
 written data failed

---
 base/fs/m_fs_file.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index 3e5906a..2e3921e 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -263,6 +263,8 @@ M_fs_error_t M_fs_file_write_bytes(const char *path, const unsigned char *buf, s
 
 M_fs_error_t M_fs_file_seek(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_t from)
 {
+	M_fs_error_t res;
+
 	if (fd == NULL)
 		return M_FS_ERROR_INVALID;
 
@@ -272,8 +274,12 @@ M_fs_error_t M_fs_file_seek(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_t fr
 	/* flush the write buf because location in the file will have
 	 * moved and writes can't happen at the new location. This will
 	 * kill the write buf. */
-	if (M_buf_len(fd->write_buf) > 0)
-		M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+	if (M_buf_len(fd->write_buf) > 0) {
+		res = M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+		if (res != M_FS_ERROR_SUCCESS) {
+			return res;
+		}
+	}
 
 	/* If we're seeking ahead from the current position, and the destination is still inside
 	 * our read buffer, just drop bytes from the read buffer and update the read offset.
-- 
2.43.0


From 0fbd617e2f46ea2b6fbd8a91cba01220547febca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 054/104] fix: a failed seek changed the location within the
 file

---
 base/fs/m_fs_file.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index 2e3921e..e3debd9 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -292,13 +292,17 @@ M_fs_error_t M_fs_file_seek(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_t fr
 	}
 
 	/* Otherwise, move the file offset to the expected location and kill the read buf. */
-	M_buf_truncate(fd->read_buf, 0);
 	if (fd->read_offset != 0 && from == M_FS_FILE_SEEK_CUR)
 		offset -= fd->read_offset;
-	fd->read_offset = 0;
 
-	/* Seek to the requested location. */
-	return M_fs_file_seek_sys(fd, offset, from);
+	/* Seek to the requested location. If that fails the location isn't changed. */
+	res = M_fs_file_seek_sys(fd, offset, from);
+	if (res != M_FS_ERROR_SUCCESS)
+		return res;
+
+	M_buf_truncate(fd->read_buf, 0);
+	fd->read_offset = 0;
+	return M_FS_ERROR_SUCCESS;
 }
 
 M_fs_error_t M_fs_file_sync(M_fs_file_t *fd, M_uint32 type)
-- 
2.43.0


From 8019f973eab60ab8a4d7e7612ad12482c70713cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 055/104] fix: seek to offset 0 from the beginning or end did
 nothing

---
 base/fs/m_fs_file_unx.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/fs/m_fs_file_unx.c b/base/fs/m_fs_file_unx.c
index b557a61..6050c56 100644
--- a/base/fs/m_fs_file_unx.c
+++ b/base/fs/m_fs_file_unx.c
@@ -201,7 +201,11 @@ M_fs_error_t M_fs_file_seek_sys(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_
 		whence = SEEK_SET;
 	}
 
-	while (offset != 0) {
+	/* Relative to the current location there is nothing to do. */
+	if (offset == 0 && whence == SEEK_CUR)
+		return M_FS_ERROR_SUCCESS;
+
+	do {
 		M_int64 amt_to_move = offset;
 		if (sizeof(off_t) == 4) {
 			if (offset > M_INT32_MAX) {
@@ -216,7 +220,8 @@ M_fs_error_t M_fs_file_seek_sys(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_
 			return M_fs_error_from_syserr(errno);
 		}
 		offset -= amt_to_move;
-	}
+		whence  = SEEK_CUR;
+	} while (offset != 0);
 
 	return M_FS_ERROR_SUCCESS;
 }
-- 
2.43.0


From cb15250a49a3c0d9654b0d156933384832b314ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 056/104] fix: copy of a file reported success when its last
 part could not be written

---
 base/fs/m_fs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 6a3e1ea..7a7a7fd 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -273,6 +273,10 @@ static M_fs_error_t M_fs_copy_file(const char *path_old, const char *path_new, M
 			break;
 		}
 	}
+	/* The last part may still be buffered and close can't report that it couldn't be written. */
+	if (res == M_FS_ERROR_SUCCESS) {
+		res = M_fs_file_sync(fd_new, M_FS_FILE_SYNC_BUFFER);
+	}
 	M_fs_file_close(fd_old);
 	M_fs_file_close(fd_new);
 	if (res != M_FS_ERROR_SUCCESS) {
-- 
2.43.0


From 3186c22b7a18f272a075eace697cd26c5d6c36a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 057/104] fix: copying a tree with preserved perms changed the
 perms of what symlinks in it point to

---
 base/fs/m_fs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 7a7a7fd..47d1435 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -569,7 +569,8 @@ M_fs_error_t M_fs_copy(const char *path_old, const char *path_new, M_uint32 mode
 			} else if (type == M_FS_TYPE_SYMLINK) {
 				res = M_fs_symlink(join_path_new, M_fs_dir_entry_get_resolved_name(entry));
 			} 
-			if (res == M_FS_ERROR_SUCCESS && (mode & M_FS_FILE_MODE_PRESERVE_PERMS)) {
+			/* Setting the perms of a symlink would change what it points to. */
+			if (res == M_FS_ERROR_SUCCESS && type == M_FS_TYPE_DIR && (mode & M_FS_FILE_MODE_PRESERVE_PERMS)) {
 				res = M_fs_perms_set_perms(M_fs_info_get_perms(M_fs_dir_entry_get_info(entry)), join_path_new);
 			}
 		} else {
-- 
2.43.0


From 4cf9ff42e98d82e7d5556d6cea49bada99ab045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 058/104] fix: copy of a directory reported success when part
 of it could not be read

---
 base/fs/m_fs.c          |  9 ++++++++-
 base/fs/m_fs_dir_walk.c | 40 ++++++++++++++++++++++++++++++++--------
 base/fs/m_fs_int.h      | 11 +++++++++++
 3 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 47d1435..d8f9430 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -511,7 +511,14 @@ M_fs_error_t M_fs_copy(const char *path_old, const char *path_new, M_uint32 mode
 			filter |= M_FS_DIR_WALK_FILTER_READ_INFO_BASIC;
 		}
 		/* Get all the files under the dir. */
-		M_fs_dir_entries_merge(&entries, M_fs_dir_walk_entries(norm_path_old, NULL, filter));
+		res = M_fs_dir_walk_entries_all(entries, norm_path_old, filter);
+		if (res != M_FS_ERROR_SUCCESS) {
+			M_fs_dir_entries_destroy(entries);
+			M_fs_progress_destroy(progress);
+			M_free(norm_path_new);
+			M_free(norm_path_old);
+			return res;
+		}
 	}
 
 	/* Put all dirs first. We need to ensure the dir(s) exist before we can copy files. */
diff --git a/base/fs/m_fs_dir_walk.c b/base/fs/m_fs_dir_walk.c
index 4a781d4..4b37c91 100644
--- a/base/fs/m_fs_dir_walk.c
+++ b/base/fs/m_fs_dir_walk.c
@@ -29,6 +29,7 @@
 
 #ifndef _WIN32
 #  include <dirent.h>
+#  include <errno.h>
 #endif
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
@@ -419,7 +420,16 @@ static M_bool M_fs_dir_walk_int_sys(const char *base_path, const char *full_path
 
 	/* We don't use readdir_r because it's deprecated on pretty much every modern platform.
  	 * readdir is reentrant these days and should be used instead. */
-	while ((dir_entry = readdir(dir)) != NULL) {
+	while (1) {
+		errno     = 0;
+		dir_entry = readdir(dir);
+		if (dir_entry == NULL) {
+			/* NULL is the end of the directory as well as an error. */
+			if (errno != 0)
+				ret = M_FALSE;
+			break;
+		}
+
 		/* Try to determine the file type. This is a short cut (which prevents a needless (l)stat calls) if we don't
  		 * need to get the file info and the OS/filesystem supports giving us this information we'll use it. */
 #ifdef HAVE_DIRENT_TYPE
@@ -499,30 +509,39 @@ static M_fs_dir_walk_seen_type_t M_fs_dir_walk_int(const char *base_path, const
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
-void M_fs_dir_walk(const char *path, const char *pat, M_uint32 filter, M_fs_dir_walk_cb_t cb, void *thunk)
+/* Same as M_fs_dir_walk but reports if everything was walked. */
+static M_bool M_fs_dir_walk_all(const char *path, const char *pat, M_uint32 filter, M_fs_dir_walk_cb_t cb, void *thunk)
 {
-	char           *norm_path = NULL;
-	M_fs_dir_walk_seens_t *seen;
+	char                      *norm_path = NULL;
+	M_fs_dir_walk_seens_t     *seen;
+	M_fs_dir_walk_seen_type_t  seen_type;
 
 	/* We have to have a path and a callback. Without a path we don't know what to walk. Without the callback
  	 * we don't have anything to do. */
 	if (path == NULL || *path == '\0' || cb == NULL)
-		return;
+		return M_FALSE;
 
 	/* Get the absolute path we're walking. We'll need this for jailing and properly following symlinks
  	 * that are relative paths. */
 	if (M_fs_path_norm(&norm_path, path, M_FS_PATH_NORM_RESALL|M_FS_PATH_NORM_ABSOLUTE, M_FS_SYSTEM_AUTO) != M_FS_ERROR_SUCCESS)
-		return;
+		return M_FALSE;
 	path = norm_path;
 
 	/* If a pattern is not set then we want to match everything. */
 	if (pat == NULL || *pat == '\0')
 		pat = "*";
 
-	seen = M_fs_dir_walk_seens_create();
-	M_fs_dir_walk_int(norm_path, path, NULL, pat, filter, cb, thunk, seen);
+	seen      = M_fs_dir_walk_seens_create();
+	seen_type = M_fs_dir_walk_int(norm_path, path, NULL, pat, filter, cb, thunk, seen);
 	M_fs_dir_walk_seens_destroy(seen);
 	M_free(norm_path);
+
+	return (seen_type == M_FS_DIR_WALK_SEEN_FAIL)?M_FALSE:M_TRUE;
+}
+
+void M_fs_dir_walk(const char *path, const char *pat, M_uint32 filter, M_fs_dir_walk_cb_t cb, void *thunk)
+{
+	M_fs_dir_walk_all(path, pat, filter, cb, thunk);
 }
 
 static M_bool M_fs_dir_walk_entries_appender(const char *path, M_fs_dir_entry_t *entry, M_fs_error_t res, void *thunk)
@@ -564,6 +583,11 @@ M_fs_dir_entries_t *M_fs_dir_walk_entries(const char *path, const char *pat, M_u
 	return entries;
 }
 
+M_fs_error_t M_fs_dir_walk_entries_all(M_fs_dir_entries_t *entries, const char *path, M_uint32 filter)
+{
+	return M_fs_dir_walk_all(path, NULL, filter, M_fs_dir_walk_entries_appender, entries)?M_FS_ERROR_SUCCESS:M_FS_ERROR_GENERIC;
+}
+
 static M_bool M_fs_dir_walk_strs_appender(const char *path, M_fs_dir_entry_t *entry, M_fs_error_t res, void *thunk)
 {
 	const char   *name;
diff --git a/base/fs/m_fs_int.h b/base/fs/m_fs_int.h
index bb86c25..8635cc7 100644
--- a/base/fs/m_fs_int.h
+++ b/base/fs/m_fs_int.h
@@ -287,6 +287,17 @@ M_fs_error_t M_fs_file_fsync_sys(M_fs_file_t *fd);
  */
 M_fs_dir_entry_t *M_fs_dir_walk_fill_entry(const char *full_path, const char *rel_path, M_fs_type_t type, M_fs_info_t *info, M_fs_dir_walk_filter_t filter);
 
+/*! Add everything found under path to the entries.
+ *
+ * Unlike M_fs_dir_walk_entries it's an error when not everything under path could be read.
+ *
+ * \param[in,out] entries The entries to add to.
+ * \param[in]     path    The path to walk.
+ * \param[in]     filter  M_fs_dir_walk_filter_t flags controlling the behavior of the walk.
+ * \return Result. Entries found before an error are added.
+ */
+M_fs_error_t M_fs_dir_walk_entries_all(M_fs_dir_entries_t *entries, const char *path, M_uint32 filter);
+
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
  * dir_entry */
-- 
2.43.0


From 54b7b736ade764ffe3bd525bb1dccb1afcdd074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 059/104] fix: log file rotation must not overwrite or delete
 rotated files that are to be kept

---
 log/m_log_file.c | 228 +++++++++++++++++++++++++----------------------
 1 file changed, 122 insertions(+), 106 deletions(-)

diff --git a/log/m_log_file.c b/log/m_log_file.c
index ca6094a..9461848 100644
--- a/log/m_log_file.c
+++ b/log/m_log_file.c
@@ -41,7 +41,6 @@
 typedef struct {
 	char             *log_file_path;
 	char             *log_file_name;
-	char             *log_file_pattern; /* Globbing pattern for old log files (doesn't include directory part). */
 	char             *log_file_dir;
 	M_time_t          log_file_create_time; /* File creation time (seconds) */
 	M_uint64          log_file_size;
@@ -64,7 +63,6 @@ static void writer_thunk_destroy(void *ptr)
 
 	M_free(wdata->log_file_path);
 	M_free(wdata->log_file_name);
-	M_free(wdata->log_file_pattern);
 	M_free(wdata->log_file_dir);
 	M_fs_file_close(wdata->fstream);
 	M_free(wdata->archive_cmd);
@@ -171,10 +169,39 @@ done:
 }
 
 
+/* Parse the number and the rest of the name (empty, or the archive file extension) of an old log file. */
+static M_bool parse_log_file_name(const writer_thunk_t *wdata, const char *name, M_uint64 *num, const char **ext)
+{
+	size_t      prefix_len = M_str_len(wdata->log_file_name);
+	M_parser_t *parser;
+	M_bool      ret        = M_FALSE;
+
+	/* Log file name and dot. */
+	if (!M_str_eq_max(name, wdata->log_file_name, prefix_len) || name[prefix_len] != '.') {
+		return M_FALSE;
+	}
+
+	parser = M_parser_create_const((const unsigned char *)name, M_str_len(name), M_PARSER_FLAG_NONE);
+	M_parser_consume(parser, prefix_len + 1);
+
+	/* Number, must start with a digit. */
+	if (M_chr_isdigit(name[prefix_len + 1])
+		&& M_parser_read_uint(parser, M_PARSER_INTEGER_ASCII, 0, 10, num))
+	{
+		*ext = name + (M_str_len(name) - M_parser_len(parser));
+		/* If archiving failed or was interrupted, the file is still there without the archive extension. */
+		ret  = M_str_isempty(*ext) || M_str_eq(*ext, wdata->archive_file_ext);
+	}
+
+	M_parser_destroy(parser);
+	return ret;
+}
+
+
 /* Return list of old log files (<log file name>.<number>[<archive file ext>]) on disk. */
 static M_llist_str_t *writer_thunk_get_log_file_names(writer_thunk_t *wdata)
 {
-	M_list_str_t  *glob_files;
+	M_list_str_t  *dir_files;
 	M_llist_str_t *sorted_files;
 	size_t         i;
 	size_t         min_len;
@@ -183,18 +210,8 @@ static M_llist_str_t *writer_thunk_get_log_file_names(writer_thunk_t *wdata)
 		return NULL;
 	}
 
-	/* Glob files in dir to get a first cut at the list of files we need:
-	 *    <log file name>.*[<archive_file_ext>]
-	 *
-	 * Note that this glob pattern will still include some files that don't match the exact pattern we're looking for,
-	 * so we'll need to filter it further.
-	 */
-	glob_files = M_fs_dir_walk_strs(wdata->log_file_dir, wdata->log_file_pattern, M_FS_DIR_WALK_FILTER_FILE);
-
-	if (M_list_str_len(glob_files) == 0) {
-		M_list_str_destroy(glob_files);
-		return NULL;
-	}
+	/* NOTE: not using a glob pattern, the name of the log file may contain special characters. */
+	dir_files = M_fs_dir_walk_strs(wdata->log_file_dir, NULL, M_FS_DIR_WALK_FILTER_FILE);
 
 	/* Length of log file name + dot char. */
 	min_len = M_str_len(wdata->log_file_name) + 1;
@@ -203,118 +220,130 @@ static M_llist_str_t *writer_thunk_get_log_file_names(writer_thunk_t *wdata)
 	sorted_files = M_llist_str_create(M_LLIST_STR_SORTDESC); /* Must create with sorting enabled, for change sorting to work. */
 	M_llist_str_change_sorting(sorted_files, sort_log_files_cb, &min_len);
 
-	/* Store and sort every file that matches our exact pattern (<log file name>.[number]<archive file ext>). */
-	for (i=0; i<M_list_str_len(glob_files); i++) {
-		const char *name;
-		M_parser_t *parser;
-		size_t      ndigits;
-
-		name   = M_list_str_at(glob_files, i);
-		parser = M_parser_create_const((const unsigned char *)name, M_str_len(name), M_PARSER_FLAG_NONE);
-
-		/* Skip past log file name and dot. */
-		if (!M_parser_consume(parser, min_len)) {
-			M_parser_destroy(parser);
-			continue;
-		}
-
-		/* Skip past digits, make sure we read at least one. */
-		ndigits = M_parser_consume_str_charset(parser, "0123456789");
-		if (ndigits == 0) {
-			M_parser_destroy(parser);
-			continue;
-		}
+	/* Store and sort every file that matches our exact pattern. */
+	for (i=0; i<M_list_str_len(dir_files); i++) {
+		const char *name = M_list_str_at(dir_files, i);
+		const char *ext;
+		M_uint64    num;
 
-		if (M_str_isempty(wdata->archive_file_ext)) {
-			/* If there's no archive extension, make sure we've reached the end of the filename. */
-			if (M_parser_len(parser) > 0) {
-				M_parser_destroy(parser);
-				continue;
-			}
-		} else if (!M_parser_compare_str(parser, wdata->archive_file_ext, 0, M_FALSE)){
-			/* Make sure that filename ends with archive file extension, if one was provided. */
-			M_parser_destroy(parser);
-			continue;
+		if (parse_log_file_name(wdata, name, &num, &ext)) {
+			M_llist_str_insert(sorted_files, name);
 		}
-
-		/* If we get to here, the filename matches our exact requirements. */
-		M_llist_str_insert(sorted_files, name);
-		M_parser_destroy(parser);
 	}
 
-	M_list_str_destroy(glob_files);
+	M_list_str_destroy(dir_files);
 	return sorted_files;
 }
 
 
-static void writer_thunk_rotate_log_files(writer_thunk_t *wdata)
+/* Bump up the number of each old log file by 1, to make room for number 1. Files whose number would exceed num_to_keep
+ * are deleted.
+ *
+ * Returns M_FALSE if this wasn't possible: number 1 is still in use, and must not be overwritten.
+ */
+static M_bool writer_thunk_shift_log_files(writer_thunk_t *wdata)
 {
 	M_llist_str_t      *existing_files; /* Will contain list of existing log files, sorted in descending order. */
 	M_llist_str_node_t *node;
 	M_buf_t            *new_path;
-	size_t              min_len;
-	M_fs_error_t        res;
-
-	/* Only allow rotate if head log is open (not in error state). */
-	if (wdata == NULL || wdata->fstream == NULL) {
-		return;
-	}
+	M_uint64            first_free = 1;
+	M_bool              ret        = M_TRUE;
 
+	existing_files = writer_thunk_get_log_file_names(wdata);
 	new_path       = M_buf_create();
 
-	existing_files = writer_thunk_get_log_file_names(wdata);
+	/* If there's a gap in the numbers, only the files below it need to be touched. */
+	for (node = M_llist_str_last(existing_files); node != NULL; node = M_llist_str_node_prev(node)) {
+		const char *ext;
+		M_uint64    log_num;
 
-	/* Loop over each existing file from highest log number to lowest, bump up each log file's number by 1.
-	 * Any extra logs past num_to_keep will be deleted.
-	 */
-	node    = M_llist_str_first(existing_files);
-	min_len = M_str_len(wdata->log_file_name) + 1;
-	while (node != NULL) {
-		const char *name;
-		M_parser_t *parser;
-		M_uint64    log_num = 0;
-		char       *old_path = NULL;
+		if (parse_log_file_name(wdata, M_llist_str_node_val(node), &log_num, &ext) && log_num == first_free) {
+			first_free++;
+		}
+	}
 
-		name   = M_llist_str_node_val(node);
-		parser = M_parser_create_const((const unsigned char *)name, M_str_len(name), M_PARSER_FLAG_NONE);
+	/* Loop over each existing file from highest log number to lowest. */
+	for (node = M_llist_str_first(existing_files); ret && node != NULL; node = M_llist_str_node_next(node)) {
+		const char   *name     = M_llist_str_node_val(node);
+		const char   *ext;
+		char         *old_path;
+		M_uint64      log_num;
+		M_fs_error_t  res      = M_FS_ERROR_SUCCESS;
 
-		old_path = M_fs_path_join(wdata->log_file_dir, name, M_FS_SYSTEM_AUTO);
-
-		/* Parse log number out of input filename, then increment it. */
-		M_parser_consume(parser, min_len);
-		if (!M_parser_read_uint(parser, M_PARSER_INTEGER_ASCII, 0, 10, &log_num)) {
-			/* skip non-numeric entries */
-			goto skip;
+		if (!parse_log_file_name(wdata, name, &log_num, &ext)) {
+			continue;
 		}
-		log_num++;
 
-		/* NOTE: log numbers start at 1, not 0. */
+		old_path = M_fs_path_join(wdata->log_file_dir, name, M_FS_SYSTEM_AUTO);
 
-		if (log_num <= wdata->num_to_keep) {
+		/* NOTE: log numbers start at 1, not 0. */
+		if (log_num > wdata->num_to_keep || (log_num == wdata->num_to_keep && log_num < first_free)) {
+			/* If new log number exceeds the number we want to keep, delete the log. */
+			res = M_fs_delete(old_path, M_FALSE, NULL, M_FS_PROGRESS_NOEXTRA);
+		} else if (log_num < first_free) {
 			/* If new log number is in bounds, rename the file to use the new number. */
 			M_buf_truncate(new_path, 0); /* Clean out any leftovers from previous use of buffer. */
 
 			M_buf_add_str(new_path, wdata->log_file_path);
 			M_buf_add_byte(new_path, '.');
-			M_buf_add_uint(new_path, log_num);
-			M_buf_add_str(new_path, wdata->archive_file_ext);
+			M_buf_add_uint(new_path, log_num + 1);
+			M_buf_add_str(new_path, ext);
 
-			M_fs_move(old_path, M_buf_peek(new_path), M_FS_FILE_MODE_OVERWRITE, NULL, M_FS_PROGRESS_NOEXTRA);
-		} else {
-			/* If new log number exceeds the number we want to keep, delete the log. */
-			M_fs_delete(old_path, M_FALSE, NULL, M_FS_PROGRESS_NOEXTRA);
+			res = M_fs_move(old_path, M_buf_peek(new_path), M_FS_FILE_MODE_NONE, NULL, M_FS_PROGRESS_NOEXTRA);
+		}
+
+		/* If one file can't be moved out of the way, the ones below it must stay where they are. */
+		if (res != M_FS_ERROR_SUCCESS && log_num < first_free) {
+			ret = M_FALSE;
 		}
 
-skip:
 		M_free(old_path);
-		M_parser_destroy(parser);
-		node = M_llist_str_node_next(node);
 	}
 
-	/* Wait for archive command from previous rotate to finish, if it hasn't already. */
+	/* Make sure number 1 really isn't in use any more (we might not have been able to list the old log files). */
+	if (ret && wdata->num_to_keep > 0) {
+		M_buf_truncate(new_path, 0);
+		M_buf_add_str(new_path, wdata->log_file_path);
+		M_buf_add_str(new_path, ".1");
+		ret = M_fs_perms_can_access(M_buf_peek(new_path), M_FS_PERMS_MODE_NONE) != M_FS_ERROR_SUCCESS;
+
+		if (ret && !M_str_isempty(wdata->archive_file_ext)) {
+			M_buf_add_str(new_path, wdata->archive_file_ext);
+			ret = M_fs_perms_can_access(M_buf_peek(new_path), M_FS_PERMS_MODE_NONE) != M_FS_ERROR_SUCCESS;
+		}
+	}
+
+	M_buf_cancel(new_path);
+	M_llist_str_destroy(existing_files);
+	return ret;
+}
+
+
+static void writer_thunk_rotate_log_files(writer_thunk_t *wdata)
+{
+	M_buf_t      *new_path;
+	M_fs_error_t  res;
+
+	/* Only allow rotate if head log is open (not in error state). */
+	if (wdata == NULL || wdata->fstream == NULL) {
+		return;
+	}
+
+	/* Wait for archive command from previous rotate to finish, if it hasn't already. Must be done before touching
+	 * any of the old log files, because the archive command is still using one of them.
+	 */
 	M_popen_close(wdata->archive_process, NULL);
 	wdata->archive_process = NULL;
 
+	if (!writer_thunk_shift_log_files(wdata)) {
+		/* Keep using the current file, try again after another file's worth of messages or time. */
+		wdata->log_file_create_time = M_time();
+		wdata->log_file_size        = 0;
+		return;
+	}
+
+	new_path = M_buf_create();
+
 	/* Close the head log file, rename it to log #1. */
 	M_fs_file_close(wdata->fstream);
 	wdata->fstream = NULL;
@@ -327,8 +356,7 @@ skip:
 		M_buf_truncate(new_path, 0); /* Clean out any leftovers from previous use of buffer. */
 		M_buf_add_str(new_path, wdata->log_file_path);
 		M_buf_add_str(new_path, ".1");
-		res = M_fs_move(wdata->log_file_path, M_buf_peek(new_path), M_FS_FILE_MODE_OVERWRITE, NULL,
-			M_FS_PROGRESS_NOEXTRA);
+		res = M_fs_move(wdata->log_file_path, M_buf_peek(new_path), M_FS_FILE_MODE_NONE, NULL, M_FS_PROGRESS_NOEXTRA);
 
 		/* Handle any required compression in a separate process (only if move was successful). */
 		if (res == M_FS_ERROR_SUCCESS && !M_str_isempty(wdata->archive_file_ext)) {
@@ -350,8 +378,6 @@ skip:
 	open_head_logfile(wdata, M_TRUE);
 
 	M_buf_cancel(new_path);
-
-	M_llist_str_destroy(existing_files);
 }
 
 
@@ -359,7 +385,6 @@ static writer_thunk_t *writer_thunk_create(const char *log_file_path, M_uint64 n
 	M_uint64 autorotate_time, const char *archive_cmd, const char *archive_file_ext, const char *line_end_str)
 {
 	writer_thunk_t *wdata         = M_malloc_zero(sizeof(*wdata));
-	M_buf_t        *buf           = NULL;
 	M_fs_error_t    err;
 
 	/* Normalize the path - subs in environment variable values, converts to absolute, resolves '~', etc. */
@@ -370,16 +395,7 @@ static writer_thunk_t *writer_thunk_create(const char *log_file_path, M_uint64 n
 		return NULL;
 	}
 
-	/* Construct globbing pattern for extra log files. */
 	wdata->log_file_name = M_fs_path_basename(wdata->log_file_path, M_FS_SYSTEM_AUTO);
-	buf = M_buf_create();
-	M_buf_add_str(buf, wdata->log_file_name);
-	M_buf_add_str(buf, ".*");
-	if (!M_str_isempty(archive_file_ext)) {
-		M_buf_add_str(buf, archive_file_ext);
-	}
-	wdata->log_file_pattern = M_strdup(M_buf_peek(buf));
-	M_buf_cancel(buf);
 
 	/* Set other parameters. */
 	wdata->log_file_dir     = M_fs_path_dirname(wdata->log_file_path, M_FS_SYSTEM_AUTO);
-- 
2.43.0


From 87ea6575029864ea473fcd12e213d5e241872078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 060/104] fix: M_log_module_add_file leaked its data when the
 file cannot be opened

---
 log/m_log_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/log/m_log_file.c b/log/m_log_file.c
index 9461848..9d472fb 100644
--- a/log/m_log_file.c
+++ b/log/m_log_file.c
@@ -689,6 +689,7 @@ M_log_error_t M_log_module_add_file(M_log_t *log, const char *log_file_path, siz
 
 	if (open_head_logfile(writer_thunk, M_FALSE) != M_FS_ERROR_SUCCESS) {
 		/* This early open allows most I/O errors to be caught before logging starts. */
+		writer_thunk_destroy(writer_thunk);
 		return M_LOG_UNREACHABLE;
 	}
 
-- 
2.43.0


From 61f096b54101124484513bd1c1880a04885e7708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 061/104] fix: adding a log module must fail when its thread
 cannot be started

---
 log/m_log_file.c   | 10 +++++++---
 log/m_log_stream.c | 10 +++++++---
 log/m_log_syslog.c | 14 +++++++++-----
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/log/m_log_file.c b/log/m_log_file.c
index 9d472fb..213ec3f 100644
--- a/log/m_log_file.c
+++ b/log/m_log_file.c
@@ -709,13 +709,17 @@ M_log_error_t M_log_module_add_file(M_log_t *log, const char *log_file_path, siz
 	mod->destroy_module_thunk_cb          = log_destroy_cb;
 	mod->destroy_module_thunk_blocking_cb = log_destroy_blocking_cb;
 
+	/* Start the internal writer's worker thread. */
+	if (!M_async_writer_start(writer)) {
+		M_async_writer_destroy(writer, M_FALSE);
+		M_free(mod);
+		return M_LOG_GENERIC_FAIL;
+	}
+
 	if (out_mod != NULL) {
 		*out_mod = mod;
 	}
 
-	/* Start the internal writer's worker thread. */
-	M_async_writer_start(mod->module_thunk);
-
 	/* Add the module to the log. */
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 	M_llist_insert(log->modules, mod);
diff --git a/log/m_log_stream.c b/log/m_log_stream.c
index 8855190..da72f2e 100644
--- a/log/m_log_stream.c
+++ b/log/m_log_stream.c
@@ -193,13 +193,17 @@ M_log_error_t M_log_module_add_stream(M_log_t *log, M_stream_type_t type, size_t
 	mod->destroy_module_thunk_cb          = log_destroy_cb;
 	mod->destroy_module_thunk_blocking_cb = log_destroy_blocking_cb;
 
+	/* Start the internal writer's worker thread. */
+	if (!M_async_writer_start(mod->module_thunk)) {
+		M_async_writer_destroy(mod->module_thunk, M_FALSE);
+		M_free(mod);
+		return M_LOG_GENERIC_FAIL;
+	}
+
 	if (out_mod != NULL) {
 		*out_mod = mod;
 	}
 
-	/* Start the internal writer's worker thread. */
-	M_async_writer_start(mod->module_thunk);
-
 	/* Add the module to the log. */
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 	M_llist_insert(log->modules, mod);
diff --git a/log/m_log_syslog.c b/log/m_log_syslog.c
index 563f5d1..151f52c 100644
--- a/log/m_log_syslog.c
+++ b/log/m_log_syslog.c
@@ -370,15 +370,19 @@ M_log_error_t M_log_module_add_syslog(M_log_t *log, const char *product, M_syslo
 	mod->destroy_module_thunk_cb          = log_destroy_cb;
 	mod->destroy_module_thunk_blocking_cb = log_destroy_blocking_cb;
 
-	if (out_mod != NULL) {
-		*out_mod = mod;
-	}
-
 	/* Initialize the module. */
 	open_syslog(wdata);
 
 	/* Start the internal writer's worker thread. */
-	M_async_writer_start(mdata->writer);
+	if (!M_async_writer_start(mdata->writer)) {
+		log_destroy_cb(mdata, M_FALSE);
+		M_free(mod);
+		return M_LOG_GENERIC_FAIL;
+	}
+
+	if (out_mod != NULL) {
+		*out_mod = mod;
+	}
 
 	/* Add the module to the log. */
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
-- 
2.43.0


From 62b269f18cf3bea8f69d1f6ba19aa550858320e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 062/104] fix: log module functions must check that the module
 is present before using it

---
 log/m_log_file.c       | 11 ++++++-----
 log/m_log_syslog.c     | 11 ++++++-----
 log/m_log_tcp_syslog.c | 33 ++++++++++++++++++---------------
 3 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/log/m_log_file.c b/log/m_log_file.c
index 213ec3f..ee5b661 100644
--- a/log/m_log_file.c
+++ b/log/m_log_file.c
@@ -733,14 +733,10 @@ M_log_error_t M_log_module_file_rotate(M_log_t *log, M_log_module_t *module)
 {
 	M_async_writer_t *writer;
 
-	if (log == NULL || module == NULL || module->module_thunk == NULL) {
+	if (log == NULL || module == NULL) {
 		return M_LOG_INVALID_PARAMS;
 	}
 
-	if (module->type != M_LOG_MODULE_FILE) {
-		return M_LOG_WRONG_MODULE;
-	}
-
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_READ);
 
 	if (!module_present_locked(log, module)) {
@@ -748,6 +744,11 @@ M_log_error_t M_log_module_file_rotate(M_log_t *log, M_log_module_t *module)
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->type != M_LOG_MODULE_FILE) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_WRONG_MODULE;
+	}
+
 	writer = module->module_thunk;
 	M_async_writer_set_command(writer, M_LOG_CMD_FILE_ROTATE, M_TRUE);
 
diff --git a/log/m_log_syslog.c b/log/m_log_syslog.c
index 151f52c..7d4d41e 100644
--- a/log/m_log_syslog.c
+++ b/log/m_log_syslog.c
@@ -398,14 +398,10 @@ M_log_error_t M_log_module_syslog_set_tag_priority(M_log_t *log, M_log_module_t
 {
 	module_thunk_t *mdata;
 
-	if (log == NULL || module == NULL || module->module_thunk == NULL || tags == 0) {
+	if (log == NULL || module == NULL || tags == 0) {
 		return M_LOG_INVALID_PARAMS;
 	}
 
-	if (module->type != M_LOG_MODULE_SYSLOG) {
-		return M_LOG_WRONG_MODULE;
-	}
-
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 
 	if (!module_present_locked(log, module)) {
@@ -413,6 +409,11 @@ M_log_error_t M_log_module_syslog_set_tag_priority(M_log_t *log, M_log_module_t
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->type != M_LOG_MODULE_SYSLOG) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_WRONG_MODULE;
+	}
+
 	mdata = module->module_thunk;
 
 	while (tags != 0) {
diff --git a/log/m_log_tcp_syslog.c b/log/m_log_tcp_syslog.c
index c11d371..b04ec61 100644
--- a/log/m_log_tcp_syslog.c
+++ b/log/m_log_tcp_syslog.c
@@ -646,14 +646,10 @@ M_log_error_t M_log_module_tcp_syslog_set_connect_timeout_ms(M_log_t *log, M_log
 {
 	module_thunk_t *mdata;
 
-	if (log == NULL || module == NULL || module->module_thunk == NULL) {
+	if (log == NULL || module == NULL) {
 		return M_LOG_INVALID_PARAMS;
 	}
 
-	if (module->type != M_LOG_MODULE_TSYSLOG) {
-		return M_LOG_WRONG_MODULE;
-	}
-
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 
 	if (!module_present_locked(log, module)) {
@@ -661,6 +657,11 @@ M_log_error_t M_log_module_tcp_syslog_set_connect_timeout_ms(M_log_t *log, M_log
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->type != M_LOG_MODULE_TSYSLOG) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_WRONG_MODULE;
+	}
+
 	mdata = module->module_thunk;
 
 	if (!M_io_net_set_connect_timeout_ms(mdata->io, timeout_ms)) {
@@ -680,14 +681,10 @@ M_log_error_t M_log_module_tcp_syslog_set_keepalives(M_log_t *log, M_log_module_
 {
 	module_thunk_t *mdata;
 
-	if (log == NULL || module == NULL || module->module_thunk == NULL) {
+	if (log == NULL || module == NULL) {
 		return M_LOG_INVALID_PARAMS;
 	}
 
-	if (module->type != M_LOG_MODULE_TSYSLOG) {
-		return M_LOG_WRONG_MODULE;
-	}
-
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 
 	if (!module_present_locked(log, module)) {
@@ -695,6 +692,11 @@ M_log_error_t M_log_module_tcp_syslog_set_keepalives(M_log_t *log, M_log_module_
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->type != M_LOG_MODULE_TSYSLOG) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_WRONG_MODULE;
+	}
+
 	mdata = module->module_thunk;
 
 	if (!M_io_net_set_keepalives(mdata->io, idle_time_s, retry_time_s, retry_count)) {
@@ -715,14 +717,10 @@ M_log_error_t M_log_module_tcp_syslog_set_tag_priority(M_log_t *log, M_log_modul
 {
 	module_thunk_t *mdata;
 
-	if (log == NULL || module == NULL || module->module_thunk == NULL || tags == 0) {
+	if (log == NULL || module == NULL || tags == 0) {
 		return M_LOG_INVALID_PARAMS;
 	}
 
-	if (module->type != M_LOG_MODULE_TSYSLOG) {
-		return M_LOG_WRONG_MODULE;
-	}
-
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 
 	if (!module_present_locked(log, module)) {
@@ -730,6 +728,11 @@ M_log_error_t M_log_module_tcp_syslog_set_tag_priority(M_log_t *log, M_log_modul
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->type != M_LOG_MODULE_TSYSLOG) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_WRONG_MODULE;
+	}
+
 	mdata = module->module_thunk;
 
 	while (tags != 0) {
-- 
2.43.0


From 0d6f642fffa3b800b488b68d137220c44cb2c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:55 +0000
Subject: [PATCH 063/104] fix: http simple: URLs with query or port, errors
 without response, bad redirects

---
 net/m_net_http_simple.c | 89 +++++++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 35 deletions(-)

diff --git a/net/m_net_http_simple.c b/net/m_net_http_simple.c
index 4bd131a..b1a635d 100644
--- a/net/m_net_http_simple.c
+++ b/net/m_net_http_simple.c
@@ -133,6 +133,9 @@ static void split_url(const char *url, char **host, M_uint16 *port, char **uri)
 	M_parser_t *parser;
 	M_uint64    port64;
 	M_uint16    myport;
+	char       *authority;
+	char       *rest;
+	char       *sep;
 
 	if (port == NULL)
 		port = &myport;
@@ -143,45 +146,44 @@ static void split_url(const char *url, char **host, M_uint16 *port, char **uri)
 	/* Kill off the prefix. */ 
 	M_parser_consume_str_until(parser, "://", M_TRUE);
 
-	/* Mark the start of the host. */
+	/* The host, and the port if there is one, end where the path, query
+	 * or fragment starts. Only there does a ':' start a port. */
 	M_parser_mark(parser);
+	M_parser_consume_not_charset(parser, (const unsigned char *)"/?#", 3);
+	authority = M_parser_read_strdup_mark(parser);
+	if (authority == NULL)
+		authority = M_strdup("");
 
-	if (M_parser_consume_str_until(parser, ":", M_FALSE) != 0) {
-		/* Having a ":" means we have a port so everything before is
-		 * the host. */
-		if (host != NULL) {
-			*host = M_parser_read_strdup_mark(parser);
-		}
-
-		/* kill the ":". */
-		M_parser_consume(parser, 1);
-
+	sep = M_str_chr(authority, ':');
+	if (sep != NULL) {
 		/* Read the port. */
-		if (M_parser_read_uint(parser, M_PARSER_INTEGER_ASCII, 0, 10, &port64)) {
+		if (M_str_to_uint64_ex(sep+1, M_str_len(sep+1), 10, &port64, NULL) == M_STR_INT_SUCCESS) {
 			*port = (M_uint16)port64;
 		}
-	} else if (M_parser_consume_str_until(parser, "/", M_FALSE) != 0) {
-		/* No port was specified try to find the start of the path. */
-		if (host != NULL) {
-			*host = M_parser_read_strdup_mark(parser);
-		}
-	} else {
-		/* No port and no / means all we have is the host. */
-		if (host != NULL) {
-			*host = M_parser_read_strdup(parser, M_parser_len(parser));
-		}
+		*sep = '\0';
 	}
 
+	if (host != NULL) {
+		*host = M_strdup(authority);
+	}
+	M_free(authority);
+
 	/* Get the uri. */
-	if (M_parser_len(parser) == 0) {
-		/* Nothing left, must be /. */
-		if (uri != NULL) {
-			*uri = M_strdup("/");
-		}
-	} else {
-		if (uri != NULL) {
-			*uri = M_parser_read_strdup(parser, M_parser_len(parser));
+	if (uri != NULL) {
+		rest = M_parser_read_strdup(parser, M_parser_len(parser));
+
+		/* Fragments are not sent to the server. */
+		sep = M_str_chr(rest, '#');
+		if (sep != NULL)
+			*sep = '\0';
+
+		if (M_str_isempty(rest) || *rest != '/') {
+			/* Nothing left or no path, must be /. */
+			M_asprintf(uri, "/%s", M_str_safe(rest));
+		} else {
+			*uri = M_strdup(rest);
 		}
+		M_free(rest);
 	}
 
 	if (*port == 0) {
@@ -204,7 +206,11 @@ static void call_done(M_net_http_simple_t *hs)
 	M_event_timer_stop(hs->timer_stall);
 	M_event_timer_stop(hs->timer_overall);
 
-	hs->done_cb(hs->neterr, hs->httperr, hs->simple, hs->error, hs->thunk);
+	/* There is only a response to look at when there was no error. For example,
+	 * a redirect that can't be followed isn't a response for the caller. */
+	hs->done_cb(hs->neterr, hs->httperr,
+		(hs->neterr == M_NET_ERROR_SUCCESS && hs->httperr == M_HTTP_ERROR_SUCCESS)?hs->simple:NULL,
+		hs->error, hs->thunk);
 
 	/* DO NOT USE hs after this point. Nothing can set
  	 * hs as a thunk argument for a cb to receive!!! */
@@ -371,7 +377,12 @@ static void handle_redirect(M_net_http_simple_t *hs)
 	}
 
 	if (!M_net_http_simple_send(hs, location, hs->thunk)) {
-		/* Send sets error. */
+		/* Send sets error except when the location isn't something it
+		 * can send to. */
+		if (hs->neterr == M_NET_ERROR_SUCCESS) {
+			hs->neterr = M_NET_ERROR_REDIRECT;
+			M_snprintf(hs->error, sizeof(hs->error), "Invalid redirect: Location not supported");
+		}
 		M_free(location);
 
 		call_done(hs);
@@ -595,9 +606,10 @@ void M_net_http_simple_set_tlsctx(M_net_http_simple_t *hs, M_tls_clientctx_t *ct
 {
 	if (hs == NULL)
 		return;
-	hs->ctx = ctx;
 	/* Make sure this doesn't go away while we're holding it. */
-	M_tls_clientctx_upref(hs->ctx);
+	M_tls_clientctx_upref(ctx);
+	M_tls_clientctx_destroy(hs->ctx);
+	hs->ctx = ctx;
 }
 
 void M_net_http_simple_set_iocreate(M_net_http_simple_t *hs, M_net_http_simple_iocreate_cb iocreate_cb)
@@ -660,6 +672,7 @@ M_bool M_net_http_simple_send(M_net_http_simple_t *hs, const char *url, void *th
 	char       *host;
 	char       *uri;
 	M_uint16    port;
+	M_bool      ret;
 
 	if (hs == NULL || M_str_isempty(url) || (!M_str_caseeq_start(url, "http://") && !M_str_caseeq_start(url, "https://")))
 		return M_FALSE;
@@ -686,12 +699,18 @@ M_bool M_net_http_simple_send(M_net_http_simple_t *hs, const char *url, void *th
 	} else {
 		request_url = uri;
 	}
-	M_http_simple_write_request_buf(hs->header_buf, hs->method,
+	ret = M_http_simple_write_request_buf(hs->header_buf, hs->method,
 		host, port, request_url,
 		hs->user_agent, hs->content_type, hs->headers,
 		NULL, hs->message_len, hs->charset);
 	M_free(host);
 	M_free(uri);
+	if (!ret) {
+		hs->neterr = M_NET_ERROR_INTERNAL;
+		M_snprintf(hs->error, sizeof(hs->error), "Failed to create request");
+		io_disconnect_and_destroy(hs);
+		return M_FALSE;
+	}
 
 	/* Start/reset our timers. */
 	timer_start_connect(hs);
-- 
2.43.0


From fe507865c7d710d2e5383ff3eca5344bcbc88473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:55 +0000
Subject: [PATCH 064/104] fix: net: the connection timer may be removed by two
 threads at once

---
 io/net/m_io_net.c    |  8 ++++++--
 io/net/m_io_netdns.c | 12 +++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index 128a186..2c18aeb 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -156,8 +156,10 @@ static void M_io_net_handle_close(M_io_t *comm, M_io_handle_t *handle)
 	handle->data.net.evhandle = M_EVENT_INVALID_HANDLE;
 	handle->data.net.sock     = M_EVENT_INVALID_SOCKET;
 	if (handle->timer) {
-		M_event_timer_remove(handle->timer);
+		/* Another thread may be doing the same */
+		M_event_timer_t *timer = handle->timer;
 		handle->timer = NULL;
+		M_event_timer_remove(timer);
 	}
 }
 
@@ -1239,8 +1241,10 @@ static void M_io_net_unregister_cb(M_io_layer_t *layer)
 	}
 
 	if (handle->timer != NULL) {
-		M_event_timer_remove(handle->timer);
+		/* Another thread may be doing the same */
+		M_event_timer_t *timer = handle->timer;
 		handle->timer = NULL;
+		M_event_timer_remove(timer);
 	}
 
 	/* Queued events are dropped */
diff --git a/io/net/m_io_netdns.c b/io/net/m_io_netdns.c
index 0ef604b..fefbe27 100644
--- a/io/net/m_io_netdns.c
+++ b/io/net/m_io_netdns.c
@@ -156,8 +156,10 @@ static void M_io_netdns_happyeyeballs_timer(M_io_layer_t *layer)
 
 	/* Destroy happyeyeballs timer */
 	if (handle->timer) {
-		M_event_timer_remove(handle->timer);
+		/* Another thread may be doing the same */
+		M_event_timer_t *timer = handle->timer;
 		handle->timer = NULL;
+		M_event_timer_remove(timer);
 	}
 
 	if (nextidx == 0)
@@ -228,8 +230,10 @@ static void M_io_netdns_handle_connect(M_io_layer_t *layer, M_io_t *realio)
 
 	/* Destroy any timer since we won't need it */
 	if (handle->timer != NULL) {
-		M_event_timer_remove(handle->timer);
+		/* Another thread may be doing the same */
+		M_event_timer_t *timer = handle->timer;
 		handle->timer = NULL;
+		M_event_timer_remove(timer);
 	}
 
 	/* Mark the connection as successful for happyeyeballs tracking then set our internal state and
@@ -497,8 +501,10 @@ static void M_io_netdns_unregister_cb(M_io_layer_t *layer)
 
 	/* Destroy any happy eyeballs timer objects */
 	if (handle->timer) {
-		M_event_timer_remove(handle->timer);
+		/* Another thread may be doing the same */
+		M_event_timer_t *timer = handle->timer;
 		handle->timer = NULL;
+		M_event_timer_remove(timer);
 	}
 
 	/* If connecting, remove all bound io objects from event handle */
-- 
2.43.0


From f25c7d8cec3041b04f81b3168a2fa0b41d084d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 065/104] fix: net: a connection that ended with unread data
 could fail to signal its end

---
 io/net/m_io_net.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index 2c18aeb..2abd212 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -649,6 +649,8 @@ static M_bool M_io_net_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 	 * going down.  Queued events are delivered in order. */
 	if (handle->state == M_IO_NET_STATE_CONNECTED && handle->data.net.read_queued) {
 		if (*type == M_EVENT_TYPE_DISCONNECTED || *type == M_EVENT_TYPE_ERROR) {
+			/* The read event may have been dropped by a failed write, so don't rely on it to ever be delivered */
+			handle->data.net.read_queued = M_FALSE;
 			M_io_layer_softevent_add(layer, M_FALSE, *type, M_IO_ERROR_SUCCESS);
 			return M_TRUE;
 		}
-- 
2.43.0


From 3c1907c1b0b21244aad52e962210e6eb13606078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 066/104] fix: event: a connection that was reset must not be
 signalled as an orderly disconnect

---
 io/m_event_epoll.c | 5 +++--
 io/m_event_poll.c  | 5 +++--
 io/net/m_io_net.c  | 4 ++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/io/m_event_epoll.c b/io/m_event_epoll.c
index 8de193b..460c675 100644
--- a/io/m_event_epoll.c
+++ b/io/m_event_epoll.c
@@ -156,12 +156,13 @@ static void M_event_impl_epoll_process(M_event_t *event)
 			M_event_deliver_io(event, member->io, M_EVENT_TYPE_READ);
 		}
 
-		/* Disconnect */
+		/* Disconnect.  A failed connection is also signalled as being hung up, that must not be
+		 * delivered as if it had ended in an orderly manner, the error says it all. */
 		if (event->u.loop.impl_data->events[i].events & (EPOLLHUP
 #ifdef EPOLLRDHUP
 		    | EPOLLRDHUP
 #endif
-		    )) {
+		    ) && !(event->u.loop.impl_data->events[i].events & EPOLLERR)) {
 			/* NOTE: always deliver READ event first on a disconnect to make sure any
 			 *       possible pending data is flushed. */
 			if (member->waittype & M_EVENT_WAIT_READ) {
diff --git a/io/m_event_poll.c b/io/m_event_poll.c
index 7617b6a..418d1ac 100644
--- a/io/m_event_poll.c
+++ b/io/m_event_poll.c
@@ -163,12 +163,13 @@ static void M_event_impl_poll_process(M_event_t *event)
 				M_event_deliver_io(event, member->io, M_EVENT_TYPE_ERROR);
 			}
 
-			/* Disconnect */
+			/* Disconnect.  A failed connection is also signalled as being hung up, that must not be
+			 * delivered as if it had ended in an orderly manner, the error says it all. */
 			if (event->u.loop.impl_data->fds[i].revents & (POLLHUP
 #ifdef POLLRDHUP
 			      | POLLRDHUP
 #endif
-			    )) {
+			    ) && !(event->u.loop.impl_data->fds[i].revents & (POLLERR|POLLNVAL))) {
 				stop_writing = M_TRUE;
 
 				/* NOTE: always deliver READ event first on a disconnect to make sure any
diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index 2abd212..52cbd31 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -568,6 +568,10 @@ static M_bool M_io_net_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 		M_event_handle_modify(event, M_EVENT_MODTYPE_DEL_WAITTYPE, comm, handle->data.net.evhandle, handle->data.net.sock, M_EVENT_WAIT_READ, 0);
 		M_event_handle_modify(event, M_EVENT_MODTYPE_DEL_WAITTYPE, comm, handle->data.net.evhandle, handle->data.net.sock, M_EVENT_WAIT_WRITE, 0);
 		if (*type == M_EVENT_TYPE_DISCONNECTED || *type == M_EVENT_TYPE_ERROR) {
+			/* The OS signals a failed connection as being hung up, too.  That must not make it
+			 * look like it ended in an orderly manner. */
+			if (handle->state == M_IO_NET_STATE_ERROR)
+				*type = M_EVENT_TYPE_ERROR;
 			return M_FALSE;
 		}
 		return M_TRUE;
-- 
2.43.0


From d2d78a620bf10949ef78cdb947d17137d0060dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 067/104] fix: netdns: the connection error was lost when a
 read was performed afterwards

---
 io/m_event.c          | 4 ++--
 io/net/m_io_net_int.h | 1 +
 io/net/m_io_netdns.c  | 6 +++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/io/m_event.c b/io/m_event.c
index dee95d5..b70b1c1 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -302,8 +302,8 @@ void M_io_set_error(M_io_t *io, M_io_error_t err)
 	if (io == NULL)
 		return;
 
-	/* Save first error, or replace with more specific error than ERROR */
-	if (err != M_IO_ERROR_SUCCESS && (io->last_error == M_IO_ERROR_SUCCESS || io->last_error == M_IO_ERROR_ERROR))
+	/* Save first error, or replace with more specific error than ERROR.  Having been told to try again later isn't one. */
+	if (err != M_IO_ERROR_SUCCESS && (io->last_error == M_IO_ERROR_SUCCESS || io->last_error == M_IO_ERROR_WOULDBLOCK || io->last_error == M_IO_ERROR_ERROR))
 		io->last_error = err;
 }
 
diff --git a/io/net/m_io_net_int.h b/io/net/m_io_net_int.h
index 55029e6..7c03e78 100644
--- a/io/net/m_io_net_int.h
+++ b/io/net/m_io_net_int.h
@@ -74,6 +74,7 @@ struct M_io_handle_netdns {
 	size_t               io_try_idx;     /*!< Last index used to start a connection                          */
 	M_io_t              *io;             /*!< Pointer to either IPv6 or IPv4 IO handle, whichever was chosen */
 	char                 error[256];     /*!< Error message if we generated it (most likely DNS)             */
+	M_io_error_t         relayed_error;  /*!< Error of the IO handle last relayed to the layers above         */
 	M_timeval_t          query_start;    /*!< When query was initiated                                       */
 	M_uint64             query_time;     /*!< Time DNS query took                                            */
 	M_timeval_t          connect_start;  /*!< Time connection start was attempted                            */
diff --git a/io/net/m_io_netdns.c b/io/net/m_io_netdns.c
index fefbe27..c102cd6 100644
--- a/io/net/m_io_netdns.c
+++ b/io/net/m_io_netdns.c
@@ -116,6 +116,8 @@ static M_bool M_io_netdns_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 	if (*type == M_EVENT_TYPE_ERROR) {
 		handle->state       = M_IO_NET_STATE_ERROR;
 		handle->notify_down = M_TRUE;
+		/* A read or write performed since the error was relayed has replaced it */
+		M_io_set_error(M_io_layer_get_io(layer), handle->data.netdns.relayed_error);
 	}
 
 	return M_FALSE;
@@ -333,7 +335,8 @@ static void M_io_netdns_realio_cb(M_event_t *event, M_event_type_t type, M_io_t
 				/* Relay to self, we won't change our own state until we receive it from
 				 * M_io_netdns_process_cb() as it will properly re-order events to make
 				 * sure a read event is delivered first so a user can read */
-				M_io_layer_softevent_add(layer, M_FALSE /* Self */, M_EVENT_TYPE_ERROR, M_io_get_error(realio));
+				handle->data.netdns.relayed_error = M_io_get_error(realio);
+				M_io_layer_softevent_add(layer, M_FALSE /* Self */, M_EVENT_TYPE_ERROR, handle->data.netdns.relayed_error);
 			}
 			break;
 
@@ -559,6 +562,7 @@ static M_bool M_io_netdns_reset_cb(M_io_layer_t *layer)
 	M_mem_set(&handle->data.netdns.connect_start, 0, sizeof(handle->data.netdns.connect_start));
 	handle->data.netdns.connect_time  = 0;
 	*(handle->data.netdns.error)      = '\0';
+	handle->data.netdns.relayed_error = M_IO_ERROR_SUCCESS;
 	return M_TRUE;
 }
 
-- 
2.43.0


From d25cc63fe3b3f4c774f47395fb374188b1cf56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 068/104] fix: event: callbacks of io layers could use a layer
 destroyed by another thread

---
 io/m_event.c         | 20 +++++++++++++++++++-
 io/m_event_int.h     |  3 +++
 io/m_io_loopback.c   |  4 ++--
 io/net/m_io_netdns.c |  6 +++---
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/io/m_event.c b/io/m_event.c
index b70b1c1..ede5171 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -647,7 +647,7 @@ M_event_t *M_event_distribute(M_event_t *event)
 }
 
 
-M_bool M_event_add(M_event_t *event, M_io_t *comm, M_event_callback_t callback, void *cb_data)
+static M_bool M_event_add_io(M_event_t *event, M_io_t *comm, M_event_callback_t callback, void *cb_data, M_bool internal)
 {
 	size_t                  i;
 	size_t                  num;
@@ -679,6 +679,7 @@ M_bool M_event_add(M_event_t *event, M_io_t *comm, M_event_callback_t callback,
 	ioev            = M_malloc_zero(sizeof(*ioev));
 	ioev->callback  = callback;
 	ioev->cb_data   = cb_data;
+	ioev->internal  = internal;
 	M_hashtable_insert(event->u.loop.reg_ios, comm, ioev);
 
 	num = M_list_len(comm->layer);
@@ -703,6 +704,18 @@ M_bool M_event_add(M_event_t *event, M_io_t *comm, M_event_callback_t callback,
 }
 
 
+M_bool M_event_add(M_event_t *event, M_io_t *comm, M_event_callback_t callback, void *cb_data)
+{
+	return M_event_add_io(event, comm, callback, cb_data, M_FALSE);
+}
+
+
+M_bool M_event_add_internal(M_event_t *event, M_io_t *comm, M_event_callback_t callback, void *cb_data)
+{
+	return M_event_add_io(event, comm, callback, cb_data, M_TRUE);
+}
+
+
 M_bool M_event_edit_io_cb(M_io_t *io, M_event_callback_t callback, void *cb_data)
 {
 	M_event_t     *event = NULL;
@@ -939,6 +952,11 @@ static void M_event_deliver(M_event_t *event, M_io_t *io, size_t layer_id, M_eve
 	if (callback == NULL)
 		return;
 
+	if (ioev->internal) {
+		callback(event, type, io, cb_data);
+		return;
+	}
+
 	/* Release locks before calling user callbacks */
 	M_event_unlock(event);
 //M_printf("%s(): user deliver io %p handle %d type %d - cb %p, %p\n", __FUNCTION__, io, handle, (int)type, callback, cb_data);
diff --git a/io/m_event_int.h b/io/m_event_int.h
index bac4785..950ba86 100644
--- a/io/m_event_int.h
+++ b/io/m_event_int.h
@@ -80,6 +80,8 @@ struct M_event_io {
 	M_event_callback_t callback;       /*!< User-supplied callback                                       */
 	void              *cb_data;        /*!< Data to pass to user-supplied callback                       */
 	M_llist_node_t    *softevent_node; /*!< Reference to the node in the soft event list for this M_io_t */
+	M_bool              internal;       /*!< Callback belongs to an io layer, it is called with the event loop locked, as
+	                                         otherwise another thread could destroy the layer meanwhile           */
 };
 typedef struct M_event_io M_event_io_t;
 
@@ -90,6 +92,7 @@ struct M_event_trigger {
 M_uint64 M_event_timer_minimum_ms(M_event_t *event);
 void M_event_timer_process(M_event_t *event);
 void M_event_deliver_io(M_event_t *event, M_io_t *io, M_event_type_t type);
+M_bool M_event_add_internal(M_event_t *event, M_io_t *comm, M_event_callback_t callback, void *cb_data);
 void M_io_softevent_add(M_io_t *io, size_t layer_id, M_event_type_t type, M_io_error_t err);
 
 
diff --git a/io/m_io_loopback.c b/io/m_io_loopback.c
index 73811fc..c4d525a 100644
--- a/io/m_io_loopback.c
+++ b/io/m_io_loopback.c
@@ -89,10 +89,10 @@ static M_bool M_io_loopback_init_cb(M_io_layer_t *layer)
 		return M_FALSE;
 
 	/* Register each end of the pipe */
-	if (!M_event_add(event, handle->reader, M_io_loopback_handle_event, layer))
+	if (!M_event_add_internal(event, handle->reader, M_io_loopback_handle_event, layer))
 		return M_FALSE;
 
-	if (!M_event_add(event, handle->writer, M_io_loopback_handle_event, layer))
+	if (!M_event_add_internal(event, handle->writer, M_io_loopback_handle_event, layer))
 		return M_FALSE;
 
 	return M_TRUE;
diff --git a/io/net/m_io_netdns.c b/io/net/m_io_netdns.c
index c102cd6..056c36d 100644
--- a/io/net/m_io_netdns.c
+++ b/io/net/m_io_netdns.c
@@ -181,7 +181,7 @@ static M_bool M_io_netdns_next_io_start(M_io_layer_t *layer)
 
 	if (nextidx != 0) {
 		handle->data.netdns.io_try_idx = nextidx;
-		M_event_add(event, handle->data.netdns.io_try[nextidx], M_io_netdns_realio_cb, io);
+		M_event_add_internal(event, handle->data.netdns.io_try[nextidx], M_io_netdns_realio_cb, io);
 		rv = M_TRUE;
 	}
 
@@ -371,7 +371,7 @@ static M_bool M_io_netdns_init_connect(M_io_layer_t *layer)
 	handle->state = M_IO_NET_STATE_CONNECTING;
 	M_time_elapsed_start(&handle->data.netdns.connect_start);
 
-	M_event_add(event, handle->data.netdns.io_try[first_idx], M_io_netdns_realio_cb, io);
+	M_event_add_internal(event, handle->data.netdns.io_try[first_idx], M_io_netdns_realio_cb, io);
 	handle->data.netdns.io_try_idx = first_idx;
 	M_io_netdns_happyeyeballs_timer(layer);
 
@@ -460,7 +460,7 @@ static M_bool M_io_netdns_init_cb(M_io_layer_t *layer)
 			/* Fallthrough */
 		case M_IO_NET_STATE_DISCONNECTING:
 			/* Re-bind io event handle */
-			M_event_add(event, handle->data.netdns.io, M_io_netdns_realio_cb, io);
+			M_event_add_internal(event, handle->data.netdns.io, M_io_netdns_realio_cb, io);
 			break;
 		case M_IO_NET_STATE_DISCONNECTED:
 			/* Connection went down before being bound, the original notification may not have been delivered */
-- 
2.43.0


From 08d86db1edd4b1dcb87b78e24ce58f1b3ca537a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 069/104] fix: bwshaping: missing slots, busy loop, state lost
 on reset and accept

---
 io/m_io_bwshaping.c | 97 +++++++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 43 deletions(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index fe92592..7be63d0 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -194,10 +194,15 @@ static void M_io_bwshaping_bwtrack_add(M_io_bwshaping_bwtrack_t *bwtrack, M_uint
 	M_io_bwshaping_slot_t *slot;
 
 	slot = M_io_bwshaping_slots_last(bwtrack);
-	if (slot == NULL || M_time_elapsed(&slot->tv) > frequency_ms) {
-		slot = M_io_bwshaping_slots_add(bwtrack);
-		M_time_elapsed_start(&slot->tv);
-		slot->bytes = 0;
+	/* Must match the condition for a slot no longer being counted by M_io_bwshaping_bwtrack_bytesinperiod() */
+	if (slot == NULL || M_time_elapsed(&slot->tv) >= frequency_ms) {
+		M_io_bwshaping_slot_t *newslot = M_io_bwshaping_slots_add(bwtrack);
+		/* If out of slots, keep counting in the last one */
+		if (newslot != NULL) {
+			slot        = newslot;
+			slot->bytes = 0;
+			M_time_elapsed_start(&slot->tv);
+		}
 	}
 	slot->bytes    += bytes;
 	bwtrack->bytes += bytes;
@@ -280,25 +285,30 @@ static M_uint64 M_io_bwshaping_bwtrack_next_ms(M_io_bwshaping_bwtrack_t *bwtrack
 		/* Time should be the time the oldest (first) slot falls off */
 		slot       = M_io_bwshaping_slots_first(bwtrack);
 		elapsed_ms = M_time_elapsed(&slot->tv);
-		next_ms    = (period_s * 1000) - elapsed_ms;
+		next_ms    = (period_s * 1000);
 	} else {
 		/* mode == TRICKLE */
 		/* This is the time between the frequency_ms and how much time has passed since the last
 		 * slot */
 		slot       = M_io_bwshaping_slots_last(bwtrack);
 		elapsed_ms = M_time_elapsed(&slot->tv);
-		next_ms    = frequency_ms - elapsed_ms;
+		next_ms    = frequency_ms;
 	}
 
-	return next_ms;
+	/* Time may have passed since determining the maximum size */
+	if (elapsed_ms >= next_ms)
+		return 0;
+
+	return next_ms - elapsed_ms;
 }
 
 
 static size_t M_io_bwshaping_bwtrack_size(M_io_handle_t *handle, M_io_bwshaping_direction_t direction)
 {
+	/* The period may not be a multiple of the frequency, and a slot may be added before the expired ones are removed */
 	if (direction == M_IO_BWSHAPING_DIRECTION_IN)
-		return (size_t)((handle->settings.in_period_s * 1000) / handle->settings.in_sample_frequency_ms) + 1;
-	return (size_t)((handle->settings.out_period_s * 1000) / handle->settings.out_sample_frequency_ms) + 1;
+		return (size_t)((handle->settings.in_period_s * 1000) / handle->settings.in_sample_frequency_ms) + 2;
+	return (size_t)((handle->settings.out_period_s * 1000) / handle->settings.out_sample_frequency_ms) + 2;
 }
 
 
@@ -313,11 +323,30 @@ static M_io_bwshaping_bwtrack_t *M_io_bwshaping_bwtrack_create(M_io_handle_t *ha
 
 static void M_io_bwshaping_bwtrack_destroy(M_io_bwshaping_bwtrack_t *bwtrack)
 {
+	if (bwtrack == NULL)
+		return;
 	M_io_bwshaping_slots_destroy(bwtrack);
 	M_free(bwtrack);
 }
 
 
+static void M_io_bwshaping_clear_state(M_io_handle_t *handle, M_io_bwshaping_direction_t direction)
+{
+	M_io_bwshaping_bwtrack_t *bwtrack;
+
+	if (direction == M_IO_BWSHAPING_DIRECTION_IN) {
+		bwtrack = handle->in_bw;
+		handle->in_bw->bytes = 0;
+	} else {
+		bwtrack = handle->out_bw;
+		handle->out_bw->bytes = 0;
+	}
+
+	M_io_bwshaping_slots_destroy(bwtrack);
+	M_io_bwshaping_slots_create(bwtrack, M_io_bwshaping_bwtrack_size(handle, direction));
+}
+
+
 static void M_io_bwshaping_add_transfer(M_io_handle_t *handle, M_uint64 bytes, M_io_bwshaping_direction_t direction)
 {
 	if (direction == M_IO_BWSHAPING_DIRECTION_IN) {
@@ -451,33 +480,26 @@ static void M_io_bwshaping_timer_cb(M_event_t *event, M_event_type_t type, M_io_
 	M_io_layer_t  *layer    = arg;
 	M_io_handle_t *handle   = M_io_layer_get_handle(layer);
 	M_uint64       to_ms;
-	size_t         num_wait = 0;
 	(void)event;
 	(void)type;
 	(void)io_bogus;
 
-
-	if (handle->in_waiting)
-		num_wait++;
-	if (handle->out_waiting)
-		num_wait++;
-
+	/* A direction is done waiting once it has been signalled, otherwise the timer would fire continuously if the
+	 * user doesn't act on it while still waiting on the other direction. */
 	to_ms = M_io_bwshaping_timeout_direction(handle, M_IO_BWSHAPING_DIRECTION_IN);
 	if (to_ms == 0) {
 		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
-		num_wait--;
+		handle->in_waiting = M_FALSE;
 	}
 
 	to_ms = M_io_bwshaping_timeout_direction(handle, M_IO_BWSHAPING_DIRECTION_OUT);
 	if (to_ms == 0 && !handle->is_disconnecting) {
 		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_WRITE, M_IO_ERROR_SUCCESS);
-		num_wait--;
+		handle->out_waiting = M_FALSE;
 	}
 
 	/* If still waiting, re-queue timer */
-	if (num_wait > 0) {
-		M_io_bwshaping_set_timeout(handle);
-	}
+	M_io_bwshaping_set_timeout(handle);
 }
 
 
@@ -520,6 +542,10 @@ static M_io_error_t M_io_bwshaping_accept_cb(M_io_t *io, M_io_layer_t *orig_laye
 	/* Copy settings */
 	M_mem_copy(&handle->settings, &orig_handle->settings, sizeof(handle->settings));
 
+	/* The amount of slots depends on the settings */
+	M_io_bwshaping_clear_state(handle, M_IO_BWSHAPING_DIRECTION_IN);
+	M_io_bwshaping_clear_state(handle, M_IO_BWSHAPING_DIRECTION_OUT);
+
 	M_io_layer_release(layer);
 	return M_IO_ERROR_SUCCESS;
 }
@@ -737,17 +763,17 @@ static M_bool M_io_bwshaping_reset_cb(M_io_layer_t *layer)
 	if (handle == NULL)
 		return M_FALSE;
 
-	M_mem_set(&handle->starttv, 0, sizeof(handle->starttv));
-	M_io_bwshaping_bwtrack_destroy(handle->in_bw);
-	handle->in_bw       = NULL;
+	M_time_elapsed_start(&handle->starttv);
+	M_io_bwshaping_clear_state(handle, M_IO_BWSHAPING_DIRECTION_IN);
+	handle->in_bytes    = 0;
 	M_mem_set(&handle->in_lasttv, 0, sizeof(handle->in_lasttv));
 	handle->in_waiting  = M_FALSE;
 	handle->in_fullread = M_FALSE;
-	M_io_bwshaping_bwtrack_destroy(handle->out_bw);
-	handle->out_bw      = NULL;
+	M_io_bwshaping_clear_state(handle, M_IO_BWSHAPING_DIRECTION_OUT);
 	M_mem_set(&handle->out_lasttv, 0, sizeof(handle->out_lasttv));
 	handle->out_bytes   = 0;
 	handle->out_waiting = M_FALSE;
+	handle->is_disconnecting = M_FALSE;
 	handle->is_down     = M_FALSE;
 	handle->down_queued = M_FALSE;
 
@@ -761,6 +787,8 @@ static void M_io_bwshaping_destroy_cb(M_io_layer_t *layer)
 	if (handle == NULL)
 		return;
 
+	M_io_bwshaping_bwtrack_destroy(handle->in_bw);
+	M_io_bwshaping_bwtrack_destroy(handle->out_bw);
 	M_free(handle);
 }
 
@@ -823,23 +851,6 @@ M_io_error_t M_io_add_bwshaping(M_io_t *io, size_t *layer_idx)
 }
 
 
-static void M_io_bwshaping_clear_state(M_io_handle_t *handle, M_io_bwshaping_direction_t direction)
-{
-	M_io_bwshaping_bwtrack_t *bwtrack;
-
-	if (direction == M_IO_BWSHAPING_DIRECTION_IN) {
-		bwtrack = handle->in_bw;
-		handle->in_bw->bytes = 0;
-	} else {
-		bwtrack = handle->out_bw;
-		handle->out_bw->bytes = 0;
-	}
-
-	M_io_bwshaping_slots_destroy(bwtrack);
-	M_io_bwshaping_slots_create(bwtrack, M_io_bwshaping_bwtrack_size(handle, direction));
-}
-
-
 M_bool M_io_bwshaping_set_throttle(M_io_t *io, size_t id, M_io_bwshaping_direction_t direction, M_uint64 Bps)
 {
 	M_io_layer_t  *layer;
-- 
2.43.0


From b4010cb587fa8a1bd93cb906bda83d3900c63d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 070/104] fix: bwshaping: lifting or changing limits while
 throttled stalled the connection

---
 io/m_io_bwshaping.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index 7be63d0..11b4ed2 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -396,11 +396,8 @@ static M_uint64 M_io_bwshaping_timeout_direction(M_io_handle_t *handle, M_io_bws
 	M_uint64 l_nextms;
 
 	if (direction == M_IO_BWSHAPING_DIRECTION_IN) {
-		/* Not configured, so don't use timeouts */
-		if (handle->settings.in_Bps == 0 && handle->settings.in_latency_ms == 0)
-			return M_TIMEOUT_INF;
-
-		/* Don't use a timer if we're not throttling */
+		/* Don't use a timer if we're not throttling.  If we were, and the limits have been lifted since, there's nothing
+		 * left to wait for. */
 		if (!handle->in_waiting)
 			return M_TIMEOUT_INF;
 
@@ -410,11 +407,8 @@ static M_uint64 M_io_bwshaping_timeout_direction(M_io_handle_t *handle, M_io_bws
 		if (handle->is_disconnecting)
 			return M_TIMEOUT_INF;
 
-		/* Not configured, so don't use timeouts */
-		if (handle->settings.out_Bps == 0 && handle->settings.out_latency_ms == 0)
-			return M_TIMEOUT_INF;
-
-		/* Don't use a timer if we're not throttling */
+		/* Don't use a timer if we're not throttling.  If we were, and the limits have been lifted since, there's nothing
+		 * left to wait for. */
 		if (!handle->out_waiting)
 			return M_TIMEOUT_INF;
 
@@ -869,6 +863,7 @@ M_bool M_io_bwshaping_set_throttle(M_io_t *io, size_t id, M_io_bwshaping_directi
 	}
 
 	M_io_bwshaping_clear_state(handle, direction);
+	M_io_bwshaping_set_timeout(handle);
 
 	M_io_layer_release(layer);
 	return M_TRUE;
@@ -893,6 +888,7 @@ M_bool M_io_bwshaping_set_throttle_mode(M_io_t *io, size_t id, M_io_bwshaping_di
 	}
 
 	M_io_bwshaping_clear_state(handle, direction);
+	M_io_bwshaping_set_timeout(handle);
 
 	M_io_layer_release(layer);
 	return M_TRUE;
@@ -921,6 +917,7 @@ M_bool M_io_bwshaping_set_throttle_period(M_io_t *io, size_t id, M_io_bwshaping_
 	}
 
 	M_io_bwshaping_clear_state(handle, direction);
+	M_io_bwshaping_set_timeout(handle);
 
 	M_io_layer_release(layer);
 	return M_TRUE;
@@ -945,6 +942,7 @@ M_bool M_io_bwshaping_set_latency(M_io_t *io, size_t id, M_io_bwshaping_directio
 		handle->settings.out_latency_ms          = latency_ms;
 		M_time_elapsed_start(&handle->out_lasttv);
 	}
+	M_io_bwshaping_set_timeout(handle);
 
 	M_io_layer_release(layer);
 	return M_TRUE;
-- 
2.43.0


From f9ec596d1e83b52cecbd04d82737dd5354bb9390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 071/104] fix: parser: consume_boundary missed a pattern
 starting within a partial match

---
 base/data/m_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index c523923..a0cd4a4 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -995,7 +995,7 @@ size_t M_parser_consume_boundary(M_parser_t *parser, const unsigned char *pat, s
 		found = &myfound;
 	*found = M_FALSE;
 
-	if (parser == NULL || pat == NULL || len == 0)
+	if (parser == NULL || pat == NULL || len == 0 || parser->data_len == 0)
 		return 0;
 
 	do {
@@ -1007,6 +1007,8 @@ size_t M_parser_consume_boundary(M_parser_t *parser, const unsigned char *pat, s
 				*found = M_TRUE;
 			}
 		} else {
+			/* What has matched so far might contain the start of the pattern */
+			i           -= j;
 			consumed_len = i;
 			j            = 0;
 		}
-- 
2.43.0


From 148773ed6dc24878fa2b22be93d39545b2008144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 072/104] fix: http reader: endless start, chunk and header
 lines were never refused

---
 formats/http/m_http_reader.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index fc77de6..ff56ee8 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -448,8 +448,12 @@ static M_http_error_t M_http_read_start_line(M_http_reader_t *httpr, M_parser_t
 
 	/* Check if we have a full line and pull it off. */
 	msg = M_parser_read_parser_until(parser, (const unsigned char *)"\r\n", 2, M_FALSE);
-	if (msg == NULL)
+	if (msg == NULL) {
+		/* Don't wait for the end of a line that's already too long (the last byte could be part of the line end). */
+		if (M_parser_len(parser) > MAX_START_LEN + 1)
+			return M_HTTP_ERROR_STARTLINE_LENGTH;
 		return M_HTTP_ERROR_SUCCESS;
+	}
 	/* Eat the \r\n */
 	M_parser_consume(parser, 2);
 
@@ -508,6 +512,9 @@ static M_http_error_t M_http_read_header(M_http_reader_t *httpr, M_parser_t *par
 		header = M_parser_read_parser_until(parser, (const unsigned char *)"\r\n", 2, M_FALSE);
 		/* Not enough data so nothing to do. */
 		if (M_parser_len(header) == 0) {
+			/* Don't wait for the end of a line that's already too long (the last byte could be part of the line end). */
+			if (httpr->header_len + M_parser_len(parser) > MAX_HEADERS_SIZE + 1)
+				res = M_HTTP_ERROR_HEADER_LENGTH;
 			break;
 		}
 		/* Eat the \r\n after the header. */
@@ -681,8 +688,12 @@ static M_http_error_t M_http_read_chunk_start(M_http_reader_t *httpr, M_parser_t
 
 	/* Check if we have a full line and pull it off. */
 	msg = M_parser_read_parser_until(parser, (const unsigned char *)"\r\n", 2, M_FALSE);
-	if (msg == NULL)
+	if (msg == NULL) {
+		/* Don't wait for the end of a line that's already too long (the last byte could be part of the line end). */
+		if (M_parser_len(parser) > MAX_START_LEN + 1)
+			return M_HTTP_ERROR_CHUNK_STARTLINE_LENGTH;
 		return M_HTTP_ERROR_SUCCESS;
+	}
 	/* Eat the \r\n */
 	M_parser_consume(parser, 2);
 
-- 
2.43.0


From fcc94e8d7d4c1871972aa2394500bbd63641ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 073/104] fix: http reader: header_full_func error ignored,
 boundary leaked

---
 formats/http/m_http_reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index ff56ee8..be8726d 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -299,6 +299,7 @@ static M_http_error_t M_http_read_header_validate_kv(M_http_reader_t *httpr, con
 			}
 			/* Mulipart boundaries are prefixed with -- to signify the start
 			 * of the given boundary. */
+			M_free(httpr->boundary);
 			M_asprintf(&httpr->boundary, "--%s", val);
 			httpr->boundary_len = M_str_len(httpr->boundary);
 		}
@@ -565,7 +566,10 @@ static M_http_error_t M_http_read_header(M_http_reader_t *httpr, M_parser_t *par
 		}
 
 		/* Record we saw this header. */
-		M_http_read_header_full_process(httpr, key, val);
+		res = M_http_read_header_full_process(httpr, key, val);
+		if (res != M_HTTP_ERROR_SUCCESS) {
+			break;
+		}
 
 		/* Empty value means we don't need to process it any further.
  		 * Just inform the header was seen without a value. */
-- 
2.43.0


From 784ee11ce00388d7fc674b1c5973ab784835f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 074/104] fix: http reader: chunk callbacks with wrong index or
 no data, recursion per chunk

---
 formats/http/m_http_reader.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index be8726d..a18be51 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -803,9 +803,12 @@ static M_http_error_t M_http_read_chunk_data(M_http_reader_t *httpr, M_parser_t
 	if (M_parser_len(parser) == 0)
 		return M_HTTP_ERROR_SUCCESS;
 
+	/* All data may have been read already with only the trailing \r\n missing. */
 	len = M_MIN(M_parser_len(parser), httpr->body_len-httpr->body_len_seen);
-	res = httpr->cbs.chunk_data_func(M_parser_peek(parser), len, httpr->part_idx, httpr->thunk);
-	if (res == M_HTTP_ERROR_SUCCESS) {
+	if (len != 0) {
+		res = httpr->cbs.chunk_data_func(M_parser_peek(parser), len, httpr->part_idx, httpr->thunk);
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
 		httpr->body_len_seen += len;
 		M_parser_consume(parser, len);
 	}
@@ -827,6 +830,7 @@ static M_http_error_t M_http_read_chunked(M_http_reader_t *httpr, M_parser_t *pa
 	M_http_error_t res       = M_HTTP_ERROR_SUCCESS;
 	M_bool         full_read = M_FALSE;
 
+next_chunk:
 	/* Read the start of the chunk. */
 	if (httpr->rstep == M_HTTP_READER_STEP_CHUNK_START) {
 		res = M_http_read_chunk_start(httpr, parser, &full_read);
@@ -856,13 +860,14 @@ static M_http_error_t M_http_read_chunked(M_http_reader_t *httpr, M_parser_t *pa
 		} else {
 			/* If this isn't the last chunk start reading the next one. */
 			httpr->rstep = M_HTTP_READER_STEP_CHUNK_START;
-			httpr->part_idx++;
 
 			res = httpr->cbs.chunk_data_done_func(httpr->part_idx, httpr->thunk);
 			if (res != M_HTTP_ERROR_SUCCESS)
 				goto done;
 
-			return M_http_read_chunked(httpr, parser);
+			httpr->part_idx++;
+
+			goto next_chunk;
 		}
 	}
 
-- 
2.43.0


From b5b158ee5f94a327937697cc92f9d20f2a557458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 075/104] fix: http reader: multipart messages depended on how
 the data was split

---
 formats/http/m_http_reader.c     | 217 +++++++++++++++++--------------
 formats/http/m_http_reader_int.h |   1 +
 2 files changed, 120 insertions(+), 98 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index a18be51..ccbfc8c 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -887,114 +887,128 @@ done:
 	return res;
 }
 
+/* Determine how much data there is before the next boundary. The \r\n before the
+ * boundary is not part of the data.
+ *
+ * consume_len is how much needs to be consumed to get to the boundary, or, when there
+ * isn't a boundary (yet) how much definitely isn't the start of one. */
+static M_http_error_t M_http_read_multipart_find_boundary(M_http_reader_t *httpr, M_parser_t *parser, size_t *data_len, size_t *consume_len, M_bool *found)
+{
+	const unsigned char *data;
+	size_t               left;
+	size_t               len;
+
+	if (httpr->boundary_len == 0)
+		return M_HTTP_ERROR_MULTIPART_NOBOUNDARY;
+
+	data = M_parser_peek(parser);
+	M_parser_mark(parser);
+	len  = M_parser_consume_boundary(parser, (const unsigned char *)httpr->boundary, httpr->boundary_len, M_FALSE, found);
+	left = M_parser_len(parser);
+	M_parser_mark_rewind(parser);
+
+	*data_len    = len;
+	*consume_len = len;
+
+	if (*found) {
+		/* The only time the \r\n isn't there is if there is no data. */
+		if (len == 0 && !httpr->have_mpdata)
+			return M_HTTP_ERROR_SUCCESS;
+		if (len < 2 || data[len-2] != '\r' || data[len-1] != '\n')
+			return M_HTTP_ERROR_MULTIPART_INVALID;
+		*data_len = len-2;
+		return M_HTTP_ERROR_SUCCESS;
+	}
+
+	/* What's at the end could be the \r\n before the boundary, which hasn't been received (in full) yet. */
+	if (len >= 2 && data[len-2] == '\r' && data[len-1] == '\n') {
+		*data_len = len-2;
+	} else if (len >= 1 && left == 0 && data[len-1] == '\r') {
+		*data_len = len-1;
+	}
+	*consume_len = *data_len;
+	return M_HTTP_ERROR_SUCCESS;
+}
+
 static M_http_error_t M_http_read_multipart_preamble(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
 {
-	M_http_error_t  res = M_HTTP_ERROR_SUCCESS;
-	M_bool          found;
-	size_t          data_len;
-	size_t          consume_len;
+	M_http_error_t  res         = M_HTTP_ERROR_SUCCESS;
+	M_bool          found       = M_FALSE;
+	size_t          data_len    = 0;
+	size_t          consume_len = 0;
 
 	*full_read = M_FALSE;
 	if (M_parser_len(parser) == 0)
 		return M_HTTP_ERROR_SUCCESS;
 
-	/* Pull off all data before the first boundary. */
-	M_parser_mark(parser);
-	data_len    = M_parser_consume_boundary(parser, (const unsigned char *)httpr->boundary, httpr->boundary_len, M_FALSE, &found);
-	consume_len = data_len;
-	if (found && M_parser_len(parser) >= httpr->boundary_len + 2) {
-		/* Eat the boundary. */
-		M_parser_consume(parser, M_str_len(httpr->boundary));
+	/* Find all data before the first boundary. */
+	res = M_http_read_multipart_find_boundary(httpr, parser, &data_len, &consume_len, &found);
+	if (res != M_HTTP_ERROR_SUCCESS)
+		return res;
+
+	if (found) {
+		/* Need to know what's following the boundary. */
+		if (M_parser_len(parser) < consume_len + httpr->boundary_len + 2)
+			return M_HTTP_ERROR_SUCCESS;
 
+		M_parser_mark(parser);
+		M_parser_consume(parser, consume_len + httpr->boundary_len);
 		if (M_parser_compare_str(parser, "--", 2, M_FALSE)) {
 			/* Check for an ending boundary to check which shouldn't be here. */
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_MISSING_DATA;
-		} else if (M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
-			/* End the line end. */
-			M_parser_consume(parser, 2);
-		} else {
+			res = M_HTTP_ERROR_MULTIPART_MISSING_DATA;
+		} else if (!M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
 			/* We have a boundary existing in data. */
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_INVALID;
+			res = M_HTTP_ERROR_MULTIPART_INVALID;
 		}
-
-		*full_read  = M_TRUE;
-		consume_len = M_parser_mark_len(parser);
-	}
-	M_parser_mark_rewind(parser);
-
-	/* The data before the boundary should end with a \r\n. The only time it
- 	 * doesn't is if there is no preamble. The \r\n is not part of the data. */
-	if (data_len == 1) {
-		M_parser_mark_rewind(parser);
-		return M_HTTP_ERROR_MULTIPART_INVALID;
-	} else if (data_len >= 2) {
-		M_parser_mark(parser);
-		M_parser_consume(parser, data_len-2);
-		if (!M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_INVALID;
-		}
-		data_len -= 2;
 		M_parser_mark_rewind(parser);
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
+
+		/* Eat the boundary and line end, too. */
+		consume_len += httpr->boundary_len + 2;
+		*full_read   = M_TRUE;
 	}
 
-	if (data_len != 0)
+	if (data_len != 0) {
 		res = httpr->cbs.multipart_preamble_func(M_parser_peek(parser), data_len, httpr->thunk);
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
+		httpr->have_mpdata = M_TRUE;
+	}
 
-	if (res == M_HTTP_ERROR_SUCCESS)
-		M_parser_consume(parser, consume_len);
-
+	M_parser_consume(parser, consume_len);
 	return res;
 }
 
 static M_http_error_t M_http_read_multipart_data(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
 {
-	size_t         consume_len;
-	size_t         data_len;
-	M_http_error_t res   = M_HTTP_ERROR_SUCCESS;
-	M_bool         found = M_FALSE;
+	M_http_error_t res         = M_HTTP_ERROR_SUCCESS;
+	M_bool         found       = M_FALSE;
+	size_t         data_len    = 0;
+	size_t         consume_len = 0;
 
 	*full_read = M_FALSE;
 	if (M_parser_len(parser) == 0)
 		return M_HTTP_ERROR_SUCCESS;
 
-	M_parser_mark(parser);
-	consume_len = M_parser_consume_boundary(parser, (unsigned char *)httpr->boundary, httpr->boundary_len, M_FALSE, &found);
-	data_len    = consume_len;
-	M_parser_mark_rewind(parser);
-
 	/* The data and boundary are separated by a \r\n which is not part of the data. */
-	if (data_len == 1) {
-		M_parser_mark_rewind(parser);
-		return M_HTTP_ERROR_MULTIPART_INVALID;
-	} else if (data_len >= 2) {
-		M_parser_mark(parser);
-		M_parser_consume(parser, data_len-2);
-		if (!M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_INVALID;
-		}
-		data_len -= 2;
-		M_parser_mark_rewind(parser);
-	}
+	res = M_http_read_multipart_find_boundary(httpr, parser, &data_len, &consume_len, &found);
+	if (res != M_HTTP_ERROR_SUCCESS)
+		return res;
 
 	if (data_len != 0) {
 		res = httpr->cbs.multipart_data_func(M_parser_peek(parser), data_len, httpr->part_idx, httpr->thunk);
-		if (res == M_HTTP_ERROR_SUCCESS) {
-			httpr->have_part = M_TRUE;
-		}
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
+		httpr->have_part   = M_TRUE;
+		httpr->have_mpdata = M_TRUE;
 	}
 
-	if (res == M_HTTP_ERROR_SUCCESS) {
-		M_parser_consume(parser, consume_len);
-
-		if (found) {
-			/* Eat the boundary. */
-			M_parser_consume(parser, httpr->boundary_len);
-			*full_read = M_TRUE;
-		}
+	M_parser_consume(parser, consume_len);
+	if (found) {
+		/* Eat the boundary. */
+		M_parser_consume(parser, httpr->boundary_len);
+		*full_read = M_TRUE;
 	}
 	return res;
 }
@@ -1017,7 +1031,7 @@ static M_http_error_t M_http_read_multipart_check_end(M_http_reader_t *httpr, M_
 	return M_HTTP_ERROR_SUCCESS;
 }
 
-static M_http_error_t M_http_read_multipart_epilouge(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
+static M_http_error_t M_http_read_multipart_epilouge(M_http_reader_t *httpr, M_parser_t *parser, M_bool is_end, M_bool *full_read)
 {
 	M_http_error_t res = M_HTTP_ERROR_SUCCESS;
 
@@ -1036,12 +1050,17 @@ static M_http_error_t M_http_read_multipart_epilouge(M_http_reader_t *httpr, M_p
 
 	if (M_parser_len(parser) != 0) {
 		res = httpr->cbs.multipart_epilouge_func(M_parser_peek(parser), M_parser_len(parser), httpr->thunk);
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
 		M_parser_consume(parser, M_parser_len(parser));
 	}
 
 done:
-	if (httpr->have_body_len && httpr->body_len == httpr->body_len_seen)
+	/* There may be less than a line end. */
+	if (is_end) {
+		M_parser_consume(parser, M_parser_len(parser));
 		*full_read = M_TRUE;
+	}
 	return res;
 }
 
@@ -1050,26 +1069,16 @@ static M_http_error_t M_http_read_multipart(M_http_reader_t *httpr, M_parser_t *
 	M_parser_t     *mpparser;
 	M_http_error_t  res       = M_HTTP_ERROR_SUCCESS;
 	M_bool          full_read = M_FALSE;
-
-	if (httpr->have_body_len && httpr->body_len == httpr->body_len_seen) {
-		if (!httpr->have_part) {
-			return M_HTTP_ERROR_MULTIPART_MISSING;
-		} else if (!httpr->have_end) {
-			return M_HTTP_ERROR_MULTIPART_MISSING_DATA;
-		} else {
-			return M_HTTP_ERROR_SUCCESS;
-		}
-	}
-
-	/* Read the data we have left for this message. */
-	if (httpr->have_body_len) {
-		mpparser              = M_parser_read_parser(parser, M_MIN(M_parser_len(parser), httpr->body_len-httpr->body_len_seen));
-		httpr->body_len_seen += M_parser_len(mpparser);
-	} else {
-		mpparser              = M_parser_read_parser(parser, M_parser_len(parser));
+	M_bool          is_end    = M_FALSE;
+	size_t          len       = M_parser_len(parser);
+
+	/* Only look at the data that's part of this message. Anything that can't be processed yet stays
+	 * with the caller. */
+	if (httpr->have_body_len && len >= httpr->body_len-httpr->body_len_seen) {
+		len    = httpr->body_len-httpr->body_len_seen;
+		is_end = M_TRUE;
 	}
-	if (mpparser == NULL)
-		return M_HTTP_ERROR_SUCCESS;
+	mpparser = M_parser_create_const(M_parser_peek(parser), len, M_PARSER_FLAG_NONE);
 
 	if (httpr->rstep == M_HTTP_READER_STEP_MULTIPART_PREAMBLE) {
 		res = M_http_read_multipart_preamble(httpr, mpparser, &full_read);
@@ -1092,7 +1101,8 @@ header:
 		if (res != M_HTTP_ERROR_SUCCESS || !full_read)
 			goto done;
 
-		httpr->rstep = M_HTTP_READER_STEP_MULTIPART_DATA;
+		httpr->rstep       = M_HTTP_READER_STEP_MULTIPART_DATA;
+		httpr->have_mpdata = M_FALSE;
 		res = httpr->cbs.multipart_header_done_func(httpr->part_idx, httpr->thunk);
 		if (res != M_HTTP_ERROR_SUCCESS)
 			goto done;
@@ -1133,7 +1143,7 @@ header:
 	}
 
 	if (httpr->rstep == M_HTTP_READER_STEP_MULTIPART_EPILOUGE) {
-		res = M_http_read_multipart_epilouge(httpr, mpparser, &full_read);
+		res = M_http_read_multipart_epilouge(httpr, mpparser, is_end, &full_read);
 
 		if (res != M_HTTP_ERROR_SUCCESS || !full_read)
 			goto done;
@@ -1145,7 +1155,17 @@ header:
 	}
 
 done:
+	len                   -= M_parser_len(mpparser);
+	M_parser_consume(parser, len);
+	httpr->body_len_seen  += len;
 	M_parser_destroy(mpparser);
+
+	/* There won't be any more data. */
+	if (res == M_HTTP_ERROR_SUCCESS && is_end && httpr->rstep != M_HTTP_READER_STEP_DONE) {
+		if (!httpr->have_part)
+			return M_HTTP_ERROR_MULTIPART_MISSING;
+		return M_HTTP_ERROR_MULTIPART_MISSING_DATA;
+	}
 	return res;
 }
 
@@ -1283,6 +1303,7 @@ M_http_error_t M_http_reader_read(M_http_reader_t *httpr, const unsigned char *d
 	if (httpr->rstep == M_HTTP_READER_STEP_MULTIPART_PREAMBLE ||
 		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_HEADER   ||
 		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_DATA     ||
+		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_CHECK_END ||
 		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_EPILOUGE)
 	{
 		res = M_http_read_multipart(httpr, parser);
diff --git a/formats/http/m_http_reader_int.h b/formats/http/m_http_reader_int.h
index f6093d8..20f6c9d 100644
--- a/formats/http/m_http_reader_int.h
+++ b/formats/http/m_http_reader_int.h
@@ -62,6 +62,7 @@ struct M_http_reader {
 	M_bool                          have_end;
 	M_bool                          have_part;
 	M_bool                          have_epilouge;
+	M_bool                          have_mpdata;    /*!< Data of the current part (or preamble) has already been passed on. */
 	M_http_message_type_t           msg_type;
 };
 
-- 
2.43.0


From c7bb11c819cba1e753096f072fe7aacca393ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 076/104] fix: email: address list reading past parts, dangling
 group name, blank groups refused

---
 formats/email/m_email_common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index 30ba23f..dca4d2d 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -54,6 +54,7 @@ static M_email_error_t M_email_process_address_list(const char *group_name, char
 			continue;
 
 		/* More than one part means we have a split so part[0] is the name and part[1] is the email. */
+		part_idx = 0;
 		if (num_parts > 1) {
 			temp     = M_strdup_unquote(parts[0], '"', '\\');
 			name     = M_strdup_trim(temp);
@@ -68,7 +69,7 @@ static M_email_error_t M_email_process_address_list(const char *group_name, char
 			/* If we're not the only thing in the list we
 			 * split on <. We need to remove the closing >. */
 			len  = M_str_len(temp);
-			if (temp[len-1] == '>') {
+			if (len != 0 && temp[len-1] == '>') {
 				temp[len-1] = '\0';
 			}
 			address = M_strdup_trim(temp);
@@ -180,12 +181,14 @@ M_email_error_t M_email_process_address(const char *val, M_email_error_t (*addre
 		}
 
 		/* Split address within the group or address list. */
+		M_str_trim(group[address_idx]);
 		addresses = M_str_explode_str_quoted(',', group[address_idx], '"', '\\', 0, &num_addresses);
 		if (addresses == NULL || num_addresses == 0) {
 			/* Groups don't have to have addresses. */
 			if (group_name != NULL) {
 				res = address_func(group_name, NULL, NULL, thunk);
 				M_free(group_name);
+				group_name = NULL;
 				if (res != M_EMAIL_ERROR_SUCCESS) {
 					goto done;
 				}
-- 
2.43.0


From 050a33756d88a61c83b7f3a1a36df6c1aea8aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 077/104] fix: email reader: header_done_func error ignored,
 boundary leaked

---
 formats/email/m_email_reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/formats/email/m_email_reader.c b/formats/email/m_email_reader.c
index f2f45f0..3613049 100644
--- a/formats/email/m_email_reader.c
+++ b/formats/email/m_email_reader.c
@@ -242,6 +242,7 @@ static M_email_error_t M_email_header_process_content_type(M_email_reader_t *ema
 		return M_EMAIL_ERROR_SUCCESS;
 
 	emailr->data_format = M_EMAIL_DATA_FORMAT_MULTIPART;
+	M_free(emailr->boundary);
 	emailr->boundary = M_email_header_process_content_type_boundary(val, &emailr->boundary_len);
 
 	if (emailr->boundary == NULL)
@@ -390,8 +391,10 @@ end_of_header:
 		return M_STATE_MACHINE_STATUS_WAIT;
 
 	res = M_email_header_process_header_done(emailr, is_multipart);
-	if (res != M_EMAIL_ERROR_SUCCESS)
+	if (res != M_EMAIL_ERROR_SUCCESS) {
 		emailr->res = res;
+		return M_STATE_MACHINE_STATUS_ERROR_STATE;
+	}
 
 	return M_STATE_MACHINE_STATUS_NEXT;
 }
-- 
2.43.0


From 48a989c2c3570baad53bc9baa2c3b2d5272b5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 078/104] fix: email reader: multipart messages depended on how
 the data was split

---
 formats/email/m_email_reader.c | 205 ++++++++++++++++++++-------------
 1 file changed, 122 insertions(+), 83 deletions(-)

diff --git a/formats/email/m_email_reader.c b/formats/email/m_email_reader.c
index 3613049..df01d50 100644
--- a/formats/email/m_email_reader.c
+++ b/formats/email/m_email_reader.c
@@ -45,6 +45,9 @@ struct M_email_reader {
 	char                            *sub_boundary;
 	size_t                           sub_boundary_len;
 	M_bool                           is_sub_boundary_match;
+	M_bool                           is_sub_end;        /*!< The sub multipart ended, looking for the next boundary. */
+	M_bool                           have_preamble;     /*!< Part of the preamble was already passed along. */
+	M_bool                           have_epilouge;     /*!< The line end before the epilogue was handled. */
 	M_email_data_format_t            data_format;
 	size_t                           part_idx;
 	M_email_part_type_t              part_type;
@@ -453,63 +456,79 @@ static M_state_machine_status_t state_body(void *data, M_uint64 *next)
 	return M_STATE_MACHINE_STATUS_WAIT;
 }
 
+/* Determine how much data there is before the boundary, or, when there isn't a boundary (yet),
+ * before what could be the start of one. */
+static size_t M_email_reader_find_boundary(M_email_reader_t *emailr, const char *boundary, size_t boundary_len, M_bool *found)
+{
+	size_t len;
+
+	M_parser_mark(emailr->parser);
+	len = M_parser_consume_boundary(emailr->parser, (const unsigned char *)boundary, boundary_len, M_FALSE, found);
+	M_parser_mark_rewind(emailr->parser);
+	return len;
+}
+
+/* How much at the end of the data could be the line end that goes before a boundary. */
+static size_t M_email_reader_line_end_len(M_email_reader_t *emailr, size_t len)
+{
+	const unsigned char *data = M_parser_peek(emailr->parser);
+
+	if (len >= 2 && data[len-2] == '\r' && data[len-1] == '\n')
+		return 2;
+	if (len >= 1 && len == M_parser_len(emailr->parser) && data[len-1] == '\r')
+		return 1;
+	return 0;
+}
+
 static M_state_machine_status_t state_multipart_preamble(void *data, M_uint64 *next)
 {
 	M_email_reader_t *emailr    = data;
-	M_email_error_t   res;
+	M_email_error_t   res       = M_EMAIL_ERROR_SUCCESS;
 	size_t            consume_len;
 	size_t            data_len;
+	size_t            eol_len;
 	M_bool            found     = M_FALSE;
-	M_bool            full_read = M_FALSE;
 
 	(void)next;
 
 	if (M_parser_len(emailr->parser) == 0)
 		return M_STATE_MACHINE_STATUS_WAIT;
 
-	/* Pull off all data before the first boundary. */
-	M_parser_mark(emailr->parser);
-	data_len    = M_parser_consume_boundary(emailr->parser, (const unsigned char *)emailr->boundary, emailr->boundary_len, M_FALSE, &found);
-	consume_len = data_len;
-	if (found && M_parser_len(emailr->parser) >= emailr->boundary_len + 2) {
-		/* Eat the boundary. */
-		M_parser_consume(emailr->parser, emailr->boundary_len);
+	/* Find all data before the first boundary. */
+	consume_len = M_email_reader_find_boundary(emailr, emailr->boundary, emailr->boundary_len, &found);
+	eol_len     = M_email_reader_line_end_len(emailr, consume_len);
+	data_len    = consume_len - eol_len;
+
+	if (found) {
+		/* Need to know what's following the boundary. */
+		if (M_parser_len(emailr->parser) < consume_len + emailr->boundary_len + 2)
+			return M_STATE_MACHINE_STATUS_WAIT;
+
+		/* The data before the boundary should end with a \r\n. The only time it
+		 * doesn't is if there is no preamble. The \r\n is not part of the data. */
+		if (eol_len != 2 && (consume_len != 0 || emailr->have_preamble))
+			res = M_EMAIL_ERROR_MULTIPART_INVALID;
 
+		M_parser_mark(emailr->parser);
+		M_parser_consume(emailr->parser, consume_len + emailr->boundary_len);
 		if (M_parser_compare_str(emailr->parser, "--", 2, M_FALSE)) {
 			/* Check for an ending boundary to check which shouldn't be here. */
-			M_parser_mark_rewind(emailr->parser);
-			emailr->res = M_EMAIL_ERROR_MULTIPART_MISSING_DATA;
-			return M_STATE_MACHINE_STATUS_ERROR_STATE;
-		} else if (M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE)) {
-			/* End the line end. */
-			M_parser_consume(emailr->parser, 2);
-		} else {
+			res = M_EMAIL_ERROR_MULTIPART_MISSING_DATA;
+		} else if (!M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE)) {
 			/* We have a boundary existing in data. */
-			M_parser_mark_rewind(emailr->parser);
-			emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
-			return M_STATE_MACHINE_STATUS_ERROR_STATE;
+			res = M_EMAIL_ERROR_MULTIPART_INVALID;
 		}
-
-		full_read   = M_TRUE;
-		consume_len = M_parser_mark_len(emailr->parser);
-	}
-	M_parser_mark_rewind(emailr->parser);
-
-	/* The data before the boundary should end with a \r\n. The only time it
- 	 * doesn't is if there is no preamble. The \r\n is not part of the data. */
-	if (data_len == 1) {
 		M_parser_mark_rewind(emailr->parser);
-		emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
-		return M_STATE_MACHINE_STATUS_ERROR_STATE;
-	} else if (data_len >= 2) {
-		M_parser_mark(emailr->parser);
-		M_parser_consume(emailr->parser, data_len-2);
-		if (!M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE)) {
-			emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
+		if (res != M_EMAIL_ERROR_SUCCESS) {
+			emailr->res = res;
 			return M_STATE_MACHINE_STATUS_ERROR_STATE;
 		}
-		data_len -= 2;
-		M_parser_mark_rewind(emailr->parser);
+
+		/* Eat the boundary and line end. */
+		consume_len += emailr->boundary_len + 2;
+	} else {
+		/* The line end might belong to a boundary that wasn't received, yet. */
+		consume_len = data_len;
 	}
 
 	if (data_len != 0) {
@@ -518,10 +537,11 @@ static M_state_machine_status_t state_multipart_preamble(void *data, M_uint64 *n
 			emailr->res = res;
 			return M_STATE_MACHINE_STATUS_ERROR_STATE;
 		}
+		emailr->have_preamble = M_TRUE;
 	}
 	M_parser_consume(emailr->parser, consume_len);
 
-	if (full_read) {
+	if (found) {
 		res = emailr->cbs.multipart_preamble_done_func(emailr->thunk);
 		if (res != M_EMAIL_ERROR_SUCCESS) {
 			emailr->res = res;
@@ -552,38 +572,32 @@ static M_state_machine_status_t state_multipart_data(void *data, M_uint64 *next)
 	if (M_parser_len(emailr->parser) == 0)
 		return M_STATE_MACHINE_STATUS_WAIT;
 
-	/* Find all the data before the boundary. */
-	M_parser_mark(emailr->parser);
+	/* Find all the data before the boundary. Which could be one of two, in which case
+	 * the first one counts. If they're at the same place one starts with the other so
+	 * it's the longer one. */
 	emailr->is_sub_boundary_match = M_FALSE;
+	boundary_len                  = emailr->boundary_len;
+	consume_len                   = M_email_reader_find_boundary(emailr, emailr->boundary, boundary_len, &found);
 	if (emailr->sub_boundary != NULL) {
-		boundary_len = emailr->sub_boundary_len;
-		consume_len = M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->sub_boundary, boundary_len, M_FALSE, &found);
-		if (!found) {
-			M_parser_mark_rewind(emailr->parser);
-			M_parser_mark(emailr->parser);
-			boundary_len = emailr->boundary_len;
-			consume_len = M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->boundary, boundary_len, M_FALSE, &found);
-		} else {
+		M_bool sub_found       = M_FALSE;
+		size_t sub_consume_len = M_email_reader_find_boundary(emailr, emailr->sub_boundary, emailr->sub_boundary_len, &sub_found);
+
+		if (sub_consume_len < consume_len || (sub_consume_len == consume_len && emailr->sub_boundary_len > boundary_len)) {
+			found                         = sub_found;
+			consume_len                   = sub_consume_len;
+			boundary_len                  = emailr->sub_boundary_len;
 			emailr->is_sub_boundary_match = M_TRUE;
 		}
-	} else {
-		boundary_len = emailr->boundary_len;
-		consume_len = M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->boundary, boundary_len, M_FALSE, &found);
 	}
-	data_len    = consume_len;
-	M_parser_mark_rewind(emailr->parser);
 
 	/* The data and boundary are separated by a \r\n which is not part of the data.
 	 *
 	 * While we should treat a missing \r\n as an error, we're going to be lenient and allow it. */
-	if (consume_len >= 2) {
-		M_parser_mark(emailr->parser);
-		M_parser_consume(emailr->parser, consume_len-2);
-		if (M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE)) {
-			data_len -= 2;
-		}
-		M_parser_mark_rewind(emailr->parser);
-	}
+	data_len = consume_len - M_email_reader_line_end_len(emailr, consume_len);
+
+	/* The line end might belong to a boundary that wasn't received, yet. */
+	if (!found)
+		consume_len = data_len;
 
 	if (data_len != 0) {
 		res = emailr->cbs.multipart_data_func((const char *)M_parser_peek(emailr->parser), data_len, emailr->part_idx, emailr->thunk);
@@ -615,33 +629,44 @@ static M_state_machine_status_t state_multipart_check_end(void *data, M_uint64 *
 	M_email_reader_t *emailr = data;
 	M_email_error_t   res    = M_EMAIL_ERROR_SUCCESS;
 
-	if (M_parser_len(emailr->parser) < 2)
-		return M_STATE_MACHINE_STATUS_WAIT;
+	if (!emailr->is_sub_end) {
+		if (M_parser_len(emailr->parser) < 2)
+			return M_STATE_MACHINE_STATUS_WAIT;
 
-	if (emailr->is_sub_boundary_match && M_parser_compare_str(emailr->parser, "--", 2, M_FALSE)) {
-		M_bool found;
-		emailr->is_sub_boundary_match = M_FALSE;
-		M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->boundary, emailr->boundary_len, M_TRUE, &found);
-		if (!found) {
-			emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
-			return M_STATE_MACHINE_STATUS_ERROR_STATE;
+		if (emailr->is_sub_boundary_match && M_parser_compare_str(emailr->parser, "--", 2, M_FALSE)) {
+			M_parser_consume(emailr->parser, 2);
+			emailr->is_sub_boundary_match = M_FALSE;
+			emailr->is_sub_end            = M_TRUE;
 		}
 	}
 
+	if (emailr->is_sub_end) {
+		M_bool found = M_FALSE;
+
+		/* Skip everything up to the next boundary of what contains the sub multipart. */
+		M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->boundary, emailr->boundary_len, M_TRUE, &found);
+		if (!found)
+			return M_STATE_MACHINE_STATUS_WAIT;
+		emailr->is_sub_end = M_FALSE;
+	}
+
+	if (M_parser_len(emailr->parser) < 2)
+		return M_STATE_MACHINE_STATUS_WAIT;
+
 	if (M_parser_compare_str(emailr->parser, "--", 2, M_FALSE)) {
 		M_parser_consume(emailr->parser, 2);
+
+		res = emailr->cbs.multipart_data_finished_func(emailr->thunk);
+		if (res != M_EMAIL_ERROR_SUCCESS) {
+			emailr->res = res;
+			return M_STATE_MACHINE_STATUS_ERROR_STATE;
+		}
 		*next = STATE_MULTIPART_EPILOUGE;
-	} else if (!M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE)) {
-		emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
-		return M_STATE_MACHINE_STATUS_ERROR_STATE;
-	} else {
+	} else if (M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE)) {
+		M_parser_consume(emailr->parser, 2);
 		*next = STATE_MULTIPART_HEADER;
-	}
-	M_parser_consume(emailr->parser, 2);
-
-	res = emailr->cbs.multipart_data_finished_func(emailr->thunk);
-	if (res != M_EMAIL_ERROR_SUCCESS) {
-		emailr->res = res;
+	} else {
+		emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
 
@@ -654,11 +679,25 @@ static M_state_machine_status_t state_multipart_epilouge(void *data, M_uint64 *n
 
 	(void)next;
 
-	if (M_parser_len(emailr->parser) == 0) {
-		emailr->res = M_EMAIL_ERROR_SUCCESS;
-		return M_STATE_MACHINE_STATUS_NEXT;
+	/* The email is complete. More data is always possible. */
+	emailr->res = M_EMAIL_ERROR_SUCCESS;
+
+	/* A line end separates the epilogue from the last boundary and is not part of the epilogue. */
+	if (!emailr->have_epilouge) {
+		unsigned char byte = 0;
+
+		M_parser_peek_byte(emailr->parser, &byte);
+		if (M_parser_len(emailr->parser) == 0 || (M_parser_len(emailr->parser) == 1 && byte == '\r'))
+			return M_STATE_MACHINE_STATUS_WAIT;
+
+		if (M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE))
+			M_parser_consume(emailr->parser, 2);
+		emailr->have_epilouge = M_TRUE;
 	}
 
+	if (M_parser_len(emailr->parser) == 0)
+		return M_STATE_MACHINE_STATUS_WAIT;
+
 	emailr->res = emailr->cbs.multipart_epilouge_func((const char *)M_parser_peek(emailr->parser), M_parser_len(emailr->parser), emailr->thunk);
 	if (emailr->res == M_EMAIL_ERROR_SUCCESS)
 		M_parser_consume(emailr->parser, M_parser_len(emailr->parser));
-- 
2.43.0


From 5a385d8d4c619e27b09bbc76480eef52c750d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 079/104] fix: str: integer conversion read one byte past the
 length

---
 base/data/m_str_num.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index fec26e3..2b84a04 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -31,7 +31,7 @@ M_BEGIN_IGNORE_DEPRECATIONS
 
 static void eat_whitespace(const char **s, size_t *len)
 {
-	for (; M_chr_isspace(**s) && *len; (*s)++, (*len)--)
+	for (; *len && M_chr_isspace(**s); (*s)++, (*len)--)
 		;
 }
 
-- 
2.43.0


From cca6d636e9dca9d2e901ecbf198ac04f8a288daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 080/104] fix: str: integer conversion missed most overflows

---
 base/data/m_str_num.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index 2b84a04..46a0156 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -90,7 +90,7 @@ static M_str_int_retval_t M_str_to_uint64_int(const char *s, size_t len, unsigne
 			break;
 
 		v = ret * base + digit;
-		if (v < ret) {
+		if (ret > (M_UINT64_MAX - digit) / base) {
 			overflow = M_true;
 			/* Don't stop consuming valid characters
 			 * break; */
-- 
2.43.0


From 160b193ed46bbb926c5d64ad7e9407533abaa295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 081/104] fix: http: simple read flags were not bits

---
 include/mstdlib/formats/m_http.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mstdlib/formats/m_http.h b/include/mstdlib/formats/m_http.h
index c7c20f2..12d94e6 100644
--- a/include/mstdlib/formats/m_http.h
+++ b/include/mstdlib/formats/m_http.h
@@ -787,10 +787,10 @@ typedef struct M_http_simple_read M_http_simple_read_t;
 
 typedef enum {
 	M_HTTP_SIMPLE_READ_NONE = 0,
-	M_HTTP_SIMPLE_READ_NODECODE_BODY,  /*!< Do not attempt to decode the body data (from detected charset). */
-	M_HTTP_SIMPLE_READ_LEN_REQUIRED,   /*!< Require content-length, cannot be chunked data. */
-	M_HTTP_SIMPLE_READ_FAIL_EXTENSION, /*!< Fail if chunked extensions are specified. Otherwise, Ignore. */
-	M_HTTP_SIMPLE_READ_FAIL_TRAILERS   /*!< Fail if trailers sent. Otherwise, they are ignored. */
+	M_HTTP_SIMPLE_READ_NODECODE_BODY  = 1 << 0,  /*!< Do not attempt to decode the body data (from detected charset). */
+	M_HTTP_SIMPLE_READ_LEN_REQUIRED   = 1 << 1,  /*!< Require content-length, cannot be chunked data. */
+	M_HTTP_SIMPLE_READ_FAIL_EXTENSION = 1 << 2,  /*!< Fail if chunked extensions are specified. Otherwise, Ignore. */
+	M_HTTP_SIMPLE_READ_FAIL_TRAILERS  = 1 << 3   /*!< Fail if trailers sent. Otherwise, they are ignored. */
 } M_http_simple_read_flags_t;
 
 
-- 
2.43.0


From 5a644bd010d67f547b8380a9950505a4d2173092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:12 +0000
Subject: [PATCH 082/104] fix: tls: data and connected events after a failed
 negotiation

---
 tls/m_tls.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tls/m_tls.c b/tls/m_tls.c
index f79076a..5c1d56e 100644
--- a/tls/m_tls.c
+++ b/tls/m_tls.c
@@ -72,6 +72,7 @@ struct M_io_handle {
 	M_tls_state_t      state;
 	M_tls_stateflags_t state_flags;
 	M_bool             is_client;
+	M_bool             established; /*!< Negotiation completed successfully */
 	M_event_timer_t   *timer;
 	M_io_error_t       last_io_err;
 	M_timeval_t        negotiation_start;
@@ -455,6 +456,7 @@ static M_bool M_io_tls_process_state_connecting(M_io_layer_t *layer, M_event_typ
 				}
 //M_printf("SSL_connect() successful\n");
 				handle->state            = M_TLS_STATE_CONNECTED;
+				handle->established      = M_TRUE;
 				*type                    = M_EVENT_TYPE_CONNECTED;
 				M_event_timer_remove(handle->timer);
 				handle->timer            = NULL;
@@ -515,8 +517,9 @@ static M_bool M_io_tls_process_state_accepting(M_io_layer_t *layer, M_event_type
 			rv = SSL_accept(handle->ssl);
 			if (rv == 1) {
 //M_printf("SSL_accept(%p) successful\n", M_io_layer_get_io(layer));
-				handle->state = M_TLS_STATE_CONNECTED;
-				*type         = M_EVENT_TYPE_CONNECTED;
+				handle->state       = M_TLS_STATE_CONNECTED;
+				handle->established = M_TRUE;
+				*type               = M_EVENT_TYPE_CONNECTED;
 /* XXX: Verify peer */
 				M_event_timer_remove(handle->timer);
 				handle->timer            = NULL;
@@ -684,6 +687,11 @@ static M_bool M_io_tls_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 	if (!consumed && handle->state == M_TLS_STATE_SHUTDOWN) {
 		consumed = M_io_tls_process_state_shutdown(layer, type);
 	}
+
+	/* A connection that could not be negotiated can only signal its end */
+	if (!consumed && !handle->established && (*type == M_EVENT_TYPE_CONNECTED || *type == M_EVENT_TYPE_READ || *type == M_EVENT_TYPE_WRITE)) {
+		consumed = M_TRUE;
+	}
 //M_printf("%s(): exiting %p event %d state %d - consumed %d\n", __FUNCTION__, M_io_layer_get_io(layer), (int)*type, (int)handle->state, (int)consumed);
 	return consumed;
 }
@@ -1205,6 +1213,7 @@ static M_bool M_io_tls_reset_cb(M_io_layer_t *layer)
 	handle->timer            = NULL;
 	handle->state            = M_TLS_STATE_INIT;
 	handle->state_flags      = 0;
+	handle->established      = M_FALSE;
 	handle->last_io_err      = M_IO_ERROR_SUCCESS;
 	M_mem_set(&handle->negotiation_start, 0, sizeof(handle->negotiation_start));
 	handle->negotiation_time = 0;
-- 
2.43.0


From 948ec55ae4310db4be4534ba325aaa94acd25895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:12 +0000
Subject: [PATCH 083/104] fix: tls: errors left by another connection failed
 the next SSL_connect

---
 tls/m_tls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tls/m_tls.c b/tls/m_tls.c
index 5c1d56e..ff511f0 100644
--- a/tls/m_tls.c
+++ b/tls/m_tls.c
@@ -424,6 +424,7 @@ static M_bool M_io_tls_process_state_connecting(M_io_layer_t *layer, M_event_typ
 		case M_EVENT_TYPE_CONNECTED:
 		case M_EVENT_TYPE_READ:
 		case M_EVENT_TYPE_WRITE:
+			ERR_clear_error();
 			rv = SSL_connect(handle->ssl);
 			if (rv == 1) {
 				/* Verify peer */
-- 
2.43.0


From 6313f4f1c5f969db403995139b0bca8ff5a75aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:12 +0000
Subject: [PATCH 084/104] fix: tls: disabling session resumption did not
 disable tickets

---
 tls/m_tls_serverctx.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tls/m_tls_serverctx.c b/tls/m_tls_serverctx.c
index 899859e..503450e 100644
--- a/tls/m_tls_serverctx.c
+++ b/tls/m_tls_serverctx.c
@@ -197,8 +197,17 @@ static void M_tls_serverctx_set_session_support(SSL_CTX *sslctx, M_bool enable)
 {
 	if (enable) {
 		SSL_CTX_set_session_cache_mode(sslctx, SSL_SESS_CACHE_SERVER);
+		SSL_CTX_clear_options(sslctx, SSL_OP_NO_TICKET);
+#if OPENSSL_VERSION_NUMBER >= 0x1010100fL && !defined(LIBRESSL_VERSION_NUMBER)
+		SSL_CTX_set_num_tickets(sslctx, 2); /* OpenSSL's default */
+#endif
 	} else {
+		/* Sessions may also be resumed via tickets, which are not affected by the cache mode */
 		SSL_CTX_set_session_cache_mode(sslctx, SSL_SESS_CACHE_OFF);
+		SSL_CTX_set_options(sslctx, SSL_OP_NO_TICKET);
+#if OPENSSL_VERSION_NUMBER >= 0x1010100fL && !defined(LIBRESSL_VERSION_NUMBER)
+		SSL_CTX_set_num_tickets(sslctx, 0);
+#endif
 	}
 }
 
-- 
2.43.0


From 174c028b3fc53f095c2253ccf1184a736280de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:12 +0000
Subject: [PATCH 085/104] fix: tls: resumption failed when client certificates
 are required

---
 tls/m_tls_serverctx.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tls/m_tls_serverctx.c b/tls/m_tls_serverctx.c
index 503450e..d661f20 100644
--- a/tls/m_tls_serverctx.c
+++ b/tls/m_tls_serverctx.c
@@ -217,6 +217,8 @@ M_tls_serverctx_t *M_tls_serverctx_create(const unsigned char *key, size_t key_l
 	M_tls_serverctx_t *ctx;
 	SSL_CTX           *sslctx;
 	X509              *x509     = NULL;
+	unsigned char      sid[EVP_MAX_MD_SIZE];
+	unsigned int       sid_len  = 0;
 
 	M_tls_init(M_TLS_INIT_NORMAL);
 
@@ -229,6 +231,14 @@ M_tls_serverctx_t *M_tls_serverctx_create(const unsigned char *key, size_t key_l
 		return NULL;
 	}
 
+	/* Without a session id context OpenSSL refuses to resume any session when client certificates
+	 * are required, which fails the connection.  Sessions must not be usable with a different server
+	 * identity, so bind them to the certificate. */
+	if (!X509_digest(x509, EVP_sha256(), sid, &sid_len) || !SSL_CTX_set_session_id_context(sslctx, sid, sid_len)) {
+		SSL_CTX_free(sslctx);
+		return NULL;
+	}
+
 	ctx                         = M_malloc_zero(sizeof(*ctx));
 	ctx->ctx                    = sslctx;
 #if OPENSSL_VERSION_NUMBER < 0x1000200fL
-- 
2.43.0


From 50a27191b797192e32bf0abf59ebef0d6d63b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:42 +0000
Subject: [PATCH 086/104] fix: timers of io layers could run while another
 thread destroyed the layer

---
 include/mstdlib/io/m_io_layer.h |  9 +++++++++
 io/m_event_timer.c              | 18 ++++++++++++++++--
 io/m_io_bwshaping.c             |  1 +
 io/m_io_proxy_protocol.c        |  1 +
 io/net/m_dns.c                  |  1 +
 io/net/m_io_net.c               |  1 +
 io/net/m_io_netdns.c            |  1 +
 tls/m_tls.c                     |  2 ++
 8 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/mstdlib/io/m_io_layer.h b/include/mstdlib/io/m_io_layer.h
index 806c683..32e5226 100644
--- a/include/mstdlib/io/m_io_layer.h
+++ b/include/mstdlib/io/m_io_layer.h
@@ -1204,6 +1204,15 @@ M_API void M_io_layer_softevent_clear(M_io_layer_t *layer);
 /*! Add a soft-event.  If sibling_only is true, will only delete the soft event for the next layer up and not self. */
 M_API void M_io_layer_softevent_del(M_io_layer_t *layer, M_bool sibling_only, M_event_type_t type);
 
+/*! Mark a timer as belonging to an io layer.
+ *
+ * The callback of such a timer is called with the event loop locked, so it can not be called while
+ * another thread destroys the io object the layer is part of, and it isn't called any more once the
+ * layer removed the timer.  Should be called right after creating the timer from within a layer callback.
+ *
+ * \param[in] timer Timer created by the layer. */
+M_API void M_event_timer_set_internal(M_event_timer_t *timer);
+
 /*! Sets the internal error for the IO object.  Used within a process events callback if emitting an error */
 M_API void M_io_set_error(M_io_t *io, M_io_error_t err);
 
diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index a52a27a..e9d65eb 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -49,6 +49,7 @@ struct M_event_timer {
 	M_timeval_t          next_run;     /* Next run, based on M_time_elapse_start() */
 	M_timeval_t          last_run;     /* Last run time, to prevent starvation of other tasks */
 	M_bool               restarted;    /* Started during execution of its own callback, it is already scheduled */
+	M_bool               internal;     /* Callback belongs to an io layer, it is called with the event loop locked */
 	M_bool               executing;    /* If we are currently executing this timer's callback -- make sure we don't really destroy ourselves */
 };
 
@@ -141,6 +142,17 @@ M_event_timer_t *M_event_timer_add(M_event_t *event, M_event_callback_t callback
 }
 
 
+void M_event_timer_set_internal(M_event_timer_t *timer)
+{
+	if (timer == NULL || timer->event == NULL)
+		return;
+
+	M_event_lock(timer->event);
+	timer->internal = M_TRUE;
+	M_event_unlock(timer->event);
+}
+
+
 static void M_event_timer_remove_cb(M_event_t *event, M_event_type_t type, M_io_t *io, void *cb_arg);
 
 M_bool M_event_timer_remove(M_event_timer_t *timer)
@@ -560,12 +572,14 @@ void M_event_timer_process(M_event_t *event)
 			timer->executing = M_TRUE;
 
 			/* Unlock event lock since the callback may take some time */
-			M_event_unlock(event);
+			if (!timer->internal)
+				M_event_unlock(event);
 
 			timer->callback(event, M_EVENT_TYPE_OTHER, NULL, timer->cb_data);
 
 			/* Relock to possibly re-queue or loop */
-			M_event_lock(event);
+			if (!timer->internal)
+				M_event_lock(event);
 
 			timer->executing = M_FALSE;
 
diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index 11b4ed2..266f5f6 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -504,6 +504,7 @@ static M_bool M_io_bwshaping_init_cb(M_io_layer_t *layer)
 
 	/* Register timer */
 	handle->timer = M_event_timer_add(M_io_get_event(io), M_io_bwshaping_timer_cb, layer);
+	M_event_timer_set_internal(handle->timer);
 	M_event_timer_set_firecount(handle->timer, 1);
 
 	/* Start timer as appropriate */
diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 2240f46..0ddba10 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -889,6 +889,7 @@ static M_bool M_io_proxy_protocol_process_cb(M_io_layer_t *layer, M_event_type_t
 			handle->state = M_IO_STATE_CONNECTING;
 			if (handle->timer == NULL && handle->timeout_ms != 0) {
 				handle->timer = M_event_timer_add(M_io_get_event(io), M_io_proxy_protocol_timeout_cb, layer);
+				M_event_timer_set_internal(handle->timer);
 				M_event_timer_set_firecount(handle->timer, 1);
 				M_event_timer_reset(handle->timer, handle->timeout_ms);
 			}
diff --git a/io/net/m_dns.c b/io/net/m_dns.c
index 0d3533d..b248a16 100644
--- a/io/net/m_dns.c
+++ b/io/net/m_dns.c
@@ -537,6 +537,7 @@ static M_bool M_io_dns_init_cb(M_io_layer_t *layer)
 
 	/* Create a timer */
 	handle->timer = M_event_timer_add(event, M_io_dns_timeout_cb, layer);
+	M_event_timer_set_internal(handle->timer);
 	M_event_timer_set_firecount(handle->timer, 1);
 
 	return M_TRUE;
diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index 52cbd31..215d7d1 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -1124,6 +1124,7 @@ static M_bool M_io_net_stream_init_cb(M_io_layer_t *layer)
 	M_event_t     *event  = M_io_get_event(comm);
 
 	handle->timer = M_event_timer_add(event, M_io_net_timeout_cb, layer);
+	M_event_timer_set_internal(handle->timer);
 
 	if (handle->state == M_IO_NET_STATE_CONNECTED) {
 		M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
diff --git a/io/net/m_io_netdns.c b/io/net/m_io_netdns.c
index 056c36d..11b49a8 100644
--- a/io/net/m_io_netdns.c
+++ b/io/net/m_io_netdns.c
@@ -168,6 +168,7 @@ static void M_io_netdns_happyeyeballs_timer(M_io_layer_t *layer)
 		return;
 
 	handle->timer = M_event_timer_oneshot(event, handle->settings.connect_failover_ms, M_FALSE, M_io_netdns_happyeyeballs_timeout, layer);
+	M_event_timer_set_internal(handle->timer);
 }
 
 
diff --git a/tls/m_tls.c b/tls/m_tls.c
index ff511f0..db3174e 100644
--- a/tls/m_tls.c
+++ b/tls/m_tls.c
@@ -369,6 +369,7 @@ static M_bool M_io_tls_process_state_init(M_io_layer_t *layer, M_event_type_t *t
 
 	if (*type == M_EVENT_TYPE_CONNECTED) {
 		handle->timer = M_event_timer_oneshot(event, M_tls_get_negotiation_timeout_ms(handle), M_FALSE, M_tls_op_timeout_cb, layer);
+		M_event_timer_set_internal(handle->timer);
 		M_time_elapsed_start(&handle->negotiation_start);
 		if (handle->is_client) {
 			handle->state = M_TLS_STATE_CONNECTING;
@@ -1126,6 +1127,7 @@ static M_bool M_io_tls_disconnect_cb(M_io_layer_t *layer)
 	/* Ok, we've initiated a disconnect sequence, start a timer so this can
 	 * be canceled if it takes too long */
 	handle->timer = M_event_timer_oneshot(event, 5000 /* 5s max */, M_FALSE, M_tls_op_timeout_cb, layer);
+	M_event_timer_set_internal(handle->timer);
 
 	/* Don't go to next layer, processing disconnect */
 	return M_FALSE;
-- 
2.43.0


From 33cde17dd992487699d35c70f7ff60b43ed659c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:42 +0000
Subject: [PATCH 087/104] fix: order of addresses with the same happy eyeballs
 status

---
 io/net/m_dns.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/net/m_dns.c b/io/net/m_dns.c
index b248a16..d57d040 100644
--- a/io/net/m_dns.c
+++ b/io/net/m_dns.c
@@ -330,10 +330,10 @@ static M_list_str_t *M_dns_happyeb_sort(M_dns_t *dns, const M_list_str_t *ipaddr
 	for (i=0; i<len; i++) {
 		if ((i % 2 == 0 && ipv6idx < num_ipv6) ||
 			(i % 2 != 0 && ipv4idx == num_ipv4)) {
-			list[i].idx    = ipv6idx;
+			list[i].idx    = i;
 			list[i].addr   = ipv6list[ipv6idx++];
 		} else {
-			list[i].idx    = ipv4idx;
+			list[i].idx    = i;
 			list[i].addr   = ipv4list[ipv4idx++];
 		}
 
-- 
2.43.0


From cd657cd4f0a3f388792488e8dcbbdd90e3e33db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:42 +0000
Subject: [PATCH 088/104] fix: io object unbound from its event loop or
 destroyed while resolving its host name

---
 io/net/m_io_net_int.h |  8 ++++++++
 io/net/m_io_netdns.c  | 32 +++++++++++++++++++++++++++-----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/io/net/m_io_net_int.h b/io/net/m_io_net_int.h
index 7c03e78..a2c3687 100644
--- a/io/net/m_io_net_int.h
+++ b/io/net/m_io_net_int.h
@@ -67,8 +67,16 @@ struct M_io_handle_net {
 	M_bool               read_queued;    /*!< Read event was queued when the connection was established      */
 };
 
+/*! Outstanding DNS query, outlives the handle if that is unbound from the event loop before there's a result. Protected
+ *  by the lock of the event loop. */
+typedef struct {
+	M_io_layer_t        *layer;          /*!< Layer interested in the result, NULL if no longer interested   */
+	M_event_t           *event;          /*!< Event loop the result is delivered on                          */
+} M_io_netdns_query_t;
+
 struct M_io_handle_netdns {
 	M_dns_t             *dns;            /*!< Handle for DNS resolver                                        */
+	M_io_netdns_query_t *query;          /*!< Outstanding DNS query                                          */
 	M_io_t             **io_try;         /*!< IO handles for each DNS entry                                  */
 	size_t               io_try_cnt;     /*!< Count of IO handle being attempted                             */
 	size_t               io_try_idx;     /*!< Last index used to start a connection                          */
diff --git a/io/net/m_io_netdns.c b/io/net/m_io_netdns.c
index 11b49a8..3dafb6c 100644
--- a/io/net/m_io_netdns.c
+++ b/io/net/m_io_netdns.c
@@ -380,9 +380,8 @@ static M_bool M_io_netdns_init_connect(M_io_layer_t *layer)
 }
 
 
-static void M_io_netdns_dns_callback(const M_list_str_t *ips, void *cb_data, M_dns_result_t result)
+static void M_io_netdns_dns_result(M_io_layer_t *layer, const M_list_str_t *ips, M_dns_result_t result)
 {
-	M_io_layer_t  *layer       = cb_data;
 	M_io_handle_t *handle      = M_io_layer_get_handle(layer);
 	size_t         i;
 
@@ -436,6 +435,23 @@ static void M_io_netdns_dns_callback(const M_list_str_t *ips, void *cb_data, M_d
 
 
 
+static void M_io_netdns_dns_callback(const M_list_str_t *ips, void *cb_data, M_dns_result_t result)
+{
+	M_io_netdns_query_t *query = cb_data;
+	M_event_t           *event = query->event;
+
+	/* The io object may have been unbound from the event loop or destroyed in the mean time */
+	M_event_lock(event);
+	if (query->layer != NULL) {
+		M_io_handle_t *handle = M_io_layer_get_handle(query->layer);
+		handle->data.netdns.query = NULL;
+		M_io_netdns_dns_result(query->layer, ips, result);
+	}
+	M_free(query);
+	M_event_unlock(event);
+}
+
+
 static M_bool M_io_netdns_init_cb(M_io_layer_t *layer)
 {
 	M_io_t        *io     = M_io_layer_get_io(layer);
@@ -448,7 +464,10 @@ static M_bool M_io_netdns_init_cb(M_io_layer_t *layer)
 			handle->state              = M_IO_NET_STATE_RESOLVING;
 //M_printf("%s(): looking up %s\n", __FUNCTION__, handle->host);
 			M_time_elapsed_start(&handle->data.netdns.query_start);
-			M_dns_gethostbyname(handle->data.netdns.dns, event, handle->host, handle->type, M_io_netdns_dns_callback, layer);
+			handle->data.netdns.query        = M_malloc_zero(sizeof(*handle->data.netdns.query));
+			handle->data.netdns.query->layer = layer;
+			handle->data.netdns.query->event = event;
+			M_dns_gethostbyname(handle->data.netdns.dns, event, handle->host, handle->type, M_io_netdns_dns_callback, handle->data.netdns.query);
 			break;
 		case M_IO_NET_STATE_CONNECTING:
 			/* Re-bind io event handle(s) */
@@ -525,10 +544,13 @@ static void M_io_netdns_unregister_cb(M_io_layer_t *layer)
 		M_event_remove(handle->data.netdns.io);
 	}
 
-	/* If DNS resolving, kill the DNS operation and reset state back to init */
+	/* If DNS resolving, ignore the result of the DNS operation and reset state back to init */
 	if (handle->state == M_IO_NET_STATE_RESOLVING) {
 		handle->state = M_IO_NET_STATE_INIT;
-/* XXX: Todo */
+		if (handle->data.netdns.query != NULL) {
+			handle->data.netdns.query->layer = NULL;
+			handle->data.netdns.query        = NULL;
+		}
 	}
 }
 
-- 
2.43.0


From 5f4fc3eb864a6999b8b882ad0aab45e57195368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:42 +0000
Subject: [PATCH 089/104] fix: lost queries, deadlocks and use after free in
 the DNS resolver

---
 io/net/m_dns.c | 383 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 252 insertions(+), 131 deletions(-)

diff --git a/io/net/m_dns.c b/io/net/m_dns.c
index d57d040..28f1b3d 100644
--- a/io/net/m_dns.c
+++ b/io/net/m_dns.c
@@ -45,6 +45,10 @@ typedef struct {
 	M_dns_t     *dns;
 } M_dns_ares_t;
 
+/* Locking: the lock of the event loop the DNS subsystem is bound to must be obtained before dns->lock, and both must be
+ * held when calling into c-ares, as it may modify the handles being waited on. Both are held by M_dns_lock(). Other
+ * event loops may hold their own lock when calling in, so none of those may be locked while holding either. */
+
 struct M_dns {
 	M_bool                isup;
 
@@ -58,6 +62,9 @@ struct M_dns {
 	M_hash_strvp_t       *cache_lookup;      /*!< Hashtable for fast lookup of names as aftype:hostname (aftype may be AF_INET, AF_INET6, AF_UNSPEC)  */
 
 	M_list_t             *ares_channels;     /*!< List of ares_channels, can have more than 1 due to reloading server config */
+	M_llist_t            *queries_new;       /*!< Queries not yet passed on to c-ares */
+	M_llist_t            *queries_done;      /*!< Queries that are done, but the result isn't yet delivered */
+	M_bool                reload;            /*!< Server configuration needs to be reloaded */
 	M_hash_u64vp_t       *sockhandle;        /*!< Hashtable of file descriptors to OS event handles */
 	M_llist_t            *happyeb_aginglist; /*!< Linked list in insertion order of M_dns_happyeb_result_t *, first entry is oldest entry */
 	M_hash_strvp_t       *happyeb;           /*!< Map of  ipaddr  to M_dns_happyeb_result_t *  */
@@ -87,6 +94,43 @@ struct M_dns_cache_entry {
 typedef struct M_dns_cache_entry M_dns_cache_entry_t;
 
 
+typedef struct  {
+	M_dns_t              *dns;               /*!< Handle to DNS context                         */
+	M_dns_ares_t         *achannel;          /*!< Pointer to ares_channel handling query        */
+	char                 *hostname;          /*!< Requested hostname to query                   */
+	int                   aftype;            /*!< Requested type (AF_INET, AF_INET6, AF_UNSPEC) */
+	M_event_t            *event;             /*!< Event loop to run callback on                 */
+	M_bool                is_cache_eviction; /*!< Cache entry timed out and was evicted         */
+
+	M_dns_ghbn_callback_t callback;          /*!< User-provided callback                        */
+	void                 *cb_data;           /*!< User-provided callback data                   */
+
+	M_llist_node_t       *node;              /*!< Node in queries_new or queries_done           */
+
+	/* Result Data */
+	M_list_str_t         *ipaddrs;      /*!< List of ip addresses returned */
+	M_dns_result_t        result;       /*!< Ending result code */
+} M_dns_query_t;
+
+static void M_dns_process(M_io_layer_t *layer);
+
+/*! Lock the event loop and the dns handle
+ *
+ * \return layer to be passed to M_dns_unlock() */
+static M_io_layer_t *M_dns_lock(M_dns_t *dns)
+{
+	M_io_layer_t *layer = M_io_layer_acquire(dns->io, 0, "DNS");
+	M_thread_mutex_lock(dns->lock);
+	return layer;
+}
+
+static void M_dns_unlock(M_dns_t *dns, M_io_layer_t *layer)
+{
+	M_thread_mutex_unlock(dns->lock);
+	M_io_layer_release(layer);
+}
+
+
 static void M_dns_cache_free_cb(void *arg)
 {
 	M_dns_cache_entry_t *entry = arg;
@@ -378,6 +422,9 @@ static void M_io_dns_init(void)
 	M_thread_once(&M_ares_once, M_io_dns_init_run, 0);
 }
 
+static void M_dns_close(M_dns_t *dns);
+
+/* NOTE: event and dns->lock must be locked before calling this */
 static void M_io_dns_ares_update_timeout(M_io_layer_t *layer)
 {
 	struct timeval to;
@@ -407,14 +454,6 @@ static void M_io_dns_ares_update_timeout(M_io_layer_t *layer)
 	}
 }
 
-static void M_dns_removeevent_self_cb(M_event_t *event, M_event_type_t type, M_io_t *io, void *arg)
-{
-	(void)event;
-	(void)type;
-	(void)io;
-	M_event_remove(arg);
-}
-
 static M_bool M_io_dns_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 {
 	M_io_handle_t  *handle = M_io_layer_get_handle(layer);
@@ -463,42 +502,42 @@ static M_bool M_io_dns_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 		}
 
 	}
-	M_thread_mutex_unlock(handle->dns->lock);
-
-	/* Re-evaluate timer from ares_timeout() */
-	M_io_dns_ares_update_timeout(layer);
+	/* Pass on any new queries and re-evaluate timer from ares_timeout() */
+	M_dns_process(layer);
 
 	/* Allow a real disconnect to passthru */
 	if (*type == M_EVENT_TYPE_DISCONNECTED && !handle->dns->isup) {
-
-		M_thread_mutex_lock(handle->dns->lock);
-
 		/* Kill all ares channels forcibly */
-		M_list_destroy(handle->dns->ares_channels, M_TRUE);
-		handle->dns->ares_channels = NULL;
+		M_dns_close(handle->dns);
 
-		/* Destroy any timers */
-		M_event_timer_remove(handle->timer);
-		handle->timer = NULL;
+		/* Remove self from event processing, but can't do it from own callback */
+		M_event_timer_start(handle->timer, 0);
 
 		M_thread_mutex_unlock(handle->dns->lock);
-
-		/* Remove self from event processing, but can't do it from own callback */
-		M_event_queue_task(handle->dns->event, M_dns_removeevent_self_cb, M_io_layer_get_io(layer));
 		return M_FALSE;
 	}
 
+	M_thread_mutex_unlock(handle->dns->lock);
+
 	/* Consume -- though there should be no one to deliver to */
 	return M_TRUE;
 }
 
 static void M_io_dns_timeout_cb(M_event_t *event, M_event_type_t type, M_io_t *io, void *arg)
 {
-	M_io_layer_t *layer = arg;
+	M_io_layer_t  *layer  = arg;
+	M_io_handle_t *handle = M_io_layer_get_handle(layer);
 
 	(void)event;
 	(void)type;
 	(void)io;
+
+	/* Disconnected */
+	if (!handle->dns->isup) {
+		M_event_remove(M_io_layer_get_io(layer));
+		return;
+	}
+
 	/* Call into the normal event processing system which will modify handles being waited
 	 * on as well as set up a new timer. */
 	M_io_dns_process_cb(layer, &type);
@@ -506,12 +545,21 @@ static void M_io_dns_timeout_cb(M_event_t *event, M_event_type_t type, M_io_t *i
 
 static void M_io_dns_unregister_cb(M_io_layer_t *layer)
 {
-	M_io_handle_t  *handle = M_io_layer_get_handle(layer);
-	M_io_t         *io     = M_io_layer_get_io(layer);
-	M_event_t      *event  = M_io_get_event(io);
-
-	if (io == NULL || event == NULL)
-		return;
+	M_io_handle_t       *handle   = M_io_layer_get_handle(layer);
+	M_io_t              *io       = M_io_layer_get_io(layer);
+	M_event_t           *event    = M_io_get_event(io);
+	M_hash_u64vp_enum_t *hashenum = NULL;
+	void                *val      = NULL;
+	M_uint64             fd64;
+
+	/* Stop waiting on any sockets still in use */
+	M_thread_mutex_lock(handle->dns->lock);
+	M_hash_u64vp_enumerate(handle->dns->sockhandle, &hashenum);
+	while (M_hash_u64vp_enumerate_next(handle->dns->sockhandle, hashenum, &fd64, &val)) {
+		M_event_handle_modify(event, M_EVENT_MODTYPE_DEL_HANDLE, io, (M_EVENT_HANDLE)((M_uintptr)val), (M_EVENT_SOCKET)fd64, 0, 0);
+	}
+	M_hash_u64vp_enumerate_free(hashenum);
+	M_thread_mutex_unlock(handle->dns->lock);
 
 	/* Destroy any timers */
 	M_event_timer_remove(handle->timer);
@@ -600,8 +648,9 @@ static M_io_t *M_io_dns_create(M_dns_t *dns, M_event_t *event)
 
 static void M_dns_ares_sock_state_cb(void *arg, ares_socket_t sock_fd, int readable, int writable)
 {
-	M_dns_t *dns = arg;
-	void    *val = NULL;
+	M_dns_t   *dns   = arg;
+	void      *val   = NULL;
+	M_event_t *event = M_io_get_event(dns->io); /* The event loop might have been destroyed already, this is NULL then */
 
 	M_EVENT_HANDLE handle = M_EVENT_INVALID_HANDLE;
 
@@ -624,23 +673,23 @@ static void M_dns_ares_sock_state_cb(void *arg, ares_socket_t sock_fd, int reada
 		handle = sock_fd;
 #endif
 		M_hash_u64vp_insert(dns->sockhandle, (M_uint64)sock_fd, (void *)(M_uintptr)handle);
-		M_event_handle_modify(dns->event, M_EVENT_MODTYPE_ADD_HANDLE, dns->io, handle, sock_fd, 0, M_EVENT_CAPS_READ|M_EVENT_CAPS_WRITE);
+		M_event_handle_modify(event, M_EVENT_MODTYPE_ADD_HANDLE, dns->io, handle, sock_fd, 0, M_EVENT_CAPS_READ|M_EVENT_CAPS_WRITE);
 	}
 
 	if (readable) {
-		M_event_handle_modify(dns->event, M_EVENT_MODTYPE_ADD_WAITTYPE, dns->io, handle, sock_fd, M_EVENT_WAIT_READ, 0);
+		M_event_handle_modify(event, M_EVENT_MODTYPE_ADD_WAITTYPE, dns->io, handle, sock_fd, M_EVENT_WAIT_READ, 0);
 	} else {
-		M_event_handle_modify(dns->event, M_EVENT_MODTYPE_DEL_WAITTYPE, dns->io, handle, sock_fd, M_EVENT_WAIT_READ, 0);
+		M_event_handle_modify(event, M_EVENT_MODTYPE_DEL_WAITTYPE, dns->io, handle, sock_fd, M_EVENT_WAIT_READ, 0);
 	}
 
 	if (writable) {
-		M_event_handle_modify(dns->event, M_EVENT_MODTYPE_ADD_WAITTYPE, dns->io, handle, sock_fd, M_EVENT_WAIT_WRITE, 0);
+		M_event_handle_modify(event, M_EVENT_MODTYPE_ADD_WAITTYPE, dns->io, handle, sock_fd, M_EVENT_WAIT_WRITE, 0);
 	} else {
-		M_event_handle_modify(dns->event, M_EVENT_MODTYPE_DEL_WAITTYPE, dns->io, handle, sock_fd, M_EVENT_WAIT_WRITE, 0);
+		M_event_handle_modify(event, M_EVENT_MODTYPE_DEL_WAITTYPE, dns->io, handle, sock_fd, M_EVENT_WAIT_WRITE, 0);
 	}
 
 	if (!readable && !writable) {
-		M_event_handle_modify(dns->event, M_EVENT_MODTYPE_DEL_HANDLE, dns->io, handle, sock_fd, 0, 0);
+		M_event_handle_modify(event, M_EVENT_MODTYPE_DEL_HANDLE, dns->io, handle, sock_fd, 0, 0);
 #ifdef _WIN32
 		WSAEventSelect(sock_fd, handle, 0);
 		WSACloseEvent(handle);
@@ -698,7 +747,6 @@ static M_bool M_dns_reload_server(M_dns_t *dns, M_bool force_reload)
 	options.sock_state_cb_data = dns;
 
 	if ((err = ares_init_options(&channel, &options, ARES_OPT_TIMEOUTMS|ARES_OPT_TRIES|ARES_OPT_SOCK_STATE_CB)) != ARES_SUCCESS) {
-M_printf("ares_init_options failed (%d): %s\n", err, ares_strerror(err));
 		if (!achannel)
 			return M_FALSE;
 		return M_TRUE;
@@ -733,14 +781,91 @@ M_printf("ares_init_options failed (%d): %s\n", err, ares_strerror(err));
 	return M_TRUE;
 }
 
-static void M_dns_reload_server_cb(M_event_t *event, M_event_type_t type, M_io_t *io, void *cb_arg)
+static void M_dns_query_cb(M_event_t *event, M_event_type_t type, M_io_t *io, void *cb_arg)
 {
+	M_dns_query_t *query = cb_arg;
+
 	(void)event;
 	(void)type;
 	(void)io;
-	M_dns_reload_server(cb_arg, M_TRUE);
+
+	if (query->is_cache_eviction && query->result == M_DNS_RESULT_SUCCESS) {
+		query->callback(query->ipaddrs, query->cb_data, M_DNS_RESULT_SUCCESS_CACHE_EVICT);
+	} else {
+		query->callback(query->ipaddrs, query->cb_data, query->result);
+	}
+
+	M_list_str_destroy(query->ipaddrs);
+	M_free(query->hostname);
+	M_free(query);
+}
+
+
+/*! Deliver result to the requester, must be called without any locks held */
+static void M_dns_query_deliver(M_dns_query_t *query)
+{
+	if (query->event) {
+		M_event_queue_task(query->event, M_dns_query_cb, query);
+	} else {
+		M_dns_query_cb(NULL, M_EVENT_TYPE_OTHER, NULL, query);
+	}
+}
+
+
+static void M_dns_query_deliver_cb(M_event_t *event, M_event_type_t type, M_io_t *io, void *cb_arg)
+{
+	M_dns_query_t *query = cb_arg;
+
+	(void)type;
+	(void)io;
+
+	/* DNS handle might be getting destroyed */
+	M_event_lock(event);
+	if (query->dns != NULL) {
+		M_thread_mutex_lock(query->dns->lock);
+		M_llist_take_node(query->node);
+		query->node = NULL;
+		M_thread_mutex_unlock(query->dns->lock);
+		query->dns = NULL;
+	}
+	M_event_unlock(event);
+
+	M_dns_query_deliver(query);
 }
 
+
+/*! Query has a result, which can't be delivered while holding locks.
+ * NOTE: dns must be locked by M_dns_lock() before calling this */
+static void M_dns_query_done(M_dns_query_t *query)
+{
+	M_event_t *event = M_io_get_event(query->dns->io);
+
+	query->node = M_llist_insert(query->dns->queries_done, query);
+
+	/* If there's no event loop any more it will be delivered on destroy */
+	if (event != NULL)
+		M_event_queue_task(event, M_dns_query_deliver_cb, query);
+}
+
+
+/*! End all queries.
+ * NOTE: dns must be locked by M_dns_lock() before calling this */
+static void M_dns_close(M_dns_t *dns)
+{
+	M_llist_node_t *node;
+
+	M_list_destroy(dns->ares_channels, M_TRUE);
+	dns->ares_channels = NULL;
+	dns->reload        = M_FALSE;
+
+	while ((node = M_llist_first(dns->queries_new)) != NULL) {
+		M_dns_query_t *query = M_llist_take_node(node);
+		query->result = M_DNS_RESULT_SERVFAIL;
+		M_dns_query_done(query);
+	}
+}
+
+
 static void M_dns_ares_channel_free(void *arg)
 {
 	M_dns_ares_t *achannel = arg;
@@ -763,15 +888,25 @@ static void *M_dns_eventthread(void *arg)
 
 M_bool M_dns_destroy(M_dns_t *dns)
 {
+	M_io_layer_t *layer;
+
 	if (dns == NULL)
 		return M_FALSE;
 
-	/* We need to wrap this in a lock as we may be using a private eventloop,
-	 * so we can't have these conflict */
-	M_thread_mutex_lock(dns->lock);
-	M_list_destroy(dns->ares_channels, M_TRUE);
-	dns->ares_channels = NULL;
-	M_thread_mutex_unlock(dns->lock);
+	/* Ends all queries */
+	layer = M_dns_lock(dns);
+	M_dns_close(dns);
+
+	if (!dns->threadid && M_io_get_event(dns->io) != NULL) {
+		/* Tasks to deliver the results are queued, which must not reference us any more. */
+		M_llist_node_t *node;
+		while ((node = M_llist_first(dns->queries_done)) != NULL) {
+			M_dns_query_t *query = M_llist_take_node(node);
+			query->dns  = NULL;
+			query->node = NULL;
+		}
+	}
+	M_dns_unlock(dns, layer);
 
 	/* Private eventloop, lets kill it */
 	if (dns->threadid) {
@@ -784,9 +919,19 @@ M_bool M_dns_destroy(M_dns_t *dns)
 		M_event_destroy(dns->event);
 	}
 
+	/* If still being processed by another thread, the destroy might be delayed, but it must no longer reference us */
+	M_event_remove(dns->io);
 	M_io_destroy(dns->io);
 	dns->io = NULL;
 
+	/* There's no one else to deliver the results */
+	while (M_llist_len(dns->queries_done) != 0) {
+		M_dns_query_t *query = M_llist_take_node(M_llist_first(dns->queries_done));
+		M_dns_query_deliver(query);
+	}
+	M_llist_destroy(dns->queries_done, M_FALSE);
+	M_llist_destroy(dns->queries_new, M_FALSE);
+
 	M_queue_destroy(dns->cache);
 	M_hash_strvp_destroy(dns->cache_lookup, M_TRUE);
 
@@ -832,6 +977,8 @@ M_dns_t *M_dns_create(M_event_t *event)
 
 	dns->sockhandle                = M_hash_u64vp_create(8, 75, M_HASH_U64VP_NONE, NULL);
 	dns->ares_channels             = M_list_create(&listcb, M_LIST_NONE);
+	dns->queries_new               = M_llist_create(NULL, M_LLIST_NONE);
+	dns->queries_done              = M_llist_create(NULL, M_LLIST_NONE);
 
 	if (!M_dns_reload_server(dns, M_FALSE)) {
 		M_dns_destroy(dns);
@@ -846,6 +993,11 @@ M_dns_t *M_dns_create(M_event_t *event)
 		event         = M_event_create(M_EVENT_FLAG_NONE);
 		dns->threadid = M_thread_create(attr, M_dns_eventthread, event);
 		M_thread_attr_destroy(attr);
+		if (dns->threadid == 0) {
+			M_event_destroy(event);
+			M_dns_destroy(dns);
+			return NULL;
+		}
 	}
 
 	dns->io                    = M_io_dns_create(dns, event);
@@ -855,42 +1007,6 @@ M_dns_t *M_dns_create(M_event_t *event)
 }
 
 
-typedef struct  {
-	M_dns_t              *dns;               /*!< Handle to DNS context                         */
-	M_dns_ares_t         *achannel;          /*!< Pointer to ares_channel handling query        */
-	char                 *hostname;          /*!< Requested hostname to query                   */
-	int                   aftype;            /*!< Requested type (AF_INET, AF_INET6, AF_UNSPEC) */
-	M_event_t            *event;             /*!< Event loop to run callback on                 */
-	M_bool                is_cache_eviction; /*!< Cache entry timed out and was evicted         */
-
-	M_dns_ghbn_callback_t callback;          /*!< User-provided callback                        */
-	void                 *cb_data;           /*!< User-provided callback data                   */
-
-	/* Result Data */
-	M_list_str_t         *ipaddrs;      /*!< List of ip addresses returned */
-	M_dns_result_t        result;       /*!< Ending result code */
-} M_dns_query_t;
-
-
-static void M_dns_gethostbyname_result_cb(M_event_t *event, M_event_type_t type, M_io_t *io, void *cb_arg)
-{
-	M_dns_query_t *query    = cb_arg;
-	(void)event;
-	(void)type;
-	(void)io;
-
-	if (query->is_cache_eviction && query->result == M_DNS_RESULT_SUCCESS) {
-		query->callback(query->ipaddrs, query->cb_data, M_DNS_RESULT_SUCCESS_CACHE_EVICT);
-	} else {
-		query->callback(query->ipaddrs, query->cb_data, query->result);
-	}
-
-	M_list_str_destroy(query->ipaddrs);
-	M_free(query->hostname);
-	M_free(query);
-}
-
-
 static void ares_addrinfo_cb(void *arg, int status, int timeouts, struct ares_addrinfo *result)
 {
 	M_dns_query_t       *query = arg;
@@ -943,41 +1059,51 @@ static void ares_addrinfo_cb(void *arg, int status, int timeouts, struct ares_ad
 	/* If there is a destroy pending and we were the last query result, destroy! */
 	query->achannel->queries_pending--;
 
-	M_thread_mutex_unlock(query->dns->lock);
+	M_dns_query_done(query);
 
-	if (query->event) {
-		M_event_queue_task(query->event, M_dns_gethostbyname_result_cb, query);
-	} else {
-		M_dns_gethostbyname_result_cb(NULL, M_EVENT_TYPE_OTHER, NULL, query);
-	}
+	M_thread_mutex_unlock(query->dns->lock);
 }
 
-static void M_dns_gethostbyname_enqueue(M_event_t *event, M_event_type_t type, M_io_t *io, void *cb_arg)
+/* NOTE: event and dns->lock must be locked before calling this */
+static void M_dns_process(M_io_layer_t *layer)
 {
-	M_dns_query_t *query    = cb_arg;
-	M_dns_ares_t  *achannel = NULL;
-	struct ares_addrinfo_hints hints = {
-		0,
-		query->aftype,
-		0,
-		0
-	};
+	M_io_handle_t  *handle = M_io_layer_get_handle(layer);
+	M_dns_t        *dns    = handle->dns;
+	M_llist_node_t *node;
 
-	(void)event;
-	(void)type;
-	(void)io;
+	/* Reload DNS settings if requested or system cache timeout has expired */
+	if (dns->reload || M_llist_len(dns->queries_new) != 0) {
+		M_dns_reload_server(dns, dns->reload);
+		dns->reload = M_FALSE;
+	}
 
-	M_thread_mutex_lock(query->dns->lock);
+	while ((node = M_llist_first(dns->queries_new)) != NULL) {
+		M_dns_query_t              *query    = M_llist_take_node(node);
+		M_dns_ares_t               *achannel = M_CAST_OFF_CONST(M_dns_ares_t *, M_list_last(dns->ares_channels));
+		struct ares_addrinfo_hints  hints    = {
+			0,
+			query->aftype,
+			0,
+			0
+		};
+
+		query->node     = NULL;
+		query->achannel = achannel;
+		achannel->queries_pending++;
+		ares_getaddrinfo(achannel->channel, query->hostname, NULL, &hints, ares_addrinfo_cb, query);
+	}
 
-	/* Reload DNS settings if system cache timeout has expired */
-	M_dns_reload_server(query->dns, M_FALSE);
+	M_io_dns_ares_update_timeout(layer);
+}
 
-	achannel = M_CAST_OFF_CONST(M_dns_ares_t *, M_list_last(query->dns->ares_channels));
-	achannel->queries_pending++;
-	query->achannel = achannel;
-	M_thread_mutex_unlock(query->dns->lock);
 
-	ares_getaddrinfo(achannel->channel, query->hostname, NULL, &hints, ares_addrinfo_cb, query);
+/* Have the event loop process new queries or configuration changes.
+ * NOTE: dns must be locked by M_dns_lock() before calling this */
+static void M_dns_process_queue(M_io_layer_t *layer)
+{
+	M_io_handle_t *handle = M_io_layer_get_handle(layer);
+
+	M_event_timer_start(handle->timer, 0);
 }
 
 
@@ -1056,6 +1182,7 @@ static char *M_dns_punyhostname(const char *hostname)
 void M_dns_gethostbyname(M_dns_t *dns, M_event_t *event, const char *hostname, M_io_net_type_t type, M_dns_ghbn_callback_t callback, void *cb_data)
 {
 	char                *punyhost          = NULL;
+	M_io_layer_t        *layer             = NULL;
 	int                  aftype;
 	M_dns_query_t       *query             = NULL;
 	M_dns_cache_entry_t *entry             = NULL;
@@ -1113,10 +1240,10 @@ void M_dns_gethostbyname(M_dns_t *dns, M_event_t *event, const char *hostname, M
 
 	aftype = type == M_IO_NET_IPV4?AF_INET:(type == M_IO_NET_IPV6?AF_INET6:AF_UNSPEC);
 
-	M_thread_mutex_lock(dns->lock);
+	layer = M_dns_lock(dns);
 
 	if (!dns->isup) {
-		M_thread_mutex_unlock(dns->lock);
+		M_dns_unlock(dns, layer);
 		M_free(punyhost);
 		callback(NULL, cb_data, M_DNS_RESULT_INVALID);
 		return;
@@ -1126,7 +1253,7 @@ void M_dns_gethostbyname(M_dns_t *dns, M_event_t *event, const char *hostname, M
 	if (entry != NULL) {
 		if((entry->ts + (M_time_t)entry->ttl) >= M_time()) {
 			M_list_str_t *ipaddrs = M_dns_happyeb_sort(dns, entry->addrs);
-			M_thread_mutex_unlock(dns->lock);
+			M_dns_unlock(dns, layer);
 
 			callback(ipaddrs, cb_data, M_DNS_RESULT_SUCCESS_CACHE);
 			M_list_str_destroy(ipaddrs);
@@ -1137,8 +1264,6 @@ void M_dns_gethostbyname(M_dns_t *dns, M_event_t *event, const char *hostname, M
 		}
 	}
 
-	M_thread_mutex_unlock(dns->lock);
-
 	query                    = M_malloc_zero(sizeof(*query));
 	query->hostname          = M_strdup(hostname);
 	query->dns               = dns;
@@ -1148,7 +1273,9 @@ void M_dns_gethostbyname(M_dns_t *dns, M_event_t *event, const char *hostname, M
 	query->cb_data           = cb_data;
 	query->is_cache_eviction = is_cache_eviction;
 
-	M_event_queue_task(dns->event, M_dns_gethostbyname_enqueue, query);
+	query->node              = M_llist_insert(dns->queries_new, query);
+	M_dns_process_queue(layer);
+	M_dns_unlock(dns, layer);
 
 	M_free(punyhost);
 }
@@ -1156,7 +1283,7 @@ void M_dns_gethostbyname(M_dns_t *dns, M_event_t *event, const char *hostname, M
 
 M_bool M_dns_set_query_timeout(M_dns_t *dns, M_uint64 timeout_ms)
 {
-	M_bool queue_reload = M_FALSE;
+	M_io_layer_t *layer;
 
 	if (dns == NULL)
 		return M_FALSE;
@@ -1164,16 +1291,13 @@ M_bool M_dns_set_query_timeout(M_dns_t *dns, M_uint64 timeout_ms)
 	if (timeout_ms == 0)
 		timeout_ms = 5000;
 
-	M_thread_mutex_lock(dns->lock);
+	layer = M_dns_lock(dns);
 	if (dns->isup && dns->query_timeout_ms != timeout_ms) {
 		dns->query_timeout_ms = timeout_ms;
-		queue_reload          = M_TRUE;
+		dns->reload = M_TRUE;
+		M_dns_process_queue(layer);
 	}
-	M_thread_mutex_unlock(dns->lock);
-
-	if (queue_reload)
-		M_event_queue_task(dns->event, M_dns_reload_server_cb, dns);
-
+	M_dns_unlock(dns, layer);
 
 	return M_TRUE;
 }
@@ -1181,7 +1305,7 @@ M_bool M_dns_set_query_timeout(M_dns_t *dns, M_uint64 timeout_ms)
 
 M_bool M_dns_set_cache_timeout(M_dns_t *dns, M_uint64 max_timeout_s)
 {
-	M_bool queue_reload = M_FALSE;
+	M_io_layer_t *layer;
 
 	if (dns == NULL)
 		return M_FALSE;
@@ -1189,16 +1313,13 @@ M_bool M_dns_set_cache_timeout(M_dns_t *dns, M_uint64 max_timeout_s)
 	if (max_timeout_s == 0)
 		max_timeout_s = 3600; /* 1 hr */
 
-	M_thread_mutex_lock(dns->lock);
+	layer = M_dns_lock(dns);
 	if (dns->isup && dns->query_cache_max_s != max_timeout_s) {
 		dns->query_cache_max_s = max_timeout_s;
-		queue_reload           = M_TRUE;
+		dns->reload = M_TRUE;
+		M_dns_process_queue(layer);
 	}
-	M_thread_mutex_unlock(dns->lock);
-
-	if (queue_reload)
-		M_event_queue_task(dns->event, M_dns_reload_server_cb, dns);
-
+	M_dns_unlock(dns, layer);
 	return M_TRUE;
 }
 
-- 
2.43.0


From 413d368a6d2f4b7f84996efc4d3b893c34af6411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 090/104] fix: blocking call leaked its event loop when the
 object could not be registered

---
 io/m_io_block.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/io/m_io_block.c b/io/m_io_block.c
index 4457131..d7b6355 100644
--- a/io/m_io_block.c
+++ b/io/m_io_block.c
@@ -179,7 +179,10 @@ static M_bool M_io_block_regevent(M_io_t *io, M_io_block_request_t request, M_io
 			data          = M_malloc_zero(sizeof(*data));
 			io->sync_data = data;
 		}
-		M_event_add(event, io, M_io_block_event, data);
+		if (!M_event_add(event, io, M_io_block_event, data)) {
+			M_event_destroy(event);
+			return M_FALSE;
+		}
 		io->private_event = M_TRUE; /* Mark the event as private to the M_io_t */
 	}
 
-- 
2.43.0


From 491e9380e7cf5a748354065e65e6c60940f2a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 091/104] fix: M_io_block_accept reported a timeout as an error

---
 io/m_io_block.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/io/m_io_block.c b/io/m_io_block.c
index d7b6355..53be5d7 100644
--- a/io/m_io_block.c
+++ b/io/m_io_block.c
@@ -233,7 +233,11 @@ M_io_error_t M_io_block_accept(M_io_t **io_out, M_io_t *server_io, M_uint64 time
 	if (!M_io_block_regevent(server_io, M_IO_SYNC_REQUEST_ACCEPT, &data)) {
 		return M_IO_ERROR_WOULDBLOCK;
 	}
-	M_event_loop(server_io->reg_event, timeout_ms);
+
+	if (M_event_loop(server_io->reg_event, timeout_ms) == M_EVENT_ERR_TIMEOUT) {
+		*io_out = NULL;
+		return M_IO_ERROR_WOULDBLOCK;
+	}
 
 	*io_out = data->newconn;
 
-- 
2.43.0


From 28c6defdc2260d7d83d3b0ebc6a7efb650a18a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 092/104] fix: M_io_block_disconnect waited forever on an
 object not used before

---
 io/m_io_block.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/io/m_io_block.c b/io/m_io_block.c
index 53be5d7..e020cf7 100644
--- a/io/m_io_block.c
+++ b/io/m_io_block.c
@@ -474,11 +474,13 @@ M_io_error_t M_io_block_disconnect(M_io_t *io)
 			return M_IO_ERROR_WOULDBLOCK;
 	}
 
-	M_io_disconnect(io);
-
+	/* Must be registered before disconnecting, otherwise the event which tells
+	 * the disconnect finished may not be delivered */
 	if (!M_io_block_regevent(io, M_IO_SYNC_REQUEST_DISCONNECT, &data))
 		return M_IO_ERROR_ERROR;
 
+	M_io_disconnect(io);
+
 	M_event_loop(io->reg_event, M_TIMEOUT_INF);
 	return data->retval;
 }
-- 
2.43.0


From 9d986559d3b7ec6b958a13aab04a52190477662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 093/104] fix: event loop lock never released when an io object
 was destroyed while another thread used it

---
 io/m_io.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/io/m_io.c b/io/m_io.c
index 18aae8e..96c8c3a 100644
--- a/io/m_io.c
+++ b/io/m_io.c
@@ -228,10 +228,9 @@ M_bool M_io_reconnect(M_io_t *io)
 			M_event_remove(io);
 		}
 
-		/* Ok, weird hack for locking purposes */
-		io->reg_event = event;
-		M_io_unlock(io);
-		io->reg_event = NULL;
+		/* The registration is also what locks, it may not be visible anymore once unlocked */
+		if (event)
+			M_event_unlock(event);
 	}
 
 	num = M_list_len(io->layer);
@@ -302,10 +301,10 @@ static void M_io_destroy_full(M_io_t *io)
 	}
 	M_event_remove(io);
 
-	/* Alright, right now locking uses the event registration, rehook and unhook */
-	io->reg_event = event;
-	M_io_unlock(io);
-	io->reg_event = NULL;
+	/* Locking uses the event registration, which may not be seen anymore by a thread waiting for the lock as it
+	 * could not unlock it once it is gone */
+	if (event)
+		M_event_unlock(event);
 
 	M_io_block_data_free(io);
 
-- 
2.43.0


From fc9e54fbd934ec9fb9e64e11171ccb3e6a446f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 094/104] fix: io process: kill of the own process group, lost
 start failures, inherited pipes, signals reported as exit code 0, relative
 paths

---
 io/m_io_pipe_int.h   |   4 +
 io/m_io_pipe_posix.c |  10 +-
 io/m_io_process.c    | 294 ++++++++++++++++++++++++++++---------------
 3 files changed, 205 insertions(+), 103 deletions(-)

diff --git a/io/m_io_pipe_int.h b/io/m_io_pipe_int.h
index 31f8951..6221aeb 100644
--- a/io/m_io_pipe_int.h
+++ b/io/m_io_pipe_int.h
@@ -7,6 +7,10 @@
 #include <mstdlib/io/m_io_layer.h>
 #include "m_event_int.h"
 
+/* The inheritable ends are duplicated for the child, the originals may not be seen by any other process started
+ * by another thread.  Only has an effect on Unix. */
+#define M_IO_PIPE_INHERIT_DUP (1u << 16)
+
 M_EVENT_HANDLE M_io_pipe_get_fd(M_io_t *io);
 
 #endif
diff --git a/io/m_io_pipe_posix.c b/io/m_io_pipe_posix.c
index 1446588..d2c8094 100644
--- a/io/m_io_pipe_posix.c
+++ b/io/m_io_pipe_posix.c
@@ -201,21 +201,27 @@ M_io_error_t M_io_pipe_create(M_uint32 flags, M_io_t **reader, M_io_t **writer)
 	}
 
 	if (flags & M_IO_PIPE_INHERIT_READ) {
-		M_io_posix_fd_set_closeonexec(pipefds[0], M_FALSE);
+		if (!(flags & M_IO_PIPE_INHERIT_DUP))
+			M_io_posix_fd_set_closeonexec(pipefds[0], M_FALSE);
 	} else {
 		/* If not setting up for inheritance, set up for non-blocking.
 		 * This is especially important that we don't set non-blocking if
 		 * handing over stdin to a process as that process may not expect
 		 * a non-blocking socket. */
 		if (!M_io_setnonblock(pipefds[0])) {
+			close(pipefds[0]);
+			close(pipefds[1]);
 			return M_IO_ERROR_ERROR;
 		}
 	}
 	if (flags & M_IO_PIPE_INHERIT_WRITE) {
-		M_io_posix_fd_set_closeonexec(pipefds[1], M_FALSE);
+		if (!(flags & M_IO_PIPE_INHERIT_DUP))
+			M_io_posix_fd_set_closeonexec(pipefds[1], M_FALSE);
 	} else {
 		/* If not setting up for inheritance, set up for non-blocking */
 		if (!M_io_setnonblock(pipefds[1])) {
+			close(pipefds[0]);
+			close(pipefds[1]);
 			return M_IO_ERROR_ERROR;
 		}
 	}
diff --git a/io/m_io_process.c b/io/m_io_process.c
index ac332d7..ab0cbe0 100644
--- a/io/m_io_process.c
+++ b/io/m_io_process.c
@@ -86,6 +86,9 @@ struct M_io_handle {
 	M_io_t               *pipe_stderr;
 	int                   pid;
 	int                   return_code;
+	M_bool                has_return_code; /*!< M_FALSE if the process was terminated by a signal */
+	M_bool                destroyed;       /*!< Process is to be killed as soon as it is started */
+	M_thread_mutex_t     *lock;            /*!< Protects the status, and that the pid is not reaped while it is signaled */
 	M_uint64              timeout_ms;
 	M_bool                timedout;
 	M_io_process_status_t status;
@@ -99,6 +102,65 @@ struct M_io_handle {
 	M_threadid_t          thread;
 };
 
+static void M_io_process_kill(M_io_handle_t *handle)
+{
+#ifdef _WIN32
+	HANDLE hProcess = OpenProcess(PROCESS_ALL_ACCESS, FALSE, (DWORD)handle->pid);
+	TerminateProcess(hProcess, 130);
+	CloseHandle(hProcess);
+#else
+	kill(handle->pid, SIGKILL);
+#endif
+}
+
+
+static M_io_error_t M_io_process_os_error(M_io_handle_t *handle)
+{
+	if (handle->timedout)
+		return M_IO_ERROR_TIMEDOUT;
+
+#ifdef _WIN32
+	return M_io_win32_err_to_ioerr(handle->last_sys_error);
+#else
+	return M_io_posix_err_to_ioerr(handle->last_sys_error);
+#endif
+}
+
+
+/* Notify the user the process has exited */
+static void M_io_process_end_event(M_io_handle_t *handle, M_io_layer_t *layer, M_bool sibling_only)
+{
+	M_event_type_t type = M_EVENT_TYPE_DISCONNECTED;
+
+	if (handle->last_sys_error != 0 || handle->timedout)
+		type = M_EVENT_TYPE_ERROR;
+
+	M_io_layer_softevent_add(layer, sibling_only, type, M_io_process_os_error(handle));
+}
+
+
+/* Notify the user the process could not be started */
+#ifdef _WIN32
+static void M_io_process_start_failed(M_io_handle_t *handle, M_io_layer_t *layer, DWORD sys_error)
+#else
+static void M_io_process_start_failed(M_io_handle_t *handle, M_io_layer_t *layer, int sys_error)
+#endif
+{
+	M_thread_mutex_lock(handle->lock);
+	handle->status         = M_IO_PROC_STATUS_ERROR;
+	handle->last_sys_error = sys_error;
+	M_thread_mutex_unlock(handle->lock);
+
+	M_io_destroy(handle->pipe_stdin);
+	M_io_destroy(handle->pipe_stdout);
+	M_io_destroy(handle->pipe_stderr);
+	handle->pipe_stdin     = NULL;
+	handle->pipe_stdout    = NULL;
+	handle->pipe_stderr    = NULL;
+	M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_ERROR, M_io_process_os_error(handle));
+}
+
+
 #ifndef _WIN32
 
 static char **M_io_process_dict_to_env(M_hash_dict_t *dict)
@@ -141,6 +203,31 @@ static char **M_io_process_list_to_args(const char *command, M_list_str_t *list)
 }
 
 
+static void M_io_process_free_strs(char **strs)
+{
+	size_t i;
+
+	if (strs == NULL)
+		return;
+
+	for (i=0; strs[i] != NULL; i++)
+		M_free(strs[i]);
+	M_free(strs);
+}
+
+
+static void M_io_process_child_fd(int fd, int std_fd)
+{
+	if (fd == std_fd) {
+		/* dup2() would not clear it */
+		M_io_posix_fd_set_closeonexec(fd, M_FALSE);
+		return;
+	}
+	/* The original is closed on exec */
+	dup2(fd, std_fd);
+}
+
+
 #define DEFAULT_EXIT_ERRORCODE 130
 
 static struct {
@@ -180,53 +267,39 @@ static int M_io_process_exitcode_to_errno(int exitcode)
 
 static void *M_io_process_thread(void *arg)
 {
-	M_io_handle_t *handle  = arg;
+	M_io_handle_t *handle    = arg;
 	pid_t          pid;
-	M_io_layer_t  *layer   = NULL;
-	int            wstatus = 0;
+	M_io_layer_t  *layer     = NULL;
+	int            wstatus   = 0;
+	/* Nothing may be allocated nor locked in the child, other threads may have held a lock on fork */
+	char         **args      = M_io_process_list_to_args(handle->command, handle->args);
+	char         **env       = M_io_process_dict_to_env(handle->env);
+	int            fd_stdin  = M_io_pipe_get_fd(handle->pipe_stdin);
+	int            fd_stdout = M_io_pipe_get_fd(handle->pipe_stdout);
+	int            fd_stderr = M_io_pipe_get_fd(handle->pipe_stderr);
+	siginfo_t      si;
 
 	pid = fork();
 
 	/* Error */
 	if (pid == -1) {
-		int           myerrno  = errno;
-
-		layer                  = M_io_layer_acquire(handle->proc, 0, "PROCESS");
-		handle->status         = M_IO_PROC_STATUS_ERROR;
-		handle->last_sys_error = myerrno;
-		M_io_destroy(handle->pipe_stdin);
-		M_io_destroy(handle->pipe_stdout);
-		M_io_destroy(handle->pipe_stderr);
-		handle->pipe_stdin     = NULL;
-		handle->pipe_stdout    = NULL;
-		handle->pipe_stderr    = NULL;
-		M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_ERROR, M_io_posix_err_to_ioerr(handle->last_sys_error));
+		int myerrno = errno;
+
+		M_io_process_free_strs(args);
+		M_io_process_free_strs(env);
+
+		layer = M_io_layer_acquire(handle->proc, 0, "PROCESS");
+		M_io_process_start_failed(handle, layer, myerrno);
 		M_io_layer_release(layer);
 		return NULL;
 	}
 
 	/* Child */
 	if (pid == 0) {
-		int fd;
-
-		char **args = M_io_process_list_to_args(handle->command, handle->args);
-		char **env  = M_io_process_dict_to_env(handle->env);
-
 		/* Clone file descriptors to the proper ids */
-		fd = M_io_pipe_get_fd(handle->pipe_stdin);
-		dup2(fd, STDIN_FILENO);
-		if (fd > 2)
-			close(fd);
-
-		fd = M_io_pipe_get_fd(handle->pipe_stdout);
-		dup2(fd, STDOUT_FILENO);
-		if (fd > 2)
-			close(fd);
-
-		fd = M_io_pipe_get_fd(handle->pipe_stderr);
-		dup2(fd, STDERR_FILENO);
-		if (fd > 2)
-			close(fd);
+		M_io_process_child_fd(fd_stdin,  STDIN_FILENO);
+		M_io_process_child_fd(fd_stdout, STDOUT_FILENO);
+		M_io_process_child_fd(fd_stderr, STDERR_FILENO);
 
 		if (env) {
 			execve(handle->command, args, env);
@@ -250,10 +323,12 @@ static void *M_io_process_thread(void *arg)
 		 *              format error that means it cannot be executed.
 		 *  - OTHERS  - Any other reason
 		 */
-		exit(M_io_process_errno_to_exitcode(errno));
+		_exit(M_io_process_errno_to_exitcode(errno)); /* Not exit(), that runs the handlers and flushes the buffers of the parent */
 	}
 
 	/* Parent */
+	M_io_process_free_strs(args);
+	M_io_process_free_strs(env);
 
 	/* Close pipe endpoints, record pid, notify parent the process has started */
 	layer               = M_io_layer_acquire(handle->proc, 0, "PROCESS");
@@ -263,25 +338,39 @@ static void *M_io_process_thread(void *arg)
 	handle->pipe_stdin  = NULL;
 	handle->pipe_stdout = NULL;
 	handle->pipe_stderr = NULL;
-	handle->status      = M_IO_PROC_STATUS_RUNNING;
+
+	M_thread_mutex_lock(handle->lock);
 	handle->pid         = pid;
+	handle->status      = M_IO_PROC_STATUS_RUNNING;
 	M_time_elapsed_start(&handle->start_timer);
+	if (handle->destroyed) {
+		/* Destroyed while starting */
+		M_io_process_kill(handle);
+	}
+	M_thread_mutex_unlock(handle->lock);
 
 	M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
 	M_io_layer_release(layer);
 
-	/* Wait for process to exit - indefinitely, yes, really ... we have to be killed externally. */
-	while (waitpid(pid, &wstatus, 0) == -1) {
+	/* Wait for process to exit - indefinitely, yes, really ... we have to be killed externally.
+	 * Do not reap it yet, the pid must stay valid until no one can attempt to kill it. */
+	while (waitid(P_PID, (id_t)pid, &si, WEXITED|WNOWAIT) == -1) {
 		if (errno != EINTR)
 			break;
 	}
 
 	/* Record exit code and notify watcher */
-	layer                  = M_io_layer_acquire(handle->proc, 0, "PROCESS");
-	handle->return_code    = WEXITSTATUS(wstatus);
-	handle->status         = M_IO_PROC_STATUS_EXITED;
-	handle->last_sys_error = M_io_process_exitcode_to_errno(handle->return_code);
-	M_io_layer_softevent_add(layer, M_FALSE, (handle->last_sys_error == 0 && !handle->timedout)?M_EVENT_TYPE_DISCONNECTED:M_EVENT_TYPE_ERROR, handle->timedout?M_IO_ERROR_TIMEDOUT:M_io_posix_err_to_ioerr(handle->last_sys_error));
+	layer                       = M_io_layer_acquire(handle->proc, 0, "PROCESS");
+	M_thread_mutex_lock(handle->lock);
+	handle->status              = M_IO_PROC_STATUS_EXITED;
+	handle->return_code         = -1;
+	if (waitpid(pid, &wstatus, 0) == pid && WIFEXITED(wstatus)) {
+		handle->has_return_code = M_TRUE;
+		handle->return_code     = WEXITSTATUS(wstatus);
+		handle->last_sys_error  = M_io_process_exitcode_to_errno(handle->return_code);
+	}
+	M_thread_mutex_unlock(handle->lock);
+	M_io_process_end_event(handle, layer, M_FALSE);
 	M_io_layer_release(layer);
 
 	return NULL;
@@ -406,16 +495,8 @@ static void *M_io_process_thread(void *arg)
 
 	/* Error starting process */
 	if (!rv) {
-		layer                  = M_io_layer_acquire(handle->proc, 0, "PROCESS");
-		handle->status         = M_IO_PROC_STATUS_ERROR;
-		handle->last_sys_error = err;
-		M_io_destroy(handle->pipe_stdin);
-		M_io_destroy(handle->pipe_stdout);
-		M_io_destroy(handle->pipe_stderr);
-		handle->pipe_stdin     = NULL;
-		handle->pipe_stdout    = NULL;
-		handle->pipe_stderr    = NULL;
-		M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_ERROR, M_io_win32_err_to_ioerr(handle->last_sys_error));
+		layer = M_io_layer_acquire(handle->proc, 0, "PROCESS");
+		M_io_process_start_failed(handle, layer, err);
 		M_io_layer_release(layer);
 		return NULL;
 	}
@@ -431,9 +512,16 @@ static void *M_io_process_thread(void *arg)
 	handle->pipe_stdin  = NULL;
 	handle->pipe_stdout = NULL;
 	handle->pipe_stderr = NULL;
-	handle->status      = M_IO_PROC_STATUS_RUNNING;
+
+	M_thread_mutex_lock(handle->lock);
 	handle->pid         = (int)pi.dwProcessId;
+	handle->status      = M_IO_PROC_STATUS_RUNNING;
 	M_time_elapsed_start(&handle->start_timer);
+	if (handle->destroyed) {
+		/* Destroyed while starting */
+		M_io_process_kill(handle);
+	}
+	M_thread_mutex_unlock(handle->lock);
 
 	M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
 	M_io_layer_release(layer);
@@ -444,15 +532,18 @@ static void *M_io_process_thread(void *arg)
 	M_thread_sleep(100000);
 
 	/* Record exit code and notify watcher */
-	layer                  = M_io_layer_acquire(handle->proc, 0, "PROCESS");
+	layer                   = M_io_layer_acquire(handle->proc, 0, "PROCESS");
+	M_thread_mutex_lock(handle->lock);
 	if (GetExitCodeProcess(pi.hProcess, &resultcode)) {
-		handle->return_code    = (int)resultcode;
+		handle->return_code = (int)resultcode;
 	} else {
-		handle->return_code    = 130;
+		handle->return_code = 130;
 	}
-	handle->status         = M_IO_PROC_STATUS_EXITED;
-	handle->last_sys_error = 0;
-	M_io_layer_softevent_add(layer, M_FALSE, handle->timedout?M_EVENT_TYPE_ERROR:M_EVENT_TYPE_DISCONNECTED, handle->timedout?M_IO_ERROR_TIMEDOUT:M_IO_ERROR_SUCCESS);
+	handle->has_return_code = M_TRUE;
+	handle->status          = M_IO_PROC_STATUS_EXITED;
+	handle->last_sys_error  = 0;
+	M_thread_mutex_unlock(handle->lock);
+	M_io_process_end_event(handle, layer, M_FALSE);
 	M_io_layer_release(layer);
 
 	if (pi.hProcess != NULL)
@@ -544,35 +635,36 @@ next:
 	return first_invalid_found;
 }
 
-static M_io_error_t M_io_process_os_error(M_io_handle_t *handle)
-{
-	if (handle->timedout)
-		return M_IO_ERROR_TIMEDOUT;
-
-#ifdef _WIN32
-	return M_io_win32_err_to_ioerr(handle->last_sys_error);
-#else
-	return M_io_posix_err_to_ioerr(handle->last_sys_error);
-#endif
-}
-
 static M_bool M_io_process_init_cb(M_io_layer_t *layer)
 {
-	M_io_handle_t *handle = M_io_layer_get_handle(layer);
+	M_io_handle_t        *handle = M_io_layer_get_handle(layer);
+	M_io_process_status_t status;
+
+	M_thread_mutex_lock(handle->lock);
+	status = handle->status;
+	if (status == M_IO_PROC_STATUS_INIT)
+		handle->status = M_IO_PROC_STATUS_STARTING;
+	M_thread_mutex_unlock(handle->lock);
 
-	if (handle->status == M_IO_PROC_STATUS_INIT) {
+	if (status == M_IO_PROC_STATUS_INIT) {
 		/* Spawn thread */
 		M_thread_attr_t *attr = M_thread_attr_create();
 		M_thread_attr_set_create_joinable(attr, M_TRUE);
-		handle->status        = M_IO_PROC_STATUS_STARTING;
 		handle->thread        = M_thread_create(attr, M_io_process_thread, handle);
 		M_thread_attr_destroy(attr);
-	} else if (handle->status == M_IO_PROC_STATUS_RUNNING) {
-		/* Trigger connected soft event when registered with event handle */
-		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
-	} else if (handle->status == M_IO_PROC_STATUS_EXITED) {
-		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_DISCONNECTED, M_io_process_os_error(handle));
-	} else if (handle->status == M_IO_PROC_STATUS_ERROR) {
+		if (handle->thread == 0) {
+#ifdef _WIN32
+			M_io_process_start_failed(handle, layer, ERROR_NOT_ENOUGH_MEMORY);
+#else
+			M_io_process_start_failed(handle, layer, ENOMEM);
+#endif
+		}
+	} else if (status == M_IO_PROC_STATUS_RUNNING) {
+		/* Trigger connected soft event when registered with event handle, also starts the timeout */
+		M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
+	} else if (status == M_IO_PROC_STATUS_EXITED) {
+		M_io_process_end_event(handle, layer, M_TRUE);
+	} else if (status == M_IO_PROC_STATUS_ERROR) {
 		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_ERROR, M_io_process_os_error(handle));
 	}
 
@@ -589,26 +681,18 @@ static void M_io_process_unregister_cb(M_io_layer_t *layer)
 	}
 }
 
-static void M_io_process_kill(M_io_handle_t *handle)
-{
-#ifdef _WIN32
-	HANDLE hProcess = OpenProcess(PROCESS_ALL_ACCESS, FALSE, (DWORD)handle->pid);
-	TerminateProcess(hProcess, 130);
-	CloseHandle(hProcess);
-#else
-	kill(handle->pid, SIGKILL);
-#endif
-}
-
 static void M_io_process_destroy_cb(M_io_layer_t *layer)
 {
 	M_io_handle_t *handle = M_io_layer_get_handle(layer);
 	void          *rv;
 
-	/* Forcibly kill process as it appears to still be running */
-	if (handle->status == M_IO_PROC_STATUS_STARTING || handle->status == M_IO_PROC_STATUS_RUNNING) {
+	/* Forcibly kill process as it appears to still be running, or as soon as it is */
+	M_thread_mutex_lock(handle->lock);
+	handle->destroyed = M_TRUE;
+	if (handle->status == M_IO_PROC_STATUS_RUNNING) {
 		M_io_process_kill(handle);
 	}
+	M_thread_mutex_unlock(handle->lock);
 
 	/* Join the thread to wait for it to exit */
 	if (handle->thread)
@@ -621,6 +705,7 @@ static void M_io_process_destroy_cb(M_io_layer_t *layer)
 	M_io_destroy(handle->pipe_stdin);
 	M_io_destroy(handle->pipe_stdout);
 	M_io_destroy(handle->pipe_stderr);
+	M_thread_mutex_destroy(handle->lock);
 	M_free(handle);
 }
 
@@ -671,8 +756,12 @@ static void M_io_process_timeout_cb(M_event_t *event, M_event_type_t type, M_io_
 	(void)io_dummy;
 
 	layer            = M_io_layer_acquire(io, 0, NULL);
-	handle->timedout = M_TRUE;
-	M_io_process_kill(handle);
+	M_thread_mutex_lock(handle->lock);
+	if (handle->status == M_IO_PROC_STATUS_RUNNING) {
+		handle->timedout = M_TRUE;
+		M_io_process_kill(handle);
+	}
+	M_thread_mutex_unlock(handle->lock);
 
 	M_event_timer_remove(handle->timer);
 	handle->timer = NULL;
@@ -757,7 +846,7 @@ M_io_error_t M_io_process_create(const char *command, M_list_str_t *args, M_hash
 
 	/* Search "PATH" for "command" with execute perms - Order: 'env', getenv(), confstr(_CS_PATH)
 	 * - If not found, return error */
-	if (M_fs_path_isabs(command, M_FS_SYSTEM_AUTO)) {
+	if (M_fs_path_isabs(full_command, M_FS_SYSTEM_AUTO)) {
 		/* Nothing to do */
 	} else {
 		char       *path = NULL;
@@ -809,14 +898,15 @@ M_io_error_t M_io_process_create(const char *command, M_list_str_t *args, M_hash
 	}
 
 	/* Create pipes for stdin, stdout, and stderr, regardless of if the end-user needs them */
-	if (M_io_pipe_create(M_IO_PIPE_INHERIT_READ,  &pipe_stdin_r,  &pipe_stdin_w)  != M_IO_ERROR_SUCCESS ||
-		M_io_pipe_create(M_IO_PIPE_INHERIT_WRITE, &pipe_stdout_r, &pipe_stdout_w) != M_IO_ERROR_SUCCESS ||
-		M_io_pipe_create(M_IO_PIPE_INHERIT_WRITE, &pipe_stderr_r, &pipe_stderr_w) != M_IO_ERROR_SUCCESS) {
+	if (M_io_pipe_create(M_IO_PIPE_INHERIT_READ|M_IO_PIPE_INHERIT_DUP,  &pipe_stdin_r,  &pipe_stdin_w)  != M_IO_ERROR_SUCCESS ||
+		M_io_pipe_create(M_IO_PIPE_INHERIT_WRITE|M_IO_PIPE_INHERIT_DUP, &pipe_stdout_r, &pipe_stdout_w) != M_IO_ERROR_SUCCESS ||
+		M_io_pipe_create(M_IO_PIPE_INHERIT_WRITE|M_IO_PIPE_INHERIT_DUP, &pipe_stderr_r, &pipe_stderr_w) != M_IO_ERROR_SUCCESS) {
 		rv = M_IO_ERROR_NOSYSRESOURCES;
 		goto fail;
 	}
 
 	handle    = M_malloc_zero(sizeof(*handle));
+	handle->lock        = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE);
 	handle->proc        = *proc;
 	handle->pipe_stdin  = pipe_stdin_r;
 	handle->pipe_stdout = pipe_stdout_w;
@@ -895,10 +985,12 @@ M_bool M_io_process_get_result_code(M_io_t *proc, int *result_code)
 
 	handle = M_io_layer_get_handle(layer);
 
-	if (handle->status == M_IO_PROC_STATUS_EXITED && !handle->timedout) {
+	M_thread_mutex_lock(handle->lock);
+	if (handle->status == M_IO_PROC_STATUS_EXITED && handle->has_return_code && !handle->timedout) {
 		rv           = M_TRUE;
 		*result_code = handle->return_code;
 	}
+	M_thread_mutex_unlock(handle->lock);
 
 	M_io_layer_release(layer);
 
-- 
2.43.0


From ddab52023907236c70b539542f3a72bf72d913b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 095/104] fix: smtp: only the first of consecutive lines
 beginning with a dot was stuffed

---
 net/smtp/m_flow_tcp_sendmsg.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/net/smtp/m_flow_tcp_sendmsg.c b/net/smtp/m_flow_tcp_sendmsg.c
index 9b18f1e..eac1e57 100644
--- a/net/smtp/m_flow_tcp_sendmsg.c
+++ b/net/smtp/m_flow_tcp_sendmsg.c
@@ -150,8 +150,9 @@ static M_state_machine_status_t M_data_response_post_cb(void *data,
 static M_state_machine_status_t M_state_data_payload_and_stop(void *data, M_uint64 *next)
 {
 	M_net_smtp_session_t *session = data;
-	M_parser_t           *parser  = NULL;
 	char                 *msg     = NULL;
+	const char           *ptr     = NULL;
+	const char           *match   = NULL;
 	M_bool                is_BCC  = M_FALSE;
 
 	if (M_email_bcc_len(session->email) > 0) {
@@ -166,23 +167,17 @@ static M_state_machine_status_t M_state_data_payload_and_stop(void *data, M_uint
 		M_email_simple_split_header_body(msg, &session->headers, NULL);
 	}
 
-	parser = M_parser_create_const((unsigned char *)msg, M_str_len(msg), M_PARSER_FLAG_NONE);
-	M_parser_mark(parser);
-
-	/* Period stuff all "\r\n."'s in msg */
-	while (M_parser_consume_until(parser, (unsigned char *)"\r\n.", 3, M_FALSE)) {
-		M_parser_read_buf_mark(parser, session->out_buf);
+	/* Period stuff all "\r\n."'s in msg.  Matches may directly follow each other. */
+	ptr = msg;
+	while ((match = M_str_str(ptr, "\r\n.")) != NULL) {
+		M_buf_add_bytes(session->out_buf, ptr, (size_t)(match - ptr));
 		M_buf_add_str(session->out_buf, "\r\n..");
-		M_parser_consume(parser, 3);
-		M_parser_mark(parser);
+		ptr = match + 3;
 	}
-
-	M_parser_consume(parser, M_parser_len(parser));
-	M_parser_read_buf_mark(parser, session->out_buf);
+	M_buf_add_str(session->out_buf, ptr);
 
 	M_buf_add_str(session->out_buf, "\r\n.\r\n");
 
-	M_parser_destroy(parser);
 	M_free(msg);
 
 	*next = STATE_DATA_STOP_RESPONSE;
-- 
2.43.0


From 9f8adb76e7d4b7fac8373adc009bb426e52b9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 096/104] fix: smtp: message reported sent although every
 recipient was refused

---
 net/smtp/m_flow_tcp_sendmsg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/net/smtp/m_flow_tcp_sendmsg.c b/net/smtp/m_flow_tcp_sendmsg.c
index eac1e57..fa611b6 100644
--- a/net/smtp/m_flow_tcp_sendmsg.c
+++ b/net/smtp/m_flow_tcp_sendmsg.c
@@ -234,7 +234,9 @@ static M_state_machine_status_t M_rset_response_post_cb(void *data,
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
 
-	return M_STATE_MACHINE_STATUS_DONE;
+	/* Only here because every recipient was refused: nobody has the message. */
+	M_snprintf(session->errmsg, sizeof(session->errmsg), "No recipient address was accepted");
+	return M_STATE_MACHINE_STATUS_ERROR_STATE;
 }
 
 M_state_machine_t * M_net_smtp_flow_tcp_sendmsg(void)
-- 
2.43.0


From a33353a32603ff764cd6864f6757fde5f9857198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 097/104] fix: smtp: recipients leaked when a session ended in
 the middle of a message

---
 net/smtp/m_net_smtp_session.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/smtp/m_net_smtp_session.c b/net/smtp/m_net_smtp_session.c
index b510ac0..142c22b 100644
--- a/net/smtp/m_net_smtp_session.c
+++ b/net/smtp/m_net_smtp_session.c
@@ -559,6 +559,9 @@ static void M_net_smtp_session_destroy_int(M_net_smtp_session_t *session)
 {
 	if (session->ep->type == M_NET_SMTP_EPTYPE_TCP) {
 		M_list_str_destroy(session->tcp.smtp_response);
+		/* Still set when the session ended in the middle of a message. */
+		M_list_str_destroy(session->tcp.rcpt_to);
+		session->tcp.rcpt_to = NULL;
 		M_io_destroy(session->io);
 	}
 
-- 
2.43.0


From 2d5d9562c538c941f0603c858503fee743c6d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 098/104] fix: smtp: session about to quit was given messages,
 or waited forever for the answer

---
 net/smtp/m_flow_tcp.c          | 9 +++++----
 net/smtp/m_net_smtp_endpoint.c | 1 +
 net/smtp/m_net_smtp_session.c  | 9 +++++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/net/smtp/m_flow_tcp.c b/net/smtp/m_flow_tcp.c
index 073982c..65c6e25 100644
--- a/net/smtp/m_flow_tcp.c
+++ b/net/smtp/m_flow_tcp.c
@@ -180,14 +180,15 @@ static M_state_machine_status_t M_state_wait_for_next_msg(void *data, M_uint64 *
 		*/
 
 	M_net_smtp_session_t *session = data;
-	if (session->tcp.is_QUIT_enabled) {
-		*next = STATE_QUIT;
-		return M_STATE_MACHINE_STATUS_NEXT;
-	}
+	/* A message that was already handed over is sent first, also when stopping. */
 	if (session->is_successfully_sent == M_FALSE) {
 		*next = STATE_SENDMSG;
 		return M_STATE_MACHINE_STATUS_NEXT;
 	}
+	if (session->tcp.is_QUIT_enabled) {
+		*next = STATE_QUIT;
+		return M_STATE_MACHINE_STATUS_NEXT;
+	}
 	return M_STATE_MACHINE_STATUS_WAIT;
 }
 
diff --git a/net/smtp/m_net_smtp_endpoint.c b/net/smtp/m_net_smtp_endpoint.c
index 8888af1..b5c59c3 100644
--- a/net/smtp/m_net_smtp_endpoint.c
+++ b/net/smtp/m_net_smtp_endpoint.c
@@ -76,6 +76,7 @@ void M_net_smtp_endpoint_cull_session(const M_net_smtp_endpoint_t *ep, M_net_smt
 	M_thread_rwlock_lock(ep->sessions_rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 	M_list_remove_val(ep->send_sessions, session, M_LIST_MATCH_PTR);
 	M_list_remove_val(ep->idle_sessions, session, M_LIST_MATCH_PTR);
+	M_list_remove_val(ep->cull_sessions, session, M_LIST_MATCH_PTR);
 	M_list_insert(ep->cull_sessions, session);
 	M_thread_rwlock_unlock(ep->sessions_rwlock);
 }
diff --git a/net/smtp/m_net_smtp_session.c b/net/smtp/m_net_smtp_session.c
index 142c22b..e213c6b 100644
--- a/net/smtp/m_net_smtp_session.c
+++ b/net/smtp/m_net_smtp_session.c
@@ -123,9 +123,14 @@ static session_status_t session_tcp_advance(M_event_t *el, M_event_type_t etype,
 		case M_EVENT_TYPE_OTHER:
 		case M_EVENT_TYPE_ERROR:
 			if (etype == M_EVENT_TYPE_OTHER && session->is_successfully_sent) {
-				/* Idle timeout */
+				if (session->tcp.is_QUIT_enabled) {
+					/* Asked to quit already, and there is no answer. */
+					goto destroy;
+				}
+				/* Idle timeout. The connection is about to be closed, it must not be given another message. */
+				M_net_smtp_endpoint_cull_session(session->ep, session);
 				session->tcp.is_QUIT_enabled = M_TRUE;
-				M_event_timer_stop(session->event_timer);
+				M_event_timer_reset(session->event_timer, sp->tcp_stall_ms);
 				break;
 			}
 			if (session->tcp.tls_state == M_NET_SMTP_TLS_IMPLICIT && session->connection_mask == M_NET_SMTP_CONNECTION_MASK_NONE) {
-- 
2.43.0


From 2553015ad1791debe80f152a40eb6bf9934c0e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 099/104] fix: smtp: failed endpoints: use after free, lock
 inversions

---
 net/smtp/m_net_smtp.c          | 29 ++++++++++++++++++++++++++++-
 net/smtp/m_net_smtp_endpoint.c | 18 ++++++++++--------
 net/smtp/m_net_smtp_endpoint.h |  1 -
 net/smtp/m_net_smtp_queue.c    |  4 ++++
 4 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/net/smtp/m_net_smtp.c b/net/smtp/m_net_smtp.c
index b4cf7cc..ad4bd31 100644
--- a/net/smtp/m_net_smtp.c
+++ b/net/smtp/m_net_smtp.c
@@ -25,6 +25,26 @@
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+/* Tell the idle sessions of endpoints that failed to quit. The endpoints are looked up when this runs,
+ * one that was removed may have been destroyed since. */
+static void reactivate_idle_task(M_event_t *el, M_event_type_t etype, M_io_t *io, void *thunk)
+{
+	const M_net_smtp_t *sp = thunk;
+	size_t              i;
+	(void)el;
+	(void)etype;
+	(void)io;
+
+	M_thread_mutex_lock(sp->endpoints_mutex);
+	for (i=0; i<M_list_len(sp->endpoints); i++) {
+		const M_net_smtp_endpoint_t *ep = M_list_at(sp->endpoints, i);
+		if (ep->is_removed || ep->timeout_until > M_time()) {
+			M_net_smtp_endpoint_reactivate_idle(ep);
+		}
+	}
+	M_thread_mutex_unlock(sp->endpoints_mutex);
+}
+
 static void endpoint_failure(const M_net_smtp_t *sp, const M_net_smtp_endpoint_t *ep, M_uint64 timeout)
 {
 	M_thread_mutex_lock(sp->endpoints_mutex);
@@ -41,7 +61,7 @@ static void endpoint_failure(const M_net_smtp_t *sp, const M_net_smtp_endpoint_t
 		}
 	}
 	/* Reactivate any idle sessions to quit out */
-	M_event_queue_task(sp->el, M_net_smtp_endpoint_reactivate_idle_task, M_CAST_OFF_CONST(M_net_smtp_endpoint_t*,ep));
+	M_event_queue_task(sp->el, reactivate_idle_task, M_CAST_OFF_CONST(M_net_smtp_t*,sp));
 	if (M_net_smtp_is_all_endpoints_disabled(sp)) {
 		M_net_smtp_pause(M_CAST_OFF_CONST(M_net_smtp_t*,sp));
 	}
@@ -202,6 +222,8 @@ void M_net_smtp_prune_endpoints(M_net_smtp_t *sp)
 {
 	size_t i;
 	M_bool is_requeue = M_FALSE;
+
+	M_thread_mutex_lock(sp->endpoints_mutex);
 	for (i=M_list_len(sp->endpoints); i-->0; ) {
 		const M_net_smtp_endpoint_t *ep = M_list_at(sp->endpoints, i);
 		if (ep->is_removed) {
@@ -212,6 +234,7 @@ void M_net_smtp_prune_endpoints(M_net_smtp_t *sp)
 			}
 		}
 	}
+	M_thread_mutex_unlock(sp->endpoints_mutex);
 	if (is_requeue) {
 		M_event_queue_task(sp->el, M_net_smtp_prune_endpoints_task, sp);
 	}
@@ -418,9 +441,12 @@ void M_net_smtp_pause(M_net_smtp_t *sp)
 	if (sp == NULL)
 		return;
 
+	/* The endpoints lock always comes before the status lock. */
+	M_thread_mutex_lock(sp->endpoints_mutex);
 	M_thread_rwlock_lock(sp->status_rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 	if (!M_net_smtp_is_running(sp->status)) {
 		M_thread_rwlock_unlock(sp->status_rwlock);
+		M_thread_mutex_unlock(sp->endpoints_mutex);
 		return;
 	}
 
@@ -430,6 +456,7 @@ void M_net_smtp_pause(M_net_smtp_t *sp)
 		sp->status = M_NET_SMTP_STATUS_STOPPING;
 	}
 	M_thread_rwlock_unlock(sp->status_rwlock);
+	M_thread_mutex_unlock(sp->endpoints_mutex);
 }
 
 M_bool M_net_smtp_resume(M_net_smtp_t *sp)
diff --git a/net/smtp/m_net_smtp_endpoint.c b/net/smtp/m_net_smtp_endpoint.c
index b5c59c3..4121e5b 100644
--- a/net/smtp/m_net_smtp_endpoint.c
+++ b/net/smtp/m_net_smtp_endpoint.c
@@ -44,22 +44,24 @@ M_bool M_net_smtp_endpoint_is_idle(const M_net_smtp_endpoint_t *ep)
 void M_net_smtp_endpoint_reactivate_idle(const M_net_smtp_endpoint_t *ep)
 {
 	M_net_smtp_session_t *session;
+	M_list_t             *sessions = M_list_create(NULL, M_LIST_NONE);
+
 	M_thread_rwlock_lock(ep->sessions_rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 	session = M_list_take_last(ep->idle_sessions);
 	while (session != NULL) {
 		M_list_insert(ep->send_sessions, session);
-		M_net_smtp_session_reactivate_tcp(session);
+		M_list_insert(sessions, session);
 		session = M_list_take_last(ep->idle_sessions);
 	}
 	M_thread_rwlock_unlock(ep->sessions_rwlock);
-}
 
-void M_net_smtp_endpoint_reactivate_idle_task(M_event_t *el, M_event_type_t etype, M_io_t *io, void *thunk)
-{
-	(void)el;
-	(void)etype;
-	(void)io;
-	M_net_smtp_endpoint_reactivate_idle(thunk);
+	/* Not with the lock held, a session that ends moves itself between the lists. */
+	session = M_list_take_first(sessions);
+	while (session != NULL) {
+		M_net_smtp_session_reactivate_tcp(session);
+		session = M_list_take_first(sessions);
+	}
+	M_list_destroy(sessions, M_TRUE);
 }
 
 void M_net_smtp_endpoint_remove_session(const M_net_smtp_endpoint_t *ep, M_net_smtp_session_t *session)
diff --git a/net/smtp/m_net_smtp_endpoint.h b/net/smtp/m_net_smtp_endpoint.h
index 34b16ea..7fb7832 100644
--- a/net/smtp/m_net_smtp_endpoint.h
+++ b/net/smtp/m_net_smtp_endpoint.h
@@ -82,7 +82,6 @@ M_net_smtp_endpoint_t * M_net_smtp_endpoint_create_tcp(M_net_smtp_endpoint_tcp_a
 M_bool M_net_smtp_endpoint_is_available        (const M_net_smtp_endpoint_t *ep);
 M_bool M_net_smtp_endpoint_is_idle             (const M_net_smtp_endpoint_t *ep);
 void   M_net_smtp_endpoint_reactivate_idle     (const M_net_smtp_endpoint_t *ep);
-void   M_net_smtp_endpoint_reactivate_idle_task(M_event_t *el, M_event_type_t etype, M_io_t *io, void *thunk);
 void   M_net_smtp_endpoint_destroy             (M_net_smtp_endpoint_t *ep);
 M_bool M_net_smtp_endpoint_destroy_is_ready    (const M_net_smtp_endpoint_t *ep);
 
diff --git a/net/smtp/m_net_smtp_queue.c b/net/smtp/m_net_smtp_queue.c
index 3a781bc..a0374e7 100644
--- a/net/smtp/m_net_smtp_queue.c
+++ b/net/smtp/m_net_smtp_queue.c
@@ -327,10 +327,13 @@ void M_net_smtp_queue_advance(M_net_smtp_queue_t *q)
 {
 	M_net_smtp_t *sp = M_CAST_OFF_CONST(M_net_smtp_t*, q->sp);
 
+	/* The endpoints lock always comes before the status lock. */
+	M_thread_mutex_lock(sp->endpoints_mutex);
 	M_thread_rwlock_lock(sp->status_rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 	if (M_net_smtp_is_running(sp->status) && M_net_smtp_queue_is_pending(q)) {
 		sp->status = M_NET_SMTP_STATUS_PROCESSING;
 		M_thread_rwlock_unlock(sp->status_rwlock);
+		M_thread_mutex_unlock(sp->endpoints_mutex);
 		if (q->is_external_queue_enabled) {
 			dispatch_msg_external_task(sp->el, M_EVENT_TYPE_OTHER, NULL, sp);
 		} else {
@@ -356,6 +359,7 @@ void M_net_smtp_queue_advance(M_net_smtp_queue_t *q)
 		}
 	}
 	M_thread_rwlock_unlock(sp->status_rwlock);
+	M_thread_mutex_unlock(sp->endpoints_mutex);
 }
 
 void M_net_smtp_queue_advance_task(M_event_t *el, M_event_type_t etype, M_io_t *io, void *thunk)
-- 
2.43.0


From e514de64c64c8e293b463590a9612a67627e4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:43 +0000
Subject: [PATCH 100/104] fix: smtp: queue stuck or used while stopped: failed
 endpoints, lost announcements, stale dispatches

---
 net/smtp/m_net_smtp.c       | 14 ++++++++------
 net/smtp/m_net_smtp_queue.c | 26 +++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/net/smtp/m_net_smtp.c b/net/smtp/m_net_smtp.c
index ad4bd31..61d70d4 100644
--- a/net/smtp/m_net_smtp.c
+++ b/net/smtp/m_net_smtp.c
@@ -186,7 +186,8 @@ const M_net_smtp_endpoint_t *M_net_smtp_endpoint_acquire(M_net_smtp_t *sp)
 		case M_NET_SMTP_LOAD_BALANCE_FAILOVER:
 			for (i=0; i<M_list_len(sp->endpoints); i++) {
 				ep = M_list_at(sp->endpoints, i);
-				if (ep->is_removed)
+				/* One that failed and has to wait is passed over. */
+				if (ep->is_removed || ep->timeout_until > M_time())
 					continue;
 				if (M_net_smtp_endpoint_is_available(ep)) {
 					return ep;
@@ -482,12 +483,13 @@ M_bool M_net_smtp_resume(M_net_smtp_t *sp)
 				M_event_queue_task(sp->el, M_net_smtp_prune_endpoints_task, sp);
 				M_net_smtp_prune_endpoints(sp);
 			}
-			if (M_net_smtp_queue_is_pending(sp->queue)) {
-				sp->status = M_NET_SMTP_STATUS_PROCESSING;
-				M_event_queue_task(sp->el, M_net_smtp_queue_advance_task, sp->queue);
-			} else {
-				sp->status = M_NET_SMTP_STATUS_IDLE;
+			M_thread_rwlock_lock(sp->status_rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
+			if (!M_net_smtp_is_running(sp->status)) {
+				sp->status = M_net_smtp_queue_is_pending(sp->queue) ? M_NET_SMTP_STATUS_PROCESSING : M_NET_SMTP_STATUS_IDLE;
 			}
+			M_thread_rwlock_unlock(sp->status_rwlock);
+			/* Always, a message may have been added between looking at the queue and setting the status. */
+			M_event_queue_task(sp->el, M_net_smtp_queue_advance_task, sp->queue);
 			return M_TRUE;
 	}
 	return M_FALSE; /* impossible */
diff --git a/net/smtp/m_net_smtp_queue.c b/net/smtp/m_net_smtp_queue.c
index a0374e7..6771ff8 100644
--- a/net/smtp/m_net_smtp_queue.c
+++ b/net/smtp/m_net_smtp_queue.c
@@ -154,13 +154,15 @@ static dispatch_msg_error_t dispatch_msg_external(M_net_smtp_t *sp)
 	if (ep == NULL)
 		return DISPATCH_MSG_NO_ATTEMPT_NO_ENDPOINT;
 
+	/* Cleared before looking: messages may be announced as soon as the queue was found empty. */
+	q->is_external_queue_pending = M_FALSE;
 	msg = q->external_queue_get_cb();
 
 	if (msg == NULL) {
-		q->is_external_queue_pending = M_FALSE;
 		M_net_smtp_endpoint_release(sp);
 		return DISPATCH_MSG_NO_ATTEMPT_NO_MSG;
 	}
+	q->is_external_queue_pending = M_TRUE;
 
 	is_success = dispatch_msg(sp, ep, msg, 0);
 	M_net_smtp_endpoint_release(sp);
@@ -211,6 +213,18 @@ static dispatch_msg_error_t dispatch_msg_internal(M_net_smtp_t *sp)
 	return DISPATCH_MSG_NO_ATTEMPT_NO_MSG;
 }
 
+static void dispatch_no_endpoint(M_net_smtp_t *sp)
+{
+	/* When every endpoint is busy the end of a session continues the queue. When they all have to
+	 * wait after a failure nothing would: halt, so a restart gets scheduled. The wait may also
+	 * have ended just now, then go on. */
+	if (!M_net_smtp_is_all_endpoints_idle(sp))
+		return;
+	if (M_net_smtp_is_all_endpoints_disabled(sp))
+		M_net_smtp_pause(sp);
+	M_net_smtp_queue_advance(sp->queue);
+}
+
 static void dispatch_msg_external_task(M_event_t *event, M_event_type_t type, M_io_t *io, void *cb_arg)
 {
 	M_net_smtp_t         *sp = cb_arg;
@@ -224,9 +238,11 @@ static void dispatch_msg_external_task(M_event_t *event, M_event_type_t type, M_
 			M_net_smtp_queue_advance(sp->queue);
 			break;
 		case DISPATCH_MSG_NO_ATTEMPT_NO_ENDPOINT:
+			dispatch_no_endpoint(sp);
 			break;
 		case DISPATCH_MSG_SUCCESS:
-			M_event_queue_task(event, dispatch_msg_external_task, sp);
+			/* Looks at the status again, processing may have been stopped in the meantime. */
+			M_event_queue_task(event, M_net_smtp_queue_advance_task, sp->queue);
 			break;
 		case DISPATCH_MSG_FAILURE:
 			M_net_smtp_queue_advance(sp->queue);
@@ -242,10 +258,14 @@ static void dispatch_msg_internal_task(M_event_t *event, M_event_type_t type, M_
 	(void)type;
 	switch (rc) {
 		case DISPATCH_MSG_NO_ATTEMPT_NO_ENDPOINT:
+			dispatch_no_endpoint(sp);
+			break;
 		case DISPATCH_MSG_NO_ATTEMPT_NO_MSG:
+			M_net_smtp_queue_advance(sp->queue);
 			break;
 		case DISPATCH_MSG_SUCCESS:
-			M_event_queue_task(event, dispatch_msg_internal_task, sp);
+			/* Looks at the status again, processing may have been stopped in the meantime. */
+			M_event_queue_task(event, M_net_smtp_queue_advance_task, sp->queue);
 			break;
 		case DISPATCH_MSG_FAILURE:
 			M_net_smtp_queue_advance(sp->queue);
-- 
2.43.0


From 2c04e14cffdcdab1eca89a5cde6285fb5822ec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:43 +0000
Subject: [PATCH 101/104] fix: smtp: dumping the queue raced with adding a
 message

---
 net/smtp/m_net_smtp_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/smtp/m_net_smtp_queue.c b/net/smtp/m_net_smtp_queue.c
index 6771ff8..4a09657 100644
--- a/net/smtp/m_net_smtp_queue.c
+++ b/net/smtp/m_net_smtp_queue.c
@@ -464,8 +464,8 @@ M_list_str_t *M_net_smtp_queue_dump(M_net_smtp_queue_t *q)
 		return list;
 	}
 
-	list = q->internal_queue;
 	M_thread_rwlock_lock(q->internal_queue_rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
+	list              = q->internal_queue;
 	q->internal_queue = M_list_str_create(M_LIST_STR_NONE);
 	M_thread_rwlock_unlock(q->internal_queue_rwlock);
 
-- 
2.43.0


From 8e3a8263bb53a2a3556e96af26a198a75b788ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:34 +0000
Subject: [PATCH 102/104] fix: smtp: idle sessions of a failed endpoint did not
 quit and held up the queue

---
 net/smtp/m_net_smtp_endpoint.c | 4 ++--
 net/smtp/m_net_smtp_session.c  | 6 ++++++
 net/smtp/m_net_smtp_session.h  | 1 +
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/net/smtp/m_net_smtp_endpoint.c b/net/smtp/m_net_smtp_endpoint.c
index 4121e5b..c358d81 100644
--- a/net/smtp/m_net_smtp_endpoint.c
+++ b/net/smtp/m_net_smtp_endpoint.c
@@ -49,7 +49,7 @@ void M_net_smtp_endpoint_reactivate_idle(const M_net_smtp_endpoint_t *ep)
 	M_thread_rwlock_lock(ep->sessions_rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 	session = M_list_take_last(ep->idle_sessions);
 	while (session != NULL) {
-		M_list_insert(ep->send_sessions, session);
+		M_list_insert(ep->cull_sessions, session);
 		M_list_insert(sessions, session);
 		session = M_list_take_last(ep->idle_sessions);
 	}
@@ -58,7 +58,7 @@ void M_net_smtp_endpoint_reactivate_idle(const M_net_smtp_endpoint_t *ep)
 	/* Not with the lock held, a session that ends moves itself between the lists. */
 	session = M_list_take_first(sessions);
 	while (session != NULL) {
-		M_net_smtp_session_reactivate_tcp(session);
+		M_net_smtp_session_quit_tcp(session);
 		session = M_list_take_first(sessions);
 	}
 	M_list_destroy(sessions, M_TRUE);
diff --git a/net/smtp/m_net_smtp_session.c b/net/smtp/m_net_smtp_session.c
index e213c6b..4cfb40b 100644
--- a/net/smtp/m_net_smtp_session.c
+++ b/net/smtp/m_net_smtp_session.c
@@ -552,6 +552,12 @@ void M_net_smtp_session_reactivate_tcp(M_net_smtp_session_t *session)
 	session_tcp_advance_task(session->sp->el, M_EVENT_TYPE_WRITE, session->io, session);
 }
 
+void M_net_smtp_session_quit_tcp(M_net_smtp_session_t *session)
+{
+	/* As if it had been idle for too long */
+	session_tcp_advance_task(session->sp->el, M_EVENT_TYPE_OTHER, session->io, session);
+}
+
 void M_net_smtp_session_reactivate_tcp_task(M_event_t *el, M_event_type_t etype, M_io_t *io, void *thunk)
 {
 	(void)el;
diff --git a/net/smtp/m_net_smtp_session.h b/net/smtp/m_net_smtp_session.h
index 5a9f292..7360923 100644
--- a/net/smtp/m_net_smtp_session.h
+++ b/net/smtp/m_net_smtp_session.h
@@ -94,6 +94,7 @@ typedef struct {
 M_net_smtp_session_t * M_net_smtp_session_create(const M_net_smtp_t *sp, const M_net_smtp_endpoint_t* ep);
 
 void M_net_smtp_session_reactivate_tcp     (M_net_smtp_session_t *session);
+void M_net_smtp_session_quit_tcp           (M_net_smtp_session_t *session);
 void M_net_smtp_session_reactivate_tcp_task(M_event_t *el, M_event_type_t etype, M_io_t *io, void *thunk);
 void M_net_smtp_session_clean              (M_net_smtp_session_t *session);
 void M_net_smtp_session_destroy            (M_net_smtp_session_t *session, M_bool is_remove_from_endpoint);
-- 
2.43.0


From aaa098403c79b7d1fce6d9dcb6a291e2dc10a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:32 +0000
Subject: [PATCH 103/104] fix: smtp: mail handed to a program was cut short,
 session stuck or freed while in use

---
 net/smtp/m_net_smtp_session.c | 294 +++++++++++++++++-----------------
 1 file changed, 148 insertions(+), 146 deletions(-)

diff --git a/net/smtp/m_net_smtp_session.c b/net/smtp/m_net_smtp_session.c
index 4cfb40b..7d0d9ef 100644
--- a/net/smtp/m_net_smtp_session.c
+++ b/net/smtp/m_net_smtp_session.c
@@ -251,179 +251,181 @@ static void session_tcp_advance_task(M_event_t *el, M_event_type_t etype, M_io_t
 	}
 }
 
+static void session_proc_read(M_net_smtp_session_t *session, M_io_t **io, M_bool is_stderr)
+{
+	unsigned char buf[256];
+	size_t        len      = 0;
+	size_t        errlen;
+	M_io_error_t  io_error = M_IO_ERROR_SUCCESS;
+
+	while (*io != NULL && io_error == M_IO_ERROR_SUCCESS) {
+		io_error = M_io_read(*io, buf, sizeof(buf), &len);
+		if (io_error != M_IO_ERROR_SUCCESS)
+			break;
+		if (is_stderr) {
+			/* As much as there is room for */
+			errlen = M_str_len(session->errmsg);
+			M_str_cpy_max(session->errmsg + errlen, sizeof(session->errmsg) - errlen, (const char *)buf, len);
+		} else if (M_parser_len(session->in_parser) < 65536) {
+			M_parser_append(session->in_parser, buf, len);
+		}
+	}
+}
+
+static void session_proc_close(M_net_smtp_session_t *session, unsigned int connection_mask)
+{
+	M_io_t **session_io = NULL;
+
+	switch (connection_mask) {
+		case M_NET_SMTP_CONNECTION_MASK_IO:
+			session_io = &session->io;
+			break;
+		case M_NET_SMTP_CONNECTION_MASK_IO_STDIN:
+			session_io = &session->process.io_stdin;
+			break;
+		case M_NET_SMTP_CONNECTION_MASK_IO_STDOUT:
+			session_io = &session->process.io_stdout;
+			break;
+		case M_NET_SMTP_CONNECTION_MASK_IO_STDERR:
+			session_io = &session->process.io_stderr;
+			break;
+		default:
+			return;
+	}
+	session->connection_mask &= ~connection_mask;
+	M_io_destroy(*session_io);
+	*session_io = NULL;
+}
+
+static void session_proc_fail(M_net_smtp_session_t *session)
+{
+	char *stdout_str = M_parser_read_strdup(session->in_parser, M_parser_len(session->in_parser));
+
+	M_net_smtp_process_fail(session, stdout_str == NULL ? "" : stdout_str);
+	M_free(stdout_str);
+}
+
+/* The process ended, or never started: nothing else is going to happen. */
+static session_status_t session_proc_end(M_net_smtp_session_t *session, M_event_type_t etype)
+{
+	/* What it said last */
+	session_proc_read(session, &session->process.io_stdout, M_FALSE);
+	session_proc_read(session, &session->process.io_stderr, M_TRUE);
+
+	if (M_io_process_get_result_code(session->io, &session->process.result_code)) {
+		if (session->process.result_code != 0) {
+			session_proc_fail(session);
+			session->is_successfully_sent = M_FALSE;
+			if (session->errmsg[0] == 0) {
+				M_snprintf(session->errmsg, sizeof(session->errmsg), "Bad result code %d", session->process.result_code);
+			}
+		}
+	} else if (etype == M_EVENT_TYPE_ERROR && M_io_get_error(session->io) == M_IO_ERROR_TIMEDOUT) {
+		session->is_successfully_sent = M_FALSE;
+		M_snprintf(session->errmsg, sizeof(session->errmsg), "Timed out");
+	} else if (etype == M_EVENT_TYPE_ERROR) {
+		session->is_successfully_sent = M_FALSE;
+		session->process.result_code  = (int)M_io_get_error(session->io);
+		M_snprintf(session->errmsg, sizeof(session->errmsg), "%s", M_io_error_string(M_io_get_error(session->io)));
+		session_proc_fail(session);
+	} else {
+		session->is_successfully_sent = M_FALSE;
+		if (session->errmsg[0] == 0) {
+			M_snprintf(session->errmsg, sizeof(session->errmsg), "Error getting result code");
+		}
+	}
+	if (!session->is_successfully_sent && session->errmsg[0] == 0) {
+		M_snprintf(session->errmsg, sizeof(session->errmsg), "Process ended before it took the whole message");
+	}
+
+	M_event_timer_remove(session->event_timer);
+	session->event_timer = NULL;
+	session_proc_close(session, M_NET_SMTP_CONNECTION_MASK_IO_STDIN);
+	session_proc_close(session, M_NET_SMTP_CONNECTION_MASK_IO_STDOUT);
+	session_proc_close(session, M_NET_SMTP_CONNECTION_MASK_IO_STDERR);
+	session_proc_close(session, M_NET_SMTP_CONNECTION_MASK_IO);
+	return SESSION_FINISHED;
+}
+
 static session_status_t session_proc_advance(M_event_t *el, M_event_type_t etype, M_io_t *io, void *thunk, unsigned int connection_mask)
 {
 	M_net_smtp_session_t  *session    = thunk;
 	M_io_error_t           io_error   = M_IO_ERROR_SUCCESS;
-	M_io_t               **session_io = NULL;
-	size_t                 len;
 	(void)el;
+	(void)io;
+
+	if (session->io == NULL)
+		return SESSION_STALE;
 
 	switch(etype) {
 		case M_EVENT_TYPE_CONNECTED:
 			session->connection_mask |= connection_mask;
 			break;
 		case M_EVENT_TYPE_DISCONNECTED:
-			session->connection_mask &= ~connection_mask;
-			if (io == session->io) {
-				if (!M_io_process_get_result_code(io, &session->process.result_code)) {
-					session->is_successfully_sent = M_FALSE;
-					if (session->errmsg[0] == 0) {
-						M_snprintf(session->errmsg, sizeof(session->errmsg), "Error getting result code");
-					}
-				}
-				if (session->process.result_code != 0) {
-					char *stdout_str = M_buf_finish_str(session->out_buf, NULL);
-					session->out_buf = NULL;
-					M_net_smtp_process_fail(session, stdout_str);
-					M_free(stdout_str);
-					session->is_successfully_sent = M_FALSE;
-					if (session->errmsg[0] == 0) {
-						M_snprintf(session->errmsg, sizeof(session->errmsg), "Bad result code %d", session->process.result_code);
-					}
-				}
-				if (session->process.io_stdin != NULL) {
-					trigger_softevent(session->process.io_stdin, M_EVENT_TYPE_DISCONNECTED);
-				}
-			}
-			break;
-		case M_EVENT_TYPE_READ:
-			if (connection_mask == M_NET_SMTP_CONNECTION_MASK_IO_STDERR) {
-				io_error = M_io_read(io, (unsigned char *)session->errmsg, sizeof(session->errmsg) - 1, &len);
-				if (io_error == M_IO_ERROR_DISCONNECT) {
-					session->connection_mask &= ~connection_mask;
-					break;
-				}
-				if (io_error != M_IO_ERROR_SUCCESS && io_error != M_IO_ERROR_WOULDBLOCK) {
-					M_snprintf(session->errmsg, sizeof(session->errmsg), "Read failure: %s", M_io_error_string(io_error));
-					goto destroy;
-				}
-				session->errmsg[len] = '\0';
-				goto destroy;
-			}
-			if (connection_mask == M_NET_SMTP_CONNECTION_MASK_IO_STDOUT) {
-				io_error = M_io_read_into_parser(io, session->in_parser);
-				if (io_error == M_IO_ERROR_DISCONNECT) {
-					session->connection_mask &= ~connection_mask;
-					break;
-				}
-				if (io_error != M_IO_ERROR_SUCCESS && io_error != M_IO_ERROR_WOULDBLOCK) {
-					M_snprintf(session->errmsg, sizeof(session->errmsg), "Read failure: %s", M_io_error_string(io_error));
-				}
-				goto destroy; /* shouldn't receive anything on stdout */
-			}
-			session->is_successfully_sent = M_FALSE;
-			M_snprintf(session->errmsg, sizeof(session->errmsg), "Unexpected event: %s", M_event_type_string(etype));
-			goto destroy;
-			break;
-		case M_EVENT_TYPE_WRITE:
-			if (connection_mask != M_NET_SMTP_CONNECTION_MASK_IO_STDIN) {
-				session->is_successfully_sent = M_FALSE;
-				M_snprintf(session->errmsg, sizeof(session->errmsg), "Unexpected event: %s", M_event_type_string(etype));
-				goto destroy;
-			}
-			if (M_buf_len(session->out_buf) > 0) {
-				io_error = M_io_write_from_buf(io, session->out_buf);
-				if (io_error == M_IO_ERROR_DISCONNECT) {
-					session->connection_mask &= ~connection_mask;
-					break;
-				}
-				if (session->process.len > 0) {
-					/* Give process a chance to parse and react to input */
-					M_uint64 timeout_ms = 5000;
-					if (session->ep->process.timeout_ms > 0 && session->ep->process.timeout_ms < (timeout_ms * 10) / 9) {
-						/* If we have less than 90% of the timeout before a process timeout, use 90% of the time available
-							* to try to detect a problem */
-						timeout_ms = (session->ep->process.timeout_ms * 9) / 10;
-					}
-					session->event_timer = M_event_timer_oneshot(session->sp->el, timeout_ms, M_FALSE, session_proc_advance_stdin_task, session);
-				} else {
-					session->event_timer = NULL;
-				}
-			}
-			if (session->process.len == 0) {
-				session->connection_mask &= ~connection_mask;
-				break;
-			}
-			return SESSION_PROCESSING;
 		case M_EVENT_TYPE_ERROR:
 		case M_EVENT_TYPE_ACCEPT:
-			if (etype == M_EVENT_TYPE_ERROR && connection_mask == M_NET_SMTP_CONNECTION_MASK_IO_STDIN) {
-				session->connection_mask &= ~connection_mask;
-				break;
-			}
-			if (etype == M_EVENT_TYPE_ERROR && io == session->io && M_io_get_error(io) == M_IO_ERROR_TIMEDOUT) {
-				session->connection_mask &= ~connection_mask;
-				M_snprintf(session->errmsg, sizeof(session->errmsg), "Timed out");
-				session->is_successfully_sent = M_FALSE;
-				goto destroy;
-				break;
-			}
-			session->is_successfully_sent = M_FALSE;
-			M_snprintf(session->errmsg, sizeof(session->errmsg), "Unexpected event: %s", M_event_type_string(etype));
-			goto destroy;
+			if (connection_mask == M_NET_SMTP_CONNECTION_MASK_IO)
+				return session_proc_end(session, etype);
+			session_proc_close(session, connection_mask);
+			return SESSION_PROCESSING;
+		case M_EVENT_TYPE_READ:
+			/* Output is kept for the report, it doesn't mean anything else: the exit code tells if the message was taken. */
+			if (connection_mask == M_NET_SMTP_CONNECTION_MASK_IO_STDERR)
+				session_proc_read(session, &session->process.io_stderr, M_TRUE);
+			if (connection_mask == M_NET_SMTP_CONNECTION_MASK_IO_STDOUT)
+				session_proc_read(session, &session->process.io_stdout, M_FALSE);
+			return SESSION_PROCESSING;
+		case M_EVENT_TYPE_WRITE:
 			break;
 		case M_EVENT_TYPE_OTHER:
 			if (session->event_timer != NULL) {
 				session->process.is_done_waiting = M_TRUE;
-				M_event_timer_stop(session->event_timer);
 				M_event_timer_remove(session->event_timer);
 				session->event_timer = NULL;
 			}
 			break;
 	}
 
-	switch (M_state_machine_run(session->state_machine, session)) {
-		case M_STATE_MACHINE_STATUS_WAIT:
-			break;
-		case M_STATE_MACHINE_STATUS_DONE:
-			goto destroy;
-		default: /* M_STATE_MACHINE_STATUS_ERROR_STATE is the only real other option */
-			if (M_str_eq(session->errmsg, "")) {
-				M_snprintf(session->errmsg, sizeof(session->errmsg), "State machine error");
-			}
-			goto destroy;
-	}
-
-	if ((session->connection_mask & connection_mask) == 0)
-		goto destroy;
-
-	if (M_buf_len(session->out_buf) > 0)
-		trigger_write_softevent(session->process.io_stdin);
-
-	return SESSION_PROCESSING;
-destroy:
-	switch (connection_mask) {
-		case M_NET_SMTP_CONNECTION_MASK_IO:
-			session_io = &session->io;
-			break;
-		case M_NET_SMTP_CONNECTION_MASK_IO_STDIN:
-			session_io = &session->process.io_stdin;
-			break;
-		case M_NET_SMTP_CONNECTION_MASK_IO_STDOUT:
-			session_io = &session->process.io_stdout;
-			break;
-		case M_NET_SMTP_CONNECTION_MASK_IO_STDERR:
-			session_io = &session->process.io_stderr;
-			break;
+	/* Puts as much of the message as may be sent now into the buffer */
+	if (M_state_machine_run(session->state_machine, session) == M_STATE_MACHINE_STATUS_ERROR_STATE) {
+		if (M_str_eq(session->errmsg, "")) {
+			M_snprintf(session->errmsg, sizeof(session->errmsg), "State machine error");
+		}
 	}
 
-	if (*session_io != NULL) {
-		M_io_destroy(*session_io);
-		*session_io = NULL;
-		if (session->connection_mask == M_NET_SMTP_CONNECTION_MASK_NONE) {
-			return SESSION_FINISHED;
+	if (etype == M_EVENT_TYPE_WRITE && connection_mask == M_NET_SMTP_CONNECTION_MASK_IO_STDIN && session->process.io_stdin != NULL) {
+		if (M_buf_len(session->out_buf) > 0) {
+			io_error = M_io_write_from_buf(session->process.io_stdin, session->out_buf);
+			if (io_error != M_IO_ERROR_SUCCESS && io_error != M_IO_ERROR_WOULDBLOCK) {
+				session_proc_close(session, connection_mask);
+				return SESSION_PROCESSING;
+			}
+			if (M_buf_len(session->out_buf) > 0) {
+				/* Only a part fit, there will be another write event */
+				return SESSION_PROCESSING;
+			}
+			if (session->process.len > 0) {
+				/* Give process a chance to parse and react to input */
+				M_uint64 timeout_ms = 5000;
+				if (session->ep->process.timeout_ms > 0 && session->ep->process.timeout_ms < (timeout_ms * 10) / 9) {
+					/* If we have less than 90% of the timeout before a process timeout, use 90% of the time available
+						* to try to detect a problem */
+					timeout_ms = (session->ep->process.timeout_ms * 9) / 10;
+				}
+				session->event_timer = M_event_timer_oneshot(session->sp->el, timeout_ms, M_FALSE, session_proc_advance_stdin_task, session);
+			}
+			/* Notices that the buffer is empty */
+			M_state_machine_run(session->state_machine, session);
 		}
+		if (session->process.len == 0 && M_buf_len(session->out_buf) == 0) {
+			/* All of it, the end of input follows */
+			session_proc_close(session, connection_mask);
+		}
+		return SESSION_PROCESSING;
 	}
 
-	if (session->process.io_stdin != NULL)
-		trigger_softevent(session->process.io_stdin, M_EVENT_TYPE_DISCONNECTED);
-
-	if (session->process.io_stdout != NULL)
-		trigger_softevent(session->process.io_stdout, M_EVENT_TYPE_DISCONNECTED);
-
-	if (session->process.io_stderr != NULL)
-		trigger_softevent(session->process.io_stderr, M_EVENT_TYPE_DISCONNECTED);
+	if (M_buf_len(session->out_buf) > 0 && session->process.io_stdin != NULL)
+		trigger_write_softevent(session->process.io_stdin);
 
 	return SESSION_PROCESSING;
 }
@@ -523,7 +525,7 @@ void M_net_smtp_session_clean(M_net_smtp_session_t *session)
 			session->retry_ms
 		};
 
-		if (session->tcp.net_error == M_NET_ERROR_TIMEOUT_STALL && session->ep->tcp.stall_retries < (session->sp->max_stall_retries)) {
+		if (session->ep->type == M_NET_SMTP_EPTYPE_TCP && session->tcp.net_error == M_NET_ERROR_TIMEOUT_STALL && session->ep->tcp.stall_retries < (session->sp->max_stall_retries)) {
 			M_CAST_OFF_CONST(M_net_smtp_endpoint_t*, session->ep)->tcp.stall_retries++;
 		} else {
 			M_CAST_OFF_CONST(M_net_smtp_endpoint_t*, session->ep)->tcp.stall_retries = 0;
-- 
2.43.0


From 0a48ad2b07035784e4080ec3e9cffd4c7a821060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:39 +0000
Subject: [PATCH 104/104] fix: smtp: round robin skipped an endpoint each time
 an external queue was found empty

---
 net/smtp/m_net_smtp_queue.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/net/smtp/m_net_smtp_queue.c b/net/smtp/m_net_smtp_queue.c
index 4a09657..077469a 100644
--- a/net/smtp/m_net_smtp_queue.c
+++ b/net/smtp/m_net_smtp_queue.c
@@ -148,8 +148,12 @@ static dispatch_msg_error_t dispatch_msg_external(M_net_smtp_t *sp)
 	const M_net_smtp_endpoint_t *ep         = NULL;
 	char                        *msg        = NULL;
 	M_bool                       is_success = M_FALSE;
+	size_t                       round_robin_idx;
 
-	ep = M_net_smtp_endpoint_acquire(sp);
+	M_thread_mutex_lock(sp->endpoints_mutex);
+	round_robin_idx = sp->round_robin_idx;
+	ep              = M_net_smtp_endpoint_acquire(sp);
+	M_thread_mutex_unlock(sp->endpoints_mutex);
 
 	if (ep == NULL)
 		return DISPATCH_MSG_NO_ATTEMPT_NO_ENDPOINT;
@@ -159,6 +163,8 @@ static dispatch_msg_error_t dispatch_msg_external(M_net_smtp_t *sp)
 	msg = q->external_queue_get_cb();
 
 	if (msg == NULL) {
+		/* It wasn't used, still its turn */
+		sp->round_robin_idx = round_robin_idx;
 		M_net_smtp_endpoint_release(sp);
 		return DISPATCH_MSG_NO_ATTEMPT_NO_MSG;
 	}
-- 
2.43.0

