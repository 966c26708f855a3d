From 9a8c8656222577d88b35d2d812550bd962033531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 01/35] fix: wake every thread waiting for a thread pool to
 drain

iot_threadpool_wait may be called by several threads at once, but the workers
woke only one of them when the pool became idle; the others slept forever.
---
 src/c/threadpool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/threadpool.c b/src/c/threadpool.c
index 42b590e..d4de189 100644
--- a/src/c/threadpool.c
+++ b/src/c/threadpool.c
@@ -116,7 +116,7 @@ static void * iot_threadpool_thread (void * arg)
       {
         pool->front = NULL;
         pool->rear = NULL;
-        pthread_cond_signal (&pool->work_cond); // Signal no jobs in queue
+        pthread_cond_broadcast (&pool->work_cond); // Signal no jobs in queue
       }
       if ((pool->jobs + 1) == pool->max_jobs)
       {
@@ -136,7 +136,7 @@ static void * iot_threadpool_thread (void * arg)
       iot_component_lock (comp);
       if (--pool->working == 0)
       {
-        pthread_cond_signal (&pool->work_cond); // Signal when no threads working
+        pthread_cond_broadcast (&pool->work_cond); // Signal when no threads working
       }
     }
     else
-- 
2.43.0


From fcb8a80ba53382c3c187345a4279e7aa2b3b7dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 02/35] fix: take scheduler wake up time from the queue as it
 is when waiting starts

The time was calculated at the end of the previous loop and the lock then
released: a schedule added or reset before the wait found no waiter to signal
and was only triggered at the stale time, up to a day later.
---
 src/c/scheduler.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 892e838..581052a 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -154,15 +154,18 @@ static void * schedule_fn (void * data)
 static void * iot_scheduler_thread (void * arg)
 {
   iot_component_state_t state;
-  uint64_t next = iot_time_nsecs ();
+  uint64_t next;
   iot_scheduler_t * scheduler = (iot_scheduler_t*) arg;
   iot_data_t * queue = scheduler->queue;
 
-  nsToTimespec (next, &scheduler->schd_time);
   while (true)
   {
     state = iot_component_wait_and_lock (&scheduler->component, (uint32_t) IOT_COMPONENT_DELETED | (uint32_t) IOT_COMPONENT_RUNNING); // State wait
     if (state == IOT_COMPONENT_DELETED) break; // Exit thread on deletion
+    /* Get the schedule at the front of the queue */
+    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
+    nsToTimespec (next, &scheduler->schd_time); // Calculate next execution time, with lock held so no queue change can be missed
     pthread_cond_timedwait (&scheduler->component.cond, &scheduler->component.mutex, &scheduler->schd_time); // Schedule wait
     state = scheduler->component.state;
     if (state != IOT_COMPONENT_RUNNING)
@@ -173,8 +176,8 @@ static void * iot_scheduler_thread (void * arg)
       continue; // Wait for thread to be restarted or deleted
     }
 
-    /* Get the schedule at the front of the queue */
-    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    /* Get the schedule now at the front of the queue */
+    current = iot_schedule_queue_next (queue);
     if (current && current->start < iot_time_nsecs ()) // If a schedule and ready to run
     {
       bool valid_current = atomic_load (&current->scheduled);
@@ -250,10 +253,7 @@ static void * iot_scheduler_thread (void * arg)
       {
         iot_log_trace (scheduler->logger, "Current schedule deleted");
       }
-      current = iot_schedule_queue_next (queue);
     }
-    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
-    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     iot_component_unlock (&scheduler->component);
   }
   iot_component_unlock (&scheduler->component);
-- 
2.43.0


From a32511d6d4f8fb25e924577df10b9ea893bad5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 03/35] fix: wake the scheduler thread, not only a state
 waiter, when a schedule is queued

The condition variable is shared with threads in iot_component_wait, which
could consume the signal meant for the scheduler thread.
---
 src/c/scheduler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 581052a..877f88f 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -335,7 +335,7 @@ bool iot_schedule_add (iot_scheduler_t * scheduler, iot_schedule_t * schedule)
     /* If the schedule was placed and the front of the queue and the scheduler is running */
     if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))
     {
-      pthread_cond_signal (&scheduler->component.cond);
+      pthread_cond_broadcast (&scheduler->component.cond); // Condition shared with threads waiting for component state
     }
   }
   iot_component_unlock (&scheduler->component);
@@ -371,7 +371,7 @@ void iot_schedule_reset (iot_scheduler_t * scheduler, iot_schedule_t * schedule,
     bool front = iot_schedule_queue_update (scheduler, schedule, next);
     if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))
     {
-      pthread_cond_signal (&scheduler->component.cond);
+      pthread_cond_broadcast (&scheduler->component.cond); // Condition shared with threads waiting for component state
     }
   }
   else
-- 
2.43.0


From 00a213b170fecb1b63014aa2a624ac720c9b1e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 04/35] fix: do not wait for a schedule that is already due

After the system clock was set back a due schedule was held up for as long
as the step, although iot_time_nsecs does not go back.
---
 src/c/scheduler.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 877f88f..03c2713 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -165,8 +165,11 @@ static void * iot_scheduler_thread (void * arg)
     /* Get the schedule at the front of the queue */
     iot_schedule_t * current = iot_schedule_queue_next (queue);
     next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
-    nsToTimespec (next, &scheduler->schd_time); // Calculate next execution time, with lock held so no queue change can be missed
-    pthread_cond_timedwait (&scheduler->component.cond, &scheduler->component.mutex, &scheduler->schd_time); // Schedule wait
+    if (next >= iot_time_nsecs ()) // Do not wait if already due, system clock may have been set back since
+    {
+      nsToTimespec (next, &scheduler->schd_time); // Calculate next execution time, with lock held so no queue change can be missed
+      pthread_cond_timedwait (&scheduler->component.cond, &scheduler->component.mutex, &scheduler->schd_time); // Schedule wait
+    }
     state = scheduler->component.state;
     if (state != IOT_COMPONENT_RUNNING)
     {
-- 
2.43.0


From 472bd9cdff4afab5c07253692cf6a756afcfc194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 05/35] fix: wait for the scheduler thread to exit before
 freeing the scheduler

Fixed sleeps were used, so a thread delayed for longer or in a callback
used the freed scheduler.
---
 src/c/scheduler.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 03c2713..7076873 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -49,6 +49,7 @@ struct iot_scheduler_t
   iot_data_t * idle;              /* Map of idle schedules, keyed by unique schedule id */
   iot_logger_t * logger;          /* Optional logger */
   struct timespec schd_time;      /* Time for next schedule */
+  bool active;                    /* Whether scheduler thread exists, protected by component lock */
 };
 
 static inline void iot_schedule_add_ref (iot_schedule_t * schedule)
@@ -259,6 +260,8 @@ static void * iot_scheduler_thread (void * arg)
     }
     iot_component_unlock (&scheduler->component);
   }
+  scheduler->active = false;
+  pthread_cond_broadcast (&scheduler->component.cond); // Last use of scheduler by thread is the unlock
   iot_component_unlock (&scheduler->component);
   return NULL;
 }
@@ -272,7 +275,8 @@ iot_scheduler_t * iot_scheduler_alloc (int priority, int affinity, iot_logger_t
   scheduler->queue = iot_data_alloc_map (IOT_DATA_UINT64);
   iot_logger_add_ref (logger);
   iot_log_info (logger, "iot_scheduler_alloc (priority: %d affinity: %d)", priority, affinity);
-  iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger);
+  scheduler->active = true;
+  if (!iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger)) scheduler->active = false;
   return scheduler;
 }
 
@@ -443,9 +447,13 @@ void iot_scheduler_free (iot_scheduler_t * scheduler)
   {
     iot_log_trace (scheduler->logger, "iot_scheduler_free");
     iot_component_set_stopped (&scheduler->component); // Break schedule thread out of schedule wait
-    iot_wait_usecs (500u);
     iot_component_set_deleted (&scheduler->component); // Break schedule thread out of state wait
-    iot_wait_usecs (500u);
+    iot_component_lock (&scheduler->component);
+    while (scheduler->active) // Wait for schedule thread to exit
+    {
+      pthread_cond_wait (&scheduler->component.cond, &scheduler->component.mutex);
+    }
+    iot_component_unlock (&scheduler->component);
     iot_scheduler_free_schedules (scheduler->queue);
     iot_scheduler_free_schedules (scheduler->idle);
     iot_logger_free (scheduler->logger);
-- 
2.43.0


From 8985854065711643b1d25d03e46519b4c8c9d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 06/35] fix: do not requeue a schedule removed while its thread
 failed to be created

---
 src/c/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 7076873..19c638b 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -226,7 +226,7 @@ static void * iot_scheduler_thread (void * arg)
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " as thread", current->id);
           if (!iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger))
           {
-            valid_current = atomic_load (&current->refs) > 1u;
+            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
             iot_schedule_free (current);
           }
         }
-- 
2.43.0


From b14bee5e42f415b1378b0a55dd65338e167860b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 07/35] fix: keep the start time set by a reset while the
 schedule is triggered

A reset during the run or abort callback was overwritten when the schedule
was requeued, so that it was triggered before the delay had passed.
---
 src/c/scheduler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 19c638b..a93dea7 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -36,6 +36,7 @@ struct iot_schedule_t
   _Atomic bool concurrent;           /* Whether a schedule can be concurrently executed */
   _Atomic bool sync;                 /* Whether schedule called synchronously by the scheduler thread */
   bool scheduled;                    /* A flag to indicate schedule status */
+  bool reset;                        /* Whether schedule reset while being triggered */
   iot_data_static_t start_key;       /* Data wrapper for schedule start time used as key for queue map */
   iot_data_static_t id_key;          /* Data wrapper for schedule id used as key for idle map */
   iot_data_static_t self_static;     /* Data wrapper for self pointer used as value for idle and queue maps */
@@ -185,6 +186,7 @@ static void * iot_scheduler_thread (void * arg)
     if (current && current->start < iot_time_nsecs ()) // If a schedule and ready to run
     {
       bool valid_current = atomic_load (&current->scheduled);
+      current->reset = false;
       if (atomic_load (&current->concurrent) || (atomic_load (&current->refs) == 1u)) // Check for concurrent execution
       {
         iot_schedule_add_ref (current);
@@ -239,7 +241,7 @@ static void * iot_scheduler_thread (void * arg)
       if (valid_current)
       {
         /* Recalculate the next start time for the schedule */
-        next = current->period + iot_time_nsecs ();
+        next = current->reset ? current->start : current->period + iot_time_nsecs (); // Keep start time set by a reset from or during a callback
 
         if ((current->repeat > 0u) && (--(current->repeat) == 0u)) // Last repetition
         {
@@ -373,6 +375,7 @@ void iot_schedule_reset (iot_scheduler_t * scheduler, iot_schedule_t * schedule,
 
   /* Recalculate the next start time for the schedule */
   uint64_t next = schedule->period + iot_time_nsecs () + delay;
+  schedule->reset = true;
   if (schedule->scheduled)
   {
     bool front = iot_schedule_queue_update (scheduler, schedule, next);
-- 
2.43.0


From 742624833b62c6f553f6c3bd63e5ccfcfe02c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 08/35] fix: create threads detached when falling back to
 default attributes

---
 src/c/thread.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index f5d779b..baaaf38 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -112,7 +112,12 @@ bool iot_thread_create (pthread_t * tid, iot_thread_fn_t func, void * arg, int p
   ret = pthread_create (tid, &attr, func, arg);
   if (ret != 0)
   {
-    ret = pthread_create (tid, NULL, func, arg);
+    /* Retry with default scheduling, still detached as no thread is ever joined */
+
+    pthread_attr_destroy (&attr);
+    pthread_attr_init (&attr);
+    pthread_attr_setdetachstate (&attr, PTHREAD_CREATE_DETACHED);
+    ret = pthread_create (tid, &attr, func, arg);
     if (ret != 0) iot_log_error (logger, "pthread_create failed ret: %d", ret);
   }
   pthread_attr_destroy (&attr);
-- 
2.43.0


From ac28ae5265d21ed92d3a385379940dc49da89b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 09/35] fix: thread priority range must not be seen half
 initialised

---
 src/c/thread.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index baaaf38..a31daae 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -35,14 +35,7 @@ static void * zephyr_func_wrapper (void * data)
 
 bool iot_thread_priority_valid (int priority)
 {
-  static int max_priority = -2;
-  static int min_priority = -2;
-  if (max_priority == -2)
-  {
-    max_priority = sched_get_priority_max (SCHED_FIFO);
-    min_priority = sched_get_priority_min (SCHED_FIFO);
-  }
-  return (priority >= min_priority && priority <= max_priority);
+  return (priority >= sched_get_priority_min (SCHED_FIFO) && priority <= sched_get_priority_max (SCHED_FIFO));
 }
 
 bool iot_thread_create (pthread_t * tid, iot_thread_fn_t func, void * arg, int priority, int affinity, iot_logger_t * logger)
-- 
2.43.0


From bdcbe403b9317fe571058a04334e7e17291efac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:12 +0000
Subject: [PATCH 10/35] fix: allocate enough memory for the copy of an array's
 data

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 6f6b451..fc95d59 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1541,7 +1541,7 @@ extern void * iot_data_binary_take (iot_data_t * data, uint32_t * len)
   }
   else
   {
-    ret = malloc (array->length);
+    ret = malloc (*len);
     memcpy (ret, array->data, *len);
   }
   return ret;
-- 
2.43.0


From 199f5e3fdc46247eb238343bb88fec4662c40fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:21 +0000
Subject: [PATCH 11/35] fix: copy metadata with the value and leave a shared
 pointer's alone

iot_data_copy added a reference to the metadata of a pointer value for every
copy without releasing it, and let copies share one modifiable metadata map.
---
 src/c/data.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index fc95d59..3f97ac7 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2679,9 +2679,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
     }
     case IOT_DATA_POINTER:
     {
-      ret = (iot_data_t*) data;
-      iot_data_add_ref (ret);
-      break;
+      return iot_data_add_ref (data);
     }
     default: // basic types
     {
@@ -2691,7 +2689,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
       ret = (iot_data_t*) val;
     }
   }
-  ret->base.meta = iot_data_add_ref (data->base.meta);
+  ret->base.meta = iot_data_copy (data->base.meta);
   return ret;
 }
 
-- 
2.43.0


From dab52d7997db391cbb4bb588c9d4d26261f8a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:21 +0000
Subject: [PATCH 12/35] fix: release the buffer taken by an empty array

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 3f97ac7..2cf2dba 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1583,7 +1583,7 @@ extern iot_data_t * iot_data_alloc_array (void * data, uint32_t length, iot_data
   iot_data_array_t * array = iot_data_block_alloc_data (IOT_DATA_ARRAY);
   size_t size = iot_data_type_sizes[type] * length;
   array->base.element_type = type;
-  array->data = length ? data : NULL;
+  array->data = (length || ownership == IOT_DATA_TAKE) ? data : NULL;
   array->length = length;
   array->base.hash = data ? iot_hash_data (data, size) : 0;
   array->base.release = data ? (ownership != IOT_DATA_REF) : false;
-- 
2.43.0


From 6c6bb3a6b0be7bffbb18331f104388fe8d0d1ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:37 +0000
Subject: [PATCH 13/35] fix: concurrent readers must not see a half computed
 hash

---
 src/c/data.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 2cf2dba..7954a33 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -287,12 +287,11 @@ extern void iot_data_block_free (void  * ptr)
 #endif
 }
 
-static inline void iot_data_map_hash (iot_data_t * map, const iot_data_t * key, const iot_data_t * value)
+static inline uint32_t iot_data_pair_hash (const iot_data_t * key, const iot_data_t * value)
 {
   uint32_t key_hash = iot_data_hash (key);
   uint32_t val_hash = iot_data_hash (value);
-  map->hash ^= key_hash;
-  if (val_hash != key_hash) map->hash ^= val_hash; // Only apply value hash if different from key hash or hashes cancel out
+  return (val_hash != key_hash) ? (key_hash ^ val_hash) : key_hash; // Only apply value hash if different from key hash or hashes cancel out
 }
 
 uint32_t iot_data_hash (const iot_data_t * data)
@@ -300,15 +299,14 @@ uint32_t iot_data_hash (const iot_data_t * data)
   iot_data_t * da = (iot_data_t*) data;
   if (da && da->rehash)
   {
-    da->hash = 0;
-    da->rehash = false;
+    uint32_t hash = 0; // Calculated locally as other threads may be reading (and rehashing) the same data
     if (da->type == IOT_DATA_VECTOR)
     {
       iot_data_vector_iter_t iter;
       iot_data_vector_iter (da, &iter);
       while (iot_data_vector_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
+        hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
       }
     }
     else if (da->type == IOT_DATA_LIST)
@@ -317,7 +315,7 @@ uint32_t iot_data_hash (const iot_data_t * data)
       iot_data_list_iter (da, &iter);
       while (iot_data_list_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
+        hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
       }
     }
     else // IOT_DATA_MAP
@@ -326,10 +324,15 @@ uint32_t iot_data_hash (const iot_data_t * data)
       iot_data_map_iter (da, &iter);
       while (iot_data_map_iter_next (&iter))
       {
-        iot_data_map_hash (da, iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
+        hash ^= iot_data_pair_hash (iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
       }
     }
+    da->hash = hash;
+    atomic_thread_fence (memory_order_release); // Hash must be visible before rehash flag is cleared
+    da->rehash = false;
+    return hash;
   }
+  atomic_thread_fence (memory_order_acquire);
   return da ? da->hash : 0u;
 }
 
@@ -3195,7 +3198,7 @@ static bool iot_node_add (iot_data_map_t * map, iot_data_t * key, iot_data_t * v
   else
   {
     iot_node_insert (map, key, value);
-    iot_data_map_hash (&map->base, key, value);
+    map->base.hash ^= iot_data_pair_hash (key, value);
   }
   return (node == NULL);
 }
-- 
2.43.0


From ffb032f20d8292158fd049a4a36a4ec562dd9a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 14/35] fix: keep the length and line end of a truncated log
 record

snprintf returns the length the record would have had, so a UDP logger sent
bytes from beyond its buffer, and a record cut to the buffer size lost its
new line and ran into the next one.
---
 src/c/logger.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 5ff1ef0..60ef9ea 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -156,7 +156,13 @@ static inline size_t iot_logger_format_log (iot_logger_impl_t * logger, iot_logl
 #ifdef IOT_HAS_PRCTL
   prctl (PR_GET_NAME, tname);
 #endif
-  return (size_t) snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  size_t len = (size_t) snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  if (len >= sizeof (logger->buff)) // Truncated, so restore new line
+  {
+    len = sizeof (logger->buff) - 1;
+    logger->buff[len - 1] = '\n';
+  }
+  return len;
 }
 
 static inline void iot_logger_log_to_fd (iot_logger_impl_t * logger, FILE * fd, iot_loglevel_t level, uint64_t timestamp, const char *message)
-- 
2.43.0


From 16f23d07d009f1bdb0bc72abc1775aeb0856bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 15/35] fix: do not save the silenced level of a logger that is
 not running

Stopping a logger twice, or before its first start, replaced the saved level
with none, so that a later start left the logger silent.
---
 src/c/logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 60ef9ea..31575a0 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -145,8 +145,9 @@ void iot_logger_stop (iot_logger_t * logger)
 {
   assert (logger);
   iot_logger_impl_t * impl = (iot_logger_impl_t*) logger;
+  const bool save = (logger->component.state == IOT_COMPONENT_RUNNING) || (logger->level != IOT_LOG_NONE);
   iot_component_set_stopped (&logger->component);
-  impl->save = logger->level;
+  if (save) impl->save = logger->level;
   logger->level = IOT_LOG_NONE;
 }
 
-- 
2.43.0


From 9de67ae950cc51ef970a7a30ec8cb0d322635235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 16/35] fix: reference the new next logger before releasing the
 old one

Setting the next logger it already had, where the chain held the only
reference, freed that logger before it was referenced again.
---
 src/c/logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 31575a0..a39d313 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -283,9 +283,10 @@ const char * iot_logger_level_to_string (iot_loglevel_t level)
 void iot_logger_set_next (iot_logger_t * logger, iot_logger_t * next)
 {
   iot_logger_impl_t * logimpl = (iot_logger_impl_t*) logger;
-  iot_logger_free ((iot_logger_t*) logimpl->next);
+  iot_logger_t * old = (iot_logger_t*) logimpl->next;
   iot_logger_add_ref (next);
   logimpl->next = (iot_logger_impl_t*) next;
+  iot_logger_free (old);
 }
 
 #ifdef IOT_BUILD_COMPONENTS
-- 
2.43.0


From 93919ebcef1ad2a95fbfe335745ac14145b9fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 17/35] fix: bound the host name copied from a logger target

A host longer than 16 characters overran the stack buffer.
---
 src/c/logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index a39d313..59c75b2 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -322,7 +322,8 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
       const char * sep = strchr (to, ':');
       if (sep)
       {
-        strncpy (target, to, (size_t) (sep - to));
+        const size_t len = (size_t) (sep - to);
+        strncpy (target, to, (len < sizeof (target)) ? len : sizeof (target) - 1);
         host = target;
         to = sep + 1;
       }
-- 
2.43.0


From 516bd7da9eb4d866411ba11970161651e609a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 18/35] fix: initialise the default logger once

Threads obtaining the default logger for the first time at once initialised
it several times, or were given it before it was initialised.
---
 src/c/logger.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 59c75b2..10e1c79 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -53,18 +53,18 @@ static iot_logger_impl_t iot_logger_dfl;
 
 static void iot_log_console (iot_logger_t * logger, iot_loglevel_t level, uint64_t timestamp, const char * message, const void *ctx);
 
+static void iot_logger_default_init (void)
+{
+  iot_component_init (&iot_logger_dfl.base.component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
+  iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
+  iot_logger_dfl.impl = iot_log_console;
+}
+
 iot_logger_t * iot_logger_default (void)
 {
-  static iot_logger_t * logger = NULL;
-  if (logger == NULL)
-  {
-    logger = &iot_logger_dfl.base;
-    memset (&iot_logger_dfl, 0, sizeof (iot_logger_dfl));
-    iot_component_init (&logger->component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
-    iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
-    iot_logger_dfl.impl = iot_log_console;
-  }
-  return logger;
+  static pthread_once_t once = PTHREAD_ONCE_INIT;
+  pthread_once (&once, iot_logger_default_init);
+  return &iot_logger_dfl.base;
 }
 
 void iot_log__va_log (iot_logger_t * l, iot_loglevel_t level, const char* fmt, va_list args)
-- 
2.43.0


From 6d8b6d13ed4bebafbe17674aae2fb349b704a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 19/35] fix: return nothing for a file that cannot be read
 completely

A short read, a read error, or a path that has no size such as a pipe or a
directory led to a failed assertion, or without assertions to uninitialised
data returned as contents or a write out of bounds.
---
 src/c/file.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index b1c4445..0940ca3 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -87,16 +87,22 @@ uint8_t * iot_file_read_binary (const char * path, size_t * len)
   FILE * fd = fopen (path, "r");
   if (fd)
   {
-    fseek (fd, 0, SEEK_END);
-    size = ftell (fd);
-    if (size) // Return NULL if file empty
+    long end = (fseek (fd, 0, SEEK_END) == 0) ? ftell (fd) : -1;
+    if (end > 0) // Return NULL if file empty or has no size
     {
+      size = (size_t) end;
       rewind (fd);
       ret = malloc (size + 1); // Allocate extra byte so can be NULL terminated if a string
-      size_t items = fread (ret, size, 1u, fd);
-      assert (items == 1);
-      (void) items;
-      ret[size] = 0; // String NULL terminator
+      if (ret && fread (ret, size, 1u, fd) == 1u)
+      {
+        ret[size] = 0; // String NULL terminator
+      }
+      else // Return NULL if file not read completely
+      {
+        free (ret);
+        ret = NULL;
+        size = 0;
+      }
     }
     fclose (fd);
   }
-- 
2.43.0


From c37fa92448d208206ce66b6bc62052e8bf7ef672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 20/35] fix: report a file write that failed on close or rename

A disk found full when the buffered data was flushed on close replaced the
file with a part of the new contents, and a failed rename was reported as
success. Remove the temporary file of a failed write.
---
 src/c/file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index 0940ca3..3b380af 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -122,8 +122,9 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
   if (fd)
   {
     ok = (fwrite (binary, len, 1u, fd) == 1u);
-    fclose (fd);
-    if (ok) rename (tmp_path, path);
+    if (fclose (fd) != 0) ok = false;
+    if (ok) ok = (rename (tmp_path, path) == 0);
+    if (!ok) remove (tmp_path);
   }
   return ok;
 }
-- 
2.43.0


From 383ac6634fe31c546789cb7dd230c771caced8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 21/35] fix: synchronise a written file before it replaces the
 old one

Without it a power loss after the rename could leave an empty or partial
file in place of both the old and the new contents.
---
 src/c/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/file.c b/src/c/file.c
index 3b380af..8cf02a0 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -121,7 +121,7 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
   FILE *fd = fopen (tmp_path, "w");
   if (fd)
   {
-    ok = (fwrite (binary, len, 1u, fd) == 1u);
+    ok = (fwrite (binary, len, 1u, fd) == 1u) && (fflush (fd) == 0) && (fsync (fileno (fd)) == 0);
     if (fclose (fd) != 0) ok = false;
     if (ok) ok = (rename (tmp_path, path) == 0);
     if (!ok) remove (tmp_path);
-- 
2.43.0


From 0e2e37d1d57b180da2c0fc9aef11dc89064dd3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 22/35] fix: close the directory when a file list pattern is
 invalid

---
 src/c/file.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/file.c b/src/c/file.c
index 8cf02a0..a628f9f 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -147,7 +147,11 @@ iot_data_t * iot_file_list (const char * directory, const char * regex_str)
   DIR *d = opendir (directory);
   if (!d) goto DONE;
   regex_t regex;
-  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0) goto DONE;
+  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0)
+  {
+    closedir (d);
+    goto DONE;
+  }
   list = iot_data_alloc_list ();
   const struct dirent *dir;
   while ((dir = readdir (d)))
-- 
2.43.0


From 40547e07bd1c8824d98aa62b17f2ffb925199ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 23/35] fix: return no configuration list for a directory that
 cannot be read

The missing list was iterated.
---
 src/c/store.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/store.c b/src/c/store.c
index 87cf2ac..b6508cc 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -98,6 +98,7 @@ iot_data_t * iot_store_config_list (const char * directory)
 #ifndef _AZURESPHERE_
   static const char extension_regex[] = ".json$";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
+  if (file_list == NULL) return NULL;
   iot_data_list_iter_t list_iter;
   iot_data_list_iter (file_list, &list_iter);
   while (iot_data_list_iter_next (&list_iter))
-- 
2.43.0


From 78ab18bc2ef76adaee1a6020fa9b2aa8fa4b41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 24/35] fix: list only files with a .json extension as
 configurations

The unescaped dot let any file ending in json match, which was then listed
under a truncated name that cannot be loaded.
---
 src/c/store.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/store.c b/src/c/store.c
index b6508cc..c0029a4 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -96,7 +96,7 @@ bool iot_store_config_delete (const char * name, const char * uri)
 iot_data_t * iot_store_config_list (const char * directory)
 {
 #ifndef _AZURESPHERE_
-  static const char extension_regex[] = ".json$";
+  static const char extension_regex[] = "\\.json$";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
   if (file_list == NULL) return NULL;
   iot_data_list_iter_t list_iter;
@@ -104,7 +104,7 @@ iot_data_t * iot_store_config_list (const char * directory)
   while (iot_data_list_iter_next (&list_iter))
   {
     const char *full_name = iot_data_list_iter_string_value (&list_iter);
-    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 2));
+    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 3));
     iot_data_t *old_iot = iot_data_list_iter_replace (&list_iter, iot_data_alloc_string (new_name, IOT_DATA_TAKE));
     iot_data_free (old_iot);
   }
-- 
2.43.0


From 80bf1fb1f265103d1a47ff0978d9968821da2014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 25/35] fix: read nothing when a file position cannot be reset

A failed rewind was ignored, so that data added to the file after its size
was taken could be returned as its contents.
---
 src/c/file.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index a628f9f..850592b 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -91,9 +91,8 @@ uint8_t * iot_file_read_binary (const char * path, size_t * len)
     if (end > 0) // Return NULL if file empty or has no size
     {
       size = (size_t) end;
-      rewind (fd);
       ret = malloc (size + 1); // Allocate extra byte so can be NULL terminated if a string
-      if (ret && fread (ret, size, 1u, fd) == 1u)
+      if (ret && (fseek (fd, 0, SEEK_SET) == 0) && (fread (ret, size, 1u, fd) == 1u))
       {
         ret[size] = 0; // String NULL terminator
       }
-- 
2.43.0


From 8acbe799fcefa88a711e7b29ae8140d9ea28f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 26/35] fix: give every empty array the same hash

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 7954a33..6fc8e6c 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1588,7 +1588,7 @@ extern iot_data_t * iot_data_alloc_array (void * data, uint32_t length, iot_data
   array->base.element_type = type;
   array->data = (length || ownership == IOT_DATA_TAKE) ? data : NULL;
   array->length = length;
-  array->base.hash = data ? iot_hash_data (data, size) : 0;
+  array->base.hash = length ? iot_hash_data (data, size) : 0;
   array->base.release = data ? (ownership != IOT_DATA_REF) : false;
   if (length && data && (ownership == IOT_DATA_COPY))
   {
-- 
2.43.0


From 491db72e4f5872dfb7171a990b58ee9c2fa7febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 27/35] fix: detect a cyclic reference to a component loaded
 with its container

---
 src/c/container.c | 49 ++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/c/container.c b/src/c/container.c
index 188c38e..80127a8 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -169,14 +169,29 @@ static bool iot_container_typed_load (iot_container_t * cont, const char * cname
   if (!result)
   {
     const iot_component_factory_t *factory = iot_component_factory_find (ctype);
-    if (factory)
+    iot_load_in_progress_t this = {cname, iot_load_in_progress};
+    iot_load_in_progress_t *loading = iot_load_in_progress;
+
+    // Check for cycles
+    while (loading)
+    {
+      if (strcmp (loading->name, cname) == 0) break;
+      loading = loading->next;
+    }
+    if (loading)
     {
+      iot_log_error (cont->logger, "Invalid configuration, cyclic component reference for component %s", cname);
+    }
+    else if (factory)
+    {
+      iot_load_in_progress = &this;
       char * config = (iot_config->load) (cname, iot_config->uri);
       if (config)
       {
         iot_component_create (cont, cname, factory, config);
         free (config);
       }
+      iot_load_in_progress = this.next;
       result = true;
     }
     else
@@ -193,35 +208,17 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
 
   if (! result)
   {
-    iot_load_in_progress_t this = {cname, iot_load_in_progress};
-    iot_load_in_progress_t *loading = iot_load_in_progress;
     assert (iot_config && cont);
+    char * config = (iot_config->load) (cont->name, iot_config->uri);
+    iot_data_t * map = iot_component_config_to_map (config, cont->logger);
+    free (config);
 
-    // Check for cycles
-    while (loading)
-    {
-      if (strcmp (loading->name, cname) == 0) break;
-      loading = loading->next;
-    }
-    if (!loading)
-    {
-      iot_load_in_progress = &this;
-      char * config = (iot_config->load) (cont->name, iot_config->uri);
-      iot_data_t * map = iot_component_config_to_map (config, cont->logger);
-      free (config);
-
-      if (map)
-      {
-        const char * ctype = iot_data_string_map_get_string (map, cname);
-        if (ctype) result = iot_container_typed_load (cont, cname, ctype);
-      }
-      iot_data_free (map);
-      iot_load_in_progress = this.next;
-    }
-    else
+    if (map)
     {
-      iot_log_error (cont->logger, "Invalid configuration, cyclic component reference for component %s", cname);
+      const char * ctype = iot_data_string_map_get_string (map, cname);
+      if (ctype) result = iot_container_typed_load (cont, cname, ctype);
     }
+    iot_data_free (map);
   }
   return result;
 }
-- 
2.43.0


From e45126b7410d5d271736cfe534362b7b612df141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 28/35] fix: skip a component whose configured type is not a
 string

---
 src/c/container.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 80127a8..47e3f6a 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -267,6 +267,7 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
+      if (ctype == NULL) continue;
       config = (iot_config->load) (cname, iot_config->uri);
 
       if ((iot_component_factory_find (ctype) == NULL) && config)
@@ -281,7 +282,14 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
-      iot_container_typed_load (cont, cname, ctype);
+      if (ctype)
+      {
+        iot_container_typed_load (cont, cname, ctype);
+      }
+      else
+      {
+        iot_log_error (cont->logger, "Invalid configuration, no type for component: %s", cname);
+      }
     }
     iot_data_free (map);
   }
-- 
2.43.0


From 881e5757c17ac654bad582341490afe6d362b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 29/35] fix: create and look up components one thread at a time

---
 src/c/container.c | 60 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/c/container.c b/src/c/container.c
index 47e3f6a..590320d 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -20,23 +20,24 @@
 #define IOT_CONTAINER_RUN_RETRIES 25
 #define IOT_CONTAINER_RUN_WAIT_MS 200
 
+typedef struct iot_load_in_progress_t
+{
+  const char * name;
+  struct iot_load_in_progress_t * next;
+} iot_load_in_progress_t;
+
 struct iot_container_t
 {
   iot_logger_t * logger;
   iot_data_t * components;
   char * name;
-  pthread_rwlock_t lock;
+  pthread_rwlock_t lock;              /* Read locked when using the components, write locked when deleting them */
+  pthread_mutex_t mutex;              /* Recursive. Held, in addition to the read lock, when looking up or creating components */
+  iot_load_in_progress_t * loading;   /* Components being loaded, protected by mutex */
 };
 
-typedef struct iot_load_in_progress_t
-{
-  const char * name;
-  struct iot_load_in_progress_t * next;
-} iot_load_in_progress_t;
-
 static const iot_component_factory_t * iot_component_factories = NULL;
 static const iot_container_config_t * iot_config = NULL;
-static iot_load_in_progress_t * iot_load_in_progress = NULL;
 
 #ifdef __ZEPHYR__
   static PTHREAD_MUTEX_DEFINE (iot_container_mutex);
@@ -44,6 +45,18 @@ static iot_load_in_progress_t * iot_load_in_progress = NULL;
   static pthread_mutex_t iot_container_mutex = PTHREAD_MUTEX_INITIALIZER;
 #endif
 
+static void iot_container_lock (iot_container_t * cont)
+{
+  pthread_rwlock_rdlock (&cont->lock);
+  pthread_mutex_lock (&cont->mutex);
+}
+
+static void iot_container_unlock (iot_container_t * cont)
+{
+  pthread_mutex_unlock (&cont->mutex);
+  pthread_rwlock_unlock (&cont->lock);
+}
+
 static void iot_component_free (void * ptr)
 {
   iot_component_t * component = ptr;
@@ -169,8 +182,8 @@ static bool iot_container_typed_load (iot_container_t * cont, const char * cname
   if (!result)
   {
     const iot_component_factory_t *factory = iot_component_factory_find (ctype);
-    iot_load_in_progress_t this = {cname, iot_load_in_progress};
-    iot_load_in_progress_t *loading = iot_load_in_progress;
+    iot_load_in_progress_t this = {cname, cont->loading};
+    iot_load_in_progress_t *loading = cont->loading;
 
     // Check for cycles
     while (loading)
@@ -184,14 +197,14 @@ static bool iot_container_typed_load (iot_container_t * cont, const char * cname
     }
     else if (factory)
     {
-      iot_load_in_progress = &this;
+      cont->loading = &this;
       char * config = (iot_config->load) (cname, iot_config->uri);
       if (config)
       {
         iot_component_create (cont, cname, factory, config);
         free (config);
       }
-      iot_load_in_progress = this.next;
+      cont->loading = this.next;
       result = true;
     }
     else
@@ -237,10 +250,16 @@ const iot_container_config_t * iot_container_get_config (void)
 iot_container_t * iot_container_alloc (const char * name)
 {
   iot_container_t * cont = malloc (sizeof (*cont));
+  pthread_mutexattr_t attr;
+  cont->loading = NULL;
   cont->name = strdup (name);
   cont->logger = iot_logger_default ();
   cont->components = iot_data_alloc_typed_list (IOT_DATA_POINTER);
   pthread_rwlock_init (&cont->lock, NULL);
+  pthread_mutexattr_init (&attr);
+  pthread_mutexattr_settype (&attr, PTHREAD_MUTEX_RECURSIVE);
+  pthread_mutex_init (&cont->mutex, &attr);
+  pthread_mutexattr_destroy (&attr);
   iot_logger_start (cont->logger);
   return cont;
 }
@@ -249,6 +268,7 @@ bool iot_container_init (iot_container_t * cont)
 {
   assert (iot_config && cont);
 
+  iot_container_lock (cont);
   char * config = (iot_config->load) (cont->name, iot_config->uri);
   iot_data_t * map = iot_component_config_to_map (config, cont->logger);
   free (config);
@@ -293,6 +313,7 @@ bool iot_container_init (iot_container_t * cont)
     }
     iot_data_free (map);
   }
+  iot_container_unlock (cont);
   return (map != NULL);
 }
 
@@ -301,6 +322,7 @@ void iot_container_free (iot_container_t * cont)
   if (cont)
   {
     iot_data_free (cont->components);
+    pthread_mutex_destroy (&cont->mutex);
     pthread_rwlock_destroy (&cont->lock);
     free (cont->name);
     free (cont);
@@ -403,6 +425,7 @@ extern const iot_component_factory_t * iot_component_factory_find (const char *
 void iot_container_add_component (iot_container_t * cont, const char * ctype, const char *cname, const char * config)
 {
   assert (cont && ctype && cname && config);
+  iot_container_lock (cont);
   const iot_component_factory_t * factory = iot_component_factory_find (ctype);
 
 #ifdef IOT_BUILD_DYNAMIC_LOAD
@@ -419,6 +442,7 @@ void iot_container_add_component (iot_container_t * cont, const char * ctype, co
   {
     iot_log_error (cont->logger, "Could not find or load Factory: %s", ctype);
   }
+  iot_container_unlock (cont);
 }
 
 iot_component_t * iot_container_find_component (iot_container_t * cont, const char * name)
@@ -427,14 +451,14 @@ iot_component_t * iot_container_find_component (iot_container_t * cont, const ch
   const iot_component_t * comp = NULL;
   if (name)
   {
-    pthread_rwlock_rdlock (&cont->lock);
+    iot_container_lock (cont);
     comp = iot_container_find_component_locked (cont, name);
     if (iot_config && !comp)
     {
       iot_container_load_locked (cont, name);
       comp = iot_container_find_component_locked (cont, name);
     }
-    pthread_rwlock_unlock (&cont->lock);
+    iot_container_unlock (cont);
   }
   return (iot_component_t*) comp;
 }
@@ -452,7 +476,7 @@ iot_data_t * iot_container_list_components (iot_container_t * cont, const char *
   assert (cont);
   iot_data_t * list = iot_data_alloc_list ();
   iot_data_list_iter_t iter;
-  pthread_rwlock_rdlock (&cont->lock);
+  iot_container_lock (cont);
   iot_data_list_iter (cont->components, &iter);
   while (iot_data_list_iter_next (&iter))
   {
@@ -462,7 +486,7 @@ iot_data_t * iot_container_list_components (iot_container_t * cont, const char *
       iot_data_list_tail_push (list, iot_component_read ((iot_component_t*) comp));
     }
   }
-  pthread_rwlock_unlock (&cont->lock);
+  iot_container_unlock (cont);
   return list;
 }
 
@@ -472,10 +496,10 @@ iot_data_t * iot_container_component_read (iot_container_t * cont, const char *
   iot_data_t * data = NULL;
   if (name)
   {
-    pthread_rwlock_rdlock (&cont->lock);
+    iot_container_lock (cont);
     iot_component_t * comp = (iot_component_t*) iot_container_find_component_locked (cont, name);
     if (comp) data = iot_component_read (comp);
-    pthread_rwlock_unlock (&cont->lock);
+    iot_container_unlock (cont);
   }
   return data;
 }
-- 
2.43.0


From 3b891a57fb90797d444d25972770d06ca3d24379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 30/35] fix: copy the component name and configuration that are
 read

---
 src/c/component.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/component.c b/src/c/component.c
index 01cad95..f71d518 100644
--- a/src/c/component.c
+++ b/src/c/component.c
@@ -161,10 +161,10 @@ extern iot_data_t * iot_component_read (iot_component_t * component)
   assert (component);
   iot_data_t * data = iot_data_alloc_map (IOT_DATA_STRING);
   pthread_mutex_lock (&component->mutex);
-  iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.name), iot_data_alloc_string (component->name, IOT_DATA_REF));
+  iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.name), iot_data_alloc_string (component->name, IOT_DATA_COPY));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.type), iot_data_alloc_string (component->factory->type, IOT_DATA_REF));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.state), iot_data_alloc_string (iot_component_state_name (component->state), IOT_DATA_REF));
-  iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.config), iot_data_add_ref (component->config));
+  iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.config), iot_data_copy (component->config));
   if (component->factory->category) iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.category), iot_data_alloc_string (component->factory->category, IOT_DATA_REF));
   pthread_mutex_unlock (&component->mutex);
   return data;
-- 
2.43.0


From 7d56a939cdd280ec98b57bd2070e6c4236daaf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 31/35] fix: do not save a reconfiguration when no container
 configuration is set

---
 src/c/component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/component.c b/src/c/component.c
index f71d518..0fc434c 100644
--- a/src/c/component.c
+++ b/src/c/component.c
@@ -53,7 +53,7 @@ bool iot_component_reconfig (iot_component_t * component, iot_container_t * cont
   {
     const iot_container_config_t * config = iot_container_get_config ();
     iot_data_map_merge (component->config, map);
-    if (config->save)
+    if (config && config->save)
     {
       char * json = iot_data_to_json (component->config);
       (config->save) (component->name, config->uri, json);
-- 
2.43.0


From ce4be3e46094c8a3234a0c86d440e0b347b72140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 32/35] fix: lock a component while its configuration is
 changed

---
 src/c/component.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/c/component.c b/src/c/component.c
index 0fc434c..8843cbf 100644
--- a/src/c/component.c
+++ b/src/c/component.c
@@ -52,10 +52,13 @@ bool iot_component_reconfig (iot_component_t * component, iot_container_t * cont
   if (ok)
   {
     const iot_container_config_t * config = iot_container_get_config ();
+    char * json = NULL;
+    iot_component_lock (component);
     iot_data_map_merge (component->config, map);
-    if (config && config->save)
+    if (config && config->save) json = iot_data_to_json (component->config);
+    iot_component_unlock (component);
+    if (json)
     {
-      char * json = iot_data_to_json (component->config);
       (config->save) (component->name, config->uri, json);
       free (json);
     }
-- 
2.43.0


From e7d1fadaf63b88c1fed8e890628f8affb5569b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 33/35] fix: start and stop the components a container has when
 called

---
 src/c/container.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/c/container.c b/src/c/container.c
index 590320d..e182fc4 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -329,7 +329,17 @@ void iot_container_free (iot_container_t * cont)
   }
 }
 
-static void iot_container_running (const iot_container_t * cont)
+/* List of the current components. Needed as components may be created by other threads while the list is used */
+
+static iot_data_t * iot_container_components (iot_container_t * cont)
+{
+  pthread_mutex_lock (&cont->mutex);
+  iot_data_t * components = iot_data_copy (cont->components);
+  pthread_mutex_unlock (&cont->mutex);
+  return components;
+}
+
+static void iot_container_running (const iot_data_t * components)
 {
   static const uint64_t sleep_msecs = IOT_CONTAINER_RUN_WAIT_MS;
   iot_data_list_iter_t iter;
@@ -339,7 +349,7 @@ static void iot_container_running (const iot_container_t * cont)
   // Timeout wait for all components to start
   while (true)
   {
-    iot_data_list_iter (cont->components, &iter);
+    iot_data_list_iter (components, &iter);
     while (iot_data_list_iter_next (&iter))
     {
       comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
@@ -352,7 +362,7 @@ AGAIN:
   }
 
   // Invoke running callbacks
-  iot_data_list_iter (cont->components, &iter);
+  iot_data_list_iter (components, &iter);
   while (iot_data_list_iter_next (&iter))
   {
     comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
@@ -363,14 +373,15 @@ AGAIN:
 void iot_container_start (iot_container_t * cont)
 {
   pthread_rwlock_rdlock (&cont->lock);
+  iot_data_t * components = iot_container_components (cont);
   iot_data_list_iter_t iter;
-  iot_data_list_iter (cont->components, &iter);
+  iot_data_list_iter (components, &iter);
   while (iot_data_list_iter_next (&iter))
   {
     iot_component_t * comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
     if (comp->starting_fn) (comp->starting_fn) (comp);
   }
-  iot_data_list_iter (cont->components, &iter);
+  iot_data_list_iter (components, &iter);
   while (iot_data_list_iter_next (&iter))
   {
     iot_component_t * comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
@@ -379,7 +390,8 @@ void iot_container_start (iot_container_t * cont)
     Log_Debug ("iot_container_start: %s (Total Memory: %" PRIu32 " kB)\n", comp->name, (uint32_t) Applications_GetTotalMemoryUsageInKB ());
 #endif
   }
-  iot_container_running (cont);
+  iot_container_running (components);
+  iot_data_free (components);
   pthread_rwlock_unlock (&cont->lock);
 }
 
@@ -387,18 +399,20 @@ void iot_container_stop (iot_container_t * cont)
 {
   iot_data_list_iter_t iter;
   pthread_rwlock_rdlock (&cont->lock);
-  iot_data_list_iter (cont->components, &iter);
+  iot_data_t * components = iot_container_components (cont);
+  iot_data_list_iter (components, &iter);
   while (iot_data_list_iter_prev (&iter))
   {
     iot_component_t * comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
     if (comp->stopping_fn) (comp->stopping_fn) (comp);
   }
-  iot_data_list_iter (cont->components, &iter);
+  iot_data_list_iter (components, &iter);
   while (iot_data_list_iter_prev (&iter))
   {
     iot_component_t * comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
     (comp->stop_fn) (comp);
   }
+  iot_data_free (components);
   pthread_rwlock_unlock (&cont->lock);
 }
 
-- 
2.43.0


From 4a4f7465f8832011c20080da70fadfa1f622c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 34/35] fix: hash of a shared data value is cached without a
 data race

Concurrent readers of one value cleared the rehash bit field while others read the flags in the same memory location. The cached hash itself now says whether it has been calculated, and is read and written atomically.
---
 src/c/data-impl.h |  1 -
 src/c/data.c      | 52 ++++++++++++++++++++++++++---------------------
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/c/data-impl.h b/src/c/data-impl.h
index c4536da..1f127c4 100644
--- a/src/c/data-impl.h
+++ b/src/c/data-impl.h
@@ -33,7 +33,6 @@ struct iot_data_t
   bool heap : 1;
   bool constant : 1;
   bool composed : 1;
-  bool rehash : 1;
   bool tag1 : 1;
   bool tag2 : 1;
 };
diff --git a/src/c/data.c b/src/c/data.c
index 6fc8e6c..fdc4148 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -297,9 +297,9 @@ static inline uint32_t iot_data_pair_hash (const iot_data_t * key, const iot_dat
 uint32_t iot_data_hash (const iot_data_t * data)
 {
   iot_data_t * da = (iot_data_t*) data;
-  if (da && da->rehash)
+  uint32_t hash = da ? __atomic_load_n (&da->hash, __ATOMIC_RELAXED) : 0u; // Other threads may be reading (and hashing) the same data
+  if (da && (hash == 0u)) // Zero for a composed type is not (yet) calculated
   {
-    uint32_t hash = 0; // Calculated locally as other threads may be reading (and rehashing) the same data
     if (da->type == IOT_DATA_VECTOR)
     {
       iot_data_vector_iter_t iter;
@@ -318,7 +318,7 @@ uint32_t iot_data_hash (const iot_data_t * data)
         hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
       }
     }
-    else // IOT_DATA_MAP
+    else if (da->type == IOT_DATA_MAP)
     {
       iot_data_map_iter_t iter;
       iot_data_map_iter (da, &iter);
@@ -327,13 +327,19 @@ uint32_t iot_data_hash (const iot_data_t * data)
         hash ^= iot_data_pair_hash (iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
       }
     }
-    da->hash = hash;
-    atomic_thread_fence (memory_order_release); // Hash must be visible before rehash flag is cleared
-    da->rehash = false;
-    return hash;
+    if (hash) __atomic_store_n (&da->hash, hash, __ATOMIC_RELAXED);
   }
-  atomic_thread_fence (memory_order_acquire);
-  return da ? da->hash : 0u;
+  return hash;
+}
+
+static inline void iot_data_hash_add (iot_data_t * data, uint32_t hash)
+{
+  if (data->hash) data->hash ^= hash; // If zero will be calculated when first required
+}
+
+static inline void iot_data_hash_reset (iot_data_t * data)
+{
+  data->hash = 0u;
 }
 
 static inline void iot_element_free (iot_element_t * element)
@@ -878,7 +884,7 @@ static void iot_data_list_remove_element (iot_data_list_t * list, iot_element_t
     element->next->prev = element->prev;
     element->prev->next = element->next;
     list->head->length--;
-    list->base.rehash = true;
+    iot_data_hash_reset (&list->base);
     iot_element_free (element);
   }
   iot_data_free (value);
@@ -945,7 +951,7 @@ iot_data_t * iot_data_list_iter_replace (const iot_data_list_iter_t * iter, iot_
   if (res)
   {
     iot_data_t * base = (iot_data_t*) &iter->_list->base;
-    base->rehash = true;
+    iot_data_hash_reset (base);
     iter->_element->value = value;
   }
   return res;
@@ -981,7 +987,7 @@ void iot_data_list_tail_push (iot_data_t * list, iot_data_t * value)
     impl->head = impl->tail;
   }
   impl->head->length++;
-  list->hash ^= iot_data_hash (value);
+  iot_data_hash_add (list, iot_data_hash (value));
 }
 
 iot_data_t * iot_data_list_tail_pop (iot_data_t * list)
@@ -1003,7 +1009,7 @@ iot_data_t * iot_data_list_tail_pop (iot_data_t * list)
     {
       impl->head = NULL;
     }
-    list->rehash = true;
+    iot_data_hash_reset (list);
     iot_element_free (element);
   }
   return value;
@@ -1027,7 +1033,7 @@ void iot_data_list_head_push (iot_data_t * list, iot_data_t * value)
     impl->tail = impl->head;
     impl->head->length = 1;
   }
-  list->hash ^= iot_data_hash (value);
+  iot_data_hash_add (list, iot_data_hash (value));
 }
 
 iot_data_t * iot_data_list_head_pop (iot_data_t * list)
@@ -1049,7 +1055,7 @@ iot_data_t * iot_data_list_head_pop (iot_data_t * list)
     {
       impl->tail = NULL;
     }
-    list->rehash = true;
+    iot_data_hash_reset (list);
     iot_element_free (element);
   }
   return value;
@@ -1735,7 +1741,7 @@ bool iot_data_map_remove (iot_data_t * map, const iot_data_t * key)
     iot_data_map_t * mp = (iot_data_map_t*) map;
     if ((ret = iot_node_remove (mp, key)))
     {
-      mp->base.rehash = true;
+      iot_data_hash_reset (&mp->base);
       mp->size--;
     }
   }
@@ -2010,12 +2016,12 @@ void iot_data_vector_add (iot_data_t * vector, uint32_t index, iot_data_t * val)
   iot_data_t * element = arr->values[index];
   if (element)
   {
-    vector->rehash = true;
+    iot_data_hash_reset (vector);
     iot_data_free (element);
   }
   else
   {
-    vector->hash ^= iot_data_hash (val);
+    iot_data_hash_add (vector, iot_data_hash (val));
   }
   arr->values[index] = val;
 }
@@ -2052,7 +2058,7 @@ void iot_data_vector_resize (iot_data_t * vector, uint32_t size)
     vec->values = realloc (vec->values, size * sizeof (iot_data_t*));
     memset (&vec->values[vec->size], 0, (size - vec->size) * sizeof (iot_data_t*));
   }
-  vector->rehash = vec->size != size;
+  if (vec->size != size) iot_data_hash_reset (vector);
   vec->size = size;
 }
 
@@ -2490,11 +2496,11 @@ iot_data_t * iot_data_vector_iter_replace_value (const iot_data_vector_iter_t *
     res = vector->values[iter->_index];
     if (res)
     {
-      vector->base.rehash = true;
+      iot_data_hash_reset (&vector->base);
     }
     else
     {
-      if (value) vector->base.hash ^= iot_data_hash (value);
+      if (value) iot_data_hash_add (&vector->base, iot_data_hash (value));
     }
     vector->values[iter->_index] = value;
   }
@@ -3190,7 +3196,7 @@ static bool iot_node_add (iot_data_map_t * map, iot_data_t * key, iot_data_t * v
   iot_node_t * node = iot_node_find (map->tree, key);
   if (node)
   {
-    map->base.rehash = true;
+    iot_data_hash_reset (&map->base);
     iot_data_free (key);
     iot_data_free (node->value);
     node->value = value;
@@ -3198,7 +3204,7 @@ static bool iot_node_add (iot_data_map_t * map, iot_data_t * key, iot_data_t * v
   else
   {
     iot_node_insert (map, key, value);
-    map->base.hash ^= iot_data_pair_hash (key, value);
+    iot_data_hash_add (&map->base, iot_data_pair_hash (key, value));
   }
   return (node == NULL);
 }
-- 
2.43.0


From 9e24ff1c1aac88e555585d20209bff6cef326f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 35/35] fix: a schedule's callbacks are read with the scheduler
 locked, they can be replaced while it runs

---
 src/c/scheduler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index a93dea7..6f132dc 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -193,8 +193,9 @@ static void * iot_scheduler_thread (void * arg)
         /* Notify that the schedule is about to run */
         if (current->run_cb)
         {
+          iot_schedule_fn_t run_cb = current->run_cb; // Read before unlocking as it may be changed
           iot_component_unlock (&scheduler->component);
-          current->run_cb (current->arg);
+          run_cb (current->arg);
           iot_component_lock (&scheduler->component);
           valid_current = atomic_load (&current->scheduled);
         }
@@ -211,8 +212,9 @@ static void * iot_scheduler_thread (void * arg)
             /* Notify that the run is aborted */
             if (current->abort_cb)
             {
+              iot_schedule_fn_t abort_cb = current->abort_cb; // Read before unlocking as it may be changed
               iot_component_unlock (&scheduler->component);
-              current->abort_cb (current->arg);
+              abort_cb (current->arg);
               iot_component_lock (&scheduler->component);
             }
             if (atomic_fetch_add (&current->dropped, 1u) == 0u)
-- 
2.43.0

