From 539a55de8cd8cd44a6b81c2ed4b3e5fd87f1f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:01 +0000
Subject: [PATCH 01/49] fix: timed waits ended up to a millisecond before their
 absolute time

ptw32_relmillisecs() truncated the remaining time to whole milliseconds, so
timed operations reported ETIMEDOUT before abstime. Round up instead.
---
 ptw32_relmillisecs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ptw32_relmillisecs.c b/ptw32_relmillisecs.c
index 7123d7d..e58607c 100644
--- a/ptw32_relmillisecs.c
+++ b/ptw32_relmillisecs.c
@@ -95,14 +95,15 @@ ptw32_relmillisecs (const struct timespec * abstime)
     {
       int64_t deltaNanoseconds = tmpAbsNanoseconds - tmpCurrNanoseconds;
 
-      if (deltaNanoseconds >= ((int64_t)INFINITE * NANOSEC_PER_MILLISEC))
+      if (deltaNanoseconds > ((int64_t)(INFINITE - 1) * NANOSEC_PER_MILLISEC))
          {
            /* Timeouts must be finite */
            milliseconds = INFINITE - 1;
          }
        else
          {
-           milliseconds = (DWORD)(deltaNanoseconds / NANOSEC_PER_MILLISEC);
+           /* Round up, a wait must not end before abstime. */
+           milliseconds = (DWORD)((deltaNanoseconds + NANOSEC_PER_MILLISEC - 1) / NANOSEC_PER_MILLISEC);
          }
     }
   else
-- 
2.43.0


From 6f65ac9a9f3f6c4340cd3180f735c533e59746e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:01 +0000
Subject: [PATCH 02/49] fix: absolute times beyond the year 2262 overflowed and
 timed out at once

---
 ptw32_relmillisecs.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ptw32_relmillisecs.c b/ptw32_relmillisecs.c
index e58607c..db6dbf2 100644
--- a/ptw32_relmillisecs.c
+++ b/ptw32_relmillisecs.c
@@ -76,7 +76,15 @@ ptw32_relmillisecs (const struct timespec * abstime)
    *
    * Assume all integers are unsigned, i.e. cannot test if less than 0.
    */
-  tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
+  if ((int64_t)abstime->tv_sec >= INT64_MAX / NANOSEC_PER_SEC)
+    {
+      /* Not representable in nanoseconds; saturate. */
+      tmpAbsNanoseconds = INT64_MAX;
+    }
+  else
+    {
+      tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
+    }
 
   /* get current system time */
 
-- 
2.43.0


From b877f40fc80951ff901816355c755839bb97c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:01 +0000
Subject: [PATCH 03/49] fix: current time was truncated to 32 bit seconds from
 2038 on

---
 ptw32_timespec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ptw32_timespec.c b/ptw32_timespec.c
index a1e3ac1..4119a0c 100644
--- a/ptw32_timespec.c
+++ b/ptw32_timespec.c
@@ -78,7 +78,7 @@ ptw32_filetime_to_timespec (const FILETIME * ft, struct timespec *ts)
       */
 {
   ts->tv_sec =
-    (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
+    (time_t) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
   ts->tv_nsec =
     (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET -
 	    ((uint64_t) ts->tv_sec * (uint64_t) 10000000UL)) * 100);
-- 
2.43.0


From 98a417b0b87df103c6ebca3557bc97b11462012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:01 +0000
Subject: [PATCH 04/49] fix: uncontended pthread_mutex_timedlock of a robust
 normal mutex recorded no owner

The owner could then not unlock it and its death went unnoticed.
---
 pthread_mutex_timedlock.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index 13372e3..f4dc917 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -263,6 +263,10 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
                       ptw32_robust_mutex_add(mutex, self);
                     }
 	        }
+              else
+                {
+                  ptw32_robust_mutex_add(mutex, self);
+                }
             }
           else
             {
-- 
2.43.0


From b96dde65332ff0636d7c44c5d17232627e63f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:01 +0000
Subject: [PATCH 05/49] fix: pthread_rwlock_destroy blocked instead of
 answering EBUSY while write locked

Called by the writer itself it never returned.
---
 pthread_rwlock_destroy.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pthread_rwlock_destroy.c b/pthread_rwlock_destroy.c
index 3288d20..c8f7150 100644
--- a/pthread_rwlock_destroy.c
+++ b/pthread_rwlock_destroy.c
@@ -66,13 +66,16 @@ pthread_rwlock_destroy (pthread_rwlock_t * rwlock)
 	  return EINVAL;
 	}
 
-      if ((result = pthread_mutex_lock (&(rwl->mtxExclusiveAccess))) != 0)
+      /*
+       * A writer holds both mutexes: don't wait, report EBUSY.
+       */
+      if ((result = pthread_mutex_trylock (&(rwl->mtxExclusiveAccess))) != 0)
 	{
 	  return result;
 	}
 
       if ((result =
-	   pthread_mutex_lock (&(rwl->mtxSharedAccessCompleted))) != 0)
+	   pthread_mutex_trylock (&(rwl->mtxSharedAccessCompleted))) != 0)
 	{
 	  (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));
 	  return result;
-- 
2.43.0


From b6a39d14a551bf8fc6364db8b80aed0a8bba9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:33 +0000
Subject: [PATCH 06/49] fix: pthread_mutex_destroy destroyed a robust recursive
 mutex held by the caller

---
 pthread_mutex_destroy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pthread_mutex_destroy.c b/pthread_mutex_destroy.c
index 82cc088..f7fdfdd 100644
--- a/pthread_mutex_destroy.c
+++ b/pthread_mutex_destroy.c
@@ -70,7 +70,10 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
        */
       if (0 == result || ENOTRECOVERABLE == result)
 	{
-	  if (mx->kind != PTHREAD_MUTEX_RECURSIVE || 1 == mx->recursive_count)
+	  if ((mx->kind != PTHREAD_MUTEX_RECURSIVE
+	       && mx->kind != -PTHREAD_MUTEX_RECURSIVE - 1 /* robust */)
+	      || ENOTRECOVERABLE == result
+	      || 1 == mx->recursive_count)
 	    {
 	      /*
 	       * FIXME!!!
-- 
2.43.0


From 3106c78491ae5cd08247440d06014c716c86cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:54 +0000
Subject: [PATCH 07/49] fix: a cancelled sem_wait could leave itself counted as
 a waiter

The cleanup handler is given the semaphore object itself, not the address of
the user's handle, but tested it as if it were the latter: the first word of
the object is its value, so a value of zero and a lock word of zero were taken
for a destroyed semaphore and the waiter was never subtracted.
---
 sem_wait.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sem_wait.c b/sem_wait.c
index 1fd9259..d6c45f3 100644
--- a/sem_wait.c
+++ b/sem_wait.c
@@ -61,13 +61,12 @@ ptw32_sem_wait_cleanup(void * sem)
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
-   * If sema is destroyed do nothing, otherwise:-
    * If the sema is posted between us being canceled and us locking
    * the sema again above then we need to consume that post but cancel
    * anyway. If we don't get the semaphore we indicate that we're no
    * longer waiting.
    */
-  if (*((sem_t *)sem) != NULL && !(WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0))
+  if (!(WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0))
     {
       ++s->value;
 #if defined(NEED_SEM)
-- 
2.43.0


From ab1a52d7cc041b9bd345e8316fb51efc7ee94d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:54 +0000
Subject: [PATCH 08/49] fix: a nested unlock of an inconsistent robust
 recursive mutex made it not recoverable

---
 pthread_mutex_unlock.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 4ccfb41..8aecae4 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -128,11 +128,11 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
            */
           if (pthread_equal (mx->ownerThread, self))
             {
-              PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
-                                                      (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
-                                                      (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
               if (PTHREAD_MUTEX_NORMAL == kind)
                 {
+                  PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
+                                                          (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
+                                                          (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
                   ptw32_robust_mutex_remove(mutex, NULL);
 
                   if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
@@ -152,6 +152,9 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
                   if (kind != PTHREAD_MUTEX_RECURSIVE
                       || 0 == --mx->recursive_count)
                     {
+                      PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
+                                                              (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
+                                                              (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
                       ptw32_robust_mutex_remove(mutex, NULL);
 
                       if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-- 
2.43.0


From 28572412c079efdee475187cc786c539bc422387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:54 +0000
Subject: [PATCH 09/49] fix: sem_destroy answered EBUSY while the post that
 woke its caller was finishing

pthread_cond_destroy was left half done by it.
---
 sem_destroy.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/sem_destroy.c b/sem_destroy.c
index 99d0b35..cde3ae7 100644
--- a/sem_destroy.c
+++ b/sem_destroy.c
@@ -91,26 +91,29 @@ sem_destroy (sem_t * sem)
       ptw32_mcs_local_node_t node;
       s = *sem;
 
-      if ((result = ptw32_mcs_lock_try_acquire(&s->lock, &node)) == 0)
+      /*
+       * The lock is only ever held briefly. In particular a thread that has
+       * just posted may still be about to release it when the thread it woke
+       * destroys the semaphore.
+       */
+      ptw32_mcs_lock_acquire(&s->lock, &node);
+      if (s->value < 0)
         {
-          if (s->value < 0)
-            {
-              result = EBUSY;
-            }
-          else
+          result = EBUSY;
+        }
+      else
+        {
+          /*
+           * There are no threads currently blocked on this semaphore
+           * however there could be threads about to wait behind us.
+           * It is up to the application to ensure this is not the case.
+           */
+          if (!CloseHandle (s->sem))
             {
-              /*
-               * There are no threads currently blocked on this semaphore
-               * however there could be threads about to wait behind us.
-               * It is up to the application to ensure this is not the case.
-               */
-              if (!CloseHandle (s->sem))
-                {
-                  result = EINVAL;
-                }
+              result = EINVAL;
             }
-          ptw32_mcs_lock_release(&node);
         }
+      ptw32_mcs_lock_release(&node);
     }
 
   if (result != 0)
-- 
2.43.0


From 2bc434d137a20cfc63f93b150b7fd0d7a6f09377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:56 +0000
Subject: [PATCH 10/49] fix: a robust mutex that became not recoverable during
 a lock call was acquired

Its state was only checked before the acquisition. A thread that found it so
after replacing the mark of a waiting thread also left that thread blocked.
---
 pthread_mutex_lock.c      | 47 ++++++++++++++++++++++++++++++++++-----
 pthread_mutex_timedlock.c | 31 ++++++++++++++++++++++++++
 pthread_mutex_trylock.c   |  9 ++++++++
 3 files changed, 81 insertions(+), 6 deletions(-)

diff --git a/pthread_mutex_lock.c b/pthread_mutex_lock.c
index 847477c..a3f7ae2 100644
--- a/pthread_mutex_lock.c
+++ b/pthread_mutex_lock.c
@@ -196,6 +196,19 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                         }
                     }
                 }
+              if ((0 == result || ENOTRECOVERABLE == result)
+                  && (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE ==
+                        PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
+                          (PTW32_INTERLOCKED_LONGPTR)statePtr,
+                          (PTW32_INTERLOCKED_LONG)0))
+                {
+                  /*
+                   * It became so after we checked above. We may have replaced
+                   * the mark of a waiting thread: unblock it.
+                   */
+                  SetEvent(mx->event);
+                  result = ENOTRECOVERABLE;
+                }
               if (0 == result || EOWNERDEAD == result)
                 {
                   /*
@@ -212,12 +225,24 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                            (PTW32_INTERLOCKED_LONG) 1,
                            (PTW32_INTERLOCKED_LONG) 0) == 0)
                 {
-                  mx->recursive_count = 1;
-                  /*
-                   * Add mutex to the per-thread robust mutex currently-held list.
-                   * If the thread terminates, all mutexes in this list will be unlocked.
-                   */
-                  ptw32_robust_mutex_add(mutex, self);
+                  if ((PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE ==
+                        PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
+                          (PTW32_INTERLOCKED_LONGPTR)statePtr,
+                          (PTW32_INTERLOCKED_LONG)0))
+                    {
+                      /* It became so after we checked above. */
+                      SetEvent(mx->event);
+                      result = ENOTRECOVERABLE;
+                    }
+                  else
+                    {
+                      mx->recursive_count = 1;
+                      /*
+                       * Add mutex to the per-thread robust mutex currently-held list.
+                       * If the thread terminates, all mutexes in this list will be unlocked.
+                       */
+                      ptw32_robust_mutex_add(mutex, self);
+                    }
                 }
               else
                 {
@@ -256,6 +281,16 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                             }
                         }
 
+                      if ((0 == result || ENOTRECOVERABLE == result)
+                          && (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE ==
+                                PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
+                                  (PTW32_INTERLOCKED_LONGPTR)statePtr,
+                                  (PTW32_INTERLOCKED_LONG)0))
+                        {
+                          SetEvent(mx->event);
+                          result = ENOTRECOVERABLE;
+                        }
+
                       if (0 == result || EOWNERDEAD == result)
                         {
                           mx->recursive_count = 1;
diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index f4dc917..13b1013 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -254,6 +254,20 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
                         }
 	            }
 
+                  if ((0 == result || ENOTRECOVERABLE == result)
+                      && (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE ==
+                            PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
+                              (PTW32_INTERLOCKED_LONGPTR)statePtr,
+                              (PTW32_INTERLOCKED_LONG)0))
+                    {
+                      /*
+                       * It became so after we checked above. We may have replaced
+                       * the mark of a waiting thread: unblock it.
+                       */
+                      SetEvent(mx->event);
+                      result = ENOTRECOVERABLE;
+                    }
+
                   if (0 == result || EOWNERDEAD == result)
                     {
                       /*
@@ -263,6 +277,14 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
                       ptw32_robust_mutex_add(mutex, self);
                     }
 	        }
+              else if ((PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE ==
+                         PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
+                           (PTW32_INTERLOCKED_LONGPTR)statePtr,
+                           (PTW32_INTERLOCKED_LONG)0))
+                {
+                  SetEvent(mx->event);
+                  result = ENOTRECOVERABLE;
+                }
               else
                 {
                   ptw32_robust_mutex_add(mutex, self);
@@ -275,6 +297,15 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
 		           (PTW32_INTERLOCKED_LONG) 1,
 		           (PTW32_INTERLOCKED_LONG) 0))
 	        {
+                  if ((PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE ==
+                        PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
+                          (PTW32_INTERLOCKED_LONGPTR)statePtr,
+                          (PTW32_INTERLOCKED_LONG)0))
+                    {
+                      /* It became so after we checked above. */
+                      SetEvent(mx->event);
+                      return ENOTRECOVERABLE;
+                    }
 	          mx->recursive_count = 1;
                   /*
                    * Add mutex to the per-thread robust mutex currently-held list.
diff --git a/pthread_mutex_trylock.c b/pthread_mutex_trylock.c
index f994fae..43b499e 100644
--- a/pthread_mutex_trylock.c
+++ b/pthread_mutex_trylock.c
@@ -130,6 +130,15 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
         	         (PTW32_INTERLOCKED_LONG) 1,
         	         (PTW32_INTERLOCKED_LONG) 0))
         {
+          if ((PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE ==
+                      PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
+                        (PTW32_INTERLOCKED_LONGPTR)statePtr,
+                        (PTW32_INTERLOCKED_LONG)0))
+            {
+              /* It became so after we checked above. */
+              SetEvent(mx->event);
+              return ENOTRECOVERABLE;
+            }
           if (kind != PTHREAD_MUTEX_NORMAL)
             {
               mx->recursive_count = 1;
-- 
2.43.0


From 484da9ffed3c9e6995cca8d59c4cd74b68334ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:21 +0000
Subject: [PATCH 11/49] fix: a thread cancelled in sem_wait or sem_timedwait
 could take a post with it

A post made between the cancellation and the cleanup was consumed although the
wait had not succeeded, so that another waiting thread was never released.
Condition variables lost the semaphore that guards their entry that way and
blocked every later user.
---
 sem_timedwait.c | 24 ++++++++++++++++++------
 sem_wait.c      | 22 +++++++---------------
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/sem_timedwait.c b/sem_timedwait.c
index 5a7cbe2..12457dc 100644
--- a/sem_timedwait.c
+++ b/sem_timedwait.c
@@ -69,13 +69,25 @@ ptw32_sem_timedwait_cleanup (void * args)
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
    * We either timed out or were cancelled.
-   * If someone has posted between then and now we try to take the semaphore.
-   * Otherwise the semaphore count may be wrong after we
-   * return. In the case of a cancellation, it is as if we
-   * were cancelled just before we return (after taking the semaphore)
-   * which is ok.
+   * If we were cancelled (no result has been set) then we indicate that
+   * we're no longer waiting. We must not take a post with us: if someone
+   * has posted between then and now that post is left for another waiter,
+   * or is withdrawn from the W32 sema if there is none.
+   * If we timed out and someone has posted between then and now we try to
+   * take the semaphore. Otherwise the semaphore count may be wrong after we
+   * return.
    */
-  if (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0)
+  if (*(a->resultPtr) == 0)
+    {
+      if (++s->value > 0)
+        {
+          (void) WaitForSingleObject(s->sem, 0);
+#if defined(NEED_SEM)
+          s->leftToUnblock = 0;
+#endif
+        }
+    }
+  else if (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0)
     {
       /* We got the semaphore on the second attempt */
       *(a->resultPtr) = 0;
diff --git a/sem_wait.c b/sem_wait.c
index d6c45f3..5d4180c 100644
--- a/sem_wait.c
+++ b/sem_wait.c
@@ -61,24 +61,16 @@ ptw32_sem_wait_cleanup(void * sem)
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
-   * If the sema is posted between us being canceled and us locking
-   * the sema again above then we need to consume that post but cancel
-   * anyway. If we don't get the semaphore we indicate that we're no
-   * longer waiting.
+   * Indicate that we're no longer waiting. We must not take a post with
+   * us: if the sema was posted between us being canceled and us locking
+   * the sema again above then that post is left for another waiter, or is
+   * withdrawn from the W32 sema if there is none.
    */
-  if (!(WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0))
+  if (++s->value > 0)
     {
-      ++s->value;
+      (void) WaitForSingleObject(s->sem, 0);
 #if defined(NEED_SEM)
-      if (s->value > 0)
-        {
-          s->leftToUnblock = 0;
-        }
-#else
-      /*
-       * Don't release the W32 sema, it doesn't need adjustment
-       * because it doesn't record the number of waiters.
-       */
+      s->leftToUnblock = 0;
 #endif /* NEED_SEM */
     }
   ptw32_mcs_lock_release(&node);
-- 
2.43.0


From fe39e288e3c60a0cfc2980e9dd8a99276445f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:44 +0000
Subject: [PATCH 12/49] fix: pthread_mutex_consistent dereferenced a static
 initialiser

---
 pthread_mutex_consistent.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pthread_mutex_consistent.c b/pthread_mutex_consistent.c
index b9c8221..1e0766e 100755
--- a/pthread_mutex_consistent.c
+++ b/pthread_mutex_consistent.c
@@ -183,7 +183,9 @@ pthread_mutex_consistent (pthread_mutex_t* mutex)
       return EINVAL;
     }
 
-  if (mx->kind >= 0
+  /* A statically initialised mutex that is not in use yet is not robust. */
+  if (mx >= PTHREAD_ERRORCHECK_MUTEX_INITIALIZER
+        || mx->kind >= 0
         || (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT != PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
                                                 (PTW32_INTERLOCKED_LONGPTR)&mx->robustNode->stateInconsistent,
                                                 (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_CONSISTENT,
-- 
2.43.0


From b6630a0476f82e9786430c12a28736e316cae517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:44 +0000
Subject: [PATCH 13/49] fix: pthread_mutex_unlock dereferenced a destroyed
 mutex

---
 pthread_mutex_unlock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 8aecae4..acd8131 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -55,6 +55,11 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
   int kind;
   int result = 0;
 
+  if (mx == NULL)
+    {
+      return EINVAL;
+    }
+
   /*
    * If the thread calling us holds the mutex then there is no
    * race condition. If another thread holds the
-- 
2.43.0


From 264923f4972f28f87078860c3d25ad80f3dd881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:25 +0000
Subject: [PATCH 14/49] fix: a cancelled condition waiter must not consume a
 signal while others wait

---
 pthread_cond_wait.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pthread_cond_wait.c b/pthread_cond_wait.c
index 926ca7a..407c4b4 100644
--- a/pthread_cond_wait.c
+++ b/pthread_cond_wait.c
@@ -274,6 +274,7 @@ typedef struct
   pthread_mutex_t *mutexPtr;
   pthread_cond_t cv;
   int *resultPtr;
+  int cancelled;
 } ptw32_cond_wait_cleanup_args_t;
 
 static void PTW32_CDECL
@@ -300,7 +301,22 @@ ptw32_cond_wait_cleanup (void *args)
 
   if (0 != (nSignalsWasLeft = cv->nWaitersToUnblock))
     {
-      --(cv->nWaitersToUnblock);
+      if (cleanup_args->cancelled && 0 != cv->nWaitersBlocked)
+        {
+          /*
+           * XSH: a thread that is cancelled while it waits does not consume
+           * a signal if there are other threads blocked on the condition
+           * variable. Withdraw from those still blocked, so that the gate
+           * stays closed until the signal has unblocked another waiter.
+           * (The gate is closed, so nobody else adjusts nWaitersBlocked.)
+           */
+          --(cv->nWaitersBlocked);
+          nSignalsWasLeft = 0;
+        }
+      else
+        {
+          --(cv->nWaitersToUnblock);
+        }
     }
   else if (INT_MAX / 2 == ++(cv->nWaitersGone))
     {
@@ -404,6 +420,7 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
   cleanup_args.mutexPtr = mutex;
   cleanup_args.cv = cv;
   cleanup_args.resultPtr = &result;
+  cleanup_args.cancelled = 1;
 
 #if defined(PTW32_CONFIG_MSVC7)
 #pragma inline_depth(0)
@@ -436,6 +453,9 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
 	{
 	  result = PTW32_GET_ERRNO();
 	}
+
+      /* The wait returned: the thread has not been cancelled in it. */
+      cleanup_args.cancelled = 0;
     }
 
   /*
-- 
2.43.0


From 9321ca6e0cd1d3463b19e64334813beb1dcb26a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:16 +0000
Subject: [PATCH 15/49] fix: a condition wait whose mutex could not be released
 must not lock it

---
 pthread_cond_wait.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pthread_cond_wait.c b/pthread_cond_wait.c
index 407c4b4..9f7176b 100644
--- a/pthread_cond_wait.c
+++ b/pthread_cond_wait.c
@@ -275,6 +275,7 @@ typedef struct
   pthread_cond_t cv;
   int *resultPtr;
   int cancelled;
+  int released;
 } ptw32_cond_wait_cleanup_args_t;
 
 static void PTW32_CDECL
@@ -363,8 +364,11 @@ ptw32_cond_wait_cleanup (void *args)
   /*
    * XSH: Upon successful return, the mutex has been locked and is owned
    * by the calling thread.
+   * If the mutex could not be released in the first place then it is not
+   * ours to take, and the caller wants the reason from the unlock.
    */
-  if ((result = pthread_mutex_lock (cleanup_args->mutexPtr)) != 0)
+  if (cleanup_args->released
+      && (result = pthread_mutex_lock (cleanup_args->mutexPtr)) != 0)
     {
       *resultPtr = result;
     }
@@ -421,6 +425,7 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
   cleanup_args.cv = cv;
   cleanup_args.resultPtr = &result;
   cleanup_args.cancelled = 1;
+  cleanup_args.released = 0;
 
 #if defined(PTW32_CONFIG_MSVC7)
 #pragma inline_depth(0)
@@ -432,6 +437,7 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
    */
   if ((result = pthread_mutex_unlock (mutex)) == 0)
     {
+      cleanup_args.released = 1;
 
       /*
        * ...wait to be awakened by
-- 
2.43.0


From 9144f0bc18fa3af01122fd52ae1324bf55dcd97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:42 +0000
Subject: [PATCH 16/49] fix: pthread_mutex_unlock used the mutex after another
 thread could destroy it

---
 implement.h                      |  4 ++
 pthread_mutex_destroy.c          | 11 ++++
 pthread_mutex_unlock.c           | 98 +++++++++++++++-----------------
 pthread_win32_attach_detach_np.c |  3 +
 4 files changed, 64 insertions(+), 52 deletions(-)

diff --git a/implement.h b/implement.h
index 1a5d20d..e9bfd4f 100644
--- a/implement.h
+++ b/implement.h
@@ -326,6 +326,10 @@ struct pthread_mutex_t_
   pthread_t ownerThread;
   HANDLE event;			/* Mutex release notification to waiting
 				   threads. */
+  LONG releasing;		/* Number of threads that have released, or
+				   are about to release, the lock and have yet
+				   to signal the event; the mutex must not be
+				   freed until it is zero. */
   ptw32_robust_node_t*
                     robustNode; /* Extra state for robust mutexes  */
 };
diff --git a/pthread_mutex_destroy.c b/pthread_mutex_destroy.c
index f7fdfdd..d154b07 100644
--- a/pthread_mutex_destroy.c
+++ b/pthread_mutex_destroy.c
@@ -88,6 +88,17 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
 
 	      if (0 == result)
 		{
+		  /*
+		   * A thread that released the mutex before us may not have
+		   * finished with it.
+		   */
+		  while (0 != PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
+				(PTW32_INTERLOCKED_LONGPTR)&mx->releasing,
+				(PTW32_INTERLOCKED_LONG)0))
+		    {
+		      Sleep(1);
+		    }
+
                   if (mx->robustNode != NULL)
                     {
                       free(mx->robustNode);
diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index acd8131..db65777 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -45,6 +45,48 @@
 #include "implement.h"
 
 
+/*
+ * Release the lock and wake a waiter, if any. Another thread may acquire the
+ * lock, release it and destroy the mutex as soon as we let go of it, so we
+ * either don't touch the mutex after that, or have pthread_mutex_destroy()
+ * wait for us.
+ */
+static INLINE int
+ptw32_mutex_release (pthread_mutex_t mx)
+{
+  int result = 0;
+  LONG idx = (LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+							     (PTW32_INTERLOCKED_LONG)0,
+							     (PTW32_INTERLOCKED_LONG)1);
+
+  if (idx < 0)
+    {
+      (void) PTW32_INTERLOCKED_INCREMENT_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->releasing);
+      idx = (LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+						    (PTW32_INTERLOCKED_LONG)0);
+      if (idx < 0)
+	{
+	  /*
+	   * Someone may be waiting on that mutex.
+	   */
+	  if (SetEvent (mx->event) == 0)
+	    {
+	      result = EINVAL;
+	    }
+	}
+      (void) PTW32_INTERLOCKED_DECREMENT_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->releasing);
+    }
+
+  if (idx == 0)
+    {
+      /* [i_a] when unlocking an unlocked mutex, pthread_mutex_unlock() should always produce EPERM for any type of mutex -- see test mutex7.c */
+      result = EPERM;
+    }
+
+  return result;
+}
+
+
 int PTW32_CDECL
 pthread_mutex_unlock (pthread_mutex_t * mutex)
 {
@@ -73,27 +115,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
         {
           if (kind == PTHREAD_MUTEX_NORMAL)
 	    {
-	      LONG idx;
-
-	      idx = (LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
-							    (PTW32_INTERLOCKED_LONG)0);
-	      if (idx != 0)
-	        {
-	          if (idx < 0)
-		    {
-		      /*
-		       * Someone may be waiting on that mutex.
-		       */
-		      if (SetEvent (mx->event) == 0)
-		        {
-		          result = EINVAL;
-		        }
-		    }
-	        }
-	      else	/* [i_a] when unlocking an unlocked mutex, pthread_mutex_unlock() should always produce EPERM for any type of mutex -- see test mutex7.c */
-	        {
-	          result = EPERM;
-	        }
+	      result = ptw32_mutex_release (mx);
 	    }
           else
 	    {
@@ -104,15 +126,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
 		    {
 		      mx->ownerThread.p = NULL;
 
-		      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
-							          (PTW32_INTERLOCKED_LONG)0) < 0L)
-		        {
-		          /* Someone may be waiting on that mutex */
-		          if (SetEvent (mx->event) == 0)
-			    {
-			      result = EINVAL;
-			    }
-		        }
+		      result = ptw32_mutex_release (mx);
 		    }
 	        }
 	      else
@@ -140,17 +154,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
                                                           (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
                   ptw32_robust_mutex_remove(mutex, NULL);
 
-                  if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                             (PTW32_INTERLOCKED_LONG) 0) < 0)
-                    {
-                      /*
-                       * Someone may be waiting on that mutex.
-                       */
-                      if (SetEvent (mx->event) == 0)
-                        {
-                          result = EINVAL;
-                        }
-                    }
+                  result = ptw32_mutex_release (mx);
                 }
               else
                 {
@@ -162,17 +166,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
                                                               (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
                       ptw32_robust_mutex_remove(mutex, NULL);
 
-                      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                                 (PTW32_INTERLOCKED_LONG) 0) < 0)
-                        {
-                          /*
-                           * Someone may be waiting on that mutex.
-                           */
-                          if (SetEvent (mx->event) == 0)
-                            {
-                              result = EINVAL;
-                            }
-                        }
+                      result = ptw32_mutex_release (mx);
                     }
                 }
             }
diff --git a/pthread_win32_attach_detach_np.c b/pthread_win32_attach_detach_np.c
index d6d5023..c040461 100644
--- a/pthread_win32_attach_detach_np.c
+++ b/pthread_win32_attach_detach_np.c
@@ -251,6 +251,8 @@ pthread_win32_thread_detach_np ()
             {
               pthread_mutex_t mx = sp->robustMxList->mx;
               ptw32_robust_mutex_remove(&mx, sp);
+              /* The next owner could destroy the mutex before we're done */
+              (void) PTW32_INTERLOCKED_INCREMENT_LONG((PTW32_INTERLOCKED_LONGPTR)&mx->releasing);
               (void) PTW32_INTERLOCKED_EXCHANGE_LONG(
                        (PTW32_INTERLOCKED_LONGPTR)&mx->robustNode->stateInconsistent,
                        (PTW32_INTERLOCKED_LONG)-1);
@@ -260,6 +262,7 @@ pthread_win32_thread_detach_np ()
                * See pthread_mutex_lock.c.
                */
               SetEvent(mx->event);
+              (void) PTW32_INTERLOCKED_DECREMENT_LONG((PTW32_INTERLOCKED_LONGPTR)&mx->releasing);
             }
 
 
-- 
2.43.0


From cb4a937ec08cab894504e8d5e319a9331392187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 17/49] fix: pthread_detach of an exiting thread destroyed it
 twice or waited for itself

---
 pthread_detach.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pthread_detach.c b/pthread_detach.c
index df19c64..edbd8d5 100644
--- a/pthread_detach.c
+++ b/pthread_detach.c
@@ -110,11 +110,11 @@ pthread_detach (pthread_t thread)
       ptw32_mcs_lock_acquire (&tp->stateLock, &stateLock);
       if (tp->state < PThreadStateLast)
         {
+          /*
+           * The thread will see this on its way out, even if it has
+           * begun to exit, and destroy itself.
+           */
           tp->detachState = PTHREAD_CREATE_DETACHED;
-          if (tp->state == PThreadStateExiting)
-          {
-            destroyIt = PTW32_TRUE;
-          }
         }
       else if (tp->detachState != PTHREAD_CREATE_DETACHED)
         {
-- 
2.43.0


From 5345566bb46cd34f7e9fecea94b2280a28b43edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 18/49] fix: a cleanup handler run by pthread_cleanup_pop could
 run again or end the process when cancelled

---
 cleanup.c | 8 ++++++--
 pthread.h | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cleanup.c b/cleanup.c
index 4b20d5a..73a8e6c 100644
--- a/cleanup.c
+++ b/cleanup.c
@@ -89,6 +89,12 @@ ptw32_pop_cleanup (int execute)
 
   if (cleanup != NULL)
     {
+      /*
+       * Pop it first: the routine may not return (it may be cancelled
+       * or exit the thread) and must not be run again.
+       */
+      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
+
       if (execute && (cleanup->routine != NULL))
 	{
 
@@ -96,8 +102,6 @@ ptw32_pop_cleanup (int execute)
 
 	}
 
-      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
-
     }
 
   return (cleanup);
diff --git a/pthread.h b/pthread.h
index d57a38d..2715cb8 100644
--- a/pthread.h
+++ b/pthread.h
@@ -711,7 +711,11 @@ struct ptw32_cleanup_t
 
           void execute( int exec )
             {
-              executeIt = exec;
+              executeIt = 0;
+              if ( exec && ((void *) cleanUpRout != (void *) 0) )
+                {
+                  (void) (*cleanUpRout)( obj );
+                }
             }
         };
 
-- 
2.43.0


From fe85dd943c49d791b3304fd593c38c0e8a33fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 19/49] fix: a cancel request racing with thread exit was acted
 on in cleanup handlers and destructors

---
 pthread_win32_attach_detach_np.c | 13 +++++++++++++
 ptw32_throw.c                    | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pthread_win32_attach_detach_np.c b/pthread_win32_attach_detach_np.c
index c040461..e75beb2 100644
--- a/pthread_win32_attach_detach_np.c
+++ b/pthread_win32_attach_detach_np.c
@@ -234,6 +234,19 @@ pthread_win32_thread_detach_np ()
       if (sp != NULL) // otherwise Win32 thread with no implicit POSIX handle.
 	{
           ptw32_mcs_local_node_t stateLock;
+
+	  /*
+	   * From now on the thread can't be cancelled. Discard any cancel
+	   * request that is still pending.
+	   */
+	  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+	  if (sp->state < PThreadStateExiting)
+	    {
+	      sp->state = PThreadStateExiting;
+	    }
+	  (void) ResetEvent (sp->cancelEvent);
+	  ptw32_mcs_lock_release (&stateLock);
+
 	  ptw32_callUserDestroyRoutines (sp->ptHandle);
 
 	  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
diff --git a/ptw32_throw.c b/ptw32_throw.c
index 2ae0339..8cb1114 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -81,7 +81,18 @@ ptw32_throw (DWORD exception)
   ULONG_PTR exceptionInformation[3];
 #endif
   if( sp )
-    sp->state = PThreadStateExiting;
+    {
+      ptw32_mcs_local_node_t stateLock;
+
+      /*
+       * From now on the thread can't be cancelled. Discard any cancel
+       * request that is still pending.
+       */
+      ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+      sp->state = PThreadStateExiting;
+      (void) ResetEvent (sp->cancelEvent);
+      ptw32_mcs_lock_release (&stateLock);
+    }
 
   if (exception != PTW32_EPS_CANCEL && exception != PTW32_EPS_EXIT)
     {
-- 
2.43.0


From 07a6e229e270a2e382a6eb66cef20f4b3579651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 20/49] fix: a thread cancelled asynchronously in
 pthread_setcancelstate or pthread_setcanceltype deadlocked

---
 pthread_setcancelstate.c | 9 ++++++++-
 pthread_setcanceltype.c  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pthread_setcancelstate.c b/pthread_setcancelstate.c
index 322026f..0565522 100644
--- a/pthread_setcancelstate.c
+++ b/pthread_setcancelstate.c
@@ -100,7 +100,14 @@ pthread_setcancelstate (int state, int *oldstate)
   /*
    * Lock for async-cancel safety.
    */
-  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  while (ptw32_mcs_lock_try_acquire (&sp->stateLock, &stateLock) == EBUSY)
+    {
+      /*
+       * Another thread is cancelling us. Don't queue for the lock because
+       * we may be made to leave the queue by an asynchronous cancellation.
+       */
+      Sleep (0);
+    }
 
   if (oldstate != NULL)
     {
diff --git a/pthread_setcanceltype.c b/pthread_setcanceltype.c
index bd15f7b..eb3eee0 100644
--- a/pthread_setcanceltype.c
+++ b/pthread_setcanceltype.c
@@ -101,7 +101,14 @@ pthread_setcanceltype (int type, int *oldtype)
   /*
    * Lock for async-cancel safety.
    */
-  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  while (ptw32_mcs_lock_try_acquire (&sp->stateLock, &stateLock) == EBUSY)
+    {
+      /*
+       * Another thread is cancelling us. Don't queue for the lock because
+       * we may be made to leave the queue by an asynchronous cancellation.
+       */
+      Sleep (0);
+    }
 
   if (oldtype != NULL)
     {
-- 
2.43.0


From 36131a3bedb13ea85868803ee7006a66a91a04e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 21/49] fix: pthread_cancel could cancel a new thread that took
 over the struct of an ended one, and was not async-cancel-safe

---
 pthread_cancel.c | 82 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 17 deletions(-)

diff --git a/pthread_cancel.c b/pthread_cancel.c
index 0e1a5cc..51e53a8 100644
--- a/pthread_cancel.c
+++ b/pthread_cancel.c
@@ -106,28 +106,24 @@ pthread_cancel (pthread_t thread)
       * ------------------------------------------------------
       */
 {
-  int result;
+  int result = 0;
   int cancel_self;
+  int restore_state = PTW32_FALSE;
+  int oldstate;
   pthread_t self;
+  ptw32_thread_t * sp;
   ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t reuseLock;
   ptw32_mcs_local_node_t stateLock;
 
-  /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
-   */
-  result = pthread_kill (thread, 0);
-  if (0 != result)
-    {
-      return result;
-    }
-
   if ((self = pthread_self ()).p == NULL)
     {
       return ENOMEM;
     };
 
+  sp = (ptw32_thread_t *) self.p;
+  tp = (ptw32_thread_t *) thread.p;
+
   /*
    * For self cancellation we need to ensure that a thread can't
    * deadlock itself trying to cancel itself asynchronously
@@ -136,12 +132,51 @@ pthread_cancel (pthread_t thread)
    */
   cancel_self = pthread_equal (thread, self);
 
-  tp = (ptw32_thread_t *) thread.p;
-
   /*
    * Lock for async-cancel safety.
    */
-  ptw32_mcs_lock_acquire (&tp->stateLock, &stateLock);
+  if (cancel_self)
+    {
+      while (ptw32_mcs_lock_try_acquire (&tp->stateLock, &stateLock) == EBUSY)
+	{
+	  /*
+	   * Another thread is cancelling us. Don't queue for the lock because
+	   * we may be made to leave the queue by an asynchronous cancellation.
+	   */
+	  Sleep (0);
+	}
+    }
+  else
+    {
+      if (sp->cancelType == PTHREAD_CANCEL_ASYNCHRONOUS)
+	{
+	  /*
+	   * We must not be cancelled while we hold the locks.
+	   */
+	  restore_state = PTW32_TRUE;
+	  (void) pthread_setcancelstate (PTHREAD_CANCEL_DISABLE, &oldstate);
+	}
+
+      /*
+       * Validate the thread id and keep it valid until we are done with it:
+       * the thread could exit and its struct be used for another thread.
+       */
+      ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
+      if (NULL == tp
+	  || thread.x != tp->ptHandle.x
+	  || NULL == tp->threadH)
+	{
+	  ptw32_mcs_lock_release (&reuseLock);
+	  if (restore_state)
+	    {
+	      (void) pthread_setcancelstate (oldstate, NULL);
+	    }
+	  return ESRCH;
+	}
+
+      ptw32_mcs_lock_acquire (&tp->stateLock, &stateLock);
+    }
 
   if (tp->cancelType == PTHREAD_CANCEL_ASYNCHRONOUS
       && tp->cancelState == PTHREAD_CANCEL_ENABLE
@@ -174,9 +209,13 @@ pthread_cancel (pthread_t thread)
 	       * the threadH arg will be used.
 	       */
 	      ptw32_register_cancellation ((PAPCFUNC)ptw32_cancel_callback, threadH, 0);
-	      ptw32_mcs_lock_release (&stateLock);
-	      ResumeThread (threadH);
 	    }
+	  else
+	    {
+	      result = ESRCH;
+	    }
+	  ptw32_mcs_lock_release (&stateLock);
+	  ResumeThread (threadH);
 	}
     }
   else
@@ -200,5 +239,14 @@ pthread_cancel (pthread_t thread)
       ptw32_mcs_lock_release (&stateLock);
     }
 
+  if (!cancel_self)
+    {
+      ptw32_mcs_lock_release (&reuseLock);
+      if (restore_state)
+	{
+	  (void) pthread_setcancelstate (oldstate, NULL);
+	}
+    }
+
   return (result);
 }
-- 
2.43.0


From fd365c09ff8062bc02dba0028aa26badbeba6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 22/49] fix: two threads starting together could get the same
 sequence number

---
 ptw32_new.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptw32_new.c b/ptw32_new.c
index 1039c75..b0e8235 100644
--- a/ptw32_new.c
+++ b/ptw32_new.c
@@ -51,6 +51,7 @@ ptw32_new (void)
   pthread_t t;
   pthread_t nil = {NULL, 0};
   ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t node;
 
   /*
    * If there's a reusable pthread_t then use it.
@@ -77,7 +78,9 @@ ptw32_new (void)
     }
 
   /* Set default state. */
+  ptw32_mcs_lock_acquire(&ptw32_thread_reuse_lock, &node);
   tp->seqNumber = ++ptw32_threadSeqNumber;
+  ptw32_mcs_lock_release(&node);
   tp->sched_priority = THREAD_PRIORITY_NORMAL;
   tp->detachState = PTHREAD_CREATE_JOINABLE;
   tp->cancelState = PTHREAD_CANCEL_ENABLE;
-- 
2.43.0


From 8b887a1f7899021df3238a988b02efc2a55086ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 23/49] fix: cleanup handlers of a thread not created by the
 library did not run when it was cancelled or exited

---
 ptw32_throw.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ptw32_throw.c b/ptw32_throw.c
index 8cb1114..d0affaa 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -125,6 +125,12 @@ ptw32_throw (DWORD exception)
         }
 #endif
 
+#if defined(PTW32_CLEANUP_C)
+
+      ptw32_pop_cleanup_all (1);
+
+#endif
+
 #if defined(PTW32_STATIC_LIB)
 
       pthread_win32_thread_detach_np ();
-- 
2.43.0


From 8985fb4da42b66235889d9bd47525a41f9f0442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 24/49] fix: a cancel request made before the new thread had
 started was forgotten

---
 ptw32_threadStart.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ptw32_threadStart.c b/ptw32_threadStart.c
index 45aadbf..6f887fc 100644
--- a/ptw32_threadStart.c
+++ b/ptw32_threadStart.c
@@ -167,7 +167,10 @@ ptw32_threadStart (void *vthreadParms)
    * has the new handle.
    */
   ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
-  sp->state = PThreadStateRunning;
+  if (sp->state < PThreadStateCancelPending)
+    {
+      sp->state = PThreadStateRunning;
+    }
   ptw32_mcs_lock_release (&stateLock);
 
 #if defined(PTW32_CLEANUP_SEH)
-- 
2.43.0


From 3a7b50215cf9264abb097ace180309f382eb340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 25/49] fix: pthread_barrier_wait read the barrier after
 another thread could destroy it

---
 pthread_barrier_wait.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pthread_barrier_wait.c b/pthread_barrier_wait.c
index e2b313f..b1cb05b 100644
--- a/pthread_barrier_wait.c
+++ b/pthread_barrier_wait.c
@@ -49,6 +49,7 @@ int
 pthread_barrier_wait (pthread_barrier_t * barrier)
 {
   int result;
+  LONG height;
   pthread_barrier_t b;
 
   ptw32_mcs_local_node_t node;
@@ -94,8 +95,14 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
       result = ptw32_semwait (&(b->semBarrierBreeched));
     }
 
+  /*
+   * Once we have been counted out the last thread to cross may destroy
+   * the barrier.
+   */
+  height = (LONG) b->nInitialBarrierHeight;
+
   if ((PTW32_INTERLOCKED_LONG)PTW32_INTERLOCKED_INCREMENT_LONG((PTW32_INTERLOCKED_LONGPTR)&b->nCurrentBarrierHeight)
-		  == (PTW32_INTERLOCKED_LONG)b->nInitialBarrierHeight)
+		  == (PTW32_INTERLOCKED_LONG)height)
     {
       /*
        * We are the last thread to cross this barrier
-- 
2.43.0


From 47a20914e3be7d92a92327188225cbcad614ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:15 +0000
Subject: [PATCH 26/49] fix: internal locks were entered without exclusion when
 no event could be created

---
 ptw32_MCS_lock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ptw32_MCS_lock.c b/ptw32_MCS_lock.c
index dc13061..f706d93 100644
--- a/ptw32_MCS_lock.c
+++ b/ptw32_MCS_lock.c
@@ -159,6 +159,16 @@ ptw32_mcs_flag_wait (HANDLE * flag)
 
           CloseHandle(e);
       }
+      else
+      {
+          /* no event to wait on: poll, the lock must not be entered before it is passed on. */
+          while ((PTW32_INTERLOCKED_SIZE)0 ==
+                   PTW32_INTERLOCKED_EXCHANGE_ADD_SIZE((PTW32_INTERLOCKED_SIZEPTR)flag,
+                                                       (PTW32_INTERLOCKED_SIZE)0)) /* MBR fence */
+            {
+              Sleep (1);
+            }
+      }
     }
 }
 
-- 
2.43.0


From 269fb238ae5a48e987baeb30f3798491d5a0ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 27/49] fix: pthread_getname_np dereferenced the missing name
 of a thread never named

---
 pthread_getname_np.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pthread_getname_np.c b/pthread_getname_np.c
index d5efeb6..b1ce6a7 100644
--- a/pthread_getname_np.c
+++ b/pthread_getname_np.c
@@ -46,9 +46,15 @@ pthread_getname_np(pthread_t thr, char *name, int len)
 {
   ptw32_mcs_local_node_t threadLock;
   ptw32_thread_t * tp;
-  char * s, * d;
+  const char * s;
+  char * d;
   int result;
 
+  if (name == NULL || len <= 0)
+    {
+      return EINVAL;
+    }
+
   /*
    * Validate the thread id. This method works for pthreads-win32 because
    * pthread_kill and pthread_t are designed to accommodate it, but the
@@ -64,7 +70,8 @@ pthread_getname_np(pthread_t thr, char *name, int len)
 
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
-  for (s = tp->name, d = name; *s && d < &name[len - 1]; *d++ = *s++)
+  /* A thread that was never named has an empty name. */
+  for (s = (tp->name != NULL ? tp->name : ""), d = name; *s && d < &name[len - 1]; *d++ = *s++)
     {}
 
   *d = '\0';
-- 
2.43.0


From e45893135800a6df2cc3f1fccad6b215423a7f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 28/49] fix: the name of a thread was leaked when the thread
 was reclaimed

---
 ptw32_threadDestroy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ptw32_threadDestroy.c b/ptw32_threadDestroy.c
index 978df22..39212a5 100644
--- a/ptw32_threadDestroy.c
+++ b/ptw32_threadDestroy.c
@@ -60,6 +60,7 @@ ptw32_threadDestroy (pthread_t thread)
       HANDLE threadH = tp->threadH;
 #endif
       HANDLE cancelEvent = tp->cancelEvent;
+      char * name = tp->name;
 
       /*
        * Thread ID structs are never freed. They're NULLed and reused.
@@ -69,6 +70,11 @@ ptw32_threadDestroy (pthread_t thread)
       ptw32_threadReusePush (thread);
 
       /* Now work on the copies as the `tp` instance has already been nulled. */
+      if (name != NULL)
+	{
+	  free (name);
+	}
+
       if (cancelEvent != NULL)
 	{
 	  CloseHandle (cancelEvent);
-- 
2.43.0


From bd3fba005016d482864f5055406bd20414d5d5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 29/49] fix: operations on a null or destroyed semaphore, or
 posting a non-positive number, were not rejected

---
 sem_destroy.c       |  4 ++++
 sem_getvalue.c      | 10 +++++++++-
 sem_post.c          | 10 +++++++++-
 sem_post_multiple.c | 10 +++++++++-
 sem_trywait.c       | 10 +++++++++-
 sem_wait.c          | 10 +++++++++-
 6 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/sem_destroy.c b/sem_destroy.c
index cde3ae7..ab8c3e2 100644
--- a/sem_destroy.c
+++ b/sem_destroy.c
@@ -112,6 +112,10 @@ sem_destroy (sem_t * sem)
             {
               result = EINVAL;
             }
+          else
+            {
+              *sem = NULL;
+            }
         }
       ptw32_mcs_lock_release(&node);
     }
diff --git a/sem_getvalue.c b/sem_getvalue.c
index 952dea2..19bd779 100644
--- a/sem_getvalue.c
+++ b/sem_getvalue.c
@@ -87,7 +87,15 @@ sem_getvalue (sem_t * sem, int *sval)
   int result = 0;
 
   ptw32_mcs_local_node_t node;
-  sem_t s = *sem;
+  sem_t s;
+
+  if (sem == NULL || *sem == NULL || sval == NULL)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
+  s = *sem;
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   *sval = s->value;
diff --git a/sem_post.c b/sem_post.c
index eed9568..b8c8403 100644
--- a/sem_post.c
+++ b/sem_post.c
@@ -83,7 +83,15 @@ sem_post (sem_t * sem)
   int result = 0;
 
   ptw32_mcs_local_node_t node;
-  sem_t s = *sem;
+  sem_t s;
+
+  if (sem == NULL || *sem == NULL)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
+  s = *sem;
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   if (s->value < SEM_VALUE_MAX)
diff --git a/sem_post_multiple.c b/sem_post_multiple.c
index 1095971..458e0bf 100644
--- a/sem_post_multiple.c
+++ b/sem_post_multiple.c
@@ -86,7 +86,15 @@ sem_post_multiple (sem_t * sem, int count)
   ptw32_mcs_local_node_t node;
   int result = 0;
   long waiters;
-  sem_t s = *sem;
+  sem_t s;
+
+  if (sem == NULL || *sem == NULL || count <= 0)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
+  s = *sem;
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
 
diff --git a/sem_trywait.c b/sem_trywait.c
index 3f3ed62..dfdf07a 100644
--- a/sem_trywait.c
+++ b/sem_trywait.c
@@ -84,9 +84,17 @@ sem_trywait (sem_t * sem)
  */
 {
   int result = 0;
-  sem_t s = *sem;
+  sem_t s;
   ptw32_mcs_local_node_t node;
 
+  if (sem == NULL || *sem == NULL)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
+  s = *sem;
+
   ptw32_mcs_lock_acquire(&s->lock, &node);
 
   if (s->value > 0)
diff --git a/sem_wait.c b/sem_wait.c
index 5d4180c..0b567e5 100644
--- a/sem_wait.c
+++ b/sem_wait.c
@@ -110,10 +110,18 @@ sem_wait (sem_t * sem)
   ptw32_mcs_local_node_t node;
   int v;
   int result = 0;
-  sem_t s = *sem;
+  sem_t s;
 
   pthread_testcancel();
 
+  if (sem == NULL || *sem == NULL)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
+  s = *sem;
+
   ptw32_mcs_lock_acquire(&s->lock, &node);
   v = --s->value;
   ptw32_mcs_lock_release(&node);
-- 
2.43.0


From 963f1827188d6b3bee37a7cbd4e910e934dfd37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 30/49] fix: pthread_attr_setscope and pthread_attr_getscope
 dereferenced invalid attribute objects

---
 pthread_attr_getscope.c | 5 +++++
 pthread_attr_setscope.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pthread_attr_getscope.c b/pthread_attr_getscope.c
index 0136c4b..2c67ca6 100644
--- a/pthread_attr_getscope.c
+++ b/pthread_attr_getscope.c
@@ -53,6 +53,11 @@ int
 pthread_attr_getscope (const pthread_attr_t * attr, int *contentionscope)
 {
 #if defined(_POSIX_THREAD_PRIORITY_SCHEDULING)
+  if (ptw32_is_attr (attr) != 0 || contentionscope == NULL)
+    {
+      return EINVAL;
+    }
+
   *contentionscope = (*attr)->contentionscope;
   return 0;
 #else
diff --git a/pthread_attr_setscope.c b/pthread_attr_setscope.c
index ddf8b11..554ba54 100644
--- a/pthread_attr_setscope.c
+++ b/pthread_attr_setscope.c
@@ -53,6 +53,11 @@ int
 pthread_attr_setscope (pthread_attr_t * attr, int contentionscope)
 {
 #if defined(_POSIX_THREAD_PRIORITY_SCHEDULING)
+  if (ptw32_is_attr (attr) != 0)
+    {
+      return EINVAL;
+    }
+
   switch (contentionscope)
     {
     case PTHREAD_SCOPE_SYSTEM:
-- 
2.43.0


From b31e48bba705ea96e5819618f9816827b7beaa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 31/49] fix: the name in a thread attribute object could not be
 read back and was leaked

---
 pthread_attr_destroy.c    |  4 ++++
 pthread_attr_getname_np.c | 23 +++++++++++++----------
 pthread_attr_setname_np.c | 10 ++++++++++
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/pthread_attr_destroy.c b/pthread_attr_destroy.c
index e1a8b48..243f97a 100644
--- a/pthread_attr_destroy.c
+++ b/pthread_attr_destroy.c
@@ -79,6 +79,10 @@ pthread_attr_destroy (pthread_attr_t * attr)
    * Set the attribute object to a specific invalid value.
    */
   (*attr)->valid = 0;
+  if ((*attr)->thrname != NULL)
+    {
+      free ((*attr)->thrname);
+    }
   free (*attr);
   *attr = NULL;
 
diff --git a/pthread_attr_getname_np.c b/pthread_attr_getname_np.c
index b707410..08bf183 100644
--- a/pthread_attr_getname_np.c
+++ b/pthread_attr_getname_np.c
@@ -45,16 +45,19 @@
 int
 pthread_attr_getname_np(pthread_attr_t * attr, char *name, int len)
 {
-  //strncpy_s(name, len - 1, (*attr)->thrname, len - 1);
-#if defined(_MSVCRT_)
-# pragma warning(suppress:4996)
-  strncpy(name, (*attr)->thrname, len - 1);
-  (*attr)->thrname[len - 1] = '\0';
-#else // _MSVCRT_
-  (void)attr;
-  (void)name;
-  (void)len;
-#endif // _MSVCRT_
+  const char * s;
+  char * d;
+
+  if (ptw32_is_attr (attr) != 0 || name == NULL || len <= 0)
+    {
+      return EINVAL;
+    }
+
+  /* An attribute that was never set is an empty name. */
+  for (s = ((*attr)->thrname != NULL ? (*attr)->thrname : ""), d = name; *s && d < &name[len - 1]; *d++ = *s++)
+    {}
+
+  *d = '\0';
 
   return 0;
 }
diff --git a/pthread_attr_setname_np.c b/pthread_attr_setname_np.c
index 2ab34de..f6c3436 100644
--- a/pthread_attr_setname_np.c
+++ b/pthread_attr_setname_np.c
@@ -53,6 +53,11 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name, void *arg)
   char * newname;
   char * oldname;
 
+  if (ptw32_is_attr (attr) != 0 || name == NULL)
+    {
+      return EINVAL;
+    }
+
   /*
    * According to the MSDN description for snprintf()
    * where count is the second parameter:
@@ -87,6 +92,11 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name)
   char * newname;
   char * oldname;
 
+  if (ptw32_is_attr (attr) != 0 || name == NULL)
+    {
+      return EINVAL;
+    }
+
   newname = ptw32_strdup(name);
 
   oldname = (*attr)->thrname;
-- 
2.43.0


From 28bc45e47d6700218d65c9d99bdcdd24c5840fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 32/49] fix: setting a name lost the previous name without an
 error when memory was exhausted

---
 pthread_attr_setname_np.c | 8 ++++++++
 pthread_setname_np.c      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pthread_attr_setname_np.c b/pthread_attr_setname_np.c
index f6c3436..22a0d3b 100644
--- a/pthread_attr_setname_np.c
+++ b/pthread_attr_setname_np.c
@@ -75,6 +75,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
@@ -98,6 +102,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name)
     }
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
diff --git a/pthread_setname_np.c b/pthread_setname_np.c
index 25a0339..1e81b37 100644
--- a/pthread_setname_np.c
+++ b/pthread_setname_np.c
@@ -118,6 +118,10 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
@@ -167,6 +171,10 @@ pthread_setname_np(pthread_t thr, const char *name)
     }
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
-- 
2.43.0


From 29d50cd1554b6510665e4b5b3f41011ce4b04cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 33/49] fix: pthread_create accepted a destroyed attribute
 object

---
 create.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/create.c b/create.c
index 1e15a90..2a4760a 100644
--- a/create.c
+++ b/create.c
@@ -116,6 +116,12 @@ pthread_create (pthread_t * tid,
 
   if (attr != NULL)
     {
+      if (ptw32_is_attr (attr) != 0)
+        {
+          result = EINVAL;
+          goto FAIL0;
+        }
+
       a = *attr;
     }
   else
-- 
2.43.0


From 4f63220c7d458502566b17249215166306987fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 34/49] fix: pthread_create lost the name given by the
 attributes without an error when memory was exhausted

---
 create.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/create.c b/create.c
index 2a4760a..912a44c 100644
--- a/create.c
+++ b/create.c
@@ -175,7 +175,13 @@ pthread_create (pthread_t * tid,
       tp->detachState = a->detachstate;
       priority = a->param.sched_priority;
       if (a->thrname != NULL)
-        tp->name = ptw32_strdup(a->thrname);
+        {
+          tp->name = ptw32_strdup(a->thrname);
+          if (tp->name == NULL)
+            {
+              goto FAIL0;
+            }
+        }
 
 #if (THREAD_PRIORITY_LOWEST > THREAD_PRIORITY_NORMAL)
       /* WinCE */
-- 
2.43.0


From 75f1f9b983d066bd8f9b376bea73c896f22f1337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 35/49] fix: pthread_create did not intersect the affinity
 attribute with the available processors

---
 create.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/create.c b/create.c
index 912a44c..4a3dfe2 100644
--- a/create.c
+++ b/create.c
@@ -168,7 +168,22 @@ pthread_create (pthread_t * tid,
       CPU_ZERO(&none);
       if (! CPU_EQUAL(&attr_cpuset, &none))
         {
-          tp->cpuset = a->cpuset;
+          cpu_set_t processCpuset;
+
+          /*
+           * Result is the intersection of available CPUs and the attribute.
+           */
+          if (sched_getaffinity(0, sizeof(cpu_set_t), &processCpuset) == 0)
+            {
+              CPU_AND(&attr_cpuset, &processCpuset, &attr_cpuset);
+              if (CPU_EQUAL(&attr_cpuset, &none))
+                {
+                  result = EINVAL;
+                  goto FAIL0;
+                }
+            }
+
+          tp->cpuset = ((_sched_cpu_set_vector_*)&attr_cpuset)->_cpuset;
         }
 #endif
       stackSize = (unsigned int)a->stacksize;
-- 
2.43.0


From 98729d1f5ad43bce5579a9372178dea9339808fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 36/49] fix: pthread_getaffinity_np reported processors taken
 away from the process

---
 pthread_setaffinity.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pthread_setaffinity.c b/pthread_setaffinity.c
index 7926b9e..f799ed7 100644
--- a/pthread_setaffinity.c
+++ b/pthread_setaffinity.c
@@ -227,6 +227,18 @@ pthread_getaffinity_np (pthread_t thread, size_t cpusetsize, cpu_set_t *cpuset)
 			   * affinity and try to do so in a reasonable way.
 			   */
 			  DWORD_PTR vThreadMask = SetThreadAffinityMask(tp->threadH, tp->cpuset);
+			  if (!vThreadMask)
+			    {
+				  cpu_set_t processCpuset;
+
+				  /*
+				   * Our record has CPUs that the process may no longer use.
+				   */
+				  if (sched_getaffinity(0, sizeof(cpu_set_t), &processCpuset) == 0)
+				    {
+					  vThreadMask = SetThreadAffinityMask(tp->threadH, ((_sched_cpu_set_vector_*)&processCpuset)->_cpuset);
+				    }
+			    }
 			  if (vThreadMask && vThreadMask != tp->cpuset)
 			    {
 				  (void) SetThreadAffinityMask(tp->threadH, vThreadMask);
-- 
2.43.0


From 69ff51dae9b423718fcb0927f0afff05d1dda8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 37/49] fix: pthread_key_delete and pthread_setspecific
 reported success for an invalid key

---
 pthread_key_delete.c  | 4 ++++
 pthread_setspecific.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pthread_key_delete.c b/pthread_key_delete.c
index f36f7f2..fc8d5b1 100644
--- a/pthread_key_delete.c
+++ b/pthread_key_delete.c
@@ -127,6 +127,10 @@ pthread_key_delete (pthread_key_t key)
 #endif
       free (key);
     }
+  else
+    {
+      result = EINVAL;
+    }
 
   return (result);
 }
diff --git a/pthread_setspecific.c b/pthread_setspecific.c
index cc0f64a..221d099 100644
--- a/pthread_setspecific.c
+++ b/pthread_setspecific.c
@@ -169,6 +169,10 @@ pthread_setspecific (pthread_key_t key, const void *value)
 	    }
 	}
     }
+  else
+    {
+      result = EINVAL;
+    }
 
   return (result);
 }				/* pthread_setspecific */
-- 
2.43.0


From 4e5f08a9353141d64feb74ad9dabf91b3be8d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 38/49] fix: timed waits failed when the current time is beyond
 the year 2262

---
 ptw32_relmillisecs.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/ptw32_relmillisecs.c b/ptw32_relmillisecs.c
index db6dbf2..d14538d 100644
--- a/ptw32_relmillisecs.c
+++ b/ptw32_relmillisecs.c
@@ -57,6 +57,7 @@ ptw32_relmillisecs (const struct timespec * abstime)
   DWORD milliseconds;
   int64_t tmpAbsNanoseconds;
   int64_t tmpCurrNanoseconds;
+  int64_t deltaSeconds;
 
   struct timespec currSysTime;
   FILETIME ft;
@@ -76,15 +77,6 @@ ptw32_relmillisecs (const struct timespec * abstime)
    *
    * Assume all integers are unsigned, i.e. cannot test if less than 0.
    */
-  if ((int64_t)abstime->tv_sec >= INT64_MAX / NANOSEC_PER_SEC)
-    {
-      /* Not representable in nanoseconds; saturate. */
-      tmpAbsNanoseconds = INT64_MAX;
-    }
-  else
-    {
-      tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
-    }
 
   /* get current system time */
 
@@ -97,7 +89,25 @@ ptw32_relmillisecs (const struct timespec * abstime)
 
   ptw32_filetime_to_timespec(&ft, &currSysTime);
 
-  tmpCurrNanoseconds = (int64_t)currSysTime.tv_nsec + ((int64_t)currSysTime.tv_sec * NANOSEC_PER_SEC);
+  /*
+   * Times beyond the year 2262 are not representable in nanoseconds, so count
+   * both from the current second, and saturate intervals longer than INFINITE.
+   */
+  if ((int64_t)abstime->tv_sec > (int64_t)currSysTime.tv_sec + INFINITE)
+    {
+      deltaSeconds = (int64_t)INFINITE;
+    }
+  else if ((int64_t)abstime->tv_sec < (int64_t)currSysTime.tv_sec - INFINITE)
+    {
+      deltaSeconds = -(int64_t)INFINITE;
+    }
+  else
+    {
+      deltaSeconds = (int64_t)abstime->tv_sec - (int64_t)currSysTime.tv_sec;
+    }
+
+  tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + (deltaSeconds * NANOSEC_PER_SEC);
+  tmpCurrNanoseconds = (int64_t)currSysTime.tv_nsec;
 
   if (tmpAbsNanoseconds > tmpCurrNanoseconds)
     {
-- 
2.43.0


From 5fea34194bd5ddeaa412705e4bf2cd68b68fcbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 39/49] fix: pthread_delay_np returned early from intervals
 that overflow and accepted malformed ones

---
 pthread_delay_np.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pthread_delay_np.c b/pthread_delay_np.c
index ac094d6..9961106 100644
--- a/pthread_delay_np.c
+++ b/pthread_delay_np.c
@@ -41,6 +41,7 @@
 # include "config.h"
 #endif
 
+#include <limits.h>
 #include "pthread.h"
 #include "implement.h"
 
@@ -89,7 +90,6 @@ int
 pthread_delay_np (struct timespec *interval)
 {
   DWORD wait_time;
-  DWORD secs_in_millisecs;
   DWORD millisecs;
   DWORD status;
   pthread_t self;
@@ -100,6 +100,11 @@ pthread_delay_np (struct timespec *interval)
       return EINVAL;
     }
 
+  if (interval->tv_sec < 0 || interval->tv_nsec < 0L || interval->tv_nsec >= 1000000000L)
+    {
+      return EINVAL;
+    }
+
   if (interval->tv_sec == 0L && interval->tv_nsec == 0L)
     {
       pthread_testcancel ();
@@ -108,9 +113,6 @@ pthread_delay_np (struct timespec *interval)
       return (0);
     }
 
-  /* convert secs to millisecs */
-  secs_in_millisecs = (DWORD)interval->tv_sec * 1000L;
-
   /* convert nanosecs to millisecs (rounding up) */
   millisecs = (interval->tv_nsec + 999999L) / 1000000L;
 
@@ -118,12 +120,15 @@ pthread_delay_np (struct timespec *interval)
 #pragma disable_message (124)
 #endif
 
-  wait_time = secs_in_millisecs + millisecs;
-  if (0 > (int)wait_time)
+  /* the longest interval that can be waited for is INT_MAX millisecs */
+  if (interval->tv_sec > (INT_MAX - (int)millisecs) / 1000)
     {
       return EINVAL;
     }
 
+  /* convert secs to millisecs */
+  wait_time = (DWORD)interval->tv_sec * 1000L + millisecs;
+
 #if defined(__WATCOMC__)
 #pragma enable_message (124)
 #endif
-- 
2.43.0


From baa9d117e32d98aa43f3a2526b613e632f960865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 40/49] fix: pthread_rwlock_init rejected every attribute
 object

---
 pthread_rwlock_init.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pthread_rwlock_init.c b/pthread_rwlock_init.c
index 6b12a34..57ab6a3 100644
--- a/pthread_rwlock_init.c
+++ b/pthread_rwlock_init.c
@@ -58,7 +58,8 @@ pthread_rwlock_init (pthread_rwlock_t * rwlock,
       return EINVAL;
     }
 
-  if (attr != NULL && *attr != NULL)
+  if (attr != NULL && *attr != NULL &&
+      (*attr)->pshared == PTHREAD_PROCESS_SHARED)
     {
       result = EINVAL;		/* Not supported */
       goto DONE;
-- 
2.43.0


From 6b83e557451ebe7b9ba1fba6e37761a91a936633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 41/49] fix: pthread_self crashed or leaked when it could not
 create an implicit thread

---
 pthread_self.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pthread_self.c b/pthread_self.c
index c758b7a..643ade2 100644
--- a/pthread_self.c
+++ b/pthread_self.c
@@ -125,6 +125,7 @@ pthread_self (void)
 				&sp->threadH,
 				0, FALSE, DUPLICATE_SAME_ACCESS))
     	    {
+    		  sp->threadH = 0;
     		  fail = PTW32_TRUE;
     	    }
 #endif
@@ -162,9 +163,16 @@ pthread_self (void)
     	       * because the new handle is not yet public.
     	       */
     	      sp->sched_priority = GetThreadPriority (sp->threadH);
-    	      pthread_setspecific (ptw32_selfThreadKey, (void *) sp);
+    	      if (!fail && 0 != pthread_setspecific (ptw32_selfThreadKey, (void *) sp))
+    	        {
+    	          fail = PTW32_TRUE;
+    	        }
     	    }
         }
+      else
+        {
+    	  return nil;
+        }
 
       if (fail)
         {
@@ -172,8 +180,7 @@ pthread_self (void)
     	   * Thread structs are never freed but are reused so if this
     	   * continues to fail at least we don't leak memory.
     	   */
-		  sp->threadH = 0;	// [i_a]
-    	  ptw32_threadReusePush (self);
+    	  ptw32_threadDestroy (self);
     	  /*
     	   * As this is a win32 thread calling us and we have failed,
     	   * return a value that makes sense to win32.
-- 
2.43.0


From 48f328372df0f9a76087a81c3c80fd7b0c3629f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 42/49] fix: a statically initialised object whose first use
 ran out of resources was left destroyed

---
 ptw32_cond_check_need_init.c     | 12 +++++++++++-
 ptw32_mutex_check_need_init.c    | 15 ++++++++++++---
 ptw32_rwlock_check_need_init.c   | 12 +++++++++++-
 ptw32_spinlock_check_need_init.c | 12 +++++++++++-
 4 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/ptw32_cond_check_need_init.c b/ptw32_cond_check_need_init.c
index 616a891..1fe225f 100644
--- a/ptw32_cond_check_need_init.c
+++ b/ptw32_cond_check_need_init.c
@@ -67,7 +67,17 @@ ptw32_cond_check_need_init (pthread_cond_t * cond)
    */
   if (*cond == PTHREAD_COND_INITIALIZER)
     {
-      result = pthread_cond_init (cond, NULL);
+      pthread_cond_t cv;
+
+      /*
+       * If the initialisation fails then the object is left as it is, so
+       * that a later operation can try again.
+       */
+      result = pthread_cond_init (&cv, NULL);
+      if (result == 0)
+        {
+          *cond = cv;
+        }
     }
   else if (*cond == NULL)
     {
diff --git a/ptw32_mutex_check_need_init.c b/ptw32_mutex_check_need_init.c
index 98744a5..764fdb7 100644
--- a/ptw32_mutex_check_need_init.c
+++ b/ptw32_mutex_check_need_init.c
@@ -73,15 +73,15 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
 
   if (mtx == PTHREAD_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, NULL);
+      result = pthread_mutex_init (&mtx, NULL);
     }
   else if (mtx == PTHREAD_RECURSIVE_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, &ptw32_recursive_mutexattr);
+      result = pthread_mutex_init (&mtx, &ptw32_recursive_mutexattr);
     }
   else if (mtx == PTHREAD_ERRORCHECK_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, &ptw32_errorcheck_mutexattr);
+      result = pthread_mutex_init (&mtx, &ptw32_errorcheck_mutexattr);
     }
   else if (mtx == NULL)
     {
@@ -93,6 +93,15 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
       result = EINVAL;
     }
 
+  /*
+   * If the initialisation failed then the mutex is left as it is, so that
+   * a later operation can try again.
+   */
+  if (result == 0)
+    {
+      *mutex = mtx;
+    }
+
   ptw32_mcs_lock_release(&node);
 
   return (result);
diff --git a/ptw32_rwlock_check_need_init.c b/ptw32_rwlock_check_need_init.c
index 3d2c447..c15baba 100644
--- a/ptw32_rwlock_check_need_init.c
+++ b/ptw32_rwlock_check_need_init.c
@@ -66,7 +66,17 @@ ptw32_rwlock_check_need_init (pthread_rwlock_t * rwlock)
    */
   if (*rwlock == PTHREAD_RWLOCK_INITIALIZER)
     {
-      result = pthread_rwlock_init (rwlock, NULL);
+      pthread_rwlock_t rwl;
+
+      /*
+       * If the initialisation fails then the object is left as it is, so
+       * that a later operation can try again.
+       */
+      result = pthread_rwlock_init (&rwl, NULL);
+      if (result == 0)
+        {
+          *rwlock = rwl;
+        }
     }
   else if (*rwlock == NULL)
     {
diff --git a/ptw32_spinlock_check_need_init.c b/ptw32_spinlock_check_need_init.c
index 7a49b87..3c742f5 100644
--- a/ptw32_spinlock_check_need_init.c
+++ b/ptw32_spinlock_check_need_init.c
@@ -67,7 +67,17 @@ ptw32_spinlock_check_need_init (pthread_spinlock_t * lock)
    */
   if (*lock == PTHREAD_SPINLOCK_INITIALIZER)
     {
-      result = pthread_spin_init (lock, PTHREAD_PROCESS_PRIVATE);
+      pthread_spinlock_t s;
+
+      /*
+       * If the initialisation fails then the object is left as it is, so
+       * that a later operation can try again.
+       */
+      result = pthread_spin_init (&s, PTHREAD_PROCESS_PRIVATE);
+      if (result == 0)
+        {
+          *lock = s;
+        }
     }
   else if (*lock == NULL)
     {
-- 
2.43.0


From f1a50cde9eb2c1c80884c69e67458e958b96c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 43/49] fix: the library counted as initialised when its keys
 could not be created

---
 ptw32_processInitialize.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptw32_processInitialize.c b/ptw32_processInitialize.c
index b73206e..ac7ece6 100644
--- a/ptw32_processInitialize.c
+++ b/ptw32_processInitialize.c
@@ -150,7 +150,10 @@ ptw32_processInitialize (void)
   if ((pthread_key_create (&ptw32_selfThreadKey, NULL) != 0) ||
       (pthread_key_create (&ptw32_cleanupKey, NULL) != 0))
     {
+      /* Only an initialised process is torn down. */
+      ptw32_processInitialized = PTW32_TRUE;
       ptw32_processTerminate ();
+      return PTW32_FALSE;
     }
   ptw32_processInitialized = PTW32_TRUE;
   return (ptw32_processInitialized);
-- 
2.43.0


From 31b59971eae88f157a06cb922dac8b5c3c230beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 44/49] fix: pthread_mutex_init dereferenced NULL when memory
 was exhausted

---
 pthread_mutex_init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pthread_mutex_init.c b/pthread_mutex_init.c
index 4fac214..8b4ce8d 100644
--- a/pthread_mutex_init.c
+++ b/pthread_mutex_init.c
@@ -139,7 +139,7 @@ pthread_mutex_init (pthread_mutex_t * mutex, const pthread_mutexattr_t * attr)
 	}
     }
 
-  if (0 != result)
+  if (0 != result && NULL != mx)
     {
       if (NULL != mx->robustNode)
 	{
-- 
2.43.0


From c3bc01572e77d081740c93cbe6a687e99a4689ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 45/49] fix: the name of a thread could be changed while the
 thread was being reclaimed

---
 ptw32_threadDestroy.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ptw32_threadDestroy.c b/ptw32_threadDestroy.c
index 39212a5..78c17a0 100644
--- a/ptw32_threadDestroy.c
+++ b/ptw32_threadDestroy.c
@@ -57,10 +57,27 @@ ptw32_threadDestroy (pthread_t thread)
        * Copy thread state so that the thread can be atomically NULLed.
        */
 #if ! defined(__MINGW32__) || defined (__MSVCRT__) || defined (__DMC__)
-      HANDLE threadH = tp->threadH;
+      HANDLE threadH;
 #endif
-      HANDLE cancelEvent = tp->cancelEvent;
-      char * name = tp->name;
+      HANDLE cancelEvent;
+      char * name;
+      ptw32_mcs_local_node_t node;
+
+      /*
+       * From here on the thread id is not valid any more: nobody may change
+       * what we have copied.
+       */
+      ptw32_mcs_lock_acquire(&ptw32_thread_reuse_lock, &node);
+
+#if ! defined(__MINGW32__) || defined (__MSVCRT__) || defined (__DMC__)
+      threadH = tp->threadH;
+#endif
+      cancelEvent = tp->cancelEvent;
+      name = tp->name;
+      tp->threadH = 0;
+      tp->name = NULL;
+
+      ptw32_mcs_lock_release(&node);
 
       /*
        * Thread ID structs are never freed. They're NULLed and reused.
-- 
2.43.0


From 7921a655629fe6eca102eb1ff5952d58bbf884b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 46/49] fix: name and scheduling functions could reach a thread
 that had meanwhile been reclaimed

---
 pthread_getname_np.c    | 24 ++++++++++++++----------
 pthread_getschedparam.c | 25 +++++++++++++++++--------
 pthread_setname_np.c    | 34 ++++++++++++++++++++++++++++++++++
 pthread_setschedparam.c | 38 +++++++++++++++++++++++++-------------
 4 files changed, 90 insertions(+), 31 deletions(-)

diff --git a/pthread_getname_np.c b/pthread_getname_np.c
index b1ce6a7..02f15f9 100644
--- a/pthread_getname_np.c
+++ b/pthread_getname_np.c
@@ -44,11 +44,11 @@
 int
 pthread_getname_np(pthread_t thr, char *name, int len)
 {
+  ptw32_mcs_local_node_t reuseLock;
   ptw32_mcs_local_node_t threadLock;
   ptw32_thread_t * tp;
   const char * s;
   char * d;
-  int result;
 
   if (name == NULL || len <= 0)
     {
@@ -56,18 +56,21 @@ pthread_getname_np(pthread_t thr, char *name, int len)
     }
 
   /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
+   * Validate the thread id and keep it valid until we are done with it:
+   * the thread could exit and its struct be used for another thread.
    */
-  result = pthread_kill (thr, 0);
-  if (0 != result)
-    {
-      return result;
-    }
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
 
   tp = (ptw32_thread_t *) thr.p;
 
+  if (NULL == tp
+      || thr.x != tp->ptHandle.x
+      || NULL == tp->threadH)
+    {
+      ptw32_mcs_lock_release (&reuseLock);
+      return ESRCH;
+    }
+
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
   /* A thread that was never named has an empty name. */
@@ -76,6 +79,7 @@ pthread_getname_np(pthread_t thr, char *name, int len)
 
   *d = '\0';
   ptw32_mcs_lock_release (&threadLock);
+  ptw32_mcs_lock_release (&reuseLock);
 
-  return result;
+  return 0;
 }
diff --git a/pthread_getschedparam.c b/pthread_getschedparam.c
index 24d97f2..b4e4954 100644
--- a/pthread_getschedparam.c
+++ b/pthread_getschedparam.c
@@ -49,21 +49,28 @@ int
 pthread_getschedparam (pthread_t thread, int *policy,
 		       struct sched_param *param)
 {
-  int result;
+  ptw32_mcs_local_node_t reuseLock;
+  ptw32_thread_t * tp;
 
   /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
+   * Validate the thread id and keep it valid until we are done with it:
+   * the thread could exit and its struct be used for another thread.
    */
-  result = pthread_kill (thread, 0);
-  if (0 != result)
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
+  tp = (ptw32_thread_t *) thread.p;
+
+  if (NULL == tp
+      || thread.x != tp->ptHandle.x
+      || NULL == tp->threadH)
     {
-      return result;
+      ptw32_mcs_lock_release (&reuseLock);
+      return ESRCH;
     }
 
   if (policy == NULL)
     {
+      ptw32_mcs_lock_release (&reuseLock);
       return EINVAL;
     }
 
@@ -76,7 +83,9 @@ pthread_getschedparam (pthread_t thread, int *policy,
    * for the target thread. It must not return the actual thread
    * priority as altered by any system priority adjustments etc.
    */
-  param->sched_priority = ((ptw32_thread_t *)thread.p)->sched_priority;
+  param->sched_priority = tp->sched_priority;
+
+  ptw32_mcs_lock_release (&reuseLock);
 
   return 0;
 }
diff --git a/pthread_setname_np.c b/pthread_setname_np.c
index 1e81b37..1d688ee 100644
--- a/pthread_setname_np.c
+++ b/pthread_setname_np.c
@@ -79,6 +79,7 @@ SetThreadName( DWORD dwThreadID, char* threadName)
 int
 pthread_setname_np(pthread_t thr, const char *name, void *arg)
 {
+  ptw32_mcs_local_node_t reuseLock;
   ptw32_mcs_local_node_t threadLock;
   int len;
   int result;
@@ -131,8 +132,23 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
     }
 #endif
 
+  /*
+   * Validate the thread id again and keep it valid until we are done with it:
+   * the thread could exit and its struct be used for another thread.
+   */
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
   tp = (ptw32_thread_t *) thr.p;
 
+  if (NULL == tp
+      || thr.x != tp->ptHandle.x
+      || NULL == tp->threadH)
+    {
+      ptw32_mcs_lock_release (&reuseLock);
+      free (newname);
+      return ESRCH;
+    }
+
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
   oldname = tp->name;
@@ -143,6 +159,7 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
     }
 
   ptw32_mcs_lock_release (&threadLock);
+  ptw32_mcs_lock_release (&reuseLock);
 
   return 0;
 }
@@ -150,6 +167,7 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
 int
 pthread_setname_np(pthread_t thr, const char *name)
 {
+  ptw32_mcs_local_node_t reuseLock;
   ptw32_mcs_local_node_t threadLock;
   int result;
   char * newname;
@@ -185,8 +203,23 @@ pthread_setname_np(pthread_t thr, const char *name)
     }
 #endif
 
+  /*
+   * Validate the thread id again and keep it valid until we are done with it:
+   * the thread could exit and its struct be used for another thread.
+   */
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
   tp = (ptw32_thread_t *) thr.p;
 
+  if (NULL == tp
+      || thr.x != tp->ptHandle.x
+      || NULL == tp->threadH)
+    {
+      ptw32_mcs_lock_release (&reuseLock);
+      free (newname);
+      return ESRCH;
+    }
+
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
   oldname = tp->name;
@@ -197,6 +230,7 @@ pthread_setname_np(pthread_t thr, const char *name)
     }
 
   ptw32_mcs_lock_release (&threadLock);
+  ptw32_mcs_lock_release (&reuseLock);
 
   return 0;
 }
diff --git a/pthread_setschedparam.c b/pthread_setschedparam.c
index 808ef5f..d24242f 100644
--- a/pthread_setschedparam.c
+++ b/pthread_setschedparam.c
@@ -50,31 +50,43 @@ pthread_setschedparam (pthread_t thread, int policy,
 		       const struct sched_param *param)
 {
   int result;
+  ptw32_mcs_local_node_t reuseLock;
+  ptw32_thread_t * tp;
 
   /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
+   * Validate the thread id and keep it valid until we are done with it:
+   * the thread could exit and its struct be used for another thread.
    */
-  result = pthread_kill (thread, 0);
-  if (0 != result)
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
+  tp = (ptw32_thread_t *) thread.p;
+
+  if (NULL == tp
+      || thread.x != tp->ptHandle.x
+      || NULL == tp->threadH)
     {
-      return result;
+      ptw32_mcs_lock_release (&reuseLock);
+      return ESRCH;
     }
 
-  /* Validate the scheduling policy. */
   if (policy < SCHED_MIN || policy > SCHED_MAX)
     {
-      return EINVAL;
+      /* Invalid scheduling policy. */
+      result = EINVAL;
     }
-
-  /* Ensure the policy is SCHED_OTHER. */
-  if (policy != SCHED_OTHER)
+  else if (policy != SCHED_OTHER)
     {
-      return ENOTSUP;
+      /* The policy must be SCHED_OTHER. */
+      result = ENOTSUP;
+    }
+  else
+    {
+      result = ptw32_setthreadpriority (thread, policy, param->sched_priority);
     }
 
-  return (ptw32_setthreadpriority (thread, policy, param->sched_priority));
+  ptw32_mcs_lock_release (&reuseLock);
+
+  return result;
 }
 
 
-- 
2.43.0


From c26ab92eb21e3696438ba4af89f4a39bbb2e2283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 47/49] fix: pthread_kill could terminate a reused thread, and
 a joiner could miss that the thread was killed

---
 pthread_kill.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pthread_kill.c b/pthread_kill.c
index fd713d2..aef841b 100644
--- a/pthread_kill.c
+++ b/pthread_kill.c
@@ -97,8 +97,10 @@ pthread_kill (pthread_t thread, int sig)
       result = ESRCH;
     }
 
-  ptw32_mcs_lock_release(&node);
-
+  /*
+   * The lock is kept: the thread could be reclaimed and its struct be used
+   * for another thread.
+   */
   if (0 == result && 0 != sig)
     {
       /*
@@ -126,6 +128,7 @@ pthread_kill (pthread_t thread, int sig)
 #endif
       {
           ptw32_mcs_local_node_t stateLock;
+          HANDLE threadH = tp->threadH;
 
           /*
            * Lock for async-cancel safety.
@@ -137,14 +140,23 @@ pthread_kill (pthread_t thread, int sig)
           {
               tp->state = PThreadStateLast;
               tp->cancelState = PTHREAD_CANCEL_DISABLE;
-              ptw32_mcs_lock_release(&stateLock);
 
-              result = TerminateThread(tp->threadH, (DWORD)(ptrdiff_t)PTHREAD_CANCELED);
-              result = (result != 0) ? 0 : EINVAL;
-
-              // Set exit to CANCELED (KILLED) when it hasn't been set already.
+              // Set exit to CANCELED (KILLED) when it hasn't been set already;
+              // whoever joins the thread may look at it as soon as it has been terminated.
               if (tp->exitStatus == NULL)
                   tp->exitStatus = PTHREAD_CANCELED;
+              ptw32_mcs_lock_release(&stateLock);
+
+              if (tp->thread == GetCurrentThreadId())
+                {
+                  // We must not take the lock with us.
+                  ptw32_mcs_lock_release(&node);
+                  TerminateThread(threadH, (DWORD)(ptrdiff_t)PTHREAD_CANCELED);
+                  return EINVAL;
+                }
+
+              result = TerminateThread(threadH, (DWORD)(ptrdiff_t)PTHREAD_CANCELED);
+              result = (result != 0) ? 0 : EINVAL;
           }
           else
           {
@@ -158,6 +170,8 @@ pthread_kill (pthread_t thread, int sig)
       }
     }
 
+  ptw32_mcs_lock_release(&node);
+
   return result;
 
 }				/* pthread_kill */
-- 
2.43.0


From 98a26216892132f9eeed96c5f8153b71ac326219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:22 +0000
Subject: [PATCH 48/49] fix: a cancellation already pending was not acted on by
 pthread_join of a thread that had ended

The documentation lists pthread_join and pthread_timedjoin_np as cancellation
points, where a pending request is executed. With the target already ended the
wait returned for it first, and the request stayed pending.
---
 pthread_join.c         | 5 ++++-
 pthread_timedjoin_np.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pthread_join.c b/pthread_join.c
index 7a2fdfa..01f72d4 100644
--- a/pthread_join.c
+++ b/pthread_join.c
@@ -134,8 +134,11 @@ pthread_join (pthread_t thread, void **value_ptr)
 	   * If we are canceled then our target thread must not be
 	   * detached (destroyed). This is guaranteed because
 	   * pthreadCancelableWait will not return if we
-	   * are canceled.
+	   * are canceled. A request that is already pending is acted
+	   * on even if the target thread has already ended.
 	   */
+	  pthread_testcancel();
+
 	  result = pthreadCancelableWait (tp->threadH);
 
 	  if (0 == result)
diff --git a/pthread_timedjoin_np.c b/pthread_timedjoin_np.c
index 8d6fb7e..41f2bbb 100755
--- a/pthread_timedjoin_np.c
+++ b/pthread_timedjoin_np.c
@@ -160,8 +160,11 @@ pthread_timedjoin_np (pthread_t thread, void **value_ptr, const struct timespec
            * If we are canceled then our target thread must not be
            * detached (destroyed). This is guaranteed because
            * pthreadCancelableTimedWait will not return if we
-           * are canceled.
+           * are canceled. A request that is already pending is acted
+           * on even if the target thread has already ended.
            */
+          pthread_testcancel();
+
           result = pthreadCancelableTimedWait (tp->threadH, milliseconds);
 
           if (0 == result)
-- 
2.43.0


From 79bd29dd6d2fa1a81a96919ad5f8b12f00b04cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 49/49] fix: a timed out pthread_rwlock_timedrdlock could
 corrupt the reader counts

---
 pthread_rwlock_timedrdlock.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pthread_rwlock_timedrdlock.c b/pthread_rwlock_timedrdlock.c
index 65b3756..aafa663 100644
--- a/pthread_rwlock_timedrdlock.c
+++ b/pthread_rwlock_timedrdlock.c
@@ -93,10 +93,7 @@ pthread_rwlock_timedrdlock (pthread_rwlock_t * rwlock,
 	   pthread_mutex_timedlock (&(rwl->mtxSharedAccessCompleted),
 				    abstime)) != 0)
 	{
-	  if (result == ETIMEDOUT)
-	    {
-	      ++rwl->nCompletedSharedAccessCount;
-	    }
+	  --rwl->nSharedAccessCount;
 	  (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));
 	  return result;
 	}
-- 
2.43.0

