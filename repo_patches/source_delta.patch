From 44434dee9737833159714cc984da330eaa582d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 01/33] fix: pruned k-means must measure the first centroid
 drift from the initial centers

prev_means was never recorded before the first update, so the drift used to
grow the upper bounds was the norm of the new mean. Rows were skipped although
another centroid had become closer, and the result differed from Lloyd's.
---
 libauto/min-tri-kmeans.cpp         | 1 +
 libman/kmeans_task_coordinator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index ca7abe1..8477190 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -320,6 +320,7 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
 #endif
 
     if (prune_init) {
+        cls->set_prev_means(); // Centroids move from the initial centers
         cls->clear();
     } else {
         cls->set_prev_means();
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 4fdac38..ff6134c 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -133,6 +133,7 @@ void kmeans_task_coordinator::update_clusters(const bool prune_init) {
 #ifndef BIND
         printf("Clearing because of init ..\n");
 #endif
+        cltrs->set_prev_means(); // Centroids move from the initial centers
         cltrs->clear();
     } else {
         cltrs->set_prev_means();
-- 
2.43.0


From 6f8a508b0f6ad3b41b0c7381da8c365b1c351cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 02/33] fix: OpenMP k-means runs max_iters iterations, not
 max_iters - 1

With max_iters = 1 compute_kmeans returned without ever assigning a row.
---
 libauto/kmeans.cpp         | 2 +-
 libauto/min-tri-kmeans.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 576d270..d9e10aa 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -397,7 +397,7 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter++;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         if (iter == 1)
             std::fill(cluster_assignments,
                     (cluster_assignments)+NUM_ROWS,
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 8477190..3b0d77e 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -512,7 +512,7 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter = 2;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         // Hold cluster assignment counter
 #ifndef BIND
         printf("E-step Iteration %lu "
-- 
2.43.0


From 0979ad1862abe498c1c864972fe45522e1ddb6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 03/33] fix: report the number of iterations that ran when
 k-means does not converge

The loops left the counter at max_iters + 1.
---
 libauto/kmeans.cpp                 | 2 ++
 libauto/min-tri-kmeans.cpp         | 2 ++
 libman/fcm_coordinator.cpp         | 2 ++
 libman/kmeans_coordinator.cpp      | 2 ++
 libman/kmeans_task_coordinator.cpp | 2 ++
 libman/medoid_coordinator.cpp      | 2 ++
 libman/skmeans_coordinator.cpp     | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index d9e10aa..cfab775 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -431,6 +431,8 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
         }
         iter++;
     }
+    if (iter > MAX_ITERS) // Report only the iterations that ran
+        iter = MAX_ITERS;
 
     gettimeofday(&end, NULL);
 #ifndef BIND
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 3b0d77e..29bc376 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -557,6 +557,8 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
         }
         iter++;
     }
+    if (iter > MAX_ITERS) // Report only the iterations that ran
+        iter = MAX_ITERS;
 
     gettimeofday(&end, NULL);
 #ifndef BIND
diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index f70859c..9c48569 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -194,6 +194,8 @@ base::cluster_t fcm_coordinator::run(double* allocd_data,
         delete (diff);
         iter++;
     }
+    if (iter > max_iters) // Report only the iterations that ran
+        iter = max_iters;
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 6598064..2eb83bb 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -208,6 +208,8 @@ kbase::cluster_t kmeans_coordinator::run(
         }
         iter++;
     }
+    if (iter > max_iters) // Report only the iterations that ran
+        iter = max_iters;
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index ff6134c..341309d 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -494,6 +494,8 @@ kbase::cluster_t kmeans_task_coordinator::run(
         }
         iter++;
     }
+    if (iter > max_iters) // Report only the iterations that ran
+        iter = max_iters;
 
     if (iter == 0 && _init_t == kbase::init_t::PLUSPLUS)
         tally_assignment_counts();
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 710dca7..1ae107a 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -264,6 +264,8 @@ kbase::cluster_t medoid_coordinator::run(
         }
         iter++;
     }
+    if (iter > max_iters) // Report only the iterations that ran
+        iter = max_iters;
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 55e869f..46ed362 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -246,6 +246,8 @@ kbase::cluster_t skmeans_coordinator::run(
         }
         iter++;
     }
+    if (iter > max_iters) // Report only the iterations that ran
+        iter = max_iters;
 #ifdef PROFILER
     ProfilerStop();
 #endif
-- 
2.43.0


From 917f6951b5d97e1d9bfe1dbcbc0e142e97d586a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 04/33] fix: kmeans++ draws the next center with probability
 proportional to distance

ur_distribution already yields a value in [0,1); dividing by RAND_MAX left a
draw of practically zero, so the first row that was not a center yet was always
taken.
---
 libauto/kmeans.cpp                 | 2 +-
 libauto/min-tri-kmeans.cpp         | 2 +-
 libdist/dist_coordinator.cpp       | 2 +-
 libdist/dist_task_coordinator.cpp  | 2 +-
 libman/gmm_coordinator.cpp         | 2 +-
 libman/kmeans_coordinator.cpp      | 2 +-
 libman/kmeans_task_coordinator.cpp | 2 +-
 libman/skmeans_coordinator.cpp     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index cfab775..e2db235 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -159,7 +159,7 @@ static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 29bc376..c1559b5 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -178,7 +178,7 @@ static void kmeanspp_init(const double* matrix,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index 810399b..a65ad7b 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -175,7 +175,7 @@ void dist_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 8876560..66c2771 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -158,7 +158,7 @@ void dist_task_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index d4662e4..def386f 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -128,7 +128,7 @@ void gmm_coordinator::kmeanspp_init() {
 // Sum the per thread cumulative dists
         double cuml_dist = reduction_on_cuml_sum();
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more  needed
             break;
 
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 2eb83bb..87caaf3 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -116,7 +116,7 @@ void kmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 341309d..ecabcfd 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -210,7 +210,7 @@ void kmeans_task_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 46ed362..e408c26 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -151,7 +151,7 @@ void skmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
-- 
2.43.0


From fe7b8f7b251409df33c6d33e33672522110b825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 05/33] fix: a worker announces completion under the
 coordinator's mutex

The pending count dropped and the condition was signalled without the mutex the
coordinator holds between testing the count and waiting, so the wake-up could
be lost and the run would hang.
---
 libman/coordinator.cpp |  4 +++-
 libman/task_thread.cpp | 16 ++--------------
 libman/thread.cpp      | 27 +++++++++++++++++++++------
 libman/thread.hpp      | 10 +++++++++-
 4 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index d7cfab5..7cc53e5 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -81,8 +81,10 @@ coordinator::get_rid_len_tup(const unsigned thd_id) {
 
 void coordinator::wake4run(const thread_state_t state) {
     pending_threads = nthreads;
-    for (unsigned thd_id = 0; thd_id < threads.size(); thd_id++)
+    for (unsigned thd_id = 0; thd_id < threads.size(); thd_id++) {
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->wake(state);
+    }
 }
 
 void coordinator::destroy_threads() {
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index 410455e..d213d7a 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -99,26 +99,14 @@ void task_thread::lock_sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
     rc = pthread_mutex_unlock(&mutex);
     if (rc) perror("pthread_mutex_unlock");
 }
 
 // Assumes caller has lock already ... or else ...
 void task_thread::sleep() {
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
 }
 
 void task_thread::wait() {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 9e2d844..39f9405 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -31,18 +31,33 @@
 
 namespace knor {
 
-void thread::sleep() {
+/* The parent tests the pending count & then waits holding its own mutex. The
+   count must drop under that mutex too or the signal can come in between. */
+void thread::notify_parent() {
     int rc;
-    rc = pthread_mutex_lock(&mutex);
-    if (rc) perror("pthread_mutex_lock");
+    if (parent_mutex) {
+        rc = pthread_mutex_lock(parent_mutex);
+        if (rc) perror("pthread_mutex_lock");
+    }
 
-    (*parent_pending_threads)--;
     set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
+    if (--(*parent_pending_threads) == 0) {
         rc = pthread_cond_signal(parent_cond); // Wake up parent thread
         if (rc) perror("pthread_cond_signal");
     }
+
+    if (parent_mutex) {
+        rc = pthread_mutex_unlock(parent_mutex);
+        if (rc) perror("pthread_mutex_unlock");
+    }
+}
+
+void thread::sleep() {
+    int rc;
+    rc = pthread_mutex_lock(&mutex);
+    if (rc) perror("pthread_mutex_lock");
+
+    notify_parent();
     pthread_mutex_unlock(&mutex);
 }
 
diff --git a/libman/thread.hpp b/libman/thread.hpp
index c4e5892..23dfa6d 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -101,6 +101,7 @@ protected:
     pthread_mutexattr_t mutex_attr;
 
     pthread_cond_t* parent_cond;
+    pthread_mutex_t* parent_mutex; // Guards what the parent waits for
     std::atomic<unsigned>* parent_pending_threads;
 
     metaunion meta;
@@ -121,7 +122,7 @@ protected:
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
         start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
-        preallocd_data(false) {
+        parent_mutex(NULL), preallocd_data(false) {
 
         this->cluster_assignments = cluster_assignments;
         pthread_mutexattr_init(&mutex_attr);
@@ -146,6 +147,9 @@ protected:
         this->state = state;
     }
 
+    // Tell the parent we are done. Caller holds this thread's lock
+    void notify_parent();
+
 public:
     typedef std::shared_ptr<thread> ptr;
 
@@ -233,6 +237,10 @@ public:
         parent_cond = cond;
     }
 
+    void set_parent_mutex(pthread_mutex_t* mutex) {
+        parent_mutex = mutex;
+    }
+
     void set_parent_pending_threads(std::atomic<unsigned>* ppt) {
         parent_pending_threads = ppt;
     }
-- 
2.43.0


From 53e90c3c5dc6ca8f7dd34a95eaec874243e3359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 06/33] fix: a worker reads its state under its lock

wake() sets the state first and then prepares the task, the sums and the
distances of the phase. A worker that polled the state without the lock could
start the phase before it was prepared; kmeans++ then drew other centers now
and then.
---
 libman/thread.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libman/thread.hpp b/libman/thread.hpp
index 23dfa6d..c19c549 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -66,8 +66,7 @@ void* callback(void* arg) {
 #endif
 
     while (true) { // So we can receive task after task
-        if (t->get_state() == knor::WAIT)
-            t->wait();
+        t->wait(); // Returns with the parent's whole wake() visible
 
         if (t->get_state() == knor::EXIT) {// No more work to do
             break;
-- 
2.43.0


From 62e203624ea5afee6101972fb98d4ec468ecb2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 07/33] fix: a worker is joined before its mutex and condition
 are destroyed

---
 libman/thread.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libman/thread.cpp b/libman/thread.cpp
index 39f9405..8f0f5b3 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -169,6 +169,9 @@ const unsigned thread::get_global_data_id(
 }
 
 thread::~thread() {
+    if (thd_id != INVALID_THD_ID)
+        join(); // It may still use the mutex and condition
+
     pthread_cond_destroy(&cond);
     pthread_mutex_destroy(&mutex);
     pthread_mutexattr_destroy(&mutex_attr);
@@ -180,7 +183,5 @@ thread::~thread() {
     printf("Thread %u being destroyed\n", thd_id);
 #endif
 #endif
-    if (thd_id != INVALID_THD_ID)
-        join();
 }
 } // End namespace knor
-- 
2.43.0


From 9a2c808009d5f2d0935637f92fcb0a63f779d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 08/33] fix: a vmap that grows marks the new slots unset and an
 empty vmap has no keys

---
 libkcommon/types.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index ccb3ce7..259575c 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -118,7 +118,7 @@ class vmap {
 
         T& operator[] (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return data[idx];
         }
 
@@ -130,7 +130,7 @@ class vmap {
 
         T& at (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return (*this)[idx];
         }
 
@@ -145,7 +145,7 @@ class vmap {
         const bool empty() const { return !static_cast<bool>(size()); }
 
         const bool has_key(const size_t idx) const {
-            if (idx > size()-1)
+            if (idx >= size())
                 return false;
             return (emptyval != data[idx]);
         }
-- 
2.43.0


From 412d291676b8464d64b718bb7680d3f79e86462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 09/33] fix: check_set on the first index past the end grows
 the vector

---
 libkcommon/thd_safe_bool_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/thd_safe_bool_vector.cpp b/libkcommon/thd_safe_bool_vector.cpp
index bcce2b7..5d11d9e 100644
--- a/libkcommon/thd_safe_bool_vector.cpp
+++ b/libkcommon/thd_safe_bool_vector.cpp
@@ -52,7 +52,7 @@ void thd_safe_bool_vector::set(const size_t idx, const bool val) {
 }
 
 void thd_safe_bool_vector::check_set(const size_t idx, const bool val) {
-    if (idx > size())
+    if (idx >= size())
         resize(idx+1);
 
     if (val) {
-- 
2.43.0


From 1e339fa7d171528e7e4c125434d142b9e97fff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 10/33] fix: a task queue without rows has no task

---
 libman/task_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index e471c68..3a55d07 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -97,6 +97,7 @@ template<typename T>
             bool _has_task;
 
         public:
+            task_queue_interface() : _has_task(false) { }
             virtual task* get_task() = 0;
             virtual const bool has_task() const = 0;
             virtual ~task_queue_interface() {};
-- 
2.43.0


From 1477016dda2b053d8067c45e4faecdfb5e4961aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 11/33] fix: hierarchical clustering does not return clusters
 without rows

---
 libman/hclust_coordinator.cpp | 23 +++++++++++------------
 libman/hclust_coordinator.hpp |  1 +
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index f84921d..b047fff 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -212,9 +212,7 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
                 || at_cluster_cap()) {
             deactivate(zeroid); // So we no longer process this
             // Record this as an output
-            final_centroids[zeroid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(0),
-                    hcltrs[id]->get_mean_rawptr(0) + ncol);
+            record_centroid(zeroid, hcltrs[id]->get_mean_rawptr(0));
             // Don't split
             l0_complete = l1_complete = true;
         }
@@ -222,9 +220,7 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         if (cluster_assignment_counts[oneid] < min_clust_size
                 || at_cluster_cap()) {
             deactivate(oneid);
-            final_centroids[oneid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(1),
-                    hcltrs[id]->get_mean_rawptr(1) + ncol);
+            record_centroid(oneid, hcltrs[id]->get_mean_rawptr(1));
             // Don't split
             r0_complete = r1_complete = true;
         }
@@ -406,17 +402,20 @@ void hclust_coordinator::verify_consistency() {
                 cluster_assignment_counts.end(), 0) == nrow);
 }
 
+// A cluster that lost all its rows is no cluster of the result
+void hclust_coordinator::record_centroid(const unsigned id,
+        const double* mean) {
+    if (cluster_assignment_counts[id] > 0)
+        final_centroids[id] = std::vector<double>(mean, mean + ncol);
+}
+
 void hclust_coordinator::complete_final_centroids() {
     // Finally update the final centroids with the values in hcltrs
     auto itr = hcltrs.get_iterator();
     while (itr.has_next()) {
         auto const& c = itr.next().second;
-        final_centroids[c->get_zeroid()] =
-            std::vector<double>(c->get_mean_rawptr(0),
-                    c->get_mean_rawptr(0) + ncol);
-        final_centroids[c->get_oneid()] =
-            std::vector<double>(c->get_mean_rawptr(1),
-                    c->get_mean_rawptr(1) + ncol);
+        record_centroid(c->get_zeroid(), c->get_mean_rawptr(0));
+        record_centroid(c->get_oneid(), c->get_mean_rawptr(1));
     }
 }
 
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 2af46fe..13a3786 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -143,6 +143,7 @@ class hclust_coordinator : public coordinator {
         virtual const bool steady_state() const;
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
+        void record_centroid(const unsigned id, const double* mean);
         virtual bool at_cluster_cap() { return curr_nclust > k*2; }
         void verify_consistency();
 };
-- 
2.43.0


From 7939717e89cfb76f12f9d1738dfe4614f48fddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 12/33] fix: a cluster of one row is final whatever the minimum
 cluster size

---
 libman/hclust_coordinator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index b047fff..4577102 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -37,7 +37,8 @@ hclust_coordinator::hclust_coordinator(const std::string fn, const size_t nrow,
         const unsigned min_clust_size) :
     coordinator(fn, nrow, ncol, (base::get_hclust_floor(k)/2), max_iters,
             nnodes, nthreads, centers, it, tolerance, dt),
-    min_clust_size(min_clust_size), curr_nclust(0) {
+    min_clust_size(std::max(min_clust_size, 2U)), // One row can't be split
+    curr_nclust(0) {
 
         ui_distribution = std::uniform_int_distribution<unsigned>(0, nrow-1);
 
-- 
2.43.0


From 392b36ffe5e8c0ff5e361738ecb2aa0dbeb5b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 13/33] fix: hierarchical clustering never returns more
 clusters than requested

---
 libman/gmeans_coordinator.cpp | 4 +---
 libman/hclust_coordinator.cpp | 8 +++++---
 libman/hclust_coordinator.hpp | 4 ++--
 libman/xmeans_coordinator.cpp | 1 +
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 1cfc747..4df5dfb 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -50,8 +50,6 @@ void gmeans_coordinator::deactivate(const unsigned id) {
 
 void gmeans_coordinator::activate(const unsigned id) {
     cltr_active_vec->check_set(id, true);
-    if (id > 0)
-        curr_nclust++;
 }
 
 void gmeans_coordinator::build_thread_state() {
@@ -151,7 +149,7 @@ void gmeans_coordinator::partition_decision() {
             // We can reuse these children ids
             ider->reclaim_id(lid);
             ider->reclaim_id(rid);
-            curr_nclust -= 2;
+            curr_nclust--; // One cluster in place of two
 
             final_centroids[pid] = std::vector<double>(
                     cltrs->get_mean_rawptr(pid),
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 4577102..adc00e7 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -179,6 +179,7 @@ void hclust_coordinator::run_hinit() {
         default:
             throw std::runtime_error("Unsupported initialization type");
     }
+    curr_nclust = 2;
 }
 
 void hclust_coordinator::print_clusters() {
@@ -216,6 +217,8 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
             record_centroid(zeroid, hcltrs[id]->get_mean_rawptr(0));
             // Don't split
             l0_complete = l1_complete = true;
+        } else {
+            curr_nclust++; // Two clusters in place of one
         }
 
         if (cluster_assignment_counts[oneid] < min_clust_size
@@ -224,6 +227,8 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
             record_centroid(oneid, hcltrs[id]->get_mean_rawptr(1));
             // Don't split
             r0_complete = r1_complete = true;
+        } else {
+            curr_nclust++;
         }
 
         remove_cache.push_back(id); // Should have no data members
@@ -298,7 +303,6 @@ void hclust_coordinator::init_splits() {
         hcltrs.erase(id); // Delete
         deactivate(id);
         ider->reclaim_id(id);
-        curr_nclust--;
     }
 
     // Update partition ID
@@ -320,8 +324,6 @@ void hclust_coordinator::deactivate(const unsigned id) {
 
 void hclust_coordinator::activate(const unsigned id) {
     cltr_active_vec->set(id, true);
-    if (id > 0)
-        curr_nclust++;
 }
 
 const bool hclust_coordinator::is_active(const unsigned id) const {
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 13a3786..350f866 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -82,7 +82,7 @@ class hclust_coordinator : public coordinator {
         std::shared_ptr<hclust_id_generator> ider;
         unsigned min_clust_size;
         std::unordered_map<unsigned, std::vector<double>> final_centroids;
-        size_t curr_nclust;
+        size_t curr_nclust; // Clusters that are not split further so far
     public:
         hclust_coordinator(const std::string fn, const size_t nrow,
                 const size_t ncol, const unsigned k, const unsigned max_iters,
@@ -144,7 +144,7 @@ class hclust_coordinator : public coordinator {
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
         void record_centroid(const unsigned id, const double* mean);
-        virtual bool at_cluster_cap() { return curr_nclust > k*2; }
+        virtual bool at_cluster_cap() { return curr_nclust >= k*2; }
         void verify_consistency();
 };
 }
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 19367fc..262f942 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -226,6 +226,7 @@ void xmeans_coordinator::partition_decision() {
             {
                 ider->reclaim_id(score.lid);
                 ider->reclaim_id(score.rid);
+                curr_nclust--; // One cluster in place of two
                 final_centroids[score.pid] = std::vector<double>(
                         cltrs->get_mean_rawptr(score.pid),
                         cltrs->get_mean_rawptr(score.pid) + ncol);
-- 
2.43.0


From 369e6b320db54410449494a6cab6f93f457e31d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 14/33] fix: x-means and g-means take a partition's mean over
 its own rows only

---
 libman/xmeans_coordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 262f942..344dafc 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -73,7 +73,7 @@ void xmeans_coordinator::build_thread_state() {
 }
 
 void xmeans_coordinator::combine_partition_means() {
-    cltrs->unfinalize_all();
+    cltrs->clear(); // Ids are reused: nothing of an earlier partition stays
 
     for (auto const& th : threads) {
         auto thd_lcltrs = th->get_local_clusters();
-- 
2.43.0


From 4e8e64ad2b71136d5ccabebaefbacbb814a420ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 15/33] fix: g-means accepts partitions whose rows are all
 equal

---
 libkcommon/AndersonDarling.hpp | 2 ++
 libkcommon/linalg.hpp          | 3 ++-
 libman/gmeans.cpp              | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libkcommon/AndersonDarling.hpp b/libkcommon/AndersonDarling.hpp
index d9d93b9..0789881 100644
--- a/libkcommon/AndersonDarling.hpp
+++ b/libkcommon/AndersonDarling.hpp
@@ -55,6 +55,8 @@ public:
 
 		X_sig /= (n-1);
         X_sig = std::sqrt(X_sig);
+        if (X_sig == 0)
+            return 0; // Constant values speak against no distribution
 
 		// The values X_i are standardized to create new values Y_i
         std::vector<double> Y(n);
diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index e817b00..2f9a645 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -206,7 +206,8 @@ namespace knor { namespace base {
             }
             stddev = std::sqrt(stddev / static_cast<double>(sz));
 
-            assert(stddev);
+            if (stddev == 0)
+                stddev = 1; // Constant values: only subtract the mean
             // Subtract the mean, then divide by the stddev
             for (size_t i = 0; i < sz; i++) {
                 v[i] = ((v[i] - mean) / stddev);
diff --git a/libman/gmeans.cpp b/libman/gmeans.cpp
index 628bdd7..8590208 100644
--- a/libman/gmeans.cpp
+++ b/libman/gmeans.cpp
@@ -54,7 +54,7 @@ void gmeans::H_split_step() {
         for (size_t col = 0; col < ncol; col++)
             dotprod += local_data[offset+col] * v[col];
 
-        nearest_cdist[true_row_id] = dotprod/v[ncol];
+        nearest_cdist[true_row_id] = v[ncol] > 0 ? dotprod/v[ncol] : 0;
     }
 }
 
-- 
2.43.0


From 4779c7c0c23978cbeb42b1346a6c8a59c4efd278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 16/33] fix: x-means threads do not insert into the shared
 membership map

---
 libman/xmeans_coordinator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 344dafc..f033b97 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -168,6 +168,12 @@ void xmeans_coordinator::compute_bic_scores(
     // Creates structures to hold cluster membership
     accumulate(cluster_assignments, memb_cltrs);
 
+    // A child may be empty: create its list before threads look it up
+    for (auto const& score : bic_scores) {
+        memb_cltrs[score.lid];
+        memb_cltrs[score.rid];
+    }
+
     // Computes the bic scores for each parent, child combo
 #ifdef _OPENMP
 #pragma omp parallel for shared (bic_scores) schedule (dynamic)
-- 
2.43.0


From 329827b3d6e54db9fd38489389cccd6dfe22b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 17/33] fix: x-means reclaims split ids in a fixed order

---
 libman/xmeans_coordinator.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index f033b97..8eacea7 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -226,17 +226,6 @@ void xmeans_coordinator::partition_decision() {
             // Deactivate pid
             deactivate(score.pid);
             remove_cache->set(i, true);
-#ifdef _OPENMP
-#pragma omp critical
-#endif
-            {
-                ider->reclaim_id(score.lid);
-                ider->reclaim_id(score.rid);
-                curr_nclust--; // One cluster in place of two
-                final_centroids[score.pid] = std::vector<double>(
-                        cltrs->get_mean_rawptr(score.pid),
-                        cltrs->get_mean_rawptr(score.pid) + ncol);
-            }
         } else {
 #ifndef BIND
 #if VERBOSE
@@ -249,7 +238,15 @@ void xmeans_coordinator::partition_decision() {
 
     for (size_t i = 0; i < remove_cache->size(); i++) {
         if (remove_cache->get(i)) {
-            hcltrs.erase(bic_scores[i].pid);
+            // In order, so that ids don't depend on the schedule
+            auto const& score = bic_scores[i];
+            ider->reclaim_id(score.lid);
+            ider->reclaim_id(score.rid);
+            curr_nclust--; // One cluster in place of two
+            final_centroids[score.pid] = std::vector<double>(
+                    cltrs->get_mean_rawptr(score.pid),
+                    cltrs->get_mean_rawptr(score.pid) + ncol);
+            hcltrs.erase(score.pid);
         }
     }
 }
-- 
2.43.0


From a23956da12b7a699308baf328d7b3802de674c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 18/33] fix: hierarchical clustering ends a round once its
 splits converged

---
 libman/gmeans_coordinator.cpp |  4 ++++
 libman/hclust_coordinator.cpp | 12 ++++++++++++
 libman/hclust_coordinator.hpp |  1 +
 libman/xmeans_coordinator.cpp |  4 ++++
 4 files changed, 21 insertions(+)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 4df5dfb..b23cdce 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -239,6 +239,10 @@ base::cluster_t gmeans_coordinator::run(
 #endif
             if (compute_pdist)
                 compute_pdist = false;
+            if (splits_converged()) {
+                iter++;
+                break; // Nothing moves any more
+            }
         }
 
         compute_cluster_diffs();
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index adc00e7..abdd3c2 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -394,6 +394,14 @@ void hclust_coordinator::update_clusters() {
     }
 }
 
+const bool hclust_coordinator::splits_converged() {
+    auto itr = hcltrs.get_iterator();
+    while (itr.has_next())
+        if (!itr.next().second->has_converged())
+            return false;
+    return true;
+}
+
 void hclust_coordinator::verify_consistency() {
     size_t cnt = 0;
     for (auto const& tmp : cluster_assignment_counts)
@@ -466,6 +474,10 @@ base::cluster_t hclust_coordinator::run(
             base::sparse_print(cluster_assignment_counts);
             printf("\n*****************************************************\n");
 #endif
+            if (splits_converged()) {
+                iter++;
+                break; // Nothing moves any more
+            }
         }
 
         if (at_cluster_cap()) {
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 350f866..ae196b2 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -141,6 +141,7 @@ class hclust_coordinator : public coordinator {
         virtual void activate(const unsigned id);
         virtual const bool is_active(const unsigned i) const ;
         virtual const bool steady_state() const;
+        const bool splits_converged();
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
         void record_centroid(const unsigned id, const double* mean);
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 8eacea7..2ff37bd 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -300,6 +300,10 @@ base::cluster_t xmeans_coordinator::run(
 #endif
             if (compute_pdist)
                 compute_pdist = false;
+            if (splits_converged()) {
+                iter++;
+                break; // Nothing moves any more
+            }
         }
 
         // Decide on split or not here
-- 
2.43.0


From 09d566b45c6644c2e4c6fa1941eb9f41d2feccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 19/33] fix: k-medoids measures distances with the requested
 metric

---
 libman/medoid.cpp             | 6 ++++--
 libman/medoid.hpp             | 7 ++++---
 libman/medoid_coordinator.cpp | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index 7d6e34f..e088ea2 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -32,8 +32,10 @@ medoid::medoid(const int node_id, const unsigned thd_id,
         const unsigned start_rid,
         const unsigned nprocrows, const unsigned ncol,
         kbase::clusters::ptr g_clusters, unsigned* cluster_assignments,
-        const std::string fn, const double sample_rate):
-            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn),
+        const std::string fn, const double sample_rate,
+        base::dist_t dist_metric):
+            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn,
+                    dist_metric),
             g_clusters(g_clusters), nprocrows(nprocrows),
             sample_rate(sample_rate) {
 
diff --git a/libman/medoid.hpp b/libman/medoid.hpp
index f1a66b5..cc40877 100644
--- a/libman/medoid.hpp
+++ b/libman/medoid.hpp
@@ -54,7 +54,8 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments,
-                const std::string fn, const double sample_rate);
+                const std::string fn, const double sample_rate,
+                base::dist_t dist_metric);
     public:
         static thread::ptr create(
                 const int node_id, const unsigned thd_id,
@@ -62,11 +63,11 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments, const std::string fn,
-                const double sample_rate) {
+                const double sample_rate, base::dist_t dist_metric) {
             return thread::ptr(
                     new medoid(node_id, thd_id, start_rid,
                         nprocrows, ncol, g_clusters,
-                        cluster_assignments, fn, sample_rate));
+                        cluster_assignments, fn, sample_rate, dist_metric));
         }
 
         void start(const thread_state_t state) override;
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 1ae107a..94a2eaa 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -79,7 +79,7 @@ void medoid_coordinator::build_thread_state() {
         threads.push_back(medoid::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0],
-                    fn, sample_rate));
+                    fn, sample_rate, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
-- 
2.43.0


From 982124d34250eed0eb22c3fe7bf6321a2df3ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 20/33] fix: scaled k-means finds the maximum of features
 without positive values

---
 libman/skmeans.cpp             | 2 +-
 libman/skmeans_coordinator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index b87ed79..e782891 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -34,7 +34,7 @@ namespace knor {
                 cluster_assignments, fn, dist_metric) {
 
             min_feature_val.assign(ncol, std::numeric_limits<double>::max());
-            max_feature_val.assign(ncol, std::numeric_limits<double>::min());
+            max_feature_val.assign(ncol, std::numeric_limits<double>::lowest());
         }
 
     // Min & Max of all features
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index e408c26..f1ae293 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -64,7 +64,7 @@ void skmeans_coordinator::build_thread_state() {
 }
 
 void skmeans_coordinator::bounds_reduction() {
-    g_feature_max.assign(ncol, std::numeric_limits<double>::min());
+    g_feature_max.assign(ncol, std::numeric_limits<double>::lowest());
     g_feature_min.assign(ncol, std::numeric_limits<double>::max());
 
     for (auto const& th : threads) {
-- 
2.43.0


From 165c7c7c7c72861458d5c63b0faeb5f5219087ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 21/33] fix: scaled k-means maps a constant feature to 0, not
 to NaN

---
 libman/skmeans.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index e782891..4c20ede 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -54,9 +54,10 @@ namespace knor {
        // NOTE: Only use AFTER feature_bounds_reduction AND coordinator reduce
         for (unsigned row = 0; row < nprocrows; row++) {
             for (unsigned col = 0; col < ncol; col++) {
-                local_data[row*ncol+col] =
-                    (local_data[row*ncol+col] - min_feature_val[col])/
-                    (max_feature_val[col] - min_feature_val[col]);
+                double range = max_feature_val[col] - min_feature_val[col];
+                local_data[row*ncol+col] = range > 0 ?
+                    (local_data[row*ncol+col] - min_feature_val[col])/range :
+                    0; // All rows share one value
             }
         }
     }
-- 
2.43.0


From 8a9b63f5daacfe41dc0dc887e8911a425cf54e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 22/33] fix: fuzzy c-means gives a row on a centre its largest
 membership there, not the smallest

---
 libman/fcm.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index f8acfb4..eaa4852 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -45,13 +45,11 @@ void fcm::Estep() {
         for (unsigned cid = 0; cid < nclust; cid++) {
             double dist = base::dist_comp_raw<double>(&local_data[row*ncol],
                     &(centers->as_pointer()[cid*ncol]), ncol, dist_metric);
-            if (dist > 0) {
-                //TODO: Fix bad access pattern. um -> col major
-                um->set(cid, true_rid,
-                        std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
-            } else {
-                um->set(cid, true_rid, 2.2E-16);
-            }
+            // A row on a center belongs to it: avoid the division by 0
+            dist = std::max(dist, 2.2E-16);
+            //TODO: Fix bad access pattern. um -> col major
+            um->set(cid, true_rid,
+                    std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
         }
     }
 }
-- 
2.43.0


From 7801ebb850d97ab8de15de6ba0e53726904924ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 23/33] fix: mini-batch k-means counts the iteration in which
 it converges

---
 libman/kmeans_task_coordinator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index ecabcfd..b009f0c 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -374,6 +374,7 @@ kbase::cluster_t kmeans_task_coordinator::mb_run(double* allocd_data) {
 
         if (frob_norm < tolerance) {
             converged = true;
+            iter++; // This iteration ran
             break;
         }
     }
-- 
2.43.0


From 174532fa8314da5e11e3e3331280ecfa3296e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:54 +0000
Subject: [PATCH 24/33] fix: the result file goes to the output directory asked
 for

---
 libkcommon/types.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/libkcommon/types.cpp b/libkcommon/types.cpp
index ad2e52e..062cc70 100644
--- a/libkcommon/types.cpp
+++ b/libkcommon/types.cpp
@@ -17,7 +17,10 @@
  * limitations under the License.
  */
 
+#include <cerrno>
+#include <cstring>
 #include <fstream>
+#include <sys/stat.h>
 
 #include "types.hpp"
 #include "io.hpp"
@@ -28,6 +31,25 @@ namespace kutil = knor::util;
 
 namespace knor { namespace base {
 
+// Make a directory and the ones that lead to it
+static bool make_dir(const std::string& dirname) {
+    for (size_t pos = 1; pos <= dirname.size(); pos++) {
+        if (pos == dirname.size() || dirname[pos] == '/') {
+            if (mkdir(dirname.substr(0, pos).c_str(), 0777) &&
+                    errno != EEXIST) {
+#ifndef BIND
+                fprintf(stderr, "Error with mkdir: '%s': %s\n",
+                        dirname.substr(0, pos).c_str(), strerror(errno));
+#endif
+                return false;
+            }
+        }
+    }
+
+    struct stat st;
+    return !stat(dirname.c_str(), &st) && S_ISDIR(st.st_mode);
+}
+
 cluster_t::cluster_t(const size_t nrow, const size_t ncol, const size_t iters,
          const size_t k, const unsigned* assignments_buf,
          const llong_t* assignment_count_buf,
@@ -106,16 +128,8 @@ const void cluster_t::print() const {
 const void cluster_t::write(const std::string dirname) const {
 
     std::string fn = "cluster_t.yml";
-    int ret =
-        std::system((std::string("python python/util.py ")
-                    + dirname).c_str());
-    if (ret) {
-#ifndef BIND
-        fprintf(stderr, "Error with mkdir. Code: %d\n", ret);
-#endif
-    } else {
+    if (make_dir(dirname))
         fn = dirname + "/" + fn;
-    }
 
 #ifndef BIND
     printf("Opening '%s' \n", fn.c_str());
-- 
2.43.0


From 08d9f9553c83bcb1517d87e3e2d577518beba0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 25/33] fix: adjoint alternates the signs of the cofactors, so
 the inverse is one

---
 libkcommon/linalg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 2f9a645..c8141ed 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -111,6 +111,7 @@ namespace knor { namespace base {
 
                     // sign of adj[j][i] positive if sum of row
                     // and column indexes is even.
+                    sign = (i + j) % 2 == 0 ? 1 : -1;
                     // Interchanging rows and columns to get the
                     // transpose of the cofactor matrix
                     adj[j*N+i] = (sign)*(determinant(&temp[0], N-1, N));
-- 
2.43.0


From 4b9791c1c3a5c5a0e00bcfb0f446921eba815b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 26/33] fix: scale sums its values as doubles, not truncated to
 integers

---
 libkcommon/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index c8141ed..fa5fbd4 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -196,7 +196,7 @@ namespace knor { namespace base {
           */
         static void scale(double* v, const size_t sz) {
             // Compute mean
-            double sum = std::accumulate(v, v+sz, 0);
+            double sum = std::accumulate(v, v+sz, 0.0);
             double mean = sum / static_cast<double>(sz);
 
             // Compute std dev
-- 
2.43.0


From cc28422c370a780200239a3072c5f2412b533fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 27/33] fix: argmax finds the largest element also when none is
 positive

---
 libkcommon/dense_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index 7629f76..e905ac8 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -356,7 +356,7 @@ public:
         // axis = 1: row wise
         if (axis == 0) {
             idx.assign(nrow, 0);
-            vals.assign(nrow, std::numeric_limits<double>::min());
+            vals.assign(nrow, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
@@ -370,7 +370,7 @@ public:
         // axis = 0: col wise
         } else if (axis == 1) {
             idx.assign(ncol, 0);
-            vals.assign(ncol, std::numeric_limits<double>::min());
+            vals.assign(ncol, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
-- 
2.43.0


From da5ecbfd0fd388136192d3a2b2aa51701f76aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:22 +0000
Subject: [PATCH 28/33] fix: fuzzy c-means told centres closer than 2.2e-16
 apart from a row no more

---
 libman/fcm.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index eaa4852..9cbf76e 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -42,14 +42,19 @@ fcm::fcm(const int node_id, const unsigned thd_id,
 void fcm::Estep() {
     for (unsigned row = 0; row < nprocrows; row++) {
         unsigned true_rid = get_global_data_id(row);
+        double farthest = 0;
         for (unsigned cid = 0; cid < nclust; cid++) {
             double dist = base::dist_comp_raw<double>(&local_data[row*ncol],
                     &(centers->as_pointer()[cid*ncol]), ncol, dist_metric);
-            // A row on a center belongs to it: avoid the division by 0
-            dist = std::max(dist, 2.2E-16);
+            farthest = std::max(farthest, dist);
             //TODO: Fix bad access pattern. um -> col major
-            um->set(cid, true_rid,
-                    std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
+            um->set(cid, true_rid, dist);
+        }
+        // A row on a center belongs to it: avoid the division by 0
+        for (unsigned cid = 0; cid < nclust; cid++) {
+            double dist = std::max(um->get(cid, true_rid), farthest * 2.2E-16);
+            um->set(cid, true_rid, farthest > 0 ?
+                    std::pow((farthest / dist), (1.0 / (fuzzindex-1))) : 1);
         }
     }
 }
-- 
2.43.0


From a8a301c5dc9b5678871e1428e7deefd510593ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:52 +0000
Subject: [PATCH 29/33] fix: a partition x-means cannot score is not split, in
 any unit of measurement

---
 libman/xmeans_coordinator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libman/xmeans_coordinator.hpp b/libman/xmeans_coordinator.hpp
index 58cfc69..04c5f43 100644
--- a/libman/xmeans_coordinator.hpp
+++ b/libman/xmeans_coordinator.hpp
@@ -37,13 +37,13 @@ struct split_score_t {
 
     split_score_t(const unsigned pid, const unsigned lid, const unsigned rid) :
         pid(pid), lid(lid), rid(rid),
-        pscore(std::numeric_limits<double>::min()),
-        cscore(std::numeric_limits<double>::min()) {
+        pscore(std::numeric_limits<double>::lowest()),
+        cscore(std::numeric_limits<double>::lowest()) {
         }
 
     split_score_t() :
-        pscore(std::numeric_limits<double>::min()),
-        cscore(std::numeric_limits<double>::min()) {
+        pscore(std::numeric_limits<double>::lowest()),
+        cscore(std::numeric_limits<double>::lowest()) {
         }
 };
 
-- 
2.43.0


From f97421cbfcd0717922043caa274eaf30da0e71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:52 +0000
Subject: [PATCH 30/33] fix: x-means scores each child with the likelihood of
 its own rows

---
 libman/xmeans_coordinator.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 2ff37bd..41f0f40 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -129,19 +129,15 @@ void xmeans_coordinator::bic(split_score_t& score,
         csigma /= (double) (N - cK);
         double p = (cK - 1) + ncol * cK + 1;
 
-        /* splitting criterion */
-        double nl = cluster_assignment_counts[score.lid];
-        double L = N * std::log(N) - nl * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5 - N * ncol *
-            std::log(csigma) * .5 - (N - cK) * .5;
-
-        score.cscore = L - p * 0.5 * std::log(N);
-
-        double nr = cluster_assignment_counts[score.rid];
-        L = N * std::log(N) - nr * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5- N * ncol *
-            std::log(csigma) * .5 - (N - cK) * .5;
-        score.cscore += L - p * .5 * std::log(N);
+        /* splitting criterion: a child's likelihood is that of its own rows */
+        score.cscore = 0;
+        for (double n : {(double) cluster_assignment_counts[score.lid],
+                (double) cluster_assignment_counts[score.rid]}) {
+            double L = n * std::log(n) - n * std::log(N) - n *
+                std::log(2.0 * M_PI) * .5 - n * ncol *
+                std::log(csigma) * .5 - (n - cK) * .5;
+            score.cscore += L - p * .5 * std::log(N);
+        }
     }
 }
 
-- 
2.43.0


From 69e22e576685d3cec4926ae40566fa5d2f114073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:52 +0000
Subject: [PATCH 31/33] fix: g-means tests each partition against the critical
 value for its number of rows

---
 libman/gmeans_coordinator.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index b23cdce..2588558 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -107,7 +107,6 @@ void gmeans_coordinator::partition_decision() {
     // Each Anderson Darling (AD) vector represents the vector for which
     //  each cluster gets its AD statistic.
     std::unordered_map<unsigned, std::vector<double>> ad_vecs;
-    std::vector<double> critical_values;
 
     // Populate the AD vectors
     assemble_ad_vecs(ad_vecs);
@@ -116,10 +115,6 @@ void gmeans_coordinator::partition_decision() {
         base::linalg::scale(&(kv.second)[0], kv.second.size());
     }
 
-    // Compute Critical values
-    base::AndersonDarling::compute_critical_values(
-            ad_vecs.size(), critical_values);
-
     // Compute AD statistics
     compute_ad_stats(ad_vecs);
 
@@ -135,7 +130,14 @@ void gmeans_coordinator::partition_decision() {
         unsigned pid = keys[i];
         auto score = ad_vecs[pid].back();
 
-        if (score <= critical_values[strictness]) {
+        // Critical values depend on the number of rows in the partition
+        const size_t nmembers = ad_vecs[pid].size() - 1;
+        std::vector<double> critical_values;
+        base::AndersonDarling::compute_critical_values(
+                nmembers, critical_values);
+
+        // Fewer than 4 rows are too few to speak against a distribution
+        if (nmembers < 4 || score <= critical_values[strictness]) {
             unsigned lid = hcltrs[pid]->get_zeroid();
             unsigned rid = hcltrs[pid]->get_oneid();
 
-- 
2.43.0


From c5463f8ee7dc7ca2383a5c0015152a178343ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:52 +0000
Subject: [PATCH 32/33] fix: x-means and g-means keep no split that leaves a
 child without rows

---
 libman/gmeans_coordinator.cpp | 12 +++++++-----
 libman/xmeans_coordinator.cpp |  5 ++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 2588558..aa5c12a 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -136,11 +136,13 @@ void gmeans_coordinator::partition_decision() {
         base::AndersonDarling::compute_critical_values(
                 nmembers, critical_values);
 
-        // Fewer than 4 rows are too few to speak against a distribution
-        if (nmembers < 4 || score <= critical_values[strictness]) {
-            unsigned lid = hcltrs[pid]->get_zeroid();
-            unsigned rid = hcltrs[pid]->get_oneid();
-
+        // Fewer than 4 rows are too few to speak against a distribution,
+        // and a child without rows is no cluster: neither split is kept
+        unsigned lid = hcltrs[pid]->get_zeroid();
+        unsigned rid = hcltrs[pid]->get_oneid();
+        if (nmembers < 4 || cluster_assignment_counts[lid] == 0 ||
+                cluster_assignment_counts[rid] == 0 ||
+                score <= critical_values[strictness]) {
             // Deactivate both lid and rid
             deactivate(lid); deactivate(rid);
             // Deactivate pid
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 41f0f40..e379efa 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -193,7 +193,10 @@ void xmeans_coordinator::partition_decision() {
 #endif
     for (size_t i = 0; i < bic_scores.size(); i++) {
         auto score = bic_scores[i];
-        if (score.pscore > score.cscore) {
+        // A child without rows is no cluster: such a split is never kept
+        if (cluster_assignment_counts[score.lid] == 0 ||
+                cluster_assignment_counts[score.rid] == 0 ||
+                score.pscore > score.cscore) {
 #ifndef BIND
 #if VERBOSE
             printf("\nPart: %u will NOT split! pscore: %.4f > cscore: %.4f\n",
-- 
2.43.0


From 940eb4f1eb16a0d1eafaf7b6d18a68081f73f0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:46 +0000
Subject: [PATCH 33/33] fix: x-means takes the variance from squared distances
 and charges one penalty per model

---
 libman/xmeans_coordinator.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index e379efa..14f4ab2 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -101,14 +101,19 @@ void xmeans_coordinator::bic(split_score_t& score,
     double psigma = 0;
     double csigma = 0;
 
+    // A variance is the mean of squared distances
+    auto square = [this] (const double dist) {
+        return _dist_t == base::dist_t::SQEUCL ? dist : dist * dist;
+    };
+
     for (auto const& idx : memb_cltrs[score.lid]) {
-            psigma += partition_dist[idx];
-            csigma += nearest_cdist[idx];
+            psigma += square(partition_dist[idx]);
+            csigma += square(nearest_cdist[idx]);
     }
 
     for (auto const& idx : memb_cltrs[score.rid]) {
-            psigma += partition_dist[idx];
-            csigma += nearest_cdist[idx];
+            psigma += square(partition_dist[idx]);
+            csigma += square(nearest_cdist[idx]);
     }
 
     // Parent
@@ -130,13 +135,12 @@ void xmeans_coordinator::bic(split_score_t& score,
         double p = (cK - 1) + ncol * cK + 1;
 
         /* splitting criterion: a child's likelihood is that of its own rows */
-        score.cscore = 0;
+        score.cscore = -p * 0.5 * std::log(N); // One model, one penalty
         for (double n : {(double) cluster_assignment_counts[score.lid],
                 (double) cluster_assignment_counts[score.rid]}) {
-            double L = n * std::log(n) - n * std::log(N) - n *
+            score.cscore += n * std::log(n) - n * std::log(N) - n *
                 std::log(2.0 * M_PI) * .5 - n * ncol *
                 std::log(csigma) * .5 - (n - cK) * .5;
-            score.cscore += L - p * .5 * std::log(N);
         }
     }
 }
-- 
2.43.0

