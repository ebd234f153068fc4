From 1ead2b50405c69c2bda43f72b199fd90c98d193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:49 +0000
Subject: [PATCH 01/97] fix: NLOCBackendMP: hand tasks to the workers without
 lost wake-ups or stale workers

The current task was published and signalled without holding the mutex of the
condition variables involved (lost wake-ups, the solver blocks forever), and the
main thread did not wait for the workers to leave a task before it set up the next
one (workers processed indices of the wrong task, crashed, or wrote results after
the phase was over). Every task now has a number, is published under the mutex and
is over once every worker reported back.
---
 .../ct/optcon/nloc/NLOCBackendMP-impl.hpp     | 140 ++++++------------
 .../include/ct/optcon/nloc/NLOCBackendMP.hpp  |  26 ++--
 2 files changed, 53 insertions(+), 113 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 45f183f..ac658b4 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -46,9 +46,7 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::st
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::shutdownRoutine()
 {
-    workersActive_ = false;
-    workerTask_ = SHUTDOWN;
-    workerWakeUpCondition_.notify_all();
+    launchTask(SHUTDOWN);
 
 #ifdef DEBUG_PRINT_MP
     std::cout << "Shutting down workers" << std::endl;
@@ -73,63 +71,25 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
 #endif  // DEBUG_PRINT_MP
 
 
-    // local variables
-    int workerTask_local = IDLE;
-    size_t uniqueProcessID = 0;
-    size_t iteration_local = this->iteration_;
-    size_t lqpCounter_local = this->lqpCounter_;
+    // number of the last task this worker has taken part in
+    size_t lastTaskId = 0;
 
 
-    while (workersActive_)
+    while (true)
     {
-        workerTask_local = workerTask_.load();
-        iteration_local = this->iteration_;
-        lqpCounter_local = this->lqpCounter_;
-
-#ifdef DEBUG_PRINT_MP
-        printString("[Thread " + std::to_string(threadId) + "]: previous procId: " + std::to_string(uniqueProcessID) +
-                    ", current procId: " +
-                    std::to_string(generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local)));
-#endif
-
+        int workerTask_local = IDLE;
 
-        /*!
-         * We want to put the worker to sleep if
-         * - the workerTask_ is IDLE
-         * - or we are finished but workerTask_ is not yet reset, thus the process ID is still the same
-         * */
-        if (workerTask_local == IDLE ||
-            uniqueProcessID == generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local))
         {
-#ifdef DEBUG_PRINT_MP
-            printString("[Thread " + std::to_string(threadId) + "]: going to sleep !");
-#endif
-
-            // sleep until the state is not IDLE any more and we have a different process ID than before
+            // sleep until there is a task which this worker has not yet taken part in
             std::unique_lock<std::mutex> waitLock(workerWakeUpMutex_);
-            while (workerTask_ == IDLE || (uniqueProcessID == generateUniqueProcessID(this->iteration_,
-                                                                  (int)workerTask_.load(), this->lqpCounter_)))
-            {
-                workerWakeUpCondition_.wait(waitLock);
-            }
-            waitLock.unlock();
-
-            workerTask_local = workerTask_.load();
-            iteration_local = this->iteration_;
-            lqpCounter_local = this->lqpCounter_;
-
-#ifdef DEBUG_PRINT_MP
-            printString("[Thread " + std::to_string(threadId) + "]: woke up !");
-#endif  // DEBUG_PRINT_MP
+            workerWakeUpCondition_.wait(waitLock, [this, lastTaskId] { return taskId_ != lastTaskId; });
+            lastTaskId = taskId_;
+            workerTask_local = workerTask_;
         }
 
-        if (!workersActive_)
-        {
 #ifdef DEBUG_PRINT_MP
-            printString("Breaking - workers are not active !");
+        printString("[Thread " + std::to_string(threadId) + "]: woke up !");
 #endif  // DEBUG_PRINT_MP
-            break;
-        }
 
 
         switch (workerTask_local)
@@ -140,7 +100,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now busy with LINE_SEARCH !");
 #endif  // DEBUG_PRINT_MP
                 lineSearchWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, LINE_SEARCH, lqpCounter_local);
                 break;
             }
             case ROLLOUT_SHOTS:
@@ -149,7 +108,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now doing shot rollouts !");
 #endif  // DEBUG_PRINT_MP
                 rolloutShotWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, ROLLOUT_SHOTS, lqpCounter_local);
                 break;
             }
             case COMPUTE_LQ_PROBLEM:
@@ -158,7 +116,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now doing LQ approximation !");
 #endif  // DEBUG_PRINT_MP
                 computeLQProblemWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, COMPUTE_LQ_PROBLEM, lqpCounter_local);
                 break;
             }
             case SHUTDOWN:
@@ -182,11 +139,33 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 break;
             }
         }
+
+        // report back
+        std::lock_guard<std::mutex> doneLock(workerWakeUpMutex_);
+        workersBusy_--;
+        if (workersBusy_ == 0)
+            workersDoneCondition_.notify_all();
     }
+}
 
-#ifdef DEBUG_PRINT_MP
-    printString("[Thread " + std::to_string(threadId) + "]: shut down.");
-#endif  // DEBUG_PRINT_MP
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
+void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::launchTask(WORKER_STATE task)
+{
+    std::lock_guard<std::mutex> lock(workerWakeUpMutex_);
+    workerTask_ = task;
+    taskId_++;
+    workersBusy_ = workerThreads_.size();
+    workerWakeUpCondition_.notify_all();
+}
+
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
+void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::waitForWorkers()
+{
+    std::unique_lock<std::mutex> waitLock(workerWakeUpMutex_);
+    workersDoneCondition_.wait(waitLock, [this] { return workersBusy_ == 0; });
+    workerTask_ = IDLE;
 }
 
 
@@ -195,11 +174,11 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::la
 {
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Going to launch worker threads!");
-    std::cout << workersActive_.load() << std::endl;
 #endif  //DEBUG_PRINT_MP
 
-    workersActive_ = true;
     workerTask_ = IDLE;
+    taskId_ = 0;
+    workersBusy_ = 0;
 
     for (int i = 0; i < (int)this->settings_.nThreads; i++)
     {
@@ -241,24 +220,19 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 #endif  //DEBUG_PRINT_MP
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Waking up workers to do LQ approximation.");
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = COMPUTE_LQ_PROBLEM;
-    workerWakeUpCondition_.notify_all();
+    launchTask(COMPUTE_LQ_PROBLEM);
 
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Will sleep now until done with LQ approximation.");
 #endif  //DEBUG_PRINT_MP
 
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    waitForWorkers();
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Woke up again, should have computed LQ approximation now.");
 #endif  //DEBUG_PRINT_MP
@@ -286,9 +260,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
                             std::to_string(KMax_) + " and KMin_ is " + std::to_string(KMin_));
 #endif
 
-            //kCompleted_++;
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
         }
 
@@ -302,8 +273,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 
         if (this->generalConstraints_[threadId] != nullptr)
             this->computeLinearizedConstraints(threadId, KMax_ - k);  // linearize constraints backwards
-
-        kCompleted_++;
     }
 }
 
@@ -340,7 +309,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
@@ -348,17 +316,13 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers to do shot rollouts." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = ROLLOUT_SHOTS;
-    workerWakeUpCondition_.notify_all();
+    launchTask(ROLLOUT_SHOTS);
 
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Will sleep now until we have rolled out all shots." << std::endl;
 #endif  //DEBUG_PRINT_MP
 
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    waitForWorkers();
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have rolled out all shots now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -379,8 +343,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
         if (k > KMax_ - KMin_)
         {
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
         }
 
@@ -399,8 +361,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
             this->computeSingleDefect(kShot, this->x_, this->xShot_, this->d_);
         }
-
-        kCompleted_++;
     }
 }
 
@@ -421,16 +381,12 @@ SCALAR NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = LINE_SEARCH;
-    workerWakeUpCondition_.notify_all();
+    launchTask(LINE_SEARCH);
 
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Will sleep now until done line search." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    std::unique_lock<std::mutex> waitLock(alphaBestFoundMutex_);
-    alphaBestFoundCondition_.wait(waitLock, [this] { return alphaBestFound_.load(); });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    waitForWorkers();
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have results now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -577,22 +533,12 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         if (allPreviousAlphasProcessed)
         {
             alphaBestFound_ = true;
-            alphaBestFoundCondition_.notify_all();
         }
 
         lineSearchResultMutex_.unlock();
     }
 }
 
-template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-size_t NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::generateUniqueProcessID(
-    const size_t& iterateNo,
-    const int workerState,
-    const size_t resetCount)
-{
-    return (10e12 * (resetCount + 1) + 10e6 * (workerState + 1) + iterateNo + 1);
-}
-
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::printString(const std::string& text)
 {
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
index 8d2d405..1d140b2 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
@@ -97,31 +97,26 @@ private:
     //! rolls out a shot and computes the defect
     void rolloutShotWorker(size_t threadId);
 
-    /*! heuristic that generates a unique id for a process, such that we can manage the tasks.
-	 * Generates a unique identifiers for task, iteration:
-	 * @todo replace by proper hash
-	 * */
-    size_t generateUniqueProcessID(const size_t& iterateNo, const int workerState, const size_t resetCount);
+    //! hand a task to all workers
+    void launchTask(WORKER_STATE task);
+
+    //! wait until every worker is done with the current task, such that none is left behind when the next one starts
+    void waitForWorkers();
 
     //! wrapper method for nice debug printing
     void printString(const std::string& text);
 
     std::vector<std::thread> workerThreads_;
-    std::atomic_bool workersActive_;
-    std::atomic_int workerTask_;
 
+    //! protects workerTask_, taskId_ and workersBusy_
     std::mutex workerWakeUpMutex_;
     std::condition_variable workerWakeUpCondition_;
-
-    std::mutex kCompletedMutex_;
-    std::condition_variable kCompletedCondition_;
-
-    std::mutex kCompletedMutexCost_;
-    std::condition_variable kCompletedConditionCost_;
+    std::condition_variable workersDoneCondition_;
+    WORKER_STATE workerTask_;  //! the current task
+    size_t taskId_;            //! number of the current task, gets incremented for every new task
+    size_t workersBusy_;       //! number of workers which did not yet finish the current task
 
     std::mutex lineSearchResultMutex_;
-    std::mutex alphaBestFoundMutex_;
-    std::condition_variable alphaBestFoundCondition_;
 
     std::atomic_size_t alphaTaken_;
     size_t alphaMax_;
@@ -131,7 +126,6 @@ private:
     std::vector<size_t> alphaProcessed_;
 
     std::atomic_size_t kTaken_;
-    std::atomic_size_t kCompleted_;
 
     size_t KMax_;
     size_t KMin_;
-- 
2.43.0


From b56e1518108b08b01d052b6296446efffd2d2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:04 +0000
Subject: [PATCH 02/97] fix: NLOCBackendMP: an accepted larger step is not
 replaced by a smaller one in the line search

Whichever worker came last overwrote the result, also with a step further down the
list, so that the outcome depended on the schedule and differed from the
single-threaded backend.
---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index ac658b4..480c7b3 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -466,7 +466,7 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         if (stepAccepted)
         {
             // make sure we do not alter an existing result
-            if (alphaBestFound_)
+            if (alphaBestFound_ || alphaExp > alphaExpBest_)
             {
                 lineSearchResultMutex_.unlock();
                 break;
-- 
2.43.0


From c1f5918f18ec2d4c19248f06760be5365f606db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:04 +0000
Subject: [PATCH 03/97] fix: NLOCBackendMP: ignore empty index ranges

With a shot as long as the horizon the remaining range is empty, the number of
indices underflowed and the workers ran out of bounds.
---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 480c7b3..1ff91e7 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -195,6 +195,10 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
     if (lastIndex == (static_cast<size_t>(this->K_) - 1))
         this->initializeCostToGo();
 
+    // nothing to do, e.g. if a single shot spans the whole horizon
+    if (lastIndex < firstIndex)
+        return;
+
     /*
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
 	 * Then, don't wake up workers, but do single-threaded computation for that single index, and return.
@@ -281,6 +285,10 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, type
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::rolloutShots(size_t firstIndex,
     size_t lastIndex)
 {
+    // nothing to do, e.g. if a single shot spans the whole horizon
+    if (lastIndex < firstIndex)
+        return;
+
     /*!
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
 	 * Then, don't wake up workers, but do single-threaded computation for that single index, and return.
-- 
2.43.0


From 8d3abba6d6539e1c8784787f3ef4ee8294a5fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:12 +0000
Subject: [PATCH 04/97] fix: NLOCBackendMP: exceptions in workers and failing
 thread creation reach the caller

---
 .../ct/optcon/nloc/NLOCBackendMP-impl.hpp     | 104 +++++++++++-------
 .../include/ct/optcon/nloc/NLOCBackendMP.hpp  |   7 +-
 2 files changed, 70 insertions(+), 41 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 1ff91e7..3e45683 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -92,53 +92,63 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
 #endif  // DEBUG_PRINT_MP
 
 
-        switch (workerTask_local)
+        try
         {
-            case LINE_SEARCH:
+            switch (workerTask_local)
             {
+                case LINE_SEARCH:
+                {
 #ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: now busy with LINE_SEARCH !");
+                    printString("[Thread " + std::to_string(threadId) + "]: now busy with LINE_SEARCH !");
 #endif  // DEBUG_PRINT_MP
-                lineSearchWorker(threadId);
-                break;
-            }
-            case ROLLOUT_SHOTS:
-            {
+                    lineSearchWorker(threadId);
+                    break;
+                }
+                case ROLLOUT_SHOTS:
+                {
 #ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: now doing shot rollouts !");
+                    printString("[Thread " + std::to_string(threadId) + "]: now doing shot rollouts !");
 #endif  // DEBUG_PRINT_MP
-                rolloutShotWorker(threadId);
-                break;
-            }
-            case COMPUTE_LQ_PROBLEM:
-            {
+                    rolloutShotWorker(threadId);
+                    break;
+                }
+                case COMPUTE_LQ_PROBLEM:
+                {
 #ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: now doing LQ approximation !");
+                    printString("[Thread " + std::to_string(threadId) + "]: now doing LQ approximation !");
 #endif  // DEBUG_PRINT_MP
-                computeLQProblemWorker(threadId);
-                break;
-            }
-            case SHUTDOWN:
-            {
+                    computeLQProblemWorker(threadId);
+                    break;
+                }
+                case SHUTDOWN:
+                {
 #ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: now shutting down !");
+                    printString("[Thread " + std::to_string(threadId) + "]: now shutting down !");
 #endif  // DEBUG_PRINT_MP
-                return;
-                break;
-            }
-            case IDLE:
-            {
+                    return;
+                    break;
+                }
+                case IDLE:
+                {
 #ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: is idle. Now going to sleep.");
+                    printString("[Thread " + std::to_string(threadId) + "]: is idle. Now going to sleep.");
 #endif  // DEBUG_PRINT_MP
-                break;
-            }
-            default:
-            {
-                printString("[Thread " + std::to_string(threadId) + "]: WARNING: Worker has unknown task !");
-                break;
+                    break;
+                }
+                default:
+                {
+                    printString("[Thread " + std::to_string(threadId) + "]: WARNING: Worker has unknown task !");
+                    break;
+                }
             }
         }
+        catch (...)
+        {
+            // e.g. thrown by a user-defined function: hand it over to the thread which waits for the workers
+            std::lock_guard<std::mutex> exceptionLock(workerWakeUpMutex_);
+            if (!workerException_)
+                workerException_ = std::current_exception();
+        }
 
         // report back
         std::lock_guard<std::mutex> doneLock(workerWakeUpMutex_);
@@ -166,6 +176,14 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::wa
     std::unique_lock<std::mutex> waitLock(workerWakeUpMutex_);
     workersDoneCondition_.wait(waitLock, [this] { return workersBusy_ == 0; });
     workerTask_ = IDLE;
+
+    if (workerException_)
+    {
+        std::exception_ptr workerException = workerException_;
+        workerException_ = nullptr;
+        Eigen::setNbThreads(this->settings_.nThreadsEigen);  // restore Eigen multi-threading
+        std::rethrow_exception(workerException);
+    }
 }
 
 
@@ -180,9 +198,18 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::la
     taskId_ = 0;
     workersBusy_ = 0;
 
-    for (int i = 0; i < (int)this->settings_.nThreads; i++)
+    try
     {
-        workerThreads_.push_back(std::thread(&NLOCBackendMP::threadWork, this, i));
+        for (int i = 0; i < (int)this->settings_.nThreads; i++)
+        {
+            workerThreads_.push_back(std::thread(&NLOCBackendMP::threadWork, this, i));
+        }
+    }
+    catch (...)
+    {
+        // the destructor does not get called if the constructor throws
+        shutdownRoutine();
+        throw;
     }
 }
 
@@ -465,8 +492,8 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         this->executeLineSearch(threadId, alpha, x_search, x_shot_search, defects_recorded, u_recorded,
             intermediateCost, finalCost, defectNorm, e_box_norm, e_gen_norm, *substepsX, *substepsU, &alphaBestFound_);
 
-        lineSearchResultMutex_.lock();
-        
+        std::lock_guard<std::mutex> resultLock(lineSearchResultMutex_);
+
         // check for step acceptance and get new merit/cost
         bool stepAccepted =
             this->acceptStep(alpha, intermediateCost, finalCost, defectNorm, e_box_norm, e_gen_norm, lowestCostPrevious_, cost);
@@ -476,7 +503,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
             // make sure we do not alter an existing result
             if (alphaBestFound_ || alphaExp > alphaExpBest_)
             {
-                lineSearchResultMutex_.unlock();
                 break;
             }
 
@@ -542,8 +568,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         {
             alphaBestFound_ = true;
         }
-
-        lineSearchResultMutex_.unlock();
     }
 }
 
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
index 1d140b2..6e99585 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
@@ -11,6 +11,7 @@ Licensed under the BSD-2 license (see LICENSE file in main directory)
 #include <thread>
 #include <mutex>
 #include <condition_variable>
+#include <exception>
 
 #include "NLOCBackendBase.hpp"
 #include <ct/optcon/solver/NLOptConSettings.hpp>
@@ -101,6 +102,9 @@ private:
     void launchTask(WORKER_STATE task);
 
     //! wait until every worker is done with the current task, such that none is left behind when the next one starts
+    /*!
+	  Rethrows the first exception which occurred in a worker.
+	 */
     void waitForWorkers();
 
     //! wrapper method for nice debug printing
@@ -108,13 +112,14 @@ private:
 
     std::vector<std::thread> workerThreads_;
 
-    //! protects workerTask_, taskId_ and workersBusy_
+    //! protects workerTask_, taskId_, workersBusy_ and workerException_
     std::mutex workerWakeUpMutex_;
     std::condition_variable workerWakeUpCondition_;
     std::condition_variable workersDoneCondition_;
     WORKER_STATE workerTask_;  //! the current task
     size_t taskId_;            //! number of the current task, gets incremented for every new task
     size_t workersBusy_;       //! number of workers which did not yet finish the current task
+    std::exception_ptr workerException_;  //! first exception thrown by a worker during the current task
 
     std::mutex lineSearchResultMutex_;
 
-- 
2.43.0


From a2da3cff1fc16bd838451e5fbe5ecae82ad6a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:34 +0000
Subject: [PATCH 05/97] fix: NLOCBackend: report an unstable shot rollout
 instead of using missing substeps

---
 .../include/ct/optcon/nloc/NLOCBackendMP-impl.hpp      | 10 ++++++----
 .../include/ct/optcon/nloc/NLOCBackendST-impl.hpp      |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 3e45683..64228b5 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -327,8 +327,9 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
                     ". Not waking up workers.");
 #endif  //DEBUG_PRINT_MP
 
-        this->rolloutSingleShot(this->settings_.nThreads, firstIndex, this->u_ff_, this->x_, this->x_ref_lqr_,
-            this->xShot_, *this->substepsX_, *this->substepsU_);
+        if (!this->rolloutSingleShot(this->settings_.nThreads, firstIndex, this->u_ff_, this->x_, this->x_ref_lqr_,
+                this->xShot_, *this->substepsX_, *this->substepsU_))
+            throw std::runtime_error("Rollout failed. System became unstable");
 
         this->computeSingleDefect(firstIndex, this->x_, this->xShot_, this->d_);
         return;
@@ -391,8 +392,9 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
                             std::to_string(KMax_ - k));
 #endif
 
-            this->rolloutSingleShot(threadId, kShot, this->u_ff_, this->x_, this->x_ref_lqr_, this->xShot_,
-                *this->substepsX_, *this->substepsU_);
+            if (!this->rolloutSingleShot(threadId, kShot, this->u_ff_, this->x_, this->x_ref_lqr_, this->xShot_,
+                    *this->substepsX_, *this->substepsU_))
+                throw std::runtime_error("Rollout failed. System became unstable");
 
             this->computeSingleDefect(kShot, this->x_, this->xShot_, this->d_);
         }
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendST-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendST-impl.hpp
index 925de1a..c66cd3b 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendST-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendST-impl.hpp
@@ -58,8 +58,9 @@ void NLOCBackendST<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
     for (size_t k = firstIndex; k <= lastIndex; k = k + this->getNumStepsPerShot())
     {
         // rollout the shot
-        this->rolloutSingleShot(this->settings_.nThreads, k, this->u_ff_, this->x_, this->x_ref_lqr_, this->xShot_,
-            *this->substepsX_, *this->substepsU_);
+        if (!this->rolloutSingleShot(this->settings_.nThreads, k, this->u_ff_, this->x_, this->x_ref_lqr_, this->xShot_,
+                *this->substepsX_, *this->substepsU_))
+            throw std::runtime_error("Rollout failed. System became unstable");
 
         this->computeSingleDefect(k, this->x_, this->xShot_, this->d_);
     }
-- 
2.43.0


From 8f83267656bfed42624a292c95320a137d6bab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:46 +0000
Subject: [PATCH 06/97] fix: MpcTimeKeeper: always start the delay measurement
 that is always stopped

The time stamp of the first policy was off by the absolute time unless measureDelay_ was set.
---
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 0f93e6b..1e110ad 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -199,13 +199,10 @@ public:
     //! start measuring time elapsed during planning / solving the optimal control problem
     void startDelayMeasurement(const SCALAR& externalTime)
     {
-        if (mpc_settings_.measureDelay_)
-        {
-            if (mpc_settings_.useExternalTiming_)
-                ext_timer_.start(externalTime);
-            else
-                timer_.start();
-        }
+        if (mpc_settings_.useExternalTiming_)
+            ext_timer_.start(externalTime);
+        else
+            timer_.start();
     }
 
 
-- 
2.43.0


From ffdc9726f3ffd2c98a2f8dfffd007b70442d7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:46 +0000
Subject: [PATCH 07/97] fix: StateFeedbackPolicyHandler: extend a policy with
 increasing time stamps

push_back() takes timeIsAbsolute; the appended entries all got the time stamp dt.
---
 .../default/StateFeedbackPolicyHandler-impl.h             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
index 352d866..62c78ac 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
@@ -62,12 +62,12 @@ void StateFeedbackPolicyHandler<STATE_DIM, CONTROL_DIM, SCALAR>::designWarmStart
     if (Kn_new > currentSize)
     {
         //extend at back with constant value taken from last element
-        bool timeIsRelative = true;
+        const bool timeIsAbsolute = false;  // dt_ is relative to the current end of the trajectories
         for (int i = 0; i < Kn_new - currentSize; i++)
         {
-            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsRelative);
-            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsRelative);
-            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsRelative);
+            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsAbsolute);
+            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsAbsolute);
+            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsAbsolute);
         }
     }
     else if (Kn_new < currentSize)
-- 
2.43.0


From 2c448abd93f42026aa49d5a1164a099b451aa90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:46 +0000
Subject: [PATCH 08/97] fix: MPC: changing the forward integrator in
 updateSettings() does not leave dangling callbacks

Integrator's lambdas capture this, so it must not be assigned from a temporary.
---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index fabc657..50c85f8 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -288,7 +288,7 @@ void MPC<OPTCON_SOLVER>::updateSettings(const mpc_settings& settings)
     checkSettings(settings);
 
     if (settings.stateForwardIntegratorType_ != mpc_settings_.stateForwardIntegratorType_)
-        forwardIntegrator_ = ct::core::Integrator<STATE_DIM, Scalar_t>(dynamics_, settings.stateForwardIntegratorType_);
+        forwardIntegrator_.changeIntegrationType(settings.stateForwardIntegratorType_);
 
     mpc_settings_ = settings;
     timeKeeper_.updateSettings(settings);
-- 
2.43.0


From 2dcc6512ffc07df917996448d95bbb6a80d71621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:46 +0000
Subject: [PATCH 09/97] fix: MPC: setTimeHorizonStrategy() takes effect

The time keeper kept using the strategy it was constructed with.
---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h      | 1 +
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 50c85f8..1d8bbd4 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -85,6 +85,7 @@ template <typename OPTCON_SOLVER>
 void MPC<OPTCON_SOLVER>::setTimeHorizonStrategy(std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy)
 {
     timeHorizonStrategy_ = timeHorizonStrategy;
+    timeKeeper_.setTimeHorizonStrategy(timeHorizonStrategy);
 }
 
 
diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 1e110ad..894443b 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -196,6 +196,11 @@ public:
 	 * 	the new settings to be handed over
 	 */
     void updateSettings(const mpc_settings& settings) { mpc_settings_ = settings; }
+    //! replace the time horizon strategy
+    void setTimeHorizonStrategy(std::shared_ptr<MpcTimeHorizon<SCALAR>> timeHorizonStrategy)
+    {
+        timeHorizonStrategy_ = timeHorizonStrategy;
+    }
     //! start measuring time elapsed during planning / solving the optimal control problem
     void startDelayMeasurement(const SCALAR& externalTime)
     {
-- 
2.43.0


From c4f17241c566069dafd26bafe94b295d21171e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:46 +0000
Subject: [PATCH 10/97] fix: MPC: predict the state with the policy of the last
 run, not with the already shifted warm start

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 4 +++-
 ct_optcon/include/ct/optcon/mpc/MPC.h      | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 1d8bbd4..49a98ff 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -95,6 +95,7 @@ void MPC<OPTCON_SOLVER>::setInitialGuess(const Policy_t& initGuess)
     solver_.setInitialGuess(initGuess);
     policyHandler_->setPolicy(initGuess);
     currentPolicy_ = initGuess;
+    previousPolicy_ = initGuess;
 }
 
 
@@ -128,7 +129,7 @@ void MPC<OPTCON_SOLVER>::doForwardIntegration(const Scalar_t& t_forward_start,
         else
         {
             // ... or with the controller obtained from the solver (solution of last mpc-run).
-            std::shared_ptr<Policy_t> prevController(new Policy_t(currentPolicy_));
+            std::shared_ptr<Policy_t> prevController(new Policy_t(previousPolicy_));
             integrateForward(t_forward_start, t_forward_stop, x_start, prevController);
         }
     }
@@ -252,6 +253,7 @@ bool MPC<OPTCON_SOLVER>::finishIteration(const core::StateVector<STATE_DIM, Scal
 
     // update policy result
     newPolicy = currentPolicy_;
+    previousPolicy_ = currentPolicy_;
 
     // stop the delay measurement. This needs to be the last method called in finishIteration().
     timeKeeper_.stopDelayMeasurement(x_ts);
diff --git a/ct_optcon/include/ct/optcon/mpc/MPC.h b/ct_optcon/include/ct/optcon/mpc/MPC.h
index 6399a2f..44d0fae 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC.h
@@ -242,6 +242,9 @@ private:
     //! currently optimal policy, initial guess respectively
     Policy_t currentPolicy_;
 
+    //! policy resulting from the last mpc-run, i.e. the one being applied while the next one is designed
+    Policy_t previousPolicy_;
+
     //! time horizon strategy, e.g. receding horizon optimal control
     std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy_;
 
-- 
2.43.0


From ee80b1a3675c85f89df4700f9406d33d30176a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:46 +0000
Subject: [PATCH 11/97] fix: MPC: time stamp of the policy after an
 unsuccessful solve

The returned warm start has been shifted about the predicted delay, so its time stamp has to be shifted, too.
---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 49a98ff..dbc008f 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -201,10 +201,11 @@ bool MPC<OPTCON_SOLVER>::finishIteration(const core::StateVector<STATE_DIM, Scal
 
     bool solveSuccessful = solver_.finishMPCIteration();
 
+    // both the new solution and, if unsuccessful, the warm start begin at the end of the predicted delay
+    newPolicy_ts = newPolicy_ts + (t_forward_stop_ - t_forward_start_);
+
     if (solveSuccessful)
     {
-        newPolicy_ts = newPolicy_ts + (t_forward_stop_ - t_forward_start_);
-
         // get optimized policy and state trajectory from OptConSolver
         currentPolicy_ = solver_.getSolution();
 
-- 
2.43.0


From 477daaf4aadee6d5e841695e163d9b444797d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:46 +0000
Subject: [PATCH 12/97] fix: PolicyHandler: report zero effective truncation in
 the default implementation

MPC added an uninitialised value to the policy time stamp with cold start and post-truncation.
---
 .../include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
index 614f659..389b739 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
@@ -31,6 +31,8 @@ void PolicyHandler<POLICY, STATE_DIM, CONTROL_DIM, SCALAR>::truncateSolutionFron
     POLICY& policy,
     SCALAR& effectivelyTruncated)
 {
+    // the default policy handler does not truncate
+    effectivelyTruncated = 0.0;
 }
 
 template <typename POLICY, size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From e296f8acca1a91d6a2dfe38b52379b0880df4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:03 +0000
Subject: [PATCH 13/97] fix: NLOCBackend: shots longer than the time horizon

With K_shot > K, e.g. after MPC shrank the horizon, defects and shots beyond the last stage were accessed.
---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 9ec54b6..5a0ee4a 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1658,10 +1658,11 @@ int NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::g
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 int NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::getNumStepsPerShot() const
 {
+    // a shot never exceeds the time horizon
     if (settings_.isSingleShooting())
         return K_;
     else
-        return settings_.K_shot;
+        return std::min(K_, settings_.K_shot);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-- 
2.43.0


From aab8f11fe704e3d07975b6e1f4790a90f67499c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:28 +0000
Subject: [PATCH 14/97] fix: Timer: measure elapsed time with a monotonic clock

A step of the wall clock (NTP, operator) made MPC throw, mis-stamp policies and change the time horizon.
---
 ct_core/include/ct/core/common/Timer.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ct_core/include/ct/core/common/Timer.h b/ct_core/include/ct/core/common/Timer.h
index 89107dd..19845d0 100644
--- a/ct_core/include/ct/core/common/Timer.h
+++ b/ct_core/include/ct/core/common/Timer.h
@@ -5,15 +5,15 @@ Licensed under the BSD-2 license (see LICENSE file in main directory)
 
 #pragma once
 
-#include <sys/time.h>
+#include <chrono>
 
 namespace ct {
 namespace core {
 namespace tpl {
 
-//! A timer ("stop watch") to record elapsed time based on the system clock
+//! A timer ("stop watch") to record elapsed time based on a monotonic clock
 /*!
- * Keeps track of time in a stop watch fashion.
+ * Keeps track of time in a stop watch fashion. Adjustments of the system's wall-clock time do not affect it.
  */
 template <typename SCALAR = double>
 class Timer
@@ -26,12 +26,12 @@ public:
 	 * Starts the time measurement.
 	 * Can be re-triggered without calling stop(). Simply overrides the start timestamp.
 	 */
-    inline void start() { gettimeofday(&start_time, NULL); }
+    inline void start() { start_time = Clock::now(); }
     //! Trigger stop
     /*!
 	 * Stops the time measurement.
 	 */
-    inline void stop() { gettimeofday(&stop_time, NULL); }
+    inline void stop() { stop_time = Clock::now(); }
     //! Get the elapsed time between calls to start() and stop()
     /*!
 	 *
@@ -39,7 +39,7 @@ public:
 	 */
     SCALAR getElapsedTime() const
     {
-        return (stop_time.tv_sec - start_time.tv_sec) + (stop_time.tv_usec - start_time.tv_usec) * 1e-6;
+        return std::chrono::duration<SCALAR>(stop_time - start_time).count();
     }
 
     //! Resets the clock.
@@ -48,15 +48,15 @@ public:
 	 */
     void reset()
     {
-        start_time.tv_sec = 0;
-        start_time.tv_usec = 0;
-        stop_time.tv_sec = 0;
-        stop_time.tv_usec = 0;
+        start_time = Clock::time_point();
+        stop_time = Clock::time_point();
     }
 
 private:
-    struct timeval start_time; /*!< start time */
-    struct timeval stop_time;  /*!< stop time */
+    typedef std::chrono::steady_clock Clock;
+
+    Clock::time_point start_time; /*!< start time */
+    Clock::time_point stop_time;  /*!< stop time */
 };
 }
 
-- 
2.43.0


From 2711fba543fe2461591671b9a68a9f724b5aca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:51 +0000
Subject: [PATCH 15/97] fix: ControlSimulator: make the copy constructor usable

It did not compile when used: the cloned system was assigned through a controller pointer and the atomic was copied.
---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 156f305..7bbecab 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -55,11 +55,11 @@ public:
 
     //! copy constructor
     ControlSimulator(const ControlSimulator& arg)
-        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(arg.stop_)
+        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(false), verbose_(arg.verbose_)
     {
         if (!arg.system_)
             return;
-        system_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.system_->clone());
+        system_ = std::shared_ptr<CONTROLLED_SYSTEM>(arg.system_->clone());
         if (arg.controller_)
         {
             controller_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.controller_->clone());
-- 
2.43.0


From 8e0b0924013989b262e4d82d29cdcacdb90f94ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:53 +0000
Subject: [PATCH 16/97] fix: ControlSimulator: hand the integration type to the
 thread by value

The system thread read the caller's (default) argument after simulate() had returned.
---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 7bbecab..f8442ed 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -81,7 +81,7 @@ public:
         stop_ = false;
         sim_start_time_ = std::chrono::high_resolution_clock::now();
         x_ = x0_;
-        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, std::ref(intType));
+        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, intType);
         control_thread_ = std::thread(&ControlSimulator::simulateController, this, duration);
     }
 
-- 
2.43.0


From 8d9cb61c4a5d4b14981522379488eca16b369d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:53 +0000
Subject: [PATCH 17/97] fix: ControlSimulator: the last, shorter integration
 step has length residue * sim_dt

With a control step that is no multiple of the simulation step, the fraction itself was used as step size.
---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index f8442ed..1ebe558 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -115,7 +115,7 @@ protected:
             {
                 integrator.integrate_n_steps(temp_x, sim_time, int(control_dt_ / sim_dt_), sim_dt_);
                 if (residue > 1e-6)
-                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue);
+                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue * sim_dt_);
 
                 if (std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - wall_time).count() >=
                     control_dt_)
-- 
2.43.0


From 3478933914eec3c9df97bba8f9a402d90b7be14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:53 +0000
Subject: [PATCH 18/97] fix: ControlSimulator: keep time with a monotonic clock

steps of the wall clock ended, froze or rushed the simulation.
---
 .../ct/core/simulation/ControlSimulator.h        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 1ebe558..035bc2a 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -79,7 +79,7 @@ public:
     void simulate(Time duration, const IntegrationType& intType = IntegrationType::EULERCT)
     {
         stop_ = false;
-        sim_start_time_ = std::chrono::high_resolution_clock::now();
+        sim_start_time_ = std::chrono::steady_clock::now();
         x_ = x0_;
         sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, intType);
         control_thread_ = std::thread(&ControlSimulator::simulateController, this, duration);
@@ -109,7 +109,7 @@ protected:
             auto wall_time = sim_start_time_;
             Time sim_time = std::chrono::duration<double>(wall_time - sim_start_time_).count();
 
-            while (std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - sim_start_time_).count() <
+            while (std::chrono::duration<double>(std::chrono::steady_clock::now() - sim_start_time_).count() <
                        duration &&
                    !stop_)
             {
@@ -117,7 +117,7 @@ protected:
                 if (residue > 1e-6)
                     integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue * sim_dt_);
 
-                if (std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - wall_time).count() >=
+                if (std::chrono::duration<double>(std::chrono::steady_clock::now() - wall_time).count() >=
                     control_dt_)
                 {
                     if (verbose_)
@@ -126,7 +126,7 @@ protected:
                 else
                     std::this_thread::sleep_until(wall_time + std::chrono::duration<double>(control_dt_));
 
-                wall_time += std::chrono::duration_cast<std::chrono::system_clock::duration>(
+                wall_time += std::chrono::duration_cast<std::chrono::steady_clock::duration>(
                     std::chrono::duration<double>(control_dt_));
 
                 state_mtx_.lock();
@@ -149,16 +149,16 @@ protected:
         try
         {
             Time sim_time;
-            while (std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - sim_start_time_).count() <
+            while (std::chrono::duration<double>(std::chrono::steady_clock::now() - sim_start_time_).count() <
                        duration &&
                    !stop_)
             {
                 sim_time =
-                    std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - sim_start_time_).count();
+                    std::chrono::duration<double>(std::chrono::steady_clock::now() - sim_start_time_).count();
                 prepareControllerIteration(sim_time);
 
                 sim_time =
-                    std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - sim_start_time_).count();
+                    std::chrono::duration<double>(std::chrono::steady_clock::now() - sim_start_time_).count();
                 finishControllerIteration(sim_time);
             }
         } catch (std::exception& e)
@@ -172,7 +172,7 @@ protected:
     Time control_dt_;
     std::shared_ptr<CONTROLLED_SYSTEM> system_;
     std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>> controller_;
-    std::chrono::time_point<std::chrono::high_resolution_clock> sim_start_time_;
+    std::chrono::time_point<std::chrono::steady_clock> sim_start_time_;
     StateVector<STATE_DIM> x0_;
     StateVector<STATE_DIM> x_;
     std::thread sys_thread_;
-- 
2.43.0


From 0f79adea6fb4e9a85607472f1ee6fbd9d1d5c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:05 +0000
Subject: [PATCH 19/97] fix: ControlSimulator: exceptions in the simulation
 threads are reported by finish()

They left the thread function and terminated the process.
---
 .../ct/core/simulation/ControlSimulator.h     | 41 +++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 035bc2a..c88dee4 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -7,6 +7,8 @@ Licensed under the BSD-2 license (see LICENSE file in main directory)
 
 #include <atomic>
 #include <chrono>
+#include <exception>
+#include <mutex>
 #include <thread>
 #include <memory>
 
@@ -68,7 +70,7 @@ public:
     }
 
     //! destructor
-    virtual ~ControlSimulator() { finish(); };
+    virtual ~ControlSimulator() { join(); };
     //! Gets called after the integrator step
     virtual void finishSystemIteration(Time sim_time) {}
     //! During controller update, this method does processing before the state measurement arrives
@@ -85,13 +87,16 @@ public:
         control_thread_ = std::thread(&ControlSimulator::simulateController, this, duration);
     }
 
-    //! waits for the simulation threads to finish
+    //! waits for the simulation threads to finish, rethrows the first exception which occurred in one of them
     void finish()
     {
-        if (sys_thread_.joinable())
-            sys_thread_.join();
-        if (control_thread_.joinable())
-            control_thread_.join();
+        join();
+        if (failure_)
+        {
+            std::exception_ptr failure;
+            std::swap(failure, failure_);
+            std::rethrow_exception(failure);
+        }
     }
 
     //! stops the simulation
@@ -139,7 +144,7 @@ protected:
         } catch (std::exception& e)
         {
             std::cout << e.what() << std::endl;
-            throw(std::runtime_error("Control Simulator failed."));
+            fail(std::make_exception_ptr(std::runtime_error("Control Simulator failed.")));
         }
     }
 
@@ -164,10 +169,28 @@ protected:
         } catch (std::exception& e)
         {
             std::cout << e.what() << std::endl;
-            throw(std::runtime_error("Control Simulator failed."));
+            fail(std::make_exception_ptr(std::runtime_error("Control Simulator failed.")));
         }
     }
 
+    //! joins the simulation threads
+    void join()
+    {
+        if (sys_thread_.joinable())
+            sys_thread_.join();
+        if (control_thread_.joinable())
+            control_thread_.join();
+    }
+
+    //! ends the simulation and keeps the exception for finish()
+    void fail(std::exception_ptr e)
+    {
+        std::lock_guard<std::mutex> lock(failure_mtx_);
+        if (!failure_)
+            failure_ = e;
+        stop_ = true;
+    }
+
     Time sim_dt_;
     Time control_dt_;
     std::shared_ptr<CONTROLLED_SYSTEM> system_;
@@ -179,6 +202,8 @@ protected:
     std::thread control_thread_;
     std::mutex state_mtx_;
     std::mutex control_mtx_;
+    std::mutex failure_mtx_;
+    std::exception_ptr failure_;
     std::atomic<bool> stop_;
     bool verbose_;
 };
-- 
2.43.0


From 034c02335e8038e246f6163b9f7241768d20e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:19 +0000
Subject: [PATCH 20/97] fix: ControlSimulator: simulate() may be called again
 without finish()

Assigning to the still joinable threads terminated the process.
---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index c88dee4..0d7dfac 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -80,6 +80,7 @@ public:
     //! spawns the two threads in a nonblocking way
     void simulate(Time duration, const IntegrationType& intType = IntegrationType::EULERCT)
     {
+        finish();  // a previous simulation
         stop_ = false;
         sim_start_time_ = std::chrono::steady_clock::now();
         x_ = x0_;
-- 
2.43.0


From a3c36b55030b19d4a725839e2f895642882a0ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 21/97] fix: DMS: weight of the last node in the simple cost
 evaluation was read past the time grid

---
 .../ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 7bd7a0a..2bb149b 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -141,7 +141,7 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updatePhi()
             for (size_t i = 1; i < settings_.N_; i++)
                 phi_(i) = SCALAR(0.5) * (timeGrid_->getShotEndTime(i) - timeGrid_->getShotStartTime(i - 1));
 
-            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_));
+            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_ - 1));
             break;
         }
         default:
-- 
2.43.0


From 31ac45384567b0af27089fb5404a17ed6a463d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 22/97] fix: DMS: discretized constraints evaluated the control
 spline past the last shot

---
 .../include/ct/optcon/dms/constraints/ConstraintDiscretizer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index 04940e9..ed59f74 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -130,7 +130,7 @@ public:
             for (auto constraint : constraints_)
             {
                 constraint->setCurrentStateAndControl(
-                    w_->getOptimizedState(n), controlSpliner_->evalSpline(tShot, n), tShot);
+                    w_->getOptimizedState(n), w_->getOptimizedControl(n), tShot);
                 constraintSize = constraint->getIntermediateConstraintsCount();
                 if (constraintSize > 0)
                 {
@@ -165,7 +165,7 @@ public:
             for (auto constraint : constraints_)
             {
                 constraint->setCurrentStateAndControl(
-                    w_->getOptimizedState(n), controlSpliner_->evalSpline(tShot, n), tShot);
+                    w_->getOptimizedState(n), w_->getOptimizedControl(n), tShot);
                 jacSize = constraint->getJacobianStateNonZeroCountIntermediate();
                 if (jacSize > 0)
                 {
-- 
2.43.0


From fda6c80f6bf9a3720794c9a24208c097bdfdc33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 23/97] fix: DMS: Jacobian storage of general constraints left
 out the input derivatives

---
 .../ct/optcon/dms/constraints/ConstraintDiscretizer.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index ed59f74..f859bd9 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -110,8 +110,10 @@ public:
         discreteLowerBound_.resize(constraintsCount_);
         discreteUpperBound_.resize(constraintsCount_);
 
-        nonZeroJacCountIntermediate_ += (N_ + 1) * generalConstraints->getJacobianStateNonZeroCountIntermediate();
-        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal();
+        nonZeroJacCountIntermediate_ += (N_ + 1) * (generalConstraints->getJacobianStateNonZeroCountIntermediate() +
+                                                       generalConstraints->getJacobianInputNonZeroCountIntermediate());
+        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal() +
+                                    generalConstraints->getJacobianInputNonZeroCountTerminal();
         nonZeroJacCount_ = nonZeroJacCountIntermediate_ + nonZeroJacCountTerminal_;
 
         discreteJac_.resize(nonZeroJacCount_);
-- 
2.43.0


From 8cc548d9b1e9fd6d80e1aaf4da63e2f640aa4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 24/97] fix: ConstraintBase: sparse Jacobian values follow the
 order of the sparsity pattern

---
 .../include/ct/optcon/constraint/term/ConstraintBase-impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
index 9d85769..274224e 100644
--- a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
@@ -101,7 +101,8 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparse(const state_
     const control_vector_t& u,
     const SCALAR t)
 {
-    MatrixXs jacState = jacobianState(x, u, t);
+    // row by row, as in sparsityPatternState()
+    MatrixXs jacState = jacobianState(x, u, t).transpose();
 
     VectorXs jac(Eigen::Map<VectorXs>(jacState.data(), jacState.rows() * jacState.cols()));
 
@@ -114,7 +115,8 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianInputSparse(const state_
     const control_vector_t& u,
     const SCALAR t)
 {
-    MatrixXs jacInput = jacobianInput(x, u, t);
+    // row by row, as in sparsityPatternInput()
+    MatrixXs jacInput = jacobianInput(x, u, t).transpose();
 
     VectorXs jac(Eigen::Map<VectorXs>(jacInput.data(), jacInput.rows() * jacInput.cols()));
     return jac;
-- 
2.43.0


From 7738f6d17e4d3997984cbdce94d33150836c1bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:24 +0000
Subject: [PATCH 25/97] fix: DMS: a changed initial state also changes the
 initial state constraint

---
 ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 2fbf7d1..3ab9224 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -161,9 +161,10 @@ public:
                 throw(std::runtime_error("Unknown cost evaluation type"));
         }
 
-        this->constraints_ = std::shared_ptr<ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>>(
+        constraintsDms_ = std::shared_ptr<ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>>(
             new ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>(
                 optVariablesDms_, timeGrid_, shotContainers_, discretizedConstraints_, x0, settings_));
+        this->constraints_ = constraintsDms_;
 
         this->optVariables_->resizeConstraintVars(this->getConstraintsCount());
     }
@@ -256,7 +257,7 @@ public:
 	 */
     void changeInitialState(const state_vector_t& x0)
     {
-        // constraints_->changeInitialConstraint(x0);
+        constraintsDms_->changeInitialConstraint(x0);
         optVariablesDms_->changeInitialState(x0);
     }
 
@@ -272,6 +273,7 @@ private:
 
     std::vector<std::shared_ptr<ShotContainer<STATE_DIM, CONTROL_DIM, SCALAR>>> shotContainers_;
     std::shared_ptr<OptVectorDms<STATE_DIM, CONTROL_DIM, SCALAR>> optVariablesDms_;
+    std::shared_ptr<ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>> constraintsDms_;
     std::shared_ptr<SplinerBase<control_vector_t, SCALAR>> controlSpliner_;
     std::shared_ptr<tpl::TimeGrid<SCALAR>> timeGrid_;
 
-- 
2.43.0


From e7beb0f61ce70fba3cf417980ec19d1653b60a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:46 +0000
Subject: [PATCH 26/97] fix: DMS: a changed time horizon reaches the shots and
 the cost weights

---
 .../ct/optcon/dms/dms_core/DmsProblem.h        | 18 +++++++++++++-----
 .../ct/optcon/dms/dms_core/ShotContainer.h     | 11 +++++++++++
 .../cost_evaluator/CostEvaluatorSimple.h       |  4 ++--
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 3ab9224..1092a33 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -132,13 +132,10 @@ public:
             systemPtrs[shotIdx]->setController(newController);
             linearPtrs[shotIdx]->setController(newController);
 
-            size_t nIntegrationSteps =
-                (timeGrid_->getShotEndTime(shotIdx) - timeGrid_->getShotStartTime(shotIdx)) / settings_.dt_sim_ + 0.5;
-
             shotContainers_.push_back(std::shared_ptr<ShotContainer<STATE_DIM, CONTROL_DIM, SCALAR>>(
                 new ShotContainer<STATE_DIM, CONTROL_DIM, SCALAR>(systemPtrs[shotIdx], linearPtrs[shotIdx],
                     costPtrs[shotIdx], optVariablesDms_, controlSpliner_, timeGrid_, shotIdx, settings_,
-                    nIntegrationSteps)));
+                    getNumIntegrationSteps(shotIdx))));
         }
 
         switch (settings_.costEvaluationType_)
@@ -249,7 +246,12 @@ public:
 	 *
 	 * @param[in]  tf    The new time horizon
 	 */
-    void changeTimeHorizon(const SCALAR tf) { timeGrid_->changeTimeHorizon(tf); }
+    void changeTimeHorizon(const SCALAR tf)
+    {
+        timeGrid_->changeTimeHorizon(tf);
+        for (size_t shotIdx = 0; shotIdx < shotContainers_.size(); shotIdx++)
+            shotContainers_[shotIdx]->updateTimes(getNumIntegrationSteps(shotIdx));
+    }
     /**
 	 * @brief      Updates the initial state
 	 *
@@ -267,6 +269,12 @@ public:
     void printSolution() { optVariablesDms_->printoutSolution(); }
 
 private:
+    //! number of integration steps in a shot on the current time grid
+    size_t getNumIntegrationSteps(const size_t shotIdx) const
+    {
+        return (timeGrid_->getShotEndTime(shotIdx) - timeGrid_->getShotStartTime(shotIdx)) / settings_.dt_sim_ + 0.5;
+    }
+
     DmsSettings settings_;
 
     std::shared_ptr<ConstraintDiscretizer<STATE_DIM, CONTROL_DIM, SCALAR>> discretizedConstraints_;
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
index b9fceb6..aaa2f1b 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
@@ -201,6 +201,17 @@ public:
         }
     }
 
+    /**
+	 * @brief      Adapts the shot to a changed time grid
+	 *
+	 * @param[in]  nIntegrationSteps  The number of integration steps of this shot
+	 */
+    void updateTimes(const size_t nIntegrationSteps)
+    {
+        tStart_ = timeGrid_->getShotStartTime(shotNr_);
+        nSteps_ = nIntegrationSteps;
+    }
+
     void reset()
     {
         integratorCT_->clearStates();
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 2bb149b..80dcf95 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -84,7 +84,7 @@ private:
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
 {
-    // updatePhi();
+    updatePhi();
     SCALAR cost = SCALAR(0.0);
 
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
@@ -105,7 +105,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t grad_length,
     Eigen::Map<Eigen::Matrix<SCALAR, Eigen::Dynamic, 1>>& grad)
 {
-    // updatePhi();
+    updatePhi();
     grad.setZero();
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
     {
-- 
2.43.0


From a1f4e5fc8039e07f2ec50cf6b5b77c212384993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:04 +0000
Subject: [PATCH 27/97] fix: DMS: a shot whose evaluation failed is not taken
 as evaluated

---
 .../include/ct/optcon/dms/dms_core/ShotContainer.h     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
index aaa2f1b..c022664 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
@@ -141,10 +141,10 @@ public:
     {
         if ((w_->getUpdateCount() != integrationCount_))
         {
-            integrationCount_ = w_->getUpdateCount();
             state_vector_t initState = w_->getOptimizedState(shotNr_);
             integratorCT_->integrate(
                 initState, tStart_, nSteps_, SCALAR(settings_.dt_sim_), stateSubsteps_, timeSubsteps_);
+            integrationCount_ = w_->getUpdateCount();
         }
     }
 
@@ -152,10 +152,10 @@ public:
     {
         if ((w_->getUpdateCount() != costIntegrationCount_))
         {
-            costIntegrationCount_ = w_->getUpdateCount();
             integrateShot();
             cost_ = SCALAR(0.0);
             integratorCT_->integrateCost(cost_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
+            costIntegrationCount_ = w_->getUpdateCount();
         }
     }
 
@@ -166,10 +166,11 @@ public:
     {
         if ((w_->getUpdateCount() != sensIntegrationCount_))
         {
-            sensIntegrationCount_ = w_->getUpdateCount();
             integrateShot();
             discreteA_.setIdentity();
             discreteB_.setZero();
+            integratorCT_->clearLinearization();
+            integratorCT_->clearSensitivities();
             integratorCT_->linearize();
             integratorCT_->integrateSensitivityDX0(discreteA_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
             integratorCT_->integrateSensitivityDU0(discreteB_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
@@ -179,6 +180,7 @@ public:
                 discreteBNext_.setZero();
                 integratorCT_->integrateSensitivityDUf(discreteBNext_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
             }
+            sensIntegrationCount_ = w_->getUpdateCount();
         }
     }
 
@@ -186,7 +188,6 @@ public:
     {
         if ((w_->getUpdateCount() != costSensIntegrationCount_))
         {
-            costSensIntegrationCount_ = w_->getUpdateCount();
             integrateSensitivities();
             discreteQ_.setZero();
             discreteR_.setZero();
@@ -198,6 +199,7 @@ public:
                 discreteRNext_.setZero();
                 integratorCT_->integrateCostSensitivityDUf(discreteRNext_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
             }
+            costSensIntegrationCount_ = w_->getUpdateCount();
         }
     }
 
-- 
2.43.0


From f74ee3e1c02351f23b388e2d60e7c2eeb7e4a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:27 +0000
Subject: [PATCH 28/97] fix: DMS: exceptions of the user's model leave the
 parallel regions and reach the caller

---
 .../dms/constraints/ConstraintsContainerDms.h |  2 ++
 .../ConstraintsContainerDms-impl.h            | 24 ++++++++++++++++--
 .../cost_evaluator/CostEvaluatorFull.h        | 25 +++++++++++++++++--
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintsContainerDms.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintsContainerDms.h
index 70835ce..a95ade2 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintsContainerDms.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintsContainerDms.h
@@ -6,6 +6,8 @@ Licensed under the BSD-2 license (see LICENSE file in main directory)
 
 #pragma once
 
+#include <exception>
+
 #include <Eigen/Dense>
 
 #include <ct/optcon/dms/dms_core/DmsDimensions.h>
diff --git a/ct_optcon/include/ct/optcon/dms/constraints/implementation/ConstraintsContainerDms-impl.h b/ct_optcon/include/ct/optcon/dms/constraints/implementation/ConstraintsContainerDms-impl.h
index 6e3e46d..195a8dd 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/implementation/ConstraintsContainerDms-impl.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/implementation/ConstraintsContainerDms-impl.h
@@ -37,21 +37,41 @@ ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>::ConstraintsContainerDms
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>::prepareEvaluation()
 {
+    std::exception_ptr error;  // must not leave the parallel region by itself
 #pragma omp parallel for num_threads(settings_.nThreads_)
     for (auto shotContainer = shotContainers_.begin(); shotContainer < shotContainers_.end(); ++shotContainer)
     {
-        (*shotContainer)->integrateShot();
+        try
+        {
+            (*shotContainer)->integrateShot();
+        } catch (...)
+        {
+#pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if (error)
+        std::rethrow_exception(error);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>::prepareJacobianEvaluation()
 {
+    std::exception_ptr error;  // must not leave the parallel region by itself
 #pragma omp parallel for num_threads(settings_.nThreads_)
     for (auto shotContainer = shotContainers_.begin(); shotContainer < shotContainers_.end(); ++shotContainer)
     {
-        (*shotContainer)->integrateSensitivities();
+        try
+        {
+            (*shotContainer)->integrateSensitivities();
+        } catch (...)
+        {
+#pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if (error)
+        std::rethrow_exception(error);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
index 782ff57..46f8265 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
@@ -8,6 +8,7 @@ Licensed under the BSD-2 license (see LICENSE file in main directory)
 #include <omp.h>
 #include <math.h>
 #include <cmath>
+#include <exception>
 #include <functional>
 
 #include <ct/optcon/costfunction/CostFunctionQuadratic.hpp>
@@ -71,11 +72,21 @@ public:
     {
         SCALAR cost = SCALAR(0.0);
 
+        std::exception_ptr error;  // must not leave the parallel region by itself
 #pragma omp parallel for num_threads(settings_.nThreads_)
         for (auto shotContainer = shotContainers_.begin(); shotContainer < shotContainers_.end(); ++shotContainer)
         {
-            (*shotContainer)->integrateCost();
+            try
+            {
+                (*shotContainer)->integrateCost();
+            } catch (...)
+            {
+#pragma omp critical
+                error = std::current_exception();
+            }
         }
+        if (error)
+            std::rethrow_exception(error);
 
         for (auto shotContainer : shotContainers_)
             cost += shotContainer->getCostIntegrated();
@@ -91,13 +102,23 @@ public:
 
         assert(shotContainers_.size() == settings_.N_);
 
+        std::exception_ptr error;  // must not leave the parallel region by itself
 // go through all shots, integrate the state trajectories and evaluate cost accordingly
 // intermediate costs
 #pragma omp parallel for num_threads(settings_.nThreads_)
         for (auto shotContainer = shotContainers_.begin(); shotContainer < shotContainers_.end(); ++shotContainer)
         {
-            (*shotContainer)->integrateCostSensitivities();
+            try
+            {
+                (*shotContainer)->integrateCostSensitivities();
+            } catch (...)
+            {
+#pragma omp critical
+                error = std::current_exception();
+            }
         }
+        if (error)
+            std::rethrow_exception(error);
 
         for (size_t shotNr = 0; shotNr < shotContainers_.size(); ++shotNr)
         {
-- 
2.43.0


From 785d47c7b7875c865f6e3c1afbcfd45dd412eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:23 +0000
Subject: [PATCH 29/97] fix: report a configuration file that fails while
 NLOptConSettings loads its blocks

The line search and LQOC blocks are read by opening the file again; a failure to
open or parse it then was swallowed and the defaults were used silently.
---
 ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
index fd6918b..08c39a6 100644
--- a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
+++ b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
@@ -519,13 +519,17 @@ public:
         try
         {
             lineSearchSettings.load(filename, verbose, ns + ".line_search");
-        } catch (...)
+        } catch (const boost::property_tree::ptree_bad_path&)
+        {
+        } catch (const boost::property_tree::ptree_bad_data&)
         {
         }
         try
         {
             lqoc_solver_settings.load(filename, verbose, ns + ".lqoc_solver_settings");
-        } catch (...)
+        } catch (const boost::property_tree::ptree_bad_path&)
+        {
+        } catch (const boost::property_tree::ptree_bad_data&)
         {
         }
 
-- 
2.43.0


From 14bc42fafd69f7620f00f574e65f82195351c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:23 +0000
Subject: [PATCH 30/97] fix: load each named NLOptCon setting on its own and
 report unknown names

Without an integrator entry the discretization, algorithm and solver entries of
the file were ignored, and an unknown name ended the whole process.
---
 .../ct/optcon/solver/NLOptConSettings.hpp     | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
index 08c39a6..10b0d74 100644
--- a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
+++ b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
@@ -106,7 +106,7 @@ struct LineSearchSettings
                 std::cout << it->first << std::endl;
             }
 
-            exit(-1);
+            throw std::runtime_error("Invalid line search type specified in config: " + ls_type);
         }
 
 
@@ -550,9 +550,14 @@ public:
                     std::cout << it->first << std::endl;
                 }
 
-                exit(-1);
+                throw std::runtime_error("Invalid integrator specified in config: " + integratorStr);
             }
+        } catch (const boost::property_tree::ptree_bad_path&)
+        {
+        }
 
+        try
+        {
             std::string discretizationStr = pt.get<std::string>(ns + ".discretization");
             if (stringToDiscretization.find(discretizationStr) != stringToDiscretization.end())
             {
@@ -567,9 +572,14 @@ public:
                     std::cout << it->first << std::endl;
                 }
 
-                exit(-1);
+                throw std::runtime_error("Invalid discretization specified in config: " + discretizationStr);
             }
+        } catch (const boost::property_tree::ptree_bad_path&)
+        {
+        }
 
+        try
+        {
             std::string nlocp_algorithmStr = pt.get<std::string>(ns + ".nlocp_algorithm");
             if (stringToNlocAlgorithm.find(nlocp_algorithmStr) != stringToNlocAlgorithm.end())
             {
@@ -585,10 +595,14 @@ public:
                     std::cout << it->first << std::endl;
                 }
 
-                exit(-1);
+                throw std::runtime_error("Invalid nlocp_algorithm specified in config: " + nlocp_algorithmStr);
             }
+        } catch (const boost::property_tree::ptree_bad_path&)
+        {
+        }
 
-
+        try
+        {
             std::string locp_solverStr = pt.get<std::string>(ns + ".locp_solver");
             if (stringToLqocSolver.find(locp_solverStr) != stringToLqocSolver.end())
             {
@@ -603,10 +617,9 @@ public:
                     std::cout << it->first << std::endl;
                 }
 
-                exit(-1);
+                throw std::runtime_error("Invalid locp_solver specified in config: " + locp_solverStr);
             }
-
-        } catch (...)
+        } catch (const boost::property_tree::ptree_bad_path&)
         {
         }
 
-- 
2.43.0


From f1afa53bbea6bc4ff623e9901a2e50cd37e21dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 31/97] fix: load the matrices of filter settings from the
 given namespace

loadMatrix() takes a prefix; without the separating dot no entry was ever found
and every matrix silently became zero.
---
 .../include/ct/optcon/filter/FilterSettings.h  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index 596b149..ee264b8 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -52,10 +52,10 @@ struct StateObserverSettings
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
 
-        ct::core::loadMatrix(filename, "C", C, ns);
-        ct::core::loadMatrix(filename, "Q", Q, ns);
-        ct::core::loadMatrix(filename, "R", R, ns);
-        ct::core::loadMatrix(filename, "dFdv", dFdv, ns);
+        ct::core::loadMatrix(filename, "C", C, ns + ".");
+        ct::core::loadMatrix(filename, "Q", Q, ns + ".");
+        ct::core::loadMatrix(filename, "R", R, ns + ".");
+        ct::core::loadMatrix(filename, "dFdv", dFdv, ns + ".");
 
         if (verbose)
         {
@@ -113,7 +113,7 @@ struct SteadyStateKalmanFilterSettings
         boost::property_tree::read_info(filename, pt);
 
         maxDAREIterations = pt.get<size_t>(ns + ".maxDAREIterations", 1000);
-        ct::core::loadMatrix(filename, "x0", x0, ns);
+        ct::core::loadMatrix(filename, "x0", x0, ns + ".");
 
         if (verbose)
         {
@@ -159,8 +159,8 @@ struct ExtendedKalmanFilterSettings
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
 
-        ct::core::loadMatrix(filename, "x0", x0, ns);
-        ct::core::loadMatrix(filename, "P0", P0, ns);
+        ct::core::loadMatrix(filename, "x0", x0, ns + ".");
+        ct::core::loadMatrix(filename, "P0", P0, ns + ".");
 
         if (verbose)
         {
@@ -212,11 +212,11 @@ struct UnscentedKalmanFilterSettings
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
 
-        ct::core::loadMatrix(filename, "x0", x0, ns);
+        ct::core::loadMatrix(filename, "x0", x0, ns + ".");
         alpha = pt.get<bool>(ns + ".alpha");
         beta = pt.get<bool>(ns + ".beta");
         kappa = pt.get<bool>(ns + ".kappa");
-        ct::core::loadMatrix(filename, "P0", P0, ns);
+        ct::core::loadMatrix(filename, "P0", P0, ns + ".");
 
         if (verbose)
         {
-- 
2.43.0


From f5ce6c91143769fe1c31de1f2c75da16eb05b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 32/97] fix: load the UKF parameters alpha, beta and kappa as
 numbers

They were read as booleans, so that any value but 0 or 1 was refused.
---
 ct_optcon/include/ct/optcon/filter/FilterSettings.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index ee264b8..7d43609 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -213,9 +213,9 @@ struct UnscentedKalmanFilterSettings
         boost::property_tree::read_info(filename, pt);
 
         ct::core::loadMatrix(filename, "x0", x0, ns + ".");
-        alpha = pt.get<bool>(ns + ".alpha");
-        beta = pt.get<bool>(ns + ".beta");
-        kappa = pt.get<bool>(ns + ".kappa");
+        alpha = pt.get<SCALAR>(ns + ".alpha");
+        beta = pt.get<SCALAR>(ns + ".beta");
+        kappa = pt.get<SCALAR>(ns + ".kappa");
         ct::core::loadMatrix(filename, "P0", P0, ns + ".");
 
         if (verbose)
-- 
2.43.0


From 9a2422122bdba664bf647856649d58cd228f5c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 33/97] fix: report an unknown compiler in the CppAD settings

It was printed and then ignored, leaving the previous compiler in place.
---
 ct_core/include/ct/core/math/DerivativesCppadSettings.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/math/DerivativesCppadSettings.h b/ct_core/include/ct/core/math/DerivativesCppadSettings.h
index 180d59b..dde6585 100644
--- a/ct_core/include/ct/core/math/DerivativesCppadSettings.h
+++ b/ct_core/include/ct/core/math/DerivativesCppadSettings.h
@@ -144,6 +144,8 @@ public:
 
             for (auto it = stringTocompiler.begin(); it != stringTocompiler.end(); it++)
                 std::cout << it->first << std::endl;
+
+            throw std::runtime_error("Invalid compiler specified in config: " + compilerStr);
         }
 
         if (verbose)
-- 
2.43.0


From 6f4b5e059e78c23cfc6e421686fd0553ecc44a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 34/97] fix: report a time activation that cannot be loaded

Any failure while loading it, even of the file itself, silently left the term
active at all times, and an unknown kind dereferenced a null pointer.
---
 .../costfunction/term/TermBase-impl.hpp       | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
index aa9f83b..e0373fe 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
@@ -154,29 +154,26 @@ void TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadTimeActivation(c
     boost::property_tree::ptree pt;
     boost::property_tree::read_info(filename, pt);
 
-    try
-    {
-        std::string activationKind = pt.get<std::string>(termName + ".time_activation" + ".kind");
-        boost::algorithm::to_lower(activationKind);
-        std::shared_ptr<ct::core::tpl::ActivationBase<SCALAR_EVAL>> c_i;
-        CT_LOADABLE_ACTIVATIONS(SCALAR_EVAL);
-        c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
-        if (!c_i)
-        {
-            throw std::runtime_error("Activation type \"" + activationKind + "\" not supported");
-        }
-        else
-        {
-            c_i_ = c_i;
-            if (verbose)
-                c_i_->printInfo();
-        }
-    } catch (std::exception& e)
+    boost::optional<std::string> kind = pt.get_optional<std::string>(termName + ".time_activation" + ".kind");
+    if (!kind)
     {
         if (verbose)
-            std::cout << "TermBase: encountered exception while loading TimeActivation." << std::endl;
+            std::cout << "TermBase: no TimeActivation specified." << std::endl;
         return;
     }
+
+    std::string activationKind = *kind;
+    boost::algorithm::to_lower(activationKind);
+    std::shared_ptr<ct::core::tpl::ActivationBase<SCALAR_EVAL>> c_i;
+    CT_LOADABLE_ACTIVATIONS(SCALAR_EVAL);
+    if (!c_i)
+    {
+        throw std::runtime_error("Activation type \"" + activationKind + "\" not supported");
+    }
+    c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
+    c_i_ = c_i;
+    if (verbose)
+        c_i_->printInfo();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
-- 
2.43.0


From 6747258c85cef950f619e93e9e777370ab8eea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 35/97] fix: activate the bounds of a barrier activation loaded
 from file

The constructor used for loading leaves both bounds inactive and loading never
activated them, so a loaded barrier was always zero.
---
 .../include/ct/core/common/activations/BarrierActivation.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
index ddd2e60..8c05150 100644
--- a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
@@ -58,6 +58,7 @@ public:
         {
             // if there is no or a wrongly specified upper bound
             ub_ = pt.get<SCALAR>(termName + ".upper_bound");
+            ub_active_ = true;
         } catch (std::exception& e)
         {
             // we set the upper bound inactive
@@ -69,6 +70,7 @@ public:
         {
             // if there is no or a wrongly specified lower bound
             lb_ = pt.get<SCALAR>(termName + ".lower_bound");
+            lb_active_ = true;
         } catch (std::exception& e)
         {
             // we set the lower bound inactive
-- 
2.43.0


From 2a80af81da6751bba716dd42690e27d00c89c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 36/97] fix: find the name of quadratic and mixed terms in the
 configuration file

The trailing dot made the lookup fail always.
---
 .../include/ct/optcon/costfunction/term/TermMixed-impl.hpp      | 2 +-
 .../include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
index 8d1df09..f65b3bf 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
@@ -148,7 +148,7 @@ void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(cons
     } catch (...)
     {
     }
-    this->name_ = pt.get<std::string>(termName + ".name.", termName);
+    this->name_ = pt.get<std::string>(termName + ".name", termName);
 
     loadMatrixCF(filename, "P", P_, termName);
     loadMatrixCF(filename, "x_des", x_ref_, termName);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
index 827d088..582db55 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
@@ -203,7 +203,7 @@ void TermQuadratic<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(
     } catch (...)
     {
     }
-    this->name_ = pt.get<std::string>(termName + ".name.", termName);
+    this->name_ = pt.get<std::string>(termName + ".name", termName);
 
     loadMatrixCF(filename, "Q", Q_, termName);
     loadMatrixCF(filename, "R", R_, termName);
-- 
2.43.0


From 72ee2a7d3002ffe80181f74766bf7b6d91d052c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 37/97] fix: initialise the constant of a linear term loaded
 from file

The default constructor left it undefined and loading does not set it.
---
 .../include/ct/optcon/costfunction/term/TermLinear-impl.hpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
index dfd971d..77f1a28 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
@@ -32,6 +32,9 @@ TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::clone() const
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermLinear()
 {
+    a_.setZero();  // default values
+    b_.setZero();
+    c_ = SCALAR_EVAL(0.0);
 }
 
 
-- 
2.43.0


From b6ba21b54d5f4295f50bffd7efd0f3d56ee558fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 38/97] fix: apply the time activation of an intermediate term
 once

eval() already contains the activation; the cost was scaled by its square while
the derivatives were scaled by the activation itself.
---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 3b79d02..9c2be86 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -317,7 +317,7 @@ SCALAR CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::evaluateIntermedia
         {
             continue;
         }
-        y += it->computeActivation(this->t_) * it->eval(this->x_, this->u_, this->t_);
+        y += it->eval(this->x_, this->u_, this->t_);
     }
 
     return y;
-- 
2.43.0


From a3b4b9b645a59d19cfc45898cefcb69d7e91abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:29 +0000
Subject: [PATCH 39/97] fix: report a configuration file that fails while the
 name of a term is read

The failure was swallowed and the term silently lost its name.
---
 .../include/ct/optcon/costfunction/term/TermMixed-impl.hpp | 7 +------
 .../ct/optcon/costfunction/term/TermQuadratic-impl.hpp     | 7 +------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
index f65b3bf..1f725e0 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
@@ -142,12 +142,7 @@ void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(cons
     bool verbose)
 {
     boost::property_tree::ptree pt;
-    try
-    {
-        boost::property_tree::read_info(filename, pt);
-    } catch (...)
-    {
-    }
+    boost::property_tree::read_info(filename, pt);
     this->name_ = pt.get<std::string>(termName + ".name", termName);
 
     loadMatrixCF(filename, "P", P_, termName);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
index 582db55..07e1d4f 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
@@ -197,12 +197,7 @@ void TermQuadratic<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(
     bool verbose)
 {
     boost::property_tree::ptree pt;
-    try
-    {
-        boost::property_tree::read_info(filename, pt);
-    } catch (...)
-    {
-    }
+    boost::property_tree::read_info(filename, pt);
     this->name_ = pt.get<std::string>(termName + ".name", termName);
 
     loadMatrixCF(filename, "Q", Q_, termName);
-- 
2.43.0


From 6050a30b7d6a6317940e5ff4e930005ed57c17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:56 +0000
Subject: [PATCH 40/97] fix: SteadyStateKalmanFilter::predict hands the time
 step to the system model

The calls did not match the SystemModelBase interface, so the filter could not be
compiled.
---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index a0d1c6c..3a82558 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -38,8 +38,8 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::predic
     const ct::core::Time& dt,
     const ct::core::Time& t) -> const state_vector_t&
 {
-    A_ = this->f_->computeDerivativeState(this->x_est_, u, t);
-    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, t);
+    A_ = this->f_->computeDerivativeState(this->x_est_, u, dt, t);
+    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, dt, t);
     return this->x_est_;
 }
 
-- 
2.43.0


From 0ee8c816c3ea553cc7addf77cc19e9fd4b6a0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:57 +0000
Subject: [PATCH 41/97] fix: UnscentedKalmanFilter with fewer outputs than
 states

The predicted measurement was returned as a state vector, which does not compile
unless both have the same dimension.
---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 +-
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 2e5dfb5..9ef2f0a 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -264,7 +264,7 @@ void UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computeS
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
 template <size_t DIM>
 auto UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computePredictionFromSigmaPoints(
-    const SigmaPoints<DIM>& sigmaPoints) -> state_vector_t
+    const SigmaPoints<DIM>& sigmaPoints) -> Eigen::Matrix<SCALAR, DIM, 1>
 {
     // Use efficient matrix x vector computation
     return sigmaPoints * sigmaWeights_m_;
diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
index bffac4c..05f525d 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
@@ -149,7 +149,7 @@ public:
 
     //! Make a prediction based on sigma points.
     template <size_t DIM>
-    state_vector_t computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
+    Eigen::Matrix<SCALAR, DIM, 1> computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
 
 private:
     state_matrix_t P_;                                          //! Covariance matrix.
-- 
2.43.0


From bb228231fe26700b75ecaea9f4ce4ca904b33bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 42/97] fix: compute the weights of the UnscentedKalmanFilter

computeWeights() was never called: weights and spread of the sigma points were
uninitialised memory.
---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 9ef2f0a..c7d8903 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -62,6 +62,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
     const ct::core::StateMatrix<STATE_DIM, SCALAR>& P0)
     : Base(f, h, x0), alpha_(alpha), beta_(beta), kappa_(kappa), P_(P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
@@ -75,6 +76,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
       kappa_(ukf_settings.kappa),
       P_(ukf_settings.P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
-- 
2.43.0


From cdefb9baa3a55d96a92e467fc5a66e821a00e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 43/97] fix: UnscentedKalmanFilter::update draws its sigma
 points from the current estimate

It used those left over from the last prediction: stale ones for a second
measurement or after setEstimate(), uninitialised ones before any prediction.
---
 .../include/ct/optcon/filter/UnscentedKalmanFilter-impl.h     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index c7d8903..a52fdf9 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -102,6 +102,10 @@ auto UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update(c
 {
     SigmaPoints<OUTPUT_DIM> sigmaMeasurementPoints;
 
+    // The sigma points have to represent the current estimate, also if it was set or updated since the last prediction
+    if (!computeSigmaPoints())
+        throw std::runtime_error("UnscentedKalmanFilter : Numerical error.");
+
     // Predict measurement (and corresponding sigma points)
     ct::core::OutputVector<OUTPUT_DIM, SCALAR> y = this->computeMeasurementPrediction(sigmaMeasurementPoints, t);
 
-- 
2.43.0


From aecd66c78ac4caf8a5ac176f7480bfc886163572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 44/97] fix: ExtendedKalmanFilter::update evaluates the
 measurement model at the measurement time

The derivatives were taken at t, the predicted measurement at time zero.
---
 ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
index 743c12b..d99261c 100644
--- a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
@@ -64,7 +64,7 @@ auto ExtendedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update(co
         P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + dHdw * (R_)*dHdw.transpose()).inverse();
 
     // STEP 3 - state estimate correction
-    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_));
+    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_, t));
 
     // STEP 4 - covariance matrix correction
     P_ -= (K * dHdx * P_).eval();
-- 
2.43.0


From 1104adacb80d768d104f314bdc754e15cd53a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 45/97] fix: a failed ExtendedKalmanFilter::predict leaves the
 filter unchanged

The covariance was predicted before the system model could fail, so a repeated
prediction propagated it twice.
---
 .../include/ct/optcon/filter/ExtendedKalmanFilter-impl.h   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
index d99261c..e065b8e 100644
--- a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
@@ -40,12 +40,13 @@ auto ExtendedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::predict(c
     state_matrix_t dFdx = this->f_->computeDerivativeState(this->x_est_, u, dt, t);
     state_matrix_t dFdv = this->f_->computeDerivativeNoise(this->x_est_, u, dt, t);
 
+    // STEP 2 - compute state prediction (based on last state esimate but current control input)
+    const state_vector_t x_pred = this->f_->computeDynamics(this->x_est_, u, dt, t);
+
     // compute covariance update
     P_ = (dFdx * P_ * dFdx.transpose()) + dFdv * (dt * Q_) * dFdv.transpose();
 
-    // STEP 2 - compute state prediction (based on last state esimate but current control input)
-
-    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, dt, t);
+    this->x_est_ = x_pred;
 
     return this->x_est_;
 }
-- 
2.43.0


From 7476d3ebd4209e28ed12627f8bd0691bcf3c2202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 46/97] fix: a failed UnscentedKalmanFilter::predict leaves the
 filter unchanged

---
 .../include/ct/optcon/filter/UnscentedKalmanFilter-impl.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index a52fdf9..91ca483 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -87,10 +87,12 @@ auto UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::predict(
     if (!computeSigmaPoints())
         throw std::runtime_error("UnscentedKalmanFilter : Numerical error.");
 
-    this->x_est_ = computeStatePrediction(u, dt, t);
+    const state_vector_t x_pred = computeStatePrediction(u, dt, t);
 
     computeCovarianceFromSigmaPoints<STATE_DIM>(
-        this->x_est_, sigmaStatePoints_, this->f_->computeDerivativeNoise(this->x_est_, u, dt, t), P_);
+        x_pred, sigmaStatePoints_, this->f_->computeDerivativeNoise(x_pred, u, dt, t), P_);
+
+    this->x_est_ = x_pred;
 
     return this->x_est_;
 }
-- 
2.43.0


From 9f45ea627c6b654b77f9749fc38f5e2f6707f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 47/97] fix: CTSystemModel linearizes at the time of the
 prediction

The time index was truncated, so that rounding of t / dt (0.3 / 0.1, for example)
linearized a time-varying system one step too early.
---
 ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h b/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
index d566c98..a0f5e2f 100644
--- a/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
@@ -51,7 +51,7 @@ auto CTSystemModel<STATE_DIM, CONTROL_DIM, SCALAR>::computeDerivativeState(const
 
     sensApprox_->setTimeDiscretization(dt);
 
-    sensApprox_->getAandB(state, u, state, int(t / dt), 1, A, Btemp);
+    sensApprox_->getAandB(state, u, state, static_cast<int>(std::lround(t / dt)), 1, A, Btemp);
     return A;
 }
 
-- 
2.43.0


From 890febd4f97cc71afbda95a69efab8e81a4b01c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 48/97] fix: copy constructor of InputDisturbedSystem copies
 its base from the other object

It initialised the base class with itself, which is undefined behaviour.
---
 ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
index c73e369..605225d 100644
--- a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
@@ -18,7 +18,7 @@ InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(const InputDisturbedSystem& other)
-    : Base(*this), system_(other.system_->clone())
+    : Base(other), system_(other.system_->clone())
 {
 }
 
-- 
2.43.0


From 047ccc092112fb54b25aa2e90f4bb799fb743027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 49/97] fix: copy a DisturbedSystemController without nominal
 controller

---
 .../include/ct/optcon/filter/DisturbedSystemController-impl.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
index c4b6c1d..6a3fdd1 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
@@ -18,7 +18,7 @@ DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSy
 template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR>
 DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSystemController(
     const DisturbedSystemController& other)
-    : controller_(other.controller_->clone())
+    : controller_(other.controller_ ? other.controller_->clone() : nullptr)
 {
 }
 
-- 
2.43.0


From 9b5fafa9f2be0c2582b8db51a0cf602bb3dba05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 50/97] fix: Tustin approximation uses half of the time step on
 each side

(I - dt A)^-1 (I + dt A) approximates the transition over two time steps.
---
 .../core/integration/sensitivity/SensitivityApproximation.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index 30ae591..ca4336f 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -150,10 +150,10 @@ public:
 
                 // front derivatives
                 linearSystem_->getDerivatives(Ac_front, Bc_front, x, u, n * settings_.dt_);
-                Ac_front *= settings_.dt_;
+                Ac_front *= 0.5 * settings_.dt_;
 
                 state_matrix_t Ac_back =
-                    settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
+                    0.5 * settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
 
 
                 //! tustin approximation
-- 
2.43.0


From 418ed85b3098a985670ea9603cf29498e827c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:11 +0000
Subject: [PATCH 51/97] fix: a failed SteadyStateKalmanFilter::predict leaves
 the filter unchanged

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index 3a82558..ad7365e 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -38,8 +38,9 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::predic
     const ct::core::Time& dt,
     const ct::core::Time& t) -> const state_vector_t&
 {
-    A_ = this->f_->computeDerivativeState(this->x_est_, u, dt, t);
+    const state_matrix_t A = this->f_->computeDerivativeState(this->x_est_, u, dt, t);
     this->x_est_ = this->f_->computeDynamics(this->x_est_, u, dt, t);
+    A_ = A;
     return this->x_est_;
 }
 
-- 
2.43.0


From f921c06a2ac0913d7c1926ee59367bca659e2620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 52/97] fix: KillIntegrationEventHandler overrides the methods
 of EventHandler

Its signatures did not match those of the base class, so that it could not be
instantiated.
---
 .../integration/EventHandlers/KillIntegrationEventHandler.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
index da97fa9..ec9c5c1 100644
--- a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
+++ b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
@@ -22,7 +22,7 @@ template <size_t STATE_DIM>
 class KillIntegrationEventHandler : public EventHandler<STATE_DIM>
 {
 public:
-    typedef Eigen::Matrix<double, STATE_DIM, 1> State_T;
+    typedef ct::core::StateVector<STATE_DIM> State_T;
 
     //! default constructor
     /*!
-- 
2.43.0


From 12d0cafb6139f0664b7388bb6f84a9e4701876f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 53/97] fix: the kill flag of KillIntegrationEventHandler is
 atomic

It is set while the integration is running, i.e. by another thread.
---
 .../integration/EventHandlers/KillIntegrationEventHandler.h   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
index ec9c5c1..a3c5493 100644
--- a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
+++ b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
@@ -5,6 +5,8 @@ Licensed under the BSD-2 license (see LICENSE file in main directory)
 
 #pragma once
 
+#include <atomic>
+
 #include <ct/core/integration/EventHandler.h>
 
 namespace ct {
@@ -53,7 +55,7 @@ public:
     //! resets kill flag to false
     virtual void reset() override { resetEvent(); };
 private:
-    bool killIntegration_;  //! kill flag
+    std::atomic<bool> killIntegration_;  //! kill flag, set from outside of the integrating thread
 };
 
 }  // namespace core
-- 
2.43.0


From 8b57f6b49c34a7fb53ce05541f5f4b0ad483a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 54/97] fix: error tolerances set on an Integrator take effect

They were stored after the variable step stepper had been built with the default
ones and never used.
---
 .../ct/core/integration/internal/StepperBase.h       |  2 +-
 .../ct/core/integration/internal/SteppersODEInt.h    | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/internal/StepperBase.h b/ct_core/include/ct/core/integration/internal/StepperBase.h
index ba57e3c..ccd9400 100644
--- a/ct_core/include/ct/core/integration/internal/StepperBase.h
+++ b/ct_core/include/ct/core/integration/internal/StepperBase.h
@@ -171,7 +171,7 @@ public:
      * @param[in]  absErrTol  The absolute error tolerance
      * @param[in]  relErrTol  The relative error tolerance
      */
-    void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
     {
         absErrTol_ = absErrTol;
         relErrTol_ = relErrTol;
diff --git a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
index 731baa6..10e14b8 100644
--- a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
+++ b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
@@ -118,6 +118,12 @@ public:
         stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
@@ -175,6 +181,12 @@ public:
         stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
-- 
2.43.0


From bda5a196b4dfbaa3f8053c2824a18532e8f38f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 55/97] fix: Integrator::changeIntegrationType refuses types it
 does not know

Once a stepper existed, an unknown type was accepted silently and the old stepper
remained in use.
---
 ct_core/include/ct/core/integration/Integrator-impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ct_core/include/ct/core/integration/Integrator-impl.h b/ct_core/include/ct/core/integration/Integrator-impl.h
index 1307886..21af68e 100644
--- a/ct_core/include/ct/core/integration/Integrator-impl.h
+++ b/ct_core/include/ct/core/integration/Integrator-impl.h
@@ -32,11 +32,16 @@ Integrator<STATE_DIM, SCALAR>::Integrator(const std::shared_ptr<System<STATE_DIM
 template <size_t STATE_DIM, typename SCALAR>
 void Integrator<STATE_DIM, SCALAR>::changeIntegrationType(const IntegrationType& intType)
 {
+    const auto previousStepper = integratorStepper_;
+    integratorStepper_.reset();
     initializeCTSteppers(intType);
     initializeAdaptiveSteppers(intType);
     initializeODEIntSteppers(intType);
     if (!integratorStepper_)
+    {
+        integratorStepper_ = previousStepper;
         throw std::runtime_error("Unknown integration type");
+    }
 }
 
 
-- 
2.43.0


From a517178441eb17a2d67b5f396183c8fba87eae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 56/97] fix: IntegratorSymplectic calls its event handlers

Handlers that are not interested in sub-steps were neither called nor reset, e.g.
a step limit never became effective.
---
 .../include/ct/core/integration/IntegratorSymplectic-impl.h   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 7137914..67d9667 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -37,6 +37,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     StateVectorArray<POS_DIM + VEL_DIM, SCALAR>& stateTrajectory,
     tpl::TimeArray<SCALAR>& timeTrajectory)
 {
+    reset();
     pair_t xPair;
     xPair.first = state.head(POS_DIM);
     xPair.second = state.tail(VEL_DIM);
@@ -54,6 +55,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
         time += dt;
         stateTrajectory.push_back(state);
         timeTrajectory.push_back(time);
+        observer_.observe(state, time);
     }
 }
 
@@ -64,6 +66,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     size_t numSteps,
     SCALAR dt)
 {
+    reset();
     pair_t xPair;
     xPair.first = state.head(POS_DIM);
     xPair.second = state.tail(VEL_DIM);
@@ -76,6 +79,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
         state.tail(VEL_DIM) = xPair.second;
         observer_.observeInternal(state, time);
         time += dt;
+        observer_.observe(state, time);
     }
 }
 
-- 
2.43.0


From 321cf80a0d1fc2b50148ac4bafee62e6fa0ff159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 57/97] fix: IntegratorSymplectic returns the trajectory of
 this call only

It appended to whatever the containers held, unlike Integrator.
---
 ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 67d9667..40df38a 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -42,6 +42,8 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     xPair.first = state.head(POS_DIM);
     xPair.second = state.tail(VEL_DIM);
     SCALAR time = startTime;
+    stateTrajectory.clear();
+    timeTrajectory.clear();
     stateTrajectory.push_back(state);
     timeTrajectory.push_back(time);
 
-- 
2.43.0


From 77c9ba039b646752ec87a9711618c54caa4ca03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 58/97] fix: sub-steps of IntegratorSymplectic are reported at
 their start

The state after the step was reported together with the time before it, and the
sensitivity integrator, which linearises about the reported states, used the wrong
ones.
---
 .../include/ct/core/integration/IntegratorSymplectic-impl.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 40df38a..782fc51 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -51,9 +51,9 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     {
         xCached_ = state;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
+        observer_.observeInternal(state, time);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
         time += dt;
         stateTrajectory.push_back(state);
         timeTrajectory.push_back(time);
@@ -77,9 +77,9 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     {
         xCached_ = state;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
+        observer_.observeInternal(state, time);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
         time += dt;
         observer_.observe(state, time);
     }
-- 
2.43.0


From 9275c2b8c002056ca1810c0544bc9dcc1dd83483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 59/97] fix: SymplecticSystem keeps the last control action

getLastControlAction() returned uninitialised memory during symplectic integration;
the sub-step recorder stored it and the sensitivity integrator linearised about it.
---
 .../systems/continuous_time/ControlledSystem.h     |  1 +
 .../systems/continuous_time/SymplecticSystem.h     | 14 ++++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h b/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h
index 86eaec3..6a420fa 100644
--- a/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h
@@ -59,6 +59,7 @@ public:
     ControlledSystem(const SYSTEM_TYPE& type = SYSTEM_TYPE::GENERAL)
         : System<STATE_DIM, SCALAR>(type), controller_(nullptr)
     {
+        controlAction_.setZero();
     }
 
     //! constructor
diff --git a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
index 5233ea0..9e3e510 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
@@ -91,13 +91,12 @@ public:
         const StateVector<VEL_DIM, SCALAR>& v,
         StateVector<POS_DIM, SCALAR>& pDot)
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, 0.0, controlAction);
+            this->controller_->computeControl(x, 0.0, this->controlAction_);
         else
-            controlAction.setZero();
+            this->controlAction_.setZero();
 
-        computePdot(x, v, controlAction, pDot);
+        computePdot(x, v, this->controlAction_, pDot);
     }
 
     /**
@@ -111,13 +110,12 @@ public:
         const StateVector<POS_DIM, SCALAR>& p,
         StateVector<VEL_DIM, SCALAR>& vDot)
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, 0.0, controlAction);
+            this->controller_->computeControl(x, 0.0, this->controlAction_);
         else
-            controlAction.setZero();
+            this->controlAction_.setZero();
 
-        computeVdot(x, p, controlAction, vDot);
+        computeVdot(x, p, this->controlAction_, vDot);
     }
 
 
-- 
2.43.0


From 2100486b512a120b59c80f62f8268000d4a8726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:01 +0000
Subject: [PATCH 60/97] fix: SensitivityIntegrator evaluates the linear system
 at the time of the sub-step

With more than one sub-step per stage, the time neither started at the stage nor
advanced.
---
 .../ct/core/integration/sensitivity/SensitivityIntegrator.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
index d73e7fc..f80950c 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
@@ -144,7 +144,7 @@ public:
 
         for (size_t i = 0; i < numSteps; ++i)
         {
-            stepper_->do_step(dFdxDot_, AB, k * dt_, dt_);
+            stepper_->do_step(dFdxDot_, AB, (k * numSteps + i) * dt_, dt_);
         }
 
         A = AB.template leftCols<STATE_DIM>();
-- 
2.43.0


From 2bf2317a4a6fd1fb501ece914609cf42379a71b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:01 +0000
Subject: [PATCH 61/97] fix: SystemDiscretizer can be cloned

The copy constructor cloned its own, not yet existing system and created no
controller.
---
 .../core/systems/discrete_time/SystemDiscretizer-impl.h  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index 2aae2ae..634465e 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -56,9 +56,14 @@ SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::~SystemDiscreti
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
 SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::SystemDiscretizer(const SystemDiscretizer& arg)
-    : dt_(arg.dt_), K_sim_(arg.K_sim_), dt_sim_(arg.dt_sim_), integratorType_(arg.integratorType_)
+    : dt_(arg.dt_),
+      K_sim_(arg.K_sim_),
+      dt_sim_(arg.dt_sim_),
+      integratorType_(arg.integratorType_),
+      cont_constant_controller_(new ConstantController<STATE_DIM, CONTROL_DIM, SCALAR>())
 {
-    changeContinuousTimeSystem(ContinuousSystemPtr(cont_time_system_->clone()));
+    if (arg.cont_time_system_)
+        changeContinuousTimeSystem(arg.cont_time_system_);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
-- 
2.43.0


From 75f62495ed2b5ffea4a3df39a8469efe5d2b1d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:01 +0000
Subject: [PATCH 62/97] fix: SystemDiscretizer::setIntegrationType creates the
 integrator of the new type

The old one remained in use, or none existed after a symplectic one.
---
 .../ct/core/systems/discrete_time/SystemDiscretizer-impl.h      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index 634465e..fbbe7b6 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -86,6 +86,8 @@ void SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::setIntegra
     const ct::core::IntegrationType& integratorType)
 {
     integratorType_ = integratorType;
+    if (cont_time_system_)
+        initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
-- 
2.43.0


From 73dd9c98dbf002206a9cfc6d11793b9cbac8a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:01 +0000
Subject: [PATCH 63/97] fix: copies of an Integrator are independent of the
 original

The functions handed to the stepper captured the original object, so that a copy
worked on its observer and system, even after it was destroyed, and both shared the
scratch memory of the stepper.
---
 .../ct/core/integration/Integrator-impl.h     | 19 +++++++++++++++++++
 .../include/ct/core/integration/Integrator.h  |  4 ++++
 .../ct/core/integration/Observer-impl.h       | 12 ++++++++++++
 .../include/ct/core/integration/Observer.h    |  4 ++++
 .../core/integration/internal/StepperBase.h   |  2 ++
 .../ct/core/integration/internal/SteppersCT.h |  2 ++
 .../integration/internal/SteppersODEInt.h     | 11 +++++++++++
 7 files changed, 54 insertions(+)

diff --git a/ct_core/include/ct/core/integration/Integrator-impl.h b/ct_core/include/ct/core/integration/Integrator-impl.h
index 21af68e..4d34149 100644
--- a/ct_core/include/ct/core/integration/Integrator-impl.h
+++ b/ct_core/include/ct/core/integration/Integrator-impl.h
@@ -29,6 +29,25 @@ Integrator<STATE_DIM, SCALAR>::Integrator(const std::shared_ptr<System<STATE_DIM
     setupSystem();
 }
 
+template <size_t STATE_DIM, typename SCALAR>
+Integrator<STATE_DIM, SCALAR>::Integrator(const Integrator& other)
+    : system_(other.system_), integratorStepper_(other.integratorStepper_->clone()), observer_(other.observer_)
+{
+    setupSystem();
+}
+
+template <size_t STATE_DIM, typename SCALAR>
+Integrator<STATE_DIM, SCALAR>& Integrator<STATE_DIM, SCALAR>::operator=(const Integrator& other)
+{
+    if (this != &other)
+    {
+        system_ = other.system_;
+        integratorStepper_.reset(other.integratorStepper_->clone());
+        observer_ = other.observer_;
+    }
+    return *this;
+}
+
 template <size_t STATE_DIM, typename SCALAR>
 void Integrator<STATE_DIM, SCALAR>::changeIntegrationType(const IntegrationType& intType)
 {
diff --git a/ct_core/include/ct/core/integration/Integrator.h b/ct_core/include/ct/core/integration/Integrator.h
index 4f37d89..bc6c431 100644
--- a/ct_core/include/ct/core/integration/Integrator.h
+++ b/ct_core/include/ct/core/integration/Integrator.h
@@ -83,6 +83,10 @@ public:
         const IntegrationType& intType,
         const EventHandlerPtr& eventHandler);
 
+    //! a copy integrates the same system with the same event handlers, but has a stepper and an observer of its own
+    Integrator(const Integrator& other);
+    Integrator& operator=(const Integrator& other);
+
     /**
 	 * @brief      Changes the integration type
 	 *
diff --git a/ct_core/include/ct/core/integration/Observer-impl.h b/ct_core/include/ct/core/integration/Observer-impl.h
index 0e06cb5..ed916c6 100644
--- a/ct_core/include/ct/core/integration/Observer-impl.h
+++ b/ct_core/include/ct/core/integration/Observer-impl.h
@@ -20,6 +20,18 @@ Observer<STATE_DIM, SCALAR>::Observer(const EventHandlerPtrVector& eventHandlers
     eventHandlers_ = eventHandlers;
 }
 
+template <size_t STATE_DIM, typename SCALAR>
+Observer<STATE_DIM, SCALAR>::Observer(const Observer& other) : Observer(other.eventHandlers_)
+{
+}
+
+template <size_t STATE_DIM, typename SCALAR>
+Observer<STATE_DIM, SCALAR>& Observer<STATE_DIM, SCALAR>::operator=(const Observer& other)
+{
+    eventHandlers_ = other.eventHandlers_;
+    return *this;
+}
+
 template <size_t STATE_DIM, typename SCALAR>
 void Observer<STATE_DIM, SCALAR>::reset()
 {
diff --git a/ct_core/include/ct/core/integration/Observer.h b/ct_core/include/ct/core/integration/Observer.h
index 192f3f1..cbbdd3e 100644
--- a/ct_core/include/ct/core/integration/Observer.h
+++ b/ct_core/include/ct/core/integration/Observer.h
@@ -41,6 +41,10 @@ public:
 	 */
     Observer(const EventHandlerPtrVector& eventHandlers);
 
+    //! copies share the event handlers, but log for themselves
+    Observer(const Observer& other);
+    Observer& operator=(const Observer& other);
+
     //! reset the observer
     void reset();
 
diff --git a/ct_core/include/ct/core/integration/internal/StepperBase.h b/ct_core/include/ct/core/integration/internal/StepperBase.h
index ccd9400..724a99b 100644
--- a/ct_core/include/ct/core/integration/internal/StepperBase.h
+++ b/ct_core/include/ct/core/integration/internal/StepperBase.h
@@ -24,6 +24,8 @@ public:
 
     StepperBase() : absErrTol_(SCALAR(1e-8)), relErrTol_(SCALAR(1e-8)) {}
     virtual ~StepperBase() {}
+    //! deep copy
+    virtual StepperBase<MATRIX, SCALAR>* clone() const = 0;
     /**
      * @brief         Performs numSteps integration steps
      *
diff --git a/ct_core/include/ct/core/integration/internal/SteppersCT.h b/ct_core/include/ct/core/integration/internal/SteppersCT.h
index 0a3fb74..2c3768f 100644
--- a/ct_core/include/ct/core/integration/internal/SteppersCT.h
+++ b/ct_core/include/ct/core/integration/internal/SteppersCT.h
@@ -84,6 +84,7 @@ public:
     EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 
     StepperEulerCT() {}
+    virtual StepperEulerCT<MATRIX, SCALAR>* clone() const override { return new StepperEulerCT(*this); }
 private:
     virtual void do_step(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& stateInOut,
@@ -110,6 +111,7 @@ public:
     EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 
     StepperRK4CT() : oneSixth_(SCALAR(1.0 / 6.0)) {}
+    virtual StepperRK4CT<MATRIX, SCALAR>* clone() const override { return new StepperRK4CT(*this); }
 private:
     virtual void do_step(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& stateInOut,
diff --git a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
index 10e14b8..c1fa036 100644
--- a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
+++ b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
@@ -26,6 +26,7 @@ public:
     EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 
     StepperODEInt() {}
+    virtual StepperODEInt<STEPPER, MATRIX, SCALAR>* clone() const override { return new StepperODEInt(*this); }
     virtual void integrate_n_steps(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
@@ -118,6 +119,11 @@ public:
         stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual StepperODEIntDenseOutput<STEPPER, MATRIX, SCALAR>* clone() const override
+    {
+        return new StepperODEIntDenseOutput(*this);
+    }
+
     virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
     {
         StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
@@ -181,6 +187,11 @@ public:
         stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual StepperODEIntControlled<STEPPER, MATRIX, SCALAR>* clone() const override
+    {
+        return new StepperODEIntControlled(*this);
+    }
+
     virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
     {
         StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
-- 
2.43.0


From 6c493e4cd93e98b222f4eb5e9aa0716165b1884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:40 +0000
Subject: [PATCH 64/97] fix: adding a scalar to a state in the error estimate
 of variable step integrators

The operator multiplied: the error was compared with absTol * relTol * |x| instead of
absTol + relTol * |x|, i.e. 1e-16 by default and zero for a state at rest.
---
 ct_core/include/ct/core/integration/eigenIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/eigenIntegration.h b/ct_core/include/ct/core/integration/eigenIntegration.h
index 6bd13d5..2325892 100644
--- a/ct_core/include/ct/core/integration/eigenIntegration.h
+++ b/ct_core/include/ct/core/integration/eigenIntegration.h
@@ -40,7 +40,7 @@ inline Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtC
     const MatrixBase<D>& m)
 {
     Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtCompileTime, 1> result = m;
-    result *= s;
+    result.array() += s;
     return result;
 }
 
-- 
2.43.0


From 31e36f904f05b86ac23ad0ac2839e5faecfbdbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:22 +0000
Subject: [PATCH 65/97] fix: a copy of an LTISystem keeps the controller

The copy constructor did not copy the base class.
---
 .../include/ct/core/systems/continuous_time/linear/LTISystem.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index d69c064..71dcb39 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -57,7 +57,7 @@ public:
     }
 
     //! copy constructor
-    LTISystem(const LTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    LTISystem(const LTISystem& arg) : Base(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
     //! deep clone
     LTISystem<STATE_DIM, CONTROL_DIM>* clone() const override { return new LTISystem<STATE_DIM, CONTROL_DIM>(*this); }
     virtual ~LTISystem() {}
-- 
2.43.0


From ca2d1a5fe14879d06f7236ecf8981e242ff74799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:22 +0000
Subject: [PATCH 66/97] fix: a copy of a DiscreteControlledSystem has its own
 controller

The copy constructor took a ControlledSystem, hence the implicit one was used and
all copies of a discrete-time system shared one controller.
---
 .../ct/core/systems/discrete_time/DiscreteControlledSystem.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
index 81c216c..ea6e444 100644
--- a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
@@ -68,7 +68,7 @@ public:
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(type), controller_(controller){};
 
     //! copy constructor
-    DiscreteControlledSystem(const ControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
+    DiscreteControlledSystem(const DiscreteControlledSystem& arg)
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(arg)
     {
         if (arg.controller_)
-- 
2.43.0


From 8743934fc373c1d15bcf0b317fcfcf62b569815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:22 +0000
Subject: [PATCH 67/97] fix: a copy of a CostFunctionQuadraticSimple keeps the
 current state and control

The copy constructor did not copy the base class.
---
 .../optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index d85f5d0..7fc6651 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -42,7 +42,8 @@ CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::~CostFunctionQuadra
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::CostFunctionQuadraticSimple(
     const CostFunctionQuadraticSimple& arg)
-    : x_deviation_(arg.x_deviation_),
+    : CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>(arg),
+      x_deviation_(arg.x_deviation_),
       x_nominal_(arg.x_nominal_),
       Q_(arg.Q_),
       u_deviation_(arg.u_deviation_),
-- 
2.43.0


From 38564099b039d5aab5a7adda1de8c8df5fa29ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:22 +0000
Subject: [PATCH 68/97] fix: a copy of a SwitchedLinearConstraintContainer
 keeps the active container

It fell back to the first container while time, state and control were copied.
---
 .../constraint/SwitchedLinearConstraintContainer-impl.h     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index 992e6c3..e515377 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -32,7 +32,13 @@ SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::SwitchedLinea
         switchedLinearConstraintContainers_.emplace_back(linearConstraintContainer->clone());
     }
 
+    // the container which is active in the original
     activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.front();
+    for (size_t i = 0; i < arg.switchedLinearConstraintContainers_.size(); i++)
+    {
+        if (arg.switchedLinearConstraintContainers_[i] == arg.activeLinearConstraintContainer_)
+            activeLinearConstraintContainer_ = switchedLinearConstraintContainers_[i];
+    }
     terminalLinearConstraintContainer_ =
         switchedLinearConstraintContainers_.at(continuousModeSequence_.getFinalPhase());
 }
-- 
2.43.0


From f14d9f154b0571e9d5914842024c69bfd087db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:22 +0000
Subject: [PATCH 69/97] fix: DisturbedSystemController does not print every
 control action

Debug output in the control law, from several threads at once.
---
 .../include/ct/optcon/filter/DisturbedSystemController-impl.h    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
index 6a3fdd1..11f4c80 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
@@ -40,7 +40,6 @@ void DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::comput
 
     controller_->computeControl(state.template head<STATE_DIM>(), t, controlAction);
 
-    std::cout << "DisturbedSystemController computed control: " << controlAction.transpose() << std::endl;
 }
 
 template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From f17428508d24f8974de628d1406e5a2f89caa0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:39 +0000
Subject: [PATCH 70/97] fix: a copy of a SystemDiscretizer keeps the controller
 and the system type

The copy constructor did not copy the base class.
---
 .../ct/core/systems/discrete_time/SystemDiscretizer-impl.h     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index fbbe7b6..bcf1223 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -56,7 +56,8 @@ SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::~SystemDiscreti
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
 SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::SystemDiscretizer(const SystemDiscretizer& arg)
-    : dt_(arg.dt_),
+    : Base(arg),
+      dt_(arg.dt_),
       K_sim_(arg.K_sim_),
       dt_sim_(arg.dt_sim_),
       integratorType_(arg.integratorType_),
-- 
2.43.0


From 4e7069dc503319b29727f85c0d04ca4d44c507cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:53 +0000
Subject: [PATCH 71/97] fix: looking up a time in an empty trajectory does not
 break later look-ups

---
 ct_core/include/ct/core/common/Interpolation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_core/include/ct/core/common/Interpolation.h b/ct_core/include/ct/core/common/Interpolation.h
index 98dd000..5ac0efe 100644
--- a/ct_core/include/ct/core/common/Interpolation.h
+++ b/ct_core/include/ct/core/common/Interpolation.h
@@ -120,6 +120,9 @@ public:
     {
         int index = -1;
 
+        if (timeArray.size() == 0)
+            throw std::runtime_error("Interpolation.h : TimeArray is size 0.");
+
         index_ = std::min(index_, (int)timeArray.size() - 1);
 
         if (timeArray.at(index_) > enquiryTime)
-- 
2.43.0


From c5ea3defce3c606ddacbde26011502bed5f841da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:53 +0000
Subject: [PATCH 72/97] fix: QuantizationNoise keeps a rest for the highest
 index in use

---
 ct_core/include/ct/core/common/QuantizationNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/QuantizationNoise.h b/ct_core/include/ct/core/common/QuantizationNoise.h
index 5af2170..a8b0856 100644
--- a/ct_core/include/ct/core/common/QuantizationNoise.h
+++ b/ct_core/include/ct/core/common/QuantizationNoise.h
@@ -49,7 +49,7 @@ public:
     void noisify(double& value, size_t index = 0)
     {
         if (index >= quantizationRest_.size())
-            quantizationRest_.resize(index, 0);
+            quantizationRest_.resize(index + 1, 0);
 
         double currentValue = value + quantizationRest_[index];
         double nQuantsDouble = currentValue / quantizationInterval_;
-- 
2.43.0


From 6799da35b10effb5edc683e7d4782e840a290647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:53 +0000
Subject: [PATCH 73/97] fix: a PeriodicActivation constructed without an end
 time does not read an uninitialised one

---
 .../include/ct/core/common/activations/PeriodicActivation.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
index 1157cce..787c3dc 100644
--- a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
@@ -2,6 +2,7 @@
 #pragma once
 
 #include <cmath>
+#include <limits>
 
 #include "../activations/ActivationBase.hpp"
 #include <ct/core/internal/traits/TraitSelectorSpecs.h>
@@ -22,7 +23,8 @@ public:
         : active_percentage_(active_percentage),
           period_(period),
           activation_offset_(activation_offset),
-          period_offset_(period_offset)
+          period_offset_(period_offset),
+          t_end_(std::numeric_limits<double>::infinity())
     {
     }
     virtual ~PeriodicActivation() {}
-- 
2.43.0


From 2872f5bb1cf691ba02a6683b6076ef63cf4d225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:53 +0000
Subject: [PATCH 74/97] fix: GNRiccatiSolver computes the whole feedback gain
 of a single-input system with fixedHessianCorrection

---
 .../include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 8f90f0c..8afc997 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -220,10 +220,11 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
         Hi_inverse_[k] = -Hi_[k].template selfadjointView<Eigen::Lower>().llt().solve(ControlMatrix::Identity());
 
         // calculate FB gain update
-        this->L_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * G_[k];
+        // (a plain product: for one control, G is a row vector, which Eigen's selfadjoint product mistakes for a column)
+        this->L_[k].noalias() = Hi_inverse_[k] * G_[k];
 
         // calculate FF update
-        this->lv_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * gv_[k];
+        this->lv_[k].noalias() = Hi_inverse_[k] * gv_[k];
     }
     else
     {
-- 
2.43.0


From 7093ca844e551b8ec7f56c9bf1537381bc7421d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:53 +0000
Subject: [PATCH 75/97] fix: a GNRiccatiSolver constructed with its problem has
 room for the solution

---
 .../include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 8afc997..b1036cc 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -15,6 +15,9 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
 {
     Eigen::initParallel();
     Eigen::setNbThreads(settings_.nThreadsEigen);
+
+    if (lqocProblem)
+        changeNumberOfStages(lqocProblem->getNumberOfStages());
 }
 
 
-- 
2.43.0


From 56eeec0fb5bdad177d04e21865cee7a9dc1ab6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:53 +0000
Subject: [PATCH 76/97] fix: a GNRiccatiSolver constructed with a number of
 stages does not read an uninitialised one

---
 ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index b1036cc..1fe1514 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -22,7 +22,7 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
 
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N)
+GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N) : N_(-1)
 {
     changeNumberOfStages(N);
 }
-- 
2.43.0


From 04e9127408d54945b735758797ba958b7a74037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:53 +0000
Subject: [PATCH 77/97] fix: GNRiccatiSolver can be given a problem again after
 resizing failed

---
 ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 1fe1514..f9509dd 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -111,6 +111,8 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::changeNumberOfStages(int N
     if (N_ == N)
         return;
 
+    N_ = -1;  // not valid until everything is resized
+
     gv_.resize(N);
     G_.resize(N);
 
-- 
2.43.0


From dbd27148ca440e563794cc838d0d39d1082350d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:53 +0000
Subject: [PATCH 78/97] fix: FHDTLQR does not linearize about controls beyond
 the end of the trajectory

---
 ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
index 73f626d..30339c6 100644
--- a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
@@ -43,6 +43,12 @@ void FHDTLQR<STATE_DIM, CONTROL_DIM, SCALAR>::designController(const state_vecto
 {
     size_t N = x_trajectory.size() - 1;
 
+    if (u_trajectory.size() != N)
+    {
+        throw std::runtime_error("Input trajectory does not have correct length. Input trajectory length: " +
+                                 std::to_string(u_trajectory.size()) + ", should be: " + std::to_string(N));
+    }
+
     state_matrix_array_t A;
     control_gain_matrix_array_t B;
 
-- 
2.43.0


From d9a668cef906bbb164922515a577a8ad6ff0a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:53 +0000
Subject: [PATCH 79/97] fix: FHDTLQR linearizes a time-varying system at the
 time of each stage

---
 ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
index 30339c6..31c2d1b 100644
--- a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
@@ -71,8 +71,8 @@ void FHDTLQR<STATE_DIM, CONTROL_DIM, SCALAR>::linearizeModel(const state_vector_
 
     for (int i = 0; i < N; i++)
     {
-        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i]);
-        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i]);
+        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i], i * dt);
+        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i], i * dt);
     }
 }
 
-- 
2.43.0


From 10351e12376d7df646200f67402813f672687cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:51 +0000
Subject: [PATCH 80/97] fix: GNRiccatiSolver does not warn about the inverse
 left by an earlier solve

---
 .../include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index f9509dd..c7c393d 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -190,6 +190,8 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
         else
             Hi_[k] = H_[k];
 
+        Hi_inverse_[k] = -Hi_[k].template selfadjointView<Eigen::Lower>().llt().solve(ControlMatrix::Identity());
+
         if (settings_.recordSmallestEigenvalue)
         {
             // compute eigenvalues with eigenvectors enabled
@@ -222,8 +224,6 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
             }
         }
 
-        Hi_inverse_[k] = -Hi_[k].template selfadjointView<Eigen::Lower>().llt().solve(ControlMatrix::Identity());
-
         // calculate FB gain update
         // (a plain product: for one control, G is a row vector, which Eigen's selfadjoint product mistakes for a column)
         this->L_[k].noalias() = Hi_inverse_[k] * G_[k];
-- 
2.43.0


From d37fc6eb7db74eabb0950c114ad62ce76a2ef2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:22 +0000
Subject: [PATCH 81/97] fix: the numerical derivatives of a cost function leave
 its current state, control and time alone

---
 .../CostFunctionQuadratic-impl.hpp            | 10 +++++----
 .../costfunction/CostFunctionQuadratic.hpp    | 22 +++++++++++++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 9c2be86..a1631a8 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -179,6 +179,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
     control_vector_t u_local;
     SCALAR t_local;
     this->getCurrentStateAndControl(x_local, u_local, t_local);
+    const RestorePoint restorePoint(*this);
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
     for (size_t i = 0; i < STATE_DIM; ++i)
@@ -192,7 +193,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
         x_perturbed(i) = x_ph;
 
         // get evaluation of f(x,u)
-        this->setCurrentStateAndControl(x_perturbed, u_local, t_local);
+        this->setCurrentStateAndControl(x_perturbed, u_local, t_local - this->t_shift_);
         SCALAR dxdt = this->evaluateIntermediate();
 
         if (doubleSidedDerivative_)
@@ -204,7 +205,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
 
             x_perturbed = x_local;
             x_perturbed(i) = x_mh;
-            this->setCurrentStateAndControl(x_perturbed, u_local, t_local);
+            this->setCurrentStateAndControl(x_perturbed, u_local, t_local - this->t_shift_);
             dxdt_low = this->evaluateIntermediate();
             dFdx(i, 0) = (dxdt - dxdt_low) / (dxp + dxm);
         }
@@ -226,6 +227,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
     control_vector_t u_local;
     SCALAR t_local;
     this->getCurrentStateAndControl(x_local, u_local, t_local);
+    const RestorePoint restorePoint(*this);
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
     for (size_t i = 0; i < CONTROL_DIM; ++i)
@@ -239,7 +241,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
         u_perturbed(i) = u_ph;
 
         // get evaluation of f(x,u)
-        this->setCurrentStateAndControl(x_local, u_perturbed, t_local);
+        this->setCurrentStateAndControl(x_local, u_perturbed, t_local - this->t_shift_);
         SCALAR dxdt = this->evaluateIntermediate();
 
         if (doubleSidedDerivative_)
@@ -251,7 +253,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
 
             u_perturbed = u_local;
             u_perturbed(i) = u_mh;
-            this->setCurrentStateAndControl(x_local, u_perturbed, t_local);
+            this->setCurrentStateAndControl(x_local, u_perturbed, t_local - this->t_shift_);
             dxdt_low = this->evaluateIntermediate();
 
             dFdu(i, 0) = (dxdt - dxdt_low) / (dup + dum);
diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic.hpp
index 9952815..0dac850 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic.hpp
@@ -222,6 +222,28 @@ protected:
     //! evaluate terminal analytical control mixed state control derivatives
     control_state_matrix_t stateControlDerivativeTerminalBase();
 
+    //! sets the cost function back to its current state, control and time when it goes out of scope
+    class RestorePoint
+    {
+    public:
+        RestorePoint(CostFunctionQuadratic& costFunction) : costFunction_(costFunction)
+        {
+            costFunction_.getCurrentStateAndControl(x_, u_, t_);
+        }
+
+        ~RestorePoint()
+        {
+            costFunction_.setCurrentStateAndControl(x_, u_, t_ - costFunction_.t_shift_);
+            costFunction_.t_ = t_;
+        }
+
+    private:
+        CostFunctionQuadratic& costFunction_;
+        state_vector_t x_;
+        control_vector_t u_;
+        SCALAR t_;
+    };
+
     //! compute the state derivative by numerical differentiation (can be used for testing)
     state_vector_t stateDerivativeIntermediateNumDiff();
 
-- 
2.43.0


From 98de1da77e3340275c199ff001bbd9600e3464a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:22 +0000
Subject: [PATCH 82/97] fix: CostFunctionQuadraticSimple follows its references
 and time shift from the moment they change

---
 .../CostFunctionQuadraticSimple-impl.hpp           | 14 +++++++++++---
 .../costfunction/CostFunctionQuadraticSimple.hpp   |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index 7fc6651..42217e6 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -30,8 +30,8 @@ CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::CostFunctionQuadrat
     const state_matrix_t& Q_final)
     : x_nominal_(x_nominal), Q_(Q), u_nominal_(u_nominal), R_(R), x_final_(x_final), Q_final_(Q_final)
 {
-    x_deviation_.setZero();
-    u_deviation_.setZero();
+    x_deviation_ = this->x_ - x_nominal_;
+    u_deviation_ = this->u_ - u_nominal_;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
@@ -69,7 +69,7 @@ void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::setCurrentStat
 {
     this->x_ = x;
     this->u_ = u;
-    this->t_ = t;
+    this->t_ = t + this->t_shift_;
 
     this->x_deviation_ = x - x_nominal_;
     this->u_deviation_ = u - u_nominal_;
@@ -144,6 +144,14 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceState(const state_vector_t& x_ref)
 {
     x_nominal_ = x_ref;
+    x_deviation_ = this->x_ - x_nominal_;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
+void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceControl(const control_vector_t& u_ref)
+{
+    u_nominal_ = u_ref;
+    u_deviation_ = this->u_ - u_nominal_;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
index 2b472d2..6c2f629 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
@@ -86,6 +86,8 @@ public:
 
     virtual void updateReferenceState(const state_vector_t& x_ref) override;
 
+    virtual void updateReferenceControl(const control_vector_t& u_ref) override;
+
     virtual void updateFinalState(const state_vector_t& x_final) override;
 
 protected:
-- 
2.43.0


From 15c5a4b277e2cd01a386e53f14737e97560508b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:22 +0000
Subject: [PATCH 83/97] fix: TermMixed, TermQuadMult and TermSmoothAbs follow
 updates of the reference state and control

---
 .../optcon/costfunction/term/TermMixed-impl.hpp   |  8 ++++++++
 .../ct/optcon/costfunction/term/TermMixed.hpp     |  2 ++
 .../costfunction/term/TermQuadMult-impl.hpp       | 15 +++++++++++++++
 .../ct/optcon/costfunction/term/TermQuadMult.hpp  |  3 +++
 .../costfunction/term/TermSmoothAbs-impl.hpp      | 15 +++++++++++++++
 .../ct/optcon/costfunction/term/TermSmoothAbs.hpp |  4 ++++
 6 files changed, 47 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
index 1f725e0..0517af7 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
@@ -162,5 +162,13 @@ void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceStat
 {
     x_ref_ = newRefState;
 }
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
index d9b3bd5..aeb7203 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
@@ -85,6 +85,8 @@ public:
 
     void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
 
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
index 21f347f..029b7c8 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
@@ -185,5 +185,20 @@ void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(c
     }
 }
 
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceState(
+    const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState)
+{
+    x_ref_ = newRefState;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
index b884402..6676776 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
@@ -85,6 +85,9 @@ public:
 
     void loadConfigFile(const std::string& filename, const std::string& termName, bool verbose = false) override;
 
+    void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
+
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
 
 protected:
     template <typename SC>
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
index a78b9e6..4aaf5ac 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
@@ -158,5 +158,20 @@ void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(
         std::cout << "\nRead alpha^2 as " << alphaSquared_ << std::endl;
     }
 }
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceState(
+    const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState)
+{
+    x_ref_ = newRefState;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
index c938096..be6bb5e 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
@@ -80,6 +80,10 @@ public:
         const std::string& termName,
         bool verbose = false) override;  // virtual function for data loading
 
+    void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
+
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
-- 
2.43.0


From a0395d550d574006a0c5c441dbc1c9dfdc1509f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:22 +0000
Subject: [PATCH 84/97] fix: the terminal Jacobians of
 ConstraintContainerAnalytical need the terminal constraints to be initialized

---
 .../ct/optcon/constraint/ConstraintContainerAnalytical-impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
index 237c492..11cbe99 100644
--- a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
@@ -190,7 +190,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::VectorXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparseTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
@@ -211,7 +211,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::MatrixXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
-- 
2.43.0


From 266adb653e52a88c04a5d9a0bbce3ec9959a29f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:22 +0000
Subject: [PATCH 85/97] fix: the constructor of ConstraintContainerAnalytical
 uses the point it is given

---
 .../ct/optcon/constraint/ConstraintContainerAnalytical-impl.h    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
index 11cbe99..e227891 100644
--- a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
@@ -18,6 +18,7 @@ ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::ConstraintContain
     const input_vector_t& u,
     const SCALAR& t)
 {
+    this->setCurrentStateAndControl(x, u, t);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From 32c4c4b972b5048a5a2d7c69d2ad4ef8c20909dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:22 +0000
Subject: [PATCH 86/97] fix: SwitchedLinearConstraintContainer evaluates
 terminal constraints and bounds at the current point

---
 .../optcon/constraint/SwitchedLinearConstraintContainer-impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index e515377..5f2bb31 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -206,6 +206,8 @@ bool SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::initiali
             return false;
         }
     }
+    this->lowerBoundsIntermediate_ = activeLinearConstraintContainer_->getLowerBoundsIntermediate();
+    this->upperBoundsIntermediate_ = activeLinearConstraintContainer_->getUpperBoundsIntermediate();
     return true;
 }
 
@@ -224,6 +226,7 @@ void SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::update()
     auto mode = continuousModeSequence_.getPhaseFromTime(this->t_);
     activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.at(mode);
     activeLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
+    terminalLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
 
     this->lowerBoundsIntermediate_ = activeLinearConstraintContainer_->getLowerBoundsIntermediate();
     this->upperBoundsIntermediate_ = activeLinearConstraintContainer_->getUpperBoundsIntermediate();
-- 
2.43.0


From a6aa491941597c971a6df0478214571859b63453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:12 +0000
Subject: [PATCH 87/97] fix: an MPC iteration with MS_ILQR returns a policy
 around the updated state trajectory

---
 .../include/ct/optcon/nloc/NLOCBackendBase-impl.hpp      | 9 +++++++++
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp     | 3 +++
 .../ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp  | 1 +
 3 files changed, 13 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 5a0ee4a..b6b62fa 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1453,6 +1453,15 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     x_ref_lqr_ += delta_x_ref_lqr_;
 }
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
+void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::centerPolicy()
+{
+    for (int k = 0; k < K_; k++)
+        u_ff_[k] += L_[k] * (x_[k] - x_ref_lqr_[k]);
+
+    x_ref_lqr_ = x_;
+}
+
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::logSummaryToMatlab(
     const std::string& fileName)
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
index 7726909..fc76700 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
@@ -378,6 +378,9 @@ public:
     //! simple full-step update for state and feedforward control (used for MPC-mode!)
     void doFullStepUpdate();
 
+    //! express the policy around the current state trajectory, if no rollout with feedback follows a full step update
+    void centerPolicy();
+
     void logSummaryToMatlab(const std::string& fileName);
 
     const SummaryAllIterations<SCALAR>& getSummary() const;
diff --git a/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp b/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
index 825016d..27dc8c1 100644
--- a/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
@@ -257,6 +257,7 @@ bool MultipleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>:
     //! update solutions
     start = std::chrono::steady_clock::now();
     this->backend_->doFullStepUpdate();
+    this->backend_->centerPolicy();
 
     end = std::chrono::steady_clock::now();
     diff = end - start;
-- 
2.43.0


From aac8fdefcd7dd5151536ddfab7ca2487b5f9a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:19 +0000
Subject: [PATCH 88/97] fix: a rejected line search keeps the defects of the
 trajectory it keeps

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index b6b62fa..aeddc46 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1049,9 +1049,6 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
                       (e_box_norm_ + e_gen_norm_) * settings_.meritFunctionRhoConstraints;
         lowestCostPrevious = lowestCost_;
 
-        resetDefects();
-
-
         if (settings_.lineSearchSettings.debugPrint)
         {
             std::cout << "[LineSearch]: Starting line search." << std::endl;
-- 
2.43.0


From e432a1ad623b2351bc757a59bc0665b16b2e9552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:19 +0000
Subject: [PATCH 89/97] fix: feedback that is already part of the feedforward
 controls is not applied again

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index aeddc46..f2dbc82 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1080,6 +1080,9 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
         }
     }
 
+    // the feedback around the previous trajectory is now part of the feedforward
+    x_ref_lqr_ = x_;
+
     if ((fabs((lowestCostPrevious - lowestCost_) / lowestCostPrevious)) > settings_.min_cost_improvement)
     {
         return true;  //! found better cost
-- 
2.43.0


From b02738716fc73c573ec62ca799e1bdf7e2881c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:19 +0000
Subject: [PATCH 90/97] fix: an iteration starts with a rollout if the shots
 and costs are not those of the current trajectory

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp   | 3 ++-
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp        | 3 +++
 .../ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp     | 6 ++++--
 .../ct/optcon/nloc/algorithms/SingleShooting-impl.hpp       | 2 +-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index f2dbc82..e07834f 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -271,6 +271,7 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     const typename OptConProblem_t::DynamicsPtr_t& dyn)
 {
     systemInterface_->changeNonlinearSystem(dyn);
+    firstRollout_ = true;  // the shots, defects and costs are those of the previous system
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
@@ -1505,7 +1506,7 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
         rolloutSingleShot(settings_.nThreads, 0, u_ff_, x_, x_prev_, xShot_, *this->substepsX_, *this->substepsU_);
     x_prev_ = x_;
     u_ff_prev_ = u_ff_;
-    firstRollout_ = false;
+    firstRollout_ = !success;
     return success;
 }
 
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
index fc76700..ea8a139 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
@@ -330,6 +330,9 @@ public:
     //! check problem for consistency
     void checkProblem();
 
+    //! whether the next iteration has to start by computing shots, defects and costs of the current trajectory
+    bool& rolloutRequired() { return firstRollout_; }
+
     //! return the current iteration number
     size_t& iteration();
 
diff --git a/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp b/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
index 27dc8c1..0d5a540 100644
--- a/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
@@ -54,7 +54,7 @@ void MultipleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>:
     int K_shot = this->backend_->getNumStepsPerShot();
 
     // if first iteration, compute shots and rollout and cost!
-    if (this->backend_->iteration() == 0)
+    if (this->backend_->rolloutRequired())
     {
         this->backend_->rolloutShots(K_shot, K - 1);
     }
@@ -98,11 +98,12 @@ bool MultipleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>:
     auto startFinish = std::chrono::steady_clock::now();
 
     // if first iteration, compute shots and rollout and cost!
-    if (this->backend_->iteration() == 0)
+    if (this->backend_->rolloutRequired())
     {
         this->backend_->rolloutShots(0, K_shot - 1);
         this->backend_->updateCosts();
         this->backend_->computeDefectsNorm();
+        this->backend_->rolloutRequired() = false;
     }
 
 #ifdef MATLAB_FULL_LOG
@@ -258,6 +259,7 @@ bool MultipleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>:
     start = std::chrono::steady_clock::now();
     this->backend_->doFullStepUpdate();
     this->backend_->centerPolicy();
+    this->backend_->rolloutRequired() = true;
 
     end = std::chrono::steady_clock::now();
     diff = end - start;
diff --git a/ct_optcon/include/ct/optcon/nloc/algorithms/SingleShooting-impl.hpp b/ct_optcon/include/ct/optcon/nloc/algorithms/SingleShooting-impl.hpp
index 400a2f8..0115bc6 100644
--- a/ct_optcon/include/ct/optcon/nloc/algorithms/SingleShooting-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/algorithms/SingleShooting-impl.hpp
@@ -60,7 +60,7 @@ bool SingleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::f
     bool debugPrint = this->backend_->getSettings().debugPrint;
 
     // if first iteration, compute shots and rollout and cost!
-    if (this->backend_->iteration() == 0)
+    if (this->backend_->rolloutRequired())
     {
         if (!this->backend_->nominalRollout())
             throw std::runtime_error("Rollout failed. System became unstable");
-- 
2.43.0


From cf1480aceb05f71c5ecf305515148ad1c5d95ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:52 +0000
Subject: [PATCH 91/97] fix: an iteration after a change of the horizon does
 not use defects and costs of the previous horizon

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index e07834f..6c0d037 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -199,6 +199,8 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
 
     t_ = TimeArray(settings_.dt, K_ + 1, 0.0);
 
+    firstRollout_ = true;  // the defects and costs are those of the previous horizon
+
     x_.resize(K_ + 1);
     x_prev_.resize(K_ + 1);
     xShot_.resize(K_ + 1);
-- 
2.43.0


From 9564018a7bde74de8a29c161aa07c89de938d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:26 +0000
Subject: [PATCH 92/97] fix: a new initial state does not discard the defects
 of an iteration that is prepared already

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 6c0d037..3746c15 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -244,7 +244,12 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
         x_.resize(1);
 
     x_[0] = x0;
-    reset();  // since initial state changed, we have to start fresh, i.e. with a rollout
+
+    // since initial state changed, we have to start fresh, i.e. with a rollout. An iteration that is prepared already only
+    // repeats the first shot, hence keep the defects of the others.
+    const StateVectorArray defects = d_;
+    reset();
+    d_ = defects;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-- 
2.43.0


From 002fbc36e27782c80716d1642ebac06cc11264c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 93/97] fix: ControlSimulator reports exceptions which are not
 derived from std::exception

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 0d7dfac..950c5d0 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -147,6 +147,10 @@ protected:
             std::cout << e.what() << std::endl;
             fail(std::make_exception_ptr(std::runtime_error("Control Simulator failed.")));
         }
+        catch (...)
+        {
+            fail(std::make_exception_ptr(std::runtime_error("Control Simulator failed.")));
+        }
     }
 
     //! run by the thread that updates the controller
@@ -172,6 +176,10 @@ protected:
             std::cout << e.what() << std::endl;
             fail(std::make_exception_ptr(std::runtime_error("Control Simulator failed.")));
         }
+        catch (...)
+        {
+            fail(std::make_exception_ptr(std::runtime_error("Control Simulator failed.")));
+        }
     }
 
     //! joins the simulation threads
-- 
2.43.0


From 7abac5e1f056a75c286ec8e3eb0e1a00a37c84c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 94/97] fix: ControlSimulator::simulate ends the system thread
 if the control thread cannot be started

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 950c5d0..8ead39a 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -85,7 +85,14 @@ public:
         sim_start_time_ = std::chrono::steady_clock::now();
         x_ = x0_;
         sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, intType);
-        control_thread_ = std::thread(&ControlSimulator::simulateController, this, duration);
+        try
+        {
+            control_thread_ = std::thread(&ControlSimulator::simulateController, this, duration);
+        } catch (...)
+        {
+            stop_ = true;  // end the thread that was started
+            throw;
+        }
     }
 
     //! waits for the simulation threads to finish, rethrows the first exception which occurred in one of them
-- 
2.43.0


From cdbae3b472ce37349ae8f135b98e8a8019dae0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:50 +0000
Subject: [PATCH 95/97] fix: the rollout of single shooting uses the reference
 of the current feedback law

nominalRollout() took the trajectory of the last line search as reference for the
feedback. That is out of date after an MPC iteration of multiple shooting, hence a
solver which was then configured for a closed-loop single shooting algorithm started
from other controls than a new one.
---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 3746c15..fe34a3e 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1510,8 +1510,9 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, type
 bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::nominalRollout()
 {
     bool success =
-        rolloutSingleShot(settings_.nThreads, 0, u_ff_, x_, x_prev_, xShot_, *this->substepsX_, *this->substepsU_);
+        rolloutSingleShot(settings_.nThreads, 0, u_ff_, x_, x_ref_lqr_, xShot_, *this->substepsX_, *this->substepsU_);
     x_prev_ = x_;
+    x_ref_lqr_ = x_;
     u_ff_prev_ = u_ff_;
     firstRollout_ = !success;
     return success;
-- 
2.43.0


From 89c76aeacc242fdc29d95fcd5466126a8841a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:39 +0000
Subject: [PATCH 96/97] fix: configuring a solver anew changes how its
 sensitivities are computed

OptconContinuousSystemInterface::configure() kept the sensitivities of the kind that was
first configured: another useSensitivityIntegrator only changed their time step, to that of
the other kind, and another timeVaryingDiscretization was ignored.
---
 .../OptconContinuousSystemInterface-impl.h    | 53 ++++++++++++-------
 .../OptconContinuousSystemInterface.h         |  3 ++
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface-impl.h b/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface-impl.h
index 04195f8..37eb6f7 100644
--- a/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface-impl.h
+++ b/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface-impl.h
@@ -74,29 +74,34 @@ void OptconContinuousSystemInterface<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALA
             this->systems_.at(i), this->settings_.dt, this->settings_.integrator, this->settings_.K_sim));
         discretizers_.at(i)->initialize();
 
-        if (this->settings_.useSensitivityIntegrator)
-        {
-            if (this->settings_.integrator != ct::core::IntegrationType::EULER &&
-                this->settings_.integrator != ct::core::IntegrationType::EULERCT &&
-                this->settings_.integrator != ct::core::IntegrationType::RK4 &&
-                this->settings_.integrator != ct::core::IntegrationType::RK4CT &&
-                this->settings_.integrator != ct::core::IntegrationType::EULER_SYM)
-                throw std::runtime_error("sensitivity integrator only available for Euler and RK4 integrators");
-
-            sensitivity_.at(i) = SensitivityPtr(
-                new ct::core::SensitivityIntegrator<STATE_DIM, CONTROL_DIM, STATE_DIM / 2, STATE_DIM / 2, SCALAR>(
-                    this->settings_.getSimulationTimestep(), this->linearSystems_.at(i), this->controller_.at(i),
-                    this->settings_.integrator, this->settings_.timeVaryingDiscretization));
-        }
-        else
-        {
-            sensitivity_.at(i) = SensitivityPtr(
-                new ct::core::SensitivityApproximation<STATE_DIM, CONTROL_DIM, STATE_DIM / 2, STATE_DIM / 2, SCALAR>(
-                    this->settings_.dt, this->linearSystems_.at(i), this->settings_.discretization));
-        }
+        sensitivity_.at(i) = createSensitivity(this->settings_, i);
     }
 }
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
+typename OptconContinuousSystemInterface<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::SensitivityPtr
+OptconContinuousSystemInterface<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::createSensitivity(
+    const settings_t& settings,
+    const size_t i) const
+{
+    if (!settings.useSensitivityIntegrator)
+        return SensitivityPtr(
+            new ct::core::SensitivityApproximation<STATE_DIM, CONTROL_DIM, STATE_DIM / 2, STATE_DIM / 2, SCALAR>(
+                settings.dt, this->linearSystems_.at(i), settings.discretization));
+
+    if (settings.integrator != ct::core::IntegrationType::EULER &&
+        settings.integrator != ct::core::IntegrationType::EULERCT &&
+        settings.integrator != ct::core::IntegrationType::RK4 &&
+        settings.integrator != ct::core::IntegrationType::RK4CT &&
+        settings.integrator != ct::core::IntegrationType::EULER_SYM)
+        throw std::runtime_error("sensitivity integrator only available for Euler and RK4 integrators");
+
+    return SensitivityPtr(
+        new ct::core::SensitivityIntegrator<STATE_DIM, CONTROL_DIM, STATE_DIM / 2, STATE_DIM / 2, SCALAR>(
+            settings.getSimulationTimestep(), this->linearSystems_.at(i), this->controller_.at(i), settings.integrator,
+            settings.timeVaryingDiscretization));
+}
+
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
 void OptconContinuousSystemInterface<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::configure(
     const settings_t& settings)
@@ -110,12 +115,20 @@ void OptconContinuousSystemInterface<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALA
         throw std::runtime_error("Cannot change integration type.");
     }
 
+    // the kind of the sensitivities cannot be changed on the existing ones
+    const bool newSensitivity =
+        settings.useSensitivityIntegrator != this->settings_.useSensitivityIntegrator ||
+        settings.timeVaryingDiscretization != this->settings_.timeVaryingDiscretization;
+
     // update system discretizer with new settings
     for (int i = 0; i < settings.nThreads + 1; i++)
     {
         if (!sensitivity_[i])
             break;
 
+        if (newSensitivity)
+            sensitivity_[i] = createSensitivity(settings, i);
+
         sensitivity_[i]->setApproximation(settings.discretization);
 
         if (settings.useSensitivityIntegrator)
diff --git a/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface.h b/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface.h
index 30fff36..be6f8f0 100644
--- a/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface.h
+++ b/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface.h
@@ -115,6 +115,9 @@ public:
         const size_t threadId) override;
 
 private:
+    //! create the sensitivity which the settings ask for, for the system of one thread
+    SensitivityPtr createSensitivity(const settings_t& settings, const size_t i) const;
+
     std::vector<system_discretizer_ptr_t, Eigen::aligned_allocator<system_discretizer_ptr_t>>
         discretizers_;  //! system discretizers
 
-- 
2.43.0


From a015c3e3a18281e2800e382b3be5a463ba3820ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:56 +0000
Subject: [PATCH 97/97] fix: GNRiccatiSolver refuses a constrained problem
 given on construction

setProblem() refuses problems which the solver cannot handle, the constructor accepted them
and the constraints were ignored.
---
 ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index c7c393d..7a6edcc 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -17,7 +17,7 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
     Eigen::setNbThreads(settings_.nThreadsEigen);
 
     if (lqocProblem)
-        changeNumberOfStages(lqocProblem->getNumberOfStages());
+        setProblemImpl(lqocProblem);
 }
 
 
-- 
2.43.0

