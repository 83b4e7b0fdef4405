From 6d21a1f0ada3097c001646fc6de4935188586890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 01/21] fix: make ForwardList move constructor of an empty list
 self-contained

---
 src/mg/box/ForwardList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/box/ForwardList.h b/src/mg/box/ForwardList.h
index 0331f99..6dc2547 100644
--- a/src/mg/box/ForwardList.h
+++ b/src/mg/box/ForwardList.h
@@ -211,7 +211,7 @@ namespace box {
 	ForwardList<T, myLink>::ForwardList(
 		ForwardList&& aList)
 		: myFirst(aList.myFirst)
-		, myLastLink(aList.myLastLink)
+		, myLastLink(aList.myFirst != nullptr ? aList.myLastLink : &myFirst)
 	{
 		aList.Clear();
 	}
-- 
2.43.0


From 05688b0d242f634a17816ec0ad73b6384535949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 02/21] fix: do not leak a reference when move-assigning shared
 pointers to one object

---
 src/mg/box/SharedPtr.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mg/box/SharedPtr.h b/src/mg/box/SharedPtr.h
index 6bae606..d5389ac 100644
--- a/src/mg/box/SharedPtr.h
+++ b/src/mg/box/SharedPtr.h
@@ -233,7 +233,9 @@ protected:																					\
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
 		myObject = newObj;
-		if (newObj != oldObj)
+		// Two pointers can own one object, each having own reference. Only a self-move
+		// has nothing to drop.
+		if (this != &aOther)
 			PrivUnref(oldObj);
 		return *this;
 	}
@@ -249,8 +251,7 @@ protected:																					\
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
-- 
2.43.0


From 4902c7de5be6a7f5133c0d82aa1f911b1d494de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 03/21] fix: order the last RefCount decrement after the work
 of the other owners

---
 src/mg/box/RefCount.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/box/RefCount.h b/src/mg/box/RefCount.h
index 7728bc9..53757b5 100644
--- a/src/mg/box/RefCount.h
+++ b/src/mg/box/RefCount.h
@@ -57,7 +57,9 @@ namespace box {
 	inline bool
 	RefCount::Dec()
 	{
-		int32_t newValue = myCount.DecrementFetchRelaxed();
+		// Release the changes made by this owner, and acquire the changes of all the
+		// other owners if this one is the last and is going to delete the object.
+		int32_t newValue = myCount.DecrementFetchAcqRel();
 		MG_DEV_ASSERT(newValue >= 0);
 		return newValue == 0;
 	}
-- 
2.43.0


From c24fd6745b81a6a445617ca64f663609d8b73a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 04/21] fix: do not expire instantly a huge or infinite
 condition variable timeout

---
 src/mg/box/ConditionVariable.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index 7f20b11..a6a005e 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -35,8 +35,19 @@ namespace box {
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
-		bool ok = myHandle.wait_for(aMutex.myHandle,
-			std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		bool ok = true;
+		// Too big timeouts (including the infinite one) would overflow inside of the
+		// standard library and would expire instantly. Can't live so long anyway.
+		constexpr uint64_t maxTimeout = 1000ULL * 60 * 60 * 24 * 365 * 100;
+		if (timeout >= maxTimeout)
+		{
+			myHandle.wait(aMutex.myHandle);
+		}
+		else
+		{
+			ok = myHandle.wait_for(aMutex.myHandle,
+				std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		}
 
 		MG_BOX_ASSERT(aMutex.myOwner == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-- 
2.43.0


From 318a46fc2b06a5b30d24d757c747c2785be22299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:22 +0000
Subject: [PATCH 05/21] fix: signal re-send did not sync with the receiver

A send of an already set signal only read the state. The receiver of the
signal then was not ordered after that send, and could miss what was done
before it.
---
 src/mg/box/Signal.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mg/box/Signal.cpp b/src/mg/box/Signal.cpp
index a48b17b..eabb2d2 100644
--- a/src/mg/box/Signal.cpp
+++ b/src/mg/box/Signal.cpp
@@ -26,11 +26,18 @@ namespace box {
 	Signal::Send()
 	{
 		State oldState = SIGNAL_STATE_EMPTY;
+		// The state is always written, even when the signal is
+		// already set. Otherwise there would be nothing for the
+		// receiver to sync with, and it could consume the signal
+		// without seeing what was done by this thread before the
+		// send.
+		while (!myState.CmpExchgWeakRelease(oldState,
+			oldState == SIGNAL_STATE_EMPTY ? SIGNAL_STATE_PROBE : oldState));
 		// If it was already set, then no need to proceed. The
 		// condition variable is signaled by another thread. That
 		// is one of the key features of Signal - lock-free signal
 		// re-send if it is not consumed yet.
-		if (!myState.CmpExchgStrongRelease(oldState, SIGNAL_STATE_PROBE))
+		if (oldState != SIGNAL_STATE_EMPTY)
 			return;
 
 		// The signal must be done under a lock. Consider how the
-- 
2.43.0


From 25fe753c0969ababad495392e2e9a4ef57e5c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:22 +0000
Subject: [PATCH 06/21] fix: AtomicI8 was unsigned

---
 src/mg/box/Atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/box/Atomic.h b/src/mg/box/Atomic.h
index aa8db5f..9b8aee1 100644
--- a/src/mg/box/Atomic.h
+++ b/src/mg/box/Atomic.h
@@ -268,7 +268,7 @@ namespace box {
 	using AtomicU16 = Atomic<uint16_t>;
 	using AtomicU32 = Atomic<uint32_t>;
 	using AtomicU64 = Atomic<uint64_t>;
-	using AtomicI8 = Atomic<uint8_t>;
+	using AtomicI8 = Atomic<int8_t>;
 	using AtomicI16 = Atomic<int16_t>;
 	using AtomicI32 = Atomic<int32_t>;
 	using AtomicI64 = Atomic<int64_t>;
-- 
2.43.0


From a93adcb57f923b470b67c1d3a492fdee732a3972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:20 +0000
Subject: [PATCH 07/21] fix: data race on the mutex owner

---
 src/mg/box/ConditionVariable.cpp | 16 ++++++++--------
 src/mg/box/Mutex.cpp             |  8 ++++----
 src/mg/box/Mutex.h               |  5 +++--
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index a6a005e..99ff9e1 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -11,15 +11,15 @@ namespace box {
 	{
 		MG_BOX_ASSERT(aMutex.IsOwnedByThisThread());
 		MG_BOX_ASSERT(aMutex.myCount == 1);
-		uint32_t tid = aMutex.myOwner;
-		aMutex.myOwner = 0;
+		uint32_t tid = aMutex.myOwner.LoadRelaxed();
+		aMutex.myOwner.StoreRelaxed(0);
 		aMutex.myCount = 0;
 
 		myHandle.wait(aMutex.myHandle);
 
-		MG_BOX_ASSERT(aMutex.myOwner == 0);
+		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-		aMutex.myOwner = tid;
+		aMutex.myOwner.StoreRelaxed(tid);
 		aMutex.myCount = 1;
 	}
 
@@ -30,8 +30,8 @@ namespace box {
 	{
 		MG_BOX_ASSERT(aMutex.IsOwnedByThisThread());
 		MG_BOX_ASSERT(aMutex.myCount == 1);
-		uint32_t tid = aMutex.myOwner;
-		aMutex.myOwner = 0;
+		uint32_t tid = aMutex.myOwner.LoadRelaxed();
+		aMutex.myOwner.StoreRelaxed(0);
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
@@ -49,9 +49,9 @@ namespace box {
 				std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
 		}
 
-		MG_BOX_ASSERT(aMutex.myOwner == 0);
+		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-		aMutex.myOwner = tid;
+		aMutex.myOwner.StoreRelaxed(tid);
 		aMutex.myCount = 1;
 
 		return ok;
diff --git a/src/mg/box/Mutex.cpp b/src/mg/box/Mutex.cpp
index 31ca8e7..75b073f 100644
--- a/src/mg/box/Mutex.cpp
+++ b/src/mg/box/Mutex.cpp
@@ -25,7 +25,7 @@ namespace box {
 		if (TryLock())
 			return;
 		myHandle.lock();
-		myOwner = GetCurrentThreadId();
+		myOwner.StoreRelaxed(GetCurrentThreadId());
 		MG_DEV_ASSERT(myCount == 0);
 		myCount = 1;
 	}
@@ -44,7 +44,7 @@ namespace box {
 			theMutexStartContentCount.IncrementRelaxed();
 			return false;
 		}
-		myOwner = GetCurrentThreadId();
+		myOwner.StoreRelaxed(GetCurrentThreadId());
 		MG_DEV_ASSERT(myCount == 0);
 		myCount = 1;
 		return true;
@@ -56,7 +56,7 @@ namespace box {
 		MG_BOX_ASSERT(IsOwnedByThisThread());
 		if (myCount == 1)
 		{
-			myOwner = 0;
+			myOwner.StoreRelaxed(0);
 			myCount = 0;
 			myHandle.unlock();
 			return;
@@ -68,7 +68,7 @@ namespace box {
 	bool
 	Mutex::IsOwnedByThisThread() const
 	{
-		return myOwner == GetCurrentThreadId();
+		return myOwner.LoadRelaxed() == GetCurrentThreadId();
 	}
 
 }
diff --git a/src/mg/box/Mutex.h b/src/mg/box/Mutex.h
index 570c4ea..493a416 100644
--- a/src/mg/box/Mutex.h
+++ b/src/mg/box/Mutex.h
@@ -21,7 +21,7 @@ namespace box {
 	{
 	public:
 		Mutex() : myOwner(0), myCount(0) {}
-		~Mutex() { MG_BOX_ASSERT(myOwner == 0 && myCount == 0); }
+		~Mutex() { MG_BOX_ASSERT(myOwner.LoadRelaxed() == 0 && myCount == 0); }
 
 		void Lock();
 		bool TryLock();
@@ -33,7 +33,8 @@ namespace box {
 			const Mutex&) = delete;
 
 		std::mutex myHandle;
-		uint32_t myOwner;
+		// Atomic because it is checked by the threads not owning the mutex too.
+		mg::box::AtomicU32 myOwner;
 		uint32_t myCount;
 
 		friend class ConditionVariable;
-- 
2.43.0


From aad24d0f735a4f779260598cbf3c8e93e6be5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:14 +0000
Subject: [PATCH 08/21] fix: data race on a waiting task between its scheduler
 and a waker

A waker which finds the task waiting reads its scheduler pointer and links it into
the front queue, but nothing ordered that after the writes of the poster and of the
scheduler: all the status operations in between were relaxed.
---
 src/mg/sch/Task.cpp          | 12 ++++++++----
 src/mg/sch/TaskScheduler.cpp | 11 +++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/mg/sch/Task.cpp b/src/mg/sch/Task.cpp
index 6ba6e9c..019888b 100755
--- a/src/mg/sch/Task.cpp
+++ b/src/mg/sch/Task.cpp
@@ -108,9 +108,11 @@ namespace sch {
 			// override the signal, because it is stronger than a wakeup.
 			if (old == TASK_STATUS_SIGNALED || old == TASK_STATUS_READY)
 				return;
-			// Relaxed is fine. The memory sync will happen via the scheduler queues if
-			// the wakeup succeeds.
-		} while (!myStatus.CmpExchgWeakRelaxed(old, TASK_STATUS_READY));
+			// Acquire-barrier to sync with the release-barrier on moving the task to the
+			// waiting state. The scheduler pointer and the queue link are accessed below
+			// if the task was waiting. For the other direction the memory sync will
+			// happen via the scheduler queues if the wakeup succeeds.
+		} while (!myStatus.CmpExchgWeakAcquire(old, TASK_STATUS_READY));
 
 		// If the task was in the waiting queue. Need to re-push it to let the scheduler
 		// know the task must be removed from the queue earlier.
@@ -124,7 +126,9 @@ namespace sch {
 		// Release-barrier to sync with the acquire-barrier on the signal receipt. Can't
 		// be relaxed, because the task might send and receive the signal without the
 		// scheduler's participation and can't count on synchronizing any memory via it.
-		TaskStatus old = myStatus.ExchangeRelease(TASK_STATUS_SIGNALED);
+		// Acquire-barrier to sync with the release-barrier on moving the task to the
+		// waiting state. The scheduler pointer and the queue link are accessed below then.
+		TaskStatus old = myStatus.ExchangeAcqRel(TASK_STATUS_SIGNALED);
 		// WAITING - the task was in the waiting queue. Need to re-push it to let the
 		// scheduler know the task must be removed from the queue earlier.
 		if (old == TASK_STATUS_WAITING)
diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index e19518d..b4be760 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -151,9 +151,10 @@ namespace sch {
 		if (!PrivSchedulerTryLock())
 			return false;
 		// Task status operations can all be relaxed inside the
-		// scheduler. Syncing writes and reads between producers and
-		// workers anyway happens via acquire-release of the front
-		// queue - all tasks go through it.
+		// scheduler, except for making a task waiting. Syncing
+		// writes and reads between producers and workers anyway
+		// happens via acquire-release of the front queue - all
+		// tasks go through it.
 		TaskStatus old;
 		Task* t;
 		Task* next;
@@ -222,7 +223,9 @@ namespace sch {
 			{
 				t->myIsExpired = false;
 				old = TASK_STATUS_PENDING;
-				if (t->myStatus.CmpExchgStrongRelaxed(old, TASK_STATUS_WAITING))
+				// Release-barrier to let the wakers see the task's members, like the
+				// scheduler pointer. They access them when the task is waiting.
+				if (t->myStatus.CmpExchgStrongRelease(old, TASK_STATUS_WAITING))
 				{
 					// The task is not added to the heap in case
 					// it is put to sleep until explicit wakeup or
-- 
2.43.0


From 8440c974fdae112397873246e42a26474e21ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 09/21] fix: scheduling batch of size one never scheduled
 anything

With a sub-queue of size 1 and one worker the batch limit is 1, both loops stopped
before their first task, and the posted tasks were never executed.
---
 src/mg/sch/TaskScheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index b4be760..e9b228c 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -170,7 +170,7 @@ namespace sch {
 		// the front queue, so must be handled first.
 
 		batch = 0;
-		while (myQueueWaiting.Count() > 0 && ++batch < maxBatch)
+		while (myQueueWaiting.Count() > 0 && batch++ < maxBatch)
 		{
 			t = myQueueWaiting.GetTop();
 			if (t->myDeadline > timestamp)
@@ -215,7 +215,7 @@ namespace sch {
 		t = myQueueFront.PopAll(tail);
 		myQueuePending.Append(t, tail);
 		batch = 0;
-		while (!myQueuePending.IsEmpty() && ++batch < maxBatch)
+		while (!myQueuePending.IsEmpty() && batch++ < maxBatch)
 		{
 			t = myQueuePending.PopFirst();
 			t->myNext = nullptr;
-- 
2.43.0


From ab6fe79cecb4303ff90ccf3bb2b93768d79d73aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:14 +0000
Subject: [PATCH 10/21] fix: scheduler could be reported empty while a task was
 there

IsEmpty() checked the workers, then the queues. A worker could wake up and take
a ready task after it was checked as idle, and then the ready queue was already
empty. Or a task could re-post itself after the front queue was checked. Then
WaitEmpty() and the destructor didn't wait for the task.
---
 src/mg/sch/TaskScheduler.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index e9b228c..bfb8851 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -49,6 +49,14 @@ namespace sch {
 	TaskScheduler::IsEmpty()
 	{
 		PrivSchedulerLock();
+		// While the scheduler role is taken, the tasks can only go from the ready queue
+		// to the workers, and from the workers to the front queue. They must be checked
+		// in the same order. Otherwise a task could slip from a not yet checked place
+		// into an already checked one and wouldn't be noticed.
+		bool isEmpty =
+			myQueueWaiting.Count() == 0 &&
+			myQueuePending.IsEmpty() &&
+			myQueueReady.Count() == 0;
 		for (TaskSchedulerThread* worker : myThreads)
 		{
 			// It is important to check the worker states. Even if all the queues are
@@ -61,11 +69,7 @@ namespace sch {
 				return false;
 			}
 		}
-		bool isEmpty =
-			myQueueFront.IsEmpty() &&
-			myQueueWaiting.Count() == 0 &&
-			myQueuePending.IsEmpty() &&
-			myQueueReady.Count() == 0;
+		isEmpty = isEmpty && myQueueFront.IsEmpty();
 		PrivSchedulerUnlock();
 		return isEmpty;
 	}
@@ -391,7 +395,8 @@ namespace sch {
 	inline TaskSchedulerWorkerState
 	TaskSchedulerThread::GetState() const
 	{
-		return myState.LoadRelaxed();
+		// Acquire-barrier to see everything the worker posted before it became idle.
+		return myState.LoadAcquire();
 	}
 
 	void
@@ -412,10 +417,10 @@ namespace sch {
 				myExecuteCount.AddRelaxed(batch);
 			} while (batch == maxBatch);
 			MG_DEV_ASSERT(batch < maxBatch);
-			myState.StoreRelaxed(TASK_SCHEDULER_WORKER_STATE_IDLE);
+			myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);
 			myScheduler->PrivWaitReady();
 		}
-		myState.StoreRelaxed(TASK_SCHEDULER_WORKER_STATE_IDLE);
+		myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);
 		myScheduler->PrivSignalReady();
 		MG_BOX_ASSERT(TaskScheduler::ourCurrent == myScheduler);
 		TaskScheduler::ourCurrent = nullptr;
-- 
2.43.0


From 24e62e78d484bee8de9423653c9a248c20d4f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:31 +0000
Subject: [PATCH 11/21] fix: BufferStream::PropagateWritePos(0) must not move
 the read end

An empty propagation set myREnd to the writable buffer, which might have
no data at all. Then the stream had a read end without any data or
behind the actual end of the data.
---
 src/mg/net/Buffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 682760e..5c0e563 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -139,6 +139,8 @@ namespace net {
 	BufferStream::PropagateWritePos(
 		uint64_t aSize)
 	{
+		if (aSize == 0)
+			return;
 		MG_DEV_ASSERT(myWSize >= aSize);
 		myWPos = BuffersPropagateOnWrite(myWPos, aSize);
 		myWSize -= aSize;
-- 
2.43.0


From 9bd98ddb8c9681fdc623ff7408dcb5bb9647b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 12/21] fix: BufferStream::WriteCopy must use all the reserved
 buffers

When more than one buffer was reserved by EnsureWriteSize(), the copying
crossing the first one would append a new buffer after the reserved ones
or would forget about them. The data was followed by holes, and the
following write had corrupted the stream.
---
 src/mg/net/Buffer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 5c0e563..64139d4 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -201,14 +201,21 @@ namespace net {
 			if (cap == aSize)
 			{
 				myREnd = myWPos;
-				myWPos = nullptr;
-				myWSize = 0;
+				myWPos = myWPos->myNext.GetPointer();
+				myWSize -= cap;
 				PrivCheck();
 				return;
 			}
 			aData = (const uint8_t*)aData + cap;
 			aSize -= cap;
+			myWSize -= cap;
 			MG_DEV_ASSERT(myHead.IsSet());
+			if (myWPos != myTail)
+			{
+				// There are more reserved buffers.
+				myWPos = myWPos->myNext.GetPointer();
+				continue;
+			}
 			MG_DEV_ASSERT(myTail->myPos == myTail->myCapacity);
 			myTail = (myTail->myNext = BufferCopy::NewShared()).GetPointer();
 			myWPos = myTail;
-- 
2.43.0


From dcdac99775e7d28550a2ee657ae9fc7b3e5c6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 13/21] fix: BufferLinkList::SkipEmptyPrefix must not change
 shared buffers

The skipping moved the next pointers out of the buffers. But the buffers
can be shared by multiple links, as the comment in SkipData() says. All
the other links had lost their data.
---
 src/mg/net/Buffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 64139d4..1375513 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -82,7 +82,8 @@ namespace net {
 					MG_DEV_ASSERT(aByteOffset == head->myPos);
 					aByteOffset = 0;
 				}
-				head = std::move(head->myNext);
+				// Do not move. The buffers can be shared by multiple links.
+				head.Set(head->myNext.GetPointer());
 			}
 			link = link->myNext;
 			delete myLinks.PopFirst();
-- 
2.43.0


From 23dc04494202e7023218a15adad8e050cf7dc83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:54 +0000
Subject: [PATCH 14/21] fix: multi-consumer queue could pop an old item of a
 recycled sub-queue

The read index was relaxed, so a consumer which learned the index from another
consumer was not ordered after the nullification of the next cell, and could
see there an element popped in the previous life of the sub-queue.
---
 src/mg/box/MultiConsumerQueueBase.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mg/box/MultiConsumerQueueBase.cpp b/src/mg/box/MultiConsumerQueueBase.cpp
index 1bcfd81..0b7859c 100644
--- a/src/mg/box/MultiConsumerQueueBase.cpp
+++ b/src/mg/box/MultiConsumerQueueBase.cpp
@@ -272,7 +272,7 @@ namespace box {
 		// thread simultaneously read the same element and already
 		// returned it. In this case the current thread will
 		// retry.
-		uint32_t rindex = myReadIndex.LoadRelaxed();
+		uint32_t rindex;
 		// The loop is not busy, is not a lock, and is not a 'waiting'.
 		// Because lock or waiting would mean the thread is blocked on
 		// something not yet done by another thread. Here it is not so -
@@ -280,16 +280,22 @@ namespace box {
 		// it progresses in a single iteration almost always.
 		do
 		{
+			// Acquire-barrier to sync with the release-barrier of the
+			// consumer which has moved the index here. That consumer has
+			// seen the previous item, and hence has seen that this cell
+			// was nullified before. Otherwise this thread could find here
+			// an old item left from the previous life of a recycled
+			// sub-queue. For the same reason the index, obtained by the
+			// failed update below, can't be used.
+			rindex = myReadIndex.LoadAcquire();
 			if (rindex == mySize)
 				return false;
-			// Read index itself is fine to be relaxed. Broader sync
-			// is only needed for the queue items. To get all the
-			// writes done before their push which might be related
-			// to them.
+			// Acquire to get all the writes done before the push of
+			// the item which might be related to it.
 			aOutItem = myQueue[rindex].LoadAcquire();
 			if (aOutItem == nullptr)
 				return true;
-		} while (!myReadIndex.CmpExchgWeakRelaxed(rindex, rindex + 1));
+		} while (!myReadIndex.CmpExchgWeakRelease(rindex, rindex + 1));
 		return true;
 	}
 
-- 
2.43.0


From ba4238048c6d11bead98ee3eb148ead82561bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:29 +0000
Subject: [PATCH 15/21] fix: scheduler IsEmpty() could miss a running task on
 weakly ordered CPUs

The count of the ready queue was decreased without barriers, so IsEmpty() could
see that a task has left the ready queue and yet see the old idle state of the
worker which has taken the task.
---
 src/mg/box/MultiConsumerQueueBase.cpp | 4 +++-
 src/mg/box/MultiConsumerQueueBase.h   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mg/box/MultiConsumerQueueBase.cpp b/src/mg/box/MultiConsumerQueueBase.cpp
index 0b7859c..dea887c 100644
--- a/src/mg/box/MultiConsumerQueueBase.cpp
+++ b/src/mg/box/MultiConsumerQueueBase.cpp
@@ -380,8 +380,10 @@ namespace box {
 
 			mySubQueue = cur;
 		}
+		// Release-barrier to let those, who see the decreased count, also see what this
+		// thread did before it took the item.
 		if (res != nullptr)
-			myQueue->myCount.DecrementRelaxed();
+			myQueue->myCount.DecrementRelease();
 		return res;
 	}
 
diff --git a/src/mg/box/MultiConsumerQueueBase.h b/src/mg/box/MultiConsumerQueueBase.h
index 9779d1e..b6e422d 100644
--- a/src/mg/box/MultiConsumerQueueBase.h
+++ b/src/mg/box/MultiConsumerQueueBase.h
@@ -165,7 +165,9 @@ namespace box {
 	inline uint32_t
 	MCQBaseQueue::Count()
 	{
-		return myCount.LoadRelaxed();
+		// Acquire-barrier to sync with the consumers which decreased the count. If an item
+		// isn't here anymore, then what its taker did before taking it is visible.
+		return myCount.LoadAcquire();
 	}
 
 }
-- 
2.43.0


From 0a7022c30e57b31e2226be6f8768a7157b89c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:10 +0000
Subject: [PATCH 16/21] fix: data race on a waiting IO task between the
 scheduler and a waker

PostWakeup() and PostClose() of a waiting task re-post it and by that access its
queue link, which was last written by the scheduler. There was no ordering between
the scheduler and the waker - the status was changed with relaxed operations.
---
 src/mg/aio/IOCore_IOCP.cpp    |  3 ++-
 src/mg/aio/IOCore_epoll.cpp   |  3 ++-
 src/mg/aio/IOCore_iouring.cpp |  3 ++-
 src/mg/aio/IOCore_kqueue.cpp  |  3 ++-
 src/mg/aio/IOTask.cpp         | 13 +++++++++----
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/mg/aio/IOCore_IOCP.cpp b/src/mg/aio/IOCore_IOCP.cpp
index b56a7e2..86d4a6b 100644
--- a/src/mg/aio/IOCore_IOCP.cpp
+++ b/src/mg/aio/IOCore_IOCP.cpp
@@ -187,7 +187,8 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (task->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				// Use 'release' to let the wakers see the task's members. They re-post it.
+				if (task->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOCore_epoll.cpp b/src/mg/aio/IOCore_epoll.cpp
index 9837e67..a91d661 100644
--- a/src/mg/aio/IOCore_epoll.cpp
+++ b/src/mg/aio/IOCore_epoll.cpp
@@ -190,7 +190,8 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (t->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				// Use 'release' to let the wakers see the task's members. They re-post it.
+				if (t->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOCore_iouring.cpp b/src/mg/aio/IOCore_iouring.cpp
index 2103a4f..016cf90 100644
--- a/src/mg/aio/IOCore_iouring.cpp
+++ b/src/mg/aio/IOCore_iouring.cpp
@@ -257,7 +257,8 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (task->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				// Use 'release' to let the wakers see the task's members. They re-post it.
+				if (task->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOCore_kqueue.cpp b/src/mg/aio/IOCore_kqueue.cpp
index da7cdd7..4300f99 100644
--- a/src/mg/aio/IOCore_kqueue.cpp
+++ b/src/mg/aio/IOCore_kqueue.cpp
@@ -200,7 +200,8 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (t->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				// Use 'release' to let the wakers see the task's members. They re-post it.
+				if (t->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOTask.cpp b/src/mg/aio/IOTask.cpp
index c9d13c6..304ec82 100755
--- a/src/mg/aio/IOTask.cpp
+++ b/src/mg/aio/IOTask.cpp
@@ -103,8 +103,9 @@ namespace aio {
 		// this function ends.
 		//
 		// Use 'release' to give the other threads a way to sync the writes done before
-		// closing, such as the close-guard setting.
-		IOTaskStatus oldStatus = myStatus.ExchangeRelease(IOTASK_STATUS_CLOSING);
+		// closing, such as the close-guard setting. Use 'acquire' to sync with the
+		// scheduler making the task waiting. The task is re-posted below then.
+		IOTaskStatus oldStatus = myStatus.ExchangeAcqRel(IOTASK_STATUS_CLOSING);
 		MG_BOX_ASSERT_F(
 			oldStatus == IOTASK_STATUS_PENDING ||
 			oldStatus == IOTASK_STATUS_READY ||
@@ -117,9 +118,13 @@ namespace aio {
 	void
 	IOTask::PostWakeup()
 	{
+		// Use 'acquire' to sync with the 'release' done by the scheduler when it makes the
+		// task waiting. The task's members, such as the queue link, are accessed when it is
+		// re-posted.
+		//
 		// Fast path.
 		IOTaskStatus oldStatus = IOTASK_STATUS_WAITING;
-		if (myStatus.CmpExchgStrongRelaxed(oldStatus, IOTASK_STATUS_READY))
+		if (myStatus.CmpExchgStrongAcquire(oldStatus, IOTASK_STATUS_READY))
 			return myCore.PrivRePost(this);
 		// Fail, but the task was awake anyway.
 		if (oldStatus == IOTASK_STATUS_READY)
@@ -131,7 +136,7 @@ namespace aio {
 			oldStatus == IOTASK_STATUS_WAITING)
 		{
 			IOTaskStatus newStatus = oldStatus;
-			if (!myStatus.CmpExchgStrongRelaxed(newStatus, IOTASK_STATUS_READY))
+			if (!myStatus.CmpExchgStrongAcquire(newStatus, IOTASK_STATUS_READY))
 			{
 				// Fail. Retry.
 				oldStatus = newStatus;
-- 
2.43.0


From 91c186c6d4ec665b392648dd509642138cfd9e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:00 +0000
Subject: [PATCH 17/21] fix: IOCore::Stop() could block until the nearest
 deadline

When the stop signal was taken from the kernel by the scheduler's non-blocking check
of new events, and there were tasks waiting for a deadline, the scheduler went to
sleep until that deadline without looking at the core's state.
---
 src/mg/aio/IOCore_IOCP.cpp    | 12 ++++++------
 src/mg/aio/IOCore_epoll.cpp   | 12 ++++++------
 src/mg/aio/IOCore_iouring.cpp | 12 ++++++------
 src/mg/aio/IOCore_kqueue.cpp  | 12 ++++++------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/mg/aio/IOCore_IOCP.cpp b/src/mg/aio/IOCore_IOCP.cpp
index 86d4a6b..82dae66 100644
--- a/src/mg/aio/IOCore_IOCP.cpp
+++ b/src/mg/aio/IOCore_IOCP.cpp
@@ -323,6 +323,12 @@ namespace aio {
 		if (didWait)
 			return false;
 
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going into the infinite sleep.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -338,12 +344,6 @@ namespace aio {
 				duration = INFINITE - 1;
 			timeout = (DWORD)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		else
 		{
 			timeout = INFINITE;
diff --git a/src/mg/aio/IOCore_epoll.cpp b/src/mg/aio/IOCore_epoll.cpp
index a91d661..059a422 100644
--- a/src/mg/aio/IOCore_epoll.cpp
+++ b/src/mg/aio/IOCore_epoll.cpp
@@ -336,6 +336,12 @@ namespace aio {
 		memset(&pfd, 0, sizeof(pfd));
 		pfd.fd = myNativeCore;
 		pfd.events = POLLIN;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going into the infinite sleep.
+			return false;
+		}
 		int pollTimeout = -1;
 		if (myWaitingQueue.Count() != 0)
 		{
@@ -348,12 +354,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		poll(&pfd, 1, pollTimeout);
 		return false;
 	}
diff --git a/src/mg/aio/IOCore_iouring.cpp b/src/mg/aio/IOCore_iouring.cpp
index 016cf90..0e42f9d 100644
--- a/src/mg/aio/IOCore_iouring.cpp
+++ b/src/mg/aio/IOCore_iouring.cpp
@@ -486,6 +486,12 @@ namespace aio {
 		memset(&pfd, 0, sizeof(pfd));
 		pfd.fd = myRingEventFd;
 		pfd.events = POLLIN;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going into the infinite sleep.
+			return false;
+		}
 		int pollTimeout = -1;
 		if (myWaitingQueue.Count() != 0)
 		{
@@ -498,12 +504,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		if (poll(&pfd, 1, pollTimeout) > 0)
 		{
 			uint64_t num;
diff --git a/src/mg/aio/IOCore_kqueue.cpp b/src/mg/aio/IOCore_kqueue.cpp
index 4300f99..0a38b62 100644
--- a/src/mg/aio/IOCore_kqueue.cpp
+++ b/src/mg/aio/IOCore_kqueue.cpp
@@ -346,6 +346,12 @@ namespace aio {
 		memset(&pfd, 0, sizeof(pfd));
 		pfd.fd = myNativeCore;
 		pfd.events = POLLIN;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going into the infinite sleep.
+			return false;
+		}
 		int pollTimeout = -1;
 		if (myWaitingQueue.Count() != 0)
 		{
@@ -358,12 +364,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 
 		poll(&pfd, 1, pollTimeout);
 		return false;
-- 
2.43.0


From cf697a98e0b4a5249759e6f518954afa63be6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:50 +0000
Subject: [PATCH 18/21] fix: IOCore::WaitEmpty() did not sync with the finished
 tasks

The number of tasks was changed and read with relaxed operations, so a thread which
was told that the core is empty raced with what the last events of the tasks did.
---
 src/mg/aio/IOCore.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mg/aio/IOCore.cpp b/src/mg/aio/IOCore.cpp
index 6167a4d..38279ee 100644
--- a/src/mg/aio/IOCore.cpp
+++ b/src/mg/aio/IOCore.cpp
@@ -89,14 +89,14 @@ namespace aio {
 	IOCore::WaitEmpty(
 		mg::box::TimeLimit aTimeLimit)
 	{
-		uint32_t count = myDescriptorCount.LoadRelaxed();
+		uint32_t count = myDescriptorCount.LoadAcquire();
 		if (count == 0)
 			return 0;
 		uint64_t deadline = aTimeLimit.ToPointFromNow().myValue;
 		while (mg::box::GetMilliseconds() < deadline)
 		{
 			mg::box::Sleep(10);
-			count = myDescriptorCount.LoadRelaxed();
+			count = myDescriptorCount.LoadAcquire();
 			if (count == 0)
 				return 0;
 		}
@@ -198,7 +198,9 @@ namespace aio {
 		}
 		else
 		{
-			myDescriptorCount.DecrementRelaxed();
+			// Use 'release' so as who waits for the core being empty would see all what the
+			// finished tasks did.
+			myDescriptorCount.DecrementRelease();
 		}
 		return true;
 	}
-- 
2.43.0


From 29a33815272aeef91ced933b42a7ef245d81d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:25 +0000
Subject: [PATCH 19/21] fix: a receipt requested in OnSend() could be never
 started

---
 src/mg/aio/TCPSocketIFace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 498966b..8406fcd 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -460,6 +460,10 @@ namespace aio {
 	{
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
 		mySub->OnSend(aByteCount);
+		// The receipt is done before the sending. If it was requested in the callback, and
+		// the data is already here, then no new event would come to start it.
+		if (myRecvSize > 0 && !myRecvEvent.IsLocked())
+			myTask.Reschedule();
 	}
 
 	void
-- 
2.43.0


From b3c8faadc307da7f34e23ff40b73913e2d9e00c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:25 +0000
Subject: [PATCH 20/21] fix: shutdown of a wrapped TCP socket was lost before
 the attach

---
 src/mg/aio/TCPSocketCtl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index 278a8f2..d0c7b18 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -207,7 +207,7 @@ namespace aio {
 	{
 		MG_BOX_ASSERT(myHasShutdown);
 		// Shutdown on a non-connected socket simply does not work. Wait to kill it later.
-		if (myHasConnect)
+		if (myHasConnect || myHasAttach)
 			return true;
 		
 		mg::net::Socket sock = myTask->GetSocket();
@@ -314,6 +314,11 @@ namespace aio {
 		myTask->AttachSocket(myAttachSocket);
 		myAttachSocket = mg::net::theInvalidSocket;
 		PrivStartHandshake();
+		if (myHasShutdown)
+		{
+			// Same as with connect - the shutdown was waiting for the socket.
+			myTask->Reschedule();
+		}
 	}
 
 	bool
-- 
2.43.0


From 062998e6a0fddca814a79787c7f8c6e165f8532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:25 +0000
Subject: [PATCH 21/21] fix: Connect() after a posted shutdown aborted the
 process

---
 src/mg/aio/TCPSocketCtl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index d0c7b18..57d2a00 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -130,11 +130,10 @@ namespace aio {
 	TCPSocketCtl::AddConnect(
 		const TCPSocketCtlConnectParams& aParams)
 	{
-		// Connect or attach are mutually exclusive and are always the first ctl. Shutdown
-		// couldn't be requested before them.
+		// Connect or attach are mutually exclusive. Shutdown could be requested before
+		// connect, while the socket was working as a task. It waits for the connection.
 		MG_BOX_ASSERT(!myHasConnect);
 		MG_BOX_ASSERT(!myHasAttach);
-		MG_BOX_ASSERT(!myHasShutdown);
 		MG_BOX_ASSERT(myConnectSocket == mg::net::theInvalidSocket);
 		MG_BOX_ASSERT(myConnectDomain == nullptr);
 		MG_BOX_ASSERT(!myConnectIsStarted);
-- 
2.43.0

