From 1a7a53feb1884b584c7e7a179a4dba305e30cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 001/180] fix: FastLock::Async takes the ownership when the
 lock is free

---
 src/lightspeed/mt/fastlock.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index 3546352..74d99db 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -143,7 +143,8 @@ public:
 		Slot sl;
 	public:
 		Async(FastLock &lk):lk(lk),sl(getCurThreadSleepingObj()) {
-			lk.addToQueue(&sl);
+			//queue was empty, nobody is going to grant the ownership
+			if (!lk.addToQueue(&sl)) lk.owner = &sl;
 		}
 		~Async() {
 			while (lk.owner != &sl) threadHalt();
-- 
2.43.0


From 6cb24fbc2d11e9ad0bbb3dea157f12135fe39743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 002/180] fix: MicroLock no longer enqueues itself twice when
 the lock is handed over during lock()

---
 src/lightspeed/mt/microlock.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/microlock.h b/src/lightspeed/mt/microlock.h
index 0e2d01c..40a2da4 100644
--- a/src/lightspeed/mt/microlock.h
+++ b/src/lightspeed/mt/microlock.h
@@ -57,12 +57,15 @@ namespace LightSpeed {
 
 			//try to lock the lock, but if it is already locked, k will not NULL
 			MicroLockData *k = lockCompareExchangePtr<MicroLockData>(&lk.owner,0,this);
+			//expected top of the queue - don't use next here, because once the object
+			//is enqueued, next can be cleared by a thread which releases the lock
+			MicroLockData *expected = 0;
 			//test result of k
-			while (k != next) {
+			while (k != expected) {
 				//update next to reflect reality
-				next = k;
+				next = expected = k;
 				//accept reality and try to enqueue self to the queue
-				k = lockCompareExchangePtr<MicroLockData>(&lk.owner,next,this);
+				k = lockCompareExchangePtr<MicroLockData>(&lk.owner,expected,this);
 			}
 			//wait until next is equal zero
 			while (next != 0) {
-- 
2.43.0


From a285bf9d7711b28d9dc4574adc8504554510ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 003/180] fix: Mutex::tryLock counts the recursion

---
 src/lightspeed/mt/mutex.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/mutex.cpp b/src/lightspeed/mt/mutex.cpp
index 6016ec9..ce2332a 100644
--- a/src/lightspeed/mt/mutex.cpp
+++ b/src/lightspeed/mt/mutex.cpp
@@ -62,10 +62,16 @@ void Mutex::lock()
 bool Mutex::tryLock()
 {
 	atomic me = ThreadId::current().asAtomic();
-	if (lockCompareExchange(owner,0,me) != 0)
-		return false;
-	else
+	atomic oth = lockCompareExchange(owner,0,me);
+	if (oth == 0) {
+		recursion = 1;
+		return true;
+	} else if (oth == me) {
+		recursion++;
 		return true;
+	} else {
+		return false;
+	}
 }
 
 void Mutex::unlock()
-- 
2.43.0


From b7b76ee085d1adf22894f6973c38076973133c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 004/180] fix: SyncPtT::notifyAll compiles when it is
 instantiated

---
 src/lightspeed/mt/fastlock.h  | 2 +-
 src/lightspeed/mt/microlock.h | 2 +-
 src/lightspeed/mt/syncPt.h    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index 74d99db..bf1d4cd 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -92,7 +92,7 @@ public:
 			//find tail of the queue - previous object will be new owner
 			while (p->next != o) p = p->next;
 			//store target thread, setting new owner can make Slot disappear
-			ISleepingObject *ntf = p->notify;
+			RefCntPtr<IThreadSleeper> ntf = p->notify;
 			//write owner to notify next thread - target thread has ownership now!
 			owner = p;
 			//notify new owner - it may sleep (release barrier here)
diff --git a/src/lightspeed/mt/microlock.h b/src/lightspeed/mt/microlock.h
index 40a2da4..25ba8b0 100644
--- a/src/lightspeed/mt/microlock.h
+++ b/src/lightspeed/mt/microlock.h
@@ -85,7 +85,7 @@ namespace LightSpeed {
 					//find next object in the queue
 					while (k->next != this) k = k -> next;
 					//retrieve notifier - because object on k can vanish after the next command
-					ISleepingObject *n = k->owner;
+					RefCntPtr<IThreadSleeper> n = k->owner;
 					//give ownership to k (see lock() - while (next != 0) )
 					k->next = 0;
 					//notify the thread if it is necessary
diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index 2fd6b5d..a870149 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -360,7 +360,7 @@ namespace LightSpeed {
 		bool succ = false;
 		Slot *p = static_cast<Slot *>(popSlot_lk());
 		while (p) {
-			notiftSlot_lk(p,val);
+			notifySlot_lk(p,val);
 			succ = true;
 			p = static_cast<Slot *>(popSlot_lk());
 		}
-- 
2.43.0


From 8d300ee4b795d31d216b48ed780090bb42b0245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 005/180] fix: SyncPt::Slot can be registered again after reset
 or removal

---
 src/lightspeed/mt/syncPt.cpp | 6 ++++++
 src/lightspeed/mt/syncPt.h   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/lightspeed/mt/syncPt.cpp b/src/lightspeed/mt/syncPt.cpp
index a8952e3..e01c3fb 100644
--- a/src/lightspeed/mt/syncPt.cpp
+++ b/src/lightspeed/mt/syncPt.cpp
@@ -50,6 +50,9 @@ bool SyncPt::remove(Slot& slot) {
 		}else if (q == &slot) {
 			//set queue-s new head
 			curQueue = slot.next;
+			//slot can be added again
+			slot.next = 0;
+			slot.charged = false;
 			//slot removed
 			return true;
 		} else {
@@ -61,6 +64,9 @@ bool SyncPt::remove(Slot& slot) {
 			if (q->next == &slot) {
 				//remove slot if found
 				q->next = slot.next;
+				//slot can be added again
+				slot.next = 0;
+				slot.charged = false;
 				//removed
 				suc = true;
 			} else {
diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index a870149..bc3e35d 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -114,6 +114,9 @@ namespace LightSpeed {
 			bool reset() {
 				if (isSignaled()) {
 					Notifier::reset();
+					//slot is no longer registered, it can be added again
+					next = 0;
+					charged = false;
 					return true;
 				} else {
 					return false;
-- 
2.43.0


From 7af7ee5506863e08e4d06bf5504bccb56987a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 006/180] fix: Semaphore removes the slot from the queue when
 the waiting is interrupted

---
 src/lightspeed/mt/semaphore.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/semaphore.h b/src/lightspeed/mt/semaphore.h
index 634e98d..dd1af67 100644
--- a/src/lightspeed/mt/semaphore.h
+++ b/src/lightspeed/mt/semaphore.h
@@ -36,7 +36,8 @@ namespace LightSpeed {
 			Slot slot;
 			lockAsync(slot);
 			if (!SyncPt::wait(slot,nil,md)) {
-				return false;
+				//slot must not stay in the queue, but it could be signaled in meantime
+				return !SyncPt::remove(slot);
 			} else {
 				return true;
 			}
@@ -47,7 +48,8 @@ namespace LightSpeed {
 			Slot slot;
 			lockAsync(slot);
 			if (!SyncPt::wait(slot,tm,md)) {
-				return false;
+				//slot must not stay in the queue, but it could be signaled in meantime
+				return !SyncPt::remove(slot);
 			} else {
 				return true;
 			}
@@ -58,7 +60,8 @@ namespace LightSpeed {
 			Slot slot;
 			lockAsync(slot);
 			if (!SyncPt::wait(slot,tm)) {
-				return false;
+				//slot must not stay in the queue, but it could be signaled in meantime
+				return !SyncPt::remove(slot);
 			} else {
 				return true;
 			}
-- 
2.43.0


From 50ff1dd887a677c40f81766dc396fb590e4ffd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 007/180] fix: Semaphore::cancelLockAsync returns the token
 which was granted without waiting

---
 src/lightspeed/mt/semaphore.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/mt/semaphore.h b/src/lightspeed/mt/semaphore.h
index dd1af67..4eb3742 100644
--- a/src/lightspeed/mt/semaphore.h
+++ b/src/lightspeed/mt/semaphore.h
@@ -100,10 +100,9 @@ namespace LightSpeed {
 		}
 		void cancelLockAsync(Slot &slot) {
 			//remove slot from the syncpt
-			if (!SyncPt::remove(slot)) {
-				//if slot is signaled, unlock semaphore
-				if (slot) unlock();
-			}
+			SyncPt::remove(slot);
+			//if slot is signaled, unlock semaphore (slot could be signaled without waiting)
+			if (slot) unlock();
 		}
 
 		///Initialize semaphore using another semaphore
-- 
2.43.0


From 19321444299d261b92c4a6fc985ead5cc03f4db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 008/180] fix: Notifier doesn't touch the thread which could
 finish in meantime

---
 src/lightspeed/mt/notifier.cpp | 5 ++++-
 src/lightspeed/mt/notifier.h   | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/notifier.cpp b/src/lightspeed/mt/notifier.cpp
index 5e388e1..3480fc8 100644
--- a/src/lightspeed/mt/notifier.cpp
+++ b/src/lightspeed/mt/notifier.cpp
@@ -1,10 +1,13 @@
 #include "notifier.h"
 #include "thread.h"
+#include "threadMinimal.h"
 
 
 namespace LightSpeed {
 
-	Notifier::Notifier():reason(0),signaled(0),forward(&Thread::current()) {}
+	Notifier::Notifier():reason(0),signaled(0),forward(0),sleeper(getCurThreadSleepingObj()) {
+		forward = sleeper.get();
+	}
 
 
 	bool Notifier::wait(const Timeout &tm, bool wakeOnExit) {
diff --git a/src/lightspeed/mt/notifier.h b/src/lightspeed/mt/notifier.h
index e0e6a49..ed3c0b0 100644
--- a/src/lightspeed/mt/notifier.h
+++ b/src/lightspeed/mt/notifier.h
@@ -8,6 +8,7 @@
 #ifndef LIGHTSPEED_MT_NOTIFIER_H_
 #define LIGHTSPEED_MT_NOTIFIER_H_
 #include "sleepingobject.h"
+#include "threadSleeper.h"
 #include "atomic.h"
 #include <assert.h>
 
@@ -59,6 +60,8 @@ namespace LightSpeed {
 		virtual void wakeUp(natural reason = 0) throw() {
 			//store forward - this object can disappear during processing
 			ISleepingObject *fw = forward;
+			//the thread can finish as well, keep its sleeper alive
+			RefCntPtr<IThreadSleeper> keep = sleeper;
 			//store reason first
 			this->reason = reason;
 			//make object signaled - now thread can continue
@@ -123,6 +126,8 @@ namespace LightSpeed {
 	protected:
 		atomic signaled;
 		ISleepingObject *forward;
+		///reference to sleeper of the thread, if the notifier is bound with the thread
+		RefCntPtr<IThreadSleeper> sleeper;
 
 
 	};
-- 
2.43.0


From 7d068db45eee0fa32363076ce77f7524438d8270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 009/180] fix: LevelLock is usable after the queue of waiting
 threads has been emptied

---
 src/lightspeed/mt/rwlock.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index e180c50..8a495f6 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -173,6 +173,8 @@ public:
 		curLevel = s->level;
 		//remove from the queue
 		qtop = qtop->next;
+		//last slot has been removed, queue is empty
+		if (qtop == 0) qbot = 0;
 		//set use count 
 		useCount++;
 		//mark slot signaled
-- 
2.43.0


From 1c48579bab73ac82d2588fa12af1c992a74ddef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 010/180] fix: LevelLock::lock doesn't leave while the
 releasing thread uses the slot

---
 src/lightspeed/mt/rwlock.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index 8a495f6..bc96c9e 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -63,6 +63,8 @@ public:
 		lockAsync(s);
 		//wait until signaled
 		while (!s.signaled) threadHalt();
+		//releasing thread may still work with the slot
+		Synchronized<FastLock> _(protectInternals);
 
 	}
 	///Perform asynchronous lock
-- 
2.43.0


From ecb6fa542baadf441bdf32bc5d38d5b1deb76789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 011/180] fix: LevelLock::cancelAsync keeps the queue of
 waiting threads consistent

---
 src/lightspeed/mt/rwlock.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index bc96c9e..7f13637 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -118,11 +118,19 @@ public:
 
 			if (!s.signaled) {
 				Slot *q = qtop;
-				if (q == &s) qtop = q->next;
-				else {
+				if (q == &s) {
+					qtop = q->next;
+					if (qtop == 0) qbot = 0;
+					//slots behind the canceled one can share the lock now
+					while (qtop && qtop->level == curLevel) releaseTopThread();
+				} else {
 					while (q && q->next != &s) q = q ->next;
-					if (q->next == &s) q->next =  s.next;
+					if (q) {
+						q->next =  s.next;
+						if (qbot == &s) qbot = q;
+					}
 				}
+				s.next = 0;
 			}
 		}
 		if (s.signaled) {
-- 
2.43.0


From 07ff727101e6d1222d9deb659c04b045f1205b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 012/180] fix: copy of LevelLock is initialized

---
 src/lightspeed/mt/rwlock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index 7f13637..e24b7d9 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -50,7 +50,7 @@ public:
 
 
 	LevelLock():qtop(0),qbot(0),curLevel(0),useCount(0) {}
-	LevelLock(const LevelLock &) {}
+	LevelLock(const LevelLock &):qtop(0),qbot(0),curLevel(0),useCount(0) {}
 
 	///locks for level
 	/***
-- 
2.43.0


From 1e813b85021194764c5af7bb98afb9af6447c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 013/180] fix: Gate can be destroyed by the thread which found
 it opened

---
 src/lightspeed/mt/gate.h     |  4 ++--
 src/lightspeed/mt/syncPt.cpp | 10 ++++++++++
 src/lightspeed/mt/syncPt.h   | 14 ++++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/gate.h b/src/lightspeed/mt/gate.h
index 05635a5..eab5c81 100644
--- a/src/lightspeed/mt/gate.h
+++ b/src/lightspeed/mt/gate.h
@@ -83,8 +83,8 @@ namespace LightSpeed {
 
 	inline void Gate::open()
 	{
-		writeRelease(&state,stateOpen);
-		sp.notifyAll();
+		//a thread which finds the gate opened can destroy it immediately
+		sp.notifyAll(state,stateOpen);
 	}
 
 
diff --git a/src/lightspeed/mt/syncPt.cpp b/src/lightspeed/mt/syncPt.cpp
index e01c3fb..a429e0c 100644
--- a/src/lightspeed/mt/syncPt.cpp
+++ b/src/lightspeed/mt/syncPt.cpp
@@ -111,6 +111,16 @@ bool SyncPt::notifyOne() {
 
 bool SyncPt::notifyAll() {
 	Synchronized<FastLock> _(queueLock);
+	return notifyAll_lk();
+}
+
+bool SyncPt::notifyAll(atomic &var, atomicValue value) {
+	Synchronized<FastLock> _(queueLock);
+	writeRelease(&var,value);
+	return notifyAll_lk();
+}
+
+bool SyncPt::notifyAll_lk() {
 	bool suc = false;
 	Slot *p = curQueue;
 	curQueue = 0;
diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index bc3e35d..8593ca0 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -262,6 +262,18 @@ namespace LightSpeed {
 		 */
 		bool notifyAll();
 
+		///Stores the value and notifies all slots
+		/**
+		 * The value is stored while the queue is locked. If a thread finds the new value
+		 * and destroys the object, the destructor waits until the notification is finished.
+		 *
+		 * @param var variable to change
+		 * @param value new value
+		 * @retval true notified
+		 * @retval false empty queue
+		 */
+		bool notifyAll(atomic &var, atomicValue value);
+
 
 		bool empty() const {return curQueue == 0;}
 
@@ -280,6 +292,8 @@ namespace LightSpeed {
 
 		void add_lk( Slot &slot );
 
+		bool notifyAll_lk();
+
 
 	private:
 
-- 
2.43.0


From 2c2f06ce30589a790ddbae667eb72ae35d6d0a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 014/180] fix: Future::wait is not touched by the resolving
 thread after the result is stored

---
 src/lightspeed/base/actions/promise.tcc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 0bf74d2..ff2b368 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -168,22 +168,26 @@ const T & Future<T>::wait( const Timeout &tm /*= Timeout()*/ ) const
 {
 	class Ntf: public IObserver {
 	public:
-		ISleepingObject *thread;
+		RefCntPtr<IThreadSleeper> thread;
 		const T *result;
 		PException exception;
 		
-		Ntf(ISleepingObject *thread):thread(thread),result(0),exception(0) {}
+		Ntf(const RefCntPtr<IThreadSleeper> &thread):thread(thread),result(0),exception(0) {}
 
 		virtual void resolve( const T &result ) throw()
 		{
+			//waiting thread can destroy this object once the result is stored
+			RefCntPtr<IThreadSleeper> t = thread;
 			this->result = &result;
-			thread->wakeUp();
+			t->wakeUp();
 		}
 
 		virtual void resolve(const PException &e ) throw()
 		{
+			//waiting thread can destroy this object once the exception is stored
+			RefCntPtr<IThreadSleeper> t = thread;
 			this->exception = e.getMT();
-			thread->wakeUp();
+			t->wakeUp();
 		}		
 
 		bool resolved() const {
-- 
2.43.0


From 6d7578e6af1825ee4da6f2e5da1f7f932d50d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 015/180] fix: Future compares with null correctly

---
 src/lightspeed/base/actions/promise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/promise.h b/src/lightspeed/base/actions/promise.h
index d74a058..a285da3 100644
--- a/src/lightspeed/base/actions/promise.h
+++ b/src/lightspeed/base/actions/promise.h
@@ -790,7 +790,7 @@ protected:
 	friend class ComparableLess<Future<T> >;
 
 	bool lessThan(const Future<T> &other) const {return future < other.future;}
-	bool isNil() const {return future != nil;}
+	bool isNil() const {return future == nil;}
 
 	class Value:public IPromiseControl, public Resolution, public DynObject  {
 	public:
-- 
2.43.0


From 99876ec50a178f42fc727183759aecd938dc757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 016/180] fix: RefCntPtr is not touched after it releases the
 object which contains it

---
 src/lightspeed/base/memory/refCntPtr.h | 30 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/memory/refCntPtr.h b/src/lightspeed/base/memory/refCntPtr.h
index 15b7cd7..fcab334 100644
--- a/src/lightspeed/base/memory/refCntPtr.h
+++ b/src/lightspeed/base/memory/refCntPtr.h
@@ -148,10 +148,11 @@ namespace LightSpeed {
          * @return this         
          */
         RefCntPtr &operator=(const RefCntPtr &other) {
-        	Alloc::operator=(other);
         	other.manualAddRef();
-        	releasePtr();
+        	T *old = this->ptr;
+        	Alloc::operator=(other);
         	this->ptr = other.ptr;
+        	releaseObject(old);
             return *this;
         }
 
@@ -164,9 +165,10 @@ namespace LightSpeed {
 		}
 		RefCntPtr &operator=(RefCntPtr &&other) {
 			if (this != &other) {	
-				releasePtr();
+				T *old = this->ptr;
 				this->ptr = other.ptr;
 				other.ptr = 0;
+				releaseObject(old);
 			}
 			return *this;
 		}
@@ -292,16 +294,24 @@ namespace LightSpeed {
         ///safety release reference and handle releasing the resource
         inline bool releasePtr() const {
             if (!this->ptr) return false;
-            if (this->ptr->release() == true) {
+            T *old = this->ptr;
+            this->ptr = 0;
+            releaseObject(old);
+			return true;
+        }
+        ///releases reference of the object which is no longer assigned to this pointer
+        /** The pointer can be stored in the object which is being released, so it must not
+         * be touched after the reference is released
+         */
+        inline void releaseObject(T *old) const {
+            if (!old) return;
+            Alloc alloc = *this;
+            if (old->release() == true) {
 #ifdef _DEBUG
-            	this->ptr->debugClear();
+            	old->debugClear();
 #endif
-
-                const_cast<RefCntPtr *>(this)->Super::clear();
-            } else {
-                const_cast<RefCntPtr *>(this)->Super::detach();
+            	alloc.destroyInstance(old);
             }
-			return true;
         }
 
         ///releases reference, but will not detach the object from the pointer
-- 
2.43.0


From 05275bd5ef7e11401955822c5b055883668c1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 017/180] fix: Thread::sleep returns the reason when it has
 been woken up, not when it timed out

---
 src/lightspeed/mt/linux/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index db0a0d9..8aa2a7d 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -406,7 +406,7 @@ Thread *Thread::currentPtr() {
 
 bool Thread::impSleep(const Timeout &tm, natural &reason) {
 	bool r = sleeper->sleep(tm);
-	if (r) reason=sleeper->getReason();
+	if (!r) reason=sleeper->getReason();
 	return r;
 }
 
-- 
2.43.0


From 3bdb6fdb89e225f0ef2e4fa42f6f5483bcec4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 018/180] fix: Thread::isFinishing examines the thread it is
 called on

---
 src/lightspeed/mt/linux/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 8aa2a7d..7f1db0a 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -438,7 +438,7 @@ bool Thread::canFinish() throw() {
 
 ///true if thread is finishing already
 bool Thread::isFinishing() const throw() {
-	return (current().flags & flagFinish) != 0;
+	return (flags & flagFinish) != 0;
 }
 
 ///retrieves reference to TLS table
-- 
2.43.0


From eecac3ba39e141fbbddf719538e5e94f128ee908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 019/180] fix: thread which failed to start can be joined and
 destroyed

---
 src/lightspeed/mt/linux/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 7f1db0a..9f1201a 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -371,6 +371,8 @@ void Thread::start(const IThreadFunction &fn, natural stackSize) {
 		pthread_attr_destroy(&attr);
 		//thread creation failed. We must remove fake context
 		threadContext = 0;
+		//there is no thread to wait for
+		joinObject.open();
 		//continue exception
 		throw;
 	}
-- 
2.43.0


From bd7408f9244b480ca95fc1dc9b83b0486a8902eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 020/180] fix: finished thread does not touch its owner again
 when it ends by an exception

---
 src/lightspeed/mt/linux/thread.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 9f1201a..149c7a2 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -112,10 +112,13 @@ public:
 		//note - thread is still running yet
 		tlstable->clear();
 		//open gate, when thread finished
-		if (owner) {
+		Thread *o = owner;
+		if (o) {
 			//reset context pointer - it is no longer available
-			writeReleasePtr<ThreadContext>(&owner->threadContext,0);
-			owner->getJoinObject().open();
+			writeReleasePtr<ThreadContext>(&o->threadContext,0);
+			o->getJoinObject().open();
+			//owner can be destroyed or restarted from now, don't touch it again
+			owner = 0;
 		}
 
 	}
-- 
2.43.0


From b0e112a98a2d981da9aa1b37e2362fa2e0208177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 021/180] fix: Thread::start does not wait forever when a
 thread hook throws an exception

---
 src/lightspeed/mt/linux/thread.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 149c7a2..f0784f6 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -211,7 +211,13 @@ void *ThreadContext::bootstrap(void * data) {
 
 		//start thread
 		try {
-			AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
+			try {
+				AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
+			} catch (...) {
+				//the caller is still waiting
+				bs->unblockCaller.wakeUp();
+				throw;
+			}
 
 			ctx->owner->getJoinObject().close();
 			//unblock caller - bootstrap data vanished
-- 
2.43.0


From 8428a3668c9fc3d3bc627064f9828faf77d7c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 022/180] fix: exception in a thread hook is reported to the
 hooks already initialized

---
 src/lightspeed/mt/threadHook.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/mt/threadHook.cpp b/src/lightspeed/mt/threadHook.cpp
index 87060b7..8e69b31 100644
--- a/src/lightspeed/mt/threadHook.cpp
+++ b/src/lightspeed/mt/threadHook.cpp
@@ -53,14 +53,18 @@ void AbstractThreadHook::uninstall() {
 
 static void callInitHooks(AbstractThreadHook *from, Thread &thread) {
 	if (from) {
+		AbstractThreadHook *next = from->getNextHook();
+		callInitHooks(next, thread);
 		try {
-			callInitHooks(from->getNextHook(), thread);
+			from->onThreadInit(thread);
 		} catch (...) {
-			from->onThreadException(thread);
+			//inform hooks which have been already initialized
+			while (next) {
+				next->onThreadException(thread);
+				next = next->getNextHook();
+			}
 			throw;
-
 		}
-		from->onThreadInit(thread);
 	}
 }
 
-- 
2.43.0


From 62ee2b5ce348fcb7721880bc349a59b90700d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 023/180] fix: thread attached to a kept context can sleep and
 has an id

---
 src/lightspeed/mt/linux/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index f0784f6..89a0aaf 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -702,6 +702,8 @@ bool Thread::attach( bool keepContext, IRuntimeAlloc *contextAlloc /*= 0*/ )
 		ctx->owner = this;
 		threadContext = ctx;
 		flags = flagAttached;
+		if (sleeper == nil) sleeper = new ThreadSleeper;
+		id = pthread_self();
 		joinObject.close();
 		AbstractThreadHook::callOnThreadInitHooks(*this);
 		return true;
-- 
2.43.0


From 34b78484fbb85382eb8666f186ab7ca1f8438fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 024/180] fix: thread variable created after the thread was
 started can be used in the thread

---
 src/lightspeed/mt/linux/thread.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 89a0aaf..d754aa5 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -183,15 +183,9 @@ void *ThreadContext::bootstrap(void * data) {
 	//store owner from bootstrap
 	ctx->owner = bs->owner;
 
-	//receive current state of TLS table
-	//calculate space needed
-	bksize = (TLSAllocator::getInstance().getMaxIndex() + 1) * sizeof (TLSRecord);
-	//reserve space at stack
-	bk = alloca(bksize);
-	//create allocator for AutoArray
-	InBlockAlloc bkalloc(bk,bksize);
 	//create TLS table for this thread
-	TLSTable<InBlockAlloc> tlstable(bkalloc);
+	//table must be able to grow, variables can be created after the thread is started
+	TLSTable<> tlstable;
 	//refer TLS table in the context
 	ctx->tlstable = &tlstable;
 
-- 
2.43.0


From 0d01f65837eb882c907e9e2c95eb13dbaabba4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 025/180] fix: Thread destructor called outside of any attached
 thread waits for the thread

---
 src/lightspeed/mt/linux/thread.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index d754aa5..fae5629 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -299,10 +299,10 @@ Thread::~Thread() try {
 	  this is not good practice, but may happen
 	  and also this is only way how to destroy attached
 	  Thread */
-	if (getCurrentContext() == threadContext) {
+	if (threadContext && getCurrentContext() == threadContext) {
 		/* we know, that current context will not disappear */
 		/* perform cleanup */
-		if (threadContext) threadContext->handleCleanup();
+		threadContext->handleCleanup();
 	} else {
 		/* called from different thread*/
 
@@ -598,6 +598,8 @@ public:
 		threaded = false;
 		setCurrentContext(0);
 		threadContext = 0;
+		//nothing to wait for in the destructor of the Thread
+		joinObject.open();
 	}
 
 	///Retrieves threaded TLS allocator
-- 
2.43.0


From 4a76220bd8e69df9b0bf920d65c6e300fdc535a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 026/180] fix: restarted thread is not confused by the end of
 its previous run

---
 src/lightspeed/mt/linux/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index fae5629..192f8d5 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -338,6 +338,8 @@ void Thread::start(const IThreadFunction &fn, natural stackSize) {
 	///Now, try to set new context. If there is one, function fails
 	if (lockCompareExchangePtr<ThreadContext>(&threadContext,0,&fakeContext) != 0)
 		throw ThreadBusyException(THISLOCATION);
+	//previous thread of this object has already released the context but it may not have opened the join object yet
+	joinObject.wait(nil);
 	//close join object - now other threads can see, that thread is already running
 	joinObject.close();
 
@@ -386,7 +388,6 @@ void Thread::start(const IThreadFunction &fn, natural stackSize) {
 
 void Thread::join() throw() {
 	getJoinObject().wait(nil);
-	threadContext = 0;
 }
 
 bool Thread::isRunning() const {
-- 
2.43.0


From 847607f87d8205416fb6c8f2785eefcbd896dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 027/180] fix: Map operator+ and operator- start from a copy of
 the left operand (operator- always returned an empty map)

---
 src/lightspeed/base/containers/map.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/base/containers/map.h b/src/lightspeed/base/containers/map.h
index 122bbfc..a2320b7 100644
--- a/src/lightspeed/base/containers/map.h
+++ b/src/lightspeed/base/containers/map.h
@@ -349,20 +349,16 @@ namespace LightSpeed {
 		enum Exclude{exclude};
 		enum Include{include};
 
-		Map(const Map &other, const Map &other2, Exclude ) {
-			(*this)-=other;
+		Map(const Map &other, const Map &other2, Exclude ):tree(other.tree) {
 			(*this)-=other2;
 		}
-		Map(const Map &other, const Map &other2, Include ) {
-			(*this)+=other;
+		Map(const Map &other, const Map &other2, Include ):tree(other.tree) {
 			(*this)+=other2;
 		}
-		Map(const Map &other, const KeyValue &other2, Exclude ) {
-			(*this)-=other;
+		Map(const Map &other, const KeyValue &other2, Exclude ):tree(other.tree) {
 			(*this)-=other2;
 		}
-		Map(const Map &other, const KeyValue &other2, Include ) {
-			(*this)+=other;
+		Map(const Map &other, const KeyValue &other2, Include ):tree(other.tree) {
 			(*this)+=other2;
 		}
 
-- 
2.43.0


From ac517e07de7076f2893cdaa888e4feb91ddf747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 028/180] fix: Map::compare did not compile (it applied the
 tree's comparator to keys)

---
 src/lightspeed/base/containers/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/map.h b/src/lightspeed/base/containers/map.h
index a2320b7..12fb990 100644
--- a/src/lightspeed/base/containers/map.h
+++ b/src/lightspeed/base/containers/map.h
@@ -318,8 +318,8 @@ namespace LightSpeed {
 			while(iter1.hasItems() && iter2.hasItems()) {
 				const KeyValue &a = iter1.getNext();
 				const KeyValue &b = iter2.getNext();
-				if (tree.cmpOper(a.key,b.key)) return cmpResultLess;
-				if (tree.cmpOper(b.key,a.key)) return cmpResultGreater;
+				if (tree.getCompareOperator()(a,b)) return cmpResultLess;
+				if (tree.getCompareOperator()(b,a)) return cmpResultGreater;
 			}
 			if (iter1.hasItems()) return cmpResultGreater;
 			else if (iter2.hasItems()) return cmpResultLess;
-- 
2.43.0


From 37bf72e7c1862bc7bb5b9a8d1ba4d2f161756d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 029/180] fix: Set operators +=, -= did not compile

---
 src/lightspeed/base/containers/set.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/set.h b/src/lightspeed/base/containers/set.h
index 067351b..c62304b 100644
--- a/src/lightspeed/base/containers/set.h
+++ b/src/lightspeed/base/containers/set.h
@@ -38,20 +38,20 @@ namespace LightSpeed {
 		}
 		Set &operator+=(const Set &other) {
 			for (typename Set::Iterator iter = other.getFwIter();iter.hasItems();)
-				insert(iter.getNext());
+				this->insert(iter.getNext());
 			return *this;
 		}
 		Set &operator+=(const T &item) {
-				insert(item);			
+				this->insert(item);
 				return *this;
 		}
 		Set &operator-=(const Set &other) {
 			for (typename Set::Iterator iter = other.getFwIter();iter.hasItems();)
-				remove(iter.getNext());
+				this->erase(iter.getNext());
 			return *this;
 		}
 		Set &operator-=(const T &item) {
-				remove(item);
+				this->erase(item);
 				return *this;
 		}
 
-- 
2.43.0


From cc6ece3da1cd70c8e3961877355fecef007141cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 030/180] fix: Set operator+ and operator- start from a copy of
 the left operand

---
 src/lightspeed/base/containers/set.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/base/containers/set.h b/src/lightspeed/base/containers/set.h
index c62304b..fb51a2e 100644
--- a/src/lightspeed/base/containers/set.h
+++ b/src/lightspeed/base/containers/set.h
@@ -74,20 +74,16 @@ namespace LightSpeed {
 		enum Exclude{exclude};
 		enum Include{include};
 
-		Set(const Set &other, const Set &other2, Exclude ) {
-			(*this)-=other;
+		Set(const Set &other, const Set &other2, Exclude ):Super(other) {
 			(*this)-=other2;
 		}
-		Set(const Set &other, const Set &other2, Include ) {
-			(*this)+=other;
+		Set(const Set &other, const Set &other2, Include ):Super(other) {
 			(*this)+=other2;
 		}
-		Set(const Set &other, const T &other2, Exclude ) {
-			(*this)-=other;
+		Set(const Set &other, const T &other2, Exclude ):Super(other) {
 			(*this)-=other2;
 		}
-		Set(const Set &other, const T &other2, Include ) {
-			(*this)+=other;
+		Set(const Set &other, const T &other2, Include ):Super(other) {
 			(*this)+=other2;
 		}
 	};
-- 
2.43.0


From 0b84080c017b64c77b9cfcf8add72452f28c2bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 031/180] fix: LinkedList::remove and erase of the last item
 left the list's end pointing at the removed item

---
 src/lightspeed/base/containers/linkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 1d405ac..13bb5de 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -253,6 +253,7 @@ namespace LightSpeed {
 			ListItem *prv = const_cast<ListItem *>(iter.prev);
 			ListItem *ret = const_cast<ListItem *>(iter.cur);
 			prv->next = ret->next;
+			if (ret == last) last = prv;
 			ret->next = 0;
 			return ret;
 		}
-- 
2.43.0


From 229c97ec798a38f93554fab3458466901faf18fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 032/180] fix: copying a LinkedList reversed its order

---
 src/lightspeed/base/containers/linkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 13bb5de..28d4aa1 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -107,7 +107,7 @@ namespace LightSpeed {
 		 */
 		LinkedList(const LinkedList &other):first(0),last(0),fact(other.fact) {
 			for (Iterator i = other.getFwIter();i.hasItems();)
-				insertFirst(i.getNext());
+				add(i.getNext());
 		}
 
 		LinkedList(MoveConstruct, LinkedList &other)
-- 
2.43.0


From bad02cdeb5e8e27a551a160fe01c44dcdf13fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 033/180] fix: LinkedList::getLast const returned the first
 item

---
 src/lightspeed/base/containers/linkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 28d4aa1..9eecffd 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -278,7 +278,7 @@ namespace LightSpeed {
 
 		///Retrieves last item
 		const T &getLast() const {
-			if (last) return first->value;
+			if (last) return last->value;
 			else throwIteratorNoMoreItems(THISLOCATION,typeid(T));
 			throw;
 		}
-- 
2.43.0


From 54beca45f826cf0833162d97bf93b335f8fe4b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 034/180] fix: assigning a LinkedList, Map or Set to itself
 emptied it

---
 src/lightspeed/base/containers/avltree.h    | 1 +
 src/lightspeed/base/containers/linkedList.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index e3784ae..40c39e5 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -128,6 +128,7 @@ namespace LightSpeed {
 		}
 
 		AVLTree &operator=(const AVLTree &other) {
+			if (this == &other) return *this;
 			clear();
 			insert(other);
 			return *this;
diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 9eecffd..dc097ae 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -124,6 +124,7 @@ namespace LightSpeed {
 
 		///assignment operator
 		LinkedList &operator=(const LinkedList &other) {
+			if (this == &other) return *this;
 			clear();
 			for (Iterator i = other.getFwIter();i.hasItems();)
 				add(i.getNext());
-- 
2.43.0


From 2d9b4e118a9fb97d028079d5565a96f36fb00aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 035/180] fix: the iterator returned by insert into Map, Set,
 MultiMap and MultiSet repeated items after a rotation of the tree

---
 src/lightspeed/base/containers/avltree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index 40c39e5..5091675 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -214,7 +214,8 @@ namespace LightSpeed {
 				count++;
 				if (*exist) *exist = false;
 			}
-			return Iterator(itr);
+			//rebalancing changes the path, so find it again
+			return Iterator(cmpOper,tree,nd,Direction::forward);
 		}
 
 
-- 
2.43.0


From 4b3594205e46d8935d58424305d3ac58fe0c92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 036/180] fix: MultiSet::insert moved a node between lists with
 different allocators

---
 src/lightspeed/base/containers/set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/set.h b/src/lightspeed/base/containers/set.h
index fb51a2e..64bb13d 100644
--- a/src/lightspeed/base/containers/set.h
+++ b/src/lightspeed/base/containers/set.h
@@ -179,7 +179,7 @@ namespace LightSpeed {
 			SetIter spos = Super::insert(tmp,&found);
 			if (found) {
 				MList &exist = const_cast<MList &>(spos.peek());
-				ListIter lpos = exist.add(tmp.removeFirst());
+				ListIter lpos = exist.add(val);
 				return Iterator(spos,lpos);
 			} else {
 				return Iterator(spos);
-- 
2.43.0


From 20cccaf82d668195073e5731ca483d8f446de000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 037/180] fix: FastLockR::unlockSaveRecusion left the caller
 recorded as the owner of the released lock

---
 src/lightspeed/mt/fastlock.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index bf1d4cd..1653a33 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -297,6 +297,7 @@ public:
 	natural unlockSaveRecusion() {
 		natural ret = recursiveCount;
 		recursiveCount = 0;
+		ownerThread = 0;
 		FastLock::unlock();
 		return ret;
 	}
@@ -316,6 +317,7 @@ public:
 		if (tryLock) {
 			//call original tryLock - it returns false, when lock is owned
 			if (!FastLock::tryLock()) return false;
+			ownerThread = getCurThreadId();
 		} else {
 			//try to lock
 			lock();
-- 
2.43.0


From c9d8c654c1c0a6f07f6558e5e82bfae6ba7f8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 038/180] fix: copying a Deque, Stack or Queue copied
 uninitialized memory instead of the items

---
 src/lightspeed/base/containers/deque.h   |  2 ++
 src/lightspeed/base/containers/deque.tcc | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/lightspeed/base/containers/deque.h b/src/lightspeed/base/containers/deque.h
index e25ad50..4ee19ff 100644
--- a/src/lightspeed/base/containers/deque.h
+++ b/src/lightspeed/base/containers/deque.h
@@ -28,6 +28,8 @@ public:
 
 	Deque();
 	Deque(const Alloc &alloc);
+	Deque(const Deque &other);
+	Deque &operator=(const Deque &other);
 	~Deque();
 
 	bool empty() const;
diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index 2b56a32..d86dec1 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -31,6 +31,28 @@ namespace LightSpeed {
 
 	}
 
+	template<typename T, typename Alloc >
+	Deque<T, Alloc>::Deque(const Deque &other)
+		:Super(other), memBlock(other.memBlock,other.length()), head(0), tail(0)
+	{
+		try {
+			for (natural i = 0, l = other.length(); i < l; i++) pushFront(other.at(i));
+		} catch (...) {
+			clear();
+			throw;
+		}
+	}
+
+	template<typename T, typename Alloc >
+	Deque<T, Alloc> &Deque<T, Alloc>::operator=(const Deque &other)
+	{
+		if (this != &other) {
+			clear();
+			for (natural i = 0, l = other.length(); i < l; i++) pushFront(other.at(i));
+		}
+		return *this;
+	}
+
 
 	template<typename T, typename Alloc /*= StdAlloc*/>
 	typename Deque<T, Alloc>::Ref Deque<T, Alloc>::set(natural index, ConstRef val)
-- 
2.43.0


From 26d8465fc98365c6c01886a717e5d69471be32e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 039/180] fix: Deque::pushBack made an empty deque look full
 when the construction of the item failed

---
 src/lightspeed/base/containers/deque.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index d86dec1..41873ea 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -104,9 +104,9 @@ namespace LightSpeed {
 	{
 		if (isFull()) tryExpand();
 		natural memSz = memBlock.getSize();
-		if (head == 0) head = memSz;
 		natural at = (tail + memSz - 1) % memSz;
 		val.construct(memBlock.getBase() + at);
+		if (head == 0) head = memSz;
 		tail = at;
 
 	}
-- 
2.43.0


From ecb62d0b757f9011b35e99cf84579ea65ea0e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 040/180] fix: erasing through an iterator returned by
 LinkedList::add, insertAfter or insertBefore removed the first item of the
 list

---
 src/lightspeed/base/containers/linkedList.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index dc097ae..7739fa0 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -199,7 +199,7 @@ namespace LightSpeed {
 			item->next = const_cast<ListItem *>(iter.cur->next);
 			const_cast<ListItem *>(iter.cur)->next = item;
 			if (iter.cur == last) last = item;
-			return Iterator(item);
+			return Iterator(item,iter.cur);
 		}
 
 		///Inserts new node as before the node pointed by the iterator
@@ -210,24 +210,26 @@ namespace LightSpeed {
 		 */
 		Iterator insertBefore(const Iterator &iter, ListItem *item) {
 			if (!iter.hasItems()) throwIteratorNoMoreItems(THISLOCATION,typeid(T));
-			if (iter.prev == 0) return insertFirst(item);
+			const ListItem *prev = iter.prev;
+			const_cast<Iterator &>(iter).prev = item;
+			if (prev == 0) return insertFirst(item);
 
 			item->next = const_cast<ListItem *>(iter.cur);
-			const_cast<ListItem *>(iter.prev)->next = item;
-			const_cast<Iterator &>(iter).prev = item;
-			return Iterator(item);
+			const_cast<ListItem *>(prev)->next = item;
+			return Iterator(item,prev);
 		}
 
 
 		///Appends node
 		Iterator add(ListItem *x) {
 			x->next = 0;
+			ListItem *prev = last;
 			if (last == 0) first = last = x;
 			else {
 				last->next = x;
 				last = x;
 			}
-			return Iterator(x);
+			return Iterator(x,prev);
 		}
 
 		///Removes node and returs it
-- 
2.43.0


From 3875f755169550fe665d64ea5fa26c096640bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 041/180] fix: assigning an AutoArray to itself emptied it

---
 src/lightspeed/base/containers/autoArray.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index abbf795..a33b590 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -226,6 +226,7 @@ AutoArrayT<T,Alloc>::AutoArrayT(const AutoArrayT &arr)
 
 template<typename T, typename Alloc>
 AutoArrayT<T,Alloc> &AutoArrayT<T,Alloc>::operator=(const AutoArrayT &arr) {
+    if (this == &arr) return *this;
     clear();
     natural sz = arr.length();
     if (sz > 0) {
-- 
2.43.0


From 2a22ce00f69d99d75eba863a2b7350ecca368c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 042/180] fix: inserting no items into the middle of an
 AutoArray destroyed the items behind the position

---
 src/lightspeed/base/containers/autoArray.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index a33b590..b881985 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -192,6 +192,7 @@ void AutoArrayT<T,Alloc>::clear() {
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::reserveAt(natural pos, natural count) {
 
+	if (count == 0) return;
 	//add space for new items
 	this->addExtra(count);
 	try {
@@ -207,6 +208,7 @@ void AutoArrayT<T,Alloc>::reserveAt(natural pos, natural count) {
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::unreserveAt(natural pos, natural count) {
 
+	if (count == 0) return;
 	try {
 		//move items at position
 		move(allocBk.getBase()+pos+count,usedSz - pos - count,allocBk.getBase()+pos);
-- 
2.43.0


From e8bb48417745c7cb2e880e963291d4f0bfc1dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 043/180] fix: SmallAlloc released memory of its allocator by
 operator delete

---
 src/lightspeed/base/memory/smallAlloc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/smallAlloc.h b/src/lightspeed/base/memory/smallAlloc.h
index 9fd4007..6db9ce2 100644
--- a/src/lightspeed/base/memory/smallAlloc.h
+++ b/src/lightspeed/base/memory/smallAlloc.h
@@ -61,7 +61,8 @@ namespace LightSpeed {
 			bool move(AllocatedMemory &other) {
 				if (isLocal()) return false;
 				if (!other.isLocal()) {
-					operator delete(other.ptr);
+					if (other.alloc) other.alloc->dealloc(other.ptr,other.size*sizeof(T));
+					else operator delete(other.ptr);
 				}
 				other.ptr = ptr;
 				other.size = size;
-- 
2.43.0


From 5b52f73fa06d0f72f054c35e9149c0a748f3d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 044/180] fix: LinkedList::swap exchanged the items but not the
 allocators which own them

---
 src/lightspeed/base/containers/linkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 7739fa0..af02a28 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -120,6 +120,7 @@ namespace LightSpeed {
 		void swap(LinkedList &other) {
 			std::swap(first,other.first);
 			std::swap(last,other.last);
+			std::swap(fact,other.fact);
 		}
 
 		///assignment operator
-- 
2.43.0


From 6c1334348efb70c54389989d4c950dcdc746d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 045/180] fix: ArrayT::findOneOf(set, pos) did not compile
 (misspelled call)

---
 src/lightspeed/base/containers/arrayt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index a9beae9..28704fa 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -534,7 +534,7 @@ public:
 
     template<typename Oth>
     natural findOneOf(const ArrayT<T,Oth> &other, natural pos) const{
-    	natural r = offset(pos).findOneof(other);
+    	natural r = offset(pos).findOneOf(other);
     	return r == naturalNull?r:r+pos;
     }
 
-- 
2.43.0


From d8fbbdf3c0c26cf7e65a507cfcf26a6b149c0b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 046/180] fix: ArrayT::findLast(item, pos) could not be called
 (template parameter that cannot be deduced)

---
 src/lightspeed/base/containers/arrayt.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 28704fa..3036d9b 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -545,7 +545,6 @@ public:
     	return length() - pos - 1;
     }
 
-    template<typename Oth>
     natural findLast(const ItemT &other, natural pos) const{
     	natural r = head(pos).findLast(other);
     	return r;
-- 
2.43.0


From adb418d6656807d9990ab1de66e51be920f903d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 047/180] fix: ArrayT::repeat of a constant array did not
 compile (built the mutable view)

---
 src/lightspeed/base/containers/arrayt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 3036d9b..47d88a9 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -392,7 +392,7 @@ public:
 	}
 
 	ConstRep repeat(natural count) const {
-		return Rep(*this, count);
+		return ConstRep(*this, count);
 	}
 	ArrayTRef<T,Impl &> ref() {
 		return ArrayTRef<T,Impl &>(this->_invoke());
-- 
2.43.0


From 385c6726adb8ee16fc4208f48c7ff123811e6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 048/180] fix: ArrayT::forEach(from, count) clipped the range
 wrongly and ran past the end

---
 src/lightspeed/base/containers/arrayt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 47d88a9..47e6690 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -75,7 +75,7 @@ public:
 	bool forEach(Fn functor, natural from, natural count) const {
 		natural l = length();
 		if (from > l) return true;
-		if (from + count > l) count = l - count;
+		if (from + count > l) count = l - from;
 		if (count == 0) return true;
 		return this->_invoke().forEach(functor, from, count);
 	}
-- 
2.43.0


From 0948829839928d07bd96eec089eb4fc1a4d466fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 049/180] fix: ArrSum::forEach lost items of the second array
 when the range does not start at zero

---
 src/lightspeed/base/containers/arrayExpr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 1507f65..3d8a3e7 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -91,7 +91,7 @@ namespace LightSpeed {
 		
 		template<typename Fn>
 		bool forEach(Fn functor) const {
-			return foreach(functor,0,length());
+			return forEach(functor,0,length());
 		}
 
 		template<typename Fn>
@@ -101,7 +101,7 @@ namespace LightSpeed {
 			else if (from + count <= l) return a._invoke().forEach(functor,from,count);
 			else return (
 				a._invoke().forEach(functor,from,l-from) 
-								|| b._invoke().forEach(functor,0,count - l));
+								|| b._invoke().forEach(functor,0,count - (l-from)));
 
 		}
 		
-- 
2.43.0


From 067981bf10ba752e3cd0a397877ada82da933e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 050/180] fix: ArrMid::empty() was inverted, searches of views
 of views found nothing

---
 src/lightspeed/base/containers/arrayExpr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 3d8a3e7..77f1c2d 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -153,7 +153,7 @@ namespace LightSpeed {
 		}
 	
 		bool empty() const {
-			return len > 0;
+			return len == 0;
 		}
 
 		ArrRef a;
-- 
2.43.0


From 5dff8e110e7881f6426946ea3ebbd24463b48f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 051/180] fix: ArrayT::Iterator::seek backward always ran
 before the begin, canSeek forward was inverted

---
 src/lightspeed/base/containers/arrayt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 47e6690..59ba71b 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -127,7 +127,7 @@ public:
 					return offset;
 				case Direction::backward:
 					if (offset == 0) return 0;
-					if (pos+1 > 0) offset = pos+1;
+					if (offset > pos+1) offset = pos+1;
 					pos-= offset;
 					return offset;
 				case Direction::absolute:
@@ -147,7 +147,7 @@ public:
 			switch(direction) {
 				case Direction::current:return canSeek(dir);
 				case Direction::reversed:return canSeek(Direction::reverse(dir));
-				case Direction::forward:return pos >= sz;
+				case Direction::forward:return pos < sz;
 				case Direction::backward:return pos != naturalNull;
 				case Direction::absolute:return true;
 				default: return false;
-- 
2.43.0


From 24e8aeab71d299364938d4dc6caa545c457fff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 052/180] fix: ArrayT::findLast(array) returned the position of
 the last item of the match

---
 src/lightspeed/base/containers/arrayt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 59ba71b..e2fb9ce 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -555,7 +555,7 @@ public:
     natural findLast(const ArrayT<T,Oth> &other) const{
     	natural p = offset(0).reverse().find(other.offset(0).reverse());
     	if (p == naturalNull) return p;
-    	return length() - p - 1;
+    	return length() - p - other.length();
     }
 
 
@@ -569,7 +569,7 @@ public:
     natural findLastArr(const ArrayT<T,Oth> &other) const{
     	natural p = offset(0).reverse().find(other.offset(0).reverse());
     	if (p == naturalNull) return p;
-    	return length() - p - 1;
+    	return length() - p - other.length();
     }
 
     template<typename Oth>
-- 
2.43.0


From b8f7e043e76e5403932cd822fa039198f64c8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 053/180] fix: ArrRep::forEach divided by zero when the
 repeated array is empty

---
 src/lightspeed/base/containers/arrayExpr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 77f1c2d..85fe064 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -257,7 +257,9 @@ namespace LightSpeed {
 
 		template<typename Fn>
 		bool forEach(Fn functor, natural from, natural count) const {
-			natural l = a.length(), k = from % l;
+			natural l = a.length();
+			if (l == 0) return false;
+			natural k = from % l;
 			while (k + count > l) {
 				if (a.forEach(functor,k,l-k)) return true;
 				count -= l-k;
-- 
2.43.0


From b2e8a4721b7dda11cf27e91513532dba874e5cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 054/180] fix: comparing a string with a literal by <=
 evaluated >=

---
 src/lightspeed/base/containers/constStr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/constStr.h b/src/lightspeed/base/containers/constStr.h
index 4802116..1139907 100644
--- a/src/lightspeed/base/containers/constStr.h
+++ b/src/lightspeed/base/containers/constStr.h
@@ -225,7 +225,7 @@ namespace LightSpeed {
 	template<typename T, int n>
 	inline bool operator>=(const ConstStringT<T> &c, const T (&str)[n]) {return c >= makeCStr(str); }
 	template<typename T, int n>
-	inline bool operator<=(const ConstStringT<T> &c, const T (&str)[n]) {return c >= makeCStr(str); }
+	inline bool operator<=(const ConstStringT<T> &c, const T (&str)[n]) {return c <= makeCStr(str); }
 	template<typename T, int n>
 	inline bool operator>>(const ConstStringT<T> &c, const T (&str)[n]) {return StrCmpCI<T>()(c,makeCStr(str)) == cmpResultGreater; }
 	template<typename T, int n>
-- 
2.43.0


From 8682da3f25db881070a34abbaaa15336d7b60884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 055/180] fix: PriorityQueue did not compile with another than
 the default allocator

---
 src/lightspeed/base/containers/priorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/priorityQueue.h b/src/lightspeed/base/containers/priorityQueue.h
index 1848cfd..848b47a 100644
--- a/src/lightspeed/base/containers/priorityQueue.h
+++ b/src/lightspeed/base/containers/priorityQueue.h
@@ -39,7 +39,7 @@ namespace LightSpeed {
 
 	protected:
 		AutoArray<T,Allocator> items;
-		HeapSort<AutoArray<T>, Cmp> heap;
+		HeapSort<AutoArray<T,Allocator>, Cmp> heap;
 	};
 
 
-- 
2.43.0


From 4e35daae347cd81b2de35262cb2ee01f2640661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 056/180] fix: a copied PriorityQueue kept its heap over the
 items of the original

---
 src/lightspeed/base/containers/priorityQueue.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lightspeed/base/containers/priorityQueue.h b/src/lightspeed/base/containers/priorityQueue.h
index 848b47a..38e0d90 100644
--- a/src/lightspeed/base/containers/priorityQueue.h
+++ b/src/lightspeed/base/containers/priorityQueue.h
@@ -22,6 +22,13 @@ namespace LightSpeed {
 		explicit PriorityQueue(const Cmp &cmp):heap(items,cmp) {}
 		explicit PriorityQueue(const Allocator &alloc):items(alloc),heap(items) {}
 		PriorityQueue(const Allocator &alloc,const Cmp &cmp):items(alloc),heap(items,cmp) {}
+		PriorityQueue(const PriorityQueue &other)
+			:items(other.items),heap(items,other.heap.getCmpOp()) {heap.setSize(items.length());}
+		PriorityQueue &operator=(const PriorityQueue &other) {
+			items = other.items;
+			heap.setSize(items.length());
+			return *this;
+		}
 
 		void push(const T &x) {items.add(x);heap.push();}
 
-- 
2.43.0


From 3108e48e3736c60d8128521ac1442a43a0ee2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 057/180] fix: SortFilter::needItems did not compile, Optional
 has no isSet

---
 src/lightspeed/base/iter/sortFilter.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/iter/sortFilter.tcc b/src/lightspeed/base/iter/sortFilter.tcc
index 8c0e862..5ed0a10 100644
--- a/src/lightspeed/base/iter/sortFilter.tcc
+++ b/src/lightspeed/base/iter/sortFilter.tcc
@@ -31,7 +31,7 @@ SortFilter<T,Order,Allocator>::SortFilter(const Order &order,Allocator alloc)
 template<typename T, typename Order, typename Allocator>
 inline bool SortFilter<T,Order,Allocator>::needItems() const
 {
-    return !extraItem.isSet();
+    return extraItem == nil;
 }
 
 
-- 
2.43.0


From eaeec431c935ffdbd053ace666853b122e47ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 058/180] fix: a copied SortFilter had an empty heap and lost
 the extra item

---
 src/lightspeed/base/iter/sortFilter.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/iter/sortFilter.tcc b/src/lightspeed/base/iter/sortFilter.tcc
index 5ed0a10..5014c50 100644
--- a/src/lightspeed/base/iter/sortFilter.tcc
+++ b/src/lightspeed/base/iter/sortFilter.tcc
@@ -68,13 +68,15 @@ inline bool SortFilter<T,Order,Allocator>::hasItems() const
 
 template<typename T, typename Order, typename Allocator>
 SortFilter<T,Order,Allocator>::SortFilter(const SortFilter &other)
-    :buffer(other.buffer),heap(buffer, other.heap.getCmpOp()) {
+    :buffer(other.buffer),extraItem(other.extraItem),heap(buffer, other.heap.getCmpOp()) {
+    heap.setSize(buffer.length());
 
 }
 
 template<typename T, typename Order, typename Allocator>
 SortFilter<T,Order,Allocator> &SortFilter<T,Order,Allocator>::operator=(const SortFilter &other) {
     buffer = other.buffer;
+    extraItem = other.extraItem;
     heap.setSize(buffer.length());
     return *this;
 }
-- 
2.43.0


From e0e224a3c95d5921a2bc0ac938499807444ffb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 059/180] fix: PriorityQueue::pop removed as many items as the
 queue keeps

---
 src/lightspeed/base/containers/priorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/priorityQueue.h b/src/lightspeed/base/containers/priorityQueue.h
index 38e0d90..bd24b62 100644
--- a/src/lightspeed/base/containers/priorityQueue.h
+++ b/src/lightspeed/base/containers/priorityQueue.h
@@ -37,7 +37,7 @@ namespace LightSpeed {
 
 		const T &top() const { return items[0]; }
 		T &top() { return items(0); }
-		void pop() { heap.pop(); items.trunc(heap.getSize()); }
+		void pop() { heap.pop(); items.trunc(items.length() - heap.getSize()); }
 		void clear() {heap.clear();items.clear();}
 		bool empty() const {return items.empty();}
 
-- 
2.43.0


From aaf563eeb4499901718419bc961b926de44f4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 060/180] fix: HeapSort::pop(at) rebuilt the heap from the top
 instead of the place it filled

---
 src/lightspeed/base/containers/sort.tcc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/sort.tcc b/src/lightspeed/base/containers/sort.tcc
index 09d8978..69ae45d 100644
--- a/src/lightspeed/base/containers/sort.tcc
+++ b/src/lightspeed/base/containers/sort.tcc
@@ -71,7 +71,13 @@ bool HeapSort<Container,Cmp>::pop(natural at) {
         heapSize--;
         if (heapSize > at) {
             std::swap(cont(at),cont(heapSize));
-            shiftDown();
+            //item comes from other branch, so it can be also better than its new parent
+            natural child = at;
+            while (child > 0 && isLess(cont[(child - 1) / 2],cont[child])) {
+                std::swap(cont((child - 1) / 2),cont(child));
+                child = (child - 1) / 2;
+            }
+            if (child == at) shiftDown(at);
         }
         return true;
     } else {
-- 
2.43.0


From 69a948c88c06816239ea3c75d05761710ec79e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 061/180] fix: SortFilter::clear kept the extra item

---
 src/lightspeed/base/iter/sortFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/iter/sortFilter.h b/src/lightspeed/base/iter/sortFilter.h
index da76298..cf04296 100644
--- a/src/lightspeed/base/iter/sortFilter.h
+++ b/src/lightspeed/base/iter/sortFilter.h
@@ -57,7 +57,7 @@ namespace LightSpeed {
         void input(const T &x);
         bool hasItems() const;
         T output() ;
-		void clear() {buffer.clear();heap.reset();}
+		void clear() {buffer.clear();extraItem = nil;heap.reset();}
 		natural length() const {return buffer.length();}
 		bool empty() const {return buffer.empty();}
 
-- 
2.43.0


From 2afd8962e28ebcca0d76be6479d77f2d0070ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 062/180] fix: peek() of a converting iterator did not compile
 (read from a constant source)

---
 src/lightspeed/base/iter/iterConv.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/iter/iterConv.h b/src/lightspeed/base/iter/iterConv.h
index 56103e4..d9cae09 100644
--- a/src/lightspeed/base/iter/iterConv.h
+++ b/src/lightspeed/base/iter/iterConv.h
@@ -451,9 +451,11 @@ template<typename From, typename To, typename Impl>
 template<typename Iter>
 inline const To& ConverterBase<From, To, Impl>::peekFromIter(const Iter& source) const{
 	if (this->hasItems) return Super::peek();
+	Impl &impl = const_cast<Impl &>(this->getImpl());
+	Iter &iter = const_cast<Iter &>(source);
 	while (!this->hasItems) {
 		if (this->eolb) throwIteratorNoMoreItems(THISLOCATION, typeid(To));
-		Super::write(source.getNext());
+		impl.write(iter.getNext());
 	}
 	return Super::peek();
 }
-- 
2.43.0


From d57eb2ff4a2b64dd97b0ad6c8eb1bc80fd843722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 063/180] fix: FilterRead::blockRead did not compile, ignored
 the end of the source and swapped the meaning of readAll

---
 src/lightspeed/base/iter/iteratorFilter.tcc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/iter/iteratorFilter.tcc b/src/lightspeed/base/iter/iteratorFilter.tcc
index 79809b1..d1411ae 100644
--- a/src/lightspeed/base/iter/iteratorFilter.tcc
+++ b/src/lightspeed/base/iter/iteratorFilter.tcc
@@ -137,17 +137,21 @@ namespace LightSpeed {
     	if (buffer.length() == 0) return 0;
     	natural pos = 0;
     	if (fetched == 1) {
-    		buffer[fetched] = getNext();
+    		buffer.set(0,getNext());
     		pos+=1;
     	}
-    	do {
+    	while (pos < buffer.length()) {
     		if (!flt.hasItems()) {
+    			if (pos != 0 && !readAll) break;
     			flt.blockFetch(this->iter);
+    			if (!flt.hasItems()) {
+    				if (readAll) throwIteratorNoMoreItems(THISLOCATION,typeid(OutputT));
+    				break;
+    			}
     		}
     		natural c = flt.blockOutput(buffer.offset(pos).ref());
     		pos+=c;
-
-    	} while (!readAll && pos < buffer.length());
+    	}
     	return pos;
     }
 
-- 
2.43.0


From e1549c59d6f5cb16cc0321b9460e63117fddb308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 064/180] fix: ConverterBase::blockRead read past the end of
 the source and lost the items already read

---
 src/lightspeed/base/iter/iterConv.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/iter/iterConv.h b/src/lightspeed/base/iter/iterConv.h
index d9cae09..afc65ea 100644
--- a/src/lightspeed/base/iter/iterConv.h
+++ b/src/lightspeed/base/iter/iterConv.h
@@ -409,14 +409,11 @@ inline natural ConverterBase<From, To, Impl>::blockRead(Iter& source, FlatArray&
 	for (natural i = 0; i < avail; i++) {
 		while (!this->hasItems) {
 			if (this->eolb) return i;
-			Super::write(source.getNext());
 			if (!source.hasItems()) {
 				Super::flush();
-				while (i < avail && this->hasItems) {
-					target[i] = Super::getNext();
-					i++;
-				}
-				return i;
+				if (!this->hasItems) return i;
+			} else {
+				Super::write(source.getNext());
 			}
 		}
 		target[i] = Super::getNext();
-- 
2.43.0


From 46cc8bb9dc3a0b8c0223b556d79b8f03c14472f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 065/180] fix: ByteToBase85Convert::flush gave old characters
 when there was nothing to flush

---
 src/lightspeed/utils/base85.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base85.cpp b/src/lightspeed/utils/base85.cpp
index 50f0006..7ec1e72 100644
--- a/src/lightspeed/utils/base85.cpp
+++ b/src/lightspeed/utils/base85.cpp
@@ -105,7 +105,7 @@ void ByteToBase85Convert::flush() {
 	}
 	this->eolb = true;
 	this->needItems = false;
-	this->hasItems = true;
+	this->hasItems = wrpos != 0;
 }
 
 Base85ToByteConvert::Base85ToByteConvert()
-- 
2.43.0


From a784919a3ff7421e1a87b0f8834c0069be7012ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 066/180] fix: Base85ToByteConvert::flush of a single character
 read beyond the buffer

---
 src/lightspeed/utils/base85.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/utils/base85.cpp b/src/lightspeed/utils/base85.cpp
index 7ec1e72..45617ef 100644
--- a/src/lightspeed/utils/base85.cpp
+++ b/src/lightspeed/utils/base85.cpp
@@ -159,6 +159,7 @@ void Base85ToByteConvert::flush() {
 		for (natural i = 0; i < remain; i++)
 			write(encoder[84]);
 		maxreadpos-=remain;
+		if (maxreadpos == 0) reset();
 	}
 	this->eolb = true;
 }
-- 
2.43.0


From 76c3530bbff66f6fdb9300a2b4670d903c743d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 067/180] fix: Base16ToByteConvert swapped the meaning of
 caseSensitive

---
 src/lightspeed/utils/base16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base16.cpp b/src/lightspeed/utils/base16.cpp
index 85e9b5b..d7a0e77 100644
--- a/src/lightspeed/utils/base16.cpp
+++ b/src/lightspeed/utils/base16.cpp
@@ -96,7 +96,7 @@ void Base16ToByteConvert::flush() {
 void Base16ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
 
-	if (caseSensitive) {
+	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
 			table[(unsigned int)(toupper(t[i]))] = (byte)(i & 0xF);
 			table[(unsigned int)(tolower(t[i]))] = (byte)(i & 0xF);
-- 
2.43.0


From 252471f95bfe00d6215518e5d5100a87bd93e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 068/180] fix: Base32ToByteConvert swapped the meaning of
 caseSensitive

---
 src/lightspeed/utils/base32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 8aa8c2b..528d35b 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -203,7 +203,7 @@ void Base32ToByteConvert::flush() {
 void Base32ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
 
-	if (caseSensitive) {
+	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
 			table[(unsigned int)(toupper(t[i]))] = (byte)(i & 31);
 			table[(unsigned int)(tolower(t[i]))] = (byte)(i & 31);
-- 
2.43.0


From 5f237ad2fa8af0fc16c2e3744d13f2d30e19371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 069/180] fix: ByteToBase32Convert without padding lost the
 last character

---
 src/lightspeed/utils/base32.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 528d35b..7b161ea 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -41,7 +41,7 @@ const char &ByteToBase32Convert::getNext() {
 		needItems = true;
 		hasItems = false;
 	} else {
-		hasItems = readpos < wrbyte*8/5;
+		hasItems = readpos < (wrbyte*8 + (this->eolb?4:0))/5;
 	}
 	return out;
 }
@@ -120,7 +120,7 @@ void ByteToBase32Convert::flush() {
 	}
 
 	//unlock hasItems only if there are chars to read.
-	hasItems = readpos < wrbyte*8/5;
+	hasItems = readpos < (wrbyte*8 + (this->eolb?4:0))/5;
 }
 
 Base32ToByteConvert::Base32ToByteConvert()
-- 
2.43.0


From 88af9bce0d8454a7386933feffb6ef50902bf45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 070/180] fix: Base64Decoder lost two bytes of unpadded input
 at its end

---
 src/lightspeed/utils/base64.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base64.tcc b/src/lightspeed/utils/base64.tcc
index 8f43dd9..457a973 100644
--- a/src/lightspeed/utils/base64.tcc
+++ b/src/lightspeed/utils/base64.tcc
@@ -145,7 +145,7 @@ Base64DecoderT<Char,Bin>::Base64DecoderT():buffer(0),cycle(0),eos(7) {
 template<typename Char, typename Bin>
 void Base64DecoderT<Char,Bin>::flush() {
 	if (cycle < 4 && cycle > 0) {
-		eos = 7 - cycle;
+		eos = cycle + 3;
 		cycle = 4;
 	}
 }
-- 
2.43.0


From aaa6051bb87b294fa08e2ce7e09b23633dca199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 071/180] fix: FilterWrite::blockWrite of a mutable array wrote
 only a part when asked for all

---
 src/lightspeed/base/iter/iteratorFilter.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/iter/iteratorFilter.tcc b/src/lightspeed/base/iter/iteratorFilter.tcc
index d1411ae..958b2cf 100644
--- a/src/lightspeed/base/iter/iteratorFilter.tcc
+++ b/src/lightspeed/base/iter/iteratorFilter.tcc
@@ -167,7 +167,7 @@ namespace LightSpeed {
     		natural c = flt.blockInput(buffer.offset(pos));
     		pos+=c;
 
-    	} while (!writeAll && pos < buffer.length());
+    	} while (writeAll && pos < buffer.length());
     	//this is need to handle 1:1 filters correctly
         if (!flt.needItems()) flushCycle();
     	return pos;
-- 
2.43.0


From 569244540ddf71ce0273c13b39853dcf2e9dbf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 072/180] fix: HexDecoder with its own digits gave a byte
 before it got any

---
 src/lightspeed/utils/base64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base64.h b/src/lightspeed/utils/base64.h
index c612e68..be22022 100644
--- a/src/lightspeed/utils/base64.h
+++ b/src/lightspeed/utils/base64.h
@@ -211,7 +211,7 @@ namespace LightSpeed {
 	class HexDecoder: public IteratorFilterBase<In,Out,HexDecoder<In,Out> > {
 	public:
 		HexDecoder():idx(0) {loadHexChars("0123456789abcdef");}
-		HexDecoder(ConstStrA hexchars):idx(2) {loadHexChars(hexchars);}
+		HexDecoder(ConstStrA hexchars):idx(0) {loadHexChars(hexchars);}
         bool needItems() const;
         void input(const In &x);
         bool hasItems() const;
-- 
2.43.0


From 0f35ba919d690aeec5648b0d98734dad90e63402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 073/180] fix: UTF-8 encoders used a longer form than necessary
 for the last character of each length

---
 src/lightspeed/base/streams/utf.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/streams/utf.cpp b/src/lightspeed/base/streams/utf.cpp
index 9984d42..fb51f12 100644
--- a/src/lightspeed/base/streams/utf.cpp
+++ b/src/lightspeed/base/streams/utf.cpp
@@ -89,19 +89,19 @@ namespace LightSpeed {
      if (c < 128) {
              fbyte = (char)c;
              parts = 0;
-     } else if (c < 0x7ff) { // xx011 1111 1111
+     } else if (c < 0x800) { // xx011 1111 1111
          fbyte = (char)(c >> 6) | 0xC0;
          parts = 1;
-     } else if (c < 0xffff) {
+     } else if (c < 0x10000) {
          fbyte  = (char)(c >> 12) | 0xE0;
          parts = 2;
-     } else if (c < 0x1fffff) {
+     } else if (c < 0x200000) {
          fbyte = (char)(c >> 18) | 0xF0;
          parts = 3;
-     } else if (c < 0x3ffffff) {
+     } else if (c < 0x4000000) {
          fbyte = (char)(c >> 24) | 0xF8;
          parts = 4;
-     } else if (c < 0x7ffffff) {
+     } else if (c < 0x80000000) {
          fbyte = (char)(c >> 30) | 0xFC;
          parts = 5;
      } else  {
@@ -200,19 +200,19 @@ void WideToUtf8Convert::write(const wchar_t& item) {
     if (c < 128) {
             fbyte = (char)c;
             parts = 0;
-    } else if (c < 0x7ff) { // xx011 1111 1111
+    } else if (c < 0x800) { // xx011 1111 1111
         fbyte = (char)(c >> 6) | 0xC0;
         parts = 1;
-    } else if (c < 0xffff) {
+    } else if (c < 0x10000) {
         fbyte  = (char)(c >> 12) | 0xE0;
         parts = 2;
-    } else if (c < 0x1fffff) {
+    } else if (c < 0x200000) {
         fbyte = (char)(c >> 18) | 0xF0;
         parts = 3;
-    } else if (c < 0x3ffffff) {
+    } else if (c < 0x4000000) {
         fbyte = (char)(c >> 24) | 0xF8;
         parts = 4;
-    } else if (c < 0x7ffffff) {
+    } else if (c < 0x80000000) {
         fbyte = (char)(c >> 30) | 0xFC;
         parts = 5;
     } else  {
-- 
2.43.0


From 936bdacac9077325419a58d09b09757c54a1a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 074/180] fix: UTF-8 decoders ignored the byte 0xFF

---
 src/lightspeed/base/streams/utf.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lightspeed/base/streams/utf.cpp b/src/lightspeed/base/streams/utf.cpp
index fb51f12..51c7783 100644
--- a/src/lightspeed/base/streams/utf.cpp
+++ b/src/lightspeed/base/streams/utf.cpp
@@ -55,6 +55,11 @@ namespace LightSpeed {
              accum = a & 0x01, state = 5;
          } else if (a >= 0xFE && a < 0xFF) {
              accum = 0, state = 6;
+         } else {
+			 if (!skipInvChars)
+				throw InvalidUTF8Character(THISLOCATION, a);
+			 accum = a;
+			 state = 0;
          }
      } else {
          if (a >= 0x80 && a < 0xc0) {
@@ -164,6 +169,11 @@ void Utf8ToWideConvert::write(const char& item) {
             outchar = a & 0x01, state = 5;
         } else if (a >= 0xFE && a < 0xFF) {
             outchar = 0, state = 6;
+        } else {
+			 if (!skipInvChars)
+				throw InvalidUTF8Character(THISLOCATION, a);
+			 outchar = a;
+			 state = 0;
         }
     } else {
         if (a >= 0x80 && a < 0xc0) {
-- 
2.43.0


From 34600bf1801643ac4c25cb9a4ed55b63b0fa210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 075/180] fix: UrlDecoder offered a character while an escape
 was not complete

---
 src/lightspeed/utils/urlencode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/urlencode.h b/src/lightspeed/utils/urlencode.h
index f5d807b..2b7a6a5 100644
--- a/src/lightspeed/utils/urlencode.h
+++ b/src/lightspeed/utils/urlencode.h
@@ -124,7 +124,7 @@ inline void UrlDecoder::input(const char& x) {
 }
 
 inline bool UrlDecoder::hasItems() const {
-	return pt == 1 || (pt == 3 && buff[0] == '%');
+	return (pt == 1 && buff[0] != '%') || (pt == 3 && buff[0] == '%');
 }
 
 inline char UrlDecoder::output() {
-- 
2.43.0


From 743315978145bb3347e2c84f455a0d0aeea5b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 076/180] fix: LZW compressor wrote an extra byte when the end
 mark was already aligned

---
 src/lightspeed/utils/lzw.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index 6601601..232fba1 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -287,6 +287,8 @@ bool LZWCompressBase<Impl>::OutBuff::hasItems() const {
 
 template<typename Impl>
 void LZWCompressBase<Impl>::OutBuff::padzeroes() {
+	//nothing to pad when the last code ended at the boundary of a byte
+	if (wrbits == 8) return;
 	outbuff[wrpos] = accum ;
 	wrpos = (wrpos + 1) & 0xF;
 	wrbits = 8;
-- 
2.43.0


From cbe40326d25b9e258276653f5cc8afca2d04265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 077/180] fix: LZW decompressor did not start the next stream
 with an empty dictionary as the compressor does

---
 src/lightspeed/utils/lzw.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index 232fba1..cd67190 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -170,10 +170,10 @@ void LZWDecompressBase<Impl>::write(const byte& b) {
 			inbits = 0;
 			//reset accumulator
 			accum = 0;
+			//compressor starts next stream with an empty dictionary
+			clearDict();
 			//signal logical end
 			this->eolb = true;
-			//reset previous code, this allows to start new stream with same dictionary
-			prevCode=null;
 		} else {
 			ChainCode nextCode(dict.length()+firstChainCode);
 			if (code < 256) {
-- 
2.43.0


From 5063bc3240c81987b83d8003ef8780a6c9cbab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 078/180] fix: LZWp decompressor extended width of codes at
 different places than the compressor after dictionary has been optimized

---
 src/lightspeed/utils/lzw.cpp | 2 +-
 src/lightspeed/utils/lzw.tcc | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/lzw.cpp b/src/lightspeed/utils/lzw.cpp
index 9de3fb3..49d9462 100644
--- a/src/lightspeed/utils/lzw.cpp
+++ b/src/lightspeed/utils/lzw.cpp
@@ -139,7 +139,7 @@ void LZWpDecompress::optimizeDictionary() {
 			}
 			optTable(i) = nextCode;
 			newTable.add(CodeInfo(bout, prevCode));
-			if (nextCode+1 == (1 << codeBits)) {
+			if (nextCode == (1 << codeBits)) {
 				codeBits++;
 			}
 			nextCode++;
diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index cd67190..0a243da 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -204,8 +204,11 @@ void LZWDecompressBase<Impl>::write(const byte& b) {
 				this->getImpl().onUnknownCode(code);
 				return;
 			}
+			//code just added by the compressor - one ahead, unless this code is first
+			//after a clear and nothing has been added to the dictionary here
+			natural newCode = prevCode == nullChainCode?nextCode:nextCode+1;
 			prevCode = code;
-			if (nextCode+1 == (1 << codeBits)) {
+			if (newCode == (natural(1) << codeBits)) {
 				codeBits++;
 			}
 			this->hasItems = true;
-- 
2.43.0


From e27e620d8143e1adb49d0a887cd4dd6915558a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 079/180] fix: WeakRef which refers to nothing crashed in
 lock()

---
 src/lightspeed/base/memory/weakref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/weakref.h b/src/lightspeed/base/memory/weakref.h
index e29bf3b..9384ceb 100644
--- a/src/lightspeed/base/memory/weakref.h
+++ b/src/lightspeed/base/memory/weakref.h
@@ -93,7 +93,7 @@ public:
 	///Constructs empty empty
 	/** @note you have to avoid locking and unlocking empty reference until the value is set.
 	 * */
-	WeakRef() {}
+	WeakRef() {setPtr(0);}
 	///Construct WeakRef
 	/** Only way to construct weak ref is use other WeakRef instance to share the
 	 * reference which they are hold. You can however share from WeakRefTarget, which
-- 
2.43.0


From 6965f05a643e36ccd5854c8493931393f0ee5e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 080/180] fix: WeakRef could wake up a thread which waited for
 the last lock and has already finished

---
 src/lightspeed/base/memory/weakref.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/memory/weakref.h b/src/lightspeed/base/memory/weakref.h
index 9384ceb..045d1bb 100644
--- a/src/lightspeed/base/memory/weakref.h
+++ b/src/lightspeed/base/memory/weakref.h
@@ -70,12 +70,11 @@ class WeakRef {
 		 */
 		atomic lockCount;
 		///during "reseting" phase, this is set to object which must be notified about unlocking the reference
-		ISleepingObject *clearOutNotify;
+		RefCntPtr<IThreadSleeper> clearOutNotify;
 
 		Pointer(T *ptr)
 			:ptr(ptr)
-			,lockCount(initedFlag)
-			,clearOutNotify(0) {}
+			,lockCount(initedFlag) {}
 	};
 
 	///Contains null pointer which is marked as left
-- 
2.43.0


From ddb5d0ad06d2628c95448b758c1dc0723b91e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 081/180] fix: singletons created by several threads at once
 could be lost from the list of singletons to be destroyed

---
 src/lightspeed/base/memory/singleton.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/memory/singleton.h b/src/lightspeed/base/memory/singleton.h
index d7d99ce..825df42 100644
--- a/src/lightspeed/base/memory/singleton.h
+++ b/src/lightspeed/base/memory/singleton.h
@@ -17,6 +17,9 @@
 namespace LightSpeed {
 
     ///Contains helper classes to implement Singleton class
+	bool singletonInitLock( atomic &cnt);
+	void singletonRelease( atomic &cnt);
+
     namespace _intr {
 
         ///Declares singleton control chain
@@ -50,7 +53,11 @@ namespace LightSpeed {
 
                 static SingletonChunkBase *list = 0;
                 static bool atexitRegistered = false;
+                ///various singletons can be created at once by various threads
+                static atomic lock = 0;
 
+                SingletonChunkBase *res;
+                singletonInitLock(lock);
                 if (append) {
                     append->next = list;
                     list = append;
@@ -58,12 +65,13 @@ namespace LightSpeed {
                         atexit(&SingletonAtExit);
                         atexitRegistered = true;
                     }
-                    return list;
+                    res = append;
                 } else {
-                    SingletonChunkBase *res = list;
+                    res = list;
                     list = 0;
-                    return res;
                 }
+                singletonRelease(lock);
+                return res;
 
             }
 
-- 
2.43.0


From 6d93e847c2cccf661d896b6031dd07a9baf513f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 082/180] fix: RefCntPtr::attach and create destroyed the
 object of other references

---
 src/lightspeed/base/memory/refCntPtr.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/memory/refCntPtr.h b/src/lightspeed/base/memory/refCntPtr.h
index fcab334..652bf04 100644
--- a/src/lightspeed/base/memory/refCntPtr.h
+++ b/src/lightspeed/base/memory/refCntPtr.h
@@ -254,6 +254,7 @@ namespace LightSpeed {
 
 		///Attaches object to the pointer
 		void attach(T *ptr) {
+			releasePtr();
 		    Super::attach(ptr);
 		    addRefPtr();
 		}
@@ -271,12 +272,12 @@ namespace LightSpeed {
 		}
 
 		///Creates new instance using current factory
-		void create() {Super::create();addRefPtr();}
+		void create() {releasePtr();Super::create();addRefPtr();}
 		///Creates new instance using current factory
 		/**
 		 * @param x source instance
 		 */
-		void create(const T &x) {Super::create(x);addRefPtr();}
+		void create(const T &x) {RefCntPtr keep(*this);releasePtr();Super::create(x);addRefPtr();}
 
 
 		void clear() {
-- 
2.43.0


From b242e6f6e8c068184d9db96e3ef68f5a33c21d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 083/180] fix: assignment of AllocPointer did not compile

---
 src/lightspeed/base/memory/allocPointer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/allocPointer.h b/src/lightspeed/base/memory/allocPointer.h
index 2ce5e45..786aa42 100644
--- a/src/lightspeed/base/memory/allocPointer.h
+++ b/src/lightspeed/base/memory/allocPointer.h
@@ -196,7 +196,8 @@ namespace LightSpeed {
        AllocPointer &operator=(const AllocPointer &other) {
            if (&other != this) {
                clear();
-               Alloc::operator=(other.ptr?this->create(*other.ptr):0);
+               setAllocator(other.getAllocator());
+               if (other.ptr) create(*other.ptr);
            }
            return *this;
        }
-- 
2.43.0


From 5f20936db6bd3bb80d6a2a829fe7eeb2dbe43692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 084/180] fix: SharedPtr did not join two groups with the same
 pointer

---
 src/lightspeed/base/memory/sharedPtr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/sharedPtr.h b/src/lightspeed/base/memory/sharedPtr.h
index 8a6bc1b..7a174ed 100644
--- a/src/lightspeed/base/memory/sharedPtr.h
+++ b/src/lightspeed/base/memory/sharedPtr.h
@@ -48,7 +48,7 @@ namespace LightSpeed {
         			//process whole chain until q->next points to this
         			while (q->next != this) {
         				//we did find other side in the chain
-        				if (*q == other)
+        				if (q == &other)
         					//this is null operation - already done
         					return *this;
         				else
-- 
2.43.0


From 9df6311e6f5eadd5ad673b094718808438b635e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 085/180] fix: SharedStaticPtr could not be assigned (did not
 compile)

---
 src/lightspeed/base/memory/sharedPtr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/sharedPtr.h b/src/lightspeed/base/memory/sharedPtr.h
index 7a174ed..77bae5e 100644
--- a/src/lightspeed/base/memory/sharedPtr.h
+++ b/src/lightspeed/base/memory/sharedPtr.h
@@ -123,7 +123,7 @@ namespace LightSpeed {
     	}
 
     	SharedStaticPtr &operator=(T *other) {
-    		redirect(other);
+    		this->redirect(other);
     		return *this;
     	}
 
-- 
2.43.0


From cf24fc0da67f461dac09f85751fd68909375dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 086/180] fix: JSON escaped characters above U+FFFF as \\u with
 five digits

---
 src/lightspeed/utils/json/jsonserializer.h   |  1 +
 src/lightspeed/utils/json/jsonserializer.tcc | 23 +++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonserializer.h b/src/lightspeed/utils/json/jsonserializer.h
index 0a9f43f..c4ba981 100644
--- a/src/lightspeed/utils/json/jsonserializer.h
+++ b/src/lightspeed/utils/json/jsonserializer.h
@@ -48,6 +48,7 @@ public:
 
 	void serializeString(ConstStrA str);
 	void serializeString(ConstStrW str);
+	void writeUnicode(wchar_t c);
 	void serializeStringEscUTF(ConstStrA str);
 
 
diff --git a/src/lightspeed/utils/json/jsonserializer.tcc b/src/lightspeed/utils/json/jsonserializer.tcc
index fa2ec77..a44c707 100644
--- a/src/lightspeed/utils/json/jsonserializer.tcc
+++ b/src/lightspeed/utils/json/jsonserializer.tcc
@@ -85,9 +85,7 @@ void Serializer<T>::serializeString(ConstStrW str) {
 	for (ConstStrW::Iterator oiter = str.getFwIter(); oiter.hasItems();) {
 		wchar_t c = oiter.getNext();
 		if (c > 0x7F) {
-			TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
-			fmt.setBase(16);
-			fmt("\\u%{04}1") << (unsigned int)c;
+			writeUnicode(c);
 		} else {
 			writeChar<char>((char)c,iter);
 		}
@@ -108,9 +106,7 @@ void Serializer<T>::serializeStringEscUTF(ConstStrA str) {
 				flt.flush();
 				while (flt.hasItems()) {
 					wchar_t cu = flt.output();
-					TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
-					fmt.setBase(16);
-					fmt("\\u%{04}1") << (unsigned int)cu;
+					writeUnicode(cu);
 				}
 			} catch (Exception &e) {
 				throw SerializeError_t(THISLOCATION,str) << e;
@@ -220,6 +216,21 @@ void Serializer<T>::serialize(const INode *json) {
 
 }
 
+template<typename T>
+void Serializer<T>::writeUnicode(wchar_t c) {
+	natural code = (natural)c;
+	if (code > 0xFFFF) {
+		//characters outside of BMP are written as a surrogate pair
+		code -= 0x10000;
+		writeUnicode((wchar_t)(0xD800 + (code >> 10)));
+		writeUnicode((wchar_t)(0xDC00 + (code & 0x3FF)));
+	} else {
+		TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
+		fmt.setBase(16);
+		fmt("\\u%{04}1") << (unsigned int)code;
+	}
+}
+
 template<typename T>
 template<typename X>
 void Serializer<T>::writeChar(X c, IWriteIterator<char, T> & iter) {
-- 
2.43.0


From c6c93c7804cde0b5deb5c2330932655ed19f5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 087/180] fix: JSON parser did not join surrogate pairs

---
 src/lightspeed/utils/json/jsonparser.h   |  1 +
 src/lightspeed/utils/json/jsonparser.tcc | 25 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.h b/src/lightspeed/utils/json/jsonparser.h
index 577b77c..d54a4a0 100644
--- a/src/lightspeed/utils/json/jsonparser.h
+++ b/src/lightspeed/utils/json/jsonparser.h
@@ -54,6 +54,7 @@ protected:
 	char storedChar;
 
 	void parseRawString();
+	void addUnicodeChar(natural code);
 	char getNextEatW();
 	char getNextWithStored();
 	ConstStrA arrayIndexStr(natural i);
diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index c7c3c09..5ff575d 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -60,9 +60,12 @@ PNode Parser<T>::parseString() {
 template<typename T>
 void Parser<T>::parseRawString() {
 	char x = iter.getNext();
+		//first half of a surrogate pair, which waits for the second half
+		natural hiSurrogate = 0;
 		strBuff.clear();
 		while (x != '"') {
 			if (x != '\\') {
+				if (hiSurrogate) {addUnicodeChar(hiSurrogate);hiSurrogate = 0;}
 				strBuff.add(x);
 			} else {
 				x = iter.getNext();
@@ -88,20 +91,34 @@ void Parser<T>::parseRawString() {
 									throw ParseError_t(THISLOCATION,strBuff);
 								}
 							}
-							wchar_t wy = (wchar_t)::LightSpeed::_intr::stringToUnsignedNumber<natural>(buff,16);
-							WideToUtf8Filter flt;
-							flt.input(wy);
-							while (flt.hasItems()) strBuff.add(flt.output());
+							natural wy = ::LightSpeed::_intr::stringToUnsignedNumber<natural>(buff,16);
+							if (hiSurrogate && wy >= 0xDC00 && wy <= 0xDFFF) {
+								addUnicodeChar(0x10000 + ((hiSurrogate - 0xD800) << 10) + (wy - 0xDC00));
+								hiSurrogate = 0;
+							} else {
+								if (hiSurrogate) {addUnicodeChar(hiSurrogate);hiSurrogate = 0;}
+								if (wy >= 0xD800 && wy <= 0xDBFF) hiSurrogate = wy;
+								else addUnicodeChar(wy);
+							}
 							x = iter.getNext();
 							continue;
 						}
 					default: throw ErrorMessageException(THISLOCATION, "Neocekavana escape sekvence");
 					//TODO: vymyslet lepsi vyjimku
 				}
+				if (hiSurrogate) {addUnicodeChar(hiSurrogate);hiSurrogate = 0;}
 				strBuff.add(y);
 			}
 			x = iter.getNext();
 		}
+		if (hiSurrogate) addUnicodeChar(hiSurrogate);
+}
+
+template<typename T>
+void Parser<T>::addUnicodeChar(natural code) {
+	WideToUtf8Filter flt;
+	flt.input((wchar_t)code);
+	while (flt.hasItems()) strBuff.add(flt.output());
 }
 
 
-- 
2.43.0


From e345cff776f8ae17ad295c4f1a7d15029d9421df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 088/180] fix: JSON parser refused a number of one digit at the
 end of the text

---
 src/lightspeed/utils/json/jsonparser.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index 5ff575d..a86fb51 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -224,11 +224,12 @@ template<typename T>
 PNode Parser<T>::parseValue(char firstChar) {
 
 	strBuff.clear();
-	char c = iter.peek();
+	//number can be the last item in the stream
+	char c = iter.hasItems()?iter.peek():0;
 	if (isspace(firstChar)) {
 		while(isspace(c)) {
 			iter.skip();
-			c = iter.peek();
+			c = iter.hasItems()?iter.peek():0;
 		}
 	} else {
 		strBuff.add(firstChar);
-- 
2.43.0


From 7fdf7b71c76a6800031b851efb6bbeb632a457a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 089/180] fix: JSON parser silently wrapped integers out of
 range

---
 src/lightspeed/utils/json/jsonparser.h   |  2 ++
 src/lightspeed/utils/json/jsonparser.tcc | 38 +++++++++++++++++-------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.h b/src/lightspeed/utils/json/jsonparser.h
index d54a4a0..064e63f 100644
--- a/src/lightspeed/utils/json/jsonparser.h
+++ b/src/lightspeed/utils/json/jsonparser.h
@@ -55,6 +55,8 @@ protected:
 
 	void parseRawString();
 	void addUnicodeChar(natural code);
+	template<typename N>
+	static bool parseInteger(ConstStrA txt, N &x);
 	char getNextEatW();
 	char getNextWithStored();
 	ConstStrA arrayIndexStr(natural i);
diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index a86fb51..37f8c2e 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -3,6 +3,7 @@
 #include "jsonparser.h"
 
 #include "../../base/exceptions/errorMessageException.h"
+#include <limits>
 #include "jsonexception.h"
 #include "../../base/text/textFormat.tcc"
 
@@ -220,6 +221,27 @@ ConstStrA Parser<T>::arrayIndexStr(natural i) {
 
 
 
+template<typename T>
+template<typename N>
+bool Parser<T>::parseInteger(ConstStrA txt, N &x) {
+	bool neg = !txt.empty() && txt[0] == '-';
+	natural pos = (neg || (!txt.empty() && txt[0] == '+'))?1:0;
+	if (pos == txt.length()) throw ParseError_t(THISLOCATION,txt);
+	//negative numbers have greater range
+	const N minVal = std::numeric_limits<N>::min();
+	bool fits = true;
+	N v = 0;
+	for (;pos < txt.length();++pos) {
+		if (txt[pos] < '0' || txt[pos] > '9') throw ParseError_t(THISLOCATION,txt);
+		N d = txt[pos] - '0';
+		if (v < minVal / 10 || v * 10 < minVal + d) fits = false;
+		else v = v * 10 - d;
+	}
+	if (!neg && v == minVal) fits = false;
+	x = (neg || !fits)?v:-v;
+	return fits;
+}
+
 template<typename T>
 PNode Parser<T>::parseValue(char firstChar) {
 
@@ -246,23 +268,19 @@ PNode Parser<T>::parseValue(char firstChar) {
 	}
 
 	if (isFloat == false) {
-		AutoArray<char>::Iterator iter = strBuff.getFwIter();
-		if (strBuff.length() <= ((sizeof(integer)*10000+1818)/3636)) {
-			integer x;
-			if (!parseSignedNumber(iter,x,10) || iter.hasItems())
-				throw ParseError_t(THISLOCATION,strBuff);
+		integer x;
+		linteger lx;
+		if (parseInteger(strBuff,x)) {
 			if (x == 0) {
 				if (sharedZero == null) sharedZero = factory->newValue((natural)0);
 				return sharedZero;
 			} else {
 				return factory->newValue(x);
 			}
-		} else if (strBuff.length() <= ((sizeof(linteger)*10000+1818)/3636)) {
-			linteger x;
-			if (!parseSignedNumber(iter,x,10) || iter.hasItems())
-				throw ParseError_t(THISLOCATION,strBuff);
-			return factory->newValue(x);
+		} else if (parseInteger(strBuff,lx)) {
+			return factory->newValue(lx);
 		}
+		//number is out of range, store it as float
 	}
 
 	double v = ::LightSpeed::_intr::stringToFloatNumber<double>(strBuff);
-- 
2.43.0


From 5bb6279437d0ad8eec2fae6ad32930a3f8dcb3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 090/180] fix: the lowest integer was formatted as an empty
 text

---
 src/lightspeed/base/text/textFormat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textFormat.cpp b/src/lightspeed/base/text/textFormat.cpp
index e5bb247..72eab20 100644
--- a/src/lightspeed/base/text/textFormat.cpp
+++ b/src/lightspeed/base/text/textFormat.cpp
@@ -64,7 +64,8 @@ ConstStrA numberToStringSigned(T num, char *string, natural size, natural base)
 	} else {
 		if (num < 0) {
 			*string='-';
-			ConstStrA z = numberToString(-num,string+1,size-1,base);
+			//the lowest number has no positive counterpart in its type
+			ConstStrA z = numberToStringUnsigned((unsigned long long)0 - (unsigned long long)(long long)num,string+1,size-1,base);
 			if (z == nil) return nil;
 			return ConstStrA(string,1+z.length());
 		}
-- 
2.43.0


From ef282852266d40667fda3c62ed7066d692694e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 091/180] fix: JSON lost digits of float numbers and could not
 serialize large ones

---
 src/lightspeed/utils/json/jsonserializer.tcc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonserializer.tcc b/src/lightspeed/utils/json/jsonserializer.tcc
index a44c707..a721117 100644
--- a/src/lightspeed/utils/json/jsonserializer.tcc
+++ b/src/lightspeed/utils/json/jsonserializer.tcc
@@ -14,6 +14,8 @@
 #include "../../base/text/textstream.tcc"
 #include "../../base/containers/autoArray.tcc"
 #include "jsonexception.h"
+#include <stdio.h>
+#include <stdlib.h>
 
 
 namespace LightSpeed {
@@ -165,8 +167,21 @@ void Serializer<T>::serializeString(const INode *json) {
 template<typename T>
 void Serializer<T>::serializeFloat(const INode *json) {
 
-	TextOut<IWriteIterator<char, T> &, StaticAlloc<140> > fmt(iter);
-	fmt() << json->getFloat();
+	//six decimals unless more digits are needed to read the same number back
+	char buff[50];
+	double v = json->getFloat();
+	bool exact = false;
+	if (v > -1e30 && v < 1e30) {
+		sprintf(buff,"%f",v);
+		exact = ::strtod(buff,0) == v;
+	}
+	for (int prec = 15; prec <= 17 && !exact; prec++) {
+		sprintf(buff,"%.*g",prec,v);
+		exact = ::strtod(buff,0) == v;
+	}
+	//decimal point doesn't depend on the locale
+	for (char *c = buff; *c; c++) if (*c == ',') *c = '.';
+	iter.blockWrite(ConstStrA(buff),true);
 }
 
 
-- 
2.43.0


From cb4403c6b0c60ca2377fe80b913114fce38475f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 092/180] fix: JSON array ran into infinite recursion when an
 item of an iterator was added to it

---
 src/lightspeed/utils/json/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.h b/src/lightspeed/utils/json/json.h
index a1faeb5..e4c64ab 100644
--- a/src/lightspeed/utils/json/json.h
+++ b/src/lightspeed/utils/json/json.h
@@ -609,7 +609,7 @@ namespace LightSpeed {
 
 			///Adds new node directly from iterator result
 			INode *add(const ConstKeyValue &kv) {
-				if (getType() == ndArray) return add(kv);
+				if (getType() == ndArray) return add(Value(const_cast<INode *>(kv.getValue().get())));
 				else return add(kv.getStringKey(),Value(const_cast<INode *>(kv.getValue().get())));
 			}
 
-- 
2.43.0


From 5be520352d46dd0d532b33244cb5f6a98c3babff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 093/180] fix: JSON objects were compared by addresses of their
 members

---
 src/lightspeed/utils/json/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index d5a6132..d0504dc 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -89,7 +89,7 @@ bool Object::operator==(const INode &other) const {
 		iter.hasItems();) {
 		const FieldNode *e1 = iter.getNext();
 		const FieldNode *e2 = iter2.getNext();
-		if (e1->data.key != e2->data.key || (e1->data.value) != (e2->data.value)) return false;
+		if (e1->data.key != e2->data.key || *(e1->data.value) != *(e2->data.value)) return false;
 	}
 	return true;
 }
-- 
2.43.0


From 394f2463388c1b22cf276f4c34a27d4d27196781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 094/180] fix: JSON object gave the same name to all unnamed
 members

---
 src/lightspeed/utils/json/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index d0504dc..c636d76 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -61,7 +61,7 @@ INode *Object::add(Value nd) {
 	if (nd == this) throw InvalidParamException(THISLOCATION,0,"JSON: Cycle detected");
 	natural l = fields.size();
 	TextFormatBuff<char,StaticAlloc<50> > fmt;
-	fmt("unnamed%l") << l;
+	fmt("unnamed%1") << l;
 	return add(StringA(fmt.write()),nd);
 }
 
-- 
2.43.0


From dc8770562254b9b1539b9e16d1abf6d0c55b7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 095/180] fix: JSON empty string and zero were equal to values
 of other types

---
 src/lightspeed/utils/json/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index c636d76..33f8f76 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -721,7 +721,7 @@ Value EmptyString::clone(PFactory f) const {
 }
 
 bool EmptyString::operator==(const INode &other)const {
-	return !other.getBool();
+	return other.getType() == ndString && other.getStringUtf8().empty();
 }
 
 
@@ -732,7 +732,7 @@ Value ZeroNumber::clone(PFactory f) const {
 
 bool ZeroNumber::operator==(const INode &other)const {
 	if (other.getType() == ndInt) return other.getLongInt() == 0;
-	else return other.getFloat() == 0;
+	else return other.getType() == ndFloat && other.getFloat() == 0;
 }
 
 
-- 
2.43.0


From 395c30fd00f76d5e4e9501eee7842e67aea25e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 096/180] fix: deleting a copy of a JSON path read beyond the
 root

---
 src/lightspeed/utils/json/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index 33f8f76..28c002f 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1138,7 +1138,7 @@ void Path::operator delete(void *ptr) {
 	//calculate reqSize
 	natural reqSize = sizeof(IRuntimeAlloc *);
 
-	for (const Path *p = reinterpret_cast<Path *>(ptr); ptr != &root; p = &p->parent) {
+	for (const Path *p = reinterpret_cast<Path *>(ptr); p != &root; p = &p->parent) {
 		//reserve space for element
 		reqSize+=sizeof(Path);
 		//if it is key, then reserve space for name
-- 
2.43.0


From a385b3667910323e9b7f3d0d6bd3bdbb0e028a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 097/180] fix: copying of a JSON path never ended

---
 src/lightspeed/utils/json/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index 28c002f..8399e24 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1108,13 +1108,13 @@ Path *Path::copyRecurse(Path * trg, char  *strBuff) const {
 		//advence pointer in buffer
 		strBuff+=index;
 		//copy rest of path to retrieve new pointer
-		Path *out = copyRecurse(trg+1,strBuff);
+		Path *out = parent.copyRecurse(trg+1,strBuff);
 		//construct path item at give position, use returned pointer as parent
 		//and use text from string buffer as name
 		return new((void *)trg) Path(*out, ConstStrA(c, index));
 	} else {
 		//if it is index, just construct rest of path
-		Path *out = copyRecurse(trg+1,strBuff);
+		Path *out = parent.copyRecurse(trg+1,strBuff);
 		//copy rest of path to retrieve new pointer
 
 		return new((void *)trg) Path(*out, index);
-- 
2.43.0


From fc8f26eb75c5a01a79468c2b5f3494b0657ed04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 098/180] fix: deleting a copy of a JSON path passed a wrong
 address to the allocator

---
 src/lightspeed/utils/json/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index 8399e24..784070c 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1145,7 +1145,7 @@ void Path::operator delete(void *ptr) {
 		if (p->isKey()) reqSize+=p->getKey().length();
 	}
 	//deallocate memory
-	alc->dealloc(a,reqSize);
+	alc->dealloc(a-1,reqSize);
 
 }
 void *Path::operator new(size_t , void *p) {
-- 
2.43.0


From 3d6e4119005ab97638aec8e4e0c199832ae27fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 099/180] fix: JSON array read and wrote items beyond its end

---
 src/lightspeed/utils/json/json.cpp   | 2 ++
 src/lightspeed/utils/json/jsonimpl.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index 784070c..6ea684c 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -239,6 +239,8 @@ const INode * Array::enableMTAccess() const
 }
 
 INode *Array::replace(natural index, Value newValue, Value *prevValue) {
+	if (index >= list.length())
+		throwRangeException_To(THISLOCATION,list.length(),index);
 	Value prev = list[index];
 	if (newValue == null) list.erase(index);
 	else list(index) = newValue;
diff --git a/src/lightspeed/utils/json/jsonimpl.h b/src/lightspeed/utils/json/jsonimpl.h
index 24fd40c..f411d78 100644
--- a/src/lightspeed/utils/json/jsonimpl.h
+++ b/src/lightspeed/utils/json/jsonimpl.h
@@ -104,7 +104,7 @@ public:
 	virtual bool isNull() const {return list.empty()?0:list[0]->isNull();}
 	virtual INode *getVariable(ConstStrA x)  const {return list.empty()?0:list[0]->getVariable(x);}
 	virtual natural getEntryCount() const {return list.length();}
-	virtual INode *getEntry(natural idx) const {return list[idx];}
+	virtual INode *getEntry(natural idx) const {return idx < list.length()?(INode *)list[idx]:0;}
 	virtual bool empty() const {return list.empty();}
 	virtual bool enumEntries(const IEntryEnum &fn) const;
 
-- 
2.43.0


From 28ce6b20d3012badbbeeb6fbb67c6d7a33bfc23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 100/180] fix: AvlTreeBasic counted removed nodes after clear

---
 src/lightspeed/base/containers/avltreenode.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/avltreenode.h b/src/lightspeed/base/containers/avltreenode.h
index 6fc84a7..3b710c6 100644
--- a/src/lightspeed/base/containers/avltreenode.h
+++ b/src/lightspeed/base/containers/avltreenode.h
@@ -583,6 +583,7 @@ public:
 		if (tree) {
 			tree->clear(eraser);
 			tree = 0;
+			count = 0;
 		}
 	}
 
-- 
2.43.0


From 43f25826d4850560dbf69e01c59003b41e68669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 101/180] fix: AVLTree dereferenced null when a node was
 inserted without asking whether it exists

---
 src/lightspeed/base/containers/avltree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index 5091675..b9d81d9 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -208,11 +208,11 @@ namespace LightSpeed {
 			bool done = false;
 			Node *newroot = tree->insert(NodeCmp(cmpOper),nd,done,&itr);
 			if (newroot == 0) {
-				if (*exist) *exist = true;
+				if (exist) *exist = true;
 			} else {
 				tree = newroot;
 				count++;
-				if (*exist) *exist = false;
+				if (exist) *exist = false;
 			}
 			//rebalancing changes the path, so find it again
 			return Iterator(cmpOper,tree,nd,Direction::forward);
-- 
2.43.0


From d0465df76baa8951b3d54046a1892e4d9e2b4d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 102/180] fix: JSON container could be put into itself when it
 replaced an item

---
 src/lightspeed/utils/json/json.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index 6ea684c..97de370 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -104,6 +104,7 @@ INode *Object::replace(ConstStrA name, Value newValue, Value *prevValue ) {
 	} else {
 		const FieldNode *e = iter.peek();
 		prev = e->data.value;
+		if (newValue == this) throw InvalidParamException(THISLOCATION,0,"JSON: Cycle detected");
 		if (newValue == null)
 			erase(name);
 		else
@@ -241,6 +242,7 @@ const INode * Array::enableMTAccess() const
 INode *Array::replace(natural index, Value newValue, Value *prevValue) {
 	if (index >= list.length())
 		throwRangeException_To(THISLOCATION,list.length(),index);
+	if (newValue == this) throw InvalidParamException(THISLOCATION,0,"JSON: Cycle detected");
 	Value prev = list[index];
 	if (newValue == null) list.erase(index);
 	else list(index) = newValue;
-- 
2.43.0


From 88877c4ac576d8d905126ab0e16395df9204eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 103/180] fix: worker of ParallelExecutor leaves the pool
 exactly once and does not leave an action behind

---
 .../base/actions/parallelExecutor.cpp         | 92 +++++++++++--------
 1 file changed, 55 insertions(+), 37 deletions(-)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index c5e5f1d..70335b4 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -89,6 +89,13 @@ protected:
 	friend class ParallelExecutor;
 
 	void runAction(const Message<void>::Ifc *action);
+	///takes the thread off the count of the threads
+	/**
+	 * @retval true thread has to finish
+	 * @retval false there is an action, thread is counted again
+	 */
+	bool leave();
+	bool leaveUncounted();
 };
 
 void ParallelExecutor::cleanUp() {
@@ -217,19 +224,44 @@ void ParallelExecutor::Worker::runAction(const IExecAction *action) {
 
 }
 
+bool ParallelExecutor::Worker::leave() {
+	//this thread is no more counted
+	lockDec(owner.curThreadCount);
+	return leaveUncounted();
+}
+
+bool ParallelExecutor::Worker::leaveUncounted() {
+	//an action could be posted before the count has been decreased. In this case the caller
+	//relies on this thread and it did not start new one. The action must not be left behind
+	if (owner.curAction == 0) return true;
+	//try to return back unless there is enough threads
+	atomicValue p = owner.curThreadCount;
+	while (p < (atomicValue)owner.maxThreads) {
+		atomicValue q = lockCompareExchange(owner.curThreadCount,p,p+1);
+		if (q == p) return false;
+		p = q;
+	}
+	//other threads are enough to process the action, let some of them check it
+	owner.waitPt.notifyOne();
+	return true;
+}
+
 void ParallelExecutor::Worker::run() {
 	bool cont = true;
 
 	//perform thread-init hook
 	owner.onThreadInit();
 	//repeat until thread finish
-	while (cont && !Thread::canFinish() && !owner.orderStop) {
+	while (cont) {
 		//retrieve action - make action unaccessible for others
 		const IExecAction * action = lockExchangePtr<const IExecAction >(&owner.curAction,(IExecAction *)0);
 		//is there action?
 		if (action != 0) {
 			//run action
 			runAction(action);
+		} else if (Thread::canFinish() || owner.orderStop) {
+			//leave, unless there is an action
+			cont = !leave();
 		} else {
 			//no action retrieved, we have to wait on action
 			SyncPt::Slot slot;
@@ -261,33 +293,8 @@ void ParallelExecutor::Worker::run() {
 						//when timeout - remove slot
 						//but it may fail, because signal arrived later
 						&& owner.waitPt.remove(slot)) {
-					//timeout - my thread will finish - decrease count of threads
-					lockDec(owner.curThreadCount);
-					//recheck whether there is action arrived meanwhile
-					action = lockExchangePtr<const IExecAction >(&owner.curAction,(IExecAction *)0);
-					//after leaving waiting point but before count of running threads is decreased
-					//a new action can arrived causing failure of the creation of the new
-					//thread especially, when maxThreadCount is set to low value
-					//This can cause deadlock. So after worker decreased curThreadCount, it must
-					//perform extra check for the action. If there is an action, it has been probably
-					//queued during the worker was leaving wait point and before count has been decreased
-					//There is also possibility, that it happened after so new extra thread may appear
-					//in the pool.
-					if (action) {
-						//increase thread count - I am alive again
-						lockInc(owner.curThreadCount);
-						//count idles - I am working
-						lockDec(owner.idleCount);
-						//run action
-						runAction(action);
-						//count idles - I am not working now
-						lockInc(owner.idleCount);
-					} else {
-						//now we can safety leave the loop, because this thread is no more counted
-						//leave loop
-						cont = false;
-					}
-
+					//timeout - my thread will finish, unless there is an action
+					cont = !leave();
 				}
 				//count idles - I am working now
 				lockDec(owner.idleCount);
@@ -298,11 +305,11 @@ void ParallelExecutor::Worker::run() {
 		cleanUp();
 
 		//check current thread count
-		integer p = (integer)owner.curThreadCount;
+		atomicValue p = owner.curThreadCount;
 		//if current thread count is above limit and we successfully set it one less lower
-		if (p > (integer)owner.maxThreads && lockCompareExchange(owner.curThreadCount,p,p-1) == p) {
-			//exit this thread uncoditionally
-			break;
+		if (cont && p > (atomicValue)owner.maxThreads && lockCompareExchange(owner.curThreadCount,p,p-1) == p) {
+			//exit this thread, unless there is an action
+			cont = !leaveUncounted();
 		}
 	}
 
@@ -371,11 +378,22 @@ natural ParallelExecutor::getIdleTimeout() const {
 }
 
 void ParallelExecutor::startNewThread() {
-	if ((natural)curThreadCount < maxThreads) {
-		AllocPointer<Worker> w ( new Worker(*this,topWorker));
-		w->start();
-		topWorker = w.detach();
-		lockInc(curThreadCount);
+	atomicValue p = curThreadCount;
+	while (p < (atomicValue)maxThreads) {
+		//count the thread before it is started, because it can also leave at any time
+		atomicValue q = lockCompareExchange(curThreadCount,p,p+1);
+		if (q == p) {
+			try {
+				AllocPointer<Worker> w ( new Worker(*this,topWorker));
+				w->start();
+				topWorker = w.detach();
+			} catch (...) {
+				lockDec(curThreadCount);
+				throw;
+			}
+			return;
+		}
+		p = q;
 	}
 }
 
-- 
2.43.0


From fb0d2c2b5d70908a3d6bac2c2b18b150750bbca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 104/180] fix: QueueExecutor without serving threads could not
 be stopped or destroyed, finish flag was not initialized

---
 src/lightspeed/base/actions/queueExecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/queueExecutor.cpp b/src/lightspeed/base/actions/queueExecutor.cpp
index b2a18cb..6a78bb8 100644
--- a/src/lightspeed/base/actions/queueExecutor.cpp
+++ b/src/lightspeed/base/actions/queueExecutor.cpp
@@ -36,7 +36,7 @@ void QueueExecutor::execute(const IExecAction& action) {
 	wakeThread();
 }
 
-QueueExecutor::QueueExecutor():semaphore(1),runningMessages(0),threadsIn(0) {
+QueueExecutor::QueueExecutor():noThreads(Gate::stateOpen),semaphore(1),runningMessages(0),threadsIn(0),finishFlag(false) {
 
 }
 
-- 
2.43.0


From 066e50dc0861934deb4c06c9a7d6dc9a8542a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 105/180] fix: QueueExecutor left actions waiting while a
 serving thread was idle, count of running actions was not protected

---
 src/lightspeed/base/actions/queueExecutor.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/actions/queueExecutor.cpp b/src/lightspeed/base/actions/queueExecutor.cpp
index 6a78bb8..ac6ce70 100644
--- a/src/lightspeed/base/actions/queueExecutor.cpp
+++ b/src/lightspeed/base/actions/queueExecutor.cpp
@@ -98,12 +98,16 @@ void QueueExecutor::Server::serve() {
 				owner->queue.pop();
 				//increase running actions
 				owner->runningMessages++;
+				//there is more work, let another thread to process it
+				if (!owner->queue.empty()) owner->wakeThread();
 				try
 				{
-					//unlock the lock temporary
-					SyncReleased<FastLock> _(owner->lock);
-					//perform action (in case of exception, continue after catch
-					(*action)();
+					{
+						//unlock the lock temporary
+						SyncReleased<FastLock> _(owner->lock);
+						//perform action (in case of exception, continue after catch
+						(*action)();
+					}
 					//decrease running actions
 					owner->runningMessages--;
 				} catch (...) {
-- 
2.43.0


From e64d8c4ef9cfb2052cd75382cf71eb64137496d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:54 +0000
Subject: [PATCH 106/180] fix: Dispatcher never removed actions from its queue

---
 src/lightspeed/mt/dispatcher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index 68610df..ac6c149 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -102,8 +102,9 @@ namespace LightSpeed {
 	IDispatcher::AbstractAction * Dispatcher::getNextAction()
 	{
 		if (queue.empty()) return 0;
-		AllocPointer<AbstractAction> &aa = queue.top();
-		return aa.detach();
+		AbstractAction *aa = queue.top().detach();
+		queue.pop();
+		return aa;
 	}
 
 	void Dispatcher::rejectQueue()
-- 
2.43.0


From bdc981e60530fd199fd028572d8779d4d2493a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 107/180] fix: Dispatcher kept state unprotected in quit,
 called onIdle without the lock and rejected actions with it

---
 src/lightspeed/mt/dispatcher.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index ac6c149..79064a6 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -6,7 +6,7 @@ namespace LightSpeed {
 
 
 
-	Dispatcher::Dispatcher() :running(Gate::stateOpen)
+	Dispatcher::Dispatcher() :running(Gate::stateOpen), needstop(false), head(0)
 	{
 
 	}
@@ -14,6 +14,8 @@ namespace LightSpeed {
 	Dispatcher::~Dispatcher()
 	{
 		join();
+		//wait until the thread leaves the function run()
+		lock.lock();
 	}
 
 	void Dispatcher::dispatch(AbstractAction *action)
@@ -50,14 +52,15 @@ namespace LightSpeed {
 			natural idleCount = 0;
 			while (!needstop) {
 				AbstractAction *aa = getNextAction();
-				SyncReleased<FastLock> _(lock);
 				if (aa == 0) {					
-					Thread::sleep(onIdle(idleCount));
+					Timeout tm = onIdle(idleCount);
 					idleCount++;
-					
+					SyncReleased<FastLock> _(lock);
+					Thread::sleep(tm);
 				}
 				else {
 					idleCount = 0;
+					SyncReleased<FastLock> _(lock);
 					aa->run();
 					delete aa;
 				}
@@ -72,6 +75,7 @@ namespace LightSpeed {
 
 	void Dispatcher::quit()
 	{
+		Synchronized<FastLock> _(lock);
 		needstop = true;
 		onNewMessage();
 	}
@@ -94,9 +98,8 @@ namespace LightSpeed {
 	void Dispatcher::finishRun() throw()
 	{
 		rejectQueue();
-		running.open();
 		currentThread = nil;
-
+		running.open();
 	}
 
 	IDispatcher::AbstractAction * Dispatcher::getNextAction()
@@ -111,7 +114,11 @@ namespace LightSpeed {
 	{
 		AllocPointer<AbstractAction> aa(getNextAction());
 		while (aa != nil) {
-			aa->reject();
+			{
+				SyncReleased<FastLock> _(lock);
+				aa->reject();
+				aa = nil;
+			}
 			aa = getNextAction();
 		}
 	}
-- 
2.43.0


From 81acf0fc793aa340ea68d86287560ede9368861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 108/180] fix: Scheduler resolved a reference to removed item
 and was destroyed before its thread left it

---
 src/lightspeed/mt/scheduler.cpp | 8 +++++++-
 src/lightspeed/mt/scheduler.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/scheduler.cpp b/src/lightspeed/mt/scheduler.cpp
index 462d170..1d9747c 100644
--- a/src/lightspeed/mt/scheduler.cpp
+++ b/src/lightspeed/mt/scheduler.cpp
@@ -12,6 +12,12 @@ namespace LightSpeed {
 
 	}
 
+	Scheduler::~Scheduler()
+	{
+		//the thread still can use the queue of scheduled events
+		join();
+	}
+
 	void Scheduler::schedule(const Timeout &tm, const PromiseV &promise)
 	{
 		if (tm.isInfinite()) throw InvalidParamException(THISLOCATION, 0, "Cannot use infinity time");
@@ -32,7 +38,7 @@ namespace LightSpeed {
 			pqheap.pop();
 			pqueue.trunc(1);
 			SyncReleased<FastLock> _(lock);
-			itm.promise.resolve();
+			p.resolve();
 			return Timeout(0);
 		}
 		else {
diff --git a/src/lightspeed/mt/scheduler.h b/src/lightspeed/mt/scheduler.h
index 55e32c2..4ba9899 100644
--- a/src/lightspeed/mt/scheduler.h
+++ b/src/lightspeed/mt/scheduler.h
@@ -27,6 +27,7 @@ namespace LightSpeed {
 
 		///Create scheduler
 		Scheduler();
+		~Scheduler();
 		///scheduler an event
 		/**
 		  @param tm specifies time when the event will be scheduled. The Timeout object is used, so
-- 
2.43.0


From 5fdb4234f70f9e5472532492fc7cebb118547d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 109/180] fix: swapping Deques which keep their items inside of
 the object exchanged just the positions

---
 src/lightspeed/base/containers/deque.tcc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index 41873ea..63ea225 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -306,7 +306,13 @@ namespace LightSpeed {
 
 	template<typename T, typename Alloc>
 	void Deque<T,Alloc>::swap(Deque<T,Alloc> &other) {
-		 memBlock.swap(other.memBlock);
+		 if (!memBlock.swap(other.memBlock)) {
+			 //blocks cannot be swapped (items are stored inside of the object) - exchange items
+			 Deque tmp(*this);
+			 *this = other;
+			 other = tmp;
+			 return;
+		 }
 		 natural h = head; head = other.head; other.head = h;
 		 natural t = tail; tail = other.tail; other.tail = t;
 	}
-- 
2.43.0


From 0d66fcdfb3b9830ee1b7752878a5bf3cf9dc60ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 110/180] fix: IOBuffer wrote outgoing bytes over input which
 has not been read yet

---
 src/lightspeed/base/streams/fileiobuff.h   | 3 +--
 src/lightspeed/base/streams/fileiobuff.tcc | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.h b/src/lightspeed/base/streams/fileiobuff.h
index 14281f6..1be0224 100644
--- a/src/lightspeed/base/streams/fileiobuff.h
+++ b/src/lightspeed/base/streams/fileiobuff.h
@@ -178,8 +178,7 @@ namespace LightSpeed {
 	virtual natural getOutputLength() const { return wrpos - wrbeg; }
 	virtual natural getOutputCapacity() const { return bufferSize;  }
 	virtual natural getOutputAvailable() const {
-		natural s = ((wrbeg < rdpos && rdpos < rdend) ? rdpos : bufferSize) - wrpos;
-		return s;
+		return getWriteSpace();
 	}
 	virtual void discardOutput(natural count) {
 		natural s = wrpos - wrbeg;
diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 34ceb51..f5165bb 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -81,7 +81,7 @@ void IOBuffer<bufferSize>::intFetch() const {
 
 template<natural bufferSize>
 natural IOBuffer<bufferSize>::getWriteSpace() const {
-	return  ((wrbeg < rdpos && rdpos < rdend)?rdpos:bufferSize) - wrpos;
+	return  ((wrbeg <= rdpos && rdpos < rdend)?rdpos:bufferSize) - wrpos;
 }
 
 template<natural bufferSize>
-- 
2.43.0


From b5db1ded9872eb89f37adbbca0d121f12b1810b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 111/180] fix: IOBuffer::putBack overwrote bytes waiting for
 output and refused to return all that has been read

---
 src/lightspeed/base/streams/fileiobuff.tcc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index f5165bb..428b9ac 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -292,9 +292,9 @@ void IOBuffer<bufferSize>::putBack(ConstBin seq) {
 	if (bufferSize - sz < seq.length()) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
 
 	//there is space before the read buffer
-	if (rdpos > seq.length()) {
-		//if there is write buffer and no space to put seq
-		if (wrpos < rdpos && wrpos+seq.length() > rdpos) {
+	if (rdpos >= seq.length()) {
+		//if there is write buffer which occupies the space
+		if (wrbeg < wrpos && wrbeg < rdpos && wrpos+seq.length() > rdpos) {
 			//flush to output
 			intFlush();
 		}
@@ -302,6 +302,8 @@ void IOBuffer<bufferSize>::putBack(ConstBin seq) {
 		memcpy(buff.data()+rdpos-seq.length(), seq.data(), seq.length());
 		//update rdpos
 		rdpos -= seq.length();
+		//nothing is written now, move write position out of the data
+		if (wrpos == wrbeg) adjustWritePos();
 
 	} else {
 		//failure - we cannot put bytes back without moving buffer
-- 
2.43.0


From 4e3b94c519d1a398b175e4ea27489397c728c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 112/180] fix: IOBuffer sent bytes twice when the target failed
 in the middle of flush, and did not notice it was closed there

---
 src/lightspeed/base/streams/fileiobuff.tcc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 428b9ac..627b8fb 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -239,12 +239,16 @@ template<natural bufferSize>
 void IOBuffer<bufferSize>::intFlush() const {
 	//flush is only useful when there are bytes to flush
 	if (wrpos > wrbeg) {
-		//total to write
-		natural s = wrpos - wrbeg;
-		//write all
-		natural x = targetOut->writeAll(buff.data()+wrbeg, s);
-		//mark if output has been closed;
-		if (x == 0) outputClosed = true;
+		//write all - what has been written will not be written again when exception is thrown
+		while (wrpos > wrbeg) {
+			natural x = targetOut->write(buff.data()+wrbeg, wrpos - wrbeg);
+			//mark if output has been closed;
+			if (x == 0) {
+				outputClosed = true;
+				break;
+			}
+			wrbeg += x;
+		}
 		//adjust write position
 		adjustWritePos();
 	}
-- 
2.43.0


From d96f516d6f5cda61eb4e760a138e641ee72ee22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 113/180] fix: IOBuffer::peek of no bytes returned negative
 count of bytes available

---
 src/lightspeed/base/streams/fileiobuff.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 627b8fb..14d9ed2 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -160,7 +160,7 @@ template<natural bufferSize>
 natural IOBuffer<bufferSize>::peek(void *buffer, natural size) const {
 	//we can now support peek buffer expansion
 	if (size == 0) {
-		if (canRead()) return rdpos - rdend;
+		if (canRead()) return rdend - rdpos;
 		else return 0;
 	}
 
-- 
2.43.0


From ba2a3f1f825512b59e6c4e05237544b437f11204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 114/180] fix: IOBuffer::dataReady asked the source also after
 its end or when there is none

---
 src/lightspeed/base/streams/fileiobuff.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 14d9ed2..d3f0247 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -324,7 +324,8 @@ natural IOBuffer<bufferSize>::dataReady() const {
 	if (rdpos >= rdend)
 		//ask target stream whether data are ready
 		//this should be done without blocking
-		return targetIn->dataReady();
+		//end of stream is always ready
+		return eof?1:targetIn->dataReady();
 	else
 		//otherwise calculate
 		return (rdend-rdpos);
-- 
2.43.0


From 2f497800e022da92cbe23fd4af67dc271704e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 115/180] fix: IOBuffer::discardOutput did not report that
 bytes cannot be discarded

---
 src/lightspeed/base/streams/fileiobuff.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.h b/src/lightspeed/base/streams/fileiobuff.h
index 1be0224..1d0d604 100644
--- a/src/lightspeed/base/streams/fileiobuff.h
+++ b/src/lightspeed/base/streams/fileiobuff.h
@@ -182,7 +182,8 @@ namespace LightSpeed {
 	}
 	virtual void discardOutput(natural count) {
 		natural s = wrpos - wrbeg;
-		if (count > s) wrpos = wrbeg; else wrpos -= count;
+		if (count > s) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
+		wrpos -= count;
 	}
 
 	///returns total bytes available for writing
-- 
2.43.0


From a0bf2675049388b36b4eff7892f65c5e0fa34a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 116/180] fix: buffers of SeqFileInBuff and SeqFileOutBuff
 could not be accessed or connected (did not compile)

---
 src/lightspeed/base/streams/fileiobuff.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.h b/src/lightspeed/base/streams/fileiobuff.h
index 1d0d604..406b6a7 100644
--- a/src/lightspeed/base/streams/fileiobuff.h
+++ b/src/lightspeed/base/streams/fileiobuff.h
@@ -253,15 +253,15 @@ namespace LightSpeed {
 
         template<natural x>
         void setAutoflush( SeqFileOutBuff<x> &o) {
-        	getBuffer().setAutoflush(&o.buffr);
+        	getBuffer().setAutoflush(&o.getBuffer());
         }
 
         void setAutoflush(IBufferFlush *o) {
 			getBuffer().setAutoflush(o);
         }
 
-		const IOBuffer<bufferSize> &getBuffer() const { return static_cast<const IOBuffer<bufferSize> &>(*this->fhnd); }
-		IOBuffer<bufferSize> &getBuffer() { return static_cast<IOBuffer<bufferSize> &>(*this->fhnd); }
+		const IOBuffer<bufferSize> &getBuffer() const { return dynamic_cast<const IOBuffer<bufferSize> &>(*this->fhnd); }
+		IOBuffer<bufferSize> &getBuffer() { return dynamic_cast<IOBuffer<bufferSize> &>(*this->fhnd); }
     };
 
     template<natural bufferSize >
@@ -278,8 +278,8 @@ namespace LightSpeed {
 			: SeqFileOutput(new IOBuffer<bufferSize>(handle)) {}
 
 
-		const IOBuffer<bufferSize> &getBuffer() const { return static_cast<const IOBuffer<bufferSize> &>(*this->fhnd); }
-		IOBuffer<bufferSize> &getBuffer() { return static_cast<IOBuffer<bufferSize> &>(*this->fhnd); }
+		const IOBuffer<bufferSize> &getBuffer() const { return dynamic_cast<const IOBuffer<bufferSize> &>(*this->fhnd); }
+		IOBuffer<bufferSize> &getBuffer() { return dynamic_cast<IOBuffer<bufferSize> &>(*this->fhnd); }
 
 
 	};
-- 
2.43.0


From 6f894dc45df7b5ebe156a400d590efbdbde8e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 117/180] fix: MemFile did not initialize append mode and
 appending skipped bytes not read yet

---
 src/lightspeed/base/streams/memfile.h   | 2 +-
 src/lightspeed/base/streams/memfile.tcc | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/memfile.h b/src/lightspeed/base/streams/memfile.h
index 9e429ec..47a5249 100644
--- a/src/lightspeed/base/streams/memfile.h
+++ b/src/lightspeed/base/streams/memfile.h
@@ -35,7 +35,7 @@ namespace LightSpeed {
         virtual natural dataReady() const {return true;}
         virtual void closeOutput() {readOnly = true;}
 
-        MemFile():pos(0),readOnly(false) {}
+        MemFile():pos(0),appendMode(false),readOnly(false) {}
                 
 
         bool empty() const {return filebuffer.empty();}
diff --git a/src/lightspeed/base/streams/memfile.tcc b/src/lightspeed/base/streams/memfile.tcc
index 172bfa8..eaba519 100644
--- a/src/lightspeed/base/streams/memfile.tcc
+++ b/src/lightspeed/base/streams/memfile.tcc
@@ -41,7 +41,8 @@ natural MemFile<Alloc>::write(const void *buffer, natural size)
 		filebuffer.resize(endrd);
 	}
 	memcpy(filebuffer.data()+wrpos,buffer,size);
-	pos += size;
+	//appending does not change position of reading
+	if (!appendMode) pos += size;
 	return size;
 }
 
-- 
2.43.0


From 49aae22b0447b96af90bc19acd74744bf6868d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 118/180] fix: MemFile could be written after its output has
 been closed

---
 src/lightspeed/base/streams/memfile.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/streams/memfile.tcc b/src/lightspeed/base/streams/memfile.tcc
index eaba519..ff7b03d 100644
--- a/src/lightspeed/base/streams/memfile.tcc
+++ b/src/lightspeed/base/streams/memfile.tcc
@@ -34,6 +34,7 @@ natural MemFile<Alloc>::read(void *buffer, natural size)
 template<typename Alloc>
 natural MemFile<Alloc>::write(const void *buffer, natural size)
 {
+	if (readOnly) throwWriteIteratorNoSpace(THISLOCATION,typeid(*this));
 	natural wrpos = appendMode?filebuffer.length():pos;
 	natural l = filebuffer.length();
 	natural endrd = wrpos + size;
-- 
2.43.0


From 6760e15f9d694fa83eeb9c1bfdbe0ac7047b514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 119/180] fix: MemFileStr read beyond its end when the position
 was set there

---
 src/lightspeed/base/streams/memfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/streams/memfile.cpp b/src/lightspeed/base/streams/memfile.cpp
index 7985dd7..7499774 100644
--- a/src/lightspeed/base/streams/memfile.cpp
+++ b/src/lightspeed/base/streams/memfile.cpp
@@ -15,6 +15,7 @@ template class MemFile<>;
 
 
 natural MemFileStr::read(void* buffer, natural size) {
+	if (pos >= text.length()) return 0;
 	natural remain = text.length() - pos;
 	if (remain < size) size = remain;
 	memcpy(buffer,text.data()+pos,size);
@@ -27,6 +28,7 @@ natural MemFileStr::write(const void* , natural ) {
 }
 
 natural MemFileStr::peek(void* buffer, natural size) const {
+	if (pos >= text.length()) return 0;
 	natural remain = text.length() - pos;
 	if (remain < size) size = remain;
 	memcpy(buffer,text.data()+pos,size);
-- 
2.43.0


From 348807530d2e32ad9ffbdcd9aa098cbc9bed1fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 120/180] fix: RndFileWriter claimed it can be written after it
 has been closed

---
 src/lightspeed/base/streams/fileio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/fileio.h b/src/lightspeed/base/streams/fileio.h
index 93d2209..55f4159 100644
--- a/src/lightspeed/base/streams/fileio.h
+++ b/src/lightspeed/base/streams/fileio.h
@@ -66,7 +66,7 @@ public:
 
     }
 	virtual bool canWrite() const {
-		return true;
+		return canWr;
 	}
 	virtual void flush()  {rndFile->flush();}
 	IRndFileHandle::FileOffset getOffset() const {return offset;}
-- 
2.43.0


From e94bafaf04a703b97d52500b2c6073ec5b9df7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 121/180] fix: MemFile filled new areas by uninitialized memory
 instead of zeroes

---
 src/lightspeed/base/streams/memfile.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/streams/memfile.tcc b/src/lightspeed/base/streams/memfile.tcc
index ff7b03d..0b59d60 100644
--- a/src/lightspeed/base/streams/memfile.tcc
+++ b/src/lightspeed/base/streams/memfile.tcc
@@ -39,7 +39,7 @@ natural MemFile<Alloc>::write(const void *buffer, natural size)
 	natural l = filebuffer.length();
 	natural endrd = wrpos + size;
 	if (endrd >= l) {
-		filebuffer.resize(endrd);
+		filebuffer.resize(endrd,0);
 	}
 	memcpy(filebuffer.data()+wrpos,buffer,size);
 	//appending does not change position of reading
@@ -92,7 +92,7 @@ template<typename Alloc> inline natural MemFile<Alloc>::write(const void *buffer
 	natural l = filebuffer.length();
 	natural endrd = pos + size;
 	if (endrd >= l) {
-		filebuffer.resize(endrd);
+		filebuffer.resize(endrd,0);
 	}
 	memcpy(filebuffer.data()+pos,buffer,size);
 	return size;
@@ -102,7 +102,7 @@ template<typename Alloc> inline natural MemFile<Alloc>::write(const void *buffer
 
 template<typename Alloc> inline void MemFile<Alloc>::setSize(FileOffset size)
 {
-	filebuffer.resize((natural)size);
+	filebuffer.resize((natural)size,0);
 }
 
 
-- 
2.43.0


From 799ed0b0fdb952a1203e0264cb87b4432159d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 122/180] fix: OpenFlags::deleteOnClose was ignored, a local
 variable of the same name was tested instead

---
 src/lightspeed/base/linux/fileio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index c5c1041..13ee0d0 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -309,7 +309,7 @@ namespace LightSpeed {
     	using namespace OpenFlags;
 
 
-        bool deleteOnClose = false;
+        bool removeWhenClosed = false;
         StringA cname =String::getUtf8(ofn);
         if (cname.length() > 4 && cname.head(4) == ConstStrA("#fd:")) {
         	int fx;
@@ -337,7 +337,7 @@ namespace LightSpeed {
 
     	int createFlags =  S_IRUSR|S_IWUSR|S_IWGRP|S_IRGRP|S_IWOTH|S_IROTH;
         if (flags & writeThrough) openFlags|=O_SYNC;
-        if (flags & deleteOnClose) deleteOnClose = true;
+        if (flags & deleteOnClose) removeWhenClosed = true;
         if (flags & append) openFlags|=O_APPEND;
         if (flags & create) {
         	openFlags|=O_CREAT;
@@ -359,7 +359,7 @@ namespace LightSpeed {
         fcntl(fd, F_SETFD, FD_CLOEXEC);
 #endif
 #endif
-        return new FileDescriptor(fd,cname,deleteOnClose,
+        return new FileDescriptor(fd,cname,removeWhenClosed,
         		openFlags == O_WRONLY,openFlags == O_RDONLY);
         
     }
-- 
2.43.0


From ba326c334be524b2e30790fce8da395f7aef8e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 123/180] fix: files opened for writing claimed they can be
 read (and vice versa) and closeOutput left them open

---
 src/lightspeed/base/linux/fileio.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 13ee0d0..4594660 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -276,7 +276,7 @@ namespace LightSpeed {
     public:
     	FileDescriptorCommitOnClose(FileDescriptor *originDesc, String targetName)
     		:FileDescriptor(originDesc->fd, originDesc->name,false,
-    				originDesc->maskWrite,originDesc->maskRead)
+    				originDesc->maskRead,originDesc->maskWrite)
     		,targetFile(targetName)
     	{
     		originDesc->fd = -1;
@@ -289,6 +289,7 @@ namespace LightSpeed {
     			IFileIOServices &svcs = IFileIOServices::getIOServices();
     			close(fd);
     			fd = -1;
+    			maskWrite = true;
 /*    			String oldver = targetFile + ConstStrW(L".bak");
     			if (svcs.canOpenFile(targetFile,IFileIOServices::fileAccessible))
     				svcs.move(targetFile,oldver,true);*/
@@ -360,7 +361,7 @@ namespace LightSpeed {
 #endif
 #endif
         return new FileDescriptor(fd,cname,removeWhenClosed,
-        		openFlags == O_WRONLY,openFlags == O_RDONLY);
+        		(openFlags & O_ACCMODE) == O_WRONLY,(openFlags & O_ACCMODE) == O_RDONLY);
         
     }
     
-- 
2.43.0


From 4f769f67f599a4731783484fece3f7800874836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 124/180] fix: OpenFlags::commitOnClose was ignored by files
 opened for both reading and writing

---
 src/lightspeed/base/linux/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 4594660..ef82b91 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -323,7 +323,7 @@ namespace LightSpeed {
         			return new FileDescriptor(fx,cname,false,r == '-', w == '-');
         	}
         }
-    	if ((flags & commitOnClose) && (openFlags == O_WRONLY)) {
+    	if ((flags & commitOnClose) && (openFlags != O_RDONLY)) {
     		String tmpname = ofn+ConstStrW(L".new");
     		FileDescriptorSeq *f = safeOpenFile(tmpname,openFlags,(flags & ~commitOnClose & ~deleteOnClose) | truncate | create);
     		return new FileDescriptorCommitOnClose(
-- 
2.43.0


From 1215bfd97a2c13dd8fa993f329937925f355693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 125/180] fix: createFolder with parents failed when the folder
 already exists

---
 src/lightspeed/base/linux/fileio.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index ef82b91..5cc4bfd 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -860,6 +860,8 @@ namespace LightSpeed {
     	if (parents) createFolders(fn);
 		if (::mkdir(fn.c_str(),0777) == -1) {
 			int err = errno;
+			struct stat st;
+			if (parents && err == EEXIST && ::stat(fn.c_str(),&st) == 0 && S_ISDIR(st.st_mode)) return;
 			throw FolderCreationException(THISLOCATION,err,folderName);
 		}
     }
-- 
2.43.0


From d0363a11eab4b2f91876eef81c64c1c456080315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 126/180] fix: copy of a file onto itself erased it, copy of a
 folder erased the target and copy of a big file was not complete

---
 src/lightspeed/base/linux/fileio.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 5cc4bfd..9d0ff41 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -912,12 +912,27 @@ namespace LightSpeed {
     	if (ifd == -1) {int e = errno; throw FileIOError(THISLOCATION,e,from);}
     	struct stat st;
     	if (fstat(ifd,&st) == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,from);}
-    	int ofd = open(t.cStr(),O_WRONLY|O_LARGEFILE|O_CLOEXEC|O_CREAT|(overwrite?O_TRUNC:O_EXCL), st.st_mode);
+    	if (S_ISDIR(st.st_mode)) {close(ifd);throw FileIOError(THISLOCATION,EISDIR,from);}
+    	int ofd = open(t.cStr(),O_WRONLY|O_LARGEFILE|O_CLOEXEC|O_CREAT|(overwrite?0:O_EXCL), st.st_mode);
     	if (ofd == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,to);}
-
+    	struct stat ost;
     	int err = 0;
-    	ssize_t res = sendfile(ofd,ifd,0,st.st_size);
-    	if (res == -1) err = errno;
+    	if (fstat(ofd,&ost) == -1) err = errno;
+    	else if (ost.st_dev == st.st_dev && ost.st_ino == st.st_ino) {
+    		//the target is the source - nothing to copy
+    		close(ifd);
+    		close(ofd);
+    		return;
+    	}
+    	else if (overwrite && S_ISREG(ost.st_mode) && ftruncate(ofd,0) == -1) err = errno;
+
+    	off_t remain = st.st_size;
+    	while (!err && remain > 0) {
+    		ssize_t res = sendfile(ofd,ifd,0,remain);
+    		if (res > 0) remain -= res;
+    		else if (res == 0) break;
+    		else if (errno != EINTR) err = errno;
+    	}
     	close(ifd);
     	close(ofd);
 
-- 
2.43.0


From 3482fdf79ccd83355496c5368ed13ffd4783c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 127/180] fix: opening of a sequential file in other mode than
 reading or writing terminated the program

---
 src/lightspeed/base/linux/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 9d0ff41..d44228f 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -469,7 +469,7 @@ namespace LightSpeed {
         	if (ofn == ConstStrW('-')) return openStdFile(stdOutput);
             return safeOpenFile(ofn,O_WRONLY, flags);
         } else
-            throw;//TODO: invalid mode
+            throw InvalidParamException(THISLOCATION,2,"Sequential file can be opened for reading or for writing only");
         
     }
 
-- 
2.43.0


From df19ff7adbf6adcd1ecdda9dd654646fe94504ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 128/180] fix: iteration of a folder whose path is not ASCII
 gave wrong names of its entries

---
 src/lightspeed/base/linux/fileio.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index d44228f..cb64906 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -698,7 +698,11 @@ namespace LightSpeed {
     			if (dir == 0) throw FileOpenError(THISLOCATION, errno, name);
     			strcpy(srcpath,name.data());
     			srcpath[name.length()] = '/';
-    			this->source = ConstStrW(wsrcpath,name.length());
+    			convert(name,wsrcpath);
+    			natural wlen = wcslen(wsrcpath);
+    			wsrcpath[wlen] = '/';
+    			wbuffer = wsrcpath + wlen + 1;
+    			this->source = ConstStrW(wsrcpath,wlen);
     		}
 
     		void *operator new(size_t sz,size_t maxpath, size_t dirpathlen) {
@@ -726,7 +730,7 @@ namespace LightSpeed {
     			if (res == 0) return false;
     			if (strcmp(res->d_name,".") == 0 || strcmp(res->d_name,"..") == 0) return getNext();
     			strcpy(buffer,res->d_name);
-    			convert(ConstStrA(srcpath),wsrcpath);
+    			convert(ConstStrA(buffer),wbuffer);
     			this->entryName = ConstStrW(wbuffer);
     			link = false;
     			statLoaded = false;
-- 
2.43.0


From 82e72fd7efa5697ecb65c72b47958c33d0ef9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 129/180] fix: folder iterator did not set hidden and gave
 random type to links to nowhere

---
 src/lightspeed/base/linux/fileio.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index cb64906..bf7bed4 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -733,6 +733,7 @@ namespace LightSpeed {
     			convert(ConstStrA(buffer),wbuffer);
     			this->entryName = ConstStrW(wbuffer);
     			link = false;
+    			hidden = res->d_name[0] == '.';
     			statLoaded = false;
     			switch (res->d_type) {
     			case DT_REG: type = file; break;
@@ -759,11 +760,17 @@ namespace LightSpeed {
     				if (S_ISLNK(statInfo.st_mode)) {
     					link = true;
     					i = stat64(srcpath,&statInfo);
-        				if (i != 0) throw FileOpenError(THISLOCATION,errno,wsrcpath);
+        				if (i != 0) {
+        					type = unknown;
+        					return;
+        				}
     				}
     			} else {
 					i = stat64(srcpath,&statInfo);
-    				if (i != 0) FileOpenError(THISLOCATION,errno,wsrcpath);
+    				if (i != 0) {
+    					type = unknown;
+    					return;
+    				}
     			}
     			if (S_ISREG(statInfo.st_mode)) type = file;
     			else if (S_ISDIR(statInfo.st_mode)) type = directory;
-- 
2.43.0


From 17a8f2fccc34a041cc86050f585d6d6ce083e93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 130/180] fix: opening of a folder which does not exist leaked
 memory

---
 src/lightspeed/base/linux/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index bf7bed4..8216187 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -712,7 +712,7 @@ namespace LightSpeed {
     					+ sz + 20;
     			return malloc(entryLen);
     		}
-    		void operator delete(void *ptr,const char *) {
+    		void operator delete(void *ptr,size_t,size_t) {
     			free(ptr);
     		}
     		void operator delete(void *ptr) {
-- 
2.43.0


From a356c5dead5ab83505616d62ade5dfb9cf623258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 131/180] fix: getFileInfo never recognized links

---
 src/lightspeed/base/linux/fileio.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 8216187..6dfabbb 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1180,7 +1180,7 @@ namespace LightSpeed {
 
     	class FileInfo: public IFolderIterator, public ILinuxFileInfo {
     	public:
-    		FileInfo(IFileIOServices &svc, ConstStrW pathname, const FileStat &statinfo)
+    		FileInfo(IFileIOServices &svc, ConstStrW pathname, const FileStat &statinfo, bool isLink)
     			:svc(svc),statinfo(statinfo),fullname(pathname) {
 
 
@@ -1206,8 +1206,8 @@ namespace LightSpeed {
     			else
     				type = unknown;
 
-    			link = S_ISLNK(statinfo.st_mode) != 0;
-    			hidden = entryName[0] == '.';
+    			link = isLink;
+    			hidden = !entryName.empty() && entryName[0] == '.';
 
     		}
         	virtual bool getNext() {return false;}
@@ -1267,7 +1267,9 @@ namespace LightSpeed {
     		int en = errno;
     		throw FileIOError(THISLOCATION,en,cname);
     	}
-    	return new FileInfo(*const_cast<LinuxFileServices *>(this),extended?String(cname):String(pathname),fst);
+    	FileStat lst;
+    	bool isLink = lstat64(cname.c_str(),&lst) == 0 && S_ISLNK(lst.st_mode);
+    	return new FileInfo(*const_cast<LinuxFileServices *>(this),extended?String(cname):String(pathname),fst,isLink);
     }
 
 
-- 
2.43.0


From 9a67cf752969b8666898cd8b500ee21e024a51ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 132/180] fix: removing of a link to a folder through the
 folder iterator failed

---
 src/lightspeed/base/linux/fileio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 6dfabbb..863f2f1 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1285,7 +1285,7 @@ namespace LightSpeed {
 
     void DirState::remove(bool recursive /*= false*/)
     {
-    	if (type == directory) svc.removeFolder(getFullPath(),recursive);
+    	if (type == directory && !link) svc.removeFolder(getFullPath(),recursive);
     	else svc.remove(getFullPath());
     }
 
@@ -1319,7 +1319,7 @@ namespace LightSpeed {
 
     void FileInfo::remove(bool recursive /*= false*/)
     {
-    	if (type == directory) svc.removeFolder(getFullPath(),recursive);
+    	if (type == directory && !link) svc.removeFolder(getFullPath(),recursive);
     	else svc.remove(getFullPath());
     }
 
-- 
2.43.0


From b59bc897514f761c7570560bb78fd7b2ad25121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 133/180] fix: allowed open mode of writable files reported by
 getFileInfo was reading only

---
 src/lightspeed/base/linux/fileio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 863f2f1..4cfcfd8 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1224,10 +1224,10 @@ namespace LightSpeed {
         		return TimeStamp::fromUnix(statinfo.st_mtim.tv_sec,statinfo.st_mtim.tv_nsec/1000000);
         	}
         	virtual IFileIOServices::FileOpenMode getAllowedOpenMode() const {
-        		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenRead))
-        			return IFileIOServices::fileOpenRead;
         		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenReadWrite))
         			return IFileIOServices::fileOpenReadWrite;
+        		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenRead))
+        			return IFileIOServices::fileOpenRead;
         		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenWrite))
         			return IFileIOServices::fileOpenWrite;
         		return IFileIOServices::fileAccessible;
-- 
2.43.0


From 537156065dd79fbcf4e40df109ebe1bba6f595cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 134/180] fix: files could not be mapped for writing only and
 from an offset which is not aligned

---
 src/lightspeed/base/linux/fileio.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 4cfcfd8..1af0633 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1057,7 +1057,9 @@ namespace LightSpeed {
 	        {
 	            int proto = getProto(mode);
 
-        		//TODO: fix offset
+        		natural shift = (natural)(offset % (natural)sysconf(_SC_PAGESIZE));
+        		offset -= shift;
+        		size += shift;
 
         		void *res = mmap(0,size,proto, (copyOnWrite?MAP_PRIVATE:MAP_SHARED),fd,offset);
         		if (res == MAP_FAILED) {
@@ -1092,7 +1094,7 @@ namespace LightSpeed {
     	};
 
     	try {
-    		PRndFileHandle f = openRndFile(filename,mode,0);
+    		PRndFileHandle f = openRndFile(filename,mode == fileOpenWrite?fileOpenReadWrite:mode,0);
     		IFileExtractHandle *ihnd = dynamic_cast<IFileExtractHandle *>(f.get());
     		if (ihnd == 0) throw FileMsgException(THISLOCATION,EFAULT,filename,"File cannot be mapped");
     		int fd;
-- 
2.43.0


From 74d78735273e8af0fe5a0c5acd4c56605981a658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 135/180] fix: createTempFile opened an existing file

---
 src/lightspeed/base/linux/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 1af0633..64efb64 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1150,7 +1150,7 @@ namespace LightSpeed {
 			String filename(fmt.write());
 			try {
 				PInOutStream hnd = openSeqFile(filename,fileOpenWrite,
-					OpenFlags::create|OpenFlags::temporary|OpenFlags::shareRead|OpenFlags::shareWrite);
+					OpenFlags::create|OpenFlags::newFile|OpenFlags::temporary|OpenFlags::shareRead|OpenFlags::shareWrite);
 				return new TemporaryFile(*this,hnd,filename);
 			} catch (FileOpenError &e) {
 				if (e.getErrNo() == EEXIST)
-- 
2.43.0


From f6c8039d458c8d7eb1f55f7a65cf4a64a93be48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 136/180] fix: TemporaryFile terminated the program when its
 file has been already removed

---
 src/lightspeed/base/streams/fileio_ifc.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/fileio_ifc.h b/src/lightspeed/base/streams/fileio_ifc.h
index 2ac395a..5cbdbe7 100644
--- a/src/lightspeed/base/streams/fileio_ifc.h
+++ b/src/lightspeed/base/streams/fileio_ifc.h
@@ -1141,7 +1141,11 @@ namespace LightSpeed {
 
 	inline TemporaryFile::~TemporaryFile() {
 		close();
-		if (!filename.empty()) svc.remove(filename);
+		if (!filename.empty()) try {
+			svc.remove(filename);
+		} catch (const Exception &) {
+			//the file could be removed by someone else, destructor must not throw
+		}
 	}
 
 	inline void TemporaryFile::rename(ConstStrW newName, bool overwrite) {
-- 
2.43.0


From 5346d0d825f2bdf79fa7d03a7fbdec147f8800cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 137/180] fix: unregistering of a prefix which has no handler
 disabled handlers of its shorter prefixes

---
 src/lightspeed/base/streams/abstractFileIOService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/abstractFileIOService.cpp b/src/lightspeed/base/streams/abstractFileIOService.cpp
index bd4ac03..7c15878 100644
--- a/src/lightspeed/base/streams/abstractFileIOService.cpp
+++ b/src/lightspeed/base/streams/abstractFileIOService.cpp
@@ -24,13 +24,13 @@ IFileIOHandler* LightSpeed::AbstractFileIOService::setHandler(ConstStrW prefix,
 			regList.erase(iter);
 			return prev;
 		} else if (r.prefix.length() < prefix.length() || (r.prefix.length() == prefix.length() && r.prefix < prefix))  {
-			regList.insertBefore(iter,Registration(prefix,handler));
+			if (handler != 0) regList.insertBefore(iter,Registration(prefix,handler));
 			return NULL;
 		} else  {
 			iter.skip();
 		}
 	}
-	regList.add(Registration(prefix,handler));
+	if (handler != 0) regList.add(Registration(prefix,handler));
 	return 0;
 
 }
-- 
2.43.0


From 2577194b4688c57a958042c13b17b02d1a848080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 138/180] fix: locking of a file ignored its timeout and was
 interrupted by signals

---
 src/lightspeed/base/linux/fileio.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 64efb64..6e45b5d 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -588,11 +588,16 @@ namespace LightSpeed {
 	}
 
 	bool FileDescriptorSeq::lock(int flags, natural timeout) {
-		if (timeout == 0) flags |= LOCK_NB;
-		if (flock(this->fd,flags)) {
+		if (timeout != naturalNull) flags |= LOCK_NB;
+		SysTime start = SysTime::now();
+		while (flock(this->fd,flags)) {
 			int err = errno;
-			if (err == EWOULDBLOCK) return false;
-			else throw ErrNoException(THISLOCATION, err);
+			if (err == EWOULDBLOCK) {
+				//flock cannot wait for limited time
+				if ((natural)(SysTime::now() - start).msecs() >= timeout) return false;
+				usleep(1000);
+			}
+			else if (err != EINTR) throw ErrNoException(THISLOCATION, err);
 		}
 		return true;
 	}
-- 
2.43.0


From 2189d7fb41c77964b603af09620269512cb146a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 139/180] fix: name of the entry returned by getFileInfo
 referred to a destroyed string

---
 src/lightspeed/base/linux/fileio.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 6e45b5d..340ab94 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1191,13 +1191,13 @@ namespace LightSpeed {
     			:svc(svc),statinfo(statinfo),fullname(pathname) {
 
 
-    			natural k = pathname.findLast('/');
+    			natural k = fullname.findLast('/');
     			if (k != naturalNull) {
-    				source = pathname.head(k);
-    				entryName = pathname.offset(k+1);
+    				source = fullname.head(k);
+    				entryName = fullname.offset(k+1);
     			} else {
     				source = ConstStrW();
-    				entryName=pathname;
+    				entryName=fullname;
     			}
 
     			if (entryName == ConstStrW(L".") || entryName == ConstStrW(L".."))
-- 
2.43.0


From eb1153c2cbf8e2e8c2d32c2e6e6912c556574722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 140/180] fix: folder iterator kept wide strings at addresses
 which are not aligned

---
 src/lightspeed/base/linux/fileio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 340ab94..63ab2cc 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -696,7 +696,7 @@ namespace LightSpeed {
     			,entryInfo(reinterpret_cast<struct dirent *>(this+1))
     			,srcpath(reinterpret_cast<char *>(entryInfo) + offsetof(struct dirent, d_name) + maxpath)
     			,buffer(srcpath+name.length()+1)
-    			,wsrcpath(reinterpret_cast<wchar_t *>(buffer + maxpath+1))
+    			,wsrcpath(reinterpret_cast<wchar_t *>((reinterpret_cast<size_t>(buffer + maxpath+1)+sizeof(wchar_t)-1) & ~(sizeof(wchar_t)-1)))
     			,wbuffer(wsrcpath+name.length()+1)
     			,statLoaded(false)
     			,svc(svc) {
@@ -704,7 +704,7 @@ namespace LightSpeed {
     			strcpy(srcpath,name.data());
     			srcpath[name.length()] = '/';
     			convert(name,wsrcpath);
-    			natural wlen = wcslen(wsrcpath);
+    			natural wlen = ConstStrW(wsrcpath).length();
     			wsrcpath[wlen] = '/';
     			wbuffer = wsrcpath + wlen + 1;
     			this->source = ConstStrW(wsrcpath,wlen);
-- 
2.43.0


From 9652d7020b2c45ff3097a8c0173521c2cf40bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 141/180] fix: String made of a string of bytes did not decode
 UTF-8

---
 src/lightspeed/base/containers/string.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lightspeed/base/containers/string.h b/src/lightspeed/base/containers/string.h
index 7a3853f..211c517 100644
--- a/src/lightspeed/base/containers/string.h
+++ b/src/lightspeed/base/containers/string.h
@@ -228,6 +228,13 @@ namespace LightSpeed {
 		template<typename B>
 		UniString(const ArrayT<const wchar_t,B> &arr):Super(arr) {}
 		//@}
+		//@{
+		///Creates string from array (or string) of bytes, which are in UTF-8
+		template<typename B>
+		UniString(const ArrayT<char,B> &arr) {loadUtf8(StringTC<char,StrCmp>(arr));}
+		template<typename B>
+		UniString(const ArrayT<const char,B> &arr) {loadUtf8(StringTC<char,StrCmp>(arr));}
+		//@}
 		UniString(const StringCore<wchar_t> &str):Super(str) {}
 
 		template<template<class> class X>
-- 
2.43.0


From ed458dd5ae7146e6352cede05a17c1158ff4e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 142/180] fix: range in a negated list of characters accepted
 what it should refuse and refused the rest

---
 src/lightspeed/base/text/textParser.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 0587071..b618a1e 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -348,11 +348,11 @@ bool TextParser<T,Alloc,Cmp>::parseCharList(PatternIter &patiter, SourceIter &sr
 				const T &_ = iter.getNext();
 				if (iter.hasItems()) {
 					const T &b = iter.getNext();
-					if (!cmp.less(p , a) && !cmp.less(b,p) == cond) {
+					if (!cmp.less(p , a) && !cmp.less(b,p)) {
 						okaj = true;
 					}
 				} else {
-					if ((cmp.equal(p, a) || cmp.equal(p, _)) == cond) {
+					if (cmp.equal(p, a) || cmp.equal(p, _)) {
 						okaj = true;
 					}
 				}
-- 
2.43.0


From 214950ab51a8a6180baadf457fa94c23b89cd0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 143/180] fix: alternatives of a pattern continued where the
 refused one had stopped reading

---
 src/lightspeed/base/text/textParser.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index b618a1e..35803d9 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -630,7 +630,8 @@ template<typename T, typename Alloc, typename Cmp>
 template<typename SourceIter>
 bool  TextParser<T,Alloc,Cmp>::parseAlternateBranch(PatternIter &patiter,SourceIter &srciter) {
 	PatternIter savePat(patiter);
-	if (parse(patiter,srciter)) return true;
+	SourceIter branchSrc(srciter);
+	if (parse(patiter,branchSrc)) return true;
 	else {
 		if (skipToNextBranch(savePat))
 			return parseAlternateBranch(savePat,srciter);
-- 
2.43.0


From 040ff20249c8eb7559c99f419e9a7777de4550e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 144/180] fix: skipped alternative of a pattern ended elsewhere
 when it contained a list of characters

---
 src/lightspeed/base/text/textParser.tcc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 35803d9..083e0c7 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -140,15 +140,14 @@ bool TextParser<T,Alloc,Cmp>::parseArg(PatternIter &patiter, SourceIter &srciter
 
 template<typename T, typename Alloc, typename Cmp>
 void TextParser<T,Alloc,Cmp>::skipCharlist(PatternIter &iter) {
-	const T &x = iter.getNext();
-	if (x == '*') return skipCharlist(iter);
-	if (x == '^') return skipCharlist(iter);
-	if (x == ']') return skipCharlist(iter);
+	//the first character of the list has no special meaning, as parseCharList reads it
+	if (iter.hasItems() && iter.peek() == '*') iter.skip();
+	if (iter.hasItems() && iter.peek() == '^') iter.skip();
+	if (iter.hasItems() && iter.peek() == '\\') iter.skip();
+	if (iter.hasItems()) iter.skip();
 	while (iter.hasItems()) {
 		const T &x = iter.getNext();
 		if (x == ']') return;
-		const T &y = iter.peek();
-		if (y == '-') {iter.skip();iter.skip();		}
 	}
 }
 template<typename T, typename Alloc, typename Cmp>
-- 
2.43.0


From a3e768e6a72ba1ffb0b6ec2013193c7b7f76a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 145/180] fix: skipping an alternative with a field above 9
 never ended

---
 src/lightspeed/base/text/textParser.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 083e0c7..cf2f90e 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -184,6 +184,7 @@ void TextParser<T,Alloc,Cmp>::skipPattern(PatternIter &iter) {
 				} else if (p < '0' || p > '9') {
 					return;
 				}
+				iter.skip();
 			}
 		}
 	}
-- 
2.43.0


From 8922fc894813162d60ad7c4f37abf7728a5999a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 146/180] fix: skipped alternative of a pattern ended elsewhere
 when it contained an escaped space

---
 src/lightspeed/base/text/textParser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index cf2f90e..5e8ac36 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -606,7 +606,7 @@ bool TextParser<T,Alloc,Cmp>::skipToNextBranch(PatternIter &patiter) {
 		const T &c = patiter.getNext();
 		if (c == '%' && patiter.hasItems()) {
 			const T &d = patiter.peek();
-			if (d == c) {
+			if (d == c || d == '_' || d == ' ' || d == '\n' || d == '\t' || d == '\b') {
 				patiter.skip();
 			} else if (d == '|') {
 				patiter.skip();
-- 
2.43.0


From 50c1fac2e76b99687660cfeac29fe8bcdd586bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 147/180] fix: an attempt to finish an ignored field made the
 following attempts count its characters wrongly

---
 src/lightspeed/base/text/textParser.tcc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 5e8ac36..11a9705 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -228,7 +228,6 @@ bool TextParser<T,Alloc,Cmp>::parseArg(PatternIter &patiter, SourceIter &srciter
 				return parseAsterix(patiter,srciter,state);
 			}
 			patiter.skip();
-			data.erase(state.dataBeg,data.length() - state.dataBeg);
 			return parse(patiter,srciter);
 		} else if (p >= '0' && p <='9') {
 			if (state.defaultAsterix) {
@@ -247,8 +246,6 @@ bool TextParser<T,Alloc,Cmp>::parseArg(PatternIter &patiter, SourceIter &srciter
 			if (fragId != 0) {
 				if (fragments.length() <= fragId - 1) fragments.resize(fragId,Fragment(data,0,0));
 				fragments(fragId-1) = Fragment(data,state.dataBeg,data.length() - state.dataBeg);
-			} else {
-				data.erase(state.dataBeg,data.length() - state.dataBeg);
 			}
 			bool res =  parse(patiter,srciter);
 			if (res == false) {
-- 
2.43.0


From f2c66f89dd23a1d95276b04a16f22a3ba0364489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 148/180] fix: reading a quoted text went behind the end of the
 input after an escape character

---
 src/lightspeed/base/text/textParser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 11a9705..5e49fa0 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -296,7 +296,7 @@ bool TextParser<T,Alloc,Cmp>::parseQuoted(PatternIter &patiter, SourceIter &srci
 			if (cmp.equal(a, esc)) {
 				if (srciter.hasItems() && cmp.equal(srciter.peek(),qmark)) {
 					data.add(srciter.getNext());
-				} else if (same) {
+				} else if (same || !srciter.hasItems()) {
 					break;
 				} else {
 					data.add(srciter.getNext());
-- 
2.43.0


From 4869c29ff5b5cf10a141dcaa15908adadf05354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 149/180] fix: %u refused the sign + which is documented as
 allowed

---
 src/lightspeed/base/text/textParser.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 5e49fa0..5022687 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -719,7 +719,7 @@ bool TextParser<T,Alloc,Cmp>::parseNumber(SourceIter &srciter, natural rangeMax,
 	if (!srciter.hasItems()) return false;
 	const T &sign = srciter.peek();
 	if (sign == '+' || sign == '-') {
-		if (negativeSign == false) return false;
+		if (sign == '-' && negativeSign == false) return false;
 		data.add(sign);
 		srciter.skip();
 		rangeMax--;
@@ -750,6 +750,7 @@ bool TextParser<T,Alloc,Cmp>::parseFloat(SourceIter &srciter, natural rangeMax)
 		rangeMax --;
 		if (rangeMax == 0 || !srciter.hasItems()) return false;
 		dp = data.length();
+		if (!checkNumber(srciter.peek(),10)) return false;
 		if (!parseNumber(srciter,rangeMax,false,10)) return false;
 		rangeMax -= data.length() - dp;
 		if (rangeMax == 0 || !srciter.hasItems()) return true;
-- 
2.43.0


From eccfdd1b65f47264eafc108cc71be1986d125778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 150/180] fix: converting a field of other length than one to a
 character terminated the program

---
 src/lightspeed/base/text/textParser.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 5022687..5012b98 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -501,7 +501,8 @@ TextParser<T,Alloc,Cmp>::Result::operator typename TextParser<T,Alloc,Cmp>::Str(
 }
 template<typename T, typename Alloc, typename Cmp>
 TextParser<T,Alloc,Cmp>::Result::operator T() const {
-	if (owner.fragments[index].length() != 1) throw;//TODO exception;
+	if (owner.fragments[index].length() != 1)
+		throwRangeException_FromTo<natural>(THISLOCATION,1,1,owner.fragments[index].length());
 	return owner.fragments[index][0];
 }
 template<typename T, typename Alloc, typename Cmp>
-- 
2.43.0


From 84339e292558572db77a86d9b5803f1efbec5df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 151/180] fix: reading a text at its end returned what was
 behind the buffer

---
 src/lightspeed/base/text/textInBuffer.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textInBuffer.tcc b/src/lightspeed/base/text/textInBuffer.tcc
index 14d06a7..d5d439b 100644
--- a/src/lightspeed/base/text/textInBuffer.tcc
+++ b/src/lightspeed/base/text/textInBuffer.tcc
@@ -56,7 +56,7 @@ const typename TextInBuffer<Iter,Alloc>::T &
 		TextInBuffer<Iter,Alloc>::Iterator::getNext() {
 	natural absp = absPos();
 	natural avail = owner.preload(absp);
-	if (avail < absp) throwIteratorNoMoreItems(THISLOCATION,typeid(T));
+	if (avail <= absp) throwIteratorNoMoreItems(THISLOCATION,typeid(T));
 	pos++;
 	if (automark) owner.mark(*this);
 	return owner.buffer.getArray()[absp];
-- 
2.43.0


From 31507ad96783c0cf062a8721a5934b0fbdd4de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 152/180] fix: a line was not ended by a line separator
 following a part of another one

---
 src/lightspeed/base/text/textIn.h | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/lightspeed/base/text/textIn.h b/src/lightspeed/base/text/textIn.h
index 7a034bc..c313dea 100644
--- a/src/lightspeed/base/text/textIn.h
+++ b/src/lightspeed/base/text/textIn.h
@@ -141,22 +141,15 @@ namespace LightSpeed {
 		bool peekLine() {
 			this->data.clear();
 			this->fragments.clear();
-			natural nlpos = 0;
 			bool hasdata = false;
 			typename Buffer::Iterator iter = buffer.getFwIter(true);
+			buffer.mark(iter);
 			while (iter.hasItems()) {
 				hasdata = true;
-				const ItemT &item = iter.getNext();
-				if (this->nl[nlpos] == item) {
-					nlpos++;
-					if (nlpos==this->nl.length()) break;
-				} else if (nlpos > 0) {
-					for (natural k = 0; k < nlpos; k++) 
-						this->data.add(this->nl[k]);
-					nlpos = 0;
-					this->data.add(item);
-				} else {
-					this->data.add(item);
+				this->data.add(iter.getNext());
+				if (!this->nl.empty() && this->data.tail(this->nl.length()) == this->nl) {
+					this->data.trunc(this->nl.length());
+					break;
 				}
 			}
 			this->fragments.add(typename Super::Fragment(this->data,0,this->data.length()));
-- 
2.43.0


From a75efafd3ca31ededc0493744fb00efb0f66fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 153/180] fix: characters read by an unsuccessful attempt were
 discarded from the input

---
 src/lightspeed/base/text/textIn.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textIn.h b/src/lightspeed/base/text/textIn.h
index c313dea..2908b0f 100644
--- a/src/lightspeed/base/text/textIn.h
+++ b/src/lightspeed/base/text/textIn.h
@@ -196,8 +196,10 @@ template<typename Iter, typename Alloc>
 bool TextIn<Iter,Alloc>::operator ()(const Str &format)
 {
 	typename Buffer::Iterator iter = buffer.getFwIter(true);
+	buffer.mark(iter);
 	bool res = Super::operator()(format, iter);
 	if (res) buffer.commit();
+	else buffer.mark(iter);
 	return res;
 }
 
@@ -207,7 +209,10 @@ template<typename Iter, typename Alloc>
 bool TextIn<Iter,Alloc>::peek(const Str &format)
 {
 	typename Buffer::Iterator iter = buffer.getFwIter(true);
-	return Super::operator()(format, iter);
+	buffer.mark(iter);
+	bool res = Super::operator()(format, iter);
+	if (!res) buffer.mark(iter);
+	return res;
 }
 
 }
-- 
2.43.0


From b91d0404c379374a9019a7e878915852e6fa294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 154/180] fix: ToString of the lowest integer was not a number

---
 src/lightspeed/base/text/toString.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/text/toString.h b/src/lightspeed/base/text/toString.h
index 4e4be41..9125785 100644
--- a/src/lightspeed/base/text/toString.h
+++ b/src/lightspeed/base/text/toString.h
@@ -84,15 +84,16 @@ namespace LightSpeed {
 			else {
 				if (val < 0) {
 					this->buffer.write(ChT('-'));
-					this->extract(-val,base,up);
+					//the lowest number has no positive counterpart in its type
+					this->extract((lnatural)0 - (lnatural)val,base,up);
 				} else {
-					this->extract(val,base,up);
+					this->extract((lnatural)val,base,up);
 				}
 			}
 			this->commitBuffer();
 		}
-		void extract(NumType val, natural base, bool up) {
-			if (val >= (NumType)base) extract(val / base, base, up);
+		void extract(lnatural val, natural base, bool up) {
+			if (val >= base) extract(val / base, base, up);
 			natural x = val % base;
 			if (x > 9) this->buffer.write(ChT((up ? 'A' : 'a') + x - 10));
 			else this->buffer.write(ChT('0' + x));
-- 
2.43.0


From 4bd73e27d6003c1ead10c02b65e8fba3fca72251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 155/180] fix: strings were left out when they were written
 without a pattern

---
 src/lightspeed/base/text/textFormat.tcc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textFormat.tcc b/src/lightspeed/base/text/textFormat.tcc
index d41e53e..cfb43ed 100644
--- a/src/lightspeed/base/text/textFormat.tcc
+++ b/src/lightspeed/base/text/textFormat.tcc
@@ -270,7 +270,16 @@ template<typename WriteIter>
 TextFormat<T,Alloc> &TextFormat<T,Alloc>::output(WriteIter &iter) {
 
 	if (pattern.empty()) {
-		buff.render(iter);
+		natural from = 0;
+		for (natural i = 0; i < paramList.length(); i++) {
+			const ParamItem &itm = paramList[i];
+			if (itm.isDirectRef()) {
+				ConstStringT<T>(itm.ptr, itm.length).render(iter);
+			} else {
+				buff.mid(from,itm.length - from).render(iter);
+				from = itm.length;
+			}
+		}
 	} else {
 
 		typedef typename Pattern::Iterator RdIter;
-- 
2.43.0


From 3ddd7012a9ace6a591e44d7d94e820df8dbd672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 156/180] fix: formatter with an allocator did not initialize
 the format of real numbers

---
 src/lightspeed/base/text/textFormat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textFormat.h b/src/lightspeed/base/text/textFormat.h
index d66de8b..ae3655f 100644
--- a/src/lightspeed/base/text/textFormat.h
+++ b/src/lightspeed/base/text/textFormat.h
@@ -118,7 +118,7 @@ enum SimpleManipulators {
 
 		TextFormat():base(10),decimals(6),sciFormat(false),newline(DefaultNLString<T>()) {}
 		TextFormat(const Alloc &alloc):buff(alloc),patternBuffer(alloc)
-				,base(10),decimals(6),newline(DefaultNLString<T>()) {}
+				,base(10),decimals(6),sciFormat(false),newline(DefaultNLString<T>()) {}
 
 		TextFormat &operator()(ConstStringT<T> pattern);
 		TextFormat &operator()(const T *pattern);
-- 
2.43.0


From d613be3e9859fda71fe9b94ec5ce83f8f858d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 157/180] fix: TextIn discarded characters read by an attempt
 which did not match

---
 src/lightspeed/base/text/textInBuffer.h |  5 +++++
 src/lightspeed/base/text/textParser.tcc | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textInBuffer.h b/src/lightspeed/base/text/textInBuffer.h
index 3eff46c..c7288c8 100644
--- a/src/lightspeed/base/text/textInBuffer.h
+++ b/src/lightspeed/base/text/textInBuffer.h
@@ -52,6 +52,11 @@ namespace LightSpeed {
 			bool equalTo(const Iterator &other) const;
 			bool lessThan(const Iterator &other) const;
 
+			///attempts which failed could have marked a later position
+			friend void textParsedTo(Iterator &iter) {
+				if (iter.automark) iter.owner.mark(iter);
+			}
+
 		protected:
 			TextInBuffer &owner;
 			natural pos;
diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 5012b98..36e35cb 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -52,6 +52,11 @@ bool TextParser<T,Alloc,Cmp>::operator()(Str pattern, const IIterator<T, Impl> &
 }
 
 
+///called with the iterator at the place where the parsing succeeded
+/** Iterators which need to know the place overload it for their type */
+template<typename SourceIter>
+inline void textParsedTo(SourceIter &) {}
+
 template<typename T, typename Alloc, typename Cmp>
 template<typename SourceIter>
 bool TextParser<T,Alloc,Cmp>::parse(PatternIter &patiter, SourceIter &srciter) {
@@ -73,6 +78,7 @@ bool TextParser<T,Alloc,Cmp>::parse(PatternIter &patiter, SourceIter &srciter) {
 
 				}
 			} else {
+				textParsedTo(srciter);
 				return true;
 			}
 		} else if (p == '\b') {
@@ -126,7 +132,9 @@ bool TextParser<T,Alloc,Cmp>::parse(PatternIter &patiter, SourceIter &srciter) {
 			}
 		}
 	}
-	return !srciter.hasItems();
+	if (srciter.hasItems()) return false;
+	textParsedTo(srciter);
+	return true;
 }
 
 template<typename T, typename Alloc, typename Cmp>
-- 
2.43.0


From 48276e7bc84457d0555b4950ff255bc9a0b48209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 158/180] fix: an empty text was converted to a real number

---
 src/lightspeed/base/text/textParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/text/textParser.cpp b/src/lightspeed/base/text/textParser.cpp
index 5fc39d9..c604b3d 100644
--- a/src/lightspeed/base/text/textParser.cpp
+++ b/src/lightspeed/base/text/textParser.cpp
@@ -47,6 +47,7 @@ T stringToSignedNumber(ConstStrA num, natural base) {
 
 template<typename T>
 T stringToFloatNumber(ConstStrA num) {
+	if (num.empty()) throw InvalidNumberFormatException(THISLOCATION,String(num));
 	natural chrRead;
 	double d = strtod(num,&chrRead);
 	if (chrRead < num.length())
-- 
2.43.0


From 17c17cc77e1e7c37d585ecafb48dfb889fb87b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 159/180] fix: digits of a real number were dropped after many
 zeroes at its beginning

---
 src/lightspeed/base/text/strtodouble.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lightspeed/base/text/strtodouble.cpp b/src/lightspeed/base/text/strtodouble.cpp
index 6e7509e..f75bca8 100644
--- a/src/lightspeed/base/text/strtodouble.cpp
+++ b/src/lightspeed/base/text/strtodouble.cpp
@@ -160,6 +160,14 @@ double strtod(ConstStrA string, natural *chrRead)
     } else {
 	mantSize -= 1;			/* One of the digits was the point. */
     }
+    /* Zeroes at the beginning are no valid digits */
+    while (mantSize > 1 && (*p == '0' || *p == '.')) {
+	if (*p == '0') {
+	    mantSize -= 1;
+	    decPt -= 1;
+	}
+	++p;
+    }
     if (mantSize > 18) {
 	fracExp = decPt - 18;
 	mantSize = 18;
-- 
2.43.0


From 7152f93b4aa35d839a90da2c130b630679cdf936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 160/180] fix: writing to a stream closed by the other side
 killed the process by SIGPIPE

---
 src/lightspeed/base/linux/netStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index 2322b25..a8f9cb4 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -64,7 +64,7 @@ natural LinuxNetStream::write( const void *buffer, natural size )
 	if (!wait(INetworkResource::waitForOutput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 			NetworkTimeoutException::writing);
-	int res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,0);
+	int res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,MSG_NOSIGNAL);
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"send failed");
 	return (natural)res;
-- 
2.43.0


From 063ceb15841436f4505b45228b54be60a033ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 161/180] fix: reading no bytes from a network stream was taken
 for the end of the stream

---
 src/lightspeed/base/linux/netStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index a8f9cb4..b0e4776 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -43,7 +43,7 @@ LinuxNetStream::~LinuxNetStream() {
 
 natural LinuxNetStream::read( void *buffer, natural size )
 {
-	if (foundEof) return 0;
+	if (foundEof || size == 0) return 0;
 	if (!wait(INetworkResource::waitForInput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 					NetworkTimeoutException::reading);
@@ -73,7 +73,7 @@ natural LinuxNetStream::write( const void *buffer, natural size )
 
 natural LinuxNetStream::peek( void *buffer, natural size ) const
 {
-	if (foundEof) return 0;
+	if (foundEof || size == 0) return 0;
 
 	if (!wait(INetworkResource::waitForInput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
-- 
2.43.0


From 182c12801dd557b717a95d4692c2aada95ad370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 162/180] fix: opening a port already in use leaked the
 descriptor

---
 src/lightspeed/base/linux/netStreamSource.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index b35333e..d3f3d2e 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -44,11 +44,17 @@ static int createListenSocket(PNetworkAddress addr) {
 	ioctl(s,FIONBIO,&nonblk);
 
 	int e = bind(s,ainfo->ai_addr,ainfo->ai_addrlen);
-	if (e != 0)
-		throw NetworkPortOpenException(THISLOCATION,errno,getPortNumber(ainfo));
+	if (e != 0) {
+		int err = errno;
+		close(s);
+		throw NetworkPortOpenException(THISLOCATION,err,getPortNumber(ainfo));
+	}
 	e = listen(s,SOMAXCONN);
-	if (e != 0)
-		throw NetworkIOError(THISLOCATION,errno,"Listen on socket failed");
+	if (e != 0) {
+		int err = errno;
+		close(s);
+		throw NetworkIOError(THISLOCATION,err,"Listen on socket failed");
+	}
 
 	return s;
 }
-- 
2.43.0


From 38ca27cf60b0c5d97de94317b0944776944b6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 163/180] fix: waiting for a connection did not report that the
 time elapsed

---
 src/lightspeed/base/linux/netStreamSource.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index d3f3d2e..da25dfb 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -83,7 +83,9 @@ PNetworkStream LinuxNetAccept::getNext()
 {
 	if (count == 0)
 		throwIteratorNoMoreItems(THISLOCATION,typeid(PNetworkStream));
-	wait();
+	if (!wait())
+		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
+				NetworkTimeoutException::listening);
 	char buff[256];
 	struct sockaddr *saddr = (struct sockaddr *) (buff);
 	socklen_t socklen = sizeof(buff);
-- 
2.43.0


From fee23a6798ab269ffaaf7a0042dfc623b9eb3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 164/180] fix: writing to an accepted stream ignored the
 timeout

---
 src/lightspeed/base/linux/netStreamSource.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index da25dfb..ba4c128 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -89,7 +89,7 @@ PNetworkStream LinuxNetAccept::getNext()
 	char buff[256];
 	struct sockaddr *saddr = (struct sockaddr *) (buff);
 	socklen_t socklen = sizeof(buff);
-	int s = accept4(acceptSock, saddr, &socklen,SOCK_CLOEXEC);
+	int s = accept4(acceptSock, saddr, &socklen,SOCK_CLOEXEC|SOCK_NONBLOCK);
 	if (s == -1)
 		throw NetworkIOError(THISLOCATION, errno, "accept has failed");
 
-- 
2.43.0


From 3cd1ac058f190df35f90106fd5e9a911ccd59fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 165/180] fix: receiving of datagrams ignored the timeout of
 the source

---
 src/lightspeed/base/linux/netDgramSource.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/netDgramSource.cpp b/src/lightspeed/base/linux/netDgramSource.cpp
index def8f3f..98bf9f2 100644
--- a/src/lightspeed/base/linux/netDgramSource.cpp
+++ b/src/lightspeed/base/linux/netDgramSource.cpp
@@ -27,14 +27,17 @@ ConstStringT<byte> LinuxNetDatagram::peekOutputBuffer() const {
 }
 
 LinuxNetDgamSource::LinuxNetDgamSource(natural port, natural timeout, natural startDID)
-	:LinuxSocketResource<INetworkDatagramSource>(createDatagramSocket(port),timeout),dgrId(startDID)
+	:LinuxSocketResource<INetworkDatagramSource>(createDatagramSocket(port),waitForInput),dgrId(startDID)
 {
+	setTimeout(timeout);
 
 }
 
 PNetworkDatagram LinuxNetDgamSource::receive() {
 
-	wait();
+	if (!wait())
+		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
+				NetworkTimeoutException::reading);
 
 	RefCntPtr<LinuxNetDatagram> dgr = new(dgmpool) LinuxNetDatagram(this);
 
-- 
2.43.0


From f3f35fd911f8b63fc9a7c5d6143c25e1c53cebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 166/180] fix: opening a datagram port already in use leaked
 the descriptor

---
 src/lightspeed/base/linux/netDgramSource.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/netDgramSource.cpp b/src/lightspeed/base/linux/netDgramSource.cpp
index 98bf9f2..dde8918 100644
--- a/src/lightspeed/base/linux/netDgramSource.cpp
+++ b/src/lightspeed/base/linux/netDgramSource.cpp
@@ -262,8 +262,11 @@ int LinuxNetDgamSource::createDatagramSocket(natural port) {
 
 		int e = bind(s,ainfo->ai_addr,ainfo->ai_addrlen);
 
-		if (e != 0)
-			throw NetworkPortOpenException(THISLOCATION,errno,port);
+		if (e != 0) {
+			int err = errno;
+			close(s);
+			throw NetworkPortOpenException(THISLOCATION,err,port);
+		}
 	} else {
 
 		s = socket(AF_INET6, SOCK_DGRAM, 0);
-- 
2.43.0


From be136167e21b537d56c5208d6553289673ba1637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 167/180] fix: comparing network addresses of different kinds

---
 src/lightspeed/base/linux/netAddress.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netAddress.cpp b/src/lightspeed/base/linux/netAddress.cpp
index 8563eda..450feba 100644
--- a/src/lightspeed/base/linux/netAddress.cpp
+++ b/src/lightspeed/base/linux/netAddress.cpp
@@ -47,6 +47,7 @@ StringA LinuxNetAddress::asString(bool resolve) {
 bool LinuxNetAddress::equalTo(const INetworkAddress &other) const {
 	const LinuxNetAddress *o = dynamic_cast<const LinuxNetAddress *>(&other);
 
+	if (o == 0) return false;
 	if (o->addrinfo == 0 && addrinfo == 0) return true;
 	if (o->addrinfo == 0 || addrinfo == 0) return false;
 	if (o->addrinfo == addrinfo) return true;
@@ -78,7 +79,7 @@ bool LinuxNetAddress::lessThan(const INetworkAddress& other) const {
 		if (addrinfo->ai_family != x->addrinfo->ai_family)
 				return addrinfo->ai_family < x->addrinfo->ai_family;
 		if (addrinfo->ai_addrlen != x->addrinfo->ai_addrlen)
-			return addrinfo->ai_addrlen != x->addrinfo->ai_addrlen;
+			return addrinfo->ai_addrlen < x->addrinfo->ai_addrlen;
 		if (addrinfo->ai_family == AF_INET) {
 			struct sockaddr_in *sin = reinterpret_cast<struct sockaddr_in *>(addrinfo->ai_addr);
 			struct sockaddr_in *osin = reinterpret_cast<struct sockaddr_in *>(x->addrinfo->ai_addr);
-- 
2.43.0


From fa7ae495193ba8bfcedab8ec71341da415400f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 168/180] fix: waiting for a refused connection and asking
 again gave a stream which is not connected

---
 src/lightspeed/base/linux/netStreamSource.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index ba4c128..8f92fa9 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -184,7 +184,10 @@ static bool probeSocket(int fd) {
 	if (e != 0) {
 		return false;
 	}
-	return true;
+	//reading of the error clears it, so failed socket must be recognized even if it is probed again
+	struct sockaddr_storage peer;
+	socklen_t peerlen = sizeof(peer);
+	return getpeername(fd,reinterpret_cast<struct sockaddr *>(&peer),&peerlen) == 0;
 }
 
 
-- 
2.43.0


From 535e696f1dfa72ab1857dd377eab45ec5c3e2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:32 +0000
Subject: [PATCH 169/180] fix: default waiting of a network resource waited for
 nothing

---
 src/lightspeed/base/streams/netio_ifc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/streams/netio_ifc.h b/src/lightspeed/base/streams/netio_ifc.h
index 3b3c2df..4732b10 100644
--- a/src/lightspeed/base/streams/netio_ifc.h
+++ b/src/lightspeed/base/streams/netio_ifc.h
@@ -831,6 +831,7 @@ namespace LightSpeed {
 			return defTimeout;
 		}
 		virtual natural wait(natural waitFor, natural timeout) const {
+			if (waitFor == INetworkResource::waitDefault) waitFor = this->getDefaultWait();
 			if (waitHandler == nil) return this->doWait(waitFor,timeout);
 			else return waitHandler->wait(this,waitFor,timeout);
 		}
-- 
2.43.0


From 57dcd6144c9278e85cbbde5b521934d1fa22f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:19 +0000
Subject: [PATCH 170/180] fix: asking how much is ready at the end of a network
 stream made canRead() true

---
 src/lightspeed/base/linux/netStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index b0e4776..0e1f78a 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -124,8 +124,8 @@ natural LinuxNetStream::dataReady() const {
 	if (countReady > 0) return countReady;
 	if (wait(waitForInput,0) & waitForInput) {
 		ioctl(sock,FIONREAD,&r);
-		countReady = (natural)(r == 0?1:r);
-		return countReady;
+		countReady = (natural)r;
+		return countReady == 0?1:countReady; //readable without data is the end of the stream
 	} else {
 		return 0;
 	}
-- 
2.43.0


From 06d4748e20e147f64a856e5ecf5a6c0f690ed0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:25 +0000
Subject: [PATCH 171/180] fix: SList::empty() did not compile

---
 src/lightspeed/mt/slist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 14971a3..215d4a2 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -91,7 +91,7 @@ namespace LightSpeed {
 		 
 		
 		bool empty() const {
-			return ptrToCookie(_top) == 0;
+			return cookieToPtr(_top) == 0;
 		}
 
 		///Insert (push) item into list in single thread access
-- 
2.43.0


From 9b9db43fe52bcf75cacdc2238ee07062555384f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:46 +0000
Subject: [PATCH 172/180] fix: SList::swap changed the source atomically and
 not the current object

---
 src/lightspeed/mt/slist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 215d4a2..7e9f52e 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -158,7 +158,7 @@ namespace LightSpeed {
 		///Swaps current object with source
 		/** Current object is changed atomically. source should not be accessed by multiple threads at time */
 		void swap(SList &source) {
-			_top = lockExchange(source._top,_top);
+			source.take(*this);
 		}
 
 		///Swaps content of slists, when top of current slist contain specified value
-- 
2.43.0


From 8dc6182d5e48950932eb9e9f7a9cdb82f2d0d266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:46 +0000
Subject: [PATCH 173/180] fix: SList::swapWhenTopIs lost the list of the source
 when it failed

---
 src/lightspeed/mt/slist.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 7e9f52e..529c779 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -174,8 +174,9 @@ namespace LightSpeed {
 		bool swapWhenTopIs(SList &source, T *condition) {
 			atomic x = ptrToCookie(condition,_top);
 			atomic q = lockCompareExchange(_top,x,source._top);
+			if (q != x) return false;
 			source._top = q;
-			return q == x;
+			return true;
 		}
 
 		T *top() const {
-- 
2.43.0


From 51f7b7cc0ff6b1c61b263ef4946582ff34ac9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 174/180] fix: SList::take exchanged the cookies of the lists,
 so a pending pop() overlooked the change

---
 src/lightspeed/mt/slist.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 529c779..5edab35 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -151,7 +151,17 @@ namespace LightSpeed {
 		 */
 		 
 		void take(SList &source) {
-			_top = lockExchange(source._top,_top);
+			//the cookie of the source has to be changed - and not replaced by the cookie
+			//of this list - otherwise a pending pop() can overlook the change
+			bool rep;
+			atomic ntop = source._top;
+			do {
+				atomic ctop = ntop;
+				atomic chtop = ptrToCookie(cookieToPtr(_top),ctop+1);
+				ntop = lockCompareExchange(source._top,ctop,chtop);
+				rep = ntop != ctop;
+			} while (rep);
+			_top = ntop;
 		}
 		
 
-- 
2.43.0


From ad3cbac05ccf4e31f4bb68d6d77c9093a76cb26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 175/180] fix: SList::swapWhenTopIs brought a foreign cookie,
 so a pending pop() overlooked the change

---
 src/lightspeed/mt/slist.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 5edab35..10ebc9f 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -183,7 +183,9 @@ namespace LightSpeed {
 		 */
 		bool swapWhenTopIs(SList &source, T *condition) {
 			atomic x = ptrToCookie(condition,_top);
-			atomic q = lockCompareExchange(_top,x,source._top);
+			//change the cookie, otherwise a pending pop() can overlook the change
+			atomic nw = ptrToCookie(cookieToPtr(source._top),x+1);
+			atomic q = lockCompareExchange(_top,x,nw);
 			if (q != x) return false;
 			source._top = q;
 			return true;
-- 
2.43.0


From 8d315b0e7cd46827ee8704c88d6f4ecfd4db6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 176/180] fix: SList::pop (and PoolAlloc::alloc) threw an
 exception when other thread took the item and changed it

---
 src/lightspeed/mt/slist.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 10ebc9f..f0f34cf 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -73,7 +73,9 @@ namespace LightSpeed {
 				ptop = cookieToPtr(ctop);
 				if (ptop == 0) return 0;
 				T *pnext = safeGetPointerValue(ptop->next);
-				atomic chtop = ptrToCookie(pnext,ctop+1);
+				//pnext can be anything, when the item has been removed by other thread and it is
+				//used for something else. Such a value is thrown away as the exchange fails
+				atomic chtop = ((atomic)pnext & ~mask) | ((ctop+1) & mask);
 				ntop = lockCompareExchange(_top,ctop,chtop);
 				rep = ntop != ctop;
 			} while (rep);
-- 
2.43.0


From 8993619dc3a2d1ad0d9738c143dc499ac7edc3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 177/180] fix: AllocCluster::dealloc computed the index of the
 block from the unrounded size

---
 src/lightspeed/base/memory/clusterAlloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/clusterAlloc.cpp b/src/lightspeed/base/memory/clusterAlloc.cpp
index c018337..beef146 100644
--- a/src/lightspeed/base/memory/clusterAlloc.cpp
+++ b/src/lightspeed/base/memory/clusterAlloc.cpp
@@ -59,7 +59,7 @@ void AllocCluster::dealloc( void *ptr, natural sz )
 	natural bksize = objSize2bksize(sz);
 	if (!isMyPtr(ptr,bksize)) throw InvalidPointerException(THISLOCATION,ptr);
 	bool wasFull = isFull();
-	makeDealloc(ptr,sz);
+	makeDealloc(ptr,bksize);
 	if (wasFull || isEmpty())
 		master->onDealloc(this,wasFull);
 }
-- 
2.43.0


From 0571bac89b7825650ffd302415344308b914a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:20 +0000
Subject: [PATCH 178/180] fix: ClusterAlloc divided by zero when a block of
 zero size was allocated

---
 src/lightspeed/base/memory/clusterAlloc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/memory/clusterAlloc.cpp b/src/lightspeed/base/memory/clusterAlloc.cpp
index beef146..920bc21 100644
--- a/src/lightspeed/base/memory/clusterAlloc.cpp
+++ b/src/lightspeed/base/memory/clusterAlloc.cpp
@@ -34,6 +34,7 @@ AllocCluster * AllocCluster::create( IRuntimeAlloc &alloc, IMaster *cb, byte cou
 natural AllocCluster::objSize2bksize( natural objSize )
 {
 	natural fs = sizeof(void *);
+	if (objSize == 0) objSize = 1;
 	while (objSize < fs) fs>>=1;
 	fs--;
 	return (objSize + fs) & (~fs);
-- 
2.43.0


From 862ed685b696149689366c6c53b90f008e03ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:20 +0000
Subject: [PATCH 179/180] fix: ClusterAlloc ignored silently a foreign pointer
 below all its clusters

---
 src/lightspeed/base/memory/clusterAlloc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/memory/clusterAlloc.cpp b/src/lightspeed/base/memory/clusterAlloc.cpp
index 920bc21..52370e8 100644
--- a/src/lightspeed/base/memory/clusterAlloc.cpp
+++ b/src/lightspeed/base/memory/clusterAlloc.cpp
@@ -174,6 +174,8 @@ void AllocMulticluster::dealloc( void *ptr )
 			bool wasFull = k->isFull();
 			k->makeDealloc(ptr,bkSize);
 			onDealloc(k,wasFull);
+		} else {
+			throw InvalidPointerException(THISLOCATION,ptr);
 		}
 	}
 }
-- 
2.43.0


From 79f8ca245d2909f066a14f288760c803cf85afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:20 +0000
Subject: [PATCH 180/180] fix: AllocCluster::alloc returned itself as the owner
 of a block from other cluster

---
 src/lightspeed/base/memory/clusterAlloc.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lightspeed/base/memory/clusterAlloc.h b/src/lightspeed/base/memory/clusterAlloc.h
index 75ea6db..646ad6e 100644
--- a/src/lightspeed/base/memory/clusterAlloc.h
+++ b/src/lightspeed/base/memory/clusterAlloc.h
@@ -82,8 +82,7 @@ namespace LightSpeed {
 		void makeDealloc(void *ptr, natural bkSize);
 
 		virtual void *alloc(natural objSize, IRuntimeAlloc * &owner) {
-			owner = this;
-			return alloc(objSize);
+			return master->alloc(objSize,owner);
 		}
 		///Allocates object
 		/** Cluster cannot provide allocation through IRuntimeAlloc,
-- 
2.43.0

