From 66ed8b710d709fbd2fa3ec36b4fdcf6bfc9176a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 01/59] fix: Timeval::future left tv_usec at 1000000, an
 invalid timespec

---
 Timeval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index e0ec49d..c0f9dbd 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -38,7 +38,7 @@ void Timeval::future(unsigned offset)	// In msecs
 	unsigned msec = offset%1000;
 	mTimeval.tv_usec += msec*1000;
 	mTimeval.tv_sec += sec;
-	if (mTimeval.tv_usec>1000000) {
+	if (mTimeval.tv_usec>=1000000) {
 		mTimeval.tv_usec -= 1000000;
 		mTimeval.tv_sec += 1;
 	}
-- 
2.43.0


From ad09eeb32749e29b8b17bf6927ace8cdd0587c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 02/59] fix: Timeval::delta overflowed for differences over
 24.8 days

---
 Timeval.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index c0f9dbd..166f555 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -72,10 +72,9 @@ double Timeval::seconds() const
 
 long Timeval::delta(const Timeval& other) const
 {
-	// 2^31 milliseconds is just over 4 years.
 	int32_t deltaS = other.sec() - sec();
 	int32_t deltaUs = other.usec() - usec();
-	return 1000*deltaS + deltaUs/1000;
+	return 1000L*deltaS + deltaUs/1000;
 }
 	
 
-- 
2.43.0


From d34090b13bc34d030c46cebcce7eb16d55750135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 03/59] fix: Mutex::timedlock reported errors as acquired and
 did not count the acquisition

---
 Threads.cpp | 14 +++++++++++---
 Threads.h   |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index b20e158..76daed0 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -121,11 +121,16 @@ bool Mutex::trylock(const char *file, unsigned line)
 }
 
 // Returns true if the lock was acquired within the timeout, or false if it timed out.
-bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
+bool Mutex::timedlock(int msecs, const char *file, unsigned line) // Wait this long in milli-seconds.
 {
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
-	return ETIMEDOUT != pthread_mutex_timedlock(&mMutex, &timeout);
+	if (pthread_mutex_timedlock(&mMutex, &timeout)!=0) return false;
+	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
+		mLockerFile[mLockCnt] = file; mLockerLine[mLockCnt] = line;		// Now our thread has it locked from here.
+	}
+	mLockCnt++;
+	return true;
 }
 
 // There is a chance here that the mLockerFile&mLockerLine
@@ -162,7 +167,10 @@ void Mutex::lock(const char *file, unsigned line)
 	if (file) {
 		LOCKLOG(DEBUG,"start at %s %u",file,line);
 		// If we wait more than a second, print an error message.
-		if (!timedlock(1000)) {
+		if (timedlock(1000,file,line)) {
+			LOCKLOG(DEBUG,"lock by %s",mutext().c_str());
+			return;
+		} else {
 			string backtrace = rn_backtrace();
 			LOCKLOG(ERR, "Blocked more than one second at %s %u by %s %s",file,line,mutext().c_str(),backtrace.c_str());
 			printf("WARNING: %s Blocked more than one second at %s %u by %s %s\n",timestr(4).c_str(),file,line,mutext().c_str(),backtrace.c_str());
diff --git a/Threads.h b/Threads.h
index 6e004ba..d11646b 100644
--- a/Threads.h
+++ b/Threads.h
@@ -103,7 +103,7 @@ class Mutex {
 	std::string mutext() const;
 
 	// Returns true if the lock was acquired, or false if it timed out.
-	bool timedlock(int msecs);
+	bool timedlock(int msecs, const char *file=0, unsigned line=0);
 
 	void unlock();
 
-- 
2.43.0


From 6594329a80d15f0aeca12def8cd17def5335fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 04/59] fix: ScopedLockMultiple waited for one mutex while
 holding another (deadlock)

---
 Threads.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index 76daed0..8af60bc 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -252,18 +252,22 @@ void ScopedLockMultiple::_restoreState() {
 }
 void ScopedLockMultiple::_lockAll() {
 	// Do not return until we have locked all three mutexes.
+	if (_trylock(0) && _trylock(1) && _trylock(2)) return;
 	for (int n=0; true; n++) {
+		// Never wait on one mutex while holding another, not even one that was locked by us on entry.
 		// Attempt to lock in order 0,1,2.
+		_unlock(1);
+		_unlock(2);
 		_lock(0); 						// Wait on 0, unless it was locked by us on entry.
 		if (_trylock(1) && _trylock(2)) return;			// Then try to acquire 1 and 2
-		_unlock(1);										// If failure, release all.
+		_unlock(2);										// If failure, release all.
 		_unlock(0);
 		// Attempt to lock in order 1,0,2.
 		_lock(1);
 		if (_trylock(0) && _trylock(2)) return;
 		_unlock(0);
 		_unlock(1);
-		// Attempt to lock in order 2,1,0.
+		// Attempt to lock in order 2,0,1.
 		_lock(2);
 		if (_trylock(0) && _trylock(1)) return;
 		_unlock(0);
-- 
2.43.0


From 2dad3dfd3d8624bca214c50fd78f6b2bfcd5718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 05/59] fix: a connected InterthreadQueue handed out and
 checked the wrong lock for iteration

---
 Interthread.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index b6057d2..2968ead 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -132,13 +132,13 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 	}
 
 	// (pat) This provides a client the ability to lock the InterthreadQueue and iterate it.
-	Mutex &qGetLock() const { return mLock; }
+	Mutex &qGetLock() const { return *mLockPointer; }
 	typedef typename Fifo::iterator iterator;
 	typedef typename Fifo::const_iterator const_iterator;
-	iterator begin() { assert(mLock.lockcnt()); return mQ.begin(); }
-	iterator end() { assert(mLock.lockcnt()); return mQ.end(); }
-	const_iterator begin() const { assert(mLock.lockcnt()); return mQ.begin(); }
-	const_iterator end() const { assert(mLock.lockcnt()); return mQ.end(); }
+	iterator begin() { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	iterator end() { assert(mLockPointer->lockcnt()); return mQ.end(); }
+	const_iterator begin() const { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	const_iterator end() const { assert(mLockPointer->lockcnt()); return mQ.end(); }
 
 #if USE_SCOPED_ITERATORS
 	// The Iterator locks the InterthreadQueue until the Iterator falls out of scope.
-- 
2.43.0


From 8c104ea1abfb84bcb5644313ed681318109ec66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 06/59] fix: iqWaitForEither never returned on timeout and spun
 holding the lock

---
 Interthread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 2968ead..010110f 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -222,7 +222,9 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		if (timeout) {
 			Timeval waitTime(timeout);
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-				mWriteSignalPointer->wait(*mLockPointer,waitTime.remaining());
+				long remaining = waitTime.remaining();
+				if (remaining < 2) { return; }
+				mWriteSignalPointer->wait(*mLockPointer,remaining);
 			}
 		} else {	// Wait forever.
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-- 
2.43.0


From ce087f9a8f2fcab59fb85c38602b0a8076cf6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 07/59] fix: InterthreadQueueWithWait woke only one of several
 threads waiting for a low-water mark

---
 Interthread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index 010110f..1a219cb 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -345,7 +345,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		while (mQ.size()>0) freeElement((T*)mQ.get());
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 	}
 
 
@@ -372,7 +372,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock);
 			retVal = (T*)mQ.get();
 		}
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -397,7 +397,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock,remaining);
 		}
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -409,7 +409,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
-- 
2.43.0


From 562d3c03895e32b8d9327eb616154811d008c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 08/59] fix: InterthreadMap1::size did not compile when used

---
 Interthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 1a219cb..d402be2 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -597,7 +597,7 @@ public:
 	}
 
 	// pat added.
-	unsigned size() const { ScopedLock(mLock); return mMap.size(); }
+	unsigned size() const { ScopedLock lock(mLock); return mMap.size(); }
 
 	// WARNING: These iterators are not intrinsically thread safe.
 	// Caller must use ScopedIterator or the modification lock or enclose the entire iteration in some higher level lock.
-- 
2.43.0


From f0fb9c57d26ebefda982976bfae62e84592833e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 09/59] fix: InterthreadMap leaked its elements on destruction

---
 Interthread.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Interthread.h b/Interthread.h
index d402be2..b85cbca 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -614,6 +614,15 @@ public:
 template <class K, class D > class InterthreadMap : public InterthreadMap1<K,D*>
 {
 	void vdelete(D* foo) { delete foo; }
+public:
+	// The base class destructor cannot do this: by then our vdelete is gone.
+	~InterthreadMap() {
+		ScopedLock lock(this->mLock);
+		for (typename InterthreadMap1<K,D*>::Map::iterator iter = this->mMap.begin(); iter != this->mMap.end(); ++iter) {
+			vdelete(iter->second);
+		}
+		this->mMap.clear();
+	}
 };
 
 
-- 
2.43.0


From 901840b0f63ddcf57ff7fe76647bc58a8e147aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 10/59] fix: RefCntBase::getRefCnt read the count without its
 lock

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index 988235b..ec5f1dc 100644
--- a/Utils.h
+++ b/Utils.h
@@ -215,7 +215,7 @@ class RefCntBase {
 	public:
 	virtual ~RefCntBase();
 	RefCntBase() : mRefCnt(0) {}
-	int getRefCnt() const { return mRefCnt; }
+	int getRefCnt() const { ScopedLock lock(mRefMutex); return mRefCnt; }
 };
 
 // This is basically the same as a C++11 shared_ptr, but we cannot use C++ 11 yet.
-- 
2.43.0


From de1c2a965f6fde6109ec2042cd06f00ce578ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 11/59] fix: the report of a blocked Mutex::lock raced with the
 holder updating the lock record

---
 Threads.cpp | 37 ++++++++++++++++++++-----------------
 Threads.h   |  1 +
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index 8af60bc..99d978e 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -107,13 +107,20 @@ Mutex::~Mutex()
 	assert(!res);
 }
 
+// Record an acquisition.  The caller holds the mutex, but a thread that reports being blocked on it may be in mutext().
+void Mutex::_locked(const char *file, unsigned line)
+{
+	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
+		__atomic_store_n(&mLockerFile[mLockCnt],file,__ATOMIC_RELAXED);		// Now our thread has it locked from here.
+		__atomic_store_n(&mLockerLine[mLockCnt],line,__ATOMIC_RELAXED);
+	}
+	__atomic_store_n(&mLockCnt,mLockCnt+1,__ATOMIC_RELAXED);
+}
+
 bool Mutex::trylock(const char *file, unsigned line)
 {
 	if (pthread_mutex_trylock(&mMutex)==0) {
-		if (mLockCnt >= 0 && mLockCnt < maxLocks) {
-			mLockerFile[mLockCnt] = file; mLockerLine[mLockCnt] = line;		// Now our thread has it locked from here.
-		}
-		mLockCnt++;
+		_locked(file,line);
 		return true;
 	} else {
 		return false;
@@ -126,10 +133,7 @@ bool Mutex::timedlock(int msecs, const char *file, unsigned line) // Wait this l
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
 	if (pthread_mutex_timedlock(&mMutex, &timeout)!=0) return false;
-	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
-		mLockerFile[mLockCnt] = file; mLockerLine[mLockCnt] = line;		// Now our thread has it locked from here.
-	}
-	mLockCnt++;
+	_locked(file,line);
 	return true;
 }
 
@@ -141,10 +145,12 @@ string Mutex::mutext() const
 	string result;
 	result.reserve(100);
 	//result += format("lockid=%u lockcnt=%d",(unsigned)this,mLockCnt);
-	result += format("lockcnt=%d",mLockCnt);
-	for (int i = 0; i < mLockCnt && i < maxLocks; i++) {
-		if (mLockerFile[i]) {
-			result += format(" %s:%u",mLockerFile[i],mLockerLine[i]);
+	int cnt = __atomic_load_n(&mLockCnt,__ATOMIC_RELAXED);
+	result += format("lockcnt=%d",cnt);
+	for (int i = 0; i < cnt && i < maxLocks; i++) {
+		const char *file = __atomic_load_n(&mLockerFile[i],__ATOMIC_RELAXED);
+		if (file) {
+			result += format(" %s:%u",file,__atomic_load_n(&mLockerLine[i],__ATOMIC_RELAXED));
 		} else {
 			result += " ?";
 		}
@@ -180,10 +186,7 @@ void Mutex::lock(const char *file, unsigned line)
 		//LOCKLOG(DEBUG,"unchecked lock");
 		_lock();
 	}
-	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
-		mLockerFile[mLockCnt] = file; mLockerLine[mLockCnt] = line;		// Now our thread has it locked from here.
-	}
-	mLockCnt++;
+	_locked(file,line);
 	if (file) { LOCKLOG(DEBUG,"lock by %s",mutext().c_str()); }
 	//else { LOCKLOG(DEBUG,"lock no file"); }
 }
@@ -192,7 +195,7 @@ void Mutex::unlock()
 {
 	if (lockerFile()) { LOCKLOG(DEBUG,"unlock at %s",mutext().c_str()); }
 	//else { LOCKLOG(DEBUG,"unlock unchecked"); }
-	mLockCnt--;
+	__atomic_store_n(&mLockCnt,mLockCnt-1,__ATOMIC_RELAXED);
 	pthread_mutex_unlock(&mMutex);
 }
 
diff --git a/Threads.h b/Threads.h
index d11646b..f7176f0 100644
--- a/Threads.h
+++ b/Threads.h
@@ -84,6 +84,7 @@ class Mutex {
 	static const int maxLocks = 5;		// Just the maximum number of recursive locks we report during debugging, not the max possible.
 	const char *mLockerFile[maxLocks];
 	unsigned mLockerLine[maxLocks];
+	void _locked(const char *file, unsigned line);
 	const char *lockerFile() { int i = mLockCnt-1; return (i >= 0 && i < maxLocks) ? mLockerFile[i] : NULL; }
 	//unused: bool anyDebugging() { for (int i = 0; i < maxLocks; i++) { if (mLockerFile[i]) return true; return false; } }
 
-- 
2.43.0


From fc38157b32144aa3529b5497b2b74d9afd37abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:01 +0000
Subject: [PATCH 12/59] fix: assigning a Vector or BitVector to itself or from
 its own segment destroyed the data

---
 Vector.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Vector.h b/Vector.h
index 91b850b..3edfdb1 100644
--- a/Vector.h
+++ b/Vector.h
@@ -150,6 +150,7 @@ template <class T> class VectorBase
 	void shiftMem(VectorBase<T>&other)
 	{
 		VECTORDEBUG("VectorBase::shiftMem(%p)",(void*)&other);
+		if (this == &other) return;
 		this->clear();
 		this->mData=other.mData;
 		this->mStart=other.mStart;
@@ -195,14 +196,18 @@ template <class T> class VectorBase
 
 	/** Copy data from another vector. */
 	void clone(const VectorBase<T>& other) {
-		this->resize(other.size());
-		memcpy(mData,other.mStart,other.bytes());
+		VectorBase<T> copy;		// The other may be this vector or an alias of it, so copy before releasing our memory.
+		copy.vInit(other.size());
+		memcpy(copy.mData,other.mStart,other.bytes());
+		this->shiftMem(copy);
 	}
 
 	void vConcat(const VectorBase<T>&other1, const VectorBase<T>&other2) {
-		this->resize(other1.size()+other2.size());
-		memcpy(this->mStart, other1.mStart, other1.bytes());
-		memcpy(this->mStart+other1.size(), other2.mStart, other2.bytes());
+		VectorBase<T> copy;
+		copy.vInit(other1.size()+other2.size());
+		memcpy(copy.mStart, other1.mStart, other1.bytes());
+		memcpy(copy.mStart+other1.size(), other2.mStart, other2.bytes());
+		this->shiftMem(copy);
 	}
 
 	protected:
-- 
2.43.0


From 9ab096b54dd4d52da79e9d9741818e952eecea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:01 +0000
Subject: [PATCH 13/59] fix: BitVector::invert left elements that are not 0 or
 1, so comparisons failed

---
 BitVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index f29ef52..1a5f764 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -155,7 +155,7 @@ void BitVector::writeFieldReversed(size_t& writeIndex, uint64_t value, unsigned
 void BitVector::invert()
 {
 	for (size_t i=0; i<size(); i++) {
-		mStart[i] = ~mStart[i];
+		mStart[i] = ~mStart[i] & 0x01;
 	}
 }
 
-- 
2.43.0


From dd6d1a482425bad4fd07b4caa7c826488ad21460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:01 +0000
Subject: [PATCH 14/59] fix: BitVector::hex dropped the last bits of vectors
 whose size is not a multiple of four

---
 BitVector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BitVector.cpp b/BitVector.cpp
index 1a5f764..9418e96 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -413,6 +413,8 @@ void BitVector::hex(ostream& os) const
 	for (unsigned i=0; i<digits; i++) {
 		os << readField(wp,4);
 	}
+	unsigned rem = size() - digits*4;
+	if (rem>0) { os << readField(wp,rem); }		// As unhex() reads it.
 	os << std::dec;
 }
 
-- 
2.43.0


From 4db29e6964fc5ad03deb63846d9c1005161b9830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:01 +0000
Subject: [PATCH 15/59] fix: BitVector::unhex accepted white space inside the
 digits

---
 BitVector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index 9418e96..7ad653d 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -32,6 +32,7 @@
 #include <stdio.h>
 #include <sstream>
 #include <string.h>
+#include <ctype.h>
 #include <Logger.h>
 
 using namespace std;
@@ -432,7 +433,7 @@ bool BitVector::unhex(const char* src)
 	unsigned int val;
 	unsigned digits = size()/4;
 	for (unsigned i=0; i<digits; i++) {
-		if (sscanf(src+i, "%1x", &val) < 1) {
+		if (!isxdigit((unsigned char)src[i]) || sscanf(src+i, "%1x", &val) < 1) {
 			return false;
 		}
 		fillField(i*4,val,4);
@@ -440,7 +441,7 @@ bool BitVector::unhex(const char* src)
 	unsigned whole = digits*4;
 	unsigned rem = size() - whole;
 	if (rem>0) {
-		if (sscanf(src+digits, "%1x", &val) < 1) {
+		if (!isxdigit((unsigned char)src[digits]) || sscanf(src+digits, "%1x", &val) < 1) {
 			return false;
 		}
 		fillField(whole,val,rem);
-- 
2.43.0


From 8249dc9b22ee5ae59c2bc52c3e5c5f6b76506596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:01 +0000
Subject: [PATCH 16/59] fix: BitVector::peekFieldReversed asserted for an empty
 field of an empty vector

---
 BitVector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BitVector.cpp b/BitVector.cpp
index 7ad653d..2694acd 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -74,6 +74,7 @@ uint64_t BitVector::peekField(size_t readIndex, unsigned length) const
 uint64_t BitVector::peekFieldReversed(size_t readIndex, unsigned length) const
 {
 	uint64_t accum = 0;
+	if (length == 0) return accum;
 	char *dp = mStart + readIndex + length - 1;
 	assert(dp<mEnd);
 	for (int i=(length-1); i>=0; i--) {
-- 
2.43.0


From b5754776ad060e4e9f2f3176cdcf30db3146ada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:10 +0000
Subject: [PATCH 17/59] fix: SoftVector(float*,unsigned) documented an
 ownership it never took

---
 BitVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitVector.h b/BitVector.h
index 0f78b97..db7d997 100644
--- a/BitVector.h
+++ b/BitVector.h
@@ -341,7 +341,7 @@ class SoftVector: public Vector<float> {
 
 	/**
 		Wrap a SoftVector around a block of floats.
-		The block will be delete[]ed upon desctuction.
+		The block is NOT deleted upon destruction.
 	*/
 	SoftVector(float *wData, unsigned length)
 		:Vector<float>(wData,length)
-- 
2.43.0


From 17b1792ba2a7ab37c8ae89c54f130819f4253e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 18/59] fix: URLEncode used a 17 character digit table and left
 NUL unencoded

---
 URLEncode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index a993ac6..3558faf 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -32,12 +32,12 @@ using namespace std;
 //based on javascript encodeURIComponent()
 string URLEncode(const string &c)
 {
-	static const char *digits = "01234567890ABCDEF";
+	static const char *digits = "0123456789ABCDEF";
 	string retVal="";
 	for (size_t i=0; i<c.length(); i++)
 	{
 		const char ch = c[i];
-		if (isalnum(ch) || strchr("-_.!~'()",ch)) {
+		if (ch && (isalnum((unsigned char)ch) || strchr("-_.!~'()",ch))) {
 			retVal += ch;
 		} else {
 			retVal += '%';
-- 
2.43.0


From 7220ab2e0f832c8181e5673f52683ffffb6507a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 19/59] fix: format and format1 lost the last character of 199
 character results

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index aed42c7..952283b 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -134,7 +134,7 @@ string format(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
@@ -177,7 +177,7 @@ string format1(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
-- 
2.43.0


From f36fc74b8bbbd537742acb417fef0aec75b5bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 20/59] fix: myscanf assigned uninitialized memory when nothing
 was scanned

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 952283b..0a19520 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -199,7 +199,7 @@ int myscanf(const char *str, const char *fmt, string *s1)
 	int maxlen = strlen(str)+1;
 	char *a1 = (char*)alloca(maxlen);
 	int n = sscanf(str,fmt,a1);
-	s1->assign(a1);
+	if (n == 1) s1->assign(a1);
 	return n;
 }
 int myscanf(const char *str, const char *fmt, string *s1, string *s2)
-- 
2.43.0


From 1bec9bd863f0e9d22ec643d643814957cb734397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 21/59] fix: gcd divided by zero or recursed forever for zero
 and negative arguments

---
 Utils.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 0a19520..2ef1164 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -344,11 +344,12 @@ ostream& operator<<(std::ostream& os, const Text2Str *val)
 // This is by Doug Brown.
 int gcd(int x, int y)
 {
-	if (x > y) {
-		return x % y == 0 ? y : gcd(y, x % y);
-	} else {
-		return y % x == 0 ? x : gcd(x, y % x);
+	while (y) {
+		int t = x % y;
+		x = y;
+		y = t;
 	}
+	return x < 0 ? -x : x;
 }
 
 
-- 
2.43.0


From 67c14cea001fadab9cbce433f17e2948a571347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 22/59] fix: replaceAll compared a truncated index with npos
 and looped on an empty search string

---
 Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 2ef1164..4f9f088 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -478,7 +478,8 @@ ostream& operator<<(std::ostream& os, const Statistic<double> &stat) { stat.text
 string replaceAll(const std::string input, const std::string search, const std::string replace)
 {
 	string output = input;
- 	unsigned index1 = 0;
+	size_t index1 = 0;
+	if (search.empty()) { return output; }
 
 	while (index1 < output.size()) {
 	  try {
-- 
2.43.0


From f3d5a88a132229270da374fa7c255c1f4157bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 23/59] fix: stringSplit lost words after the 40th and
 cstrSplit did not give the rest to the final argument

---
 Utils.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 4f9f088..023817a 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -373,6 +373,7 @@ int cstrSplit(char *in, char **pargv,int maxargc, const char *splitchars)
 		while (*in && strchr(splitchars,*in)) {in++;}	// scan past any splitchars
 		if (! *in) return argc;					// return if finished.
 		pargv[argc++] = in;						// save ptr to start of arg.
+		if (argc == maxargc) break;				// The final arg gets the rest.
 		in = strpbrk(in,splitchars);			// go to end of arg.
 		if (!in) return	argc;					// return if finished.
 		*in++ = 0;								// zero terminate this arg.
@@ -402,14 +403,16 @@ char *cstrGetArg(const char *in, int nth, unsigned *length)
 
 vector<string>& stringSplit(vector<string> &result,const char *input)
 {
-	char *argv[40];
 	//char buf[202];
 	//strncpy(buf,input,200); buf[200] = 0;
 	char *buf = strdup(input);
-	int cnt = cstrSplit(buf,argv,40,NULL);
-	for (int i = 0; i < cnt; i++) {
-		result.push_back(string(argv[i]));
-	}
+	char *argv[2], *rest = buf;
+	int cnt;
+	do {
+		cnt = cstrSplit(rest,argv,2,NULL);
+		if (cnt >= 1) { result.push_back(string(argv[0])); }
+		rest = argv[1];
+	} while (cnt == 2);
 	free(buf);
 	return result;
 }
-- 
2.43.0


From 686256b0569ba6367389c77505265b1f2d8a35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 24/59] fix: printPrettyTable dropped columns after the 30th
 and truncated cells of more than 248 characters

---
 Utils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 023817a..46db817 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -425,9 +425,10 @@ vector<string>& stringSplit(vector<string> &result,const char *input)
 void printPrettyTable(prettyTable_t &tab, ostream&os, bool tabSeparated)
 {
 	LOG(DEBUG);
-	const unsigned maxcols = 30;
 	// Determine the maximum width of each column.
-	int width[maxcols]; memset(width,0,sizeof(width));
+	unsigned maxcols = 0;
+	for (prettyTable_t::iterator it = tab.begin(); it != tab.end(); ++it) { maxcols = max(maxcols,(unsigned)it->size()); }
+	vector<int> width(maxcols,0);
 	if (!tabSeparated) {
 	  for (prettyTable_t::iterator it = tab.begin(); it != tab.end(); ++it) {
 		vector<string> &row = *it;
@@ -451,7 +452,6 @@ void printPrettyTable(prettyTable_t &tab, ostream&os, bool tabSeparated)
 		}
 
 		for (unsigned col = 0; col<maxcols && col<row.size(); col++) {
-			char buf[252];
 			const char *val = row[col].c_str();
 			if (0 == strcmp(val,"_")) { val = ""; }	// Dont print "_", used to easily format the header fields.
 			if (tabSeparated) {
@@ -462,8 +462,8 @@ void printPrettyTable(prettyTable_t &tab, ostream&os, bool tabSeparated)
 				//int pad = 0;
 				//if (nrow < 2) { pad = (width[col] - strlen(val)) / 2; }
 				//sprintf(buf,"%*s%.*s ",(width[col]-pad),val,pad,"                         ");
-				snprintf(buf,250,"%-*s ",width[col],val);
-				os << buf;
+				int pad = width[col] - (int)strlen(val);
+				os << val << string(pad > 0 ? pad+1 : 1,' ');
 			}
 		}
 		os << "\n";
-- 
2.43.0


From f81155e7fafb49ed42697b75416cc7c2db60e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 25/59] fix: encoding names were compared case-sensitively

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 46db817..4842817 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -29,8 +29,8 @@ namespace Utils {
 using namespace std;
 
 struct stringCaseInsensitive : public string {
-	bool operator==(string &other) { return 0==strcasecmp(this->c_str(),other.c_str()); }
-	bool operator!=(string &other) { return 0!=strcasecmp(this->c_str(),other.c_str()); }
+	bool operator==(const char *other) { return 0==strcasecmp(this->c_str(),other); }
+	bool operator!=(const char *other) { return 0!=strcasecmp(this->c_str(),other); }
 	stringCaseInsensitive(string &other) : string(other) {}
 	stringCaseInsensitive(const char* &other) : string(other) {}
 };
-- 
2.43.0


From eedc445aaffae824cd6d8b97273eff56b2d599d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:47 +0000
Subject: [PATCH 26/59] fix: F16 assignment returned the raw value shifted, so
 chained assignments were wrong

---
 F16.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/F16.h b/F16.h
index 374c91a..7a948f0 100644
--- a/F16.h
+++ b/F16.h
@@ -67,22 +67,22 @@ class F16 {
 	//operator float() const { return mV/65536.0F; }
 	//operator int() const { return mV>>16; }
 
-	F16 operator=(float f)
+	F16& operator=(float f)
 	{
 		mV = _f16_round(f*65536.0F);
 		return *this;
 	}
 
-	F16 operator=(int i)
+	F16& operator=(int i)
 	{
 		mV = i<<16;
 		return *this;
 	}
 
-	F16 operator=(const F16& other)
+	F16& operator=(const F16& other)
 	{
 		mV = other.mV;
-		return mV;
+		return *this;
 	}
 
 	F16 operator+(const F16& other) const
-- 
2.43.0


From eb9a191d1e9fee69f88c670aea61a78116e0be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:47 +0000
Subject: [PATCH 27/59] fix: F16 conversion did not round to nearest: it added
 one half in single precision

---
 F16.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/F16.h b/F16.h
index 7a948f0..6993464 100644
--- a/F16.h
+++ b/F16.h
@@ -28,16 +28,15 @@
 #define F16_H
 
 #include <stdint.h>
+#include <math.h>
 #include <ostream>
 
 
 
 /** Round a float to the appropriate F16 value. */
-inline int32_t _f16_round(float f)
+inline int32_t _f16_round(double f)
 {
-	if (f>0.0F) return (int32_t)(f+0.5F);
-	if (f<0.0F) return (int32_t)(f-0.5F);
-	return 0;
+	return (int32_t)lround(f);
 }
 
 
@@ -57,7 +56,7 @@ class F16 {
 
 	F16(int i) { mV = i<<16; }
 	F16(float f) { mV = _f16_round(f*65536.0F); }
-	F16(double f) { mV = _f16_round((float)f*65536.0F); }
+	F16(double f) { mV = _f16_round(f*65536.0); }
 
 	int32_t& raw() { return mV; }
 	const int32_t& raw() const { return mV; }
-- 
2.43.0


From e60e46c435a9c759d97a1d638a1160cdc2228957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:47 +0000
Subject: [PATCH 28/59] fix: F16 comparisons with float rounded the fixed point
 value to 24 bits

---
 F16.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F16.h b/F16.h
index 6993464..b583598 100644
--- a/F16.h
+++ b/F16.h
@@ -183,17 +183,17 @@ class F16 {
 
 	bool operator>(float f) const
 	{
-		return (mV/65536.0F) > f;
+		return (mV/65536.0) > f;
 	}
 
 	bool operator<(float f) const
 	{
-		return (mV/65536.0F) < f;
+		return (mV/65536.0) < f;
 	}
 
 	bool operator==(float f) const
 	{
-		return (mV/65536.0F) == f;
+		return (mV/65536.0) == f;
 	}
 
 };
-- 
2.43.0


From f364c39cc1ebc49c2320781354afa12ff650662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:42 +0000
Subject: [PATCH 29/59] fix: MemStats mMemMap was updated and the statistics
 printed without the lock

---
 MemoryLeak.h | 5 +++--
 Utils.cpp    | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/MemoryLeak.h b/MemoryLeak.h
index c7ae4f9..908dcb7 100644
--- a/MemoryLeak.h
+++ b/MemoryLeak.h
@@ -66,6 +66,7 @@ struct MemStats {
 	void memChkNew(MemoryNames memIndex, const char *id);
 	void memChkDel(MemoryNames memIndex, const char *id);
 	void text(std::ostream &os);
+	void memMapAdd(const std::string &key, int delta);	// Locked update of mMemMap.
 	// We would prefer to use an unordered_map, but that requires special compile switches.
 	// What a super great language.
 	typedef std::map<std::string,Int_z> MemMapType;
@@ -82,7 +83,7 @@ extern int gMemLeakDebug;
 struct MemLabel {
 	std::string mccKey;
 	virtual ~MemLabel() {
-		Int_z &tmp = Utils::gMemStats.mMemMap[mccKey]; tmp = tmp - 1;
+		Utils::gMemStats.memMapAdd(mccKey,-1);
 	}
 };
 
@@ -100,7 +101,7 @@ struct MemLabel {
 #define RN_MEMLOG(type,ptr) { \
 	static std::string key = format("%s_%s:%d",#type,__FILE__,__LINE__); \
 	(ptr)->/* MemCheck##type:: */ mccKey = key; \
-	Utils::gMemStats.mMemMap[key]++; \
+	Utils::gMemStats.memMapAdd(key,1); \
 	}
 
 // TODO: The above assumes that checkclass is MemCheck ## subClass
diff --git a/Utils.cpp b/Utils.cpp
index 4842817..adbff65 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -80,12 +80,19 @@ MemStats::MemStats()
 
 void MemStats::text(ostream &os)
 {
+	ScopedLock lock(memChkLock);
 	os << "Structs current total:\n";
 	for (int i = 0; i < mMax; i++) {
 		os << "\t" << (mMemName[i] ? mMemName[i] : "unknown") << " " << mMemNow[i] << " " << mMemTotal[i] << "\n";
 	}
 }
 
+void MemStats::memMapAdd(const std::string &key, int delta)
+{
+	ScopedLock lock(memChkLock);
+	mMemMap[key] += delta;
+}
+
 void MemStats::memChkNew(MemoryNames memIndex, const char *id)
 {
 	/*cout << "new " #type "\n";*/
-- 
2.43.0


From 634177f7d99bac3cf0f25c39c99afb6c9b672605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:55 +0000
Subject: [PATCH 30/59] fix: sqlite helpers truncated long keys and attributes
 and broke on quotes

---
 sqlite3util.cpp | 56 ++++++++++++++++++++++++-------------------------
 sqlite3util.h   |  3 +++
 2 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index b7ebd43..f53dae6 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -85,18 +85,27 @@ int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries)
 	return src;
 }
 
-// condition buffer is size 100 minimum.
-static const unsigned sqlBufferSize = 100;
-static const char *condition_c(char *resultBuffer,const char *keyName, const char*keyValue)
+string sqlite_quote(const string &text)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == '%s'",keyName,keyValue);
-	return resultBuffer;
+	string result("'");
+	bool hasNul = false;
+	for (size_t i = 0; i < text.size(); i++) {
+		if (text[i] == '\0') { result += "'||char(0)||'"; hasNul = true; }	// The statement is a C string.
+		else if (text[i] == '\'') { result += "''"; }
+		else { result += text[i]; }
+	}
+	result += "'";
+	return hasNul ? "(" + result + ")" : result;
+}
+
+static string condition_c(const char *keyName, const char*keyValue)
+{
+	return string("WHERE ") + keyName + " == " + sqlite_quote(keyValue);
 }
 
-static const char *condition_u(char *resultBuffer,const char *keyName, unsigned keyValue)
+static string condition_u(const char *keyName, unsigned keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == %u",keyName,keyValue);
-	return resultBuffer;
+	return string("WHERE ") + keyName + format(" == %u",keyValue);
 }
 
 void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultColumns, const char*condition)
@@ -108,7 +117,7 @@ void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultCo
 	//char query[stringSize];
 	//snprintf(query,stringSize,"SELECT %s FROM %s %s",resultColumns,tableName,condition);
 	// We save the query in a string so the caller can print it out in error messages if the query fails.
-	mQueryString = format("SELECT %s FROM %s %s",resultColumns,tableName,condition);
+	mQueryString = string("SELECT ") + resultColumns + " FROM " + tableName + " " + condition;
 	// Prepare the statement.
 	if (sqlite3_prepare_statement(mdb,&mStmt,mQueryString.c_str(),retries)) { mStmt = NULL; return; }
 	// Read the result.
@@ -132,14 +141,12 @@ sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,c
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, unsigned keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_u(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_u(keyName,keyData).c_str());
 }
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, const char *keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_c(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_c(keyName,keyData).c_str());
 }
 
 sqlQuery::~sqlQuery()
@@ -166,12 +173,10 @@ sqlite3_int64 sqlQuery::getResultInt(int colNum)
 bool sqlite3_exists(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT * FROM %s WHERE %s == \"%s\"",tableName,keyName,keyData);
+	string query = string("SELECT * FROM ") + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	sqlite3_finalize(stmt);
@@ -185,12 +190,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData,
 		const char* valueName, unsigned &valueData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = string("SELECT ") + valueName + " FROM " + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -317,12 +320,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* valueName, char* &valueData, unsigned retries)
 {
 	valueData=NULL;
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	snprintf(query,stringSize,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = string("SELECT ") + valueName + " FROM " + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -370,9 +371,8 @@ bool sqlite_set_attr(sqlite3*db,const char *attr_name,const char*attr_value)
 		_LOG(WARNING) << "Could not create ATTR_TABLE in database file ";// <<(fn?fn:"");
 		return false;
 	}
-	char query[100];
-	snprintf(query,100,"REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('%s','%s')",attr_name,attr_value);
-	if (! sqlite3_command(db,query)) {
+	string query = "REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES(" + sqlite_quote(attr_name) + "," + sqlite_quote(attr_value) + ")";
+	if (! sqlite3_command(db,query.c_str())) {
 		// (mike) 2014-06: to free ourselves of the in-tree sqlite3 code, the system library must be used.
 		//        However, sqlite3_db_filename is not available in Ubuntu 12.04. Removing dependence for now.
 		//const char *fn = sqlite3_db_filename(db,"main");
diff --git a/sqlite3util.h b/sqlite3util.h
index bc14318..9e6e194 100644
--- a/sqlite3util.h
+++ b/sqlite3util.h
@@ -35,6 +35,9 @@ extern const char *enableWAL;
 //	"PRAGMA journal_mode=WAL"
 //};
 
+// Return an SQL expression for this text, whatever characters it contains.
+std::string sqlite_quote(const std::string &text);
+
 // Pat added.
 class sqlQuery {
 	sqlite3 *mdb;
-- 
2.43.0


From 9bea194cb62aab5dc5d367941ce97e991cea1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:55 +0000
Subject: [PATCH 31/59] fix: sqlite3_prepare_statement finalized an
 uninitialized statement when no attempt was allowed

---
 sqlite3util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index f53dae6..3e34286 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -49,6 +49,7 @@ const char* enableWAL = {
 int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* query, unsigned retries)
 {
         int src = SQLITE_BUSY;
+	*stmt = NULL;	// In case we do not get to sqlite3_prepare_v2.
 
 	for (unsigned i = 0; i < retries; i++) {
 		src = sqlite3_prepare_v2(DB,query,strlen(query),stmt,NULL);
-- 
2.43.0


From c5a7b2774fc83d954958482680f54dda9ff41ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:25 +0000
Subject: [PATCH 32/59] fix: ConfigurationTable keys and values containing
 quotes or NUL broke or changed the SQL statements

---
 Configuration.cpp | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 2488a6b..1187a77 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -672,14 +672,25 @@ const ConfigurationRecord& ConfigurationTable::lookup(const string& key)
 
 	// Check the database.
 	// This is more expensive.
-	char *value = NULL;
-	sqlite3_single_lookup(mDB,"CONFIG",
-			"KEYSTRING",key.c_str(),"VALUESTRING",value);
+	string value;
+	bool found = false;
+	string cmd = "SELECT VALUESTRING FROM CONFIG WHERE KEYSTRING==" + sqlite_quote(key);
+	sqlite3_stmt *stmt;
+	if (sqlite3_prepare_statement(mDB,&stmt,cmd.c_str())==0) {
+		if (sqlite3_run_query(mDB,stmt)==SQLITE_ROW) {
+			const char *text = (const char*)sqlite3_column_text(stmt,0);
+			if (text) {
+				value = string(text,sqlite3_column_bytes(stmt,0));
+				found = true;
+			}
+		}
+		sqlite3_finalize(stmt);
+	}
 
-	// (pat 9-2014) If sqlite3_single_lookup returns false, the behavior below is incorrect.
+	// (pat 9-2014) If the query failed, the behavior below is incorrect.
 
 	// value found, cache the result
-	if (value) {
+	if (found) {
 		mCache[key] = ConfigurationRecord(key,value);
 	// key definition found, cache the default
 	} else if (keyDefinedInSchema(key)) {
@@ -690,8 +701,6 @@ const ConfigurationRecord& ConfigurationTable::lookup(const string& key)
 		throw ConfigurationTableKeyNotFound(key);
 	}
 
-	if (value) free(value);
-
 	// Leave mLock locked.  The caller holds it still.
 	return mCache[key];
 }
@@ -833,7 +842,7 @@ bool ConfigurationTable::remove(const string& key)
 	ConfigurationMap::iterator where = mCache.find(key);
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
-	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=='"+key+"'";
+	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=="+sqlite_quote(key);
 	return sqlite3_command(mDB,cmd.c_str());
 }
 
@@ -842,19 +851,20 @@ bool ConfigurationTable::remove(const string& key)
 void ConfigurationTable::find(const string& pat, ostream& os) const
 {
 	// Prepare the statement.
-	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE \"%" + pat + "%\"";
+	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE " + sqlite_quote("%" + pat + "%");
 	sqlite3_stmt *stmt;
 	if (sqlite3_prepare_statement(mDB,&stmt,cmd.c_str())) return;
 	// Read the result.
 	int src = sqlite3_run_query(mDB,stmt);
 	while (src==SQLITE_ROW) {
+		const char* key = (const char*)sqlite3_column_text(stmt,0);
+		os << string(key,sqlite3_column_bytes(stmt,0)) << " ";
 		const char* value = (const char*)sqlite3_column_text(stmt,1);
-		os << sqlite3_column_text(stmt,0) << " ";
 		int len = 0;
 		if (value) {
-			len = strlen(value);
+			len = sqlite3_column_bytes(stmt,1);
 		}
-		if (len && value) os << value << endl;
+		if (len && value) os << string(value,len) << endl;
 		else os << "(disabled)" << endl;
 		src = sqlite3_run_query(mDB,stmt);
 	}
@@ -874,12 +884,13 @@ ConfigurationRecordMap ConfigurationTable::getAllPairs() const
 	int src = sqlite3_run_query(mDB,stmt);
 	while (src==SQLITE_ROW) {
 		const char* key = (const char*)sqlite3_column_text(stmt,0);
+		int keylen = sqlite3_column_bytes(stmt,0);
 		const char* value = (const char*)sqlite3_column_text(stmt,1);
 		if (key && value) {
-			string skey(key);
-			tmp[skey] = ConfigurationRecord(skey,value);
+			string skey(key,keylen);
+			tmp[skey] = ConfigurationRecord(skey,string(value,sqlite3_column_bytes(stmt,1)));
 		} else if (key && !value) {
-			string skey(key);
+			string skey(key,keylen);
 			tmp[skey] = ConfigurationRecord(skey,false);
 		}
 		src = sqlite3_run_query(mDB,stmt);
@@ -895,9 +906,9 @@ bool ConfigurationTable::set(const string& key, const string& value)
 	ScopedLock lock(mLock);
 	string cmd;
 	if (keyDefinedInSchema(key)) {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (\"" + key + "\",\"" + value + "\",1,\'" + mSchema[key].getDescription() + "\')";
+		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (" + sqlite_quote(key) + "," + sqlite_quote(value) + ",1," + sqlite_quote(mSchema[key].getDescription()) + ")";
 	} else {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (\"" + key + "\",\"" + value + "\",1)";
+		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (" + sqlite_quote(key) + "," + sqlite_quote(value) + ",1)";
 	}
 	
 	bool success = sqlite3_command(mDB,cmd.c_str());
-- 
2.43.0


From 45d6a53dbe368210b639528953686d350cb4ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:25 +0000
Subject: [PATCH 33/59] fix: ConfigurationTable::remove returned true when
 nothing was removed

---
 Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 1187a77..703645b 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -843,7 +843,7 @@ bool ConfigurationTable::remove(const string& key)
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
 	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=="+sqlite_quote(key);
-	return sqlite3_command(mDB,cmd.c_str());
+	return sqlite3_command(mDB,cmd.c_str()) && sqlite3_changes(mDB) > 0;
 }
 
 
-- 
2.43.0


From 697cafcabc2839bba238882bf1c9c03d908ffe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:25 +0000
Subject: [PATCH 34/59] fix: all ConfigurationTables shared one purge time, so
 only one of them saw changes made by others

---
 Configuration.cpp | 8 ++++----
 Configuration.h   | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 703645b..93fcbf1 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -94,6 +94,7 @@ float ConfigurationRecord::floatNumber() const
 
 
 ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdName, ConfigurationKeyMap wSchema)
+	: mTimeOfLastPurge(0)
 {
 	gLogEarly(LOG_INFO, "opening configuration table from path %s", filename);
 	// Connect to the database.
@@ -927,12 +928,11 @@ bool ConfigurationTable::set(const string& key, long value)
 void ConfigurationTable::checkCacheAge()
 {
 	// mLock is set by caller 
-	static time_t timeOfLastPurge = 0;
 	time_t now = time(NULL);
-	// purge every 3 seconds
+	// purge every 3 seconds, or if the clock was set back
 	// purge period cannot be configuration parameter
-	if (now - timeOfLastPurge < 3) return;
-	timeOfLastPurge = now;
+	if (now >= mTimeOfLastPurge && now - mTimeOfLastPurge < 3) return;
+	mTimeOfLastPurge = now;
 	// this is purge() without the lock
 	ConfigurationMap::iterator mp = mCache.begin();
 	while (mp != mCache.end()) {
diff --git a/Configuration.h b/Configuration.h
index 5f6004d..783c1c2 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -197,6 +197,7 @@ class ConfigurationTable {
 	sqlite3* mDB;				///< database connection
 	ConfigurationMap mCache;	///< cache of recently access configuration values
 	mutable Mutex mLock;		///< control for multithreaded access to the cache
+	time_t mTimeOfLastPurge;	///< when the cache was last purged because of its age
 	std::vector<std::string> (*mCrossCheck)(const std::string&);	///< cross check callback pointer
 
 	public:
-- 
2.43.0


From 2dda1ca562c56c8572f3639380f03d13a8ec054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:25 +0000
Subject: [PATCH 35/59] fix: ConfigurationTable cached the default value when
 the database could not be read

---
 Configuration.cpp | 12 ++++++++++--
 Configuration.h   |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 93fcbf1..c770e6b 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -675,10 +675,13 @@ const ConfigurationRecord& ConfigurationTable::lookup(const string& key)
 	// This is more expensive.
 	string value;
 	bool found = false;
+	bool failed = true;
 	string cmd = "SELECT VALUESTRING FROM CONFIG WHERE KEYSTRING==" + sqlite_quote(key);
 	sqlite3_stmt *stmt;
 	if (sqlite3_prepare_statement(mDB,&stmt,cmd.c_str())==0) {
-		if (sqlite3_run_query(mDB,stmt)==SQLITE_ROW) {
+		int src = sqlite3_run_query(mDB,stmt);
+		failed = src != SQLITE_ROW && src != SQLITE_DONE;
+		if (src==SQLITE_ROW) {
 			const char *text = (const char*)sqlite3_column_text(stmt,0);
 			if (text) {
 				value = string(text,sqlite3_column_bytes(stmt,0));
@@ -688,7 +691,12 @@ const ConfigurationRecord& ConfigurationTable::lookup(const string& key)
 		sqlite3_finalize(stmt);
 	}
 
-	// (pat 9-2014) If the query failed, the behavior below is incorrect.
+	// If the query failed use the default, but do not remember it.
+	if (failed) {
+		if (!keyDefinedInSchema(key)) throw ConfigurationTableKeyNotFound(key);
+		mUncached = ConfigurationRecord(key,mSchema[key].getDefaultValue());
+		return mUncached;
+	}
 
 	// value found, cache the result
 	if (found) {
diff --git a/Configuration.h b/Configuration.h
index 783c1c2..0459cba 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -196,6 +196,7 @@ class ConfigurationTable {
 
 	sqlite3* mDB;				///< database connection
 	ConfigurationMap mCache;	///< cache of recently access configuration values
+	ConfigurationRecord mUncached;	///< result of a lookup that could not read the database
 	mutable Mutex mLock;		///< control for multithreaded access to the cache
 	time_t mTimeOfLastPurge;	///< when the cache was last purged because of its age
 	std::vector<std::string> (*mCrossCheck)(const std::string&);	///< cross check callback pointer
-- 
2.43.0


From 04804ffef87a8bda0e6d4ff1dcb313d01a812219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:25 +0000
Subject: [PATCH 36/59] fix: ConfigurationTable listings did not exclude
 concurrent changes

---
 Configuration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Configuration.cpp b/Configuration.cpp
index c770e6b..1934567 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -859,6 +859,7 @@ bool ConfigurationTable::remove(const string& key)
 
 void ConfigurationTable::find(const string& pat, ostream& os) const
 {
+	ScopedLock lock(mLock);
 	// Prepare the statement.
 	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE " + sqlite_quote("%" + pat + "%");
 	sqlite3_stmt *stmt;
@@ -884,6 +885,7 @@ void ConfigurationTable::find(const string& pat, ostream& os) const
 ConfigurationRecordMap ConfigurationTable::getAllPairs() const
 {
 	ConfigurationRecordMap tmp;
+	ScopedLock lock(mLock);
 
 	// Prepare the statement.
 	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG";
-- 
2.43.0


From d1fb50214ab386f6747d1bddd3efa4e0cab75c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:57 +0000
Subject: [PATCH 37/59] fix: isValidValue accepted malformed values and added
 unknown keys to the schema

Ports, prefixes and numbers with trailing garbage, IP lists with a bad or
repeated entry, empty regular expressions and out of range numbers were
accepted; choices followed by described choices and second IP:port entries
were rejected; an unknown key was inserted in the schema.
---
 Configuration.cpp | 142 ++++++++++++++++++++--------------------------
 1 file changed, 62 insertions(+), 80 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 1934567..c4adc9a 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -359,10 +359,37 @@ bool ConfigurationTable::keyDefinedInSchema(const std::string& name)
 	return mSchema.find(name) == mSchema.end() ? false : true;
 }
 
+// A number written with decimal digits only.
+static bool parseDigits(const std::string& str, long& number)
+{
+	if (str.empty() || str.find_first_not_of("0123456789") != std::string::npos) return false;
+	errno = 0;
+	number = strtol(str.c_str(), NULL, 10);
+	return errno == 0;
+}
+
+static bool isValidPort(const std::string& str)
+{
+	long port;
+	return parseDigits(str, port) && 1 <= port && port <= 65535;
+}
+
+static bool isValidIPAndPort(const std::string& str)
+{
+	size_t delimiter = str.find(':');
+	return delimiter != std::string::npos &&
+		ConfigurationKey::isValidIP(str.substr(0, delimiter)) && isValidPort(str.substr(delimiter+1));
+}
+
 bool ConfigurationTable::isValidValue(const std::string& name, const std::string& val) {
 	bool ret = false;
 
-	ConfigurationKey key = mSchema[name];
+	ConfigurationKeyMap::const_iterator where = mSchema.find(name);
+	if (where == mSchema.end()) return false;
+	const ConfigurationKey &key = where->second;
+
+	// No type allows a NUL, and the checks below work on C strings.
+	if (val.find('\0') != std::string::npos) return false;
 
 	switch (key.getType()) {
 		case ConfigurationKey::BOOLEAN: {
@@ -379,26 +406,19 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::CHOICE: {
-			int startPos = -1;
-			uint endPos = 0;
-
 			std::string tmp = key.getValidValues();
+			size_t startPos = 0, endPos;
 
 			do {
-				startPos++;
-				if ((endPos = tmp.find('|', startPos)) != std::string::npos) {
-					if (val == tmp.substr(startPos, endPos-startPos)) {
-						ret = true;
-						break;
-					}
-				} else {
-					if (val == tmp.substr(startPos, tmp.find(',', startPos)-startPos)) {
-						ret = true;
-						break;
-					}
+				endPos = tmp.find(',', startPos);
+				// Each choice is value or value|description.
+				std::string choice = tmp.substr(startPos, endPos-startPos);
+				if (val == choice.substr(0, choice.find('|'))) {
+					ret = true;
+					break;
 				}
-
-			} while ((startPos = tmp.find(',', startPos)) != (int)std::string::npos);
+				startPos = endPos+1;
+			} while (endPos != std::string::npos);
 			break;
 		}
 
@@ -409,15 +429,14 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::CIDR: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
-			int cidr = -1;
+			long cidr = -1;
 
 			delimiter = val.find('/');
 			if (delimiter != std::string::npos) {
 				ip = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> cidr;
-				if (ConfigurationKey::isValidIP(ip) && 0 <= cidr && cidr <= 32) {
+				if (ConfigurationKey::isValidIP(ip) && parseDigits(val.substr(delimiter+1), cidr) && 0 <= cidr && cidr <= 32) {
 					ret = true;
 				}
 			}
@@ -453,15 +472,13 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::HOSTANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string host;
-			int port = -1;
 			bool validHost = false;
 
 			delimiter = val.find(':');
 			if (delimiter != std::string::npos) {
 				host = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> port;
 				if (ConfigurationKey::isValidIP(host)) {
 					validHost = true;
 				} else {
@@ -479,7 +496,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 					regfree(&r);
 				}
 
-				if (validHost && 1 <= port && port <= 65535) {
+				if (validHost && isValidPort(val.substr(delimiter+1))) {
 					ret = true;
 				}
 			}
@@ -498,18 +515,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 
 		case ConfigurationKey::IPANDPORT: {
-			uint delimiter;
-			std::string ip;
-			int port = -1;
-
-			delimiter = val.find(':');
-			if (delimiter != std::string::npos) {
-				ip = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> port;
-				if (ConfigurationKey::isValidIP(ip) && 1 <= port && port <= 65535) {
-					ret = true;
-				}
-			}
+			ret = isValidIPAndPort(val);
 			break;
 		}
 
@@ -520,37 +526,14 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::MIPADDRESS: {
-			int startPos = -1;
-			uint endPos = 0;
-			uint delimiter;
-			std::string ip;
-			int port = -1;
+			size_t startPos = 0, endPos;
 
 			do {
-				startPos++;
 				endPos = val.find(' ', startPos);
-				port = -1;
-
-				if (ConfigurationKey::isValidIP(val.substr(startPos, endPos-startPos))) {
-					ret = true;
-				} else {
-					delimiter = val.find(':');
-					if (delimiter != std::string::npos) {
-						ip = val.substr(startPos, delimiter);
-						std::stringstream(val.substr(delimiter+1, endPos)) >> port;
-						if (ConfigurationKey::isValidIP(ip) && 1 <= port && port <= 65535) {
-							ret = true;
-						} else {
-							ret = false;
-							break;
-						}
-					} else {
-						ret = false;
-						break;
-					}
-				}
-
-			} while ((startPos = endPos) != (int)std::string::npos);
+				std::string address = val.substr(startPos, endPos-startPos);
+				ret = ConfigurationKey::isValidIP(address) || isValidIPAndPort(address);
+				startPos = endPos+1;
+			} while (ret && endPos != std::string::npos);
 			break;
 		}
 
@@ -561,13 +544,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::PORT: {
-			int intVal;
-
-			std::stringstream(val) >> intVal;
-
-			if (1 <= intVal && intVal <= 65535) {
-				ret = true;
-			}
+			ret = isValidPort(val);
 			break;
 		}
 
@@ -578,6 +555,9 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::REGEX: {
+			if (val.length() == 0) {
+				break;
+			}
 			regex_t r;
 			const char* expression = val.c_str();
 			int result = regcomp(&r, expression, REG_EXTENDED);
@@ -586,8 +566,8 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 				regerror(result,&r,msg,255);
 			} else {
 				ret = true;
+				regfree(&r);
 			}
-			regfree(&r);
 			break;
 		}
 
@@ -629,9 +609,9 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			if (regexec(&r, val.c_str(), 0, NULL, 0)!=0) {
 				ret = false;
 			} else if (key.getValidValues().find('.') != std::string::npos) {
-				ret = ConfigurationKey::isInValRange<float>(key, val, false);
+				ret = ConfigurationKey::isInValRange<double>(key, val, false);
 			} else {
-				ret = ConfigurationKey::isInValRange<int>(key, val, true);
+				ret = ConfigurationKey::isInValRange<long long>(key, val, true);
 			}
 
 			regfree(&r);
@@ -1063,16 +1043,16 @@ bool ConfigurationKey::isValidIP(const std::string& ip) {
 
 
 void ConfigurationKey::getMinMaxStepping(const ConfigurationKey &key, std::string &min, std::string &max, std::string &stepping) {
-	uint delimiter;
-	int startPos;
-	uint endPos;
+	size_t delimiter;
+	size_t startPos;
+	size_t endPos;
 
 	std::string tmp = key.getValidValues();
 	stepping = "1";
 
 	// grab steps if they're defined
 	startPos = tmp.find('(');
-	if (startPos != (int)std::string::npos) {
+	if (startPos != std::string::npos) {
 		endPos = tmp.find(')');
 		stepping = tmp.substr(startPos+1, endPos-startPos-1);
 		tmp = tmp.substr(0, startPos);
@@ -1096,7 +1076,9 @@ template<class T> bool ConfigurationKey::isInValRange(const ConfigurationKey &ke
 	std::string strMax;
 	std::string strSteps;
 
-	std::stringstream(val) >> convVal;
+	// The whole value must be a number the type can hold.
+	std::stringstream sval(val);
+	if (!(sval >> convVal) || sval.peek() != EOF) return false;
 
 	ConfigurationKey::getMinMaxStepping(key, strMin, strMax, strSteps);
 	std::stringstream(strMin) >> min;
-- 
2.43.0


From edecbd611202f04b6c57345c2e446909087487ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 38/59] fix: the generated SQL did not quote keys, defaults and
 descriptions

---
 Configuration.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index c4adc9a..a108ad7 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -232,9 +232,9 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 	while (mp != mSchema.end()) {
 		ss << "INSERT OR IGNORE INTO \"CONFIG\" VALUES(";
 			// name
-			ss << "'" << mp->first << "',";
+			ss << sqlite_quote(mp->first) << ",";
 			// default
-			ss << "'" << mp->second.getDefaultValue() << "',";
+			ss << sqlite_quote(mp->second.getDefaultValue()) << ",";
 			// static
 			if (mp->second.isStatic()) {
 				ss << "1";
@@ -245,19 +245,14 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 			// optional
 			ss << "0,";
 			// description
-			const string description = mp->second.getDescription();
-			// Try to use a quote that will work: if the description contains ' quote with " else '.
-			// This is not perfect because these quotes could themselves be quoted.
-			const char * quote = string::npos != description.find('\'') ? "\"" : "'";
-			ss << quote;
+			string description = mp->second.getDescription();
 			if (mp->second.getType() == ConfigurationKey::BOOLEAN) {
-				ss << "1=enabled, 0=disabled - ";
+				description = "1=enabled, 0=disabled - " + description;
 			}
-			ss << mp->second.getDescription();
 			if (mp->second.isStatic()) {
-				ss << "  Static.";
+				description += "  Static.";
 			}
-			ss << quote;
+			ss << sqlite_quote(description);
 		ss << ");" << endl;
 		mp++;
 	}
-- 
2.43.0


From 8ccdbdc53d719bd6a22947758c7ee7910ed4b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 39/59] fix: ReportingTable overflowed fixed buffers and broke
 on quotes in names

Names longer than about 100 characters and indexes of nine digits or more
overran stack buffers; double quoted names that match a column name were
taken as that column; creating a range up to UINT_MAX never ended; the log
facility was not initialized.
---
 Reporting.cpp | 57 +++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index b77c4e0..fc6bae7 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -27,6 +27,7 @@
 #include "Logger.h"
 #include <stdio.h>
 #include <string.h>
+#include <sstream>
 
 static const char* createReportingTable = {
 	"CREATE TABLE IF NOT EXISTS REPORTING ("
@@ -38,7 +39,17 @@ static const char* createReportingTable = {
 };
 
 
+// The name of one parameter of an indexed set.
+static std::string indexedName(const char* baseName, unsigned index)
+{
+	std::ostringstream name;
+	name << baseName << "." << index;
+	return name.str();
+}
+
+
 ReportingTable::ReportingTable(const char* filename)
+	: mFacility(0)
 {
 	gLogEarly(LOG_INFO | mFacility, "opening reporting table from path %s", filename);
 	// Connect to the database.
@@ -72,9 +83,9 @@ bool ReportingTable::create(const char* paramName)
 	mLock.unlock();
 
 	// and to the database
-	char cmd[200];
-	sprintf(cmd,"INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (\"%s\",%ld)", paramName, time(NULL));
-	if (!sqlite3_command(mDB,cmd)) {
+	std::ostringstream cmd;
+	cmd << "INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (" << sqlite_quote(paramName) << "," << time(NULL) << ")";
+	if (!sqlite3_command(mDB,cmd.str().c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot create reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -96,9 +107,9 @@ bool ReportingTable::incr(const char* paramName)
 
 bool ReportingTable::max(const char* paramName, unsigned newVal)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=\"%s\"", newVal, time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	std::ostringstream cmd;
+	cmd << "UPDATE REPORTING SET VALUE=MAX(VALUE," << newVal << "), UPDATETIME=" << time(NULL) << " WHERE NAME=" << sqlite_quote(paramName);
+	if (!sqlite3_command(mDB,cmd.str().c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot maximize reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -108,9 +119,9 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=\"%s\"", time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	std::ostringstream cmd;
+	cmd << "UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=" << time(NULL) << " WHERE NAME=" << sqlite_quote(paramName);
+	if (!sqlite3_command(mDB,cmd.str().c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -133,36 +144,28 @@ bool ReportingTable::clear()
 
 bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned maxIndex)
 {
-	size_t sz = strlen(baseName);
-	for (unsigned i = minIndex; i<=maxIndex; i++) {
-		char name[sz+10];
-		sprintf(name,"%s.%u",baseName,i);
-		if (!create(name)) return false;
+	if (minIndex > maxIndex) return true;
+	for (unsigned i = minIndex; ; i++) {
+		if (!create(indexedName(baseName,i).c_str())) return false;
+		if (i == maxIndex) return true;
 	}
-	return true;
 }
 
 bool ReportingTable::incr(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
-	sprintf(name,"%s.%u",baseName,index);
-	return incr(name);
+	return incr(indexedName(baseName,index).c_str());
 }
 
 
 bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 {
-	char name[strlen(baseName)+10];
-	sprintf(name,"%s.%u",baseName,index);
-	return max(name,newVal);
+	return max(indexedName(baseName,index).c_str(),newVal);
 }
 
 
 bool ReportingTable::clear(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
-	sprintf(name,"%s.%u",baseName,index);
-	return clear(name);
+	return clear(indexedName(baseName,index).c_str());
 }
 
 bool ReportingTable::commit()
@@ -187,13 +190,13 @@ bool ReportingTable::commit()
 	// now actually write them into the db if needed
 	if (oustandingCount > 0) {
 		Timeval timer;
-		char cmd[200];
 
 		// TODO : could wrap this in a BEGIN; COMMIT; pair to transactionize these X UPDATEs
 		mp = oustanding.begin();
 		while (mp != oustanding.end()) {
-			sprintf(cmd,"UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
-			if (!sqlite3_command(mDB,cmd)) {
+			std::ostringstream cmd;
+			cmd << "UPDATE REPORTING SET VALUE=VALUE+" << mp->second << ", UPDATETIME=" << time(NULL) << " WHERE NAME=" << sqlite_quote(mp->first);
+			if (!sqlite3_command(mDB,cmd.str().c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
 			}
 			mp++;
-- 
2.43.0


From e0035bf0a3775ca405b35a1266a2455b148ade68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 40/59] fix: ReportingTable lost increments when a commit
 failed and counted increments made before a clear

---
 Reporting.cpp | 34 +++++++++++++++++++++++++++++++++-
 Reporting.h   |  1 +
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index fc6bae7..64463b5 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -119,12 +119,25 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
+	// Increments made before the clear must not be added to the cleared value by a commit.
+	ScopedLock commitLock(mCommitLock);
+	unsigned dropped = 0;
+	mLock.lock();
+	ReportBatch::iterator mp = mBatch.find(paramName);
+	if (mp != mBatch.end()) dropped = mp->second;
+	mLock.unlock();
+
 	std::ostringstream cmd;
 	cmd << "UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=" << time(NULL) << " WHERE NAME=" << sqlite_quote(paramName);
 	if (!sqlite3_command(mDB,cmd.str().c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
+	if (dropped) {
+		mLock.lock();
+		mBatch[paramName] -= dropped;
+		mLock.unlock();
+	}
 	return true;
 }
 
@@ -132,12 +145,23 @@ bool ReportingTable::clear(const char* paramName)
 
 bool ReportingTable::clear()
 {
+	// Increments made before the clear must not be added to the cleared values by a commit.
+	ScopedLock commitLock(mCommitLock);
+	mLock.lock();
+	ReportBatch dropped = mBatch;
+	mLock.unlock();
+
 	char cmd[200];
 	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld", time(NULL));
 	if (!sqlite3_command(mDB,cmd)) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting table, error message: %s", sqlite3_errmsg(mDB));
 		return false;
 	}
+	mLock.lock();
+	for (ReportBatch::iterator mp = dropped.begin(); mp != dropped.end(); mp++) {
+		mBatch[mp->first] -= mp->second;
+	}
+	mLock.unlock();
 	return true;
 }
 
@@ -173,6 +197,9 @@ bool ReportingTable::commit()
 	ReportBatch oustanding;
 	ReportBatch::iterator mp;
 	unsigned oustandingCount = 0;
+	bool success = true;
+
+	ScopedLock commitLock(mCommitLock);
 
 	// copy out to free up access to mBatch as quickly as possible
 	mLock.lock();
@@ -198,6 +225,11 @@ bool ReportingTable::commit()
 			cmd << "UPDATE REPORTING SET VALUE=VALUE+" << mp->second << ", UPDATETIME=" << time(NULL) << " WHERE NAME=" << sqlite_quote(mp->first);
 			if (!sqlite3_command(mDB,cmd.str().c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
+				// Keep the increments for the next commit.
+				mLock.lock();
+				mBatch[mp->first] += mp->second;
+				mLock.unlock();
+				success = false;
 			}
 			mp++;
 		}
@@ -205,7 +237,7 @@ bool ReportingTable::commit()
 		LOG(INFO) << "wrote " << oustandingCount << " entries in " << timer.elapsed() << "ms";
 	}
 
-	return true;
+	return success;
 }
 
 extern ReportingTable gReports;
diff --git a/Reporting.h b/Reporting.h
index c6bbc08..1d8ca0d 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -47,6 +47,7 @@ class ReportingTable {
 	int mFacility;				///< rsyslogd facility
 	ReportBatch mBatch;			///< batch of report updates, not yet stored in the db
 	mutable Mutex mLock;		///< control for multithreaded read/write access to the batch
+	mutable Mutex mCommitLock;	///< control for moving the batch to the db; acquired before mLock
 	Thread mBatchCommitter;		///< thread responsible for committing batches of report updates to the db
 
 
-- 
2.43.0


From cacc764d7825ec65a4da34267bade389ce7ccad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 41/59] fix: ReportingTable shutdown requested before the
 commit thread started was lost

---
 Reporting.cpp | 5 ++---
 Reporting.h   | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 64463b5..7f371fe 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -49,7 +49,7 @@ static std::string indexedName(const char* baseName, unsigned index)
 
 
 ReportingTable::ReportingTable(const char* filename)
-	: mFacility(0)
+	: mFacility(0), mReportRunning(true)
 {
 	gLogEarly(LOG_INFO | mFacility, "opening reporting table from path %s", filename);
 	// Connect to the database.
@@ -243,8 +243,7 @@ bool ReportingTable::commit()
 extern ReportingTable gReports;
 void* reportingBatchCommitter(void*)
 {
-	gReports.mReportRunning = true;
-	while (gReports.mReportRunning) {
+	while (__atomic_load_n(&gReports.mReportRunning, __ATOMIC_ACQUIRE)) {
 		sleep(10);
 		gReports.commit();
 	}
diff --git a/Reporting.h b/Reporting.h
index 1d8ca0d..191bc2a 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -94,7 +94,7 @@ class ReportingTable {
 	/** Commit outstanding report updates to the database */
 	bool commit();
 
-	void reportShutdown() { mReportRunning = false; }
+	void reportShutdown() { __atomic_store_n(&mReportRunning, false, __ATOMIC_RELEASE); }
 };
 
 /** Periodically triggers ReportingTable::commit(). */
-- 
2.43.0


From 429f6defbe69be391113ab746c2658c1dc3e9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 42/59] fix: SimpleKeyValue::getNum never reported a valid key,
 and parsing leaked memory

---
 Configuration.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index a108ad7..d6a41f9 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -980,7 +980,10 @@ void SimpleKeyValue::addItem(const char* pair_orig)
 	char *pair = strdup(pair_orig);
 	char *key = pair;
 	char *mark = strchr(pair,'=');
-	if (!mark) return;
+	if (!mark) {
+		free(pair);
+		return;
+	}
 	*mark = '\0';
 	char *value = mark+1;
 	mMap[key] = value;
@@ -1015,6 +1018,7 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 {
 	HashStringMap::const_iterator p = mMap.find(key);
 	if (p==mMap.end()) { valid = false; return 0; }
+	valid = true;
 	// TODO: we should verify it is really a number.
 	return atol(p->second.c_str());
 }
@@ -1023,8 +1027,9 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 void SimpleKeyValue::addItems(const char* pairs_orig)
 {
 	char *pairs = strdup(pairs_orig);
+	char *rest = pairs;
 	char *thisPair;
-	while ((thisPair=strsep(&pairs," "))!=NULL) {
+	while ((thisPair=strsep(&rest," "))!=NULL) {
 		addItem(thisPair);
 	}
 	free(pairs);
-- 
2.43.0


From 24c47641977e8f8c59e213499fe603a4a6d4d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:51 +0000
Subject: [PATCH 43/59] fix: LogGroup::setAll used the text of a destroyed
 string as the level name

---
 Logger.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 3bc858d..b80dd9b 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -374,12 +374,12 @@ void LogGroup::LogGroupInit()
 }
 
 
-static const char*getNonEmptyStrIfDefined(string param)
+// Return the value, or an empty string if it is not defined.
+static string getStrIfDefined(const string &param)
 {
-	if (! gConfig.defines(param)) { return NULL; }
-	string result = gConfig.getStr(param);
-	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so check for that.
-	return result.size() ? result.c_str() : NULL;
+	if (! gConfig.defines(param)) { return string(""); }
+	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value.
+	return gConfig.getStr(param);
 }
 
 // Set all the Log.Group debug levels based on database settings
@@ -392,7 +392,8 @@ void LogGroup::setAll()
 		{
 		string param = groupprefix + mGroupNames[g];
 		int level = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(param)) {
+		string levelName = getStrIfDefined(param);
+		if (levelName.size()) {
 			level = lookupLevel2(param,levelName);
 		}
 		mDebugLevel[g] = level;
@@ -401,7 +402,8 @@ void LogGroup::setAll()
 		{
 		string watchparam = watchprefix + mGroupNames[g];
 		int watchlevel = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(watchparam)) {
+		string levelName = getStrIfDefined(watchparam);
+		if (levelName.size()) {
 			watchlevel = lookupLevel2(watchparam,levelName);
 		}
 		mWatchLevel[g] = watchlevel;
-- 
2.43.0


From bcdb67668cf991f11878836319b42a63595cee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:02 +0000
Subject: [PATCH 44/59] fix: alarms echoed to the console were mixed with the
 output of other threads

---
 Logger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Logger.cpp b/Logger.cpp
index b80dd9b..a5ea280 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -212,7 +212,10 @@ Log::~Log()
 	// Save alarms in the local list and echo them to stderr.
 	if (mPriority <= LOG_CRIT) {
 		if (sLoggerInited) addAlarm(mStream.str().c_str());
+		// Other threads may be printing to the console.
+		if (sLoggerInited) gLogToLock.lock();
 		cerr << mStream.str() << endl;
+		if (sLoggerInited) gLogToLock.unlock();
 	}
 	// Current logging level was already checked by the macro.
 	// So just log.
-- 
2.43.0


From 8b82df8dd996bd3ebab8889f07b937de142ebd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 45/59] fix: resolveAddress accepted missing, malformed and out
 of range port numbers

---
 Sockets.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 8464616..d590e92 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -59,11 +59,19 @@ bool resolveAddress(struct sockaddr_in *address, const char *hostAndPort)
 	char *colon = strchr(copy,':');
 	if (!colon) {
 		LOG(WARNING) << "missing port number in:"<<hostAndPort;
+		free(copy);
 		return false;
 	}
 	*colon = '\0';
 	char *host = copy;
-	unsigned port = strtol(colon+1,NULL,10);
+	char *end;
+	errno = 0;
+	long port = strtol(colon+1,&end,10);
+	if (end == colon+1 || *end != '\0' || errno != 0 || port < 0 || port > 65535) {
+		LOG(WARNING) << "invalid port number in:"<<hostAndPort;
+		free(copy);
+		return false;
+	}
 	bool retVal = resolveAddress(address,host,port);
 	free(copy);
 	return retVal;
-- 
2.43.0


From d45b2c27c7e6f9a70cb48bfad5bf4f36b62b29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 46/59] fix: resolveAddress read the shared gethostbyname
 result after unlocking

---
 Sockets.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index d590e92..c5729fc 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -101,10 +101,10 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 	// Ideally it should be a global mutex for all non thread-safe socket
 	// operations and it should protect access to variables such as
 	// global h_errno.
-	sGethostbynameMutex.lock();
+	// The result is static data, so the lock is held until it has been copied.
+	ScopedLock lock(sGethostbynameMutex);
 	hp = gethostbyname(host);
 	h_errno_local = h_errno;
-	sGethostbynameMutex.unlock();
 #endif
  	if (hp==NULL) {
 		LOG(WARNING) << "gethostbyname() failed for " << host << ", " << hstrerror(h_errno_local);
-- 
2.43.0


From 69b3ef782abaf3df8c9f0567c91d3200134f7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 47/59] fix: UDPSockets with ports assigned by the system could
 be given the same port

---
 Sockets.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index c5729fc..f4078bb 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -283,8 +283,11 @@ void UDPSocket::open(unsigned short localPort)
 	}
 
 	// pat added: This lets the socket be reused immediately, which is needed if OpenBTS crashes.
-	int on = 1;
-	setsockopt(mSocketFD, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
+	// Not for a port assigned by the OS: it could assign a port that is in use by another such socket.
+	if (localPort != 0) {
+		int on = 1;
+		setsockopt(mSocketFD, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
+	}
 
 
 	// bind
-- 
2.43.0


From e93917984fffc395ab7f3e4466d31c09921f212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 48/59] fix: UDDSocket destinations had no address family and
 long paths overflowed

---
 Sockets.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index f4078bb..3b105c0 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -347,6 +347,10 @@ void UDDSocket::open(const char* localPath)
 	struct sockaddr_un address;
 	size_t length = sizeof(address);
 	bzero(&address,length);
+	if (strlen(localPath) >= sizeof(address.sun_path)) {
+		LOG(ERR) << "socket path too long:" << localPath;
+		throw SocketError();
+	}
 	address.sun_family = AF_UNIX;
 	strcpy(address.sun_path,localPath);
 	unlink(localPath);
@@ -364,6 +368,12 @@ void UDDSocket::open(const char* localPath)
 void UDDSocket::destination(const char* remotePath)
 {
 	struct sockaddr_un* unAddr = (struct sockaddr_un*)mDestination;
+	memset(mDestination, 0, sizeof(mDestination));
+	if (strlen(remotePath) >= sizeof(unAddr->sun_path)) {
+		LOG(ERR) << "socket path too long:" << remotePath;
+		return;
+	}
+	unAddr->sun_family = AF_UNIX;
 	strcpy(unAddr->sun_path,remotePath);
 }
 
-- 
2.43.0


From 04b3889a9db2c7cf655aefbde5647a4288a52b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 49/59] fix: DatagramSocket closed its descriptor twice and
 used an uninitialized one

---
 Sockets.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 3b105c0..dce132e 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -125,7 +125,9 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 
 DatagramSocket::DatagramSocket()
 {
+	mSocketFD = -1;
 	memset(mDestination, 0, sizeof(mDestination));
+	memset(mSource, 0, sizeof(mSource));
 }
 
 
@@ -144,7 +146,9 @@ void DatagramSocket::blocking()
 
 void DatagramSocket::close()
 {
+	if (mSocketFD<0) return;
 	::close(mSocketFD);
+	mSocketFD = -1;
 }
 
 
-- 
2.43.0


From 21db158f6a09ad4d8b0fe49dfb2e4b53dac12826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:49 +0000
Subject: [PATCH 50/59] fix: timed DatagramSocket::read overflowed the fd_set
 for descriptors above 1023

---
 Sockets.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index dce132e..65efa5a 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -30,7 +30,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <cstdio>
-#include <sys/select.h>
+#include <poll.h>
 
 #include "Defines.h"
 #include "Threads.h"
@@ -231,21 +231,22 @@ int DatagramSocket::read(char* buffer)
 
 int DatagramSocket::read(char* buffer, unsigned timeout)
 {
-	fd_set fds;
-	FD_ZERO(&fds);
-	FD_SET(mSocketFD,&fds);
-	struct timeval tv;
-	tv.tv_sec = timeout/1000;
-	tv.tv_usec = (timeout%1000)*1000;
-	int sel = select(mSocketFD+1,&fds,NULL,NULL,&tv);
+	// poll(), because select() only works for descriptors below FD_SETSIZE.
+	struct pollfd pfd;
+	pfd.fd = mSocketFD;
+	pfd.events = POLLIN;
+	pfd.revents = 0;
+	struct timespec ts;
+	ts.tv_sec = timeout/1000;
+	ts.tv_nsec = (timeout%1000)*1000000L;
+	int sel = ppoll(&pfd,1,&ts,NULL);
 	if (sel<0) {
-		perror("DatagramSocket::read() select() failed");
+		perror("DatagramSocket::read() poll() failed");
 		devassert(0);
 		throw SocketError();
 	}
 	if (sel==0) return -1;
-	if (FD_ISSET(mSocketFD,&fds)) return read(buffer);
-	return -1;
+	return read(buffer);
 }
 
 
-- 
2.43.0


From 7366862b87d3ebad89eeac9646f79f7ad0a913a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:23 +0000
Subject: [PATCH 51/59] fix: a UDDSocket without a local path had no socket,
 and open() leaked the previous one

---
 Sockets.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 65efa5a..8f7c22b 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -279,6 +279,7 @@ void UDPSocket::destination( unsigned short wDestPort, const char * wDestIP )
 
 void UDPSocket::open(unsigned short localPort)
 {
+	close();
 	// create
 	mSocketFD = socket(AF_INET,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
@@ -333,6 +334,15 @@ UDDSocket::UDDSocket(const char* localPath, const char* remotePath)
 	:DatagramSocket()
 {
 	if (localPath!=NULL) open(localPath);
+	else {
+		// Without a path of its own the socket can still send.
+		mSocketFD = socket(AF_UNIX,SOCK_DGRAM,0);
+		if (mSocketFD<0) {
+			perror("socket() failed");
+			devassert(0);
+			throw SocketError();
+		}
+	}
 	if (remotePath!=NULL) destination(remotePath);
 }
 
@@ -340,6 +350,7 @@ UDDSocket::UDDSocket(const char* localPath, const char* remotePath)
 
 void UDDSocket::open(const char* localPath)
 {
+	close();
 	// create
 	mSocketFD = socket(AF_UNIX,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
-- 
2.43.0


From b56546f0c15fe31117d16b8d424e589981349573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:21 +0000
Subject: [PATCH 52/59] fix: writeBack after a packet from an unnamed sender
 went to an earlier sender

---
 Sockets.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 8f7c22b..bfb63f8 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -225,6 +225,8 @@ int DatagramSocket::read(char* buffer)
 		devassert(0);
 		throw SocketError();
 	}
+	// A sender without an address leaves no return address, not that of an earlier sender.
+	if (length>=0 && temp_len<sizeof(mSource)) memset(mSource+temp_len, 0, sizeof(mSource)-temp_len);
 	return length;
 }
 
-- 
2.43.0


From 0047c68262e024f1c310e42f03f07ad22d3155b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:36 +0000
Subject: [PATCH 53/59] fix: window resizes, urgent data and job control
 removed the pid file of a running program

---
 SelfDetect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index dd99d25..feaa2e1 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -98,6 +98,12 @@ void SelfDetect::RegisterProgram(const char *argv0)
 			//		openbts: NOTICE 3073816320 05:03:50.4 SelfDetect.cpp:105:Exit: *** Removing pid file /var/run/OpenBTS.pid
 			case SIGCONT:
 			case SIGCHLD:
+			// These do not end the process either, so they must not remove its files.
+			case SIGURG:
+			case SIGWINCH:
+			case SIGTSTP:
+			case SIGTTIN:
+			case SIGTTOU:
 				break;
 			default:
 				gSigVec.Register(sigfcn, i);
-- 
2.43.0


From 6eb540688ebb0ac8d7cd614993f4989e31e6fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:36 +0000
Subject: [PATCH 54/59] fix: two instances started at the same time could both
 register

---
 SelfDetect.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index feaa2e1..4a02040 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -29,6 +29,7 @@
 #include <cerrno>
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <string.h>
 
@@ -62,15 +63,16 @@ void SelfDetect::RegisterProgram(const char *argv0)
     LOG(NOTICE) << "*** Registering program " << argv0 << " to " << buf;
 
     // first, verify we aren't already running.
-    struct stat stbuf;
-    if (stat(buf, &stbuf) >= 0)
+    // Of several instances started at once only one creates the file.
+    int fd = open(buf, O_WRONLY|O_CREAT|O_EXCL, 0666);
+    if (fd < 0 && errno == EEXIST)
     {
 	LOG(CRIT) << "*** An instance of " << p << " is already running. ";
 	LOG(CRIT) << "*** If this is not the case, deleting this file will allow " << p << " to start: " << buf << " exiting...";
 	Exit::exit(Exit::DETECTFILE);
     }
     
-    FILE *fp = fopen(buf, "w");
+    FILE *fp = fd < 0 ? NULL : fdopen(fd, "w");
     if (fp == NULL)
     {
     	LOG(CRIT) << "*** Unable to create " << buf << ": " << strerror(errno) << " exiting...";
-- 
2.43.0


From 0d8e925397dc5f05d25430f31981194a958692e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:36 +0000
Subject: [PATCH 55/59] fix: RegisterProgram truncated long program names to
 the same pid file

---
 SelfDetect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index 4a02040..434cece 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -58,8 +58,8 @@ void SelfDetect::RegisterProgram(const char *argv0)
     const char *p = strrchr((char*)argv0,'/');
 	if (p == NULL) { p = argv0; }
 
-    char buf[100];
-    snprintf(buf, sizeof(buf)-1, "/var/run/%s.pid", p);
+    std::string path = std::string("/var/run/") + p + ".pid";
+    const char *buf = path.c_str();
     LOG(NOTICE) << "*** Registering program " << argv0 << " to " << buf;
 
     // first, verify we aren't already running.
-- 
2.43.0


From e0858b11a6c8b2326e153fc23e2f01dd87a82e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:36 +0000
Subject: [PATCH 56/59] fix: RegisterProgram went on when the process id could
 not be written

---
 SelfDetect.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index 434cece..bc3f93f 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -78,8 +78,13 @@ void SelfDetect::RegisterProgram(const char *argv0)
     	LOG(CRIT) << "*** Unable to create " << buf << ": " << strerror(errno) << " exiting...";
 		Exit::exit(Exit::CREATEFILE);
     }
-    fprintf(fp, "%d\n", getpid());
-    fclose(fp);
+    bool written = fprintf(fp, "%d\n", getpid()) > 0;
+    if (fclose(fp) != 0 || !written)
+    {
+    	LOG(CRIT) << "*** Unable to write " << buf << ": " << strerror(errno) << " exiting...";
+		unlink(buf);
+		Exit::exit(Exit::CREATEFILE);
+    }
     atexit(e);
 	gSigVec.CoreName(gConfig.getStr("Core.File"), gConfig.getBool("Core.Pid"));
 	gSigVec.TarName(gConfig.getStr("Core.TarFile"), gConfig.getBool("Core.SaveFiles"));
-- 
2.43.0


From f0d3b7f3b2a1de3209b70174b0b0d68818273001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:36 +0000
Subject: [PATCH 57/59] fix: a signal during RegisterProgram ended the process
 without removing the pid file

---
 SelfDetect.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index bc3f93f..e284e3f 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -85,6 +85,9 @@ void SelfDetect::RegisterProgram(const char *argv0)
 		unlink(buf);
 		Exit::exit(Exit::CREATEFILE);
     }
+    // before the handlers that use them are registered
+    mProg = strdup(argv0);
+    mFile = strdup(buf);
     atexit(e);
 	gSigVec.CoreName(gConfig.getStr("Core.File"), gConfig.getBool("Core.Pid"));
 	gSigVec.TarName(gConfig.getStr("Core.TarFile"), gConfig.getBool("Core.SaveFiles"));
@@ -117,8 +120,6 @@ void SelfDetect::RegisterProgram(const char *argv0)
 				break;
 		}
     }
-    mProg = strdup(argv0);
-    mFile = strdup(buf);
 }
 
 void SelfDetect::Exit(int sig)
-- 
2.43.0


From b42f33b0d860df0feae448d92121f7ff75c45a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:36 +0000
Subject: [PATCH 58/59] fix: the end of a child of a registered program removed
 its pid file

---
 SelfDetect.cpp | 4 ++++
 SelfDetect.h   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index e284e3f..281d2e2 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -88,6 +88,7 @@ void SelfDetect::RegisterProgram(const char *argv0)
     // before the handlers that use them are registered
     mProg = strdup(argv0);
     mFile = strdup(buf);
+    mPid = getpid();
     atexit(e);
 	gSigVec.CoreName(gConfig.getStr("Core.File"), gConfig.getBool("Core.Pid"));
 	gSigVec.TarName(gConfig.getStr("Core.TarFile"), gConfig.getBool("Core.SaveFiles"));
@@ -124,6 +125,9 @@ void SelfDetect::RegisterProgram(const char *argv0)
 
 void SelfDetect::Exit(int sig)
 {
+    // A process forked by the registered one leaves its files alone.
+    if (mPid != 0 && mPid != getpid()) { return; }
+
     LOG(NOTICE) << "*** Terminating because of signal " << sig;
 
     if (mProg == NULL)
diff --git a/SelfDetect.h b/SelfDetect.h
index ccf47fa..e95a330 100644
--- a/SelfDetect.h
+++ b/SelfDetect.h
@@ -28,12 +28,14 @@ class SelfDetect
 private:
     const char             *mProg; // program name, which will map to /tmp/%s.pid
     const char             *mFile; // file in /tmp for pid
+    int                     mPid; // process that registered, or 0
     std::list<std::string>  mListFiles; // list of files to be removed at shutdown
 public:
     SelfDetect(void)
     {
     	mProg = NULL;
     	mFile = NULL;
+    	mPid = 0;
 	mListFiles.clear();
     }
 
-- 
2.43.0


From e73a506f47ee501b16052dfac4113cee82ee03ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 59/59] fix: a signal caught while its handler was being
 registered did not run the handler

---
 UnixSignal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnixSignal.cpp b/UnixSignal.cpp
index de55b3c..97ef914 100644
--- a/UnixSignal.cpp
+++ b/UnixSignal.cpp
@@ -135,8 +135,8 @@ void UnixSignal::Register(sighandler_t handler, int sig) // register the handler
 	return;
     }
     mLock[sig].lock();
-    signal(sig, _sigHandler); // only catch signals that have been registered
     mListHandlers[sig].insert(mListHandlers[sig].end(), handler);
+    signal(sig, _sigHandler); // only catch signals that have been registered
     mLock[sig].unlock();
 }
 
-- 
2.43.0

