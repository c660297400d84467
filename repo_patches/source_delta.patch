From 42a72ccec3f180a827e4d8ee9eea3804a1909ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:05 +0000
Subject: [PATCH 01/22] fix: compare bit vectors by bit values, not by raw
 element bytes

---
 BitVector.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index f29ef52..5d49544 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -448,8 +448,12 @@ bool BitVector::unhex(const char* src)
 
 bool BitVector::operator==(const BitVector &other) const
 {
-	unsigned l = size();
-	return l == other.size() && 0==memcmp(begin(),other.begin(),l);
+	// Only the low bit of each element counts; invert() for one leaves the other bits set.
+	if (size() != other.size()) return false;
+	for (size_t i=0; i<size(); i++) {
+		if (bit(i) != other.bit(i)) return false;
+	}
+	return true;
 }
 
 void BitVector::copyPunctured(BitVector &dst, const unsigned *puncture, const size_t plth)
-- 
2.43.0


From 0d8cade61a3d3a5ea2e8a581f75095bad74ce881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:07 +0000
Subject: [PATCH 02/22] fix: self-assignment of a vector keeps its contents

---
 Vector.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Vector.h b/Vector.h
index 91b850b..ff051e0 100644
--- a/Vector.h
+++ b/Vector.h
@@ -150,6 +150,7 @@ template <class T> class VectorBase
 	void shiftMem(VectorBase<T>&other)
 	{
 		VECTORDEBUG("VectorBase::shiftMem(%p)",(void*)&other);
+		if (this==&other) return;
 		this->clear();
 		this->mData=other.mData;
 		this->mStart=other.mStart;
@@ -195,8 +196,13 @@ template <class T> class VectorBase
 
 	/** Copy data from another vector. */
 	void clone(const VectorBase<T>& other) {
-		this->resize(other.size());
-		memcpy(mData,other.mStart,other.bytes());
+		// Copy before releasing our own memory: other may be this vector, or an alias into it.
+		VectorDataType oldData = mData;
+		const T* otherStart = other.mStart;
+		size_t elements = other.size();
+		vInit(elements);
+		memcpy(mData,otherStart,elements*sizeof(T));
+		if (oldData!=NULL) delete[] oldData;
 	}
 
 	void vConcat(const VectorBase<T>&other1, const VectorBase<T>&other2) {
-- 
2.43.0


From 321b833d1fc3111498738d5a9f63dd48e83a3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 03/22] fix: tail() beyond the end of a vector stops with an
 assertion

---
 BitVector.h | 6 +++---
 Vector.h    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/BitVector.h b/BitVector.h
index 0f78b97..be59390 100644
--- a/BitVector.h
+++ b/BitVector.h
@@ -186,7 +186,7 @@ class BitVector : public VectorBase<char>
 	}
 
 	BitVector head(size_t span) { return segment(0,span); }
-	BitVector tail(size_t start) { return segment(start,size()-start); }
+	BitVector tail(size_t start) { assert(start<=size()); return segment(start,size()-start); }
 
 	// (pat) Please do NOT put the const version of head and tail back in, because historically they were messed up.
 	// Use cloneSegment instead.
@@ -378,8 +378,8 @@ class SoftVector: public Vector<float> {
 
 	SoftVector head(size_t span) { return segment(0,span); }
 	const SoftVector head(size_t span) const { return segment(0,span); }
-	SoftVector tail(size_t start) { return segment(start,size()-start); }
-	const SoftVector tail(size_t start) const { return segment(start,size()-start); }
+	SoftVector tail(size_t start) { assert(start<=size()); return segment(start,size()-start); }
+	const SoftVector tail(size_t start) const { assert(start<=size()); return segment(start,size()-start); }
 	//@}
 
 	// (pat) How good is the SoftVector in the sense of the bits being solid?
diff --git a/Vector.h b/Vector.h
index ff051e0..4aff3b5 100644
--- a/Vector.h
+++ b/Vector.h
@@ -378,8 +378,8 @@ template <class T> class Vector : public VectorBase<T>
 
 	Vector<T> head(size_t span) { return segment(0,span); }
 	const Vector<T> head(size_t span) const { return segment(0,span); }
-	Vector<T> tail(size_t start) { return segment(start,this->size()-start); }
-	const Vector<T> tail(size_t start) const { return segment(start,this->size()-start); }
+	Vector<T> tail(size_t start) { assert(start<=this->size()); return segment(start,this->size()-start); }
+	const Vector<T> tail(size_t start) const { assert(start<=this->size()); return segment(start,this->size()-start); }
 
 	/**@name Iterator types. */
 	//@{
-- 
2.43.0


From 7337110abd03dcf039fbb1b241f44647ada0b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:22 +0000
Subject: [PATCH 04/22] fix: F16 stores the nearest 16.16 number also for large
 and double values

---
 F16.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/F16.h b/F16.h
index 374c91a..bab2624 100644
--- a/F16.h
+++ b/F16.h
@@ -28,16 +28,15 @@
 #define F16_H
 
 #include <stdint.h>
+#include <math.h>
 #include <ostream>
 
 
 
-/** Round a float to the appropriate F16 value. */
-inline int32_t _f16_round(float f)
+/** Round a number to the appropriate F16 value. */
+inline int32_t _f16_round(double f)
 {
-	if (f>0.0F) return (int32_t)(f+0.5F);
-	if (f<0.0F) return (int32_t)(f-0.5F);
-	return 0;
+	return (int32_t)round(f);
 }
 
 
@@ -57,7 +56,7 @@ class F16 {
 
 	F16(int i) { mV = i<<16; }
 	F16(float f) { mV = _f16_round(f*65536.0F); }
-	F16(double f) { mV = _f16_round((float)f*65536.0F); }
+	F16(double f) { mV = _f16_round(f*65536.0); }
 
 	int32_t& raw() { return mV; }
 	const int32_t& raw() const { return mV; }
-- 
2.43.0


From c5ef4887d44ac636038966180d692f9c10775076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:22 +0000
Subject: [PATCH 05/22] fix: F16 comparisons with float and integer operands
 are exact

---
 F16.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F16.h b/F16.h
index bab2624..cddd809 100644
--- a/F16.h
+++ b/F16.h
@@ -183,17 +183,17 @@ class F16 {
 
 	bool operator>(float f) const
 	{
-		return (mV/65536.0F) > f;
+		return (mV/65536.0) > f;
 	}
 
 	bool operator<(float f) const
 	{
-		return (mV/65536.0F) < f;
+		return (mV/65536.0) < f;
 	}
 
 	bool operator==(float f) const
 	{
-		return (mV/65536.0F) == f;
+		return (mV/65536.0) == f;
 	}
 
 };
-- 
2.43.0


From daa61a8cccd88159155a8f8caac27a91b07167ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:22 +0000
Subject: [PATCH 06/22] fix: F16 copy assignment returns the assigned value

---
 F16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F16.h b/F16.h
index cddd809..8114506 100644
--- a/F16.h
+++ b/F16.h
@@ -81,7 +81,7 @@ class F16 {
 	F16 operator=(const F16& other)
 	{
 		mV = other.mV;
-		return mV;
+		return *this;
 	}
 
 	F16 operator+(const F16& other) const
-- 
2.43.0


From e345e640e58aa884797af7495075a546a377c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:55 +0000
Subject: [PATCH 07/22] fix: Timeval::future carries exactly one million
 microseconds into seconds

---
 Timeval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index e0ec49d..c0f9dbd 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -38,7 +38,7 @@ void Timeval::future(unsigned offset)	// In msecs
 	unsigned msec = offset%1000;
 	mTimeval.tv_usec += msec*1000;
 	mTimeval.tv_sec += sec;
-	if (mTimeval.tv_usec>1000000) {
+	if (mTimeval.tv_usec>=1000000) {
 		mTimeval.tv_usec -= 1000000;
 		mTimeval.tv_sec += 1;
 	}
-- 
2.43.0


From 83beaf2d87b63c38c86ba0f438a0bb96d2c73abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:55 +0000
Subject: [PATCH 08/22] fix: Timeval::delta does not overflow for times more
 than 24 days apart

---
 Timeval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index c0f9dbd..76f372a 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -72,9 +72,9 @@ double Timeval::seconds() const
 
 long Timeval::delta(const Timeval& other) const
 {
-	// 2^31 milliseconds is just over 4 years.
-	int32_t deltaS = other.sec() - sec();
-	int32_t deltaUs = other.usec() - usec();
+	// 2^31 milliseconds is just under 25 days, so 32 bits are not enough.
+	long deltaS = other.mTimeval.tv_sec - mTimeval.tv_sec;
+	long deltaUs = other.mTimeval.tv_usec - mTimeval.tv_usec;
 	return 1000*deltaS + deltaUs/1000;
 }
 	
-- 
2.43.0


From 589802e8077a58fb019ad4778a86a978c400a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:55 +0000
Subject: [PATCH 09/22] fix: Timeval::addMinutes does not overflow for large
 numbers of minutes

---
 Timeval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.h b/Timeval.h
index 5a5c609..59578f4 100644
--- a/Timeval.h
+++ b/Timeval.h
@@ -93,7 +93,7 @@ class Timeval {
 	bool passed() const;
 
 	/** Add a given number of minutes to the time. */
-	void addMinutes(unsigned minutes) { mTimeval.tv_sec += minutes*60; }
+	void addMinutes(unsigned minutes) { mTimeval.tv_sec += (time_t)minutes*60; }
 
         /** Convert a time_t into a formatted string, using the ISO
          *  YYYY-MM-DDTHH:MM:SS[Z] format.  If isLocal is true, use localtime,
-- 
2.43.0


From 26708f9e6ea66aedb2087970783d1422c01e5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:10 +0000
Subject: [PATCH 10/22] fix: URLEncode emits the right hexadecimal digits and
 escapes NUL and 8-bit characters

---
 URLEncode.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index a993ac6..4d26c72 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -32,12 +32,12 @@ using namespace std;
 //based on javascript encodeURIComponent()
 string URLEncode(const string &c)
 {
-	static const char *digits = "01234567890ABCDEF";
+	static const char *digits = "0123456789ABCDEF";
 	string retVal="";
 	for (size_t i=0; i<c.length(); i++)
 	{
-		const char ch = c[i];
-		if (isalnum(ch) || strchr("-_.!~'()",ch)) {
+		const unsigned char ch = c[i];
+		if (isalnum(ch) || (ch && strchr("-_.!~'()",ch))) {
 			retVal += ch;
 		} else {
 			retVal += '%';
-- 
2.43.0


From 747d9e59bcc4f8106fdeff0b4aa603cf119ee51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 11/22] fix: Mutex::timedlock counts the lock it takes, and
 succeeds only if it took it

---
 Threads.cpp | 20 ++++++++++++++++----
 Threads.h   |  1 +
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index b20e158..7187c72 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -120,12 +120,24 @@ bool Mutex::trylock(const char *file, unsigned line)
 	}
 }
 
-// Returns true if the lock was acquired within the timeout, or false if it timed out.
-bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
+// Like _lock, but give up after msecs milli-seconds; returns true if the lock was acquired.
+bool Mutex::_timedlock(int msecs)
 {
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
-	return ETIMEDOUT != pthread_mutex_timedlock(&mMutex, &timeout);
+	return 0 == pthread_mutex_timedlock(&mMutex, &timeout);
+}
+
+// Returns true if the lock was acquired within the timeout, or false if it timed out.
+bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
+{
+	if (!_timedlock(msecs)) { return false; }
+	// Count the lock, since it will be released by unlock.
+	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
+		mLockerFile[mLockCnt] = NULL; mLockerLine[mLockCnt] = 0;
+	}
+	mLockCnt++;
+	return true;
 }
 
 // There is a chance here that the mLockerFile&mLockerLine
@@ -162,7 +174,7 @@ void Mutex::lock(const char *file, unsigned line)
 	if (file) {
 		LOCKLOG(DEBUG,"start at %s %u",file,line);
 		// If we wait more than a second, print an error message.
-		if (!timedlock(1000)) {
+		if (!_timedlock(1000)) {
 			string backtrace = rn_backtrace();
 			LOCKLOG(ERR, "Blocked more than one second at %s %u by %s %s",file,line,mutext().c_str(),backtrace.c_str());
 			printf("WARNING: %s Blocked more than one second at %s %u by %s %s\n",timestr(4).c_str(),file,line,mutext().c_str(),backtrace.c_str());
diff --git a/Threads.h b/Threads.h
index 6e004ba..f9e4ba5 100644
--- a/Threads.h
+++ b/Threads.h
@@ -96,6 +96,7 @@ class Mutex {
 	~Mutex();
 
 	void _lock() { pthread_mutex_lock(&mMutex); }
+	bool _timedlock(int msecs);
 
 	// (pat) Like the above but report blocking; to see report you must set both Log.Level to DEBUG for both Threads.cpp and the file.
 	void lock(const char *file=0, unsigned line=0);
-- 
2.43.0


From e3af0188bf29025ad67175d1411b08e651b17504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 12/22] fix: InterthreadQueue qGetLock, begin and end use the
 lock shared through iqConnect

---
 Interthread.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index b6057d2..2968ead 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -132,13 +132,13 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 	}
 
 	// (pat) This provides a client the ability to lock the InterthreadQueue and iterate it.
-	Mutex &qGetLock() const { return mLock; }
+	Mutex &qGetLock() const { return *mLockPointer; }
 	typedef typename Fifo::iterator iterator;
 	typedef typename Fifo::const_iterator const_iterator;
-	iterator begin() { assert(mLock.lockcnt()); return mQ.begin(); }
-	iterator end() { assert(mLock.lockcnt()); return mQ.end(); }
-	const_iterator begin() const { assert(mLock.lockcnt()); return mQ.begin(); }
-	const_iterator end() const { assert(mLock.lockcnt()); return mQ.end(); }
+	iterator begin() { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	iterator end() { assert(mLockPointer->lockcnt()); return mQ.end(); }
+	const_iterator begin() const { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	const_iterator end() const { assert(mLockPointer->lockcnt()); return mQ.end(); }
 
 #if USE_SCOPED_ITERATORS
 	// The Iterator locks the InterthreadQueue until the Iterator falls out of scope.
-- 
2.43.0


From 3d5453f8bb9404b27f808a2728d07c46e9f96767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 13/22] fix: iqWaitForEither returns when its timeout is over

---
 Interthread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 2968ead..010110f 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -222,7 +222,9 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		if (timeout) {
 			Timeval waitTime(timeout);
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-				mWriteSignalPointer->wait(*mLockPointer,waitTime.remaining());
+				long remaining = waitTime.remaining();
+				if (remaining < 2) { return; }
+				mWriteSignalPointer->wait(*mLockPointer,remaining);
 			}
 		} else {	// Wait forever.
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-- 
2.43.0


From 7c443b3f499a0b24cf38b198f71b48496695121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 14/22] fix: InterthreadMap size compiles and locks the map

---
 Interthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 010110f..9d4a5f7 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -597,7 +597,7 @@ public:
 	}
 
 	// pat added.
-	unsigned size() const { ScopedLock(mLock); return mMap.size(); }
+	unsigned size() const { ScopedLock lock(mLock); return mMap.size(); }
 
 	// WARNING: These iterators are not intrinsically thread safe.
 	// Caller must use ScopedIterator or the modification lock or enclose the entire iteration in some higher level lock.
-- 
2.43.0


From 37ba3b38533c6bb810daeb063417289914d97d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 15/22] fix: InterthreadMap deletes its remaining elements when
 destroyed

---
 Interthread.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Interthread.h b/Interthread.h
index 9d4a5f7..9a9ff45 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -614,6 +614,18 @@ public:
 template <class K, class D > class InterthreadMap : public InterthreadMap1<K,D*>
 {
 	void vdelete(D* foo) { delete foo; }
+
+	public:
+	// The base class destructor can not call our vdelete any more, so delete the remaining elements here.
+	~InterthreadMap() {
+		ScopedLock lock(this->mLock);
+		typename InterthreadMap1<K,D*>::Map::iterator iter = this->mMap.begin();
+		while (iter != this->mMap.end()) {
+			vdelete(iter->second);
+			++iter;
+		}
+		this->mMap.clear();
+	}
 };
 
 
-- 
2.43.0


From 18a9cc1e9ec7f9059e07d95ff7064caa5c09b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:02 +0000
Subject: [PATCH 16/22] fix: sqlite3_prepare_statement released an
 uninitialised pointer when no attempt was allowed

---
 sqlite3util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index b7ebd43..d9b6cf3 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -49,6 +49,7 @@ const char* enableWAL = {
 int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* query, unsigned retries)
 {
         int src = SQLITE_BUSY;
+	*stmt = NULL;	// With no retries there is no attempt that would set it.
 
 	for (unsigned i = 0; i < retries; i++) {
 		src = sqlite3_prepare_v2(DB,query,strlen(query),stmt,NULL);
-- 
2.43.0


From 9fb2a24bd94767a16345c53e4082e6761c1232d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:02 +0000
Subject: [PATCH 17/22] fix: format() dropped the last character of a 199
 character result

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index aed42c7..952283b 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -134,7 +134,7 @@ string format(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
@@ -177,7 +177,7 @@ string format1(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
-- 
2.43.0


From d8d73d6eb051eeee4339b5368fd639a36d815919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:26 +0000
Subject: [PATCH 18/22] fix: query conditions and attribute statements longer
 than 99 characters were cut off

---
 sqlite3util.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index d9b6cf3..a90d120 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -86,18 +86,14 @@ int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries)
 	return src;
 }
 
-// condition buffer is size 100 minimum.
-static const unsigned sqlBufferSize = 100;
-static const char *condition_c(char *resultBuffer,const char *keyName, const char*keyValue)
+static string condition_c(const char *keyName, const char*keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == '%s'",keyName,keyValue);
-	return resultBuffer;
+	return format("WHERE %s == '%s'",keyName,keyValue);
 }
 
-static const char *condition_u(char *resultBuffer,const char *keyName, unsigned keyValue)
+static string condition_u(const char *keyName, unsigned keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == %u",keyName,keyValue);
-	return resultBuffer;
+	return format("WHERE %s == %u",keyName,keyValue);
 }
 
 void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultColumns, const char*condition)
@@ -133,14 +129,12 @@ sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,c
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, unsigned keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_u(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_u(keyName,keyData).c_str());
 }
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, const char *keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_c(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_c(keyName,keyData).c_str());
 }
 
 sqlQuery::~sqlQuery()
@@ -371,9 +365,8 @@ bool sqlite_set_attr(sqlite3*db,const char *attr_name,const char*attr_value)
 		_LOG(WARNING) << "Could not create ATTR_TABLE in database file ";// <<(fn?fn:"");
 		return false;
 	}
-	char query[100];
-	snprintf(query,100,"REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('%s','%s')",attr_name,attr_value);
-	if (! sqlite3_command(db,query)) {
+	string query = format("REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('%s','%s')",attr_name,attr_value);
+	if (! sqlite3_command(db,query.c_str())) {
 		// (mike) 2014-06: to free ourselves of the in-tree sqlite3 code, the system library must be used.
 		//        However, sqlite3_db_filename is not available in Ubuntu 12.04. Removing dependence for now.
 		//const char *fn = sqlite3_db_filename(db,"main");
-- 
2.43.0


From 1f0e13d0e0dd4ee0e2add49d27873ba71c29d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:10 +0000
Subject: [PATCH 19/22] fix: statements of ReportingTable overflowed their
 buffer for parameter names of about 110 characters and more

---
 Reporting.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index b77c4e0..1e57cff 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -72,9 +72,8 @@ bool ReportingTable::create(const char* paramName)
 	mLock.unlock();
 
 	// and to the database
-	char cmd[200];
-	sprintf(cmd,"INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (\"%s\",%ld)", paramName, time(NULL));
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format1("INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (\"%s\",%ld)", paramName, time(NULL));
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot create reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -96,9 +95,8 @@ bool ReportingTable::incr(const char* paramName)
 
 bool ReportingTable::max(const char* paramName, unsigned newVal)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=\"%s\"", newVal, time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format1("UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=\"%s\"", newVal, time(NULL), paramName);
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot maximize reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -108,9 +106,8 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=\"%s\"", time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format1("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=\"%s\"", time(NULL), paramName);
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -121,9 +118,8 @@ bool ReportingTable::clear(const char* paramName)
 
 bool ReportingTable::clear()
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld", time(NULL));
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format1("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld", time(NULL));
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting table, error message: %s", sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -187,13 +183,12 @@ bool ReportingTable::commit()
 	// now actually write them into the db if needed
 	if (oustandingCount > 0) {
 		Timeval timer;
-		char cmd[200];
 
 		// TODO : could wrap this in a BEGIN; COMMIT; pair to transactionize these X UPDATEs
 		mp = oustanding.begin();
 		while (mp != oustanding.end()) {
-			sprintf(cmd,"UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
-			if (!sqlite3_command(mDB,cmd)) {
+			string cmd = format1("UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
+			if (!sqlite3_command(mDB,cmd.c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
 			}
 			mp++;
-- 
2.43.0


From e8538849906cb69648ad3b3357d4ff6c98fc8c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:11 +0000
Subject: [PATCH 20/22] fix: indexed parameter names overflowed their buffer
 for indices of nine and more digits

---
 Reporting.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 1e57cff..df00c87 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -131,7 +131,7 @@ bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned ma
 {
 	size_t sz = strlen(baseName);
 	for (unsigned i = minIndex; i<=maxIndex; i++) {
-		char name[sz+10];
+		char name[sz+12];
 		sprintf(name,"%s.%u",baseName,i);
 		if (!create(name)) return false;
 	}
@@ -140,7 +140,7 @@ bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned ma
 
 bool ReportingTable::incr(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return incr(name);
 }
@@ -148,7 +148,7 @@ bool ReportingTable::incr(const char* baseName, unsigned index)
 
 bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return max(name,newVal);
 }
@@ -156,7 +156,7 @@ bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 
 bool ReportingTable::clear(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return clear(name);
 }
-- 
2.43.0


From 885a65e2fdbfc0d3eecf1c5bb712fa80c8b3c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:11 +0000
Subject: [PATCH 21/22] fix: increments are kept for the next commit when the
 database refuses to store them

---
 Reporting.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index df00c87..012da52 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -190,6 +190,10 @@ bool ReportingTable::commit()
 			string cmd = format1("UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
 			if (!sqlite3_command(mDB,cmd.c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
+				// keep the increments for the next commit
+				mLock.lock();
+				mBatch[mp->first] += mp->second;
+				mLock.unlock();
 			}
 			mp++;
 		}
-- 
2.43.0


From 0f2ec7f2d7a51767ba7781bd1d1e793f96a23b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:52 +0000
Subject: [PATCH 22/22] fix: log group levels were read from a released string

---
 Logger.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 3bc858d..0e7022c 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -374,12 +374,12 @@ void LogGroup::LogGroupInit()
 }
 
 
-static const char*getNonEmptyStrIfDefined(string param)
+// Returns the empty string if there is no value.
+static string getNonEmptyStrIfDefined(string param)
 {
-	if (! gConfig.defines(param)) { return NULL; }
-	string result = gConfig.getStr(param);
-	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so check for that.
-	return result.size() ? result.c_str() : NULL;
+	if (! gConfig.defines(param)) { return string(""); }
+	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so the caller must check for that.
+	return gConfig.getStr(param);
 }
 
 // Set all the Log.Group debug levels based on database settings
@@ -392,7 +392,8 @@ void LogGroup::setAll()
 		{
 		string param = groupprefix + mGroupNames[g];
 		int level = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(param)) {
+		string levelName = getNonEmptyStrIfDefined(param);
+		if (levelName.size()) {
 			level = lookupLevel2(param,levelName);
 		}
 		mDebugLevel[g] = level;
@@ -401,7 +402,8 @@ void LogGroup::setAll()
 		{
 		string watchparam = watchprefix + mGroupNames[g];
 		int watchlevel = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(watchparam)) {
+		string levelName = getNonEmptyStrIfDefined(watchparam);
+		if (levelName.size()) {
 			watchlevel = lookupLevel2(watchparam,levelName);
 		}
 		mWatchLevel[g] = watchlevel;
-- 
2.43.0

