From 8e8e404e04a58e01a74d2ac72fca49edbe61030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 01/99] fix: hash string keys with unsigned arithmetic

The signed multiplication overflowed for keys longer than a few characters, which is undefined behaviour.
---
 src/rtmessage/rtHashMap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rtmessage/rtHashMap.c b/src/rtmessage/rtHashMap.c
index d59cbc7..12fffd0 100644
--- a/src/rtmessage/rtHashMap.c
+++ b/src/rtmessage/rtHashMap.c
@@ -288,14 +288,14 @@ int rtHashMap_Remove(rtHashMap hashmap, const void* key)
 
 uint32_t rtHashMap_Hash_Func_String(rtHashMap hashmap, const void* key)
 {
-    int hash = 0;
+    uint32_t hash = 0;
     const char* skey = key;
     while(*skey)
     {
-        hash = hash * 31 + *skey;
+        hash = hash * 31u + (uint32_t)*skey;
         skey++;
     }
-    return abs(hash) % rtVector_Size(hashmap->buckets);
+    return hash % rtVector_Size(hashmap->buckets);
 }
 
 int rtHashMap_Compare_Func_String(const void* left, const void* right)
-- 
2.43.0


From 28ce21854ffae37289ac66dbf0e510bc33f052f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 02/99] fix: decide the last release on the value the decrement
 produced

Reading the counter again after the atomic decrement let two threads that released together both see zero and
destroy the object twice.
---
 src/rtmessage/rtAtomic.h     | 14 ++++++++++----
 src/rtmessage/rtMessage.c    |  4 +---
 src/rtmessage/rtRetainable.c |  5 ++---
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/rtmessage/rtAtomic.h b/src/rtmessage/rtAtomic.h
index 2f6210f..28e0f58 100644
--- a/src/rtmessage/rtAtomic.h
+++ b/src/rtmessage/rtAtomic.h
@@ -55,17 +55,23 @@ static inline void rt_atomic_fetch_add(atomic_int* var, int value)
 #endif
 }
 
-static inline void rt_atomic_fetch_sub(atomic_int* var, int value)
+/* returns the value held before the subtraction */
+static inline int rt_atomic_fetch_sub(atomic_int* var, int value)
 {
 #if defined(RT_ATOMIC_HAS_ATOMIC_FETCH)
-    __atomic_fetch_sub(var, value, __ATOMIC_SEQ_CST);
+    return __atomic_fetch_sub(var, value, __ATOMIC_SEQ_CST);
 #elif defined(RT_ATOMIC_HAS_SYNC_FETCH)
-    __sync_fetch_and_sub(var, value);
+    return __sync_fetch_and_sub(var, value);
 #else
+    int previous = 0;
     pthread_mutex_lock(&g_atomic_mutex);
     if(NULL != var)
-        *(var) = *(var) - value;
+    {
+        previous = *(var);
+        *(var) = previous - value;
+    }
     pthread_mutex_unlock(&g_atomic_mutex);
+    return previous;
 #endif
 }
 
diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index 99d9947..e7f26b0 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -617,9 +617,7 @@ rtMessage_Retain(rtMessage m)
 rtError
 rtMessage_Release(rtMessage m)
 {
-  if (m->count != 0)
-    rt_atomic_fetch_sub(&m->count, 1);
-  if (m->count == 0)
+  if (m->count == 0 || rt_atomic_fetch_sub(&m->count, 1) == 1)
     rtMessage_Destroy(m);
   return RT_OK;
 }
diff --git a/src/rtmessage/rtRetainable.c b/src/rtmessage/rtRetainable.c
index c7d82e2..bfc38f5 100644
--- a/src/rtmessage/rtRetainable.c
+++ b/src/rtmessage/rtRetainable.c
@@ -27,9 +27,8 @@ void rtRetainable_retainInternal(rtRetainable* r)
 
 void rtRetainable_releaseInternal(rtRetainable* r, void (*destructor)(rtRetainable*))
 {
-    rt_atomic_fetch_sub(&r->refCount, 1);
-
-    if(r->refCount == 0)
+    /* decide on the value this very decrement produced: reading the counter again races with other holders */
+    if(rt_atomic_fetch_sub(&r->refCount, 1) == 1)
     {
         destructor(r);
     }
-- 
2.43.0


From 5d0d640a98766c7255e3eb8c639f32896ff6798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 03/99] fix: let buffer reads see exactly the bytes written

---
 src/rbus/rbus_buffer.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/rbus/rbus_buffer.c b/src/rbus/rbus_buffer.c
index 5241cd8..f4df9c5 100644
--- a/src/rbus/rbus_buffer.c
+++ b/src/rbus/rbus_buffer.c
@@ -257,7 +257,8 @@ int rbusBuffer_Read(rbusBuffer_t const buff, void* data, int len)
 {
     if((!buff) || (!data))
         return -1;
-    if(!(buff->posRead + len < buff->lenAlloc))
+    /*only what was written can be read, never the spare room of the allocation*/
+    if(len < 0 || len > buff->posWrite - buff->posRead)
     {
         RBUSLOG_WARN("rbusBuffer_Read failed");
         return -1;
@@ -279,7 +280,10 @@ int rbusBuffer_ReadString(rbusBuffer_t const buff, char** s, int* len)
 int rbusBuffer_ReadBoolean(rbusBuffer_t const buff, bool* b)
 {
     assert(sizeof(bool) == 1);/*otherwise we need to handle endian*/
-    return rbusBuffer_Read(buff, b, sizeof(bool));
+    unsigned char temp = 0;
+    int rc = rbusBuffer_Read(buff, &temp, sizeof(temp));
+    *b = (temp != 0);
+    return rc;
 }
 
 int rbusBuffer_ReadChar(rbusBuffer_t const buff, char* c)
@@ -306,7 +310,7 @@ int rbusBuffer_ReadUInt8(rbusBuffer_t const buff, uint8_t* u8)
 
 int rbusBuffer_ReadInt16(rbusBuffer_t const buff, int16_t* i16)
 {
-    int16_t temp;
+    int16_t temp = 0;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(int16_t));
     *i16 = rbusLittleToHostInt16(temp);
     return rc;
@@ -314,7 +318,7 @@ int rbusBuffer_ReadInt16(rbusBuffer_t const buff, int16_t* i16)
 
 int rbusBuffer_ReadUInt16(rbusBuffer_t const buff, uint16_t* u16)
 {
-    uint16_t temp;
+    uint16_t temp = 0;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(uint16_t));
     *u16 = rbusLittleToHostInt16(temp);
     return rc;
@@ -322,7 +326,7 @@ int rbusBuffer_ReadUInt16(rbusBuffer_t const buff, uint16_t* u16)
 
 int rbusBuffer_ReadInt32(rbusBuffer_t const buff, int32_t* i32)
 {
-    int32_t temp;
+    int32_t temp = 0;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(int32_t));
     *i32 = rbusLittleToHostInt32(temp);
     return rc;
@@ -330,7 +334,7 @@ int rbusBuffer_ReadInt32(rbusBuffer_t const buff, int32_t* i32)
 
 int rbusBuffer_ReadUInt32(rbusBuffer_t const buff, uint32_t* u32)
 {
-    uint32_t temp;
+    uint32_t temp = 0;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(uint32_t));
     *u32 = rbusLittleToHostInt32(temp);
     return rc;
@@ -338,7 +342,7 @@ int rbusBuffer_ReadUInt32(rbusBuffer_t const buff, uint32_t* u32)
 
 int rbusBuffer_ReadInt64(rbusBuffer_t const buff, int64_t* i64)
 {
-    int64_t temp;
+    int64_t temp = 0;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(int64_t));
     *i64 = rbusLittleToHostInt64(temp);
     return rc;
@@ -346,7 +350,7 @@ int rbusBuffer_ReadInt64(rbusBuffer_t const buff, int64_t* i64)
 
 int rbusBuffer_ReadUInt64(rbusBuffer_t const buff, uint64_t* u64)
 {
-    uint64_t temp;
+    uint64_t temp = 0;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(uint64_t));
     *u64 = rbusLittleToHostInt64(temp);
     return rc;
@@ -354,7 +358,7 @@ int rbusBuffer_ReadUInt64(rbusBuffer_t const buff, uint64_t* u64)
 
 int rbusBuffer_ReadSingle(rbusBuffer_t const buff, float* f32)
 {
-    float temp;
+    float temp = 0;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(float));
     *f32 = rbusLittleToHostSingle(temp);
     return rc;
@@ -362,7 +366,7 @@ int rbusBuffer_ReadSingle(rbusBuffer_t const buff, float* f32)
 
 int rbusBuffer_ReadDouble(rbusBuffer_t const buff, double* f64)
 {
-    double temp;
+    double temp = 0;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(double));
     *f64 = rbusLittleToHostDouble(temp);
     return rc;
@@ -370,7 +374,7 @@ int rbusBuffer_ReadDouble(rbusBuffer_t const buff, double* f64)
 
 int rbusBuffer_ReadDateTime(rbusBuffer_t const buff, rbusDateTime_t* tv)
 {
-    rbusDateTime_t temp;
+    rbusDateTime_t temp = {{0},{0}};
     if(!tv)
         return -1;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(rbusDateTime_t));
-- 
2.43.0


From c2f4753c5454a4a5798f22032798e291b337cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 04/99] fix: encode and decode TLVs within the written bytes,
 including NULL values

---
 src/rbus/rbus_value.c | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index d95405e..9eae5b9 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -633,7 +633,7 @@ uint8_t const* rbusValue_GetV(rbusValue_t v)
     {
     case RBUS_STRING:
     case RBUS_BYTES:
-        return v->d.bytes->data;
+        return v->d.bytes ? v->d.bytes->data : NULL;
     default:
         return (uint8_t const*)&v->d.b;
     }
@@ -645,7 +645,7 @@ uint32_t rbusValue_GetL(rbusValue_t v)
         return 1;
     switch(v->type)
     {
-    case RBUS_STRING:       return v->d.bytes->posWrite; 
+    case RBUS_STRING:       return v->d.bytes ? v->d.bytes->posWrite : 0;
     case RBUS_BOOLEAN:      return sizeof(bool);
     case RBUS_INT32:        return sizeof(int32_t);
     case RBUS_UINT32:       return sizeof(uint32_t);
@@ -660,7 +660,7 @@ uint32_t rbusValue_GetL(rbusValue_t v)
     case RBUS_SINGLE:       return sizeof(float);
     case RBUS_DOUBLE:       return sizeof(double);
     case RBUS_DATETIME:     return sizeof(rbusDateTime_t);
-    case RBUS_BYTES:        return v->d.bytes->posWrite;
+    case RBUS_BYTES:        return v->d.bytes ? v->d.bytes->posWrite : 0;
     default:                return 0;
     }
 }
@@ -724,18 +724,21 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
     {
     /*Calling rbusValue_SetString/rbusValue_SetBytes so the value's internal buffer is created.*/
     case RBUS_STRING:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        current->type = RBUS_NONE; /*not a string until the buffer is known to hold one*/
+        /*length captures the null terminator, 0 stands for a NULL string*/
+        if(length > buff->posWrite - buff->posRead ||
+           (length > 0 && memchr(buff->data + buff->posRead, 0, length) != buff->data + buff->posRead + length - 1))
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
             return -1;
         }
-        assert(strlen((char const*)buff->data + buff->posRead) + 1 == (size_t)length);/*length should captures null term*/
-        rbusValue_SetString(current, (char const*)buff->data + buff->posRead);
+        rbusValue_SetString(current, length ? (char const*)buff->data + buff->posRead : NULL);
         buff->posRead += length;
         return length;
     case RBUS_BYTES:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        current->type = RBUS_NONE;
+        if(length > buff->posWrite - buff->posRead)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
@@ -787,11 +790,15 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
     case RBUS_DATETIME:
         rc = rbusBuffer_ReadDateTime(buff, &current->d.tv);
         break;
+    case RBUS_NONE:
+        break;
     default:
-        rbusValue_Release(*value);
-        assert(false);
-        return -1;
+        current->type = RBUS_NONE; /*nothing was read, so there is nothing to free*/
+        rc = -1;
+        break;
     }
+    if (rc == 0 && length != rbusValue_GetL(current))
+        rc = -1;
     if (rc != 0)
     {
         RBUSLOG_WARN("rbusValue_Decode failed for type %d", type);
@@ -809,17 +816,10 @@ void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff)
     switch(value->type)
     {
     case RBUS_STRING:/*length should include null term*/
-        assert(value->d.bytes->data);
-        assert(value->d.bytes->posWrite <= value->d.bytes->lenAlloc);
-        assert(value->d.bytes->posRead == 0);
-        assert(strlen((char const*)value->d.bytes->data)+1 == (size_t)value->d.bytes->posWrite);
-        rbusBuffer_WriteStringTLV(buff, (char const*)value->d.bytes->data, value->d.bytes->posWrite);
+        rbusBuffer_WriteStringTLV(buff, (char const*)rbusValue_GetV(value), rbusValue_GetL(value));
         break;
     case RBUS_BYTES:
-        assert(value->d.bytes->data);
-        assert(value->d.bytes->posWrite <= value->d.bytes->lenAlloc);
-        assert(value->d.bytes->posRead == 0);
-        rbusBuffer_WriteBytesTLV(buff, value->d.bytes->data, value->d.bytes->posWrite);
+        rbusBuffer_WriteBytesTLV(buff, (uint8_t*)rbusValue_GetV(value), rbusValue_GetL(value));
         break;
     case RBUS_BOOLEAN:
         rbusBuffer_WriteBooleanTLV(buff, value->d.b);
@@ -864,7 +864,8 @@ void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff)
         rbusBuffer_WriteDateTimeTLV(buff, &value->d.tv);
         break;
     default:
-        assert(false);
+        /*properties and objects have no TLV form*/
+        rbusBuffer_WriteTypeLengthValue(buff, RBUS_NONE, 0, NULL);
         break;
     }
 }
-- 
2.43.0


From 7f6793ccf8ca33e58343911586af6420ef02b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 05/99] fix: compare values exactly, NULL content and time
 zones included

---
 src/rbus/rbus_value.c | 96 ++++++++++++++++++++++++++++++-------------
 1 file changed, 68 insertions(+), 28 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 9eae5b9..71334fc 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -903,6 +903,41 @@ static double rbusValue_CoerceNumericToDouble(rbusValue_t v)
     }
 }
 
+/*the value as sign and magnitude, so that 64 bit integers compare without rounding*/
+static bool rbusValue_CoerceToInteger(rbusValue_t v, bool* negative, uint64_t* magnitude)
+{
+    int64_t i;
+    switch(v->type)
+    {
+    case RBUS_SINGLE:
+    case RBUS_DOUBLE:
+        return false;
+    case RBUS_UINT64:
+        *negative = false;
+        *magnitude = v->d.u64;
+        return true;
+    case RBUS_INT64:
+        i = v->d.i64;
+        break;
+    default:
+        i = (int64_t)rbusValue_CoerceNumericToDouble(v);
+        break;
+    }
+    *negative = (i < 0);
+    *magnitude = i < 0 ? 0 - (uint64_t)i : (uint64_t)i;
+    return true;
+}
+
+/*seconds since the epoch: the local time minus its offset from UTC*/
+static time_t rbusValue_TimeToUTC(rbusDateTime_t const* dt)
+{
+    struct tm t = {0};
+    rbusValue_UnMarshallRBUStoTM(&t, dt);
+    t.tm_isdst = 0;
+    time_t offset = (time_t)dt->m_tz.m_tzhour * 3600 + (time_t)dt->m_tz.m_tzmin * 60;
+    return timegm(&t) - (dt->m_tz.m_isWest ? -offset : offset);
+}
+
 int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
 {
     if(v1 == v2)
@@ -914,11 +949,24 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     /*compare integral values being type insensitive*/
     if(v1->type <= RBUS_DOUBLE && v2->type <= RBUS_DOUBLE)
     {
+        bool neg1, neg2;
+        uint64_t mag1, mag2;
+        if(rbusValue_CoerceToInteger(v1, &neg1, &mag1) && rbusValue_CoerceToInteger(v2, &neg2, &mag2))
+        {
+            if(neg1 != neg2)
+                return neg1 ? -1 : 1;
+            if(mag1 == mag2)
+                return 0;
+            return ((mag1 < mag2) != neg1) ? -1 : 1;
+        }
+
         double d1 = rbusValue_CoerceNumericToDouble(v1);
         double d2 = rbusValue_CoerceNumericToDouble(v2);
 
-        if(d1 == d2)
+        if(d1 == d2 || (isnan(d1) && isnan(d2)))
             return 0;
+        else if(isnan(d2))
+            return -1;
         else if(d1 < d2)
             return -1;
         else
@@ -933,6 +981,14 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
             return 1;
     }
 
+    if((v1->type == RBUS_STRING || v1->type == RBUS_BYTES) && (!v1->d.bytes || !v2->d.bytes))
+    {
+        /*NULL comes before everything else*/
+        if(!v1->d.bytes && !v2->d.bytes)
+            return 0;
+        return v1->d.bytes ? 1 : -1;
+    }
+
     switch(v1->type)
     {
     case RBUS_STRING:
@@ -941,7 +997,8 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_BYTES:
     {
-        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, v1->d.bytes->posWrite);
+        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data,
+            v1->d.bytes->posWrite < v2->d.bytes->posWrite ? v1->d.bytes->posWrite : v2->d.bytes->posWrite);
         if(v1->d.bytes->posWrite < v2->d.bytes->posWrite && c == 0)
             c = -1;
         else if(v1->d.bytes->posWrite > v2->d.bytes->posWrite && c == 0)
@@ -950,33 +1007,12 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_DATETIME:
     {
-        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)))
+        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)) == 0)
             return 0;
 
         /*apply timezone and diff the times*/
-        rbusDateTime_t dt1 = *rbusValue_GetTime(v1);
-        rbusDateTime_t dt2 = *rbusValue_GetTime(v2);
-
-        dt1.m_time.tm_hour += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzhour * -1 : dt1.m_tz.m_tzhour);
-        dt1.m_time.tm_min += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzmin * -1 : dt1.m_tz.m_tzmin);
-        if(dt1.m_time.tm_min < 0)
-            dt1.m_time.tm_min += 60;
-        if(dt1.m_time.tm_min >= 60)
-            dt1.m_time.tm_min -= 60;
-
-        dt2.m_time.tm_hour += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzhour * -1 : dt2.m_tz.m_tzhour);
-        dt2.m_time.tm_min += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzmin * -1 : dt2.m_tz.m_tzmin);
-        if(dt2.m_time.tm_min < 0)
-            dt2.m_time.tm_min += 60;
-        if(dt2.m_time.tm_min >= 60)
-            dt2.m_time.tm_min -= 60;
-
-        struct tm t1m, t2m;
-        rbusValue_UnMarshallRBUStoTM(&t1m, &dt1);
-        rbusValue_UnMarshallRBUStoTM(&t2m, &dt2);
-
-        time_t t1 = mktime(&t1m);
-        time_t t2 = mktime(&t2m);
+        time_t t1 = rbusValue_TimeToUTC(rbusValue_GetTime(v1));
+        time_t t2 = rbusValue_TimeToUTC(rbusValue_GetTime(v2));
         double diffSecs = difftime(t1, t2);
 
         if(diffSecs == 0)
@@ -992,8 +1028,10 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
             return rbusProperty_Compare(rbusValue_GetProperty(v1), rbusValue_GetProperty(v2));
         else if(rbusValue_GetProperty(v1))
             return 1;
-        else
+        else if(rbusValue_GetProperty(v2))
             return -1;
+        else
+            return 0;
     }
     case RBUS_OBJECT:
     {
@@ -1001,8 +1039,10 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
             return rbusObject_Compare(rbusValue_GetObject(v1), rbusValue_GetObject(v2), true);
         else if(rbusValue_GetObject(v1))
             return 1;
-        else
+        else if(rbusValue_GetObject(v2))
             return -1;
+        else
+            return 0;
     }
     case RBUS_NONE:
     default:
-- 
2.43.0


From 8d8db84c38225f4026049be4ec62b3841b109040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 06/99] fix: keep rbusValue_SetTLV within the value and the
 data it is given

---
 src/rbus/rbus_value.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 71334fc..6f7b7bc 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -668,24 +668,53 @@ uint32_t rbusValue_GetL(rbusValue_t v)
 void rbusValue_SetTLV(rbusValue_t v, rbusValueType_t type, uint32_t length, void const* value)
 {
     VERIFY_NULL(v);
-    VERIFY_NULL(value);
 
     switch(type)
     {
     /*Calling rbusValue_SetString/rbusValue_SetBuffer so the value's internal buffer is created.*/
     case RBUS_STRING:
-        rbusValue_SetString(v, (char const*)value);
+        if(value == NULL || length == 0)
+        {
+            rbusValue_SetString(v, NULL);
+        }
+        else if(memchr(value, 0, length))
+        {
+            rbusValue_SetString(v, (char const*)value);
+        }
+        else
+        {
+            char* s = rt_malloc((size_t)length + 1);
+            memcpy(s, value, length);
+            s[length] = 0;
+            rbusValue_SetString(v, s);
+            free(s);
+        }
         break;
     case RBUS_BYTES:
         rbusValue_SetBytes(v, value, length);
         break;
+    case RBUS_PROPERTY:
+    case RBUS_OBJECT:
+        RBUSLOG_WARN("rbusValue_SetTLV type %d has no TLV form", type);
+        break;
     default:
+    {
+        struct _rbusValue typed = { .type = type };
+        VERIFY_NULL(value);
+        if(type < RBUS_BOOLEAN || type > RBUS_NONE || length != rbusValue_GetL(&typed))
+        {
+            RBUSLOG_WARN("rbusValue_SetTLV type %d can not have length %u", type, length);
+            break;
+        }
         rbusValue_FreeInternal(v);
         v->type = type;
-        memcpy(&v->d.b, value, length);
+        if(type == RBUS_BOOLEAN)
+            v->d.b = (*(uint8_t const*)value != 0);
+        else
+            memcpy(&v->d.b, value, length);
         break;
     }
-    assert(rbusValue_GetL(v) == length);
+    }
 }
 
 int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
-- 
2.43.0


From 735e0e7043276857b8da7922a86c902fea10de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 07/99] fix: normalise the time zone direction read from bytes

---
 src/rbus/rbus_buffer.c | 4 +++-
 src/rbus/rbus_value.c  | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_buffer.c b/src/rbus/rbus_buffer.c
index f4df9c5..478a7f4 100644
--- a/src/rbus/rbus_buffer.c
+++ b/src/rbus/rbus_buffer.c
@@ -375,9 +375,11 @@ int rbusBuffer_ReadDouble(rbusBuffer_t const buff, double* f64)
 int rbusBuffer_ReadDateTime(rbusBuffer_t const buff, rbusDateTime_t* tv)
 {
     rbusDateTime_t temp = {{0},{0}};
+    unsigned char isWest = 0;
     if(!tv)
         return -1;
     int rc = rbusBuffer_Read(buff, &temp, sizeof(rbusDateTime_t));
+    memcpy(&isWest, &temp.m_tz.m_isWest, sizeof(isWest));
     tv->m_time.tm_sec   = rbusLittleToHostInt32(temp.m_time.tm_sec);
     tv->m_time.tm_min   = rbusLittleToHostInt32(temp.m_time.tm_min);
     tv->m_time.tm_hour  = rbusLittleToHostInt32(temp.m_time.tm_hour);
@@ -389,7 +391,7 @@ int rbusBuffer_ReadDateTime(rbusBuffer_t const buff, rbusDateTime_t* tv)
     tv->m_time.tm_isdst = rbusLittleToHostInt32(temp.m_time.tm_isdst);
     tv->m_tz.m_tzhour   = rbusLittleToHostInt32(temp.m_tz.m_tzhour);
     tv->m_tz.m_tzmin    = rbusLittleToHostInt32(temp.m_tz.m_tzmin);
-    tv->m_tz.m_isWest   = rbusLittleToHostInt32(temp.m_tz.m_isWest);
+    tv->m_tz.m_isWest   = (isWest != 0);
     return rc;
 }
 
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 6f7b7bc..854f01e 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -23,6 +23,7 @@
 #include <assert.h>
 #include <stdbool.h>
 #include <stdlib.h>
+#include <stddef.h>
 #include <stdint.h>
 #include <string.h>
 #include <sys/time.h>
@@ -712,6 +713,11 @@ void rbusValue_SetTLV(rbusValue_t v, rbusValueType_t type, uint32_t length, void
             v->d.b = (*(uint8_t const*)value != 0);
         else
             memcpy(&v->d.b, value, length);
+        if(type == RBUS_DATETIME)
+        {
+            unsigned char isWest = ((uint8_t const*)value)[offsetof(rbusDateTime_t, m_tz.m_isWest)];
+            v->d.tv.m_tz.m_isWest = (isWest != 0);
+        }
         break;
     }
     }
-- 
2.43.0


From 424423f49ec6fabd953cad2b08f851683758c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 08/99] fix: bound the text form of values by the buffer given
 and accept NULL content

---
 src/rbus/rbus_value.c | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 854f01e..bc1317b 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -231,24 +231,15 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     if(v->type == RBUS_NONE)
         return NULL;
 
+    if((v->type == RBUS_STRING || v->type == RBUS_BYTES) && !v->d.bytes)
+        return NULL;
+
     if (buf)
     {
-      p = buf;
-      n = (int)buflen;
-
-        switch(v->type)
-        {
-        case RBUS_STRING:
-            if(n > v->d.bytes->posWrite)
-                n = v->d.bytes->posWrite;
-            break;
-        case RBUS_BYTES:
-            if(n > v->d.bytes->posWrite + 1)
-                n = v->d.bytes->posWrite + 1;
-            break;
-        default:
-            break;
-        }
+        p = buf;
+        n = (int)buflen;
+        if(n <= 0)
+            return p;
     }
     else
     {
@@ -312,14 +303,14 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     switch(v->type)
     {
     case RBUS_STRING:
-        strncpy(p, (char const* ) v->d.bytes->data, n);
+        snprintf(p, n, "%s", (char const* ) v->d.bytes->data);
         break;
     case RBUS_BYTES:
     {
         int i = 0;
-        for (i = 0; i < v->d.bytes->posWrite; i++)
-            sprintf (&p[i * 2], "%02X", v->d.bytes->data[i]);
-        p[2 * v->d.bytes->posWrite] = 0;
+        p[0] = 0;
+        for (i = 0; i < v->d.bytes->posWrite && 2 * i + 3 <= n; i++)
+            snprintf (&p[i * 2], 3, "%02X", v->d.bytes->data[i]);
         break;
     }
     case RBUS_BOOLEAN:
@@ -384,8 +375,8 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
                 /* tm_mon represents month from 0 to 11. So increment tm_mon by 1.
                    tm_year represents years since 1900. So add 1900 to tm_year.
                  */
-                snprintf(p, n, "%04d-%02d-%02dT%02d:%02d:%02d%s", v->d.tv.m_time.tm_year+1900,
-                                                                    v->d.tv.m_time.tm_mon+1,
+                snprintf(p, n, "%04d-%02d-%02dT%02d:%02d:%02d%s", (int)(v->d.tv.m_time.tm_year+1900u),
+                                                                    (int)(v->d.tv.m_time.tm_mon+1u),
                                                                     v->d.tv.m_time.tm_mday,
                                                                     v->d.tv.m_time.tm_hour,
                                                                     v->d.tv.m_time.tm_min,
@@ -414,10 +405,10 @@ char* rbusValue_ToDebugString(rbusValue_t v, char* buf, size_t buflen)
     char fmt[] = "rbusValue type:%s value:%s";
     if(!p)
     {
-        len = snprintf(NULL, 0, fmt, t, s) + 1;
+        len = snprintf(NULL, 0, fmt, t, s ? s : "NULL") + 1;
         p = rt_malloc(len);
     }
-    snprintf(p, len, fmt, t, s);
+    snprintf(p, len, fmt, t, s ? s : "NULL");
     free(s);
     return p;
 }
-- 
2.43.0


From 444adcc4ff798c657db986d72e83e95a3473006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 09/99] fix: take the new reference before dropping the old one
 when a value is reassigned

---
 src/rbus/rbus_value.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index bc1317b..b760bc5 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -558,6 +558,7 @@ static void rbusValue_SetBufferData(rbusValue_t v, const void* data, int len, rb
     }
     else
     {
+        rbusValue_FreeInternal(v);
         rbusBuffer_Create(&v->d.bytes);
     }
     rbusBuffer_Write(v->d.bytes, data, len);
@@ -600,21 +601,21 @@ void rbusValue_SetBytes(rbusValue_t v, uint8_t const* p, int len)
 void rbusValue_SetProperty(rbusValue_t v, struct _rbusProperty* property)
 {
     VERIFY_NULL(v);
+    if(property)
+        rbusProperty_Retain(property);/*before the release below, which may drop the last other reference*/
     rbusValue_FreeInternal(v);
     v->type = RBUS_PROPERTY;
     v->d.property = property;
-    if(v->d.property)
-        rbusProperty_Retain(v->d.property);
 }
 
 void rbusValue_SetObject(rbusValue_t v, struct _rbusObject* object)
 {
     VERIFY_NULL(v);
+    if(object)
+        rbusObject_Retain(object);/*before the release below, which may drop the last other reference*/
     rbusValue_FreeInternal(v);
     v->type = RBUS_OBJECT;
     v->d.object = object;
-    if(v->d.object)
-        rbusObject_Retain(v->d.object);
 }
 
 uint8_t const* rbusValue_GetV(rbusValue_t v)
@@ -1078,9 +1079,10 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
 
 void rbusValue_SetPointer(rbusValue_t* value1, rbusValue_t value2)
 {
-    rbusValue_Release(*value1);
+    rbusValue_t old = *value1;
+    rbusValue_Retain(value2);
     *value1 = value2;
-    rbusValue_Retain(*value1);
+    rbusValue_Release(old);
 }
 
 void rbusValue_Swap(rbusValue_t* v1, rbusValue_t* v2)
-- 
2.43.0


From 1b92520abf619d947350a662ad24c052ac58dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 10/99] fix: let a copied value hold the source's property or
 object

---
 src/rbus/rbus_value.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index b760bc5..ce6a013 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1104,8 +1104,6 @@ void rbusValue_Copy(rbusValue_t dest, rbusValue_t source)
         return;
     }
 
-    rbusValue_FreeInternal(dest);
-
     switch(source->type)
     {
     case RBUS_STRING:
@@ -1119,10 +1117,13 @@ void rbusValue_Copy(rbusValue_t dest, rbusValue_t source)
         }
         break;
     case RBUS_PROPERTY:
+        rbusValue_SetProperty(dest, source->d.property);
+        break;
     case RBUS_OBJECT:
-        RBUSLOG_INFO("PROPERTY/OBJECT NOT SUPPORTED YET"); /* TODO */
+        rbusValue_SetObject(dest, source->d.object);
         break;
     default:
+        rbusValue_FreeInternal(dest);
         dest->type = source->type;
         memcpy(&dest->d, &source->d, sizeof(dest->d));
         break;
-- 
2.43.0


From 762b36cd7a7e830902b9fdcb1c7bc60066399d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 11/99] fix: read date times without leftovers and refuse
 negative unsigned numbers

---
 src/rbus/rbus_value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index ce6a013..aeb92c0 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1152,7 +1152,7 @@ bool rbusValue_SetFromString(rbusValue_t value, rbusValueType_t type, const char
     if(value == NULL)
         return false;
 
-    char sign = *pStringInput;
+    char sign = pStringInput[strspn(pStringInput, " \t\n\v\f\r")];/*strtoul skips leading space*/
     switch(type)
     {
     case RBUS_STRING:
@@ -1308,7 +1308,7 @@ bool rbusValue_SetFromString(rbusValue_t value, rbusValueType_t type, const char
         }
     case RBUS_DATETIME:
         {
-            struct tm tv;
+            struct tm tv = {0};
             rbusDateTime_t tvm = {{0},{0}};
             if(0 != strncmp(pStringInput,"0000-",5)) {
                 char *pRet = NULL;
-- 
2.43.0


From 26a339b49b7af816f216eea0d9b52b77131a24ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 12/99] fix: take the new reference first when properties and
 objects are relinked

---
 src/rbus/rbus_object.c   | 27 +++++++++++++++------------
 src/rbus/rbus_property.c | 25 +++++++++++++++++--------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index 68cef82..f6c3ce1 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -263,11 +263,12 @@ rbusProperty_t rbusObject_GetProperties(rbusObject_t object)
 void rbusObject_SetProperties(rbusObject_t object, rbusProperty_t properties)
 {
     VERIFY_NULL(object);
-    if(object->properties)
-        rbusProperty_Release(object->properties);
+    rbusProperty_t old = object->properties;
+    if(properties)
+        rbusProperty_Retain(properties);/*before the release below, which may drop the last other reference*/
     object->properties = properties;
-    if(object->properties)
-        rbusProperty_Retain(object->properties);
+    if(old)
+        rbusProperty_Release(old);
 }
 
 rbusProperty_t rbusObject_GetProperty(rbusObject_t object, char const* name)
@@ -413,11 +414,12 @@ rbusObject_t rbusObject_GetChildren(rbusObject_t object)
 void rbusObject_SetChildren(rbusObject_t object, rbusObject_t children)
 {
     VERIFY_NULL(object);
-    if(object->children)
-        rbusObject_Release(object->children);
+    rbusObject_t old = object->children;
+    if(children)
+        rbusObject_Retain(children);/*before the release below, which may drop the last other reference*/
     object->children = children;
-    if(object->children)
-        rbusObject_Retain(object->children);
+    if(old)
+        rbusObject_Release(old);
 }
 
 rbusObject_t rbusObject_GetNext(rbusObject_t object)
@@ -430,11 +432,12 @@ rbusObject_t rbusObject_GetNext(rbusObject_t object)
 void rbusObject_SetNext(rbusObject_t object, rbusObject_t next)
 {
     VERIFY_NULL(object);
-    if(object->next)
-        rbusObject_Release(object->next);
+    rbusObject_t old = object->next;
+    if(next)
+        rbusObject_Retain(next);/*before the release below, which may drop the last other reference*/
     object->next = next;
-    if(object->next)
-        rbusObject_Retain(object->next);
+    if(old)
+        rbusObject_Release(old);
 }
 
 rbusObjectType_t rbusObject_GetType(rbusObject_t object)
diff --git a/src/rbus/rbus_property.c b/src/rbus/rbus_property.c
index 368de22..72beb15 100644
--- a/src/rbus/rbus_property.c
+++ b/src/rbus/rbus_property.c
@@ -139,6 +139,13 @@ int rbusProperty_Compare(rbusProperty_t property1, rbusProperty_t property2)
     if((!property1)||(!property2))
         return -1;
 
+    if((!property1->name)||(!property2->name))
+    {
+        if(property1->name != property2->name)
+            return property1->name ? 1 : -1;
+        return rbusValue_Compare(property1->value, property2->value);
+    }
+
     rc = strcmp(property1->name, property2->name);
     if(rc)
         return rc;/*return strcmp result so we can use rbusProperty_Compare to sort properties by name*/
@@ -170,11 +177,12 @@ rbusValue_t rbusProperty_GetValue(rbusProperty_t property)
 void rbusProperty_SetValue(rbusProperty_t property, rbusValue_t value)
 {
     VERIFY_NULL(property);
-    if(property->value)
-        rbusValue_Release(property->value);
+    rbusValue_t old = property->value;
+    if(value)
+        rbusValue_Retain(value);/*before the release below, which may drop the last other reference*/
     property->value = value;
-    if(property->value)
-        rbusValue_Retain(property->value);
+    if(old)
+        rbusValue_Release(old);
 }
 
 rbusProperty_t rbusProperty_GetNext(rbusProperty_t property)
@@ -185,11 +193,12 @@ rbusProperty_t rbusProperty_GetNext(rbusProperty_t property)
 void rbusProperty_SetNext(rbusProperty_t property, rbusProperty_t next)
 {
     VERIFY_NULL(property);
-    if(property->next)
-        rbusProperty_Release(property->next);
+    rbusProperty_t old = property->next;
+    if(next)
+        rbusProperty_Retain(next);/*before the release below, which may drop the last other reference*/
     property->next = next;
-    if(property->next)
-        rbusProperty_Retain(property->next);
+    if(old)
+        rbusProperty_Release(old);
 }
 
 void rbusProperty_Append(rbusProperty_t property, rbusProperty_t back)
-- 
2.43.0


From c836360d929b16c9043f4b85b46a3d9f913984f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 13/99] fix: accept unnamed properties and objects in
 comparison and lookup

---
 src/rbus/rbus_object.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index f6c3ce1..e1f819c 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -110,6 +110,14 @@ void rbusObject_Releases(int count, ...)
     va_end(vl);
 }
 
+/*strcmp for names, which may be NULL: NULL comes before every other name*/
+static int rbusObject_CompareNames(char const* name1, char const* name2)
+{
+    if(name1 && name2)
+        return strcmp(name1, name2);
+    return (name1 != NULL) - (name2 != NULL);
+}
+
 int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursive)
 {
     int rc;
@@ -127,7 +135,7 @@ int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursiv
     if((object1!=NULL)&&(object2==NULL))
         return 1;
 
-    rc = strcmp(object1->name, object2->name);
+    rc = rbusObject_CompareNames(object1->name, object2->name);
     if(rc != 0)
         return rc;
 
@@ -141,7 +149,7 @@ int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursiv
         while(prop2)
         {
             prop2Name = rbusProperty_GetName(prop2);
-            if(strcmp(prop1Name, prop2Name)==0)
+            if(rbusObject_CompareNames(prop1Name, prop2Name)==0)
             {
                 rc = rbusProperty_Compare(prop1, prop2);
                 if(rc != 0)
@@ -167,7 +175,7 @@ int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursiv
         {
             prop1Name = rbusProperty_GetName(prop1);
 
-            if(strcmp(prop2Name, prop1Name)==0)
+            if(rbusObject_CompareNames(prop2Name, prop1Name)==0)
             {
                 match = 1;
                 break;
@@ -198,7 +206,7 @@ int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursiv
             while(obj2)
             {
                 obj2Name = rbusObject_GetName(obj2);
-                if(strcmp(obj1Name, obj2Name)==0)
+                if(rbusObject_CompareNames(obj1Name, obj2Name)==0)
                 {
                     rc = rbusObject_Compare(obj1, obj2, true);
                     if(rc != 0)
@@ -222,7 +230,7 @@ int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursiv
             while(obj1)
             {
                 obj1Name = rbusObject_GetName(obj1);
-                if(strcmp(obj2Name, obj1Name)==0)
+                if(rbusObject_CompareNames(obj2Name, obj1Name)==0)
                 {
                     match = 1;
                     break;
@@ -276,7 +284,7 @@ rbusProperty_t rbusObject_GetProperty(rbusObject_t object, char const* name)
     if(!object)
         return NULL;
     rbusProperty_t prop = object->properties;
-    while(prop && strcmp(rbusProperty_GetName(prop), name))
+    while(prop && rbusObject_CompareNames(rbusProperty_GetName(prop), name))
         prop = rbusProperty_GetNext(prop);
     return prop;
 }
@@ -293,7 +301,7 @@ void rbusObject_SetProperty(rbusObject_t object, rbusProperty_t newProp)
         rbusProperty_t oldProp = object->properties;
         rbusProperty_t lastProp = NULL;
         /*search for property by name*/
-        while(oldProp && strcmp(rbusProperty_GetName(oldProp), rbusProperty_GetName(newProp)))
+        while(oldProp && rbusObject_CompareNames(rbusProperty_GetName(oldProp), rbusProperty_GetName(newProp)))
         {
             if(rbusProperty_GetNext(oldProp))
             {
-- 
2.43.0


From 2bdded2c758464017f10621b5ac0e60284ff3e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 14/99] fix: keep the property list intact when a property is
 set again

---
 src/rbus/rbus_object.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index e1f819c..1a39343 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -292,6 +292,7 @@ rbusProperty_t rbusObject_GetProperty(rbusObject_t object, char const* name)
 void rbusObject_SetProperty(rbusObject_t object, rbusProperty_t newProp)
 {
     VERIFY_NULL(object);
+    VERIFY_NULL(newProp);
     if(object->properties == NULL)
     {
         rbusObject_SetProperties(object, newProp);
@@ -314,6 +315,8 @@ void rbusObject_SetProperty(rbusObject_t object, rbusProperty_t newProp)
                 oldProp = NULL;
             }
         }
+        if(oldProp == newProp)
+            return;/*already in place, appending its own tail would close a cycle*/
         if(oldProp)/*existing property found by name*/
         {   /*replace oldProp with newProp, preserving the rest of the property list*/
 
-- 
2.43.0


From ff336c2bed07264eabccf2e7789cfcf023b8e712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 15/99] fix: encode and decode filters with absent operands and
 bounded nesting

---
 src/rbus/rbus_filter.c | 85 +++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 35 deletions(-)

diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 1edc8bf..2913037 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -26,6 +26,8 @@
 #include "rbus_buffer.h"
 
 #define VERIFY_NULL(T) if(NULL == T){ return; }
+#define RBUS_FILTER_ENCODED_NULL 0xFFFFFFFFu /*stands for an absent operand*/
+#define RBUS_FILTER_DECODE_MAX_DEPTH 1000
 typedef struct _rbusFilter_LogicExpression* rbusFilter_LogicExpression_t;
 
 struct _rbusFilter_RelationExpression
@@ -217,6 +219,14 @@ rbusFilter_t rbusFilter_GetLogicRight(rbusFilter_t filter)
     return filter->e.logic.right;
 }
 
+static void rbusFilter_EncodeOperand(rbusFilter_t filter, rbusBuffer_t buff)
+{
+    if(filter)
+        rbusFilter_Encode(filter, buff);
+    else
+        rbusBuffer_WriteUInt32TLV(buff, RBUS_FILTER_ENCODED_NULL);
+}
+
 void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
 {
     VERIFY_NULL(filter);
@@ -224,26 +234,24 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     if(filter->type == RBUS_FILTER_EXPRESSION_RELATION)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.relation.op);
-        rbusValue_Encode(filter->e.relation.value, buff);
+        if(filter->e.relation.value)
+            rbusValue_Encode(filter->e.relation.value, buff);
+        else
+            rbusBuffer_WriteTypeLengthValue(buff, RBUS_NONE, 0, NULL);
     }
     else if(filter->type == RBUS_FILTER_EXPRESSION_LOGIC)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
-        rbusFilter_Encode(filter->e.logic.left, buff);
-        rbusFilter_Encode(filter->e.logic.right, buff);
+        rbusFilter_EncodeOperand(filter->e.logic.left, buff);
+        if(filter->e.logic.op != RBUS_FILTER_OPERATOR_NOT)
+            rbusFilter_EncodeOperand(filter->e.logic.right, buff);
     }
 }
 
-int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
+static int rbusFilter_DecodeUInt32(rbusBuffer_t const buff, uint32_t* u32)
 {
     uint16_t    type;
     uint16_t    length;
-    rbusFilter_t filter;
-    rbusFilter_ExpressionType_t filterType;
-    rbusFilter_RelationOperator_t relOp;
-    rbusFilter_LogicOperator_t logOp;
-    rbusValue_t val;
-    rbusFilter_t left, right;
 
     if(rbusBuffer_ReadUInt16(buff, &type) < 0)
         return -1;
@@ -254,52 +262,59 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
         RBUSLOG_WARN("rbusFilter_Decode failed");
         return -1;
     }
-    if(rbusBuffer_ReadUInt32(buff, &filterType) < 0)
+    return rbusBuffer_ReadUInt32(buff, u32);
+}
+
+static int rbusFilter_DecodeInternal(rbusFilter_t* filterOut, rbusBuffer_t const buff, int depth)
+{
+    uint32_t filterType;
+    uint32_t op;
+
+    *filterOut = NULL;
+
+    if(depth > RBUS_FILTER_DECODE_MAX_DEPTH)
+        return -1;
+    if(rbusFilter_DecodeUInt32(buff, &filterType) < 0)
         return -1;
 
     if(filterType == RBUS_FILTER_EXPRESSION_RELATION)
     {
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0)
-            return -1;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0)
-            return -1;
-        if(!(type == RBUS_UINT32 && length == 4))
-        {
-            RBUSLOG_WARN("rbusFilter_Decode failed");
-            return -1;
-        }
-        if(rbusBuffer_ReadUInt32(buff, &relOp) < 0)
+        rbusValue_t val;
+
+        if(rbusFilter_DecodeUInt32(buff, &op) < 0)
             return -1;
         if(rbusValue_Decode(&val, buff) < 0)
             return -1;
 
-        rbusFilter_InitRelation(&filter, relOp, val);
+        rbusFilter_InitRelation(filterOut, op, val);
         rbusValue_Release(val);
+        return 0;
     }
     else if(filterType == RBUS_FILTER_EXPRESSION_LOGIC)
     {
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0)
+        rbusFilter_t left = NULL, right = NULL;
+
+        if(rbusFilter_DecodeUInt32(buff, &op) < 0)
             return -1;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0)
+        if(rbusFilter_DecodeInternal(&left, buff, depth + 1) < 0)
             return -1;
-        if(!(type == RBUS_UINT32 && length == 4))
+        if(op != RBUS_FILTER_OPERATOR_NOT && rbusFilter_DecodeInternal(&right, buff, depth + 1) < 0)
         {
-            RBUSLOG_WARN("rbusFilter_Decode failed");
+            rbusFilter_Release(left);
             return -1;
         }
-        if(rbusBuffer_ReadUInt32(buff, &logOp) < 0)
-            return -1;
-        if(rbusFilter_Decode(&left, buff) < 0)
-            return -1;
-        if(rbusFilter_Decode(&right, buff) < 0)
-            return -1;
 
-        rbusFilter_InitLogic(&filter, logOp, left, right);
+        rbusFilter_InitLogic(filterOut, op, left, right);
         rbusFilter_Release(left);
         rbusFilter_Release(right);
+        return 0;
     }
-    *filterOut = filter;
-    return 0;
+    return filterType == RBUS_FILTER_ENCODED_NULL && depth > 0 ? 0 : -1;
+}
+
+int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
+{
+    return rbusFilter_DecodeInternal(filterOut, buff, 0);
 }
 
 int rbusFilter_Compare(rbusFilter_t filter1, rbusFilter_t filter2)
-- 
2.43.0


From a2ae3ef628894bab1da1886220e5759275f024e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 16/99] fix: stop reading a message where its content ends or
 does not match

---
 src/core/rbuscore_message.c |  11 +++
 src/rbus/rbus.c             | 169 ++++++++++++++++++++++++------------
 2 files changed, 126 insertions(+), 54 deletions(-)

diff --git a/src/core/rbuscore_message.c b/src/core/rbuscore_message.c
index 187cbab..898f3f6 100644
--- a/src/core/rbuscore_message.c
+++ b/src/core/rbuscore_message.c
@@ -118,6 +118,7 @@ void rbusMessage_FromBytes(rbusMessage* message, uint8_t const* buff, uint32_t n
 {
     struct _rbusMessage * ptr = rt_malloc(sizeof(struct _rbusMessage));
     msgpack_sbuffer_init(&ptr->sbuf);
+    msgpack_packer_init(&ptr->pk, &ptr->sbuf, msgpack_sbuffer_write);
     msgpack_unpacked_init(&ptr->upk);
     msgpack_sbuffer_write((void *)&ptr->sbuf, (const char *)buff, n);
     *message = ptr;
@@ -189,7 +190,14 @@ rtError rbusMessage_SetString(rbusMessage message, char const* value)
 
 rtError rbusMessage_GetString(rbusMessage const message, char const** value)
 {
+    *value = ""; /*callers use the string even when there is none*/
     VERIFY_UNPACK(MSGPACK_OBJECT_STR);
+    uint32_t size = message->upk.data.via.str.size;
+    if(size == 0 || message->upk.data.via.str.ptr[size - 1] != '\0')
+    {
+        RBUSCORELOG_ERROR("%s string is not terminated", __FUNCTION__);
+        return RT_FAIL;
+    }
     *value = message->upk.data.via.str.ptr;
     return RT_OK;
 }
@@ -201,6 +209,8 @@ rtError rbusMessage_SetBytes(rbusMessage message, uint8_t const* bytes, const ui
 
 rtError rbusMessage_GetBytes(rbusMessage message, uint8_t const** value, uint32_t* size)
 {
+    *size = 0;
+    *value = NULL;
     VERIFY_UNPACK(MSGPACK_OBJECT_BIN);
     *size = message->upk.data.via.bin.size;
     *value = (uint8_t const*)message->upk.data.via.bin.ptr;
@@ -257,6 +267,7 @@ rtError rbusMessage_SetMessage(rbusMessage message, rbusMessage const item)
 
 rtError rbusMessage_GetMessage(rbusMessage const message, rbusMessage* value)
 {
+    *value = NULL;
     VERIFY_UNPACK(MSGPACK_OBJECT_BIN);
     rbusMessage_FromBytes(value, (uint8_t*)message->upk.data.via.bin.ptr, message->upk.data.via.bin.size);
     return RT_OK;
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a063aad..feb58ac 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -493,13 +493,23 @@ void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter, uint
 void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg);
 void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg);
 
-rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
+/*content nested deeper than this is refused*/
+#define RBUS_MESSAGE_MAX_DEPTH 500
+
+static rbusError_t _value_initFromMessage(rbusValue_t* value, rbusMessage msg, int depth);
+static rbusError_t _property_initFromMessage(rbusProperty_t* property, rbusMessage msg, int depth);
+static rbusError_t _propertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg, int depth);
+static rbusError_t _object_initFromMessage(rbusObject_t* obj, rbusMessage msg, int depth);
+static rbusError_t _filter_initFromMessage(rbusFilter_t* filter, rbusMessage msg, int depth);
+
+static rbusError_t _value_initFromMessage(rbusValue_t* value, rbusMessage msg, int depth)
 {
     uint8_t const* data;
     bool rc = true;
     uint32_t length;
-    int type;
+    int type = RBUS_NONE;
     char const* pBuffer = NULL;
+    rbusError_t err = RBUS_ERROR_SUCCESS;
 
     if (!value)
     {
@@ -509,7 +519,8 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 
     rbusValue_Init(value);
 
-    rbusMessage_GetInt32(msg, (int*) &type);
+    if(depth > RBUS_MESSAGE_MAX_DEPTH || rbusMessage_GetInt32(msg, (int*) &type) != RT_OK)
+        return RBUS_ERROR_INVALID_INPUT;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> value pop type=%d", type);
 #endif
@@ -529,7 +540,7 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
         if(type == RBUS_OBJECT)
         {
             rbusObject_t obj;
-            rbusObject_initFromMessage(&obj, msg);
+            err = _object_initFromMessage(&obj, msg, depth + 1);
             rbusValue_SetObject(*value, obj);
             rbusObject_Release(obj);
         }
@@ -537,64 +548,68 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
         if(type == RBUS_PROPERTY)
         {
             rbusProperty_t prop;
-            rbusPropertyList_initFromMessage(&prop, msg);
+            err = _propertyList_initFromMessage(&prop, msg, depth + 1);
             rbusValue_SetProperty(*value, prop);
             rbusProperty_Release(prop);
         }
         else
         {
-            int32_t ival;
-            int64_t i64;
-            double fval;
+            int32_t ival = 0;
+            int64_t i64 = 0;
+            double fval = 0;
+            rtError got;
 
             switch(type)
             {
                 case RBUS_INT16:
-                    rbusMessage_GetInt32(msg, &ival);
+                    got = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetInt16(*value, (int16_t)ival);
                     break;
                 case RBUS_UINT16:
-                    rbusMessage_GetInt32(msg, &ival);
+                    got = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetUInt16(*value, (uint16_t)ival);
                     break;
                 case RBUS_INT32:
-                    rbusMessage_GetInt32(msg, &ival);
+                    got = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetInt32(*value, (int32_t)ival);
                     break;
                 case RBUS_UINT32:
-                    rbusMessage_GetInt32(msg, &ival);
+                    got = rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetUInt32(*value, (uint32_t)ival);
 
                     break;
                 case RBUS_INT64:
                 {
-                    rbusMessage_GetInt64(msg, &i64);
+                    got = rbusMessage_GetInt64(msg, &i64);
                     rbusValue_SetInt64(*value, (int64_t)i64);
                     break;
                 }
                 case RBUS_UINT64:
                 {
-                    rbusMessage_GetInt64(msg, &i64);
+                    got = rbusMessage_GetInt64(msg, &i64);
                     rbusValue_SetUInt64(*value, (uint64_t)i64);
                     break;
                 }
                 case RBUS_SINGLE:
-                    rbusMessage_GetDouble(msg, &fval);
+                    got = rbusMessage_GetDouble(msg, &fval);
                     rbusValue_SetSingle(*value, (float)fval);
                     break;
                 case RBUS_DOUBLE:
-                    rbusMessage_GetDouble(msg, &fval);
+                    got = rbusMessage_GetDouble(msg, &fval);
                     rbusValue_SetDouble(*value, (double)fval);
                     break;
-                case RBUS_DATETIME:
-                    rbusMessage_GetBytes(msg, &data, &length);
-                    rbusValue_SetTLV(*value, type, length, data);
-                    break;
                 default:
-                    rbusMessage_GetBytes(msg, &data, &length);
-                    rbusValue_SetTLV(*value, type, length, data);
+                    got = rbusMessage_GetBytes(msg, &data, &length);
+                    if(got == RT_OK)
+                    {
+                        rbusValue_SetTLV(*value, type, length, data);
+                        if(rbusValue_GetType(*value) != (rbusValueType_t)type)
+                            got = RT_FAIL;
+                    }
                     break;
             }
+            if(got != RT_OK)
+                err = RBUS_ERROR_INVALID_INPUT;
 
 #if DEBUG_SERIALIZER
             char* sv = rbusValue_ToString(*value,0,0);
@@ -603,16 +618,22 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 #endif
         }
     }
-    return RBUS_ERROR_SUCCESS;
+    return err;
 }
 
-rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg)
+rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 {
-    char const* name;
+    return _value_initFromMessage(value, msg, 0);
+}
+
+static rbusError_t _property_initFromMessage(rbusProperty_t* property, rbusMessage msg, int depth)
+{
+    char const* name = NULL;
     rbusValue_t value;
     rbusError_t err = RBUS_ERROR_SUCCESS;
+    rtError got;
 
-    rbusMessage_GetString(msg, (char const**) &name);
+    got = rbusMessage_GetString(msg, (char const**) &name);
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> prop pop name=%s", name);
 #endif
@@ -624,10 +645,15 @@ rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage m
     }
 
     rbusProperty_Init(property, name, NULL);
-    err= rbusValue_initFromMessage(&value, msg);
+    err= _value_initFromMessage(&value, msg, depth);
     rbusProperty_SetValue(*property, value);
     rbusValue_Release(value);
-    return err;
+    return got == RT_OK ? err : RBUS_ERROR_INVALID_INPUT;
+}
+
+rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg)
+{
+    return _property_initFromMessage(property, msg, 0);
 }
 
 void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg)
@@ -651,18 +677,21 @@ void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg)
     }
 }
 
-void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
+static rbusError_t _propertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg, int depth)
 {
     rbusProperty_t previous = NULL, first = NULL;
     int numProps = 0;
-    rbusMessage_GetInt32(msg, (int*) &numProps);
+    rbusError_t err = RBUS_ERROR_SUCCESS;
+    if(rbusMessage_GetInt32(msg, (int*) &numProps) != RT_OK)
+        err = RBUS_ERROR_INVALID_INPUT;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> prop pop numProps=%d", numProps);
 #endif
-    while(--numProps >= 0)
+    /*the count is only as good as the content that follows*/
+    while(err == RBUS_ERROR_SUCCESS && --numProps >= 0)
     {
         rbusProperty_t prop;
-        rbusProperty_initFromMessage(&prop, msg);
+        err = _property_initFromMessage(&prop, msg, depth);
         if(first == NULL)
             first = prop;
         if(previous != NULL)
@@ -674,6 +703,12 @@ void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
     }
     /*TODO we need to release the props we inited*/
     *prop = first;
+    return err;
+}
+
+void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
+{
+    _propertyList_initFromMessage(prop, msg, 0);
 }
 
 void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg)
@@ -711,31 +746,38 @@ void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg)
     }
 }
 
-void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
+static rbusError_t _object_initFromMessage(rbusObject_t* obj, rbusMessage msg, int depth)
 {
     char const* name = NULL;
     int type = 0;
     int numChild = 0;
-    rbusProperty_t prop;
+    rbusProperty_t prop = NULL;
     rbusObject_t children=NULL, previous=NULL;
+    rbusError_t err = RBUS_ERROR_SUCCESS;
 
-    rbusMessage_GetString(msg, &name);
-    rbusMessage_GetInt32(msg, &type);
+    if(depth > RBUS_MESSAGE_MAX_DEPTH ||
+       rbusMessage_GetString(msg, &name) != RT_OK ||
+       rbusMessage_GetInt32(msg, &type) != RT_OK)
+    {
+        err = RBUS_ERROR_INVALID_INPUT;
+    }
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> object pop name=%s type=%d", name, type);
 #endif
 
-    rbusPropertyList_initFromMessage(&prop, msg);
+    if(err == RBUS_ERROR_SUCCESS)
+        err = _propertyList_initFromMessage(&prop, msg, depth);
 
-    rbusMessage_GetInt32(msg, &numChild);
+    if(err == RBUS_ERROR_SUCCESS && rbusMessage_GetInt32(msg, &numChild) != RT_OK)
+        err = RBUS_ERROR_INVALID_INPUT;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> object pop numChild=%d", numChild);
 #endif
 
-    while(--numChild >= 0)
+    while(err == RBUS_ERROR_SUCCESS && --numChild >= 0)
     {
         rbusObject_t next;
-        rbusObject_initFromMessage(&next, msg);/*object child object*/
+        err = _object_initFromMessage(&next, msg, depth + 1);/*object child object*/
         if(children == NULL)
             children = next;
         if(previous != NULL)
@@ -755,6 +797,12 @@ void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
     rbusProperty_Release(prop);
     rbusObject_SetChildren(*obj, children);
     rbusObject_Release(children);
+    return err;
+}
+
+void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
+{
+    _object_initFromMessage(obj, msg, 0);
 }
 
 void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg)
@@ -765,6 +813,8 @@ void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage
 
     if(value)
         type = rbusValue_GetType(value);
+    if(type == RBUS_OBJECT && rbusValue_GetObject(value) == NULL)
+        type = RBUS_NONE;/*an object has no NULL form in a message*/
     rbusMessage_SetInt32(msg, type);
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> value add name=%s type=%d", name, type);
@@ -819,7 +869,7 @@ void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage
             {
                 uint8_t const* buff = NULL;
                 uint32_t len = 0;
-                if(value)
+                if(value && type != RBUS_NONE)
                 {
                     buff = rbusValue_GetV(value);
                     len = rbusValue_GetL(value);
@@ -854,42 +904,53 @@ void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg)
     }
 }
 
-void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
+static rbusError_t _filter_initFromMessage(rbusFilter_t* filter, rbusMessage msg, int depth)
 {
-    int32_t type;
-    int32_t op;
+    int32_t type = 0;
+    int32_t op = 0;
+    rbusError_t err = RBUS_ERROR_SUCCESS;
+
+    *filter = NULL;
 
-    rbusMessage_GetInt32(msg, &type);
+    if(depth > RBUS_MESSAGE_MAX_DEPTH || rbusMessage_GetInt32(msg, &type) != RT_OK)
+        return RBUS_ERROR_INVALID_INPUT;
 
     if(type == RBUS_FILTER_EXPRESSION_RELATION)
     {
         char const* name;
         rbusValue_t val;
-        rbusMessage_GetInt32(msg, &op);
-        rbusMessage_GetString(msg, &name);
-        rbusValue_initFromMessage(&val, msg);
+        if(rbusMessage_GetInt32(msg, &op) != RT_OK || rbusMessage_GetString(msg, &name) != RT_OK)
+            return RBUS_ERROR_INVALID_INPUT;
+        err = _value_initFromMessage(&val, msg, depth);
         rbusFilter_InitRelation(filter, op, val);
         rbusValue_Release(val);
     }
     else if(type == RBUS_FILTER_EXPRESSION_LOGIC)
     {
         rbusFilter_t left = NULL, right = NULL;
-        rbusMessage_GetInt32(msg, &op);
-        rbusFilter_InitFromMessage(&left, msg);
-        if(op != RBUS_FILTER_OPERATOR_NOT)
-            rbusFilter_InitFromMessage(&right, msg);
+        if(rbusMessage_GetInt32(msg, &op) != RT_OK)
+            return RBUS_ERROR_INVALID_INPUT;
+        err = _filter_initFromMessage(&left, msg, depth + 1);
+        if(err == RBUS_ERROR_SUCCESS && op != RBUS_FILTER_OPERATOR_NOT)
+            err = _filter_initFromMessage(&right, msg, depth + 1);
         rbusFilter_InitLogic(filter, op, left, right);
         rbusFilter_Release(left);
         if(right)
             rbusFilter_Release(right);
     }
+    return err;
+}
+
+void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
+{
+    _filter_initFromMessage(filter, msg, 0);
 }
 
 void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter,
         uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg)
 {
-    char const* name;
-    int type;
+    char const* name = "";
+    int type = 0;
     rbusObject_t data = NULL;
     int hasFilter = false;
     int hasEventData =  false;
-- 
2.43.0


From 8fb5acc714199706daf3d5611cf7107057fa1eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 17/99] fix: keep the second operand of a NOT filter in its
 encoding

---
 src/rbus/rbus_filter.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 2913037..d6303b0 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -243,8 +243,7 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
         rbusFilter_EncodeOperand(filter->e.logic.left, buff);
-        if(filter->e.logic.op != RBUS_FILTER_OPERATOR_NOT)
-            rbusFilter_EncodeOperand(filter->e.logic.right, buff);
+        rbusFilter_EncodeOperand(filter->e.logic.right, buff);
     }
 }
 
@@ -298,7 +297,7 @@ static int rbusFilter_DecodeInternal(rbusFilter_t* filterOut, rbusBuffer_t const
             return -1;
         if(rbusFilter_DecodeInternal(&left, buff, depth + 1) < 0)
             return -1;
-        if(op != RBUS_FILTER_OPERATOR_NOT && rbusFilter_DecodeInternal(&right, buff, depth + 1) < 0)
+        if(rbusFilter_DecodeInternal(&right, buff, depth + 1) < 0)
         {
             rbusFilter_Release(left);
             return -1;
-- 
2.43.0


From c088a1054355224ca121714b9f21d7d757f5843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 18/99] fix: fill the given buffer with a string's text up to
 its length, as before

---
 src/rbus/rbus_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index aeb92c0..de73501 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -303,7 +303,7 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     switch(v->type)
     {
     case RBUS_STRING:
-        snprintf(p, n, "%s", (char const* ) v->d.bytes->data);
+        strncpy(p, (char const* ) v->d.bytes->data, n < v->d.bytes->posWrite ? n : v->d.bytes->posWrite);
         break;
     case RBUS_BYTES:
     {
-- 
2.43.0


From 44b033aa4e00a0e7d03443d3f84bb705e5efbeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 19/99] fix: decode empty base64 text without reading before it

---
 src/rtmessage/rtBase64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtBase64.c b/src/rtmessage/rtBase64.c
index fb876dd..d90abf1 100644
--- a/src/rtmessage/rtBase64.c
+++ b/src/rtmessage/rtBase64.c
@@ -145,7 +145,11 @@ rtError rtBase64_decode(const unsigned char * in, const unsigned int in_size,  v
 
     /*Allocate memory for the output*/
     *out_size = in_size * 3 / 4;
-    if('=' == in[in_size -2])
+    if(0 == in_size)
+    {
+        /*Nothing to decode.*/
+    }
+    else if('=' == in[in_size -2])
     {
         /*Two character padding.*/
         num_padding_bytes = 2;
-- 
2.43.0


From f2e8bb60f21a1c64f1d07cdbe19fcc42d124aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 20/99] fix: refuse message headers whose strings exceed the
 header's length

---
 src/rtmessage/rtMessageHeader.c | 18 +++++++++---------
 src/rtmessage/rtMessageHeader.h |  9 +++++++++
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/rtmessage/rtMessageHeader.c b/src/rtmessage/rtMessageHeader.c
index 09d8551..97c21af 100644
--- a/src/rtmessage/rtMessageHeader.c
+++ b/src/rtmessage/rtMessageHeader.c
@@ -51,15 +51,7 @@ rtError
 rtMessageHeader_Encode(rtMessageHeader* hdr, uint8_t* buff)
 {
   uint8_t* ptr = buff;
-#ifdef MSG_ROUNDTRIP_TIME
-  static uint16_t const kSizeWithoutStringsInBytes = 52; /* 28 bytes for basic data +
-                                                             4 bytes for Marker +
-                                                            20 bytes for timestamp */
-#else
-  static uint16_t const kSizeWithoutStringsInBytes = 32; /* 28 bytes for basic data +
-                                                             4 bytes for Marker */
-#endif
-  uint16_t length = kSizeWithoutStringsInBytes
+  uint16_t length = RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS
     + strlen(hdr->topic)
     + strlen(hdr->reply_topic);
   hdr->header_length = length;
@@ -93,6 +85,8 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
     return RT_ERROR;
   rtEncoder_DecodeUInt16(&ptr, &hdr->version);
   rtEncoder_DecodeUInt16(&ptr, &hdr->header_length);
+  if(hdr->header_length < RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS)
+    return RT_ERROR;
   rtEncoder_DecodeUInt32(&ptr, &hdr->sequence_number);
   rtEncoder_DecodeUInt32(&ptr, &hdr->flags);
   rtEncoder_DecodeUInt32(&ptr, &hdr->control_data);
@@ -107,7 +101,10 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
     rtLog_Warn("RTROUTED_INVALID_PTR: rtMessageHeader_Decode() - PTR is NULL");
     return RT_ERROR;
   }
+  if(RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS + hdr->topic_length > hdr->header_length)
+    return RT_ERROR;
   rtEncoder_DecodeStr(&ptr, hdr->topic, hdr->topic_length);
+  hdr->topic[hdr->topic_length] = '\0';
 
   rtEncoder_DecodeUInt32(&ptr, &hdr->reply_topic_length);
   if(hdr->reply_topic_length >= sizeof(hdr->reply_topic)) {
@@ -118,7 +115,10 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
     rtLog_Warn("RTROUTED_INVALID_PTR: rtMessageHeader_Decode() - PTR is NULL");
     return RT_ERROR;
   }
+  if(RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS + hdr->topic_length + hdr->reply_topic_length > hdr->header_length)
+    return RT_ERROR;
   rtEncoder_DecodeStr(&ptr, hdr->reply_topic, hdr->reply_topic_length);
+  hdr->reply_topic[hdr->reply_topic_length] = '\0';
 #ifdef MSG_ROUNDTRIP_TIME
   rtEncoder_DecodeUInt32(&ptr, (uint32_t*)&hdr->T1);
   rtEncoder_DecodeUInt32(&ptr, (uint32_t*)&hdr->T2);
diff --git a/src/rtmessage/rtMessageHeader.h b/src/rtmessage/rtMessageHeader.h
index a2bade5..06880ba 100644
--- a/src/rtmessage/rtMessageHeader.h
+++ b/src/rtmessage/rtMessageHeader.h
@@ -41,6 +41,15 @@ extern "C" {
 #define RTMSG_HEADER_MARKER 0xAAAA
 #define RTMESSAGEHEADER_PREAMBLE_LENGTH 6
 #define RTMESSAGEHEADER_HDR_LENGTH_OFFSET 4
+#ifdef MSG_ROUNDTRIP_TIME
+#define RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS 52 /* 28 bytes for basic data +
+                                                    4 bytes for Marker +
+                                                   20 bytes for timestamp */
+#else
+#define RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS 32 /* 28 bytes for basic data +
+                                                    4 bytes for Marker */
+#endif
+#define RTMESSAGEHEADER_MAX_LENGTH (RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS + 2 * RTMSG_HEADER_MAX_TOPIC_LENGTH)
 typedef enum
 {
   rtMessageFlags_Request = 0x01,
-- 
2.43.0


From e3e1489fae89b0bc9a88db25de920922358faa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 21/99] fix: read JSON messages within the bytes given and
 check field types

---
 src/rtmessage/rtConnection.c |  2 +-
 src/rtmessage/rtMessage.c    | 58 +++++++++++++++++++-----------------
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 142fba0..3c6d162 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -826,7 +826,7 @@ rtConnection_SendRequest(rtConnection con, rtMessage const req, char const* topi
   rtMessage_FreeByteArray(p);
   if(err == RT_OK)
   {
-    rtMessage_FromBytes(res, resMsg->data, resMsg->dataLength);
+    err = rtMessage_FromBytes(res, resMsg->data, resMsg->dataLength);
     rtMessageInfo_Release(resMsg);
   }
   return err;
diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index e7f26b0..bd8afc1 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -37,6 +37,12 @@ struct _rtMessage
   atomic_int count;
 };
 
+static cJSON*
+rtMessage_GetField(rtMessage const message, char const* name)
+{
+  return message ? cJSON_GetObjectItem(message->json, name) : NULL;
+}
+
 /**
  * Allocate storage and initializes it as new message.
  * @param message Pointer to the new message to be created (output parameter).
@@ -102,8 +108,6 @@ rtMessage_Clone(rtMessage const message, rtMessage* copy)
 rtError
 rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
 {
-  (void) n;
-
   #if 0
   printf("------------------------------------------\n")
   for (i = 0; i < 256; ++i)
@@ -120,7 +124,7 @@ rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
   *message = (rtMessage) rt_try_malloc(sizeof(struct _rtMessage));
   if(!*message)
     return rtErrorFromErrno(ENOMEM);
-  (*message)->json = cJSON_Parse((char *) bytes);
+  (*message)->json = n > 0 ? cJSON_ParseWithLength((char *) bytes, (size_t) n) : NULL;
   if (!(*message)->json)
   {
     free(*message);
@@ -246,8 +250,8 @@ rtMessage_SetBool(rtMessage m, char const* name, bool b)
 rtError
 rtMessage_GetBool(rtMessage const m, char const* name, bool* b)
 {
-  cJSON* p = cJSON_GetObjectItem(m->json, name);
-  if (!p)
+  cJSON* p = rtMessage_GetField(m, name);
+  if (!cJSON_IsBool(p))
     return RT_FAIL;
 
   *b = (p->type == cJSON_True);
@@ -298,8 +302,8 @@ rtMessage_SetMessage(rtMessage message, char const* name, rtMessage item)
 rtError
 rtMessage_GetString(rtMessage const  message, const char* name, char const** value)
 {
-  cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  cJSON* p = rtMessage_GetField(message, name);
+  if (cJSON_IsString(p))
   {
     *value = p->valuestring;
     return RT_OK;
@@ -318,8 +322,8 @@ rtMessage_GetString(rtMessage const  message, const char* name, char const** val
 rtError
 rtMessage_GetBinaryData(rtMessage message, char const* name, void ** ptr, uint32_t *size)
 {
-  cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  cJSON* p = rtMessage_GetField(message, name);
+  if (cJSON_IsString(p))
   {
     const unsigned char * value;
     value = (unsigned char *)p->valuestring;
@@ -343,12 +347,12 @@ rtMessage_GetBinaryData(rtMessage message, char const* name, void ** ptr, uint32
 rtError
 rtMessage_GetStringValue(rtMessage const message, char const* name, char* fieldvalue, int n)
 {
-  cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  cJSON* p = rtMessage_GetField(message, name);
+  if (cJSON_IsString(p))
   {
     char *value = p->valuestring;
     int const len = (int) strlen(value);
-    if (len <= n)
+    if (len < n)
     {
       snprintf(fieldvalue, n, "%s", value);
       return RT_OK;
@@ -368,8 +372,8 @@ rtMessage_GetStringValue(rtMessage const message, char const* name, char* fieldv
 rtError
 rtMessage_GetInt32(rtMessage const message,const char* name, int32_t* value)
 {  
-  cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  cJSON* p = rtMessage_GetField(message, name);
+  if (cJSON_IsNumber(p))
   {
     *value = p->valueint;
     return RT_OK;
@@ -387,8 +391,8 @@ rtMessage_GetInt32(rtMessage const message,const char* name, int32_t* value)
 rtError
 rtMessage_GetDouble(rtMessage const  message, char const* name,double* value)
 {
-  cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  cJSON* p = rtMessage_GetField(message, name);
+  if (cJSON_IsNumber(p))
   {
     *value = p->valuedouble;
     return RT_OK;
@@ -406,7 +410,7 @@ rtMessage_GetDouble(rtMessage const  message, char const* name,double* value)
 rtError
 rtMessage_GetMessage(rtMessage const message, char const* name, rtMessage* clone)
 {
-  cJSON* p = cJSON_GetObjectItem(message->json, name);
+  cJSON* p = rtMessage_GetField(message, name);
   if (!p)
     return RT_PROPERTY_NOT_FOUND;
   *clone = (rtMessage) rt_try_malloc(sizeof(struct _rtMessage));
@@ -428,8 +432,8 @@ rtError
 rtMessage_GetSendTopic(rtMessage const m, char* topic)
 {
   rtError err = RT_OK;
-  cJSON* obj = cJSON_GetObjectItem(m->json, "_topic");
-  if (obj)
+  cJSON* obj = rtMessage_GetField(m, "_topic");
+  if (cJSON_IsString(obj))
     strcpy(topic, obj->valuestring);
   else
     err = RT_FAIL;
@@ -450,8 +454,6 @@ rtMessage_SetSendTopic(rtMessage const m, char const* topic)
     cJSON_ReplaceItemInObject(m->json, "_topic", cJSON_CreateString(topic));
   else
     cJSON_AddItemToObject(m->json, "_topic", cJSON_CreateString(topic));
-  if (obj)
-    cJSON_Delete(obj);
   return RT_OK;
 }
 
@@ -537,7 +539,7 @@ rtMessage_AddMessage(rtMessage m, char const* name, rtMessage const item)
 rtError
 rtMessage_GetArrayLength(rtMessage const m, char const* name, int32_t* length)
 {
-  cJSON* obj = cJSON_GetObjectItem(m->json, name);
+  cJSON* obj = rtMessage_GetField(m, name);
   if (!obj)
     *length = 0;
   else
@@ -557,14 +559,14 @@ rtMessage_GetArrayLength(rtMessage const m, char const* name, int32_t* length)
 rtError
 rtMessage_GetStringItem(rtMessage const m, char const* name, int32_t idx, char const** value)
 {
-  cJSON* obj = cJSON_GetObjectItem(m->json, name);
+  cJSON* obj = rtMessage_GetField(m, name);
   if (!obj)
     return RT_PROPERTY_NOT_FOUND;
-  if (idx >= cJSON_GetArraySize(obj))
+  if (idx < 0 || idx >= cJSON_GetArraySize(obj))
     return RT_FAIL;
 
   cJSON* item = cJSON_GetArrayItem(obj, idx);
-  if (item)
+  if (cJSON_IsString(item))
   {
     *value = item->valuestring;
     return RT_OK;
@@ -583,10 +585,10 @@ rtMessage_GetStringItem(rtMessage const m, char const* name, int32_t idx, char c
 rtError
 rtMessage_GetMessageItem(rtMessage const m, char const* name, int32_t idx, rtMessage* msg)
 {
-  cJSON* obj = cJSON_GetObjectItem(m->json, name);
+  cJSON* obj = rtMessage_GetField(m, name);
   if (!obj)
     return RT_PROPERTY_NOT_FOUND;
-  if (idx >= cJSON_GetArraySize(obj))
+  if (idx < 0 || idx >= cJSON_GetArraySize(obj))
     return RT_FAIL;
   *msg = (rtMessage) rt_try_malloc(sizeof(struct _rtMessage));
   if(!*msg)
@@ -617,6 +619,8 @@ rtMessage_Retain(rtMessage m)
 rtError
 rtMessage_Release(rtMessage m)
 {
+  if (!m)
+    return RT_ERROR_INVALID_ARG;
   if (m->count == 0 || rt_atomic_fetch_sub(&m->count, 1) == 1)
     rtMessage_Destroy(m);
   return RT_OK;
-- 
2.43.0


From d27e3597d810f7bb4fbfeafb808b6b16841a5db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 22/99] fix: keep long topics within the routing tree's work
 buffers

---
 src/rtmessage/rtRoutingTree.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 84230ab..75bfad9 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -132,7 +132,7 @@ static int validateExpression(const char* expr)
         expr++;	
     }
 
-    if((token_length > MAX_TOKEN_BUFFER_SIZE) || (token_count > MAX_TOKENS))
+    if((token_length >= MAX_TOKEN_BUFFER_SIZE) || (token_count >= MAX_TOKENS))
     {
         result = -1;
     }
@@ -140,14 +140,19 @@ static int validateExpression(const char* expr)
     return result;
 }
 
+/*Leaves workTokenCount at 0 if the expression has more characters or tokens than can be in the tree.*/
 static void tokenizeExpression(const char* expression)
 {
     int i = 0;
     const char* from = expression;
     char* to = workBuffer;
     workTokenCount = 0;
+    if(strlen(expression) >= MAX_TOKEN_BUFFER_SIZE)
+        return;
     while(*from)
     {
+        if(i == MAX_TOKENS)
+            return;
         workTokens[i].name = to;
         
         while(*from && *from != '.')
-- 
2.43.0


From 9c5e26226c23ff3af45223c29abf8cc2755d41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 23/99] fix: remove only the sender's own route when a topic is
 removed

---
 src/rtmessage/rtRoutingTree.c | 138 +++++++++++++++++-----------------
 src/rtmessage/rtRoutingTree.h |   3 +-
 src/rtmessage/rtrouted.c      |   7 +-
 3 files changed, 79 insertions(+), 69 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 75bfad9..c5493ac 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -166,37 +166,7 @@ static void tokenizeExpression(const char* expression)
     workTokenCount = i;
 }
 
-static void removeTopicFromRoutes(rtRoutingTree rt, rtTreeTopic* topic)
-{
-    rtListItem childItem;
-    rtTreeTopic* childTopic;
-    rtListItem routeItem;
-    rtTreeRoute* route;
-    size_t size;
-    rtList_GetFront(topic->routeList, &routeItem);
-    while(routeItem)
-    {
-        rtListItem_GetData(routeItem, (void**)&route);
-
-        rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
-        /*if the route's topicList has become empty, then remove the whole route*/
-        rtList_GetSize(route->topicList, &size);
-        if(size == 0)
-            rtList_RemoveItemByCompare(rt->routeList, route, rtList_ComparePointer, freeTreeRoute);
-
-        rtListItem_GetNext(routeItem, &routeItem);
-    }
-
-    rtList_GetFront(topic->childList, &childItem);
-    while(childItem)
-    {
-        rtListItem_GetData(childItem, (void**)&childTopic);
-        removeTopicFromRoutes(rt, childTopic);
-        rtListItem_GetNext(childItem, &childItem);
-    }
-}
-
-static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const char* name, int create, int* created, int *error, int remove)
+static rtTreeTopic* getChildByName(rtTreeTopic* parent, const char* name, int create, int* created, int *error)
 {
     rtListItem item;
 
@@ -210,13 +180,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         rtListItem_GetData(item, (void**)&treeTopic);
         if(strcmp(treeTopic->name, name) == 0)
         {
-            /* we can remove if its an exact match*/
-            if(remove)
-            {
-              removeTopicFromRoutes(rt, treeTopic);
-              rtList_RemoveItem(parent->childList, item, freeTreeTopic);
-              return NULL;
-            }
             return treeTopic;
         }
         /* if a query contains a row instance id, a square bracket alias, or wildcard * 
@@ -233,8 +196,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         */
         else if(treeTopic->name[0] == '{' && (isdigit(name[0]) || name[0] == '[' || name[0] == '*'))
         {
-            /* note that we don't handle the remove flag here because you should never create or remove instance ids themselves in the tree
-               however, as a safeguard we only do remove in the above branch when name is an exact match*/
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
@@ -308,6 +269,41 @@ static void optimizeTopicsBackpropagate(rtTreeTopic* topic, rtTreeRoute* route)
         optimizeTopicsBackpropagate(topic->parent, route);
 }
 
+static int isTopicEmpty(rtTreeTopic* topic)
+{
+    size_t numChildren = 0;
+    size_t numRoutes = 0;
+    if(topic->childList)
+        rtList_GetSize(topic->childList, &numChildren);
+    if(topic->routeList)
+        rtList_GetSize(topic->routeList, &numRoutes);
+    return numChildren == 0 && numRoutes == 0;
+}
+
+static void removeChildTopic(rtTreeTopic* parent, rtTreeTopic* child)
+{
+    if(child->name[0] == '{')
+        parent->isTable = 0;
+    rtList_RemoveItemByCompare(parent->childList, child, rtList_ComparePointer, freeTreeTopic);
+}
+
+static int hasRouteBelow(rtTreeTopic* topic, rtTreeRoute* route)
+{
+    rtListItem item = NULL;
+    if(topic->childList)
+        rtList_GetFront(topic->childList, &item);
+    while(item)
+    {
+        rtTreeTopic* child;
+        rtListItem_GetData(item, (void**)&child);
+        if((child->routeList && rtList_HasItem(child->routeList, route, rtList_ComparePointer)) ||
+           (child->routeList2 && rtList_HasItem(child->routeList2, route, rtList_ComparePointer)))
+            return 1;
+        rtListItem_GetNext(item, &item);
+    }
+    return 0;
+}
+
 /* 
     This does a depth first search for treeTopics having the route.
     If a treeTopic has the route, the route is removed from the treeTopic.
@@ -328,9 +324,6 @@ static void removeRouteFromTopicTree(rtRoutingTree rt, rtTreeTopic* treeTopic, r
     {
         rtTreeTopic* child;
         rtListItem next;
-        size_t numChildren=0;
-        size_t numRoutes=0;
-        size_t numRoutes2=0;
 
         rtListItem_GetData(childItem, (void**)&child);
 
@@ -339,29 +332,14 @@ static void removeRouteFromTopicTree(rtRoutingTree rt, rtTreeTopic* treeTopic, r
         if(child->routeList)
         {
           rtList_RemoveItemByCompare(child->routeList, route, rtList_ComparePointer, NULL);
-          rtList_GetSize(child->routeList, &numRoutes);
         }
         if(child->routeList2)
         {
           rtList_RemoveItemByCompare(child->routeList2, route, rtList_ComparePointer, NULL);
-          rtList_GetSize(child->routeList2, &numRoutes2);
         }
-        rtList_GetSize(child->childList, &numChildren);
         rtListItem_GetNext(childItem, &next);
-        if(numChildren == 0 && numRoutes == 0)
-        {
-            rtList_RemoveItem(treeTopic->childList, childItem, freeTreeTopic);
-        }/*
-        else if(numRoutes == 0 && numRoutes2 > 0)
-        {
-            rtList_GetFront(child->routeList2, &routeItem);
-            while(routeItem)
-            {
-                rtListItem_GetNext(routeItem, &next);
-                rtList_RemoveItem(child->routeList2, routeItem, NULL);
-                routeItem = next;
-            }
-        }*/
+        if(isTopicEmpty(child))
+            removeChildTopic(treeTopic, child);
         childItem = next;
     }
 }
@@ -512,7 +490,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     int error = 0;
     for(i = 0; i < workTokenCount; ++i)
     {
-        topic = getChildByName(rt, topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error, 0);
+        topic = getChildByName(topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error);
         if (error)
         {
             rtLog_Debug("Rejecting data registraion as per standard");
@@ -553,7 +531,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(treeTopic, workTokens[i].name, 0, NULL, NULL);
 
         if(!treeTopic)
             return;
@@ -617,7 +595,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
           However, "Foo" doesn't have the route.  "Foo.{i}" has the route we want.
           So we need to search for the "{i}" child here and use its route.
         */
-        rtTreeTopic* curlyChild = getChildByName(rt, treeTopic, "{i}", 0, NULL, NULL, 0);
+        rtTreeTopic* curlyChild = getChildByName(treeTopic, "{i}", 0, NULL, NULL);
         if(curlyChild)
         {
           *routes = curlyChild->routeList;
@@ -661,12 +639,17 @@ void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route)
     rtList_RemoveItem(rt->routeList, routeItem, freeTreeRoute);
 }
 
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
+void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic, const void* route)
 {
     int i;
     rtTreeTopic* treeTopic = rt->topicRoot;
+    rtTreeRoute* treeRoute;
+
+    rtLog_Debug("%s topic=%s route=%p", __FUNCTION__, topic, route);
 
-    rtLog_Debug("%s topic=%s", __FUNCTION__, topic);
+    treeRoute = getTreeRoute(rt, route, NULL);
+    if(!treeRoute)
+        return;
 
     tokenizeExpression(topic);
     if(workTokenCount == 0)
@@ -674,11 +657,32 @@ void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, i == workTokenCount-1);
+        treeTopic = getChildByName(treeTopic, workTokens[i].name, 0, NULL, NULL);
 
         if(!treeTopic)
             return;
     }
+
+    /*only an exact match is removed, as instance ids themselves are never in the tree*/
+    if(strcmp(treeTopic->name, workTokens[workTokenCount-1].name) != 0)
+        return;
+
+    if(!treeTopic->routeList || !rtList_HasItem(treeTopic->routeList, treeRoute, rtList_ComparePointer))
+        return;
+
+    rtList_RemoveItemByCompare(treeTopic->routeList, treeRoute, rtList_ComparePointer, NULL);
+    rtList_RemoveItemByCompare(treeRoute->topicList, treeTopic, rtList_ComparePointer, NULL);
+
+    /*the sub tree stays, as do other routes, and any topic up the path that is left without both is removed*/
+    while(treeTopic->parent)
+    {
+        rtTreeTopic* parent = treeTopic->parent;
+        if(isTopicEmpty(treeTopic))
+            removeChildTopic(parent, treeTopic);
+        if(parent->routeList2 && !hasRouteBelow(parent, treeRoute))
+            rtList_RemoveItemByCompare(parent->routeList2, treeRoute, rtList_ComparePointer, NULL);
+        treeTopic = parent;
+    }
 }
 
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics)
@@ -692,7 +696,7 @@ void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath,
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(treeTopic, workTokens[i].name, 0, NULL, NULL);
         
         if(!treeTopic)
             return;
diff --git a/src/rtmessage/rtRoutingTree.h b/src/rtmessage/rtRoutingTree.h
index 1ba21a1..e2f5e2e 100644
--- a/src/rtmessage/rtRoutingTree.h
+++ b/src/rtmessage/rtRoutingTree.h
@@ -157,7 +157,8 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topic, const v
 void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* routes);
 void rtRoutingTree_GetRouteTopics(rtRoutingTree rt, const void* route, rtList* topics);
 void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route);
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic);
+/* Removes the given route from the topic. The topic's sub tree and other routes are kept. */
+void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic, const void* route);
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics);
 void rtRoutingTree_LogStats(rtRoutingTree rt);
 void rtRoutingTree_LogTopicTree(rtRoutingTree rt);
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 6c3b96b..a2a252c 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -805,7 +805,12 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         {
           //Not a route. Is it an alias?
           rtLog_Debug("Removing alias %s", expression);
-          rtRoutingTree_RemoveTopic(gRoutingTree, expression);
+          for (i = 0; i < rtVector_Size(gRoutes); i++)
+          {
+            rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
+            if((route->subscription) && (route->subscription->client == sender))
+              rtRoutingTree_RemoveTopic(gRoutingTree, expression, (void *)route);
+          }
         }
       }
     }
-- 
2.43.0


From f5059b4fd643d107ba0a9ceced756d3f8714457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 24/99] fix: register and look up topics by the routes and
 tables they have

---
 src/rtmessage/rtRoutingTree.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index c5493ac..abd445b 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -199,12 +199,9 @@ static rtTreeTopic* getChildByName(rtTreeTopic* parent, const char* name, int cr
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
-        else if (treeTopic->name[0] == '{' || name[0] == '{')
+        else if (error && (treeTopic->name[0] == '{' || name[0] == '{'))
         {
-            if (error)
-            {
-                *error = 1;
-            }
+            *error = 1;
             return treeTopic;
         }
         rtListItem_GetNext(item, &item);
@@ -498,7 +495,10 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
         }
     }
 
-    if (err_on_dup && (0 == isCreated) && (topic->routeList) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
+    size_t numRoutes = 0;
+    if (topic->routeList)
+        rtList_GetSize(topic->routeList, &numRoutes);
+    if (err_on_dup && (0 == isCreated) && (numRoutes > 0) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
     {
         /* Controlled Error log will be printed in rtrouted */
         rtLog_Debug("Rejecting a duplicate registraion");
@@ -508,7 +508,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     if(!topic->routeList)
         rtList_Create(&topic->routeList);
 
-    rtList_PushBack(topic->routeList, route, NULL);
+    addPointerToListOnce(topic->routeList, route);
 
     addPointerToListOnce(route->topicList, topic);
 
-- 
2.43.0


From 0a410f6922eb1e7447e3290dd71eeabbdec6fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 25/99] fix: keep clients off the broker's own topics and
 refuse bad control messages

---
 src/rtmessage/rtrouted.c | 85 ++++++++++++++++++++++++++++++----------
 1 file changed, 64 insertions(+), 21 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index a2a252c..395e647 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -364,17 +364,50 @@ rtRouted_ParseConfig(char const* fname)
   return RT_OK;
 }
 
+static rtError
+rtRouted_ClearRoute(rtRouteEntry * route)
+{
+  rtVector_RemoveItem(gRoutes, route, NULL);
+  free(route->subscription);
+  rtLog_Debug("Clearing route %s", route->expression);
+  rtRoutingTree_RemoveRoute(gRoutingTree, (void*)route);
+  free(route);
+  return RT_OK;
+}
+
+static bool
+rtRouted_IsInternalTopic(char const* topic)
+{
+  rtList list = NULL;
+  rtListItem item = NULL;
+  rtRoutingTree_GetTopicRoutes(gRoutingTree, topic, &list);
+  if(list)
+    rtList_GetFront(list, &item);
+  while(item)
+  {
+    rtTreeRoute* treeRoute;
+    rtListItem_GetData(item, (void**)&treeRoute);
+    if(((rtRouteEntry *)treeRoute->route)->subscription == NULL)
+      return true;
+    rtListItem_GetNext(item, &item);
+  }
+  return false;
+}
+
 static rtError
 rtRouted_AddRoute(rtRouteMessageHandler handler, char const* exp, rtSubscription* subscription)
 {
+  rtError rc;
   rtRouteEntry* route = (rtRouteEntry *) rt_calloc(1, sizeof(rtRouteEntry));
   route->subscription = subscription;
   route->message_handler = handler;
   rtString_Copy(route->expression, exp, RTMSG_MAX_EXPRESSION_LEN);
   rtVector_PushBack(gRoutes, route);
   rtLog_Debug("AddRoute route=[%p] address=[%s] expression=[%s]", route, subscription->client->ident, exp);
-  rtRoutingTree_AddTopicRoute(gRoutingTree, exp, (void *)route, 0/*ignfore duplicate entry*/);
-  return RT_OK;
+  rc = rtRoutingTree_AddTopicRoute(gRoutingTree, exp, (void *)route, 0/*ignfore duplicate entry*/);
+  if(rc != RT_OK)
+    rtRouted_ClearRoute(route);
+  return rc;
 }
 
 static bool
@@ -420,17 +453,6 @@ rtRouted_AddAlias(char const* exp, rtRouteEntry * route)
   return rc;
 }
 
-  static rtError
-rtRouted_ClearRoute(rtRouteEntry * route)
-{
-  rtVector_RemoveItem(gRoutes, route, NULL);
-  free(route->subscription);
-  rtLog_Debug("Clearing route %s", route->expression);
-  rtRoutingTree_RemoveRoute(gRoutingTree, (void*)route);
-  free(route);
-  return RT_OK;
-}
-
 static rtError
 rtRouted_ClearClientRoutes(rtConnectedClient* clnt)
 {
@@ -500,7 +522,7 @@ rtRouted_SendMessage(rtMessageHeader * request_hdr, rtMessage message, rtConnect
       rtListItem_GetData(item, (void**)&treeRoute);
       rtListItem_GetNext(item, &item);
       route = treeRoute->route;
-      if(route)
+      if(route && route->subscription)
       {
         rtLog_Debug("SendMessage topic=%s expression=%s", request_hdr->topic, route->expression);
         found_dest = 1;
@@ -744,7 +766,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
   uint32_t route_id = 0;
   uint32_t i = 0;
   int32_t add_subscrption = 0;
-  rtMessage m;
+  rtMessage m = NULL;
   rtMessage response = NULL;
   rtError rc = RT_OK;
 
@@ -761,7 +783,12 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
        (RT_OK == rtMessage_GetInt32(m, "route_id", (int32_t *)&route_id)) &&
        (0 == validate_string(expression, RTMSG_MAX_EXPRESSION_LEN)))
     {
-      if(1 == add_subscrption)
+      if((1 == add_subscrption) && rtRouted_IsInternalTopic(expression))
+      {
+        rtLog_Warn("Rejecting subscription to internal topic %s from %s", expression, sender->ident);
+        rc = RT_ERROR_INVALID_ARG;
+      }
+      else if(1 == add_subscrption)
       {
         for (i = 0; i < rtVector_Size(gRoutes); i++)
         {
@@ -779,7 +806,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
           subscription->client = sender;
           rc = rtRouted_AddRoute(rtRouted_ForwardMessage, expression, subscription);
 
-          if(strstr(expression, ".INBOX.") && sender->inbox[0] == '\0')
+          if(rc == RT_OK && strstr(expression, ".INBOX.") && sender->inbox[0] == '\0')
           {
             rtString_Copy(sender->inbox, expression, RTMSG_HEADER_MAX_TOPIC_LENGTH);
             rtLog_Debug("init client inbox to %s", sender->inbox);
@@ -847,7 +874,12 @@ rtRouted_OnMessageHello(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t
     rtLog_Warn("Sender %s", sender->ident);
     return;
   }
-  rtMessage_GetString(m, "inbox", &inbox);
+  if(RT_OK != rtMessage_GetString(m, "inbox", &inbox) || (0 != validate_string(inbox, RTMSG_MAX_EXPRESSION_LEN)) || rtRouted_IsInternalTopic(inbox))
+  {
+    rtLog_Warn("Bad inbox in Hello message from %s", sender->ident);
+    rtMessage_Release(m);
+    return;
+  }
 
   rtSubscription* subscription = (rtSubscription *) rt_malloc(sizeof(rtSubscription));
   subscription->id = 0;
@@ -1162,9 +1194,19 @@ rtRouted_OnMessageDiagnostics(rtConnectedClient* sender, rtMessageHeader* hdr, u
   rtMessage msg;
   const char * cmd;
 
-  rtMessage_FromBytes(&msg, buff, n);
+  if(RT_OK != rtMessage_FromBytes(&msg, buff, n))
+  {
+    rtLog_Warn("Bad Diagnostics message");
+    rtLog_Warn("Sender %s", sender->ident);
+    return;
+  }
 
-  rtMessage_GetString(msg, RTROUTER_DIAG_CMD_KEY, &cmd);
+  if(RT_OK != rtMessage_GetString(msg, RTROUTER_DIAG_CMD_KEY, &cmd))
+  {
+    rtLog_Warn("No command in Diagnostics message from %s", sender->ident);
+    rtMessage_Release(msg);
+    return;
+  }
 
   if(0 == strncmp(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS, cmd, sizeof(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS)))
     rtLog_SetLevel(RT_LOG_DEBUG);
@@ -1297,7 +1339,8 @@ rtRouted_OnMessageKeyExchange(rtConnectedClient* sender, rtMessageHeader* hdr, u
 
   (void)hdr;
 
-  rtMessage_FromBytes(&msg, buff, n);
+  if (rtMessage_FromBytes(&msg, buff, n) != RT_OK)
+    return;
   err = rtMessage_GetString(msg, "type", &type);
   if (err != RT_OK || !type)
     return;
-- 
2.43.0


From 2caaf7da7bb26551fb30ee9b303a46c8cdd5829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 26/99] fix: bound the header and payload lengths a client may
 announce

---
 src/rtmessage/rtMessageHeader.h |  2 ++
 src/rtmessage/rtrouteBase.c     | 18 +++++++++++++++++-
 src/rtmessage/rtrouted.c        | 18 +++++++++++++++++-
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtMessageHeader.h b/src/rtmessage/rtMessageHeader.h
index 06880ba..41c1ce8 100644
--- a/src/rtmessage/rtMessageHeader.h
+++ b/src/rtmessage/rtMessageHeader.h
@@ -50,6 +50,8 @@ extern "C" {
                                                     4 bytes for Marker */
 #endif
 #define RTMESSAGEHEADER_MAX_LENGTH (RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS + 2 * RTMSG_HEADER_MAX_TOPIC_LENGTH)
+/* keeps the size of a message, and twice that for its buffer, within an int */
+#define RTMESSAGEHEADER_MAX_PAYLOAD_LENGTH (0x7FFFFFFF - 2 * RTMESSAGEHEADER_MAX_LENGTH)
 typedef enum
 {
   rtMessageFlags_Request = 0x01,
diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 5f8bd67..92930c8 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -387,6 +387,12 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if((RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS > header_length) || (RTMESSAGEHEADER_MAX_LENGTH < header_length))
+        {
+          rtLog_Warn("Bad header length in message from %s", clnt->ident);
+          rtConnectedClient_Reset(clnt);
+          break;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -407,6 +413,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
         if(clnt->header.flags & rtMessageFlags_Tainted)
           clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][0]);
 #endif
+        if(clnt->header.payload_length > RTMESSAGEHEADER_MAX_PAYLOAD_LENGTH)
+        {
+          rtLog_Warn("Bad payload length in message from %s", clnt->ident);
+          return RT_ERROR;
+        }
         clnt->bytes_to_read += clnt->header.payload_length;
         clnt->state = rtConnectionState_ReadPayload;
         int incoming_data_size = clnt->bytes_to_read + clnt->bytes_read;
@@ -427,9 +438,14 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
             break;
           }
         }
+        if(clnt->header.payload_length != 0)
+          break;
+        /* nothing more to read for this message */
       }
+      else
+        break;
     }
-    break;
+    /* fall through */
 
     case rtConnectionState_ReadPayload:
     {
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 395e647..0f4a44a 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1614,6 +1614,12 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if((RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS > header_length) || (RTMESSAGEHEADER_MAX_LENGTH < header_length))
+        {
+          rtLog_Warn("Bad header length in message from %s - %s", clnt->ident, rtRouted_GetClientName(clnt));
+          rtConnectedClient_Reset(clnt);
+          break;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -1634,6 +1640,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
         if(clnt->header.flags & rtMessageFlags_Tainted)
           clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][0]);
 #endif
+        if(clnt->header.payload_length > RTMESSAGEHEADER_MAX_PAYLOAD_LENGTH)
+        {
+          rtLog_Warn("Bad payload length in message from %s - %s", clnt->ident, rtRouted_GetClientName(clnt));
+          return RT_ERROR;
+        }
         clnt->bytes_to_read += clnt->header.payload_length;
         clnt->state = rtConnectionState_ReadPayload;
         int incoming_data_size = clnt->bytes_to_read + clnt->bytes_read;
@@ -1654,9 +1665,14 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
             break;
           }
         }
+        if(clnt->header.payload_length != 0)
+          break;
+        /* nothing more to read for this message */
       }
+      else
+        break;
     }
-    break;
+    /* fall through */
 
     case rtConnectionState_ReadPayload:
     {
-- 
2.43.0


From 648270afb624b2018b76796f2e7befeb0a9b7d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 27/99] fix: leave a timed out request's queue entry under the
 connection's lock

---
 src/rtmessage/rtConnection.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 3c6d162..9258051 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1050,7 +1050,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         else if(err == RT_NO_CONNECTION)
         {
           ret = err;
-          goto dequeue_and_continue;
+          break;
         }
         else
         {
@@ -1060,11 +1060,10 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         }
       } while(RT_OK == err);
     }
+    pthread_mutex_lock(&con->mutex);
     if(RT_OK == ret)
     {
       /*Sem posted*/
-      pthread_mutex_lock(&con->mutex);
-
       if(queue_entry.response)
       {
         if(queue_entry.response->header.flags & rtMessageFlags_Undeliverable)
@@ -1086,6 +1085,11 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         ret = RT_ERROR;
       }
     }
+    else if(queue_entry.response)
+    {
+      /*The response arrived after the wait had ended.*/
+      rtMessageInfo_Release(queue_entry.response);
+    }
 
 dequeue_and_continue:
     rtList_RemoveItem(con->pending_requests_list, listItem, NULL);
@@ -1619,9 +1623,12 @@ rtConnection_Read(rtConnection con, int32_t timeout)
         rtListItem_GetData(listItem, (void**)&entry);
         if(entry->sequence_number == msginfo->header.sequence_number)
         {
-          entry->response = msginfo;
-          msginfo = NULL; /*rtConnection_SendRequest thread will release it*/
-          rtSemaphore_Post(entry->sem);
+          if(!entry->response)
+          {
+            entry->response = msginfo;
+            msginfo = NULL; /*rtConnection_SendRequest thread will release it*/
+            rtSemaphore_Post(entry->sem);
+          }
           break;
         }
       }
-- 
2.43.0


From 57ec96612afba686ed915697b37072214ff1a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 28/99] fix: check the lengths of messages read by connections
 and direct listeners

---
 src/rtmessage/rtConnection.c | 12 ++++++++++--
 src/rtmessage/rtrouteBase.c  |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 9258051..5e0b176 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1523,8 +1523,11 @@ rtConnection_Read(rtConnection con, int32_t timeout)
     {
       itr = &con->recv_buffer[RTMESSAGEHEADER_HDR_LENGTH_OFFSET];
       rtEncoder_DecodeUInt16(&itr, &msginfo->header.header_length);
-      err = rtConnection_ReadUntil(con, con->recv_buffer + RTMESSAGEHEADER_PREAMBLE_LENGTH,
-          (msginfo->header.header_length-RTMESSAGEHEADER_PREAMBLE_LENGTH), timeout);
+      if(msginfo->header.header_length < RTMESSAGEHEADER_SIZE_WITHOUT_STRINGS || msginfo->header.header_length > RTMESSAGEHEADER_MAX_LENGTH)
+        err = RT_ERROR;
+      else
+        err = rtConnection_ReadUntil(con, con->recv_buffer + RTMESSAGEHEADER_PREAMBLE_LENGTH,
+            (msginfo->header.header_length-RTMESSAGEHEADER_PREAMBLE_LENGTH), timeout);
     }
     else
     {
@@ -1544,6 +1547,11 @@ rtConnection_Read(rtConnection con, int32_t timeout)
     // TODO: need to check for secure message here and decrypt
     // the msginfo->data and capacity might need to adjusted
 
+    if (err == RT_OK && msginfo->header.payload_length > RTMESSAGEHEADER_MAX_PAYLOAD_LENGTH)
+    {
+      err = RT_ERROR;
+    }
+
     if (err == RT_OK)
     {
       if(msginfo->dataCapacity < msginfo->header.payload_length + 1)
diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 92930c8..69729a4 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -214,7 +214,11 @@ _rtdirect_OnMessage(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t con
     uint32_t route_id = 0;
     int32_t add_subscrption = 0;
 
-    rtMessage_FromBytes(&m, buff, n);
+    if(RT_OK != rtMessage_FromBytes(&m, buff, n))
+    {
+      rtLog_Warn("Bad Subscribe message from %s", sender->ident);
+      return RT_ERROR;
+    }
     if((RT_OK == rtMessage_GetInt32(m, "add", &add_subscrption)) &&
        (RT_OK == rtMessage_GetString(m, "topic", &expression)) &&
        (RT_OK == rtMessage_GetInt32(m, "route_id", (int32_t *)&route_id)))
-- 
2.43.0


From 889f6fc531400d4463d67f46778134e49c39b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 29/99] fix: refuse integers outside the range of the type they
 are read as

---
 src/core/rbuscore_message.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/rbuscore_message.c b/src/core/rbuscore_message.c
index 898f3f6..9f4d5ce 100644
--- a/src/core/rbuscore_message.c
+++ b/src/core/rbuscore_message.c
@@ -222,9 +222,19 @@ rtError rbusMessage_SetInt32(rbusMessage message, int32_t value)
     VERIFY_PACK(int32);
 }
 
+static int is_integer_in_range(msgpack_object const* obj, int64_t min, int64_t max)
+{
+    if(MSGPACK_OBJECT_POSITIVE_INTEGER == obj->type)
+        return obj->via.u64 <= (uint64_t)max;
+    else
+        return obj->via.i64 >= min;
+}
+
 rtError rbusMessage_GetInt32(rbusMessage const message, int32_t* value)
 {
     VERIFY_UNPACK2(MSGPACK_OBJECT_POSITIVE_INTEGER, MSGPACK_OBJECT_NEGATIVE_INTEGER);
+    if(!is_integer_in_range(&message->upk.data, INT32_MIN, INT32_MAX))
+        return RT_FAIL;
     *value = (int32_t)message->upk.data.via.i64;
     return RT_OK;
 }
@@ -232,6 +242,9 @@ rtError rbusMessage_GetInt32(rbusMessage const message, int32_t* value)
 rtError rbusMessage_GetUInt32(rbusMessage const message, uint32_t* value)
 {
     VERIFY_UNPACK2(MSGPACK_OBJECT_POSITIVE_INTEGER, MSGPACK_OBJECT_NEGATIVE_INTEGER);
+    /*negative values are those of int32_t, as unsigned values are written with rbusMessage_SetInt32*/
+    if(!is_integer_in_range(&message->upk.data, INT32_MIN, UINT32_MAX))
+        return RT_FAIL;
     *value = (uint32_t)message->upk.data.via.i64;
     return RT_OK;
 }
-- 
2.43.0


From c7ae23ead317c91203ce05c2ef1692c4a917dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 30/99] fix: terminate the debug text of a message without
 content

---
 src/core/rbuscore_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/rbuscore_message.c b/src/core/rbuscore_message.c
index 9f4d5ce..32d7354 100644
--- a/src/core/rbuscore_message.c
+++ b/src/core/rbuscore_message.c
@@ -139,6 +139,7 @@ void rbusMessage_ToDebugString(rbusMessage const m, char** s, uint32_t* n)
     int size = ALLOC_INCREMENT;
     char * buffer = (char *)rt_malloc(size);
     *s = buffer;
+    buffer[0] = '\0';
 
     int saved_offset = m->read_offset;
     m->read_offset = 0;
-- 
2.43.0


From 474b4a351277f0f4b5bff9ffaf0f548b2c0c4f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 31/99] fix: accept a time out report without topics

---
 src/rtmessage/rtrouted.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 0f4a44a..1ae08b8 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -914,8 +914,8 @@ rtRouted_OnMessageTimeOut(rtConnectedClient* sender, rtMessageHeader* hdr, uint8
   rtMessage_GetInt32(m, "T5", (int32_t *)&header.T5);
   rtMessage_GetString(m, "topic", &topic);
   rtMessage_GetString(m, "reply_topic", &reply_topic);
-  snprintf(header.topic, sizeof(header.topic), "%s", topic);
-  snprintf(header.reply_topic, sizeof(header.reply_topic), "%s", reply_topic);
+  snprintf(header.topic, sizeof(header.topic), "%s", topic ? topic : "");
+  snprintf(header.reply_topic, sizeof(header.reply_topic), "%s", reply_topic ? reply_topic : "");
   rtLog_Info("Consumer exist but the request timed out");
   rtRouted_TransactionTimingDetails(header);
 
-- 
2.43.0


From 14827456669144fb644b485992fc679e1eda4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 32/99] fix: undo every parameter of a failed multi set and
 name the one that failed

---
 src/rbus/rbus.c | 199 +++++++++++++++++++++++++++++-------------------
 1 file changed, 121 insertions(+), 78 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index feb58ac..0fb2f7b 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1554,12 +1554,20 @@ exit_1:
     return RBUSCORE_SUCCESS;
 }
 
+static rbusProperty_t _find_property(rbusProperty_t list, char const* name)
+{
+    while(list && strcmp(rbusProperty_GetName(list), name) != 0)
+        list = rbusProperty_GetNext(list);
+    return list;
+}
+
 static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbusMessage *response)
 {
     rbusError_t rc = 0;
     rbusError_t err = 0;
     int sessionId = 0;
     int numVals = 0;
+    int numInit = 0;
     int loopCnt = 0;
     int rollBack = 0;
     char* pCompName = NULL;
@@ -1590,9 +1598,10 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
         pProperties = (rbusProperty_t*)rt_try_malloc(numVals*sizeof(rbusProperty_t));
         if(pProperties)
         {
-            for (loopCnt = 0; loopCnt < numVals; loopCnt++)
+            while (numInit < numVals && rc == RBUS_ERROR_SUCCESS)
             {
-                rc = rbusProperty_initFromMessage(&pProperties[loopCnt], request);
+                rc = rbusProperty_initFromMessage(&pProperties[numInit], request);
+                numInit++;
             }
             if(rc != RBUS_ERROR_SUCCESS)
                 goto exit;
@@ -1603,7 +1612,7 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
             * isCommit used to set only the last parameter in the list in order
             * to turn this into a bulk set operation: FIXME maybe we need a 'bulk' option
             */
-            if (strncasecmp("TRUE", pIsCommit, 4) == 0)
+            if (pIsCommit && strncasecmp("TRUE", pIsCommit, 4) == 0)
                 isCommit = true;
 
             for (loopCnt = 0; loopCnt < numVals; loopCnt++)
@@ -1616,14 +1625,21 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                     rbusProperty_t currentData = NULL;
                     if(el->cbTable.setHandler)
                     {
-                       if(rollBack == 1)
+                       /*a parameter that comes up again goes back to the value it had before its first set*/
+                       if(rollBack == 1 && !(cachedData && _find_property(cachedData, paramName)))
                        {
                            if(el->cbTable.getHandler)
                            {
                                 rbusProperty_Init(&currentData, paramName, NULL);
                                 ELM_PRIVATE_LOCK(el);
-                                rc = el->cbTable.getHandler(handle, currentData, &options);
+                                err = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
+                                if(err != RBUS_ERROR_SUCCESS || rbusProperty_GetValue(currentData) == NULL)
+                                {
+                                    RBUSLOG_INFO("No current value of %s", paramName);
+                                    rbusProperty_Release(currentData);
+                                    currentData = NULL;
+                                }
                            }
                            else
                                 RBUSLOG_INFO("%s is a write only parameter",paramName);
@@ -1638,25 +1654,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         {
                             RBUSLOG_WARN("Set Failed for %s; Component Owner returned Error", paramName);
                             pFailedElement = paramName;
-                            if(rollBack == 1)
-                            {
-                                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
-                                /*===========< Rollback old values >============*/
-                                rbusProperty_t prevProp = cachedData;
-                                while(prevProp)
-                                {
-                                    char const* prevParamName = rbusProperty_GetName(prevProp);
-                                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
-                                    ELM_PRIVATE_LOCK(el);
-                                    err = el->cbTable.setHandler(handle, prevProp, &opts);
-                                    ELM_PRIVATE_UNLOCK(el);
-                                    prevProp = rbusProperty_GetNext(prevProp);
-                                    if(err != RBUS_ERROR_SUCCESS)
-                                    {
-                                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
-                                    }
-                                }
-                            }
+                            if(currentData)
+                                rbusProperty_Release(currentData);
                             break;
                         }
                         else
@@ -1681,8 +1680,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         RBUSLOG_WARN("Set Failed for %s; No Handler found", paramName);
                         rc = RBUS_ERROR_NOT_WRITABLE;
                         pFailedElement = paramName;
-                        if(cachedData)
-                           rbusProperty_Release(cachedData);
                         break;
                     }
                 }
@@ -1694,6 +1691,29 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                     break;
                 }
             }
+            if(rc != RBUS_ERROR_SUCCESS && cachedData)
+            {
+                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
+                /*===========< Rollback old values >============*/
+                rbusProperty_t prevProp = cachedData;
+                while(prevProp)
+                {
+                    char const* prevParamName = rbusProperty_GetName(prevProp);
+                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
+                    err = RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
+                    if(el && el->cbTable.setHandler)
+                    {
+                        ELM_PRIVATE_LOCK(el);
+                        err = el->cbTable.setHandler(handle, prevProp, &opts);
+                        ELM_PRIVATE_UNLOCK(el);
+                    }
+                    prevProp = rbusProperty_GetNext(prevProp);
+                    if(err != RBUS_ERROR_SUCCESS)
+                    {
+                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
+                    }
+                }
+            }
         }
         else
         {
@@ -1715,14 +1735,16 @@ exit:
     if (rc == RBUS_ERROR_SUCCESS)
     {
         rbusPropertyList_appendToMessage(cachedData, *response);
-        rbusProperty_Release(cachedData);
     }
     else if(pFailedElement)
         rbusMessage_SetString(*response, pFailedElement);
 
+    if(cachedData)
+        rbusProperty_Release(cachedData);
+
     if(pProperties)
     {
-        for (loopCnt = 0; loopCnt < numVals; loopCnt++)
+        for (loopCnt = 0; loopCnt < numInit; loopCnt++)
         {
             rbusProperty_Release(pProperties[loopCnt]);
         }
@@ -4198,6 +4220,8 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
     uint32_t cachedNumProps = 0;
     rbusProperty_t cachedProperties = NULL;
     VERIFY_NULL(handle);
+    if(pFailedElement)
+        *pFailedElement = NULL;
     if(timeout == 0)
         timeout = rbusHandle_FetchSetMultiTimeout(handle);
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
@@ -4209,11 +4233,14 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
     {
         if (rbusProperty_Count(properties) == 1)
         {
-            return _setInternal(handle, rbusProperty_GetName(properties), rbusProperty_GetValue(properties), opts, timeout);
+            errorcode = _setInternal(handle, rbusProperty_GetName(properties), rbusProperty_GetValue(properties), opts, timeout);
+            if(errorcode != RBUS_ERROR_SUCCESS && pFailedElement)
+                *pFailedElement = strdup(rbusProperty_GetName(properties));
+            return errorcode;
         }
 
         char const** pParamNames;
-        int numComponents;
+        int numComponents = 0;
         char** componentNames = NULL;
         uint32_t i;
 
@@ -4232,6 +4259,8 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
             if (_is_wildcard_query(pParamNames[i-1]))
             {
                 RBUSLOG_WARN("This method does not support wildcard query [%s]", pParamNames[i-1]);
+                if(pFailedElement)
+                    *pFailedElement = strdup(pParamNames[i-1]);
                 free(pParamNames);
                 return RBUS_ERROR_INVALID_INPUT;
             }
@@ -4239,6 +4268,8 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
             if (RBUS_NONE == type)
             {
                 RBUSLOG_DEBUG("Invalid data type passed in one of the data type\n");
+                if(pFailedElement)
+                    *pFailedElement = strdup(pParamNames[i-1]);
                 free(pParamNames);
                 return errorcode;
             }
@@ -4269,11 +4300,15 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                 {
                     RBUSLOG_ERROR("Cannot find component for %s", rbusProperty_GetName(current));
                     errorcode = RBUS_ERROR_INVALID_INPUT;
+                    if(pFailedElement && !*pFailedElement)
+                        *pFailedElement = strdup(rbusProperty_GetName(current));
                 }
             }
 
             if(errorcode == RBUS_ERROR_INVALID_INPUT)
             {
+                for(i = 0; i < numProps; ++i)
+                    free(componentNames[i]);
                 free(componentNames);
                 free(pParamNames);
                 return RBUS_ERROR_INVALID_INPUT;
@@ -4341,14 +4376,16 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                     /* Set the Commit value; FIXME: Should we use string? */
                     rbusMessage_SetString(setRequest, (!opts || opts->commit) ? "TRUE" : "FALSE");
 
+                    char const* pErrorReason = firstParamName;
+                    setResponse = NULL;
                     if((err = rbus_invokeRemoteMethod(firstParamName, METHOD_SETPARAMETERVALUES, setRequest, timeout, &setResponse)) != RBUSCORE_SUCCESS)
                     {
                         RBUSLOG_ERROR("%s for %s failed with error: %s", __FUNCTION__, firstParamName, rbusCoreErrorToString(err));
                         errorcode = rbusCoreError_to_rbusError(err);
+                        setResponse = NULL;
                     }
                     else
                     {
-                        char const* pErrorReason = NULL;
                         rbusLegacyReturn_t legacyRetCode = RBUS_LEGACY_ERR_FAILURE;
                         int ret = -1;
                         rbusMessage_GetInt32(setResponse, &ret);
@@ -4357,76 +4394,82 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                         legacyRetCode = (rbusLegacyReturn_t) ret;
                         if((errorcode == RBUS_ERROR_SUCCESS) || (legacyRetCode == RBUS_LEGACY_ERR_SUCCESS))
                         {
+                            rbusProperty_t previous = NULL;
                             errorcode = RBUS_ERROR_SUCCESS;
                             RBUSLOG_DEBUG("Successfully Set the Value");
-                            rbusPropertyList_initFromMessage(&cachedProperties, setResponse);
-                            pFailedElement = NULL;
+                            rbusPropertyList_initFromMessage(&previous, setResponse);
+                            if(cachedProperties == NULL)
+                                cachedProperties = previous;
+                            else if(previous)
+                            {
+                                rbusProperty_Append(cachedProperties, previous);
+                                rbusProperty_Release(previous);
+                            }
                         }
                         else
                         {
-                            if(pFailedElement)
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                *pFailedElement = strdup((char*)pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value For %s", *pFailedElement);
-                            }
-                            else
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason);
-                            }
-                            if(rollBack)
-                            {
-                                char *pTempFailedElement = NULL;
-                                rbusSetOptions_t revertOpts;
-                                if ((opts) && (opts->sessionId != 0))
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId= opts->sessionId;
-                                }
-                                else
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId = 0;
-                                }
-                                cachedNumProps = 0;
-                                cachedNumProps = rbusProperty_Count(cachedProperties);
-                                rbusError_t result;
-                                result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
-                                if(result == RBUS_ERROR_SUCCESS)
-                                    RBUSLOG_DEBUG("Successfully reverted back the values");
-                                else if((result != RBUS_ERROR_SUCCESS) && (pTempFailedElement))
-                                {
-                                    RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
-                                    free(pTempFailedElement);
-                                }
-                            }
+                            rbusMessage_GetString(setResponse, &pErrorReason);
                             if(legacyRetCode > RBUS_LEGACY_ERR_SUCCESS)
                             {
                                 errorcode = CCSPError_to_rbusError(legacyRetCode);
                             }
-                            if (componentName)
-                                free(componentName);
-                            rbusMessage_Release(setResponse);
-                            break;
                         }
+                    }
 
-                        /* Release the reponse message */
-                        rbusMessage_Release(setResponse);
+                    if(errorcode != RBUS_ERROR_SUCCESS)
+                    {
+                        RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason);
+                        if(pFailedElement && pErrorReason)
+                            *pFailedElement = strdup(pErrorReason);
+                        if(rollBack && cachedProperties)
+                        {
+                            char *pTempFailedElement = NULL;
+                            rbusSetOptions_t revertOpts;
+                            revertOpts.commit = true;
+                            revertOpts.sessionId = opts ? opts->sessionId : 0;
+                            cachedNumProps = rbusProperty_Count(cachedProperties);
+                            rbusError_t result;
+                            result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
+                            if(result == RBUS_ERROR_SUCCESS)
+                                RBUSLOG_DEBUG("Successfully reverted back the values");
+                            else if((result != RBUS_ERROR_SUCCESS) && (pTempFailedElement))
+                            {
+                                RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
+                                free(pTempFailedElement);
+                            }
+                        }
                     }
-                    if (componentName)
-                        free(componentName);
+
+                    /* Release the reponse message */
+                    if(setResponse)
+                        rbusMessage_Release(setResponse);
+                    free(componentName);
+                    if(errorcode != RBUS_ERROR_SUCCESS)
+                        break;
                 }
                 else
                 {
                     break;
                 }
             }
+            for(i = 0; i < numProps; ++i)
+                free(componentNames[i]);
         }
         else
         {
             errorcode = RBUS_ERROR_DESTINATION_NOT_FOUND;
             RBUSLOG_ERROR("Discover component names failed with error %d and counts %d/%d", errorcode, numProps, numComponents);
+            /*name the first parameter nobody provides*/
+            for(i = 0; pFailedElement && !*pFailedElement && i < numProps; ++i)
+            {
+                int numFound = 0;
+                char** found = NULL;
+                if(rbus_discoverComponentName(handle, 1, &pParamNames[i], &numFound, &found) != RBUS_ERROR_SUCCESS || numFound == 0)
+                    *pFailedElement = strdup(pParamNames[i]);
+                for(int j = 0; j < numFound; j++)
+                    free(found[j]);
+                free(found);
+            }
             for(int i = 0; i < numComponents; i++)
             {
                 if(componentNames[i])
-- 
2.43.0


From 4f8cc59651e17734c27ccbf7d722869316460537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 33/99] fix: discover the owners of several names when one has
 none

---
 src/core/rbuscore.c      | 61 +++++++++++++++-------------------------
 src/rtmessage/rtrouted.c | 14 +++------
 2 files changed, 26 insertions(+), 49 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 29d87b5..b251e7b 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -2158,55 +2158,38 @@ rbusCoreError_t rbus_discoverElementsObjects(int numElements, const char** eleme
 
         if((RT_OK == rtMessage_GetInt32(msg, RTM_DISCOVERY_RESULT, &result)) && (RT_OK == result))
         {
-            int i;
+            int numComponents = 0;
+            const char* component = NULL;
 
-            for(i = 0; i < numElements && ret == RBUSCORE_SUCCESS; ++i)
+            if(rtMessage_GetInt32(msg, RTM_DISCOVERY_COUNT, &numComponents) != RT_OK)
             {
-                int numComponents = 0;
-                const char* component = NULL;
-
-                if(rtMessage_GetInt32(msg, RTM_DISCOVERY_COUNT, &numComponents) == RT_OK)
+                RBUSCORELOG_ERROR("rbus_discoverElementsObjects: failed at %s", elements[0]);
+                ret = RBUSCORE_ERROR_GENERAL;
+            }
+            else if(numComponents > 0)
+            {
+                array_ptr = (char **)rt_try_malloc(numComponents * sizeof(char *));
+                if (!array_ptr)
+                {
+                    RBUSCORELOG_ERROR("Memory allocation failure");
+                    ret = RBUSCORE_ERROR_GENERAL;
+                }
+                for (int j = 0; j < numComponents && ret == RBUSCORE_SUCCESS; j++)
                 {
-                    char **next = NULL;
-                    if(numComponents)
+                    if (RT_OK != rtMessage_GetStringItem(msg, RTM_DISCOVERY_ITEMS, j, &component))
                     {
-                        if(!array_ptr)
-                            next = (char **)rt_try_malloc(numComponents * sizeof(char *));
-                        else
-                            next = (char **)rt_try_realloc(array_ptr, (array_count + numComponents) * sizeof(char *));
-                        if (!next)
+                        RBUSCORELOG_ERROR("Read item failure");
+                        ret = RBUSCORE_ERROR_GENERAL;
+                    }
+                    else if(component[0]) /*rtrouted will put a 0 len string if no route found*/
+                    {
+                        if (NULL == (array_ptr[array_count++] = strndup(component, MAX_OBJECT_NAME_LENGTH)))
                         {
                             RBUSCORELOG_ERROR("Memory allocation failure");
                             ret = RBUSCORE_ERROR_GENERAL;
-                            break;
-                        }
-                        array_ptr = next;
-                        for (int j = 0; j < numComponents; j++)
-                        {
-                            if (RT_OK != rtMessage_GetStringItem(msg, RTM_DISCOVERY_ITEMS, array_count, &component))
-                            {
-                                RBUSCORELOG_ERROR("Read item failure");
-                                ret = RBUSCORE_ERROR_GENERAL;
-                                break;
-                            }
-                            if(component[0]) /*rtrouted will put a 0 len string if no route found*/
-                            {
-                                if (NULL == (array_ptr[array_count++] = strndup(component, MAX_OBJECT_NAME_LENGTH)))
-                                {
-                                    RBUSCORELOG_ERROR("Memory allocation failure");
-                                    ret = RBUSCORE_ERROR_GENERAL;
-                                    break;
-                                }
-                            }
                         }
                     }
                 }
-                else
-                {
-                    RBUSCORELOG_ERROR("rbus_discoverElementsObjects: failed at %s", elements[i]);
-                    ret = RBUSCORE_ERROR_GENERAL;
-                    break;
-                }
             }
         }
         else
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 1ae08b8..bcd5f15 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1114,6 +1114,7 @@ rtRouted_OnMessageDiscoverElementObjects(rtConnectedClient* sender, rtMessageHea
   if ((hdr->flags & rtMessageFlags_Request) && (RT_OK == rtMessage_Create(&response)))
   {
     int length = 0;
+    int32_t found = 0;
     if (RT_OK == rtMessage_GetInt32(msgIn, RTM_DISCOVERY_COUNT, &length) && (0 < length))
     {
       rtMessage_SetInt32(response, RTM_DISCOVERY_RESULT, RT_OK);
@@ -1123,14 +1124,9 @@ rtRouted_OnMessageDiscoverElementObjects(rtConnectedClient* sender, rtMessageHea
         {
           rtList routes;
           rtListItem item;
-          int set = 0;
           rtRoutingTree_GetTopicRoutes(gRoutingTree, expression, &routes);
           if(routes)
           {
-            size_t count;
-            rtList_GetSize(routes, &count);
-
-            rtMessage_SetInt32(response, RTM_DISCOVERY_COUNT, (int32_t)count);
             rtList_GetFront(routes, &item);
             while(item)
             {
@@ -1142,14 +1138,10 @@ rtRouted_OnMessageDiscoverElementObjects(rtConnectedClient* sender, rtMessageHea
               if(route)
               {
                 rtMessage_AddString(response, RTM_DISCOVERY_ITEMS, route->expression);
-                set = 1;
+                found++;
               }
             }
           }
-          if(!set)
-          {
-            rtMessage_SetInt32(response, RTM_DISCOVERY_COUNT, 0);
-          }
         }
         else
         {
@@ -1168,6 +1160,8 @@ rtRouted_OnMessageDiscoverElementObjects(rtConnectedClient* sender, rtMessageHea
           }
         }
       }
+      /* one count for the owners of all names; a name without owner contributes none */
+      rtMessage_SetInt32(response, RTM_DISCOVERY_COUNT, found);
     }
     else
     {
-- 
2.43.0


From 3218caddb9d68b1c225463badc21f23f7eb07423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 34/99] fix: get every match of a query, report errors of any
 batch

---
 src/rbus/rbus.c | 166 +++++++++++++++++++++++-------------------------
 1 file changed, 80 insertions(+), 86 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 0fb2f7b..597359c 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1768,30 +1768,25 @@ static char const* _convert_reg_name_to_instance_name(char const* registrationNa
     char const* preg = registrationName;
     char const* pinst= query;
 
-    while(*preg != 0 && *pinst != 0)
+    while(*preg != 0 && idx < RBUS_MAX_NAME_LENGTH - 1)
     {
-        while(*preg == *pinst)
+        if(*preg == *pinst)
         {
-            buffer[idx++] = *preg;
-            preg++;
+            buffer[idx++] = *preg++;
             pinst++;
         }
-        
-        if(*preg == '{')
+        else if(*preg == '{' && *pinst != 0)
         {
-            while(*pinst && *pinst != '.')
+            while(*pinst && *pinst != '.' && idx < RBUS_MAX_NAME_LENGTH - 1)
                 buffer[idx++] = *pinst++;
 
             while(*preg && *preg != '.')
                 preg++;
         }
-
-        if(*pinst == 0) /*end of partial path but continue to write out the full name of child*/
+        else /*end of partial path but continue to write out the full name of child*/
         {
-            while(*preg)
-            {
-                buffer[idx++] = *preg++;
-            }
+            pinst = "";
+            buffer[idx++] = *preg++;
         }
         /*
          *---------------------------------------------------------------------------------------------------
@@ -1947,6 +1942,7 @@ rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *par
 
     /* Update the Get Handler input options */
     rbusGetHandlerOptions_t options;
+    memset(&options, 0, sizeof(options));
     options.requestingComponent = pRequestingComp;
 
     /* Have the backup of given name */
@@ -2043,6 +2039,7 @@ static rbusError_t _get_single_dml_handler (rbusHandle_t handle, char const *par
     rbusError_t result = RBUS_ERROR_SUCCESS;
     /* Update the Get Handler input options */
     rbusGetHandlerOptions_t options;
+    memset(&options, 0, sizeof(options));
     options.requestingComponent = pRequestingComp;
 
     RBUSLOG_DEBUG("calling get single for [%s]", parameterName);
@@ -3611,8 +3608,7 @@ rbusError_t rbus_get(rbusHandle_t handle, char const* name, rbusValue_t* value)
         {
             errorcode = RBUS_ERROR_SUCCESS;
             RBUSLOG_DEBUG("Received valid response!");
-            rbusMessage_GetInt32(response, &valSize);
-            if(1/*valSize*/)
+            if(rbusMessage_GetInt32(response, &valSize) == RT_OK)
             {
                 char const *buff = NULL;
 
@@ -3620,7 +3616,15 @@ rbusError_t rbus_get(rbusHandle_t handle, char const* name, rbusValue_t* value)
                 rbusMessage_GetString(response, &buff);
                 if(buff && (strcmp(name, buff) == 0))
                 {
-                    rbusValue_initFromMessage(value, response);
+                    rbusValue_t received = NULL;
+                    if(rbusValue_initFromMessage(&received, response) == RBUS_ERROR_SUCCESS)
+                        *value = received;
+                    else
+                    {
+                        RBUSLOG_WARN("Bad value for [%s]", name);
+                        rbusValue_Release(received);
+                        errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                    }
                 }
                 else
                 {
@@ -3629,6 +3633,8 @@ rbusError_t rbus_get(rbusHandle_t handle, char const* name, rbusValue_t* value)
                     errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
                 }
             }
+            else
+                errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
         }
         else
         {
@@ -3663,30 +3669,36 @@ rbusError_t _getExt_response_parser(rbusMessage response, int *numValues, rbusPr
         errorcode = RBUS_ERROR_SUCCESS;
         RBUSLOG_DEBUG("Received valid response!");
         rbusMessage_GetInt32(response, &numOfVals);
-        *numValues = numOfVals;
         RBUSLOG_DEBUG("Number of return params = %d", numOfVals);
 
-        if(numOfVals)
+        rbusProperty_t first = NULL;
+        rbusProperty_t last = NULL;
+        for(i = 0; i < numOfVals; i++)
         {
-            rbusProperty_t last;
-            for(i = 0; i < numOfVals; i++)
+            rbusProperty_t tmpProperties = NULL;
+            errorcode = rbusProperty_initFromMessage(&tmpProperties, response);
+            if(last)
             {
-                /* For the first instance, lets use the given pointer */
-                if (0 == i)
-                {
-                    rbusProperty_initFromMessage(retProperties, response);
-                    last = *retProperties;
-                }
-                else
-                {
-                    rbusProperty_t tmpProperties;
-                    rbusProperty_initFromMessage(&tmpProperties, response);
-                    rbusProperty_SetNext(last, tmpProperties);
-                    rbusProperty_Release(tmpProperties);
-                    last = tmpProperties;
-                }
+                rbusProperty_SetNext(last, tmpProperties);
+                rbusProperty_Release(tmpProperties);
+            }
+            else
+                first = tmpProperties;
+            last = tmpProperties;
+            if(errorcode != RBUS_ERROR_SUCCESS)
+            {
+                RBUSLOG_ERROR("Received %d of %d params", i, numOfVals);
+                rbusProperty_Release(first);
+                first = NULL;
+                errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                break;
             }
         }
+        if(first)
+        {
+            *retProperties = first;
+            *numValues = numOfVals;
+        }
     }
     else
     {
@@ -3716,6 +3728,10 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
+    /* Initialize */
+    *retProperties = NULL;
+    *numValues = 0;
+
     if ((1 == paramCount))
     {
         if (!_is_wildcard_query(pParamNames[0]))
@@ -3723,10 +3739,6 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
             rbusProperty_t outputVals = NULL;
             rbusValue_t getVal = NULL;
 
-            /* Initialize */
-            *retProperties = NULL;
-            *numValues = 0;
-
             /*Do get the single param */
             errorcode = rbus_get(handle, pParamNames[0], &getVal);
             if(RBUS_ERROR_SUCCESS == errorcode)
@@ -3752,8 +3764,6 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
             if (RBUSCORE_SUCCESS == err)
             {
                 RBUSLOG_DEBUG("Query for expression %s was successful. See result below:", pParamNames[0]);
-                rbusProperty_t last = NULL;
-                *numValues = 0;
                 if (0 == numDestinations)
                 {
                     RBUSLOG_DEBUG("It is possibly a table entry from single component.");
@@ -3763,6 +3773,8 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                     for(i = 0; i < numDestinations; i++)
                     {
                         int tmpNumOfValues = 0;
+                        rbusProperty_t tmpProperties = NULL;
+                        rbusError_t tmpError;
                         rbusMessage request, response;
                         RBUSLOG_DEBUG("Destination %d is %s", i, destinations[i]);
 
@@ -3779,56 +3791,30 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                         if(err != RBUSCORE_SUCCESS)
                         {
                             RBUSLOG_ERROR("%s for %s failed with error: %s", __FUNCTION__, destinations[i], rbusCoreErrorToString(err));
-                            errorcode = rbusCoreError_to_rbusError(err);
+                            tmpError = rbusCoreError_to_rbusError(err);
                         }
-                        else
+                        else if((tmpError = _getExt_response_parser(response, &tmpNumOfValues, &tmpProperties)) != RBUS_ERROR_SUCCESS)
                         {
-                            if (0 == i)
+                            RBUSLOG_ERROR("error parsing response %d", tmpError);
+                        }
+                        else if(tmpProperties)
+                        {
+                            if(NULL != *retProperties)
                             {
-                                if((errorcode = _getExt_response_parser(response, &tmpNumOfValues, retProperties)) != RBUS_ERROR_SUCCESS)
-                                {
-                                    RBUSLOG_ERROR("error parsing response %d", errorcode);
-                                }
-                                else
-                                {
-                                    if(tmpNumOfValues > 0)
-                                        last = *retProperties;
-                                }
+                                rbusProperty_Append(*retProperties, tmpProperties);
+                                rbusProperty_Release(tmpProperties);
                             }
                             else
                             {
-                                rbusProperty_t tmpProperties = NULL;
-
-                                if((errorcode = _getExt_response_parser(response, &tmpNumOfValues, &tmpProperties)) != RBUS_ERROR_SUCCESS)
-                                {
-                                    RBUSLOG_ERROR("error parsing response %d", errorcode);
-                                }
-                                else
-                                {
-                                    if(tmpNumOfValues > 0 && tmpProperties)
-                                    {
-                                        if(NULL != last)
-                                        {
-                                            rbusProperty_Append(last, tmpProperties);
-                                        }
-                                        else
-                                        {
-                                            last = tmpProperties;
-                                            *retProperties = last;
-                                        }
-                                    }
-                                }
-                                rbusProperty_Release(tmpProperties);
+                                *retProperties = tmpProperties;
                             }
+                            *numValues += tmpNumOfValues;
                         }
-                        if (errorcode != RBUS_ERROR_SUCCESS)
+                        if (tmpError != RBUS_ERROR_SUCCESS)
                         {
                             RBUSLOG_WARN("Failed to get the data from %s Component", destinations[i]);
-                            break;
-                        }
-                        else
-                        {
-                            *numValues += tmpNumOfValues;
+                            if (errorcode == RBUS_ERROR_SUCCESS)
+                                errorcode = tmpError;
                         }
                     }
 
@@ -3856,7 +3842,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
 
     {
         rbusMessage request, response;
-        int numComponents;
+        int numComponents = 0;
         char** componentNames = NULL;
 
         /*discover which components have some ownership of the params in the list*/
@@ -3881,13 +3867,12 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
 
             if(errorcode == RBUS_ERROR_INVALID_INPUT)
             {
+                for(i = 0; i < numComponents; ++i)
+                    free(componentNames[i]);
                 free(componentNames);
                 return RBUS_ERROR_INVALID_INPUT;
             }
 
-            *retProperties = NULL;/*NULL to mark first batch*/
-            *numValues = 0;
-
             /*batch by component*/
             for(;;)
             {
@@ -3916,7 +3901,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                 if(componentName)
                 {
                     rbusMessage_Init(&request);
-                    rbusMessage_SetString(request, componentName);
+                    rbusMessage_SetString(request, handleInfo->componentName);
                     rbusMessage_SetInt32(request, batchCount);
 
                     RBUSLOG_DEBUG("batchCount %d", batchCount);
@@ -3950,6 +3935,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                         if((errorcode = _getExt_response_parser(response, &batchNumVals, &batchResult)) != RBUS_ERROR_SUCCESS)
                         {
                             RBUSLOG_ERROR("error parsing response %d", errorcode);
+                            break;
                         }
                         else
                         {
@@ -3958,7 +3944,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                             {
                                 *retProperties = batchResult;
                             }
-                            else /*append subsequent batches*/
+                            else if(batchResult) /*append subsequent batches*/
                             {
                                 rbusProperty_Append(*retProperties, batchResult);
                                 rbusProperty_Release(batchResult);
@@ -3978,8 +3964,16 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
             errorcode = RBUS_ERROR_DESTINATION_NOT_FOUND;
             RBUSLOG_ERROR("Discover component names failed with error %d and counts %d/%d", errorcode, paramCount, numComponents);
         }
+        for(i = 0; i < numComponents; ++i)
+            free(componentNames[i]);
         if(componentNames)
             free(componentNames);
+        if(errorcode != RBUS_ERROR_SUCCESS && *retProperties != NULL)
+        {
+            rbusProperty_Release(*retProperties);
+            *retProperties = NULL;
+            *numValues = 0;
+        }
     }
     return errorcode;
 }
-- 
2.43.0


From b007246775606b275922334a2a8c338c03eb2519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 35/99] fix: answer a wildcard get from the rows that have the
 element

---
 src/rbus/rbus.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 597359c..21b3fef 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1939,6 +1939,8 @@ rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *par
     char instanceName[RBUS_MAX_NAME_LENGTH];
     char wildcardName[RBUS_MAX_NAME_LENGTH];
     char* tmpPtr = NULL;
+    bool missing = false;
+    int countBefore = *pCount;
 
     /* Update the Get Handler input options */
     rbusGetHandlerOptions_t options;
@@ -1983,7 +1985,13 @@ rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *par
             {
                 snprintf (wildcardName, RBUS_MAX_NAME_LENGTH, "%s%s%s", instanceName, child->name, tmpPtr);
                 result = get_recursive_wildcard_handler(handle, wildcardName, pRequestingComp, properties, pCount);
-                if (result != RBUS_ERROR_SUCCESS)
+                if (result == RBUS_ERROR_ELEMENT_DOES_NOT_EXIST)
+                {
+                    /*not in this row, but maybe in another one*/
+                    missing = true;
+                    result = RBUS_ERROR_SUCCESS;
+                }
+                else if (result != RBUS_ERROR_SUCCESS)
                 {
                     RBUSLOG_WARN("Something went wrong while retriving the datamodel value...");
                     break;
@@ -1991,6 +1999,8 @@ rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *par
             }
             child = child->nextSibling;
         }
+        if (result == RBUS_ERROR_SUCCESS && missing && *pCount == countBefore)
+            result = RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
     else if (instanceName[length] == '.')
     {
-- 
2.43.0


From 07de4ed25d2f70b67c13965a1c5d87e47f3efebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 36/99] fix: keep the row template of a table that is
 registered after its elements or again

---
 src/rbus/rbus_element.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 60cb5f1..989b271 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -357,12 +357,20 @@ elementNode* insertElement(elementNode* root, rbusDataElement_t* elem)
          */
         if(elem->type == RBUS_ELEMENT_TYPE_TABLE)
         {
-            elementNode* rowTemplate = getEmptyElementNode();
-            rowTemplate->parent = currentNode;
-            rowTemplate->name = strdup("{i}");
-            snprintf(buff, RBUS_MAX_NAME_LENGTH, "%s.%s", currentNode->fullName, rowTemplate->name);
-            rowTemplate->fullName = strdup(buff);
-            currentNode->child = rowTemplate;
+            elementNode* rowTemplate = currentNode->child;
+            /*it's there already if an element below it or the table itself has been registered before*/
+            while(rowTemplate && strcmp(rowTemplate->name, "{i}") != 0)
+                rowTemplate = rowTemplate->nextSibling;
+            if(!rowTemplate)
+            {
+                rowTemplate = getEmptyElementNode();
+                rowTemplate->parent = currentNode;
+                rowTemplate->name = strdup("{i}");
+                snprintf(buff, RBUS_MAX_NAME_LENGTH, "%s.%s", currentNode->fullName, rowTemplate->name);
+                rowTemplate->fullName = strdup(buff);
+                rowTemplate->nextSibling = currentNode->child;
+                currentNode->child = rowTemplate;
+            }
             currentNode->cbTable.tableSyncHandler = elem->cbTable.methodHandler;
         }
         else
-- 
2.43.0


From d0716345f86cd1c62d0782a6d2f31ceb8834d5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 37/99] fix: revert a set only to values the parameter had

---
 src/rbus/rbus.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 21b3fef..7192817 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1634,7 +1634,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 err = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
-                                if(err != RBUS_ERROR_SUCCESS || rbusProperty_GetValue(currentData) == NULL)
+                                if(err != RBUS_ERROR_SUCCESS || rbusProperty_GetValue(currentData) == NULL ||
+                                   rbusValue_GetType(rbusProperty_GetValue(currentData)) == RBUS_NONE)
                                 {
                                     RBUSLOG_INFO("No current value of %s", paramName);
                                     rbusProperty_Release(currentData);
-- 
2.43.0


From 99216773999088cdd2f3ab60730e1a7f7fd9658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 38/99] fix: serialise the asynchronous subscriptions with
 unsubscribe and close

---
 src/rbus/rbus.c                |  8 ++-
 src/rbus/rbus_asyncsubscribe.c | 94 +++++++++++++++++++++++++++-------
 src/rbus/rbus_asyncsubscribe.h |  2 +-
 3 files changed, 83 insertions(+), 21 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 7192817..37aa104 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1424,11 +1424,11 @@ void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscriptio
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    subscription->asyncHandler(subscription->handle, subscription, error);
     if(subscription)
     {
         if(error == RBUS_ERROR_SUCCESS)
         {
+            /*events are delivered from before the subscriber is told that it has subscribed*/
             HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
             rbusEventSubscriptionInternal_t* subInternal = NULL;
             if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
@@ -1442,10 +1442,12 @@ void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscriptio
             subInternal->subscriptionId = subscriptionId;
             subInternal->rawData = false;
             rtVector_PushBack(handleInfo->eventSubs, subInternal);
+            subscription->asyncHandler(subscription->handle, subscription, error);
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         }
         else
         {
+            subscription->asyncHandler(subscription->handle, subscription, error);
             rbusEventSubscription_free(subscription);
         }
     }
@@ -5163,7 +5165,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
         }
     }
-    else if (rbusAsyncSubscribe_GetSubscription(handle, eventName, filter))
+    else if (rbusAsyncSubscribe_GetSubscription(handle, eventName, filter, interval, duration))
     {
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
@@ -5842,6 +5844,8 @@ rbusError_t _rbus_AsyncSubscribe_remove_subscription(
     sub.handle = handle;
     sub.eventName = subscription->eventName;
     sub.filter = subscription->filter;
+    sub.interval = subscription->interval;
+    sub.duration = subscription->duration;
 
     sub_removed = rbusAsyncSubscribe_RemoveSubscription(&sub);
     if(sub_removed)
diff --git a/src/rbus/rbus_asyncsubscribe.c b/src/rbus/rbus_asyncsubscribe.c
index 48d0b75..1068857 100644
--- a/src/rbus/rbus_asyncsubscribe.c
+++ b/src/rbus/rbus_asyncsubscribe.c
@@ -50,6 +50,7 @@ typedef struct AsyncSubscribeRetrier_t
 {
     rtList items;
     pthread_cond_t condItemAdded;
+    pthread_cond_t condItemSent;
     pthread_mutex_t mutexQueue;
     int isRunning;
     pthread_t threadId;
@@ -57,11 +58,14 @@ typedef struct AsyncSubscribeRetrier_t
 
 typedef struct AsyncSubscription_t
 {
+    rbusHandle_t handle;
     rbusEventSubscription_t* subscription;
     rbusMessage payload;
     int nextWaitTime;
     rtTime_t startTime;
     rtTime_t nextRetryTime;
+    bool sending;   /*its request is being sent, only the sender may remove it*/
+    bool cancelled; /*unsubscribed or closed while its request was being sent*/
 } AsyncSubscription_t;
 
 static AsyncSubscribeRetrier_t* gRetrier = NULL;
@@ -82,7 +86,7 @@ static int rbusAsyncSubscribeRetrier_CompareHandle(const void *pitem, const void
     AsyncSubscription_t* item = (AsyncSubscription_t*)pitem;
     if((!item)||(!phandle))
         return 1;
-    if(item->subscription->handle == phandle)
+    if(item->handle == phandle)
         return 0;
     else
         return 1;
@@ -96,7 +100,10 @@ static int rbusAsyncSubscribeRetrier_CompareSubscription(const void *pitem, cons
         return 1;
 
     if (item->subscription && (item->subscription->handle == sub->handle) &&
+        !item->cancelled &&
         strcmp(item->subscription->eventName, sub->eventName) == 0 && 
+        item->subscription->interval == sub->interval &&
+        item->subscription->duration == sub->duration &&
         rbusFilter_Compare(item->subscription->filter, sub->filter) == 0)
         return 0;
     else
@@ -155,6 +162,7 @@ static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTim
     return 0;//meaning there's nothing past due currently
 }
 
+/*called with the list locked, which is unlocked while a request is sent or a subscriber is called*/
 static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
 {
     rtListItem li;
@@ -176,21 +184,24 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
         {
             rbusCoreError_t coreerr;
             uint32_t elapsed;
-            int providerError;
+            int providerError = RBUS_ERROR_SUCCESS;
             rbusMessage response = NULL;
             uint32_t subscriptionId = 0;
 
 
             RBUSLOG_INFO("%s subscribing", item->subscription->eventName);
 
+            item->sending = true;
+            UNLOCK();
             coreerr = rbus_subscribeToEventTimeout(NULL, item->subscription->eventName,
                         _event_callback_handler, item->payload, item->subscription, &providerError, 0, false, &response, false);
+            LOCK();
 
             rtTime_Now(&now);
 
             elapsed = rtTime_Elapsed(&item->startTime, &now);
 
-            if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
+            if(!item->cancelled && coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
              elapsed < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))    /*if we haven't timeout out yet*/
             {
                 if(item->nextWaitTime == 0)
@@ -218,6 +229,7 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
                     item->subscription->eventName, 
                     rtTime_Elapsed(&now, &item->nextRetryTime), 
                     rbusHandle_FetchSubscribeTimeout(item->subscription->handle)- elapsed );
+                item->sending = false;
             }
             else
             {
@@ -256,13 +268,24 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
                         rbusMessage_Release(response);
                 }
 
-                _subscribe_async_callback_handler(item->subscription->handle, item->subscription, responseErr, subscriptionId);
+                if(!item->cancelled)
+                {
+                    rbusEventSubscription_t* subscription = item->subscription;
+                    item->subscription = NULL; /*it goes to the handle's subscriptions*/
+                    UNLOCK();
+                    _subscribe_async_callback_handler(subscription->handle, subscription, responseErr, subscriptionId);
+                    LOCK();
+                }
+                else if(responseErr == RBUS_ERROR_SUCCESS)
+                {
+                    UNLOCK();
+                    rbus_unsubscribeFromEvent(NULL, item->subscription->eventName, item->payload, false);
+                    LOCK();
+                }
                 //store the next item, because we are removing this li item from list
-                LOCK();
-                item->subscription = NULL;
                 rtListItem_GetNext(li, &tmp); 
                 rtList_RemoveItem(gRetrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
-                UNLOCK();
+                pthread_cond_broadcast(&gRetrier->condItemSent);
                 li = tmp;
                 continue;//li is already the next item so avoid GetNext below
             }
@@ -282,9 +305,7 @@ static void* AsyncSubscribeRetrier_threadFunc(void* data)
 
         while(rbusAsyncSubscribeRetrier_DetermineNextSendTime(&nextSendTime))
         {
-            UNLOCK();
             rbusAsyncSubscribeRetrier_SendSubscriptionRequests();
-            LOCK();
         }
 
         if(gRetrier->isRunning)
@@ -332,6 +353,7 @@ static void rbusAsyncSubscribeRetrier_Create()
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
     ERROR_CHECK(pthread_cond_init(&gRetrier->condItemAdded, &cattrib));
+    ERROR_CHECK(pthread_cond_init(&gRetrier->condItemSent, &cattrib));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
 
     ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, NULL));
@@ -353,6 +375,7 @@ static void rbusAsyncSubscribeRetrier_Destroy()
 
     ERROR_CHECK(pthread_mutex_destroy(&gRetrier->mutexQueue));
     ERROR_CHECK(pthread_cond_destroy(&gRetrier->condItemAdded));
+    ERROR_CHECK(pthread_cond_destroy(&gRetrier->condItemSent));
     rtList_Destroy(gRetrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
 
     free(gRetrier);
@@ -376,9 +399,12 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
 
     rbusMessage_Retain(payload);
 
+    item->handle = subscription->handle;
     item->subscription = subscription;
     item->payload = payload;
     item->nextWaitTime = 0;
+    item->sending = false;
+    item->cancelled = false;
 
     rtTime_Now(&item->startTime);
     item->nextRetryTime = item->startTime; /*set to now also so we do our first sub immediately*/
@@ -396,20 +422,32 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
 
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription)
 {
-    rtError err = RT_OK;
+    rtListItem li;
     bool sub_removed = false;
     if(!gRetrier || subscription == NULL)
         return false;
     LOCK();
-    err = rtList_RemoveItemByCompare(gRetrier->items, subscription,
-        rbusAsyncSubscribeRetrier_CompareSubscription, rbusAsyncSubscribeRetrier_FreeSubscription);
-    if(err == RT_OK)
-        sub_removed = true;
+    for(rtList_GetFront(gRetrier->items, &li); li && !sub_removed; )
+    {
+        AsyncSubscription_t* item;
+        rtListItem next;
+        rtListItem_GetData(li, (void**)&item);
+        rtListItem_GetNext(li, &next);
+        if(rbusAsyncSubscribeRetrier_CompareSubscription(item, subscription) == 0)
+        {
+            sub_removed = true;
+            if(item->sending)
+                item->cancelled = true;
+            else
+                rtList_RemoveItem(gRetrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
+        }
+        li = next;
+    }
     UNLOCK();
     return sub_removed;
 }
 
-bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter)
+bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter, uint32_t interval, uint32_t duration)
 {
     rbusEventSubscription_t sub = {0};
     bool sub_exist = false;
@@ -419,6 +457,8 @@ bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventNa
     sub.handle = handle;
     sub.eventName = eventName;
     sub.filter = filter;
+    sub.interval = interval;
+    sub.duration = duration;
     LOCK();
     if(rtList_Find(gRetrier->items, &sub, rbusAsyncSubscribeRetrier_CompareSubscription) != NULL)
     {
@@ -445,9 +485,27 @@ void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle)
 
     rtList_GetSize(gRetrier->items, &size1);
 
-    //remove all items with this handle
-    rtList_RemoveItemByCompare(gRetrier->items, handle, 
-                             rbusAsyncSubscribeRetrier_CompareHandle, rbusAsyncSubscribeRetrier_FreeSubscription);
+    //remove all items with this handle, waiting for the one whose request is being sent
+    for(;;)
+    {
+        rtListItem li, next;
+        bool sending = false;
+        for(rtList_GetFront(gRetrier->items, &li); li; li = next)
+        {
+            AsyncSubscription_t* item;
+            rtListItem_GetData(li, (void**)&item);
+            rtListItem_GetNext(li, &next);
+            if(rbusAsyncSubscribeRetrier_CompareHandle(item, handle) != 0)
+                continue;
+            if(item->sending)
+                item->cancelled = sending = true;
+            else
+                rtList_RemoveItem(gRetrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
+        }
+        if(!sending)
+            break;
+        ERROR_CHECK(pthread_cond_wait(&gRetrier->condItemSent, &gRetrier->mutexQueue));
+    }
 
     //if list is empty, we can destruct
     rtList_GetSize(gRetrier->items, &size);
diff --git a/src/rbus/rbus_asyncsubscribe.h b/src/rbus/rbus_asyncsubscribe.h
index 4df56a2..04474be 100644
--- a/src/rbus/rbus_asyncsubscribe.h
+++ b/src/rbus/rbus_asyncsubscribe.h
@@ -27,7 +27,7 @@ extern "C" {
 #endif
 void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload);
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription);
-bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter);
+bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter, uint32_t interval, uint32_t duration);
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle);
 
 #ifdef __cplusplus
-- 
2.43.0


From b0671ab8e04fb70ba9a15bdd683636192590ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 39/99] fix: tell only subscribers with a filter that it
 matches

---
 src/rbus/rbus.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 37aa104..6511f2a 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5988,12 +5988,12 @@ rbusError_t  rbusEvent_PublishRawData(
         return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
 
+    HANDLE_SUBS_MUTEX_LOCK(handle);
     if(!el->subscriptions)/*nobody subscribed yet*/
     {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
         return RBUS_ERROR_NOSUBSCRIBERS;
     }
-
-    HANDLE_SUBS_MUTEX_LOCK(handle);
     rtList_GetFront(el->subscriptions, &listItem);
     while(listItem)
     {
@@ -6046,11 +6046,6 @@ rbusError_t  rbusEvent_Publish(
         return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
 
-    if(!el->subscriptions)/*nobody subscribed yet*/
-    {
-        return RBUS_ERROR_NOSUBSCRIBERS;
-    }
-
     if(eventData->type == RBUS_EVENT_VALUE_CHANGED)
     {
         if(eventData->data)
@@ -6067,10 +6062,17 @@ rbusError_t  rbusEvent_Publish(
 
     /*Loop through element's subscriptions*/
     HANDLE_SUBS_MUTEX_LOCK(handle);
+    if(!el->subscriptions)/*nobody subscribed yet*/
+    {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+        return RBUS_ERROR_NOSUBSCRIBERS;
+    }
     rtList_GetFront(el->subscriptions, &listItem);
     while(listItem)
     {
         bool publish = true;
+        rbusEvent_t event = *eventData;
+        rbusObject_t filteredData = NULL;
 
         rtListItem_GetData(listItem, (void**)&subscription);
         if(!subscription || !subscription->eventName || !subscription->listener)
@@ -6100,12 +6102,18 @@ rbusError_t  rbusEvent_Publish(
 
                 if(newResult != oldResult)
                 {
-                    /*set 'filter' to true/false implying that either the filter has started or stopped matching*/
+                    /*set 'filter' to true/false implying that either the filter has started or stopped matching.
+                      this is for this subscriber only, so it goes in a copy of the data*/
                     rbusValue_t filterResult = NULL;
+                    rbusProperty_t prop = rbusObject_GetProperties(eventData->data);
+                    rbusObject_Init(&filteredData, rbusObject_GetName(eventData->data));
+                    for(; prop; prop = rbusProperty_GetNext(prop))
+                        rbusObject_SetValue(filteredData, rbusProperty_GetName(prop), rbusProperty_GetValue(prop));
                     rbusValue_Init(&filterResult);
                     rbusValue_SetBoolean(filterResult, newResult != 0);
-                    rbusObject_SetValue(eventData->data, "filter", filterResult);
-                    rbusValue_Release(filterResult);                    
+                    rbusObject_SetValue(filteredData, "filter", filterResult);
+                    rbusValue_Release(filterResult);
+                    event.data = filteredData;
                 }
                 else
                 {
@@ -6139,6 +6147,8 @@ rbusError_t  rbusEvent_Publish(
                 RBUSLOG_ERROR("rbusEvent_Publish failed: rbus_publishSubscriberEvent return error %d", err);
             }
         }
+        if(filteredData)
+            rbusObject_Release(filteredData);
         rtListItem_GetNext(listItem, &listItem);
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
-- 
2.43.0


From 38a4accdd26b962ca163dbccab3105fe4b1810c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 40/99] fix: publish value changes without the poll's lock and
 keep the poll thread until close

---
 src/rbus/rbus_valuechange.c | 112 +++++++++++++++++++++++++-----------
 1 file changed, 78 insertions(+), 34 deletions(-)

diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index db975b2..70b0f0e 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -61,6 +61,7 @@
 typedef struct ValueChangeDetector_t
 {
     int              running;
+    int              publishing; //the thread is publishing, with the mutex unlocked
     rtVector         params;
     pthread_mutex_t  mutex;
     pthread_t        thread;
@@ -89,6 +90,7 @@ static void rbusValueChange_Init()
     gVC = rt_malloc(sizeof(struct ValueChangeDetector_t));
 
     gVC->running = 0;
+    gVC->publishing = 0;
     gVC->params = NULL;
 
     rtVector_Create(&gVC->params);
@@ -124,6 +126,40 @@ static ValueChangeRecord* vcParams_Find(const elementNode* paramNode)
     return NULL;
 }
 
+typedef struct ValueChangeEvent
+{
+    rbusHandle_t handle;
+    char* name;
+    rbusObject_t data;
+} ValueChangeEvent;
+
+/*Publish the value changes found by a poll and free them.
+  The mutex must not be held here: publishing needs the handle's subscriptions, and who changes those needs the mutex*/
+static void vcEvents_Publish(rtVector events)
+{
+    size_t i;
+    for(i=0; i < rtVector_Size(events); ++i)
+    {
+        ValueChangeEvent* ev = (ValueChangeEvent*)rtVector_At(events, i);
+        rbusEvent_t event = {0};
+        rbusError_t result;
+
+        event.name = ev->name;
+        event.data = ev->data;
+        event.type = RBUS_EVENT_VALUE_CHANGED;
+        result = rbusEvent_Publish(ev->handle, &event);
+        if(result != RBUS_ERROR_SUCCESS)
+        {
+            RBUSLOG_WARN("Event_Publish failed with result=%d", result);
+        }
+
+        rbusObject_Release(ev->data);
+        free(ev->name);
+        free(ev);
+    }
+    rtVector_Destroy(events, NULL);
+}
+
 static void* rbusValueChange_pollingThreadFunc(void *userData)
 {
     (void)(userData);
@@ -135,12 +171,16 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
         int err;
         rtTime_t timeout;
         rtTimespec_t ts;
+        rtVector events;
 
         rtTime_Later(NULL, RBUS_VALUECHANGE_PERIOD, &timeout);
         
-        err = pthread_cond_timedwait(&gVC->cond, 
-                                    &gVC->mutex, 
-                                    rtTime_ToTimespec(&timeout, &ts));
+        do
+        {
+            err = pthread_cond_timedwait(&gVC->cond, 
+                                        &gVC->mutex, 
+                                        rtTime_ToTimespec(&timeout, &ts));
+        } while(err == 0 && gVC->running);
 
         if(err != 0 && err != ETIMEDOUT)
         {
@@ -152,6 +192,8 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             break;
         }
 
+        rtVector_Create(&events);
+
         for(i=0; i < rtVector_Size(gVC->params); ++i)
         {
             rbusProperty_t property;
@@ -174,6 +216,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             if(result != RBUS_ERROR_SUCCESS)
             {
                 RBUSLOG_WARN("failed to get current value of %s", rbusProperty_GetName(property));
+                rbusProperty_Release(property);
                 continue;
             }
 
@@ -186,7 +229,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
 
             if(rbusValue_Compare(newVal, oldVal))
             {
-                rbusEvent_t event = {0};
+                ValueChangeEvent* event;
                 rbusObject_t data;
                 rbusValue_t byVal = NULL;
 
@@ -199,11 +242,12 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
                    If we don't have a changeComp or we do but the changeTime is older then the current polling period,
                    then we know it was the provider who updated the value we are now detecting.
                 */
+                ELM_PRIVATE_LOCK(rec->node);
                 if(rec->node->changeComp == NULL || 
                    (rtTime_Elapsed(&rec->node->changeTime, NULL) >= RBUS_VALUECHANGE_PERIOD &&
                    strcmp(rec->handle->componentName, rec->node->changeComp) == 0))
                 {
-                    printf("VC detected provider-side value-change oldcomp=%s elapsed=%d period=%d\n", rec->node->changeComp, rtTime_Elapsed(&rec->node->changeTime, NULL), RBUS_VALUECHANGE_PERIOD);
+                    printf("VC detected provider-side value-change oldcomp=%s elapsed=%d period=%d\n", rec->node->changeComp ? rec->node->changeComp : "", rtTime_Elapsed(&rec->node->changeTime, NULL), RBUS_VALUECHANGE_PERIOD);
                     setPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName);
                 }
 
@@ -213,20 +257,15 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
 
                 rbusValue_Init(&byVal);
                 rbusValue_SetString(byVal, rec->node->changeComp);
+                ELM_PRIVATE_UNLOCK(rec->node);
                 rbusObject_SetValue(data, "by", byVal);
                 rbusValue_Release(byVal);
 
-                event.name = rbusProperty_GetName(rec->property);
-                event.data = data;
-                event.type = RBUS_EVENT_VALUE_CHANGED;
-                result = rbusEvent_Publish(rec->handle, &event);
-
-                rbusObject_Release(data);
-
-                if(result != RBUS_ERROR_SUCCESS)
-                {
-                    RBUSLOG_WARN("Event_Publish failed with result=%d", result);
-                }
+                event = (ValueChangeEvent*)rt_malloc(sizeof(ValueChangeEvent));
+                event->handle = rec->handle;
+                event->name = strdup(rbusProperty_GetName(rec->property));
+                event->data = data;
+                rtVector_PushBack(events, event);
 
                 /*update the record's property with new value*/
                 rbusProperty_SetValue(rec->property, rbusProperty_GetValue(property));
@@ -238,6 +277,20 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
                 rbusProperty_Release(property);
             }
         }
+
+        if(rtVector_Size(events) > 0)
+        {
+            gVC->publishing = 1;
+            UNLOCK();
+            vcEvents_Publish(events);
+            LOCK();
+            gVC->publishing = 0;
+            ERROR_CHECK(pthread_cond_broadcast(&gVC->cond));
+        }
+        else
+        {
+            rtVector_Destroy(events, NULL);
+        }
     }
     UNLOCK();
     RBUSLOG_DEBUG("%s: stop", __FUNCTION__);
@@ -267,7 +320,6 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
         RBUSLOG_WARN("propNode type %d error", propNode->type);
         return;
     }
-    assert(propNode->cbTable.getHandler);
     if(!propNode->cbTable.getHandler)
     {
         RBUSLOG_WARN("propNode getHandler NULL error");
@@ -330,7 +382,6 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNode)
 {
     ValueChangeRecord* rec;
-    bool stopThread = false;
 
     (void)(handle);
     VERIFY_NULL(propNode);
@@ -345,28 +396,15 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
     rec = vcParams_Find(propNode);
     if(rec)
     {
+        /* if there's nothing left to poll the thread stays for the next one, until the handle is closed:
+           our caller may have the lock the thread waits for to publish, so we can't wait for it to end */
         rtVector_RemoveItem(gVC->params, rec, vcParams_Free);
-        /* if there's nothing left to poll then shutdown the polling thread */
-        if(gVC->running && rtVector_Size(gVC->params) == 0)
-        {
-            stopThread = true;
-            gVC->running = 0;
-        }
-        else 
-        {
-            stopThread = false;
-        }
     }
     else
     {
         RBUSLOG_WARN("value change param not found: %s", propNode->fullName);
     }
     UNLOCK();//############ UNLOCK ############
-    if(stopThread)
-    {
-        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
-        ERROR_CHECK(pthread_join(gVC->thread, NULL));
-    }
 }
 
 void rbusValueChange_CloseHandle(rbusHandle_t handle)
@@ -395,6 +433,12 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         }
     }
 
+    //the events being published may be of this handle
+    while(gVC->publishing)
+    {
+        ERROR_CHECK(pthread_cond_wait(&gVC->cond, &gVC->mutex));
+    }
+
     //clean up everything once all params are removed
     //but check the size to ensure we do not clean up if params for other rbus handles exist
     if(rtVector_Size(gVC->params) == 0)
@@ -403,7 +447,7 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         {
             gVC->running = 0;
             UNLOCK();//############ UNLOCK ############
-            ERROR_CHECK(pthread_cond_signal(&gVC->cond));
+            ERROR_CHECK(pthread_cond_broadcast(&gVC->cond));
             ERROR_CHECK(pthread_join(gVC->thread, NULL));
         }
         else
-- 
2.43.0


From 0b2a5fc1dd88232a94bd2bc955abdaac466c20aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 41/99] fix: end interval subscriptions without waiting for
 their thread under its locks

---
 src/rbus/rbus_intervalsubscription.c | 257 ++++++++++++++++-----------
 src/rbus/rbus_intervalsubscription.h |   1 +
 2 files changed, 153 insertions(+), 105 deletions(-)

diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index aa83fe2..6c09d5e 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -42,37 +42,56 @@
 }
 #define VERIFY_NULL(T)      if(NULL == T){ return; }
 
-rtVector gRecord = NULL;
+static rtVector gRecord = NULL; /*the records of active subscriptions*/
+static int gThreads = 0; /*the publishing threads which run or are about to end*/
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t gThreadEnded = PTHREAD_COND_INITIALIZER;
+
+/* A record belongs to its thread, which frees it when it ends. The subscription is only
+   there as long as the record is in gRecord, so the thread has its own copy of its fields. */
 typedef struct sRecord
 {
-    int running;
-    pthread_mutex_t  mutex;
-    pthread_t        thread;
+    int running;    /*protected by gMutex, as is the condition*/
     pthread_cond_t   cond;
     rbusHandle_t     handle;
-    elementNode const* node;
-    rbusProperty_t   property;
     rbusSubscription_t* sub;
+    char*            eventName;
+    char*            listener;
+    int32_t          componentId;
+    rbusFilter_t     filter;
+    int32_t          interval;
+    int32_t          duration;
+    bool             rawData;
+    uint32_t         subscriptionId;
 } sRecord;
 
 void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter, int32_t interval, int32_t duration, int32_t componentId, rbusMessage msg);
 extern rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *parameterName, const char* pRequestingComp, rbusProperty_t properties, int *pCount);
-static void init_thread(sRecord* sub_rec)
+
+static sRecord* sub_Create(rbusHandle_t handle, rbusSubscription_t* sub)
 {
-    pthread_mutexattr_t attrib;
     pthread_condattr_t cattrib;
+    sRecord* rec = (sRecord*)rt_calloc(1, sizeof(sRecord));
 
-    sub_rec->running = 0;
-
-    ERROR_CHECK(pthread_mutexattr_init(&attrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
-    ERROR_CHECK(pthread_mutex_init(&sub_rec->mutex, &attrib));
+    rec->running = 1;
+    rec->handle = handle;
+    rec->sub = sub;
+    rec->eventName = strdup(sub->eventName);
+    rec->listener = strdup(sub->listener);
+    rec->componentId = sub->componentId;
+    rec->filter = sub->filter;
+    if(rec->filter)
+        rbusFilter_Retain(rec->filter);
+    rec->interval = sub->interval;
+    rec->duration = sub->duration;
+    rec->rawData = sub->rawData;
+    rec->subscriptionId = sub->subscriptionId;
 
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
-    ERROR_CHECK(pthread_cond_init(&sub_rec->cond, &cattrib));
+    ERROR_CHECK(pthread_cond_init(&rec->cond, &cattrib));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
+    return rec;
 }
 
 static void sub_Free(void* p)
@@ -80,10 +99,11 @@ static void sub_Free(void* p)
     sRecord* rec = (sRecord*)p;
     if(rec)
     {
-        ERROR_CHECK(pthread_mutex_destroy(&rec->mutex));
         ERROR_CHECK(pthread_cond_destroy(&rec->cond));
-        rbusProperty_Release(rec->property);
-        rec->sub = NULL;
+        if(rec->filter)
+            rbusFilter_Release(rec->filter);
+        free(rec->eventName);
+        free(rec->listener);
         free(rec);
     }
 }
@@ -91,6 +111,8 @@ static void sub_Free(void* p)
 static sRecord* sub_find(rbusSubscription_t* sub)
 {
     size_t i;
+    if(!gRecord)
+        return NULL;
     for(i=0; i < rtVector_Size(gRecord); ++i)
     {
         sRecord* rec = (sRecord*)rtVector_At(gRecord, i);
@@ -101,44 +123,75 @@ static sRecord* sub_find(rbusSubscription_t* sub)
     return NULL;
 }
 
+/* Wait for the next interval, false if the subscription has ended */
+static bool wait_interval(sRecord* rec)
+{
+    bool running;
+    int err = 0;
+    rtTime_t timeout;
+    rtTimespec_t ts;
+
+    rtTime_Later(NULL, rec->interval < INT32_MAX/1000 ? rec->interval*1000 : INT32_MAX, &timeout);
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    while(rec->running && err != ETIMEDOUT)
+    {
+        err = pthread_cond_timedwait(&rec->cond, &gMutex, rtTime_ToTimespec(&timeout, &ts));
+        if(err != 0 && err != ETIMEDOUT)
+        {
+            RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
+            break;
+        }
+    }
+    running = rec->running;
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+    return running;
+}
+
+static bool is_running(sRecord* rec)
+{
+    bool running;
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    running = rec->running;
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+    return running;
+}
+
+/* End the subscription after its duration, false if it has been ended meanwhile */
+static bool end_subscription(sRecord* rec)
+{
+    bool running;
+    struct _rbusHandle* handleInfo = (struct _rbusHandle*)rec->handle;
+    HANDLE_SUBS_MUTEX_LOCK(handleInfo);
+    running = is_running(rec);
+    if(running)
+        rbusSubscriptions_removeSubscription(handleInfo->subscriptions, rec->sub);
+    HANDLE_SUBS_MUTEX_UNLOCK(handleInfo);
+    return running;
+}
+
 /* Publishing event based on subscriber interval */
-static void* PublishingThreadFunc(void* rec)
+static void* PublishingThreadFunc(void* arg)
 {
     RBUSLOG_DEBUG("\n PublishingThreadFunc: start\n");
-    struct sRecord *sub_rec = (struct sRecord*)rec;
+    sRecord* rec = (sRecord*)arg;
     int count = 0;
-    int duration_count = 0;
     bool duration_complete = false;
     rbusCoreError_t error;
-    rbusSubscription_t* sub = sub_rec->sub;
-    struct _rbusHandle* handleInfo = (struct _rbusHandle*)sub_rec->handle;
-    ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
-    while(sub_rec->running)
+    struct _rbusHandle* handleInfo = (struct _rbusHandle*)rec->handle;
+    while(!duration_complete && wait_interval(rec))
     {
-        int err;
         int actualCount = 0;
         int result = 0;
         char *tmpptr = NULL;
-        rtTime_t timeout;
-        rtTimespec_t ts;
-        rtTime_Later(NULL, (sub->interval*1000), &timeout);
-        err = pthread_cond_timedwait(&sub_rec->cond,
-                &sub_rec->mutex,
-                rtTime_ToTimespec(&timeout, &ts));
-
-        if(err != 0 && err != ETIMEDOUT)
-        {
-            RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
-        }
 
         rbusProperty_t properties = NULL;
         rbusObject_t data;
         rbusObject_Init(&data, NULL);
         rbusProperty_Init(&properties, "numberOfEntries", NULL);
-        result = get_recursive_wildcard_handler(handleInfo, sub->eventName,
+        result = get_recursive_wildcard_handler(handleInfo, rec->eventName,
                 "IntervalThread", properties, &actualCount);
         rbusProperty_SetInt32(properties, actualCount);
-        tmpptr = strchr(sub->eventName, '*');
+        tmpptr = strchr(rec->eventName, '*');
         if (tmpptr)
         {
             rbusObject_SetProperty(data, properties);
@@ -150,66 +203,57 @@ static void* PublishingThreadFunc(void* rec)
         rbusProperty_Release(properties);
         if(result != RBUS_ERROR_SUCCESS)
         {
-            RBUSLOG_ERROR("failed to get details of %s", sub->eventName);
+            RBUSLOG_ERROR("failed to get details of %s", rec->eventName);
             rbusObject_Release(data);
             continue;
         }
 
         rbusEvent_t event = {0};
-        event.name = sub->eventName;
+        event.name = rec->eventName;
         event.data = data;
         event.type = RBUS_EVENT_INTERVAL;
         /* Handling subscription with duration */
-        if (sub->duration != 0)
+        if (rec->duration != 0 && count >= rec->duration/rec->interval)
         {
-            duration_count = sub->duration/sub->interval;
-            if (count >= duration_count)
-            {
-                /* Update event type after duration timeout*/
-                event.type = RBUS_EVENT_DURATION_COMPLETE;
-                duration_complete = true;
-            }
+            /* Update event type after duration timeout*/
+            event.type = RBUS_EVENT_DURATION_COMPLETE;
+            duration_complete = true;
+        }
+
+        /* The subscription ends before its last event, so the consumer can subscribe again when it gets it */
+        if(duration_complete ? !end_subscription(rec) : !is_running(rec))
+        {
+            rbusObject_Release(data);
+            break;
         }
 
         rbusMessage msg;
         rbusMessage_Init(&msg);
-        rbusEventData_appendToMessage(&event, sub->filter, sub->interval, sub->duration, sub->componentId, msg);
+        rbusEventData_appendToMessage(&event, rec->filter, rec->interval, rec->duration, rec->componentId, msg);
 
-        RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s interval %d", sub->eventName, sub->listener, sub->interval);
+        RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s interval %d", rec->eventName, rec->listener, rec->interval);
         error = rbus_publishSubscriberEvent(
                 handleInfo->componentName,
-                sub->eventName/*use the same eventName the consumer subscribed with; not event instance name eventData->name*/,
-                sub->listener,
+                rec->eventName/*use the same eventName the consumer subscribed with; not event instance name eventData->name*/,
+                rec->listener,
                 msg,
-                sub->subscriptionId,
-                sub->rawData);
+                rec->subscriptionId,
+                rec->rawData);
 
         rbusMessage_Release(msg);
         rbusObject_Release(data);
         if(error != RBUSCORE_SUCCESS)
         {
-            RBUSLOG_ERROR("Event_Publish failed with result=%d", result);
-        }
-
-        if (duration_complete)
-        {
-            break;
+            RBUSLOG_ERROR("Event_Publish failed with result=%d", error);
         }
-        else
-        {
-            count++;
-        }
-    }
-    ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
-    if(duration_complete) {
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_subsMutex));
-        rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
-        ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
-        rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+        count++;
     }
     RBUSLOG_DEBUG("%s: stop\n", __FUNCTION__);
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    sub_Free(rec);
+    gThreads--;
+    ERROR_CHECK(pthread_cond_broadcast(&gThreadEnded));
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     return NULL;
 }
 
@@ -242,27 +286,31 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
     if (!gRecord)
         rtVector_Create(&gRecord);
 
-    sub_rec = sub_find(sub);
-    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
-    if(!sub_rec)
+    if(!sub_find(sub))
     {
-        sub_rec = (sRecord*)rt_malloc(sizeof(sRecord));
-        sub_rec->handle = handle;
-        sub_rec->node = propNode;
-        sub_rec->sub = sub;
-        rbusProperty_Init(&sub_rec->property, propNode->fullName, NULL);
-        init_thread(sub_rec);
+        pthread_t thread;
+        sub_rec = sub_Create(handle, sub);
 
         /* Thread create */
-        sub_rec->running = 1;
-        pthread_create(&sub_rec->thread, NULL, PublishingThreadFunc, (void *)sub_rec);
-
-        rtVector_PushBack(gRecord, sub_rec);
+        int err = pthread_create(&thread, NULL, PublishingThreadFunc, (void *)sub_rec);
+        if(err == 0)
+        {
+            pthread_detach(thread);
+            gThreads++;
+            rtVector_PushBack(gRecord, sub_rec);
+        }
+        else
+        {
+            RBUSLOG_ERROR("Error %d:%s running command pthread_create", err, strerror(err));
+            sub_Free(sub_rec);
+        }
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     return RBUS_ERROR_SUCCESS; 
 }
 
-/* Delete Subscription Record from global record and stop it's running thread */
+/* Delete Subscription Record from global record and stop it's running thread.
+   The thread may be in a handler of the provider, which may need locks our caller has, so it ends by itself. */
 void rbusInterval_RemoveSubscriptionRecord(
         rbusHandle_t handle,
         elementNode* propNode,
@@ -272,30 +320,29 @@ void rbusInterval_RemoveSubscriptionRecord(
     (void)(propNode);
     VERIFY_NULL(sub);
 
-    if (!gRecord)
-    {
-        return;
-    }
-
     sRecord* rec;
     ERROR_CHECK(pthread_mutex_lock(&gMutex));
     rec = sub_find(sub);
-    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
-
     if(rec)
     {
-        if(rec->running)
-        {
-            rec->running = 0;
-            ERROR_CHECK(pthread_cond_signal(&rec->cond));
-            ERROR_CHECK(pthread_join(rec->thread, NULL));
-        }
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        rtVector_RemoveItem(gRecord, rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+        rec->running = 0;
+        rec->sub = NULL;
+        rtVector_RemoveItem(gRecord, rec, NULL);
+        ERROR_CHECK(pthread_cond_signal(&rec->cond));
     }
-    else
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+}
+
+/* Wait until the threads of removed subscriptions have ended. Must be called without locks the provider's handlers may need */
+void rbusInterval_WaitForThreads()
+{
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    while(gThreads > (gRecord ? (int)rtVector_Size(gRecord) : 0))
+        ERROR_CHECK(pthread_cond_wait(&gThreadEnded, &gMutex));
+    if(gRecord && rtVector_Size(gRecord) == 0)
     {
-        RBUSLOG_ERROR("value not found\n");
+        rtVector_Destroy(gRecord, NULL);
+        gRecord = NULL;
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
 }
diff --git a/src/rbus/rbus_intervalsubscription.h b/src/rbus/rbus_intervalsubscription.h
index 26bd0b5..68d38a5 100644
--- a/src/rbus/rbus_intervalsubscription.h
+++ b/src/rbus/rbus_intervalsubscription.h
@@ -28,6 +28,7 @@ extern "C" {
 
 rbusError_t rbusInterval_AddSubscriptionRecord(rbusHandle_t handle, elementNode* propNode, rbusSubscription_t* sub);
 void rbusInterval_RemoveSubscriptionRecord(rbusHandle_t handle, elementNode* propNode, rbusSubscription_t* sub);
+void rbusInterval_WaitForThreads();
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From ff292ce5ae8aeec3d69b6dd397ae3ed46b1697be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 42/99] fix: bound the reading of the subscription cache, end
 only the subscriptions of removed rows

---
 src/rbus/rbus_subscriptions.c | 171 +++++++++++++++-------------------
 1 file changed, 76 insertions(+), 95 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 4b8a90f..f901a6d 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -18,6 +18,7 @@
 */
 
 #include "rbus_subscriptions.h"
+#include "rbus_intervalsubscription.h"
 #include "rbus_buffer.h"
 #include "rbus_handle.h"
 #include <rtMemory.h>
@@ -72,10 +73,13 @@ static int subscriptionKeyCompare(rbusSubscription_t* subscription, char const*
 static void subscriptionFree(void* p)
 {
     rbusSubscription_t* sub = p;
-    rtListItem item;
+    rtListItem item = NULL;
     VERIFY_NULL(sub);
 
-    rtList_GetFront(sub->instances, &item);
+    if(sub->interval)
+        rbusInterval_RemoveSubscriptionRecord(NULL, NULL, sub);
+    if(sub->instances)
+        rtList_GetFront(sub->instances, &item);
     while(item)
     {
         elementNode* node;
@@ -319,8 +323,6 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
             {
                 rtListItem item, tempitem;
                 rbusSubscription_t* sub;
-                bool val=false;
-                rbusSubscription_t* subscription = NULL;
 
                 rtList_GetFront(subscriptions->subList, &item);
 
@@ -329,6 +331,7 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                 {
                     rtListItem item2;
                     elementNode* inst;
+                    bool val=false;
 
                     rtListItem_GetNext(item, &tempitem);
                     rtListItem_GetData(item, (void**)&sub);
@@ -350,19 +353,11 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                         rtListItem_GetNext(item2, &item2);
                     }
 
-                    /* RDKB-38389 : Removing the instance of the row to be removed from the subscriptions->subList linked list */
-                    if(val)
+                    /* RDKB-38389 : Removing the instance of the row to be removed from the subscriptions->subList linked list.
+                       A wildcard subscription also covers the other rows and the rows still to come, so it stays. */
+                    if(val && strchr(sub->eventName, '*') == NULL)
                     {
-                        subscription = rbusSubscriptions_getSubscription(subscriptions, sub->listener, sub->eventName,
-                                sub->componentId, sub->filter, sub->interval, sub->duration, sub->rawData);
-                        if(!subscription)
-                        {
-                            RBUSLOG_INFO("unsubscribing from event which isn't currectly subscribed to event=%s listener=%s", sub->eventName, sub->listener);
-                        }
-                        else
-                        {
-                            rbusSubscriptions_removeSubscription(subscriptions, subscription);
-                        }
+                        rbusSubscriptions_removeSubscription(subscriptions, sub);
                     }
                     item = tempitem;
                 }
@@ -394,12 +389,8 @@ void rbusSubscriptions_onTableRowRemoved(rbusSubscriptions_t subscriptions, elem
 static pid_t rbusSubscriptions_getListenerPid(char const* listener)
 {
     pid_t pid;
-    const char* p = listener + strlen(listener) - 1;
-    while(*p != '.' && p != listener)
-    {
-        p--;
-    }
-    pid = atoi(p+1);
+    const char* p = strrchr(listener, '.');
+    pid = p ? atoi(p+1) : 0;
     if(pid == 0)
     {
         RBUSLOG_ERROR("pid not found in listener name %s", listener);
@@ -432,11 +423,43 @@ static bool rbusSubscriptions_isListenerRunning(char const* listener)
     return true;
 }
 
+/*reads a terminated name which lies within the buffer, NULL if there's none*/
+static char* readCachedString(rbusBuffer_t buff)
+{
+    uint16_t type, length;
+    char* str;
+
+    if(rbusBuffer_ReadUInt16(buff, &type) < 0) return NULL;
+    if(rbusBuffer_ReadUInt16(buff, &length) < 0) return NULL;
+    if(type != RBUS_STRING || length == 0 || length >= RBUS_MAX_NAME_LENGTH) return NULL;
+    if(length > buff->posWrite - buff->posRead) return NULL;
+    if(buff->data[buff->posRead + length - 1] != '\0') return NULL;
+
+    str = rt_try_calloc(1, length);
+    if(!str)
+    {
+        RBUSLOG_ERROR("failed to malloc %d bytes", length);
+        return NULL;
+    }
+    memcpy(str, buff->data + buff->posRead, length);
+    buff->posRead += length;
+    return str;
+}
+
+static bool readCachedInt32(rbusBuffer_t buff, int32_t* value)
+{
+    uint16_t type, length;
+
+    if(rbusBuffer_ReadUInt16(buff, &type) < 0) return false;
+    if(rbusBuffer_ReadUInt16(buff, &length) < 0) return false;
+    if(type != RBUS_INT32 || length != sizeof(int32_t)) return false;
+    return rbusBuffer_ReadInt32(buff, value) >= 0;
+}
+
 static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
 {
     struct stat st;
     long size;
-    uint16_t type, length;
     int32_t hasFilter;
     FILE* file = NULL;
     rbusBuffer_t buff = NULL;
@@ -471,7 +494,11 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
     }
 
     rbusBuffer_Create(&buff);
-    VERIFY_NULL(buff);
+    if(!buff)
+    {
+        fclose(file);
+        return;
+    }
     rbusBuffer_Reserve(buff, size);
 
     fseek(file, 0, SEEK_SET);
@@ -488,81 +515,28 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
 
     while(buff->posRead < buff->posWrite)
     {
+        int32_t autoPublish, subscriptionId, rawData;
+
         sub = (rbusSubscription_t*)rt_try_calloc(1, sizeof(struct _rbusSubscription));
         if(!sub)
         {
             RBUSLOG_ERROR("failed to malloc sub");
             goto remove_bad_file;
         }
-        //read listener
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
 
-        sub->listener = rt_calloc(1, length);
-        if(!sub->listener)
-        {
-            RBUSLOG_ERROR("failed to malloc %d bytes for listener", length);
-            goto remove_bad_file;
-        }
-        memcpy(sub->listener, buff->data + buff->posRead, length);
-        buff->posRead += length;
+        if((sub->listener = readCachedString(buff)) == NULL) goto remove_bad_file;
+        if((sub->eventName = readCachedString(buff)) == NULL) goto remove_bad_file;
+        if(!readCachedInt32(buff, &sub->componentId)) goto remove_bad_file;
+        if(!readCachedInt32(buff, &sub->interval)) goto remove_bad_file;
+        if(!readCachedInt32(buff, &sub->duration)) goto remove_bad_file;
+        if(!readCachedInt32(buff, &autoPublish)) goto remove_bad_file;
+        if(!readCachedInt32(buff, &subscriptionId)) goto remove_bad_file;
+        if(!readCachedInt32(buff, &rawData)) goto remove_bad_file;
+        if(!readCachedInt32(buff, &hasFilter)) goto remove_bad_file;
 
-        //read eventName
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
-
-        sub->eventName = rt_try_calloc(1, length);
-        if(!sub->eventName)
-        {
-            RBUSLOG_ERROR("failed to malloc %d bytes for eventName", length);
-            goto remove_bad_file;
-        }
-        memcpy(sub->eventName, buff->data + buff->posRead, length);
-        buff->posRead += length;
-
-        //read componentId
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->componentId) < 0) goto remove_bad_file;
-
-        //read interval
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->interval) < 0) goto remove_bad_file;
-
-        //read duration        
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->duration) < 0) goto remove_bad_file;
-
-        //read autoPublish
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->autoPublish) < 0) goto remove_bad_file;
-
-        //read subscriptionId
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->subscriptionId) < 0) goto remove_bad_file;
-
-        //read rawData
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->rawData) < 0) goto remove_bad_file;
-
-        //read hasFilter
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &hasFilter) < 0) goto remove_bad_file;
+        sub->autoPublish = autoPublish != 0;
+        sub->subscriptionId = (uint32_t)subscriptionId;
+        sub->rawData = rawData != 0;
 
         //read filter
         if(hasFilter)
@@ -583,6 +557,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         {
             RBUSLOG_INFO("process no longer running for listener %s", sub->listener);
             subscriptionFree(sub);
+            sub = NULL;
             needSave = true;
             continue;
         }
@@ -595,6 +570,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
             {
                 RBUSLOG_ERROR("file doesn't exist %s", filename);
                 subscriptionFree(sub);
+                sub = NULL;
                 needSave = true;
                 continue;
             }
@@ -604,6 +580,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         rtList_PushBack(subscriptions->subList, sub, NULL);
 
         RBUSLOG_INFO("loaded %s %s", sub->listener, sub->eventName);
+        sub = NULL; /*the list has it now*/
     }
 
     rbusBuffer_Destroy(buff);
@@ -808,7 +785,9 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
         {
             rtListItem next = NULL;
             rtListItem_GetNext(item, &next);
-            if(strncmp(sub->eventName, rowNode->fullName, strlen(rowNode->fullName)) == 0)
+            if(sub->element == NULL && sub->tokens == NULL &&/*not already subscribed*/
+               strncmp(sub->eventName, rowNode->fullName, strlen(rowNode->fullName)) == 0 &&
+               sub->eventName[strlen(rowNode->fullName)] == '.')
             {
                 el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
                 if(el)
@@ -849,13 +828,15 @@ void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscript
         {
             /* RDKB-38389 : Checking for elementnode existence for which the eventname is subscribed */
             el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
-            if(el)
+            if(el && sub->element)
             {
-                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, 0, 0, 0, 0, 0);
+                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId,
+                    sub->interval, sub->duration, sub->filter, sub->rawData, NULL);
             }
             else
             {
-                RBUSLOG_WARN("rbusSubscriptions_handleClientDisconnect: unexpected! element not found");
+                /*loaded from the cache and not taken up by an element yet*/
+                rbusSubscriptions_removeSubscription(subscriptions, sub);
             }
         }
     }
-- 
2.43.0


From 384d477887587869ee4d2c546c61a890e8b052a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 43/99] fix: keep the subscribe and unsubscribe paths' locks,
 results and memory in order

---
 src/rbus/rbus.c        | 114 +++++++++++++++++++++++++++++------------
 src/rbus/rbus_handle.c |   5 +-
 2 files changed, 83 insertions(+), 36 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 6511f2a..09425c4 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1156,8 +1156,35 @@ int subscribeHandlerImpl(
     if(!el)
         return -1;
 
+    if(interval < 0 || duration < 0)
+        return RBUS_ERROR_INVALID_INPUT;
+
     if(rawData)
+    {
+        if(added && el->type != RBUS_ELEMENT_TYPE_EVENT)
+        {
+            RBUSLOG_INFO("rawDataSubscription is only allowed for events");
+            return RBUS_ERROR_INVALID_INPUT;
+        }
         autoPublish = false;
+    }
+
+    /* the provider hears of a subscription once when it begins and once when it ends */
+    HANDLE_SUBS_MUTEX_LOCK(handle);
+    subscription = rbusSubscriptions_getSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, rawData);
+    if(added && subscription)
+    {
+        *subscriptionId = subscription->subscriptionId;
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+        return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
+    }
+    if(!added && !subscription)
+    {
+        RBUSLOG_ERROR("unsubscribing from event which isn't currectly subscribed to event=%s listener=%s", eventName, listener);
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+        return RBUS_ERROR_INVALID_INPUT; /*unsubscribing from event which isn't currectly subscribed to*/
+    }
+    HANDLE_SUBS_MUTEX_UNLOCK(handle);
 
     RBUSLOG_INFO("Consumer=%s %s to event=%s", listener, added ? "SUBSCRIBED" : "UNSUBSCRIBED", eventName);
 
@@ -1235,14 +1262,7 @@ int subscribeHandlerImpl(
 
     /* if autoPublish and its a property being subscribed to
        then update rbusValueChange to handle the property */
-    if(rawData && el->type != RBUS_ELEMENT_TYPE_EVENT)
     {
-        RBUSLOG_INFO("rawDataSubscription is only allowed for events");
-        HANDLE_SUBS_MUTEX_UNLOCK(handle);
-        return RBUS_ERROR_INVALID_INPUT;
-    }
-    else
-    { 
         if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
         {
             rtListItem item;
@@ -1652,6 +1672,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
 
                         ELM_PRIVATE_LOCK(el);
                         rc = el->cbTable.setHandler(handle, pProperties[loopCnt], &opts);
+                        if (rc == RBUS_ERROR_SUCCESS)
+                            setPropertyChangeComponent(el, pCompName);
                         ELM_PRIVATE_UNLOCK(el);
                         if (rc != RBUS_ERROR_SUCCESS)
                         {
@@ -1663,7 +1685,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         }
                         else
                         {
-                            setPropertyChangeComponent(el, pCompName);
                             /* ======== < Old values backup >============= */
                             if (currentData)
                             {
@@ -2741,7 +2762,6 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                 tmpptr= strchr(event_name, '*');
                 if(tmpptr)
                 {
-                    rbusProperty_t tmpProperties = NULL;
                     rbusProperty_Init(&tmpProperties, "numberOfEntries", NULL);
                     get_recursive_wildcard_handler(handleInfo, event_name,
                             "initialValue", tmpProperties, &actualCount);
@@ -2801,7 +2821,6 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                     else
                     {
                         err = RBUS_ERROR_INVALID_OPERATION;
-                        rbusMessage_SetInt32(*response, 0); /* No initial value returned, as get handler is not present */
                         RBUSLOG_WARN("Get handler does not exist %s", event_name);
                     }
                 }
@@ -2813,18 +2832,19 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                     rbusMessage_SetInt32(*response, 1); /* Based on this value initial value will be published to the consumer in
                                                            rbusEvent_SubscribeWithRetries() function call */
                     rbusEventData_appendToMessage(&event, filter, interval, duration, componentId, *response);
-                    rbusProperty_Release(tmpProperties);
                 }
+                else
+                {
+                    rbusMessage_SetInt32(*response, 0); /* No initial value returned, as there's no get handler or it failed */
+                }
+                if(tmpProperties)
+                    rbusProperty_Release(tmpProperties);
                 rbusObject_Release(data);
             }
+            if(filter)
+                rbusFilter_Release(filter);
             if(payload)
-            {
-                if(filter)
-                {
-                    rbusFilter_Release(filter);
-                }
                 rbusMessage_Release(payload);
-            }
             rbusMessage_SetInt32(*response, subscriptionId);
         }
     }
@@ -3113,7 +3133,8 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     rtVector_Create(&tmpHandle->eventSubs);
     rtVector_Create(&tmpHandle->messageCallbacks);
     ERROR_CHECK(pthread_mutexattr_init(&attrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
+    /*handlers are called with these locked and may subscribe, unsubscribe or publish in turn*/
+    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_RECURSIVE));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_eventSubsMutex, &attrib));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_subsMutex, &attrib));
 
@@ -3311,6 +3332,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
         HANDLE_SUBS_MUTEX_UNLOCK(handle);
         handleInfo->subscriptions = NULL;
     }
+    rbusInterval_WaitForThreads();
 
     rbusValueChange_CloseHandle(handle);//called before freeElementNode below
 
@@ -5223,7 +5245,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             RBUSLOG_DEBUG("%s no provider. retry in %d ms with %d left", eventName, sleepTime, destNotFoundTimeout );
 
             //TODO: do we need pthread_cond_timedwait ?  e.g. maybe another thread calls rbus_close and we need to shutdown
-            sleep(sleepTime/1000);
+            usleep(sleepTime * 1000);
 
             destNotFoundTimeout -= destNotFoundSleep;
 
@@ -5258,6 +5280,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         subInternal->sub = sub;
         subInternal->dirty = false;
         subInternal->rawData = rawData;
+        subInternal->subscriptionId = 0;
         rtVector_PushBack(handleInfo->eventSubs, subInternal);
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         if(publishOnSubscribe)
@@ -5269,7 +5292,11 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             }
         }
         rbusMessage_GetInt32(response, &subscriptionId);
-        subInternal->subscriptionId = subscriptionId;
+        HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+        /*the handler may have unsubscribed when it got the initial value*/
+        if(rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData) == subInternal)
+            subInternal->subscriptionId = subscriptionId;
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         if(response)
             rbusMessage_Release(response);
         RBUSLOG_INFO("%s subscribe retries succeeded", eventName);
@@ -5306,6 +5333,15 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
                 subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
                 subInternal->sub = sub;
                 subInternal->dirty = false;
+                subInternal->rawData = rawData;
+                subInternal->subscriptionId = 0;
+                if(response)
+                {
+                    int32_t subscriptionId = 0;
+                    if(rbusMessage_GetInt32(response, &subscriptionId) == RT_OK)
+                        subInternal->subscriptionId = subscriptionId;
+                    rbusMessage_Release(response);
+                }
                 rtVector_PushBack(handleInfo->eventSubs, subInternal);
                 RBUSLOG_INFO("EVENT_SUBSCRIPTION_ALREADY_EXIST  %s", subInternal->sub->eventName);
                 HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
@@ -5324,6 +5360,8 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         {
             RBUSLOG_WARN("%s subscribe retries failed due to core error %d", eventName, coreerr);
             rbusEventSubscription_free(sub);
+            if(response)
+                rbusMessage_Release(response);
             return RBUS_ERROR_BUS_ERROR;
         }
     }
@@ -5689,7 +5727,7 @@ rbusError_t rbusEvent_SubscribeExRawData(
                 So, as a transaction, we just undo everything, which are all those from 0 to i-1.
             */
             if(i > 0)
-                rbusEvent_UnsubscribeEx(handle, subscription, i);
+                rbusEvent_UnsubscribeExRawData(handle, subscription, i);
             break;
         }
         else
@@ -5805,6 +5843,7 @@ rbusError_t rbusEvent_UnsubscribeExRawData(
     for(i = 0; i < numSubscriptions; ++i)
     {
         rbusEventSubscriptionInternal_t* subInternal = NULL;
+        rbusError_t rc;
 
         RBUSLOG_DEBUG("Unsubscribe RawData for %s", subscription[i].eventName);
 
@@ -5814,23 +5853,25 @@ rbusError_t rbusEvent_UnsubscribeExRawData(
         subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName, subscription[i].filter, subscription[i].interval, subscription[i].duration, true);
         if(subInternal)
         {
-            errorcode = _rbus_event_unsubscribe(handle, subInternal);
-            if(errorcode != RBUS_ERROR_DESTINATION_NOT_FOUND)
+            rc = _rbus_event_unsubscribe(handle, subInternal);
+            if(rc != RBUS_ERROR_DESTINATION_NOT_FOUND)
             {
                 rbusEventSubscriptionInternal_free(subInternal);
             }
             else
             {
-                errorcode = RBUS_ERROR_SUCCESS;
+                rc = RBUS_ERROR_SUCCESS;
             }
         }
         else
         {
             RBUSLOG_INFO("%s no existing subscription found", subscription[i].eventName);
-            errorcode = RBUS_ERROR_INVALID_OPERATION; //TODO - is the the right error to return
+            rc = RBUS_ERROR_INVALID_OPERATION; //TODO - is the the right error to return
         }
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        if(errorcode == RBUS_ERROR_SUCCESS)
+            errorcode = rc;
     }
-    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     return errorcode;
 }
 
@@ -5889,6 +5930,7 @@ rbusError_t rbusEvent_UnsubscribeEx(
     {
         HANDLE_EVENTSUBS_MUTEX_LOCK(handleInfo);
         rbusEventSubscriptionInternal_t* subInternal = NULL;
+        rbusError_t rc;
         subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName,
                 subscription[i].filter, subscription[i].interval, subscription[i].duration, false);
         if(subInternal)
@@ -5896,25 +5938,27 @@ rbusError_t rbusEvent_UnsubscribeEx(
             snprintf(topic, RBUS_MAX_NAME_LENGTH, "%d.%s", subInternal->subscriptionId, subInternal->sub->eventName);
             if(rbusMessage_HasListener(handle, topic))
             {
-                errorcode = rbusMessage_RemoveListener(handle, topic, subInternal->subscriptionId);
-                if (errorcode != RBUS_ERROR_SUCCESS)
+                rc = rbusMessage_RemoveListener(handle, topic, subInternal->subscriptionId);
+                if (rc != RBUS_ERROR_SUCCESS)
                 {
-                    RBUSLOG_WARN("rbusMessage_RemoveListener failed err:%d", errorcode);
+                    RBUSLOG_WARN("rbusMessage_RemoveListener failed err:%d", rc);
                 }
             }
-            errorcode = _rbus_event_unsubscribe(handle, subInternal);
-            if(errorcode != RBUS_ERROR_DESTINATION_NOT_FOUND)
+            rc = _rbus_event_unsubscribe(handle, subInternal);
+            if(rc != RBUS_ERROR_DESTINATION_NOT_FOUND)
             {
                 rbusEventSubscriptionInternal_free(subInternal);
             }
             else
-                errorcode = RBUS_ERROR_SUCCESS;
+                rc = RBUS_ERROR_SUCCESS;
         }
         else
         {
-            errorcode = _rbus_AsyncSubscribe_remove_subscription(handle, &subscription[i]);
+            rc = _rbus_AsyncSubscribe_remove_subscription(handle, &subscription[i]);
         }
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handleInfo);
+        if(errorcode == RBUS_ERROR_SUCCESS)
+            errorcode = rc;
     }
     return errorcode;
 }
@@ -6004,6 +6048,7 @@ rbusError_t  rbusEvent_PublishRawData(
             if(rc == RBUS_ERROR_SUCCESS)
                 rc = RBUS_ERROR_BUS_ERROR;
             rtListItem_GetNext(listItem, &listItem);
+            continue;
         }
         if(subscription->rawData)
             err = rbuscore_publishDirectSubscriberEvent(subscription->eventName, subscription->listener, eventData->rawData, eventData->rawDataLen, subscription->subscriptionId, subscription->rawData);
@@ -6081,6 +6126,7 @@ rbusError_t  rbusEvent_Publish(
             if(errOut == RBUSCORE_SUCCESS)
                 errOut = RBUSCORE_ERROR_GENERAL;
             rtListItem_GetNext(listItem, &listItem);
+            continue;
         }
 
         if(eventData->type == RBUS_EVENT_VALUE_CHANGED)
@@ -6127,7 +6173,7 @@ rbusError_t  rbusEvent_Publish(
             rbusMessage msg;
             rbusMessage_Init(&msg);
 
-            rbusEventData_appendToMessage(eventData, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
+            rbusEventData_appendToMessage(&event, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
 
             RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s", subscription->eventName, subscription->listener);
 
diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 3025718..fc7e467 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -138,9 +138,10 @@ struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
         len = rtVector_Size(gHandleList);
         for(i = 0; i < len; i++)
         {
-            handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(handle->componentId == componentId)
+            struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
+            if(tmp->componentId == componentId)
             {
+                handle = tmp;
                 break;
             }
         }
-- 
2.43.0


From 470d21b5bf374b1a65a95fd0813b82a81c9219ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 44/99] fix: let go of the subscriptions' lock while a provider
 ends one

---
 src/rbus/rbus.c | 86 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 67 insertions(+), 19 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 09425c4..5c43e7e 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -112,6 +112,8 @@ typedef enum _rbus_legacy_returns {
 typedef struct _rbusEventSubscriptionInternal
  {
     bool                        dirty;
+    bool                        ending;  /*a thread is unsubscribing it and frees it*/
+    bool                        removed; /*taken off the list while ending*/
     bool                        rawData;
     rbusEventSubscription_t*    sub;
     uint32_t                    subscriptionId;
@@ -1440,6 +1442,19 @@ static void _client_disconnect_callback_handler(const char * listener)
     UnlockMutex();
 }
 
+/*Take a subscription off the handle's list and free it, unless a thread is unsubscribing it, which frees it then.
+  The eventSubs mutex must be held*/
+static void _rbus_event_removeSubscription(
+        struct _rbusHandle* handleInfo,
+        rbusEventSubscriptionInternal_t* subInternal)
+{
+    rtVector_RemoveItem(handleInfo->eventSubs, subInternal, NULL);
+    if(subInternal->ending)
+        subInternal->removed = true;
+    else
+        rbusEventSubscriptionInternal_free(subInternal);
+}
+
 void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
@@ -1454,11 +1469,13 @@ void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscriptio
             if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
                             subscription->filter, subscription->interval, subscription->duration, false)) != NULL)
             {
-                rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
+                _rbus_event_removeSubscription(handleInfo, subInternal);
             }
             subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
             subInternal->sub = subscription;
             subInternal->dirty = false;
+            subInternal->ending = false;
+            subInternal->removed = false;
             subInternal->subscriptionId = subscriptionId;
             subInternal->rawData = false;
             rtVector_PushBack(handleInfo->eventSubs, subInternal);
@@ -1540,7 +1557,7 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
 
     if(subInternal)
     {
-        if(subInternal->dirty)
+        if(subInternal->dirty && !subInternal->ending)
         {
             errorcode =  _rbus_event_unsubscribe(handleInfo, subInternal);
             if(errorcode != RBUS_ERROR_DESTINATION_NOT_FOUND)
@@ -1551,13 +1568,17 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
             }
         }
         if (event.type == RBUS_EVENT_DURATION_COMPLETE) {
-            rtVector_RemoveItem(handleInfo->eventSubs, subInternal, NULL);
             duration_complete = true;
+            /*off the list first, so that the handler can subscribe again*/
+            rtVector_RemoveItem(handleInfo->eventSubs, subInternal, NULL);
         }
         ((rbusEventHandler_t)subInternal->sub->handler)(subInternal->sub->handle, &event, subInternal->sub);
         if(duration_complete)
         {
-            rbusEventSubscriptionInternal_free(subInternal);
+            if(subInternal->ending)
+                subInternal->removed = true;
+            else
+                rbusEventSubscriptionInternal_free(subInternal);
         }
     }
     else
@@ -3287,7 +3308,6 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
-    LockMutex();
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
     remove(filename);
@@ -3295,10 +3315,8 @@ rbusError_t rbus_close(rbusHandle_t handle)
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if(handleInfo->eventSubs)
     {
-        int i;
-        int count = (int)rtVector_Size(handleInfo->eventSubs);
-        RBUSLOG_DEBUG("Cleaning up all (%d) subscriptions", count);
-        for(i = 0; i < count; ++i)
+        RBUSLOG_DEBUG("Cleaning up all (%d) subscriptions", (int)rtVector_Size(handleInfo->eventSubs));
+        while(rtVector_Size(handleInfo->eventSubs) > 0)
         {
             rbusEventSubscriptionInternal_t* subInternal = NULL;
             subInternal = (rbusEventSubscriptionInternal_t*)rtVector_At(handleInfo->eventSubs, 0);
@@ -3318,6 +3336,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
     }
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
 
+    LockMutex();
     if (handleInfo->messageCallbacks)
     {
         rbusMessage_RemoveAllListeners(handle);
@@ -5080,6 +5099,8 @@ static rbusMessage rbusEvent_CreateSubscribePayload(rbusEventSubscription_t* sub
 /* _rbus_event_unsubscribe function using eventsubs,
  * so that should be invoked under mutex protection.
  */
+/*The eventSubs mutex must be held. It is released while the provider is asked: its answer can take an event
+  to us, or a request of its own, that needs the mutex first.*/
 static rbusError_t _rbus_event_unsubscribe(
         rbusHandle_t handle,
         rbusEventSubscriptionInternal_t* subInternal)
@@ -5120,14 +5141,22 @@ static rbusError_t _rbus_event_unsubscribe(
         }
     }
 
+    subInternal->ending = true;
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     coreerr = rbus_unsubscribeFromEvent(NULL, subscription->eventName, payload, subInternal->rawData);
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    subInternal->ending = false;
 
     if(payload)
     {
         rbusMessage_Release(payload);
     }
 
-    if(coreerr != RBUSCORE_SUCCESS)
+    if(subInternal->removed)
+    {
+        RBUSLOG_DEBUG("%s ended while unsubscribing", subscription->eventName);
+    }
+    else if(coreerr != RBUSCORE_SUCCESS)
     {
         if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
         {
@@ -5177,7 +5206,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
     {
         /*Allow only for dirty subscription*/
-        if (subInternal->dirty)
+        if (subInternal->dirty && !subInternal->ending)
         {
             subInternal->dirty = false;
         }
@@ -5274,11 +5303,13 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
         if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
         {
-            rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
+            _rbus_event_removeSubscription(handleInfo, subInternal);
         }
         subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
         subInternal->sub = sub;
         subInternal->dirty = false;
+        subInternal->ending = false;
+        subInternal->removed = false;
         subInternal->rawData = rawData;
         subInternal->subscriptionId = 0;
         rtVector_PushBack(handleInfo->eventSubs, subInternal);
@@ -5328,11 +5359,13 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
                 HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
                 if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
                 {
-                    rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
+                    _rbus_event_removeSubscription(handleInfo, subInternal);
                 }
                 subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
                 subInternal->sub = sub;
                 subInternal->dirty = false;
+                subInternal->ending = false;
+                subInternal->removed = false;
                 subInternal->rawData = rawData;
                 subInternal->subscriptionId = 0;
                 if(response)
@@ -5384,7 +5417,7 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
             HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
             rbusEventSubscriptionInternal_t *subInternal = rbusEventSubscription_find(handleInfo->eventSubs,
                     ptmp->eventName, ptmp->filter, ptmp->interval, ptmp->duration, true);
-            if (subInternal && subInternal->dirty)
+            if (subInternal && subInternal->dirty && !subInternal->ending)
             {
                 errorcode =  _rbus_event_unsubscribe(handle, subInternal);
                 if(errorcode == RBUS_ERROR_DESTINATION_NOT_FOUND)
@@ -5553,11 +5586,16 @@ rbusError_t rbusEvent_Unsubscribe(
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, false);
 
-    if(subInternal)
+    if(subInternal && !subInternal->ending)
     {
         rbusMessage payload = rbusEvent_CreateSubscribePayload(subInternal->sub, handleInfo->componentId);
 
+        /*the mutex isn't held while the provider is asked, see _rbus_event_unsubscribe*/
+        subInternal->ending = true;
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         rbusCoreError_t coreerr = rbus_unsubscribeFromEvent(NULL, eventName, payload, subInternal->rawData);
+        HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+        subInternal->ending = false;
 
         if(payload)
         {
@@ -5565,7 +5603,13 @@ rbusError_t rbusEvent_Unsubscribe(
         }
 
 
-        if(coreerr == RBUSCORE_SUCCESS)
+        if(subInternal->removed)
+        {
+            rbusEventSubscriptionInternal_free(subInternal);
+            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+            return RBUS_ERROR_SUCCESS;
+        }
+        else if(coreerr == RBUSCORE_SUCCESS)
         {
             rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
@@ -5620,7 +5664,7 @@ rbusError_t rbusEvent_UnsubscribeRawData(
         then call RemoveItem, which loops through again to find the item by address to destroy */
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
-    if (subInternal)
+    if (subInternal && !subInternal->ending)
     {
         errorcode = _rbus_event_unsubscribe(handle, subInternal);
         if(errorcode != RBUS_ERROR_DESTINATION_NOT_FOUND)
@@ -5851,7 +5895,7 @@ rbusError_t rbusEvent_UnsubscribeExRawData(
           then call RemoveItem, which loops through again to find the item by address to destroy */
         HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
         subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName, subscription[i].filter, subscription[i].interval, subscription[i].duration, true);
-        if(subInternal)
+        if(subInternal && !subInternal->ending)
         {
             rc = _rbus_event_unsubscribe(handle, subInternal);
             if(rc != RBUS_ERROR_DESTINATION_NOT_FOUND)
@@ -5933,7 +5977,11 @@ rbusError_t rbusEvent_UnsubscribeEx(
         rbusError_t rc;
         subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName,
                 subscription[i].filter, subscription[i].interval, subscription[i].duration, false);
-        if(subInternal)
+        if(subInternal && subInternal->ending)
+        {
+            rc = RBUS_ERROR_INVALID_OPERATION; //another thread is unsubscribing it
+        }
+        else if(subInternal)
         {
             snprintf(topic, RBUS_MAX_NAME_LENGTH, "%d.%s", subInternal->subscriptionId, subInternal->sub->eventName);
             if(rbusMessage_HasListener(handle, topic))
-- 
2.43.0


From 94d6c129610c9bd508a61e289b9a219239acda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 45/99] fix: retry an asynchronous subscription only as long as
 asked

---
 src/rbus/rbus.c                |  2 +-
 src/rbus/rbus_asyncsubscribe.c | 12 +++++++-----
 src/rbus/rbus_asyncsubscribe.h |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 5c43e7e..d585ed7 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5252,7 +5252,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     if (sub->asyncHandler)
     {
         //FIXME: this should take the payload too (mrollins) because rbus_asynsubscribe is passing NULL for filter to rbus_subscribeToEvent
-        rbusAsyncSubscribe_AddSubscription(sub, payload);
+        rbusAsyncSubscribe_AddSubscription(sub, payload, timeout);
 
         rbusMessage_Release(payload);
         return RBUS_ERROR_SUCCESS;
diff --git a/src/rbus/rbus_asyncsubscribe.c b/src/rbus/rbus_asyncsubscribe.c
index 1068857..5b6ec1f 100644
--- a/src/rbus/rbus_asyncsubscribe.c
+++ b/src/rbus/rbus_asyncsubscribe.c
@@ -62,6 +62,7 @@ typedef struct AsyncSubscription_t
     rbusEventSubscription_t* subscription;
     rbusMessage payload;
     int nextWaitTime;
+    uint32_t timeout;       /*miliseconds*/
     rtTime_t startTime;
     rtTime_t nextRetryTime;
     bool sending;   /*its request is being sent, only the sender may remove it*/
@@ -202,7 +203,7 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
             elapsed = rtTime_Elapsed(&item->startTime, &now);
 
             if(!item->cancelled && coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
-             elapsed < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))    /*if we haven't timeout out yet*/
+             elapsed < item->timeout)    /*if we haven't timeout out yet*/
             {
                 if(item->nextWaitTime == 0)
                     item->nextWaitTime = 1000; //miliseconds
@@ -214,7 +215,7 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
                   item->nextWaitTime = RBUS_SUBSCRIBE_MAXWAIT;
 
                 //update nextRetryTime to nextWaitTime miliseconds from now, without exceeding subscribeTimeout
-                if(elapsed + item->nextWaitTime < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))
+                if(elapsed + item->nextWaitTime < item->timeout)
                 {
                     rtTime_Later(&now, item->nextWaitTime, &item->nextRetryTime);
                 }
@@ -222,13 +223,13 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
                 {
                     //its possible to have the odd situation, based on how subscribeTimeout/subscribeMaxWait are configured, 
                     //where this final retry happens very close to the previous retry (e.g. ... wait 60, sub, wait 60, sub, wait 1, sub)
-                    rtTime_Later(&item->startTime, rbusHandle_FetchSubscribeTimeout(item->subscription->handle), &item->nextRetryTime);
+                    rtTime_Later(&item->startTime, item->timeout, &item->nextRetryTime);
                 }
 
                 RBUSLOG_INFO("%s no provider. retry in %d ms with %d left",
                     item->subscription->eventName, 
                     rtTime_Elapsed(&now, &item->nextRetryTime), 
-                    rbusHandle_FetchSubscribeTimeout(item->subscription->handle)- elapsed );
+                    item->timeout- elapsed );
                 item->sending = false;
             }
             else
@@ -384,7 +385,7 @@ static void rbusAsyncSubscribeRetrier_Destroy()
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload)
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, int timeout)
 {
     int rc;
     char tbuff[50];
@@ -403,6 +404,7 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
     item->subscription = subscription;
     item->payload = payload;
     item->nextWaitTime = 0;
+    item->timeout = timeout > 0 ? (uint32_t)timeout * 1000 : rbusHandle_FetchSubscribeTimeout(subscription->handle);
     item->sending = false;
     item->cancelled = false;
 
diff --git a/src/rbus/rbus_asyncsubscribe.h b/src/rbus/rbus_asyncsubscribe.h
index 04474be..197170a 100644
--- a/src/rbus/rbus_asyncsubscribe.h
+++ b/src/rbus/rbus_asyncsubscribe.h
@@ -25,7 +25,7 @@
 #ifdef __cplusplus
 extern "C" {
 #endif
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload);
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, int timeout);
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription);
 bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter, uint32_t interval, uint32_t duration);
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle);
-- 
2.43.0


From 7edfa379194ab79791b9f42bda35f1929378b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 46/99] fix: give every message listener an id of its own on
 the connection

---
 src/rbus/rbus_message.c      | 140 +++++++++++++++++++++++++----------
 src/rtmessage/rtConnection.c |   7 +-
 src/rtmessage/rtConnection.h |   7 ++
 src/rtmessage/rtrouted.c     |   3 +-
 4 files changed, 113 insertions(+), 44 deletions(-)

diff --git a/src/rbus/rbus_message.c b/src/rbus/rbus_message.c
index 4197fa7..6b496b0 100644
--- a/src/rbus/rbus_message.c
+++ b/src/rbus/rbus_message.c
@@ -45,7 +45,7 @@
 
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
 
-typedef struct
+typedef struct rbusMessageHandlerContext
 {
     rbusHandle_t          handle;
     char*                 expression;
@@ -53,8 +53,13 @@ typedef struct
     void*                 userData;
     rtConnection          connection;
     uint32_t              subscriptionId;
+    uint32_t              listenerId;   /*the listener's id on the connection*/
+    struct rbusMessageHandlerContext* next;
 } rbusMessageHandlerContext_t;
 
+/*all contexts in use, guarded by gMutex: a message that was under way when its listener was removed is not in here*/
+static rbusMessageHandlerContext_t* gContexts = NULL;
+
 rbusError_t rtError_to_rBusError(rtError e)
 {
     rbusError_t err;
@@ -72,8 +77,21 @@ rbusError_t rtError_to_rBusError(rtError e)
 
 static void rtMessage_CallbackHandler(rtMessageHeader const* hdr, uint8_t const* buff, uint32_t n, void* userData)
 {
-    rbusMessageHandlerContext_t* ctx = (rbusMessageHandlerContext_t*)userData;
-    if((!ctx)||(!hdr))
+    rbusMessageHandlerContext_t* found;
+    rbusMessageHandlerContext_t copy;
+    rbusMessageHandlerContext_t* ctx = &copy;
+    if((!userData)||(!hdr))
+        return;
+    RBUS_MESSAGE_MUTEX_LOCK();
+    for(found = gContexts; found; found = found->next)
+    {
+        if(found == (rbusMessageHandlerContext_t*)userData)
+            break;
+    }
+    if(found)
+        copy = *found;
+    RBUS_MESSAGE_MUTEX_UNLOCK();
+    if(!found)
         return;
     // if this is request, the sender wants confirmation of receipt
     // do that before dispatching application callback
@@ -103,18 +121,65 @@ static void rtMessage_CallbackHandler(rtMessageHeader const* hdr, uint8_t const*
 static void cleanupContext(void * p)
 {
     rbusMessageHandlerContext_t* ctx = (rbusMessageHandlerContext_t*)p;
+    rbusMessageHandlerContext_t** pos;
     if(ctx){
+        for(pos = &gContexts; *pos; pos = &(*pos)->next)
+        {
+            if(*pos == ctx)
+            {
+                *pos = ctx->next;
+                break;
+            }
+        }
         if(ctx->expression)
             free(ctx->expression);
         free(ctx);
     }
 }
 
-static int compareContextExpression(const void *left, const void *right)
+static rbusMessageHandlerContext_t* addContext(
+    rbusHandle_t handle,
+    rtConnection connection,
+    char const* expression,
+    rbusMessageHandler_t handler,
+    void* userData,
+    uint32_t subscriptionId,
+    uint32_t listenerId)
 {
-    if((!left)||(!right))
-        return -1;
-    return strcmp(((const rbusMessageHandlerContext_t*)left)->expression, (const char*)right);
+    rbusMessageHandlerContext_t* ctx = rt_malloc(sizeof(rbusMessageHandlerContext_t));
+    ctx->handle = handle;
+    ctx->expression = strdup(expression);
+    ctx->handler = handler;
+    ctx->userData = userData;
+    ctx->connection = connection;
+    ctx->subscriptionId = subscriptionId;
+    ctx->listenerId = listenerId;
+    ctx->next = gContexts;
+    gContexts = ctx;
+    rtVector_PushBack(handle->messageCallbacks, ctx);
+    return ctx;
+}
+
+static rbusMessageHandlerContext_t* findContext(
+    rbusHandle_t handle,
+    rtConnection connection,
+    char const* expression,
+    uint32_t subscriptionId)
+{
+    size_t i;
+    rbusMessageHandlerContext_t* found = NULL;
+
+    for (i = 0; i < rtVector_Size(handle->messageCallbacks); ++i)
+    {
+        rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, i);
+        if(ctx->connection != connection || strcmp(ctx->expression, expression) != 0)
+            continue;
+        if(ctx->subscriptionId == subscriptionId)
+            return ctx;
+        if(!found)
+            found = ctx;
+    }
+    return found;
 }
 
 rbusError_t rbusMessage_AddPrivateListener(
@@ -135,18 +200,12 @@ rbusError_t rbusMessage_AddPrivateListener(
         return RBUS_ERROR_DIRECT_CON_NOT_EXIST;
     }
 
-    rbusMessageHandlerContext_t* ctx = rt_malloc(sizeof(rbusMessageHandlerContext_t));
-    ctx->handle = handle;
-    ctx->expression = strdup(expression);
-    ctx->handler = handler;
-    ctx->userData = userData;
-    ctx->connection = myConn;
-    ctx->subscriptionId = subscriptionId;
-    RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_PushBack(handle->messageCallbacks, ctx);
-
     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
+    RBUS_MESSAGE_MUTEX_LOCK();
+    rbusMessageHandlerContext_t* ctx = addContext(handle, myConn, rawDataTopic, handler, userData, subscriptionId, subscriptionId);
     rtError e = rtConnection_AddListenerWithId(myConn, rawDataTopic, subscriptionId, &rtMessage_CallbackHandler, ctx);
+    if (e != RT_OK)
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -168,17 +227,13 @@ rbusError_t rbusMessage_AddListener(
     VERIFY_NULL(expression);
     rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
 
-    rbusMessageHandlerContext_t* ctx = rt_malloc(sizeof(rbusMessageHandlerContext_t));
-    ctx->handle = handle;
-    ctx->expression = strdup(expression);
-    ctx->handler = handler;
-    ctx->userData = userData;
-    ctx->connection = con;
-    ctx->subscriptionId = subscriptionId;
+    /*the subscription id is the caller's or a provider's, so it may be in use on this connection already*/
+    uint32_t listenerId = rtConnection_GetNextSubscriptionId();
     RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_PushBack(handle->messageCallbacks, ctx);
-
-    rtError e = rtConnection_AddListenerWithId(con, expression, subscriptionId, &rtMessage_CallbackHandler, ctx);
+    rbusMessageHandlerContext_t* ctx = addContext(handle, con, expression, handler, userData, subscriptionId, listenerId);
+    rtError e = rtConnection_AddListenerWithId(con, expression, listenerId, &rtMessage_CallbackHandler, ctx);
+    if (e != RT_OK)
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -205,9 +260,13 @@ rbusError_t rbusMessage_RemovePrivateListener(
 
     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
     RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_RemoveItemByCompare(handle->messageCallbacks, rawDataTopic, compareContextExpression, cleanupContext);
-
-    rtError e = rtConnection_RemoveListenerWithId(myConn, rawDataTopic, subscriptionId);
+    rbusMessageHandlerContext_t* ctx = findContext(handle, myConn, rawDataTopic, subscriptionId);
+    rtError e = RT_ERROR_INVALID_ARG;
+    if (ctx)
+    {
+        e = rtConnection_RemoveListenerWithId(myConn, rawDataTopic, ctx->listenerId);
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
+    }
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -227,9 +286,13 @@ rbusError_t rbusMessage_RemoveListener(
     rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
 
     RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_RemoveItemByCompare(handle->messageCallbacks, expression, compareContextExpression, cleanupContext);
-
-    rtError e = rtConnection_RemoveListenerWithId(con, expression, subscriptionId);
+    rbusMessageHandlerContext_t* ctx = findContext(handle, con, expression, subscriptionId);
+    rtError e = RT_ERROR_INVALID_ARG;
+    if (ctx)
+    {
+        e = rtConnection_RemoveListenerWithId(con, expression, ctx->listenerId);
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
+    }
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -245,20 +308,17 @@ rbusError_t rbusMessage_RemoveAllListeners(
 {
     VERIFY_NULL(handle);
     rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
-    int i, n;
 
     RBUS_MESSAGE_MUTEX_LOCK();
-    for (i = 0, n = rtVector_Size(handle->messageCallbacks); i < n; ++i)
+    while (rtVector_Size(handle->messageCallbacks) > 0)
     {
-        rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, i);
-        VERIFY_NULL(ctx);
-        rtError e = rtConnection_RemoveListenerWithId(con, ctx->expression, ctx->subscriptionId);
+        rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, 0);
+        rtError e = rtConnection_RemoveListenerWithId(con, ctx->expression, ctx->listenerId);
         if (e != RT_OK)
         {
             RBUSLOG_WARN("rbusMessage_RemoveAllListener %s :%s", ctx->expression, rtStrError(e));
         }    
-        free(ctx->expression);
-        free(ctx);
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
     }
     RBUS_MESSAGE_MUTEX_UNLOCK();
     return RBUS_ERROR_SUCCESS;
diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 5e0b176..d393cea 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -246,11 +246,11 @@ rtConnection_SendRequestInternal(
   uint32_t timeout,
   int flags);
 
-static uint32_t
+uint32_t
 rtConnection_GetNextSubscriptionId()
 {
   static uint32_t next_id = 10000; /* Keeping this number high to avoid conflict with the subscription Id added in rbusSubscriptions_addSubscription() which starts with 1 */
-  return next_id++;
+  return __sync_fetch_and_add(&next_id, 1);
 }
 
 static int GetRunThreadsSync(rtConnection con)
@@ -1334,7 +1334,8 @@ rtConnection_RemoveListenerWithId(rtConnection con, char const* expression, uint
   pthread_mutex_lock(&con->mutex);
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
-    if ((con->listeners[i].in_use) && (expressionId == con->listeners[i].subscription_id))
+    if ((con->listeners[i].in_use) && (expressionId == con->listeners[i].subscription_id) &&
+        (0 == strcmp(expression, con->listeners[i].expression)))
     {
         con->listeners[i].in_use = 0;
         route_id = con->listeners[i].subscription_id;
diff --git a/src/rtmessage/rtConnection.h b/src/rtmessage/rtConnection.h
index feb1700..25b3372 100644
--- a/src/rtmessage/rtConnection.h
+++ b/src/rtmessage/rtConnection.h
@@ -189,6 +189,13 @@ rtError
 rtConnection_AddListenerWithId(rtConnection con, char const* expression,
   uint32_t expressionId, rtMessageCallback callback, void* closure);
 
+/**
+ * Get an id for a listener that no other listener added by this process has
+ * @return id
+ */
+uint32_t
+rtConnection_GetNextSubscriptionId();
+
 /**
  * Register a callback for message receipt
  * @param con
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index bcd5f15..50264a9 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -821,7 +821,8 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         {
           rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
 
-          if((route->subscription) && (0 == strncmp(route->expression, expression, RTMSG_MAX_EXPRESSION_LEN)) && (route->subscription->client == sender))
+          if((route->subscription) && (0 == strncmp(route->expression, expression, RTMSG_MAX_EXPRESSION_LEN)) && (route->subscription->client == sender) &&
+             (route->subscription->id == route_id))
           {
             rtRouted_ClearRoute(route);
             route_removed = 1;
-- 
2.43.0


From e320563115a703f944487601a4ae6482ee078923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 47/99] fix: take only rows of tables for rows

---
 src/rbus/rbus.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index d585ed7..377887e 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1383,6 +1383,12 @@ static void registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, c
     }
 }
 
+/*whether the element is a row that was added to a table, not the table's row template nor another element*/
+static bool isTableRow (elementNode* el)
+{
+    return el->parent && el->parent->type == RBUS_ELEMENT_TYPE_TABLE && strcmp(el->name, "{i}") != 0;
+}
+
 static void unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
@@ -2542,7 +2548,7 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
     elementNode* rowRegElem = retrieveElement(handleInfo->elementRoot, rowName);
     elementNode* rowInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, rowName, true);
 
-    if(rowRegElem && rowInstElem)
+    if(rowRegElem && rowInstElem && isTableRow(rowInstElem))
     {
         /*switch to the row's table */
         elementNode* tableRegElem = rowRegElem->parent;
@@ -4780,7 +4786,7 @@ rbusError_t rbusTable_registerRow(
         return RBUS_ERROR_INVALID_INPUT;
     }
 
-    if(!tableInstElem)
+    if(!tableInstElem || tableInstElem->type != RBUS_ELEMENT_TYPE_TABLE)
     {
         RBUSLOG_WARN("table does not exist %s", tableName);
         return RBUS_ERROR_INVALID_INPUT;
@@ -4805,7 +4811,7 @@ rbusError_t rbusTable_unregisterRow(
 
     elementNode* rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
 
-    if(!rowInstElem)
+    if(!rowInstElem || !isTableRow(rowInstElem))
     {
         RBUSLOG_DEBUG("row does not exists %s", rowName);
         return RBUS_ERROR_INVALID_INPUT;
-- 
2.43.0


From a04abb3a87ea345f69cd4a1c32d3dd6cfea99b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 48/99] fix: handle instance numbers as the unsigned numbers
 they are

---
 src/rbus/rbus.c            | 10 +++++-----
 src/rbus/rbus_tokenchain.c |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 377887e..63ca683 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2394,7 +2394,7 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
         {
             if(strcmp(child->name, "{i}") != 0)
             {
-                rbusMessage_SetInt32(*response, atoi(child->name));
+                rbusMessage_SetInt32(*response, (int32_t)strtoul(child->name, NULL, 10));
                 rbusMessage_SetString(*response, child->alias ? child->alias : "");
             }
             child = child->nextSibling;
@@ -2821,8 +2821,8 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
 
                         rbusMessage_GetInt32(tableResponse, &instNum);
                         rbusMessage_GetString(tableResponse, &alias);
-                        snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%d.", event_name, instNum);
-                        snprintf(row_instance, RBUS_MAX_NAME_LENGTH, "path%d", instNum);
+                        snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%u.", event_name, (uint32_t)instNum);
+                        snprintf(row_instance, RBUS_MAX_NAME_LENGTH, "path%u", (uint32_t)instNum);
                         rbusProperty_AppendString(tmpProperties, row_instance, fullName);
                     }
                     rbusMessage_Release(tableRequest);
@@ -4770,7 +4770,7 @@ rbusError_t rbusTable_registerRow(
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
-    rc = snprintf(rowName, RBUS_MAX_NAME_LENGTH, "%s%d", tableName, instNum);
+    rc = snprintf(rowName, RBUS_MAX_NAME_LENGTH, "%s%u", tableName, instNum);
     if(rc < 0 || rc >= RBUS_MAX_NAME_LENGTH)
     {
         RBUSLOG_WARN("invalid table name %s", tableName);
@@ -4891,7 +4891,7 @@ rbusError_t rbusTable_getRowNames(
 
                 rbusMessage_GetInt32(response, &instNum);
                 rbusMessage_GetString(response, &alias);
-                snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%d.", tableName, instNum);
+                snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%u.", tableName, (uint32_t)instNum);
                 tmpNames[i].name = strdup(fullName);
                 tmpNames[i].instNum = instNum;
                 tmpNames[i].alias = alias && alias[0] != '\0' ? strdup(alias) : NULL;
diff --git a/src/rbus/rbus_tokenchain.c b/src/rbus/rbus_tokenchain.c
index f86639d..907aa2e 100644
--- a/src/rbus/rbus_tokenchain.c
+++ b/src/rbus/rbus_tokenchain.c
@@ -189,7 +189,7 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
                 }
                 else /* instance number */
                 {
-                    if(atoi(tok->text) > 0)
+                    if(strtol(tok->text, NULL, 10) > 0)
                     {
                         tok->type = TokenInstNum;
                     }
-- 
2.43.0


From 612a446747e1d958dd88f602c8e0b385a1ffb2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 49/99] fix: serve interval subscriptions on wildcards without
 rows yet

---
 src/rbus/rbus.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 63ca683..292c568 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1265,7 +1265,22 @@ int subscribeHandlerImpl(
     /* if autoPublish and its a property being subscribed to
        then update rbusValueChange to handle the property */
     {
-        if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
+        if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish && subscription->interval)
+        {
+            /* one record reads all instances, also those of a wildcard which aren't there yet */
+            RBUSLOG_INFO("subscription with interval  %s event=%s prop=%s",
+                    added ? "Add" : "Remove", subscription->eventName, el->fullName);
+            if(added)
+            {
+                if((error = rbusInterval_AddSubscriptionRecord(handle, el, subscription)) != RBUS_ERROR_SUCCESS)
+                    RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
+            }
+            else
+            {
+                rbusInterval_RemoveSubscriptionRecord(handle, el, subscription);
+            }
+        }
+        else if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
         {
             rtListItem item;
             rtList_GetFront(subscription->instances, &item);
@@ -1275,22 +1290,7 @@ int subscribeHandlerImpl(
 
                 rtListItem_GetData(item, (void**)&node);
 
-                if (subscription->interval)
-                {
-                    RBUSLOG_INFO("subscription with interval  %s event=%s prop=%s",
-                            added ? "Add" : "Remove", subscription->eventName, node->fullName);
-                    if(added) {
-                        if((error = rbusInterval_AddSubscriptionRecord(handle, node, subscription)) != RBUS_ERROR_SUCCESS)
-                            RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
-                        break;
-                    }
-                    else
-                    {
-                        rbusInterval_RemoveSubscriptionRecord(handle, node, subscription);
-                        break;
-                    }
-                }
-                else if(!elementHasAutoPubSubscriptions(node, subscription))
+                if(!elementHasAutoPubSubscriptions(node, subscription))
                 {
                     /* Check if the node has other subscribers or not.  If it has other
                        subs then we don't need to either add or remove it from ValueChange */
-- 
2.43.0


From a5a3cfc3e995aeca54ec749a8763b933f1fa7245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 50/99] fix: deliver the initial value before any other event

---
 src/rbus/rbus.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 292c568..1adc448 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5319,7 +5319,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         subInternal->rawData = rawData;
         subInternal->subscriptionId = 0;
         rtVector_PushBack(handleInfo->eventSubs, subInternal);
-        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        /*still locked, so that no other event gets to the handler before the initial value*/
         if(publishOnSubscribe)
         {
             rbusMessage_GetInt32(response, &initial_value);
@@ -5329,7 +5329,6 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             }
         }
         rbusMessage_GetInt32(response, &subscriptionId);
-        HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
         /*the handler may have unsubscribed when it got the initial value*/
         if(rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData) == subInternal)
             subInternal->subscriptionId = subscriptionId;
-- 
2.43.0


From f552ec9ad2fea4c75d729506ba27d844a73f7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 51/99] fix: name the component that made the change in
 value-change events

---
 src/rbus/rbus_element.c     | 11 +++++++++--
 src/rbus/rbus_element.h     |  1 +
 src/rbus/rbus_valuechange.c | 24 ++++++++++--------------
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 989b271..8cf9ed8 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -1199,12 +1199,19 @@ void setPropertyChangeComponent(elementNode* node, char const* componentName)
     VERIFY_NULL(node);
     if(node->changeComp)
         free(node->changeComp);
-    if(componentName)
-        node->changeComp = strdup(componentName);
+    node->changeComp = componentName ? strdup(componentName) : NULL;
     rtTime_Now(&node->changeTime);
 
 }
 
+/*the component that has changed the property since this was asked last, NULL if none. The caller frees it*/
+char* takePropertyChangeComponent(elementNode* node)
+{
+    char* componentName = node->changeComp;
+    node->changeComp = NULL;
+    return componentName;
+}
+
 void rbusElement_mutex_destroy(void)
 {
     if(mutex_init)
diff --git a/src/rbus/rbus_element.h b/src/rbus/rbus_element.h
index dfef11b..4f8c895 100644
--- a/src/rbus/rbus_element.h
+++ b/src/rbus/rbus_element.h
@@ -94,6 +94,7 @@ elementNode* instantiateTableRow(elementNode* tableNode, uint32_t instNum, char
 void deleteTableRow(elementNode* rowNode);
 void getPropertyInstanceNames(elementNode* root, char const* query, rtVector propNameList);
 void setPropertyChangeComponent(elementNode* node, char const* componentName);
+char* takePropertyChangeComponent(elementNode* node);
 void rbusElement_mutex_destroy(void);
 
 #ifdef __cplusplus
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index 70b0f0e..0095543 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -198,6 +198,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
         {
             rbusProperty_t property;
             rbusValue_t newVal, oldVal;
+            char* changeComp = NULL;
 
             ValueChangeRecord* rec = (ValueChangeRecord*)rtVector_At(gVC->params, i);
             if(!rec)
@@ -211,6 +212,8 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
 
             ELM_PRIVATE_LOCK(rec->node);
             int result = rec->node->cbTable.getHandler(rec->handle, property, &opts);
+            if(result == RBUS_ERROR_SUCCESS)
+                changeComp = takePropertyChangeComponent((elementNode*)rec->node);
             ELM_PRIVATE_UNLOCK(rec->node);
 
             if(result != RBUS_ERROR_SUCCESS)
@@ -238,26 +241,16 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
                 /* The "by" field is set to the component's name which made the last value change.
                    The source of a value-change could be an external component calling rbus_set or the provider internally updating
                    the value.  changeComp/changeTime are updated through the rbus_set path, but not through the provider internal path.
-                   We must deduce if the provider has updated the value and reflect that change to the changeComp/changeTime, right here.
-                   If we don't have a changeComp or we do but the changeTime is older then the current polling period,
-                   then we know it was the provider who updated the value we are now detecting.
+                   We must deduce if the provider has updated the value.
+                   If there's no changeComp since the value was read last, then we know it was the provider who updated the value
+                   we are now detecting.
                 */
-                ELM_PRIVATE_LOCK(rec->node);
-                if(rec->node->changeComp == NULL || 
-                   (rtTime_Elapsed(&rec->node->changeTime, NULL) >= RBUS_VALUECHANGE_PERIOD &&
-                   strcmp(rec->handle->componentName, rec->node->changeComp) == 0))
-                {
-                    printf("VC detected provider-side value-change oldcomp=%s elapsed=%d period=%d\n", rec->node->changeComp ? rec->node->changeComp : "", rtTime_Elapsed(&rec->node->changeTime, NULL), RBUS_VALUECHANGE_PERIOD);
-                    setPropertyChangeComponent((elementNode*)rec->node, rec->handle->componentName);
-                }
-
                 rbusObject_Init(&data, NULL);
                 rbusObject_SetValue(data, "value", newVal);
                 rbusObject_SetValue(data, "oldValue", oldVal);
 
                 rbusValue_Init(&byVal);
-                rbusValue_SetString(byVal, rec->node->changeComp);
-                ELM_PRIVATE_UNLOCK(rec->node);
+                rbusValue_SetString(byVal, changeComp ? changeComp : rec->handle->componentName);
                 rbusObject_SetValue(data, "by", byVal);
                 rbusValue_Release(byVal);
 
@@ -276,6 +269,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
                 RBUSLOG_DEBUG("value change not detected for %s", rbusProperty_GetName(rec->property));
                 rbusProperty_Release(property);
             }
+            free(changeComp);
         }
 
         if(rtVector_Size(events) > 0)
@@ -349,6 +343,8 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
           the polling thread will periodically re-get and compare to detect value changes*/
         ELM_PRIVATE_LOCK(propNode);
         int result = propNode->cbTable.getHandler(handle, rec->property, &opts);
+        if(result == RBUS_ERROR_SUCCESS)
+            free(takePropertyChangeComponent(propNode));
         ELM_PRIVATE_UNLOCK(propNode);
 
         if(result != RBUS_ERROR_SUCCESS)
-- 
2.43.0


From 8b63d46ed2baa28749127ec9eaab3eb702c14e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 52/99] fix: read a timeout file within its buffer

---
 src/rbus/rbus_handle.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index fc7e467..55e6487 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -246,7 +246,7 @@ uint32_t rbusHandle_FetchGetTimeout(rbusHandle_t handle)
     {
         fp = fopen(fileName, "r");
         if(fp != NULL) {
-            if (fread(buf, 1, sizeof(buf), fp) > 0)
+            if (fread(buf, 1, sizeof(buf) - 1, fp) > 0)
                 timeout = atoi(buf);
             fclose(fp);
         }
@@ -269,7 +269,7 @@ uint32_t rbusHandle_FetchSetTimeout(rbusHandle_t handle)
     {
         fp = fopen(fileName, "r");
         if(fp != NULL) {
-            if (fread(buf, 1, sizeof(buf), fp) > 0)
+            if (fread(buf, 1, sizeof(buf) - 1, fp) > 0)
                 timeout = atoi(buf);
             fclose(fp);
         }
@@ -292,7 +292,7 @@ uint32_t rbusHandle_FetchGetMultiTimeout(rbusHandle_t handle)
     {
         fp = fopen(fileName, "r");
         if(fp != NULL) {
-            if (fread(buf, 1, sizeof(buf), fp) > 0)
+            if (fread(buf, 1, sizeof(buf) - 1, fp) > 0)
                 timeout = atoi(buf);
             fclose(fp);
         }
@@ -315,7 +315,7 @@ uint32_t rbusHandle_FetchSetMultiTimeout(rbusHandle_t handle)
     {
         fp = fopen(fileName, "r");
         if(fp != NULL) {
-            if (fread(buf, 1, sizeof(buf), fp) > 0)
+            if (fread(buf, 1, sizeof(buf) - 1, fp) > 0)
                 timeout = atoi(buf);
             fclose(fp);
         }
-- 
2.43.0


From 39a47f3ae5f3b0c8077a889662eff0ba85cd298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 53/99] fix: let providers unregister what they registered as
 before

---
 src/rbus/rbus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 1adc448..99cbb38 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4811,7 +4811,7 @@ rbusError_t rbusTable_unregisterRow(
 
     elementNode* rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
 
-    if(!rowInstElem || !isTableRow(rowInstElem))
+    if(!rowInstElem)
     {
         RBUSLOG_DEBUG("row does not exists %s", rowName);
         return RBUS_ERROR_INVALID_INPUT;
-- 
2.43.0


From f1e12e702f01b3bb08b3d234bc82bb547f288271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 54/99] fix: remove the row that was named from tables with a
 get handler

---
 src/rbus/rbus.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 99cbb38..c7da5d3 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -2538,6 +2538,7 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
     int sessionId;
     char const* rowName;
+    bool servedRow = false;
 
     rbusMessage_GetInt32(request, &sessionId);
     rbusMessage_GetString(request, &rowName);
@@ -2548,7 +2549,26 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
     elementNode* rowRegElem = retrieveElement(handleInfo->elementRoot, rowName);
     elementNode* rowInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, rowName, true);
 
-    if(rowRegElem && rowInstElem && isTableRow(rowInstElem))
+    /*a table with a get handler resolves its rows to the row template: take the row itself, if it was added here*/
+    if(rowInstElem && !isTableRow(rowInstElem) && rowInstElem->parent && rowInstElem->parent->type == RBUS_ELEMENT_TYPE_TABLE && rowInstElem->parent->cbTable.getHandler)
+    {
+        size_t len = strlen(rowName);
+        size_t end = len && rowName[len - 1] == '.' ? len - 1 : len;
+        size_t start = end;
+        elementNode* row = rowInstElem->parent->child;
+
+        while(start > 0 && rowName[start - 1] != '.')
+            start--;
+
+        while(row && !(isTableRow(row) && strlen(row->name) == end - start && strncmp(row->name, rowName + start, end - start) == 0))
+            row = row->nextSibling;
+
+        servedRow = true;
+        if(row)
+            rowInstElem = row;
+    }
+
+    if(rowRegElem && rowInstElem && (servedRow || isTableRow(rowInstElem)))
     {
         /*switch to the row's table */
         elementNode* tableRegElem = rowRegElem->parent;
@@ -2566,7 +2586,8 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
 
                 if (result == RBUS_ERROR_SUCCESS)
                 {
-                    unregisterTableRow(handle, rowInstElem);
+                    if(isTableRow(rowInstElem))
+                        unregisterTableRow(handle, rowInstElem);
                 }
                 else
                 {
-- 
2.43.0


From 5bf33796519398636c770ca9694f7af95e897d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 55/99] fix: remove an alias only from the component that gives
 it up

---
 src/rtmessage/rtrouted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 50264a9..485f469 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -836,7 +836,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
           for (i = 0; i < rtVector_Size(gRoutes); i++)
           {
             rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
-            if((route->subscription) && (route->subscription->client == sender))
+            if((route->subscription) && (route->subscription->client == sender) && (route->subscription->id == route_id))
               rtRoutingTree_RemoveTopic(gRoutingTree, expression, (void *)route);
           }
         }
-- 
2.43.0


From 1986c5042bf6e92f3c51882b54acfdd537bc56f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 56/99] fix: end the callbacks that use a handle before closing
 it, and close without deadlock

---
 src/core/rbuscore.c          |  13 ++--
 src/rbus/rbus.c              |  15 +++--
 src/rbus/rbus_handle.c       | 123 +++++++++++++++++++++++++++--------
 src/rbus/rbus_handle.h       |   8 ++-
 src/rtmessage/rtConnection.c |  42 ++++++++++++
 src/rtmessage/rtConnection.h |   9 +++
 6 files changed, 171 insertions(+), 39 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index b251e7b..b52bad8 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -382,14 +382,13 @@ static void perform_init()
     _rbuscore_directconnection_load_from_cache();
 }
 
+/*called with the lock held*/
 static void perform_cleanup()
 {
     size_t i, sz;
 
     RBUSCORELOG_DEBUG("Performing cleanup");
 
-    lock();
-
     rtVector_Destroy(g_server_objects, server_object_destroy);
 
     rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
@@ -416,8 +415,6 @@ static void perform_cleanup()
         lock();
     }
     rtVector_Destroy(g_event_subscriptions_for_client, client_subscription_destroy);
-
-    unlock();
 }
 
 
@@ -665,6 +662,7 @@ rbusCoreError_t rbus_closeBrokerConnection()
     if(NULL == g_connection)
     {
         RBUSCORELOG_INFO("No connection exist to close.");
+        unlock();
         return RBUSCORE_ERROR_INVALID_STATE;
     }
     if(1 < rtVector_Size(g_server_objects))
@@ -673,12 +671,19 @@ rbusCoreError_t rbus_closeBrokerConnection()
         unlock();
         return RBUSCORE_SUCCESS;
     }
+    unlock();
+
+    /*callbacks use what is released below*/
+    rtConnection_StopDispatch(g_connection);
+
+    lock();
     rbus_releaseOpenTelemetryContext();
     perform_cleanup();
     err = rtConnection_Destroy(g_connection);
     if(RT_OK != err)
     {
         RBUSCORELOG_ERROR("Could not destroy connection. Error: 0x%x.", err);
+        unlock();
         return RBUSCORE_ERROR_GENERAL;
     }
     g_connection = NULL;
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index c7da5d3..cb823e5 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1443,9 +1443,7 @@ static void unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
 
 static void _client_disconnect_callback_handler(const char * listener)
 {
-    LockMutex();
     rbusHandleList_ClientDisconnect(listener);
-    UnlockMutex();
 }
 
 /*Take a subscription off the handle's list and free it, unless a thread is unsubscribing it, which frees it then.
@@ -1544,9 +1542,7 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
 
     rbusEventData_updateFromMessage(&event, &filter, &interval, &duration, &componentId, message);
 
-    LockMutex();
-    handleInfo = rbusHandleList_GetByComponentID(componentId);
-    UnlockMutex();
+    handleInfo = rbusHandleList_AcquireByComponentID(componentId);
 
     if(!handleInfo)
     {
@@ -1591,6 +1587,7 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
     {
         RBUSLOG_DEBUG("Received master event callback: sender=%s eventName=%s, but no subscription found", sender, event.name);
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handleInfo);
+        rbusHandleList_Release(handleInfo);
         rbusObject_Release(event.data);
         rbusFilter_Release(filter);
         return RBUSCORE_ERROR_EVENT_NOT_HANDLED;
@@ -1600,6 +1597,7 @@ exit_1:
     rbusFilter_Release(filter);
 
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handleInfo);
+    rbusHandleList_Release(handleInfo);
     return RBUSCORE_SUCCESS;
 }
 
@@ -3339,6 +3337,11 @@ rbusError_t rbus_close(rbusHandle_t handle)
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
     remove(filename);
 
+    /*first end the callbacks that use the handle: events, then requests*/
+    rbusHandleList_StartClose(handleInfo);
+
+    err = rbus_unregisterObj(handleInfo->componentName);
+
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if(handleInfo->eventSubs)
     {
@@ -3390,7 +3393,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
         handleInfo->elementRoot = NULL;
     }
 
-    if((err = rbus_unregisterObj(handleInfo->componentName)) != RBUSCORE_SUCCESS)
+    if(err != RBUSCORE_SUCCESS)
     {
         RBUSLOG_ERROR("(%s): unregisterObj error %d", handleInfo->componentName, err);
         ret = RBUS_ERROR_INVALID_HANDLE;
diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 55e6487..4e0caee 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -46,93 +46,157 @@ static rtVector gHandleList = NULL;
 }
 extern char *__progname;
 
+/*the list is used by application threads and by callbacks; it isn't locked while anything else is waited for or called*/
+static pthread_mutex_t gHandleListMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t gHandleListCond = PTHREAD_COND_INITIALIZER;
+static __thread struct _rbusHandle* tUsedHandle = NULL;
+
+#define LIST_LOCK() pthread_mutex_lock(&gHandleListMutex)
+#define LIST_UNLOCK() pthread_mutex_unlock(&gHandleListMutex)
+
 bool rbusHandleList_IsValidHandle(struct _rbusHandle* handle)
 {
-    struct _rbusHandle* tmphandle = NULL;
+    bool found = false;
     if (handle == NULL)
     {
         return false;
     }
     int i;
+    LIST_LOCK();
     if(gHandleList)
     {
         int len = rtVector_Size(gHandleList);
-        for(i = 0; i < len; i++)
+        for(i = 0; i < len && !found; i++)
         {
-            tmphandle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(tmphandle == handle)
-            {
-                return true;
-            }
+            found = ((struct _rbusHandle*)rtVector_At(gHandleList, i) == handle);
         }
     }
-    return false;
+    LIST_UNLOCK();
+    return found;
 }
 
 void rbusHandleList_Add(struct _rbusHandle* handle)
 {
     VERIFY_NULL(handle,return);
+    LIST_LOCK();
     if(!gHandleList)
         rtVector_Create(&gHandleList);
     RBUSLOG_DEBUG("adding %p", handle);
     rtVector_PushBack(gHandleList, handle);
+    LIST_UNLOCK();
 }
 
 void rbusHandleList_Remove(struct _rbusHandle* handle)
 {
     VERIFY_NULL(handle,return);
     RBUSLOG_DEBUG("removing %p", handle);
+    LIST_LOCK();
     rtVector_RemoveItem(gHandleList, handle, rtVector_Cleanup_Free);
     if(rtVector_Size(gHandleList) == 0)
     {
         rtVector_Destroy(gHandleList, NULL);
         gHandleList = NULL;
-        return;
     }
+    LIST_UNLOCK();
 }
 
 bool rbusHandleList_IsEmpty()
 {
-    return gHandleList == NULL;
+    LIST_LOCK();
+    bool empty = (gHandleList == NULL);
+    LIST_UNLOCK();
+    return empty;
 }
 
 bool rbusHandleList_IsFull()
 {
-    RBUSLOG_DEBUG("size=%zu", rtVector_Size(gHandleList));
-    return (gHandleList && rtVector_Size(gHandleList) >= RBUS_MAX_HANDLES);
+    LIST_LOCK();
+    bool full = (gHandleList && rtVector_Size(gHandleList) >= RBUS_MAX_HANDLES);
+    LIST_UNLOCK();
+    return full;
+}
+
+static struct _rbusHandle* acquire(size_t index)
+{
+    struct _rbusHandle* handle = (struct _rbusHandle*)rtVector_At(gHandleList, index);
+    if(handle->closing)
+        return NULL;
+    handle->users++;
+    tUsedHandle = handle;
+    return handle;
+}
+
+void rbusHandleList_Release(struct _rbusHandle* handle)
+{
+    LIST_LOCK();
+    handle->users--;
+    if(tUsedHandle == handle)
+        tUsedHandle = NULL;
+    pthread_cond_broadcast(&gHandleListCond);
+    LIST_UNLOCK();
+}
+
+void rbusHandleList_StartClose(struct _rbusHandle* handle)
+{
+    LIST_LOCK();
+    handle->closing = true;
+    /*a callback may close the handle it uses itself*/
+    while(handle->users > (tUsedHandle == handle ? 1 : 0))
+        pthread_cond_wait(&gHandleListCond, &gHandleListMutex);
+    LIST_UNLOCK();
 }
 
 void rbusHandleList_ClientDisconnect(char const* clientListener)
 {
-    size_t i;
-    size_t len;
+    int32_t lastId = 0;
+    bool any = false;
     VERIFY_NULL(clientListener,return);
-    if(gHandleList)/*this could theoretically be null if advisory event comes in between the time rbus_close calls 
-                  rbusHandleList_Remove and rbus_unregisterClientDisconnectHandler*/
+    for(;;)
     {
-        len = rtVector_Size(gHandleList);
+        struct _rbusHandle* handle = NULL;
+        size_t i, next = 0, len;
+
+        /*handles have increasing ids: take the one after the last that was dealt with*/
+        LIST_LOCK();
+        len = gHandleList ? rtVector_Size(gHandleList) : 0;
+        any = any || len > 0;
         for(i = 0; i < len; i++)
         {
-            struct _rbusHandle* handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            HANDLE_SUBS_MUTEX_LOCK(handle);
-            if(handle->subscriptions)
+            struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
+            if(tmp->componentId > lastId && !tmp->closing && (!handle || tmp->componentId < handle->componentId))
             {
-                /*assuming this doesn't reenter this api which could possibly deadlock*/
-                rbusSubscriptions_handleClientDisconnect(handle, handle->subscriptions, clientListener);
+                handle = tmp;
+                next = i;
             }
-            HANDLE_SUBS_MUTEX_UNLOCK(handle);
         }
+        if(handle)
+            acquire(next);
+        LIST_UNLOCK();
 
-        /* Update the Direct Connection */
-        rbuscore_terminatePrivateConnection(clientListener);
+        if(!handle)
+            break;
+
+        lastId = handle->componentId;
+        HANDLE_SUBS_MUTEX_LOCK(handle);
+        if(handle->subscriptions)
+        {
+            rbusSubscriptions_handleClientDisconnect(handle, handle->subscriptions, clientListener);
+        }
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+        rbusHandleList_Release(handle);
     }
+
+    /* Update the Direct Connection */
+    if(any)
+        rbuscore_terminatePrivateConnection(clientListener);
 }
 
-struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
+struct _rbusHandle* rbusHandleList_AcquireByComponentID(int32_t componentId)
 {
     size_t i;
     size_t len;
     struct _rbusHandle* handle = NULL;
+    LIST_LOCK();
     if(gHandleList)
     {
         len = rtVector_Size(gHandleList);
@@ -141,11 +205,12 @@ struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
             struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
             if(tmp->componentId == componentId)
             {
-                handle = tmp;
+                handle = acquire(i);
                 break;
             }
         }
     }
+    LIST_UNLOCK();
     return handle;
 }
 
@@ -155,19 +220,21 @@ struct _rbusHandle* rbusHandleList_GetByName(char const* componentName)
     size_t len;
     struct _rbusHandle* handle = NULL;
     VERIFY_NULL(componentName,return NULL);
+    LIST_LOCK();
     if(gHandleList)
     {
         len = rtVector_Size(gHandleList);
         for(i = 0; i < len; i++)
         {
             struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(strcmp(tmp->componentName, componentName) == 0)
+            if(tmp->componentName && strcmp(tmp->componentName, componentName) == 0)
             {
                 handle = tmp;
                 break;
             }
         }
     }
+    LIST_UNLOCK();
     return handle;
 }
 
diff --git a/src/rbus/rbus_handle.h b/src/rbus/rbus_handle.h
index db8c0c5..783c6e3 100644
--- a/src/rbus/rbus_handle.h
+++ b/src/rbus/rbus_handle.h
@@ -123,6 +123,8 @@ struct _rbusHandle
   pthread_mutex_t       handle_subsMutex;
   rtConnection          m_connectionParent;
   rbusTimeoutValues_t   timeoutValues;
+  int                   users;      /*callbacks that use the handle, guarded by the handle list's mutex*/
+  bool                  closing;    /*no further callbacks use the handle, guarded by the handle list's mutex*/
 };
 
 bool rbusHandleList_IsValidHandle(struct _rbusHandle* handle);
@@ -131,7 +133,11 @@ void rbusHandleList_Remove(struct _rbusHandle* handle);
 bool rbusHandleList_IsEmpty();
 bool rbusHandleList_IsFull();
 void rbusHandleList_ClientDisconnect(char const* clientListener);
-struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId);
+/*find a handle that isn't being closed and keep it from being closed until it is released*/
+struct _rbusHandle* rbusHandleList_AcquireByComponentID(int32_t componentId);
+void rbusHandleList_Release(struct _rbusHandle* handle);
+/*wait until no callback uses the handle, and let none use it from now on*/
+void rbusHandleList_StartClose(struct _rbusHandle* handle);
 struct _rbusHandle* rbusHandleList_GetByName(char const* componentName);
 
 int rbusHandle_TimeoutValuesInit(rbusHandle_t handle);
diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index d393cea..d462d67 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -120,6 +120,10 @@ struct _rtConnection
   pthread_t               callback_thread;
   pthread_mutex_t         callback_message_mutex;
   pthread_cond_t          callback_message_cond;
+  pthread_cond_t          dispatch_cond;
+  int                     dispatching;          /* a callback is under way */
+  int                     dispatch_stopped;     /* no further callbacks */
+  void*                   dispatched_closure;
   pthread_mutex_t         reconnect_mutex;
   rtTime_t                reader_reconnect_time;
   rtTime_t                sender_reconnect_time;
@@ -540,6 +544,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
     return RT_ERROR;
   }
   pthread_cond_init(&c->callback_message_cond, NULL);
+  pthread_cond_init(&c->dispatch_cond, NULL);
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
     c->listeners[i].in_use = 0;
@@ -756,6 +761,7 @@ rtConnection_Destroy(rtConnection con)
     pthread_mutex_destroy(&con->mutex);
     pthread_mutex_destroy(&con->callback_message_mutex);
     pthread_cond_destroy(&con->callback_message_cond);
+    pthread_cond_destroy(&con->dispatch_cond);
     pthread_mutex_destroy(&con->reconnect_mutex);
 
     free(con);
@@ -1283,11 +1289,26 @@ rtConnection_AddListenerWithId(rtConnection con, char const* expression, uint32_
   return RT_OK;
 }
 
+rtError
+rtConnection_StopDispatch(rtConnection con)
+{
+  if (!con)
+    return rtErrorFromErrno(EINVAL);
+
+  pthread_mutex_lock(&con->mutex);
+  con->dispatch_stopped = 1;
+  while (con->dispatching && !pthread_equal(pthread_self(), con->callback_thread))
+    pthread_cond_wait(&con->dispatch_cond, &con->mutex);
+  pthread_mutex_unlock(&con->mutex);
+  return RT_OK;
+}
+
 rtError
 rtConnection_RemoveListener(rtConnection con, char const* expression)
 {
   int i;
   int route_id = 0;
+  void* closure = NULL;
 
   if (!con)
     return rtErrorFromErrno(EINVAL);
@@ -1300,6 +1321,7 @@ rtConnection_RemoveListener(rtConnection con, char const* expression)
         con->listeners[i].in_use = 0;
         route_id = con->listeners[i].subscription_id;
         con->listeners[i].subscription_id = 0;
+        closure = con->listeners[i].closure;
         con->listeners[i].closure = NULL;
         con->listeners[i].callback = NULL;
         free(con->listeners[i].expression);
@@ -1307,6 +1329,11 @@ rtConnection_RemoveListener(rtConnection con, char const* expression)
         break;
     }
   }
+
+  /*whoever removes the listener may free what its callback uses: let a callback that is under way end first*/
+  while (closure && con->dispatching && con->dispatched_closure == closure && !pthread_equal(pthread_self(), con->callback_thread))
+    pthread_cond_wait(&con->dispatch_cond, &con->mutex);
+
   pthread_mutex_unlock(&con->mutex);
 
   if (i >= RTMSG_LISTENERS_MAX)
@@ -1843,6 +1870,15 @@ static void * rtConnection_CallbackThread(void *data)
         }
       }
 
+      if(con->dispatch_stopped)
+        callback = NULL;
+
+      if(callback)
+      {
+        con->dispatching = 1;
+        con->dispatched_closure = msginfo->userData;
+      }
+
       pthread_mutex_unlock(&con->mutex);
 
       /*process the message without locking any mutex*/
@@ -1851,6 +1887,12 @@ static void * rtConnection_CallbackThread(void *data)
           //rtLog_Error("rtConnection_CallbackThread before callback");
           callback(&msginfo->header, msginfo->data, msginfo->dataLength, msginfo->userData);
           //rtLog_Error("rtConnection_CallbackThread after callback");
+
+          pthread_mutex_lock(&con->mutex);
+          con->dispatching = 0;
+          con->dispatched_closure = NULL;
+          pthread_cond_broadcast(&con->dispatch_cond);
+          pthread_mutex_unlock(&con->mutex);
       }
       else
       {
diff --git a/src/rtmessage/rtConnection.h b/src/rtmessage/rtConnection.h
index 25b3372..63d4dcb 100644
--- a/src/rtmessage/rtConnection.h
+++ b/src/rtmessage/rtConnection.h
@@ -207,8 +207,17 @@ rtConnection_GetNextSubscriptionId();
 rtError
 rtConnection_AddListener(rtConnection con, char const* expression, rtMessageCallback callback, void* closure);
 
+/**
+ * Start no further listener callbacks and wait until one that is under way has ended
+ * @param con
+ * @return error
+ */
+rtError
+rtConnection_StopDispatch(rtConnection con);
+
 /**
  * Remove a callback listener
+ * A callback of the listener that is under way has ended when this returns, unless it is the caller.
  * @param con
  * @param topic expression
  * @return error
-- 
2.43.0


From be5737f170d9a104fb0dd1bb1743a65c3bc92896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 57/99] fix: refuse to end a session whose number is not a
 number

---
 src/session_manager/session_manager.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/session_manager/session_manager.c b/src/session_manager/session_manager.c
index 936d3d9..c5fd963 100644
--- a/src/session_manager/session_manager.c
+++ b/src/session_manager/session_manager.c
@@ -113,7 +113,8 @@ static rbusError_t sessionManager_methodHandler(rbusHandle_t handle,
         int sessionid = 0;
         int result = 0;
         prop = rbusObject_GetProperties(inParams);
-        if ((prop) && (sessionid = rbusValue_GetInt32(rbusProperty_GetValue(prop))))
+        rbusValue_t value = prop ? rbusProperty_GetValue(prop) : NULL;
+        if ((value) && (rbusValue_GetType(value) == RBUS_INT32) && (sessionid = rbusValue_GetInt32(value)))
         {
             if(sessionid == g_current_session_id)
             {
-- 
2.43.0


From 01c6c371ed1f0cbd5ea9ba5e6d04cec539af9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 58/99] fix: write a trace context only into buffers that have
 room

---
 src/rbus/rbus.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index cb823e5..9ca9aff 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6742,7 +6742,7 @@ rbusError_t rbusHandle_GetTraceContextAsString(
 
     rbus_getOpenTelemetryContext(&s, &t);
 
-    if (traceParent)
+    if (traceParent && traceParentLength > 0)
     {
         if (s)
         {
@@ -6754,7 +6754,7 @@ rbusError_t rbusHandle_GetTraceContextAsString(
             traceParent[0] = '\0';
     }
 
-    if (traceState)
+    if (traceState && traceStateLength > 0)
     {
         if (t)
         {
-- 
2.43.0


From 02dc47535ae956b04eac82dccbf2ebc1d4bb5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 59/99] fix: carry the trace context of asynchronous and direct
 calls, and nothing after them

---
 src/core/rbuscore.c |  5 +++++
 src/rbus/rbus.c     | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index b52bad8..3b31fc2 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -498,7 +498,10 @@ static void dispatch_method_call(rbusMessage msg, const rtMessageHeader *hdr, se
     {
         unlock();
         if(obj->callback(hdr->topic, method_name, msg, obj->data, &response, hdr) == RBUSCORE_SUCCESS_ASYNC) //FIXME: potential for race
+        {
+            rbus_clearOpenTelemetryContext();
             return;/*provider will send response async later on*/
+        }
     }
     /* Clear the context for next method */
     rbus_clearOpenTelemetryContext();
@@ -2734,7 +2737,9 @@ static rtError _onDirectMessage(uint8_t isClientRequest, rtMessageHeader* hdr, u
         directServerUnlock();
         if(pSubObj)
         {
+            rbus_setOpenTelemetryContext(traceParent, traceState);
             pSubObj->m_fnCallbackHandler(hdr->topic, method_name, msg, pSubObj->m_fnCallbackuserData, &response, hdr);
+            rbus_clearOpenTelemetryContext();
         }
         else
         {
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 9ca9aff..f154410 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6383,6 +6383,8 @@ typedef struct _rbusMethodInvokeAsyncData_t
     rbusObject_t inParams; 
     rbusMethodAsyncRespHandler_t callback;
     int timeout;
+    char* traceParent;
+    char* traceState;
 } rbusMethodInvokeAsyncData_t;
 
 static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
@@ -6392,12 +6394,15 @@ static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
     rbusObject_t outParams = NULL;
     if(!data)
         return NULL;
+    /*the call is made for the thread that asked for it*/
+    rbus_setOpenTelemetryContext(data->traceParent, data->traceState);
     err = rbusMethod_InvokeInternal(
         data->handle,
         data->methodName, 
         data->inParams, 
         &outParams,
         data->timeout);
+    rbus_clearOpenTelemetryContext();
 
     data->callback(data->handle, data->methodName, err, outParams);
 
@@ -6405,6 +6410,8 @@ static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
     if(outParams)
         rbusObject_Release(outParams);
     free(data->methodName);
+    free(data->traceParent);
+    free(data->traceState);
     free(data);
 
     return NULL;
@@ -6437,6 +6444,11 @@ rbusError_t rbusMethod_InvokeAsync(
     data->inParams = inParams;
     data->callback = callback;
     data->timeout = timeout > 0 ? (timeout * 1000) : (int)rbusHandle_FetchSetTimeout(handle); /* convert seconds to milliseconds */
+    char const* traceParent = NULL;
+    char const* traceState = NULL;
+    rbus_getOpenTelemetryContext(&traceParent, &traceState);
+    data->traceParent = strdup(traceParent);
+    data->traceState = strdup(traceState);
 
     if((err = pthread_create(&pid, NULL, rbusMethod_InvokeAsyncThreadFunc, data)) != 0)
     {
-- 
2.43.0


From 69850ef5c7b73bf088230fc1af86b5e33da5d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 60/99] fix: let the reader go on while a sender waits for the
 router

---
 src/rtmessage/rtConnection.c | 63 +++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index d462d67..a015999 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -111,6 +111,7 @@ struct _rtConnection
   char                    inbox_name[RTMSG_HEADER_MAX_TOPIC_LENGTH];
   struct _rtListener      listeners[RTMSG_LISTENERS_MAX];
   pthread_mutex_t         mutex;
+  pthread_mutex_t         send_mutex; /*guards the socket's sending side: a sender may wait in it for the router, while the reader must go on*/
   rtList                  pending_requests_list;
   rtList                  callback_message_list;
   rtMessageCallback       default_callback;
@@ -536,6 +537,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   pthread_mutexattr_init(&mutex_attribute);
   pthread_mutexattr_settype(&mutex_attribute, PTHREAD_MUTEX_ERRORCHECK);
   if (0 != pthread_mutex_init(&c->mutex, &mutex_attribute) ||
+      0 != pthread_mutex_init(&c->send_mutex, &mutex_attribute) ||
       0 != pthread_mutex_init(&c->callback_message_mutex, &mutex_attribute) ||
       0 != pthread_mutex_init(&c->reconnect_mutex, &mutex_attribute))
   {
@@ -759,6 +761,7 @@ rtConnection_Destroy(rtConnection con)
     }
 
     pthread_mutex_destroy(&con->mutex);
+    pthread_mutex_destroy(&con->send_mutex);
     pthread_mutex_destroy(&con->callback_message_mutex);
     pthread_cond_destroy(&con->callback_message_cond);
     pthread_cond_destroy(&con->dispatch_cond);
@@ -793,14 +796,12 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
     uint32_t sequence_number;
     rtMessage_ToByteArrayWithSize(msg, &p, DEFAULT_SEND_BUFFER_SIZE, &n);  /*FIXME unification is this needed ? rtMessage_FreeByteArray(p);*/
 
-    pthread_mutex_lock(&con->mutex);
 #ifdef C11_ATOMICS_SUPPORTED
     sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
 #else
     sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
 #endif
     err = rtConnection_SendInternal(con, p, n, topic, listener, 0, sequence_number, 0, 0, 0);
-    pthread_mutex_unlock(&con->mutex);
     rtMessage_FreeByteArray(p);
 
     if(err == RT_NO_CONNECTION)
@@ -853,10 +854,8 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
     uint32_t n;
 
     rtMessage_ToByteArrayWithSize(res, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
-    pthread_mutex_lock(&con->mutex);
   //TODO: should we send response on reconnect ?
     err = rtConnection_SendInternal(con, p, n, request_hdr->reply_topic, request_hdr->topic, rtMessageFlags_Response, request_hdr->sequence_number, 0, 0, 0);
-    pthread_mutex_unlock(&con->mutex);
     rtMessage_FreeByteArray(p);
 
     if(err == RT_NO_CONNECTION)
@@ -900,9 +899,7 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
     sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
 #endif
 
-    pthread_mutex_lock(&con->mutex);
     err = rtConnection_SendInternal(con, p, n, topic, listener, rtMessageFlags_RawBinary, sequence_number, 0, 0, 0);
-    pthread_mutex_unlock(&con->mutex);
 
     if(err == RT_NO_CONNECTION)
     {
@@ -963,7 +960,6 @@ rtConnection_SendBinaryResponse(rtConnection con, rtMessageHeader const* request
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  pthread_mutex_lock(&con->mutex);
 #ifdef MSG_ROUNDTRIP_TIME
   err = rtConnection_SendInternal(con, p, n, request_hdr->reply_topic, request_hdr->topic,
     rtMessageFlags_Response|rtMessageFlags_RawBinary, request_hdr->sequence_number, request_hdr->T1, request_hdr->T2, request_hdr->T3);
@@ -972,7 +968,6 @@ rtConnection_SendBinaryResponse(rtConnection con, rtMessageHeader const* request
     rtMessageFlags_Response|rtMessageFlags_RawBinary, request_hdr->sequence_number, 0, 0, 0);
 #endif
 
-  pthread_mutex_unlock(&con->mutex);
   return err;
 }
 
@@ -1007,15 +1002,14 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
     queue_entry.response = NULL;
 
     rtList_PushFront(con->pending_requests_list, (void*)&queue_entry, &listItem);
+    pthread_mutex_unlock(&con->mutex);
+
     err = rtConnection_SendInternal(con, p, n, topic, con->inbox_name, rtMessageFlags_Request | flags, sequence_number, 0, 0, 0);
     if (err != RT_OK)
     {
       ret = err;
-      goto dequeue_and_continue;
     }
-    pthread_mutex_unlock(&con->mutex);
-
-    if(tid != con->read_tid)
+    else if(tid != con->read_tid)
     {
       rtTime_t timeout_time;
       rtTime_Later(NULL, timeout, &timeout_time);
@@ -1097,7 +1091,6 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
       rtMessageInfo_Release(queue_entry.response);
     }
 
-dequeue_and_continue:
     rtList_RemoveItem(con->pending_requests_list, listItem, NULL);
     pthread_mutex_unlock(&con->mutex);
     rtSemaphore_Destroy(queue_entry.sem);
@@ -1118,8 +1111,8 @@ dequeue_and_continue:
   }
 }
 
-rtError
-rtConnection_SendInternal(rtConnection con, uint8_t const* buff, uint32_t n, char const* topic,
+static rtError
+rtConnection_SendLocked(rtConnection con, uint8_t const* buff, uint32_t n, char const* topic,
   char const* reply_topic, int flags, uint32_t sequence_number, uint32_t T1, uint32_t T2, uint32_t T3)
 {
   rtError err;
@@ -1130,9 +1123,6 @@ rtConnection_SendInternal(rtConnection con, uint8_t const* buff, uint32_t n, cha
   uint8_t const* message =NULL;
   uint32_t message_length;
 
-  if (!con)
-    return rtErrorFromErrno(EINVAL);
-
 #ifdef MSG_ROUNDTRIP_TIME
   rtTime_t send_time;
   rtTime_Now(&send_time);
@@ -1222,12 +1212,26 @@ rtConnection_SendInternal(rtConnection con, uint8_t const* buff, uint32_t n, cha
   {
     err = RT_OK;
     bytes_sent = sendmsg(con->fd, &send_hdr, MSG_NOSIGNAL);
-    if (bytes_sent != (ssize_t)(header.header_length + header.payload_length))
+    if (bytes_sent == -1)
     {
-      if (bytes_sent == -1)
-        err = rtErrorFromErrno(errno);
-      else
+      err = rtErrorFromErrno(errno);
+    }
+    else
+    {
+      /*go on where a partial send ended: repeating its bytes would break the stream*/
+      while (send_hdr.msg_iovlen > 0 && (size_t)bytes_sent >= send_hdr.msg_iov->iov_len)
+      {
+        bytes_sent -= send_hdr.msg_iov->iov_len;
+        send_hdr.msg_iov++;
+        send_hdr.msg_iovlen--;
+      }
+      if (send_hdr.msg_iovlen > 0)
+      {
+        send_hdr.msg_iov->iov_base = (uint8_t *)send_hdr.msg_iov->iov_base + bytes_sent;
+        send_hdr.msg_iov->iov_len -= bytes_sent;
+        num_attempts = 0;
         err = RT_FAIL;
+      }
     }
 
     if (err != RT_OK && rtConnection_ShouldReregister(err))
@@ -1242,6 +1246,21 @@ rtConnection_SendInternal(rtConnection con, uint8_t const* buff, uint32_t n, cha
   return err;
 }
 
+static rtError
+rtConnection_SendInternal(rtConnection con, uint8_t const* buff, uint32_t n, char const* topic,
+  char const* reply_topic, int flags, uint32_t sequence_number, uint32_t T1, uint32_t T2, uint32_t T3)
+{
+  rtError err;
+
+  if (!con)
+    return rtErrorFromErrno(EINVAL);
+
+  pthread_mutex_lock(&con->send_mutex);
+  err = rtConnection_SendLocked(con, buff, n, topic, reply_topic, flags, sequence_number, T1, T2, T3);
+  pthread_mutex_unlock(&con->send_mutex);
+  return err;
+}
+
 rtError
 rtConnection_AddListener(rtConnection con, char const* expression, rtMessageCallback callback, void* closure)
 {
-- 
2.43.0


From 4c6c61fa090c8c8d901a187ddae65bbc06aec4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:29 +0000
Subject: [PATCH 61/99] fix: deliver nothing to a subscription that was ended
 while its provider was away

---
 src/rbus/rbus.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index f154410..983cef7 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1565,9 +1565,9 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
             if(errorcode != RBUS_ERROR_DESTINATION_NOT_FOUND)
             {
                 rbusEventSubscriptionInternal_free(subInternal);
-                errorcode = RBUS_ERROR_SUCCESS;
-                goto exit_1;
             }
+            errorcode = RBUS_ERROR_SUCCESS;
+            goto exit_1;
         }
         if (event.type == RBUS_EVENT_DURATION_COMPLETE) {
             duration_complete = true;
-- 
2.43.0


From f389b2040dd23b575283e70a61c933afcb0f46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:29 +0000
Subject: [PATCH 62/99] fix: keep the subscription cache whole when the
 provider ends while writing it

---
 src/rbus/rbus_subscriptions.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index f901a6d..8dbc100 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -614,8 +614,11 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
     rtListItem item;
     rbusSubscription_t* sub;
     char filePath[256];
+    char newPath[260];
+    size_t written;
 
     snprintf(filePath, 256, CACHE_FILE_PATH_FORMAT, subscriptions->tmpDir, subscriptions->componentName);
+    snprintf(newPath, sizeof(newPath), "%s~", filePath);
 
     RBUSLOG_DEBUG("saving Cache %s", filePath);
 
@@ -631,11 +634,12 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         return;
     }
 
-    file = fopen(filePath, "wb");
+    /*written beside the file and renamed, so that the file is whole whenever this process ends*/
+    file = fopen(newPath, "wb");
 
     if(!file)
     {
-        RBUSLOG_ERROR("failed to open %s", filePath);
+        RBUSLOG_ERROR("failed to open %s", newPath);
         return;
     }
 
@@ -648,6 +652,7 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         {
             rbusBuffer_Destroy(buff);
             fclose(file);
+            remove(newPath);
             return;
         }
         rbusBuffer_WriteStringTLV(buff, sub->listener, strlen(sub->listener)+1);
@@ -667,11 +672,15 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         rtListItem_GetNext(item, &item);
     }
 
-    fwrite(buff->data, 1, buff->posWrite, file);
+    written = fwrite(buff->data, 1, buff->posWrite, file);
 
-    rbusBuffer_Destroy(buff);
+    if(fclose(file) != 0 || written != (size_t)buff->posWrite || rename(newPath, filePath) != 0)
+    {
+        RBUSLOG_ERROR("failed to save %s", filePath);
+        remove(newPath);
+    }
 
-    fclose(file);
+    rbusBuffer_Destroy(buff);
 }
 
 /*this is basicially a strcmp with the addition that it will ignore any wildcard (e.g. "*") in the event name
-- 
2.43.0


From b2d47554d06b0b304cb36913e5693da5bf29e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 63/99] fix: turn away clients whose descriptor select cannot
 watch

---
 src/rtmessage/rtrouted.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 485f469..b111258 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1749,6 +1749,14 @@ rtRouted_AcceptClientConnection(rtListener* listener)
     rtLog_Warn("accept:%s", rtStrError(errno));
     return;
   }
+
+  /* select cannot watch it */
+  if (fd >= FD_SETSIZE)
+  {
+    rtLog_Warn("too many clients, turning away %d", fd);
+    close(fd);
+    return;
+  }
   
   uint32_t one = 1;
   setsockopt(fd, SOL_TCP, TCP_NODELAY, &one, sizeof(one));
-- 
2.43.0


From 1271291fbabeb9a65d962ad092eb98141c5df7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 64/99] fix: read from connections whose descriptor is beyond
 FD_SETSIZE

---
 src/rtmessage/rtConnection.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index a015999..92d72b4 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -45,6 +45,7 @@ typedef volatile int atomic_uint_least32_t;
 
 #include <arpa/inet.h>
 #include <errno.h>
+#include <poll.h>
 #include <fcntl.h>
 #include <sys/select.h>
 #include <sys/wait.h>
@@ -485,17 +486,12 @@ rtConnection_ReadUntil(rtConnection con, uint8_t* buff, int count, int32_t timeo
 
   while (bytes_read < bytes_to_read)
   {
-    fd_set read_fds;
-    FD_ZERO(&read_fds);
-    FD_SET(con->fd, &read_fds);
-
     if ((0 < timeout) && (timeout != INT32_MAX))
     {
       // TODO: include suseconds_t tv_usecs;
-      time_t seconds = (timeout / 1000);
-      struct timeval tv = { seconds, 0 };
-      select(con->fd + 1, &read_fds, NULL, NULL, &tv);
-      if (!FD_ISSET(con->fd, &read_fds))
+      int seconds = (timeout / 1000);
+      struct pollfd read_fd = { con->fd, POLLIN, 0 };
+      if (poll(&read_fd, 1, seconds * 1000) == 0)
         return RT_ERROR_TIMEOUT;
     }
 
@@ -1502,10 +1498,6 @@ _rtConnection_ReadAndDropBytes(int fd, unsigned int bytes_to_read)
 
   while (0 < bytes_to_read)
   {
-    fd_set read_fds;
-    FD_ZERO(&read_fds);
-    FD_SET(fd, &read_fds);
-    
     ssize_t n = recv(fd, buff, (sizeof(buff) > bytes_to_read ? bytes_to_read : sizeof(buff)), MSG_NOSIGNAL);
     if (n == 0)
     {
-- 
2.43.0


From b0b6a0e07e21a176a6cf6c5bc7748b7e300aabe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 65/99] fix: serve the other clients while dropping a message
 there is no memory for

---
 src/rtmessage/rtrouteBase.c | 13 ++++++++++++-
 src/rtmessage/rtrouteBase.h |  1 +
 src/rtmessage/rtrouted.c    | 13 ++++++++++++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 69729a4..4485be0 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -319,6 +319,7 @@ rtConnectedClient_Init(rtConnectedClient* clnt, int fd, struct sockaddr_storage*
   memset(clnt->read_buffer, 0, RTMSG_CLIENT_READ_BUFFER_SIZE);
   memset(clnt->send_buffer, 0, RTMSG_CLIENT_READ_BUFFER_SIZE);
   clnt->read_buffer_capacity = RTMSG_CLIENT_READ_BUFFER_SIZE;
+  clnt->bytes_to_drop = 0;
 #ifdef WITH_SPAKE2
   clnt->cipher = NULL;
   clnt->encryption_key = NULL;
@@ -357,6 +358,9 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
   }
 #endif
 
+  if (clnt->bytes_to_drop > 0)
+    bytes_to_read = clnt->bytes_to_drop < RTMSG_CLIENT_READ_BUFFER_SIZE ? clnt->bytes_to_drop : RTMSG_CLIENT_READ_BUFFER_SIZE;
+
   bytes_read = recv(clnt->fd, &clnt->read_buffer[clnt->bytes_read], bytes_to_read, MSG_NOSIGNAL);
   if (bytes_read == -1)
   {
@@ -371,6 +375,13 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
     return RT_ERROR_STREAM_CLOSED;
   }
 
+  /* the rest of a message that there was no memory for */
+  if (clnt->bytes_to_drop > 0)
+  {
+    clnt->bytes_to_drop -= bytes_read;
+    return RT_OK;
+  }
+
   clnt->bytes_read += bytes_read;
 
   switch (clnt->state)
@@ -437,7 +448,7 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
           else
           {
             rtLog_Info("Couldn't not reallocate read buffer to accommodate %d bytes. Message will be dropped.", incoming_data_size);
-            _rtConnection_ReadAndDropBytes(clnt->fd, clnt->header.payload_length);
+            clnt->bytes_to_drop = clnt->header.payload_length;
             rtConnectedClient_Reset(clnt);
             break;
           }
diff --git a/src/rtmessage/rtrouteBase.h b/src/rtmessage/rtrouteBase.h
index 389888a..dcff9d1 100644
--- a/src/rtmessage/rtrouteBase.h
+++ b/src/rtmessage/rtrouteBase.h
@@ -40,6 +40,7 @@ typedef struct
   int                       bytes_read;
   int                       bytes_to_read;
   int                       read_buffer_capacity;
+  int                       bytes_to_drop;
   rtMessageHeader           header;
 #ifdef WITH_SPAKE2
   rtCipher*                 cipher;
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index b111258..50fbba0 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1439,6 +1439,7 @@ rtConnectedClient_Init(rtConnectedClient* clnt, int fd, struct sockaddr_storage*
   memset(clnt->read_buffer, 0, RTMSG_CLIENT_READ_BUFFER_SIZE);
   memset(clnt->send_buffer, 0, RTMSG_CLIENT_READ_BUFFER_SIZE);
   clnt->read_buffer_capacity = RTMSG_CLIENT_READ_BUFFER_SIZE;
+  clnt->bytes_to_drop = 0;
 #ifdef WITH_SPAKE2
   clnt->cipher = NULL;
   clnt->encryption_key = NULL;
@@ -1574,6 +1575,9 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
   }
 #endif
 
+  if (clnt->bytes_to_drop > 0)
+    bytes_to_read = clnt->bytes_to_drop < RTMSG_CLIENT_READ_BUFFER_SIZE ? clnt->bytes_to_drop : RTMSG_CLIENT_READ_BUFFER_SIZE;
+
   bytes_read = recv(clnt->fd, &clnt->read_buffer[clnt->bytes_read], bytes_to_read, MSG_NOSIGNAL);
   if (bytes_read == -1)
   {
@@ -1589,6 +1593,13 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
     return RT_ERROR_STREAM_CLOSED;
   }
 
+  /* the rest of a message that there was no memory for */
+  if (clnt->bytes_to_drop > 0)
+  {
+    clnt->bytes_to_drop -= bytes_read;
+    return RT_OK;
+  }
+
   clnt->bytes_read += bytes_read;
 
   switch (clnt->state)
@@ -1655,7 +1666,7 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           else
           {
             rtLog_Info("Couldn't not reallocate read buffer to accommodate %d bytes. Message will be dropped.", incoming_data_size);
-            _rtConnection_ReadAndDropBytes(clnt->fd, clnt->header.payload_length);
+            clnt->bytes_to_drop = clnt->header.payload_length;
             rtConnectedClient_Reset(clnt);
             break;
           }
-- 
2.43.0


From c13ee20831c20fa5762abd46f33e6f248e8c329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 66/99] fix: parse JSON messages without looking at the byte
 behind them

---
 src/rtmessage/rtMessage.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index bd8afc1..94d32b8 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -124,7 +124,19 @@ rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
   *message = (rtMessage) rt_try_malloc(sizeof(struct _rtMessage));
   if(!*message)
     return rtErrorFromErrno(ENOMEM);
-  (*message)->json = n > 0 ? cJSON_ParseWithLength((char *) bytes, (size_t) n) : NULL;
+  (*message)->json = NULL;
+  if(n > 0)
+  {
+    /* cJSON (up to 1.7.17) looks at the byte behind a text which ends early */
+    char* text = (char *) rt_try_malloc((size_t) n + 1);
+    if(text)
+    {
+      memcpy(text, bytes, (size_t) n);
+      text[n] = '\0';
+      (*message)->json = cJSON_ParseWithLength(text, (size_t) n);
+      free(text);
+    }
+  }
   if (!(*message)->json)
   {
     free(*message);
-- 
2.43.0


From 2222c4cb706429a1750a2ae4a3ea7d748d9e384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 67/99] fix: do not look before the start of an empty name

---
 src/rbus/rbus.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 983cef7..881dfcb 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1022,9 +1022,9 @@ bool _is_valid_get_query(char const* name)
         int length = strlen (name);
         int temp = 0;
         temp = length - 1;
-        if (('!' == name[temp]) ||
+        if ((length > 0) && (('!' == name[temp]) ||
             (')' == name[temp]) ||
-            (NULL != strstr (name, "(")))
+            (NULL != strstr (name, "("))))
         {
             RBUSLOG_DEBUG("Event or Method is Queried");
             return false;
@@ -1050,7 +1050,7 @@ bool _is_wildcard_query(char const* name)
         int temp = 0;
         temp = length - 1;
 
-        if (('.' == name[temp]) || (NULL != strstr (name, "*")))
+        if ((length > 0) && (('.' == name[temp]) || (NULL != strstr (name, "*"))))
         {
             RBUSLOG_DEBUG("The Query is having wildcard.. ");
             return true;
@@ -2000,7 +2000,7 @@ rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *par
     snprintf(instanceName, RBUS_MAX_NAME_LENGTH, "%s", parameterName);
     int length = strlen(instanceName) - 1;
 
-    if ((instanceName[length] == '*') && (instanceName[length-1] == '.'))
+    if ((length > 0) && (instanceName[length] == '*') && (instanceName[length-1] == '.'))
     {
         instanceName[length] = '\0';
         length--;
@@ -2051,7 +2051,7 @@ rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *par
         if (result == RBUS_ERROR_SUCCESS && missing && *pCount == countBefore)
             result = RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
-    else if (instanceName[length] == '.')
+    else if (length >= 0 && instanceName[length] == '.')
     {
         int hasInstance = 1;
         el = retrieveInstanceElementEx(handle, handleInfo->elementRoot, instanceName, true);
@@ -4656,7 +4656,7 @@ rbusError_t rbusTable_addRow(
 
     RBUSLOG_DEBUG(" %s %s", tableName, aliasName);
 
-    if(tableName[strlen(tableName)-1] != dot)
+    if(tableName[0] == '\0' || tableName[strlen(tableName)-1] != dot)
     {
         RBUSLOG_WARN("invalid table name %s", tableName);
         return RBUS_ERROR_INVALID_INPUT;
-- 
2.43.0


From fda2188ccc75766a467149584d844c0d4535d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 68/99] fix: refuse handles that are not open in every call

---
 src/rbus/rbus.c         | 54 ++++++++++++++++++++---------------------
 src/rbus/rbus_handle.c  | 12 +++++----
 src/rbus/rbus_message.c | 14 +++++------
 3 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 881dfcb..993060d 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -327,7 +327,7 @@ static rbusEventSubscriptionInternal_t* rbusEventSubscription_find(rtVector even
 
 rbusError_t rbusHandle_ConfigTimeoutValues(rbusHandle_t handle, rbusTimeoutValues_t timeoutValues)
 {
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     rbusHandle_ConfigSetTimeout(handle, timeoutValues.setTimeout);
     rbusHandle_ConfigGetTimeout(handle, timeoutValues.getTimeout);
     rbusHandle_ConfigSetMultiTimeout(handle, timeoutValues.setMultiTimeout);
@@ -3243,6 +3243,7 @@ rbusError_t rbus_openDirect(rbusHandle_t handle, rbusHandle_t* myDirectHandle, c
     rbusCoreError_t err = RBUSCORE_SUCCESS;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
+    VERIFY_HANDLE(handle);
     if ((handle) && (myDirectHandle) && (pParameterName))
     {
         if (rbuscore_FindClientPrivateConnection(pParameterName))
@@ -3294,7 +3295,7 @@ rbusError_t rbus_closeDirect(rbusHandle_t handle)
     rbusCoreError_t err = RBUSCORE_SUCCESS;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     if (RBUS_HWDL_TYPE_DIRECT == handleInfo->m_handleType)
     {
         if (sDisConnHandler == 1)
@@ -3577,11 +3578,8 @@ rbusError_t rbus_discoverComponentName (rbusHandle_t handle,
                             int *numComponents, char ***componentName)
 {
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
-    if(handle == NULL)
-    {
-        return RBUS_ERROR_INVALID_INPUT;
-    }
-    else if ((numElements < 1) || (NULL == elementNames[0]))
+    VERIFY_HANDLE(handle);
+    if ((numElements < 1) || (NULL == elementNames[0]))
     {
         RBUSLOG_WARN("Invalid input passed to rbus_discoverElementsObjects");
         return RBUS_ERROR_INVALID_INPUT;
@@ -3612,7 +3610,7 @@ rbusError_t rbus_discoverComponentDataElements (rbusHandle_t handle,
     *numElements = 0;
     *elementNames = 0;
     UNUSED1(nextLevel);
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(name);
 
     ret = rbus_discoverObjectElements(name, numElements, elementNames);
@@ -3803,7 +3801,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
     int i;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
 
-    VERIFY_NULL(handleInfo);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(pParamNames);
     VERIFY_NULL(numValues);
     VERIFY_NULL(retProperties);
@@ -4648,7 +4646,7 @@ rbusError_t rbusTable_addRow(
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
     rbusLegacyReturn_t legacyRetCode = RBUS_LEGACY_ERR_FAILURE;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(tableName);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
@@ -4726,7 +4724,7 @@ rbusError_t rbusTable_removeRow(
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
     rbusLegacyReturn_t legacyRetCode = RBUS_LEGACY_ERR_FAILURE;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(rowName);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
@@ -4788,7 +4786,7 @@ rbusError_t rbusTable_registerRow(
     char rowName[RBUS_MAX_NAME_LENGTH] = {0};
     int rc;
 
-    VERIFY_NULL(handleInfo);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(tableName);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
@@ -4827,7 +4825,7 @@ rbusError_t rbusTable_unregisterRow(
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    VERIFY_NULL(handleInfo);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(rowName);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
@@ -4855,7 +4853,7 @@ rbusError_t rbusTable_getRowNames(
     rbusMessage request, response;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4985,7 +4983,7 @@ rbusError_t rbusElementInfo_get(
     VERIFY_NULL(elemInfo);
     *elemInfo = NULL;
 
-    VERIFY_NULL(handleInfo);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -5491,7 +5489,7 @@ rbusError_t  rbusEvent_SubscribeRawData(
     rbusEventSubscriptionInternal_t* subInternal = NULL;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(eventName);
     VERIFY_NULL(handler);
 
@@ -5770,7 +5768,7 @@ rbusError_t rbusEvent_SubscribeExRawData(
     rbusEventSubscriptionInternal_t* subInternal;
     int i;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(subscription);
     VERIFY_ZERO(numSubscriptions);
 
@@ -5856,7 +5854,7 @@ rbusError_t rbusEvent_SubscribeExAsync(
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     int i;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(subscription);
     VERIFY_NULL(subscribeHandler);
     VERIFY_ZERO(numSubscriptions);
@@ -5897,7 +5895,7 @@ rbusError_t rbusEvent_UnsubscribeExRawData(
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(subscription);
     VERIFY_ZERO(numSubscriptions);
 
@@ -5982,7 +5980,7 @@ rbusError_t rbusEvent_UnsubscribeEx(
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(subscription);
     VERIFY_ZERO(numSubscriptions);
     char topic[RBUS_MAX_NAME_LENGTH] = {0};
@@ -6045,9 +6043,9 @@ bool rbusEvent_IsSubscriptionExist(
     char const*                 eventName,
     rbusEventSubscription_t*    subscription)
 {
-    if (handle == NULL)
+    if (!rbusHandleList_IsValidHandle(handle))
     {
-        RBUSLOG_ERROR("failed, hanlder is NULL");
+        RBUSLOG_ERROR("failed, handle is invalid");
         return false;
     }
 
@@ -6091,7 +6089,7 @@ rbusError_t  rbusEvent_PublishRawData(
     rbusCoreError_t err = RBUSCORE_SUCCESS;
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(eventData);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
@@ -6150,7 +6148,7 @@ rbusError_t  rbusEvent_Publish(
     rbusValue_t newVal = NULL;
     rbusValue_t oldVal = NULL;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(eventData);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
@@ -6294,7 +6292,7 @@ rbusError_t rbusMethod_InvokeInternal(
     rbusValue_t value1 = NULL, value2 = NULL;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
 
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(methodName);
     VERIFY_NULL(outParams);
 
@@ -6717,7 +6715,7 @@ rbusError_ToString(rbusError_t e)
 rbusError_t rbusHandle_ClearTraceContext(
     rbusHandle_t  rbus)
 {
-    if (!rbus)
+    if (!rbusHandleList_IsValidHandle(rbus))
         return RBUS_ERROR_INVALID_HANDLE;
 
     rbus_clearOpenTelemetryContext();
@@ -6730,7 +6728,7 @@ rbusError_t rbusHandle_SetTraceContextFromString(
     char const*   traceParent,
     char const*   traceState)
 {
-    if (!rbus)
+    if (!rbusHandleList_IsValidHandle(rbus))
       return RBUS_ERROR_INVALID_HANDLE;
 
     rbus_setOpenTelemetryContext(traceParent, traceState);
@@ -6745,7 +6743,7 @@ rbusError_t rbusHandle_GetTraceContextAsString(
     char*         traceState,
     int           traceStateLength)
 {
-    if (!rbus)
+    if (!rbusHandleList_IsValidHandle(rbus))
       return RBUS_ERROR_INVALID_HANDLE;
 
     size_t n;
diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 4e0caee..39255bc 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -25,6 +25,8 @@
 static rtVector gHandleList = NULL;
 
 #define VERIFY_NULL(T,R) if(NULL == T){ RBUSLOG_ERROR(#T" is NULL"); R; }
+#define VERIFY_HANDLE_VALID(T) VERIFY_NULL(T, return RBUS_ERROR_INVALID_INPUT) \
+    if(!rbusHandleList_IsValidHandle(T)){ RBUSLOG_ERROR("handle is invalid"); return RBUS_ERROR_INVALID_HANDLE; }
 #define BUF_LEN 128
 #define RBUS_GET_DEFAULT_TIMEOUT          15000   /* default timeout in miliseconds for GET API */
 #define RBUS_GET_WILDCARD_DEFAULT_TIMEOUT 120000  /* default timeout in miliseconds for Wildcard GET API */
@@ -252,7 +254,7 @@ int rbusHandle_TimeoutValuesInit(rbusHandle_t handle)
 
 rbusError_t rbusHandle_ConfigGetTimeout(rbusHandle_t handle, uint32_t timeout)
 {
-    VERIFY_NULL(handle, return RBUS_ERROR_INVALID_INPUT)
+    VERIFY_HANDLE_VALID(handle)
     if (timeout)
         handle->timeoutValues.getTimeout = timeout;
     else
@@ -262,7 +264,7 @@ rbusError_t rbusHandle_ConfigGetTimeout(rbusHandle_t handle, uint32_t timeout)
 
 rbusError_t rbusHandle_ConfigSetTimeout(rbusHandle_t handle, uint32_t timeout)
 {
-    VERIFY_NULL(handle, return RBUS_ERROR_INVALID_INPUT)
+    VERIFY_HANDLE_VALID(handle)
     if (timeout)
         handle->timeoutValues.setTimeout = timeout;
     else
@@ -272,7 +274,7 @@ rbusError_t rbusHandle_ConfigSetTimeout(rbusHandle_t handle, uint32_t timeout)
 
 rbusError_t rbusHandle_ConfigGetMultiTimeout(rbusHandle_t handle, uint32_t timeout)
 {
-    VERIFY_NULL(handle, return RBUS_ERROR_INVALID_INPUT)
+    VERIFY_HANDLE_VALID(handle)
     if (timeout)
         handle->timeoutValues.getMultiTimeout = timeout;
     else
@@ -282,7 +284,7 @@ rbusError_t rbusHandle_ConfigGetMultiTimeout(rbusHandle_t handle, uint32_t timeo
 
 rbusError_t rbusHandle_ConfigSetMultiTimeout(rbusHandle_t handle, uint32_t timeout)
 {
-    VERIFY_NULL(handle, return RBUS_ERROR_INVALID_INPUT)
+    VERIFY_HANDLE_VALID(handle)
     if (timeout)
         handle->timeoutValues.setMultiTimeout = timeout;
     else
@@ -292,7 +294,7 @@ rbusError_t rbusHandle_ConfigSetMultiTimeout(rbusHandle_t handle, uint32_t timeo
 
 rbusError_t rbusHandle_ConfigSubscribeTimeout(rbusHandle_t handle, uint32_t timeout)
 {
-    VERIFY_NULL(handle, return RBUS_ERROR_INVALID_INPUT)
+    VERIFY_HANDLE_VALID(handle)
     if (timeout)
         handle->timeoutValues.subscribeTimeout = timeout;
     else
diff --git a/src/rbus/rbus_message.c b/src/rbus/rbus_message.c
index 6b496b0..3e2219c 100644
--- a/src/rbus/rbus_message.c
+++ b/src/rbus/rbus_message.c
@@ -189,7 +189,7 @@ rbusError_t rbusMessage_AddPrivateListener(
     void* userData,
     uint32_t subscriptionId)
 {
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(expression);
 
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
@@ -223,7 +223,7 @@ rbusError_t rbusMessage_AddListener(
     void* userData,
     uint32_t subscriptionId)
 {
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(expression);
     rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
 
@@ -249,7 +249,7 @@ rbusError_t rbusMessage_RemovePrivateListener(
     char const* expression,
     uint32_t subscriptionId)
 {
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
 
     rtConnection myConn = rbuscore_FindClientPrivateConnection(expression);
@@ -282,7 +282,7 @@ rbusError_t rbusMessage_RemoveListener(
     char const* expression,
     uint32_t subscriptionId)
 {
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
 
     RBUS_MESSAGE_MUTEX_LOCK();
@@ -306,7 +306,7 @@ rbusError_t rbusMessage_RemoveListener(
 rbusError_t rbusMessage_RemoveAllListeners(
     rbusHandle_t handle)
 {
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
 
     RBUS_MESSAGE_MUTEX_LOCK();
@@ -329,7 +329,7 @@ int rbusMessage_HasListener(
     char const* topic)
 {
     int ret = 0;
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     VERIFY_NULL(topic);
     int i, n;
 
@@ -357,7 +357,7 @@ rbusError_t rbusMessage_Send(
     rbusMessage_t* message,
     rbusMessageSendOptions_t opts)
 {
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
 
     VERIFY_NULL(message);
-- 
2.43.0


From 5aa05984e56546d8f063bcef032e68f1ae578cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 69/99] fix: close the socket of a connection that could not be
 made

---
 src/rtmessage/rtConnection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 92d72b4..bdc8cd6 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -603,6 +603,8 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   {
     // TODO: at least log this
     rtLog_Warn("rtConnection_ConnectAndRegister(1):%d", err);
+    if (c->fd != -1)
+      close(c->fd);
     free(c->send_buffer);
     free(c->recv_buffer);
     free(c->application_name);
-- 
2.43.0


From ac1036f2831d976a8a053d32804c817f0b9a95ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 70/99] fix: let one thread close a handle that several are
 closing

---
 src/rbus/rbus.c        | 20 ++++++++++++++------
 src/rbus/rbus_handle.c | 41 ++++++++++++++++++++++++++++++++++-------
 src/rbus/rbus_handle.h |  5 ++++-
 3 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 993060d..d9d403c 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3125,15 +3125,19 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
         Per spec: If a component calls this API more than once, any previous busHandle 
         and all previous data element registrations will be canceled.
     */
-    tmpHandle = rbusHandleList_GetByName(componentName);
-
-    if(tmpHandle)
+    while((tmpHandle = rbusHandleList_GetByName(componentName)) != NULL)
     {
+        bool closed;
         UnlockMutex();
         RBUSLOG_WARN("(%s): closing previously opened component with the same name", componentName);
+        /*other threads may be doing the same*/
         rbus_close(tmpHandle);
+        closed = rbusHandleList_WaitClosed(tmpHandle);
         LockMutex();
+        if(!closed)
+            break;
     }
+    tmpHandle = NULL;
 
     _rbus_open_pre_initialize(true);
 
@@ -3332,15 +3336,19 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     VERIFY_NULL(handle);
 
+    /*first end the callbacks that use the handle: events, then requests*/
+    if(!rbusHandleList_StartClose(handleInfo))
+    {
+        RBUSLOG_ERROR("handle is invalid");
+        return RBUS_ERROR_INVALID_HANDLE;
+    }
+
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
     remove(filename);
 
-    /*first end the callbacks that use the handle: events, then requests*/
-    rbusHandleList_StartClose(handleInfo);
-
     err = rbus_unregisterObj(handleInfo->componentName);
 
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 39255bc..ffa5500 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -56,15 +56,11 @@ static __thread struct _rbusHandle* tUsedHandle = NULL;
 #define LIST_LOCK() pthread_mutex_lock(&gHandleListMutex)
 #define LIST_UNLOCK() pthread_mutex_unlock(&gHandleListMutex)
 
-bool rbusHandleList_IsValidHandle(struct _rbusHandle* handle)
+/*with the list locked*/
+static bool contains(struct _rbusHandle* handle)
 {
     bool found = false;
-    if (handle == NULL)
-    {
-        return false;
-    }
     int i;
-    LIST_LOCK();
     if(gHandleList)
     {
         int len = rtVector_Size(gHandleList);
@@ -73,6 +69,18 @@ bool rbusHandleList_IsValidHandle(struct _rbusHandle* handle)
             found = ((struct _rbusHandle*)rtVector_At(gHandleList, i) == handle);
         }
     }
+    return found;
+}
+
+bool rbusHandleList_IsValidHandle(struct _rbusHandle* handle)
+{
+    bool found = false;
+    if (handle == NULL)
+    {
+        return false;
+    }
+    LIST_LOCK();
+    found = contains(handle);
     LIST_UNLOCK();
     return found;
 }
@@ -99,6 +107,7 @@ void rbusHandleList_Remove(struct _rbusHandle* handle)
         rtVector_Destroy(gHandleList, NULL);
         gHandleList = NULL;
     }
+    pthread_cond_broadcast(&gHandleListCond);
     LIST_UNLOCK();
 }
 
@@ -138,14 +147,32 @@ void rbusHandleList_Release(struct _rbusHandle* handle)
     LIST_UNLOCK();
 }
 
-void rbusHandleList_StartClose(struct _rbusHandle* handle)
+bool rbusHandleList_StartClose(struct _rbusHandle* handle)
 {
     LIST_LOCK();
+    if(!contains(handle) || handle->closing)
+    {
+        LIST_UNLOCK();
+        return false;
+    }
     handle->closing = true;
     /*a callback may close the handle it uses itself*/
     while(handle->users > (tUsedHandle == handle ? 1 : 0))
         pthread_cond_wait(&gHandleListCond, &gHandleListMutex);
     LIST_UNLOCK();
+    return true;
+}
+
+bool rbusHandleList_WaitClosed(struct _rbusHandle* handle)
+{
+    bool closed;
+    LIST_LOCK();
+    /*a callback can't wait for the end of its own handle*/
+    while(contains(handle) && handle->closing && tUsedHandle != handle)
+        pthread_cond_wait(&gHandleListCond, &gHandleListMutex);
+    closed = !contains(handle) || !handle->closing;
+    LIST_UNLOCK();
+    return closed;
 }
 
 void rbusHandleList_ClientDisconnect(char const* clientListener)
diff --git a/src/rbus/rbus_handle.h b/src/rbus/rbus_handle.h
index 783c6e3..485195e 100644
--- a/src/rbus/rbus_handle.h
+++ b/src/rbus/rbus_handle.h
@@ -137,7 +137,10 @@ void rbusHandleList_ClientDisconnect(char const* clientListener);
 struct _rbusHandle* rbusHandleList_AcquireByComponentID(int32_t componentId);
 void rbusHandleList_Release(struct _rbusHandle* handle);
 /*wait until no callback uses the handle, and let none use it from now on*/
-void rbusHandleList_StartClose(struct _rbusHandle* handle);
+/*false if the handle isn't open or another thread is closing it*/
+bool rbusHandleList_StartClose(struct _rbusHandle* handle);
+/*wait for the thread that is closing the handle*/
+bool rbusHandleList_WaitClosed(struct _rbusHandle* handle);
 struct _rbusHandle* rbusHandleList_GetByName(char const* componentName);
 
 int rbusHandle_TimeoutValuesInit(rbusHandle_t handle);
-- 
2.43.0


From b149cbb0ff7d7d6071227874d378959823f3c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 71/99] fix: find listeners with the connection locked

---
 src/rtmessage/rtConnection.c | 106 +++++++++++++++++------------------
 1 file changed, 53 insertions(+), 53 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index bdc8cd6..d5eeb7e 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1299,7 +1299,7 @@ rtConnection_AddListenerWithId(rtConnection con, char const* expression, uint32_
   rtMessage_Create(&m);
   rtMessage_SetInt32(m, "add", 1);
   rtMessage_SetString(m, "topic", expression);
-  rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id); 
+  rtMessage_SetInt32(m, "route_id", expressionId);
   rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
   rtMessage_Release(m);
 
@@ -1406,82 +1406,82 @@ rtConnection_RemoveListenerWithId(rtConnection con, char const* expression, uint
   return 0;
 }
 
-rtError
-rtConnection_AddAlias(rtConnection con, char const* existing, const char *alias)
+/*the route of a listener; other threads may add and remove listeners meanwhile*/
+static bool
+rtConnection_FindRoute(rtConnection con, char const* expression, uint32_t* route_id)
 {
   int i;
-  rtError ret = RT_OK;
-
-  if (!con)
-    return rtErrorFromErrno(EINVAL);
 
+  pthread_mutex_lock(&con->mutex);
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
-    if (1 == con->listeners[i].in_use)
+    if ((con->listeners[i].in_use) && (0 == strcmp(expression, con->listeners[i].expression)))
     {
-      if(0 == strncmp(con->listeners[i].expression, existing, (strlen(con->listeners[i].expression) + 1)))
-      {
-        rtMessage m;
-        rtMessage res;
-        rtMessage_Create(&m);
-        rtMessage_SetInt32(m, "add", 1);
-        rtMessage_SetString(m, "topic", alias);
-        rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id); 
-        ret = rtConnection_SendRequest(con, m, "_RTROUTED.INBOX.SUBSCRIBE", &res, 6000);
-        if(RT_OK == ret)
-        {
-            int result = 0;
-            rtMessage_GetInt32(res, "result", &result);
-            ret = result;
-            if(RT_ERROR_DUPLICATE_ENTRY == result)
-                rtLog_Error("Failed to register %s. Duplicate entry", alias);
-            else if (RT_ERROR_PROTOCOL_ERROR == result)
-                rtLog_Error("Failed to register %s because the scaler or table is already registered", alias);
-            rtMessage_Release(res);
-        }
-        rtMessage_Release(m);
-        break;
-      }
+      *route_id = con->listeners[i].subscription_id;
+      break;
     }
   }
+  pthread_mutex_unlock(&con->mutex);
+  return i < RTMSG_LISTENERS_MAX;
+}
 
-  if (i >= RTMSG_LISTENERS_MAX)
+rtError
+rtConnection_AddAlias(rtConnection con, char const* existing, const char *alias)
+{
+  uint32_t route_id = 0;
+  rtError ret = RT_OK;
+  rtMessage m;
+  rtMessage res;
+
+  if (!con)
+    return rtErrorFromErrno(EINVAL);
+
+  if (!rtConnection_FindRoute(con, existing, &route_id))
     return rtErrorFromErrno(ENOMEM);
 
+  rtMessage_Create(&m);
+  rtMessage_SetInt32(m, "add", 1);
+  rtMessage_SetString(m, "topic", alias);
+  rtMessage_SetInt32(m, "route_id", route_id);
+  ret = rtConnection_SendRequest(con, m, "_RTROUTED.INBOX.SUBSCRIBE", &res, 6000);
+  if(RT_OK == ret)
+  {
+    int result = 0;
+    rtMessage_GetInt32(res, "result", &result);
+    ret = result;
+    if(RT_ERROR_DUPLICATE_ENTRY == result)
+      rtLog_Error("Failed to register %s. Duplicate entry", alias);
+    else if (RT_ERROR_PROTOCOL_ERROR == result)
+      rtLog_Error("Failed to register %s because the scaler or table is already registered", alias);
+    rtMessage_Release(res);
+  }
+  rtMessage_Release(m);
+
   return ret;
 }
+
 rtError
 rtConnection_RemoveAlias(rtConnection con, char const* existing, const char *alias)
 {
-  int i;
+  uint32_t route_id = 0;
+  rtMessage m;
 
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
-  {
-    if (1 == con->listeners[i].in_use)
-    {
-      if(0 == strncmp(con->listeners[i].expression, existing, (strlen(con->listeners[i].expression) + 1)))
-      {
-        rtMessage m;
-        rtMessage_Create(&m);
-        rtMessage_SetInt32(m, "add", 0);
-        rtMessage_SetString(m, "topic", alias);
-        rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id); 
-        rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
-        rtMessage_Release(m);
-        break;
-      }
-    }
-
-  }
-
-  if (i >= RTMSG_LISTENERS_MAX)
+  if (!rtConnection_FindRoute(con, existing, &route_id))
     return rtErrorFromErrno(ENOMEM);
 
+  rtMessage_Create(&m);
+  rtMessage_SetInt32(m, "add", 0);
+  rtMessage_SetString(m, "topic", alias);
+  rtMessage_SetInt32(m, "route_id", route_id);
+  rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
+  rtMessage_Release(m);
+
   return 0;
 }
+
 rtError
 rtConnection_AddDefaultListener(rtConnection con, rtMessageCallback callback, void* closure)
 {
-- 
2.43.0


From a57751a10196c526ca61893a779ec27249db3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 72/99] fix: keep the value change detector while handles come
 and go

---
 src/rbus/rbus_valuechange.c | 67 +++++++++++++------------------------
 1 file changed, 24 insertions(+), 43 deletions(-)

diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index 0095543..60d52bb 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -60,7 +60,8 @@
 
 typedef struct ValueChangeDetector_t
 {
-    int              running;
+    unsigned int     running;    //the number of the thread that polls or 0
+    unsigned int     threads;    //threads started so far
     int              publishing; //the thread is publishing, with the mutex unlocked
     rtVector         params;
     pthread_mutex_t  mutex;
@@ -75,7 +76,9 @@ typedef struct ValueChangeRecord
     rbusProperty_t property;    //the parameter with value that gets cached
 } ValueChangeRecord;
 
-ValueChangeDetector_t* gVC = NULL;
+/*handles of several threads share it: it's made once and kept*/
+static ValueChangeDetector_t* gVC = NULL;
+static pthread_once_t gVCOnce = PTHREAD_ONCE_INIT;
 
 static void rbusValueChange_Init()
 {
@@ -84,12 +87,10 @@ static void rbusValueChange_Init()
 
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
-    if(gVC)
-        return;
-
     gVC = rt_malloc(sizeof(struct ValueChangeDetector_t));
 
     gVC->running = 0;
+    gVC->threads = 0;
     gVC->publishing = 0;
     gVC->params = NULL;
 
@@ -162,10 +163,10 @@ static void vcEvents_Publish(rtVector events)
 
 static void* rbusValueChange_pollingThreadFunc(void *userData)
 {
-    (void)(userData);
+    unsigned int self = (unsigned int)(uintptr_t)userData;
     RBUSLOG_DEBUG("%s: start", __FUNCTION__);
     LOCK();
-    while(gVC->running)
+    while(gVC->running == self)
     {
         size_t i;
         int err;
@@ -180,14 +181,14 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             err = pthread_cond_timedwait(&gVC->cond, 
                                         &gVC->mutex, 
                                         rtTime_ToTimespec(&timeout, &ts));
-        } while(err == 0 && gVC->running);
+        } while(err == 0 && gVC->running == self);
 
         if(err != 0 && err != ETIMEDOUT)
         {
             RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
         }
         
-        if(!gVC->running)
+        if(gVC->running != self)
         {
             break;
         }
@@ -295,10 +296,7 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 {
     ValueChangeRecord* rec;
 
-    if(!gVC)
-    {
-        rbusValueChange_Init();
-    }
+    pthread_once(&gVCOnce, rbusValueChange_Init);
 
     /* basic sanity tests */    
     assert(propNode);
@@ -367,8 +365,8 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 
         if(!gVC->running)
         {
-            gVC->running = 1;
-            pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, NULL);
+            gVC->running = ++gVC->threads;
+            pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, (void*)(uintptr_t)gVC->running);
         }
 
         UNLOCK();//############ UNLOCK ############
@@ -383,10 +381,7 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
     VERIFY_NULL(propNode);
     RBUSLOG_DEBUG("RemovePropertyNode %s", propNode->fullName);
 
-    if(!gVC)
-    {
-        return;
-    }
+    pthread_once(&gVCOnce, rbusValueChange_Init);
 
     LOCK();//############ LOCK ############
     rec = vcParams_Find(propNode);
@@ -407,10 +402,7 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
 {
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
-    if(!gVC)
-    {
-        return;
-    }
+    pthread_once(&gVCOnce, rbusValueChange_Init);
 
     //remove all params for this bus handle
     LOCK();//############ LOCK ############
@@ -435,27 +427,16 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         ERROR_CHECK(pthread_cond_wait(&gVC->cond, &gVC->mutex));
     }
 
-    //clean up everything once all params are removed
-    //but check the size to ensure we do not clean up if params for other rbus handles exist
-    if(rtVector_Size(gVC->params) == 0)
+    //end the thread once all params are removed
+    //but check the size to ensure we do not end it if params for other rbus handles exist
+    if(rtVector_Size(gVC->params) == 0 && gVC->running)
     {
-        if(gVC->running)
-        {
-            gVC->running = 0;
-            UNLOCK();//############ UNLOCK ############
-            ERROR_CHECK(pthread_cond_broadcast(&gVC->cond));
-            ERROR_CHECK(pthread_join(gVC->thread, NULL));
-        }
-        else
-        {
-            UNLOCK();//############ UNLOCK ############
-        }
-        ERROR_CHECK(pthread_mutex_destroy(&gVC->mutex));
-        ERROR_CHECK(pthread_cond_destroy(&gVC->cond));
-        rtVector_Destroy(gVC->params, NULL);
-        gVC->params = NULL;
-        free(gVC);
-        gVC = NULL;
+        //another thread may be started for another handle before this one has ended
+        pthread_t thread = gVC->thread;
+        gVC->running = 0;
+        UNLOCK();//############ UNLOCK ############
+        ERROR_CHECK(pthread_cond_broadcast(&gVC->cond));
+        ERROR_CHECK(pthread_join(thread, NULL));
     }
     else
     {
-- 
2.43.0


From 2e986745ef1caebce79d987cf36e359e1048b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:06 +0000
Subject: [PATCH 73/99] fix: look at the arguments before the handle

---
 src/rbus/rbus.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index d9d403c..e496de3 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3618,8 +3618,8 @@ rbusError_t rbus_discoverComponentDataElements (rbusHandle_t handle,
     *numElements = 0;
     *elementNames = 0;
     UNUSED1(nextLevel);
-    VERIFY_HANDLE(handle);
     VERIFY_NULL(name);
+    VERIFY_HANDLE(handle);
 
     ret = rbus_discoverObjectElements(name, numElements, elementNames);
 
@@ -3809,11 +3809,11 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
     int i;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
 
-    VERIFY_HANDLE(handle);
     VERIFY_NULL(pParamNames);
     VERIFY_NULL(numValues);
     VERIFY_NULL(retProperties);
     VERIFY_ZERO(paramCount);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4654,8 +4654,8 @@ rbusError_t rbusTable_addRow(
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
     rbusLegacyReturn_t legacyRetCode = RBUS_LEGACY_ERR_FAILURE;
 
-    VERIFY_HANDLE(handle);
     VERIFY_NULL(tableName);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4732,8 +4732,8 @@ rbusError_t rbusTable_removeRow(
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
     rbusLegacyReturn_t legacyRetCode = RBUS_LEGACY_ERR_FAILURE;
 
-    VERIFY_HANDLE(handle);
     VERIFY_NULL(rowName);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4794,8 +4794,8 @@ rbusError_t rbusTable_registerRow(
     char rowName[RBUS_MAX_NAME_LENGTH] = {0};
     int rc;
 
-    VERIFY_HANDLE(handle);
     VERIFY_NULL(tableName);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4833,8 +4833,8 @@ rbusError_t rbusTable_unregisterRow(
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    VERIFY_HANDLE(handle);
     VERIFY_NULL(rowName);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -6097,8 +6097,8 @@ rbusError_t  rbusEvent_PublishRawData(
     rbusCoreError_t err = RBUSCORE_SUCCESS;
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
 
-    VERIFY_HANDLE(handle);
     VERIFY_NULL(eventData);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -6156,8 +6156,8 @@ rbusError_t  rbusEvent_Publish(
     rbusValue_t newVal = NULL;
     rbusValue_t oldVal = NULL;
 
-    VERIFY_HANDLE(handle);
     VERIFY_NULL(eventData);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -6300,9 +6300,9 @@ rbusError_t rbusMethod_InvokeInternal(
     rbusValue_t value1 = NULL, value2 = NULL;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
 
-    VERIFY_HANDLE(handle);
     VERIFY_NULL(methodName);
     VERIFY_NULL(outParams);
+    VERIFY_HANDLE(handle);
 
     RBUSLOG_DEBUG("Method_InvokeInternal: %s", methodName);
 
-- 
2.43.0


From 9c7237686daf118848defdcc2189cf6a912a488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:06 +0000
Subject: [PATCH 74/99] fix: send direct messages whole and one at a time

---
 src/rtmessage/rtrouteBase.c | 92 +++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 39 deletions(-)

diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 4485be0..28af176 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -148,36 +148,68 @@ rtRouteBase_BindListener(char const* socket_name, int no_delay, int indefinite_r
   return RT_OK;
 }
 
+/*replies and events are sent by different threads*/
+#define RTDIRECT_SEND_LOCKS 16
+static pthread_mutex_t _rtdirect_send_locks[RTDIRECT_SEND_LOCKS] = {[0 ... RTDIRECT_SEND_LOCKS - 1] = PTHREAD_MUTEX_INITIALIZER};
+
+/*send all of the header and the payload, however much the socket takes at a time*/
 static rtError
-_rtdirect_send_reply_to_client(rtConnectedClient* client, rtMessageHeader * request_hdr, const uint8_t* rspData, uint32_t rspDataLength)
+_rtdirect_send_all_locked(int fd, const uint8_t* header, size_t headerLength, const uint8_t* data, size_t dataLength)
 {
-    rtError ret = RT_OK;
-    ssize_t bytes_sent;
-    request_hdr->payload_length = rspDataLength;
-
-    rtLog_Debug("SendMessage topic=%s expression...", request_hdr->topic);
-
-    rtMessageHeader_Encode(request_hdr, client->send_buffer);
-    struct iovec send_vec[] = {{client->send_buffer, request_hdr->header_length}, {(void *)rspData, rspDataLength}};
+    struct iovec send_vec[] = {{(void *)header, headerLength}, {(void *)data, dataLength}};
     struct msghdr send_hdr = {NULL, 0, send_vec, 2, NULL, 0, 0};
-    do
+
+    while (send_hdr.msg_iovlen > 0)
     {
-      bytes_sent = sendmsg(client->fd, &send_hdr, MSG_NOSIGNAL);
+      ssize_t bytes_sent = sendmsg(fd, &send_hdr, MSG_NOSIGNAL);
       if (bytes_sent == -1)
       {
+        if (errno == EINTR)
+          continue;
         if (errno == EBADF)
-          ret = rtErrorFromErrno(errno);
-        else
-        {
-          rtLog_Warn("error forwarding message to client. %d %s", errno, strerror(errno));
-          ret = RT_FAIL;
-        }
-        break;
+          return rtErrorFromErrno(errno);
+        rtLog_Warn("error forwarding message to client. %d %s", errno, strerror(errno));
+        return RT_FAIL;
+      }
+      while (send_hdr.msg_iovlen > 0 && (size_t)bytes_sent >= send_hdr.msg_iov->iov_len)
+      {
+        bytes_sent -= send_hdr.msg_iov->iov_len;
+        send_hdr.msg_iov++;
+        send_hdr.msg_iovlen--;
+      }
+      if (send_hdr.msg_iovlen > 0)
+      {
+        send_hdr.msg_iov->iov_base = (uint8_t *)send_hdr.msg_iov->iov_base + bytes_sent;
+        send_hdr.msg_iov->iov_len -= bytes_sent;
       }
-    } while(0);
+    }
+    return RT_OK;
+}
+
+static rtError
+_rtdirect_send_all(int fd, const uint8_t* header, size_t headerLength, const uint8_t* data, size_t dataLength)
+{
+    rtError ret;
+
+    if (fd < 0)
+      return RT_FAIL;
+    pthread_mutex_lock(&_rtdirect_send_locks[fd % RTDIRECT_SEND_LOCKS]);
+    ret = _rtdirect_send_all_locked(fd, header, headerLength, data, dataLength);
+    pthread_mutex_unlock(&_rtdirect_send_locks[fd % RTDIRECT_SEND_LOCKS]);
     return ret;
 }
 
+static rtError
+_rtdirect_send_reply_to_client(rtConnectedClient* client, rtMessageHeader * request_hdr, const uint8_t* rspData, uint32_t rspDataLength)
+{
+    request_hdr->payload_length = rspDataLength;
+
+    rtLog_Debug("SendMessage topic=%s expression...", request_hdr->topic);
+
+    rtMessageHeader_Encode(request_hdr, client->send_buffer);
+    return _rtdirect_send_all(client->fd, client->send_buffer, request_hdr->header_length, rspData, rspDataLength);
+}
+
 static void
 _rtdirect_prepare_reply_from_request(rtMessageHeader *reply, const rtMessageHeader *request)
 {
@@ -544,7 +576,6 @@ rtRouteDirect_SendMessage(const rtPrivateClientInfo* pClient, uint8_t const* pIn
 {
     rtError ret = RT_OK;
     rtMessageHeader new_header;
-    ssize_t bytes_sent;
 
     if (pClient && pInBuff && (inLength > 0))
     {
@@ -567,27 +598,10 @@ rtRouteDirect_SendMessage(const rtPrivateClientInfo* pClient, uint8_t const* pIn
 
 
         rtLog_Debug("SendMessage topic=%s expression...", new_header.topic);
-        static uint8_t buffer[RTMSG_CLIENT_READ_BUFFER_SIZE];
+        uint8_t buffer[RTMESSAGEHEADER_MAX_LENGTH];
 
-        memset(buffer, 0, RTMSG_CLIENT_READ_BUFFER_SIZE);
         rtMessageHeader_Encode(&new_header, buffer);
-        struct iovec send_vec[] = {{buffer, new_header.header_length}, {(void *)pInBuff, inLength}};
-        struct msghdr send_hdr = {NULL, 0, send_vec, 2, NULL, 0, 0};
-        do
-        {
-          bytes_sent = sendmsg(pClient->clientFD, &send_hdr, MSG_NOSIGNAL);
-          if (bytes_sent == -1)
-          {
-            if (errno == EBADF)
-              ret = rtErrorFromErrno(errno);
-            else
-            {
-              rtLog_Warn("error forwarding message to client. %d %s", errno, strerror(errno));
-              ret = RT_FAIL;
-            }
-            break;
-          }
-        } while(0);
+        ret = _rtdirect_send_all(pClient->clientFD, buffer, new_header.header_length, pInBuff, inLength);
     }
     else
         ret = RT_ERROR;
-- 
2.43.0


From c59c665b5bd5f1c65088adbf931f1d259e0705e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 75/99] fix: compare all properties of a property value

---
 src/rbus/rbus_value.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index de73501..1ea0fec 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1051,14 +1051,20 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_PROPERTY:
     {
-        if(rbusValue_GetProperty(v1) && rbusValue_GetProperty(v2))
-            return rbusProperty_Compare(rbusValue_GetProperty(v1), rbusValue_GetProperty(v2));
-        else if(rbusValue_GetProperty(v1))
-            return 1;
-        else if(rbusValue_GetProperty(v2))
-            return -1;
-        else
+        /*the value is the property and those that follow it*/
+        rbusProperty_t p1 = rbusValue_GetProperty(v1);
+        rbusProperty_t p2 = rbusValue_GetProperty(v2);
+        while(p1 && p2 && p1 != p2)
+        {
+            int rc = rbusProperty_Compare(p1, p2);
+            if(rc != 0)
+                return rc;
+            p1 = rbusProperty_GetNext(p1);
+            p2 = rbusProperty_GetNext(p2);
+        }
+        if(p1 == p2)
             return 0;
+        return p1 ? 1 : -1;
     }
     case RBUS_OBJECT:
     {
-- 
2.43.0


From 93cdd9979b201eb8f955f8e8de752835e1950d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 76/99] fix: end calls when a lost connection is not restored

A sender that found that another thread had tried to reconnect, in vain,
took the connection for restored and tried again, at once and forever.
Registering the listeners again must not reconnect recursively either.
---
 src/rtmessage/rtConnection.c | 81 +++++++++++++++++++++++++++++-------
 src/rtmessage/rtConnection.h |  7 ++++
 2 files changed, 74 insertions(+), 14 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index d5eeb7e..ba4781e 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -128,10 +128,11 @@ struct _rtConnection
   void*                   dispatched_closure;
   pthread_mutex_t         reconnect_mutex;
   rtTime_t                reader_reconnect_time;
-  rtTime_t                sender_reconnect_time;
   rtTime_t                reconnect_time;
   rtTime_t                start_time;
   int                     reconnect_in_progress;
+  int                     connected;
+  int                     no_reconnect;
 #ifdef WITH_SPAKE2
   rtCipher*               cipher;
   uint8_t*                encryption_buffer;
@@ -268,6 +269,15 @@ static int GetRunThreadsSync(rtConnection con)
   return run_threads;
 }
 
+/*sleep, but not longer than until the connection is being destroyed. False if it is*/
+static bool rtConnection_Pause(rtConnection con, int seconds)
+{
+  int i;
+  for (i = 0; i < seconds * 20 && 1 == GetRunThreadsSync(con); ++i)
+    usleep(50000);
+  return 1 == GetRunThreadsSync(con);
+}
+
 static void SetRunThreadsSync(rtConnection con, int run_threads)
 {
   pthread_mutex_lock(&con->mutex);
@@ -351,7 +361,13 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
       {
         rtLog_Debug("ConnectAndRegister reconnect previously complete");
       }
-      return RT_OK;
+      return rtConnection_IsConnected(con) ? RT_OK : RT_NO_CONNECTION;
+    }
+    __atomic_store_n(&con->connected, 0, __ATOMIC_RELEASE);
+    if(con->no_reconnect)
+    {
+      con->reconnect_in_progress = 0;
+      return RT_NO_CONNECTION;
     }
   }
 
@@ -363,16 +379,25 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
   rtLog_Debug("connecting to router");
   con->fd = socket(con->remote_endpoint.ss_family, SOCK_STREAM, 0);
   if (con->fd == -1)
+  {
+    con->reconnect_in_progress = 0;
     return rtErrorFromErrno(errno);
+  }
   rtLog_Debug("router connection up");
 
   fdManip = fcntl(con->fd, F_GETFD);
   if (fdManip < 0)
+  {
+    con->reconnect_in_progress = 0;
     return rtErrorFromErrno(errno);
+  }
 
   fdManip = fcntl(con->fd, F_SETFD, fdManip | FD_CLOEXEC);
   if (fdManip < 0)
+  {
+    con->reconnect_in_progress = 0;
     return rtErrorFromErrno(errno);
+  }
 
   if (setsockopt(con->fd, SOL_TCP, TCP_NODELAY, &i, sizeof(i)) < 0)
     rtLog_Debug("Error setting TCP_NODELAY: %s", strerror(errno));
@@ -399,12 +424,16 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
 #if 0
       rtConnection_EnsureRoutingDaemon();
 #endif
-      sleep(1);
+      if (is_first_connect)
+        sleep(1);
+      else if (!rtConnection_Pause(con, 1))
+        break;
       retry++;
     }
     else
     {
       rtLog_Debug("connection made");
+      __atomic_store_n(&con->connected, 1, __ATOMIC_RELEASE);
       break;
     }
   }
@@ -433,11 +462,16 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
     if (con->listeners[i].in_use)
     {
       rtMessage m;
+      uint8_t* p;
+      uint32_t n;
       rtMessage_Create(&m);
       rtMessage_SetInt32(m, "add", 1);
       rtMessage_SetString(m, "topic", con->listeners[i].expression);
       rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id);
-      rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
+      /*must not reconnect from here, the reader does if the connection is lost again*/
+      rtMessage_ToByteArrayWithSize(m, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
+      rtConnection_SendInternal(con, p, n, "_RTROUTED.INBOX.SUBSCRIBE", NULL, 0, __sync_fetch_and_add(&con->sequence_number, 1), 0, 0, 0);
+      rtMessage_FreeByteArray(p);
       rtMessage_Release(m);
 
       /*TODO: we need to readd all the aliases too -- would this allow rbus to recover from broker crash ?*/
@@ -574,6 +608,8 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   c->run_threads = 0;
   c->read_tid = 0;
   c->reconnect_in_progress = 0;
+  c->connected = 0;
+  c->no_reconnect = 0;
   rtTime_Now(&c->start_time);
 #ifdef WITH_SPAKE2
   c->cipher = NULL;
@@ -640,12 +676,14 @@ rtConnection_CreateWithConfig(rtConnection* con, rtMessage const conf)
   char const* router_config = NULL;
   int start_router = 0;
   int max_retries = DEFAULT_MAX_RETRIES;
+  int no_reconnect = 0;
   int remote_router=0;
 
   rtMessage_GetString(conf, "appname", &application_name);
   rtMessage_GetString(conf, "uri", &router_config);
   rtMessage_GetInt32(conf, "start_router", &start_router);
   rtMessage_GetInt32(conf, "max_retries", &max_retries);
+  rtMessage_GetInt32(conf, "no_reconnect", &no_reconnect);
   rtMessage_GetInt32(conf, "check_remote_router",&remote_router);
 
   err = rtConnection_CreateInternal(con, application_name, router_config, max_retries);
@@ -653,6 +691,9 @@ rtConnection_CreateWithConfig(rtConnection* con, rtMessage const conf)
   (*con)->check_remote_router=remote_router;
   #endif
 
+  if(err == RT_OK)
+    (*con)->no_reconnect = no_reconnect;
+
 #ifdef WITH_SPAKE2
   if(err == RT_OK)
   {
@@ -785,9 +826,10 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    rtTime_t attempt_time;
+    rtTime_Now(&attempt_time);
     uint8_t* p;
     uint32_t n;
     rtError err;
@@ -804,7 +846,7 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_ConnectAndRegister(con, &attempt_time);
       if(err != RT_OK)
         return err;
       else
@@ -843,9 +885,10 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    rtTime_t attempt_time;
+    rtTime_Now(&attempt_time);
     (void)timeout;
     rtError err;
     uint8_t* p;
@@ -858,7 +901,7 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_ConnectAndRegister(con, &attempt_time);
       if(err != RT_OK)
         return err;
       else
@@ -885,9 +928,10 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    rtTime_t attempt_time;
+    rtTime_Now(&attempt_time);
     rtError err;
     uint32_t sequence_number;
 
@@ -901,7 +945,7 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_ConnectAndRegister(con, &attempt_time);
       if(err != RT_OK)
         return err;
       else
@@ -975,9 +1019,10 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
 {
   if (!con)
     return rtErrorFromErrno(EINVAL);
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    rtTime_t attempt_time;
+    rtTime_Now(&attempt_time);
     rtError ret = RT_OK;
     uint8_t const* p = pReq;
     uint32_t n = nReq;
@@ -1095,7 +1140,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
 
     if(ret == RT_NO_CONNECTION)
     {
-      ret = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      ret = rtConnection_ConnectAndRegister(con, &attempt_time);
       if(ret == RT_OK)
         continue;
     }
@@ -1306,6 +1351,12 @@ rtConnection_AddListenerWithId(rtConnection con, char const* expression, uint32_
   return RT_OK;
 }
 
+bool
+rtConnection_IsConnected(rtConnection con)
+{
+  return con && __atomic_load_n(&con->connected, __ATOMIC_ACQUIRE);
+}
+
 rtError
 rtConnection_StopDispatch(rtConnection con)
 {
@@ -1964,15 +2015,17 @@ static void * rtConnection_ReaderThread(void *data)
         while (1 == GetRunThreadsSync(con))
         {
             err = rtConnection_ConnectAndRegister(con, &con->reader_reconnect_time);
+            if (con->no_reconnect)
+                return NULL;
             if (err == RT_OK || 1 != GetRunThreadsSync(con))
                 break;
-            sleep(5);
+            rtConnection_Pause(con, 5);
             rtTime_Now(&con->reader_reconnect_time);//set this time to take ownership of reconnect
         }
       }
       else
       {
-        sleep(5); //Avoid tight loops if we have an unrecoverable situation.
+        rtConnection_Pause(con, 5); //Avoid tight loops if we have an unrecoverable situation.
       }
       #ifdef WITH_SPAKE2
       if(con->check_remote_router==1)
diff --git a/src/rtmessage/rtConnection.h b/src/rtmessage/rtConnection.h
index 63d4dcb..27baac1 100644
--- a/src/rtmessage/rtConnection.h
+++ b/src/rtmessage/rtConnection.h
@@ -207,6 +207,13 @@ rtConnection_GetNextSubscriptionId();
 rtError
 rtConnection_AddListener(rtConnection con, char const* expression, rtMessageCallback callback, void* closure);
 
+/**
+ * Whether the connection is up, as far as is known
+ * @param con
+ */
+bool
+rtConnection_IsConnected(rtConnection con);
+
 /**
  * Start no further listener callbacks and wait until one that is under way has ended
  * @param con
-- 
2.43.0


From 9267035844e3c6f5a55d3dfcd13dc00d06d5f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 77/99] fix: keep direct connections and their users apart

Direct connections were destroyed while calls were using them, answers went
to whatever consumer was found first, requests under way at the end of a
direct connection were lost, raw data subscriptions got events twice or not
at all when a direct connection came or went, and direct handles outlived
the handle they belong to.
---
 src/core/rbuscore.c         | 824 +++++++++++++++++++++++-------------
 src/core/rbuscore.h         |  16 +-
 src/rbus/rbus.c             | 419 ++++++------------
 src/rbus/rbus_handle.c      |  18 +-
 src/rbus/rbus_handle.h      |   4 +-
 src/rbus/rbus_message.c     |  89 +++-
 src/rbus/rbus_message.h     |  12 +
 src/rtmessage/rtrouteBase.c | 123 +++---
 src/rtmessage/rtrouteBase.h |   3 +-
 9 files changed, 863 insertions(+), 645 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 3b31fc2..a32b0c4 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -97,9 +97,10 @@ typedef struct _server_object
 
 /////////////
 extern char* __progname;
-static void _freePrivateServer(void* p);
 static void _rbuscore_directconnection_load_from_cache();
-static void _rbuscore_destroy_clientPrivate_connections();
+static void _remove_client_entries(const char* pProviderName);
+static void _rbuscore_stop_private_listeners();
+static rtError _send_direct_response(const rtMessageHeader* hdr, const uint8_t* data, uint32_t dataLength);
 const rtPrivateClientInfo* _rbuscore_find_server_privateconnection(const char *pParameterName, const char *pConsumerName);
 /////
 
@@ -323,8 +324,8 @@ static char g_daemon_address[MAX_DAEMON_ADDRESS_LEN] = "unix:///tmp/rtrouted";
 static rtConnection g_connection = NULL;
 static rtVector g_server_objects; /*server_object_t list*/
 static pthread_mutex_t g_mutex;
-static pthread_mutex_t g_directCliMutex;
-static pthread_mutex_t g_directServMutex;
+static pthread_mutex_t g_directCliMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_mutex_t g_directServMutex = PTHREAD_MUTEX_INITIALIZER;
 static int g_mutex_init = 0;
 static bool g_run_event_client_dispatch = false;
 static rtVector g_event_subscriptions_for_client; /*client_subscription_t list. Used by the subscriber to track all active subscriptions. */
@@ -334,6 +335,12 @@ static rtVector g_queued_requests; /*list of queued_request */
 static bool g_advisory_listener_installed = false;
 static rbus_client_disconnect_callback_t g_client_disconnect_callback = NULL;
 
+/* marks the header of a request that came over a direct connection */
+#define RBUS_DIRECT_REQUEST 0xD12EC7ED
+/* the method of a request that no element handles, and of the answer to such requests */
+#define RBUS_DIRECT_READY "_direct_ready"
+
+static rtVector gListOfServerDirect;    /* rbusServerDirectHandler_t list, guarded as gListOfServerDirectDMLs is */
 static rtVector gListOfServerDirectDMLs;
 static rtVector gListOfClientDirectDMLs;
 
@@ -377,8 +384,13 @@ static void perform_init()
     RBUSCORELOG_DEBUG("Performing init");
     rtVector_Create(&g_server_objects);
     rtVector_Create(&g_event_subscriptions_for_client);
+    directServerLock();
+    rtVector_Create(&gListOfServerDirect);
     rtVector_Create(&gListOfServerDirectDMLs);
+    directServerUnlock();
+    directClientLock();
     rtVector_Create(&gListOfClientDirectDMLs);
+    directClientUnlock();
     _rbuscore_directconnection_load_from_cache();
 }
 
@@ -391,9 +403,16 @@ static void perform_cleanup()
 
     rtVector_Destroy(g_server_objects, server_object_destroy);
 
-    rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
-    _rbuscore_destroy_clientPrivate_connections();
+    directServerLock();
+    rtVector_Destroy(gListOfServerDirectDMLs, rtVector_Cleanup_Free);
+    gListOfServerDirectDMLs = NULL;
+    rtVector_Destroy(gListOfServerDirect, NULL);
+    gListOfServerDirect = NULL;
+    directServerUnlock();
+    directClientLock();
     rtVector_Destroy(gListOfClientDirectDMLs, rtVector_Cleanup_Free);
+    gListOfClientDirectDMLs = NULL;
+    directClientUnlock();
 
     sz = rtVector_Size(g_event_subscriptions_for_client);
     if(sz>0)
@@ -618,8 +637,6 @@ rbusCoreError_t rbus_openBrokerConnection2(const char * component_name, const ch
         pthread_mutexattr_init(&attr);
         pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
         pthread_mutex_init(&g_mutex, &attr);
-        pthread_mutex_init(&g_directServMutex, &attr);
-        pthread_mutex_init(&g_directCliMutex, &attr);
         g_mutex_init = 1;
     }
 
@@ -678,6 +695,8 @@ rbusCoreError_t rbus_closeBrokerConnection()
 
     /*callbacks use what is released below*/
     rtConnection_StopDispatch(g_connection);
+    _rbuscore_stop_private_listeners();
+    _remove_client_entries(NULL);
 
     lock();
     rbus_releaseOpenTelemetryContext();
@@ -690,12 +709,11 @@ rbusCoreError_t rbus_closeBrokerConnection()
         return RBUSCORE_ERROR_GENERAL;
     }
     g_connection = NULL;
+    g_advisory_listener_installed = false;
     g_run_event_client_dispatch = false;
     unlock();
 
     pthread_mutex_destroy(&g_mutex);
-    pthread_mutex_destroy(&g_directServMutex);
-    pthread_mutex_destroy(&g_directCliMutex);
     g_mutex_init = 0;
 
     RBUSCORELOG_INFO("Destroyed connection.");
@@ -2333,7 +2351,11 @@ rbusCoreError_t rbus_sendResponse(const rtMessageHeader* hdr, rbusMessage respon
 
         _rbusMessage_SetMetaInfo(response, METHOD_RESPONSE, NULL, NULL);
         rbusMessage_ToBytes(response, &data, &dataLength);
-        if((err= rtConnection_SendBinaryResponse(g_connection, hdr, data, dataLength, TIMEOUT_VALUE_FIRE_AND_FORGET)) != RT_OK)
+        if(hdr->control_data == RBUS_DIRECT_REQUEST)
+            err = _send_direct_response(hdr, data, dataLength);
+        else
+            err = rtConnection_SendBinaryResponse(g_connection, hdr, data, dataLength, TIMEOUT_VALUE_FIRE_AND_FORGET);
+        if(err != RT_OK)
         {
             RBUSCORELOG_ERROR("Failed to send async response. Error code: 0x%x", err);
         }
@@ -2422,57 +2444,53 @@ void rbus_setOpenTelemetryContext(const char *traceParent, const char *traceStat
         ot_ctx->otTraceState[0] = '\0';
 }
 
+/* a thread that serves the direct connection of one consumer */
+typedef struct _server_directHandler
+{
+    char                  m_privConnAddress[MAX_OBJECT_NAME_LENGTH];
+    char                  m_consumerName[MAX_OBJECT_NAME_LENGTH];
+    rtDriectClientHandler m_fnRouteCallback;
+    rtPrivateClientInfo   m_consumerInfo;   /* clientFD is -1 unless the consumer is connected */
+    int                   m_stopFd[2];
+    bool                  m_ended;          /* serves no further DMLs */
+    void*                 m_busyUserData;   /* of the handler that is being called */
+} rbusServerDirectHandler_t;
+
 typedef struct _rbusServerDMLList 
 {
     char                    m_privConnAddress[MAX_OBJECT_NAME_LENGTH];
     char                    m_consumerName[MAX_OBJECT_NAME_LENGTH];
     char                    m_privateDML [MAX_OBJECT_NAME_LENGTH];
-    rtPrivateClientInfo     m_consumerInfo;
-    pthread_t               m_pid;
+    rbusServerDirectHandler_t* m_instance;
     rbus_callback_t         m_fnCallbackHandler;
     void*                   m_fnCallbackuserData;
+    bool                    m_closed;   /* no events are sent, but requests that were under way are answered */
 } rbusServerDMLList_t;
 
-typedef struct _server_directHandler
+/* the direct connection to one provider */
+typedef struct _rbusClientDirectConn
 {
-    char                  m_privConnAddress[MAX_OBJECT_NAME_LENGTH];
-    rtDriectClientHandler m_fnRouteCallback;
-} rbusServerDirectHandler_t;
+    rtConnection  m_conn;
+    int           m_users;  /* list entries and calls under way */
+    struct _rbusClientDirectConn* m_next;
+} rbusClientDirectConn_t;
 
 typedef struct _rbusClientDMLList
 {
     char          m_privateDML[MAX_OBJECT_NAME_LENGTH];
     char          m_providerName[MAX_OBJECT_NAME_LENGTH];
-    char          m_consumerName[MAX_OBJECT_NAME_LENGTH];
-    rtConnection  m_privConn;
+    rbusClientDirectConn_t* m_privConn;
 } rbusClientDMLList_t;
 
 
 /////// Server Side ///////
-static int _findPrivateServer(const void* left, const void* right)
-{
-    return strncmp(((rbusServerDMLList_t*)left)->m_privConnAddress, (char*)right, MAX_OBJECT_NAME_LENGTH);
-}
-
-static int _findPrivateServerDML(const void* left, const void* right)
-{
-    return strncmp(((rbusServerDMLList_t*)left)->m_privateDML, (char*)right, MAX_OBJECT_NAME_LENGTH);
-}
-
-static void _freePrivateServer(void* p)
-{
-    rbusServerDMLList_t *pTmp = p;
-    if (pTmp->m_pid)
-    {
-        pthread_cancel(pTmp->m_pid);
-        pthread_join(pTmp->m_pid, NULL);
-        printf ("Cancel the thread..\n"); //FIXME
-    }
-    free(pTmp);
-}
+static pthread_cond_t g_directServCond = PTHREAD_COND_INITIALIZER;
+static __thread rbusServerDirectHandler_t* t_directInstance = NULL;
 
 #define RBUS_DIRECT_FILE_CACHE "/tmp/.rbus_%s_direct.cache"
 #define RBUS_DIRECT_ROW_CACHE_LENGTH 512
+static int _count_server_dmls(rbusServerDirectHandler_t* pInstance);
+
 static void _rbuscore_directconnection_save_to_cache()
 {
     FILE* file;
@@ -2481,7 +2499,7 @@ static void _rbuscore_directconnection_save_to_cache()
     snprintf(cacheFileName, 256, RBUS_DIRECT_FILE_CACHE, __progname);
 
     sz = rtVector_Size(gListOfServerDirectDMLs);
-    if(0 == sz)
+    if(0 == _count_server_dmls(NULL))
     {
         RBUSCORELOG_DEBUG("no direct connection exist, so removing cache file");
         if (remove(cacheFileName) != 0) {
@@ -2503,12 +2521,14 @@ static void _rbuscore_directconnection_save_to_cache()
         }
 
         rbusMessage_Init(&tmp);
-        rbusMessage_SetInt32(tmp, sz);
+        rbusMessage_SetInt32(tmp, _count_server_dmls(NULL));
         for(i = 0; i < sz; ++i)
         {
             rbusMessage m;
-            rbusMessage_Init(&m);
             pDmlObj = rtVector_At(gListOfServerDirectDMLs, i);
+            if(pDmlObj->m_closed)
+                continue;
+            rbusMessage_Init(&m);
             rbusMessage_SetString(m, pDmlObj->m_privateDML);
             rbusMessage_SetString(m, pDmlObj->m_consumerName);
             rbusMessage_SetMessage(tmp, m);
@@ -2578,9 +2598,10 @@ static void _rbuscore_directconnection_load_from_cache()
 
         //
         rbusMessage msg = NULL;
-        rbusMessage_FromBytes(&msg, pBuff, size);
         int numOfEntries = 0;
-        rbusMessage_GetInt32(msg, &numOfEntries);
+        rbusMessage_FromBytes(&msg, pBuff, size);
+        if(rbusMessage_GetInt32(msg, &numOfEntries) != RT_OK)
+            numOfEntries = 0;
         RBUSCORELOG_DEBUG("Number of Entries...%d", numOfEntries);
 
         for (int i = 0; i < numOfEntries; i++)
@@ -2588,10 +2609,11 @@ static void _rbuscore_directconnection_load_from_cache()
             rbusMessage tmpMsg = NULL;
             const char* pDMLName = NULL;
             const char* pConsumerName = NULL;
-            rbusMessage_GetMessage(msg, &tmpMsg);
-            rbusMessage_GetString(tmpMsg, &pDMLName);
-            rbusMessage_GetString(tmpMsg, &pConsumerName);
-            RBUSCORELOG_INFO("Direct Connection Existed for DML (%s) for this client(%s)", pDMLName, pConsumerName);
+            if(rbusMessage_GetMessage(msg, &tmpMsg) != RT_OK)
+                break;
+            if(rbusMessage_GetString(tmpMsg, &pDMLName) == RT_OK && rbusMessage_GetString(tmpMsg, &pConsumerName) == RT_OK)
+                RBUSCORELOG_INFO("Direct Connection Existed for DML (%s) for this client(%s)", pDMLName, pConsumerName);
+            rbusMessage_Release(tmpMsg);
 
             //TODO
             /* Add it to vector and when add_element is called, start a listener */
@@ -2625,45 +2647,87 @@ invalidFile:
     }
 }
 
-rbusServerDMLList_t* rbuscore_FindServerPrivateClient (const char *pParameterName, const char *pConsumerName)
+/* called with the lock held */
+static rbusServerDMLList_t* _find_server_dml(const char *pParameterName, const char *pConsumerName)
 {
-    rbusServerDMLList_t* pDmlObj = NULL;
+    size_t i;
 
-    if (pParameterName && pConsumerName)
+    if (!pParameterName || !pConsumerName || !gListOfServerDirectDMLs)
+        return NULL;
+    for(i = 0; i < rtVector_Size(gListOfServerDirectDMLs); ++i)
     {
-        size_t sz = 0, i = 0;
+        rbusServerDMLList_t* pDmlObj = rtVector_At(gListOfServerDirectDMLs, i);
 
-        sz = rtVector_Size(gListOfServerDirectDMLs);
-        if(sz > 0)
-        {
-            for(i = 0; i < sz; ++i)
-            {
-                pDmlObj = rtVector_At(gListOfServerDirectDMLs, i);
-            
-                if ((0 == strncmp(pDmlObj->m_privateDML, pParameterName, MAX_OBJECT_NAME_LENGTH)) &&
-                    (0 == strncmp(pDmlObj->m_consumerName, pConsumerName, MAX_OBJECT_NAME_LENGTH)))
-                {
-                    directServerUnlock();
-                    return pDmlObj;
-                }
-            }
-        }
+        if (!pDmlObj->m_closed &&
+            (0 == strncmp(pDmlObj->m_privateDML, pParameterName, MAX_OBJECT_NAME_LENGTH)) &&
+            (0 == strncmp(pDmlObj->m_consumerName, pConsumerName, MAX_OBJECT_NAME_LENGTH)))
+            return pDmlObj;
     }
+    return NULL;
+}
+
+/* called with the lock held; finds the closed ones too */
+static rbusServerDMLList_t* _find_instance_dml(rbusServerDirectHandler_t* pInstance, const char *pParameterName)
+{
+    size_t i;
+
+    for(i = 0; gListOfServerDirectDMLs && i < rtVector_Size(gListOfServerDirectDMLs); ++i)
+    {
+        rbusServerDMLList_t* pDmlObj = rtVector_At(gListOfServerDirectDMLs, i);
 
+        if (pDmlObj->m_instance == pInstance && 0 == strncmp(pDmlObj->m_privateDML, pParameterName, MAX_OBJECT_NAME_LENGTH))
+            return pDmlObj;
+    }
     return NULL;
 }
 
+/* called with the lock held; NULL unless the consumer is connected */
 const rtPrivateClientInfo* _rbuscore_find_server_privateconnection(const char *pParameterName, const char *pConsumerName)
 {
-    rbusServerDMLList_t *pObj = NULL;
+    rbusServerDMLList_t *pObj = _find_server_dml(pParameterName, pConsumerName);
+
+    if(pObj && pObj->m_instance->m_consumerInfo.clientFD >= 0)
+        return &pObj->m_instance->m_consumerInfo;
+
+    return NULL;
+}
+
+/* called with the lock held */
+static int _count_server_dmls(rbusServerDirectHandler_t* pInstance)
+{
+    size_t i;
+    int count = 0;
 
-    pObj = rbuscore_FindServerPrivateClient (pParameterName, pConsumerName);
-    if(pObj)
+    for(i = 0; gListOfServerDirectDMLs && i < rtVector_Size(gListOfServerDirectDMLs); ++i)
     {
-        return &pObj->m_consumerInfo;
+        rbusServerDMLList_t* pDmlObj = rtVector_At(gListOfServerDirectDMLs, i);
+        if((!pInstance || pDmlObj->m_instance == pInstance) && !pDmlObj->m_closed)
+            ++count;
     }
+    return count;
+}
 
-    return NULL;
+/* called with the lock held */
+static void _remove_server_dmls(rbusServerDirectHandler_t* pInstance)
+{
+    size_t i = 0;
+    while(gListOfServerDirectDMLs && i < rtVector_Size(gListOfServerDirectDMLs))
+    {
+        rbusServerDMLList_t* pDmlObj = rtVector_At(gListOfServerDirectDMLs, i);
+        if(pDmlObj->m_instance == pInstance)
+            rtVector_RemoveItem(gListOfServerDirectDMLs, pDmlObj, rtVector_Cleanup_Free);
+        else
+            ++i;
+    }
+}
+
+/* called with the lock held */
+static void _stop_server_instance(rbusServerDirectHandler_t* pInstance)
+{
+    pInstance->m_ended = true;
+    _remove_server_dmls(pInstance);
+    if(write(pInstance->m_stopFd[1], "", 1) != 1)
+        RBUSCORELOG_ERROR("failed to stop the direct connection of %s", pInstance->m_consumerName);
 }
 
 rbusCoreError_t rbuscore_updatePrivateListener(const char* pConsumerName, const char *pDMLName)
@@ -2672,19 +2736,23 @@ rbusCoreError_t rbuscore_updatePrivateListener(const char* pConsumerName, const
     rbusServerDMLList_t *pObj = NULL;
     if (pConsumerName && pDMLName)
     {
-        pObj = rbuscore_FindServerPrivateClient (pDMLName, pConsumerName);
+        directServerLock();
+        pObj = _find_server_dml (pDMLName, pConsumerName);
         if (pObj)
         {
-            directServerLock();
-            rtVector_RemoveItem(gListOfServerDirectDMLs, pObj, rtVector_Cleanup_Free);
+            rbusServerDirectHandler_t* pInstance = pObj->m_instance;
+            pObj->m_closed = true;
+            /* the consumer disconnects now, and connects anew for its next DML */
+            if(_count_server_dmls(pInstance) == 0)
+                pInstance->m_ended = true;
             _rbuscore_directconnection_save_to_cache();
-            directServerUnlock();
         }
         else
         {
             RBUSCORELOG_WARN("No Direct Connection for this DML(%s) exist for this consumer(%s)", pDMLName, pConsumerName);
             ret = RBUSCORE_ERROR_INVALID_PARAM;
         }
+        directServerUnlock();
     }
     else
         ret = RBUSCORE_ERROR_INVALID_PARAM;
@@ -2692,150 +2760,257 @@ rbusCoreError_t rbuscore_updatePrivateListener(const char* pConsumerName, const
     return ret;
 }
 
-void* rbuscore_PrivateThreadFunc (void* ptr)
+void rbuscore_closePrivateListeners(void* user_data)
 {
-    rbusServerDirectHandler_t *pInstance = (rbusServerDirectHandler_t *) ptr;
+    size_t i, j;
 
-    sleep(2);
-    rtRouteDirect_StartInstance(pInstance->m_privConnAddress, pInstance->m_fnRouteCallback);
-
-    /* coming here means that the thread is client is not connected anymore */
-    rbusServerDMLList_t *pSubObj;
     directServerLock();
-    pSubObj = rtVector_Find(gListOfServerDirectDMLs, pInstance->m_privConnAddress, _findPrivateServer);
-    while(pSubObj != NULL)
+    for(i = 0; gListOfServerDirect && i < rtVector_Size(gListOfServerDirect); ++i)
     {
-        rtVector_RemoveItem(gListOfServerDirectDMLs, pSubObj, rtVector_Cleanup_Free);
-        pSubObj = rtVector_Find(gListOfServerDirectDMLs, pInstance->m_privConnAddress, _findPrivateServer);
+        rbusServerDirectHandler_t* pInstance = rtVector_At(gListOfServerDirect, i);
+        for(j = 0; j < rtVector_Size(gListOfServerDirectDMLs); ++j)
+        {
+            rbusServerDMLList_t* pDmlObj = rtVector_At(gListOfServerDirectDMLs, j);
+            if(pDmlObj->m_instance == pInstance && pDmlObj->m_fnCallbackuserData == user_data)
+            {
+                _stop_server_instance(pInstance);
+                break;
+            }
+        }
+    }
+    /* the handlers that use the data end first */
+    for(i = 0; gListOfServerDirect && i < rtVector_Size(gListOfServerDirect);)
+    {
+        rbusServerDirectHandler_t* pInstance = rtVector_At(gListOfServerDirect, i);
+        if(pInstance != t_directInstance && pInstance->m_busyUserData == user_data)
+        {
+            pthread_cond_wait(&g_directServCond, &g_directServMutex);
+            i = 0;
+        }
+        else
+            ++i;
     }
-    _rbuscore_directconnection_save_to_cache();
     directServerUnlock();
+}
+
+/* end all threads that serve direct connections */
+static void _rbuscore_stop_private_listeners()
+{
+    size_t i;
+    size_t own = t_directInstance ? 1 : 0;
+
+    directServerLock();
+    for(i = 0; gListOfServerDirect && i < rtVector_Size(gListOfServerDirect); ++i)
+        _stop_server_instance(rtVector_At(gListOfServerDirect, i));
+    while(gListOfServerDirect && rtVector_Size(gListOfServerDirect) > own)
+        pthread_cond_wait(&g_directServCond, &g_directServMutex);
+    directServerUnlock();
+}
+
+void* rbuscore_PrivateThreadFunc (void* ptr)
+{
+    rbusServerDirectHandler_t *pInstance = (rbusServerDirectHandler_t *) ptr;
 
+    t_directInstance = pInstance;
+    rtRouteDirect_StartInstance(pInstance->m_privConnAddress, pInstance->m_fnRouteCallback, pInstance->m_stopFd[0]);
+
+    /* coming here means that the thread is client is not connected anymore */
+    directServerLock();
+    bool changed = _count_server_dmls(pInstance) > 0;
+    _remove_server_dmls(pInstance);
+    if(changed)
+        _rbuscore_directconnection_save_to_cache();
+    if(gListOfServerDirect)
+        rtVector_RemoveItem(gListOfServerDirect, pInstance, NULL);
+    close(pInstance->m_stopFd[0]);
+    close(pInstance->m_stopFd[1]);
     free (pInstance);
+    t_directInstance = NULL;
+    pthread_cond_broadcast(&g_directServCond);
+    directServerUnlock();
     return NULL;
 }
 
 static rtError _onDirectMessage(uint8_t isClientRequest, rtMessageHeader* hdr, uint8_t const* pInBuff, int inLength, uint8_t** pOutBuff, uint32_t* pOutLength)
 {
-    rbusMessage msg = NULL;
-    rbusServerDMLList_t *pSubObj;
+    rbusServerDirectHandler_t* pInstance = t_directInstance;
 
     if (isClientRequest)
     {
+        rbusMessage msg = NULL;
+        rbusMessage response = NULL;
+        rbusServerDMLList_t *pSubObj;
+        rbus_callback_t handler = NULL;
+        void* userData = NULL;
         const char* method_name = NULL;
         const char* traceParent = NULL;
         const char* traceState = NULL;
+        int result = RBUSCORE_SUCCESS;
+        uint8_t* pData = NULL;
+        uint32_t dataLength = 0;
+
+        *pOutBuff = NULL;
+        *pOutLength = 0;
 
         rbusMessage_FromBytes(&msg, pInBuff, inLength);
 
         /* Fetch the context that was sent with the message */
          _rbusMessage_GetMetaInfo(msg, &method_name, &traceParent, &traceState);
 
-        rbusMessage response;
         directServerLock();
-        pSubObj = rtVector_Find(gListOfServerDirectDMLs, hdr->topic, _findPrivateServerDML);
-        directServerUnlock();
+        pSubObj = _find_instance_dml(pInstance, hdr->topic);
         if(pSubObj)
         {
+            handler = pSubObj->m_fnCallbackHandler;
+            userData = pSubObj->m_fnCallbackuserData;
+            pInstance->m_busyUserData = userData;
+        }
+        directServerUnlock();
+        if(handler)
+        {
+            /* a response that the handler sends later has to go over the same connection */
+            hdr->control_data = RBUS_DIRECT_REQUEST;
             rbus_setOpenTelemetryContext(traceParent, traceState);
-            pSubObj->m_fnCallbackHandler(hdr->topic, method_name, msg, pSubObj->m_fnCallbackuserData, &response, hdr);
+            result = handler(hdr->topic, method_name, msg, userData, &response, hdr);
             rbus_clearOpenTelemetryContext();
+
+            directServerLock();
+            pInstance->m_busyUserData = NULL;
+            pthread_cond_broadcast(&g_directServCond);
+            directServerUnlock();
         }
         else
+            RBUSCORELOG_DEBUG("Could not find the DML in Private Connection List..");
+
+        rbusMessage_Release(msg);
+        if(result == RBUSCORE_SUCCESS_ASYNC)
+            return RT_OK;
+
+        if(NULL == response)
         {
             rbusMessage_Init(&response);
             rbusMessage_SetInt32(response, RBUSCORE_ERROR_UNSUPPORTED_METHOD);
-            RBUSCORELOG_WARN("Could not find the DML in Private Connection List..");
         }
-        _rbusMessage_SetMetaInfo(response, METHOD_RESPONSE, NULL, NULL);
-        uint8_t* pData = NULL;
-        uint32_t dataLength = 0;
+        /* the consumer asks over the broker, unless the request has been handled */
+        _rbusMessage_SetMetaInfo(response, handler ? METHOD_RESPONSE : RBUS_DIRECT_READY, NULL, NULL);
         rbusMessage_ToBytes(response, &pData, &dataLength);
         if ((pData) && (0 != dataLength))
         {
             *pOutLength = dataLength;
             *pOutBuff = rt_malloc(dataLength);
             memcpy(*pOutBuff, pData, dataLength);
-
-        }
-        else
-        {
-            *pOutBuff = NULL;
-            *pOutLength = 0;
         }
-
-        rbusMessage_Release(msg);
         rbusMessage_Release(response);
     }
     else
     {
-        size_t sz = 0, i = 0;
         rtPrivateClientInfo* pPrivCliInfo = (rtPrivateClientInfo*)pInBuff;
 
+        /* the consumer's own topic is added once, right after connecting, and is gone when it disconnects */
         directServerLock();
-        sz = rtVector_Size(gListOfServerDirectDMLs);
-        if(sz > 0)
-        {
-            for(i = 0; i < sz; ++i)
-            {
-                pSubObj = rtVector_At(gListOfServerDirectDMLs, i);
-                if (0 == strncmp(pSubObj->m_consumerName, pPrivCliInfo->clientTopic, MAX_OBJECT_NAME_LENGTH))
-                {
-                    memcpy(&pSubObj->m_consumerInfo, pPrivCliInfo, sizeof(rtPrivateClientInfo));
-                }
-            }
-        }
+        if (pPrivCliInfo->clientFD < 0)
+            pInstance->m_consumerInfo.clientFD = -1;
+        else if (0 == strncmp(pInstance->m_consumerName, pPrivCliInfo->clientTopic, MAX_OBJECT_NAME_LENGTH))
+            memcpy(&pInstance->m_consumerInfo, pPrivCliInfo, sizeof(rtPrivateClientInfo));
         directServerUnlock();
     }
 
     return RT_OK;
 }
 
-rbusCoreError_t rbuscore_startPrivateListener(const char* pPrivateConnAddress, const char* pConsumerName, const char *pDMLName, rbus_callback_t handler, void * user_data)
+/* send a response that was not ready when the handler of a direct request returned */
+static rtError _send_direct_response(const rtMessageHeader* hdr, const uint8_t* data, uint32_t dataLength)
+{
+    rtError err = RT_NO_CONNECTION;
+    size_t i;
+
+    directServerLock();
+    for(i = 0; gListOfServerDirect && i < rtVector_Size(gListOfServerDirect); ++i)
+    {
+        rbusServerDirectHandler_t* pInstance = rtVector_At(gListOfServerDirect, i);
+        if(pInstance->m_consumerInfo.clientFD >= 0 && 0 == strncmp(pInstance->m_consumerName, hdr->reply_topic, MAX_OBJECT_NAME_LENGTH))
+        {
+            err = rtRouteDirect_SendResponse(&pInstance->m_consumerInfo, hdr, data, dataLength);
+            break;
+        }
+    }
+    directServerUnlock();
+    return err;
+}
+
+rbusCoreError_t rbuscore_startPrivateListener(char* pPrivateConnAddress, size_t addressLength, const char* pConsumerName, const char *pDMLName, rbus_callback_t handler, void * user_data)
 {
     rbusCoreError_t ret = RBUSCORE_SUCCESS;
-    rbusServerDMLList_t *obj = NULL;
+    rbusServerDirectHandler_t *pInstance = NULL;
     int err = 0;
+    size_t i;
     pthread_t pid;
-    rtPrivateClientInfo  privConsInfo = {0};
 
-    if (pDMLName && pPrivateConnAddress && handler)
+    if (pDMLName && pConsumerName && pPrivateConnAddress && handler)
     {
         directServerLock();
-        obj = rtVector_Find(gListOfServerDirectDMLs, pPrivateConnAddress, _findPrivateServer);
-        if (!obj)
+        if(!gListOfServerDirect)
         {
-            rbusServerDirectHandler_t *pInstance = rt_malloc(sizeof(rbusServerDirectHandler_t));
+            directServerUnlock();
+            return RBUSCORE_ERROR_INVALID_STATE;
+        }
+        for(i = 0; i < rtVector_Size(gListOfServerDirect); ++i)
+        {
+            rbusServerDirectHandler_t* pOther = rtVector_At(gListOfServerDirect, i);
+            if(!pOther->m_ended && 0 == strncmp(pOther->m_consumerName, pConsumerName, MAX_OBJECT_NAME_LENGTH))
+                pInstance = pOther;
+        }
+        if (!pInstance)
+        {
+            pInstance = rt_calloc(1, sizeof(rbusServerDirectHandler_t));
             rtString_Copy(pInstance->m_privConnAddress, pPrivateConnAddress, MAX_OBJECT_NAME_LENGTH);
+            rtString_Copy(pInstance->m_consumerName, pConsumerName, MAX_OBJECT_NAME_LENGTH);
             pInstance->m_fnRouteCallback = _onDirectMessage;
+            pInstance->m_consumerInfo.clientFD = -1;
 
+            if(pipe(pInstance->m_stopFd) != 0)
+            {
+                RBUSCORELOG_ERROR("pipe failed: err=%d", errno);
+                free(pInstance);
+                directServerUnlock();
+                return RBUSCORE_ERROR_GENERAL;
+            }
             if((err = pthread_create(&pid, NULL, rbuscore_PrivateThreadFunc, pInstance)) != 0)
             {
                 RBUSCORELOG_ERROR("pthread_create failed: err=%d", err);
+                close(pInstance->m_stopFd[0]);
+                close(pInstance->m_stopFd[1]);
+                free(pInstance);
                 directServerUnlock();
                 return RBUSCORE_ERROR_GENERAL;
             }
+            pthread_detach(pid);
+            rtVector_PushBack(gListOfServerDirect, pInstance);
         }
         else
         {
-            RBUSCORELOG_DEBUG("Already we have private session for this consumer(%s)", pPrivateConnAddress);
-            pid = obj->m_pid;
-            memcpy(&privConsInfo, &obj->m_consumerInfo, sizeof(rtPrivateClientInfo));
+            RBUSCORELOG_DEBUG("Already we have private session for this consumer(%s)", pInstance->m_privConnAddress);
+            rtString_Copy(pPrivateConnAddress, pInstance->m_privConnAddress, addressLength);
         }
 
         // Update the DMLs
-        rbusServerDMLList_t *pTemp = rt_calloc(1, sizeof(rbusServerDMLList_t));
-        rtString_Copy(pTemp->m_privConnAddress, pPrivateConnAddress, MAX_OBJECT_NAME_LENGTH);
-        rtString_Copy(pTemp->m_consumerName, pConsumerName, MAX_OBJECT_NAME_LENGTH);
-        rtString_Copy(pTemp->m_privateDML, pDMLName, MAX_OBJECT_NAME_LENGTH);
-        memcpy(&pTemp->m_consumerInfo, &privConsInfo, sizeof(rtPrivateClientInfo));
-        pTemp->m_pid = pid;
-        pTemp->m_fnCallbackHandler = handler;
-        pTemp->m_fnCallbackuserData = user_data;
-        rtVector_PushBack(gListOfServerDirectDMLs, pTemp);
-
-        /* write to cache */
-        _rbuscore_directconnection_save_to_cache();
+        rbusServerDMLList_t *pTemp = _find_instance_dml(pInstance, pDMLName);
+        if(!pTemp || pTemp->m_closed)
+        {
+            if(pTemp)
+                rtVector_RemoveItem(gListOfServerDirectDMLs, pTemp, rtVector_Cleanup_Free);
+            pTemp = rt_calloc(1, sizeof(rbusServerDMLList_t));
+            rtString_Copy(pTemp->m_privConnAddress, pInstance->m_privConnAddress, MAX_OBJECT_NAME_LENGTH);
+            rtString_Copy(pTemp->m_consumerName, pConsumerName, MAX_OBJECT_NAME_LENGTH);
+            rtString_Copy(pTemp->m_privateDML, pDMLName, MAX_OBJECT_NAME_LENGTH);
+            pTemp->m_instance = pInstance;
+            pTemp->m_fnCallbackHandler = handler;
+            pTemp->m_fnCallbackuserData = user_data;
+            rtVector_PushBack(gListOfServerDirectDMLs, pTemp);
+
+            /* write to cache */
+            _rbuscore_directconnection_save_to_cache();
+        }
         directServerUnlock();
     }
     else
@@ -2847,6 +3022,10 @@ rbusCoreError_t rbuscore_startPrivateListener(const char* pPrivateConnAddress, c
 
 
 /////// CLIENT SIDE ///////
+/* connections are opened and closed one after the other */
+static pthread_mutex_t g_directOpenMutex = PTHREAD_MUTEX_INITIALIZER;
+static rbusClientDirectConn_t* g_clientDirectConns = NULL;
+
 static int _findClientPrivateConnection(const void* left, const void* right)
 {
     return strncmp(((rbusClientDMLList_t*)left)->m_providerName, (char*)right, MAX_OBJECT_NAME_LENGTH);
@@ -2857,32 +3036,87 @@ static int _findClientPrivateDML(const void* left, const void* right)
     return strncmp(((rbusClientDMLList_t*)left)->m_privateDML, (char*)right, MAX_OBJECT_NAME_LENGTH);
 }
 
-static void _rbuscore_destroy_clientPrivate_connections()
+static void* _destroy_connection_thread(void* p)
 {
-    rbusClientDMLList_t *obj = NULL;
-    char* pTmpProvider = NULL;
+    rtConnection_Destroy((rtConnection)p);
+    return NULL;
+}
+
+static void _release_client_connection(rbusClientDirectConn_t* pConn)
+{
+    rbusClientDirectConn_t** pos;
+    rtConnection connection = NULL;
+    pthread_t pid;
+
+    directClientLock();
+    if(--pConn->m_users == 0)
+    {
+        for(pos = &g_clientDirectConns; *pos != pConn; pos = &(*pos)->m_next);
+        *pos = pConn->m_next;
+        connection = pConn->m_conn;
+        free(pConn);
+    }
+    directClientUnlock();
+    if(!connection)
+        return;
+
+    /* destroying waits for the connection's threads, which this may be one of, or which may need a lock that is held here */
+    if(pthread_create(&pid, NULL, _destroy_connection_thread, connection) == 0)
+        pthread_detach(pid);
+    else
+        RBUSCORELOG_ERROR("pthread_create failed");
+}
+
+void rbuscore_ReleaseClientPrivateConnection(rtConnection connection)
+{
+    rbusClientDirectConn_t* pConn;
 
     directClientLock();
+    for(pConn = g_clientDirectConns; pConn && pConn->m_conn != connection; pConn = pConn->m_next);
+    directClientUnlock();
+    if(pConn)
+        _release_client_connection(pConn);
+}
 
-    while(rtVector_Size(gListOfClientDirectDMLs) > 0)
+/* remove the entries of the provider, or all of them */
+static void _remove_client_entries(const char* pProviderName)
+{
+    while(1)
     {
-        obj = rtVector_At(gListOfClientDirectDMLs, 0);
-        rtConnection_Destroy(obj->m_privConn);
-        pTmpProvider = strdup(obj->m_providerName);
-        rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
+        rbusClientDirectConn_t* pConn = NULL;
+        rbusClientDMLList_t* obj = NULL;
 
-        while(rtVector_Size(gListOfClientDirectDMLs) > 0)
+        directClientLock();
+        if(gListOfClientDirectDMLs)
         {
-            rtVector_RemoveItemByCompare(gListOfClientDirectDMLs, pTmpProvider, _findClientPrivateConnection, rtVector_Cleanup_Free);
+            if(pProviderName)
+                obj = rtVector_Find(gListOfClientDirectDMLs, pProviderName, _findClientPrivateConnection);
+            else if(rtVector_Size(gListOfClientDirectDMLs) > 0)
+                obj = rtVector_At(gListOfClientDirectDMLs, 0);
         }
-
-        free(pTmpProvider);
+        if(obj)
+        {
+            pConn = obj->m_privConn;
+            rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
+        }
+        directClientUnlock();
+        if(!pConn)
+            break;
+        _release_client_connection(pConn);
     }
+}
+
+bool rbuscore_HasClientPrivateConnection(const char *pParameterName)
+{
+    bool found;
 
+    directClientLock();
+    found = pParameterName && gListOfClientDirectDMLs && rtVector_Find(gListOfClientDirectDMLs, pParameterName, _findClientPrivateDML);
     directClientUnlock();
+    return found;
 }
 
-rtConnection rbuscore_FindClientPrivateConnection(const char *pParameterName)
+rtConnection rbuscore_AcquireClientPrivateConnection(const char *pParameterName)
 {
     rbusClientDMLList_t* pDmlObj = NULL;
     rtConnection myConn = NULL;
@@ -2890,121 +3124,141 @@ rtConnection rbuscore_FindClientPrivateConnection(const char *pParameterName)
     if (pParameterName)
     {
         directClientLock();
-        pDmlObj = rtVector_Find(gListOfClientDirectDMLs, pParameterName, _findClientPrivateDML);
-        if (pDmlObj)
+        if(gListOfClientDirectDMLs)
+            pDmlObj = rtVector_Find(gListOfClientDirectDMLs, pParameterName, _findClientPrivateDML);
+        /* the provider may have ended the connection: it is reached over the broker then, if at all */
+        if (pDmlObj && rtConnection_IsConnected(pDmlObj->m_privConn->m_conn))
         {
             RBUSCORELOG_DEBUG("Already we have private session for this DML(%s) for this consumer", pParameterName);
-            myConn = pDmlObj->m_privConn;
+            pDmlObj->m_privConn->m_users++;
+            myConn = pDmlObj->m_privConn->m_conn;
         }
         directClientUnlock();
     }
     return myConn;
 }
 
-#if 0
-static void rbuscore_private_connection_advisory_callback(rtMessageHeader const* hdr, uint8_t const* data, uint32_t dataLen, void* closure)
+/* a call over the direct connection to the provider, if there is one, or else over the given connection */
+rbusCoreError_t rbuscore_invokeProvider(rtConnection connection, const char * object_name, const char *method, rbusMessage out, int timeout_millisecs, rbusMessage *in)
 {
-    rtMessage msg;
-    (void)hdr;
-    (void)closure;
-    int32_t advisory_event;
-
-    RBUSCORELOG_ERROR("got event from advisory msg");
-    rtMessage_FromBytes(&msg, data, dataLen);
-    if(rtMessage_GetInt32(msg, RTMSG_ADVISE_EVENT, &advisory_event) == RT_OK)
+    rbusCoreError_t err;
+    rtConnection direct = rbuscore_AcquireClientPrivateConnection(object_name);
+    if(direct)
     {
-        if(advisory_event == rtAdviseClientDisconnect)
+        bool unserved;
+
+        if(out)
+            rbusMessage_Retain(out);
+        err = rbus_invokeRemoteMethod2(direct, object_name, method, out, timeout_millisecs, in);
+        /* the provider has just ended the direct connection, or ended: other than METHOD_RESPONSE
+           comes back, or the request can't be sent */
+        unserved = (err == RBUSCORE_ERROR_MALFORMED_RESPONSE) || (err == RBUSCORE_ERROR_GENERAL && !rtConnection_IsConnected(direct));
+        rbuscore_ReleaseClientPrivateConnection(direct);
+        if(!unserved)
         {
-            const char* listener;
-            if(rtMessage_GetString(msg, RTMSG_ADVISE_INBOX, &listener) == RT_OK)
-            {
-                RBUSCORELOG_DEBUG("Advisory event: client disconnect %s", listener);
-                rbuscore_terminatePrivateConnection(listener);
-            }
-            else
-            {
-                RBUSCORELOG_ERROR("Failed to get inbox from advisory msg");
-            }
+            if(out)
+                rbusMessage_Release(out);
+            return err;
         }
     }
-    else
-    {
-        RBUSCORELOG_ERROR("Failed to get event from advisory msg");
-    }
-
-    rtMessage_Release(msg);
-
-    return;
+    return rbus_invokeRemoteMethod2(connection, object_name, method, out, timeout_millisecs, in);
 }
-#endif
 
-rbusCoreError_t rbuscore_openPrivateConnectionToProvider(rtConnection *pPrivateConn, const char* pParameterName, const char *pPrivateConnAddress, const char *pProviderName)
+static rbusCoreError_t _open_connection_to_provider(const char* pParameterName, const char *pPrivateConnAddress, const char *pProviderName)
 {
     rtError       err;
-    rbusCoreError_t ret = RBUSCORE_SUCCESS;
     rtMessage     config;
     rtConnection  connection;
     rbusClientDMLList_t *obj = NULL;
+    rbusMessage request = NULL;
+    rbusMessage response = NULL;
+    rbusClientDirectConn_t* pConn = NULL;
+
+    if (!pPrivateConnAddress || !pProviderName)
+        return RBUSCORE_ERROR_INVALID_PARAM;
 
-    if (pPrivateConn && pPrivateConnAddress)
+    directClientLock();
+    obj = rtVector_Find(gListOfClientDirectDMLs, pProviderName, _findClientPrivateConnection);
+    if (obj)
     {
-        directClientLock();
-        obj = rtVector_Find(gListOfClientDirectDMLs, pProviderName, _findClientPrivateConnection);
-        if (!obj)
-        {
-            RBUSCORELOG_INFO("Connection does not exist; create new");
+        pConn = obj->m_privConn;
+        pConn->m_users++;
+    }
+    directClientUnlock();
 
-            rtMessage_Create(&config);
-            rtMessage_SetString(config, "appname", "rbus");
-            rtMessage_SetString(config, "uri", pPrivateConnAddress);
-            rtMessage_SetInt32(config, "max_retries", 5);
-            rtMessage_SetInt32(config, "start_router", 0);
+    if (pConn && !rtConnection_IsConnected(pConn->m_conn))
+    {
+        /* what is left of a connection that the provider ended */
+        _release_client_connection(pConn);
+        _remove_client_entries(pProviderName);
+        pConn = NULL;
+    }
 
-            err = rtConnection_CreateWithConfig(&connection, config);
-            if (err != RT_OK)
-            {
-                RBUSCORELOG_ERROR("failed to create connection to router %s. %s", pPrivateConnAddress, rtStrError(err));
-                rtMessage_Release(config);
-                directClientUnlock();
-                return RBUSCORE_ERROR_GENERAL;
-            }
-            *pPrivateConn = connection;
+    if (!pConn)
+    {
+        RBUSCORELOG_INFO("Connection does not exist; create new");
 
-            rtConnection_AddDefaultListener(connection, master_event_callback, NULL);
-            RBUSCORELOG_DEBUG("pPrivateConn new = %p", connection);
-            rtMessage_Release(config);
-        }
-        else
+        rtMessage_Create(&config);
+        rtMessage_SetString(config, "appname", "rbus");
+        rtMessage_SetString(config, "uri", pPrivateConnAddress);
+        rtMessage_SetInt32(config, "max_retries", 5);
+        rtMessage_SetInt32(config, "start_router", 0);
+        rtMessage_SetInt32(config, "no_reconnect", 1);
+
+        err = rtConnection_CreateWithConfig(&connection, config);
+        rtMessage_Release(config);
+        if (err != RT_OK)
         {
-            *pPrivateConn = connection = obj->m_privConn;
-            RBUSCORELOG_DEBUG("pPrivateConn found = %p", obj->m_privConn);
+            RBUSCORELOG_ERROR("failed to create connection to router %s. %s", pPrivateConnAddress, rtStrError(err));
+            return RBUSCORE_ERROR_GENERAL;
         }
+        rtConnection_AddDefaultListener(connection, master_event_callback, NULL);
+        RBUSCORELOG_DEBUG("pPrivateConn new = %p", connection);
 
-        /* Add an entry to the list */
+        /* a request is answered, with an error, once the provider knows where to send events to */
+        rbusMessage_Init(&request);
+        if (rbus_invokeRemoteMethod2(connection, RBUS_DIRECT_READY, RBUS_DIRECT_READY, request, 5000, &response) != RBUSCORE_ERROR_MALFORMED_RESPONSE)
         {
-            rbusClientDMLList_t *pNewObj = NULL;
-            /* Update the Vector to avoid multiple connections */
-            pNewObj = rt_malloc(sizeof(rbusClientDMLList_t));
-
-            strcpy(pNewObj->m_privateDML, pParameterName);
-            strcpy(pNewObj->m_providerName, pProviderName);
-            pNewObj->m_privConn = connection;
-
-            rtVector_PushBack(gListOfClientDirectDMLs, pNewObj);
-    
+            if (response)
+                rbusMessage_Release(response);
+            RBUSCORELOG_ERROR("no answer over the direct connection to %s", pProviderName);
+            rtConnection_Destroy(connection);
+            return RBUSCORE_ERROR_GENERAL;
         }
+
+        pConn = rt_calloc(1, sizeof(rbusClientDirectConn_t));
+        pConn->m_conn = connection;
+        pConn->m_users = 1;
+        directClientLock();
+        pConn->m_next = g_clientDirectConns;
+        g_clientDirectConns = pConn;
         directClientUnlock();
     }
-    else
-        ret = RBUSCORE_ERROR_INVALID_PARAM;
 
-    return ret;
+    /* Update the Vector to avoid multiple connections */
+    obj = rt_calloc(1, sizeof(rbusClientDMLList_t));
+    rtString_Copy(obj->m_privateDML, pParameterName, MAX_OBJECT_NAME_LENGTH);
+    rtString_Copy(obj->m_providerName, pProviderName, MAX_OBJECT_NAME_LENGTH);
+    obj->m_privConn = pConn;
+
+    directClientLock();
+    rtVector_PushBack(gListOfClientDirectDMLs, obj);
+    directClientUnlock();
+    return RBUSCORE_SUCCESS;
 }
 
-rbusCoreError_t rbuscore_createPrivateConnection(const char *pParameterName, rtConnection *pPrivateConn)
+rbusCoreError_t rbuscore_createPrivateConnection(const char *pParameterName)
 {
     rbusCoreError_t err;
     rbusMessage request, response;
+
+    pthread_mutex_lock(&g_directOpenMutex);
+    if(rbuscore_HasClientPrivateConnection(pParameterName))
+    {
+        pthread_mutex_unlock(&g_directOpenMutex);
+        return RBUSCORE_ERROR_DUPLICATE_ENTRY;
+    }
+
     rbusMessage_Init(&request);
     rbusMessage_SetString(request, rtConnection_GetReturnAddress(g_connection));
     rbusMessage_SetInt32(request, (int32_t)getpid());
@@ -3014,7 +3268,9 @@ rbusCoreError_t rbuscore_createPrivateConnection(const char *pParameterName, rtC
     err = rbus_invokeRemoteMethod(pParameterName, METHOD_OPENDIRECT_CONN, request, 5000, &response);
     if(RBUSCORE_SUCCESS == err)
     {
-        rbusMessage_GetInt32(response, (int32_t*)&err);
+        int32_t result = RBUSCORE_ERROR_GENERAL;
+        rbusMessage_GetInt32(response, &result);
+        err = result;
         RBUSCORELOG_DEBUG("Response from the remote method is [%d]!", err);
 
         if (err == RBUSCORE_SUCCESS)
@@ -3025,10 +3281,11 @@ rbusCoreError_t rbuscore_createPrivateConnection(const char *pParameterName, rtC
             rbusMessage_GetString(response, &pProviderName);
             rbusMessage_GetString(response, &pDaemonAddress);
 
-            err = rbuscore_openPrivateConnectionToProvider(pPrivateConn, pParameterName, pDaemonAddress, pProviderName);
+            err = _open_connection_to_provider(pParameterName, pDaemonAddress, pProviderName);
         }
         rbusMessage_Release(response);
     }
+    pthread_mutex_unlock(&g_directOpenMutex);
     return err;
 }
 
@@ -3036,83 +3293,64 @@ rbusCoreError_t rbuscore_closePrivateConnection(const char *pParameterName)
 {
     rbusCoreError_t err;
     rbusClientDMLList_t *obj = NULL;
-    rtConnection  connection = NULL;
+    rbusClientDirectConn_t* pConn = NULL;
     rbusMessage request, response;
-    char providerName[MAX_OBJECT_NAME_LENGTH+1] = "";
 
-    if (pParameterName)
-    {
-        directClientLock();
-        obj = rtVector_Find(gListOfClientDirectDMLs, pParameterName, _findClientPrivateDML);
-        if (!obj)
-        {
-            RBUSCORELOG_DEBUG("Private Connection Does Not Exist anymore for (%s)", pParameterName);
-            directClientUnlock();
-            /* Possibly the Provider Exited and we removed it as part of Advisory message */
-            return RBUSCORE_ERROR_GENERAL;
-        }
-
-        /* You are here only becoz you have valid connection */
-        rbusMessage_Init(&request);
-        rbusMessage_SetString(request, rtConnection_GetReturnAddress(g_connection));
-        rbusMessage_SetString(request, pParameterName);
+    if (!pParameterName)
+        return RBUSCORE_ERROR_INVALID_PARAM;
 
-        err = rbus_invokeRemoteMethod(pParameterName, METHOD_CLOSEDIRECT_CONN, request, 5000, &response);
-        if(RBUSCORE_SUCCESS != err)
-        {
-            RBUSCORELOG_ERROR("Received error %d from RBUS Daemon for the object (%s)", err, pParameterName);
-        }
-        else
-        {
-            rbusMessage_GetInt32(response, (int32_t*)&err);
-            RBUSCORELOG_DEBUG("Response from the remote method is [%d]!", err);
+    pthread_mutex_lock(&g_directOpenMutex);
+    if (!rbuscore_HasClientPrivateConnection(pParameterName))
+    {
+        RBUSCORELOG_DEBUG("Private Connection Does Not Exist anymore for (%s)", pParameterName);
+        pthread_mutex_unlock(&g_directOpenMutex);
+        /* Possibly the Provider Exited and we removed it as part of Advisory message */
+        return RBUSCORE_ERROR_GENERAL;
+    }
 
-            if (RBUSCORE_SUCCESS == err)
-            {
-                connection = obj->m_privConn;
-                memcpy(providerName, obj->m_providerName, MAX_OBJECT_NAME_LENGTH);
-                providerName[MAX_OBJECT_NAME_LENGTH] = '\0';
-                rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
-            }
-            rbusMessage_Release(response);
-        }
+    /* You are here only becoz you have valid connection */
+    rbusMessage_Init(&request);
+    rbusMessage_SetString(request, rtConnection_GetReturnAddress(g_connection));
+    rbusMessage_SetString(request, pParameterName);
 
-        obj = rtVector_Find(gListOfClientDirectDMLs, providerName, _findClientPrivateConnection);
-        if (!obj)
-        {
-            RBUSCORELOG_DEBUG("No more DML for this provider, so lets destroy the connection.");
-            rtConnection_Destroy(connection);
-        }
-        directClientUnlock();
+    err = rbus_invokeRemoteMethod(pParameterName, METHOD_CLOSEDIRECT_CONN, request, 5000, &response);
+    if(RBUSCORE_SUCCESS != err)
+    {
+        RBUSCORELOG_ERROR("Received error %d from RBUS Daemon for the object (%s)", err, pParameterName);
     }
     else
-        err = RBUSCORE_ERROR_INVALID_PARAM;
-
-    return err;
-}
-
-rbusCoreError_t rbuscore_terminatePrivateConnection(const char *pProviderName)
-{
-    rbusCoreError_t err = RBUSCORE_SUCCESS;
-    rbusClientDMLList_t *obj = NULL;
-    rtConnection  connection = NULL;
+    {
+        int32_t result = RBUSCORE_ERROR_GENERAL;
+        rbusMessage_GetInt32(response, &result);
+        err = result;
+        RBUSCORELOG_DEBUG("Response from the remote method is [%d]!", err);
+        rbusMessage_Release(response);
+    }
 
+    /* whatever the provider says: nobody uses the connection for this DML from now on */
     directClientLock();
-
-    obj = rtVector_Find(gListOfClientDirectDMLs, pProviderName, _findClientPrivateConnection);
+    obj = rtVector_Find(gListOfClientDirectDMLs, pParameterName, _findClientPrivateDML);
     if (obj)
     {
-        connection = obj->m_privConn;
-        rtConnection_Destroy(connection);
+        pConn = obj->m_privConn;
         rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
-        while ((obj = rtVector_Find(gListOfClientDirectDMLs, pProviderName, _findClientPrivateConnection)) != NULL)
-            rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
     }
     directClientUnlock();
+    if (pConn)
+        _release_client_connection(pConn);
+    pthread_mutex_unlock(&g_directOpenMutex);
 
     return err;
 }
 
+rbusCoreError_t rbuscore_terminatePrivateConnection(const char *pProviderName)
+{
+    if (!pProviderName)
+        return RBUSCORE_ERROR_INVALID_PARAM;
+    _remove_client_entries(pProviderName);
+    return RBUSCORE_SUCCESS;
+}
+
 
 
 /* End of File */
diff --git a/src/core/rbuscore.h b/src/core/rbuscore.h
index cc198ac..ee09454 100644
--- a/src/core/rbuscore.h
+++ b/src/core/rbuscore.h
@@ -212,10 +212,17 @@ rbusCoreError_t rbus_sendResponse(const rtMessageHeader* hdr, rbusMessage respon
 
 
 /* The Consumer application to identify whether any private connection exist for the given DML */
-rtConnection rbuscore_FindClientPrivateConnection(const char *pParameterName);
+bool rbuscore_HasClientPrivateConnection(const char *pParameterName);
+
+/* The private connection for the given DML, if it exists and is up. It isn't destroyed until it is released */
+rtConnection rbuscore_AcquireClientPrivateConnection(const char *pParameterName);
+void rbuscore_ReleaseClientPrivateConnection(rtConnection connection);
+
+/* Invoke a method over the private connection for the given DML, or over the given connection */
+rbusCoreError_t rbuscore_invokeProvider(rtConnection connection, const char * object_name, const char *method, rbusMessage out, int timeout_millisecs, rbusMessage *in);
 
 /* The Consumer application to request to create a private connection to the Provider for the given DML */
-rbusCoreError_t rbuscore_createPrivateConnection(const char *pParameterName, rtConnection *pPrivateConn);
+rbusCoreError_t rbuscore_createPrivateConnection(const char *pParameterName);
 
 /* The Consumer application to request to close the private connection to the Provider for the given DML */
 rbusCoreError_t rbuscore_closePrivateConnection(const char *pParameterName);
@@ -224,7 +231,10 @@ rbusCoreError_t rbuscore_closePrivateConnection(const char *pParameterName);
 rbusCoreError_t rbuscore_terminatePrivateConnection(const char *pProviderName);
 
 /* The Provider application to request to start the instance of rtrouted in the given socket name; for the given DML */
-rbusCoreError_t rbuscore_startPrivateListener(const char* pPrivateConnAddress, const char* pConsumerName, const char *pDMLName, rbus_callback_t handler, void * user_data);
+rbusCoreError_t rbuscore_startPrivateListener(char* pPrivateConnAddress, size_t addressLength, const char* pConsumerName, const char *pDMLName, rbus_callback_t handler, void * user_data);
+
+/* End the private connections whose requests are handled with the given data, and the handlers that use it */
+void rbuscore_closePrivateListeners(void* user_data);
 
 /* The Provider application to request to remove/close the instance of rtrouted in the given DML */
 rbusCoreError_t rbuscore_updatePrivateListener(const char* pConsumerName, const char *pDMLName);
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index e496de3..2cf488c 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -336,75 +336,39 @@ rbusError_t rbusHandle_ConfigTimeoutValues(rbusHandle_t handle, rbusTimeoutValue
     return RBUS_ERROR_SUCCESS;
 }
 
-rbusError_t rbusOpenDirect_SubAdd(rbusHandle_t handle, rtVector eventSubs, char const* eventName)
+/*Raw data of the event reaches the handle's subscriptions over the private connection too from now on, see
+  _subscribe_rawdata_handler*/
+static void _direct_addSubscriptions(rbusHandle_t handle, char const* eventName)
 {
     size_t i;
-    char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
-    rbusEventSubscriptionInternal_t* subInternal = NULL;
-    rbusError_t errorcode = RBUS_ERROR_SUCCESS;
 
-    for(i=0; i < rtVector_Size(eventSubs); ++i)
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    for(i = 0; i < rtVector_Size(handle->eventSubs); ++i)
     {
-        subInternal = (rbusEventSubscriptionInternal_t*)rtVector_At(eventSubs, i);
-        if(subInternal && !strcmp(subInternal->sub->eventName, eventName))
+        rbusEventSubscriptionInternal_t* subInternal = rtVector_At(handle->eventSubs, i);
+        if(subInternal->rawData && !strcmp(subInternal->sub->eventName, eventName))
         {
-            if(subInternal->rawData)
-                snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
-            else
-                snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subInternal->subscriptionId, subInternal->sub->eventName);
-
-            if(rbusMessage_HasListener(handle, rawDataTopic))
-            {
-                errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId);
-                if (errorcode != RBUS_ERROR_SUCCESS)
-                {
-                    RBUSLOG_WARN("rbusMessage_RemoveListener failed err:%d", errorcode);
-                }
-            }
-            memset(rawDataTopic, '\0', strlen(rawDataTopic));
-            snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%s", subInternal->sub->eventName);
-            if(subInternal->rawData)
-            {
-                errorcode = rbusMessage_AddPrivateListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
-            }
+            rbusError_t errorcode = rbusMessage_AddPrivateListener(handle, eventName, _subscribe_rawdata_handler,
+                    (void *)(subInternal->sub), subInternal->subscriptionId);
             if(errorcode != RBUS_ERROR_SUCCESS)
-            {
                 RBUSLOG_ERROR("rbusMessage_AddPrivateListener failed err: %d", errorcode);
-            }
         }
     }
-    return errorcode;
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
 }
 
-rbusError_t rbusCloseDirect_SubRemove(rbusHandle_t handle, rtVector eventSubs, char const* eventName)
+static void _direct_removeSubscriptions(rbusHandle_t handle, char const* eventName)
 {
     size_t i;
-    rbusError_t errorcode = RBUS_ERROR_SUCCESS;
-    rbusEventSubscriptionInternal_t* subInternal = NULL;
-    char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
 
-    for(i=0; i < rtVector_Size(eventSubs); ++i)
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    for(i = 0; i < rtVector_Size(handle->eventSubs); ++i)
     {
-        subInternal = (rbusEventSubscriptionInternal_t*)rtVector_At(eventSubs, i);
-        if(subInternal && !strcmp(subInternal->sub->eventName, eventName) && subInternal->rawData)
-        {
-            snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%s", subInternal->sub->eventName);
-            errorcode = rbusMessage_RemovePrivateListener(handle, rawDataTopic, subInternal->subscriptionId);
-            if (errorcode != RBUS_ERROR_SUCCESS)
-            {
-                RBUSLOG_WARN("rbusMessage_RemovePrivateListener failed err:%d", errorcode);
-            }
-            handle->m_connection = handle->m_connectionParent; /* changed the handle m_connection of direct connection to use normal m_connection and used the same to add the rawdatatopic for normal connection*/
-            memset(rawDataTopic, '\0', strlen(rawDataTopic));
-            snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
-            errorcode = rbusMessage_AddListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
-            if(errorcode != RBUS_ERROR_SUCCESS)
-            {
-                RBUSLOG_ERROR("rbusMessage_AddListener failed err: %d", errorcode);
-            }
-        }
+        rbusEventSubscriptionInternal_t* subInternal = rtVector_At(handle->eventSubs, i);
+        if(subInternal->rawData && !strcmp(subInternal->sub->eventName, eventName))
+            rbusMessage_RemovePrivateListener(handle, eventName, subInternal->subscriptionId);
     }
-    return errorcode;
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
 }
 
 static bool _parse_rbusData_to_value (char const* pBuff, rbusLegacyDataType_t legacyType, rbusValue_t value)
@@ -2907,7 +2871,7 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
     char const* consumerToBrokerConf = NULL;
     int32_t consumerPID = 0;
     char daemonAddress[RBUS_DAEMON_CONF_LENGTH] = "";
-
+    static unsigned int instances = 0;
 
     rbusMessage_GetString(request, &consumerName);
     rbusMessage_GetInt32(request, &consumerPID);
@@ -2916,19 +2880,21 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
 
     rbusMessage_Init(response);
 
-    el = retrieveInstanceElementEx(handle, handleInfo->elementRoot, paramName, true);
+    if (consumerName && paramName && consumerToBrokerConf)
+        el = retrieveInstanceElementEx(handle, handleInfo->elementRoot, paramName, true);
 
     if (el)
     {
         if (0 == strncmp(consumerToBrokerConf, "unix", 4))
         {
-            snprintf (daemonAddress, RBUS_DAEMON_CONF_LENGTH, "unix:///tmp/.direct_%s_%s", __progname, consumerName);
+            /* other processes of this program may serve the same consumer, and the address of an earlier connection may
+               be in use until the consumer has gone */
+            snprintf (daemonAddress, RBUS_DAEMON_CONF_LENGTH, "unix:///tmp/.direct_%s_%d_%s_%u", __progname, (int)getpid(), consumerName, __sync_fetch_and_add(&instances, 1));
         }
         else
         {
-            char ip[128];
             // the length of 6 for "tcp://"
-            char const* p = strrchr(consumerToBrokerConf + 6, ':');
+            char const* p = (strlen(consumerToBrokerConf) > 6) ? strrchr(consumerToBrokerConf + 6, ':') : NULL;
             if (!p)
             {
                 RBUSLOG_WARN("invalid address string:%s", consumerToBrokerConf);
@@ -2936,8 +2902,7 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
             }
             else
             {
-                strncpy(ip, consumerToBrokerConf, (p - consumerToBrokerConf));
-                RBUSLOG_DEBUG ("parsing ip address:%s", ip);
+                RBUSLOG_DEBUG ("parsing ip address:%s", consumerToBrokerConf);
             
                 //FIXME :: The port must be within 65535 and unique to the consumer.
                 // PID is something unique  but the same client can have direct connection to two different providers and that could lead to failure.
@@ -2957,30 +2922,29 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
                     port =  rand() % 65535;
                 } while (port < 8080);
 
-                snprintf (daemonAddress, RBUS_DAEMON_CONF_LENGTH, "%s:%u", ip, port);
+                snprintf (daemonAddress, RBUS_DAEMON_CONF_LENGTH, "%.*s:%u", (int)(p - consumerToBrokerConf), consumerToBrokerConf, port);
             }
         }
     }
     else
     {
         ret = RBUSCORE_ERROR_ENTRY_NOT_FOUND;
-        RBUSLOG_WARN("invalid parameter name :%s", paramName);
+        RBUSLOG_WARN("invalid parameter name :%s", paramName ? paramName : "NULL");
     }
 
+    if (RBUSCORE_SUCCESS == ret)
+        ret = rbuscore_startPrivateListener(daemonAddress, sizeof(daemonAddress), consumerName, paramName, _callback_handler, handle);
+
     rbusMessage_SetInt32(*response, ret);
     if (RBUSCORE_SUCCESS == ret)
     {
-        rbuscore_startPrivateListener(daemonAddress, consumerName, paramName, _callback_handler, handle);
-
         rbusMessage_SetString(*response, rtConnection_GetReturnAddress(handleInfo->m_connection));
         rbusMessage_SetString(*response, daemonAddress);
     }
 }
 
-static void _close_direct_connection_callback_handler (rbusHandle_t handle, rbusMessage request, rbusMessage *response)
+static void _close_direct_connection_callback_handler (rbusMessage request, rbusMessage *response)
 {
-    elementNode* el = NULL;
-    struct _rbusHandle* handleInfo = handle;
     char const* consumerName = NULL;
     char const* paramName = NULL;
 
@@ -2989,16 +2953,14 @@ static void _close_direct_connection_callback_handler (rbusHandle_t handle, rbus
 
     rbusMessage_Init(response);
 
-    el = retrieveInstanceElement(handleInfo->elementRoot, paramName);
-    if (el)
+    if (consumerName && paramName)
     {
         rbusMessage_SetInt32(*response, RBUSCORE_SUCCESS);
         rbuscore_updatePrivateListener(consumerName, paramName);
+        RBUSLOG_DEBUG("Handled the disconnect request from %s for DML(%s)", consumerName, paramName);
     }
     else
         rbusMessage_SetInt32(*response, RBUSCORE_ERROR_INVALID_PARAM);
-
-    RBUSLOG_DEBUG("Handled the disconnect request from %s for DML(%s)", consumerName, paramName);
 }
 
 static int _callback_handler(char const* destination, char const* method, rbusMessage request, void* userData, rbusMessage* response, const rtMessageHeader* hdr)
@@ -3056,7 +3018,7 @@ static int _callback_handler(char const* destination, char const* method, rbusMe
     }
     else if(!strcmp(method, METHOD_CLOSEDIRECT_CONN))
     {
-        _close_direct_connection_callback_handler(handle, request, response);
+        _close_direct_connection_callback_handler(request, response);
     }
     else if(!strcmp(method, METHOD_RPC))
     {
@@ -3238,92 +3200,82 @@ exit_error0:
     return ret;
 }
 
-static uint32_t sDisConnHandler;
+/*the direct handles that are open*/
+static rtVector gDirectHandles = NULL;
+static pthread_mutex_t gDirectHandlesMutex = PTHREAD_MUTEX_INITIALIZER;
 
 rbusError_t rbus_openDirect(rbusHandle_t handle, rbusHandle_t* myDirectHandle, char const* pParameterName)
 {
-    rtConnection myDirectCon = NULL;
-    rbusError_t ret = RBUS_ERROR_SUCCESS;
+    rbusHandle_t tmpHandle = NULL;
     rbusCoreError_t err = RBUSCORE_SUCCESS;
-    struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
+    VERIFY_NULL(handle);
+    VERIFY_NULL(myDirectHandle);
+    VERIFY_NULL(pParameterName);
     VERIFY_HANDLE(handle);
-    if ((handle) && (myDirectHandle) && (pParameterName))
+
+    /*the provider may go at any time from now on*/
+    rbus_registerClientDisconnectHandler(_client_disconnect_callback_handler);
+
+    err = rbuscore_createPrivateConnection(pParameterName);
+    if (RBUSCORE_ERROR_DUPLICATE_ENTRY == err)
     {
-        if (rbuscore_FindClientPrivateConnection(pParameterName))
-        {
-            RBUSLOG_ERROR("Private Connection Already Exist for this Parameter(%s) for this consumer(%s)", pParameterName, handleInfo->componentName);
-            return RBUS_ERROR_ELEMENT_NAME_DUPLICATE;
-        }
-        else
-        {
-            err = rbuscore_createPrivateConnection(pParameterName, &myDirectCon);
-            if (RBUSCORE_SUCCESS == err)
-            {
-                ret = RBUS_ERROR_SUCCESS;
-                rbusHandle_t tmpHandle = NULL;
-                tmpHandle = rt_calloc(1, sizeof(struct _rbusHandle));
-                tmpHandle->componentName = strdup(pParameterName);
-                tmpHandle->m_connection = myDirectCon;
-                tmpHandle->eventSubs = handleInfo->eventSubs;
-                tmpHandle->m_connectionParent = handleInfo->m_connection;
-                tmpHandle->messageCallbacks = handleInfo->messageCallbacks;
-                tmpHandle->m_handleType = RBUS_HWDL_TYPE_DIRECT;
-                *myDirectHandle = tmpHandle;
-                rbusOpenDirect_SubAdd(handle, handle->eventSubs, pParameterName);
-                if (!sDisConnHandler)
-                {
-                    rbus_registerClientDisconnectHandler(_client_disconnect_callback_handler);
-                }
-                sDisConnHandler++;
-            }
-            else
-            {
-                *myDirectHandle = NULL;
-                ret = RBUS_ERROR_COMPONENT_DOES_NOT_EXIST;
-            }
-        }
+        RBUSLOG_ERROR("Private Connection Already Exist for this Parameter(%s) for this consumer(%s)", pParameterName, handle->componentName);
+        return RBUS_ERROR_ELEMENT_NAME_DUPLICATE;
     }
-    else
+    if (RBUSCORE_SUCCESS != err)
     {
-        ret = RBUS_ERROR_INVALID_INPUT;
+        *myDirectHandle = NULL;
+        return RBUS_ERROR_COMPONENT_DOES_NOT_EXIST;
     }
 
-
-    return ret;
+    tmpHandle = rt_calloc(1, sizeof(struct _rbusHandle));
+    tmpHandle->componentName = strdup(pParameterName);
+    tmpHandle->m_parent = handle;
+    tmpHandle->m_handleType = RBUS_HWDL_TYPE_DIRECT;
+    pthread_mutex_lock(&gDirectHandlesMutex);
+    if (!gDirectHandles)
+        rtVector_Create(&gDirectHandles);
+    rtVector_PushBack(gDirectHandles, tmpHandle);
+    pthread_mutex_unlock(&gDirectHandlesMutex);
+
+    *myDirectHandle = tmpHandle;
+    _direct_addSubscriptions(handle, pParameterName);
+    return RBUS_ERROR_SUCCESS;
 }
 
 rbusError_t rbus_closeDirect(rbusHandle_t handle)
 {
-    rbusError_t ret = RBUS_ERROR_SUCCESS;
-    rbusCoreError_t err = RBUSCORE_SUCCESS;
-    struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
+    size_t i;
+    bool found = false;
 
-    VERIFY_HANDLE(handle);
-    if (RBUS_HWDL_TYPE_DIRECT == handleInfo->m_handleType)
+    VERIFY_NULL(handle);
+    pthread_mutex_lock(&gDirectHandlesMutex);
+    for (i = 0; gDirectHandles && i < rtVector_Size(gDirectHandles) && !found; ++i)
+        found = (rtVector_At(gDirectHandles, i) == handle);
+    if (found)
     {
-        if (sDisConnHandler == 1)
+        rtVector_RemoveItem(gDirectHandles, handle, NULL);
+        if (rtVector_Size(gDirectHandles) == 0)
         {
-            if((err = rbus_unregisterClientDisconnectHandler()) != RBUSCORE_SUCCESS)
-            {
-                RBUSLOG_ERROR("(%s): rbus_unregisterClientDisconnectHandler error %d", handleInfo->componentName, err);
-                ret = RBUS_ERROR_BUS_ERROR;
-            }
+            rtVector_Destroy(gDirectHandles, NULL);
+            gDirectHandles = NULL;
         }
-        --sDisConnHandler;
-        ret = rbusCloseDirect_SubRemove(handle, handleInfo->eventSubs, handleInfo->componentName);
-        rbuscore_closePrivateConnection(handleInfo->componentName);
-        free(handleInfo->componentName);
-        handleInfo->componentName = NULL;
-        handleInfo->m_handleType = RBUS_HWDL_TYPE_UNKNOWN;
-        free(handleInfo);
-
     }
-    else
+    pthread_mutex_unlock(&gDirectHandlesMutex);
+
+    if (!found)
     {
-        ret = RBUS_ERROR_INVALID_INPUT;
+        VERIFY_HANDLE(handle);
+        return RBUS_ERROR_INVALID_INPUT;
     }
-    return ret;
+
+    if (rbusHandleList_IsValidHandle(handle->m_parent))
+        _direct_removeSubscriptions(handle->m_parent, handle->componentName);
+    rbuscore_closePrivateConnection(handle->componentName);
+    free(handle->componentName);
+    free(handle);
+    return RBUS_ERROR_SUCCESS;
 }
 
 rbusError_t rbus_close(rbusHandle_t handle)
@@ -3350,6 +3302,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
     remove(filename);
 
     err = rbus_unregisterObj(handleInfo->componentName);
+    rbuscore_closePrivateListeners(handle);
 
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if(handleInfo->eventSubs)
@@ -3531,18 +3484,6 @@ rbusError_t rbus_regDataElements(
     if(rc != RBUS_ERROR_SUCCESS && i > 0)
         rbus_unregDataElements(handle, i, elements);
 
-#if 0
-    if((rc == RBUS_ERROR_SUCCESS) && (!sDisConnHandler))
-    {
-        err = rbus_registerClientDisconnectHandler(_client_disconnect_callback_handler);
-        if(err != RBUSCORE_SUCCESS)
-        {
-            RBUSLOG_ERROR("registerClientDisconnectHandler error %d", err);
-        }
-        else
-            sDisConnHandler = true;
-    }
-#endif
     return rc;
 }
 
@@ -3668,13 +3609,7 @@ rbusError_t rbus_get(rbusHandle_t handle, char const* name, rbusValue_t* value)
 
     RBUSLOG_DEBUG("Calling rbus_invokeRemoteMethod2 for [%s]", name);
 
-    /* Find direct connection status */
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(name);
-        
-    if (NULL == myConn)
-        myConn = handleInfo->m_connection;
-
-    err = rbus_invokeRemoteMethod2(myConn, name, METHOD_GETPARAMETERVALUES, request, rbusHandle_FetchGetTimeout(handle), &response);
+    err = rbuscore_invokeProvider(handleInfo->m_connection, name, METHOD_GETPARAMETERVALUES, request, rbusHandle_FetchGetTimeout(handle), &response);
 
     if(err != RBUSCORE_SUCCESS)
     {
@@ -4176,16 +4111,10 @@ rbusError_t _setInternal(rbusHandle_t handle, char const* name, rbusValue_t valu
 
     /* Set the Commit value; FIXME: Should we use string? */
     rbusMessage_SetString(setRequest, (!opts || opts->commit) ? "TRUE" : "FALSE");
-    /* Find direct connection status */
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(name);
-        
-    if (NULL == myConn)
-        myConn = handleInfo->m_connection;
-
     if (timeout == 0)
         timeout = rbusHandle_FetchSetTimeout(handle);
 
-    if((err = rbus_invokeRemoteMethod2(myConn, name, METHOD_SETPARAMETERVALUES, setRequest, timeout, &setResponse)) != RBUSCORE_SUCCESS)
+    if((err = rbuscore_invokeProvider(handleInfo->m_connection, name, METHOD_SETPARAMETERVALUES, setRequest, timeout, &setResponse)) != RBUSCORE_SUCCESS)
     {
         RBUSLOG_ERROR("%s for %s failed with error: %s", __FUNCTION__, name, rbusCoreErrorToString(err));
         errorcode = rbusCoreError_to_rbusError(err);
@@ -4254,11 +4183,7 @@ rbusError_t rbus_setCommit(rbusHandle_t handle, char const* name, rbusSetOptions
     /* Set the Commit value */
     rbusMessage_SetString(setRequest, (!opts || opts->commit) ? "TRUE" : "FALSE");
     
-    /* Find direct connection status */
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(name);
-    if (NULL == myConn)
-        myConn = handleInfo->m_connection;
-    if((err = rbus_invokeRemoteMethod2(myConn, name, METHOD_COMMIT, setRequest, rbusHandle_FetchSetTimeout(handle),  &setResponse)) != RBUSCORE_SUCCESS)
+    if((err = rbuscore_invokeProvider(handleInfo->m_connection, name, METHOD_COMMIT, setRequest, rbusHandle_FetchSetTimeout(handle),  &setResponse)) != RBUSCORE_SUCCESS)
     {
         RBUSLOG_ERROR("%s for %s failed with error: %s", __FUNCTION__, name, rbusCoreErrorToString(err));
         errorcode = rbusCoreError_to_rbusError(err);
@@ -4676,13 +4601,7 @@ rbusError_t rbusTable_addRow(
     else
         rbusMessage_SetString(request, "");
 
-    /* Find direct connection status */
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(tableName);
-
-    if (NULL == myConn)
-        myConn = handleInfo->m_connection;
-
-    if((err = rbus_invokeRemoteMethod2(myConn,
+    if((err = rbuscore_invokeProvider(handleInfo->m_connection,
         tableName, /*as taken from ccsp_base_api.c, this was the destination component ID, but to locate the route, the table name can be used
                      because the broker simlpy looks at the top level nodes that are owned by a component route.  maybe this breaks if the broker changes*/
         METHOD_ADDTBLROW, 
@@ -4743,13 +4662,7 @@ rbusError_t rbusTable_removeRow(
     rbusMessage_Init(&request);
     rbusMessage_SetInt32(request, 0);/*TODO: this should be the session ID*/
     rbusMessage_SetString(request, rowName);/*TODO: do we need to append the name as well as pass the name as the 1st arg to rbus_invokeRemoteMethod2 ?*/
-    /* Find direct connection status */
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(rowName);
-        
-    if (NULL == myConn)
-        myConn = handleInfo->m_connection;
-
-    if((err = rbus_invokeRemoteMethod2(myConn,
+    if((err = rbuscore_invokeProvider(handleInfo->m_connection,
         rowName,
         METHOD_DELETETBLROW, 
         request, 
@@ -4875,13 +4788,7 @@ rbusError_t rbusTable_getRowNames(
 
     RBUSLOG_DEBUG("Get row: %s", tableName);
 
-    /* Find direct connection status */
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(tableName);
-
-    if (NULL == myConn)
-        myConn = handleInfo->m_connection;
-
-    if((err = rbus_invokeRemoteMethod2(myConn, tableName, METHOD_GETPARAMETERNAMES, request, rbusHandle_FetchGetTimeout(handle), &response)) == RBUSCORE_SUCCESS)
+    if((err = rbuscore_invokeProvider(handleInfo->m_connection, tableName, METHOD_GETPARAMETERNAMES, request, rbusHandle_FetchGetTimeout(handle), &response)) == RBUSCORE_SUCCESS)
     {
         rbusLegacyReturn_t legacyRetCode = RBUS_LEGACY_ERR_FAILURE;
         int ret = -1;
@@ -5155,24 +5062,14 @@ static rbusError_t _rbus_event_unsubscribe(
 
     if(subInternal->rawData)
     {
-        rtConnection myConn = rbuscore_FindClientPrivateConnection(subInternal->sub->eventName);
-        if(myConn)
-        {
-            errorcode = rbusMessage_RemovePrivateListener(handle, subInternal->sub->eventName, subInternal->subscriptionId);
-            if (errorcode != RBUS_ERROR_SUCCESS)
-            {
-                RBUSLOG_WARN("rtConnection_RemovePrivateListener failed err:%d", errorcode);
-            }
-        }
-        else
+        rbusMessage_RemovePrivateListener(handle, subInternal->sub->eventName, subInternal->subscriptionId);
+        snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
+        if(rbusMessage_HasListener(handle, rawDataTopic))
         {
-            snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
-            if(rbusMessage_HasListener(handle, rawDataTopic))
+            errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId);
+            if(RBUS_ERROR_SUCCESS != errorcode)
             {
-                if(RBUS_ERROR_SUCCESS != rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId))
-                {
-                    RBUSLOG_WARN("%s: Remove listener failed err: %d", __FUNCTION__, errorcode);
-                }
+                RBUSLOG_WARN("%s: Remove listener failed err: %d", __FUNCTION__, errorcode);
             }
         }
     }
@@ -5439,6 +5336,7 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
 {
     rbusEventRawData_t event = {0};
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
+    char eventName[RBUS_MAX_NAME_LENGTH] = {0};
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
     event.name = msg->topic;
     event.rawData = msg->data;
@@ -5450,6 +5348,18 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
         if (ptmp)
         {
             HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+            /*a provider sends raw data over its private connections and, for the others, over the broker*/
+            if(!strncmp(msg->topic, "rawdata.", 8) && rbusMessage_HasPrivateListener(handle, msg->topic + 8))
+            {
+                HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                return;
+            }
+            if(strncmp(msg->topic, "rawdata.", 8) != 0)
+            {
+                /*over a private connection, the topic is the consumer's address*/
+                snprintf(eventName, RBUS_MAX_NAME_LENGTH, "rawdata.%s", ptmp->eventName);
+                event.name = eventName;
+            }
             rbusEventSubscriptionInternal_t *subInternal = rbusEventSubscription_find(handleInfo->eventSubs,
                     ptmp->eventName, ptmp->filter, ptmp->interval, ptmp->duration, true);
             if (subInternal && subInternal->dirty && !subInternal->ending)
@@ -5485,6 +5395,26 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
     }
 }
 
+/*Receive the raw data of a subscription. The eventSubs mutex must be held*/
+static rbusError_t _subscribe_rawdata_listen(rbusHandle_t handle, rbusEventSubscriptionInternal_t* subInternal)
+{
+    rbusError_t errorcode;
+    char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
+
+    if(!subInternal)
+        return RBUS_ERROR_BUS_ERROR;
+
+    snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
+    errorcode = rbusMessage_AddListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
+    if(errorcode == RBUS_ERROR_SUCCESS && rbuscore_HasClientPrivateConnection(subInternal->sub->eventName))
+        errorcode = rbusMessage_AddPrivateListener(handle, subInternal->sub->eventName, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
+    if(errorcode != RBUS_ERROR_SUCCESS)
+    {
+        RBUSLOG_ERROR("%s: Listener failed err: %d", __FUNCTION__, errorcode);
+    }
+    return errorcode;
+}
+
 rbusError_t  rbusEvent_SubscribeRawData(
     rbusHandle_t        handle,
     char const*         eventName,
@@ -5493,8 +5423,6 @@ rbusError_t  rbusEvent_SubscribeRawData(
     int                 timeout)
 {
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
-    char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
-    rbusEventSubscriptionInternal_t* subInternal = NULL;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
     VERIFY_HANDLE(handle);
@@ -5513,38 +5441,9 @@ rbusError_t  rbusEvent_SubscribeRawData(
         return errorcode;
     }
 
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(eventName);
-    if(myConn)
-    {
-        snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", eventName);
-        subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
-        if(subInternal && rbusMessage_HasListener(handle,rawDataTopic))
-        {
-            errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId);
-            if (errorcode != RT_OK)
-            {
-                RBUSLOG_WARN("rbusMessage_RemoveListener:%d", errorcode);
-            }
-        }
-        memset(rawDataTopic, '\0', strlen(rawDataTopic));
-        snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%s", eventName);
-        errorcode = rbusMessage_AddPrivateListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
-        if(errorcode != RBUS_ERROR_SUCCESS)
-        {
-            RBUSLOG_ERROR("%s: Listener failed err: %d", __FUNCTION__, errorcode);
-        }
-    }
-    else
-    {
-        subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
-        snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", eventName);
-        errorcode = rbusMessage_AddListener(handle, rawDataTopic,
-                _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
-        if(errorcode != RBUS_ERROR_SUCCESS)
-        {
-            RBUSLOG_ERROR("%s: Listener failed err: %d", __FUNCTION__, errorcode);
-        }
-    }
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    errorcode = _subscribe_rawdata_listen(handle, rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true));
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     return errorcode;
 }
 
@@ -5772,8 +5671,6 @@ rbusError_t rbusEvent_SubscribeExRawData(
 {
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
-    char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
-    rbusEventSubscriptionInternal_t* subInternal;
     int i;
 
     VERIFY_HANDLE(handle);
@@ -5812,38 +5709,8 @@ rbusError_t rbusEvent_SubscribeExRawData(
         else
         {
             HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            rtConnection myConn = rbuscore_FindClientPrivateConnection(subscription[i].eventName);
-            if(myConn)
-            {
-                snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subscription[i].eventName);
-                subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName, subscription[i].filter, subscription[i].interval, subscription[i].duration, true);
-                if(subInternal && rbusMessage_HasListener(handle,rawDataTopic))
-                {
-                    errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId);
-                    if (errorcode != RT_OK)
-                    {
-                        RBUSLOG_WARN("rbusMessage_RemoveListener:%d", errorcode);
-                    }
-                }
-                memset(rawDataTopic, '\0', strlen(rawDataTopic));
-                snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%s", subscription[i].eventName);
-                errorcode = rbusMessage_AddPrivateListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
-                if(errorcode != RBUS_ERROR_SUCCESS)
-                {
-                    RBUSLOG_ERROR("%s: Listener failed err: %d", __FUNCTION__, errorcode);
-                }
-            }
-            else
-            {
-                subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName, subscription[i].filter, subscription[i].interval, subscription[i].duration, true);
-                snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subscription[i].eventName);
-                errorcode = rbusMessage_AddListener(handle, rawDataTopic,
-                        _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
-                if(errorcode != RBUS_ERROR_SUCCESS)
-                {
-                    RBUSLOG_ERROR("%s: Listener failed err: %d", __FUNCTION__, errorcode);
-                }
-            }
+            errorcode = _subscribe_rawdata_listen(handle, rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName,
+                    subscription[i].filter, subscription[i].interval, subscription[i].duration, true));
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         }
     }
@@ -6320,13 +6187,7 @@ rbusError_t rbusMethod_InvokeInternal(
         rbusMessage_SetInt32(request, 0);
     }
 
-    /* Find direct connection status */
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(methodName);
-
-    if (NULL == myConn)
-        myConn = handleInfo->m_connection;
-
-    if((err = rbus_invokeRemoteMethod2(myConn,
+    if((err = rbuscore_invokeProvider(handleInfo->m_connection,
         methodName,
         METHOD_RPC, 
         request, 
diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index ffa5500..b6a42db 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -140,7 +140,9 @@ static struct _rbusHandle* acquire(size_t index)
 void rbusHandleList_Release(struct _rbusHandle* handle)
 {
     LIST_LOCK();
-    handle->users--;
+    /*unless the callback that used it has closed it*/
+    if(contains(handle))
+        handle->users--;
     if(tUsedHandle == handle)
         tUsedHandle = NULL;
     pthread_cond_broadcast(&gHandleListCond);
@@ -243,6 +245,20 @@ struct _rbusHandle* rbusHandleList_AcquireByComponentID(int32_t componentId)
     return handle;
 }
 
+bool rbusHandleList_Acquire(struct _rbusHandle* handle)
+{
+    size_t i;
+    bool found = false;
+    LIST_LOCK();
+    for(i = 0; gHandleList && i < rtVector_Size(gHandleList) && !found; i++)
+    {
+        if((struct _rbusHandle*)rtVector_At(gHandleList, i) == handle)
+            found = (acquire(i) != NULL);
+    }
+    LIST_UNLOCK();
+    return found;
+}
+
 struct _rbusHandle* rbusHandleList_GetByName(char const* componentName)
 {
     size_t i;
diff --git a/src/rbus/rbus_handle.h b/src/rbus/rbus_handle.h
index 485195e..bf23c06 100644
--- a/src/rbus/rbus_handle.h
+++ b/src/rbus/rbus_handle.h
@@ -121,7 +121,7 @@ struct _rbusHandle
   rbusHandleType_t      m_handleType;
   pthread_mutex_t       handle_eventSubsMutex;
   pthread_mutex_t       handle_subsMutex;
-  rtConnection          m_connectionParent;
+  struct _rbusHandle*   m_parent;   /*of a direct handle: the handle it was opened with*/
   rbusTimeoutValues_t   timeoutValues;
   int                   users;      /*callbacks that use the handle, guarded by the handle list's mutex*/
   bool                  closing;    /*no further callbacks use the handle, guarded by the handle list's mutex*/
@@ -135,6 +135,8 @@ bool rbusHandleList_IsFull();
 void rbusHandleList_ClientDisconnect(char const* clientListener);
 /*find a handle that isn't being closed and keep it from being closed until it is released*/
 struct _rbusHandle* rbusHandleList_AcquireByComponentID(int32_t componentId);
+/*the same for a handle that is known; false if it is being closed or isn't open*/
+bool rbusHandleList_Acquire(struct _rbusHandle* handle);
 void rbusHandleList_Release(struct _rbusHandle* handle);
 /*wait until no callback uses the handle, and let none use it from now on*/
 /*false if the handle isn't open or another thread is closing it*/
diff --git a/src/rbus/rbus_message.c b/src/rbus/rbus_message.c
index 3e2219c..1d2d7e5 100644
--- a/src/rbus/rbus_message.c
+++ b/src/rbus/rbus_message.c
@@ -22,6 +22,7 @@
 #include "rbuscore.h"
 #include <rtMemory.h>
 #include <string.h>
+#include <stdbool.h>
 
 #define VERIFY_NULL(T) if(NULL == T){ return RBUS_ERROR_INVALID_INPUT; }
 
@@ -54,6 +55,7 @@ typedef struct rbusMessageHandlerContext
     rtConnection          connection;
     uint32_t              subscriptionId;
     uint32_t              listenerId;   /*the listener's id on the connection*/
+    bool                  isPrivate;    /*the connection is one to a provider: see rbuscore_AcquireClientPrivateConnection*/
     struct rbusMessageHandlerContext* next;
 } rbusMessageHandlerContext_t;
 
@@ -91,7 +93,7 @@ static void rtMessage_CallbackHandler(rtMessageHeader const* hdr, uint8_t const*
     if(found)
         copy = *found;
     RBUS_MESSAGE_MUTEX_UNLOCK();
-    if(!found)
+    if(!found || !rbusHandleList_Acquire(copy.handle))
         return;
     // if this is request, the sender wants confirmation of receipt
     // do that before dispatching application callback
@@ -116,6 +118,7 @@ static void rtMessage_CallbackHandler(rtMessageHeader const* hdr, uint8_t const*
 
         ctx->handler(ctx->handle, &message, ctx->userData);
     }
+    rbusHandleList_Release(copy.handle);
 }
 
 static void cleanupContext(void * p)
@@ -154,6 +157,7 @@ static rbusMessageHandlerContext_t* addContext(
     ctx->connection = connection;
     ctx->subscriptionId = subscriptionId;
     ctx->listenerId = listenerId;
+    ctx->isPrivate = false;
     ctx->next = gContexts;
     gContexts = ctx;
     rtVector_PushBack(handle->messageCallbacks, ctx);
@@ -182,6 +186,38 @@ static rbusMessageHandlerContext_t* findContext(
     return found;
 }
 
+static rbusMessageHandlerContext_t* findPrivateContext(
+    rbusHandle_t handle,
+    char const* expression)
+{
+    size_t i;
+
+    for (i = 0; i < rtVector_Size(handle->messageCallbacks); ++i)
+    {
+        rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, i);
+        if(ctx->isPrivate && strcmp(ctx->expression, expression) == 0)
+            return ctx;
+    }
+    return NULL;
+}
+
+/*the listener goes with its connection, if that has been closed already*/
+static rbusError_t removePrivateContext(rbusMessageHandlerContext_t* ctx)
+{
+    rtError e = RT_OK;
+    char const* name = strchr(ctx->expression, '.');
+    rtConnection con = name ? rbuscore_AcquireClientPrivateConnection(name + 1) : NULL;
+
+    if (con && con == ctx->connection)
+        e = rtConnection_RemoveListenerWithId(con, ctx->expression, ctx->listenerId);
+    if (con)
+        rbuscore_ReleaseClientPrivateConnection(con);
+    if (e != RT_OK)
+        RBUSLOG_WARN("rtConnection_RemoveListenerWithId %s:%s", ctx->expression, rtStrError(e));
+    rtVector_RemoveItem(ctx->handle->messageCallbacks, ctx, cleanupContext);
+    return e == RT_OK ? RBUS_ERROR_SUCCESS : RBUS_ERROR_BUS_ERROR;
+}
+
 rbusError_t rbusMessage_AddPrivateListener(
     rbusHandle_t handle,
     char const* expression,
@@ -194,7 +230,7 @@ rbusError_t rbusMessage_AddPrivateListener(
 
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
 
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(expression);
+    rtConnection myConn = rbuscore_AcquireClientPrivateConnection(expression);
     if (NULL == myConn)
     {
         return RBUS_ERROR_DIRECT_CON_NOT_EXIST;
@@ -203,10 +239,12 @@ rbusError_t rbusMessage_AddPrivateListener(
     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
     RBUS_MESSAGE_MUTEX_LOCK();
     rbusMessageHandlerContext_t* ctx = addContext(handle, myConn, rawDataTopic, handler, userData, subscriptionId, subscriptionId);
+    ctx->isPrivate = true;
     rtError e = rtConnection_AddListenerWithId(myConn, rawDataTopic, subscriptionId, &rtMessage_CallbackHandler, ctx);
     if (e != RT_OK)
         rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
     RBUS_MESSAGE_MUTEX_UNLOCK();
+    rbuscore_ReleaseClientPrivateConnection(myConn);
     if (e != RT_OK)
     {
         RBUSLOG_WARN("rtConnection_AddListenerWithId:%s", rtStrError(e));
@@ -252,29 +290,41 @@ rbusError_t rbusMessage_RemovePrivateListener(
     VERIFY_HANDLE(handle);
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
 
-    rtConnection myConn = rbuscore_FindClientPrivateConnection(expression);
-    if (NULL == myConn)
-    {
-        return RBUS_ERROR_DIRECT_CON_NOT_EXIST;
-    }
-
+    rbusError_t err = RBUS_ERROR_DIRECT_CON_NOT_EXIST;
     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
     RBUS_MESSAGE_MUTEX_LOCK();
-    rbusMessageHandlerContext_t* ctx = findContext(handle, myConn, rawDataTopic, subscriptionId);
-    rtError e = RT_ERROR_INVALID_ARG;
+    rbusMessageHandlerContext_t* ctx = findPrivateContext(handle, rawDataTopic);
     if (ctx)
     {
-        e = rtConnection_RemoveListenerWithId(myConn, rawDataTopic, ctx->listenerId);
-        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
+        err = removePrivateContext(ctx);
     }
     RBUS_MESSAGE_MUTEX_UNLOCK();
-    if (e != RT_OK)
+    return err;
+}
+
+bool rbusMessage_HasPrivateListener(
+    rbusHandle_t handle,
+    char const* expression)
+{
+    size_t i;
+    bool found = false;
+    rtConnection myConn = rbuscore_AcquireClientPrivateConnection(expression);
+    if (NULL == myConn)
+        return false;
+
+    RBUS_MESSAGE_MUTEX_LOCK();
+    for (i = 0; i < rtVector_Size(handle->messageCallbacks) && !found; ++i)
     {
-        RBUSLOG_WARN("rtConnection_RemoveListenerWithId:%s", rtStrError(e));
-        return RBUS_ERROR_BUS_ERROR;
+        rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, i);
+        if(ctx->isPrivate && ctx->connection == myConn)
+        {
+            char const* name = strchr(ctx->expression, '.');
+            found = name && strcmp(name + 1, expression) == 0;
+        }
     }
-
-    return RBUS_ERROR_SUCCESS;
+    RBUS_MESSAGE_MUTEX_UNLOCK();
+    rbuscore_ReleaseClientPrivateConnection(myConn);
+    return found;
 }
 
 rbusError_t rbusMessage_RemoveListener(
@@ -313,6 +363,11 @@ rbusError_t rbusMessage_RemoveAllListeners(
     while (rtVector_Size(handle->messageCallbacks) > 0)
     {
         rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, 0);
+        if (ctx->isPrivate)
+        {
+            removePrivateContext(ctx);
+            continue;
+        }
         rtError e = rtConnection_RemoveListenerWithId(con, ctx->expression, ctx->listenerId);
         if (e != RT_OK)
         {
diff --git a/src/rbus/rbus_message.h b/src/rbus/rbus_message.h
index eb96d0d..e34a706 100644
--- a/src/rbus/rbus_message.h
+++ b/src/rbus/rbus_message.h
@@ -29,6 +29,7 @@
 #ifndef RBUS_MESSAGE_H
 #define RBUS_MESSAGE_H
 
+#include <stdbool.h>
 #include "rbus.h"
 
 #ifdef __cplusplus
@@ -130,6 +131,17 @@ rbusError_t rbusMessage_RemovePrivateListener(
     char const* expression,
     uint32_t subscriptionId);
 
+/** @fn bool rbusMessage_HasPrivateListener(
+ *          rbusHandle_t handle,
+ *          char const* expression)
+ *  @brief  Whether a private listener has been added and its connection is up.
+ *  @param  handle Bus Handle
+ *  @param  expression A topic or a topic expression
+ */
+bool rbusMessage_HasPrivateListener(
+    rbusHandle_t handle,
+    char const* expression);
+
 /** @fn rbusError_t rbusMessage_RemoveListener(
  *          rbusHandle_t handle,
  *          char const* expression)
diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 28af176..3fef6cd 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -18,7 +18,7 @@
 #include <arpa/inet.h>
 #include <errno.h>
 #include <getopt.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <sys/wait.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
@@ -281,6 +281,8 @@ _rtdirect_OnMessage(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t con
         uint8_t* rspData = NULL;
         uint32_t rspDataLength = 0;
         dr_ctx(1, hdr, buff, n, &rspData, &rspDataLength);
+        if (!rspData)
+          return RT_OK; /*the response is sent later, or none is wanted*/
 
         rtMessageHeader new_header;
         _rtdirect_prepare_reply_from_request(&new_header, hdr);
@@ -296,17 +298,6 @@ _rtdirect_OnMessage(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t con
   return RT_OK;
 }
 
-static void
-_rtdirect_pushFd(fd_set* fds, int fd, int* maxFd)
-{
-  if (fd != RTMSG_INVALID_FD)
-  {
-    FD_SET(fd, fds);
-    if (maxFd && fd > *maxFd)
-      *maxFd = fd;
-  }
-}
-
 static void
 _rtdirect_dispatch_message_from_client(rtConnectedClient* clnt, rtRouteEntry* pDirectRoute)
 {
@@ -527,6 +518,16 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
 }
 
 
+static void
+_rtdirect_free_client(rtConnectedClient* clnt)
+{
+  shutdown(clnt->fd, SHUT_RDWR);
+  close(clnt->fd);
+  free(clnt->read_buffer);
+  free(clnt->send_buffer);
+  free(clnt);
+}
+
 static rtConnectedClient*
 rtRouteDirect_RegisterNewClient(int fd, struct sockaddr_storage* remote_endpoint)
 {
@@ -610,7 +611,24 @@ rtRouteDirect_SendMessage(const rtPrivateClientInfo* pClient, uint8_t const* pIn
 }
 
 rtError
-rtRouteDirect_StartInstance(const char* socket_name, rtDriectClientHandler messageHandler)
+rtRouteDirect_SendResponse(const rtPrivateClientInfo* pClient, const rtMessageHeader* request, uint8_t const* data, uint32_t dataLength)
+{
+  rtMessageHeader new_header;
+  uint8_t buffer[RTMESSAGEHEADER_MAX_LENGTH];
+
+  if (!pClient || !request || !data)
+    return RT_ERROR;
+  _rtdirect_prepare_reply_from_request(&new_header, request);
+  new_header.payload_length = dataLength;
+  rtMessageHeader_Encode(&new_header, buffer);
+  return _rtdirect_send_all(pClient->clientFD, buffer, new_header.header_length, data, dataLength);
+}
+
+/* how long to wait for the client before giving up */
+#define RTDIRECT_CONNECT_TIMEOUT_MS 30000
+
+rtError
+rtRouteDirect_StartInstance(const char* socket_name, rtDriectClientHandler messageHandler, int stop_fd)
 {
   int ret;
   rtRouteEntry* route = NULL;
@@ -626,7 +644,7 @@ rtRouteDirect_StartInstance(const char* socket_name, rtDriectClientHandler messa
   pthread_once(&_rtDirectRoute_once, &_rtdirect_route_thread_specific_key);
   pthread_setspecific(_rtDirectRoute_key, messageHandler);
 
-  if (RT_OK != rtRouteBase_BindListener(socket_name, 1, 1, &myDirectListener))
+  if (RT_OK != rtRouteBase_BindListener(socket_name, 1, 0, &myDirectListener))
   {
     if (strncmp(socket_name, "unix://", 7) == 0)
       remove(&socket_name[7]);
@@ -635,55 +653,54 @@ rtRouteDirect_StartInstance(const char* socket_name, rtDriectClientHandler messa
   }
 
   route = (rtRouteEntry *)rt_malloc(sizeof(rtRouteEntry));
-  if (!route)
-      return rtErrorFromErrno(ENOMEM);
   route->subscription = NULL;
-  strncpy(route->expression, "_RTDIRECT>", RTMSG_MAX_EXPRESSION_LEN-1);
+  snprintf(route->expression, RTMSG_MAX_EXPRESSION_LEN, "%s", "_RTDIRECT>");
   route->message_handler = _rtdirect_OnMessage;
 
-  int ltIsrunning = 1;
-  while (ltIsrunning)
+  while (1)
   {
-    int                         max_fd;
-    fd_set                      read_fds;
-    fd_set                      err_fds;
-    struct timeval              timeout;
-
-    max_fd= -1;
-    FD_ZERO(&read_fds);
-    FD_ZERO(&err_fds);
-    timeout.tv_sec = 10;
-    timeout.tv_usec = 0;
-
-    if (myDirectListener)
-    {
-      _rtdirect_pushFd(&read_fds, myDirectListener->fd, &max_fd);
-      _rtdirect_pushFd(&err_fds, myDirectListener->fd, &max_fd);
-    }
+    struct pollfd fds[3] = {
+      {stop_fd, POLLIN, 0},
+      {myDirectListener->fd, POLLIN, 0},
+      {myDirectClient ? myDirectClient->fd : -1, POLLIN, 0}};
 
-    if (myDirectClient)
+    ret = poll(fds, 3, myDirectClient ? -1 : RTDIRECT_CONNECT_TIMEOUT_MS);
+    if (ret == 0)
     {
-      _rtdirect_pushFd(&read_fds, myDirectClient->fd, &max_fd);
-      _rtdirect_pushFd(&err_fds, myDirectClient->fd, &max_fd);
+      rtLog_Info("Private Client didn't connect. Lets shutdown the session");
+      break;
     }
 
-    ret = select(max_fd + 1, &read_fds, NULL, &err_fds, &timeout);
-    if (ret == 0)
-      continue;
-
     if (ret == -1)
     {
-      rtLog_Warn("select:%s", rtStrError(errno));
-      continue;
+      if (errno == EINTR)
+        continue;
+      rtLog_Warn("poll:%s", rtStrError(errno));
+      break;
     }
 
-    if (FD_ISSET(myDirectListener->fd, &read_fds))
+    if (fds[0].revents)
+      break;
+
+    if (fds[1].revents)
     {
       rtLog_Debug("This should be called only once as there should be only one client");
-      myDirectClient = rtRouteDirect_AcceptClientConnection(myDirectListener);
+      rtConnectedClient* client = rtRouteDirect_AcceptClientConnection(myDirectListener);
+      if (client)
+      {
+        if (!myDirectClient)
+        {
+          myDirectClient = client;
+          /*nobody else connects, and nothing is left of it should this process be killed*/
+          if (strncmp(socket_name, "unix://", 7) == 0)
+            remove(&socket_name[7]);
+        }
+        else
+          _rtdirect_free_client(client);
+      }
     }
 
-    if (FD_ISSET(myDirectClient->fd, &read_fds))
+    if (fds[2].revents)
     {
       rtError err = rtConnectedClient_Read(myDirectClient, route);
       if (err != RT_OK)
@@ -694,9 +711,15 @@ rtRouteDirect_StartInstance(const char* socket_name, rtDriectClientHandler messa
     }
   }
 
-  free(myDirectClient->read_buffer);
-  free(myDirectClient->send_buffer);
-  free(myDirectClient);
+  if (myDirectClient)
+  {
+    /*nothing is sent to it from now on*/
+    rtPrivateClientInfo gone;
+    memset(&gone, 0, sizeof(gone));
+    gone.clientFD = -1;
+    messageHandler(0, NULL, (const uint8_t *) &gone, sizeof(gone), NULL, NULL);
+    _rtdirect_free_client(myDirectClient);
+  }
 
   free(route);
   rtRouteBase_CloseListener(myDirectListener);
diff --git a/src/rtmessage/rtrouteBase.h b/src/rtmessage/rtrouteBase.h
index dcff9d1..8b5d871 100644
--- a/src/rtmessage/rtrouteBase.h
+++ b/src/rtmessage/rtrouteBase.h
@@ -81,7 +81,8 @@ typedef rtError (*rtDriectClientHandler) (uint8_t isClientRequest, rtMessageHead
 rtError rtRouteBase_BindListener(char const* socket_name, int no_delay, int indefinite_retry, rtListener **pListener);
 rtError rtRouteBase_CloseListener(rtListener *pListener);
 
-rtError rtRouteDirect_StartInstance(const char* socket_name, rtDriectClientHandler messageHandler);
+rtError rtRouteDirect_StartInstance(const char* socket_name, rtDriectClientHandler messageHandler, int stop_fd);
+rtError rtRouteDirect_SendResponse(const rtPrivateClientInfo* pClient, const rtMessageHeader* request, uint8_t const* data, uint32_t dataLength);
 rtError rtRouteDirect_SendMessage(const rtPrivateClientInfo* pClient, uint8_t const* pInBuff, int inLength, uint32_t subscriptionId, bool rawData);
 
 #endif /* __RTROUTEBASE_H__ */
-- 
2.43.0


From b24407d061029c1a0e1f64663362a91eb859631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 78/99] fix: keep the library's threads from sharing unlocked
 state

---
 src/rtmessage/rtConnection.c | 14 +++++++-------
 src/rtmessage/rtLog.c        |  3 ++-
 src/rtmessage/rtTime.c       |  4 ++--
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index ba4781e..04393fb 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -141,6 +141,7 @@ struct _rtConnection
   int                     check_remote_router;
 #endif
   pid_t                   read_tid;
+  bool                    dropping; /*used by the reader thread only*/
 };
 
 typedef struct _rtMessageInfo
@@ -532,7 +533,7 @@ rtConnection_ReadUntil(rtConnection con, uint8_t* buff, int count, int32_t timeo
     ssize_t n = recv(con->fd, buff + bytes_read, (bytes_to_read - bytes_read), MSG_NOSIGNAL);
     if (n == 0)
     {
-      if(0 != con->run_threads)
+      if(0 != GetRunThreadsSync(con))
         rtLog_Error("Failed to read error : %s", rtStrError(rtErrorFromErrno(ENOTCONN)));
       return rtErrorFromErrno(ENOTCONN);
     }
@@ -1052,7 +1053,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
     {
       ret = err;
     }
-    else if(tid != con->read_tid)
+    else if(tid != __atomic_load_n(&con->read_tid, __ATOMIC_RELAXED))
     {
       rtTime_t timeout_time;
       rtTime_Later(NULL, timeout, &timeout_time);
@@ -1758,7 +1759,6 @@ rtConnection_Read(rtConnection con, int32_t timeout)
       size_t size;
       rtMessageInfo* blockingData;
       rtListItem blockingItem;
-      static bool printErrorLog = true;
 
 
       pthread_mutex_lock(&con->callback_message_mutex);
@@ -1772,10 +1772,10 @@ rtConnection_Read(rtConnection con, int32_t timeout)
       /*log something if the callback thread isn't processing fast enough*/
       if(size > MAX_ALLOWED_MESSAGES)
       {
-         if(printErrorLog)
+         if(!con->dropping)
          {
              rtLog_Error("PROVIDER_NOT_RESPONDING: %s failed to respond back, %zu messages queued up; Dropping incoming request", pBlockingTopic, size);
-             printErrorLog = false;
+             con->dropping = true;
          }
          else
              rtLog_Debug("PROVIDER_NOT_RESPONDING: %s failed to respond back, %zu messages queued up; Dropping incoming request", pBlockingTopic, size);
@@ -1783,7 +1783,7 @@ rtConnection_Read(rtConnection con, int32_t timeout)
       }
       else
       {
-          printErrorLog = true;
+          con->dropping = false;
           if((size) && (size % 5 == 0))
           {
               rtLog_Warn("PROVIDER_NOT_RESPONDING: %zu messages are queued up (%s)", size, pBlockingTopic);
@@ -1986,7 +1986,7 @@ static void * rtConnection_ReaderThread(void *data)
 {
   rtError err = RT_OK;
   rtConnection con = (rtConnection)data;
-  con->read_tid = syscall(__NR_gettid);
+  __atomic_store_n(&con->read_tid, syscall(__NR_gettid), __ATOMIC_RELAXED);
   rtLog_Debug("Reader thread started");
   while (1 == GetRunThreadsSync(con))
   {
diff --git a/src/rtmessage/rtLog.c b/src/rtmessage/rtLog.c
index e416acd..8d46aed 100644
--- a/src/rtmessage/rtLog.c
+++ b/src/rtmessage/rtLog.c
@@ -285,12 +285,13 @@ void rtLogPrintf(rtLogLevel level, const char* mod, const char* file, int line,
   else
   {
     struct timeval tv;
+    struct tm result;
     struct tm* lt;
 
     if (level < sLevel)
       return;
     gettimeofday(&tv, NULL);
-    lt = localtime(&tv.tv_sec);
+    lt = localtime_r(&tv.tv_sec, &result);
 
     printf("%.2d:%.2d:%.2d.%.6lld  %-10s %5s %s:%d -- Thread-%" RT_THREADID_FMT ": %s\n",
         lt->tm_hour, lt->tm_min, lt->tm_sec, (long long int)tv.tv_usec, mod,
diff --git a/src/rtmessage/rtTime.c b/src/rtmessage/rtTime.c
index 1555a58..3c6e285 100644
--- a/src/rtmessage/rtTime.c
+++ b/src/rtmessage/rtTime.c
@@ -120,8 +120,8 @@ int rtTime_Compare(const rtTime_t* left, const rtTime_t* right)
 
 const char* rtTime_ToString(const rtTime_t* tm, char* buffer)
 {
-    /*localtime may not be thread safe*/
-    struct tm* lt = localtime(&tm->tv_sec);
+    struct tm result;
+    struct tm* lt = localtime_r(&tm->tv_sec, &result);
 
     sprintf(buffer, "%.2d:%.2d:%.2d.%.6ld",
         lt->tm_hour, lt->tm_min, lt->tm_sec, tm->tv_nsec / 1000);
-- 
2.43.0


From 9c9c28c7dda7dd3174f85aaffa3943b63da3d97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 79/99] fix: keep the retrier of asynchronous subscriptions
 locked

---
 src/rbus/rbus_asyncsubscribe.c | 112 ++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/src/rbus/rbus_asyncsubscribe.c b/src/rbus/rbus_asyncsubscribe.c
index 5b6ec1f..e0fad1e 100644
--- a/src/rbus/rbus_asyncsubscribe.c
+++ b/src/rbus/rbus_asyncsubscribe.c
@@ -37,8 +37,8 @@
   } \
 }
 #define VERIFY_NULL(T) if(NULL == T){ return; }
-#define LOCK() ERROR_CHECK(pthread_mutex_lock(&gRetrier->mutexQueue))
-#define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gRetrier->mutexQueue))
+#define LOCK() ERROR_CHECK(pthread_mutex_lock(&gMutex))
+#define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gMutex))
 
 
 /*defined in rbus.c*/
@@ -50,8 +50,6 @@ typedef struct AsyncSubscribeRetrier_t
 {
     rtList items;
     pthread_cond_t condItemAdded;
-    pthread_cond_t condItemSent;
-    pthread_mutex_t mutexQueue;
     int isRunning;
     pthread_t threadId;
 } AsyncSubscribeRetrier_t;
@@ -70,6 +68,8 @@ typedef struct AsyncSubscription_t
 } AsyncSubscription_t;
 
 static AsyncSubscribeRetrier_t* gRetrier = NULL;
+static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER; /*locks gRetrier and what it points to*/
+static pthread_cond_t gCondItemSent = PTHREAD_COND_INITIALIZER;
 
 static void rbusAsyncSubscribeRetrier_FreeSubscription(void *pitem)
 {
@@ -111,7 +111,7 @@ static int rbusAsyncSubscribeRetrier_CompareSubscription(const void *pitem, cons
         return 1;
 }
 
-static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTime)
+static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(AsyncSubscribeRetrier_t* retrier, rtTime_t* nextSendTime)
 {
     rtTime_t now;
     rtListItem li;
@@ -123,7 +123,7 @@ static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTim
 
     RBUSLOG_DEBUG("now=%s", rtTime_ToString(&now, tbuff));
 
-    rtList_GetFront(gRetrier->items, &li);
+    rtList_GetFront(retrier->items, &li);
 
     if(!li)
     {
@@ -164,7 +164,7 @@ static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTim
 }
 
 /*called with the list locked, which is unlocked while a request is sent or a subscriber is called*/
-static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
+static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests(AsyncSubscribeRetrier_t* retrier)
 {
     rtListItem li;
     rtTime_t now;
@@ -173,7 +173,7 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
 
     rtTime_Now(&now);
 
-    rtList_GetFront(gRetrier->items, &li);
+    rtList_GetFront(retrier->items, &li);
 
     while(li)
     {
@@ -285,8 +285,8 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
                 }
                 //store the next item, because we are removing this li item from list
                 rtListItem_GetNext(li, &tmp); 
-                rtList_RemoveItem(gRetrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
-                pthread_cond_broadcast(&gRetrier->condItemSent);
+                rtList_RemoveItem(retrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
+                pthread_cond_broadcast(&gCondItemSent);
                 li = tmp;
                 continue;//li is already the next item so avoid GetNext below
             }
@@ -298,18 +298,18 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
 
 static void* AsyncSubscribeRetrier_threadFunc(void* data)
 {
-    (void)data;
+    AsyncSubscribeRetrier_t* retrier = data;
     LOCK();
-    while(gRetrier->isRunning)
+    while(retrier->isRunning)
     {
         rtTime_t nextSendTime;
 
-        while(rbusAsyncSubscribeRetrier_DetermineNextSendTime(&nextSendTime))
+        while(rbusAsyncSubscribeRetrier_DetermineNextSendTime(retrier, &nextSendTime))
         {
-            rbusAsyncSubscribeRetrier_SendSubscriptionRequests();
+            rbusAsyncSubscribeRetrier_SendSubscriptionRequests(retrier);
         }
 
-        if(gRetrier->isRunning)
+        if(retrier->isRunning)
         {
             char tbuff[200];
             rtTimespec_t ts;
@@ -317,8 +317,8 @@ static void* AsyncSubscribeRetrier_threadFunc(void* data)
 
             RBUSLOG_DEBUG("timedwait until %s", rtTime_ToString(&nextSendTime, tbuff));
  
-            err = pthread_cond_timedwait(&gRetrier->condItemAdded,
-                                         &gRetrier->mutexQueue,
+            err = pthread_cond_timedwait(&retrier->condItemAdded,
+                                         &gMutex,
                                          rtTime_ToTimespec(&nextSendTime, &ts));
             if(err != 0 && err != ETIMEDOUT)
             {
@@ -334,9 +334,9 @@ static void* AsyncSubscribeRetrier_threadFunc(void* data)
     return NULL;
 }
 
+/*called with the lock held*/
 static void rbusAsyncSubscribeRetrier_Create()
 {
-    pthread_mutexattr_t mattrib;
     pthread_condattr_t cattrib;
 
     RBUSLOG_DEBUG("%s enter", __FUNCTION__);
@@ -346,41 +346,36 @@ static void rbusAsyncSubscribeRetrier_Create()
     gRetrier->isRunning = true;
     rtList_Create(&gRetrier->items);
 
-    ERROR_CHECK(pthread_mutexattr_init(&mattrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&mattrib, PTHREAD_MUTEX_ERRORCHECK));
-    ERROR_CHECK(pthread_mutex_init(&gRetrier->mutexQueue, &mattrib));  
-    ERROR_CHECK(pthread_mutexattr_destroy(&mattrib));
-
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
     ERROR_CHECK(pthread_cond_init(&gRetrier->condItemAdded, &cattrib));
-    ERROR_CHECK(pthread_cond_init(&gRetrier->condItemSent, &cattrib));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
 
-    ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, NULL));
+    ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, gRetrier));
 
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
+/*called with the lock held, which is unlocked while the thread ends*/
 static void rbusAsyncSubscribeRetrier_Destroy()
 {
+    AsyncSubscribeRetrier_t* retrier = gRetrier;
+
     RBUSLOG_DEBUG("%s enter", __FUNCTION__);
 
-    LOCK();
-    gRetrier->isRunning = false;
-    UNLOCK();
+    gRetrier = NULL;
+    retrier->isRunning = false;
 
     //wake up worker thread so it can exit and join
-    ERROR_CHECK(pthread_cond_signal(&gRetrier->condItemAdded));
-    ERROR_CHECK(pthread_join(gRetrier->threadId, NULL));
+    ERROR_CHECK(pthread_cond_signal(&retrier->condItemAdded));
+    UNLOCK();
+    ERROR_CHECK(pthread_join(retrier->threadId, NULL));
+    LOCK();
 
-    ERROR_CHECK(pthread_mutex_destroy(&gRetrier->mutexQueue));
-    ERROR_CHECK(pthread_cond_destroy(&gRetrier->condItemAdded));
-    ERROR_CHECK(pthread_cond_destroy(&gRetrier->condItemSent));
-    rtList_Destroy(gRetrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
+    ERROR_CHECK(pthread_cond_destroy(&retrier->condItemAdded));
+    rtList_Destroy(retrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
 
-    free(gRetrier);
-    gRetrier = NULL;
+    free(retrier);
 
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
@@ -391,11 +386,6 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
     char tbuff[50];
     VERIFY_NULL(subscription);
 
-    if(!gRetrier)
-    {
-        rbusAsyncSubscribeRetrier_Create();
-    }
-
     AsyncSubscription_t* item = rt_malloc(sizeof(struct AsyncSubscription_t));
 
     rbusMessage_Retain(payload);
@@ -414,21 +404,30 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
     RBUSLOG_INFO("%s %s", subscription->eventName, rtTime_ToString(&item->startTime, tbuff));
 
     LOCK();
+    if(!gRetrier)
+    {
+        rbusAsyncSubscribeRetrier_Create();
+    }
     rtList_PushBack(gRetrier->items, item, NULL);
-    UNLOCK();
 
     //wake up worker thread so it can process new item
     rc = pthread_cond_signal(&gRetrier->condItemAdded);
     (void)rc;
+    UNLOCK();
 }
 
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription)
 {
     rtListItem li;
     bool sub_removed = false;
-    if(!gRetrier || subscription == NULL)
+    if(subscription == NULL)
         return false;
     LOCK();
+    if(!gRetrier)
+    {
+        UNLOCK();
+        return false;
+    }
     for(rtList_GetFront(gRetrier->items, &li); li && !sub_removed; )
     {
         AsyncSubscription_t* item;
@@ -454,15 +453,13 @@ bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventNa
     rbusEventSubscription_t sub = {0};
     bool sub_exist = false;
 
-    if(!gRetrier)
-        return sub_exist;
     sub.handle = handle;
     sub.eventName = eventName;
     sub.filter = filter;
     sub.interval = interval;
     sub.duration = duration;
     LOCK();
-    if(rtList_Find(gRetrier->items, &sub, rbusAsyncSubscribeRetrier_CompareSubscription) != NULL)
+    if(gRetrier && rtList_Find(gRetrier->items, &sub, rbusAsyncSubscribeRetrier_CompareSubscription) != NULL)
     {
         sub_exist = true;
     }
@@ -476,19 +473,22 @@ bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventNa
 
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle)
 {
-    size_t size1, size;
-
-    if(!gRetrier)
-        return;
+    size_t size1, size = 0;
 
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
     LOCK();
 
+    if(!gRetrier)
+    {
+        UNLOCK();
+        return;
+    }
+
     rtList_GetSize(gRetrier->items, &size1);
 
     //remove all items with this handle, waiting for the one whose request is being sent
-    for(;;)
+    while(gRetrier)
     {
         rtListItem li, next;
         bool sending = false;
@@ -506,19 +506,19 @@ void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle)
         }
         if(!sending)
             break;
-        ERROR_CHECK(pthread_cond_wait(&gRetrier->condItemSent, &gRetrier->mutexQueue));
+        ERROR_CHECK(pthread_cond_wait(&gCondItemSent, &gMutex));
     }
 
     //if list is empty, we can destruct
-    rtList_GetSize(gRetrier->items, &size);
-
-    UNLOCK();
+    if(gRetrier)
+        rtList_GetSize(gRetrier->items, &size);
 
     RBUSLOG_INFO("removed %d pending async subscriptions.  %d subs left in list.", (int)(size1-size), (int)size);
 
-    if(size == 0)
+    if(gRetrier && size == 0)
     {
         RBUSLOG_INFO("all handles removed");
         rbusAsyncSubscribeRetrier_Destroy();
     }
+    UNLOCK();
 }
-- 
2.43.0


From 52376e2e7971bde32c253d8956ce5e12f9dea9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 80/99] fix: look up raw data subscriptions under their lock

---
 src/rbus/rbus.c | 106 ++++++++++++++++++++++++++++--------------------
 1 file changed, 62 insertions(+), 44 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 2cf488c..638d175 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5332,67 +5332,85 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     }
 }
 
+/*The subscription that a raw data listener belongs to, unless it has ended. The eventSubs mutex must be held*/
+static rbusEventSubscriptionInternal_t* _subscribe_rawdata_find(struct _rbusHandle* handleInfo, rbusMessage_t* msg, void* userData)
+{
+    size_t i;
+
+    for(i = 0; i < rtVector_Size(handleInfo->eventSubs); ++i)
+    {
+        rbusEventSubscriptionInternal_t* subInternal = rtVector_At(handleInfo->eventSubs, i);
+        if(subInternal->sub == userData && subInternal->rawData &&
+           (strncmp(msg->topic, "rawdata.", 8) || !strcmp(msg->topic + 8, subInternal->sub->eventName)))
+            return subInternal;
+    }
+    return NULL;
+}
+
 static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg, void * userData)
 {
     rbusEventRawData_t event = {0};
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
-    char eventName[RBUS_MAX_NAME_LENGTH] = {0};
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
+    struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
+    rbusEventSubscriptionInternal_t *subInternal = NULL;
+    rbusEventSubscription_t sub;
+    rbusEventHandlerRawData_t eventHandlerFuncPtr;
+
     event.name = msg->topic;
     event.rawData = msg->data;
     event.rawDataLen = msg->length;
-    struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
-    if (userData)
+
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    subInternal = _subscribe_rawdata_find(handleInfo, msg, userData);
+    /*a provider sends raw data over its private connections and, for the others, over the broker*/
+    if(!subInternal || (!strncmp(msg->topic, "rawdata.", 8) && rbusMessage_HasPrivateListener(handle, msg->topic + 8)))
     {
-        rbusEventSubscription_t *ptmp = (rbusEventSubscription_t *)userData;
-        if (ptmp)
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        return;
+    }
+    if(subInternal->dirty && !subInternal->ending)
+    {
+        errorcode =  _rbus_event_unsubscribe(handle, subInternal);
+        if(errorcode == RBUS_ERROR_DESTINATION_NOT_FOUND)
         {
-            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            /*a provider sends raw data over its private connections and, for the others, over the broker*/
-            if(!strncmp(msg->topic, "rawdata.", 8) && rbusMessage_HasPrivateListener(handle, msg->topic + 8))
-            {
-                HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-                return;
-            }
-            if(strncmp(msg->topic, "rawdata.", 8) != 0)
-            {
-                /*over a private connection, the topic is the consumer's address*/
-                snprintf(eventName, RBUS_MAX_NAME_LENGTH, "rawdata.%s", ptmp->eventName);
-                event.name = eventName;
-            }
-            rbusEventSubscriptionInternal_t *subInternal = rbusEventSubscription_find(handleInfo->eventSubs,
-                    ptmp->eventName, ptmp->filter, ptmp->interval, ptmp->duration, true);
-            if (subInternal && subInternal->dirty && !subInternal->ending)
+            RBUSLOG_DEBUG ("%s unsubscription failed because no provider could be found"
+                    "and subscriber marked as dirty", subInternal->sub->eventName);
+        }
+        else
+        {
+            snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
+            if(rbusMessage_HasListener(handle, rawDataTopic))
             {
-                errorcode =  _rbus_event_unsubscribe(handle, subInternal);
-                if(errorcode == RBUS_ERROR_DESTINATION_NOT_FOUND)
+                if(RBUS_ERROR_SUCCESS != rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId))
                 {
-                    RBUSLOG_DEBUG ("%s unsubscription failed because no provider could be found"
-                            "and subscriber marked as dirty", subInternal->sub->eventName);
-                }
-                else
-                {
-                    snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
-                    if(rbusMessage_HasListener(handle, rawDataTopic))
-                    {
-                        if(RBUS_ERROR_SUCCESS != rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId))
-                        {
-                            RBUSLOG_WARN("Remove listener failed err: %d", errorcode);
-                        }
-                        rbusEventSubscriptionInternal_free(subInternal);
-                    }
-                    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-                    return;
+                    RBUSLOG_WARN("Remove listener failed err: %d", errorcode);
                 }
+                rbusEventSubscriptionInternal_free(subInternal);
             }
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+            return;
         }
-        rbusEventHandlerRawData_t eventHandlerFuncPtr = ptmp->handler;
-        if(eventHandlerFuncPtr)
-            (eventHandlerFuncPtr)(handle, &event, ptmp);
-        else
-            RBUSLOG_WARN("eventHandlerFuncPtr is NULL");
     }
+    /*another thread may end the subscription while the handler runs*/
+    sub = *subInternal->sub;
+    snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", sub.eventName);
+    sub.eventName = strdup(sub.eventName);
+    if(sub.filter)
+        rbusFilter_Retain(sub.filter);
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+
+    /*over a private connection, the topic is the consumer's address*/
+    if(strncmp(msg->topic, "rawdata.", 8) != 0)
+        event.name = rawDataTopic;
+    eventHandlerFuncPtr = sub.handler;
+    if(eventHandlerFuncPtr)
+        (eventHandlerFuncPtr)(handle, &event, &sub);
+    else
+        RBUSLOG_WARN("eventHandlerFuncPtr is NULL");
+    free((void*)sub.eventName);
+    if(sub.filter)
+        rbusFilter_Release(sub.filter);
 }
 
 /*Receive the raw data of a subscription. The eventSubs mutex must be held*/
-- 
2.43.0


From fd9c15185901719b487cfc45447fe2933f4c2c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 81/99] fix: keep a handle open until its asynchronous calls
 have ended

---
 src/rbus/rbus.c        | 27 +++++++++++++++++++++------
 src/rbus/rbus_handle.c | 24 ++++++++++++++++++++++++
 src/rbus/rbus_handle.h |  4 ++++
 3 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 638d175..8a46167 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6272,6 +6272,16 @@ typedef struct _rbusMethodInvokeAsyncData_t
     char* traceState;
 } rbusMethodInvokeAsyncData_t;
 
+static void rbusMethodInvokeAsyncData_free(rbusMethodInvokeAsyncData_t* data)
+{
+    if(data->inParams)
+        rbusObject_Release(data->inParams);
+    free(data->methodName);
+    free(data->traceParent);
+    free(data->traceState);
+    free(data);
+}
+
 static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
 {
     rbusError_t err;
@@ -6279,6 +6289,7 @@ static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
     rbusObject_t outParams = NULL;
     if(!data)
         return NULL;
+    rbusHandleList_Take((struct _rbusHandle*)data->handle);
     /*the call is made for the thread that asked for it*/
     rbus_setOpenTelemetryContext(data->traceParent, data->traceState);
     err = rbusMethod_InvokeInternal(
@@ -6290,14 +6301,11 @@ static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
     rbus_clearOpenTelemetryContext();
 
     data->callback(data->handle, data->methodName, err, outParams);
+    rbusHandleList_Release((struct _rbusHandle*)data->handle);
 
-    rbusObject_Release(data->inParams);
     if(outParams)
         rbusObject_Release(outParams);
-    free(data->methodName);
-    free(data->traceParent);
-    free(data->traceState);
-    free(data);
+    rbusMethodInvokeAsyncData_free(data);
 
     return NULL;
 }
@@ -6321,7 +6329,12 @@ rbusError_t rbusMethod_InvokeAsync(
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
-    rbusObject_Retain(inParams);
+    /*the handle stays open until the callback has been called*/
+    if(!rbusHandleList_Reserve(handleInfo))
+        return RBUS_ERROR_INVALID_HANDLE;
+
+    if(inParams)
+        rbusObject_Retain(inParams);
 
     data = rt_malloc(sizeof(rbusMethodInvokeAsyncData_t));
     data->handle = handle;
@@ -6338,6 +6351,8 @@ rbusError_t rbusMethod_InvokeAsync(
     if((err = pthread_create(&pid, NULL, rbusMethod_InvokeAsyncThreadFunc, data)) != 0)
     {
         RBUSLOG_ERROR("pthread_create failed: err=%d", err);
+        rbusHandleList_Unreserve(handleInfo);
+        rbusMethodInvokeAsyncData_free(data);
         return RBUS_ERROR_BUS_ERROR;
     }
 
diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index b6a42db..f4b9680 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -137,6 +137,30 @@ static struct _rbusHandle* acquire(size_t index)
     return handle;
 }
 
+bool rbusHandleList_Reserve(struct _rbusHandle* handle)
+{
+    bool open;
+    LIST_LOCK();
+    open = contains(handle) && !handle->closing;
+    if(open)
+        handle->users++;
+    LIST_UNLOCK();
+    return open;
+}
+
+void rbusHandleList_Unreserve(struct _rbusHandle* handle)
+{
+    LIST_LOCK();
+    handle->users--;
+    pthread_cond_broadcast(&gHandleListCond);
+    LIST_UNLOCK();
+}
+
+void rbusHandleList_Take(struct _rbusHandle* handle)
+{
+    tUsedHandle = handle;
+}
+
 void rbusHandleList_Release(struct _rbusHandle* handle)
 {
     LIST_LOCK();
diff --git a/src/rbus/rbus_handle.h b/src/rbus/rbus_handle.h
index bf23c06..15486ae 100644
--- a/src/rbus/rbus_handle.h
+++ b/src/rbus/rbus_handle.h
@@ -137,6 +137,10 @@ void rbusHandleList_ClientDisconnect(char const* clientListener);
 struct _rbusHandle* rbusHandleList_AcquireByComponentID(int32_t componentId);
 /*the same for a handle that is known; false if it is being closed or isn't open*/
 bool rbusHandleList_Acquire(struct _rbusHandle* handle);
+/*the same for a thread that is going to be created, and that takes the handle, to release it in the end*/
+bool rbusHandleList_Reserve(struct _rbusHandle* handle);
+void rbusHandleList_Unreserve(struct _rbusHandle* handle);
+void rbusHandleList_Take(struct _rbusHandle* handle);
 void rbusHandleList_Release(struct _rbusHandle* handle);
 /*wait until no callback uses the handle, and let none use it from now on*/
 /*false if the handle isn't open or another thread is closing it*/
-- 
2.43.0


From 58ad8ce12d5f1259ad4c032ec90e5261c6cf357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 82/99] fix: walk and change the elements under the same lock

---
 src/rbus/rbus.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 8a46167..82db186 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1290,9 +1290,9 @@ static void registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, c
 
     RBUSLOG_DEBUG("table [%s] alias [%s] instNum [%u]", tableName, aliasName, instNum);
 
-    rowElem = instantiateTableRow(tableInstElem, instNum, aliasName);
-
+    /*publishers walk the elements with the lock held*/
     HANDLE_SUBS_MUTEX_LOCK(handle);
+    rowElem = instantiateTableRow(tableInstElem, instNum, aliasName);
     rbusSubscriptions_onTableRowAdded(handleInfo->subscriptions, rowElem);
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
 
@@ -1366,9 +1366,8 @@ static void unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
 
     HANDLE_SUBS_MUTEX_LOCK(handle);
     rbusSubscriptions_onTableRowRemoved(handleInfo->subscriptions, rowInstElem);
-    HANDLE_SUBS_MUTEX_UNLOCK(handle);
-
     deleteTableRow(rowInstElem);
+    HANDLE_SUBS_MUTEX_UNLOCK(handle);
 
     /*send OBJECT_DELETED event after we delete the row*/
     {
@@ -3457,15 +3456,16 @@ rbusError_t rbus_regDataElements(
         else
         {
             elementNode* node;
+            HANDLE_SUBS_MUTEX_LOCK(handle);
             if((node = insertElement(handleInfo->elementRoot, &elements[i])) == NULL)
             {
+                HANDLE_SUBS_MUTEX_UNLOCK(handle);
                 RBUSLOG_ERROR("failed to insert element [%s]!!", name);
                 rc = RBUS_ERROR_OUT_OF_RESOURCES;
                 break;
             }
             else
             {
-                HANDLE_SUBS_MUTEX_LOCK(handle);
                 rbusSubscriptions_resubscribeElementCache(handle, handleInfo->subscriptions, name, node);
                 HANDLE_SUBS_MUTEX_UNLOCK(handle);
                 RBUSLOG_DEBUG("%s inserted successfully!", name);
@@ -5992,15 +5992,16 @@ rbusError_t  rbusEvent_PublishRawData(
 
     /*get the node and walk its subscriber list,
       publishing event to each subscriber*/
+    HANDLE_SUBS_MUTEX_LOCK(handle);
     elementNode* el = retrieveInstanceElement(handleInfo->elementRoot, eventData->name);
 
     if(!el)
     {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
         RBUSLOG_WARN("Publish failed! retrieveElement return NULL for %s", eventData->name);
         return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
 
-    HANDLE_SUBS_MUTEX_LOCK(handle);
     if(!el->subscriptions)/*nobody subscribed yet*/
     {
         HANDLE_SUBS_MUTEX_UNLOCK(handle);
@@ -6051,10 +6052,12 @@ rbusError_t  rbusEvent_Publish(
 
     /*get the node and walk its subscriber list, 
       publishing event to each subscriber*/
+    HANDLE_SUBS_MUTEX_LOCK(handle);
     elementNode* el = retrieveInstanceElement(handleInfo->elementRoot, eventData->name);
 
     if(!el)
     {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
         RBUSLOG_WARN("Publish failed! retrieveElement return NULL for %s", eventData->name);
         return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
@@ -6068,13 +6071,13 @@ rbusError_t  rbusEvent_Publish(
         }
         if(!eventData->data || !newVal || !oldVal)
         {
+            HANDLE_SUBS_MUTEX_UNLOCK(handle);
             RBUSLOG_ERROR("missing value data for value change event %s", eventData->name);
             return RBUS_ERROR_INVALID_INPUT;
         }
     }
 
     /*Loop through element's subscriptions*/
-    HANDLE_SUBS_MUTEX_LOCK(handle);
     if(!el->subscriptions)/*nobody subscribed yet*/
     {
         HANDLE_SUBS_MUTEX_UNLOCK(handle);
-- 
2.43.0


From 2329326a39db96b1cd13c4aa4583cde8b4c0c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 83/99] fix: match aliases only with rows that have one

---
 src/rbus/rbus_tokenchain.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rbus/rbus_tokenchain.c b/src/rbus/rbus_tokenchain.c
index 907aa2e..53ce2af 100644
--- a/src/rbus/rbus_tokenchain.c
+++ b/src/rbus/rbus_tokenchain.c
@@ -306,6 +306,7 @@ bool TokenChain_match(TokenChain* chain, elementNode* instNode)
             }
             else if(token->type == TokenAlias)
             {
+                rc = 1; /*rows without an alias don't match*/
                 if(inst->alias)
                 {
                     rc = strcmp(inst->alias, token->text);
-- 
2.43.0


From edc9827f12ad404af46a44750ea92e6cc5c9b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 84/99] fix: end the subscriptions below a row with the row

---
 src/rbus/rbus_subscriptions.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 8dbc100..ba0b8bb 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -382,8 +382,25 @@ void rbusSubscriptions_onTableRowAdded(rbusSubscriptions_t subscriptions, elemen
 
 void rbusSubscriptions_onTableRowRemoved(rbusSubscriptions_t subscriptions, elementNode* node)
 {
+    rtListItem item;
+
     VERIFY_NULL(subscriptions);
     rbusSubscriptions_onElementDeleted(subscriptions, node);
+
+    /*a wildcard in the names below the row (e.g. Foo.1.Bar.*.Prop) covers nothing but what is deleted with it*/
+    rtList_GetFront(subscriptions->subList, &item);
+    while(item)
+    {
+        rbusSubscription_t* sub;
+        elementNode* el;
+
+        rtListItem_GetData(item, (void**)&sub);
+        rtListItem_GetNext(item, &item);
+        for(el = sub->element; el && el != node; el = el->parent)
+            ;
+        if(el)
+            rbusSubscriptions_removeSubscription(subscriptions, sub);
+    }
 }
 
 static pid_t rbusSubscriptions_getListenerPid(char const* listener)
-- 
2.43.0


From 40b4b961e58fd009b812a03d23907fa9fde66de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:03 +0000
Subject: [PATCH 85/99] fix: subscribing to an object's only event (no event
 name) crashed

---
 src/core/rbuscore.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index a32b0c4..5de8550 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1613,6 +1613,8 @@ static rbusCoreError_t rbus_subscribeToEventInternal(const char * object_name,
         RBUSCORELOG_ERROR("Object name is too long.");
         return RBUSCORE_ERROR_INVALID_PARAM;
     }
+    if(NULL == event_name)
+        event_name = DEFAULT_EVENT;
     if(MAX_EVENT_NAME_LENGTH <= strnlen(event_name, MAX_EVENT_NAME_LENGTH))
     {
         RBUSCORELOG_ERROR("Event name is too long.");
@@ -1620,9 +1622,6 @@ static rbusCoreError_t rbus_subscribeToEventInternal(const char * object_name,
     }
 
     lock();
-   
-    if(NULL == event_name)
-        event_name = DEFAULT_EVENT;
 
     if(false == g_run_event_client_dispatch)
     {
-- 
2.43.0


From ed4e797fc86df6ad9fdcb53b8968766004d524d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:03 +0000
Subject: [PATCH 86/99] fix: events were handed to a core subscription another
 thread had just freed

---
 src/core/rbuscore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 5de8550..c765d9b 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1539,8 +1539,11 @@ static void master_event_callback(rtMessageHeader const* hdr, uint8_t const* dat
 
             if(evt)
             {
+                /*another thread may unsubscribe once the lock is released*/
+                rbus_event_callback_t callback = evt->callback;
+                void* evt_data = evt->data;
                 unlock();
-                evt->callback(sender, event_name, msg, evt->data);
+                callback(sender, event_name, msg, evt_data);
                 rbusMessage_Release(msg);
                 return;
             }
-- 
2.43.0


From 09a675dde03adcd1836af5dccd3ba05da8d60c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:03 +0000
Subject: [PATCH 87/99] fix: calling with a too long object name leaked the
 message and left the answer undefined

---
 src/core/rbuscore.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index c765d9b..7c4889c 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1142,21 +1142,25 @@ rbusCoreError_t rbus_invokeRemoteMethod2(rtConnection myConn, const char * objec
     char const *traceParent = NULL;
     char const *traceState = NULL;
 
+    *in = NULL;
     if(NULL == myConn)
     {
         RBUSCORELOG_ERROR("Not connected.");
+        if(out)
+            rbusMessage_Release(out);
         return RBUSCORE_ERROR_INVALID_STATE;
     }
 
     if(MAX_OBJECT_NAME_LENGTH <= strnlen(object_name, MAX_OBJECT_NAME_LENGTH))
     {
         RBUSCORELOG_ERROR("Object name is too long.");
+        if(out)
+            rbusMessage_Release(out);
         return RBUSCORE_ERROR_INVALID_PARAM;
     }
 
     rbus_getOpenTelemetryContext(&traceParent, &traceState);
 
-    *in = NULL;
     if(NULL == out)
         rbusMessage_Init(&out);
 
-- 
2.43.0


From 08a8cc369b5996fb3acca021983e5c41df91dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:03 +0000
Subject: [PATCH 88/99] fix: a core method unregistered while it was being
 dispatched was used after it was freed

---
 src/core/rbuscore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 7c4889c..41f8804 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -508,8 +508,11 @@ static void dispatch_method_call(rbusMessage msg, const rtMessageHeader *hdr, se
 
         if(method)
         {
+            /*another thread may unregister the method once the lock is released*/
+            rbus_callback_t callback = method->callback;
+            void* data = method->data;
             unlock();
-            method->callback(hdr->topic, method_name, msg, method->data, &response, hdr); //FIXME: potential for race.
+            callback(hdr->topic, method_name, msg, data, &response, hdr);
             handler_invoked = true;
         }
     }
-- 
2.43.0


From 2e1c753cb33c261a09c26391aaa34058d5737a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:03 +0000
Subject: [PATCH 89/99] fix: core event listeners changed while the event was
 being published to them

---
 src/core/rbuscore.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 41f8804..c4be62e 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -101,6 +101,8 @@ static void _rbuscore_directconnection_load_from_cache();
 static void _remove_client_entries(const char* pProviderName);
 static void _rbuscore_stop_private_listeners();
 static rtError _send_direct_response(const rtMessageHeader* hdr, const uint8_t* data, uint32_t dataLength);
+static int lock();
+static int unlock();
 const rtPrivateClientInfo* _rbuscore_find_server_privateconnection(const char *pParameterName, const char *pConsumerName);
 /////
 
@@ -139,7 +141,8 @@ void server_event_destroy(void* p)
     free(event);
 }
 
-void server_event_addListener(server_event_t event, char const* listener)
+/*returns whether the listener was added; called with the lock held*/
+bool server_event_addListener(server_event_t event, char const* listener)
 {
     if(!listener)
     {
@@ -149,20 +152,18 @@ void server_event_addListener(server_event_t event, char const* listener)
     {
         rtVector_PushBack(event->listeners, strdup(listener));
 
-        if(event->sub_callback)
-        {
-            event->sub_callback(event->object->name, event->name, listener, 1, NULL, event->sub_data);
-        }
-
         RBUSCORELOG_INFO("Listener %s added for event %s.", listener, event->name);
+        return true;
     }
     else
     {
         RBUSCORELOG_WARN("Listener %s is already registered for event %s.", listener, event->name);
     }
+    return false;
 }
 
-void server_event_removeListener(server_event_t event, char const* listener)
+/*returns whether the listener was removed; called with the lock held*/
+bool server_event_removeListener(server_event_t event, char const* listener)
 {
     if(!listener)
     {
@@ -173,16 +174,13 @@ void server_event_removeListener(server_event_t event, char const* listener)
         RBUSCORELOG_WARN("Removing listener %s for event %s.", listener, event->name);
 
         rtVector_RemoveItemByCompare(event->listeners, listener, rtVector_Compare_String, rtVector_Cleanup_Free);
-
-        if(event->sub_callback)
-        {
-            event->sub_callback(event->object->name, event->name, listener, 0, NULL, event->sub_data);
-        }
+        return true;
     }
     else
     {
         RBUSCORELOG_ERROR("Listener %s not found for event %s.", listener, event->name);
     }
+    return false;
 }
 
 int server_object_compare(const void* left, const void* right)
@@ -230,22 +228,33 @@ rbusCoreError_t server_object_subscription_handler(server_object_t obj, const ch
             return ret;
     }
 
+    lock(); /*another thread may publish or unregister the event*/
     server_event_t server_event = rtVector_Find(obj->subscriptions, event, server_event_compare);
 
     if(server_event)
     {
+        rbus_event_subscribe_callback_t sub_callback = server_event->sub_callback;
+        void* sub_data = server_event->sub_data;
+        bool changed;
+
         if(added)
         {
-            server_event_addListener(server_event, subscriber);
+            changed = server_event_addListener(server_event, subscriber);
         }
         else
         {
-            server_event_removeListener(server_event, subscriber);
+            changed = server_event_removeListener(server_event, subscriber);
+        }
+        unlock();
+        if(changed && sub_callback)
+        {
+            sub_callback(obj->name, event, subscriber, added, NULL, sub_data);
         }
         return RBUSCORE_SUCCESS;
     }
     else
     {
+        unlock();
         RBUSCORELOG_ERROR("Object %s doesn't support event %s. Cannot %s listener.", obj->name, event, added ? "add":"remove");
         return RBUSCORE_ERROR_UNSUPPORTED_EVENT;
     }
-- 
2.43.0


From 77ffd0b8d35a3b255b1ec819f7a521856d7e113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:03 +0000
Subject: [PATCH 90/99] fix: registering a core event gave up the lock half way

---
 src/core/rbuscore.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index c4be62e..f4d01f6 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -221,9 +221,13 @@ rbusCoreError_t server_object_subscription_handler(server_object_t obj, const ch
         return RBUSCORE_ERROR_INVALID_PARAM;
     }
     
-    if(obj->subscribe_handler_override)
+    lock();
+    rbus_event_subscribe_callback_t override = obj->subscribe_handler_override;
+    void* override_data = obj->subscribe_handler_data;
+    unlock();
+    if(override)
     {
-        ret = (rbusCoreError_t)obj->subscribe_handler_override(obj->name, event, subscriber, added, payload, obj->subscribe_handler_data);
+        ret = (rbusCoreError_t)override(obj->name, event, subscriber, added, payload, override_data);
         if(ret != RBUSCORE_ERROR_SUBSCRIBE_NOT_HANDLED)
             return ret;
     }
@@ -879,14 +883,11 @@ rbusCoreError_t rbus_registerObj(const char * object_name, rbus_callback_t handl
     }
 }
 
-rbusCoreError_t rbus_registerMethod(const char * object_name, const char *method_name, rbus_callback_t handler, void * user_data)
+/*called with the lock held*/
+static rbusCoreError_t register_method(const char * object_name, const char *method_name, rbus_callback_t handler, void * user_data)
 {
-    /*using namespace rbus_server;*/
     rbusCoreError_t ret = RBUSCORE_SUCCESS;
-    if(MAX_METHOD_NAME_LENGTH <= strlen(method_name))
-        return RBUSCORE_ERROR_INVALID_PARAM;
 
-    lock();
     //TODO: Check that method name length is within limits and search for duplicates
     server_object_t obj = get_object(object_name);
     if(obj)
@@ -902,7 +903,6 @@ rbusCoreError_t rbus_registerMethod(const char * object_name, const char *method
 
             if(method)
             {
-               unlock();
                RBUSCORELOG_ERROR("Method %s is already registered,Rejecting duplicate registration.", method_name);
                return RBUSCORE_ERROR_INVALID_PARAM;
             }
@@ -919,6 +919,18 @@ rbusCoreError_t rbus_registerMethod(const char * object_name, const char *method
         RBUSCORELOG_ERROR("Couldn't locate object %s.", object_name);
         ret = RBUSCORE_ERROR_INVALID_PARAM;
     }
+    return ret;
+}
+
+rbusCoreError_t rbus_registerMethod(const char * object_name, const char *method_name, rbus_callback_t handler, void * user_data)
+{
+    /*using namespace rbus_server;*/
+    rbusCoreError_t ret;
+    if(MAX_METHOD_NAME_LENGTH <= strlen(method_name))
+        return RBUSCORE_ERROR_INVALID_PARAM;
+
+    lock();
+    ret = register_method(object_name, method_name, handler, user_data);
     unlock();
     return ret;
 }
@@ -1369,6 +1381,7 @@ static void rtrouted_advisory_callback(rtMessageHeader const* hdr, uint8_t const
     return;
 }
 
+/*called with the lock held*/
 static rbusCoreError_t install_subscription_handlers(server_object_t object)
 {
     rbusCoreError_t ret = RBUSCORE_SUCCESS; 
@@ -1383,13 +1396,13 @@ static rbusCoreError_t install_subscription_handlers(server_object_t object)
 
     /*No subscription handlers present. Add them.*/
     RBUSCORELOG_DEBUG("Adding handler for subscription requests for %s.", object->name);
-    if((ret = rbus_registerMethod(object->name, METHOD_SUBSCRIBE, subscription_handler, object)) != RBUSCORE_SUCCESS)
+    if((ret = register_method(object->name, METHOD_SUBSCRIBE, subscription_handler, object)) != RBUSCORE_SUCCESS)
     {
         RBUSCORELOG_ERROR("Could not register add_subscription_handler.");
     }
     else
     {
-        if((ret = rbus_registerMethod(object->name, METHOD_UNSUBSCRIBE, subscription_handler, object)) != RBUSCORE_SUCCESS)
+        if((ret = register_method(object->name, METHOD_UNSUBSCRIBE, subscription_handler, object)) != RBUSCORE_SUCCESS)
         {
             RBUSCORELOG_ERROR("Could not register remove_subscription_handler.");
         }
@@ -1682,9 +1695,7 @@ static rbusCoreError_t rbus_subscribeToEventInternal(const char * object_name,
         if(g_master_event_callback == NULL)
         {
             /*Something went wrong in the RPC. Undo what we did so far and report error.*/
-            lock();
             remove_subscription_callback(object_name, event_name);
-            unlock();
         }
     }
     return ret;
-- 
2.43.0


From 65d4edaba7efba77c4c90fc847973c469e1ac9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:13 +0000
Subject: [PATCH 91/99] fix: a table registered after what lies below it did
 not become a table in existing rows

---
 src/rbus/rbus_element.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 8cf9ed8..f76667a 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -1157,6 +1157,13 @@ void replicateAcrossTableRowInstancesInternal(elementNode* rowNode, elementNode*
             }
         }
     }
+
+    if(currentNode && numChain > 0 && i == numChain)
+    {
+        /*it's there already because something below it was registered first: now it becomes what it's registered as*/
+        currentNode->type = chain[numChain-1]->type;
+        currentNode->cbTable = chain[numChain-1]->cbTable;
+    }
 }
 
 void replicateAcrossTableRowInstances(elementNode* newNode)
-- 
2.43.0


From 57aa2b4f22145e825d50e4df96b02c5e81776a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:13 +0000
Subject: [PATCH 92/99] fix: rbus_open used the handle after another thread
 opening the same name could have closed it

---
 src/rbus/rbus.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 82db186..a3578f2 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3153,8 +3153,6 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
 
     rbusHandleList_Add(tmpHandle);
 
-    UnlockMutex();
-
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), tmpHandle->componentId);
     FILE *fd  =  fopen(filename, "w");
     if (fd)
@@ -3163,6 +3161,9 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
         fclose(fd);
     }
 
+    /*from here on another thread opening the same name may close the handle*/
+    UnlockMutex();
+
     RBUSLOG_INFO(" rbus open (%s) success", componentName);
     return RBUS_ERROR_SUCCESS;
 
-- 
2.43.0


From e94f8e951826a74837faa7db28186ad36668db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:13 +0000
Subject: [PATCH 93/99] fix: setting a property to (part of) its own value used
 the value after freeing it

---
 src/rbus/rbus_property.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/rbus/rbus_property.c b/src/rbus/rbus_property.c
index 72beb15..80983b1 100644
--- a/src/rbus/rbus_property.c
+++ b/src/rbus/rbus_property.c
@@ -271,17 +271,19 @@ rbusValueError_t rbusProperty_GetBytesEx(rbusProperty_t property, uint8_t const*
 void rbusProperty_SetString(rbusProperty_t property, char const* s)
 {
     VERIFY_NULL(property);
-    if(property->value)
-        rbusValue_Release(property->value);
-    property->value = rbusValue_InitString(s);
+    rbusValue_t old = property->value;
+    property->value = rbusValue_InitString(s);/*before the release below, which may drop what is being set*/
+    if(old)
+        rbusValue_Release(old);
 }
 
 void rbusProperty_SetBytes(rbusProperty_t property, uint8_t const* bytes, int len)
 {
     VERIFY_NULL(property);
-    if(property->value)
-        rbusValue_Release(property->value);
-    property->value = rbusValue_InitBytes(bytes, len);
+    rbusValue_t old = property->value;
+    property->value = rbusValue_InitBytes(bytes, len);/*before the release below, which may drop what is being set*/
+    if(old)
+        rbusValue_Release(old);
 }
 
 rbusProperty_t rbusProperty_AppendString(rbusProperty_t property, char const* name, char const* s)
@@ -326,9 +328,10 @@ rbusValueError_t rbusProperty_Get##T1##Ex(rbusProperty_t property, T2* data)\
 }\
 void rbusProperty_Set##T1(rbusProperty_t property, T2 data)\
 {\
-    if(property->value)\
-        rbusValue_Release(property->value);\
+    rbusValue_t old = property->value;\
     property->value = rbusValue_Init##T1(data);\
+    if(old)\
+        rbusValue_Release(old);\
 }\
 rbusProperty_t rbusProperty_Append##T1(rbusProperty_t property, char const* name, T2 data)\
 {\
-- 
2.43.0


From 8dbbd9655f69430328c4ac6977e5548b61f2f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:13 +0000
Subject: [PATCH 94/99] fix: rbusObject_fwrite left out the children of an
 object without properties

---
 src/rbus/rbus_object.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index 1a39343..c10b534 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -467,8 +467,8 @@ void rbusObject_fwrite(rbusObject_t obj, int depth, FILE* fout)
         fprintf(fout, " ");
     fprintf(fout, "rbusObject name=%s\r\n", rbusObject_GetName(obj));
     prop = rbusObject_GetProperties(obj);
-    VERIFY_NULL(prop);
-    rbusProperty_fwrite(prop, depth+1, fout);
+    if(prop)
+        rbusProperty_fwrite(prop, depth+1, fout);
     child = rbusObject_GetChildren(obj);
     while(child)
     {
-- 
2.43.0


From fb32d78ab1b1a154b53e9be831c87b49984216e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:27 +0000
Subject: [PATCH 95/99] fix: rtThreadPool_Destroy cut its waiting time short
 across a second boundary

---
 src/rtmessage/rtThreadPool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtThreadPool.c b/src/rtmessage/rtThreadPool.c
index 8a9785a..7e39550 100644
--- a/src/rtmessage/rtThreadPool.c
+++ b/src/rtmessage/rtThreadPool.c
@@ -229,7 +229,7 @@ int timeGetElapsed(struct timespec* startTime)
   else
   {
     ms = (now.tv_sec - startTime->tv_sec - 1) * 1000 +
-        (1000000000 + now.tv_nsec - startTime->tv_nsec);
+        (1000000000 + now.tv_nsec - startTime->tv_nsec) / 1000000;
   }
   return ms;
 }
-- 
2.43.0


From 52900203f0f11aeec5103b963c7bc17b0161c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:27 +0000
Subject: [PATCH 96/99] fix: rtThreadPool counts its threads when it starts
 them: no more than allowed, none left behind, no task left waiting beside a
 free one, and one to destroy the pool

---
 src/rtmessage/rtThreadPool.c | 65 ++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/src/rtmessage/rtThreadPool.c b/src/rtmessage/rtThreadPool.c
index 7e39550..4355e8f 100644
--- a/src/rtmessage/rtThreadPool.c
+++ b/src/rtmessage/rtThreadPool.c
@@ -26,6 +26,7 @@
 #include <stdlib.h>
 #include <time.h>
 #include <errno.h>
+#include <string.h>
 
 #define RT_THREAD_POOL_DEFAULT_EXPIRE_TIME 10
 
@@ -68,14 +69,9 @@ void rtThreadPool_CleanupThread(void* data)
   rtLog_Debug("%s exit", __FUNCTION__);
 }
 
-void rtThreadPool_TryRealDestroy(rtThreadPool pool)
+/*called by the one who saw, with poolLock held, the pool shut down and without threads*/
+void rtThreadPool_RealDestroy(rtThreadPool pool)
 {
-  int shouldDestroy;
-  pthread_mutex_lock(&pool->poolLock);
-  shouldDestroy = pool->threadCount == 0 && pool->isShutdown == 1;
-  pthread_mutex_unlock(&pool->poolLock);
-  if(!shouldDestroy)
-    return;
   rtLog_Debug("%s enter", __FUNCTION__);
   rtList_Destroy(pool->threadList, rtThreadPool_CleanupThread);
   rtList_Destroy(pool->taskList, rtList_Cleanup_Free);
@@ -86,6 +82,13 @@ void rtThreadPool_TryRealDestroy(rtThreadPool pool)
   rtLog_Debug("%s exit", __FUNCTION__);
 }
 
+static int rtThreadPool_HasTask(rtThreadPool pool)
+{
+  size_t size = 0;
+  rtList_GetSize(pool->taskList, &size);
+  return size > 0;
+}
+
 int rtThread_DequeTask(rtThread thread)
 {
   rtListItem item = NULL;
@@ -117,8 +120,8 @@ void* rtThread_WorkerThreadFunc(void* data)
   rtLog_Debug("%s enter", __FUNCTION__);
   rtThread thread = (rtThread)data;
   rtThreadPool pool = thread->pool;
+  int isLast;
   pthread_mutex_lock(&pool->poolLock);
-  pool->threadCount++;
   while(pool->isRunning)
   {
     while(pool->isRunning && rtThread_DequeTask(thread))
@@ -139,8 +142,8 @@ void* rtThread_WorkerThreadFunc(void* data)
       rtLog_Debug("%s pthread_cond_wait before", __FUNCTION__);
       rc = pthread_cond_timedwait(&pool->taskCond, &pool->poolLock, &expireTime);
       rtLog_Debug("%s pthread_cond_wait after rc=%d", __FUNCTION__, rc);
-      if(rc == ETIMEDOUT)
-      { 
+      if(rc == ETIMEDOUT && !rtThreadPool_HasTask(pool))
+      {
         rtLog_Debug("%s thread expired", __FUNCTION__);
         break;
       }
@@ -148,8 +151,10 @@ void* rtThread_WorkerThreadFunc(void* data)
   }
   pool->threadCount--;
   rtList_RemoveItemWithData(pool->threadList, thread, rtThreadPool_CleanupThread);
+  isLast = pool->threadCount == 0 && pool->isShutdown == 1;
   pthread_mutex_unlock(&pool->poolLock);
-  rtThreadPool_TryRealDestroy(pool);
+  if(isLast)
+    rtThreadPool_RealDestroy(pool);
   rtLog_Debug("%s exit", __FUNCTION__);
   return NULL;
 }
@@ -158,6 +163,7 @@ rtError rtThreadPool_CreateWorkerThread(rtThreadPool pool)
 {
   rtThread thread;
   pthread_attr_t attr;
+  int rc;
   rtLog_Debug("%s enter", __FUNCTION__);
   thread = rt_try_malloc(sizeof(struct _rtThread));
   if(!thread)
@@ -166,9 +172,17 @@ rtError rtThreadPool_CreateWorkerThread(rtThreadPool pool)
   pthread_attr_init(&attr);
   if(pool->stackSize > 0)
     pthread_attr_setstacksize(&attr, pool->stackSize);
-  pthread_create(&thread->threadId, &attr, rtThread_WorkerThreadFunc, thread);
+  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);/*nobody joins it*/
+  rc = pthread_create(&thread->threadId, &attr, rtThread_WorkerThreadFunc, thread);
   pthread_attr_destroy(&attr);
+  if(rc != 0)
+  {
+    rtLog_Error("%s pthread_create failed: %s", __FUNCTION__, strerror(rc));
+    free(thread);
+    return rtErrorFromErrno(rc);
+  }
   rtList_PushBack(pool->threadList, thread, NULL);
+  pool->threadCount++;
   rtLog_Debug("%s exit", __FUNCTION__);
   return RT_OK;
 }
@@ -242,13 +256,13 @@ rtError rtThreadPool_StopAllThread(rtThreadPool pool, int waitTimeMS)
   if(waitTimeMS < 0)
   {
     //wait for all tasks to complete
-    while(pool->busyThreadCount > 0)
+    while(pool->busyThreadCount > 0 || rtThreadPool_HasTask(pool))
       pthread_cond_wait(&pool->idleCond, &pool->poolLock);
   }
   else //waitTimeMS > 0
   {
     int waitRemainingMS = waitTimeMS;
-    while(waitRemainingMS > 0 && pool->busyThreadCount > 0)
+    while(waitRemainingMS > 0 && (pool->busyThreadCount > 0 || rtThreadPool_HasTask(pool)))
     {
       struct timespec startTime, endTime;
       clock_gettime(CLOCK_REALTIME, &startTime);
@@ -280,12 +294,15 @@ rtError rtThreadPool_StopAllThread(rtThreadPool pool, int waitTimeMS)
 rtError rtThreadPool_Destroy(rtThreadPool pool, int waitTimeMS)
 {
   rtError err;
+  int isLast;
   rtLog_Debug("%s enter", __FUNCTION__);
   err = rtThreadPool_StopAllThread(pool, waitTimeMS);
   pthread_mutex_lock(&pool->poolLock);
   pool->isShutdown = 1;
+  isLast = pool->threadCount == 0;
   pthread_mutex_unlock(&pool->poolLock);
-  rtThreadPool_TryRealDestroy(pool);
+  if(isLast)
+    rtThreadPool_RealDestroy(pool);
   rtLog_Debug("%s exit", __FUNCTION__);
   return err;
 }
@@ -296,6 +313,7 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
   rtError err = RT_OK;
   rtListItem item;
   rtThreadTask task;
+  size_t taskCount = 0;
   pthread_mutex_lock(&pool->poolLock);
   //enque task
   rtList_PushBack(pool->taskList, rtListReuseData/*reuse data to avoid many allocs*/, &item);
@@ -305,6 +323,7 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
     task = rt_try_malloc(sizeof(struct _rtThreadTask));
     if(!task)
     {
+        rtList_RemoveItem(pool->taskList, item, NULL);
         pthread_mutex_unlock(&pool->poolLock);
         return rtErrorFromErrno(ENOMEM);
     }
@@ -313,8 +332,9 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
   }
   task->func = func;
   task->userData = userData;
-  //find and existing thread to handle the task
-  if(pool->busyThreadCount < pool->threadCount)
+  //find and existing thread to handle the task, one which is not needed for the tasks before it
+  rtList_GetSize(pool->taskList, &taskCount);
+  if(taskCount <= pool->threadCount - pool->busyThreadCount)
   {
     rtLog_Debug("%s pthread_cond_signal before", __FUNCTION__);
     pthread_cond_signal(&pool->taskCond);
@@ -325,10 +345,19 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
     rtLog_Debug("%s creating new thread", __FUNCTION__);
     if((err = rtThreadPool_CreateWorkerThread(pool)) != RT_OK)
     {
+        if(pool->threadCount > 0)
+        {
+          //the threads there are will get to it
+          err = RT_ERROR_THREADPOOL_TASK_PENDING;
+        }
+        else
+        {
+          rtList_RemoveItem(pool->taskList, item, NULL);
+        }
         pthread_mutex_unlock(&pool->poolLock);
         return err;
     }
-    if(pool->threadCount == pool->maxThreadCount - 1)
+    if(pool->threadCount == pool->maxThreadCount)
       rtLog_Debug("%s reached max thread count %zu", __FUNCTION__, pool->maxThreadCount);
   }
   else
-- 
2.43.0


From 43c3b42cd79ac03901c05cd0e28f994cae835b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:27 +0000
Subject: [PATCH 97/99] fix: rtSemaphore let two waiters through for one post

---
 src/rtmessage/rtSemaphore.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/rtmessage/rtSemaphore.c b/src/rtmessage/rtSemaphore.c
index 45d64d4..fe40e64 100644
--- a/src/rtmessage/rtSemaphore.c
+++ b/src/rtmessage/rtSemaphore.c
@@ -86,7 +86,9 @@ rtError rtSemaphore_Post(rtSemaphore sem)
 rtError rtSemaphore_GetValue(rtSemaphore sem, int* val)
 {
   int rc = RT_OK;
+  ERROR_CHECK(pthread_mutex_lock(&sem->m));
   *val = sem->v;
+  ERROR_CHECK(pthread_mutex_unlock(&sem->m));
   return rc;
 }
 
@@ -98,22 +100,19 @@ rtError rtSemaphore_Wait(rtSemaphore sem)
 rtError rtSemaphore_TimedWait(rtSemaphore sem, struct timespec* t)
 {
   int rc = RT_OK;
-  int err;
+  int err = 0;
   ERROR_CHECK(pthread_mutex_lock(&sem->m));
-  if(sem->v > 0)
+  /*another thread may have taken the post this one was woken up for*/
+  while(sem->v <= 0 && err == 0)
   {
-    sem->v--;
-    ERROR_CHECK(pthread_mutex_unlock(&sem->m));
-    return RT_OK;
+    if(t)
+      err = pthread_cond_timedwait(&sem->c, &sem->m, t);
+    else
+      err = pthread_cond_wait(&sem->c, &sem->m);
   }
-  if(t)
-    err = pthread_cond_timedwait(&sem->c, &sem->m, t);
-  else
-    err = pthread_cond_wait(&sem->c, &sem->m);
-  if(err == 0)
+  if(sem->v > 0)
   {
-    if(sem->v > 0)
-      sem->v--;
+    sem->v--;
   }
   else
   {
-- 
2.43.0


From 6cb3d834e7d9a871b0873c322a084d0194ba94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:47 +0000
Subject: [PATCH 98/99] fix: rtSocketStorage_FromString accepted what is no
 address, and overran its buffer with a long one

---
 src/rtmessage/rtSocket.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/rtmessage/rtSocket.c b/src/rtmessage/rtSocket.c
index b3b9f93..262f990 100644
--- a/src/rtmessage/rtSocket.c
+++ b/src/rtmessage/rtSocket.c
@@ -132,6 +132,15 @@ rtSocketStorage_ToString(struct sockaddr_storage* ss, char* buff, int n, uint16_
     if (addr)
       inet_ntop(family, addr, buff, n);
   }
+  else if (ss->ss_family == AF_INET6)
+  {
+    struct sockaddr_in6* v6 = (struct sockaddr_in6 *) ss;
+
+    if (port)
+      *port = ntohs(v6->sin6_port);
+
+    inet_ntop(AF_INET6, &v6->sin6_addr, buff, n);
+  }
   else if (ss->ss_family == AF_UNIX)
   {
     struct sockaddr_un* un = (struct sockaddr_un *) ss;
@@ -196,6 +205,12 @@ rtSocketStorage_FromString(struct sockaddr_storage* ss, char const* addr)
     return RT_ERROR_INVALID_ARG;
   }
 
+  if (p == addr + 6 || (size_t)(p - addr - 6) >= sizeof(ip))
+  {
+    rtLog_Warn("invalid address string:%s", (addr+6));
+    return RT_ERROR_INVALID_ARG;
+  }
+
   strncpy(ip, addr+6, (p-addr-6));
   rtLog_Debug("parsing ip address:%s", ip);
   if (!rtSocket_IsNumeric(ip))
@@ -241,6 +256,11 @@ rtSocketStorage_FromString(struct sockaddr_storage* ss, char const* addr)
       v6->sin6_family = AF_INET6;
       v6->sin6_port = htons(port);
     }
+    else
+    {
+      rtLog_Warn("invalid address string:%s", (addr+6));
+      return RT_ERROR_INVALID_ARG;
+    }
   }
   else
   {
-- 
2.43.0


From 7b35de59c05ee6d77e0933f7f948b15cbd4793e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:47 +0000
Subject: [PATCH 99/99] fix: rtrouted crashed over an address it could not
 listen on, and over more than five of them

---
 src/rtmessage/rtrouted.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 50fbba0..b1fad7d 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -281,7 +281,12 @@ rtRouted_ParseConfig(char const* fname)
           if (uri)
           {
             rtListener* listener = NULL;
-            rtRouteBase_BindListener(uri->valuestring, 1, indefinite_retry, &listener);
+            if (!cJSON_IsString(uri) || RT_OK != rtRouteBase_BindListener(uri->valuestring, 1, indefinite_retry, &listener))
+            {
+              rtLog_Fatal("Failed to listen on %s", cJSON_IsString(uri) ? uri->valuestring : "what is no address");
+              cJSON_Delete(json);
+              return RT_FAIL;
+            }
             rtVector_PushBack(gListeners, listener);
             indefinite_retry  = 1;
           }
@@ -1898,6 +1903,11 @@ int main(int argc, char* argv[])
         config_file = optarg;
         break;
       case 's':
+        if (num_listeners >= RTMSG_MAX_LISTENING_SOCKETS)
+        {
+          rtLog_Fatal("no more than %d sockets to listen on", RTMSG_MAX_LISTENING_SOCKETS);
+          exit(1);
+        }
         socket_name[num_listeners++] = optarg;
         break;
       case 'd':
@@ -1972,7 +1982,11 @@ int main(int argc, char* argv[])
     for(i = 0; i < num_listeners; i++)
     {
       rtListener* listener = NULL;
-      rtRouteBase_BindListener(socket_name[i], use_no_delay, indefinite_retry, &listener);
+      if (RT_OK != rtRouteBase_BindListener(socket_name[i], use_no_delay, indefinite_retry, &listener))
+      {
+        rtLog_Fatal("Failed to listen on %s", socket_name[i]);
+        exit(1);
+      }
       rtVector_PushBack(gListeners, listener);
       indefinite_retry  = 1;
     }
-- 
2.43.0

