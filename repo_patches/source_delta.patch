From 06d857cf672227821f9e43948008ef5b655d389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 01/64] fix: BitSet::deserialize leaves a malformed set when
 the data is incomplete

---
 src/misc/bitSet.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/misc/bitSet.cpp b/src/misc/bitSet.cpp
index d53aaeb..248b8ee 100644
--- a/src/misc/bitSet.cpp
+++ b/src/misc/bitSet.cpp
@@ -341,13 +341,16 @@ namespace epics { namespace pvData {
         uint32 bytes = static_cast<uint32>(SerializeHelper::readSize(buffer, control)); // in bytes
 
         size_t wordsInUse = (bytes + 7) / BYTES_PER_WORD;
+
+        // may throw, so must come before *this is changed
+        if (wordsInUse != 0)
+            control->ensureData(bytes);
+
         words.resize(wordsInUse);
 
         if (wordsInUse == 0)
             return;
 
-        control->ensureData(bytes);
-
         uint32 i = 0;
         uint32 longs = bytes / 8;
         while (i < longs)
-- 
2.43.0


From f11c95beef49d2323f87efe72ae7c9ddf2d1e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 02/64] fix: SerializeHelper::serializeSubstring writes the
 substring, not only its size

---
 src/misc/serializeHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/serializeHelper.cpp b/src/misc/serializeHelper.cpp
index 822ddec..06f471d 100644
--- a/src/misc/serializeHelper.cpp
+++ b/src/misc/serializeHelper.cpp
@@ -83,10 +83,10 @@ namespace epics {
                 offset = 0;
             else*/ if(offset>value.length()) offset = value.length();
 
-            if(offset+count>value.length()) count = value.length()-offset;
+            if(count>value.length()-offset) count = value.length()-offset;
 
             SerializeHelper::writeSize(count, buffer, flusher);
-            /*if (count<=0)*/ return;
+            if (count<=0) return;
             std::size_t i = 0;
             while(true) {
                 std::size_t maxToWrite = min(count-i, buffer->getRemaining());
-- 
2.43.0


From 6884ae79b3bdda56a6b6d92ba351ffbfd87dd610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 03/64] fix: ByteBuffer indexed put/get must not access beyond
 the limit

---
 src/misc/pv/byteBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/byteBuffer.h b/src/misc/pv/byteBuffer.h
index 321f35d..ebabad6 100644
--- a/src/misc/pv/byteBuffer.h
+++ b/src/misc/pv/byteBuffer.h
@@ -745,7 +745,7 @@ private:
     template<typename T>
     inline void ByteBuffer::put(std::size_t index, T value) const
     {
-        assert(_buffer+index<=_limit);
+        assert(index<=getLimit() && sizeof(T)<=getLimit()-index);
 
         if(reverse<T>())
             value = swap<T>(value);
@@ -774,7 +774,7 @@ private:
     template<typename T>
     inline T ByteBuffer::get(std::size_t index) const
     {
-        assert(_buffer+index<=_limit);
+        assert(index<=getLimit() && sizeof(T)<=getLimit()-index);
 
         T value = detail::load_unaligned<T>(_buffer + index);
 
-- 
2.43.0


From 09cc0be0e086a12ea7e554ba0d69b111641c5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 04/64] fix: PVValueArray::deserialize loses the value received
 by direct transfer

---
 src/factory/PVDataCreateFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 6826e62..3ab7692 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -330,6 +330,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     if (!pbuffer->reverse<T>())
         if (pcontrol->directDeserialize(pbuffer, (char*)cur, size, sizeof(T)))
         {
+        value = freeze(nextvalue);
         // inform about the change?
         PVField::postPut();
         return;
-- 
2.43.0


From 28d48225078136bb9961a88729d34965c782fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 05/64] fix: partial serialization of structure and union
 arrays reads past the end

---
 src/factory/PVStructureArray.cpp | 4 ++--
 src/factory/PVUnionArray.cpp     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 66577b5..a93c668 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -195,10 +195,10 @@ void PVStructureArray::serialize(ByteBuffer *pbuffer,
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
-    else if (count != array->getMaximumCapacity())
+    else if (temp.size() != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
-    for(size_t i = 0; i<count; i++) {
+    for(size_t i = 0, n = temp.size(); i<n; i++) {
         if(pbuffer->getRemaining()<1)
             pflusher->flushSerializeBuffer();
 
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 151bc5b..9b4d480 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -194,10 +194,10 @@ void PVUnionArray::serialize(ByteBuffer *pbuffer,
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
-    else if (count != array->getMaximumCapacity())
+    else if (temp.size() != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
-    for(size_t i = 0; i<count; i++) {
+    for(size_t i = 0, n = temp.size(); i<n; i++) {
         if(pbuffer->getRemaining()<1)
             pflusher->flushSerializeBuffer();
 
-- 
2.43.0


From 82a81a45351a90d56dc320f7cd0ccce8b81b029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 06/64] fix: comparing type descriptions ignores string and
 array bounds

---
 src/factory/Compare.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 1e53608..27bb8fe 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -69,14 +69,24 @@ bool compare(const Scalar& a, const Scalar& b)
 {
     if(&a==&b)
         return true;
-    return a.getScalarType()==b.getScalarType();
+    if(a.getScalarType()!=b.getScalarType())
+        return false;
+    if(a.getScalarType()!=pvString)
+        return true;
+    const BoundedString *A=dynamic_cast<const BoundedString*>(&a),
+                        *B=dynamic_cast<const BoundedString*>(&b);
+    if(!A || !B)
+        return !A && !B;
+    return compare(*A, *B);
 }
 
 bool compare(const ScalarArray& a, const ScalarArray& b)
 {
     if(&a==&b)
         return true;
-    return a.getElementType()==b.getElementType();
+    return a.getElementType()==b.getElementType()
+        && a.getArraySizeType()==b.getArraySizeType()
+        && a.getMaximumCapacity()==b.getMaximumCapacity();
 }
 
 bool compare(const Structure& a, const Structure& b)
-- 
2.43.0


From ca2baed840b230c4d72cd212e632e2af87e2afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 07/64] fix: FieldCreate::deserialize accepts arrays of
 structures or unions whose element is something else

---
 src/factory/FieldCreateFactory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 6c5f9b0..61949f2 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1561,7 +1561,9 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.structureArray;
-            StructureConstPtr elementStructure = std::tr1::static_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            StructureConstPtr elementStructure = std::tr1::dynamic_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            if (!elementStructure)
+                throw std::invalid_argument("invalid structureArray element type encoding");
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new StructureArray(elementStructure));
             Helper::cache(this, sp);
@@ -1574,7 +1576,9 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.unionArray;
-            UnionConstPtr elementUnion = std::tr1::static_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            UnionConstPtr elementUnion = std::tr1::dynamic_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            if (!elementUnion)
+                throw std::invalid_argument("invalid unionArray element type encoding");
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new UnionArray(elementUnion));
             Helper::cache(this, sp);
-- 
2.43.0


From 078e9ff81f8fb49ec2946fdf8001cd349eb0c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 08/64] fix: PVUnion::deserialize takes any selector and leaves
 an inconsistent union on failure

---
 src/factory/PVUnion.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/factory/PVUnion.cpp b/src/factory/PVUnion.cpp
index a52687b..2253aa8 100644
--- a/src/factory/PVUnion.cpp
+++ b/src/factory/PVUnion.cpp
@@ -158,21 +158,27 @@ void PVUnion::deserialize(ByteBuffer *pbuffer, DeserializableControl *pcontrol)
     }
     else
     {
-        int32 previousSelector = selector;
-        selector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
-        if (selector != UNDEFINED_INDEX)
+        const int32 index = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
+        if (index != UNDEFINED_INDEX)
         {
-            if (selector != previousSelector)
+            if (index < 0 || size_t(index) >= unionPtr->getFields().size())
+                throw std::out_of_range("union selector out of bounds");
+
+            if (selector != index)
             {
-                FieldConstPtr field = unionPtr->getField(selector);
+                FieldConstPtr field = unionPtr->getField(index);
                 // try to reuse existing field instance
                 if (!value.get() || *value->getField() != *field)
                     value = pvDataCreate->createPVField(field);
+                selector = index;
             }
             value->deserialize(pbuffer, pcontrol);
         }
         else
+        {
+            selector = UNDEFINED_INDEX;
             value.reset();
+        }
     }
 }
 
-- 
2.43.0


From cc75c492d1522ead09fb2781ea89e2f9b382202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 09/64] fix: received values may exceed the bound of a bounded
 string or array

---
 src/factory/PVDataCreateFactory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 3ab7692..3ea7b73 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -128,8 +128,8 @@ template<>
 void PVScalarValue<std::string>::deserialize(ByteBuffer *pbuffer,
     DeserializableControl *pflusher)
 {
-    storage.value = SerializeHelper::deserializeString(pbuffer, pflusher);
-    // TODO: check for violations of maxLength?
+    // checks maxLength
+    storage.store(SerializeHelper::deserializeString(pbuffer, pflusher));
 }
 
 PVString::PVString(ScalarConstPtr const & scalar)
@@ -319,6 +319,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
     nextvalue.resize(size); // TODO: avoid copy of stuff we will then overwrite
@@ -413,6 +414,7 @@ void PVValueArray<string>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
 
-- 
2.43.0


From 7d66327d0cc2df7935d7fc0bc4df43972ac9bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 10/64] fix: fixed string array serialized with the wrong
 number of elements

---
 src/factory/PVDataCreateFactory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 3ea7b73..e305cf1 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -442,9 +442,11 @@ void PVValueArray<string>::serialize(ByteBuffer *pbuffer,
     const_svector temp(value);
     temp.slice(offset, count);
 
-    // TODO if fixed count == getArray()->getMaximumCapacity()
-    if (this->getArray()->getArraySizeType() != Array::fixed)
+    ArrayConstPtr array = this->getArray();
+    if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+    else if (temp.size() != array->getMaximumCapacity())
+        throw std::length_error("fixed array cannot be partially serialized");
 
     const string * pvalue = temp.data();
     for(size_t i = 0; i<temp.size(); i++) {
-- 
2.43.0


From b3b2b5b8a1eaf7b00e40e4076bb9258f6a5905fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 11/64] fix: TimeStamp arithmetic leaves nanoseconds outside
 0..999999999

---
 src/property/timeStamp.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 57e4c4c..ba98318 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -65,6 +65,7 @@ void TimeStamp::put(int64 milliseconds)
 {
     secondsPastEpoch = milliseconds/1000;
     nanoseconds = (milliseconds%1000)*1000000;
+    normalize();
 }
 
 void TimeStamp::getCurrent()
@@ -163,14 +164,8 @@ TimeStamp & TimeStamp::operator+=(double seconds)
     int64 secs = static_cast<int64>(seconds);
     int64 nano = static_cast<int64>((seconds - secs)*1e9);
     nanoseconds += static_cast<int32>(nano);
-    if(nanoseconds>nanoSecPerSec) {
-        nanoseconds -= nanoSecPerSec;
-        secondsPastEpoch += 1;
-    } else if(nanoseconds<-nanoSecPerSec) {
-        nanoseconds += -nanoSecPerSec;
-        secondsPastEpoch -= 1;
-    }
     secondsPastEpoch += secs;
+    normalize();
     return *this;
 }
 
-- 
2.43.0


From 089a7dc75925b803f5cb2f973ebd76fba069531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 12/64] fix: comparing TimeStamps more than 292 years apart
 overflows

---
 src/property/timeStamp.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index ba98318..c3e9d99 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -87,14 +87,10 @@ double TimeStamp::toSeconds() const
 
 int64 TimeStamp::diffInt(TimeStamp const & left,TimeStamp  const&right )
 {
-    int64 sl = left.secondsPastEpoch;
-    int32 nl = left.nanoseconds;
-    int64 sr = right.secondsPastEpoch;
-    int32 nr = right.nanoseconds;
-    int64 sdiff = sl - sr;
-    sdiff *= nanoSecPerSec;
-    sdiff += nl - nr;
-    return sdiff;
+    // the difference in nanoseconds may exceed the range of int64
+    if(left.secondsPastEpoch!=right.secondsPastEpoch)
+        return left.secondsPastEpoch<right.secondsPastEpoch ? -1 : 1;
+    return static_cast<int64>(left.nanoseconds) - right.nanoseconds;
 }
 
 bool TimeStamp::operator==(TimeStamp const &right) const
-- 
2.43.0


From 8894f8998f7d552469fac11bd22e71e039c3c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 13/64] fix: Status::deserialize accepts unknown status types

---
 src/misc/status.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 0edd0f3..9443729 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -74,6 +74,8 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     }
     else
     {
+        if (typeCode < STATUSTYPE_OK || typeCode > STATUSTYPE_FATAL)
+            throw std::invalid_argument("invalid status type encoding");
         m_statusType = (StatusType)typeCode;
         m_message = SerializeHelper::deserializeString(buffer, flusher);
         m_stackDump = SerializeHelper::deserializeString(buffer, flusher);
-- 
2.43.0


From da056ac0926f83da7d92d2e801951f2a99b00a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 14/64] fix: shared_vector::reserve drops elements of a shared
 array when asked for less than its size

---
 src/misc/pv/sharedVector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 905ee5e..5321cd2 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -428,9 +428,9 @@ public:
     void reserve(size_t i) {
         if(this->unique() && i<=this->m_total)
             return;
-        size_t new_count = this->m_count;
-        if(new_count > i)
-            new_count = i;
+        const size_t new_count = this->m_count;
+        if(i < new_count)
+            i = new_count; // never drops elements
         _E_non_const* temp=new _E_non_const[i];
         try{
             std::copy(begin(), begin()+new_count, temp);
-- 
2.43.0


From 819c36310c2de919afd27752248dd66d5aed0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 15/64] fix: shared_vector::at accepts the index one past the
 end

---
 src/misc/pv/sharedVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 5321cd2..bb1bf26 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -623,7 +623,7 @@ public:
     //! @throws std::out_of_range if i>=size().
     reference at(size_t i) const
     {
-        if(i>this->m_count)
+        if(i>=this->m_count)
             throw std::out_of_range("Index out of bounds");
         return (*this)[i];
     }
-- 
2.43.0


From 058af79155cdc4580e7b808544b7f7a6e630b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 16/64] fix: sub-array copy reads past the source, overflows
 and over-extends the destination

---
 src/factory/pvSubArrayCopy.cpp | 57 ++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/factory/pvSubArrayCopy.cpp b/src/factory/pvSubArrayCopy.cpp
index 35b03ed..c8f88c1 100644
--- a/src/factory/pvSubArrayCopy.cpp
+++ b/src/factory/pvSubArrayCopy.cpp
@@ -19,6 +19,27 @@ using std::string;
 
 namespace epics { namespace pvData {
 
+// checks the request and returns the length the destination must have afterwards
+static size_t subArrayCopyLength(
+    size_t fromLength,
+    size_t fromOffset,
+    size_t fromStride,
+    size_t toLength,
+    size_t toOffset,
+    size_t toStride,
+    size_t count)
+{
+    if(fromOffset>fromLength) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    size_t maxcount = fromOffset==fromLength ? 0 : (fromLength - fromOffset - 1)/fromStride + 1;
+    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    if(count==0) return toLength;
+    const size_t maxlen = (size_t)-1;
+    if(toOffset==maxlen || count-1>(maxlen - 1 - toOffset)/toStride)
+        throw std::invalid_argument("pvSubArrayCopy pvTo length error");
+    size_t newLength = toOffset + (count - 1)*toStride + 1;
+    return newLength>toLength ? newLength : toLength;
+}
+
 template<typename T>
 void copy(
     PVValueArray<T> & pvFrom,
@@ -31,17 +52,13 @@ void copy(
 {
     if(pvTo.isImmutable()) throw std::invalid_argument("pvSubArrayCopy: pvTo is immutable");
     if(fromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
-    size_t fromLength = pvFrom.getLength();
-    size_t maxcount = (fromLength -fromOffset + fromStride -1)/fromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<T> temp(capacity);
+    size_t newLength = subArrayCopyLength(pvFrom.getLength(), fromOffset, fromStride,
+        pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<T> temp(newLength);
     typename PVValueArray<T>::const_svector vecFrom = pvFrom.view();
     typename PVValueArray<T>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i) temp[i] = T();
+    for(size_t i=pvTo.getLength(); i< newLength; ++i) temp[i] = T();
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*fromStride+fromOffset];
     shared_vector<const T> temp2(freeze(temp));
     pvTo.replace(temp2);
@@ -169,17 +186,13 @@ void copy(
         throw std::invalid_argument(
             "pvSubArrayCopy structureArray pvTo and pvFrom have different structures");
     }
-    size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<PVStructurePtr> temp(capacity);
+    size_t newLength = subArrayCopyLength(pvFrom.getLength(), pvFromOffset, pvFromStride,
+        pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<PVStructurePtr> temp(newLength);
     PVValueArray<PVStructurePtr>::const_svector vecFrom = pvFrom.view();
     PVValueArray<PVStructurePtr>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i)
+    for(size_t i=pvTo.getLength(); i< newLength; ++i)
         temp[i] = getPVDataCreate()->createPVStructure(toStructure->getStructure());
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*pvFromStride+pvFromOffset];
     shared_vector<const PVStructurePtr> temp2(freeze(temp));
@@ -205,17 +218,13 @@ void copy(
         throw std::invalid_argument(
             "pvSubArrayCopy unionArray pvTo and pvFrom have different unions");
     }
-    size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<PVUnionPtr> temp(capacity);
+    size_t newLength = subArrayCopyLength(pvFrom.getLength(), pvFromOffset, pvFromStride,
+        pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<PVUnionPtr> temp(newLength);
     PVValueArray<PVUnionPtr>::const_svector vecFrom = pvFrom.view();
     PVValueArray<PVUnionPtr>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i)
+    for(size_t i=pvTo.getLength(); i< newLength; ++i)
         temp[i] = getPVDataCreate()->createPVUnion(toUnion->getUnion());
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*pvFromStride+pvFromOffset];
     shared_vector<const PVUnionPtr> temp2(freeze(temp));
-- 
2.43.0


From 4054da6b2ec9ed87360b05b05b80fd4c366e2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 17/64] fix: fields put into a structure keep the offsets they
 had on their own

---
 src/factory/PVStructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factory/PVStructure.cpp b/src/factory/PVStructure.cpp
index ff14b81..53adb96 100644
--- a/src/factory/PVStructure.cpp
+++ b/src/factory/PVStructure.cpp
@@ -58,6 +58,8 @@ PVStructure::PVStructure(StructureConstPtr const & structurePtr,
     for(size_t i=0; i<numberFields; i++) {
         pvFields[i]->setParentAndName(this,fieldNames[i]);
     }
+    // the fields may already have computed their offsets on their own
+    getFieldOffset();
 }
 
 PVStructure::~PVStructure() {}
-- 
2.43.0


From 75aa9fa88f20e2fc776b151874085da8108c31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 18/64] fix: cloning a structure as PVField takes the members
 away from the original

---
 src/factory/PVDataCreateFactory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index e305cf1..fd424f1 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -521,9 +521,7 @@ PVFieldPtr PVDataCreate::createPVField(PVFieldPtr const & fieldToClone)
          {
              PVStructurePtr pvStructure
                    = static_pointer_cast<PVStructure>(fieldToClone);
-             StringArray const & fieldNames = pvStructure->getStructure()->getFieldNames();
-             PVFieldPtrArray const & pvFieldPtrArray = pvStructure->getPVFields();
-             return createPVStructure(fieldNames,pvFieldPtrArray);
+             return createPVStructure(pvStructure);
          }
      case structureArray:
          {
-- 
2.43.0


From 88040b3b74dbc04e2ec31c9b7c4ea4274c26aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 19/64] fix: cloning a scalar or scalar array drops its string
 or array bound

---
 src/factory/PVDataCreateFactory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index fd424f1..1afcba7 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -593,8 +593,7 @@ PVScalarPtr PVDataCreate::createPVScalar(ScalarType scalarType)
 
 PVScalarPtr PVDataCreate::createPVScalar(PVScalarPtr const & scalarToClone)
 {
-     ScalarType scalarType = scalarToClone->getScalar()->getScalarType();
-     PVScalarPtr pvScalar = createPVScalar(scalarType);
+     PVScalarPtr pvScalar = createPVScalar(scalarToClone->getScalar());
      pvScalar->copyUnchecked(*scalarToClone);
      return pvScalar;
 }
@@ -643,7 +642,7 @@ PVScalarArrayPtr PVDataCreate::createPVScalarArray(
         PVScalarArrayPtr const & arrayToClone)
 {
      PVScalarArrayPtr pvArray = createPVScalarArray(
-          arrayToClone->getScalarArray()->getElementType());
+          arrayToClone->getScalarArray());
      pvArray->assign(*arrayToClone.get());
     return pvArray;
 }
-- 
2.43.0


From eaab19820c9867a00e3f89596536bae1cb9187bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 20/64] fix: cloning a union without a selection dereferences a
 null pointer

---
 src/factory/PVDataCreateFactory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 1afcba7..46914cc 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -712,7 +712,9 @@ PVUnionPtr PVDataCreate::createPVUnion(PVUnionPtr const & unionToClone)
 {
     PVUnionPtr punion(new PVUnion(unionToClone->getUnion()));
     // set cloned value
-    punion->set(unionToClone->getSelectedIndex(), createPVField(unionToClone->get()));
+    PVFieldPtr value = unionToClone->get();
+    if (value)
+        punion->set(unionToClone->getSelectedIndex(), createPVField(value));
     return punion;
 }
 
-- 
2.43.0


From 5d04930a0f6779b59ed72e3cfd27dc1bc8a22a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 21/64] fix: setLength of structure and union arrays loses the
 content when the length does not change or is refused

---
 src/factory/PVStructureArray.cpp | 6 +++---
 src/factory/PVUnionArray.cpp     | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index a93c668..25dcd8e 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -123,14 +123,14 @@ void PVStructureArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
-
     if (length == value.size())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
+
     if (length < value.size()) {
         value.slice(0, length);
     } else {
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 9b4d480..7709726 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -123,13 +123,14 @@ void PVUnionArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
     if (length == value.size())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
+
     if (length < value.size()) {
         value.slice(0, length);
     } else {
-- 
2.43.0


From fb2e29b76e130fe45bb4afa519514a7ebb69362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 22/64] fix: removing elements of structure and union arrays
 overflows offset+number

---
 src/factory/PVStructureArray.cpp | 2 +-
 src/factory/PVUnionArray.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 25dcd8e..284fefe 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -46,7 +46,7 @@ bool PVStructureArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (offset>getLength() || number>getLength()-offset)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 7709726..1932647 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -46,7 +46,7 @@ bool PVUnionArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (offset>getLength() || number>getLength()-offset)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
-- 
2.43.0


From df62254b8b7f1251bf021fd8c9a7a9884f149f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 23/64] fix: splitting a comma separated list takes too many
 characters per value

---
 src/factory/Convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index af39b21..214ac7a 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -40,7 +40,7 @@ static std::vector<string> split(const string& commaSeparatedList) {
     index=0;
     for(size_t i=0; i<numValues; i++) {
         size_t pos = commaSeparatedList.find(',',index);
-        string value = commaSeparatedList.substr(index,pos);
+        string value = commaSeparatedList.substr(index,pos==string::npos ? pos : pos-index);
         valueList[i] = value;
         index = pos +1;
     }
-- 
2.43.0


From 740348ff856b5a8e849a154f0249d5e5e8f33051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 24/64] fix: an array value enclosed in [] is not recognised

---
 src/factory/Convert.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index 214ac7a..55d2914 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -99,9 +99,8 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
 
 size_t Convert::fromString(PVScalarArrayPtr const &pv, string from)
 {
-   if(from[0]=='[' && from[from.length()]==']') {
-        size_t offset = from.rfind(']');
-        from = from.substr(1, offset);
+   if(from.length()>=2 && from[0]=='[' && from[from.length()-1]==']') {
+        from = from.substr(1, from.length()-2);
     }
     std::vector<string> valueList(split(from));
     size_t length = valueList.size();
-- 
2.43.0


From 1aaa86517f07fcc631f39b8f9488c2e2dc365a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 25/64] fix: converting a text list fails when the array is
 longer than the list

---
 src/factory/Convert.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index 55d2914..85e984e 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -104,9 +104,12 @@ size_t Convert::fromString(PVScalarArrayPtr const &pv, string from)
     }
     std::vector<string> valueList(split(from));
     size_t length = valueList.size();
-    size_t num = fromStringArray(pv,0,length,valueList,0);
-    if(num<length) length = num;
-    pv->setLength(length);
+
+    // replace all existing elements
+    PVStringArray::svector data(length);
+    std::copy(valueList.begin(), valueList.end(), data.begin());
+
+    pv->putFrom<string>(freeze(data));
     return length;
 }
 
-- 
2.43.0


From a7ab0e5701bd8d3c90e3da9f65d6ed3cc8530b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 26/64] fix: fromStringArray aborts when the list is too short

---
 src/factory/Convert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index 85e984e..0822a27 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -122,7 +122,8 @@ size_t Convert::fromStringArray(PVScalarArrayPtr const &pv,
 
     if(offset==0 && length>=alen) {
         // replace all existing elements
-        assert(from.size()>=fromOffset+length);
+        if(fromOffset>from.size() || length>from.size()-fromOffset)
+            throw std::logic_error("fromStringArray: not enough values");
 
         PVStringArray::svector data(length);
         std::copy(from.begin()+fromOffset,
-- 
2.43.0


From 1435ea3d34c69787c5d01bd9af9b1ef5a1140ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 27/64] fix: toStringArray applies the destination offset to
 the source

---
 src/factory/Convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index 0822a27..67b135f 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -149,7 +149,7 @@ size_t Convert::toStringArray(PVScalarArrayPtr const & pv,
     data.slice(offset, length);
     if(toOffset+data.size() > to.size())
         to.resize(toOffset+data.size());
-    std::copy(data.begin()+toOffset, data.end(), to.begin());
+    std::copy(data.begin(), data.end(), to.begin()+toOffset);
     return data.size();
 }
 
-- 
2.43.0


From 842ae725312835447167bfd4efbfb01890db3f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 28/64] fix: converting a list of texts to a structure reads
 past the list and loses its place after an array

---
 src/factory/Convert.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index 67b135f..9eb2320 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -60,6 +60,7 @@ void Convert::getString(string *buf,PVField const *pvField,int /*indentLevel*/)
 size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const & from, size_t fromStartIndex)
 {
     size_t processed = 0;
+    static const char tooShort[] = "Convert::fromString not enough values";
 
     PVFieldPtrArray const & fieldsData = pvStructure->getPVFields();
     if (fieldsData.size() != 0) {
@@ -76,12 +77,13 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
             }
             else if(type==scalarArray) {
                 PVScalarArrayPtr pv = static_pointer_cast<PVScalarArray>(fieldField);
-                size_t count = fromString(pv, from[fromStartIndex]);
-                processed += count;
-                fromStartIndex += count;
+                if(fromStartIndex>=from.size()) throw std::logic_error(tooShort);
+                fromString(pv, from[fromStartIndex++]);
+                processed++;
             }
             else if(type==scalar) {
                 PVScalarPtr pv = static_pointer_cast<PVScalar>(fieldField);
+                if(fromStartIndex>=from.size()) throw std::logic_error(tooShort);
                 fromString(pv, from[fromStartIndex++]);
                 processed++;
             }
-- 
2.43.0


From 1d7209c8672e1c01e3331f81c9aec957ea3778c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 29/64] fix: Convert::toLong truncates to 32 bits

---
 src/pv/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pv/convert.h b/src/pv/convert.h
index 2a4395b..1967166 100644
--- a/src/pv/convert.h
+++ b/src/pv/convert.h
@@ -167,7 +167,7 @@ public:
      * @return converted value
      * @throws std::invalid_argument if the Type is not a numeric scalar
      */
-    inline int64 toLong(PVScalarPtr const & pv) { return pv->getAs<int32>();}
+    inline int64 toLong(PVScalarPtr const & pv) { return pv->getAs<int64>();}
     /**
      * Convert a PV to a ubyte.
      * @param pv a PV
-- 
2.43.0


From 91ec358ccadaeddf79e7e3925e0b8e9ac7a11125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 30/64] fix: a new fixed size array has no elements and cannot
 be copied or serialized

---
 src/factory/PVDataCreateFactory.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 46914cc..2739f0e 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -191,7 +191,13 @@ PVValueArray<T>::PVValueArray(ScalarArrayConstPtr const & scalarArray)
     :base_t(scalarArray)
     ,value()
 
-{}
+{
+    // a fixed size array always has all its elements
+    if(scalarArray->getArraySizeType() == Array::fixed) {
+        svector initial(scalarArray->getMaximumCapacity(), T());
+        value = freeze(initial);
+    }
+}
 
 PVValueArray<PVStructurePtr>::PVValueArray(StructureArrayConstPtr const & structureArray)
     :base_t(structureArray)
-- 
2.43.0


From c9272c1a02362c49780b4cd52b561823f5cd9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 31/64] fix: comparing a variant union that has a value with an
 empty one dereferences null

---
 src/factory/Compare.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 27bb8fe..858b98b 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -285,7 +285,10 @@ bool compareField(const PVUnion* left, const PVUnion* right)
         if (lval.get() == 0)
             return right->get().get() == 0;
         else
-            return *(lval.get()) == *(right->get().get());
+        {
+            const PVField::const_shared_pointer& rval = right->get();
+            return rval.get() != 0 && *(lval.get()) == *(rval.get());
+        }
     }
     else
     {
-- 
2.43.0


From cbad2c24b0776a196fde36a3bfe8490b972932c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 32/64] fix: a failed array conversion always reports element 0

---
 src/misc/typeCast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/misc/typeCast.cpp b/src/misc/typeCast.cpp
index 8ae3688..7bb93d6 100644
--- a/src/misc/typeCast.cpp
+++ b/src/misc/typeCast.cpp
@@ -33,8 +33,9 @@ static void castVTyped(size_t count, void *draw, const void *sraw)
 
     //std::transform(src, src+count, dest, castUnsafe<TO,FROM>);
 
+    size_t i=0;
     try {
-        for(size_t i=0; i<count; i++) {
+        for(; i<count; i++) {
             dest[i] = castUnsafe<TO,FROM>(src[i]);
         }
     } catch (std::exception& ex) {
@@ -42,7 +43,7 @@ static void castVTyped(size_t count, void *draw, const void *sraw)
         if (count > 1)
         {
             std::ostringstream os;
-            os << "failed to parse element at index " << (src - (FROM*)sraw);
+            os << "failed to parse element at index " << i;
             os << ": " << ex.what();
             throw std::runtime_error(os.str());
         }
-- 
2.43.0


From e35c1277f37f192037617dea543b6ca345a6130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 33/64] fix: PVDisplay::isAttached reports the opposite

---
 src/property/pvDisplay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index 0027cb7..df207c5 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -62,7 +62,7 @@ void PVDisplay::detach()
 }
 
 bool PVDisplay::isAttached() {
-    if(pvDescription.get()) return false;
+    if(pvDescription.get()==NULL) return false;
     return true;
 }
 
-- 
2.43.0


From fbf7588eb8b710d76e9e2e29911af709eda63604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 34/64] fix: PVEnumerated::choicesMutable reports the opposite

---
 src/property/pvEnumerated.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 5aa61d0..45d2b9a 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -86,7 +86,7 @@ bool PVEnumerated::choicesMutable()
     if(pvIndex.get()==NULL ) {
          throw std::logic_error(notAttached);
     }
-    return pvChoices->isImmutable();
+    return !pvChoices->isImmutable();
 }
 
 int32 PVEnumerated::getNumberChoices()
-- 
2.43.0


From b77ed757cc2677c85043361737a5caa1096095c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 35/64] fix: attaching a property helper ends the earlier
 attachment also when it fails

---
 src/property/pvAlarm.cpp      | 1 +
 src/property/pvControl.cpp    | 1 +
 src/property/pvDisplay.cpp    | 1 +
 src/property/pvEnumerated.cpp | 1 +
 src/property/pvTimeStamp.cpp  | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 213d4d0..8c43427 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -25,6 +25,7 @@ string PVAlarm::notAttached("Not attached to an alarm structure");
 
 bool PVAlarm::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvSeverity = pvStructure->getSubField<PVInt>("severity");
diff --git a/src/property/pvControl.cpp b/src/property/pvControl.cpp
index be023e1..22474a6 100644
--- a/src/property/pvControl.cpp
+++ b/src/property/pvControl.cpp
@@ -25,6 +25,7 @@ string PVControl::notAttached("Not attached to an control structure");
 
 bool PVControl::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvLow = pvStructure->getSubField<PVDouble>("limitLow");
diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index df207c5..613a969 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -25,6 +25,7 @@ string PVDisplay::notAttached("Not attached to an display structure");
 
 bool PVDisplay::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvDescription = pvStructure->getSubField<PVString>("description");
diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 45d2b9a..57683bd 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -25,6 +25,7 @@ string PVEnumerated::notAttached("Not attached to an enumerated structure");
 
 bool PVEnumerated::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvIndex = pvStructure->getSubField<PVInt>("index");
diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 07976bf..2136bb2 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -25,6 +25,7 @@ string PVTimeStamp::notAttached("Not attached to a timeStamp structure");
 
 bool PVTimeStamp::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr xxx = static_pointer_cast<PVStructure>(pvField);
     PVStructure* pvStructure = xxx.get();
-- 
2.43.0


From 9eb7a6d259c8b9cf0a279d5113bdc5c8f30fd6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 36/64] fix: PVTimeStamp::set stores the wrong time over a time
 stamp that was not normalized

---
 src/property/pvTimeStamp.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 2136bb2..78fbfdf 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -74,20 +74,18 @@ bool PVTimeStamp::set(TimeStamp const & timeStamp)
         throw std::logic_error(notAttached);
     }
     if(pvSecs->isImmutable() || pvNano->isImmutable()) return false;
-    TimeStamp current;
-    get(current);
     bool returnValue = false;
-    if(current.getSecondsPastEpoch()!=timeStamp.getSecondsPastEpoch())
+    if(pvSecs->get()!=timeStamp.getSecondsPastEpoch())
     {
         pvSecs->put(timeStamp.getSecondsPastEpoch());
         returnValue = true;
     }
-    if(current.getNanoseconds()!=timeStamp.getNanoseconds())
+    if(pvNano->get()!=timeStamp.getNanoseconds())
     {
         pvNano->put(timeStamp.getNanoseconds());
         returnValue = true;
     }
-    if(current.getUserTag()!=timeStamp.getUserTag())
+    if(pvUserTag->get()!=timeStamp.getUserTag())
     {
         pvUserTag->put(timeStamp.getUserTag());
         returnValue = true;
-- 
2.43.0


From 8e79cf457b73d749f10b4f466bff001c4c48abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 37/64] fix: PVAlarm::set stores half of an alarm with a bad
 status, and refuses a good alarm over a bad one

---
 src/property/pvAlarm.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 8c43427..7300a92 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -73,20 +73,21 @@ bool PVAlarm::set(Alarm const & alarm)
         throw std::logic_error(notAttached);
     }
     if(pvSeverity->isImmutable() || pvMessage->isImmutable()) return false;
-    Alarm current;
-    get(current);
+    // throws if out of range
+    const AlarmSeverity severity = alarm.getSeverity();
+    const AlarmStatus status = alarm.getStatus();
     bool returnValue = false;
-    if(current.getSeverity()!=alarm.getSeverity())
+    if(pvSeverity->get()!=severity)
     {
-        pvSeverity->put(alarm.getSeverity());
+        pvSeverity->put(severity);
         returnValue = true;
     }
-    if(current.getStatus()!=alarm.getStatus())
+    if(pvStatus->get()!=status)
     {
-        pvStatus->put(alarm.getStatus());
+        pvStatus->put(status);
         returnValue = true;
     }
-    if(current.getMessage()!=alarm.getMessage())
+    if(pvMessage->get()!=alarm.getMessage())
     {
         pvMessage->put(alarm.getMessage());
         returnValue = true;
-- 
2.43.0


From b6c1b1b66368531eceae51c987da4e614411eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 38/64] fix: alarm and time stamp helpers write to an immutable
 status or user tag

---
 src/property/pvAlarm.cpp     | 2 +-
 src/property/pvTimeStamp.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 7300a92..262ffc3 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -72,7 +72,7 @@ bool PVAlarm::set(Alarm const & alarm)
     if(pvSeverity.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSeverity->isImmutable() || pvMessage->isImmutable()) return false;
+    if(pvSeverity->isImmutable() || pvStatus->isImmutable() || pvMessage->isImmutable()) return false;
     // throws if out of range
     const AlarmSeverity severity = alarm.getSeverity();
     const AlarmStatus status = alarm.getStatus();
diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 78fbfdf..d3d397a 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -73,7 +73,7 @@ bool PVTimeStamp::set(TimeStamp const & timeStamp)
     if(pvSecs.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSecs->isImmutable() || pvNano->isImmutable()) return false;
+    if(pvSecs->isImmutable() || pvNano->isImmutable() || pvUserTag->isImmutable()) return false;
     bool returnValue = false;
     if(pvSecs->get()!=timeStamp.getSecondsPastEpoch())
     {
-- 
2.43.0


From 41354a2406794ffdc05b81db01f54b96716d83ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 39/64] fix: ValueBuilder leaks a field replaced by an array

---
 src/pv/valueBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pv/valueBuilder.cpp b/src/pv/valueBuilder.cpp
index a12ee88..72b7ccf 100644
--- a/src/pv/valueBuilder.cpp
+++ b/src/pv/valueBuilder.cpp
@@ -218,6 +218,10 @@ void ValueBuilder::_add(const std::string& name, const shared_vector<const void>
 
     epics::auto_ptr<child> store(new child_scalar_array(V));
 
+    if(it!=children.end()) {
+        delete it->second;
+        children.erase(it);
+    }
     children[name] = store.get();
     store.release();
 }
-- 
2.43.0


From 9270850f93b8ec0b92bc4e31c8efe00cfd1fcf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 40/64] fix: ValueBuilder::add does not compile for an array of
 a given type

---
 src/pv/valueBuilder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pv/valueBuilder.h b/src/pv/valueBuilder.h
index 39ab572..14f3fd2 100644
--- a/src/pv/valueBuilder.h
+++ b/src/pv/valueBuilder.h
@@ -49,7 +49,7 @@ public:
     template<class T>
     FORCE_INLINE ValueBuilder& add(const std::string& name, const shared_vector<const T>& V)
     {
-        _add(name, V);
+        _add(name, static_shared_vector_cast<const void>(V));
         return *this;
     }
 
-- 
2.43.0


From f54454c16f80b951b09d7d3589cb5324110965bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 41/64] fix: createRequest ignores record options of one or two
 characters

---
 src/copy/createRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 2616550..f0ac073 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -369,7 +369,7 @@ struct CreateRequestImpl {
                         throw std::runtime_error(request.substr(offsetRecord) +
                             "record[ does not have matching ]");
                     }
-                    if(closeBracket-openBracket > 3) {
+                    if(closeBracket-openBracket > 1) {
                         Node node("record");
                         Node optNode = createRequestOptions(
                                 request.substr(openBracket+1,closeBracket-openBracket-1));
-- 
2.43.0


From af49d80b1bd4d0f45fe29db4dd2b49978bb9e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 42/64] fix: createRequest accepts a list of fields that ends
 with a comma

---
 src/copy/createRequest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index f0ac073..25fc9fc 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -236,7 +236,7 @@ struct CreateRequestImpl {
             createSubNode(subNode,subRequest);
             node.nodes.push_back(subNode);
             size_t next = endField+1;
-            if(next>=request.size()) {
+            if(next>request.size()) { // no ',' follows
                 fullFieldName = saveFullName;
                 return;
             }
@@ -259,7 +259,7 @@ struct CreateRequestImpl {
             createSubNode(subNode,subRequest);
             node.nodes.push_back(subNode);
             size_t next = endBrace + 1;
-            if(next>=request.size()) {
+            if(next>request.size()) { // no ',' follows
                 fullFieldName = saveFullName;
                 return;
             }
-- 
2.43.0


From a7367acabeefc7520514ea8193368c228d3b05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 43/64] fix: createRequest takes a field whose name ends like a
 section for that section

---
 src/copy/createRequest.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 25fc9fc..aa7d6c3 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -3,6 +3,7 @@
  * found in the file LICENSE that is included with the distribution
  */
 
+#include <ctype.h>
 #include <string>
 #include <sstream>
 
@@ -66,6 +67,22 @@ struct CreateRequestImpl {
         }
     }
 
+    // find a section, which is not inside another section and not the tail of a longer name
+    size_t findSection(string const & request, string const & name) {
+        int depth = 0;
+        for(size_t i=0; i<request.size(); ++i) {
+            char chr = request[i];
+            if(depth==0 && request.compare(i,name.size(),name)==0
+            && (i==0 || (!isalnum((unsigned char)request[i-1]) && request[i-1]!='_' && request[i-1]!='.')))
+            {
+                return i;
+            }
+            if(chr=='(' || chr=='[' || chr=='{') depth++;
+            if(chr==')' || chr==']' || chr=='}') depth--;
+        }
+        return string::npos;
+    }
+
     size_t findMatchingBrace(string& request, size_t index, int numOpen) {
         size_t openBrace = request.find('{', index+1);
         size_t closeBrace = request.find('}', index+1);
@@ -320,17 +337,17 @@ struct CreateRequestImpl {
             {
                 return fieldCreate->createStructure()->build();
             }
-            size_t offsetRecord = request.find("record[");
-            size_t offsetField = request.find("field(");
-            size_t offsetPutField = request.find("putField(");
-            size_t offsetGetField = request.find("getField(");
+            size_t offsetRecord = findSection(request,"record[");
+            size_t offsetField = findSection(request,"field(");
+            size_t offsetPutField = findSection(request,"putField(");
+            size_t offsetGetField = findSection(request,"getField(");
             if(offsetRecord==string::npos
             && offsetField==string::npos
             && offsetPutField==string::npos
             && offsetGetField==string::npos)
             {
                  request = "field(" + request + ")";
-                 offsetField = request.find("field(");
+                 offsetField = findSection(request,"field(");
             }
             int numParan = 0;
             int numBrace = 0;
-- 
2.43.0


From 1765255964d8db9d00a01fb87872088f77c1b727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 44/64] fix: createRequest accepts text that follows the
 options of a field

---
 src/copy/createRequest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index aa7d6c3..5a3007f 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -206,6 +206,9 @@ struct CreateRequestImpl {
             fullFieldName = saveFullName;
             size_t next = endBracket+1;
             if(next<request.size()) {
+                if(request[next]!='.' && request[next]!='{' && request[next]!=',') {
+                    throw std::runtime_error(request + " illegal syntax after ]");
+                }
                 request = request.substr(0, end) + request.substr(endBracket+1);
             } else {
                 request = request.substr(0, end);
-- 
2.43.0


From 5c36a202fa6a42df0d34c74b99cf32328d656b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 45/64] fix: PVRequestMapper accepts an invalid request below
 the top level

---
 src/copy/requestmapper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 6fd2fcd..9647236 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -211,9 +211,9 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
             if(keepids)
                 builder = builder->setId(substruct.getStructure()->getID());
 
-            _compute(substruct,
-                     static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
-                     builder, keepids, depth+1u);
+            ok &= _compute(substruct,
+                           static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
+                           builder, keepids, depth+1u);
 
             builder = builder->endNested();
         }
-- 
2.43.0


From a634137a649436823ff150a5d42535b534653e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 46/64] fix: PVRequestMapper takes the options of a requested
 field for a selection below it

---
 src/copy/requestmapper.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 9647236..12e1ebf 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -23,6 +23,22 @@ static const unsigned maxDepth = 5;
 
 namespace epics{namespace pvData {
 
+namespace {
+// name of the structure which holds the options of a field.  Not a field to be selected.
+const char optionsName[] = "_options";
+
+// whether fields below are selected
+bool hasSelection(const Structure& req)
+{
+    const StringArray& names = req.getFieldNames();
+    for(size_t i=0, N=names.size(); i<N; i++) {
+        if(names[i]!=optionsName)
+            return true;
+    }
+    return false;
+}
+}
+
 PVRequestMapper::PVRequestMapper() {}
 
 PVRequestMapper::PVRequestMapper(const PVStructure &base,
@@ -159,6 +175,9 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
     for(size_t i=0, N=reqNames.size(); i<N; i++) {
         // iterate through requested fields
 
+        if(reqNames[i]==optionsName)
+            continue;
+
         PVField::const_shared_pointer subtype(base.getSubField(reqNames[i]));
         const FieldConstPtr& subReq = pvReq.getStructure()->getFields()[i];
 
@@ -180,7 +199,7 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
 
         } else if(depth>=maxDepth // exceeds max recursion depth
                   || subtype->getField()->getType()!=structure // requested field is a leaf
-                  || static_cast<const Structure&>(*subReq).getFieldNames().empty() // requests all sub-fields
+                  || !hasSelection(static_cast<const Structure&>(*subReq)) // requests all sub-fields
                   )
         {
             // just add the whole thing
@@ -189,7 +208,7 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
                 maskRequested.set(j);
 
             if(subtype->getField()->getType()!=structure
-                    && !static_cast<const Structure&>(*subReq).getFieldNames().empty())
+                    && hasSelection(static_cast<const Structure&>(*subReq)))
             {
                 // attempt to select below a leaf field
                 std::ostringstream msg;
-- 
2.43.0


From 3f4171821efb2c33944554fd81d429b3a7e50a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:55 +0000
Subject: [PATCH 47/64] fix: PVRequestMapper in Mask mode aborts on a mask with
 fields which are not selected

---
 src/copy/requestmapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 12e1ebf..5c326e4 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -275,7 +275,7 @@ void PVRequestMapper::_map(const PVStructure& src, const BitSet& maskSrc,
         for(int32 i=scratch.nextSetBit(0), N=map.size(); i>=0 && i<N; i=scratch.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // not selected.  requested -> base mapping also has such holes in Mask mode
 
             } else if(M.leaf) {
                 // just copy
@@ -308,7 +308,7 @@ void PVRequestMapper::_mapMask(const BitSet& maskSrc,
         for(int32 i=maskSrc.nextSetBit(0), N=map.size(); i>=0 && i<N; i=maskSrc.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // not selected.  requested -> base mapping also has such holes in Mask mode
 
             } else {
                 maskDest.set(M.to);
-- 
2.43.0


From f53c1ca071d2cdf4e4ed4718f67c6d1139a45035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 48/64] fix: parseJSON loses its place in the structure when an
 array is expected and not given, or given twice

---
 src/json/parseinto.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 601fa4c..3b2da9c 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -25,8 +25,9 @@ struct context {
     struct frame {
         pvd::PVFieldPtr fld;
         pvd::BitSet *assigned;
+        bool inarray; // between start_array() and end_array()
         frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned)
-            :fld(fld), assigned(assigned)
+            :fld(fld), assigned(assigned), inarray(false)
         {}
     };
 
@@ -66,7 +67,7 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
         self->stack.pop_back();
         // structure at the top of the stack
 
-    } else if(type==pvd::scalarArray) {
+    } else if(type==pvd::scalarArray && back.inarray) {
         pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
 
         pvd::shared_vector<const void> carr;
@@ -182,7 +183,7 @@ int jtree_start_map(void * ctx)
         pvd::Type type = back.fld->getField()->getType();
         if(type==pvd::structure) {
             // will fill in
-        } else if(type==pvd::structureArray) {
+        } else if(type==pvd::structureArray && back.inarray) {
             // starting new element in structure array
             pvd::PVStructureArray* sarr(static_cast<pvd::PVStructureArray*>(back.fld.get()));
 
@@ -251,10 +252,11 @@ int jtree_start_array(void * ctx)
 {
     TRY {
         assert(!self->stack.empty());
-        pvd::PVFieldPtr& back(self->stack.back().fld);
-        pvd::Type type = back->getField()->getType();
-        if(type!=pvd::structureArray && type!=pvd::scalarArray)
+        context::frame& back = self->stack.back();
+        pvd::Type type = back.fld->getField()->getType();
+        if(back.inarray || (type!=pvd::structureArray && type!=pvd::scalarArray))
             throw std::runtime_error("Can't assign array");
+        back.inarray = true;
 
         return 1;
     }CATCH()
-- 
2.43.0


From b0c3e99161f0649bebd7153a51d83f71dd22c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 49/64] fix: parseJSON adds to arrays instead of assigning
 them, and cannot assign arrays of fixed size

---
 src/json/parseinto.cpp | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 3b2da9c..34b4a5b 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -26,6 +26,9 @@ struct context {
         pvd::PVFieldPtr fld;
         pvd::BitSet *assigned;
         bool inarray; // between start_array() and end_array()
+        // elements so far, while inarray
+        pvd::shared_vector<void> elems;
+        pvd::PVStructureArray::svector selems;
         frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned)
             :fld(fld), assigned(assigned), inarray(false)
         {}
@@ -68,20 +71,15 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
         // structure at the top of the stack
 
     } else if(type==pvd::scalarArray && back.inarray) {
-        pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
-
-        pvd::shared_vector<const void> carr;
-        fld->getAs(carr);
-
-        switch(carr.original_type())
+        switch(back.elems.original_type())
         {
 #define CASE_STRING
 #define CASE_REAL_INT64
 #define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case epics::pvData::pv##PVACODE: { \
-            pvd::shared_vector<const PVATYPE> arr(pvd::static_shared_vector_cast<const PVATYPE>(carr)); \
-            pvd::shared_vector<PVATYPE> tarr(pvd::thaw(arr)); \
+            pvd::shared_vector<PVATYPE> tarr(pvd::static_shared_vector_cast<PVATYPE>(back.elems)); \
+            back.elems.clear(); \
             tarr.push_back(pvd::castUnsafe<PVATYPE>(val)); \
-            carr = pvd::static_shared_vector_cast<const void>(pvd::freeze(tarr)); \
+            back.elems = pvd::static_shared_vector_cast<void>(tarr); \
             } break;
 #include <pv/typemap.h>
 #undef CASE
@@ -89,8 +87,6 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
 #undef CASE_STRING
         }
 
-        fld->putFrom(carr);
-
         // leave array field at top of stack
 
     } else if(type==pvd::union_) {
@@ -232,16 +228,7 @@ int jtree_end_map(void * ctx)
 
         if(!self->stack.empty() && self->stack.back().fld->getField()->getType()==pvd::structureArray) {
             // append element to struct array
-            pvd::PVStructureArray *sarr = static_cast<pvd::PVStructureArray*>(self->stack.back().fld.get());
-
-            pvd::PVStructureArray::const_svector cval;
-            sarr->swap(cval);
-
-            pvd::PVStructureArray::svector val(pvd::thaw(cval));
-
-            val.push_back(std::tr1::static_pointer_cast<pvd::PVStructure>(elem.fld));
-
-            sarr->replace(pvd::freeze(val));
+            self->stack.back().selems.push_back(std::tr1::static_pointer_cast<pvd::PVStructure>(elem.fld));
         }
 
         return 1;
@@ -257,6 +244,9 @@ int jtree_start_array(void * ctx)
         if(back.inarray || (type!=pvd::structureArray && type!=pvd::scalarArray))
             throw std::runtime_error("Can't assign array");
         back.inarray = true;
+        if(type==pvd::scalarArray)
+            back.elems = pvd::ScalarTypeFunc::allocArray(
+                        static_cast<pvd::PVScalarArray*>(back.fld.get())->getScalarArray()->getElementType(), 0);
 
         return 1;
     }CATCH()
@@ -265,9 +255,15 @@ int jtree_end_array(void * ctx)
 {
     TRY {
         assert(!self->stack.empty());
+        context::frame& back = self->stack.back();
 
-        if(self->stack.back().assigned)
-            self->stack.back().assigned->set(self->stack.back().fld->getFieldOffset());
+        if(back.fld->getField()->getType()==pvd::scalarArray)
+            static_cast<pvd::PVScalarArray*>(back.fld.get())->putFrom(pvd::freeze(back.elems));
+        else
+            static_cast<pvd::PVStructureArray*>(back.fld.get())->replace(pvd::freeze(back.selems));
+
+        if(back.assigned)
+            back.assigned->set(back.fld->getFieldOffset());
         self->stack.pop_back();
         return 1;
     }CATCH()
-- 
2.43.0


From 90690120c9cf1cf8a2be02bc216d79a5c46d0070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 50/64] fix: Timer waits too long after a slow callback

The time to the next callback was computed with the time read before
the expired callbacks ran.
---
 src/misc/timer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 14a207b..7cc7237 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -89,6 +89,7 @@ void Timer::run()
     epicsGuard<epicsMutex> G(mutex);
 
     epicsTime now(epicsTime::getCurrent());
+    bool ran = false; // since 'now' was updated
 
     while(alive) {
         double waitfor;
@@ -121,6 +122,12 @@ void Timer::run()
             }
 
             // don't update 'now' until all expired jobs run
+            ran = true;
+
+        } else if(ran) {
+            // all expired jobs have run
+            now = epicsTime::getCurrent();
+            ran = false;
 
         } else {
             waiting = true;
-- 
2.43.0


From 34e4b6c183f11b8fb19cbcbec295167b7d7434cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 51/64] fix: Timer::close notifies callbacks which were
 cancelled meanwhile

Also onList was written without holding the lock.
---
 src/misc/timer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 7cc7237..377ec17 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -160,7 +160,12 @@ void Timer::close() {
 
     for(;!temp.empty(); temp.pop_front()) {
         TimerCallbackPtr& head = temp.front();
-        head->onList = false;
+        {
+            Lock xx(mutex);
+            if(!head->onList)
+                continue; // cancelled meanwhile
+            head->onList = false;
+        }
         head->timerStopped();
     }
 }
-- 
2.43.0


From 4af214d3473be7ea7068dc3b93773dc985e68bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 52/64] fix: Timer aborts when a callback schedules itself as
 periodic

A callback which is queued again while it is called must not be added
a second time.
---
 src/misc/timer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 377ec17..cc9fa19 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -116,7 +116,8 @@ void Timer::run()
                 work->callback();
             }
 
-            if(work->period > 0.0 && alive) {
+            // the callback may have been scheduled again meanwhile
+            if(work->period > 0.0 && alive && !work->onList) {
                 work->timeToRun += work->period;
                 addElement(work);
             }
-- 
2.43.0


From 3417554a1331dfa9e08dacbc2384f28b53dd6cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 53/64] fix: Timer::cancel has no effect on a periodic callback
 while it is called

---
 src/misc/timer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index cc9fa19..187c437 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -60,7 +60,13 @@ void Timer::addElement(TimerCallbackPtr const & timerCallback)
 bool Timer::cancel(TimerCallbackPtr const &timerCallback)
 {
     Lock xx(mutex);
-    if(!timerCallback->onList) return false;
+    if(!timerCallback->onList) {
+        // a periodic callback which is being called right now is not queued again
+        const bool calling = alive && timerCallback->period > 0.0;
+        timerCallback->period = 0.0;
+        return calling;
+    }
+    timerCallback->period = 0.0;
     if(!alive) {
         timerCallback->onList = false;
         return true;
@@ -116,7 +122,7 @@ void Timer::run()
                 work->callback();
             }
 
-            // the callback may have been scheduled again meanwhile
+            // the callback may have been scheduled again, or cancelled, meanwhile
             if(work->period > 0.0 && alive && !work->onList) {
                 work->timeToRun += work->period;
                 addElement(work);
-- 
2.43.0


From 4f7c02fc7232c80f38279bf06127a75e86198ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 54/64] fix: Timer::close drops a periodic callback which is
 being called

It is neither called again nor told that the timer stopped.
---
 src/misc/timer.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 187c437..9b421a9 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -123,9 +123,15 @@ void Timer::run()
             }
 
             // the callback may have been scheduled again, or cancelled, meanwhile
-            if(work->period > 0.0 && alive && !work->onList) {
-                work->timeToRun += work->period;
-                addElement(work);
+            if(work->period > 0.0 && !work->onList) {
+                if(alive) {
+                    work->timeToRun += work->period;
+                    addElement(work);
+                } else {
+                    epicsGuardRelease<epicsMutex> U(G);
+
+                    work->timerStopped();
+                }
             }
 
             // don't update 'now' until all expired jobs run
-- 
2.43.0


From e905554c2a01f151a20ba480a8f00d7334353dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 55/64] fix: Thread::Config::name() followed by << overwrites
 the name

ostringstream::str() leaves the write position at the start.
---
 src/misc/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/thread.cpp b/src/misc/thread.cpp
index cca111d..2cac82b 100644
--- a/src/misc/thread.cpp
+++ b/src/misc/thread.cpp
@@ -68,7 +68,7 @@ Thread::Config::Config(std::function<void()>&& fn) {this->x_setdefault();this->r
 #endif
 
 Thread::Config& Thread::Config::name(const std::string& n)
-{ this->p_strm.str(n); return *this; }
+{ this->p_strm.str(""); this->p_strm << n; return *this; }
 
 Thread::Config& Thread::Config::prio(unsigned int p)
 { this->p_prio = p; return *this; }
-- 
2.43.0


From 425cf1db764a8eec46e4a09356c4cf8612c8be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 56/64] fix: epicsRefSnapshotCurrent() always gives an empty
 string

Only counters with a non-zero delta are printed, and all deltas of a new
snapshot are zero.
---
 src/misc/reftrack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index 7c1a88a..5cc1b17 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -270,7 +270,8 @@ char* epicsRefSnapshotCurrent()
         epics::RefSnapshot snap;
         snap.update();
         std::ostringstream strm;
-        strm<<snap;
+        // no previous snapshot, so the delta of each counter is its value
+        strm<<(snap-epics::RefSnapshot());
         std::string str = strm.str();
         char *ret = (char*)malloc(str.length()+1);
         if(ret)
-- 
2.43.0


From 690cd7b5d66db39116260b773fde5e38ee491ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 57/64] fix: swapping two debug shared_ptr to the same object
 drops one from the list

---
 src/misc/debugPtr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index 3cd3210..01c2f01 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -73,6 +73,8 @@ void shared_ptr_base::track_clear()
 
 void shared_ptr_base::swap(shared_ptr_base &o)
 {
+    if(track==o.track)
+        return; // both, or none, are listed already
     // we cheat a bit here to avoid lock order, and to lock only twice
     if(track) {
         Guard G(track->mutex);
-- 
2.43.0


From ab9015da2741cd1a797808cbeb6808a40b2d0691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 58/64] fix: debug shared_ptr made from unique_ptr is not
 tracked

and shared_from_this() of its object fails.
---
 src/misc/pv/debugPtr.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 3ce0771..e5619c0 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -153,7 +153,13 @@ public:
 
     // takeover from unique_ptr
     template<typename A>
-    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base(), real(a.release()) {track_new();}
+    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base() {
+        A *ptr = a.get();
+        real = std::move(a);
+        track_new(ptr);
+        if(ptr)
+            do_enable_shared_from_this(*this, ptr);
+    }
 
     ~shared_ptr() {}
 
-- 
2.43.0


From 7bcf0dd63e27a64309c342215c76b96d99569753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 59/64] fix: NULL debug shared_ptr from a cast or lock() is
 listed as reference

---
 src/misc/pv/debugPtr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index e5619c0..6e681d8 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -126,7 +126,7 @@ class shared_ptr : public shared_ptr_base {
 
     // ctor for casts
     shared_ptr(const real_type& r, const ptr_base::track_t& t)
-        :shared_ptr_base(t), real(r)
+        :shared_ptr_base(r ? t : ptr_base::track_t()), real(r)
     {track_new();}
 public:
     typedef typename real_type::element_type element_type;
-- 
2.43.0


From f2b56444c206e44753b4f65cdaab69d18f10b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 60/64] fix: data race between debug shared_ptr and show_refs()

The stack of a pointer was stored after the pointer could be found by
show_refs() in another thread.
---
 src/misc/debugPtr.cpp | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index 01c2f01..6e4cf29 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -27,23 +27,20 @@ struct tracker {
 
 void shared_ptr_base::track_new()
 {
+    snap_stack(); // before we can be found by show_refs()
     if(track) {
         Guard G(track->mutex);
         track->refs.insert(this);
     }
-    snap_stack();
 }
 
 // create new tracker if ptr!=nullptr, otherwise clear
 void shared_ptr_base::track_new(const void* ptr)
 {
     track_clear();
-    if(ptr){
+    if(ptr)
         track.reset(new tracker);
-        Guard G(track->mutex);
-        track->refs.insert(this);
-    }
-    snap_stack();
+    track_new();
 }
 
 void shared_ptr_base::track_assign(const shared_ptr_base &o)
@@ -51,11 +48,7 @@ void shared_ptr_base::track_assign(const shared_ptr_base &o)
     if(track!=o.track) {
         track_clear();
         track = o.track;
-        if(track) {
-            Guard G(track->mutex);
-            track->refs.insert(this);
-        }
-        snap_stack();
+        track_new();
     }
 }
 
@@ -75,21 +68,18 @@ void shared_ptr_base::swap(shared_ptr_base &o)
 {
     if(track==o.track)
         return; // both, or none, are listed already
-    // we cheat a bit here to avoid lock order, and to lock only twice
     if(track) {
         Guard G(track->mutex);
-        track->refs.insert(&o);
         track->refs.erase(this);
     }
-    track.swap(o.track);
-    if(track) {
-        Guard G(track->mutex);
-        track->refs.insert(this);
-        track->refs.erase(&o);
+    if(o.track) {
+        Guard G(o.track->mutex);
+        o.track->refs.erase(&o);
     }
+    track.swap(o.track);
     //TODO: keep original somehow???
-    snap_stack();
-    o.snap_stack();
+    track_new();
+    o.track_new();
 }
 
 void shared_ptr_base::snap_stack()
-- 
2.43.0


From 8cb21f4352639b47374d3861d71b7a6e3cebbe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 61/64] fix: escape() prints the digit 9 of a \x escape as '@'

---
 src/factory/printer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 846f2de..cdbe8af 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -466,7 +466,7 @@ std::ostream& operator<<(std::ostream& strm, const PVStructure::Formatter& forma
 
 static char hexdigit(char c) {
     c &= 0xf;
-    if(c<9)
+    if(c<10)
         return '0'+c;
     else
         return 'A'+c-10;
-- 
2.43.0


From fbdc4e8b87748ded2bd836ffb0e96f0708c61700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:39 +0000
Subject: [PATCH 62/64] fix: printing a sub-structure lost all of its fields

---
 src/factory/printer.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index cdbe8af..9b72dc3 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -286,14 +286,16 @@ bool printTable(std::ostream& strm, const PVStructure& top)
 }
 
 void expandBS(const PVStructure& top, BitSet& mask, bool parents) {
-    if(mask.get(0)) { // special handling because getSubField(0) not allowed
+    // bits are field offsets, which for a sub-structure don't start at zero
+    const int32 begin = top.getFieldOffset(), end = top.getNextFieldOffset();
+    if(mask.get(0) || mask.get(begin)) { // special handling because getSubField() of self not allowed
         // wildcard
-        for(size_t idx=1, N=top.getNumberFields(); idx<N; idx++) {
+        for(int32 idx=begin; idx<end; idx++) {
             mask.set(idx);
         }
 
     } else {
-        for(int32 idx = mask.nextSetBit(0), N=top.getNumberFields(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
+        for(int32 idx = mask.nextSetBit(begin+1); idx>=0 && idx<end; idx=mask.nextSetBit(idx+1)) {
             PVField::const_shared_pointer fld = top.getSubFieldT(idx);
 
             // look forward and mark all children
@@ -326,7 +328,7 @@ void printRaw(std::ostream& strm, const PVStructure::Formatter& format, const PV
         if(format.xshow)
             show = *format.xshow;
         else
-            show.set(0);
+            show.set(format.xtop.getFieldOffset());
 
         if(format.xhighlight)
             highlight = *format.xhighlight;
@@ -336,7 +338,7 @@ void printRaw(std::ostream& strm, const PVStructure::Formatter& format, const PV
         highlight &= show; // can't highlight hidden fields (paranoia)
     }
 
-    if(!show.get(0)) return; // nothing to do here...
+    if(!show.get(format.xtop.getFieldOffset())) return; // nothing to do here...
 
     todo.push_front(std::make_pair(&format.xtop, orig_indent));
 
@@ -407,7 +409,7 @@ std::ostream& operator<<(std::ostream& strm, const PVStructure::Formatter& forma
 #if EPICS_VERSION_INT>=VERSION_INT(7,0,6,1)
         opts.json5 = true;
 #endif
-        printJSON(strm, format.xtop, format.xshow ? *format.xshow : BitSet().set(0), opts);
+        printJSON(strm, format.xtop, format.xshow ? *format.xshow : BitSet().set(format.xtop.getFieldOffset()), opts);
         strm<<'\n';
         return strm;
 
-- 
2.43.0


From 1541dae8ad1e306b63166da2fc8fd775dbd40553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:39 +0000
Subject: [PATCH 63/64] fix: printJSON() of a sub-structure with a mask printed
 nothing

---
 src/json/jprint.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/json/jprint.cpp b/src/json/jprint.cpp
index 61b402a..22580ee 100644
--- a/src/json/jprint.cpp
+++ b/src/json/jprint.cpp
@@ -246,14 +246,16 @@ void show_field(args& A, const pvd::PVField* fld, const pvd::BitSet *mask)
 }
 
 void expandBS(const pvd::PVStructure& top, pvd::BitSet& mask, bool parents) {
-    if(mask.get(0)) { // special handling because getSubField(0) not allowed
+    // bits are field offsets, which for a sub-structure don't start at zero
+    const pvd::int32 begin = top.getFieldOffset(), end = top.getNextFieldOffset();
+    if(mask.get(0) || mask.get(begin)) { // special handling because getSubField() of self not allowed
         // wildcard
-        for(size_t idx=1, N=top.getNumberFields(); idx<N; idx++) {
+        for(pvd::int32 idx=begin; idx<end; idx++) {
             mask.set(idx);
         }
 
     } else {
-        for(pvd::int32 idx = mask.nextSetBit(0), N=top.getNumberFields(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
+        for(pvd::int32 idx = mask.nextSetBit(begin+1); idx>=0 && idx<end; idx=mask.nextSetBit(idx+1)) {
             pvd::PVField::const_shared_pointer fld = top.getSubFieldT(idx);
 
             // look forward and mark all children
@@ -290,7 +292,7 @@ void printJSON(std::ostream& strm,
     args A(strm, opts);
     pvd::BitSet emask(mask);
     expandBS(val, emask, true);
-    if(!emask.get(0)) return;
+    if(!emask.get(val.getFieldOffset())) return;
     show_struct(A, &val, &emask);
 }
 
-- 
2.43.0


From bcdb79631c1bdb766a3d880bc43f13ed97f43e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:25 +0000
Subject: [PATCH 64/64] fix: AnyScalar of byte or boolean type is printed as a
 raw character

---
 src/misc/anyscalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/anyscalar.cpp b/src/misc/anyscalar.cpp
index c140a97..4afd04f 100644
--- a/src/misc/anyscalar.cpp
+++ b/src/misc/anyscalar.cpp
@@ -145,7 +145,7 @@ const void* AnyScalar::bufferUnsafe() const {
 std::ostream& operator<<(std::ostream& strm, const AnyScalar& v)
 {
     switch(v.type()) {
-#define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case pv ## PVACODE: strm<<v._as<PVATYPE>(); break;
+#define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case pv ## PVACODE: strm<<print_cast(v._as<PVATYPE>()); break;
 #define CASE_REAL_INT64
 #define CASE_STRING
 #include "pv/typemap.h"
-- 
2.43.0

